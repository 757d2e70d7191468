/* G13: ghost cells */
#include "hga.h"
static int K, nd, d[MD], var, t, g, W[MD]; static RA r; static char w[120];
#define F(...) do { char _b[300]; snprintf(_b, sizeof _b, __VA_ARGS__); sim_fail("%s: %s", w, _b); } while (0)
extern void pnga_update1_ghosts(long), pnga_update_ghosts(long); extern long pnga_update2_ghosts(long), pnga_update3_ghosts(long), pnga_update4_ghosts(long), pnga_update44_ghosts(long), pnga_update5_ghosts(long), pnga_update55_ghosts(long), pnga_update6_ghosts(long), pnga_update7_ghosts(long), pnga_set_update5_info(long);
static int lo[MD], hi[MD], gd[MD], ld[MD], own; static char *gp;
static void acc(void) { int gme = GA_Pgroup_nodeid(GA_Get_pgroup(g)), i; NGA_Distribution(g, gme, lo, hi); own = vol(nd, lo, hi) > 0; NGA_Access_ghosts(g, gd, &gp, ld); if (own) for (i = 0; i < nd; i++) { if (gd[i] != hi[i] - lo[i] + 1 + 2 * W[i]) F("access_ghosts: dimension %d is %d instead of %d", i, gd[i], hi[i] - lo[i] + 1 + 2 * W[i]); if (i && ld[i - 1] != gd[i]) F("access_ghosts: ld[%d] = %d, dimension %d", i - 1, ld[i - 1], gd[i]); } }
/* s: local index including ghosts. returns number of dimensions in which s is a ghost; refs the mirrored element */
static int mir(const int *s, int *e) { int i, k = 0; for (i = 0; i < nd; i++) { int v = lo[i] + s[i] - W[i]; if (v < lo[i] || v > hi[i]) k++; e[i] = ((v % d[i]) + d[i]) % d[i]; } return k; }
static long off(const int *s) { long o = 0; int i; for (i = 0; i < nd; i++) o = (i ? o * ld[i - 1] : 0) + s[i]; return o; }
#define EACH(s) int s[MD] = { 0 }, _h[MD], _l[MD] = { 0 }, _i; for (_i = 0; _i < nd; _i++) _h[_i] = gd[_i] - 1; do
#define ENDEACH(s) while (nx(nd, _l, _h, s))
static void fillown(int salt) { iota(&r, salt); if (own) { EACH(s) { int e[MD]; if (mir(s, e)) pe(gp, t, off(s), -7, -7); else pe(gp, t, off(s), RE(r, e), IM(r, e)); } ENDEACH(s); } gsync(g); }
/* depth: only ghosts outside in at most `depth` dimensions must be right; untouched: dims whose ghosts must still be the marker (bit mask of 1 << (2 * dim + up)), else -1 */
static void chk(const char *what, int depth) { if (own) { EACH(s) { int e[MD], k = mir(s, e); double x, y; ge(gp, t, off(s), &x, &y); if (k <= depth && (x != RE(r, e) || (CPLX(t) && y != IM(r, e)))) F("%s: %s cell at local index (%s), mirror of (%s), is %g,%g instead of %g,%g", what, k ? "ghost" : "owned", sv(nd, s), sv(nd, e), x, y, RE(r, e), IM(r, e)); sim_count(0, 1); } ENDEACH(s); } gsync(g); }
/* exactly the ghosts on the side (dim,dir) hold mirrored data, all other ghosts hold the marker */
static void chkside(const char *what, const int *mask, int exact) { if (own) { EACH(s) { int e[MD], k = mir(s, e), i, inside = 1; double x, y, X, Y; for (i = 0; i < nd; i++) { int v = lo[i] + s[i] - W[i], m = v < lo[i] ? -1 : v > hi[i] ? 1 : 0; if (m != mask[i]) inside = 0; } ge(gp, t, off(s), &x, &y); X = k && !inside ? -7 : RE(r, e); Y = k && !inside ? -7 : IM(r, e); if ((k == 0 || inside || exact) && (x != X || (CPLX(t) && y != Y))) F("%s: cell at local index (%s) is %g,%g instead of %g,%g", what, sv(nd, s), x, y, X, Y); } ENDEACH(s); } gsync(g); }
static void one(void) { int i, salt = 1, p3 = 1, m; for (i = 0; i < nd; i++) { W[i] = GW[i]; p3 *= 3; } sprintf(w, "%s var %d type %s dims (%s) widths (%s)%s", DN[K], var, TN[t], sv(nd, d), sv(nd, W), grp0 ? " group" : ""); g = mk(K, TY[t], nd, d, var, "gh"); r = ra(t, nd, d); acc(); if (!GA_Has_ghosts(g)) F("has_ghosts is false");
  long G = g; fillown(salt++); GA_Update_ghosts(g); chk("update_ghosts", nd);
  fillown(salt++); GA_Set_ghost_corner_flag(g, 0); GA_Update_ghosts(g); chk("update_ghosts without corners", 1); GA_Set_ghost_corner_flag(g, 1); fillown(salt++); GA_Update_ghosts(g); chk("update_ghosts after corner flag", nd);
#define U(name, call) do { fillown(salt++); { call; } gsync(g); chk(name, nd); } while (0)
  U("update1_ghosts", pnga_update1_ghosts(G)); U("update2_ghosts", if (!pnga_update2_ghosts(G)) pnga_update1_ghosts(G)); if (opt_("u3", 0)) U("update3_ghosts", if (!pnga_update3_ghosts(G)) pnga_update1_ghosts(G)); U("update4_ghosts", if (!pnga_update4_ghosts(G)) pnga_update1_ghosts(G)); U("update44_ghosts", if (!pnga_update44_ghosts(G)) pnga_update1_ghosts(G));
  if (opt_("u5", 0)) { U("update55_ghosts", if (!pnga_update55_ghosts(G)) pnga_update1_ghosts(G)); U("update7_ghosts", if (!pnga_update7_ghosts(G)) pnga_update1_ghosts(G)); }
  { ga_nbhdl_t h; U("update_ghosts_nb", NGA_Update_ghosts_nb(g, &h); NGA_NbWait(&h)); }
  U("update_ghost_dir with corners", for (i = 0; i < nd; i++) { NGA_Update_ghost_dir(g, i, -1, 1); NGA_Update_ghost_dir(g, i, 1, 1); });
  fillown(salt++); for (i = 0; i < nd; i++) { NGA_Update_ghost_dir(g, i, -1, 0); NGA_Update_ghost_dir(g, i, 1, 0); } gsync(g); chk("update_ghost_dir without corners", 1);
  for (m = 0; m < 2 * nd; m++) { int mask[MD] = { 0 }; char b[80]; mask[m / 2] = m & 1 ? 1 : -1; sprintf(b, "update_ghost_dir(dim %d, dir %d) without corners", m / 2, mask[m / 2]); fillown(salt++); NGA_Update_ghost_dir(g, m / 2, mask[m / 2], 0); gsync(g); chkside(b, mask, 1); }
  for (m = 0; m < p3; m++) { int mask[MD], x = m; char b[80]; ga_nbhdl_t h; for (i = 0; i < nd; i++) { mask[i] = x % 3 - 1; x /= 3; } sprintf(b, "nbget_ghost_dir(%s)", sv(nd, mask)); fillown(salt++); int z0 = 0; for (i = 0; i < nd; i++) if (mask[i] && !W[i]) z0 = 1; if (own && m != p3 / 2 && !z0) { if (m & 1) { int64_t M6[MD]; for (i = 0; i < nd; i++) M6[i] = mask[i]; NGA_NbGet_ghost_dir64(g, M6, &h); } else NGA_NbGet_ghost_dir(g, mask, &h); NGA_NbWait(&h); } gsync(g); chkside(b, mask, 1); }
  /* ordinary transfers leave ghosts alone */
  { int z[MD] = { 0 }, zh[MD], l2[MD]; fillown(salt++); iota(&r, salt++); gsync(g); if (my == 0 || GA_Pgroup_nodeid(GA_Get_pgroup(g)) == 0) put_all(g, &r); gsync(g); int mask[MD]; for (i = 0; i < nd; i++) { mask[i] = 9; zh[i] = d[i] - 1; } chkside("put", mask, 1); (void)z; (void)zh; (void)l2; }
  U("update_ghosts", GA_Update_ghosts(g));
  /* access to single ghost elements */
  if (own) { EACH(s) { char *ep; int el[MD], e[MD], k = mir(s, e); double x, y; if ((off(s) * 7 + salt) % 3) continue; NGA_Access_ghost_element(g, &ep, s, el); ge(ep, t, 0, &x, &y); if (x != RE(r, e)) F("access_ghost_element(%s) shows %g instead of %g", sv(nd, s), x, RE(r, e)); for (i = 0; i < nd - 1; i++) if (el[i] != ld[i]) F("access_ghost_element: ld[%d] = %d instead of %d", i, el[i], ld[i]); NGA_Release_ghost_element(g, s); (void)k;
      int64_t s6[MD], l6[MD]; for (i = 0; i < nd; i++) s6[i] = s[i]; NGA_Access_ghost_element64(g, &ep, s6, l6); ge(ep, t, 0, &x, &y); if (x != RE(r, e)) F("access_ghost_element64(%s) shows %g instead of %g", sv(nd, s), x, RE(r, e)); for (i = 0; i < nd - 1; i++) if (l6[i] != ld[i]) F("access_ghost_element64: ld[%d] = %ld instead of %d", i, (long)l6[i], ld[i]); NGA_Release_ghost_element64(g, s6); } ENDEACH(s); } gsync(g);
  /* blocks including ghosts, and blocks elsewhere */
  if (own) { int bl[MD], bh[MD], step = 0; for (i = 0; i < nd; i++) bl[i] = bh[i] = -W[i]; /* all sub-boxes of [-W, d+W) */
    for (;;) { int q[MD] = { 0 }, e[MD], l2[MD], n2 = 1, ok = 1; for (i = 0; i < nd; i++) { e[i] = bh[i] - bl[i] + 1; n2 *= e[i]; if (e[i] > d[i]) ok = 0; if (i) l2[i - 1] = e[i]; } if (ok && (step++ + my) % (nd > 2 ? 23 : 5) == 0) { char *b = malloc((n2 + 1) * TS[t]); long o = 0; NGA_Get_ghost_block(g, bl, bh, b, l2); do { int s[MD]; double x, y; for (i = 0; i < nd; i++) s[i] = ((bl[i] + q[i]) % d[i] + d[i]) % d[i]; ge(b, t, o++, &x, &y); if (x != RE(r, s) || (CPLX(t) && y != IM(r, s))) F("get_ghost_block (%s)-(%s): element (%s) is %g,%g instead of %g,%g", sv(nd, bl), sv(nd, bh), sv(nd, s), x, y, RE(r, s), IM(r, s)); for (i = nd - 1; i >= 0; i--) { if (++q[i] < e[i]) break; q[i] = 0; } } while (i >= 0); free(b); sim_count(1, 1); }
      for (i = nd - 1; i >= 0; i--) { if (++bh[i] < d[i] + W[i]) break; if (++bl[i] < d[i] + W[i]) { bh[i] = bl[i]; break; } bl[i] = bh[i] = -W[i]; } if (i < 0) break; } }
  gsync(g); { int g2 = GA_Duplicate(g, "dup"), gg = g; g = g2; acc(); fillown(salt++); GA_Update_ghosts(g2); chk("update_ghosts of the duplicate", nd); g = gg; GA_Destroy(g2); } GA_Destroy(g); free(r.v); }
void scen_main(int rank, int np_) { gboot(); int mx = opt_("max", 5), nv = 2, i, nw = opt_("nw", 3); nd = opt_("nd", 2); long nds = 1; for (i = 0; i < nd; i++) nds *= mx; int sub = opt_("sub", 0); if (sub) { int l[16], c = 0; for (i = n - 1; i >= 0; i--) if (i != 1) l[c++] = i; grp0 = 1; if (me != 1) { int h = GA_Pgroup_create(l, c); if (sub == 1) GA_Pgroup_set_default(h); else { mkgrp = h; P = c; my = GA_Pgroup_nodeid(h); } } else in = 0; }
  part_begin(); sim_set_cases(nds * 2 * nv * nw); long c = sim_begin(); int wi; K = c % 2 ? D_GHIRREG : D_GHOST; c /= 2; var = c % nv; c /= nv; wi = c % nw; c /= nw; t = c % 7; for (i = 0; i < nd; i++) { d[i] = opt_("min", 1) + c % mx; c /= mx; GW[i] = wi == 0 ? 1 : wi == 1 ? 1 + (i & 1) : wi == 2 ? 2 - (i & 1) : wi == 3 ? (i & 1) : 1 - (i & 1); if (nd == 1) GW[i] = wi + 1; }
  if (in && kind_ok(K, nd, d, var)) one(); sim_barrier(); if (in) { if (mkgrp >= 0) GA_Pgroup_sync(mkgrp); else GA_Sync(); } if (sub) GA_Pgroup_set_default(GA_Pgroup_get_world()); GA_Terminate(); MPI_Finalize(); }
