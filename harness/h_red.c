/* G16: reductions and broadcasts, GA and message layer, world / group / default group */
#include "hga.h"
static const char *OPS[] = { "+", "*", "max", "min", "absmax", "absmin", "or", "&&", "||", "&", "|", "land", "lor", "band", "bor" };
#define NOPI 15
#define NOPF 6
static int G_ = -1, gl[16], gn, gme = -1; static char w[200];
/* value of element i on the member with index r */

typedef struct { double r, i; } Zv;
static Zv val(int t, int op, int r, long i, int salt) { Zv z = { 0, 0 }; static const int A[8] = { 3, -5, 0, 7, -7, 1, -2, 5 }; int v = A[(r * 3 + i * 5 + salt + r * i) & 7]; if (op == 1) { static const int B[4] = { 1, -2, 3, -1 }; v = B[(r + i + salt) & 3]; } if (op >= 6) v = (int)((r * 11 + i * 7 + salt * 5) % 13) & ((r + i + salt) % 3 ? 15 : 0); if (op == 7 || op == 8 || op == 11 || op == 12) v = (r + i + salt) % 3 != 0 ? v + 1 : (i & 1); z.r = v; if (CPLX(t)) z.i = A[(r + i + salt + 4) & 7]; return z; }
static double fold(int op, double a, double b) { long x = (long)a, y = (long)b; switch (op) { case 0: return a + b; case 1: return a * b; case 2: return a > b ? a : b; case 3: return a < b ? a : b; case 4: return fabs(a) > fabs(b) ? fabs(a) : fabs(b); case 5: return fabs(a) < fabs(b) ? fabs(a) : fabs(b); case 6: case 10: case 14: return x | y; case 7: case 11: return x && y; case 8: case 12: return x || y; default: return x & y; } }
static Zv want(int t, int op, int m, long i, int salt) { int r; Zv a = val(t, op, 0, i, salt); if (op == 4 || op == 5) a.r = fabs(a.r); if (m == 1 && (op == 7 || op == 8 || op == 11 || op == 12)) return a; for (r = 1; r < m; r++) { Zv b = val(t, op, r, i, salt); a.r = fold(op, a.r, b.r); if (CPLX(t)) a.i = fold(op, a.i, b.i); } return a; }
static int AT[7] = { ARMCI_INT, ARMCI_LONG, ARMCI_LONG_LONG, ARMCI_FLOAT, ARMCI_DOUBLE, ARMCI_FLOAT, ARMCI_DOUBLE };
enum { V_GA, V_PG_WORLD, V_PG, V_DEF, V_MSG, V_MSGGRP, V_REDUCE, V_SCOPE, V_NGA, V_NPG, V_DEFMSG, NV };
static const char *VN[] = { "GA_*gop", "GA_Pgroup_*gop(world)", "GA_Pgroup_*gop(group)", "GA_*gop, group as default", "armci_msg_*gop", "armci_msg_group_*gop", "armci_msg_reduce", "armci_msg_gop_scope", "NGA_*gop", "NGA_Pgroup_*gop", "armci_msg_*gop, group as default" };
static void gop(int v, int t, void *x, int len, char *op) { int p = v == V_PG_WORLD ? GA_Pgroup_get_world() : G_; ARMCI_Group ag; int f2 = CPLX(t) ? 2 : 1;
  switch (v) { case V_DEF: GA_Pgroup_set_default(G_); case V_GA: switch (t) { case 0: GA_Igop(x, len, op); break; case 1: GA_Lgop(x, len, op); break; case 2: GA_Llgop(x, len, op); break; case 3: GA_Fgop(x, len, op); break; case 4: GA_Dgop(x, len, op); break; case 5: GA_Cgop(x, len, op); break; default: GA_Zgop(x, len, op); } if (v == V_DEF) GA_Pgroup_set_default(GA_Pgroup_get_world()); break;
    case V_NGA: if (t == 0) NGA_Igop(x, len, op); else if (t == 4) NGA_Dgop(x, len, op); else gop(V_GA, t, x, len, op); break;
    case V_PG: case V_PG_WORLD: switch (t) { case 0: GA_Pgroup_igop(p, x, len, op); break; case 1: GA_Pgroup_lgop(p, x, len, op); break; case 2: GA_Pgroup_llgop(p, x, len, op); break; case 3: GA_Pgroup_fgop(p, x, len, op); break; case 4: GA_Pgroup_dgop(p, x, len, op); break; case 5: GA_Pgroup_cgop(p, x, len, op); break; default: GA_Pgroup_zgop(p, x, len, op); } break;
    case V_NPG: switch (t) { case 0: NGA_Pgroup_igop(p, x, len, op); break; case 1: NGA_Pgroup_lgop(p, x, len, op); break; case 2: NGA_Pgroup_llgop(p, x, len, op); break; case 3: NGA_Pgroup_fgop(p, x, len, op); break; case 4: NGA_Pgroup_dgop(p, x, len, op); break; case 5: gop(V_PG, t, x, len, op); break; default: NGA_Pgroup_zgop(p, x, len, op); } break;
    case V_DEFMSG: GA_Pgroup_set_default(G_); ARMCI_Group_get_default(&ag); GA_Pgroup_set_default(GA_Pgroup_get_world()); goto grp;
    case V_MSGGRP: ARMCI_Group_get_world(&ag); grp: switch (t) { case 0: armci_msg_group_igop(x, len, op, &ag); break; case 1: armci_msg_group_lgop(x, len, op, &ag); break; case 2: armci_msg_group_llgop(x, len, op, &ag); break; case 3: case 5: armci_msg_group_fgop(x, f2 * len, op, &ag); break; default: armci_msg_group_dgop(x, f2 * len, op, &ag); } break;
    case V_MSG: switch (t) { case 0: armci_msg_igop(x, len, op); break; case 1: armci_msg_lgop(x, len, op); break; case 2: armci_msg_llgop(x, len, op); break; case 3: case 5: armci_msg_fgop(x, f2 * len, op); break; default: armci_msg_dgop(x, f2 * len, op); } break;
    case V_REDUCE: armci_msg_reduce(x, f2 * len, op, AT[t]); break; default: armci_msg_gop_scope(SCOPE_ALL, x, f2 * len, op, AT[t]); } }
static int ongroup(int v) { return v == V_PG || v == V_DEF || v == V_NPG || v == V_DEFMSG; }
static char buf[4][20000];
static void gopcase(int v, int t, int op, const int *len, int nseq, int salt) { int i, s, grp = ongroup(v); if (grp && gme < 0) return; int m = grp ? gn : n, r = grp ? gme : me; memset(buf, 0x5a, sizeof buf);
  for (s = 0; s < nseq; s++) { for (i = 0; i < len[s]; i++) { Zv z = val(t, op, r, i, salt + s); pe(buf[s], t, i, z.r, z.i); } }
  for (s = 0; s < nseq; s++) gop(v, t, buf[s], len[s], (char *)OPS[op]);
  for (s = 0; s < nseq; s++) { for (i = 0; i < len[s]; i++) { Zv z = want(t, op, m, i, salt + s); double x, y; if (m == 1 && (op == 7 || op == 8 || op == 11 || op == 12)) continue; ge(buf[s], t, i, &x, &y); if (x != z.r || (CPLX(t) && y != z.i)) sim_fail("%s %s of %s, length %d on %d processes: element %d is %g,%g instead of %g,%g", VN[v], OPS[op], TN[t], len[s], m, i, x, y, z.r, z.i); } char *e = buf[s] + len[s] * TS[t]; for (i = 0; i < 64; i++) if (e[i] != 0x5a) sim_fail("%s %s of %s, length %d: writes past the end", VN[v], OPS[op], TN[t], len[s]); sim_count(0, len[s]); } }
enum { B_GA, B_PGW, B_PG, B_DEF, B_MSG, B_BRD, B_SCOPE, B_PGS, NBV }; static const char *BVN[] = { "GA_Brdcst", "GA_Pgroup_brdcst(world)", "GA_Pgroup_brdcst(group)", "GA_Brdcst, group as default", "armci_msg_bcast", "armci_msg_brdcst", "armci_msg_bcast_scope", "GA_Pgroup_brdcst(group)" };
static void bc(int v, void *p, int len, int root) { switch (v) { case B_GA: GA_Brdcst(p, len, root); break; case B_PGW: GA_Pgroup_brdcst(GA_Pgroup_get_world(), p, len, root); break; case B_PG: case B_PGS: GA_Pgroup_brdcst(G_, p, len, root); break; case B_DEF: GA_Pgroup_set_default(G_); GA_Brdcst(p, len, root); GA_Pgroup_set_default(GA_Pgroup_get_world()); break; case B_MSG: armci_msg_bcast(p, len, root); break; case B_BRD: armci_msg_brdcst(p, len, root); break; default: armci_msg_bcast_scope(SCOPE_ALL, p, len, root); } }
static unsigned char pb(int root, int s, long i) { return root * 41 + s * 17 + i * 7 + (i >> 8) + 3; }
static void bcase(int v, int len, int root0, int nseq) { int s, grp = v == B_PG || v == B_DEF || v == B_PGS; long i; if (grp && gme < 0) return; int m = grp ? gn : n, r = grp ? gme : me; for (s = 0; s < nseq; s++) { int root = (root0 + s) % m; memset(buf[s], 0x5a, sizeof buf[s]); if (r == root) for (i = 0; i < len; i++) buf[s][i] = pb(root, s, i); } for (s = 0; s < nseq; s++) bc(v, buf[s], len, (root0 + s) % m);
  for (s = 0; s < nseq; s++) { int root = (root0 + s) % m; for (i = 0; i < len; i++) if ((unsigned char)buf[s][i] != pb(root, s, i)) sim_fail("%s of %d bytes from %d of %d: byte %ld wrong", BVN[v], len, root, m, i); for (i = len; i < len + 64; i++) if (buf[s][i] != 0x5a) sim_fail("%s of %d bytes: writes past the end", BVN[v], len); sim_count(0, len); } }
static const int LN[8] = { 1, 2, 3, 7, 16, 33, 129, 1025 }, BL[9] = { 1, 2, 7, 8, 64, 100, 1000, 4096, 16385 };
void scen_main(int rank, int np_) { gboot(); part_begin(); int i, shape = opt_("shape", 0), nl = opt_("lens", 8), traffic = opt_("traffic", 0); gn = 0; for (i = n - 1; i >= 0; i--) if (shape == 0 ? (n < 2 || i != n - 2) : shape == 1 ? i == n - 1 : 1) gl[gn++] = i; if (shape == 2) { gl[0] = 0; for (i = 1; i < n; i++) gl[i] = n - i; } { int j; for (i = 0; i < gn; i++) for (j = 0; j + 1 < gn - i; j++) if (gl[j] > gl[j + 1]) { int q = gl[j]; gl[j] = gl[j + 1]; gl[j + 1] = q; } } for (i = 0; i < gn; i++) if (gl[i] == me) gme = i; G_ = GA_Pgroup_create(gl, gn);
  int d = 4 * n, ga = 0; if (traffic) { ga = GA_Create_handle(); GA_Set_data(ga, 1, &d, C_INT); GA_Allocate(ga); GA_Zero(ga); }
  int isb = !strcmp(sim_scenario(), "brdcst"); long tot = isb ? NBV * (long)nl * n : NV * (7L * NOPF - 10 + 3 * (NOPI - NOPF)); int maxt = traffic ? opt_("cases", 24) : 0; long st = 1; if (traffic) { st = tot / maxt + 1; tot = (tot + st - 1) / st; } sim_set_cases(tot); long c = sim_begin() * st; if (st > 1) c = (c + (c / st) % st) % (tot * st);
  if (traffic && n > 1) { int to = (me + 1) % n, lo, hi, one = 1; long own; (void)own; lo = 4 * to; hi = lo + 3; int x[4] = { me, 1, 2, 3 }; NGA_Acc(ga, &lo, &hi, x, &one, &one); }
  if (isb) { int v = c % NBV; c /= NBV; int l = BL[c % nl], root = c / nl % n; bcase(v, l, root, traffic ? 2 : 3); }
  else { int v = c % NV, t, op, k; c /= NV; k = c; for (t = 0; t < 7; t++) { int no = t < 3 ? NOPI : t < 5 ? NOPF : 1; if (k < no) break; k -= no; } if (t < 7) { op = k; int a, ls[3]; for (a = 0; a < (traffic ? 1 : nl); a++) { ls[0] = LN[a]; ls[1] = LN[(a + 3) % nl]; ls[2] = LN[(a + 1) % nl]; gopcase(v, t, op, ls, traffic ? 2 : 3, a + op); } } }
  if (traffic) { GA_Sync(); int lo = 4 * me, hi = lo + 3, one = 1, x[4], i2; NGA_Get(ga, &lo, &hi, x, &one); if (n > 1) for (i2 = 0; i2 < 4; i2++) if (x[i2] != (i2 ? i2 : (me + n - 1) % n)) sim_fail("accumulate beside the collective lost: element %d is %d", i2, x[i2]); }
  sim_barrier(); GA_Sync(); GA_Terminate(); MPI_Finalize(); }
