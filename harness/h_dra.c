/* D19: disk resident arrays against a reference array: sections, transposes, layouts, outstanding requests, reopening */
#define MA_HEAP 400000
#include "hga.h"
#include "dra.h"
extern int NDRA_Create_config(int, int, dra_size_t *, char *, char *, int, dra_size_t *, int, int, int *);
static const struct { int nd, d[5]; } SH[] = { { 1, { 7 } }, { 2, { 5, 4 } }, { 2, { 3, 7 } }, { 3, { 3, 4, 3 } }, { 2, { 1, 6 } }, { 4, { 2, 3, 2, 3 } }, { 3, { 5, 1, 4 } }, { 1, { 1 } }, { 5, { 2, 1, 3, 2, 2 } }, { 2, { 3, 2 } } };
static const int DT[6] = { 4, 0, 1, 3, 5, 6 };
static const int CFG[7][2] = { { -1, -1 }, { 1, 1 }, { 1, 2 }, { 2, 2 }, { 3, 3 }, { 1, 3 }, { 4, 4 } };
static const int KD[5] = { D_REG, D_IRREG, D_BC, D_GHOST, D_RESTR };
static char what[300];
#define BAD(...) do { char b_[160]; snprintf(b_, 160, __VA_ARGS__); sim_fail("%s: %s", what, b_); } while (0)
static void getall(int g, RA *r, const char *w) { char q[400]; snprintf(q, 400, "%s: %s", what, w); GA_Sync(); cmp_all(g, r, q); GA_Sync(); }
static void setall(int g, RA *r) { GA_Sync(); if (!me) put_all(g, r); GA_Sync(); }
static int create(int nd, const int *d, int t, const char *fn, int mode, const int *req, const int *cfg) { dra_size_t dd[7], rq[7]; int i, h, rc; for (i = 0; i < nd; i++) dd[i] = d[i], rq[i] = req[i]; rc = cfg[0] == -1 && cfg[1] == -1 ? NDRA_Create(TY[t], nd, dd, "disk array", (char *)fn, mode, rq, &h) : NDRA_Create_config(TY[t], nd, dd, "disk array", (char *)fn, mode, rq, cfg[0], cfg[1], &h); if (rc) BAD("create gives %d", rc); return h; }
static void inq(int h, int t, int nd, const int *d, const char *fn) { int ty, n2, i; dra_size_t dd[8]; char nm[200], f[300]; int rc = NDRA_Inquire(h, &ty, &n2, dd, nm, f); if (rc || ty != TY[t] || n2 != nd || strcmp(f, fn)) BAD("inquire gives %d: type %d, %d dimensions, file %s", rc, ty, n2, f); for (i = 0; i < nd; i++) if (dd[i] != d[i]) BAD("inquire gives extent %ld", (long)dd[i]); if (strcmp(nm, "disk array")) BAD("inquire gives name '%s'", nm); }
static void fin(int *rq, int how) { int st, k, rc; if (how) for (k = 0; k < 300; k++) { rc = DRA_Probe(*rq, &st); if (rc) BAD("probe gives %d", rc); if (st == -1) break; } if (how == 1 && k == 300) BAD("a probed request never completes"); if (how != 1) { rc = DRA_Wait(*rq); if (rc) BAD("wait gives %d", rc); } }
static void ld1(dra_size_t *a, const int *b, int nd) { while (nd--) a[nd] = b[nd]; }
static void chunkreq(int nd, const int *d, int v, int *rq) { int i; for (i = 0; i < nd; i++) rq[i] = v == 0 ? -1 : v == 1 ? 2 : v == 2 ? (i & 1 ? 3 : 1) : v == 3 ? (i & 1 ? -1 : 2) : v == 4 ? (i ? -1 : 3) : v == 5 ? d[i] : (i & 1 ? 1 : 3); }
/* writes section s of the disk array from g2 (shifted), reads it back shifted elsewhere */
static void sect(long c, int tr) { int sh = c % 9; c /= 9; int cv = c % 7; c /= 7; int cf = c % 7; c /= 7; int t = DT[(sh + cv + cf) % 6], k = KD[(sh + 2 * cv + cf) % 5], nd = SH[sh].nd, i, rq, id[7], lo[MD], hi[MD], d2[MD], req[MD], q = 0, thin = opt_("sthin", 1), salt = 3; const int *d = SH[sh].d;
  chunkreq(nd, d, cv, req); for (i = 0; i < nd; i++) d2[tr ? nd - 1 - i : i] = d[i] + 1 + (i & 1); part_begin(); if (!kind_ok(k, nd, d2, cf & 1) || !kind_ok(k, nd, d, cf & 1)) k = D_REG;
  snprintf(what, 300, "%s array %s, request (%s), files/procs %d/%d, global array %s", TN[t], sv(nd, d), sv(nd, req), CFG[cf][0], CFG[cf][1], DN[k]);
  int g = mk(k, TY[t], nd, d, cf & 1, "g"), g2 = mk(k, TY[t], nd, d2, cf & 1, "g2"), g3 = mk(D_REG, TY[t], nd, d2, 0, "g3"); RA r = ra(t, nd, d), r2 = ra(t, nd, d2), r3 = ra(t, nd, d2); iota(&r, 1); setall(g, &r);
  int h = create(nd, d, t, "sub/arr", DRA_RW, req, CFG[cf]); inq(h, t, nd, d, "sub/arr"); int rc = NDRA_Write(g, h, &rq); if (rc) BAD("write gives %d", rc); fin(&rq, cv % 3); GA_Zero(g); rc = NDRA_Read(g, h, &rq); if (rc) BAD("read gives %d", rc); fin(&rq, cf % 3); getall(g, &r, "whole array"); GA_Zero(g3);
  memset(lo, 0, sizeof lo); memset(hi, 0, sizeof hi); do { if (q++ % thin) continue; int glo[MD], ghi[MD], s[MD], s2[MD], full = 1; dra_size_t dl[MD], dh[MD]; salt++; for (i = 0; i < nd; i++) { int j = tr ? nd - 1 - i : i; int off = (i + q) % 2 ? 1 + (i & 1) : 0; glo[j] = lo[i] + off; ghi[j] = hi[i] + off; } ld1(dl, lo, nd); ld1(dh, hi, nd); snprintf(what, 300, "%s array %s, request (%s), files/procs %d/%d, global array %s, section (%s)-(%s)%s", TN[t], sv(nd, d), sv(nd, req), CFG[cf][0], CFG[cf][1], DN[k], sv(nd, lo), sv(nd, hi), tr ? " transposed" : ""); (void)full;
    iota(&r2, salt); setall(g2, &r2); rc = NDRA_Write_section(tr, g2, glo, ghi, h, dl, dh, &rq); if (rc) BAD("write gives %d", rc); fin(&rq, q % 3); GA_Zero(g2); memcpy(s, lo, sizeof s); do { for (i = 0; i < nd; i++) { int j = tr ? nd - 1 - i : i; s2[j] = glo[j] + s[i] - lo[i]; } RE(r, s) = RE(r2, s2); IM(r, s) = IM(r2, s2); } while (nx(nd, lo, hi, s));
    GA_Zero(g); rc = NDRA_Read(g, h, &rq); if (rc) BAD("read gives %d", rc); fin(&rq, 0); getall(g, &r, "whole array after writing the section");
    for (i = 0; i < nd; i++) { int j = tr ? nd - 1 - i : i; int off = (i + q) % 2 ? 0 : 1; glo[j] = lo[i] + off; ghi[j] = hi[i] + off; } iota(&r3, salt + 50); setall(g3, &r3); rc = NDRA_Read_section(tr, g3, glo, ghi, h, dl, dh, &rq); if (rc) BAD("read gives %d", rc); fin(&rq, q / 3 % 3); memcpy(s, lo, sizeof s); do { for (i = 0; i < nd; i++) { int j = tr ? nd - 1 - i : i; s2[j] = glo[j] + s[i] - lo[i]; } RE(r3, s2) = RE(r, s); IM(r3, s2) = IM(r, s); } while (nx(nd, lo, hi, s)); getall(g3, &r3, "global array after reading the section");
  } while (nxpatch(nd, d, lo, hi));
  rc = DRA_Close(h); if (rc) BAD("close gives %d", rc); if (sim_open_files(me)) BAD("descriptors are left open after close"); rc = DRA_Open("sub/arr", cf & 1 ? DRA_R : DRA_RW, &h); if (rc) BAD("open gives %d", rc); inq(h, t, nd, d, "sub/arr"); GA_Zero(g); rc = NDRA_Read(g, h, &rq); if (rc) BAD("read gives %d", rc); fin(&rq, 0); getall(g, &r, "whole array after reopening"); rc = DRA_Delete(h); if (rc) BAD("delete gives %d", rc); if (!me && sim_file_count()) BAD("%d files are left", sim_file_count()); if (sim_open_files(me)) BAD("descriptors are left open"); (void)id; GA_Sync(); }
/* several requests outstanding on two disk arrays: disjoint sections written, then read, completed in every order */
static const int PERM[6][3] = { { 0, 1, 2 }, { 2, 1, 0 }, { 1, 2, 0 }, { 0, 2, 1 }, { 1, 0, 2 }, { 2, 0, 1 } };
static void multi(long c) { int sh = opt_("core", 0) ? 9 : 1 + c % 3; c /= 3; int cv = c % 7; c /= 7; int cf = c % 4; c /= 4; int pm = c % 6; c /= 6; int pr = c % 3, t = DT[(pm + cv) % 6], nd = SH[sh].nd, i, j, req[MD], h[2], rq[5], cut = 1 + cv % (SH[sh].d[0] - 1), tr = opt_("tr", 0); const int *d = SH[sh].d; int d2[MD]; for (i = 0; i < nd; i++) d2[tr ? nd - 1 - i : i] = d[i];
  chunkreq(nd, d, cv, req); part_begin(); snprintf(what, 300, "%s array %s, request (%s), files/procs %d/%d, three requests, order %d, probes %d", TN[t], sv(nd, d), sv(nd, req), CFG[cf][0], CFG[cf][1], pm, pr);
  int g = mk(D_REG, TY[t], nd, d2, 0, "g"), g2 = mk(D_REG, TY[t], nd, d2, 1, "g2"); RA r = ra(t, nd, d2), r2 = ra(t, nd, d2); iota(&r, 1); iota(&r2, 2); setall(g, &r); setall(g2, &r2); for (i = 0; i < 2; i++) h[i] = create(nd, d, t, i ? "b" : "/scr/a", DRA_RW, req, CFG[cf]); if (h[0] == h[1]) BAD("two disk arrays have the same handle");
  int lo[2][MD], hi[2][MD], gl[2][MD], gh[2][MD]; dra_size_t dl[2][MD], dh[2][MD]; for (j = 0; j < 2; j++) { for (i = 0; i < nd; i++) lo[j][i] = 0, hi[j][i] = d[i] - 1; if (j) lo[j][0] = cut; else hi[j][0] = cut - 1; for (i = 0; i < nd; i++) gl[j][tr ? nd - 1 - i : i] = lo[j][i], gh[j][tr ? nd - 1 - i : i] = hi[j][i]; ld1(dl[j], lo[j], nd); ld1(dh[j], hi[j], nd); }
  int z[MD], w, how; dra_size_t zl[MD], zh[MD]; for (i = 0; i < nd; i++) zl[i] = 0, zh[i] = d[i] - 1; int gz[MD], ge_[MD]; for (i = 0; i < nd; i++) gz[i] = 0, ge_[i] = d2[i] - 1; (void)z;
  int qz = opt_("core", 0); if (qz) sim_quiet();
  for (w = 0; w < 2; w++) { if (qz == w + 1) sim_resume(); else if (qz) sim_quiet(); /* two halves of a, all of b */
    if (w) { GA_Zero(g); GA_Zero(g2); }
    for (j = 0; j < 3; j++) { int rc = w == 0 ? (j < 2 ? NDRA_Write_section(tr, g, gl[j], gh[j], h[0], dl[j], dh[j], &rq[j]) : NDRA_Write_section(tr, g2, gz, ge_, h[1], zl, zh, &rq[j])) : (j < 2 ? NDRA_Read_section(tr, g, gl[j], gh[j], h[0], dl[j], dh[j], &rq[j]) : NDRA_Read_section(tr, g2, gz, ge_, h[1], zl, zh, &rq[j])); if (rc) BAD("request gives %d", rc); if (pr == 2) { int st; rc = DRA_Probe(rq[j], &st); if (rc) BAD("probe gives %d", rc); } }
    if (pr == 1) DRA_Flick(); for (j = 0; j < 3; j++) for (i = 0; i < j; i++) if (rq[i] == rq[j] && pr == 0) BAD("two outstanding requests have the same handle"); for (j = 0; j < 3; j++) { how = pr == 2 ? (j + pm) % 3 : 0; fin(&rq[PERM[pm][j]], how); } }
  if (qz) sim_quiet(); getall(g, &r, "array read in two requests"); getall(g2, &r2, "array read beside them"); for (i = 0; i < 2; i++) { int rc = DRA_Delete(h[i]); if (rc) BAD("delete gives %d", rc); } if (!me && sim_file_count()) BAD("%d files are left", sim_file_count()); GA_Sync(); }
void scen_main(int rank, int np_) { gboot(); const char *s = sim_scenario(); long c, i, thin = opt_("thin", 1), per = opt_("per", 1); if (DRA_Init(opt_("maxarr", 8), 1e6, 1e7, 1e6)) sim_fail("DRA_Init fails");
  if (opt_("deff", 0)) DRA_Set_default_config(opt_("deff", 0), opt_("defp", 0));
  if (!strcmp(s, "multi")) { long tot = 3 * 7 * 4 * 6 * 3; sim_set_cases((tot + thin - 1) / thin); c = sim_begin() * thin; multi((c * 11) % tot); }
  else { long tot = 9 * 7 * 7; sim_set_cases((tot + thin - 1) / thin); c = sim_begin() * thin; sect(c % tot, !strcmp(s, "trans")); }
  { int st = 7, rq = DRA_REQ_INVALID; if (DRA_Probe(rq, &st) || st != -1 || DRA_Wait(rq)) sim_fail("no request is not complete"); }
  (void)i; (void)per; sim_barrier(); DRA_Terminate(); GA_Sync(); GA_Terminate(); MPI_Finalize(); }
