/* C06: sequences of non-blocking operations, every order and kind of completion */
#include "hx.h"
#define NOPS 17
#define SLOT 256
static void *T[16]; static unsigned char *L;   /* local buffers, one slot per operation */
static void *buf_of(int i) { return L + i * SLOT; }
static unsigned char pat(int who, int i, int b) { return 17 + who * 31 + i * 7 + b * 3; }
/* the remote slot of operation i of rank o at its target: the targets' memory is divided by origin */
static unsigned char *rem(int o, int tgt, int i) { return (unsigned char *)T[tgt] + (o * 4 + i) * SLOT; }
static int kind_of(int op) { static const int k[NOPS] = { 0, 1, 2, 0, 1, 2, 0, 1, 2, 0, 0, 2, 0, 0, 1, 0, 1 }; return k[op]; }   /* 0 put 1 get 2 acc */
static int ss[1] = { 16 }, ds[1] = { 24 };
/* byte b of the buffer -> byte of the remote slot touched, -1 if none */
static int layout(int op, int b) {
  switch (op) { case 0: case 1: case 2: case 13: case 14: return b < 24 ? b : -1;
    case 3: case 4: case 5: case 11: { int seg = b / 16, o = b % 16; int len = op == 11 ? 16 : 8; return seg < 3 && o < len ? seg * 24 + o : -1; }
    case 6: case 7: case 8: { int seg = b / 16, o = b % 16; return seg < 3 && o < 8 ? (2 - seg) * 32 + o : -1; }
    case 9: return b < 8 ? b : -1; case 10: return b < 4 ? b : -1; case 12: return b < 24 ? b : -1; default: return b < 200 ? b : -1; } }
static void accval(int op, int who, int i, unsigned char *b) { int k; memset(b, 0x33, SLOT);
  for (k = 0; k < 6; k++) { if (op == 2) ((long *)b)[k] = who * 100 + i * 10 + k + 1; else if (op == 5) ((double *)b)[k] = who * 100 + i * 10 + k + 1; else if (op == 8) { ((int *)b)[2 * k] = who * 100 + i * 10 + k + 1; ((int *)b)[2 * k + 1] = k; } else ((double *)b)[k] = (k & 1) ? i + 1 : who * 10 + k + 1; } }
static void issue(int op, int i, int tgt, armci_hdl_t *h) { unsigned char *b = buf_of(i), *r = rem(me, tgt, i); static long s1 = 3; static double s2 = 3; static int s3 = 3; static double s4[2] = { 2, 1 }; int c8[2] = { 8, 3 }, c16[2] = { 16, 3 }, c0[1] = { 24 };
  void *lp[3] = { b, b + 16, b + 32 }, *rp[3] = { r + 64, r + 32, r }; armci_giov_t g; g.bytes = 8; g.ptr_array_len = 3;
  if (kind_of(op) == 2) accval(op, me, i, b); else for (int k = 0; k < SLOT; k++) b[k] = kind_of(op) ? 0x77 : pat(me, i, k);
  switch (op) {
    case 0: ARMCI_NbPut(b, r, 24, tgt, h); break; case 1: ARMCI_NbGet(r, b, 24, tgt, h); break;
    case 2: { int st[1] = { 8 }, c[2] = { 8, 3 }; ARMCI_NbAccS(ARMCI_ACC_LNG, &s1, b, st, r, st, c, 1, tgt, h); break; }
    case 3: ARMCI_NbPutS(b, ss, r, ds, c8, 1, tgt, h); break; case 4: ARMCI_NbGetS(r, ds, b, ss, c8, 1, tgt, h); break; case 5: ARMCI_NbAccS(ARMCI_ACC_DBL, &s2, b, ss, r, ds, c8, 1, tgt, h); break;
    case 6: g.src_ptr_array = lp; g.dst_ptr_array = rp; ARMCI_NbPutV(&g, 1, tgt, h); break; case 7: g.src_ptr_array = rp; g.dst_ptr_array = lp; ARMCI_NbGetV(&g, 1, tgt, h); break;
    case 8: g.src_ptr_array = lp; g.dst_ptr_array = rp; ARMCI_NbAccV(ARMCI_ACC_INT, &s3, &g, 1, tgt, h); break;
    case 9: { long v; memcpy(&v, b, 8); ARMCI_NbPutValueLong(v, r, tgt, h); break; } case 10: { int v; memcpy(&v, b, 4); ARMCI_NbPutValueInt(v, r, tgt, h); break; }
    case 11: ARMCI_NbAccS(ARMCI_ACC_DCP, s4, b, ss, r, ds, c16, 1, tgt, h); break; case 12: ARMCI_NbPutS(b, ss, r, ds, c0, 0, tgt, h); break;
    case 13: ARMCI_Put(b, r, 24, tgt); break; case 14: ARMCI_Get(r, b, 24, tgt); break; case 15: ARMCI_NbPut(b, r, 200, tgt, h); break; case 16: ARMCI_NbGet(r, b, 200, tgt, h); break; } }
static int blocking(int op) { return op == 13 || op == 14; }
static void expect_remote(int op, int o, int i, unsigned char *x) { int k; for (k = 0; k < SLOT; k++) x[k] = pat(o + 8, i, k); if (kind_of(op) == 2) memset(x, 0, SLOT);
  if (kind_of(op) == 0) { for (k = 0; k < SLOT; k++) { int t = layout(op, k); if (t >= 0) x[t] = pat(o, i, k); } }
  if (kind_of(op) == 2) { unsigned char b[SLOT]; accval(op, o, i, b); for (k = 0; k < 3; k++) { if (op == 2) ((long *)x)[k] = 3 * ((long *)b)[k]; else if (op == 5) *(double *)(x + 24 * k) = 3 * *(double *)(b + 16 * k); else if (op == 8) { int *d = (int *)(x + 32 * (2 - k)), *s = (int *)(b + 16 * k); d[0] = 3 * s[0]; d[1] = 3 * s[1]; } else { double *d = (double *)(x + 24 * k), *s = (double *)(b + 16 * k); d[0] = 2 * s[0] - s[1]; d[1] = 2 * s[1] + s[0]; } } } }
/* the operation is complete: check a get, then clobber the buffer */
static void settle(int op, int i) { unsigned char *b = buf_of(i); int k; if (kind_of(op) == 1) for (k = 0; k < SLOT; k++) { int t = layout(op, k); unsigned char w = t >= 0 ? pat(me + 8, i, t) : 0x77; if (b[k] != w) sim_fail("operation kind %d (slot %d): byte %d of the get's buffer is %d instead of %d after completion", op, i, k, b[k], w); }
  memset(b, 0xEE, SLOT); }
static void churn(void) { volatile char x[512]; int i; for (i = 0; i < 512; i++) x[i] = 0xDD; sim_yield(); }   /* reuse the stack */
void scen_main(int r, int np) { boot(); int K = sim_optint("K", 2), A = sim_optint("alpha", NOPS), M = sim_optint("modes", 8), org = sim_optint("origins", 2), i, j, o; if (org > n) org = n;
  static const int red[8] = { 0, 16, 2, 4, 15, 3, 8, 9 };
  ARMCI_Malloc(T, n * 4 * SLOT); L = malloc(4 * SLOT); long nc = 1; for (i = 0; i < K; i++) nc *= A; sim_set_cases(nc * M); ARMCI_Barrier(); long c = sim_begin(); int mode = c % M; c /= M; int op[4], op2[4]; for (i = 0; i < K; i++) { int a = c % A; c /= A; op[i] = A <= 8 ? red[a] : a; } for (i = 0; i < K; i++) op2[i] = op[K - 1 - i];
  int *mine = me == 0 ? op : op2; int tgts[4];
  for (o = 0; o < n; o++) for (i = 0; i < K; i++) { unsigned char *x = rem(o, me, i); int q = (o == 0 ? op : op2)[i]; for (j = 0; j < SLOT; j++) x[j] = kind_of(q) == 2 ? 0 : pat(o + 8, i, j); }
  for (i = 0; i < 4; i++) tgts[i] = (me + n - 1 - i + 4 * n) % n; ARMCI_Barrier();
  armci_hdl_t h[4]; if (me < org) {
    for (i = 0; i < K; i++) { ARMCI_INIT_HANDLE(&h[i]);
      if (mode == 6) { issue(mine[i], i, tgts[i], &h[0]); if (!blocking(mine[i])) { churn(); ARMCI_Wait(&h[0]); } settle(mine[i], i); }
      else { issue(mine[i], i, tgts[i], mode == 5 || (mode == 7 && i == 0) ? NULL : &h[i]); churn(); if (blocking(mine[i])) settle(mine[i], i); } }
    switch (mode) {
      case 0: for (i = 0; i < K; i++) if (!blocking(mine[i])) { ARMCI_Wait(&h[i]); settle(mine[i], i); } break;
      case 1: for (i = K - 1; i >= 0; i--) if (!blocking(mine[i])) { ARMCI_Wait(&h[i]); settle(mine[i], i); } break;
      case 2: ARMCI_WaitAll(); for (i = 0; i < K; i++) if (!blocking(mine[i])) settle(mine[i], i); break;
      case 3: for (i = 0; i < K; i++) if (!blocking(mine[i])) { ARMCI_WaitProc(tgts[i]); settle(mine[i], i); } break;
      case 4: for (i = K - 1; i >= 0; i--) if (!blocking(mine[i])) { while (ARMCI_Test(&h[i])) sim_yield(); settle(mine[i], i); } break;
      case 5: ARMCI_WaitAll(); for (i = 0; i < K; i++) if (!blocking(mine[i])) settle(mine[i], i); break;
      case 6: break;
      case 7: for (i = K - 1; i > 0; i--) if (!blocking(mine[i])) { ARMCI_Wait(&h[i]); settle(mine[i], i); } ARMCI_WaitAll(); if (!blocking(mine[0])) settle(mine[0], 0); break; }
    ARMCI_AllFence(); }
  ARMCI_Barrier();
  for (o = 0; o < n; o++) for (i = 0; i < K; i++) { unsigned char *x = rem(o, me, i), w[SLOT]; int q = (o == 0 ? op : op2)[i]; int t = (o + n - 1 - i + 4 * n) % n; if (o < org && t == me) expect_remote(q, o, i, w); else for (j = 0; j < SLOT; j++) w[j] = kind_of(q) == 2 ? 0 : pat(o + 8, i, j);
    if (memcmp(x, w, SLOT)) { for (j = 0; x[j] == w[j]; j++); sim_fail("operation kind %d (slot %d of rank %d, completion mode %d): byte %d at the target is %d instead of %d", q, i, o, mode, j, x[j], w[j]); } }
  sim_barrier();
  /* handles can be used again */
  if (me == 0) { long v = 5, z = 0; ARMCI_NbPut(&v, rem(0, n - 1, 0), 8, n - 1, &h[0]); ARMCI_Wait(&h[0]); ARMCI_Fence(n - 1); ARMCI_NbGet(rem(0, n - 1, 0), &z, 8, n - 1, &h[0]); ARMCI_Wait(&h[0]); CK(z == 5, "reused handle: read %ld", z); }
  ARMCI_Barrier(); }
