/* T23: TCGMSG messages, shared counter, collectives, file copy */
#include "hg.h"
#include "tcgmsg.h"
static void boot(void) { static char *av[2] = { "x", 0 }; tcg_pbegin(1, av); me = tcg_nodeid(); n = tcg_nnodes(); sim_ranks_expected(n); }
static void done(void) { sim_barrier(); tcg_synch(77); int f; ARMCI_Finalize(); MPI_Finalized(&f); if (!f) MPI_Finalize(); }
/* a message carries its sender, sequence number and type in every byte position */
static unsigned char mb(int from, int seq, int type, int len, int i) { return from * 67 + seq * 29 + type * 13 + len * 3 + i * 7 + (i >> 8) + 1; }
static void fill(unsigned char *b, int from, int to, int seq, int type, int len) { int i; for (i = 0; i < len; i++) b[i] = mb(from + 5 * to, seq, type, len, i); }
static int same(const unsigned char *b, int from, int to, int seq, int type, int len) { int i; for (i = 0; i < len; i++) if (b[i] != mb(from + 5 * to, seq, type, len, i)) return 0; return 1; }
#define BS 6000
static unsigned char rb[16][BS], sb[16][BS];
static const int LEN[4] = { 4, 56, 5000, 0 };
static int rd, T1 = 1, T2 = 2;
/* messages of sender s: types by pattern, lengths by pattern */
static int mtype(int pat, int s, int k) { static const int P[6][2][2] = { { { 0, 0 }, { 0, 0 } }, { { 0, 1 }, { 0, 1 } }, { { 1, 0 }, { 1, 0 } }, { { 0, 1 }, { 1, 0 } }, { { 0, 0 }, { 1, 1 } }, { { 1, 0 }, { 0, 1 } } }; return P[pat][s][k] ? T2 : T1; }
static int mlen(int lp, int s, int k) { return lp == 0 ? LEN[(k + s) % 2] : lp == 1 ? LEN[2 - k] : lp == 2 ? LEN[(s + k) % 3] : LEN[k ? 3 : 0]; }
typedef struct { int type, sel; } R;
static int nextseq[3][2];
static int byorder(int pat, int k) { return k; }
/* which message may this receive hold: next one of that type from the sender */
static void chk(const unsigned char *b, R r, int from, long len, int lp, int pat, const char *how) {
  int s, hit = -1, q = -1; for (s = 1; s <= 2 && hit < 0; s++) { if (r.sel >= 0 && s != r.sel) continue; if (from >= 0 && s != from) continue; int ti = r.type == T2, c = 0, k; for (k = 0; k < 2; k++) if (mtype(pat, s - 1, k) == r.type) { if (c == nextseq[s][ti]) break; c++; } if (k == 2) continue; int l = mlen(lp, s - 1, k);
    if (len >= 0 && len != l) continue; if (!same(b, s, 0, k + 10 * rd, r.type, l)) continue; if (b[l] != 0xEE) continue; hit = s; q = k; nextseq[s][ti]++; }
  if (hit < 0) sim_fail("%s receive of type %d from %d (reported sender %d, length %ld): not the next message of that type and sender", how, r.type, r.sel, from, len); sim_count(0, 1); }
static void p2p(long c) {
  int ssync = c % 2; c /= 2; int rmode = c % 3; c /= 3; int ord = c % 5; c /= 5; int pat = c % 6; c /= 6; int lp = c % 4; int rounds = opt_("rounds", 1); long from, len; int k, i, s;
  for (rd = 0; rd < rounds; rd++) { memset(rb, 0xEE, sizeof rb); memset(nextseq, 0, sizeof nextseq);
    if (me == 0) { R r[4]; int nr = 0;
      /* orders: per sender in sending order; interleaved; any sender in an order every sender can serve; types reversed (asynchronous senders only) */
      if (ord == 0) for (s = 1; s <= 2; s++) for (k = 0; k < 2; k++) { r[nr].type = mtype(pat, s - 1, k); r[nr++].sel = s; }
      else if (ord == 1) for (k = 0; k < 2; k++) for (s = 2; s >= 1; s--) { r[nr].type = mtype(pat, s - 1, k); r[nr++].sel = s; }
      else if (ord == 2) { int c1[2] = { 0, 0 }, left = 4; while (left) { /* any: an eligible type */ for (s = 1; s <= 2; s++) if (c1[s - 1] < 2) { r[nr].type = mtype(pat, s - 1, c1[s - 1]); r[nr++].sel = -1; c1[s - 1]++; left--; } } }
      else if (ord == 3) for (s = 2; s >= 1; s--) for (k = 1; k >= 0; k--) { r[nr].type = mtype(pat, s - 1, k); r[nr++].sel = s; }
      else for (k = 1; k >= 0; k--) for (s = 1; s <= 2; s++) { r[nr].type = mtype(pat, s - 1, k); r[nr++].sel = -1; }
      for (s = 1; s <= 2; s++) { fill(sb[s], 0, s, rd, 9, 40 * s); tcg_snd(9, sb[s], 40 * s, s, 0); }
      if (rmode == 1) { for (i = 0; i < nr; i++) { len = 7; from = 7; tcg_rcv(r[i].type, rb[i], BS, &len, r[i].sel, &from, 0); } tcg_waitcom(-1); memset(sb, 0xDD, sizeof sb); for (i = 0; i < nr; i++) chk(rb[i], r[i], -1, -1, lp, pat, "asynchronous"); }
      else { for (i = 0; i < nr; i++) { if (rmode == 2) while (!tcg_probe(r[i].type, r[i].sel)) sim_yield(); len = from = -7; tcg_rcv(r[i].type, rb[i], BS, &len, r[i].sel, &from, 1); if (r[i].sel >= 0 && from != r[i].sel) sim_fail("receive from %d reports sender %ld", r[i].sel, from); if (from < 1 || from > 2) sim_fail("receive reports sender %ld", from); chk(rb[i], r[i], from, len, lp, pat, rmode ? "probed" : "blocking"); } tcg_waitcom(-1); memset(sb, 0xDD, sizeof sb); }
    } else if (me <= 2) { len = from = 7; tcg_rcv(9, rb[0], BS, &len, me == 1 ? 0 : -1, &from, 0);
      for (k = 0; k < 2; k++) { int l = mlen(lp, me - 1, k), t = mtype(pat, me - 1, k); fill(sb[k], me, 0, k + 10 * rd, t, l); tcg_snd(t, sb[k], l, 0, ssync); if (ssync) memset(sb[k], 0xDD, l); }
      tcg_waitcom(-1); memset(sb, 0xDD, sizeof sb); if (!same(rb[0], 0, me, rd, 9, 40 * me) || rb[0][40 * me] != 0xEE) sim_fail("message received asynchronously is wrong or missing after waitcom"); }
  tcg_synch(88); } (void)byorder; }
static int p2pok(long c, int eager0) { int ssync = c % 2, rmode = c / 2 % 3, ord = c / 6 % 5, pat = c / 30 % 6; if (ssync && rmode != 1) { if (ord >= 3) return 0; if (ord == 2 && pat >= 3) return 0; } if (ord == 4 && pat >= 3 && ssync) return 0;
  /* any-sender receives whose types collide across senders may legally take the message a later specific order needs: only per-type orders are used, all are servable */
  return 1; }
static void nxt(long c) { int loops = 2, calls = opt_("calls", 2), l, k, i; volatile long *v = sim_shared(); int pr = c % 2;
  for (l = 0; l < loops; l++) { int my = pr && me == n - 1 ? calls + 1 : calls; for (k = 0; k < my; k++) v[(l * 8 + me) * 16 + k] = tcg_nxtval(n) + 1; tcg_nxtval(-n); }
  sim_barrier(); if (me == 0) for (l = 0; l < loops; l++) { int tot = 0, seen[128] = { 0 }; for (i = 0; i < n; i++) { long last = -1; for (k = 0; k < calls + (pr && i == n - 1); k++) { long x = v[(l * 8 + i) * 16 + k] - 1; if (x < 0 || x >= n * calls + pr) sim_fail("nxtval gives %ld, with %d calls in the loop", x, n * calls + pr); if (seen[x]++) sim_fail("nxtval gives %ld twice", x); if (x <= last) sim_fail("nxtval goes down: %ld after %ld", x, last); last = x; tot++; } } sim_count(0, tot); } }
static const char *OP[] = { "+", "*", "max", "min", "absmax", "absmin", "or", "&&", "||", "&", "|", "land", "lor", "band", "bor" };
static long fold(int op, long x, long y) { switch (op) { case 0: return x + y; case 1: return x * y; case 2: case 4: return x > y ? x : y; case 3: case 5: return x < y ? x : y; case 6: case 10: case 14: return x | y; case 7: case 11: return x && y; case 8: case 12: return x || y; default: return x & y; } }
static long val(int op, int r, int i, int s) { static const int A[8] = { 3, -5, 0, 7, -7, 1, -2, 5 }; if (op == 1) return A[(r + i + s) & 7] ? A[(r + i + s) & 7] : 2; if (op >= 6) return op == 7 || op == 8 || op == 11 || op == 12 ? ((r + i + s) % 3 != 0 ? 1 : i & 1) : (r * 5 + i * 3 + s) & 15; return A[(r * 3 + i * 5 + s + r * i) & 7]; }
static const int CL[7] = { 1, 2, 3, 7, 8, 9, 25 };
extern void igop_(long *, long *, long *, char *, int), dgop_(long *, double *, long *, char *, int), brdcst_(long *, void *, long *, long *), synch_(long *);
static void coll(long c) { int iface = c % 2; c /= 2; int op = c % 21, li = c / 21 % 7, s, i, r, isd = op >= 15; if (isd) op -= 15; long x[3][40]; double d[3][40]; unsigned char b[3][64]; long len[3], ty = 5; char fo[16]; sprintf(fo, "%s   z", OP[op]);
  for (s = 0; s < 3; s++) { len[s] = CL[(li + 2 * s) % 7]; for (i = 0; i < 40; i++) { x[s][i] = i < len[s] ? val(op, me, i, s) : 12345; d[s][i] = i < len[s] ? val(op, me, i, s) : 12345; } memset(b[s], 0x77, 64); if (me == (li + s) % n) for (i = 0; i < 2 * len[s]; i++) b[s][i] = mb(me, s, 3, len[s], i); }
  for (s = 0; s < 3; s++) { long bl = 2 * len[s], root = (li + s) % n; if (iface) { if (isd) dgop_(&ty, d[s], &len[s], fo, strlen(OP[op])); else igop_(&ty, x[s], &len[s], fo, strlen(OP[op])); brdcst_(&ty, b[s], &bl, &root); if (s == 1) synch_(&ty); } else { if (isd) tcg_dgop(ty, d[s], len[s], (char *)OP[op]); else tcg_igop(ty, x[s], len[s], (char *)OP[op]); tcg_brdcst(ty, b[s], bl, root); if (s == 1) tcg_synch(ty); } }
  for (s = 0; s < 3; s++) { for (i = 0; i < len[s]; i++) { long w = 0; for (r = 0; r < n; r++) { long v = val(op, r, i, s); if (op == 4 || op == 5) v = labs(v); w = r ? fold(op, w, v) : n == 1 && (op == 7 || op == 8 || op == 11 || op == 12) ? (v != 0) : v; } if (isd ? d[s][i] != w : x[s][i] != w) sim_fail("%s %s, length %ld: element %d is %g instead of %ld", isd ? "dgop" : "igop", OP[op], len[s], i, isd ? d[s][i] : (double)x[s][i], w); }
    for (; i < 40; i++) if (isd ? d[s][i] != 12345 : x[s][i] != 12345) sim_fail("gop of length %ld writes past the end", len[s]); int root = (li + s) % n; for (i = 0; i < 64; i++) if (b[s][i] != (i < 2 * len[s] ? mb(root, s, 3, len[s], i) : 0x77)) sim_fail("broadcast of %ld bytes from %d: byte %d wrong", 2 * len[s], root, i); sim_count(0, len[s]); } }
/* every process sends to every other, asynchronously, any order, with collectives and counter calls between */
static void mix(long c) { int i, k, K = 2, col = c % 3, sel = c / 3 % 2, wc = c / 6 % 2; long from, len; int nr = 0; memset(rb, 0xEE, sizeof rb); for (i = 1; i < n; i++) { int to = (me + i) % n; for (k = 0; k < K; k++) { unsigned char *b = sb[(i - 1) * K + k]; int l = LEN[(i + k + me) % 3]; fill(b, me, to, k, T1, l); tcg_snd(T1, b, l, to, 0); } if (wc && i == 1 && n == 2) ; }
  if (col == 1) { long x = me; tcg_igop(T1, &x, 1, "+"); if (x != n * (n - 1) / 2) sim_fail("igop beside messages gives %ld", x); } else if (col == 2) { volatile long *v = sim_shared(); v[me] = tcg_nxtval(n) + 1; }
  int cnt[8] = { 0 }; for (i = 0; i < (n - 1) * K; i++) { int s = sel ? (me + 1 + i % (n - 1)) % n : -1; len = from = -5; memset(rb[0], 0xEE, BS); tcg_rcv(T1, rb[0], BS, &len, s, &from, 1); if (from < 0 || from >= n || from == me || (s >= 0 && from != s)) sim_fail("receive from %d reports sender %ld", s, from); int d = (me - from + n) % n, q = cnt[from]++; if (q >= K || len != LEN[(d + q + from) % 3] || !same(rb[0], from, me, q, T1, len) || rb[0][len] != 0xEE) sim_fail("message %d from %ld arrives altered or out of order", q, from); nr++; sim_count(0, 1); }
  tcg_waitcom(-1); memset(sb, 0xDD, sizeof sb); if (col == 2) { tcg_nxtval(-n); volatile long *v = sim_shared(); sim_barrier(); long m = 0; for (i = 0; i < n; i++) m |= 1l << (v[i] - 1); if (m != (1l << n) - 1) sim_fail("nxtval values of the processes are not 0..%d", n - 1); } }
static void ga(long c) { int g = 0, i, d = 4 * n, one = 1, lo, hi, x[4]; long from, len; int ti = T1; g = GA_Create_handle(); GA_Set_data(g, 1, &d, C_INT); GA_Allocate(g); GA_Zero(g); sim_begin(); int to = (me + 1) % n, fr = (me + n - 1) % n; lo = 4 * to; hi = lo + 3; for (i = 0; i < 4; i++) x[i] = me + 1;
  if (c & 1) NGA_Acc(g, &lo, &hi, x, &one, &one); fill(sb[0], me, to, 1, ti, 100); tcg_snd(ti, sb[0], 100, to, 0); if (!(c & 1)) NGA_Acc(g, &lo, &hi, x, &one, &one); if (c & 2) { int y[4]; NGA_Get(g, &lo, &hi, y, &one); } memset(rb[0], 0xEE, BS); tcg_rcv(ti, rb[0], BS, &len, fr, &from, 1); if (from != fr || len != 100 || !same(rb[0], fr, me, 1, ti, 100)) sim_fail("TCGMSG message of type %d beside global array traffic is wrong", ti); tcg_waitcom(-1); GA_Sync(); lo = 4 * me; hi = lo + 3; NGA_Get(g, &lo, &hi, x, &one); for (i = 0; i < 4; i++) if (x[i] != fr + 1) sim_fail("array element is %d instead of %d", x[i], fr + 1); sim_count(0, 1); sim_barrier(); GA_Sync(); GA_Terminate(); MPI_Finalize(); }
/* file copy: node0's file arrives whole, under every other process's own name */
static void pfcopy(long c) { static const long FL[] = { 0, 1, 7, 32767, 32768, 32769, 70000, 65536 }; long len = FL[c % 8], root = c / 8 % n, i, k; static unsigned char x[70100]; char nm[40]; int rep;
  for (rep = 0; rep < 2; rep++) { sprintf(nm, "%s%d", me == root ? "orig" : me & 1 ? "sub/copy" : "/scr/copy", me); if (me == root) { for (i = 0; i < len; i++) x[i] = mb(rep, 1, 2, len, i); sim_file_put(nm, x, len); } sim_barrier(); tcg_pfcopy(T1 + 3, root, nm); k = sim_file_size(nm); if (k != len) sim_fail("file of %ld bytes copied from %ld has %ld bytes", len, root, k); memset(x, 0x5B, sizeof x); sim_file_get(nm, 0, x, k); for (i = 0; i < len; i++) if (x[i] != mb(rep, 1, 2, len, i)) sim_fail("byte %ld of the copied file of %ld bytes is wrong", i, len); sim_count(0, len); sim_barrier(); } if (sim_open_files(me)) sim_fail("descriptors are left open"); }
void scen_main(int rank, int np_) { const char *s = sim_scenario(); T1 = opt_("t1", 1); T2 = opt_("t2", 2); boot();
  if (!strcmp(s, "ga")) { GA_Initialize(); MA_init(C_DBL, 20000, 20000); ga(opt_("v", 0)); return; }
  if (!strcmp(s, "p2p")) { static long ok[1024]; long c, k = 0, thin = opt_("thin", 1); for (c = 0; c < 720; c++) if (p2pok(c, 0) && (c * 7) % thin == 0) ok[k++] = c; sim_set_cases(k); p2p(ok[sim_begin()]); }
  else if (!strcmp(s, "nxtval")) { sim_set_cases(2); nxt(sim_begin()); }
  else if (!strcmp(s, "coll")) { sim_set_cases(2 * 21 * 7); coll(sim_begin()); }
  else if (!strcmp(s, "pfcopy")) { sim_set_cases(8 * n); pfcopy(sim_begin()); }
  else if (!strcmp(s, "mix")) { int k = opt_("col", 3); sim_set_cases(4 * k); long c = sim_begin(); mix(c % k + 3 * (c / k)); }
  done(); }
