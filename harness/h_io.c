/* D20: ELIO, EAF (disk and memory files) and shared files against a byte array per file; short, interrupted and failing transfers */
#define MA_HEAP 3200000
#include "hg.h"
#include "elio.h"
#include "eaf.h"
#include "sf.h"
extern int sim_io_hard(void);
#define FL 64
#define MEMSZ (1024 * 1024)
typedef struct { int open, mode, mem, exists, fd; long len; unsigned char d[FL]; char unk[FL]; Fd_t e; char name[40]; } M;
static M f[2]; static int IF, salt; static char trace[400]; static int hard0;
#define TR(...) snprintf(trace + strlen(trace), sizeof trace - strlen(trace), __VA_ARGS__)
#define BAD(...) do { char b_[200]; snprintf(b_, 200, __VA_ARGS__); sim_fail("%s after%s: %s", IF == 0 ? "ELIO" : "EAF", trace, b_); } while (0)
static int failed_hard(void) { int h = sim_io_hard(), r = h != hard0; hard0 = h; return r; }
enum { RW = 0, W = 1, R = 2 };
static void m_open(M *m, int mode) { if (mode == W) { m->len = 0; memset(m->d, 0, FL); memset(m->unk, 0, FL); } if (mode != R) m->exists = 1; m->open = 1; m->mode = mode; }
static int do_open(M *m, int mode) { TR(" open(%s,%s)", m->name, mode == RW ? "rw" : mode == W ? "w" : "r"); int had = m->exists;
  if (IF == 0) { static const int T[3] = { ELIO_RW, ELIO_W, ELIO_R }; m->e = elio_open(m->name, T[mode], ELIO_PRIVATE); if (!m->e) { if (mode == R && !had) return 0; BAD("open fails"); } if (mode == R && !had) BAD("opening a file that does not exist for reading succeeds"); }
  else { static const int T[3] = { EAF_RW, EAF_W, EAF_R }; int rc = EAF_Open(m->name, m->mem ? 1 : T[mode], &m->fd); if (rc) { if (!m->mem && mode == R && !had) return 0; BAD("open fails with %d", rc); } if (!m->mem && mode == R && !had) BAD("opening a file that does not exist for reading succeeds"); if (m->mem && !had) { m->len = MEMSZ; memset(m->unk, 1, FL); } }
  if (m->mem) mode = RW; m_open(m, mode); if (m->mem) m->len = MEMSZ; return 1; }
static void do_close(M *m) { TR(" close(%s)", m->name); int rc = IF == 0 ? elio_close(m->e) : EAF_Close(m->fd); if (rc) BAD("close gives %d", rc); m->open = 0; }
static void do_delete(M *m) { TR(" delete(%s)", m->name); int rc = IF == 0 ? elio_delete(m->name) : EAF_Delete(m->name); if (rc) BAD("delete gives %d", rc); if (!m->mem && sim_file_size(m->name) >= 0) BAD("the file is still there"); m->exists = 0; m->len = 0; memset(m->d, 0, FL); memset(m->unk, 0, FL); }
static void wt(M *m, long o, int k, int as) { unsigned char b[FL]; int i, id = -77; TR(" %swrite(%s,%ld,%d)", as ? "a" : "", m->name, o, k); salt++; for (i = 0; i < k; i++) b[i] = salt * 31 + i * 7 + 1; long rc; io_request_t q = -5; failed_hard();
  if (IF == 0) { if (as) { rc = elio_awrite(m->e, o, b, k, &q); if (!rc) { rc = elio_wait(&q); } } else { rc = elio_write(m->e, o, b, k); rc = rc == k ? 0 : rc < 0 ? rc : 99; } }
  else { if (as) { rc = EAF_Awrite(m->fd, o, b, k, &id); if (!rc) rc = EAF_Wait(m->fd, id); } else rc = EAF_Write(m->fd, o, b, k); }
  int h = failed_hard(), no = m->mode == R || (m->mem && o + k > m->len); if (no) { if (!rc) BAD("a write that cannot be done succeeds"); return; }
  if (rc && !h) BAD("write gives %ld", rc); if (rc == 99) BAD("write reports a wrong count"); if (h && !rc && k) BAD("the system failed the transfer but the write reports success");
  if (rc) { for (i = 0; i < k; i++) m->unk[o + i] = 1; if (o + k > m->len) { long q2; for (q2 = m->len; q2 < o; q2++) m->unk[q2] = 0; m->len = -1; } return; }
  if (!m->mem && m->len >= 0 && o > m->len) for (i = m->len; i < o; i++) m->d[i] = 0, m->unk[i] = 0; if (o < FL) { for (i = 0; i < k; i++) m->d[o + i] = b[i], m->unk[o + i] = 0; } if (m->len >= 0 && o + k > m->len) m->len = o + k; }
static void rd(M *m, long o, int k, int as) { unsigned char b[FL + 8]; int i, id = -77; TR(" %sread(%s,%ld,%d)", as ? "a" : "", m->name, o, k); memset(b, 0xA5, sizeof b); long rc; io_request_t q = -5; failed_hard();
  if (IF == 0) { if (as) { rc = elio_aread(m->e, o, b, k, &q); if (!rc) { int st = 55, r2 = elio_probe(&q, &st); if (r2 || (st != ELIO_DONE && st != ELIO_PENDING)) BAD("probe gives %d, status %d", r2, st); rc = elio_wait(&q); } } else { rc = elio_read(m->e, o, b, k); rc = rc == k ? 0 : rc < 0 ? rc : 99; } }
  else { if (as) { rc = EAF_Aread(m->fd, o, b, k, &id); if (!rc) { int st = (salt & 1) ? 55 : -1, r2, tries = 0; do { r2 = EAF_Probe(id, &st); if (r2 || (st != 0 && st != 1)) BAD("probe gives %d, status %d", r2, st); } while (st == 1 && ++tries < 1000); if (st) { rc = EAF_Wait(m->fd, id); } /* a completed probe invalidates the request */ } } else rc = EAF_Read(m->fd, o, b, k); }
  int h = failed_hard(); if (m->len < 0) return; int no = m->mode == W || o + k > m->len; if (no && k) { if (!rc) BAD("reading beyond the end of the file or a write-only file succeeds"); if (IF == 1 && !m->mem && !h && m->mode != W) { if (EAF_Eof(rc) != 0) BAD("end of file is reported as code %ld, which EAF_Eof does not recognise", rc); } return; }
  if (IF == 1 && rc && EAF_Eof(rc) == 0) BAD("EAF_Eof takes error %ld for end of file", rc);
  if (rc && !h) BAD("read gives %ld", rc); if (h && !rc) BAD("the system failed the transfer but the read reports success"); if (rc) return; for (i = 0; i < k; i++) if (o + i >= FL || m->unk[o + i]) continue; else if (b[i] != m->d[o + i]) BAD("byte %ld is %d instead of %d", o + i, b[i], m->d[o + i]); for (i = k; i < FL + 8; i++) if (b[i] != 0xA5) BAD("read writes past the buffer"); sim_count(0, k); }
static void trunc_(M *m, long l) { TR(" truncate(%s,%ld)", m->name, l); int rc = IF == 0 ? elio_truncate(m->e, l) : EAF_Truncate(m->fd, l); if (m->mode == R) { if (!rc) BAD("truncating a read-only file succeeds"); return; } if (rc) BAD("truncate gives %d", rc); long i; if (m->len >= 0 && l > m->len) for (i = m->len; i < l; i++) m->d[i] = 0, m->unk[i] = 0; m->len = l; if (l < FL) { memset(m->d + l, 0, FL - l); memset(m->unk + l, 0, FL - l); } }
static void length_(M *m) { TR(" length(%s)", m->name); Off_t l = -3; eaf_off_t l2 = -3; int rc = IF == 0 ? elio_length(m->e, &l) : EAF_Length(m->fd, &l2); if (IF) l = l2; if (rc) BAD("length gives %d", rc); if (!m->mem && m->len >= 0 && l != m->len) BAD("the length is %g instead of %ld", l, m->len); }
static void check_all(M *m) { unsigned char b[FL]; long i, k; if (m->mem || !m->exists) { if (!m->exists && sim_file_size(m->name) >= 0) BAD("a deleted file is there"); return; } k = sim_file_size(m->name); if (m->len >= 0 && k != m->len) BAD("%s has %ld bytes instead of %ld", m->name, k, m->len); if (k > FL) k = FL; sim_file_get(m->name, 0, b, k); for (i = 0; i < k && m->len >= 0; i++) if (!m->unk[i] && b[i] != m->d[i]) BAD("byte %ld of %s is %d instead of %d", i, m->name, b[i], m->d[i]); }
#define NOP 22
static void step(int op) { M *m = &f[op >= 16]; if (op < 16) { if (!m->open && op < 11) { if (!do_open(m, RW)) return; } switch (op) { case 0: wt(m, 0, 4, 0); break; case 1: wt(m, 3, 9, 0); break; case 2: wt(m, 20, 2, 0); break; case 3: rd(m, 0, 4, 0); break; case 4: rd(m, 2, 8, 0); break; case 5: rd(m, 19, 2, 0); break; case 6: wt(m, 1, 10, 1); break; case 7: rd(m, 1, 7, 1); break;
    case 8: if (m->mem) { wt(m, MEMSZ - 4, 8, 0); } else trunc_(m, 2); break; case 9: if (m->mem) { rd(m, MEMSZ - 4, 8, 0); } else trunc_(m, 13); break; case 10: length_(m); break;
    case 11: if (m->open) do_close(m); do_open(m, RW); break; case 12: if (m->open) do_close(m); do_open(m, R); break; case 13: if (m->open) do_close(m); do_open(m, W); break; case 14: if (m->open) do_close(m); do_delete(m); break; default: if (m->open) do_close(m); } }
  else switch (op) { case 16: if (!m->open) do_open(m, RW); wt(m, 2, 6, 0); break; case 17: if (!m->open) do_open(m, RW); rd(m, 3, 4, 0); break; case 18: if (m->open) do_close(m); break; case 19: if (m->open) do_close(m); do_delete(m); break; case 20: if (!m->open) do_open(m, RW); rd(m, 2, 5, 1); break; default: if (!m->open) do_open(m, RW); wt(m, 0, 5, 1); } }
static int used[2];
static void fresh(int memA, int memB) { memset(f, 0, sizeof f); strcpy(f[0].name, IF ? "sub/eafA" : "elioA"); strcpy(f[1].name, "/scr/fileB"); f[0].mem = memA; f[1].mem = memB; trace[0] = 0; salt = 0; }
static void finish_(long ma0) { int i; for (i = 0; i < 2; i++) { if (f[i].open) do_close(&f[i]); check_all(&f[i]); if (f[i].exists) do_delete(&f[i]); } if (sim_open_files(-1)) BAD("%d descriptors are left open", sim_open_files(-1)); if (IF && MA_inquire_avail(MT_F_BYTE) != ma0) BAD("memory of deleted memory files is not given back: %ld of %ld", (long)MA_inquire_avail(MT_F_BYTE), ma0); }
static void prog(long p, int len, int mA, int mB) { int i; long ma0 = MA_inquire_avail(MT_F_BYTE); fresh(mA, mB); for (i = 0; i < len; i++) { step(p % NOP); p /= NOP; } finish_(ma0); }
static long ipow(long b, int e) { long r = 1; while (e--) r *= b; return r; }
/* shared files */
static void sf(long c) { int h[3], i, k, nfl = 1 + c % 2, rel = c / 2 % 3, big = c / 6 % 2, seg = big ? 300 : 12, rq[8], rc; static char b[3][8][320]; static char r[320]; int suffix = c / 12 % 2;
  for (i = 0; i < nfl; i++) { rc = suffix ? SF_Create_suffix(i ? "/scr/sh" : "sh", 1e9, 1e6, -1, &h[i], 7 + i) : SF_Create(i ? "/scr/sh" : "sh", 1e9, 1e6, -1, &h[i]); if (rc) sim_fail("SF_Create gives %d", rc); } if (nfl == 2 && h[0] == h[1]) sim_fail("two shared files have the same handle");
  for (i = 0; i < nfl; i++) { for (k = 0; k < 3; k++) { int j; for (j = 0; j < seg; j++) b[i][k][j] = 1 + me * 37 + i * 91 + k * 13 + j * 5; rc = SF_Write(h[i], (double)(k * n + me) * seg, seg, b[i][k], &rq[k]); if (rc) sim_fail("SF_Write gives %d", rc); if (c & 1) { rc = SF_Wait(&rq[k]); if (rc) sim_fail("SF_Wait gives %d", rc); } } if (!(c & 1)) { rc = SF_Waitall(rq, 3); if (rc) sim_fail("SF_Waitall gives %d", rc); } memset(b[i], 0, sizeof b[i]); }
  GA_Sync(); if (rel == 1) for (i = 0; i < nfl; i++) { SF_Rwtor(h[i]); } if (rel == 2) for (i = 0; i < nfl; i++) { SF_Fsync(h[i]); SF_Close(h[i]); SF_Open(h[i]); }
  for (i = 0; i < nfl; i++) for (k = 0; k < 3 * n; k++) { int who = k % n, kk = k / n, j; memset(r, 0, sizeof r); rc = SF_Read(h[i], (double)k * seg, seg, r, rq); if (rc) sim_fail("SF_Read gives %d", rc); rc = SF_Wait(rq); if (rc) sim_fail("SF_Wait gives %d", rc); for (j = 0; j < seg; j++) if (r[j] != (char)(1 + who * 37 + i * 91 + kk * 13 + j * 5)) sim_fail("shared file %d: byte %d of segment %d is %d", i, j, k, r[j]); if (r[seg]) sim_fail("SF_Read writes past the buffer"); sim_count(0, seg); }
  { rc = SF_Read(h[0], (double)(3 * n) * seg - 2, 8, r, rq); if (!rc) sim_fail("reading beyond the end of a shared file succeeds"); } GA_Sync();
  for (i = nfl - 1; i >= 0; i--) { rc = SF_Destroy(h[i]); if (rc) sim_fail("SF_Destroy gives %d", rc); } GA_Sync(); if (sim_file_count()) sim_fail("%d files are left after SF_Destroy", sim_file_count()); if (sim_open_files(sim_rank())) sim_fail("descriptors are left open"); }
void scen_main(int rank, int np_) { gboot(); const char *s = sim_scenario(); { char nm[2]; (void)nm; }
  if (!strcmp(s, "sf")) { sim_set_cases(24); sf(sim_begin()); }
  else { IF = opt_("iface", 0); int len = opt_("len", 3), mA = opt_("memA", 0), mB = opt_("memB", 0); long inner = opt_("inner", 1), tot = ipow(NOP, len), thin = opt_("thin", 1), i, c; if (IF && (mA || mB)) { int h; Integer x; (void)h; (void)x; } sim_set_cases(inner ? NOP * NOP : (tot + thin - 1) / thin); c = sim_begin(); sim_io_hard();
    if (inner) for (i = 0; i < tot / NOP / NOP; i++) prog(c + i * NOP * NOP, len, mA, mB); else prog(c * thin, len, mA, mB); }
  sim_barrier(); GA_Sync(); GA_Terminate(); MPI_Finalize(); }
