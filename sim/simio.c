/* File I/O of the ranks: an in-memory file system, private to each execution (it is copied by the fork that starts it).
   Every operation is a scheduling point; with --opt io=MASK transfers may be short (1), interrupted (2) or fail (4), each
   such event being one explored choice. Nothing reaches the real file system. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/vfs.h>
#include "simio.h"
#include "sim.h"
#define NF 256
#define NFD 512
#define FD0 5000
typedef struct { char name[512]; char *d; long len, cap; int linked, refs; } ino_t_; static ino_t_ F[NF]; static int nf;
static struct { ino_t_ *f; long pos; int flags, used, rank; } D[NFD];
static long io_ops; static int hards;
void simio_init(const char *dir) {} void simio_after_fork(void) {} void simio_cleanup(void) {}
static ino_t_ *look(const char *n) { int i; for (i = 0; i < nf; i++) if (F[i].linked && !strcmp(F[i].name, n)) return &F[i]; return 0; }
static ino_t_ *mkf(const char *n) { int i; ino_t_ *f = 0; for (i = 0; i < nf && !f; i++) if (!F[i].linked && !F[i].refs) f = &F[i]; if (!f) { if (nf == NF) { simio_fail("harness: too many files"); return 0; } f = &F[nf++]; } free(f->d); memset(f, 0, sizeof *f); snprintf(f->name, sizeof f->name, "%s", n); f->linked = 1; return f; }
static int isdir(const char *n) { return !strcmp(n, ".") || !strcmp(n, "/") || !strcmp(n, "/scr") || !strcmp(n, "sub") || !strcmp(n, "/scr/sub"); }
static int dirok(const char *n) { char b[512]; const char *s = strrchr(n, '/'); if (!s) return 1; if (s == n) return 1; snprintf(b, sizeof b, "%.*s", (int)(s - n), n); return isdir(b); }
static void grow(ino_t_ *f, long n) { if (n > f->cap) { long c = n * 2 + 256; f->d = realloc(f->d, c); memset(f->d + f->cap, 0, c - f->cap); f->cap = c; } }
static void reap(ino_t_ *f) { if (!f->linked && !f->refs) { free(f->d); f->d = 0; f->len = f->cap = 0; } }
static int mask(void) { static int m = -1; if (m < 0) m = sim_optint("io", 0); return m; }
static void point(const char *w) { if (simio_active() && sim_optint("iosched", 1)) simio_point(w); }
/* returns bytes to transfer, or -errno */
static long fault(long n, const char *w, int hard) { long alt[8]; int k = 1, m = mask(); alt[0] = n; if (!m || !simio_active()) return n; if (m & 1) { if (n > 1) alt[k++] = 1; if (n > 3) alt[k++] = n / 2; if (n > 2) alt[k++] = n - 1; } if (m & 2) alt[k++] = -EINTR; if (m & 4) alt[k++] = -hard; { int c = simio_choose(k, w); if (alt[c] < 0 && alt[c] != -EINTR) hards++; return alt[c]; } }
static int alloc(ino_t_ *f, int fl) { int i; for (i = 0; i < NFD; i++) if (!D[i].used) { D[i].used = 1; D[i].f = f; D[i].pos = 0; D[i].flags = fl; D[i].rank = sim_rank(); f->refs++; return FD0 + i; } errno = EMFILE; return -1; }
#define OK_(fd) ((fd) >= FD0 && (fd) < FD0 + NFD && D[(fd) - FD0].used)
int simw_open(const char *p, int fl, ...) { ino_t_ *f; point("open"); if (isdir(p)) { errno = EISDIR; return -1; } if (!dirok(p)) { errno = ENOENT; return -1; } f = look(p); if (f && (fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; } if (!f) { if (!(fl & O_CREAT)) { errno = ENOENT; return -1; } f = mkf(p); } if ((fl & O_TRUNC) && (fl & O_ACCMODE) != O_RDONLY) { if (f->d) memset(f->d, 0, f->cap); f->len = 0; } return alloc(f, fl); }
int simio_close(int fd) { if (fd < FD0) return close(fd); if (!OK_(fd)) { errno = EBADF; return -1; } ino_t_ *f = D[fd - FD0].f; D[fd - FD0].used = 0; f->refs--; reap(f); return 0; }
static ssize_t rd(int fd, void *b, long n, long pos) { ino_t_ *f = D[fd - FD0].f; if ((D[fd - FD0].flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; } io_ops++; if (pos >= f->len) return 0; if (n > f->len - pos) n = f->len - pos; memcpy(b, f->d + pos, n); return n; }
static ssize_t wr(int fd, const void *b, long n, long pos) { ino_t_ *f = D[fd - FD0].f; if ((D[fd - FD0].flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; } io_ops++; if (pos + n > 256l << 20) { errno = EFBIG; return -1; } grow(f, pos + n); memcpy(f->d + pos, b, n); if (pos + n > f->len) f->len = pos + n; return n; }
ssize_t simw_read(int fd, void *b, size_t n) { if (fd < FD0) return read(fd, b, n); if (!OK_(fd)) { errno = EBADF; return -1; } point("read"); long k = n; ino_t_ *f = D[fd - FD0].f; if (n && D[fd - FD0].pos < f->len) { if (k > f->len - D[fd - FD0].pos) k = f->len - D[fd - FD0].pos; k = fault(k, "read", EIO); } if (k < 0) { errno = -k; return -1; } k = rd(fd, b, k, D[fd - FD0].pos); if (k > 0) D[fd - FD0].pos += k; return k; }
ssize_t simw_write(int fd, const void *b, size_t n) { if (fd < FD0) return write(fd, b, n); if (!OK_(fd)) { errno = EBADF; return -1; } point("write"); long k = n; if (n) k = fault(n, "write", ENOSPC); if (k < 0) { errno = -k; return -1; } k = wr(fd, b, k, D[fd - FD0].flags & O_APPEND ? D[fd - FD0].f->len : D[fd - FD0].pos); if (k > 0) D[fd - FD0].pos += k; return k; }
off_t simw_lseek(int fd, off_t o, int w) { if (fd < FD0) return lseek(fd, o, w); if (!OK_(fd)) { errno = EBADF; return -1; } long p = w == SEEK_SET ? o : w == SEEK_CUR ? D[fd - FD0].pos + o : D[fd - FD0].f->len + o; if (p < 0) { errno = EINVAL; return -1; } return D[fd - FD0].pos = p; }
ssize_t simw_pread(int fd, void *b, size_t n, off_t o) { if (fd < FD0) return pread(fd, b, n, o); if (!OK_(fd)) { errno = EBADF; return -1; } point("pread"); long k = n; if (n && o < D[fd - FD0].f->len) { if (k > D[fd - FD0].f->len - o) k = D[fd - FD0].f->len - o; k = fault(k, "pread", EIO); } if (k < 0) { errno = -k; return -1; } return rd(fd, b, k, o); }
ssize_t simw_pwrite(int fd, const void *b, size_t n, off_t o) { if (fd < FD0) return pwrite(fd, b, n, o); if (!OK_(fd)) { errno = EBADF; return -1; } point("pwrite"); long k = n; if (n) k = fault(n, "pwrite", ENOSPC); if (k < 0) { errno = -k; return -1; } return wr(fd, b, k, o); }
int simw_fsync(int fd) { if (fd >= FD0 && !OK_(fd)) { errno = EBADF; return -1; } return 0; }
void simw_sync(void) {}
int simw_unlink(const char *p) { point("unlink"); ino_t_ *f = look(p); if (!f) { errno = ENOENT; return -1; } f->linked = 0; reap(f); return 0; }
int simw_remove(const char *p) { return simw_unlink(p); }
int simw_rename(const char *a, const char *b) { ino_t_ *f = look(a), *g; point("rename"); if (!f) { errno = ENOENT; return -1; } g = look(b); if (g && g != f) { g->linked = 0; reap(g); } snprintf(f->name, sizeof f->name, "%s", b); return 0; }
int simw_access(const char *p, int m) { if (look(p) || isdir(p)) return 0; errno = ENOENT; return -1; }
static int fill(ino_t_ *f, int dir, struct stat *s) { memset(s, 0, sizeof *s); s->st_mode = dir ? S_IFDIR | 0755 : S_IFREG | 0644; s->st_size = f ? f->len : 0; s->st_blksize = 4096; s->st_nlink = 1; return 0; }
int simw_stat(const char *p, struct stat *s) { ino_t_ *f = look(p); if (f) return fill(f, 0, s); if (isdir(p)) return fill(0, 1, s); errno = ENOENT; return -1; }
int simw_fstat(int fd, struct stat *s) { if (OK_(fd)) return fill(D[fd - FD0].f, 0, s); return fstat(fd, s); }
int simw_statfs(const char *p, struct statfs *s) { memset(s, 0, sizeof *s); if (!look(p) && !isdir(p)) { errno = ENOENT; return -1; } s->f_bsize = 4096; s->f_frsize = 4096; s->f_blocks = s->f_bfree = s->f_bavail = sim_optint("fsblocks", 1 << 20); return 0; }
int simio_ftruncate(int fd, long n) { if (!OK_(fd)) { errno = EBADF; return -1; } if ((D[fd - FD0].flags & O_ACCMODE) == O_RDONLY || n < 0) { errno = EINVAL; return -1; } point("ftruncate"); ino_t_ *f = D[fd - FD0].f; if (n > f->len) grow(f, n); else if (f->d) memset(f->d + n, 0, f->len - n); f->len = n; return 0; }
/* stdio on top of it */
static ssize_t ck_r(void *c, char *b, size_t n) { ssize_t k; do k = simw_read((int)(long)c, b, n); while (k < 0 && errno == EINTR); return k; } /* regular files do not interrupt; the C library loops over short writes */
static ssize_t ck_w(void *c, const char *b, size_t n) { size_t d = 0; while (d < n) { ssize_t k = simw_write((int)(long)c, b + d, n - d); if (k < 0 && errno == EINTR) continue; if (k <= 0) break; d += k; } return d; }
static int ck_s(void *c, off64_t *o, int w) { off_t p = simw_lseek((int)(long)c, *o, w); if (p < 0) return -1; *o = p; return 0; }
static int ck_c(void *c) { return simio_close((int)(long)c); }
FILE *simw_fopen(const char *p, const char *m) { int fl = strchr(m, '+') ? O_RDWR : m[0] == 'r' ? O_RDONLY : O_WRONLY; if (m[0] == 'w') fl |= O_CREAT | O_TRUNC; if (m[0] == 'a') fl |= O_CREAT | O_APPEND; if (!strncmp(p, "/proc/", 6)) { errno = ENOENT; return 0; } int fd = simw_open(p, fl, 0644); if (fd < 0) return 0; cookie_io_functions_t f = { ck_r, ck_w, ck_s, ck_c }; return fopencookie((void *)(long)fd, m, f); }
/* for harnesses */
long sim_file_size(const char *n) { ino_t_ *f = look(n); return f ? f->len : -1; }
long sim_file_get(const char *n, long off, void *b, long k) { ino_t_ *f = look(n); if (!f || off >= f->len) return 0; if (k > f->len - off) k = f->len - off; memcpy(b, f->d + off, k); return k; }
void sim_file_put(const char *n, const void *b, long k) { ino_t_ *f = look(n); if (!f) f = mkf(n); grow(f, k); memcpy(f->d, b, k); f->len = k; }
int sim_open_files(int rank) { int i, c = 0; for (i = 0; i < NFD; i++) c += D[i].used && (rank < 0 || D[i].rank == rank); return c; }
int sim_file_count(void) { int i, c = 0; for (i = 0; i < nf; i++) c += F[i].linked; return c; }
int sim_io_hard(void) { return hards; }
long sim_io_ops(void) { return io_ops; }
