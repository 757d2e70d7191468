#ifndef SIMIO_H
#define SIMIO_H
void simio_init(const char *dir); void simio_after_fork(void); void simio_cleanup(void); int simio_close(int fd); int simio_ftruncate(int fd, long n);
int simio_choose(int n, const char *w); void simio_fail(const char *w); int simio_active(void); void simio_point(const char *w);
#endif
