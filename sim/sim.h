/* Harness <-> simulator API. Harness code is linked into rank.so, once per simulated rank. */
#ifndef SIM_H
#define SIM_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
int  sim_rank(void), sim_np(void), sim_node_of(int rank);
const char *sim_scenario(void);            /* name given on the command line */
const char *sim_opt(const char *key);      /* --opt key=value */
int  sim_optint(const char *key, int dflt);
long sim_begin(void);                      /* barrier of all harness ranks; exploration starts; returns case number */
void sim_set_cases(long n);                 /* number of cases (before sim_begin; every rank the same) */
void sim_state(unsigned long h);           /* records a state reached by the harness (coverage only) */
int  sim_finalized(int rank), sim_exited(int rank);
int  sim_live_sems(void);
long sim_heap_live(int rank);
void sim_quiet(void);                      /* barrier of all harness ranks; from here on choices are default again */
void sim_resume(void);                     /* barrier of all harness ranks; from here on choices are explored again */
void sim_fail(const char *fmt, ...) __attribute__((format(printf,1,2),noreturn));
void sim_expect_abort(void);               /* an MPI_Abort/GA_Error from now on ends the execution as a pass */
void sim_never(const char *what);          /* reached although an abort was expected */
void sim_barrier(void);                    /* oracle barrier: no MPI traffic */
void sim_wait_ge(volatile long *p, long v);/* oracle wait */
void *sim_shared(void);                    /* 4 MB, zeroed, shared by all ranks, private to the execution */
long sim_now(void);                        /* logical time, strictly increasing */
int  sim_choose(int n, const char *what);  /* environment choice, each alternative != 0 costs one deviation */
int  sim_pick(int n);                      /* free (cost 0) choice: all explored */
void sim_yield(void);                      /* scheduling point */
void sim_note(const char *fmt, ...) __attribute__((format(printf,1,2)));   /* shown on replay */
void sim_count(int which, long n);         /* coverage counters 0..15, summed over all executions */
void sim_ranks_expected(int n);            /* number of ranks that call sim_begin (default np) */
int  sim_live_shm(void);                   /* number of live shm segments (named, not unlinked) */
long sim_mapped(int rank);                 /* live shm mappings of a rank */
long sim_live_comms(int rank);
int  sim_pending_msgs(void);               /* messages sent and never received */
int  sim_live_requests(int rank);
void *sim_shm_addr_limit(void);
/* in-memory file system of the ranks */
long sim_file_size(const char *name);      /* -1: no such file */
long sim_file_get(const char *name, long off, void *buf, long n);
void sim_file_put(const char *name, const void *buf, long n);
int  sim_open_files(int rank), sim_file_count(void), sim_io_hard(void);
void scen_main(int rank, int np);          /* provided by the harness */
#ifdef __cplusplus
}
#endif
#endif
