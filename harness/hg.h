/* helpers shared by the GA-level harnesses */
#ifndef HG_H
#define HG_H
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include <math.h>
#include "mpi.h"
#include "ga.h"
#include "macdecls.h"
#include "armci.h"
#include "message.h"
#include "sim.h"
static int me, n;
#define CK(c, ...) do { if (!(c)) sim_fail(__VA_ARGS__); } while (0)
static void gboot_lim(long lim) { MPI_Init(0, 0); if (lim > 0) GA_Initialize_ltd(lim); else GA_Initialize(); me = GA_Nodeid(); n = GA_Nnodes(); sim_ranks_expected(n); 
#ifndef MA_HEAP
#define MA_HEAP 200000
#endif
  if (!MA_init(C_DBL, 200000 / 8, MA_HEAP / 8)) sim_fail("MA_init failed"); }
static void gboot(void) { gboot_lim(0); }
static long opt_(const char *k, long d) { return sim_optint(k, d); }
#endif
