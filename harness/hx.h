/* helpers shared by the ARMCI/ComEx-level harnesses */
#ifndef HX_H
#define HX_H
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include "mpi.h"
#include "armci.h"
#include "message.h"
#include "comex.h"
#include "sim.h"
static int me, n;
static void boot(void) { MPI_Init(0, 0); ARMCI_Init(); me = armci_msg_me(); n = armci_msg_nproc(); sim_ranks_expected(n); }
/* every rank publishes its own part of a collective allocation, so that an oracle can look at it directly */
typedef struct { unsigned char *base[16]; volatile long gen; long scratch[4096]; } pubt;
static pubt *pub(void) { return (pubt *)sim_shared(); }
static void *mine_of(void **p) { return p[me]; }
#define CK(c, ...) do { if (!(c)) sim_fail(__VA_ARGS__); } while (0)
#endif
