#include "hg.h"
void scen_main(int r, int np) { gboot(); int dims[2] = { 7, 5 }, ch[2] = { -1, -1 }; sim_set_cases(2); long c = sim_begin(); int g = NGA_Create(C_INT, 2, dims, "a", ch); CK(g, "create"); GA_Zero(g); int lo[2] = { 1, 1 }, hi[2] = { 3, 3 }, ld[1] = { 3 }, b[9] = { 1, 2, 3, 4, 5, 6, 7, 8, 9 }; if (me == c) NGA_Put(g, lo, hi, b, ld); GA_Sync(); int x[9]; NGA_Get(g, lo, hi, x, ld); CK(!memcmp(x, b, sizeof b), "get"); GA_Destroy(g); GA_Terminate(); MPI_Finalize(); }
