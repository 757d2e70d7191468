/* one call of one operation through one interface; shared by the C and the C++ half */
#ifndef H_LANG_H
#define H_LANG_H
#include <stdint.h>
enum { /* one process */ O_PUT, O_GET, O_ACC, O_NBPUT, O_NBGET, O_NBACC, O_SCATTER, O_GATHER, O_SCATACC, O_SCATTERF, O_GATHERF, O_SCATACCF, O_SPUT, O_SGET, O_SACC, O_PPUT, O_PGET, O_PACC, O_RDINC, O_LOCATE, O_LOCREG, O_LOCNN, O_DISTR, O_INQ, O_NBLOCK, O_TOPO, O_BLKINFO, O_ACCESS, O_ACCBLK, O_GHBLK, O_ONE,
  /* all processes */ O_FILL = O_ONE, O_ZERO, O_COPY, O_ADD, O_SCALE, O_ABS, O_ADDC, O_MUL, O_DIV, O_MAX, O_MIN, O_DOT, O_MEDIAN, O_RECIP, O_FILLP, O_ZEROP, O_SCALEP, O_COPYP, O_ADDP, O_DOTP, O_ABSP, O_ADDCP, O_RECIPP, O_MULP, O_DIVP, O_MAXP, O_MINP, O_MEDP, O_SELMAX, O_SELMIN, O_STEPMAX, O_STEPMAXP, O_UPGH, O_UPGHD,
  /* square matrices */ O_TRANS, O_SYMM, O_NORM1, O_NORMI, O_GETD, O_SETD, O_ADDD, O_SHIFTD, O_ZEROD, O_SCROW, O_SCCOL, O_GEMM, O_MATMUL, O_MATMULN, O_SOLVE,
  /* vectors */ O_ENUM, O_SCANC, O_SCANA, O_PACK, O_UNPACK, O_N };
typedef struct {
  int nd, t, h[4], v, trans; int lo[4][8], hi[4][8], ld[8], sk[8]; int64_t lo6[4][8], hi6[4][8], ld6[8], sk6[8]; long fl[4][8], fh[4][8], fld[8], fsk[8];
  void *buf; char *al, *be; int nv, **sub, *subf; int64_t **sub6, *sub6f; long *fsub, *fi, *fj; double *out; int proc; long H[4]; int d[8]; } LP;
#ifdef __cplusplus
extern "C" {
#endif
void xx_group(int *l, int n); int xx_call(int op, int is64, LP *p); int xx_new(void); void xx_del(int h);
int xx_create(int kind, int is64, int type, int nd, const int *dims, const int *width, const int *a, const int *b, const int *c, int grp, char *name, int src);
void xx_misc(int what, double *out); int xx_eq(int a, int b); int xx_assign(int a, int b); int xx_copyctor(int a);
#ifdef __cplusplus
}
#endif
#endif
