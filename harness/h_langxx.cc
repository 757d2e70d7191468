/* the C++ half of h_lang: the same operations through GA::GlobalArray */
#include <map>
#include <string.h>
#include <stdlib.h>
#include "ga++.h"
#include "h_lang.h"
static std::map<int, GA::GlobalArray *> M;
static GA::GlobalArray *X(int h) { return M[h]; }
static int reg(GA::GlobalArray *a) { M[a->handle()] = a; return a->handle(); }
extern "C" int xx_new(void) { return reg(GA::createGA()); }
extern "C" void xx_del(int h) { GA::GlobalArray *a = M[h]; if (!a) { GA_Destroy(h); return; } M.erase(h); delete a; }
#define I2(e32, e64) if (is64) { e64; } else { e32; } return 1
#define L(k) p->lo[k], p->hi[k]
#define Q(k) p->lo6[k], p->hi6[k]
extern "C" int xx_call(int op, int is64, LP *p) { GA::GlobalArray *a = X(p->h[0]), *b = X(p->h[1]), *c = X(p->h[2]), *d = X(p->h[3]); int i; double *o = p->out; void *al = p->al, *be = p->be;
  switch (op) {
  case O_PUT: I2(a->put(L(0), p->buf, p->ld), a->put(Q(0), p->buf, p->ld6));
  case O_GET: I2(a->get(L(0), p->buf, p->ld), a->get(Q(0), p->buf, p->ld6));
  case O_ACC: I2(a->acc(L(0), p->buf, p->ld, al), a->acc(Q(0), p->buf, p->ld6, al));
  case O_NBPUT: { GANbhdl n; if (is64) a->nbPut(Q(0), p->buf, p->ld6, &n); else a->nbPut(L(0), p->buf, p->ld, &n); GA::nbWait(&n); return 1; }
  case O_NBGET: { GANbhdl n; if (is64) a->nbGet(Q(0), p->buf, p->ld6, &n); else a->nbGet(L(0), p->buf, p->ld, &n); GA::SERVICES.nbWait(&n); return 1; }
  case O_NBACC: { GANbhdl n; if (is64) a->nbAcc(Q(0), p->buf, p->ld6, al, &n); else a->nbAcc(L(0), p->buf, p->ld, al, &n); while (!GA::SERVICES.nbTest(&n)); GA::nbWait(&n); return 1; }
  case O_SCATTER: I2(a->scatter(p->buf, p->sub, p->nv), a->scatter(p->buf, p->sub6, p->nv));
  case O_GATHER: I2(a->gather(p->buf, p->sub, p->nv), a->gather(p->buf, p->sub6, p->nv));
  case O_SCATACC: I2(a->scatterAcc(p->buf, p->sub, p->nv, al), a->scatterAcc(p->buf, p->sub6, p->nv, al));
  case O_SPUT: I2(a->stridedPut(L(0), p->sk, p->buf, p->ld), a->stridedPut(Q(0), p->sk6, p->buf, p->ld6));
  case O_SGET: I2(a->stridedGet(L(0), p->sk, p->buf, p->ld), a->stridedGet(Q(0), p->sk6, p->buf, p->ld6));
  case O_SACC: I2(a->stridedAcc(L(0), p->sk, p->buf, p->ld, al), a->stridedAcc(Q(0), p->sk6, p->buf, p->ld6, al));
  case O_PPUT: I2(a->periodicPut(L(0), p->buf, p->ld), a->periodicPut(Q(0), p->buf, p->ld6));
  case O_PGET: I2(a->periodicGet(L(0), p->buf, p->ld), a->periodicGet(Q(0), p->buf, p->ld6));
  case O_PACC: I2(a->periodicAcc(L(0), p->buf, p->ld, al), a->periodicAcc(Q(0), p->buf, p->ld6, al));
  case O_RDINC: I2(o[0] = a->readInc(p->lo[0], 3), o[0] = a->readInc(p->lo6[0], 3));
  case O_LOCATE: I2(o[0] = a->locate(p->lo[0]), o[0] = a->locate(p->lo6[0]));
  case O_LOCREG: { int pr[64]; if (is64) { int64_t m[64 * 16]; o[0] = a->locateRegion(Q(0), m, pr); for (i = 0; i < o[0] * 2 * p->nd; i++) o[1 + (int)o[0] + i] = m[i]; } else { int m[64 * 16]; o[0] = a->locateRegion(L(0), m, pr); for (i = 0; i < o[0] * 2 * p->nd; i++) o[1 + (int)o[0] + i] = m[i]; } for (i = 0; i < o[0]; i++) o[1 + i] = pr[i]; return 1; }
  case O_DISTR: { int64_t l6[8], h6[8]; int l[8], h[8]; if (is64) a->distribution(p->proc, l6, h6); else a->distribution(p->proc, l, h); for (i = 0; i < p->nd; i++) { o[i] = is64 ? l6[i] : l[i]; o[8 + i] = is64 ? h6[i] : h[i]; } return 1; }
  case O_INQ: { int t, n, d1[8]; int64_t d6[8]; if (is64) a->inquire(&t, &n, d6); else a->inquire(&t, &n, d1); o[0] = t; o[1] = n; for (i = 0; i < n; i++) o[2 + i] = is64 ? d6[i] : d1[i]; o[10] = a->ndim(); o[11] = a->hasGhosts(); strncpy((char *)(o + 12), a->inquireName(), 40); o[20] = a->totalBlocks(); o[21] = a->compareDistr(b); return 1; }
  case O_NBLOCK: { if (is64) return 0; int nb[8]; a->nblock(nb); for (i = 0; i < p->nd; i++) o[i] = nb[i]; return 1; }
  case O_TOPO: { if (is64) return 0; int t[8]; a->procTopology(p->proc, t); for (i = 0; i < p->nd; i++) o[i] = t[i]; return 1; }
  case O_BLKINFO: { if (is64) return 0; int nb[8], bd[8]; a->getBlockInfo(nb, bd); for (i = 0; i < p->nd; i++) { o[i] = nb[i]; o[8 + i] = bd[i]; } return 1; }
  case O_ACCESS: { char *q; int l[8]; int64_t l6[8]; if (is64) a->access(Q(0), &q, l6); else a->access(L(0), &q, l); for (i = 0; i < p->nd - 1; i++) o[i] = is64 ? l6[i] : l[i]; memcpy(p->buf, q, 16); q[0] ^= p->v; if (is64) a->releaseUpdate(Q(0)); else a->releaseUpdate(L(0)); if (is64) a->release(Q(0)); else a->release(L(0)); return 1; }
  case O_ACCBLK: { char *q; int l[8]; int64_t l6[8]; if (is64) a->accessBlock((int64_t)p->proc, &q, l6); else a->accessBlock(p->proc, &q, l); for (i = 0; i < p->nd - 1; i++) o[i] = is64 ? l6[i] : l[i]; memcpy(p->buf, q, 4); q[0] ^= p->v; a->releaseUpdateBlock(p->proc); a->releaseBlock(p->proc); return 1; }
  case O_GHBLK: I2(a->getGhostBlock(L(0), p->buf, p->ld), a->getGhostBlock(Q(0), p->buf, p->ld6));
  case O_UPGH: if (is64) { GANbhdl n; a->updateGhostsNb(&n); GA::SERVICES.nbWait(&n); } else a->updateGhosts(); return 1;
  case O_UPGHD: if (is64) return 0; o[0] = a->updateGhostDir(p->proc % p->nd, p->proc / p->nd % 2 ? 1 : -1, 1); return 1;
  case O_STEPMAX: if (is64) return 0; a->stepMax(b, o); return 1;
  case O_STEPMAXP: I2(a->stepMaxPatch(L(0), b, L(1), o), a->stepMaxPatch(Q(0), b, Q(1), o));
  case O_COPYP: I2(b->copyPatch(p->trans & 1 ? 't' : 'n', a, L(0), L(1)), b->copyPatch(p->trans & 1 ? 'T' : 'N', a, Q(0), Q(1)));
  case O_ADDP: I2(c->addPatch(al, a, L(0), be, b, L(1), L(2)), c->addPatch(al, a, Q(0), be, b, Q(1), Q(2)));
  case O_DOTP: switch (p->t) { case 0: I2(o[0] = a->idotPatch('n', L(0), b, 'n', L(1)), o[0] = a->idotPatch('n', Q(0), b, 'n', Q(1))); case 1: I2(o[0] = a->ldotPatch('n', L(0), b, 'n', L(1)), o[0] = a->ldotPatch('n', Q(0), b, 'n', Q(1))); case 3: I2(o[0] = a->fdotPatch('n', L(0), b, 'n', L(1)), o[0] = a->fdotPatch('n', Q(0), b, 'n', Q(1)));
    case 4: I2(o[0] = a->ddotPatch('n', L(0), b, 'n', L(1)), o[0] = a->ddotPatch('n', Q(0), b, 'n', Q(1))); case 6: { DoubleComplex z = is64 ? a->zdotPatch('n', Q(0), b, 'n', Q(1)) : a->zdotPatch('n', L(0), b, 'n', L(1)); o[0] = z.real; o[1] = z.imag; return 1; } } return 0;
  case O_FILLP: I2(a->fillPatch(L(0), al), a->fillPatch(Q(0), al));
  case O_ZEROP: I2(a->zeroPatch(L(0)), a->zeroPatch(Q(0)));
  case O_SCALEP: I2(a->scalePatch(L(0), al), a->scalePatch(Q(0), al));
  case O_ABSP: I2(a->absValuePatch(L(0)), a->absValuePatch(Q(0)));
  case O_ADDCP: I2(a->addConstantPatch(L(0), al), a->addConstantPatch(Q(0), al));
  case O_RECIPP: I2(a->recipPatch(L(0)), a->recipPatch(Q(0)));
  case O_MULP: I2(c->elemMultiplyPatch(a, L(0), b, L(1), L(2)), c->elemMultiplyPatch(a, Q(0), b, Q(1), Q(2)));
  case O_DIVP: I2(c->elemDividePatch(a, L(0), b, L(1), L(2)), c->elemDividePatch(a, Q(0), b, Q(1), Q(2)));
  case O_MAXP: I2(c->elemMaximumPatch(a, L(0), b, L(1), L(2)), c->elemMaximumPatch(a, Q(0), b, Q(1), Q(2)));
  case O_MINP: I2(c->elemMinimumPatch(a, L(0), b, L(1), L(2)), c->elemMinimumPatch(a, Q(0), b, Q(1), Q(2)));
  case O_MEDP: I2(d->medianPatch(a, L(0), b, L(1), c, L(2), L(3)), d->medianPatch(a, Q(0), b, Q(1), c, Q(2), Q(3)));
  case O_SELMAX: case O_SELMIN: { int ix[8]; int64_t i6[8]; char *s = (char *)(op == O_SELMAX ? "max" : "min"); if (is64) a->selectElem(s, o + 8, i6); else a->selectElem(s, o + 8, ix); for (i = 0; i < p->nd; i++) o[i] = is64 ? i6[i] : ix[i]; return 1; }
  case O_GEMM: { int n = p->d[0]; char ta = p->trans & 1 ? 't' : 'n', tb = p->trans & 2 ? 't' : 'n'; switch (p->t) { case 3: I2(c->sgemm(ta, tb, n, n, n, 2.f, a, b, 3.f), c->sgemm(ta, tb, (int64_t)n, (int64_t)n, (int64_t)n, 2.f, a, b, 3.f)); case 4: I2(c->dgemm(ta, tb, n, n, n, 2., a, b, 3.), c->dgemm(ta, tb, (int64_t)n, (int64_t)n, (int64_t)n, 2., a, b, 3.)); case 6: { DoubleComplex x = { 2, 1 }, y = { 3, -1 }; if (is64) c->zgemm(ta, tb, (int64_t)n, (int64_t)n, (int64_t)n, x, a, b, y); else c->zgemm(ta, tb, n, n, n, x, a, b, y); return 1; } } return 0; }
  case O_MATMUL: { char ta = p->trans & 1 ? 't' : 'n', tb = p->trans & 2 ? 't' : 'n'; I2(c->matmulPatch(ta, tb, al, be, a, p->lo[0][0], p->hi[0][0], p->lo[0][1], p->hi[0][1], b, p->lo[1][0], p->hi[1][0], p->lo[1][1], p->hi[1][1], p->lo[2][0], p->hi[2][0], p->lo[2][1], p->hi[2][1]), c->matmulPatch(ta, tb, al, be, a, p->lo6[0][0], p->hi6[0][0], p->lo6[0][1], p->hi6[0][1], b, p->lo6[1][0], p->hi6[1][0], p->lo6[1][1], p->hi6[1][1], p->lo6[2][0], p->hi6[2][0], p->lo6[2][1], p->hi6[2][1])); }
  case O_MATMULN: { char ta = p->trans & 1 ? 't' : 'n', tb = p->trans & 2 ? 't' : 'n'; I2(c->matmulPatch(ta, tb, al, be, a, L(0), b, L(1), L(2)), c->matmulPatch(ta, tb, al, be, a, Q(0), b, Q(1), Q(2))); }
  case O_ENUM: I2(a->patchEnum(p->lo[0][0], p->hi[0][0], al, be), a->patchEnum(p->lo6[0][0], p->hi6[0][0], al, be));
  case O_SCANC: I2(a->scanCopy(b, d, p->lo[0][0], p->hi[0][0]), a->scanCopy(b, d, p->lo6[0][0], p->hi6[0][0]));
  case O_SCANA: I2(a->scanAdd(b, d, p->lo[0][0], p->hi[0][0], p->trans & 1), a->scanAdd(b, d, p->lo6[0][0], p->hi6[0][0], p->trans & 1));
  case O_PACK: { int k = -1; int64_t k6 = -1; if (is64) a->pack(b, d, p->lo6[0][0], p->hi6[0][0], &k6); else a->pack(b, d, p->lo[0][0], p->hi[0][0], &k); o[0] = is64 ? k6 : k; return 1; }
  case O_UNPACK: { int k = -1; int64_t k6 = -1; if (is64) a->unpack(b, d, p->lo6[0][0], p->hi6[0][0], &k6); else a->unpack(b, d, p->lo[0][0], p->hi[0][0], &k); o[0] = is64 ? k6 : k; return 1; }
  }
  if (is64) return 0;
  switch (op) {
  case O_FILL: a->fill(al); return 1; case O_ZERO: a->zero(); return 1; case O_COPY: b->copy(a); return 1; case O_ADD: c->add(al, a, be, b); return 1; case O_SCALE: a->scale(al); return 1; case O_ABS: a->absValue(); return 1; case O_ADDC: a->addConstant(al); return 1;
  case O_MUL: c->elemMultiply(a, b); return 1; case O_DIV: c->elemDivide(a, b); return 1; case O_MAX: c->elemMaximum(a, b); return 1; case O_MIN: c->elemMinimum(a, b); return 1; case O_MEDIAN: d->median(a, b, c); return 1; case O_RECIP: a->recip(); return 1;
  case O_DOT: switch (p->t) { case 0: o[0] = a->idot(b); return 1; case 1: o[0] = a->ldot(b); return 1; case 3: o[0] = a->fdot(b); return 1; case 4: o[0] = a->ddot(b); return 1; case 6: { DoubleComplex z = a->zdot(b); o[0] = z.real; o[1] = z.imag; return 1; } } return 0;
  case O_TRANS: a->transpose(b); return 1; case O_SYMM: a->symmetrize(); return 1; case O_NORM1: a->norm1(o); return 1; case O_NORMI: a->normInfinity(o); return 1;
  case O_GETD: d->getDiagonal(a); return 1; case O_SETD: a->setDiagonal(d); return 1; case O_ADDD: a->addDiagonal(d); return 1; case O_SHIFTD: a->shiftDiagonal(al); return 1; case O_ZEROD: a->zeroDiagonal(); return 1; case O_SCROW: a->scaleRows(d); return 1; case O_SCCOL: a->scaleCols(d); return 1;
  case O_SOLVE: if (p->trans & 1) { o[0] = b->lltSolve(a); } else b->luSolve(p->trans & 2 ? 't' : 'n', a); return 1; }
  return 0; }
static GA::PGroup *GRP;
extern "C" void xx_group(int *l, int n) { GRP = new GA::PGroup(l, n); }
extern "C" int xx_create(int kind, int is64, int type, int nd, const int *dims, const int *width, const int *a_, const int *b_, const int *c_, int grp, char *name, int src) {
  int d[8], w[8], A[64], B[64], C[64]; int64_t d6[8], w6[8], A6[64], B6[64], C6[64]; int i; for (i = 0; i < 8; i++) { d6[i] = d[i] = i < nd ? dims[i] : 0; w6[i] = w[i] = width && i < nd ? width[i] : 0; } for (i = 0; i < 64; i++) { A6[i] = A[i] = a_ ? a_[i] : 0; B6[i] = B[i] = b_ ? b_[i] : 0; C6[i] = C[i] = c_ ? c_[i] : 0; }
  GA::PGroup *g = grp > 0 ? GRP : GA::PGroup::getWorld();
  switch (kind) {
  case 0: return reg(is64 ? new GA::GlobalArray(type, nd, d6, name, A6) : GA::createGA(type, nd, d, name, A));
  case 1: return reg(is64 ? new GA::GlobalArray(type, nd, d6, name, A6, g) : new GA::GlobalArray(type, nd, d, name, A, g));
  case 2: return reg(is64 ? new GA::GlobalArray(type, nd, d6, name, B6, A6) : GA::SERVICES.createGA(type, nd, d, name, B, A));
  case 3: return reg(is64 ? new GA::GlobalArray(type, nd, d6, name, B6, A6, g) : new GA::GlobalArray(type, nd, d, name, B, A, g));
  case 4: return reg(is64 ? new GA::GlobalArray(type, nd, d6, w6, name, A6, 'g') : GA::createGA_Ghosts(type, nd, d, w, name, A));
  case 5: return reg(is64 ? new GA::GlobalArray(type, nd, d6, w6, name, A6, g, 'g') : new GA::GlobalArray(type, nd, d, w, name, A, g, 'g'));
  case 6: return reg(is64 ? new GA::GlobalArray(type, nd, d6, w6, name, B6, A6, 'g') : new GA::GlobalArray(type, nd, d, w, name, B, A, 'g'));
  case 7: return reg(is64 ? new GA::GlobalArray(type, nd, d6, w6, name, B6, A6, g, 'g') : new GA::GlobalArray(type, nd, d, w, name, B, A, g, 'g'));
  case 13: return reg(is64 ? new GA::GlobalArray(*M[src], name) : GA::createGA(M[src], name)); }
  GA::GlobalArray *x = new GA::GlobalArray(); if (is64) x->setData(nd, d6, type); else x->setData(nd, d, type); x->setArrayName(name); if (grp > 0) x->setPGroup(g);
  switch (kind) {
  case 8: if (is64) x->setBlockCyclic(A6); else x->setBlockCyclic(A); break;
  case 9: if (is64) x->setBlockCyclicProcGrid(A6, C6); else x->setBlockCyclicProcGrid(A, C); break;
  case 10: if (is64) x->setTiledProcGrid(A6, C6); else x->setTiledProcGrid(A, C); break;
  case 11: if (is64) x->setTiledIrregProcGrid(A6, B6, C6); else x->setTiledIrregProcGrid(A, B, C); break;
  case 12: if (is64) { x->setGhosts(w6); x->setIrregDistr(A6, B6); } else { x->setGhosts(w); x->setIrregDistr(A, B); } break;
  case 14: x->setRestricted(A, b_[0]); if (is64) x->setChunk(C6); else x->setChunk(C); break;
  case 15: x->setRestrictedRange(A[0], A[1]); break; }
  if (!x->allocate()) return -1; return reg(x); }
extern "C" int xx_eq(int a, int b) { return (*M[a] == *M[b]) + 2 * (*M[a] != *M[b]); }
extern "C" int xx_assign(int a, int b) { GA::GlobalArray *x = M[a]; M.erase(a); *x = *M[b]; return reg(x); }
extern "C" int xx_copyctor(int a) { return reg(GA::createGA(*M[a])); }
extern "C" void xx_misc(int what, double *o) { int me = GA::nodeid(), n = GA::nodes(), i;
  switch (what) {
  case 0: { o[0] = me; o[1] = n; o[2] = GA::clusterNnodes(); o[3] = GA::clusterNodeid(); o[4] = GA::clusterProcNodeid(n - 1); o[5] = GA::clusterNprocs(0); o[6] = GA::clusterProcid(0, 0); o[7] = GA::usesFAPI(); o[8] = GA::SERVICES.usesMA(); o[9] = GA::memoryLimited(); o[10] = GA::SERVICES.nodeid(); o[11] = GA::SERVICES.nodes(); break; }
  case 1: { int a[3] = { me + 1, 5 - me, 2 }; long b[3] = { me + 1, 5 - me, 2 }; float c[3] = { me + 1.f, 5.f - me, 2 }; double d[3] = { me + 1., 5. - me, 2 }; GA::gop(a, 3, (char *)"+"); GA::SERVICES.gop(b, 3, (char *)"*"); GA::gop(c, 3, (char *)"max"); GA::SERVICES.gop(d, 3, (char *)"min"); for (i = 0; i < 3; i++) { o[i] = a[i]; o[3 + i] = b[i]; o[6 + i] = c[i]; o[9 + i] = d[i]; }
    int e[2] = { me, 7 }; GA::igop(e, 2, (char *)"+"); long f[2] = { me, 7 }; GA::lgop(f, 2, (char *)"max"); double g[2] = { me * .5, 7 }; GA::SERVICES.dgop(g, 2, (char *)"+"); o[12] = e[0]; o[13] = f[0]; o[14] = g[0]; o[15] = e[1]; o[16] = f[1]; o[17] = g[1]; int h = me * 10 + 1; GA::brdcst(&h, 4, n - 1); o[18] = h; break; }
  case 2: { int l[16], k = 0; for (i = n - 1; i >= 0; i--) l[k++] = i; GA::PGroup g(l, n); o[0] = g.nodeid(); o[1] = g.nodes(); int a[2] = { me, 3 }; g.gop(a, 2, (char *)"+"); long b[2] = { me, 3 }; g.gop(b, 2, (char *)"max"); float c[2] = { me + 1.f, 3 }; g.gop(c, 2, (char *)"*"); double d[2] = { me + .5, 3 }; g.gop(d, 2, (char *)"min"); int h = me * 10 + 2; g.brdcst(&h, 4, 0); g.sync(); o[2] = a[0]; o[3] = b[0]; o[4] = c[0]; o[5] = d[0]; o[6] = a[1]; o[7] = b[1]; o[8] = c[1]; o[9] = d[1]; o[10] = h;
    GA::PGroup e = g.duplicate(); o[11] = e.nodeid(); o[12] = e.nodes(); GA::PGroup s = GA::PGroup::self(); o[13] = s.nodes(); o[14] = s.nodeid(); o[15] = GA::PGroup::getWorld()->nodes(); o[16] = GA::PGroup::getWorld()->nodeid();
    GA::PGroup::setDefault(&g); o[17] = GA_Pgroup_get_default() == g.handle(); o[18] = GA::PGroup::getDefault()->handle() == g.handle(); o[19] = GA::nodeid(); GA::PGroup::setDefault(GA::PGroup::getWorld()); o[20] = GA_Pgroup_get_default() == GA_Pgroup_get_world(); GA_Pgroup_set_default(g.handle()); o[21] = GA::PGroup::getDefault()->handle() == g.handle(); GA_Pgroup_set_default(GA_Pgroup_get_world()); o[22] = GA::PGroup::getDefault()->handle() == GA_Pgroup_get_world(); break; }
  case 3: { o[0] = GA::createMutexes(2); for (i = 0; i < 2; i++) { GA::lock(1); GA::unlock(1); GA::SERVICES.lock(0); GA::SERVICES.unlock(0); } GA::sync(); o[1] = GA::destroyMutexes(); GA::initFence(); GA::fence(); GA::SERVICES.sync(); break; }
  case 4: { /* an object whose array was destroyed explicitly destroys nothing more */ int d[1] = { 4 }, ch[1] = { -1 }; GA::GlobalArray *a = GA::createGA(C_INT, 1, d, (char *)"first", ch), *b = GA::createGA(C_INT, 1, d, (char *)"second", ch); b->destroy(); int h = a->handle(); delete b; o[0] = GA_Valid_handle(h) != 0; o[1] = h; if (o[0]) delete a; break; }
  } }
