/* G24: the Fortran, C (int and 64-bit) and C++ interfaces denote the same elements and operations.
   Every operation is called through one interface on a set of arrays and through the C interface on an identical second set; results,
   subscripts, buffers and the owners' memory of both sets have to agree. */
#include "hga.h"
#include "h_lang.h"
enum { FC, FC64, FF, FF2, FX, FX64, FT, FT2, NF };
static const char *FN[] = { "C", "C 64-bit", "Fortran", "Fortran 2-D", "C++", "C++ 64-bit", "Fortran typed", "Fortran typed 2-D" };
static const char *ON[] = { "put", "get", "acc", "nbput", "nbget", "nbacc", "scatter", "gather", "scatter_acc", "scatter (flat)", "gather (flat)", "scatter_acc (flat)", "strided put", "strided get", "strided acc", "periodic put", "periodic get", "periodic acc", "read_inc", "locate", "locate_region", "locate_nnodes", "distribution", "inquire", "nblock", "proc_topology", "block info", "access", "access_block", "get_ghost_block",
 "fill", "zero", "copy", "add", "scale", "abs_value", "add_constant", "elem_multiply", "elem_divide", "elem_maximum", "elem_minimum", "dot", "median", "recip", "fill_patch", "zero_patch", "scale_patch", "copy_patch", "add_patch", "dot_patch", "abs_value_patch", "add_constant_patch", "recip_patch", "elem_multiply_patch", "elem_divide_patch", "elem_maximum_patch", "elem_minimum_patch", "median_patch", "select_elem max", "select_elem min", "step_max", "step_max_patch", "update_ghosts", "update_ghost_dir",
 "transpose", "symmetrize", "norm1", "norm_infinity", "get_diag", "set_diagonal", "add_diagonal", "shift_diagonal", "zero_diagonal", "scale_rows", "scale_cols", "gemm", "matmul_patch (2-D form)", "matmul_patch", "solve", "patch_enum", "scan_copy", "scan_add", "pack", "unpack" };
extern long nga_read_inc_(), ga_read_inc_(), nga_locate_(), ga_locate_(), nga_locate_region_(), nga_locate_nnodes_(), ga_locate_nnodes_(), nga_nbtest_(), ga_ndim_(), nga_ndim_(), ga_has_ghosts_(), ga_total_blocks_(), ga_compare_distr_(), ga_idot_(), nga_idot_(), nga_idot_patch_(), ga_idot_patch_(), nga_update_ghost_dir_();
extern double ga_ddot_(), nga_ddot_(), nga_ddot_patch_(), ga_ddot_patch_(); extern float ga_sdot_(), nga_sdot_(), nga_sdot_patch_(), ga_sdot_patch_();
extern void nga_put_(), ga_put_(), nga_get_(), ga_get_(), nga_acc_(), ga_acc_(), nga_nbput_(), ga_nbput_(), nga_nbget_(), ga_nbget_(), nga_nbacc_(), ga_nbacc_(), nga_nbwait_(), ga_nbwait_(), nga_scatter_(), ga_scatter_(), nga_gather_(), ga_gather_(), nga_scatter_acc_(), ga_scatter_acc_(), nga_strided_put_(), nga_strided_get_(), nga_strided_acc_(), nga_periodic_put_(), nga_periodic_get_(), nga_periodic_acc_(),
 nga_distribution_(), ga_distribution_(), nga_inquire_(), ga_inquire_(), ga_inquire_name_(), nga_inquire_name_(), ga_nblock_(), ga_get_block_info_(), nga_get_ghost_block_(), ga_locate_region_(), nga_get_array_name_(), ga_get_array_name_(),
 ga_fill_(), ga_zero_(), ga_copy_(), ga_add_(), ga_scale_(), ga_abs_value_(), ga_add_constant_(), ga_elem_multiply_(), ga_elem_divide_(), ga_elem_maximum_(), ga_elem_minimum_(), ga_median_(), ga_recip_(), nga_fill_patch_(), ga_fill_patch_(), nga_zero_patch_(), ga_zero_patch_(), nga_scale_patch_(), ga_scale_patch_(), nga_copy_patch_(), ga_copy_patch_(), nga_add_patch_(), ga_add_patch_(), ga_abs_value_patch_(), ga_add_constant_patch_(), ga_recip_patch_(), ga_elem_multiply_patch_(), ga_elem_divide_patch_(), ga_elem_maximum_patch_(), ga_elem_minimum_patch_(), ga_median_patch_(), nga_select_elem_(), ga_step_max_(), ga_step_max_patch_(), ga_update_ghosts_(), nga_update_ghosts_nb_(),
 nga_fill_(), nga_zero_(), nga_copy_(), nga_add_(), nga_scale_(), nga_abs_value_(), nga_add_constant_(), nga_elem_multiply_(), nga_elem_divide_(), nga_elem_maximum_(), nga_elem_minimum_(), nga_median_(), nga_abs_value_patch_(), nga_add_constant_patch_(), nga_recip_patch_(), nga_elem_multiply_patch_(), nga_elem_divide_patch_(), nga_elem_maximum_patch_(), nga_elem_minimum_patch_(), nga_median_patch_(), nga_step_max_(), nga_step_max_patch_(), nga_update_ghosts_(),
 ga_transpose_(), ga_symmetrize_(), ga_get_diag_(), ga_set_diagonal_(), ga_add_diagonal_(), ga_shift_diagonal_(), ga_zero_diagonal_(), ga_scale_rows_(), ga_scale_cols_(), ga_sgemm_(), ga_dgemm_(), ga_cgemm_(), ga_zgemm_(), ga_matmul_patch_(), nga_matmul_patch_(), ga_patch_enum_(), ga_scan_copy_(), ga_scan_add_(), ga_pack_(), ga_unpack_(), nga_patch_enum_(), nga_scan_copy_(), nga_scan_add_(), nga_pack_(), nga_unpack_(),
 gai_zdot_(), ngai_zdot_(), gai_cdot_(), ngai_cdot_(), ngai_zdot_patch_(), ngai_cdot_patch_(), gai_zdot_patch_(), gai_cdot_patch_(),
 ga_ifill_patch_(), ga_sfill_patch_(), ga_dfill_patch_(), ga_cfill_patch_(), ga_zfill_patch_(), nga_ifill_patch_(), nga_sfill_patch_(), nga_dfill_patch_(), nga_cfill_patch_(), nga_zfill_patch_(),
 ga_iscal_patch_(), ga_sscal_patch_(), ga_dscal_patch_(), ga_cscal_patch_(), ga_zscal_patch_(), nga_iscale_patch_(), nga_sscale_patch_(), nga_dscale_patch_(), nga_cscale_patch_(), nga_zscale_patch_(),
 ga_iscal_(), ga_sscal_(), ga_dscal_(), ga_cscal_(), ga_zscal_(), nga_iscale_(), nga_sscale_(), nga_dscale_(), nga_cscale_(), nga_zscale_(), ga_iadd_(), ga_sadd_(), ga_dadd_(), ga_cadd_(), ga_zadd_(), nga_iadd_(), nga_sadd_(), nga_dadd_(), nga_cadd_(), nga_zadd_(),
 ga_iadd_patch_(), ga_sadd_patch_(), ga_dadd_patch_(), ga_cadd_patch_(), ga_zadd_patch_(), nga_iadd_patch_(), nga_sadd_patch_(), nga_dadd_patch_(), nga_cadd_patch_(), nga_zadd_patch_();
#define TYC(p_, s_, ...) switch (p->t) { case 1: p_##i##s_(__VA_ARGS__); break; case 3: p_##s##s_(__VA_ARGS__); break; case 4: p_##d##s_(__VA_ARGS__); break; case 5: p_##c##s_(__VA_ARGS__); break; case 6: p_##z##s_(__VA_ARGS__); break; default: return 0; }
#define A p->h[0]
#define B p->h[1]
#define C p->h[2]
#define D p->h[3]
#define FA &p->H[0]
#define FB &p->H[1]
#define FCC &p->H[2]
#define FD &p->H[3]
#define L(k) p->lo[k], p->hi[k]
#define Q(k) p->lo6[k], p->hi6[k]
#define F(k) p->fl[k], p->fh[k]
#define G(k) &p->fl[k][0], &p->fh[k][0], &p->fl[k][1], &p->fh[k][1]
#define S(c_, q_, n_, m_) switch (f) { case FC: c_; return 1; case FC64: q_; return 1; case FF: n_; return 1; case FF2: if (p->nd != 2) return 0; m_; return 1; default: return 0; }
#define W(c_, n_, m_) switch (f) { case FC: c_; return 1; case FF: n_; return 1; case FF2: m_; return 1; default: return 0; }
#define NO return 0
static long one_ = 1;
static int call(int f, int op, LP *p) { int i; double *o = p->out; void *al = p->al, *be = p->be; long k; int x; int64_t y; char *tr = p->trans & 1 ? "t" : "n", *tr2 = p->trans & 2 ? "T" : "N"; for (i = 0; i < 4; i++) p->H[i] = p->h[i];
  if (f == FX || f == FX64) return xx_call(op, f == FX64, p);
  switch (op) {
  case O_PUT: S(NGA_Put(A, L(0), p->buf, p->ld), NGA_Put64(A, Q(0), p->buf, p->ld6), nga_put_(FA, F(0), p->buf, p->fld), ga_put_(FA, G(0), p->buf, p->fld))
  case O_GET: S(NGA_Get(A, L(0), p->buf, p->ld), NGA_Get64(A, Q(0), p->buf, p->ld6), nga_get_(FA, F(0), p->buf, p->fld), ga_get_(FA, G(0), p->buf, p->fld))
  case O_ACC: S(NGA_Acc(A, L(0), p->buf, p->ld, al), NGA_Acc64(A, Q(0), p->buf, p->ld6, al), nga_acc_(FA, F(0), p->buf, p->fld, al), ga_acc_(FA, G(0), p->buf, p->fld, al))
  case O_NBPUT: { ga_nbhdl_t n = 0; long N_ = 0; S(NGA_NbPut(A, L(0), p->buf, p->ld, &n); NGA_NbWait(&n), NGA_NbPut64(A, Q(0), p->buf, p->ld6, &n); NGA_NbWait(&n), nga_nbput_(FA, F(0), p->buf, p->fld, &N_); nga_nbwait_(&N_), ga_nbput_(FA, G(0), p->buf, p->fld, &N_); ga_nbwait_(&N_)) }
  case O_NBGET: { ga_nbhdl_t n = 0; long N_ = 0; S(NGA_NbGet(A, L(0), p->buf, p->ld, &n); NGA_NbWait(&n), NGA_NbGet64(A, Q(0), p->buf, p->ld6, &n); NGA_NbWait(&n), nga_nbget_(FA, F(0), p->buf, p->fld, &N_); nga_nbwait_(&N_), ga_nbget_(FA, G(0), p->buf, p->fld, &N_); ga_nbwait_(&N_)) }
  case O_NBACC: { ga_nbhdl_t n = 0; long N_ = 0; S(NGA_NbAcc(A, L(0), p->buf, p->ld, al, &n); NGA_NbWait(&n), NGA_NbAcc64(A, Q(0), p->buf, p->ld6, al, &n); NGA_NbWait(&n), nga_nbacc_(FA, F(0), p->buf, p->fld, al, &N_); nga_nbwait_(&N_), ga_nbacc_(FA, G(0), p->buf, p->fld, al, &N_); ga_nbwait_(&N_)) }
  case O_SCATTER: k = p->nv; S(NGA_Scatter(A, p->buf, p->sub, p->nv), NGA_Scatter64(A, p->buf, p->sub6, p->nv), nga_scatter_(FA, p->buf, p->fsub, &k), ga_scatter_(FA, p->buf, p->fi, p->fj, &k))
  case O_GATHER: k = p->nv; S(NGA_Gather(A, p->buf, p->sub, p->nv), NGA_Gather64(A, p->buf, p->sub6, p->nv), nga_gather_(FA, p->buf, p->fsub, &k), ga_gather_(FA, p->buf, p->fi, p->fj, &k))
  case O_SCATACC: k = p->nv; if (f == FF2 && p->t == 2) return 0; S(NGA_Scatter_acc(A, p->buf, p->sub, p->nv, al), NGA_Scatter_acc64(A, p->buf, p->sub6, p->nv, al), nga_scatter_acc_(FA, p->buf, p->fsub, &k, al), ga_scatter_acc_(FA, p->buf, p->fi, p->fj, &k, al))
  case O_SCATTERF: S(NGA_Scatter_flat(A, p->buf, p->subf, p->nv), NGA_Scatter_flat64(A, p->buf, p->sub6f, p->nv), NO, NO)
  case O_GATHERF: S(NGA_Gather_flat(A, p->buf, p->subf, p->nv), NGA_Gather_flat64(A, p->buf, p->sub6f, p->nv), NO, NO)
  case O_SCATACCF: S(NGA_Scatter_acc_flat(A, p->buf, p->subf, p->nv, al), NGA_Scatter_acc_flat64(A, p->buf, p->sub6f, p->nv, al), NO, NO)
  case O_SPUT: S(NGA_Strided_put(A, L(0), p->sk, p->buf, p->ld), NGA_Strided_put64(A, Q(0), p->sk6, p->buf, p->ld6), nga_strided_put_(FA, F(0), p->fsk, p->buf, p->fld), NO)
  case O_SGET: S(NGA_Strided_get(A, L(0), p->sk, p->buf, p->ld), NGA_Strided_get64(A, Q(0), p->sk6, p->buf, p->ld6), nga_strided_get_(FA, F(0), p->fsk, p->buf, p->fld), NO)
  case O_SACC: S(NGA_Strided_acc(A, L(0), p->sk, p->buf, p->ld, al), NGA_Strided_acc64(A, Q(0), p->sk6, p->buf, p->ld6, al), nga_strided_acc_(FA, F(0), p->fsk, p->buf, p->fld, al), NO)
  case O_PPUT: S(NGA_Periodic_put(A, L(0), p->buf, p->ld), NGA_Periodic_put64(A, Q(0), p->buf, p->ld6), nga_periodic_put_(FA, F(0), p->buf, p->fld), NO)
  case O_PGET: S(NGA_Periodic_get(A, L(0), p->buf, p->ld), NGA_Periodic_get64(A, Q(0), p->buf, p->ld6), nga_periodic_get_(FA, F(0), p->buf, p->fld), NO)
  case O_PACC: S(NGA_Periodic_acc(A, L(0), p->buf, p->ld, al), NGA_Periodic_acc64(A, Q(0), p->buf, p->ld6, al), nga_periodic_acc_(FA, F(0), p->buf, p->fld, al), NO)
  case O_RDINC: k = 3; S(o[0] = NGA_Read_inc(A, p->lo[0], 3), o[0] = NGA_Read_inc64(A, p->lo6[0], 3), o[0] = nga_read_inc_(FA, p->fl[0], &k), o[0] = ga_read_inc_(FA, &p->fl[0][0], &p->fl[0][1], &k))
  case O_LOCATE: k = -7; S(o[0] = NGA_Locate(A, p->lo[0]), o[0] = NGA_Locate64(A, p->lo6[0]), x = nga_locate_(FA, p->fl[0], &k); o[0] = x ? k : -1, x = ga_locate_(FA, &p->fl[0][0], &p->fl[0][1], &k); o[0] = x ? k : -1)
  case O_LOCREG: if (f == FC) { int m[1024], pr[64]; x = NGA_Locate_region(A, L(0), m, pr); o[0] = x; for (i = 0; i < x; i++) o[1 + i] = pr[i]; for (i = 0; i < x * 2 * p->nd; i++) o[1 + x + i] = m[i]; return 1; }
    if (f == FC64) { int64_t m[1024]; int pr[64]; x = NGA_Locate_region64(A, Q(0), m, pr); o[0] = x; for (i = 0; i < x; i++) o[1 + i] = pr[i]; for (i = 0; i < x * 2 * p->nd; i++) o[1 + x + i] = m[i]; return 1; }
    if (f == FF) { long m[1024], pr[64]; k = -1; int j; if (!nga_locate_region_(FA, F(0), m, pr, &k)) k = 0; x = k; o[0] = x; for (i = 0; i < x; i++) o[1 + i] = pr[i]; for (i = 0; i < 2 * x; i++) for (j = 0; j < p->nd; j++) o[1 + x + i * p->nd + j] = m[i * p->nd + p->nd - 1 - j] - 1; return 1; }
    if (f == FF2 && p->nd == 2 && !p->v) { long m[64][5]; k = -1; ga_locate_region_(FA, G(0), m, &k); x = k; o[0] = x; for (i = 0; i < x; i++) { o[1 + i] = m[i][4]; o[1 + x + 4 * i] = m[i][2] - 1; o[1 + x + 4 * i + 1] = m[i][0] - 1; o[1 + x + 4 * i + 2] = m[i][3] - 1; o[1 + x + 4 * i + 3] = m[i][1] - 1; } return 1; } return 0;
  case O_LOCNN: S(o[0] = NGA_Locate_nnodes(A, L(0)), o[0] = NGA_Locate_nnodes64(A, Q(0)), if (!nga_locate_nnodes_(FA, F(0), &k)) k = 0; o[0] = k, if (!ga_locate_nnodes_(FA, G(0), &k)) k = 0; o[0] = k)
  case O_DISTR: { int l[8], h[8]; int64_t l6[8], h6[8]; long lf[8], hf[8]; k = p->proc; switch (f) { case FC: NGA_Distribution(A, k, l, h); break; case FC64: NGA_Distribution64(A, k, l6, h6); break; case FF: nga_distribution_(FA, &k, lf, hf); break; case FF2: if (p->nd != 2) return 0; ga_distribution_(FA, &k, lf, hf, lf + 1, hf + 1); break; default: return 0; }
    for (i = 0; i < p->nd; i++) { o[i] = f == FC ? l[i] : f == FC64 ? l6[i] : lf[p->nd - 1 - i] - 1; o[8 + i] = f == FC ? h[i] : f == FC64 ? h6[i] : hf[p->nd - 1 - i] - 1; } return 1; }
  case O_INQ: { int t, n_, d1[8]; int64_t d6[8]; long t2, n2, d2[8]; char nm[48]; static const int f2c[16] = { 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, C_LONG, 0, C_FLOAT, C_DBL, C_SCPL, C_DCPL }; memset(nm, 0, 48);
    if (f == FC) { NGA_Inquire(A, &t, &n_, d1); strncpy(nm, GA_Inquire_name(A), 40); } else if (f == FC64) { NGA_Inquire64(A, &t, &n_, d6); strncpy(nm, NGA_Inquire_name(A), 40); } else if (f == FF || (f == FF2 && p->nd == 2)) { if (f == FF) nga_inquire_(FA, &t2, &n2, d2); else { n2 = 2; ga_inquire_(FA, &t2, d2, d2 + 1); } t = t2 >= MT_F_BYTE && t2 <= MT_F_DCPL ? f2c[t2 - MT_F_BYTE + 9] : t2; n_ = n2; 
      memset(nm, '#', 48); switch (p->proc % 4) { case 0: ga_inquire_name_(FA, nm, 40); break; case 1: nga_inquire_name_(FA, nm, 40); break; case 2: ga_get_array_name_(FA, nm, 40); break; default: nga_get_array_name_(FA, nm, 40); } if (nm[40] != '#') sim_fail("the Fortran array name is written past its length"); for (i = 40; i > 0 && nm[i - 1] == ' '; i--); memset(nm + i, 0, 48 - i); } else return 0;
    o[0] = t; o[1] = n_; for (i = 0; i < n_; i++) o[2 + i] = f == FC ? d1[i] : f == FC64 ? d6[i] : d2[n_ - 1 - i]; o[10] = f == FC ? GA_Ndim(A) : f == FC64 ? NGA_Ndim(A) : f == FF ? ga_ndim_(FA) : nga_ndim_(FA); o[11] = (f < FF ? GA_Has_ghosts(A) : ga_has_ghosts_(FA)) != 0; memcpy(o + 12, nm, 40); o[20] = f < FF ? GA_Total_blocks(A) : ga_total_blocks_(FA); o[21] = f < FF ? GA_Compare_distr(A, B) : !ga_compare_distr_(FA, FB); return 1; }
  case O_NBLOCK: { int nb[8]; long n2[8]; if (f == FC) GA_Nblock(A, nb); else if (f == FF) ga_nblock_(FA, n2); else return 0; for (i = 0; i < p->nd; i++) o[i] = f == FC ? nb[i] : n2[p->nd - 1 - i]; return 1; }
  case O_TOPO: { int nb[8]; if (f != FC) return 0; NGA_Proc_topology(A, p->proc, nb); for (i = 0; i < p->nd; i++) o[i] = nb[i]; return 1; }
  case O_BLKINFO: { int nb[8], bd[8]; long n2[8], b2[8]; if (f == FC) GA_Get_block_info(A, nb, bd); else if (f == FF) ga_get_block_info_(FA, n2, b2); else return 0; for (i = 0; i < p->nd; i++) { o[i] = f == FC ? nb[i] : n2[p->nd - 1 - i]; o[8 + i] = f == FC ? bd[i] : b2[p->nd - 1 - i]; } return 1; }
  case O_ACCESS: { char *q; int l[8]; int64_t l6[8]; if (f == FC) NGA_Access(A, L(0), &q, l); else if (f == FC64) NGA_Access64(A, Q(0), &q, l6); else return 0; for (i = 0; i < p->nd - 1; i++) o[i] = f ? l6[i] : l[i]; memcpy(p->buf, q, 16); q[0] ^= p->v; if (f) { NGA_Release_update64(A, Q(0)); NGA_Release64(A, Q(0)); } else { NGA_Release_update(A, L(0)); NGA_Release(A, L(0)); } return 1; }
  case O_ACCBLK: { char *q; int l[8]; int64_t l6[8]; if (f == FC) NGA_Access_block(A, p->proc, &q, l); else if (f == FC64) NGA_Access_block64(A, p->proc, &q, l6); else return 0; for (i = 0; i < p->nd - 1; i++) o[i] = f ? l6[i] : l[i]; memcpy(p->buf, q, 4); q[0] ^= p->v; NGA_Release_update_block(A, p->proc); return 1; }
  case O_GHBLK: S(NGA_Get_ghost_block(A, L(0), p->buf, p->ld), NGA_Get_ghost_block64(A, Q(0), p->buf, p->ld6), nga_get_ghost_block_(FA, F(0), p->buf, p->fld), NO)
  case O_UPGH: W(GA_Update_ghosts(A), ga_update_ghosts_(FA), nga_update_ghosts_(FA))
  case O_UPGHD: { int dd = p->proc % p->nd, s = p->proc / p->nd % 2 ? 1 : -1; long fd = p->nd - dd, fs = s, fl = 1; W(o[0] = NGA_Update_ghost_dir(A, dd, s, 1), o[0] = nga_update_ghost_dir_(FA, &fd, &fs, &fl), NO) }
  case O_FILL: W(GA_Fill(A, al), ga_fill_(FA, al), nga_fill_(FA, al))
  case O_ZERO: W(GA_Zero(A), ga_zero_(FA), nga_zero_(FA))
  case O_COPY: W(GA_Copy(A, B), ga_copy_(FA, FB), nga_copy_(FA, FB))
  case O_ADD: if (f == FT) { TYC(nga_, add_, al, FA, be, FB, FCC) return 1; } if (f == FT2) { TYC(ga_, add_, al, FA, be, FB, FCC) return 1; } W(GA_Add(al, A, be, B, C), ga_add_(al, FA, be, FB, FCC), nga_add_(al, FA, be, FB, FCC))
  case O_SCALE: if (f == FT) { if (p->t == 5) return 0; TYC(nga_, scale_, FA, al) return 1; } if (f == FT2) { TYC(ga_, scal_, FA, al) return 1; } W(GA_Scale(A, al), ga_scale_(FA, al), nga_scale_(FA, al))
  case O_ABS: W(GA_Abs_value(A), ga_abs_value_(FA), nga_abs_value_(FA))
  case O_ADDC: W(GA_Add_constant(A, al), ga_add_constant_(FA, al), nga_add_constant_(FA, al))
  case O_RECIP: W(GA_Recip(A), ga_recip_(FA), NO)
  case O_MUL: W(GA_Elem_multiply(A, B, C), ga_elem_multiply_(FA, FB, FCC), nga_elem_multiply_(FA, FB, FCC))
  case O_DIV: W(GA_Elem_divide(A, B, C), ga_elem_divide_(FA, FB, FCC), nga_elem_divide_(FA, FB, FCC))
  case O_MAX: W(GA_Elem_maximum(A, B, C), ga_elem_maximum_(FA, FB, FCC), nga_elem_maximum_(FA, FB, FCC))
  case O_MIN: W(GA_Elem_minimum(A, B, C), ga_elem_minimum_(FA, FB, FCC), nga_elem_minimum_(FA, FB, FCC))
  case O_MEDIAN: W(GA_Median(A, B, C, D), ga_median_(FA, FB, FCC, FD), nga_median_(FA, FB, FCC, FD))
  case O_STEPMAX: W(GA_Step_max(A, B, o), ga_step_max_(FA, FB, o), nga_step_max_(FA, FB, o))
  case O_DOT: switch (p->t) { case 0: if (f) return 0; o[0] = GA_Idot(A, B); return 1; case 1: W(o[0] = GA_Ldot(A, B), o[0] = ga_idot_(FA, FB), o[0] = nga_idot_(FA, FB)) case 2: if (f) return 0; o[0] = GA_Lldot(A, B); return 1; case 3: W(o[0] = GA_Fdot(A, B), o[0] = ga_sdot_(FA, FB), o[0] = nga_sdot_(FA, FB)) case 4: W(o[0] = GA_Ddot(A, B), o[0] = ga_ddot_(FA, FB), o[0] = nga_ddot_(FA, FB))
    case 5: { SingleComplex z; W(z = GA_Cdot(A, B); o[0] = z.real; o[1] = z.imag, gai_cdot_(FA, FB, &z); o[0] = z.real; o[1] = z.imag, ngai_cdot_(FA, FB, &z); o[0] = z.real; o[1] = z.imag) } default: { DoubleComplex z; W(z = GA_Zdot(A, B); o[0] = z.real; o[1] = z.imag, gai_zdot_(FA, FB, &z); o[0] = z.real; o[1] = z.imag, ngai_zdot_(FA, FB, &z); o[0] = z.real; o[1] = z.imag) } }
  case O_FILLP: if (f == FT) { TYC(nga_, fill_patch_, FA, F(0), al) return 1; } if (f == FT2) { if (p->nd != 2) return 0; TYC(ga_, fill_patch_, FA, G(0), al) return 1; } S(NGA_Fill_patch(A, L(0), al), NGA_Fill_patch64(A, Q(0), al), nga_fill_patch_(FA, F(0), al), ga_fill_patch_(FA, G(0), al))
  case O_ZEROP: S(NGA_Zero_patch(A, L(0)), NGA_Zero_patch64(A, Q(0)), nga_zero_patch_(FA, F(0)), ga_zero_patch_(FA, G(0)))
  case O_SCALEP: if (f == FT) { TYC(nga_, scale_patch_, FA, F(0), al) return 1; } if (f == FT2) { if (p->nd != 2) return 0; TYC(ga_, scal_patch_, FA, G(0), al) return 1; } S(NGA_Scale_patch(A, L(0), al), NGA_Scale_patch64(A, Q(0), al), nga_scale_patch_(FA, F(0), al), ga_scale_patch_(FA, G(0), al))
  case O_COPYP: S(NGA_Copy_patch(tr[0], A, L(0), B, L(1)), NGA_Copy_patch64(tr[0], A, Q(0), B, Q(1)), nga_copy_patch_(tr, FA, F(0), FB, F(1), 1), ga_copy_patch_(tr, FA, G(0), FB, G(1), 1))
  case O_ADDP: if (f == FT) { TYC(nga_, add_patch_, al, FA, F(0), be, FB, F(1), FCC, F(2)) return 1; } if (f == FT2) { if (p->nd != 2) return 0; TYC(ga_, add_patch_, al, FA, G(0), be, FB, G(1), FCC, G(2)) return 1; } S(NGA_Add_patch(al, A, L(0), be, B, L(1), C, L(2)), NGA_Add_patch64(al, A, Q(0), be, B, Q(1), C, Q(2)), nga_add_patch_(al, FA, F(0), be, FB, F(1), FCC, F(2)), ga_add_patch_(al, FA, G(0), be, FB, G(1), FCC, G(2)))
#define NN FA, "n", F(0), FB, "n", F(1)
#define NN2 FA, "n", G(0), FB, "n", G(1)
#define CN A, 'n', L(0), B, 'n', L(1)
#define CQ A, 'n', Q(0), B, 'n', Q(1)
  case O_DOTP: switch (p->t) { case 0: S(o[0] = NGA_Idot_patch(CN), o[0] = NGA_Idot_patch64(CQ), NO, NO) case 1: S(o[0] = NGA_Ldot_patch(CN), o[0] = NGA_Ldot_patch64(CQ), o[0] = nga_idot_patch_(NN, 1, 1), o[0] = ga_idot_patch_(NN2, 1, 1)) case 2: S(o[0] = NGA_Lldot_patch(CN), o[0] = NGA_Lldot_patch64(CQ), NO, NO)
    case 3: S(o[0] = NGA_Fdot_patch(CN), o[0] = NGA_Fdot_patch64(CQ), o[0] = nga_sdot_patch_(NN, 1, 1), o[0] = ga_sdot_patch_(NN2, 1, 1)) case 4: S(o[0] = NGA_Ddot_patch(CN), o[0] = NGA_Ddot_patch64(CQ), o[0] = nga_ddot_patch_(NN, 1, 1), o[0] = ga_ddot_patch_(NN2, 1, 1))
    case 5: { SingleComplex z; S(z = NGA_Cdot_patch(CN); o[0] = z.real; o[1] = z.imag, z = NGA_Cdot_patch64(CQ); o[0] = z.real; o[1] = z.imag, ngai_cdot_patch_(NN, &z, 1, 1); o[0] = z.real; o[1] = z.imag, gai_cdot_patch_(NN2, &z, 1, 1); o[0] = z.real; o[1] = z.imag) }
    default: { DoubleComplex z; S(z = NGA_Zdot_patch(CN); o[0] = z.real; o[1] = z.imag, z = NGA_Zdot_patch64(CQ); o[0] = z.real; o[1] = z.imag, ngai_zdot_patch_(NN, &z, 1, 1); o[0] = z.real; o[1] = z.imag, gai_zdot_patch_(NN2, &z, 1, 1); o[0] = z.real; o[1] = z.imag) } }
  case O_ABSP: S(GA_Abs_value_patch(A, L(0)), GA_Abs_value_patch64(A, Q(0)), ga_abs_value_patch_(FA, F(0)), nga_abs_value_patch_(FA, F(0)))
  case O_ADDCP: S(GA_Add_constant_patch(A, L(0), al), GA_Add_constant_patch64(A, Q(0), al), ga_add_constant_patch_(FA, F(0), al), nga_add_constant_patch_(FA, F(0), al))
  case O_RECIPP: S(GA_Recip_patch(A, L(0)), GA_Recip_patch64(A, Q(0)), ga_recip_patch_(FA, F(0)), nga_recip_patch_(FA, F(0)))
#define E3 A, L(0), B, L(1), C, L(2)
#define Q3 A, Q(0), B, Q(1), C, Q(2)
#define F3 FA, F(0), FB, F(1), FCC, F(2)
  case O_MULP: S(GA_Elem_multiply_patch(E3), GA_Elem_multiply_patch64(Q3), ga_elem_multiply_patch_(F3), nga_elem_multiply_patch_(F3))
  case O_DIVP: S(GA_Elem_divide_patch(E3), GA_Elem_divide_patch64(Q3), ga_elem_divide_patch_(F3), nga_elem_divide_patch_(F3))
  case O_MAXP: S(GA_Elem_maximum_patch(E3), GA_Elem_maximum_patch64(Q3), ga_elem_maximum_patch_(F3), nga_elem_maximum_patch_(F3))
  case O_MINP: S(GA_Elem_minimum_patch(E3), GA_Elem_minimum_patch64(Q3), ga_elem_minimum_patch_(F3), nga_elem_minimum_patch_(F3))
  case O_MEDP: S(GA_Median_patch(E3, D, L(3)), GA_Median_patch64(Q3, D, Q(3)), ga_median_patch_(F3, FD, F(3)), nga_median_patch_(F3, FD, F(3)))
  case O_STEPMAXP: S(GA_Step_max_patch(A, L(0), B, L(1), o), GA_Step_max_patch64(A, Q(0), B, Q(1), o), ga_step_max_patch_(FA, F(0), FB, F(1), o), nga_step_max_patch_(FA, F(0), FB, F(1), o))
  case O_SELMAX: case O_SELMIN: { char *s = op == O_SELMAX ? "max" : "min"; int ix_[8]; int64_t i6[8]; long fi[8]; switch (f) { case FC: NGA_Select_elem(A, s, o + 8, ix_); break; case FC64: NGA_Select_elem64(A, s, o + 8, i6); break; case FF: nga_select_elem_(FA, s, o + 8, fi, 3); break; default: return 0; } for (i = 0; i < p->nd; i++) o[i] = f == FC ? ix_[i] : f == FC64 ? i6[i] : fi[p->nd - 1 - i] - 1; return 1; }
  case O_TRANS: if (f == FC) { GA_Transpose(A, B); return 1; } if (f == FF) { ga_transpose_(FA, FB); return 1; } return 0;
  case O_SYMM: W(GA_Symmetrize(A), ga_symmetrize_(FA), NO)
  case O_NORM1: W(GA_Norm1(A, o), NO, NO)
  case O_NORMI: W(GA_Norm_infinity(A, o), NO, NO)
  case O_GETD: W(GA_Get_diag(A, D), ga_get_diag_(FA, FD), NO)
  case O_SETD: W(GA_Set_diagonal(A, D), ga_set_diagonal_(FA, FD), NO)
  case O_ADDD: W(GA_Add_diagonal(A, D), ga_add_diagonal_(FA, FD), NO)
  case O_SHIFTD: W(GA_Shift_diagonal(A, al), ga_shift_diagonal_(FA, al), NO)
  case O_ZEROD: W(GA_Zero_diagonal(A), ga_zero_diagonal_(FA), NO)
  case O_SCROW: W(GA_Scale_rows(A, D), ga_scale_cols_(FA, FD), NO)
  case O_SCCOL: W(GA_Scale_cols(A, D), ga_scale_rows_(FA, FD), NO)
#define GM(c_, fn_, T1_, T2_, ...) { __VA_ARGS__; S(c_(tr[0], tr2[0], n_, n_, n_, x_, A, B, y_, C), c_##64(tr[0], tr2[0], n_, n_, n_, x_, A, B, y_, C), fn_(tr2, tr, &N_, &N_, &N_, &x_, FB, FA, &y_, FCC, 1, 1), NO) }
  case O_GEMM: { int n_ = p->d[0]; long N_ = n_; switch (p->t) { case 3: GM(GA_Sgemm, ga_sgemm_, , , float x_ = 2, y_ = 3) case 4: GM(GA_Dgemm, ga_dgemm_, , , double x_ = 2, y_ = 3) case 5: GM(GA_Cgemm, ga_cgemm_, , , SingleComplex x_ = { 2, 1 }, y_ = { 3, -1 }) case 6: GM(GA_Zgemm, ga_zgemm_, , , DoubleComplex x_ = { 2, 1 }, y_ = { 3, -1 }) } return 0; }
#define M4(l_, h_, k) p->l_[k][0], p->h_[k][0], p->l_[k][1], p->h_[k][1]
#define MF(k) &q[k][0], &q[k][1], &q[k][2], &q[k][3]
  case O_MATMUL: { long q[3][4]; for (i = 0; i < 3; i++) { q[i][0] = p->lo[i][0] + 1; q[i][1] = p->hi[i][0] + 1; q[i][2] = p->lo[i][1] + 1; q[i][3] = p->hi[i][1] + 1; } S(GA_Matmul_patch(tr[0], tr2[0], al, be, A, M4(lo, hi, 0), B, M4(lo, hi, 1), C, M4(lo, hi, 2)), GA_Matmul_patch64(tr[0], tr2[0], al, be, A, M4(lo6, hi6, 0), B, M4(lo6, hi6, 1), C, M4(lo6, hi6, 2)), NO, ga_matmul_patch_(tr, tr2, al, be, FA, MF(0), FB, MF(1), FCC, MF(2), 1, 1)) }
  case O_MATMULN: S(NGA_Matmul_patch(tr[0], tr2[0], al, be, E3), NGA_Matmul_patch64(tr[0], tr2[0], al, be, Q3), nga_matmul_patch_(tr2, tr, al, be, FB, F(1), FA, F(0), FCC, F(2), 1, 1), NO)
  case O_SOLVE: if (f != FC) return 0; if (p->trans & 1) o[0] = GA_Llt_solve(A, B); else GA_Lu_solve(p->trans & 2 ? 't' : 'n', A, B); return 1;
  case O_ENUM: S(GA_Patch_enum(A, p->lo[0][0], p->hi[0][0], al, be), GA_Patch_enum64(A, p->lo[0][0], p->hi[0][0], al, be), ga_patch_enum_(FA, F(0), al, be), nga_patch_enum_(FA, F(0), al, be))
#define V3 A, B, D, p->lo[0][0], p->hi[0][0]
#define W3 FA, FB, FD, F(0)
#undef S
#define S(c_, q_, n_, m_) switch (f) { case FC: c_; return 1; case FC64: q_; return 1; case FF: n_; return 1; case FF2: m_; return 1; default: return 0; }
  case O_SCANC: S(GA_Scan_copy(V3), GA_Scan_copy64(V3), ga_scan_copy_(W3), nga_scan_copy_(W3))
  case O_SCANA: k = p->trans & 1; S(GA_Scan_add(V3, k), GA_Scan_add64(V3, k), ga_scan_add_(W3, &k), nga_scan_add_(W3, &k))
  case O_PACK: S(x = -1; GA_Pack(V3, &x); o[0] = x, y = -1; GA_Pack64(V3, &y); o[0] = y, k = -1; ga_pack_(W3, &k); o[0] = k, k = -1; nga_pack_(W3, &k); o[0] = k)
  case O_UNPACK: S(x = -1; GA_Unpack(V3, &x); o[0] = x, y = -1; GA_Unpack64(V3, &y); o[0] = y, k = -1; ga_unpack_(W3, &k); o[0] = k, k = -1; nga_unpack_(W3, &k); o[0] = k)
  } (void)one_; return 0; }
#undef A
#undef B
#undef C
#undef D
/* ---- parameters ---- */
static void setp(LP *p, int k, const int *lo, const int *hi) { int i; for (i = 0; i < p->nd; i++) { p->lo[k][i] = p->lo6[k][i] = lo[i]; p->hi[k][i] = p->hi6[k][i] = hi[i]; p->fl[k][p->nd - 1 - i] = lo[i] + 1; p->fh[k][p->nd - 1 - i] = hi[i] + 1; } }
static long setld(LP *p, const int *ext, int pad) { int i; long n_ = ext[0]; for (i = 1; i < p->nd; i++) { p->ld[i - 1] = p->ld6[i - 1] = ext[i] + pad * i; n_ *= ext[i] + pad * i; } for (i = 0; i < p->nd - 1; i++) p->fld[i] = p->ld[p->nd - 2 - i]; if (p->nd == 1) p->fld[0] = ext[0]; return n_; }
static int T; static char w[240];
static int GA4[4], GT4[4]; static RA r0, r4; static int K, nd, dm[MD], kd;
static int nz; /* no element of the first operand is zero */
static void reset(int *g, RA *r, RA *r4_) { RA q = *r; int i; q.v = malloc(16 * (r->N + 1)); for (i = 0; i < 3; i++) { iota(&q, i + 1); if (i == 1 || nz) { long k; for (k = 0; k < q.N; k++) q.v[2 * k] = 1 + (k * 5) % 7; } local_all(g[i], kd, &q, 1, ""); } free(q.v); iota(r4_, 5); local_all(g[3], kd, r4_, 1, ""); GA_Sync(); }
static void same(int op, int f) { int i, b, q, lo[MD], hi[MD], l1[MD], l2[MD], s[MD]; for (i = 0; i < 4; i++) { int n_ = GA_Ndim(GA4[i]), nb = BLOCKY(kd) ? GA_Total_blocks(GA4[i]) : 1; char *p1, *p2;
  for (b = 0; b < nb; b++) { NGA_Distribution(GT4[i], BLOCKY(kd) ? b : GA_Pgroup_nodeid(GA_Get_pgroup(GT4[i])), lo, hi); if (!vol(n_, lo, hi)) continue; if (BLOCKY(kd)) { if (bowner(GT4[i], kd, b) != my) continue; NGA_Access_block(GA4[i], b, &p1, l1); NGA_Access_block(GT4[i], b, &p2, l2); } else { NGA_Access(GA4[i], lo, hi, &p1, l1); NGA_Access(GT4[i], lo, hi, &p2, l2); }
    memcpy(s, lo, sizeof s); do { long o1 = 0, o2 = 0; for (q = 0; q < n_; q++) { o1 = (q ? o1 * l1[q - 1] : 0) + s[q] - lo[q]; o2 = (q ? o2 * l2[q - 1] : 0) + s[q] - lo[q]; } if (memcmp(p1 + o1 * TS[T], p2 + o2 * TS[T], TS[T])) { double x, y, X, Y; ge(p1, T, o1, &x, &y); ge(p2, T, o2, &X, &Y); sim_fail("%s: %s through %s leaves element (%s) of operand %d at %g,%g, through C at %g,%g", w, ON[op], FN[f], sv(n_, s), i, x, y, X, Y); } } while (nx(n_, lo, hi, s));
    if (BLOCKY(kd)) { NGA_Release_block(GA4[i], b); NGA_Release_block(GT4[i], b); } else { NGA_Release(GA4[i], lo, hi); NGA_Release(GT4[i], lo, hi); } } } sim_count(0, 1); }
static double o1[1200], o2[1200]; static char *b1, *b2; static char alb[16], beb[16];
#define BUFN 4096
/* one call through f and through C; returns 0 if the interface has no such call */
static int both(int op, int f, LP *p, int withbuf) { if (T == 2 && (op == O_ACC || op == O_NBACC || op == O_SCATACC || op == O_SCATACCF || op == O_SACC || op == O_PACC)) return 1; /* rejected for long long */
  LP a = *p, b = *p; int i; memset(o1, 0, sizeof o1); memset(o2, 0, sizeof o2); a.out = o1; b.out = o2; a.buf = b1; b.buf = b2; if (withbuf) { for (i = 0; i < BUFN / TS[T]; i++) pe(b1, T, i, 2 + i % 11, 1 + i % 3); memcpy(b2, b1, BUFN); }
  for (i = 0; i < 4; i++) { a.h[i] = GA4[i]; b.h[i] = GT4[i]; } if (!call(f, op, &a)) return 0; call(FC, op, &b); sim_count(1, 1);
  if (op == O_INQ && f >= FF && f <= FF2 && T == 0) o1[0] = o2[0]; /* no Fortran type */
  for (i = 0; i < 1200; i++) if (memcmp(&o1[i], &o2[i], 8)) sim_fail("%s: %s of %s-%s through %s returns %.10g as value %d, through C %.10g", w, ON[op], sv(p->nd, p->lo[0]), sv(p->nd, p->hi[0]), FN[f], o1[i], i, o2[i]);
  if (memcmp(b1, b2, BUFN)) { for (i = 0; b1[i] == b2[i]; i++); sim_fail("%s: %s of %s-%s through %s differs from C in byte %d of the buffer", w, ON[op], sv(p->nd, p->lo[0]), sv(p->nd, p->hi[0]), FN[f], i); } return 1; }
static void one(int f, int turn) { /* every one-process operation on every patch, called by one process */
  int lo[MD] = { 0 }, hi[MD] = { 0 }, e[MD], i, k, op, np_ = 0; LP P_, *p = &P_; memset(p, 0, sizeof P_); p->nd = nd; p->t = T; p->al = alb; p->be = beb; memcpy(p->d, dm, sizeof(int) * nd); int sb[64][8], *sp[64]; int64_t s6[64][8], *sp6[64]; int sf[64 * 8]; int64_t s6f[64 * 8]; long fsf[64 * 8], fi[64], fj[64]; p->sub = sp; p->sub6 = sp6; p->subf = sf; p->sub6f = s6f; p->fsub = fsf; p->fi = fi; p->fj = fj;
  do { int pad = np_++ & 1; setp(p, 0, lo, hi); for (i = 0; i < nd; i++) e[i] = hi[i] - lo[i] + 1; setld(p, e, pad); p->v = BLOCKY(kd);
    for (op = O_PUT; op <= O_NBACC; op++) { both(op, f, p, 1); GA_Init_fence(); GA_Fence(); }
    { int c = 0, s[MD]; memcpy(s, lo, sizeof s); do { if (c < 60) { for (i = 0; i < nd; i++) sb[c][i] = s[i]; c++; } } while (nx(nd, lo, hi, s)); p->nv = c; for (k = 0; k < c; k++) { int q = (k * 7 + 3) % c; while (c % 7 == 0 && 0); int u = c % 7 ? q : c - 1 - k; sp[k] = s6[k] ? sb[u] : 0; for (i = 0; i < nd; i++) { s6[k][i] = sb[u][i]; sf[k * nd + i] = s6f[k * nd + i] = sb[u][i]; fsf[k * nd + nd - 1 - i] = sb[u][i] + 1; } sp6[k] = s6[k]; fi[k] = sb[u][nd - 1] + 1; fj[k] = sb[u][0] + 1; }
      for (op = O_SCATTER; op <= O_SCATACCF; op++) { both(op, f, p, 1); GA_Init_fence(); GA_Fence(); } }
    for (k = 0; k < 2; k++) { for (i = 0; i < nd; i++) { p->sk[i] = k ? 2 - (i & 1) : 1 + (i & 1); p->sk6[i] = p->sk[i]; p->fsk[nd - 1 - i] = p->sk[i]; e[i] = (hi[i] - lo[i]) / p->sk[i] + 1; } setld(p, e, pad); for (op = O_SPUT; op <= O_SACC; op++) both(op, f, p, 1); }
    for (op = O_LOCATE; op <= O_LOCNN; op++) both(op, f, p, 0);
    { int l[MD], h[MD]; for (i = 0; i < nd; i++) { l[i] = lo[i] - 1 - (i & 1); h[i] = l[i] + (hi[i] - lo[i]); e[i] = hi[i] - lo[i] + 1; if (np_ % 3 == 0) { l[i] = lo[i] + 1; h[i] = hi[i] + 1; } } setp(p, 0, l, h); setld(p, e, pad); for (op = O_PPUT; op <= O_PACC; op++) both(op, f, p, 1); }
    if (T < 3 && T != 2) { setp(p, 0, lo, lo); both(O_RDINC, f, p, 0); }
  } while (nxpatch(nd, dm, lo, hi));
  for (i = 0; i < P; i++) { p->proc = i; memset(e, 0, sizeof e); setp(p, 0, e, e); both(O_DISTR, f, p, 0); both(O_INQ, f, p, 0); if (!BLOCKY(kd)) both(O_TOPO, f, p, 0); } p->proc = 3; both(O_INQ, f, p, 0); if (!BLOCKY(kd)) both(O_NBLOCK, f, p, 0); if (BLOCKY(kd)) both(O_BLKINFO, f, p, 0); if (BLOCKY(kd)) { int nb = GA_Total_blocks(GA4[0]); for (i = 0; i < nb; i++) { p->proc = i; both(O_DISTR, f, p, 0); } }
  (void)turn; }
static void own(int f) { LP P_, *p = &P_; int lo[MD], hi[MD], i, b; memset(p, 0, sizeof P_); p->nd = nd; p->t = T; p->v = 1; if (CPLX(T) || T >= 3) p->v = 0; memset(b1, 0, BUFN); memset(b2, 0, BUFN);
  if (!BLOCKY(kd)) { NGA_Distribution(GA4[0], my, lo, hi); if (kd == D_RESTR) return; if (vol(nd, lo, hi)) { setp(p, 0, lo, hi); both(O_ACCESS, f, p, 0); if (hi[0] > lo[0]) { lo[0]++; setp(p, 0, lo, hi); both(O_ACCESS, f, p, 0); } } } else for (b = 0; b < GA_Total_blocks(GA4[0]); b++) if (bowner(GA4[0], kd, b) == my) { p->proc = b; for (i = 0; i < nd; i++) lo[i] = hi[i] = 0; setp(p, 0, lo, hi); both(O_ACCBLK, f, p, 0); } }
static void coll(int f, int sel) { LP P_, *p = &P_; int op, i, k, lo[MD], hi[MD], l[MD], h[MD]; memset(p, 0, sizeof P_); p->nd = nd; p->t = T; p->al = alb; p->be = beb; memcpy(p->d, dm, sizeof(int) * nd); int sq = nd == 2 && dm[0] == dm[1];
  for (op = O_FILL; op < O_N; op++) { if (op >= O_TRANS && op <= O_SOLVE && !sq) continue; if (op >= O_ENUM && nd != 1) continue; if (op == O_SOLVE) continue; if ((op == O_DIV || op == O_DIVP) && T < 3) ; if (op == O_SELMAX && CPLX(T)) ; if ((op == O_STEPMAX || op == O_STEPMAXP) && T != 4) continue; if ((op == O_MEDIAN || op == O_MEDP || op == O_MAX || op == O_MIN || op == O_MAXP || op == O_MINP || op == O_SELMAX || op == O_SELMIN) && CPLX(T)) continue; if ((op == O_UPGH || op == O_UPGHD) && kd != D_GHOST) continue; if (op == O_UPGHD && nd < 2) ;
    if ((op == O_GETD || op == O_SETD || op == O_ADDD || op == O_SCROW || op == O_SCCOL || op == O_SHIFTD || op == O_ZEROD || op == O_NORM1 || op == O_NORMI) && (BLOCKY(kd) || kd == D_GHOST || kd == D_RESTR)) continue; if ((op == O_GEMM || op == O_MATMUL || op == O_MATMULN) && (T < 3 || kd == D_GHOST || kd == D_RESTR || BLOCKY(kd))) continue; if (op >= O_ENUM && (BLOCKY(kd) || kd == D_GHOST || kd == D_RESTR || (T != 1 && op != O_ENUM))) continue;
    if ((op == O_SYMM || op == O_TRANS) && (BLOCKY(kd) || kd == D_GHOST || kd == D_RESTR)) continue; if (op == O_SYMM && T != 4) continue; if ((op == O_MEDIAN || op == O_MEDP) && sq) continue; if ((op == O_STEPMAX || op == O_STEPMAXP) && (BLOCKY(kd) || kd == D_RESTR)) continue;
    int patched = (op >= O_FILLP && op <= O_MEDP) || op == O_STEPMAXP || op == O_MATMUL || op == O_MATMULN || op >= O_ENUM, reps = patched ? 3 : op == O_GEMM || op == O_UPGHD || op == O_SCANA ? 2 : 1;
    if (op == O_RECIPP) reps = 1; nz = op == O_RECIP || op == O_RECIPP; reset(GA4, &r0, &r4); reset(GT4, &r0, &r4); nz = 0;
    for (k = 0; k < reps; k++) { int q = k + sel; for (i = 0; i < nd; i++) { lo[i] = (q + i) % 3 == 0 ? 0 : dm[i] > 2 ? (q + i) % 2 : 0; hi[i] = (q + i) % 4 == 1 && dm[i] - 1 > lo[i] ? dm[i] - 2 : dm[i] - 1; if (k == 2) { lo[i] = dm[i] / 2; hi[i] = dm[i] - 1; } if (hi[i] < lo[i]) hi[i] = lo[i]; }
      if ((op == O_MATMUL || op == O_MATMULN)) { int s = 1 + (q % dm[0]), z = dm[0] - s; for (i = 0; i < 2; i++) { lo[i] = (i + q) % 2 ? z : 0; hi[i] = lo[i] + s - 1; } }
      setp(p, 0, lo, hi); for (i = 0; i < nd; i++) { l[i] = 0; h[i] = hi[i] - lo[i]; } setp(p, 1, l, h); for (i = 0; i < nd; i++) { h[i] = dm[i] - 1; l[i] = h[i] - (hi[i] - lo[i]); } setp(p, 2, l, h); setp(p, 3, lo, hi); p->trans = q % 4; p->proc = q; p->v = 0; if (op == O_COPYP && (p->trans & 1)) { if (nd == 2 && !BLOCKY(kd)) { for (i = 0; i < 2; i++) { l[i] = 0; h[i] = hi[1 - i] - lo[1 - i]; if (h[i] >= dm[i]) { p->trans = 0; } } if (!(p->trans & 1)) { for (i = 0; i < 2; i++) h[i] = hi[i] - lo[i]; } setp(p, 1, l, h); } else p->trans = 0; }
      if (op == O_STEPMAXP) setp(p, 1, lo, hi); memset(b1, 0, BUFN); memset(b2, 0, BUFN); if (!both(op, f, p, 0)) break; GA_Sync(); same(op, f); } }
  if (kd == D_GHOST) { int e[MD]; reset(GA4, &r0, &r4); reset(GT4, &r0, &r4); GA_Update_ghosts(GA4[0]); GA_Update_ghosts(GT4[0]); NGA_Distribution(GA4[0], my, lo, hi); for (i = 0; i < nd; i++) { lo[i] -= i & 1 ? 1 : 0; hi[i] += 1; e[i] = hi[i] - lo[i] + 1; } setp(p, 0, lo, hi); setld(p, e, 1); both(O_GHBLK, f, p, 1); GA_Sync(); } }
static const struct { int nd, d[4], t; } SH[] = { { 2, { 3, 4 }, 4 }, { 1, { 7 }, 1 }, { 2, { 4, 4 }, 6 }, { 3, { 2, 3, 2 }, 0 }, { 2, { 4, 4 }, 3 }, { 4, { 2, 1, 3, 2 }, 4 }, { 2, { 5, 2 }, 1 }, { 1, { 6 }, 3 }, { 3, { 3, 2, 2 }, 5 }, { 2, { 4, 4 }, 5 }, { 2, { 3, 3 }, 1 }, { 4, { 2, 2, 2, 2 }, 1 }, { 1, { 9 }, 6 }, { 2, { 4, 4 }, 4 } };
static const int KS[] = { D_REG, D_SCAL, D_GHOST, D_IRREG, D_TILED, D_BC, D_RESTR };
static int vec_(int k, int n1) { int d1[1] = { n1 }; return mk(k, TY[T], 1, d1, 0, "diagonal"); }
static void ops(int sh, int ki, int f, int cs) { int i, sq; nd = SH[sh].nd; T = SH[sh].t; kd = KS[ki]; for (i = 0; i < nd; i++) dm[i] = SH[sh].d[i]; if (kd == D_RESTR && P < 2) return; GW[0] = 1; for (i = 1; i < nd; i++) GW[i] = 1 + (i & 1); if (!kind_ok(kd, nd, dm, 0)) return; sq = nd == 2 && dm[0] == dm[1];
  r0 = ra(T, nd, dm); int one1[1] = { nd == 1 ? dm[0] : sq ? dm[0] : 2 }; 
  static const char *nm[4] = { "first operand", "b", "a name of thirty characters 30", "d" };
  for (i = 0; i < 4; i++) { int dd = i == 3 && sq ? 1 : nd; mk_handle = xx_new; GA4[i] = i == 3 && sq ? vec_(kd == D_GHOST ? D_REG : kd, dm[0]) : mk(kd, TY[T], nd, dm, 0, nm[i]); mk_handle = GA_Create_handle; GT4[i] = i == 3 && sq ? vec_(kd == D_GHOST ? D_REG : kd, dm[0]) : mk(kd, TY[T], nd, dm, 0, nm[i]); (void)dd; }
  r4 = sq ? ra(T, 1, one1) : ra(T, nd, dm); pe(alb, T, 0, 2, 1); pe(beb, T, 0, 3, -1); b1 = calloc(BUFN + 64, 1); b2 = calloc(BUFN + 64, 1);
  snprintf(w, sizeof w, "%s %s array %s", DN[kd], TN[T], sv(nd, dm));
  if (sq && kd == D_GHOST) { }
  reset(GA4, &r0, &r4); reset(GT4, &r0, &r4); for (i = 0; i < P; i++) { if (i == my) one(f, i); GA_Sync(); same(O_PUT, f); if (P > 2 && i) i = P - 2 > i ? P - 2 : i; } own(f); GA_Sync(); same(O_ACCESS, f); coll(f, cs);
  for (i = 0; i < 4; i++) { GA_Sync(); xx_del(GA4[i]); GA_Destroy(GT4[i]); } free(r0.v); free(r4.v); free(b1); free(b2); }
/* creation through every interface: the same array */
extern long nga_create_(), ga_create_(), nga_create_config_(), nga_create_irreg_(), ga_create_irreg_(), nga_create_irreg_config_(), nga_create_ghosts_(), nga_create_ghosts_config_(), nga_create_ghosts_irreg_(), nga_create_ghosts_irreg_config_(), ga_create_handle_(), nga_create_handle_(), ga_allocate_(), nga_allocate_(), ga_duplicate_(), nga_duplicate_(), ga_destroy_(), nga_destroy_(), ga_valid_handle_();
extern void ga_set_data_(), nga_set_data_(), ga_set_array_name_(), nga_set_array_name_(), ga_set_pgroup_(), nga_set_pgroup_(), ga_set_block_cyclic_(), nga_set_block_cyclic_(), ga_set_block_cyclic_proc_grid_(), nga_set_block_cyclic_proc_grid_(), ga_set_tiled_proc_grid_(), nga_set_tiled_proc_grid_(), ga_set_tiled_irreg_proc_grid_(), nga_set_tiled_irreg_proc_grid_(), ga_set_ghosts_(), nga_set_ghosts_(), ga_set_irreg_distr_(), nga_set_irreg_distr_(), ga_set_restricted_(), nga_set_restricted_(), ga_set_restricted_range_(), nga_set_restricted_range_(), ga_set_chunk_(), nga_set_chunk_();
static const int FTY[7] = { C_INT, MT_F_INT, C_LONGLONG, MT_F_REAL, MT_F_DBL, MT_F_SCPL, MT_F_DCPL };
static int create(int f, int kind, int ti, int n_, const int *d, const int *wd, const int *a, const int *b, const int *c, int grp, int gh, const char *name, int src) { int g = 0, i, k; int type = TY[ti];
  char fname[64]; int fl = 40; memset(fname, ' ', 64); memcpy(fname, name, strlen(name)); int64_t d6[8], w6[8], a6[64], b6[64], c6[64]; long df[8], wf[8], af[64], bf[64], cf[64], G_ = 0, N_ = n_, T_ = FTY[ti], PH = gh, st = 1; int isirr = kind == 2 || kind == 3 || kind == 6 || kind == 7 || kind == 11 || kind == 12;
  for (i = 0; i < n_; i++) { d6[i] = d[i]; w6[i] = wd[i]; df[n_ - 1 - i] = d[i]; wf[n_ - 1 - i] = wd[i]; } for (i = 0; i < 64; i++) { a6[i] = a[i]; b6[i] = b[i]; c6[i] = c[i]; }
  if (isirr) { int off = 0, o = 0; for (i = 0; i < n_; i++) off += b[i]; for (i = 0; i < n_; i++) { o += b[i]; for (k = 0; k < b[i]; k++) af[off - o + k] = a[o - b[i] + k] + 1; bf[n_ - 1 - i] = b[i]; } } else for (i = 0; i < n_; i++) af[n_ - 1 - i] = a[i]; for (i = 0; i < n_; i++) cf[n_ - 1 - i] = c[i];
  if (f == FX || f == FX64) return xx_create(kind, f == FX64, type, n_, d, wd, a, b, c, grp, (char *)name, src);
#define CR(c_, q_, n__) if (f == FC) g = c_; else if (f == FC64) g = q_; else { st = n__; g = st ? G_ : 0; } return g
  switch (kind) {
  case 0: if (f == FF2) { if (n_ != 2) return 0; st = ga_create_(&T_, df, df + 1, fname, af, af + 1, &G_, fl); return st ? G_ : 0; } CR(NGA_Create(type, n_, (int *)d, (char *)name, (int *)a), NGA_Create64(type, n_, d6, (char *)name, a6), nga_create_(&T_, &N_, df, fname, af, &G_, fl));
  case 1: CR(NGA_Create_config(type, n_, (int *)d, (char *)name, (int *)a, gh), NGA_Create_config64(type, n_, d6, (char *)name, a6, gh), nga_create_config_(&T_, &N_, df, fname, af, &PH, &G_, fl));
  case 2: if (f == FF2) { if (n_ != 2) return 0; st = ga_create_irreg_(&T_, df, df + 1, fname, af, bf, af + bf[0], bf + 1, &G_, fl); return st ? G_ : 0; } CR(NGA_Create_irreg(type, n_, (int *)d, (char *)name, (int *)b, (int *)a), NGA_Create_irreg64(type, n_, d6, (char *)name, b6, a6), nga_create_irreg_(&T_, &N_, df, fname, af, bf, &G_, fl));
  case 3: CR(NGA_Create_irreg_config(type, n_, (int *)d, (char *)name, (int *)b, (int *)a, gh), NGA_Create_irreg_config64(type, n_, d6, (char *)name, b6, a6, gh), nga_create_irreg_config_(&T_, &N_, df, fname, af, bf, &PH, &G_, fl));
  case 4: CR(NGA_Create_ghosts(type, n_, (int *)d, (int *)wd, (char *)name, (int *)a), NGA_Create_ghosts64(type, n_, d6, w6, (char *)name, a6), nga_create_ghosts_(&T_, &N_, df, wf, fname, af, &G_, fl));
  case 5: CR(NGA_Create_ghosts_config(type, n_, (int *)d, (int *)wd, (char *)name, (int *)a, gh), NGA_Create_ghosts_config64(type, n_, d6, w6, (char *)name, a6, gh), nga_create_ghosts_config_(&T_, &N_, df, wf, fname, af, &PH, &G_, fl));
  case 6: CR(NGA_Create_ghosts_irreg(type, n_, (int *)d, (int *)wd, (char *)name, (int *)b, (int *)a), NGA_Create_ghosts_irreg64(type, n_, d6, w6, (char *)name, b6, a6), nga_create_ghosts_irreg_(&T_, &N_, df, wf, fname, af, bf, &G_, fl));
  case 7: CR(NGA_Create_ghosts_irreg_config(type, n_, (int *)d, (int *)wd, (char *)name, (int *)b, (int *)a, gh), NGA_Create_ghosts_irreg_config64(type, n_, d6, w6, (char *)name, b6, a6, gh), nga_create_ghosts_irreg_config_(&T_, &N_, df, wf, fname, af, bf, &PH, &G_, fl));
  case 13: { long S_ = src; if (f == FF2) { st = nga_duplicate_(&S_, &G_, fname, fl); return st ? G_ : 0; } CR(GA_Duplicate(src, (char *)name), NGA_Duplicate(src, (char *)name), ga_duplicate_(&S_, &G_, fname, fl)); } }
  int F_ = f == FF || f == FF2, z = f == FF2, z6 = f == FC64; g = F_ ? (z ? nga_create_handle_() : ga_create_handle_()) : GA_Create_handle(); G_ = g;
#define ST(n__, args_c, args_6, args_f) if (z) nga_set_##n__##_ args_f; else if (F_) ga_set_##n__##_ args_f; else
  ST(data, , , (&G_, &N_, df, &T_)) if (z6) GA_Set_data64(g, n_, d6, type); else GA_Set_data(g, n_, (int *)d, type);
  if (F_) { if (z) nga_set_array_name_(&G_, fname, fl); else ga_set_array_name_(&G_, fname, fl); } else GA_Set_array_name(g, (char *)name);
  if (grp > 0) { ST(pgroup, , , (&G_, &PH)) GA_Set_pgroup(g, gh); }
  switch (kind) {
  case 8: ST(block_cyclic, , , (&G_, af)) if (z6) NGA_Set_block_cyclic64(g, a6); else NGA_Set_block_cyclic(g, (int *)a); break;
  case 9: ST(block_cyclic_proc_grid, , , (&G_, af, cf)) if (z6) NGA_Set_block_cyclic_proc_grid64(g, a6, c6); else NGA_Set_block_cyclic_proc_grid(g, (int *)a, (int *)c); break;
  case 10: ST(tiled_proc_grid, , , (&G_, af, cf)) if (z6) NGA_Set_tiled_proc_grid64(g, a6, c6); else NGA_Set_tiled_proc_grid(g, (int *)a, (int *)c); break;
  case 11: ST(tiled_irreg_proc_grid, , , (&G_, af, bf, cf)) if (z6) NGA_Set_tiled_irreg_proc_grid64(g, a6, b6, c6); else NGA_Set_tiled_irreg_proc_grid(g, (int *)a, (int *)b, (int *)c); break;
  case 12: ST(ghosts, , , (&G_, wf)) if (z6) NGA_Set_ghosts64(g, w6); else NGA_Set_ghosts(g, (int *)wd); ST(irreg_distr, , , (&G_, af, bf)) if (z6) NGA_Set_irreg_distr64(g, a6, b6); else NGA_Set_irreg_distr(g, (int *)a, (int *)b); break;
  case 14: { long l[16], c_ = b[0]; int ch[8]; int64_t ch6[8]; long chf[8]; for (i = 0; i < b[0]; i++) l[i] = a[i]; for (i = 0; i < n_; i++) { ch6[i] = ch[i] = c[i]; chf[n_ - 1 - i] = c[i]; } ST(restricted, , , (&G_, l, &c_)) GA_Set_restricted(g, (int *)a, b[0]); ST(chunk, , , (&G_, chf)) if (z6) NGA_Set_chunk64(g, ch6); else NGA_Set_chunk(g, ch); break; }
  case 15: { long l = a[0], h = a[1]; ST(restricted_range, , , (&G_, &l, &h)) GA_Set_restricted_range(g, a[0], a[1]); break; } }
  st = F_ ? (z ? nga_allocate_(&G_) : ga_allocate_(&G_)) : GA_Allocate(g); return st ? g : -1; }
static const char *KN[] = { "create", "create_config", "create_irreg", "create_irreg_config", "create_ghosts", "create_ghosts_config", "create_ghosts_irreg", "create_ghosts_irreg_config", "set_block_cyclic", "set_block_cyclic_proc_grid", "set_tiled_proc_grid", "set_tiled_irreg_proc_grid", "set_ghosts, set_irreg_distr", "duplicate", "set_restricted, set_chunk", "set_restricted_range" };
static int cgrp = -1, cgn;
static void mkcheck(int kind, int f, int sh, int var) { int n_ = SH[sh].nd, i, m = 0, b[64] = { 0 }, a[64] = { 0 }, c[64] = { 0 }, wd[8], gr[MD], use = (kind == 1 || kind == 3 || kind == 5 || kind == 7) && P > 1, q; const int *d = SH[sh].d; int p_ = use ? cgn : P, g1, g2, src = 0, ti = SH[sh].t; char nm[40];
  if (use && GA_Pgroup_nodeid(cgrp) < 0) return; if ((kind == 14 || kind == 15) && P < 2) return; if (f == FF2 && (kind == 1 || (kind >= 3 && kind <= 7))) return; if (f == FF2 && n_ != 2 && (kind == 0 || kind == 2)) return;
  if (kind == 13 && f == FX64 && P > 8) return; snprintf(nm, sizeof nm, var ? "x" : "an array with a longer name"); snprintf(w, sizeof w, "%s through %s, dimensions %s, variant %d", KN[kind], FN[f], sv(n_, d), var);
  gridof(p_, n_, var, gr); for (i = 0; i < n_; i++) wd[i] = 1; for (i = 0; i < n_; i++) a[i] = -1;
  if (kind == 0 || kind == 1) for (i = 0; i < n_; i++) a[i] = var == 0 ? -1 : i == var % n_ ? d[i] : 1;
  if (kind == 2 || kind == 3 || kind == 6 || kind == 7 || kind == 12) for (i = 0; i < n_; i++) { b[i] = cut(d[i], gr[i]); m += skew(d[i], b[i], (i + var) & 1, a + m); }
  if (kind == 8 || kind == 9 || kind == 10) for (i = 0; i < n_; i++) a[i] = 1 + (i + var) % 2; if (kind >= 9 && kind <= 11) for (i = 0; i < n_; i++) c[i] = gr[i];
  if (kind == 11) for (i = 0; i < n_; i++) { b[i] = cut(d[i], gr[i] * 2 - (i & 1)); if (b[i] < gr[i] && d[i] >= gr[i]) b[i] = gr[i]; m += skew(d[i], b[i], (i + var) & 1, a + m); }
  if (kind == 14) { b[0] = (P + 1) / 2; for (i = 0; i < b[0]; i++) a[i] = P - 1 - 2 * i < 0 ? 0 : P - 1 - 2 * i; for (i = 0; i < n_; i++) c[i] = var == 1 && i == 0 ? d[i] : -1; } if (kind == 15) { a[0] = 1; a[1] = P - 1; }
  if (kind == 4 || kind == 5) if (var == 1) for (i = 0; i < n_; i++) a[i] = 1; /* no empty block */
  if ((kind >= 4 && kind <= 7) || kind == 12) { int tot = 1; for (i = 0; i < n_; i++) { if (d[i] < 2) return; tot *= b[i] ? b[i] : 1; } if (b[0] && tot != p_) return; }
  if ((kind >= 4 && kind <= 7) || kind == 12) { int g = create(FC, kind == 12 ? 2 : kind - 4, ti, n_, d, wd, a, b, c, use ? cgn : 0, use ? cgrp : GA_Pgroup_get_world(), "probe", 0), ok = 1, l[MD], h[MD]; for (q = 0; q < p_; q++) { NGA_Distribution(g, q, l, h); for (i = 0; i < n_; i++) if (h[i] < l[i]) ok = 0; } GA_Destroy(g); if (!ok) return; }
  if (kind == 13) { int g0[1] = { 0 }; (void)g0; src = create(FX, 0, ti, n_, d, wd, a, b, c, 0, 0, "source", 0); }
  g1 = create(f, kind, ti, n_, d, wd, a, b, c, use ? cgn : 0, use ? cgrp : GA_Pgroup_get_world(), nm, src); g2 = create(FC, kind, ti, n_, d, wd, a, b, c, use ? cgn : 0, use ? cgrp : GA_Pgroup_get_world(), nm, src);
  if (!g1 || !g2 || g1 == -1 || g2 == -1) sim_fail("%s: creation fails (%d, through C %d)", w, g1, g2);
  int t1, t2, n1, n2, d1[MD], d2[MD], l1[MD], h1[MD], l2[MD], h2[MD]; NGA_Inquire(g1, &t1, &n1, d1); NGA_Inquire(g2, &t2, &n2, d2); if (t1 != t2 || n1 != n2 || memcmp(d1, d2, sizeof(int) * n1)) sim_fail("%s: type %d, dimensions %s instead of type %d, %s", w, t1, sv(n1, d1), t2, sv(n2, d2));
  if (strcmp(GA_Inquire_name(g1), nm)) sim_fail("%s: the name is '%s' instead of '%s'", w, GA_Inquire_name(g1), nm); if (GA_Has_ghosts(g1) != GA_Has_ghosts(g2) || GA_Total_blocks(g1) != GA_Total_blocks(g2) || GA_Uses_proc_grid(g1) != GA_Uses_proc_grid(g2)) sim_fail("%s: ghost cells, blocks or process grid differ from the array made through C", w);
  if (GA_Pgroup_nnodes(GA_Get_pgroup(g1)) != GA_Pgroup_nnodes(GA_Get_pgroup(g2))) sim_fail("%s: the process group differs from the array made through C", w); int np_ = GA_Total_blocks(g1) > 0 ? GA_Total_blocks(g1) : GA_Pgroup_nnodes(GA_Get_pgroup(g1));
  for (q = 0; q < np_; q++) { NGA_Distribution(g1, q, l1, h1); NGA_Distribution(g2, q, l2, h2); if (memcmp(l1, l2, sizeof(int) * n_) || memcmp(h1, h2, sizeof(int) * n_)) sim_fail("%s: block %d is %s-%s, through C %s-%s", w, q, sv(n_, l1), sv(n_, h1), sv(n_, l2), sv(n_, h2)); sim_count(0, 1); }
  if (GA_Compare_distr(g1, g2)) sim_fail("%s: GA_Compare_distr reports a difference from the array made through C", w);
  { RA r = ra(ti, n_, d); iota(&r, 4); if (GA_Pgroup_nodeid(GA_Get_pgroup(g1)) == 0) put_all(g1, &r); GA_Pgroup_sync(GA_Get_pgroup(g1)); cmp_all(g1, &r, w); free(r.v); } GA_Pgroup_sync(GA_Get_pgroup(g1));
  if (GA_Has_ghosts(g1)) { int e1[MD], e2[MD], ld1[MD], ld2[MD]; void *p1, *p2; { NGA_Access_ghosts(g1, e1, &p1, ld1); NGA_Access_ghosts(g2, e2, &p2, ld2); if (memcmp(e1, e2, sizeof(int) * n_)) sim_fail("%s: the block with ghost cells is %s, through C %s", w, sv(n_, e1), sv(n_, e2)); } }
  GA_Pgroup_sync(GA_Get_pgroup(g1)); if (f == FF || f == FF2) { long G_ = g1; if (f == FF) ga_destroy_(&G_); else nga_destroy_(&G_); if (ga_valid_handle_(&G_)) sim_fail("%s: the handle is still valid after destroying the array", w); } else xx_del(g1); GA_Destroy(g2); if (kind == 13) xx_del(src); }
/* the rest: groups, global operations, mutexes, object life */
extern long ga_nodeid_(), nga_nodeid_(), ga_nnodes_(), nga_nnodes_(), ga_pgroup_create_(), nga_pgroup_create_(), ga_pgroup_nnodes_(), ga_pgroup_nodeid_(), nga_pgroup_nnodes_(), nga_pgroup_nodeid_(), ga_pgroup_split_(), nga_pgroup_split_(), ga_pgroup_split_irreg_(), ga_pgroup_duplicate_(), nga_pgroup_duplicate_(), ga_pgroup_destroy_(), nga_pgroup_destroy_(), ga_pgroup_self_(), ga_pgroup_get_world_(), ga_pgroup_get_default_(), ga_pgroup_absolute_id_(), ga_cluster_nnodes_(), ga_cluster_nodeid_(), ga_cluster_nprocs_(), ga_cluster_procid_(), ga_cluster_proc_nodeid_(), ga_create_mutexes_(), ga_destroy_mutexes_(), ga_uses_ma_(), ga_memory_limited_(), ga_create_bin_range_();
extern void ga_pgroup_set_default_(), nga_pgroup_set_default_(), ga_pgroup_sync_(), nga_pgroup_sync_(), ga_gop_(), nga_gop_(), ga_igop_(), nga_igop_(), ga_sgop_(), nga_sgop_(), ga_dgop_(), nga_dgop_(), ga_cgop_(), nga_cgop_(), ga_zgop_(), nga_zgop_(), ga_brdcst_(), nga_brdcst_(), ga_pgroup_brdcst_(), ga_pgroup_gop_(), ga_pgroup_igop_(), nga_pgroup_igop_(), ga_pgroup_sgop_(), ga_pgroup_dgop_(), nga_pgroup_dgop_(), ga_pgroup_cgop_(), ga_pgroup_zgop_(), ga_lock_(), ga_unlock_(), ga_sync_(), nga_sync_(), ga_init_fence_(), ga_fence_(), ga_list_nodeid_();
#define EQ(a_, b_, ...) do { double a__ = a_, b__ = b_; if (a__ != b__) { char t_[160]; snprintf(t_, sizeof t_, __VA_ARGS__); sim_fail("%s is %g instead of %g", t_, a__, b__); } sim_count(0, 1); } while (0)
static void misc(void) { double o[64]; int i, j; long k, l[16], g, q; xx_misc(0, o); EQ(o[0], GA_Nodeid(), "GA::nodeid"); EQ(o[1], GA_Nnodes(), "GA::nodes"); EQ(o[2], GA_Cluster_nnodes(), "GA::clusterNnodes"); EQ(o[3], GA_Cluster_nodeid(), "GA::clusterNodeid"); EQ(o[4], GA_Cluster_proc_nodeid(P - 1), "GA::clusterProcNodeid"); EQ(o[5], GA_Cluster_nprocs(0), "GA::clusterNprocs"); EQ(o[6], GA_Cluster_procid(0, 0), "GA::clusterProcid"); EQ(o[7], GA_Uses_fapi(), "GA::usesFAPI"); EQ(o[8], GA_Uses_ma(), "GA::usesMA"); EQ(o[9], GA_Memory_limited(), "GA::memoryLimited"); EQ(o[10], my, "GAServices::nodeid"); EQ(o[11], P, "GAServices::nodes");
  EQ(ga_nodeid_(), my, "ga_nodeid"); EQ(nga_nodeid_(), my, "nga_nodeid"); EQ(ga_nnodes_(), P, "ga_nnodes"); EQ(ga_cluster_nnodes_(), GA_Cluster_nnodes(), "ga_cluster_nnodes"); EQ(ga_cluster_nodeid_(), GA_Cluster_nodeid(), "ga_cluster_nodeid"); k = P - 1; EQ(ga_cluster_proc_nodeid_(&k), GA_Cluster_proc_nodeid(P - 1), "ga_cluster_proc_nodeid"); for (k = 0; k < GA_Cluster_nnodes(); k++) { EQ(ga_cluster_nprocs_(&k), GA_Cluster_nprocs(k), "ga_cluster_nprocs(%ld)", k); for (q = 0; q < GA_Cluster_nprocs(k); q++) EQ(ga_cluster_procid_(&k, &q), GA_Cluster_procid(k, q), "ga_cluster_procid(%ld,%ld)", k, q); }
  k = P; ga_list_nodeid_(l, &k); for (i = 0; i < P; i++) EQ(l[i], i, "ga_list_nodeid entry %d", i);
  double s1 = 0, s2 = 1, m3 = 0, m4 = 1e9, x2 = 1; for (i = 0; i < P; i++) { s1 += i + 1; s2 *= i + 1; if (i + 1 > m3) m3 = i + 1; if (i + 1 < m4) m4 = i + 1; } (void)x2;
  xx_misc(1, o); EQ(o[0], s1, "GA::gop(int, +)"); EQ(o[3], s2, "GAServices::gop(long, *)"); EQ(o[6], m3, "GA::gop(float, max)"); EQ(o[9], m4, "GAServices::gop(double, min)"); EQ(o[2], 2 * P, "GA::gop(int, +), entry 2"); EQ(o[8], 2, "GA::gop(float, max), entry 2"); EQ(o[12], P * (P - 1) / 2, "GA::igop"); EQ(o[13], P - 1, "GA::lgop"); EQ(o[14], P * (P - 1) / 4., "GAServices::dgop"); EQ(o[15], 7 * P, "GA::igop, entry 1"); EQ(o[16], 7, "GA::lgop, entry 1"); EQ(o[18], (P - 1) * 10 + 1, "GA::brdcst");
  xx_misc(2, o); EQ(o[0], my, "PGroup::nodeid"); EQ(o[1], P, "PGroup::nodes"); EQ(o[2], P * (P - 1) / 2, "PGroup::gop(int, +)"); EQ(o[3], P - 1, "PGroup::gop(long, max)"); EQ(o[4], s2, "PGroup::gop(float, *)"); EQ(o[5], .5, "PGroup::gop(double, min)"); EQ(o[6], 3 * P, "PGroup::gop(int, +), entry 1"); EQ(o[10], 2, "PGroup::brdcst"); EQ(o[11], my, "nodeid in the duplicated group"); EQ(o[12], P, "size of the duplicated group"); EQ(o[13], 1, "PGroup::self size"); EQ(o[14], 0, "PGroup::self nodeid"); EQ(o[15], P, "PGroup::getWorld size"); EQ(o[16], my, "PGroup::getWorld nodeid"); EQ(o[17], 1, "PGroup::setDefault sets the default group: it"); EQ(o[18], 1, "PGroup::getDefault after setDefault returns that group: it"); EQ(o[19], my, "GA::nodeid in the default group"); EQ(o[20], 1, "PGroup::setDefault(world) restores the world: it"); EQ(o[21], 1, "PGroup::getDefault after GA_Pgroup_set_default returns that group: it"); EQ(o[22], 1, "PGroup::getDefault after GA_Pgroup_set_default(world): it");
  xx_misc(3, o); EQ(o[0] != 0, 1, "GA::createMutexes"); EQ(o[1] != 0, 1, "GA::destroyMutexes"); k = 3; EQ(ga_create_mutexes_(&k) != 0, 1, "ga_create_mutexes"); for (k = 0; k < 3; k++) { ga_lock_(&k); ga_unlock_(&k); } ga_sync_(); EQ(ga_destroy_mutexes_() != 0, 1, "ga_destroy_mutexes"); ga_init_fence_(); ga_fence_(); nga_sync_();
  /* Fortran global operations; operations are given without a terminating zero */
  struct { char op[8]; int n; double want; } OPS[] = { { "+xxxxxx", 1, s1 }, { "*xxxxxx", 1, s2 }, { "max  xx", 3, m3 }, { "min  xx", 3, m4 }, { "absmax ", 6, m3 }, { "absmin ", 6, m4 } }; long ty = 33, n2 = 2;
  for (j = 0; j < 6; j++) for (i = 0; i < 2; i++) { long a[2] = { my + 1, my + 1 }; float b[2] = { my + 1, my + 1 }; double c[2] = { my + 1, my + 1 }; float d[4] = { my + 1, 0, my + 1, 0 }; double e[4] = { my + 1, 0, my + 1, 0 }; int l_ = OPS[j].n; char *s = OPS[j].op; long wl = GA_Pgroup_get_world();
    if (i) { nga_igop_(&ty, a, &n2, s, l_); nga_sgop_(&ty, b, &n2, s, l_); nga_dgop_(&ty, c, &n2, s, l_); } else { ga_igop_(&ty, a, &n2, s, l_); ga_sgop_(&ty, b, &n2, s, l_); ga_dgop_(&ty, c, &n2, s, l_); } EQ(a[1], OPS[j].want, "igop %s", s); EQ(b[1], OPS[j].want, "sgop %s", s); EQ(c[1], OPS[j].want, "dgop %s", s); EQ(a[0], OPS[j].want, "igop %s", s);
    if (j == 0) { ga_cgop_(&ty, d, &n2, s, l_); ga_zgop_(&ty, e, &n2, s, l_); EQ(d[2], s1, "cgop"); EQ(e[2], s1, "zgop"); EQ(e[3], 0, "zgop, imaginary part"); long f_ = MT_F_DBL; double h = my + 1; k = 1; ga_gop_(&f_, &h, &k, s, l_); EQ(h, s1, "ga_gop"); }
    long a2[2] = { my + 1, my + 1 }; double c2[2] = { my + 1, my + 1 }; float b2_[2] = { my + 1, my + 1 }; ga_pgroup_igop_(&wl, &ty, a2, &n2, s, l_); ga_pgroup_dgop_(&wl, &ty, c2, &n2, s, l_); ga_pgroup_sgop_(&wl, &ty, b2_, &n2, s, l_); EQ(a2[1], OPS[j].want, "pgroup_igop %s", s); EQ(c2[1], OPS[j].want, "pgroup_dgop %s", s); EQ(b2_[1], OPS[j].want, "pgroup_sgop %s", s); }
  for (i = 0; i < P; i++) { long r = i, ln = 12; char bb[16]; memset(bb, my + 1, 16); k = 5; if (i & 1) nga_brdcst_(&k, bb, &ln, &r); else ga_brdcst_(&k, bb, &ln, &r); for (j = 0; j < 16; j++) EQ(bb[j], j < 12 ? i + 1 : my + 1, "byte %d after ga_brdcst from %d", j, i); }
  /* groups through Fortran */
  for (i = 0; i < P; i++) l[i] = P - 1 - i; k = P; g = ga_pgroup_create_(l, &k); EQ(ga_pgroup_nnodes_(&g), P, "ga_pgroup_nnodes"); EQ(ga_pgroup_nodeid_(&g), my, "ga_pgroup_nodeid"); EQ(GA_Pgroup_nodeid(g), my, "GA_Pgroup_nodeid of a Fortran group"); for (k = 0; k < P; k++) EQ(ga_pgroup_absolute_id_(&g, &k), k, "ga_pgroup_absolute_id(%ld)", k);
  { long r = 0, ln = 8, x = my; k = 7; ga_pgroup_brdcst_(&g, &k, &x, &ln, &r); EQ(x, 0, "ga_pgroup_brdcst"); } ga_pgroup_set_default_(&g); EQ(ga_nodeid_(), my, "ga_nodeid in the default group"); EQ(ga_pgroup_get_default_(), g, "ga_pgroup_get_default"); k = ga_pgroup_get_world_(); ga_pgroup_set_default_(&k); EQ(ga_nodeid_(), my, "ga_nodeid after restoring the default group"); q = ga_pgroup_duplicate_(&g); EQ(ga_pgroup_nodeid_(&q), my, "nodeid in the duplicate"); ga_pgroup_sync_(&q); EQ(nga_pgroup_destroy_(&q) != 0, 1, "ga_pgroup_destroy"); q = ga_pgroup_self_(); EQ(ga_pgroup_nnodes_(&q), 1, "ga_pgroup_self size");
  if (P > 1) { k = ga_pgroup_get_world_(); long two = 2; q = ga_pgroup_split_(&k, &two); int cq = GA_Pgroup_split(GA_Pgroup_get_world(), 2); EQ(ga_pgroup_nnodes_(&q), GA_Pgroup_nnodes(cq), "size after ga_pgroup_split"); EQ(ga_pgroup_nodeid_(&q), GA_Pgroup_nodeid(cq), "nodeid after ga_pgroup_split"); long col = 1 + my % 2; q = ga_pgroup_split_irreg_(&k, &col); EQ(ga_pgroup_nnodes_(&q), (P + 1 - my % 2) / 2, "size after ga_pgroup_split_irreg"); }
  GA_Sync(); xx_misc(4, o); EQ(o[0], 1, "after destroy() and deletion of one object, the array of another is still valid: it"); }
static void eqs(int cs) { /* operator==, assignment and copy construction */ int i, a, b, c; nd = SH[cs].nd; T = SH[cs].t; kd = D_REG; memcpy(dm, SH[cs].d, sizeof(int) * 4); r0 = ra(T, nd, dm); iota(&r0, 1); mk_handle = xx_new; a = mk(kd, TY[T], nd, dm, 0, "a"); b = mk(kd, TY[T], nd, dm, 0, "b"); mk_handle = GA_Create_handle; snprintf(w, sizeof w, "%s array %s", TN[T], sv(nd, dm));
  local_all(a, kd, &r0, 1, ""); local_all(b, kd, &r0, 1, ""); GA_Sync(); EQ(xx_eq(a, b), 1, "%s: operator== (+2 operator!=) of equal arrays", w);
  for (i = 0; i < r0.N; i++) { r0.v[2 * i] += 1; local_all(b, kd, &r0, 1, ""); GA_Sync(); EQ(xx_eq(a, b), 2, "%s: operator== (+2 operator!=) of arrays differing in element %d", w, i); r0.v[2 * i] -= 1; if (CPLX(T)) { r0.v[2 * i + 1] += 1; local_all(b, kd, &r0, 1, ""); GA_Sync(); EQ(xx_eq(a, b), 2, "%s: operator== of arrays differing in the imaginary part of element %d", w, i); r0.v[2 * i + 1] -= 1; } }
  c = xx_copyctor(a); GA_Sync(); local_all(c, kd, &r0, 0, "copy-constructed array"); EQ(xx_eq(a, c), 1, "%s: operator== of a copy", w); RA q = ra(T, nd, dm); iota(&q, 9); local_all(c, kd, &q, 1, ""); GA_Sync(); b = xx_assign(b, c); GA_Sync(); local_all(b, kd, &q, 0, "assigned array"); local_all(a, kd, &r0, 0, "original of a copy"); EQ(xx_eq(b, c), 1, "%s: operator== after assignment", w); GA_Sync(); xx_del(a); xx_del(b); xx_del(c); free(r0.v); free(q.v); }
void scen_main(int rank, int np) { gboot(); part_begin(); int mode = opt_("mode", 0), ns = opt_("ns", 6), nk = opt_("nk", 4), thin = opt_("thin", 1); long nc = mode == 0 ? (long)ns * nk * 7 : mode == 1 ? 16 * 5 * ns : 1 + ns; sim_set_cases((nc + thin - 1) / thin); long cs = sim_begin() * thin;
  if (mode == 0) { int f = 1 + cs % 7; ops(cs / 7 % ns, cs / 7 / ns % nk, f, cs / 7); }
  else if (mode == 1) { int f = 1 + cs % 5, v; if (P > 1) { int l[16], i; cgn = P > 2 ? P - 1 : P; for (i = 0; i < cgn; i++) l[i] = cgn - 1 - i; cgrp = GA_Pgroup_create(l, cgn); xx_group(l, cgn); } for (v = 0; v < 2; v++) mkcheck(cs / 5 % 16, f, cs / 80, v); }
  else if (cs == 0) misc(); else eqs(cs - 1);
  GA_Sync(); GA_Terminate(); MPI_Finalize(); (void)rank; (void)np; (void)K; }
