#define _GNU_SOURCE
#include "model.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <math.h>
#include <complex.h>

int sv_fn_a (int x) { return x + 1; }
int sv_fn_b (int x) { return x + 2; }
int sv_fn_c (int x) { return x + 3; }

/* ------------------------------------------------------------------ type tables */
static int next_id;
#define BASE(n, k, T) static const mty_t n = { .name = #T, .kind = k, .size = sizeof (T) }
BASE (t_bool, K_BOOL, bool); BASE (t_char, K_CHAR, char);
BASE (t_i8, K_INT, int8_t); BASE (t_i16, K_INT, int16_t); BASE (t_i32, K_INT, int32_t); BASE (t_i64, K_INT, int64_t); BASE (t_i128, K_INT, mr_int128_t);
BASE (t_u8, K_UINT, uint8_t); BASE (t_u16, K_UINT, uint16_t); BASE (t_u32, K_UINT, uint32_t); BASE (t_u64, K_UINT, uint64_t); BASE (t_u128, K_UINT, mr_uint128_t);
BASE (t_flt, K_FLT, float); BASE (t_dbl, K_DBL, double); BASE (t_ld, K_LDBL, long double);
BASE (t_cf, K_CFLT, complex float); BASE (t_cd, K_CDBL, complex double); BASE (t_cld, K_CLDBL, complex long double);
BASE (t_str, K_STR, char *); BASE (t_fn, K_FUNC, sv_fn_t); BASE (t_vp, K_VOIDP, void *);
#define ENUM(n, T, fl, ...) static const int64_t n##_v[] = { __VA_ARGS__ }; \
  static const mty_t n = { .name = #T, .kind = K_ENUM, .size = sizeof (T), .evals = n##_v, .nevals = sizeof (n##_v) / sizeof (n##_v[0]), .flags = fl }
ENUM (t_color, sv_color_t, false, SV_RED, SV_GREEN, SV_BLUE, SV_BLACK, SV_NEG);
ENUM (t_small, sv_small_t, false, SV_S0, SV_S1, SV_S200);
ENUM (t_flags, sv_flags_t, true, SV_F_NONE, SV_F_A, SV_F_B, SV_F_C, SV_F_D, SV_F_H);
ENUM (t_kind, sv_kind_t, false, SV_K_INT, SV_K_STR, SV_K_PT, SV_K_PTR, SV_K_D);

#define F(S, n, t) { #n, &t, offsetof (S, n), 1, false, -1, 0, false, 0 }
#define FARR(S, n, t, cnt) { #n, &t, offsetof (S, n), cnt, true, -1, 0, false, 0 }
#define FR(S, n, t, szf, sg) { #n, &t, offsetof (S, n), 1, false, offsetof (S, szf), sizeof (((S*)0)->szf), sg, 0 }
#define STRUCT(v, S, ...) static const mfld_t v##_f[] = { __VA_ARGS__ }; \
  static const mty_t v = { .name = #S, .kind = K_STRUCT, .size = sizeof (S), .nf = sizeof (v##_f) / sizeof (v##_f[0]), .f = v##_f }
#define PTR(v, t) static const mty_t v = { .name = #t "*", .kind = K_PTR, .size = sizeof (void *), .target = &t }
#define FWD(v) static const mty_t v

FWD (t_node); FWD (t_tree); FWD (t_point); FWD (t_scalars); FWD (t_bits); FWD (t_arrays); FWD (t_rsz); FWD (t_unions); FWD (t_ptrs); FWD (t_typed);
PTR (p_node, t_node); PTR (p_tree, t_tree); PTR (p_point, t_point); PTR (p_scalars, t_scalars); PTR (p_bits, t_bits); PTR (p_arrays, t_arrays);
PTR (p_rsz, t_rsz); PTR (p_unions, t_unions); PTR (p_ptrs, t_ptrs); PTR (p_typed, t_typed);
PTR (p_i32, t_i32); PTR (p_i16, t_i16); PTR (p_dbl, t_dbl); PTR (p_color, t_color); PTR (p_str, t_str); PTR (p_u8, t_u8); PTR (p_char, t_char);
PTR (pp_i32, p_i32); PTR (pp_point, p_point); PTR (pp_node, p_node);

STRUCT (t_scalars, sv_scalars_t, F (sv_scalars_t, b, t_bool), F (sv_scalars_t, c, t_char), F (sv_scalars_t, i8, t_i8), F (sv_scalars_t, u8, t_u8),
	F (sv_scalars_t, i16, t_i16), F (sv_scalars_t, u16, t_u16), F (sv_scalars_t, i32, t_i32), F (sv_scalars_t, u32, t_u32), F (sv_scalars_t, i64, t_i64),
	F (sv_scalars_t, u64, t_u64), F (sv_scalars_t, i128, t_i128), F (sv_scalars_t, u128, t_u128), F (sv_scalars_t, f, t_flt), F (sv_scalars_t, d, t_dbl),
	F (sv_scalars_t, ld, t_ld), F (sv_scalars_t, cf, t_cf), F (sv_scalars_t, cd, t_cd), F (sv_scalars_t, cld, t_cld), F (sv_scalars_t, color, t_color),
	F (sv_scalars_t, small, t_small), F (sv_scalars_t, flags, t_flags));
STRUCT (t_point, sv_point_t, F (sv_point_t, x, t_i32), F (sv_point_t, y, t_i32), F (sv_point_t, tag, t_str));

/* bit fields have no address: their own generator and dump */
static int64_t gen_int_value (int bits, bool sgn);
static void out (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
static void
bits_gen (void *p)
{
  sv_bits_t *b = p;
  b->u1 = gen_int_value (1, false);
  b->u7 = gen_int_value (7, false);
  b->s5 = gen_int_value (5, true);
  b->s11 = gen_int_value (11, true);
  b->u33 = gen_int_value (33, false);
  b->s29 = gen_int_value (29, true);
  b->b1 = gen_int_value (1, false);
  b->u3 = gen_int_value (3, false);
  static const uint8_t e[] = { SV_S0, SV_S1, SV_S200 };
  b->e8 = e[draw (T_W, 3)];
  b->after = gen_int_value (32, true);
  COUNT (probe_bitfield);
}
static void
bits_dump (const void *p)
{
  const sv_bits_t *b = p;
  out ("{%u %u %d %d %llu %lld %d %u %u %d}", b->u1, b->u7, b->s5, b->s11, (unsigned long long)b->u33, (long long)b->s29, b->b1, b->u3,
       (unsigned)b->e8, b->after);
}
static const mty_t t_bits = { .name = "sv_bits_t", .kind = K_CUSTOM, .size = sizeof (sv_bits_t), .gen = bits_gen, .dump = bits_dump };

STRUCT (t_arrays, sv_arrays_t, FARR (sv_arrays_t, a1, t_i32, 4), FARR (sv_arrays_t, a2, t_i32, 6), FARR (sv_arrays_t, a3, t_i16, 24),
	FARR (sv_arrays_t, name, t_char, 12), FARR (sv_arrays_t, names, t_char, 18), FARR (sv_arrays_t, strs, t_str, 3), FARR (sv_arrays_t, d1, t_dbl, 3),
	FARR (sv_arrays_t, pts, t_point, 3), FARR (sv_arrays_t, cols, t_color, 2), FARR (sv_arrays_t, bs, t_bool, 3));
STRUCT (t_node, sv_node_t, F (sv_node_t, id, t_i32), F (sv_node_t, name, t_str), F (sv_node_t, next, p_node), F (sv_node_t, other, p_node),
	F (sv_node_t, pt, t_point), F (sv_node_t, ppt, p_point), F (sv_node_t, pid, p_i32));
STRUCT (t_rsz, sv_rsz_t, FR (sv_rsz_t, ints, p_i32, ints_size, true), FR (sv_rsz_t, pts, p_point, pts_size, false), FR (sv_rsz_t, strs, p_str, strs_size, false),
	FR (sv_rsz_t, nodes, pp_node, nodes_size, true), FR (sv_rsz_t, ds, p_dbl, ds_size, true), F (sv_rsz_t, one, p_point), F (sv_rsz_t, one_int, p_i32),
	FR (sv_rsz_t, bytes, p_u8, bytes_size, true));

/* tagged unions */
/* a value of the discriminator that selects no branch selects the first one */
static int sel_enum (const void *o) { int k = ((const sv_un_enum_t*)o)->kind; return k >= 0 && k < 5 ? k : 0; }
static int sel_int (const void *o) { int s = ((const sv_un_int_t*)o)->sel; return s < 5 ? s : 0; }
static int
sel_str (const void *o)
{
  static const char *n[] = { "ival", "sval", "pt", "node", "dval" };
  const char *s = ((const sv_un_str_t*)o)->branch;
  int i;
  for (i = 0; s && i < 5; ++i)
    if (strcmp (s, n[i]) == 0)
      return i;
  return 0;
}
static int sel_bool (const void *o) { return ((const sv_un_bool_t*)o)->is_str; }
static int
sel_named (const void *o)
{
  int32_t c = ((const sv_un_named_t*)o)->code;
  return c == 100 ? 1 : c == -7 ? 2 : (c >= 0 && c < 3) ? c : 0;
}
#define VALF F (sv_val_t, ival, t_i64), F (sv_val_t, sval, t_str), F (sv_val_t, pt, t_point), F (sv_val_t, node, p_node), F (sv_val_t, dval, t_dbl)
static const mfld_t val_f[] = { VALF };
#define UNION(v, fn) static const mty_t v = { .name = "sv_val_t", .kind = K_UNION, .size = sizeof (sv_val_t), .nf = 5, .f = val_f, .sel = fn }
UNION (t_val_enum, sel_enum); UNION (t_val_int, sel_int); UNION (t_val_str, sel_str);
static void un_int_gen (void *);
STRUCT (t_un_enum, sv_un_enum_t, F (sv_un_enum_t, kind, t_kind), F (sv_un_enum_t, val, t_val_enum));
static const mfld_t t_un_int_f[] = { F (sv_un_int_t, sel, t_u8), F (sv_un_int_t, val, t_val_int) };
static const mty_t t_un_int = { .name = "sv_un_int_t", .kind = K_STRUCT, .size = sizeof (sv_un_int_t), .nf = 2, .f = t_un_int_f, .gen = un_int_gen };
static void un_str_gen (void *);
static const mfld_t t_un_str_f[] = { F (sv_un_str_t, branch, t_str), F (sv_un_str_t, val, t_val_str) };
static const mty_t t_un_str = { .name = "sv_un_str_t", .kind = K_STRUCT, .size = sizeof (sv_un_str_t), .nf = 2, .f = t_un_str_f, .gen = un_str_gen };
static const mfld_t u_bool_f[] = { F (sv_un_bool_t, num, t_i16), F (sv_un_bool_t, text, t_str) };
/* members of anonymous unions are addressed from the structure itself: a pseudo union at offset 0 */
static const mty_t u_bool = { .name = "anon", .kind = K_UNION, .size = 0, .nf = 2, .f = u_bool_f, .sel = sel_bool };
static const mfld_t t_un_bool_f[] = { F (sv_un_bool_t, is_str, t_bool), { "anon", &u_bool, 0, 1, false, -1, 0, false, 0 } };
static const mty_t t_un_bool = { .name = "sv_un_bool_t", .kind = K_STRUCT, .size = sizeof (sv_un_bool_t), .nf = 2, .f = t_un_bool_f };
static const mfld_t u_named_f[] = { F (sv_un_named_t, fl, t_flt), F (sv_un_named_t, ptp, p_point), FARR (sv_un_named_t, raw, t_char, 8) };
static const mty_t u_named = { .name = "named", .kind = K_UNION, .size = 0, .nf = 3, .f = u_named_f, .sel = sel_named };
static void un_named_gen (void *);
static const mfld_t t_un_named_f[] = { F (sv_un_named_t, code, t_i32), { "body", &u_named, 0, 1, false, -1, 0, false, 0 } };
static const mty_t t_un_named = { .name = "sv_un_named_t", .kind = K_STRUCT, .size = sizeof (sv_un_named_t), .nf = 2, .f = t_un_named_f, .gen = un_named_gen };
STRUCT (t_unions, sv_unions_t, F (sv_unions_t, ue, t_un_enum), F (sv_unions_t, ui, t_un_int), F (sv_unions_t, us, t_un_str), F (sv_unions_t, ub, t_un_bool),
	F (sv_unions_t, un, t_un_named));

STRUCT (t_ptrs, sv_ptrs_t, F (sv_ptrs_t, s1, t_str), F (sv_ptrs_t, s2, t_str), F (sv_ptrs_t, pi, p_i16), F (sv_ptrs_t, pd, p_dbl), F (sv_ptrs_t, pe, p_color),
	F (sv_ptrs_t, ps, p_str), F (sv_ptrs_t, ppi, pp_i32), F (sv_ptrs_t, ppp, pp_point), F (sv_ptrs_t, psc, p_scalars), F (sv_ptrs_t, vp, t_vp),
	F (sv_ptrs_t, fn, t_fn), F (sv_ptrs_t, ch, p_char));

static int
sel_typed (const void *o)
{
  static const char *n[] = { "sv_point_t", "sv_node_t", "int32_t", "sv_scalars_t", "string_t" };
  const char *s = ((const sv_typed_t*)o)->type;
  int i;
  for (i = 0; s && i < 5; ++i)
    if (strcmp (s, n[i]) == 0)
      return i;
  return 5;
}
static void typed_gen (void *);
static const mfld_t u_typed_f[] = {
  { "sv_point_t", &p_point, offsetof (sv_typed_t, obj), 1, false, -1, 0, false, 0 }, { "sv_node_t", &p_node, offsetof (sv_typed_t, obj), 1, false, -1, 0, false, 0 },
  { "int32_t", &p_i32, offsetof (sv_typed_t, obj), 1, false, -1, 0, false, 0 }, { "sv_scalars_t", &p_scalars, offsetof (sv_typed_t, obj), 1, false, -1, 0, false, 0 },
  { "string_t", &p_str, offsetof (sv_typed_t, obj), 1, false, -1, 0, false, 0 }, { "none", &t_vp, offsetof (sv_typed_t, obj), 1, false, -1, 0, false, 0 } };
static const mty_t u_typed = { .name = "typed", .kind = K_UNION, .size = 0, .nf = 6, .f = u_typed_f, .sel = sel_typed };
static const mfld_t t_typed_f[] = { F (sv_typed_t, type, t_str), { "obj", &u_typed, 0, 1, false, -1, 0, false, 0 } };
static const mty_t t_typed = { .name = "sv_typed_t", .kind = K_STRUCT, .size = sizeof (sv_typed_t), .nf = 2, .f = t_typed_f, .gen = typed_gen };

STRUCT (t_tree, sv_tree_t, F (sv_tree_t, label, t_str), F (sv_tree_t, left, p_tree), F (sv_tree_t, right, p_tree), F (sv_tree_t, parent, p_tree),
	F (sv_tree_t, val, t_un_enum), F (sv_tree_t, rsz, t_rsz));
STRUCT (t_root, sv_root_t, F (sv_root_t, sc, p_scalars), F (sv_root_t, bits, p_bits), F (sv_root_t, arr, p_arrays), F (sv_root_t, list, p_node),
	F (sv_root_t, list2, p_node), F (sv_root_t, rsz, p_rsz), F (sv_root_t, uni, p_unions), F (sv_root_t, ptrs, p_ptrs), F (sv_root_t, typed, p_typed),
	F (sv_root_t, tree, p_tree), F (sv_root_t, pt, t_point), F (sv_root_t, title, t_str));
/* discriminators that live in the root object of the graph */
static const sv_ext_t *cur_ext;
static int idx5 (int64_t v) { return v >= 0 && v < 5 ? v : 0; }
static int sel_ukind (const void *o) { (void)o; return idx5 (cur_ext->ukind); }
static int sel_disc (const void *o) { (void)o; return idx5 (cur_ext->disc); }
static int sel_bdisc (const void *o) { (void)o; return idx5 (cur_ext->bdisc); }
static int
sel_cdisc (const void *o)
{
  sv_un_str_t u = { .branch = (char*)cur_ext->cdisc };
  (void)o;
  return sel_str (&u);
}
UNION (t_val_ukind, sel_ukind); UNION (t_val_disc, sel_disc); UNION (t_val_cdisc, sel_cdisc); UNION (t_val_bdisc, sel_bdisc);
STRUCT (t_upval, sv_val_t, { "v", &t_val_ukind, 0, 1, false, -1, 0, false, 0 });
PTR (p_upval, t_upval);
FWD (t_chain);
PTR (p_chain, t_chain);
STRUCT (t_chain, sv_chain_t, F (sv_chain_t, val, t_val_disc), F (sv_chain_t, next, p_chain));
static const mty_t t_cstr10 = { .name = "char[10]", .kind = K_CSTR, .size = 10 }, t_cstr4 = { .name = "char[4]", .kind = K_CSTR, .size = 4 },
  t_cstr6 = { .name = "char[6]", .kind = K_CSTR, .size = 6 };
#define AT(S, n, t, i) { #n, &t, offsetof (S, n) + (i) * sizeof (((S*)0)->n[0]), 1, false, -1, 0, false, 0 }
static void ext_gen (void *);
static void
ext_bits (const void *p)
{
  out ("b%u", ((const sv_ext_t*)p)->bdisc);
}
static void ext_nogen (void *p) { (void)p; }
static const mty_t t_extbits = { .name = "bits", .kind = K_CUSTOM, .size = 0, .gen = ext_nogen, .dump = ext_bits };
static const mty_t t_extsize = { .name = "uint8_t", .kind = K_UINT, .size = 1, .gen = ext_nogen };
static const mty_t t_extdisc = { .name = "int", .kind = K_INT, .size = 4, .gen = ext_nogen };
static const mty_t t_extkind = { .name = "sv_kind_t", .kind = K_ENUM, .size = sizeof (sv_kind_t), .gen = ext_nogen };
static const mty_t t_extcd = { .name = "char[6]", .kind = K_CSTR, .size = 6, .gen = ext_nogen };
static const mfld_t t_ext_f[] = {
  F (sv_ext_t, inl, t_cstr10), F (sv_ext_t, inl2, t_cstr4), F (sv_ext_t, alias, t_str),
  { "lim", &t_i32, offsetof (sv_ext_t, lim), 8, true, offsetof (sv_ext_t, lim_size), 1, false, 0 }, F (sv_ext_t, lim_size, t_extsize),
  AT (sv_ext_t, parr, p_point, 0), AT (sv_ext_t, parr, p_point, 1), AT (sv_ext_t, parr, p_point, 2), F (sv_ext_t, ukind, t_extkind),
  AT (sv_ext_t, uarr, t_val_ukind, 0), AT (sv_ext_t, uarr, t_val_ukind, 1), F (sv_ext_t, up, p_upval),
  FR (sv_ext_t, sub, p_char, sub_len, false), F (sv_ext_t, cdisc, t_extcd), F (sv_ext_t, cval, t_val_cdisc),
  { "bdisc", &t_extbits, 0, 1, false, -1, 0, false, 0 }, F (sv_ext_t, bval, t_val_bdisc), F (sv_ext_t, disc, t_extdisc), F (sv_ext_t, chain, p_chain) };
static const mty_t t_ext = { .name = "sv_ext_t", .kind = K_STRUCT, .size = sizeof (sv_ext_t), .nf = sizeof (t_ext_f) / sizeof (t_ext_f[0]), .f = t_ext_f, .gen = ext_gen };
/* sv_more_t */
ENUM (t_e8, sv_e8_t, false, SV_E8_A, SV_E8_B, SV_E8_C); ENUM (t_e16, sv_e16_t, false, SV_E16_A, SV_E16_B, SV_E16_C);
ENUM (t_eu16, sv_eu16_t, false, SV_EU16_A, SV_EU16_B); ENUM (t_e64, sv_e64_t, false, SV_E64_A, SV_E64_B, SV_E64_C);
ENUM (t_eu64, sv_eu64_t, false, SV_EU64_A, (int64_t)SV_EU64_B, SV_EU64_C);
static const sv_more_t *cur_more;
static void nogen (void *p) { (void)p; }
#define NOGEN(v, k, T) static const mty_t v = { .name = #T, .kind = k, .size = sizeof (T), .gen = nogen, .constant = true }
NOGEN (c_kind, K_ENUM, sv_kind_t); NOGEN (c_u8, K_UINT, uint8_t); NOGEN (c_i8, K_INT, int8_t); NOGEN (c_u16, K_UINT, uint16_t); NOGEN (c_u128, K_UINT, mr_uint128_t);
NOGEN (c_i64, K_INT, int64_t); NOGEN (c_i32, K_INT, int32_t); NOGEN (c_bool, K_BOOL, bool); NOGEN (c_char, K_CHAR, char); NOGEN (c_str, K_STR, char *);
NOGEN (c_esz, K_ENUM, sv_esz_t);
static const mty_t cp_kind = { .name = "t_kind*", .kind = K_PTR, .size = sizeof (void *), .target = &c_kind, .gen = nogen };
static const mty_t cp_u8 = { .name = "t_u8*", .kind = K_PTR, .size = sizeof (void *), .target = &c_u8, .gen = nogen };
static const mty_t cp_u16 = { .name = "t_u16*", .kind = K_PTR, .size = sizeof (void *), .target = &c_u16, .gen = nogen };
static const mty_t cp_str = { .name = "t_str*", .kind = K_PTR, .size = sizeof (void *), .target = &c_str, .gen = nogen };
static int by_name (char *s) { sv_un_str_t u = { .branch = s }; return sel_str (&u); }
static int by_idx (uint64_t hi, uint64_t lo) { return hi == 0 && lo < 5 ? (int)lo : 0; }
#define D(o) ((const sv_disc_t*)(o))
static int sel_v1 (const void *o) { return D (o)->dpk ? idx5 (*D (o)->dpk) : 0; }
static int sel_v2 (const void *o) { return idx5 (D (o)->dar[0]); }
static int sel_v3 (const void *o) { return idx5 (D (o)->dbk); }
static int sel_v4 (const void *o) { return by_idx (D (o)->d128 >> 64, D (o)->d128); }
static int sel_v5 (const void *o) { return by_name (D (o)->dst.branch); }
static int sel_v6 (const void *o) { return D (o)->di == -1 ? 1 : D (o)->di == 7 ? 2 : idx5 (D (o)->di); }
static int sel_v7 (const void *o) { return D (o)->dps ? by_name (*D (o)->dps) : 0; }
static int sel_v8 (const void *o) { return D (o)->dbool; }
static int sel_v9 (const void *o) { (void)o; return 0; }
static int sel_v10 (const void *o) { return D (o)->dars[0] ? idx5 (*D (o)->dars[0]) : 0; }
static int sel_v11 (const void *o) { return D (o)->dk == SV_K_STR ? 4 : idx5 (D (o)->dk); }
UNION (t_v1, sel_v1); UNION (t_v2, sel_v2); UNION (t_v3, sel_v3); UNION (t_v4, sel_v4); UNION (t_v5, sel_v5); UNION (t_v6, sel_v6); UNION (t_v7, sel_v7);
UNION (t_v8, sel_v8); UNION (t_v9, sel_v9); UNION (t_v10, sel_v10); UNION (t_v11, sel_v11);
static void dbk_dump (const void *p) { out ("k%u", (unsigned)D (p)->dbk); }
static const mty_t t_dbk = { .name = "dbk", .kind = K_CUSTOM, .size = 0, .gen = nogen, .dump = dbk_dump };
static const mfld_t t_dwrap_f[] = { F (sv_dwrap_t, branch, c_str), F (sv_dwrap_t, extra, t_i32) };
static const mty_t t_dwrap = { .name = "sv_dwrap_t", .kind = K_STRUCT, .size = sizeof (sv_dwrap_t), .nf = 2, .f = t_dwrap_f };
static void disc_gen (void *);
static const mfld_t t_disc_f[] = {
  F (sv_disc_t, dpk, cp_kind), F (sv_disc_t, v1, t_v1), FARR (sv_disc_t, dar, c_i8, 2), F (sv_disc_t, v2, t_v2), { "dbk", &t_dbk, 0, 1, false, -1, 0, false, 0 },
  F (sv_disc_t, v3, t_v3), F (sv_disc_t, d128, c_u128), F (sv_disc_t, v4, t_v4), F (sv_disc_t, dst, t_dwrap), F (sv_disc_t, v5, t_v5),
  F (sv_disc_t, di, c_i64), F (sv_disc_t, v6, t_v6), F (sv_disc_t, dps, cp_str), F (sv_disc_t, v7, t_v7), F (sv_disc_t, dbool, c_bool), F (sv_disc_t, v8, t_v8),
  F (sv_disc_t, v9, t_v9), AT (sv_disc_t, dars, cp_u8, 0), AT (sv_disc_t, dars, cp_u8, 1), F (sv_disc_t, v10, t_v10), F (sv_disc_t, dk, c_kind), F (sv_disc_t, v11, t_v11) };
static const mty_t t_disc = { .name = "sv_disc_t", .kind = K_STRUCT, .size = sizeof (sv_disc_t), .nf = sizeof (t_disc_f) / sizeof (t_disc_f[0]), .f = t_disc_f, .gen = disc_gen };

#define Z(o) ((const sv_sz_t*)(o))
#define ZW(o) ((sv_sz_t*)(o))
static uint64_t a_get (const void *o) { return Z (o)->a_sz; }
static void a_set (void *o, uint64_t v) { ZW (o)->a_sz = v; }
static uint64_t b_get (const void *o) { return Z (o)->b_sz; }
static void b_set (void *o, uint64_t v) { ZW (o)->b_sz = v; }
static uint64_t c_get (const void *o) { return Z (o)->c_sz ? *Z (o)->c_sz : Z (o)->c ? sizeof (int32_t) : 0; }
static void c_set (void *o, uint64_t v);
static uint64_t d_get (const void *o) { return Z (o)->d_sz; }
static void d_set (void *o, uint64_t v);
static uint64_t e_get (const void *o) { return (uint8_t)Z (o)->e_sz; }
static void e_set (void *o, uint64_t v) { ZW (o)->e_sz = v; }
static uint64_t f_get (const void *o) { return Z (o)->f_sz; }
static void f_set (void *o, uint64_t v) { ZW (o)->f_sz = v; }
#define FX(n, t) { #n, &t, offsetof (sv_sz_t, n), 1, false, -1, 0, false, 0, n##_get, n##_set }
static void sz_gen (void *);
static const mfld_t t_sz_f[] = { FX (a, p_i32), FX (b, p_i16), FX (c, p_i32), F (sv_sz_t, c_sz, cp_u16), FX (d, p_dbl), FX (e, p_point), FX (f, p_str) };
static const mty_t t_sz = { .name = "sv_sz_t", .kind = K_STRUCT, .size = sizeof (sv_sz_t), .nf = sizeof (t_sz_f) / sizeof (t_sz_f[0]), .f = t_sz_f, .gen = sz_gen };

static int sel_md0 (const void *o) { (void)o; return idx5 (cur_more->md0); }
static int sel_md1 (const void *o) { (void)o; return idx5 (cur_more->md1); }
static int sel_md2 (const void *o) { (void)o; return by_name (cur_more->md2); }
UNION (t_md0, sel_md0); UNION (t_md1, sel_md1); UNION (t_md2, sel_md2);
STRUCT (t_many, sv_many_t, F (sv_many_t, m0, t_md0), F (sv_many_t, m1, t_md1), F (sv_many_t, m2, t_md2), F (sv_many_t, m3, t_md0), F (sv_many_t, m4, t_md1),
	F (sv_many_t, m5, t_md2), F (sv_many_t, m6, t_md0), F (sv_many_t, m7, t_md1), F (sv_many_t, m8, t_md2), F (sv_many_t, m9, t_md0),
	F (sv_many_t, ma, t_md1), F (sv_many_t, mb, t_md2), F (sv_many_t, mc, t_md0), F (sv_many_t, md, t_md1), F (sv_many_t, me, t_md2));
PTR (p_many, t_many);
static void win_gen (void *);
static const mfld_t t_win_f[] = {
  FR (sv_win_t, w0, p_point, w0_size, true), FR (sv_win_t, w1, p_point, w1_size, true), FR (sv_win_t, w2, p_point, w2_size, true), FR (sv_win_t, w3, p_point, w3_size, true),
  FR (sv_win_t, n0, p_node, n0_size, true), FR (sv_win_t, n1, p_node, n1_size, true), FR (sv_win_t, n2, p_node, n2_size, true), F (sv_win_t, single, p_point),
  F (sv_win_t, nsingle, p_node) };
static const mty_t t_win = { .name = "sv_win_t", .kind = K_STRUCT, .size = sizeof (sv_win_t), .nf = 9, .f = t_win_f, .gen = win_gen };
PTR (p_win, t_win);
static const mty_t t_carr = { .name = "sv_carr_t", .kind = K_CSTR, .size = sizeof (sv_carr_t) };
PTR (p_carr, t_carr);
static int sel_nest (const void *o) { const sv_more_t *m = o; return m->nkind < 4 ? m->nkind : 0; }
static const mfld_t nest_f[] = { F (sv_nest_t, ue, t_un_enum), F (sv_nest_t, win, p_win), FARR (sv_nest_t, pts, t_point, 2), F (sv_nest_t, us, t_un_str) };
static const mty_t t_nest = { .name = "sv_nest_t", .kind = K_UNION, .size = sizeof (sv_nest_t), .nf = 4, .f = nest_f, .sel = sel_nest };
ENUM (t_m8, sv_m8_t, true, SV_M8_A, SV_M8_B, SV_M8_C, SV_M8_N); ENUM (t_m16, sv_m16_t, true, SV_M16_Z, SV_M16_A, SV_M16_B, SV_M16_N);
ENUM (t_m32, sv_m32_t, true, SV_M32_A, SV_M32_B, SV_M32_C, SV_M32_N); ENUM (t_m64, sv_m64_t, true, SV_M64_Z, SV_M64_A, SV_M64_B, (int64_t)SV_M64_N);
ENUM (t_m64s, sv_m64s_t, true, SV_M64S_A, SV_M64S_B, SV_M64S_N); ENUM (t_mu, sv_mu_t, true, SV_MU_A, SV_MU_B, SV_MU_C);
PTR (p_m64s, t_m64s);
static void
mbits_gen (void *p)
{
  sv_masks_t *m = p;
  m->b8 = gen_int_value (8, true);
  m->b32 = draw (T_W, 2) ? SV_M32_N | SV_M32_B : gen_int_value (32, true);
  m->bu = gen_int_value (4, false);
  m->bu5 = gen_int_value (5, false);
  m->bfl = gen_int_value (8, false);
}
static void
mbits_dump (const void *p)
{
  const sv_masks_t *m = p;
  out ("{%d %d %d %d %d}", (int)m->b8, (int)m->b32, (int)m->bu, (int)m->bu5, (int)m->bfl);
}
static const mty_t t_mbits = { .name = "mbits", .kind = K_CUSTOM, .size = 0, .gen = mbits_gen, .dump = mbits_dump };
STRUCT (t_masks, sv_masks_t, F (sv_masks_t, m8, t_m8), F (sv_masks_t, m16, t_m16), F (sv_masks_t, m32, t_m32), F (sv_masks_t, m64, t_m64), F (sv_masks_t, m64s, t_m64s),
	F (sv_masks_t, mu, t_mu), { "mbits", &t_mbits, 0, 1, false, -1, 0, false, 0 }, FARR (sv_masks_t, a16, t_m16, 2), F (sv_masks_t, p64, p_m64s));
static void more_gen (void *);
static const mfld_t t_more_f[] = {
  F (sv_more_t, e8, t_e8), F (sv_more_t, e16, t_e16), F (sv_more_t, eu16, t_eu16), F (sv_more_t, e64, t_e64), F (sv_more_t, eu64, t_eu64), F (sv_more_t, left, t_flags),
  FARR (sv_more_t, e8a, t_e8, 3), F (sv_more_t, pmany, p_many), F (sv_more_t, many, t_many), F (sv_more_t, md0, c_i32), F (sv_more_t, md1, c_i32), F (sv_more_t, md2, c_str),
  F (sv_more_t, disc, t_disc), F (sv_more_t, sz, t_sz), F (sv_more_t, win, t_win), F (sv_more_t, pwin, p_win), F (sv_more_t, ca, t_carr), F (sv_more_t, pca, p_carr),
  FR (sv_more_t, cas, p_carr, cas_size, true), F (sv_more_t, nkind, c_u8), F (sv_more_t, nest, t_nest), F (sv_more_t, fnp, t_fn), F (sv_more_t, masks, t_masks) };
static const mty_t t_more = { .name = "sv_more_t", .kind = K_STRUCT, .size = sizeof (sv_more_t), .nf = sizeof (t_more_f) / sizeof (t_more_f[0]), .f = t_more_f, .gen = more_gen };
STRUCT (t_rown, sv_rown_t, FARR (sv_rown_t, a, t_node, 3)); STRUCT (t_rowt, sv_rowt_t, FARR (sv_rowt_t, a, t_tree, 2));
STRUCT (t_rowe, sv_rowe_t, FARR (sv_rowe_t, a, t_un_enum, 3)); STRUCT (t_rows, sv_rows_t, FARR (sv_rows_t, a, t_str, 4));
STRUCT (t_rowi, sv_rowi_t, FARR (sv_rowi_t, a, t_i32, 5)); STRUCT (t_rowc, sv_rowc_t, FARR (sv_rowc_t, a, t_color, 2));
static int sel_first (const void *o) { (void)o; return 0; }
UNION (t_val_first, sel_first); STRUCT (t_uval, sv_uval_t, F (sv_uval_t, v, t_val_first));
const mty_t *root_mty[RT_ALL] = { &t_root, &t_scalars, &t_bits, &t_arrays, &t_node, &t_rsz, &t_unions, &t_ptrs, &t_typed, &t_tree, &t_point, &t_ext, &t_more,
  &t_rown, &t_rowt, &t_rowe, &t_rows, &t_rowi, &t_rowc,
  &t_uval, &t_str, &t_color, &t_flags, &t_bool, &t_char, &t_i8, &t_u8, &t_i16, &t_u16, &t_i32, &t_u32, &t_i64, &t_u64, &t_i128, &t_u128,
  &t_flt, &t_dbl, &t_ld, &t_cf, &t_cd, &t_cld, &t_carr };

/* ------------------------------------------------------------------ generator */
gen_cfg_t gen_cfg;
#define POOL 4096
typedef struct { const mty_t *ty; void *addr; uint32_t left; } pool_t;	/* left: elements of the array from here on */
static pool_t pool[POOL];
static uint32_t npool, nblocks;
static struct { void *addr; const mty_t *ty; uint32_t i, n; } pend[4096];
static uint32_t npend;
static char *spool[256];
static uint32_t nspool;
static struct { void **at; } vps[64];
static uint32_t nvps;
/* pointers set by the generator, for exchanges at the end: the first pointer to an array that a traversal meets is then not always the widest */
static struct { void **at; const mty_t *ty; void *size_at; int size_sz; uint32_t n; } slots[512];
static uint32_t nslots;
static void swap_pointers (int rt, void *root);

void
gen_reset (void)
{
  npool = nblocks = npend = nspool = nvps = nslots = 0;
  (void)next_id;
}

uint32_t gen_blocks (void) { return nblocks; }

static void *
g_alloc (size_t n)
{
  ++nblocks;
  if (!gen_cfg.lib_alloc)
    {
      void *q = h_alloc (n);
      if (gen_cfg.dirty)
	memset (q, draw (T_L, 256), n);
      return q;
    }
  void *p = sim_calloc ("", "generator", 0, 1, n);
  if (!p)
    harness_error ("generator out of memory");
  return p;
}

static int64_t
gen_int_value (int bits, bool sgn)
{
  uint64_t v;
  switch (draw (T_W, 6))
    {
    case 0: v = 0; break;
    case 1: v = draw (T_W, 10); break;
    case 2: v = (uint64_t)-1 - draw (T_W, 3); break;
    case 3: v = ((uint64_t)1 << (bits - 1)) - draw (T_W, 2); break;
    case 4: v = ((uint64_t)1 << draw (T_W, bits)); break;
    default: v = ((uint64_t)draw (T_W, UINT32_MAX) << 32) | draw (T_W, UINT32_MAX); break;
    }
  if (bits < 64)
    v &= ((uint64_t)1 << bits) - 1;
  if (sgn && bits < 64 && (v >> (bits - 1)))
    v |= ~(((uint64_t)1 << bits) - 1);
  return (int64_t)v;
}

static long double
gen_float (int kind)
{
  static const double sp[] = { 0.0, 1.0, -1.0, 0.5, 1e10, -1.0e-10, 3.14159265358979, 123456789.0, 1.0 / 3, 1e-300, 1e300, 65504.0, 16777217.0 };
  uint32_t k = draw (T_W, 10);
  long double v;
  bool exact = gen_cfg.text_floats && kind != 1;	/* only values that the printed precision represents exactly */
  if (k == 5)
    {
      COUNT (probe_special_float);
      switch (draw (T_W, 7))
	{
	case 0: v = -0.0L; break;
	case 1: v = gen_cfg.no_inf ? 3.0L : INFINITY; break;
	case 2: v = gen_cfg.no_inf ? -3.0L : -INFINITY; break;
	case 3: v = gen_cfg.nan ? NAN : 2.0; break;
	case 4: v = kind == 0 ? 1.17549435e-38f : kind == 1 ? 2.2250738585072014e-308 : 3.36210314311209350626e-4932L; break;
	case 5: v = kind == 0 ? 3.40282347e+38f : kind == 1 ? 1.7976931348623157e+308 : 1.18973149535723176502e+4932L; break;
	default: v = kind == 0 ? 1.4e-45f : kind == 1 ? 4.9406564584124654e-324 : 3.64519953188247460253e-4951L; break;
	}
    }
  else if (exact)
    {
      uint32_t m = k < 5 ? draw_log (T_W, kind == 0 ? 9999 : 1u << 30) : draw (T_W, kind == 0 ? 9999 : 1u << 30);
      v = ldexpl ((long double)m, -(int)draw (T_W, kind == 0 ? 5 : 11));
      if (draw (T_W, 2))
	v = -v;
    }
  else if (k < 5)
    {
      v = sp[draw (T_W, sizeof (sp) / sizeof (sp[0]))];
      if (kind == 0)
	v = (float)v;
      if (gen_cfg.no_inf && isinf (v))
	v = 4.0;
    }
  else
    {
      uint64_t m = ((uint64_t)draw (T_W, UINT32_MAX) << 32) | draw (T_W, UINT32_MAX);
      int e = (int)draw (T_W, kind == 0 ? 60 : 600) - (kind == 0 ? 30 : 300);
      v = ldexpl ((long double)m, e - 64);
      if (draw (T_W, 2))
	v = -v;
    }
  if (v == 0 && gen_cfg.signed_zero)
    v = draw (T_L, 2) ? -0.0L : 0.0L;	/* equal values, different representations */
  return v;
}

static long double
gen_cpart (int kind)
{
  bool keep = gen_cfg.no_inf;
  gen_cfg.no_inf |= gen_cfg.text_floats;
  long double v = gen_float (kind);
  gen_cfg.no_inf = keep;
  return v;
}

static int
gen_bytes (char *buf, int max)
{
  static const char special[] = "<>&\"'\\%{}[]()#:;,-|>!*?@`~= /\n\t.+^$";
  static const char *const utf[] = { "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xd0\x96", "\xc2\xa0" };
  int n = 0, len;
  static const char *const odd[] = { "", " ", "null", "true", "NULL", "0", "-1", "1e5", "]]>", "<!--x-->", "&amp;", "\\n", "\\\\", "#t", "~", "*isnull", "- a", "a: b",
    "ref_idx", "\"\"", "'", "/*", "*/", "0x00", " lead", "trail ", "\n", "a\nb", "\t", "%s%n", "sv_point_t", "[]", "{}", "...", "---", "(make-char 0)", "1:2", "a#b", "nan", "inf" };
  uint32_t k = draw (T_W, 8);
  if (k == 0)
    return 0;
  if (k == 1)
    {
      const char *s = odd[draw (T_W, sizeof (odd) / sizeof (odd[0]))];
      len = strlen (s);
      if (len < max)
	{
	  memcpy (buf, s, len);
	  return len;
	}
    }
  len = 1 + draw_log (T_W, max > 1 ? max - 1 : 1);
  while (n < len && n + 4 < max)
    {
      uint32_t c = draw (T_W, 16);
      if (c < 8 || (c >= 11 && c < 13 && gen_cfg.alphabet == AL_XML))
	buf[n++] = 'a' + draw (T_W, 26);
      else if (c < 11 || gen_cfg.alphabet == AL_PLAIN)
	{
	  buf[n++] = (gen_cfg.alphabet == AL_PLAIN) ? 'A' + draw (T_W, 26) : special[draw (T_W, sizeof (special) - 1)];
	  COUNT (probe_escape_char);
	}
      else if (c < 13)
	{
	  const char *u = utf[draw (T_W, 5)];
	  int l = strlen (u);
	  memcpy (buf + n, u, l);
	  n += l;
	}
      else if (gen_cfg.alphabet == AL_BYTES)
	{
	  buf[n++] = 1 + draw (T_W, 255);
	  COUNT (probe_escape_char);
	}
      else if (gen_cfg.alphabet == AL_UTF8)
	buf[n++] = 1 + draw (T_W, 127);
      else
	{
	  uint32_t k = draw (T_W, 98);
	  buf[n++] = k < 95 ? ' ' + k : "\t\n\r"[k - 95];
	}
    }
  return n;
}

static char *
gen_string (void)
{
  uint32_t k = draw (T_W, 8);
  if (k == 0)
    return NULL;
  if (k == 1 && nspool && gen_cfg.share)
    {
      COUNT (probe_shared_string);
      return spool[draw (T_W, nspool)];
    }
  char buf[1 << 12];
  int n = gen_bytes (buf, gen_cfg.max_str && gen_cfg.max_str < sizeof (buf) ? gen_cfg.max_str : 24);
  char *s = g_alloc (n + 1);
  memcpy (s, buf, n);
  s[n] = 0;
  if (nspool < 256)
    spool[nspool++] = s;
  return s;
}

static void fill (const mty_t *ty, void *addr, uint32_t left);
static void fill_fields (const mty_t *ty, char *base, const void *owner, int only);

static void
pool_add (const mty_t *ty, void *addr, uint32_t left)
{
  if (npool < POOL)
    {
      pool[npool].ty = ty;
      pool[npool].addr = addr;
      pool[npool].left = left;
      ++npool;
    }
}

/* choose an existing object of the type with at least n elements */
static void *
pool_pick (const mty_t *ty, uint32_t n)
{
  uint32_t i, c = 0;
  if (ty->kind == K_PTR)
    return NULL;		/* sharing of pointer objects themselves is documented as unsupported */
  for (i = 0; i < npool; ++i)
    if (pool[i].ty == ty && pool[i].left >= n)
      ++c;
  if (!c)
    return NULL;
  c = draw (T_W, c);
  for (i = 0; i < npool; ++i)
    if (pool[i].ty == ty && pool[i].left >= n && c-- == 0)
      return pool[i].addr;
  return NULL;
}

static void *
new_block (const mty_t *ty, uint32_t n)
{
  char *p = g_alloc (ty->size * n);
  uint32_t i;
  /* breadth first: contents are filled later, so that graphs do not degenerate into one deep chain */
  for (i = 0; i < n; ++i)
    {
      pool_add (ty, p + i * ty->size, gen_cfg.interior || i == 0 ? n - i : 0);
      if (npend < sizeof (pend) / sizeof (pend[0]))
	{
	  pend[npend].addr = p + i * ty->size;
	  pend[npend].ty = ty;
	  pend[npend].i = i;
	  pend[npend].n = n;
	  ++npend;
	}
    }
  return p;
}

static void
set_size (void *at, int sz, uint64_t v)
{
  memcpy (at, &v, sz);
}

static uint64_t
get_size (const void *at, int sz, bool sg)
{
  uint64_t v = 0;
  memcpy (&v, at, sz);
  if (sg && sz < 8 && (v >> (sz * 8 - 1)))
    v |= ~(uint64_t)0 << (sz * 8);
  return v;
}

static void
gen_ptr (const mfld_t *f, const mty_t *pty, char *base)
{
  void **at = (void**)(base + f->off);
  const mty_t *ty = pty->target;
  uint32_t n = 1, k = draw (T_W, 8);
  bool sized = f->size_off >= 0 || f->size_set;
  if (sized)
    {
      n = 1 + draw_log (T_W, gen_cfg.overlap && k <= 3 ? 3 : 9);
      uint64_t lim = f->size_set ? 127 : (f->size_sz == 1) ? 127 : 4096;
      if (ty->kind == K_STRUCT && lim == 127)
	lim = 84;		/* another version of the structure may be larger */
      if (n * ty->size > lim)
	n = lim / ty->size;
      if (n == 0)
	n = 1;
    }
  if (k == 0 || (nblocks >= gen_cfg.budget && !gen_cfg.share))
    {
      *at = NULL;
      n = 0;
      COUNT (probe_null_ptr);
    }
  else if ((k <= 3 || nblocks >= gen_cfg.budget) && gen_cfg.share)
    {
      void *p = pool_pick (ty, sized && !gen_cfg.overlap ? UINT32_MAX : n);
      *at = p;
      if (!p)
	{
	  n = 0;
	  if (nblocks < gen_cfg.budget)
	    {
	      n = 1;
	      *at = new_block (ty, n);
	    }
	}
      else
	COUNT (probe_shared_ptr);
    }
  else
    *at = new_block (ty, n);
  if (f->size_set)
    f->size_set (base, n * ty->size);
  else if (f->size_off >= 0)
    set_size (base + f->size_off, f->size_sz, n * ty->size);
  if (sized && n)
    COUNT (probe_resizable);
  if (*at && !f->size_set && nslots < sizeof (slots) / sizeof (slots[0]))
    {
      slots[nslots].at = at;
      slots[nslots].ty = ty;
      slots[nslots].size_at = f->size_off >= 0 ? base + f->size_off : NULL;
      slots[nslots].size_sz = f->size_sz;
      slots[nslots++].n = n;
    }
}

static void
fill_scalar (const mty_t *ty, void *addr)
{
  switch (ty->kind)
    {
    case K_BOOL: *(bool*)addr = draw (T_W, 2); break;
    case K_CHAR:
      {
	uint32_t k = draw (T_W, 4);
	char c = 'a' + draw (T_W, 26);
	if (k == 1)
	  {
	    static const char sp[] = "<>&\"'\\ #{}[]:,-%.()\n\t0";
	    c = gen_cfg.alphabet == AL_PLAIN ? '0' : sp[draw (T_W, sizeof (sp) - 1)];
	  }
	else if (k == 2)
	  c = gen_cfg.alphabet == AL_BYTES ? draw (T_W, 256) : gen_cfg.alphabet == AL_PLAIN ? 'x' : ' ' + draw (T_W, 95);
	else if (k == 3 && gen_cfg.alphabet != AL_XML)
	  c = 0;
	*(char*)addr = c;
	break;
      }
    case K_INT: case K_UINT:
      if (ty->size == 16)
	{
	  mr_uint128_t v = (mr_uint128_t)(uint64_t)gen_int_value (64, false);
	  if (draw (T_W, 2))
	    v |= (mr_uint128_t)(uint64_t)gen_int_value (64, false) << 64;
	  memcpy (addr, &v, 16);
	}
      else
	{
	  int64_t v = gen_int_value (ty->size * 8, ty->kind == K_INT);
	  memcpy (addr, &v, ty->size);
	}
      break;
    case K_FLT: *(float*)addr = gen_float (0); break;
    case K_DBL: *(double*)addr = gen_float (1); break;
    case K_LDBL: *(long double*)addr = gen_float (2); break;
    case K_CFLT: { float r = gen_cpart (0), i = gen_cpart (0); __real__ *(complex float*)addr = r; __imag__ *(complex float*)addr = i; } break;
    case K_CDBL: { double r = gen_cpart (1), i = gen_cpart (1); __real__ *(complex double*)addr = r; __imag__ *(complex double*)addr = i; } break;
    case K_CLDBL: { long double r = gen_cpart (2), i = gen_cpart (2); __real__ *(complex long double*)addr = r; __imag__ *(complex long double*)addr = i; } break;
    case K_ENUM:
      {
	int64_t v = ty->evals[draw (T_W, ty->nevals)];
	if (ty->flags)
	  {
	    v = 0;
	    int i;
	    for (i = 0; i < ty->nevals; ++i)
	      if (draw (T_W, 2))
		v |= ty->evals[i];
	    if (draw (T_W, 8) == 7)
	      v |= 0x50;		/* bits without a name */
	  }
	else if (draw (T_W, 16) == 15)
	  v = 77;			/* not a named value */
	memcpy (addr, &v, ty->size);
	break;
      }
    default: break;
    }
}

static void
un_int_gen (void *p)
{
  sv_un_int_t *u = p;
  u->sel = draw (T_W, 6);
  if (u->sel == 5)
    u->sel = draw (T_W, 2) ? 5 : 255;
  int b = sel_int (u);
  fill_fields (&t_val_int, (char*)&u->val, u, b);
  COUNT (probe_union);
}
static void
un_str_gen (void *p)
{
  static const char *const n[] = { "ival", "sval", "pt", "node", "dval", "nosuch", "" };
  sv_un_str_t *u = p;
  uint32_t k = draw (T_W, 8);
  if (k == 7)
    u->branch = NULL;
  else
    {
      u->branch = g_alloc (strlen (n[k]) + 1);
      strcpy (u->branch, n[k]);
    }
  int b = sel_str (u);
  fill_fields (&t_val_str, (char*)&u->val, u, b);
  COUNT (probe_union);
}
static void
un_named_gen (void *p)
{
  static const int codes[] = { 0, 100, -7, 1, 2, 5 };
  sv_un_named_t *u = p;
  u->code = codes[draw (T_W, 6)];
  fill_fields (&u_named, (char*)u, u, sel_named (u));
  COUNT (probe_union);
}
static void
typed_gen (void *p)
{
  static const char *const n[] = { "sv_point_t", "sv_node_t", "int32_t", "sv_scalars_t", "string_t", NULL };
  sv_typed_t *u = p;
  uint32_t k = draw (T_W, 6);
  memset (u, 0, sizeof (*u));
  if (n[k])
    {
      u->type = g_alloc (strlen (n[k]) + 1);
      strcpy (u->type, n[k]);
      fill_fields (&u_typed, (char*)u, u, k);
    }
}

/* elements of an array in use: a size field may limit them */
static uint32_t
fld_count (const mfld_t *f, const char *base)
{
  if (!f->is_array || f->size_off < 0)
    return f->count;
  uint64_t n = get_size (base + f->size_off, f->size_sz, f->size_signed) / f->ty->size;
  return n < f->count ? n : f->count;
}

static void
ext_gen (void *p)
{
  static const char *const n[] = { "ival", "sval", "pt", "node", "dval", "x", "" };
  static const int discs[] = { 0, 1, 2, 3, 4, 5, -1 };
  sv_ext_t *e = p;
  e->lim_size = draw (T_W, 40);
  e->ukind = t_kind_v[draw (T_W, 5)];
  e->disc = discs[draw (T_W, 7)];
  e->bdisc = draw (T_W, 8);
  strcpy (e->cdisc, n[draw (T_W, 7)]);
  fill_fields (&t_ext, p, p, -1);
}

static char *
branch_name (void)
{
  static const char *const n[] = { "ival", "sval", "pt", "node", "dval", "nosuch", "" };
  uint32_t k = draw (T_W, 8);
  if (k == 7)
    return NULL;
  char *s = g_alloc (strlen (n[k]) + 1);
  strcpy (s, n[k]);
  return s;
}

static int64_t
branch_idx (void)
{
  static const int64_t n[] = { 0, 1, 2, 3, 4, 5, -1, 7 };
  return n[draw (T_W, 8)];
}

static void
disc_gen (void *p)
{
  sv_disc_t *d = p;
  d->dpk = NULL;
  if (draw (T_W, 4))
    {
      d->dpk = g_alloc (sizeof (sv_kind_t));
      *d->dpk = t_kind_v[draw (T_W, 5)];
    }
  d->dar[0] = branch_idx ();
  d->dar[1] = branch_idx ();
  d->dbk = draw (T_W, 2) ? draw (T_W, 5) : draw (T_W, 16);
  d->d128 = (mr_uint128_t)branch_idx ();
  if (draw (T_W, 4) == 0)
    d->d128 += (mr_uint128_t)1 << (32 + draw (T_W, 96));
  d->dst.branch = branch_name ();
  d->di = branch_idx ();
  if (draw (T_W, 4) == 0)
    d->di += (int64_t)1 << (32 + draw (T_W, 31));
  d->dps = NULL;
  if (draw (T_W, 4))
    {
      d->dps = g_alloc (sizeof (char *));
      *d->dps = branch_name ();
    }
  d->dbool = draw (T_W, 2);
  int i;
  for (i = 0; i < 2; ++i)
    {
      d->dars[i] = NULL;
      if (draw (T_W, 4))
	{
	  d->dars[i] = g_alloc (1);
	  *d->dars[i] = branch_idx ();
	}
    }
  d->dk = t_kind_v[draw (T_W, 5)];
  fill_fields (&t_disc, p, p, -1);
}

static void
c_set (void *o, uint64_t v)
{
  sv_sz_t *z = o;
  z->c_sz = NULL;
  if (v != sizeof (int32_t) || draw (T_W, 2))
    {
      z->c_sz = g_alloc (sizeof (uint16_t));
      *z->c_sz = v;
    }
}

static void
d_set (void *o, uint64_t v)
{
  ((sv_sz_t*)o)->d_sz = v;
}

static void
sz_gen (void *p)
{
  int i;
  for (i = 0; i < t_sz.nf; ++i)
    /* a size kept in a character is stored as a character, which not every format has */
    if (t_sz_f[i].size_set != e_set || gen_cfg.alphabet == AL_BYTES)
      fill_fields (&t_sz, p, p, i);
    else
      {
	((sv_sz_t*)p)->e = NULL;
	e_set (p, 0);
      }
}

/* several pointers into few arrays, in any order and partially overlapping */
static void
win_gen (void *p)
{
  sv_win_t *w = p;
  int i;
  if (!gen_cfg.overlap || !gen_cfg.share || nblocks >= gen_cfg.budget || draw (T_W, 4) == 0)
    {
      fill_fields (&t_win, p, p, -1);
      return;
    }
  for (i = 0; i < 2; ++i)
    {
      const mty_t *ty = i ? &t_node : &t_point;
      uint32_t k, n = 2 + draw_log (T_W, 7), nw = i ? 3 : 4;
      char *b = new_block (ty, n);
      bool *used = calloc (n, 1);
      for (k = 0; k < nw; ++k)
	{
	  const mfld_t *f = &t_win_f[i * 4 + k];
	  uint32_t from = draw (T_W, n), len = 1 + draw (T_W, n - from), j;
	  void *q = b + from * ty->size;
	  memcpy ((char*)p + f->off, &q, sizeof (q));
	  set_size ((char*)p + f->size_off, f->size_sz, len * ty->size);
	  for (j = from; j + 1 < from + len; ++j)
	    used[j] = true;
	}
      /* everything must stay owned as one array: without a chain of overlapping windows one pointer takes all */
      bool whole = true;
      for (k = 0; k + 1 < n; ++k)
	whole &= used[k];
      if (!whole)
	{
	  const mfld_t *f = &t_win_f[i * 4 + draw (T_W, nw)];
	  uint32_t len = n * ty->size;
	  memcpy ((char*)p + f->off, &b, sizeof (b));
	  set_size ((char*)p + f->size_off, f->size_sz, len);
	}
      char *q = b + draw (T_W, n) * ty->size;
      if (i)
	w->nsingle = (void*)q;
      else
	w->single = (void*)q;
      free (used);
      COUNT (probe_overlap);
    }
}

static void
more_gen (void *p)
{
  sv_more_t *m = p;
  m->md0 = branch_idx ();
  m->md1 = branch_idx ();
  m->md2 = branch_name ();
  m->nkind = draw (T_W, 6);
  fill_fields (&t_more, p, p, -1);
}

static void
fill_field (const mfld_t *f, char *base)
{
  uint32_t i;
  if (f->ty->kind == K_PTR)
    {
      if (!f->ty->gen)
	gen_ptr (f, f->ty, base);
    }
  else if (f->ty->kind == K_UNION)
    {
      /* the union's own storage; owner is the structure */
      COUNT (probe_union);
      fill_fields (f->ty, f->ty->size ? base + f->off : base, base, f->ty->sel (base));
    }
  else
    for (i = 0; i < fld_count (f, base); ++i)
      {
	void *a = base + f->off + i * f->ty->size;
	if (gen_cfg.interior && (f->ty == &t_point || f->ty == &t_i32 || f->ty == &t_dbl || f->ty == &t_i16 || f->ty == &t_color))
	  {
	    /* a pointer range stays within the innermost dimension of a multi-dimensional array: arrays of different
	       element types at the same address are different objects */
	    uint32_t row = (f->ty == &t_i32 && f->count == 6) ? 3 : (f->ty == &t_i16 && f->count == 24) ? 4 : fld_count (f, base);
	    pool_add (f->ty, a, f->is_array ? row - i % row : 1);
	  }
	fill (f->ty, a, 1);
      }
  if (f->count > 3 && f->is_array)
    COUNT (probe_multi_dim);
}

static void
fill_fields (const mty_t *ty, char *base, const void *owner, int only)
{
  int i;
  for (i = 0; i < ty->nf; ++i)
    if (only < 0 || i == only)
      fill_field (&ty->f[i], base);
  (void)owner;
}

static void
fill (const mty_t *ty, void *addr, uint32_t left)
{
  (void)left;
  if (ty->gen)
    {
      ty->gen (addr);
      return;
    }
  switch (ty->kind)
    {
    case K_STRUCT:
      fill_fields (ty, addr, addr, -1);
      break;
    case K_STR:
      *(char**)addr = gen_string ();
      break;
    case K_CSTR:
      {
	char buf[16], *d = addr;
	static const char sp[] = "<>&\"'\\ #{}[]:,-%.()\n\t0";
	uint32_t i, n = draw (T_W, ty->size + 1);
	for (i = 0; i < n; ++i)
	  buf[i] = draw (T_W, 3) < 2 || gen_cfg.alphabet == AL_PLAIN ? 'a' + draw (T_W, 26) : gen_cfg.alphabet == AL_BYTES && draw (T_W, 2) ? 1 + draw (T_W, 255) : sp[draw (T_W, sizeof (sp) - 1)];
	memcpy (d, buf, n);
	if (n < ty->size)
	  {
	    d[n] = 0;
	    if (gen_cfg.str_in_array && nspool < 255)
	      spool[nspool++] = d;
	  }
	break;
      }
    case K_PTR:
      {
	mfld_t f = { "", ty, 0, 1, false, -1, 0, false, 0 };
	gen_ptr (&f, ty, addr);
	break;
      }
    case K_FUNC:
      {
	static sv_fn_t fns[] = { NULL, sv_fn_a, sv_fn_b, sv_fn_c };
	*(sv_fn_t*)addr = gen_cfg.funcs ? fns[draw (T_W, 4)] : NULL;
	if (*(sv_fn_t*)addr)
	  COUNT (probe_func_ptr);
	break;
      }
    case K_VOIDP:
      *(void**)addr = NULL;
      if (gen_cfg.voidp && nvps < 64)
	vps[nvps++].at = addr;
      break;
    default:
      fill_scalar (ty, addr);
      break;
    }
}

/* sv_rsz_t size fields are set with their pointers; un-pointed size fields stay zero */
static void
drain (void)
{
  while (npend)
    {
      /* oldest first */
      uint32_t i;
      void *a = pend[0].addr;
      const mty_t *t = pend[0].ty;
      for (i = 1; i < npend; ++i)
	pend[i - 1] = pend[i];
      --npend;
      fill (t, a, 1);
    }
}

void *
gen_root (int rt)
{
  const mty_t *ty = root_mty[rt];
  void *p = h_alloc (ty->size);	/* the root is the caller's own object */
  if (gen_cfg.dirty)
    memset (p, draw (T_L, 256), ty->size);
  if (rt == RT_EXT)
    cur_ext = p;
  if (rt == RT_MORE)
    cur_more = p;
  pool_add (ty, p, 1);
  fill (ty, p, 1);
  drain ();
  uint32_t i;
  for (i = 0; i < nvps; ++i)
    if (npool && draw (T_W, 3))
      {
	*vps[i].at = pool[draw (T_W, npool)].addr;
	COUNT (probe_void_ptr);
      }
  if (gen_cfg.swap)
    swap_pointers (rt, p);
  if (nblocks > 16)
    COUNT (probe_deep);
  return p;
}

/* ------------------------------------------------------------------ canonical form */
typedef struct { uintptr_t a; const mty_t *ty; uint32_t n; } item_t;
#define ITEMS 8192
static item_t items[ITEMS];
static uint32_t nitems;
typedef struct { uintptr_t a, e; uint32_t first; uint32_t id; } region_t;
static region_t regs[ITEMS];
static uint32_t nregs;
static const char *strs[ITEMS * 2];
static uint32_t nstrs;

#define OUTCAP (1 << 21)
static char outbuf[4][OUTCAP];
static int outcur;
static size_t outlen;

static void
out (const char *fmt, ...)
{
  va_list ap;
  va_start (ap, fmt);
  int n = vsnprintf (outbuf[outcur] + outlen, OUTCAP - outlen, fmt, ap);
  va_end (ap);
  if (n < 0 || outlen + n >= OUTCAP)
    harness_error ("canonical form too long");
  outlen += n;
}

static bool walk_printing;
static void collect (int rt, const void *root);
static void visit (const mty_t *ty, const char *addr, const char *owner);

static void
add_item (const void *p, const mty_t *ty, uint32_t n)
{
  uint32_t i;
  for (i = 0; i < nitems; ++i)
    if (items[i].a == (uintptr_t)p && items[i].ty == ty && items[i].n == n)
      return;
  if (nitems >= ITEMS)
    harness_error ("canonical form: too many objects");
  items[nitems].a = (uintptr_t)p;
  items[nitems].ty = ty;
  items[nitems].n = n;
  ++nitems;
}

static region_t *
region_of (uintptr_t a)
{
  uint32_t i;
  for (i = 0; i < nregs; ++i)
    if (a >= regs[i].a && a < regs[i].e)
      return &regs[i];
  return NULL;
}

/* Of two arrays that overlap partially the library lets the one with the lower address own all elements, so its size
   grows to the end of the other one (documented by its tests tda_overlapping_*).  Canonical forms use the final sizes. */
static uint32_t
extent (const void *p, const mty_t *ty, uint32_t n)
{
  uintptr_t a = (uintptr_t)p, e = a + (uintptr_t)n * ty->size;
  bool again;
  do
    {
      uint32_t i;
      again = false;
      for (i = 0; i < nitems; ++i)
	if (items[i].ty == ty && items[i].a > a && items[i].a < e && items[i].a + (uintptr_t)items[i].n * ty->size > e)
	  {
	    e = items[i].a + (uintptr_t)items[i].n * ty->size;
	    again = true;
	  }
    }
  while (again);
  return (e - a) / ty->size;
}

static struct { uintptr_t a; const mty_t *ty; uint32_t n, m; } exts[ITEMS];
static uint32_t nexts;
static uint32_t
extended (const void *p, const mty_t *ty, uint32_t n)
{
  uint32_t i;
  for (i = 0; i < nexts; ++i)
    if (exts[i].a == (uintptr_t)p && exts[i].ty == ty && exts[i].n == n)
      return exts[i].m;
  return n;
}

static void
visit_ptr (const mty_t *pty, const void *p, uint32_t n)
{
  if (p == NULL || n == 0)
    {
      if (walk_printing)
	out ("0");
      return;
    }
  if (!walk_printing)
    add_item (p, pty->target, n);
  else
    {
      region_t *r = region_of ((uintptr_t)p);
      if (r)
	out ("&%u+%lu#%u", r->id, (unsigned long)((uintptr_t)p - r->a), n);
      else
	out ("&?");
    }
}

static void
out_float (long double v, int digs)
{
  if (isnan (v))
    out ("nan");
  else
    out ("%.*Lg", digs, v == 0 ? 0.0L : v);	/* zeros are equal whatever their sign */
}

static void
out_complex (long double re, long double im, int digs)
{
  /* a complex number with a NaN part is a NaN as a whole */
  if (isnan (re) || isnan (im))
    out ("nan");
  else
    {
      out_float (re, digs);
      out ("/");
      out_float (im, digs);
    }
}

static void
out_i128 (const void *p, bool sgn)
{
  uint64_t w[2];
  (void)sgn;
  memcpy (w, p, 16);
  out ("%016llx%016llx", (unsigned long long)w[1], (unsigned long long)w[0]);
}

static void
visit_fields (const mty_t *ty, const char *base, const char *owner, int only)
{
  int i;
  uint32_t j;
  (void)owner;
  for (i = 0; i < ty->nf; ++i)
    {
      const mfld_t *f = &ty->f[i];
      if (only >= 0 && i != only)
	continue;
      if (walk_printing)
	out (" .%s=", f->name);
      if (f->ty->kind == K_PTR)
	{
	  uint32_t n = 1;
	  void *p;
	  memcpy (&p, base + f->off, sizeof (p));
	  if ((f->size_off >= 0 || f->size_get) && !f->is_array)
	    {
	      int64_t sz = f->size_get ? (int64_t)f->size_get (base) : (int64_t)get_size (base + f->size_off, f->size_sz, f->size_signed);
	      n = (p == NULL || sz <= 0) ? 0 : (uint64_t)sz / f->ty->target->size;
	      uint32_t m = extended (p, f->ty->target, n);
	      sz += (int64_t)(m - n) * f->ty->target->size;
	      n = m;
	      if (walk_printing)
		out ("(%lld+%lld)", (long long)(sz / (int64_t)f->ty->target->size), (long long)(sz % (int64_t)f->ty->target->size));
	      if (n > 100000)
		{
		  out ("BADSIZE");
		  n = 0;
		}
	    }
	  visit_ptr (f->ty, p, n);
	}
      else if (f->ty->kind == K_UNION)
	{
	  int b = f->ty->sel (base);
	  if (walk_printing)
	    out ("<%d>", b);
	  visit_fields (f->ty, f->ty->size ? base + f->off : base, base, b);
	}
      else
	{
	  if (f->is_array && walk_printing)
	    out ("[");
	  for (j = 0; j < fld_count (f, base); ++j)
	    {
	      if (j && walk_printing)
		out (",");
	      visit (f->ty, base + f->off + j * f->ty->size, base);
	    }
	  if (f->is_array && walk_printing)
	    out ("]");
	}
    }
}

static void
visit (const mty_t *ty, const char *addr, const char *owner)
{
  (void)owner;
  if (ty->dump)
    {
      if (walk_printing)
	ty->dump (addr);
      return;
    }
  switch (ty->kind)
    {
    case K_STRUCT:
      if (walk_printing)
	out ("{");
      visit_fields (ty, addr, addr, -1);
      if (walk_printing)
	out ("}");
      break;
    case K_PTR:
      {
	void *p;
	memcpy (&p, addr, sizeof (p));
	visit_ptr (ty, p, 1);
	break;
      }
    case K_CSTR:
      if (walk_printing)
	{
	  const char *s;
	  out ("\"");
	  for (s = addr; s < addr + ty->size && *s; ++s)
	    if (*s >= 32 && *s < 127 && *s != '\\' && *s != '"')
	      out ("%c", *s);
	    else
	      out ("\\x%02x", (unsigned char)*s);
	  out ("\"");
	}
      break;
    case K_STR:
      {
	const char *s;
	memcpy (&s, addr, sizeof (s));
	if (!walk_printing)
	  {
	    if (s && nstrs < sizeof (strs) / sizeof (strs[0]))
	      strs[nstrs++] = s;
	  }
	else if (!s)
	  out ("nul");
	else
	  {
	    region_t *r = region_of ((uintptr_t)s);
	    if (r)
	      out ("@%u+%lu", r->id, (unsigned long)((uintptr_t)s - r->a));
	    out ("\"");
	    for (; *s; ++s)
	      if (*s >= 32 && *s < 127 && *s != '\\' && *s != '"')
		out ("%c", *s);
	      else
		out ("\\x%02x", (unsigned char)*s);
	    out ("\"");
	  }
	break;
      }
    case K_VOIDP:
      if (walk_printing)
	{
	  void *p;
	  memcpy (&p, addr, sizeof (p));
	  region_t *r = p ? region_of ((uintptr_t)p) : NULL;
	  if (r)
	    out ("v%u+%lu", r->id, (unsigned long)((uintptr_t)p - r->a));
	  else
	    out ("%s", p ? "v?" : "v0");
	}
      break;
    case K_FUNC:
      if (walk_printing)
	{
	  sv_fn_t fn;
	  memcpy (&fn, addr, sizeof (fn));
	  out ("%s", fn == NULL ? "f0" : fn == sv_fn_a ? "fa" : fn == sv_fn_b ? "fb" : fn == sv_fn_c ? "fc" : "f?");
	}
      break;
    default:
      if (!walk_printing)
	break;
      switch (ty->kind)
	{
	case K_BOOL: out ("%u", *(const uint8_t*)addr); break;
	case K_CHAR: out ("c%02x", *(const uint8_t*)addr); break;
	case K_INT: case K_UINT: case K_ENUM:
	  if (ty->size == 16)
	    out_i128 (addr, ty->kind == K_INT);
	  else
	    out ("%lld", (long long)get_size (addr, ty->size, ty->kind != K_UINT));
	  break;
	case K_FLT: out_float (*(const float*)addr, 9); break;
	case K_DBL: out_float (*(const double*)addr, 17); break;
	case K_LDBL: out_float (*(const long double*)addr, 21); break;
	case K_CFLT: out_complex (__real__ *(const complex float*)addr, __imag__ *(const complex float*)addr, 9); break;
	case K_CDBL: out_complex (__real__ *(const complex double*)addr, __imag__ *(const complex double*)addr, 17); break;
	case K_CLDBL: out_complex (__real__ *(const complex long double*)addr, __imag__ *(const complex long double*)addr, 21); break;
	default: break;
	}
      break;
    }
}

static int
cmp_item_addr (const void *x, const void *y)
{
  const item_t *a = &items[*(const uint32_t*)x], *b = &items[*(const uint32_t*)y];
  return (a->a > b->a) - (a->a < b->a);
}

static void
collect (int rt, const void *root)
{
  uint32_t i, j;
  static uint32_t ord[ITEMS];
  walk_printing = false;
  if (rt == RT_EXT)
    cur_ext = root;
  if (rt == RT_MORE)
    cur_more = root;
  nexts = 0;
  bool again;
  do
    {
      nitems = nstrs = nregs = 0;
      add_item (root, root_mty[rt], 1);
      for (i = 0; i < nitems; ++i)
	{
	  item_t it = items[i];
	  for (j = 0; j < it.n; ++j)
	    visit (it.ty, (const char*)it.a + j * it.ty->size, NULL);
	}
      again = false;
      for (i = 0; i < nitems; ++i)
	if (items[i].n > 1)
	  {
	    uint32_t m = extent ((void*)items[i].a, items[i].ty, items[i].n);
	    if (m != items[i].n && nexts < ITEMS)
	      {
		exts[nexts].a = items[i].a;
		exts[nexts].ty = items[i].ty;
		exts[nexts].n = items[i].n;
		exts[nexts++].m = m;
		again = true;
	      }
	  }
      /* a size that was extended before may have to grow again */
      for (i = 0; again && i < nexts; ++i)
	exts[i].m = extended ((void*)exts[i].a, exts[i].ty, exts[i].m);
    }
  while (again);
  /* maximal regions: unions of overlapping items */
  for (i = 0; i < nitems; ++i)
    ord[i] = i;
  qsort (ord, nitems, sizeof (ord[0]), cmp_item_addr);
  for (i = 0; i < nitems; ++i)
    {
      item_t *it = &items[ord[i]];
      uintptr_t e = it->a + (uintptr_t)it->n * it->ty->size;
      if (nregs && it->a < regs[nregs - 1].e)
	{
	  region_t *r = &regs[nregs - 1];
	  if (e > r->e)
	    r->e = e;
	  if (ord[i] < r->first)
	    r->first = ord[i];
	}
      else
	{
	  regs[nregs].a = it->a;
	  regs[nregs].e = e;
	  regs[nregs].first = ord[i];
	  ++nregs;
	}
    }
  for (i = 0; i < nregs; ++i)
    {
      regs[i].id = 0;
      for (j = 0; j < nregs; ++j)
	if (regs[j].first < regs[i].first)
	  ++regs[i].id;
    }
}

static size_t
covered (int rt, const void *root)
{
  size_t b = 0;
  uint32_t k;
  collect (rt, root);
  for (k = 0; k < nregs; ++k)
    b += regs[k].e - regs[k].a;
  return b;
}

static void
slot_set (uint32_t i, void *p, uint32_t n)
{
  *slots[i].at = p;
  slots[i].n = n;
  if (slots[i].size_at)
    set_size (slots[i].size_at, slots[i].size_sz, n * slots[i].ty->size);
}

/* exchange pairs of pointers of the same kind and narrow array pointers, as long as the whole graph stays reachable */
static void
swap_pointers (int rt, void *root)
{
  uint32_t tries = 1 + draw (T_W, 12), i, j;
  if (nslots < 2)
    return;
  size_t b0 = covered (rt, root);
  uint32_t r0 = nregs, s0 = nstrs;
  while (tries--)
    {
      i = draw (T_W, nslots);
      void *pi = *slots[i].at;
      uint32_t ni = slots[i].n;
      if (gen_cfg.overlap && draw (T_W, 2))
	{
	  if (!slots[i].size_at || ni < 2)
	    continue;
	  uint32_t from = draw (T_W, ni), n = 1 + draw (T_W, ni - from);
	  slot_set (i, (char*)pi + from * slots[i].ty->size, n);
	  if (covered (rt, root) != b0 || nregs != r0 || nstrs != s0)
	    slot_set (i, pi, ni);
	  else
	    COUNT (probe_overlap);
	  continue;
	}
      j = draw (T_W, nslots);
      if (i == j || slots[i].ty != slots[j].ty || (slots[i].size_at == NULL) != (slots[j].size_at == NULL))
	continue;
      void *pj = *slots[j].at;
      uint32_t nj = slots[j].n;
      if (slots[i].size_at && ((slots[i].size_sz == 1 && nj * slots[i].ty->size > 127) || (slots[j].size_sz == 1 && ni * slots[i].ty->size > 127)))
	continue;
      slot_set (i, pj, nj);
      slot_set (j, pi, ni);
      if (covered (rt, root) != b0 || nregs != r0 || nstrs != s0)
	{
	  slot_set (i, pi, ni);
	  slot_set (j, pj, nj);
	}
      else
	COUNT (probe_swapped);
    }
}

canon_t
canon (int rt, const void *root)
{
  uint32_t i, j;
  canon_t c;
  collect (rt, root);
  walk_printing = true;
  outcur = (outcur + 1) & 3;
  outlen = 0;
  for (i = 0; i < nitems; ++i)
    {
      item_t *it = &items[i];
      region_t *r = region_of (it->a);
      out ("%s@%u+%lu:", it->ty->name, r->id, (unsigned long)(it->a - r->a));
      for (j = 0; j < it->n; ++j)
	{
	  visit (it->ty, (const char*)it->a + j * it->ty->size, NULL);
	  out (" ");
	}
      out ("\n");
    }
  c.s = outbuf[outcur];
  c.len = outlen;
  c.h = hash64 (c.s, c.len, 1);
  c.regions = nregs;
  c.strings = nstrs;
  return c;
}

bool
canon_equal (canon_t a, canon_t b)
{
  return a.len == b.len && memcmp (a.s, b.s, a.len) == 0;
}

void
canon_compare (canon_t a, canon_t b, const char *cls, const char *what)
{
  if (canon_equal (a, b))
    return;
  size_t i = 0;
  while (i < a.len && i < b.len && a.s[i] == b.s[i])
    ++i;
  size_t from = i > 60 ? i - 60 : 0;
  violate (cls, "%s: objects differ: expected ...%.140s... got ...%.140s...", what, a.s + from, b.s + from);
}

void
ownership_check (mark_t m, int rt, const void *root, const char *cls, const char *what)
{
  static blk_t *b[ITEMS];
  uint32_t i, j;
  collect (rt, root);
  size_t n = live_after (m, b, ITEMS);
  for (i = 0; i < n && i < ITEMS; ++i)
    {
      bool found = false;
      for (j = 0; j < nregs && !found; ++j)
	if (regs[j].a == b[i]->addr)
	  {
	    found = true;
	    if (regs[j].e - regs[j].a > b[i]->size)
	      violate (cls, "%s: block of %zu bytes allocated at %s:%d holds a part of the object that needs %zu bytes", what, b[i]->size, b[i]->func, b[i]->line,
		       (size_t)(regs[j].e - regs[j].a));
	  }
      for (j = 0; j < nstrs && !found; ++j)
	found = ((uintptr_t)strs[j] == b[i]->addr);
      if (!found)
	violate (cls, "%s: block of %zu bytes allocated at %s:%d stays allocated but belongs to no part of the object", what, b[i]->size, b[i]->func, b[i]->line);
    }
}

uint64_t
raw_hash (int rt, const void *root)
{
  uint32_t i;
  uint64_t h = 7;
  collect (rt, root);
  for (i = 0; i < nregs; ++i)
    h = hash64 ((void*)regs[i].a, regs[i].e - regs[i].a, h);
  for (i = 0; i < nstrs; ++i)
    h = hash64 (strs[i], strlen (strs[i]) + 1, h);
  return h;
}

/* overwrite all plain data of the graph: what a caller does when it reuses or discards the source of a copy */
void
gen_scribble (int rt, void *root)
{
  uint32_t i;
  collect (rt, root);
  for (i = 0; i < nstrs; ++i)
    if (strs[i][0])
      ((char*)strs[i])[0] ^= 0x15;
  for (i = 0; i < nregs; ++i)
    memset ((void*)regs[i].a, 0xee, regs[i].e - regs[i].a);
}

/* changing a discriminator alone would make the union's old contents be read as another type */
static bool
is_discriminator (const mfld_t *f)
{
  static const char *const names[] = { "disc", "cdisc", "ukind", "kind", "sel", "branch", "is_str", "code", "type", NULL };
  int i;
  for (i = 0; names[i]; ++i)
    if (strcmp (names[i], f->name) == 0)
      return true;
  return false;
}

bool
mutate_one (int rt, void *root, const char **what)
{
  /* candidates: int32, strings' first byte, bool */
  uint32_t i, tries;
  collect (rt, root);
  for (tries = 0; tries < 16; ++tries)
    {
      item_t *it = &items[draw (T_W, nitems)];
      const mty_t *ty = it->ty;
      char *base = (char*)it->a + draw (T_W, it->n) * ty->size;
      if (ty->kind == K_STRUCT && ty->nf)
	{
	  const mfld_t *f = &ty->f[draw (T_W, ty->nf)];
	  bool is_size = false;
	  for (i = 0; i < (uint32_t)ty->nf; ++i)
	    if (ty->f[i].size_off == (int)f->off && ty->f[i].size_off >= 0)
	      is_size = true;
	  if (is_size || f->ty->kind == K_UNION || f->ty->kind == K_PTR)
	    continue;
	  if (f->ty->constant)
	    continue;
	  if (ty == &t_un_int || ty == &t_un_str || ty == &t_un_enum || ty == &t_un_bool || ty == &t_un_named || ty == &t_typed)
	    continue;
	  if (is_discriminator (f))
	    continue;
	  ty = f->ty;
	  base += f->off;
	}
      if (ty->constant)
	continue;
      switch (ty->kind)
	{
	case K_INT: case K_UINT: base[0] ^= 1 << draw (T_W, 8); *what = ty->name; return true;
	case K_BOOL: base[0] ^= 1; *what = "bool"; return true;
	case K_STR:
	  {
	    char *s;
	    memcpy (&s, base, sizeof (s));
	    if (s && s[0])
	      {
		s[0] = s[0] == 'q' ? 'r' : 'q';
		*what = "string";
		return true;
	      }
	    break;
	  }
	case K_DBL:
	  if (!isnan (*(double*)base) && !isinf (*(double*)base))
	    {
	      double v = *(double*)base;
	      *(double*)base = v == 3.0 ? 4.0 : 3.0;
	      *what = "double";
	      return true;
	    }
	  break;
	default:
	  break;
	}
    }
  return false;
}

leaf_t
leaf_pick (int rt, void *root)
{
  int tries;
  uint32_t i;
  collect (rt, root);
  for (tries = 0; tries < 24; ++tries)
    {
      item_t *it = &items[draw (T_W, nitems)];
      const mty_t *ty = it->ty;
      leaf_t l = { .name = ty->name };
      char *base = (char*)it->a + draw (T_W, it->n) * ty->size;
      if (ty->kind == K_STRUCT && ty->nf)
	{
	  const mfld_t *f = &ty->f[draw (T_W, ty->nf)];
	  bool skip = f->ty->constant || is_discriminator (f)
	    || ty == &t_un_int || ty == &t_un_str || ty == &t_un_enum || ty == &t_un_bool || ty == &t_un_named || ty == &t_typed || ty == &t_ext || ty == &t_more;
	  for (i = 0; i < (uint32_t)ty->nf; ++i)
	    if (ty->f[i].size_off >= 0 && ty->f[i].size_off == (int)f->off)
	      skip = true;
	  if (skip)
	    continue;
	  ty = f->ty;
	  l.name = f->name;
	  base += f->off + draw (T_W, f->count ? f->count : 1) * ty->size;
	}
      if (ty->constant)
	continue;
      l.addr = base;
      switch (ty->kind)
	{
	case K_INT: case K_UINT: case K_BOOL: case K_CHAR: case K_FLT: case K_DBL: case K_LDBL: case K_CFLT: case K_CDBL: case K_CLDBL: case K_ENUM: case K_CSTR: case K_STR:
	  l.ty = ty;
	  return l;
	case K_CUSTOM:
	  if (ty != &t_bits)
	    continue;
	  l.ty = ty;
	  return l;
	default:
	  break;
	}
    }
  return (leaf_t){ 0 };
}

static long double
border_float (int kind)
{
  switch (draw (T_W, 8))
    {
    case 0: return NAN;
    case 1: return 0;
    case 2: return -0.0L;
    case 3: return 1;
    case 4: return 2;
    case 5: return INFINITY;
    case 6: return -INFINITY;
    default: return gen_float (kind);
    }
}

static const char *const border_str[] = { "", "a", "ab", "abc", "b", "a\x80", "\xff", "\x7f", "aa", "a b", "Z", "\x01" };

void
leaf_fill (leaf_t l)
{
  void *addr = l.addr;
  switch (l.ty->kind)
    {
    case K_FLT: *(float*)addr = border_float (0); break;
    case K_DBL: *(double*)addr = border_float (1); break;
    case K_LDBL: *(long double*)addr = border_float (2); break;
    case K_CFLT: { float r = border_float (0), i = border_float (0); __real__ *(complex float*)addr = r; __imag__ *(complex float*)addr = i; } break;
    case K_CDBL: { double r = border_float (1), i = border_float (1); __real__ *(complex double*)addr = r; __imag__ *(complex double*)addr = i; } break;
    case K_CLDBL: { long double r = border_float (2), i = border_float (2); __real__ *(complex long double*)addr = r; __imag__ *(complex long double*)addr = i; } break;
    case K_INT: case K_UINT:
      {
	mr_uint128_t v;
	int bits = 8 * l.ty->size;
	switch (draw (T_W, 8))
	  {
	  case 0: v = 0; break;
	  case 1: v = 1; break;
	  case 2: v = ~(mr_uint128_t)0; break;
	  case 3: v = (mr_uint128_t)1 << (bits - 1); break;
	  case 4: v = ((mr_uint128_t)1 << (bits - 1)) - 1; break;
	  case 5: v = (mr_uint128_t)1 << (bits / 2); break;
	  case 6: v = (mr_uint128_t)1 << draw (T_W, bits); break;
	  default: v = draw (T_W, 1000); break;
	  }
	memcpy (addr, &v, l.ty->size);
	break;
      }
    case K_CHAR: *(char*)addr = draw (T_W, 2) ? "\0a\x7f\x80\xff"[draw (T_W, 5)] : (char)draw (T_W, 256); break;
    case K_CSTR:
      {
	const char *s = border_str[draw (T_W, sizeof (border_str) / sizeof (border_str[0]))];
	size_t n = strlen (s);
	if (n >= l.ty->size)
	  n = l.ty->size - 1;
	memcpy (addr, s, n);
	((char*)addr)[n] = 0;
	break;
      }
    case K_STR:
      {
	uint32_t k = draw (T_W, 1 + sizeof (border_str) / sizeof (border_str[0]));
	char *s = NULL;
	if (k)
	  {
	    s = g_alloc (strlen (border_str[k - 1]) + 1);
	    strcpy (s, border_str[k - 1]);
	  }
	memcpy (addr, &s, sizeof (s));
	break;
      }
    case K_CUSTOM: l.ty->gen (addr); break;
    default: fill_scalar (l.ty, addr); break;
    }
}
