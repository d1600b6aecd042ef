/* Types serialised by the simulated application.  Names are prefixed: enum literals are global to the library. */
#ifndef TYPES_H
#define TYPES_H
#include <metaresc.h>

TYPEDEF_ENUM (sv_color_t, SV_RED, (SV_GREEN, = 5), SV_BLUE, (SV_BLACK, = 1000000), (SV_NEG, = -3))
TYPEDEF_ENUM (sv_small_t, ATTRIBUTES (__attribute__ ((packed))), SV_S0, SV_S1, (SV_S200, = 200))
TYPEDEF_ENUM (sv_flags_t, ATTRIBUTES (__attribute__ ((packed))),
	      (SV_F_NONE, = 0), (SV_F_A, = 1), (SV_F_B, = 2), (SV_F_C, = 4), (SV_F_D, = 8), (SV_F_H, = 128))
TYPEDEF_ENUM (sv_kind_t, (SV_K_INT, , "ival"), (SV_K_STR, , "sval"), (SV_K_PT, , "pt"), (SV_K_PTR, , "node"), (SV_K_D, , "dval"))

TYPEDEF_STRUCT (sv_scalars_t,
		bool b,
		char c,
		(int8_t, i8),
		(uint8_t, u8),
		(int16_t, i16),
		(uint16_t, u16),
		(int32_t, i32),
		(uint32_t, u32),
		(int64_t, i64),
		(uint64_t, u64),
		(mr_int128_t, i128),
		(mr_uint128_t, u128),
		float f,
		double d,
		(long_double_t, ld),
		(complex float, cf),
		(complex double, cd),
		(complex long double, cld),
		(sv_color_t, color),
		(sv_small_t, small),
		(sv_flags_t, flags),
		)

TYPEDEF_STRUCT (sv_point_t, int x, int y, (string_t, tag))

TYPEDEF_STRUCT (sv_bits_t,
		(unsigned int, u1, : 1),
		(unsigned int, u7, : 7),
		(int, s5, : 5),
		(int, s11, : 11),
		(uint64_t, u33, : 33),
		(int64_t, s29, : 29),
		(bool, b1, : 1),
		(uint8_t, u3, : 3),
		(sv_small_t, e8, : 8),
		int after,
		)

TYPEDEF_STRUCT (sv_arrays_t,
		(int, a1, [4]),
		(int, a2, [2][3]),
		(short, a3, [2][3][4]),
		(char, name, [12]),
		(char, names, [3][6]),
		(string_t, strs, [3]),
		(double, d1, [3]),
		(sv_point_t, pts, [3]),
		(sv_color_t, cols, [2]),
		(bool, bs, [3]),
		)

struct sv_node_t;
TYPEDEF_STRUCT (sv_node_t,
		(int32_t, id),
		(string_t, name),
		(struct sv_node_t *, next),
		(struct sv_node_t *, other),
		(sv_point_t, pt),
		(sv_point_t *, ppt),
		(int32_t *, pid),
		)

TYPEDEF_STRUCT (sv_rsz_t,
		(int32_t *, ints, , , { "ints_size" }, "string"),
		(ssize_t, ints_size),
		(sv_point_t *, pts, , , { .offset = offsetof (sv_rsz_t, pts_size) }, "offset"),
		(uint32_t, pts_size),
		(string_t *, strs, , , { "strs_size" }, "string"),
		(uint16_t, strs_size),
		(sv_node_t **, nodes, , , { "nodes_size" }, "string"),
		(int64_t, nodes_size),
		(double *, ds, , , { "ds_size" }, "string"),
		(int8_t, ds_size),
		(sv_point_t *, one),
		(int32_t *, one_int),
		(uint8_t *, bytes, , , { "bytes_size" }, "string"),
		(int, bytes_size),
		)

TYPEDEF_UNION (sv_val_t,
	       (int64_t, ival),
	       (string_t, sval),
	       (sv_point_t, pt),
	       (sv_node_t *, node),
	       double dval,
	       )

TYPEDEF_STRUCT (sv_un_enum_t, (sv_kind_t, kind), (sv_val_t, val, , "kind"))
TYPEDEF_STRUCT (sv_un_int_t, (sv_val_t, val, , "sel"), (uint8_t, sel))
TYPEDEF_STRUCT (sv_un_str_t, (string_t, branch), (sv_val_t, val, , "branch"))
TYPEDEF_STRUCT (sv_un_bool_t,
		bool is_str,
		ANON_UNION (),
		(int16_t, num),
		(string_t, text),
		END_ANON_UNION ("is_str"),
		)
TYPEDEF_STRUCT (sv_un_named_t,
		(int32_t, code),
		ANON_UNION (body),
		(float, fl),
		(sv_point_t *, ptp),
		(char, raw, [8]),
		END_ANON_UNION ("code", { (mr_ud_override_t[]){{ 100, "ptp" }, { -7, "raw" }} }, "mr_ud_override_t",
				sizeof ((mr_ud_override_t[]){{ 100, "ptp" }, { -7, "raw" }})),
		)
TYPEDEF_STRUCT (sv_unions_t,
		(sv_un_enum_t, ue),
		(sv_un_int_t, ui),
		(sv_un_str_t, us),
		(sv_un_bool_t, ub),
		(sv_un_named_t, un),
		)

TYPEDEF_FUNC (int, sv_fn_t, (int))

TYPEDEF_STRUCT (sv_ptrs_t,
		(char *, s1),
		(string_t, s2),
		(int16_t *, pi),
		(double *, pd),
		(sv_color_t *, pe),
		(string_t *, ps),
		(int32_t **, ppi),
		(sv_point_t **, ppp),
		(sv_scalars_t *, psc),
		(void *, vp),
		(sv_fn_t, fn),
		(char *, ch, , , .stype.mr_type = MR_TYPE_POINTER),
		)

TYPEDEF_STRUCT (sv_typed_t,
		(string_t, type),
		(mr_ptr_t, obj, , "type"),
		)

TYPEDEF_STRUCT (sv_tree_t,
		(string_t, label),
		(struct sv_tree_t *, left),
		(struct sv_tree_t *, right),
		(struct sv_tree_t *, parent),
		(sv_un_enum_t, val),
		(sv_rsz_t, rsz),
		)

TYPEDEF_STRUCT (sv_root_t,
		(sv_scalars_t *, sc),
		(sv_bits_t *, bits),
		(sv_arrays_t *, arr),
		(sv_node_t *, list),
		(sv_node_t *, list2),
		(sv_rsz_t *, rsz),
		(sv_unions_t *, uni),
		(sv_ptrs_t *, ptrs),
		(sv_typed_t *, typed),
		(sv_tree_t *, tree),
		(sv_point_t, pt),
		(string_t, title),
		)

/* strings held inline, arrays limited by a field, discriminators of other kinds and in other places */
TYPEDEF_STRUCT (sv_chain_t, (sv_val_t, val, , "disc"), (struct sv_chain_t *, next))
TYPEDEF_STRUCT (sv_ext_t,
		(char, inl, [10], , .stype.mr_type = MR_TYPE_CHAR_ARRAY, .stype.is_array = false),
		(char, inl2, [4], , .stype.mr_type = MR_TYPE_CHAR_ARRAY, .stype.is_array = false),
		(string_t, alias),
		(int32_t, lim, [8], , { .offset = offsetof (sv_ext_t, lim_size) }, "offset"),
		(uint8_t, lim_size),
		(sv_point_t *, parr, [3]),
		(sv_kind_t, ukind),
		(sv_val_t, uarr, [2], "ukind"),
		(sv_val_t *, up, , "ukind"),
		(char *, sub, , , { .offset = offsetof (sv_ext_t, sub_len) }, "offset", .stype.mr_type = MR_TYPE_POINTER),
		(size_t, sub_len),
		(char, cdisc, [6], , .stype.mr_type = MR_TYPE_CHAR_ARRAY, .stype.is_array = false),
		(sv_val_t, cval, , "cdisc"),
		(unsigned int, bdisc, : 3),
		(sv_val_t, bval, , "bdisc"),
		int disc,
		(sv_chain_t *, chain),
		VOID (int, skipped),
		)

/* further kinds of enumerations, discriminators, size fields, overlapping arrays, arrays of inline strings */
TYPEDEF_ENUM (sv_e8_t, ATTRIBUTES (__attribute__ ((packed))), (SV_E8_A, = -100), (SV_E8_B, = 100), (SV_E8_C, = 0))
TYPEDEF_ENUM (sv_e16_t, ATTRIBUTES (__attribute__ ((packed))), (SV_E16_A, = -30000), (SV_E16_B, = 30000), (SV_E16_C, = 1))
TYPEDEF_ENUM (sv_eu16_t, ATTRIBUTES (__attribute__ ((packed))), (SV_EU16_A, = 0), (SV_EU16_B, = 60000))
TYPEDEF_ENUM (sv_e64_t, (SV_E64_A, = -1), (SV_E64_B, = 1LL << 40), (SV_E64_C, = 7))
TYPEDEF_ENUM (sv_eu64_t, (SV_EU64_A, = 0), (SV_EU64_B, = ~0ULL), (SV_EU64_C, = 3))
TYPEDEF_ENUM (sv_esz_t, (SV_ESZ_0, = 0), (SV_ESZ_8, = 8), (SV_ESZ_24, = 24))

TYPEDEF_STRUCT (sv_dwrap_t, (string_t, branch), (int, extra))
TYPEDEF_STRUCT (sv_disc_t,
		(sv_kind_t *, dpk),
		(sv_val_t, v1, , "dpk"),
		(int8_t, dar, [2]),
		(sv_val_t, v2, , "dar"),
		(sv_kind_t, dbk, : 4),
		(sv_val_t, v3, , "dbk"),
		(mr_uint128_t, d128),
		(sv_val_t, v4, , "d128"),
		(sv_dwrap_t, dst),
		(sv_val_t, v5, , "dst"),
		(int64_t, di),
		(sv_val_t, v6, , "di", { (mr_ud_override_t[]){{ -1, "sval" }, { 7, "pt" }} }, "mr_ud_override_t",
		 sizeof ((mr_ud_override_t[]){{ -1, "sval" }, { 7, "pt" }})),
		(string_t *, dps),
		(sv_val_t, v7, , "dps"),
		(bool, dbool),
		(sv_val_t, v8, , "dbool"),
		(sv_val_t, v9, , "sv_no_such_field"),
		(uint8_t *, dars, [2]),
		(sv_val_t, v10, , "dars"),
		(sv_kind_t, dk),
		(sv_val_t, v11, , "dk", { (mr_ud_override_t[]){{ SV_K_STR, "dval" }} }, "mr_ud_override_t", sizeof ((mr_ud_override_t[]){{ SV_K_STR, "dval" }})),
		)

TYPEDEF_STRUCT (sv_sz_t,
		(int32_t *, a, , , { "a_sz" }, "string"),
		(unsigned int, a_sz, : 9),
		(int16_t *, b, , , { "b_sz" }, "string"),
		(mr_uint128_t, b_sz),
		(int32_t *, c, , , { "c_sz" }, "string"),
		(uint16_t *, c_sz),
		(double *, d, , , { "d_sz" }, "string"),
		(sv_esz_t, d_sz),
		(sv_point_t *, e, , , { "e_sz" }, "string"),
		(char, e_sz),
		(string_t *, f, , , { "f_sz" }, "string"),
		VOID (uint16_t, f_sz),
		)

/* unions with different discriminators further up */
TYPEDEF_STRUCT (sv_many_t,
		(sv_val_t, m0, , "md0"), (sv_val_t, m1, , "md1"), (sv_val_t, m2, , "md2"), (sv_val_t, m3, , "md0"), (sv_val_t, m4, , "md1"),
		(sv_val_t, m5, , "md2"), (sv_val_t, m6, , "md0"), (sv_val_t, m7, , "md1"), (sv_val_t, m8, , "md2"), (sv_val_t, m9, , "md0"),
		(sv_val_t, ma, , "md1"), (sv_val_t, mb, , "md2"), (sv_val_t, mc, , "md0"), (sv_val_t, md, , "md1"), (sv_val_t, me, , "md2"))

TYPEDEF_STRUCT (sv_win_t,
		(sv_point_t *, w0, , , { "w0_size" }, "string"), (int, w0_size), (sv_point_t *, w1, , , { "w1_size" }, "string"), (int, w1_size),
		(sv_point_t *, w2, , , { "w2_size" }, "string"), (int, w2_size), (sv_point_t *, w3, , , { "w3_size" }, "string"), (int, w3_size),
		(sv_node_t *, n0, , , { "n0_size" }, "string"), (int, n0_size), (sv_node_t *, n1, , , { "n1_size" }, "string"), (int, n1_size),
		(sv_node_t *, n2, , , { "n2_size" }, "string"), (int, n2_size),
		(sv_point_t *, single), (sv_node_t *, nsingle))

TYPEDEF_ENUM (sv_m8_t, ATTRIBUTES (__attribute__ ((packed))), (SV_M8_A, = 1), (SV_M8_B, = 2), (SV_M8_C, = 64), (SV_M8_N, = -128))
TYPEDEF_ENUM (sv_m16_t, ATTRIBUTES (__attribute__ ((packed))), (SV_M16_Z, = 0), (SV_M16_A, = 256), (SV_M16_B, = 0x4000), (SV_M16_N, = -32768))
TYPEDEF_ENUM (sv_m32_t, (SV_M32_A, = 1), (SV_M32_B, = 1 << 16), (SV_M32_C, = 1 << 30), (SV_M32_N, = -0x7fffffff - 1))
TYPEDEF_ENUM (sv_m64_t, (SV_M64_Z, = 0), (SV_M64_A, = 2), (SV_M64_B, = 1LL << 33), (SV_M64_N, = 1ULL << 63))
TYPEDEF_ENUM (sv_m64s_t, (SV_M64S_A, = 4), (SV_M64S_B, = 1LL << 62), (SV_M64S_N, = -0x7fffffffffffffffLL - 1))
TYPEDEF_ENUM (sv_mu_t, (SV_MU_A, = 1), (SV_MU_B, = 2), (SV_MU_C, = 8))
TYPEDEF_STRUCT (sv_masks_t,
		(sv_m8_t, m8), (sv_m16_t, m16), (sv_m32_t, m32), (sv_m64_t, m64), (sv_m64s_t, m64s), (sv_mu_t, mu),
		(sv_m8_t, b8, : 8), (sv_m32_t, b32, : 32), (sv_mu_t, bu, : 4), (sv_mu_t, bu5, : 5), (sv_flags_t, bfl, : 8),
		(sv_m16_t, a16, [2]), (sv_m64s_t *, p64))

typedef char sv_carr_t[12];
MR_TYPEDEF_DESC_BI (sv_carr_t);
TYPEDEF_UNION (sv_nest_t, (sv_un_enum_t, ue), (sv_win_t *, win), (sv_point_t, pts, [2]), (sv_un_str_t, us))
TYPEDEF_STRUCT (sv_more_t,
		(sv_e8_t, e8), (sv_e16_t, e16), (sv_eu16_t, eu16), (sv_e64_t, e64), (sv_eu64_t, eu64), (sv_flags_t, left), (sv_e8_t, e8a, [3]),
		(sv_many_t *, pmany),
		(sv_many_t, many),
		(int, md0), (int, md1),
		(string_t, md2),
		(sv_disc_t, disc),
		(sv_sz_t, sz),
		(sv_win_t, win),
		(sv_win_t *, pwin),
		(sv_carr_t, ca),
		(sv_carr_t *, pca),
		(sv_carr_t *, cas, , , { "cas_size" }, "string"), (int, cas_size),
		(uint8_t, nkind), (sv_nest_t, nest, , "nkind"),
		(int, fnp, (int)),
		(sv_masks_t, masks),
		)

/* arrays that are saved, copied and compared on their own */
TYPEDEF_STRUCT (sv_rown_t, (sv_node_t, a, [3]))
TYPEDEF_STRUCT (sv_rowt_t, (sv_tree_t, a, [2]))
TYPEDEF_STRUCT (sv_rowe_t, (sv_un_enum_t, a, [3]))
TYPEDEF_STRUCT (sv_rows_t, (string_t, a, [4]))
TYPEDEF_STRUCT (sv_rowi_t, (int32_t, a, [5]))
TYPEDEF_STRUCT (sv_rowc_t, (sv_color_t, a, [2]))
/* a union on its own: no discriminator, the first branch */
TYPEDEF_STRUCT (sv_uval_t, (sv_val_t, v))

extern int sv_fn_a (int), sv_fn_b (int), sv_fn_c (int);
#endif
