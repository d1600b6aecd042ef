/* Printing where the library finds the types itself: the application names the type of every printed expression (normally from debug
   information, here by _Generic, through the hook the header leaves for that), and one default method prints everything. */
#define _GNU_SOURCE
#define MR_OBJ_TYPE(P) _Generic ((P), struct sv_point_t*: "sv_point_t", struct sv_node_t*: "sv_node_t", struct sv_scalars_t*: "sv_scalars_t", \
				 union sv_val_t*: "sv_val_t", \
				 sv_color_t: "sv_color_t", sv_e8_t: "sv_e8_t", sv_small_t: "sv_small_t", sv_e16_t: "sv_e16_t", \
				 sv_eu16_t: "sv_eu16_t", sv_e64_t: "sv_e64_t", sv_eu64_t: "sv_eu64_t", default: (char*)NULL)
#include "core.h"
#include "model.h"
#include "fmt.h"
#include "scen.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <inttypes.h>

typedef struct {
  sv_point_t pt, *ppt, pts[3];
  sv_node_t node, *pnode, *nul, nodes[2];
  sv_scalars_t *psc;
  sv_val_t un;
  void *pv, **pp;
  sv_color_t col;
  sv_e8_t e8;
  sv_small_t sm;
  sv_e16_t e16;
  sv_eu16_t eu16;
  sv_e64_t e64;
  sv_eu64_t eu64;
  char word[16];
  string_t str, strs[3];
  int32_t ints[4];
  uint8_t bytes[3];
  int64_t i64;
  double d;
  bool b;
  complex_double_t cd;
  mr_uint128_t u128;
} pa_t;

typedef struct { int64_t v; char *name; } pa_lit_t;
#define L(V) { V, #V }
static const pa_lit_t pa_color[] = { L (SV_RED), L (SV_GREEN), L (SV_BLUE), L (SV_BLACK), L (SV_NEG), { 0, NULL } };
static const pa_lit_t pa_e8[] = { L (SV_E8_A), L (SV_E8_B), L (SV_E8_C), { 0, NULL } };
static const pa_lit_t pa_small[] = { L (SV_S0), L (SV_S1), L (SV_S200), { 0, NULL } };
static const pa_lit_t pa_e16[] = { L (SV_E16_A), L (SV_E16_B), L (SV_E16_C), { 0, NULL } };
static const pa_lit_t pa_e64[] = { L (SV_E64_A), L (SV_E64_B), L (SV_E64_C), { 0, NULL } };

/* by name, or as a number if no name has the value */
static char *
pa_enum (int64_t v, const pa_lit_t *l)
{
  for (; l->name; ++l)
    if (l->v == v)
      return l->name;
  return hfmt ("%" PRId64, v);
}

#define PA_METHOD CINIT
#define PA_NAME cinit
#define PA_TYPED 1
#include "print_auto.h"
#define PA_METHOD JSON
#define PA_NAME json
#define PA_TYPED 0
#include "print_auto.h"
#define PA_METHOD SCM
#define PA_NAME scm
#define PA_TYPED 0
#include "print_auto.h"
#define PA_METHOD XML
#define PA_NAME xml
#define PA_TYPED 0
#include "print_auto.h"
#define PA_METHOD XML1
#define PA_NAME xml1
#define PA_TYPED 0
#include "print_auto.h"
#define PA_METHOD XML2
#define PA_NAME xml2
#define PA_TYPED 0
#include "print_auto.h"
#define PA_METHOD YAML
#define PA_NAME yaml
#define PA_TYPED 0
#include "print_auto.h"
static const struct { const char *name; int fm; void (*expect) (line_t *, int, pa_t *); int (*print) (FILE *, int, pa_t *); } methods[] = {
  { "CINIT", FM_CINIT, expect_cinit, print_cinit }, { "JSON", FM_JSON, expect_json, print_json }, { "SCM", FM_SCM, expect_scm, print_scm },
  { "XML", FM_XML2, expect_xml, print_xml }, { "XML1", FM_XML1, expect_xml1, print_xml1 }, { "XML2", FM_XML2, expect_xml2, print_xml2 },
  { "YAML", FM_YAML, expect_yaml, print_yaml },
};

void
sc_print_auto (void)
{
  static pa_t a;
  layout_draw ();
  int m = draw (T_W, 7), shape = draw (T_W, 8), i;
  draw_cfg (methods[m].fm);
  gen_reset ();
  memset (&a, 0, sizeof (a));
  a.ppt = gen_root (RT_POINT);
  a.pnode = gen_root (RT_NODE);
  a.psc = gen_root (RT_SCALARS);
  a.un = ((sv_uval_t*)gen_root (RT_VAL))->v;
  a.pt = *a.ppt;
  a.node = *a.pnode;
  for (i = 0; i < 3; ++i)
    a.pts[i] = *(sv_point_t*)gen_root (RT_POINT);
  for (i = 0; i < 2; ++i)
    a.nodes[i] = *(sv_node_t*)gen_root (RT_NODE);
  a.pv = &a;
  a.pp = &a.pv;
  a.col = (sv_color_t[]) { SV_RED, SV_GREEN, SV_BLUE, SV_BLACK, SV_NEG, 77 }[draw (T_W, 6)];
  a.e8 = (sv_e8_t[]) { SV_E8_A, SV_E8_B, SV_E8_C, 7 }[draw (T_W, 4)];
  a.sm = (sv_small_t[]) { SV_S0, SV_S1, SV_S200, 250 }[draw (T_W, 4)];
  a.e16 = (sv_e16_t[]) { SV_E16_A, SV_E16_B, SV_E16_C, -7 }[draw (T_W, 4)];
  a.eu16 = (sv_eu16_t[]) { SV_EU16_A, SV_EU16_B, 65535 }[draw (T_W, 3)];
  a.e64 = (sv_e64_t[]) { SV_E64_A, SV_E64_B, SV_E64_C, -(1LL << 40) }[draw (T_W, 4)];
  a.eu64 = (sv_eu64_t[]) { SV_EU64_A, SV_EU64_B, SV_EU64_C, 1ULL << 63 }[draw (T_W, 4)];
  static const char *const words[] = { "", "x", "word", "100%", "two words", "%s%n" };
  snprintf (a.word, sizeof (a.word), "%s", words[draw (T_W, 6)]);
  a.str = draw (T_W, 4) ? a.word : NULL;
  a.strs[draw (T_W, 3)] = a.word;
  for (i = 0; i < 4; ++i)
    a.ints[i] = (int32_t)draw (T_W, 1000) - 500;
  a.bytes[1] = draw (T_W, 256);
  a.i64 = a.psc->i64;
  a.d = draw (T_W, 1000) / 8.0;
  a.b = draw (T_W, 2);
  a.cd = a.d + 3 * _Complex_I;
  a.u128 = a.psc->u128;
  uint64_t raw = raw_hash (RT_NODE, a.pnode), raw2 = hash64 (&a, sizeof (a), 1);
  line_t l = { .n = 0 };
  methods[m].expect (&l, shape, &a);
  size_t full = 0;
  for (i = 0; i < l.n; ++i)
    full += strlen (l.e[i].alt[0]);
  int rounds;
  uint64_t allocs = 0;
  for (rounds = 3; rounds > 0; --rounds)
    {
      simstream_t s = { .err_at = -1 };
      static const int modes[] = { _IOFBF, _IONBF, _IOLBF };
      afault_t af = { 0 };
      bool ioerr = false;
      if (rounds < 3)
	{
	  if (draw (T_F, 2))
	    af = faults_draw (allocs);
	  if (draw (T_F, 3) == 2 && full)
	    {
	      static const int nos[] = { EIO, ENOSPC, EPIPE };
	      ioerr = true;
	      s.err_at = draw (T_F, full);
	      s.err_no = nos[draw (T_F, 3)];
	    }
	}
      FILE *f = simstream_open (&s, false, modes[draw (T_F, 3)], 1 + draw_log (T_F, 1 << 13));
      mark_t mk = live_mark ();
      libc_begin ();
      alloc_ops = 0;
      faults_arm (af);
      int rv = methods[m].print (f, shape, &a);
      uint64_t fired = faults_fired;
      faults_off ();
      if (rounds == 3)
	allocs = alloc_ops;
      bool bad = ferror (f);
      bad |= fclose (f) != 0;
      libc_watch (false);
      leak_check (mk, "print-leak", cfmt ("printing with %s, shape %d", methods[m].name, shape));
      COUNT (ops);
      const char *how = cfmt ("%s, shape %d, %s", methods[m].name, shape, afault_str (af));
      ev ("print %s: %d, %zu bytes, error %d", how, rv, s.out_len, bad);
      ev_data ("out", s.out ?: "", s.out_len);
      if (!ioerr && bad)
	violate ("print-error", "the stream is in error though nothing failed");
      if (s.errored && !bad)
	violate ("print-error-hidden", "writing failed and the stream does not tell");
      if (!s.errored && (uint64_t)rv != s.out_len)
	violate ("print-count", "%zu bytes printed, %d reported (%s)", s.out_len, rv, how);
      if (!line_match (&l, 0, s.out ?: "", s.out_len, s.errored))
	{
	  char *want = "";
	  for (i = 0; i < l.n; ++i)
	    want = hfmt ("%s%s", want, l.e[i].alt[0]);
	  violate ("print-differs", "%s: printed %zu bytes \"%.300s\", expected %zu bytes \"%.300s\"", how, s.out_len, s.out ? hfmt ("%.*s", (int)s.out_len, s.out) : "", full, want);
	}
      if (!fired && !s.errored && s.out_len != full)
	violate ("print-incomplete", "%s: %zu bytes printed of %zu though nothing failed", how, s.out_len, full);
      if (fired || s.errored)
	nontrivial ();
      sig_mix (s.out_len + ((uint64_t)shape << 32) + ((uint64_t)m << 40) + ((uint64_t)af.k << 44) + (uint64_t)s.errored);
      if (raw_hash (RT_NODE, a.pnode) != raw || hash64 (&a, sizeof (a), 1) != raw2)
	violate ("source-modified", "printing modified the object");
    }
}
