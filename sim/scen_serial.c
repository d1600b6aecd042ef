#define _GNU_SOURCE
#include "core.h"
#include "model.h"
#include "fmt.h"
#include "scen.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <dlfcn.h>
#include <libxml/xmlerror.h>

/* ------------------------------------------------------------------ shared pieces */
int
pick_rt (void)
{
  static const int w[] = { RT_ROOT, RT_ROOT, RT_ROOT, RT_SCALARS, RT_BITS, RT_ARRAYS, RT_NODE, RT_NODE, RT_RSZ, RT_RSZ, RT_UNIONS, RT_UNIONS, RT_PTRS, RT_PTRS,
    RT_TYPED, RT_TREE, RT_TREE, RT_POINT, RT_EXT, RT_EXT, RT_MORE, RT_MORE, RT_MORE };
  return w[draw (T_W, sizeof (w) / sizeof (w[0]))];
}

int
pick_root (int fm, bool load)
{
  if (draw (T_W, 7) != 6)
    return pick_rt ();
  /* there is no loader for arrays: a CINIT document of one is loaded as a part of a structure */
  bool rows = !load || fm == FM_CINIT;
  if (rows && draw (T_W, 2))
    return RT_ROWN + draw (T_W, RT_BASIC - RT_ROWN);
  return RT_BASIC + draw (T_W, RT_ALL - RT_BASIC);
}

/* what the documentation lets an application put into an object graph that it stores */
void
draw_cfg (int fm)
{
  gen_cfg = (gen_cfg_t) { 0 };
  gen_cfg.alphabet = draw (T_W, 3) ? fm_alphabet[fm] : AL_PLAIN;
  static const uint32_t budgets[] = { 4, 8, 16, 40, 120 };
  gen_cfg.budget = budgets[draw (T_W, 5)];
  gen_cfg.share = draw (T_W, 4) != 0;
  gen_cfg.interior = gen_cfg.share && draw (T_W, 2);
  gen_cfg.overlap = gen_cfg.interior && draw (T_W, 2);
  gen_cfg.swap = gen_cfg.share && draw (T_W, 2);
  gen_cfg.str_in_array = gen_cfg.interior && draw (T_W, 2);
  gen_cfg.dirty = draw (T_W, 2);
  gen_cfg.voidp = draw (T_W, 2);
  gen_cfg.funcs = draw (T_W, 2);
  gen_cfg.nan = draw (T_W, 2);
  gen_cfg.text_floats = false;
  static const uint32_t ms[] = { 24, 24, 24, 80, 700 };
  gen_cfg.max_str = ms[draw (T_W, 5)];
}

const char *
rt_of (int fm, int rt)
{
  return cfmt ("%s of %s", fm_name[fm], ops[rt].name);
}

static void
ev_doc (const char *what, doc_t d)
{
  ev ("%s ok=%d len=%zu", what, d.ok, d.len);
  if (d.ok)
    ev_data (what, d.data, d.len);
}


/* blocks taken from the C library's heap behind the configured memory functions during one operation */
void
libc_begin (void)
{
  /* the last error of the dynamic linker is kept by the C library */
  dlsym (RTLD_DEFAULT, "no such symbol");
  dlerror ();
  dlerror ();
  xmlResetLastError ();
  libc_watch (true);
}

void
libc_end (const char *cls, const char *what)
{
  dlerror ();
  dlerror ();
  xmlResetLastError ();
  int64_t n = libc_live;
  libc_watch (false);
  if (n > 0)
    violate (cls, "%s: %lld block(s) of the C library's heap never released", what, (long long)n);
}

/* an operation unrelated to the object under test, possibly failing: histories differ, results must not */
static void
other_activity (void)
{
  uint32_t n = draw (T_F, 4);
  while (n--)
    {
      gen_cfg_t keep = gen_cfg;
      int rt = draw (T_F, RT_N), fm = draw (T_F, FM_N);
      gen_cfg = (gen_cfg_t) { .alphabet = AL_PLAIN, .budget = 6, .share = true, .voidp = true, .funcs = true, .max_str = 16, .text_floats = true };
      gen_reset ();
      void *o = gen_root (rt);
      gen_cfg = keep;
      alloc_ops = 0;
      if (draw (T_F, 2))
	faults_arm (faults_draw (200));
      doc_t d = op_save (rt, fm, o);
      faults_off ();
      if (d.ok)
	{
	  void *dst = h_alloc (ops[rt].size);
	  bool damaged = draw (T_F, 3) == 0 && d.len > 2;
	  if (damaged)
	    d.data[draw (T_F, d.len - 1)] = fm == FM_XDR ? 0 : ' ';
	  if (draw (T_F, 2))
	    faults_arm (faults_draw (300));
	  int ok = op_load (rt, fm, d, dst);
	  faults_off ();
	  ev ("other activity: %s, load %d", rt_of (fm, rt), ok);
	  if (ok && !damaged)	/* an accepted damaged document may have changed what owns what */
	    ops[rt].free (dst);
	}
      doc_free (&d);
    }
}

/* ------------------------------------------------------------------ P01: save is all or nothing under allocation failures */
/* names of functions are remembered in some runs; what the library keeps for that is not a leak */
static void cache_draw (void) { mr_conf.cache_func_resolve = lib_keeps = draw (T_F, 4) == 3; }

void
sc_save_faults (void)
{
  int fm = draw (T_W, FM_N), rt = pick_root (fm, false);
  cache_draw ();
  layout_draw ();
  draw_cfg (fm);
  gen_reset ();
  void *a = gen_root (rt);
  msg_allocates = draw (T_F, 4) == 3;
  ev ("save %s blocks=%u", rt_of (fm, rt), gen_blocks ());
  uint64_t h0 = raw_hash (rt, a);
  alloc_ops = 0;
  doc_t ref = op_save (rt, fm, a);
  uint64_t n = alloc_ops;
  ev_doc ("fault-free", ref);
  if (!ref.ok)
    violate ("save-failed", "%s save reports failure without any fault", rt_of (fm, rt));
  uint32_t rounds = 2 + draw (T_F, 6);
  while (rounds--)
    {
      afault_t f = faults_draw (n);
      mark_t m = live_mark ();
      uint64_t seen = msgs_seen;
      libc_begin ();
      faults_arm (f);
      doc_t d = op_save (rt, fm, a);
      faults_off ();
      libc_end ("save-libc-leak", cfmt ("%s save (%s)", rt_of (fm, rt), afault_str (f)));
      COUNT (ops);
      ev ("save under %s: fired %llu", afault_str (f), (unsigned long long)faults_fired);
      ev_doc ("result", d);
      if (raw_hash (rt, a) != h0)
	violate ("source-modified", "%s save changed the object it was saving (%s)", rt_of (fm, rt), afault_str (f));
      leak_check (m, "save-leak", cfmt ("%s save, %s", rt_of (fm, rt), d.ok ? "successful" : "failed"));
      if (d.ok)
	{
	  if (!doc_equal (d, ref))
	    violate (cfmt ("save-silently-wrong:%s", fm_name[fm]), "%s save reports success but its output differs from the fault-free one (%s; last failed request in %s:%d): %zu bytes instead of %zu",
		     rt_of (fm, rt), afault_str (f), last_fault_func, last_fault_line, d.len, ref.len);
	  if (faults_fired)
	    COUNT (probe_fault_absorbed);
	}
      else
	{
	  if (!faults_fired)
	    violate ("save-failed", "%s save reports failure without any fault", rt_of (fm, rt));
	  COUNT (probe_fail_reported);
	  COUNT (op_failed);
	  (void)seen;
	}
      if (faults_fired)
	nontrivial ();
      doc_free (&d);
      sig_mix (f.k + (d.ok << 20) + ((uint64_t)fm << 24));
    }
  doc_t d = op_save (rt, fm, a);
  if (!doc_equal (d, ref))
    violate ("save-retry-differs", "%s save after the faults stopped: %s", rt_of (fm, rt), d.ok ? "different output" : "failure");
  COUNT (probe_retry_ok);
}

/* ------------------------------------------------------------------ P02: load is all or nothing under allocation failures */
void
sc_load_faults (void)
{
  int fm = draw (T_W, FM_N), rt = pick_root (fm, true);
  layout_draw ();
  draw_cfg (fm);
  gen_reset ();
  void *a = gen_root (rt);
  msg_allocates = draw (T_F, 4) == 3;
  canon_t ca = canon (rt, a);
  char *want = strndup (ca.s, ca.len);
  ca.s = want;
  doc_t doc = op_save (rt, fm, a);
  ev_doc ("doc", doc);
  if (!doc.ok)
    violate ("save-failed", "%s save reports failure without any fault", rt_of (fm, rt));
  COUNT (fault_crash_restart);
  layout_draw ();
  void *b = h_alloc (ops[rt].size);
  memset (b, 0x5a, ops[rt].size);
  mark_t m = live_mark ();
  alloc_ops = 0;
  if (!op_load (rt, fm, doc, b))
    violate ("load-failed", "%s load reports failure without any fault", rt_of (fm, rt));
  uint64_t n = alloc_ops;
  ops[rt].free (b);
  leak_check (m, "free-leak", cfmt ("%s loaded and released", rt_of (fm, rt)));
  uint32_t rounds = 2 + draw (T_F, 6);
  while (rounds--)
    {
      afault_t f = faults_draw (n);
      memset (b, 0x5a, ops[rt].size);
      libc_begin ();
      faults_arm (f);
      int ok = op_load (rt, fm, doc, b);
      faults_off ();
      libc_end ("load-libc-leak", cfmt ("%s load (%s)", rt_of (fm, rt), afault_str (f)));
      uint64_t fired = faults_fired;
      const char *ff = last_fault_func;
      int fl = last_fault_line;
      COUNT (ops);
      ev ("load under %s: fired %llu, %d", afault_str (f), (unsigned long long)fired, ok);
      if (ok)
	{
	  canon_t cb = canon (rt, b);
	  if (!canon_equal (ca, cb))
	    canon_compare (ca, cb, cfmt ("load-silently-wrong:%s", fm_name[fm]), cfmt ("%s load reports success (%s; last failed request in %s:%d)", rt_of (fm, rt), afault_str (f), ff, fl));
	  ownership_check (m, rt, b, "load-leak", cfmt ("%s load (%s)", rt_of (fm, rt), afault_str (f)));
	  if (fired)
	    COUNT (probe_fault_absorbed);
	}
      else
	{
	  if (!fired)
	    violate ("load-failed", "%s load reports failure without any fault", rt_of (fm, rt));
	  /* the caller may inspect and release the destination of a failed load */
	  canon_t cb = canon (rt, b);
	  ev_data ("failed load leaves", cb.s, cb.len);
	  COUNT (probe_fail_reported);
	  COUNT (op_failed);
	}
      if (!ops[rt].free (b))
	violate ("free-failed", "%s: the object cannot be released after a %s load (%s)", rt_of (fm, rt), ok ? "successful" : "failed", afault_str (f));
      leak_check (m, ok ? "free-leak" : "load-leak", cfmt ("%s load (%s, %s), object released", rt_of (fm, rt), afault_str (f), ok ? "success" : "failure"));
      if (fired)
	nontrivial ();
      sig_mix (f.k + ((uint64_t)ok << 20) + ((uint64_t)fm << 24));
    }
  if (!op_load (rt, fm, doc, b))
    violate ("load-retry-fails", "%s load fails after the faults stopped", rt_of (fm, rt));
  canon_compare (ca, canon (rt, b), "load-retry-differs", rt_of (fm, rt));
  COUNT (probe_retry_ok);
}

/* ------------------------------------------------------------------ P03: round trip of arbitrary graphs through every format */
void
sc_roundtrip (void)
{
  int fm = draw (T_W, FM_N), rt = pick_root (fm, true);
  cache_draw ();
  layout_draw ();
  draw_cfg (fm);
  gen_reset ();
  void *a = gen_root (rt);
  ev ("roundtrip %s %s blocks=%u", fm_name[fm], ops[rt].name, gen_blocks ());
  mark_t m0 = live_mark ();
  canon_t ca = canon (rt, a);
  ev_data ("object", ca.s, ca.len);
  char *want = strndup (ca.s, ca.len);
  ca.s = want;
  doc_t d = op_save (rt, fm, a);
  ev_doc ("doc", d);
  if (!d.ok)
    violate ("save-failed", "%s save of %s reports failure without any fault", fm_name[fm], ops[rt].name);
  leak_check (m0, "save-leak", "save");
  /* the process that loads is another one: other heap layout, no caches to share but the type tables */
  COUNT (fault_crash_restart);
  layout_draw ();
  void *b = h_alloc (ops[rt].size);
  memset (b, 0x5a, ops[rt].size);
  mark_t m1 = live_mark ();
  int ok = op_load (rt, fm, d, b);
  if (!ok)
    violate (cfmt ("load-rejects-own-output:%s", fm_name[fm]), "%s load rejects the document its own save produced", fm_name[fm]);
  canon_t cb = canon (rt, b);
  ev_data ("loaded", cb.s, cb.len);
  canon_compare (ca, cb, cfmt ("roundtrip-differs:%s", fm_name[fm]), fm_name[fm]);
  ownership_check (m1, rt, b, "load-leak", cfmt ("%s load", fm_name[fm]));
  if (!gen_cfg.share && !gen_cfg.voidp)
    {
      /* without references to the object itself it may also be returned by value */
      mr_rarray_t ra = { .data = { d.data }, .MR_SIZE = d.len + (fm != FM_XDR), .alloc_size = d.len + 1, .type = fm == FM_XDR ? "uint8_t" : "string" };
      memset (b, 0x5a, ops[rt].size);
      m1 = live_mark ();
      ops[rt].load_val (fm, &ra, b);
      canon_compare (ca, canon (rt, b), cfmt ("roundtrip-differs:%s", fm_name[fm]), fm_name[fm]);
      ownership_check (m1, rt, b, "load-leak", cfmt ("%s load", fm_name[fm]));
    }
  if (ca.regions > 1 || ca.strings)
    nontrivial ();
  sig_mix (ca.h + fm);
  COUNT (op_ok);
}

/* ------------------------------------------------------------------ P04: the output depends on the object alone */
void
sc_deterministic (void)
{
  int fm = draw (T_W, FM_N), rt = pick_root (fm, false);
  draw_cfg (fm);
  uint32_t at = tape_mark (T_W);
  doc_t ref = { 0 };
  uint64_t hash = 0;
  int i, n = 2 + draw (T_F, 3);
  cache_draw ();
  for (i = 0; i < n; ++i)
    {
      layout_draw ();
      if (draw (T_F, 2))
	other_activity ();
      tape_rewind (T_W, at);
      gen_reset ();
      gen_cfg.dirty = draw (T_L, 2);
      void *a = gen_root (rt);
      if (draw (T_F, 2))
	{
	  /* the object itself has been saved before, in another format, perhaps unsuccessfully */
	  if (draw (T_F, 2))
	    faults_arm (faults_draw (100));
	  doc_t x = op_save (rt, draw (T_F, FM_N), a);
	  faults_off ();
	  doc_free (&x);
	}
      doc_t d = op_save (rt, fm, a);
      ev_doc ("doc", d);
      if (!d.ok)
	violate ("save-failed", "%s save reports failure without any fault", rt_of (fm, rt));
      uint64_t h = ops[rt].hash (a);
      if (i == 0)
	{
	  ref = d;
	  hash = h;
	}
      else
	{
	  if (!doc_equal (d, ref))
	    {
	      size_t k = 0;
	      while (k < d.len && k < ref.len && d.data[k] == ref.data[k])
		++k;
	      size_t from = k > 40 ? k - 40 : 0;
	      violate (cfmt ("output-differs:%s", fm_name[fm]), "%s: two equal objects at different addresses are saved differently at byte %zu: ...%.*s... and ...%.*s...", rt_of (fm, rt), k,
		       (int)(ref.len - from > 80 ? 80 : ref.len - from), ref.data + from, (int)(d.len - from > 80 ? 80 : d.len - from), d.data + from);
	    }
	  if (h != hash && !gen_cfg.funcs)
	    violate ("hash-differs", "%s: two equal objects at different addresses have different hash values", ops[rt].name);
	}
      COUNT (ops);
    }
  if (ref.len > 40)
    nontrivial ();
  sig_mix (hash64 (ref.data, ref.len, fm));
}

/* ------------------------------------------------------------------ P08: deep copy */
void
sc_copy (void)
{
  int rt = pick_root (-1, false);
  layout_draw ();
  draw_cfg (FM_XDR);
  gen_reset ();
  void *a = gen_root (rt);
  msg_allocates = draw (T_F, 4) == 3;
  canon_t ca = canon (rt, a);
  ev_data ("source", ca.s, ca.len);
  char *want = strndup (ca.s, ca.len);
  ca.s = want;
  uint64_t h0 = raw_hash (rt, a);
  mark_t m = live_mark ();
  void *b = h_alloc (ops[rt].size);
  uint64_t n = 0;
  int i, rounds = 1 + draw (T_F, 6), ok = 0;
  for (i = 0; i <= rounds; ++i)
    {
      /* first and last without faults; the last copy stays for the checks below */
      afault_t f = { 0, 0, 0 };
      if (i > 0 && i < rounds)
	f = faults_draw (n);
      memset (b, 0x5a, ops[rt].size);
      faults_arm (f);
      ok = ops[rt].copy (a, b);
      if (i == 0)
	n = alloc_ops;
      faults_off ();
      uint64_t fired = faults_fired;
      const char *how = cfmt ("copy of %s (%s%s)", ops[rt].name, afault_str (f), fired ? cfmt ("; last failed request in %s:%d", last_fault_func, last_fault_line) : "");
      COUNT (ops);
      ev ("%s: %d fired %llu", how, ok, (unsigned long long)fired);
      if (raw_hash (rt, a) != h0)
	violate ("copy-modifies-source", "%s changed its source", how);
      if (!ok)
	{
	  if (!fired)
	    violate ("copy-failed", "%s reports failure without any fault", how);
	  leak_check (m, "copy-leak", how);
	  COUNT (probe_fail_reported);
	  nontrivial ();
	  continue;
	}
      canon_t cb = canon (rt, b);
      canon_compare (ca, cb, fired ? "copy-silently-wrong" : "copy-differs", how);
      ownership_check (m, rt, b, "copy-leak", how);
      if (fired)
	COUNT (probe_fault_absorbed);
      if (i < rounds)
	{
	  if (!ops[rt].free (b))
	    violate ("free-failed", "%s cannot be released", how);
	  if (raw_hash (rt, a) != h0)
	    violate ("copy-shares-source", "releasing the %s changed the source", how);
	  leak_check (m, "free-leak", how);
	}
    }
  /* independence: whatever happens to the source afterwards, the copy keeps its value */
  if (ca.regions > 1 || ca.strings)
    nontrivial ();
  gen_scribble (rt, a);
  canon_compare (ca, canon (rt, b), "copy-not-independent", cfmt ("copy of %s after its source was overwritten", ops[rt].name));
  if (!ops[rt].free (b))
    violate ("free-failed", "copy of %s cannot be released", ops[rt].name);
  leak_check (m, "free-leak", cfmt ("copy of %s", ops[rt].name));
  sig_mix (ca.h);
}

/* ------------------------------------------------------------------ P09: recursive release */
void
sc_free (void)
{
  int rt = pick_root (-1, false);
  layout_draw ();
  draw_cfg (FM_XDR);
  gen_cfg.lib_alloc = true;
  gen_reset ();
  mark_t m = live_mark ();
  void *a = gen_root (rt);
  msg_allocates = draw (T_F, 4) == 3;
  blk_t *bl[1];
  size_t owned = live_after (m, bl, 1);
  canon_t ca = canon (rt, a);
  ev_data ("object", ca.s, ca.len);
  ev ("owned blocks %zu", owned);
  char *want = strndup (ca.s, ca.len);
  ca.s = want;
  /* bystanders: memory of the application that the object does not own */
  char *by[4];
  int i, rounds = draw (T_F, 5);
  for (i = 0; i < 4; ++i)
    {
      by[i] = sim_calloc ("", "bystander", 0, 1, 24);
      memset (by[i], 0x40 + i, 24);
    }
  uint64_t n = 40;
  bool done = false;
  for (i = 0; i <= rounds && !done; ++i)
    {
      afault_t f = { 0, 0, 0 };
      if (i < rounds)
	f = faults_draw (n);
      faults_arm (f);
      int ok = ops[rt].free (a);
      n = alloc_ops;
      faults_off ();
      const char *how = cfmt ("release of %s (%s%s)", ops[rt].name, afault_str (f), faults_fired ? cfmt ("; last failed request in %s:%d", last_fault_func, last_fault_line) : "");
      ev ("%s: %d", how, ok);
      COUNT (ops);
      size_t left = live_after (m, bl, 1);
      if (ok)
	{
	  if (left > 4)
	    violate ("free-leak", "%s reports success, %zu of %zu blocks are still allocated", how, left - 4, owned);
	  if (left < 4)
	    violate ("free-foreign", "%s released memory that is not part of the object", how);
	  done = true;
	  if (faults_fired)
	    COUNT (probe_fault_absorbed);
	}
      else
	{
	  if (!faults_fired)
	    violate ("free-failed", "%s reports failure without any fault", how);
	  if (left != owned + 4)
	    violate ("free-partial", "%s reports failure but %zu of %zu blocks are gone", how, owned + 4 - left, owned);
	  canon_compare (ca, canon (rt, a), "free-modifies", how);
	  COUNT (probe_fail_reported);
	}
      if (faults_fired)
	nontrivial ();
    }
  for (i = 0; i < 4; ++i)
    {
      int j;
      if (!blk_find (by[i]))
	violate ("free-foreign", "release of %s released memory that is not part of the object", ops[rt].name);
      for (j = 0; j < 24; ++j)
	if (by[i][j] != 0x40 + i)
	  violate ("free-foreign", "release of %s wrote to memory that is not part of the object", ops[rt].name);
    }
  if (owned > 1)
    nontrivial ();
  sig_mix (ca.h);
}

/* ------------------------------------------------------------------ P10: hash and comparison agree with equality of values */
static int sgn (int x) { return (x > 0) - (x < 0); }
void
sc_hash_cmp (void)
{
  int rt = pick_root (-1, false), i, j, k;
  enum { N = 5 };
  void *o[N];
  canon_t c[N];
  uint64_t h[N];
  draw_cfg (FM_XDR);
  gen_cfg.signed_zero = draw (T_W, 2);
  cache_draw ();
  bool one_leaf = draw (T_W, 3) == 1;
  for (i = 0; i < N; ++i)
    {
      static uint32_t at;
      layout_draw ();
      if (draw (T_F, 3) == 2)
	other_activity ();
      if (i == 0)
	at = tape_mark (T_W);
      uint32_t keep = tape_mark (T_W);
      if (i > 0 && (i < 4 || one_leaf))
	tape_rewind (T_W, at);	/* the same value again at other addresses */
      gen_reset ();
      gen_cfg.dirty = draw (T_L, 2);
      o[i] = gen_root (rt);
      leaf_t leaf = { 0 };
      if (one_leaf)
	leaf = leaf_pick (rt, o[i]);
      if (i > 0 && (i < 4 || one_leaf))
	tape_rewind (T_W, keep);
      const char *what = "";
      if (one_leaf)
	{
	  /* all objects differ in one value only: orders of its values as of a basic type */
	  if (leaf.ty)
	    {
	      leaf_fill (leaf);
	      ev ("value of %s (%s)", leaf.name, leaf.ty->name);
	    }
	}
      /* objects 0 and 1 are equal; 2 and 3 differ from them in one value; 4 is another random object */
      else if (i >= 2 && i < 4)
	mutate_one (rt, o[i], &what);
      canon_t t = canon (rt, o[i]);
      c[i] = t;
      c[i].s = strndup (t.s, t.len);
      ev_data ("object", t.s, t.len);
      h[i] = ops[rt].hash (o[i]);
    }
  mark_t m = live_mark ();
  int cm[N][N];
  for (i = 0; i < N; ++i)
    for (j = 0; j < N; ++j)
      cm[i][j] = sgn (ops[rt].cmp (o[i], o[j]));
  leak_check (m, "cmp-leak", "comparison");
  for (i = 0; i < N; ++i)
    for (j = 0; j < N; ++j)
      {
	bool eq = canon_equal (c[i], c[j]);
	ev ("cmp %d %d = %d (%d)", i, j, cm[i][j], eq);
	COUNT (ops);
	if (eq && cm[i][j])
	  violate ("equal-compare-unequal", "%s: objects with equal contents compare as %d", ops[rt].name, cm[i][j]);
	if (!eq && !cm[i][j])
	  {
	    size_t d = 0;
	    while (d < c[i].len && d < c[j].len && c[i].s[d] == c[j].s[d])
	      ++d;
	    size_t from = d > 60 ? d - 60 : 0;
	    violate ("unequal-compare-equal", "%s: different objects compare equal: ...%.120s... and ...%.120s...", ops[rt].name, c[i].s + from, c[j].s + from);
	  }
	if (eq && h[i] != h[j])
	  violate ("equal-hash-unequal", "%s: objects with equal contents have different hash values", ops[rt].name);
	if (cm[i][j] != -cm[j][i])
	  violate ("cmp-not-antisymmetric", "%s: compare (a, b) = %d and compare (b, a) = %d", ops[rt].name, cm[i][j], cm[j][i]);
	for (k = 0; k < N; ++k)
	  if (cm[i][j] <= 0 && cm[j][k] <= 0 && cm[i][k] > 0)
	    violate ("cmp-not-transitive", "%s: a <= b, b <= c but a > c", ops[rt].name);
      }
  if (c[0].regions > 1 || c[0].strings)
    nontrivial ();
  sig_mix (c[0].h + c[4].h);
}

const scenario_t scenarios[] = {
#define X(p, n, c) { p, #n, sc_##n, c, 1 },
  SCENARIOS (X) SCENARIOS_UP (X)
  { NULL }
};
