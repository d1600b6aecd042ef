/* Large objects of regular shapes: P21 (work in step with the size), and round trip and copy at sizes and depths
   that the random generator does not reach. */
#include "fmt.h"
#include "scen.h"
#include <mr_ic.h>
#include <mr_hsort.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>

/* what objects consist of.  Sizes go up to max, which is limited by the simulated memory */
#define SHAPES(X)							\
  X (LIST, "list", 2048)						\
  X (BACK, "list with pointers into the previous node", 2048)		\
  X (TREE, "binary tree with parent pointers", 512)			\
  X (NODES, "array of pointers to nodes", 2048)				\
  X (SAME, "array of pointers to one node", 8192)			\
  X (POINTS, "array of structures", 8192)				\
  X (INTS, "array of integers", 16384)					\
  X (STRINGS, "strings", 4096)						\
  X (SHARED, "one string shared by many", 4096)				\
  X (LONG, "long string", 65536)					\
  X (SPECIAL, "long string of characters that need escaping", 16384)	\
  X (CHAIN, "chain of unions resolved at the root", 2048)		\
  X (WINDOWS, "overlapping arrays", 8192)				\
  X (BRANCH, "list of unions resolved one level up", 1024)		\
  X (ANY, "list of structures of several kinds", 1024)			\
  X (VALUES, "list whose nodes are pointed at by unions", 512)		\
  X (SLIDES, "list of windows that slide over one array", 300) /* merging many arrays takes quadratic time: not for P21 */
#define X(n, t, m) SH_##n,
enum { SHAPES (X) SH_N };
#undef X
#define X(n, t, m) { t, m },
static const struct { const char *name; uint32_t max; } shape[SH_N] = { SHAPES (X) };
#undef X

/* ------------------------------------------------------------------ a population of objects somewhere in memory */
static struct { char *base; size_t stride, cap; uint32_t n, *perm; } pop;
static bool draw_dir;
static uint32_t pop_order, pop_stride;
static const char *order_name[] = { "ascending", "descending", "shuffled", "interleaved" };

static void
pop_draw (void)
{
  /* allocators put objects at multiples of 16, in size classes, on pages of their own */
  static const uint32_t strides[] = { 0, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384 };
  pop_order = draw (T_L, 4);
  draw_dir = draw (T_L, 2);
  pop_stride = draw (T_L, 3) ? strides[draw (T_L, 11)] : 16 * draw (T_L, 300);
}

static void
order_fill (uint32_t *p, uint32_t n, uint32_t order)
{
  uint32_t i, j, t;
  uint64_t s = 88172645463325252ull;
  for (i = 0; i < n; ++i)
    p[i] = order == 1 ? n - 1 - i : order == 3 ? (i & 1 ? n - 1 - i / 2 : i / 2) : i;
  if (order == 2)
    for (i = n - 1; i > 0; --i)
      {
	s ^= s << 13, s ^= s >> 7, s ^= s << 17;
	j = s % (i + 1), t = p[i], p[i] = p[j], p[j] = t;
      }
}

static void
pop_begin (uint32_t n, size_t size, uint32_t nmax)
{
  size_t st = (size + 15) & ~(size_t)15;
  /* the same distances at every size, as far as memory reaches */
  if (pop_stride > st)
    st = pop_stride;
  while (st * nmax > ((size_t)24 << 20) && st / 2 >= size)
    st /= 2;
  st = (st + 15) & ~(size_t)15;
  pop.n = n;
  pop.stride = st;
  pop.base = h_alloc (n * st);
  pop.perm = h_alloc (n * sizeof (*pop.perm));
  order_fill (pop.perm, n, pop_order);
}

static void *
pop_obj (uint32_t i)
{
  if (i >= pop.n)
    harness_error ("population too small");
  return pop.base + pop.perm[i] * pop.stride;
}

static int
build (int sh_, uint32_t n, uint32_t nmax, void **obj)
{
  uint32_t i;
  switch (sh_)
    {
    case SH_LIST: case SH_BACK: case SH_VALUES:
      {
	sv_node_t *h = NULL;
	pop_begin (n, sizeof (*h), nmax);
	for (i = 0; i < n; ++i)
	  {
	    sv_node_t *x = pop_obj (i);
	    x->id = i;
	    x->next = h;
	    if (sh_ == SH_BACK && h)
	      h->other = x, x->pid = &h->id, x->ppt = &h->pt;
	    h = x;
	  }
	if (sh_ == SH_VALUES)
	  {
	    sv_root_t *r = h_alloc (sizeof (*r));
	    sv_tree_t *t = NULL;
	    r->list = h;
	    for (i = 0; i < n; ++i)
	      {
		sv_tree_t *y = h_alloc (sizeof (*y));
		y->left = t;
		y->val.kind = SV_K_PTR;
		y->val.val.node = pop_obj (i);
		t = y;
	      }
	    r->tree = t;
	    *obj = r;
	    return RT_ROOT;
	  }
	*obj = h;
	return RT_NODE;
      }
    case SH_SLIDES: case SH_BRANCH: case SH_ANY:
      {
	sv_point_t *p = h_alloc ((n + 8) * sizeof (*p));
	sv_tree_t *t = NULL;
	pop_begin (n, sizeof (*t), nmax);
	for (i = 0; i < n; ++i)
	  {
	    sv_tree_t *x = pop_obj (i);
	    x->left = t;
	    if (sh_ == SH_SLIDES)
	      {
		x->rsz.pts = p + (draw_dir ? n - 1 - i : i);
		x->rsz.pts_size = (1 + i % 8) * sizeof (*p);
	      }
	    else
	      {
		x->val.kind = sh_ == SH_BRANCH ? SV_K_INT : i % 5 == 3 ? 0 : i % 5;
		if (x->val.kind == SV_K_STR)
		  x->val.val.sval = "text";
		x->rsz.one = i % 3 ? &p[i] : NULL;
		x->rsz.one_int = i % 4 == 2 ? &p[i - 1].x : NULL;
	      }
	    t = x;
	  }
	*obj = t;
	return RT_TREE;
      }
    case SH_TREE:
      {
	pop_begin (n, sizeof (sv_tree_t), nmax);
	for (i = 0; i < n; ++i)
	  {
	    sv_tree_t *t = pop_obj (i), *p = i ? pop_obj ((i - 1) / 2) : NULL;
	    t->val.kind = SV_K_INT;
	    t->val.val.ival = i;
	    t->parent = p;
	    if (p && i & 1)
	      p->left = t;
	    else if (p)
	      p->right = t;
	  }
	*obj = pop_obj (0);
	return RT_TREE;
      }
    case SH_CHAIN:
      {
	sv_ext_t *e = h_alloc (sizeof (*e));
	sv_chain_t *c = NULL;
	pop_begin (n, sizeof (*c), nmax);
	for (i = 0; i < n; ++i)
	  {
	    sv_chain_t *x = pop_obj (i);
	    x->next = c;
	    x->val.ival = i;
	    c = x;
	  }
	e->chain = c;
	*obj = e;
	return RT_EXT;
      }
    case SH_LONG: case SH_SPECIAL:
      {
	static const char sp[] = "<&\"'\\ #{[:,-%(\n\t>";
	sv_node_t *x = h_alloc (sizeof (*x));
	x->name = h_alloc (n + 1);
	for (i = 0; i < n; ++i)
	  x->name[i] = sh_ == SH_LONG ? 'a' + i % 26 : sp[i % (sizeof (sp) - 1)];
	*obj = x;
	return RT_NODE;
      }
    case SH_WINDOWS:
      {
	sv_more_t *m = h_alloc (sizeof (*m));
	sv_point_t *p = h_alloc (n * sizeof (*p));
	m->win.w0 = p;
	m->win.w0_size = n / 2 * sizeof (*p);
	m->win.w1 = p + n / 4;
	m->win.w1_size = n / 2 * sizeof (*p);
	m->win.w2 = p + n / 3;
	m->win.w2_size = (n - n / 3) * sizeof (*p);
	m->win.w3 = p + n - 1;
	m->win.w3_size = sizeof (*p);
	*obj = m;
	return RT_MORE;
      }
    }
  sv_rsz_t *r = h_alloc (sizeof (*r));
  *obj = r;
  if (sh_ == SH_POINTS)
    {
      r->pts = h_alloc (n * sizeof (*r->pts));
      r->pts_size = n * sizeof (*r->pts);
      return RT_RSZ;
    }
  if (sh_ == SH_INTS)
    {
      r->ints = h_alloc (n * sizeof (*r->ints));
      r->ints_size = n * sizeof (*r->ints);
      for (i = 0; i < n; ++i)
	r->ints[i] = i * 2654435761u;
      return RT_RSZ;
    }
  r->nodes = h_alloc (n * sizeof (*r->nodes));
  r->nodes_size = n * sizeof (*r->nodes);
  if (sh_ == SH_STRINGS)
    pop_begin (n, 16, nmax);
  else
    pop_begin (n, sizeof (sv_node_t), nmax);
  sv_node_t *all = sh_ == SH_STRINGS ? h_alloc (n * sizeof (*all)) : NULL;
  char *one = h_alloc (8);
  strcpy (one, "shared");
  for (i = 0; i < n; ++i)
    {
      r->nodes[i] = sh_ == SH_STRINGS ? &all[i] : sh_ == SH_SAME ? pop_obj (0) : pop_obj (i);
      r->nodes[i]->id = sh_ == SH_SAME ? 1 : i;
      if (sh_ == SH_STRINGS)
	sprintf (r->nodes[i]->name = pop_obj (i), "s%u", i);
      if (sh_ == SH_SHARED)
	r->nodes[i]->name = one;
    }
  return RT_RSZ;
}

/* ------------------------------------------------------------------ P21: work in step with the size */
enum { OP_SAVE, OP_LOAD, OP_COPY, OP_HASH, OP_CMP, OP_FREE, OP_N };
static const char *op_name[OP_N] = { "save", "load", "copy", "hash", "compare", "free" };

static uint64_t clock_now (void) { return sim_steps + sim_work; }

/* the work one operation takes on an object of n parts */
static size_t doc_len;
static uint64_t
measure (int sh_, int op, int fm, uint32_t n, uint32_t nmax)
{
  void *o, *dst;
  int rt = build (sh_, n, nmax, &o);
  uint64_t t = 0;
  doc_t d = { 0 };
  char *what = (char*)cfmt ("%s of %s, %u parts", op_name[op], shape[sh_].name, n);
  dst = h_alloc (ops[rt].size);
  if (op == OP_SAVE || op == OP_LOAD)
    {
      t = clock_now ();
      d = op_save (rt, fm, o);
      t = clock_now () - t;
      if (!d.ok)
	violate ("large-save", "%s: save as %s fails", what, fm_name[fm]);
      doc_len = d.len;
    }
  if (op == OP_LOAD)
    {
      t = clock_now ();
      int ok = op_load (rt, fm, d, dst);
      t = clock_now () - t;
      if (!ok)
	violate ("large-load", "%s: load of %s fails", what, fm_name[fm]);
      ops[rt].free (dst);
    }
  doc_free (&d);
  if (op == OP_HASH)
    {
      t = clock_now ();
      ops[rt].hash (o);
      t = clock_now () - t;
    }
  if (op == OP_COPY || op == OP_FREE || op == OP_CMP)
    {
      t = clock_now ();
      if (!ops[rt].copy (o, dst))
	violate ("large-copy", "%s: copy fails", what);
      t = clock_now () - t;
      if (op == OP_CMP)
	{
	  t = clock_now ();
	  if (ops[rt].cmp (o, dst))
	    violate ("large-cmp", "%s: a copy differs from its original", what);
	  t = clock_now () - t;
	}
      uint64_t f = clock_now ();
      ops[rt].free (dst);
      if (op == OP_FREE)
	t = clock_now () - f;
    }
  return t;
}

#define FACTOR 8
/* n log n gains 20 to 40 % over the range of sizes used; anything that visits all parts for each part gains several times as much */
#define SLACK 1.5

void
sc_growth (void)
{
  int sh_ = draw (T_W, SH_SLIDES), op = draw (T_W, OP_N), fm = op <= OP_LOAD ? draw (T_W, FM_N) : FM_XDR;
  uint32_t nmax = shape[sh_].max, n1 = nmax - nmax / 4 * draw (T_W, 3), n0 = n1 / FACTOR;
  if (fm == FM_YAML && n1 > 512 && (sh_ == SH_LIST || sh_ == SH_BACK || sh_ == SH_CHAIN))
    n1 = 512 - 128 * (n1 & 1), n0 = n1 / FACTOR;	/* indentation makes the document as large as the square of the depth */
  pop_draw ();
  arena_request = (size_t)32 << 20;
  arena_total = (size_t)90 << 20;
  layout_plain (draw (T_L, 2), 1 + draw (T_L, 2));
  doc_len = 0;
  uint64_t w0 = measure (sh_, op, fm, n0, n1);
  size_t len0 = doc_len;
  uint64_t w1 = measure (sh_, op, fm, n1, n1);
  double factor = FACTOR;
  if (len0 && (double)doc_len / len0 > factor)
    factor = (double)doc_len / len0;
  uint64_t w2 = measure (sh_, op, fm, n0, n1);
  COUNT (ops);
  nontrivial ();
  sig_mix (sh_ * 64 + op * 8 + fm);
  sig_mix (pop_order + pop.stride * 4);
  const char *how = cfmt ("%s%s%s of %s (objects %zu bytes apart, %s)", op_name[op], op <= OP_LOAD ? " as " : "", op <= OP_LOAD ? fm_name[fm] : "",
			  shape[sh_].name, pop.stride, order_name[pop_order]);
  ev ("%s: %u parts %llu, %u parts %llu, again %llu", how, n0, (unsigned long long)w0, n1, (unsigned long long)w1, (unsigned long long)w2);
  if (getenv ("GROW"))
    fprintf (stderr, "X %s %.2f %.2f\n", how, (double)w1 / w0 / factor, (double)w2 / w0);
  if (w1 > w0 * factor * SLACK + 20000)
    violate (cfmt ("growth:%s", op_name[op]), "%s: %u parts take %llu steps and %u parts take %llu, %.1f times as many for %.1f times the size",
	     how, n0, (unsigned long long)w0, n1, (unsigned long long)w1, (double)w1 / w0, factor);
  if (w2 > w0 * SLACK + 20000)
    violate (cfmt ("growth-history:%s", op_name[op]), "%s: %u parts take %llu steps at first and %llu after other operations",
	     how, n0, (unsigned long long)w0, (unsigned long long)w2);
}

/* --- collections, trees and sorting */
typedef struct { uint64_t key; } gkey_t;
static mr_hash_value_t gk_hash (const mr_ptr_t x, const void *c) { (void)c; return (((gkey_t*)x.ptr)->key * 0x9E3779B97F4A7C15ull) >> 32; }
static uint64_t ncmp;
static int
gk_cmp (const mr_ptr_t x, const mr_ptr_t y, const void *c)
{
  (void)c;
  ++ncmp;
  uint64_t a = ((gkey_t*)x.ptr)->key, b = ((gkey_t*)y.ptr)->key;
  return (a > b) - (a < b);
}

static void
ic_measure (mr_ic_type_t type, uint32_t n, uint64_t *w)
{
  uint32_t i;
  mr_ic_t ic;
  memset (&ic, 0, sizeof (ic));
  pop_begin (n, sizeof (gkey_t), n);
  uint32_t *seq = h_alloc (n * sizeof (*seq));
  order_fill (seq, n, draw (T_W, 4));
  for (i = 0; i < n; ++i)
    ((gkey_t*)pop_obj (i))->key = seq[i];
  if (MR_SUCCESS != mr_ic_new (&ic, gk_hash, gk_cmp, "sv_point_t", type, NULL))
    violate ("growth-ic", "a new collection is refused");
  uint64_t t = clock_now () + 8 * ncmp;
  if (type == MR_IC_SORTED_ARRAY)
    {
      mr_ptr_t *a = h_alloc (n * sizeof (*a));
      for (i = 0; i < n; ++i)
	a[i].ptr = pop_obj (i);
      t = clock_now () + 8 * ncmp;
      if (MR_SUCCESS != mr_ic_index (&ic, a, n * sizeof (*a)))
	violate ("growth-ic", "indexing %u keys fails", n);
    }
  else
    for (i = 0; i < n; ++i)
      if (!mr_ic_add (&ic, (mr_ptr_t) { .ptr = pop_obj (i) }))
	violate ("growth-ic", "adding the key number %u of %u fails", i, n);
  w[0] = clock_now () + 8 * ncmp - t;
  t = clock_now () + 8 * ncmp;
  for (i = 0; i < n; ++i)
    {
      mr_ptr_t *f = mr_ic_find (&ic, (mr_ptr_t) { .ptr = pop_obj (i) });
      if (!f || f->ptr != pop_obj (i))
	violate ("growth-ic", "key number %u of %u is not found", i, n);
    }
  w[1] = clock_now () + 8 * ncmp - t;
  t = clock_now () + 8 * ncmp;
  order_fill (seq, n, draw (T_W, 4));
  if (type != MR_IC_SORTED_ARRAY)
    for (i = 0; i < n; ++i)
      if (MR_SUCCESS != mr_ic_del (&ic, (mr_ptr_t) { .ptr = pop_obj (seq[i]) }))
	violate ("growth-ic", "key number %u of %u cannot be deleted", seq[i], n);
  w[2] = clock_now () + 8 * ncmp - t;
  mr_ic_free (&ic);
}

void
sc_growth_ic (void)
{
  static const mr_ic_type_t types[] = { MR_IC_HASH, MR_IC_RBTREE, MR_IC_AVLTREE, MR_IC_SORTED_ARRAY };
  static const char *tn[] = { "hash", "red-black tree", "AVL tree", "sorted array", "sort" };
  static const char *on[] = { "adding", "finding", "deleting" };
  uint32_t k = draw (T_W, 5), n1 = 4096 - 1024 * draw (T_W, 3), n0 = n1 / FACTOR, i;
  uint64_t w0[3] = { 0 }, w1[3] = { 0 };
  pop_draw ();
  arena_request = (size_t)32 << 20;
  arena_total = (size_t)90 << 20;
  layout_plain (0, 1);
  uint32_t pos = tape_mark (T_W);
  if (k < 4)
    {
      ic_measure (types[k], n0, w0);
      tape_rewind (T_W, pos);
      ic_measure (types[k], n1, w1);
    }
  else
    {
      uint32_t order = draw (T_W, 5), j;
      size_t es = 8 * (1 + draw (T_W, 3));
      for (j = 0; j < 2; ++j)
	{
	  uint32_t n = j ? n1 : n0;
	  char *a = h_alloc (n * es);
	  uint32_t *p = h_alloc (n * sizeof (*p));
	  order_fill (p, n, order % 4);
	  for (i = 0; i < n; ++i)
	    *(uint64_t*)(a + i * es) = order == 4 ? p[i] % 3 : p[i];
	  uint64_t t = clock_now () + 8 * ncmp;
	  mr_hsort (a, n, es, gk_cmp, NULL);
	  (j ? w1 : w0)[0] = clock_now () + 8 * ncmp - t;
	  for (i = 1; i < n; ++i)
	    if (*(uint64_t*)(a + i * es) < *(uint64_t*)(a + (i - 1) * es))
	      violate ("growth-sort", "%u elements are not in order after sorting", n);
	}
      on[0] = "sorting";
    }
  nontrivial ();
  sig_mix (k * 4 + pop_order);
  sig_mix (w1[0]);
  sig_mix (w1[2]);
  if (getenv ("GROW"))
    fprintf (stderr, "X %s %u %.2f %.2f %.2f (%.2f)\n", tn[k], pop_order, (double)w1[0] / w0[0] / FACTOR, (double)w1[1] / w0[1] / FACTOR,(double)w1[2] / w0[2] / FACTOR, (double) w0[0]/n0);
  for (i = 0; i < 3; ++i)
    {
      ev ("%s %s: %u keys %llu, %u keys %llu", tn[k], on[i], n0, (unsigned long long)w0[i], n1, (unsigned long long)w1[i]);
      if (w1[i] > w0[i] * FACTOR * 1.75 + 20000)
	violate (cfmt ("growth-ic:%s", tn[k]), "%s, %s: %u keys take %llu steps and %u keys take %llu, %.1f times as many for %d times the number",
		 tn[k], on[i], n0, (unsigned long long)w0[i], n1, (unsigned long long)w1[i], (double)w1[i] / w0[i], FACTOR);
    }
}

/* ------------------------------------------------------------------ P03, P08: sizes and depths beyond the random generator's */
static int
large_draw (void **o)
{
  int sh_ = draw (T_W, SH_N);
  static const uint32_t most[] = { 1, 17, 130, 300, 700 };
  uint32_t max = shape[sh_].max > 4096 ? 4096 : shape[sh_].max, n = 2 + draw (T_W, most[draw (T_W, 5)]);
  if (sh_ == SH_LONG || sh_ == SH_SPECIAL)
    n *= 64;
  if (n > max)
    n = max;
  pop_draw ();
  arena_request = (size_t)32 << 20;
  arena_total = (size_t)90 << 20;
  layout_plain (draw (T_L, 2), 1 + draw (T_L, 2));
  ev ("%s of %u parts, %s", shape[sh_].name, n, order_name[pop_order]);
  sig_mix (sh_ * 65536 + n);
  nontrivial ();
  return build (sh_, n, n, o);
}

void
sc_large (void)
{
  void *o;
  int fm = draw (T_W, FM_N), rt = large_draw (&o);
  canon_t c = canon (rt, o);
  uint64_t h = raw_hash (rt, o);
  doc_t d = op_save (rt, fm, o);
  if (!d.ok)
    violate ("large-save", "save of a large %s fails", rt_of (fm, rt));
  if (raw_hash (rt, o) != h)
    violate ("source-modified", "%s save changed its source", rt_of (fm, rt));
  mark_t m = live_mark ();
  void *dst = h_alloc (ops[rt].size);
  int ok = op_load (rt, fm, d, dst);
  if (!ok)
    violate ("large-load", "a large document cannot be loaded: %s", rt_of (fm, rt));
  canon_compare (c, canon (rt, dst), "round-trip", cfmt ("large %s", rt_of (fm, rt)));
  ops[rt].free (dst);
  h_free (dst);
  leak_check (m, "large-leak", rt_of (fm, rt));
}

void
sc_large_copy (void)
{
  void *o;
  int rt = large_draw (&o);
  canon_t c = canon (rt, o);
  uint64_t h = raw_hash (rt, o);
  mark_t m = live_mark ();
  void *dst = h_alloc (ops[rt].size);
  if (!ops[rt].copy (o, dst))
    violate ("large-copy", "copy of a large %s fails", ops[rt].name);
  if (raw_hash (rt, o) != h)
    violate ("source-modified", "copy of a large %s changed its source", ops[rt].name);
  canon_compare (c, canon (rt, dst), "copy", cfmt ("large %s", ops[rt].name));
  ops[rt].free (dst);
  h_free (dst);
  leak_check (m, "large-leak", ops[rt].name);
}
