/* Indexed collections and ordered trees against a reference set, under arbitrary histories and failing memory. */
#define _GNU_SOURCE
#include "core.h"
#include "model.h"
#include "fmt.h"
#include "scen.h"
#include <mr_ic.h>
#include <mr_btree.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>

typedef struct { int32_t k, payload; } rec_t;

/* ---- the application's keys: what makes two keys equal, and how they hash */
static int key_mode;		/* 0 integers, 1 pointers to records, 2 integers equal modulo m */
static uintptr_t mod_m;
static int hash_mode;
static uint64_t ncmp;
static rec_t *recs;
static uint32_t universe;
static char ctx_mark[8] = "context";

static int64_t
cls_of (mr_ptr_t x)
{
  switch (key_mode)
    {
    case 0: return x.intptr;
    case 1: return ((rec_t*)x.ptr)->k;
    default: return x.uintptr % mod_m;
    }
}

static int
key_cmp (const mr_ptr_t x, const mr_ptr_t y, const void *context)
{
  ++ncmp;
  if (context != ctx_mark)
    violate ("wrong-context", "the comparator was called with another context than the collection's");
  int64_t a = cls_of (x), b = cls_of (y);
  return (a > b) - (a < b);
}

static mr_hash_value_t
key_hash (const mr_ptr_t x, const void *context)
{
  if (context != ctx_mark)
    violate ("wrong-context", "the hash function was called with another context than the collection's");
  uint64_t c = cls_of (x);
  switch (hash_mode)
    {
    case 0: return c;
    case 1: return 7;
    case 2: return c * 2654435761u;
    case 3: return c & ~3u;
    default: return -1 - (mr_hash_value_t)c;
    }
}

static mr_ptr_t
draw_key (void)
{
  uint32_t i = draw (T_W, universe);
  switch (key_mode)
    {
    case 0: return (mr_ptr_t) { .intptr = (intptr_t)i };
    case 1: return (mr_ptr_t) { .ptr = &recs[i] };
    default: return (mr_ptr_t) { .uintptr = i };
    }
}

static void
keys_setup (bool big)
{
  static const uint32_t us[] = { 3, 6, 12, 40, 150 };
  uint32_t i;
  key_mode = draw (T_W, 3);
  hash_mode = draw (T_W, 5);
  universe = us[draw (T_W, 5)] * (big ? 8 : 1);
  mod_m = 1 + draw (T_W, universe);
  recs = h_alloc (universe * sizeof (rec_t));
  uint32_t classes = 1 + draw (T_W, universe);
  for (i = 0; i < universe; ++i)
    recs[i] = (rec_t) { .k = (int32_t)(i % classes) - (int32_t)classes / 2, .payload = i };
}

/* ---- reference: a sequence of keys; a set once it has been deduplicated */
#define MODEL_CAP 4096
typedef struct { mr_ptr_t key[MODEL_CAP]; uint32_t n; } model_t;
static model_t *model;

static int
m_find (mr_ptr_t key)
{
  uint32_t i;
  for (i = 0; i < model->n; ++i)
    if (cls_of (model->key[i]) == cls_of (key))
      return i;
  return -1;
}

static void
m_add (mr_ptr_t key)
{
  if (m_find (key) < 0)
    model->key[model->n++] = key;
}

static void
m_del (int i)
{
  model->key[i] = model->key[--model->n];
}

static void
m_dedup (void)
{
  uint32_t i, n = model->n;
  model->n = 0;
  for (i = 0; i < n; ++i)
    m_add (model->key[i]);
}

/* ---- traversal */
static mr_ptr_t visited[MODEL_CAP + 8];
static uint32_t nvisited, visit_stop;

static mr_status_t
visit (mr_ptr_t key, void *context)
{
  if (context != &visited)
    violate ("wrong-context", "the visitor was called with another context than the caller's");
  if (nvisited >= MODEL_CAP)
    violate ("foreach-too-many", "the traversal visits more keys than the collection ever held");
  visited[nvisited++] = key;
  return (visit_stop && nvisited >= visit_stop) ? MR_FAILURE : MR_SUCCESS;
}

static int
up_cmp (const void *a, const void *b)
{
  uintptr_t x = ((const mr_ptr_t*)a)->uintptr, y = ((const mr_ptr_t*)b)->uintptr;
  return (x > y) - (x < y);
}

static const char *ic_name[] = { [MR_IC_UNSORTED_ARRAY] = "unsorted array", [MR_IC_SORTED_ARRAY] = "sorted array", [MR_IC_HASH] = "hash table",
  [MR_IC_STATIC_ARRAY] = "static array", [MR_IC_RBTREE] = "red-black tree", [MR_IC_AVLTREE] = "AVL tree" };

static void
ic_same (mr_ic_t *ic, const char *kind, const char *after)
{
  uint32_t i;
  if (ic->items_count != model->n)
    violate ("ic-count", "%s after %s: items_count is %u, the reference holds %u", kind, after, (unsigned)ic->items_count, model->n);
  nvisited = visit_stop = 0;
  if (MR_SUCCESS != mr_ic_foreach (ic, visit, &visited))
    violate ("ic-foreach", "%s after %s: traversal reports failure", kind, after);
  if (nvisited != model->n)
    violate ("ic-content", "%s after %s: traversal visits %u keys, the reference holds %u", kind, after, nvisited, model->n);
  if (ic->ic_type == MR_IC_SORTED_ARRAY)
    for (i = 1; i < nvisited; ++i)
      if (cls_of (visited[i - 1]) >= cls_of (visited[i]))
	violate ("ic-order", "%s after %s: the sorted array is traversed out of order", kind, after);
  mr_ptr_t *s = h_alloc ((model->n + 1) * sizeof (*s));
  memcpy (s, model->key, model->n * sizeof (*s));
  qsort (s, model->n, sizeof (*s), up_cmp);
  qsort (visited, nvisited, sizeof (*visited), up_cmp);
  if (memcmp (s, visited, model->n * sizeof (*s)))
    violate ("ic-content", "%s after %s: traversal visits other keys than the reference holds", kind, after);
  h_free (s);
}

static bool
ic_empty (mr_ic_t *ic)
{
  nvisited = visit_stop = 0;
  return ic->items_count == 0 && MR_SUCCESS == mr_ic_foreach (ic, visit, &visited) && nvisited == 0;
}

static void
ic_run (bool faulty)
{
  static const mr_ic_type_t types[] = { MR_IC_UNSORTED_ARRAY, MR_IC_SORTED_ARRAY, MR_IC_HASH, MR_IC_STATIC_ARRAY, MR_IC_RBTREE, MR_IC_AVLTREE };
  mr_ic_type_t type = types[draw (T_W, 6)];
  layout_draw ();
  keys_setup (false);
  const char *kind = cfmt ("%s (keys %d, hash %d, universe %u)", ic_name[type], key_mode, hash_mode, universe);
  mark_t m = live_mark ();
  mr_ic_t *ic = h_alloc (sizeof (*ic));
  model = h_alloc (sizeof (*model));
  mr_res_t context = { .data = { ctx_mark }, .type = "string", .MR_SIZE = sizeof (ctx_mark) };
  /* raw: the collection is a view of the caller's array, duplicates included, until the first change */
  bool raw = type == MR_IC_UNSORTED_ARRAY;
  mr_ptr_t *arr[16], *arr_copy[16];
  size_t arr_n[16];
  int narr = 0;
  memset (ic, 0x5a, sizeof (*ic));
  if (MR_SUCCESS != mr_ic_new (ic, key_hash, key_cmp, "string", type, &context))
    violate ("ic-new", "%s cannot be created", kind);
  ev ("collection %s", kind);
  uint32_t nops = 4 + draw_log (T_W, 120), op;
  int bias = draw (T_W, 3);	/* shrinking, even, growing */
  for (op = 0; op < nops; ++op)
    {
      afault_t f = { 0, 0, 0 };
      if (faulty && draw (T_F, 2))
	f = faults_draw (2);
      int i, what = draw (T_W, 12);
      mr_ptr_t key = draw_key ();
      int at = m_find (key);
      COUNT (ops);
      if (at >= 0)
	COUNT (probe_dup_key);
      if (what < 4 + bias)
	{
	  uint32_t before = model->n;
	  faults_arm (f);
	  mr_ptr_t *r = mr_ic_add (ic, key);
	  faults_off ();
	  const char *after = cfmt ("adding %lld %s(%s)", (long long)cls_of (key), r ? "" : "failed ", afault_str (f));
	  ev ("%s", after);
	  if (!r && !faults_fired)
	    violate ("ic-add-failed", "%s: %s without any fault", kind, after);
	  if (r && r->uintptr != (at >= 0 ? model->key[at] : key).uintptr)
	    violate ("ic-add-result", "%s: %s returns another key than the one in the collection", kind, after);
	  if (raw && (at < 0 || ic->ic_type != MR_IC_UNSORTED_ARRAY))
	    {
	      if (ic->ic_type != MR_IC_UNSORTED_ARRAY)
		{
		  raw = false;
		  m_dedup ();
		}
	    }
	  if (r)
	    m_add (key);
	  else
	    COUNT (probe_fail_reported);
	  ic_same (ic, kind, after);
	  if (model->n > before && model->n > 4)
	    COUNT (probe_ic_grow);
	}
      else if (what < 8)
	{
	  faults_arm (f);
	  mr_status_t st = mr_ic_del (ic, key);
	  faults_off ();
	  const char *after = cfmt ("deleting %lld: %s (%s)", (long long)cls_of (key), st == MR_SUCCESS ? "done" : "refused", afault_str (f));
	  ev ("%s", after);
	  if (raw && ic->ic_type != MR_IC_UNSORTED_ARRAY)
	    {
	      raw = false;
	      m_dedup ();
	      at = m_find (key);
	    }
	  if (st == MR_SUCCESS && at < 0)
	    violate ("ic-del-absent", "%s: %s, but the key was not there", kind, after);
	  if (st != MR_SUCCESS && at >= 0 && !faults_fired)
	    violate ("ic-del-failed", "%s: %s, but the key was there", kind, after);
	  if (st == MR_SUCCESS)
	    m_del (at);
	  ic_same (ic, kind, after);
	  if (model->n == 0)
	    COUNT (probe_ic_empty);
	}
      else if (what < 9)
	{
	  /* a fresh array becomes the collection's content */
	  uint32_t k, n = draw (T_W, 4) ? draw_log (T_W, 40) : draw (T_W, 300);
	  if (narr == 16)
	    continue;
	  mr_ptr_t *a = h_alloc ((n + 1) * sizeof (*a)), *c = h_alloc ((n + 1) * sizeof (*a));
	  for (k = 0; k < n; ++k)
	    a[k] = draw_key ();
	  memcpy (c, a, n * sizeof (*a));
	  arr[narr] = a;
	  arr_copy[narr] = c;
	  arr_n[narr++] = n;
	  bool to_raw = ic->ic_type == MR_IC_UNSORTED_ARRAY;
	  faults_arm (f);
	  mr_status_t st = mr_ic_index (ic, a, n * sizeof (*a));
	  faults_off ();
	  const char *after = cfmt ("indexing %u keys: %s (%s)", n, st == MR_SUCCESS ? "done" : "failed", afault_str (f));
	  ev ("%s", after);
	  if (st == MR_SUCCESS)
	    {
	      model->n = 0;
	      raw = to_raw;
	      for (k = 0; k < n; ++k)
		if (raw)
		  model->key[model->n++] = a[k];
		else
		  m_add (a[k]);
	      ic_same (ic, kind, after);
	    }
	  else
	    {
	      if (!faults_fired)
		violate ("ic-index-failed", "%s: %s without any fault", kind, after);
	      /* a failed rebuild leaves the old content or nothing */
	      if (ic_empty (ic))
		model->n = 0;
	      ic_same (ic, kind, after);
	      COUNT (probe_fail_reported);
	    }
	}
      else if (what < 10)
	{
	  /* every key of the universe is found iff it is there */
	  uint32_t k;
	  for (k = 0; k < universe; ++k)
	    {
	      mr_ptr_t q = key_mode == 1 ? (mr_ptr_t) { .ptr = &recs[k] } : (mr_ptr_t) { .uintptr = k };
	      int w = m_find (q);
	      faults_arm (f);
	      mr_ptr_t *r = mr_ic_find (ic, q);
	      faults_off ();
	      if (!r != (w < 0))
		violate ("ic-find", "%s: key %lld is %s but find says otherwise", kind, (long long)cls_of (q), w < 0 ? "absent" : "present");
	      if (r && r->uintptr != model->key[w].uintptr)
		violate ("ic-find", "%s: find returns another key than the one added", kind);
	    }
	}
      else if (what < 11)
	{
	  if (model->n)
	    {
	      nvisited = 0;
	      visit_stop = 1 + draw (T_W, model->n);
	      faults_arm (f);
	      mr_status_t st = mr_ic_foreach (ic, visit, &visited);
	      faults_off ();
	      if (st == MR_SUCCESS || nvisited != visit_stop)
		violate ("ic-foreach-stop", "%s: the visitor refused key number %u, the traversal went on to %u and returned %d", kind, visit_stop, nvisited, st);
	    }
	}
      else if (draw (T_W, 4) == 0)
	{
	  faults_arm (f);
	  mr_ic_free (ic);
	  faults_off ();
	  ev ("released");
	  model->n = 0;
	  leak_check (m, "ic-leak", kind);
	  if (draw (T_W, 2))
	    {
	      if (MR_SUCCESS != mr_ic_new (ic, key_hash, key_cmp, "string", type, &context))
		violate ("ic-new", "%s cannot be created again", kind);
	      raw = type == MR_IC_UNSORTED_ARRAY;
	    }
	  else
	    raw = ic->ic_type == MR_IC_UNSORTED_ARRAY;
	  ic_same (ic, kind, "release");
	}
      if (faults_fired || (!faulty && model->n > 2))
	nontrivial ();
      for (i = 0; i < narr; ++i)
	if (memcmp (arr[i], arr_copy[i], arr_n[i] * sizeof (mr_ptr_t)))
	  violate ("ic-input-modified", "%s: the caller's array was modified", kind);
      sig_mix (model->n + ((uint64_t)what << 16) + ((uint64_t)type << 24));
    }
  mr_ic_free (ic);
  leak_check (m, "ic-leak", kind);
  /* releasing twice is harmless */
  mr_ic_free (ic);
}

void sc_ic (void) { ic_run (false); }
void sc_ic_faults (void) { ic_run (true); }

/* ------------------------------------------------------------------ collections of typed keys: the library's own comparison */
void
sc_ic_typed (void)
{
  static const mr_ic_type_t types[] = { MR_IC_UNSORTED_ARRAY, MR_IC_SORTED_ARRAY, MR_IC_HASH, MR_IC_STATIC_ARRAY, MR_IC_RBTREE, MR_IC_AVLTREE };
  static const int rts[] = { RT_POINT, RT_SCALARS, RT_UNIONS, RT_NODE, RT_BITS, RT_RSZ };
  mr_ic_type_t type = types[draw (T_W, 6)];
  int rt = rts[draw (T_W, 6)];
  enum { N = 10 };
  void *o[N];
  canon_t c[N];
  int i, j, in[N] = { 0 }, cnt = 0;
  layout_draw ();
  gen_cfg = (gen_cfg_t) { .alphabet = AL_BYTES, .budget = 6, .share = true, .max_str = 12 };
  for (i = 0; i < N; ++i)
    {
      static uint32_t at;
      uint32_t keep = tape_mark (T_W);
      if (i > 0 && draw (T_F, 3) == 0)
	{
	  tape_rewind (T_W, at);
	  gen_reset ();
	  o[i] = gen_root (rt);
	  tape_rewind (T_W, keep);
	}
      else
	{
	  at = tape_mark (T_W);
	  gen_reset ();
	  gen_cfg.dirty = draw (T_L, 2);
	  o[i] = gen_root (rt);
	}
      c[i] = canon (rt, o[i]);
      c[i].s = strndup (c[i].s, c[i].len);
    }
  const char *kind = cfmt ("%s of %s", ic_name[type], ops[rt].name);
  mark_t m = live_mark ();
  mr_ic_t ic;
  if (MR_SUCCESS != mr_ic_new (&ic, NULL, NULL, (char*)ops[rt].name, type, NULL))
    violate ("ic-new", "%s cannot be created", kind);
  int op, nops = 4 + draw (T_W, 24);
  for (op = 0; op < nops; ++op)
    {
      i = draw (T_W, N);
      int have = -1;
      for (j = 0; j < N; ++j)
	if (in[j] && canon_equal (c[i], c[j]))
	  have = j;
      COUNT (ops);
      if (draw (T_W, 3))
	{
	  mr_ptr_t *r = mr_ic_add (&ic, (mr_ptr_t) { .ptr = o[i] });
	  ev ("add %d have %d", i, have);
	  if (!r)
	    violate ("ic-add-failed", "%s: add fails without any fault", kind);
	  if (r->ptr != (have >= 0 ? o[have] : o[i]))
	    violate ("ic-add-result", "%s: adding an object %s returns another one", kind, have >= 0 ? "equal to one in the collection" : "that is not in the collection");
	  if (have < 0)
	    {
	      in[i] = 1;
	      ++cnt;
	    }
	}
      else
	{
	  mr_status_t st = mr_ic_del (&ic, (mr_ptr_t) { .ptr = o[i] });
	  ev ("del %d have %d", i, have);
	  if ((st == MR_SUCCESS) != (have >= 0))
	    violate ("ic-del", "%s: deleting an object that is %s returns %d", kind, have >= 0 ? "there" : "not there", st);
	  if (have >= 0)
	    {
	      in[have] = 0;
	      --cnt;
	    }
	}
      if (ic.items_count != cnt)
	violate ("ic-count", "%s: items_count is %u instead of %d", kind, (unsigned)ic.items_count, cnt);
      for (j = 0; j < N; ++j)
	{
	  int k, w = -1;
	  for (k = 0; k < N; ++k)
	    if (in[k] && canon_equal (c[j], c[k]))
	      w = k;
	  mr_ptr_t *r = mr_ic_find (&ic, (mr_ptr_t) { .ptr = o[j] });
	  if (!r != (w < 0) || (r && r->ptr != o[w]))
	    violate ("ic-find", "%s: find of an object that is %s returns %s", kind, w < 0 ? "absent" : "present", r ? "another" : "nothing");
	}
      if (cnt > 1)
	nontrivial ();
      sig_mix (cnt + ((uint64_t)type << 8) + ((uint64_t)rt << 16));
    }
  mr_ic_free (&ic);
  leak_check (m, "ic-leak", kind);
}

/* ------------------------------------------------------------------ ordered trees */
static int
tree_height (mr_tree_t *t, unsigned idx, bool avl, int level, uint32_t *seen)
{
  if (idx == 0)
    return 0;
  if (level > 200 || ++*seen > MODEL_CAP)
    violate ("tree-cycle", "the tree's links form a cycle");
  int l = tree_height (t, t->pool[idx].next[0].idx, avl, level + 1, seen), r = tree_height (t, t->pool[idx].next[1].idx, avl, level + 1, seen);
  if (avl && (l - r > 1 || r - l > 1))
    violate ("tree-unbalanced", "AVL tree: subtrees of one node have heights %d and %d", l, r);
  return 1 + (l > r ? l : r);
}

static int
m_cls_cmp (const void *a, const void *b)
{
  int64_t x = cls_of (*(const mr_ptr_t*)a), y = cls_of (*(const mr_ptr_t*)b);
  return (x > y) - (x < y);
}

static void
tree_check (mr_tree_t *t, bool avl, const char *after)
{
  const char *kind = avl ? "AVL tree" : "red-black tree";
  uint32_t n = model->n, i, seen = 0;
  mr_ptr_t *s = h_alloc ((n + 1) * sizeof (*s));
  memcpy (s, model->key, n * sizeof (*s));
  qsort (s, n, sizeof (*s), m_cls_cmp);
  nvisited = visit_stop = 0;
  if (MR_SUCCESS != mr_tree_walk (t, visit, &visited))
    violate ("tree-walk", "%s after %s: the walk reports failure", kind, after);
  if (nvisited != n || memcmp (s, visited, n * sizeof (*s)))
    violate ("tree-walk", "%s after %s: the walk does not visit the %u keys in order (%u visited)", kind, after, n, nvisited);
  int bound = 0;
  while ((1u << bound) < n + 1)
    ++bound;
  int h = n ? tree_height (t, t->pool->root.idx, avl, 0, &seen) : 0;
  if (h > 2 * bound)
    violate ("tree-unbalanced", "%s after %s: height %d with %u keys", kind, after, h, n);
  bool valid = avl ? mr_avltree_is_valid (t, key_cmp, ctx_mark) : mr_rbtree_is_valid (t, key_cmp, ctx_mark);
  if (!valid)
    violate ("tree-invalid", "%s after %s: the tree's own validator finds it broken", kind, after);
  /* lookup cost, successor and predecessor of any key, present or not */
  for (i = 0; i < 2; ++i)
    {
      mr_tree_traverse_t tr;
      mr_ptr_t q = draw_key ();
      uint32_t below = 0, k;
      bool there = m_find (q) >= 0;
      for (k = 0; k < n; ++k)
	below += cls_of (s[k]) < cls_of (q);
      ncmp = 0;
      mr_tree_find (q, t, key_cmp, ctx_mark, &tr);
      if (ncmp > (uint64_t)2 * bound)
	violate ("tree-lookup-cost", "%s after %s: a lookup among %u keys takes %llu comparisons", kind, after, n, (unsigned long long)ncmp);
      if (tr.equal != there)
	violate ("tree-find", "%s after %s: key %lld is %s but the lookup says otherwise", kind, after, (long long)cls_of (q), there ? "present" : "absent");
      int dir = draw (T_W, 2), hops = 1 + draw (T_W, 4);
      int64_t pos = dir ? (int64_t)below + (there ? 1 : 0) : (int64_t)below - 1;
      for (; hops > 0; --hops, pos += dir ? 1 : -1)
	{
	  mr_tree_next (t, &tr, dir ? MR_RIGHT : MR_LEFT);
	  unsigned last = tr.size / sizeof (tr.path[0]) - 1;
	  bool end = pos < 0 || pos >= n;
	  if (end != (last == 0))
	    violate ("tree-next", "%s after %s: stepping from %lld %s %s the end", kind, after, (long long)cls_of (q), dir ? "up" : "down", end ? "misses" : "reaches too early");
	  if (end)
	    break;
	  if (t->pool[tr.path[last].idx].key.uintptr != s[pos].uintptr)
	    violate ("tree-next", "%s after %s: stepping from %lld %s gives %lld instead of %lld", kind, after, (long long)cls_of (q), dir ? "up" : "down",
		     (long long)cls_of (t->pool[tr.path[last].idx].key), (long long)cls_of (s[pos]));
	}
    }
  h_free (s);
}

void
sc_tree (void)
{
  bool avl = draw (T_W, 2);
  const char *kind = avl ? "AVL tree" : "red-black tree";
  layout_draw ();
  keys_setup (draw (T_W, 4) == 3);
  bool faulty = draw (T_F, 2);
  mark_t m = live_mark ();
  model = h_alloc (sizeof (*model));
  mr_tree_t t;
  memset (&t, 0x5a, sizeof (t));
  mr_tree_init (&t);
  uint32_t op, nops = 4 + draw_log (T_W, 300), walk = draw (T_W, universe);
  int pattern = draw (T_W, 4), bias = draw (T_W, 4);
  ev ("%s keys %d universe %u", kind, key_mode, universe);
  for (op = 0; op < nops; ++op)
    {
      mr_ptr_t key = draw_key ();
      if (pattern == 1 || pattern == 2)
	{
	  walk = (walk + (pattern == 1 ? 1 : universe - 1)) % universe;
	  key = key_mode == 1 ? (mr_ptr_t) { .ptr = &recs[walk] } : (mr_ptr_t) { .uintptr = walk };
	}
      int at = m_find (key);
      afault_t f = { 0, 0, 0 };
      if (faulty && draw (T_F, 3) == 2)
	f = faults_draw (2);
      bool add = draw (T_W, 5) < 1 + (op * 2 < nops ? 3 : bias);
      const char *after;
      COUNT (ops);
      if (draw (T_W, 40) == 39)
	{
	  faults_arm (f);
	  mr_status_t st = mr_tree_reserve (&t, draw (T_W, 100), false);
	  faults_off ();
	  after = cfmt ("reserving: %d", st);
	  if (st != MR_SUCCESS && !faults_fired)
	    violate ("tree-reserve", "%s: reserving fails without any fault", kind);
	}
      else if (add)
	{
	  faults_arm (f);
	  mr_ptr_t *r = avl ? mr_avltree_add (key, &t, key_cmp, ctx_mark) : mr_rbtree_add (key, &t, key_cmp, ctx_mark);
	  faults_off ();
	  after = cfmt ("adding %lld%s", (long long)cls_of (key), r ? "" : " failed");
	  if (!r && !faults_fired)
	    violate ("tree-add-failed", "%s: %s without any fault", kind, after);
	  if (r && r->uintptr != (at >= 0 ? model->key[at] : key).uintptr)
	    violate ("tree-add-result", "%s: %s returns another key", kind, after);
	  if (r)
	    m_add (key);
	  else
	    COUNT (probe_fail_reported);
	}
      else
	{
	  faults_arm (f);
	  mr_status_t st = avl ? mr_avltree_del (key, &t, key_cmp, ctx_mark) : mr_rbtree_del (key, &t, key_cmp, ctx_mark);
	  faults_off ();
	  after = cfmt ("deleting %lld: %d", (long long)cls_of (key), st);
	  if ((st == MR_SUCCESS) != (at >= 0))
	    violate ("tree-del", "%s: %s, the key was %s", kind, after, at >= 0 ? "there" : "not there");
	  if (at >= 0)
	    m_del (at);
	}
      ev ("%s", after);
      tree_check (&t, avl, after);
      if (model->n > 3)
	nontrivial ();
      sig_mix (model->n + ((uint64_t)avl << 20));
    }
  mr_tree_free (&t);
  leak_check (m, "tree-leak", kind);
}
