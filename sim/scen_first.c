/* A process uses the library for the first time while memory is refused: what it asked for is reported as failed or is
   complete, and once memory is available the library works as if nothing had happened. */
#define _GNU_SOURCE
#include "core.h"
#include "model.h"
#include "fmt.h"
#include "scen.h"
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <metaresc.h>

enum { F_SAVE, F_LOAD, F_COPY, F_HASH, F_CMP, F_TYPE, F_SORT, F_N };
static const char *const f_name[F_N] = { "save", "load", "copy", "hash", "comparison", "type lookup", "sort" };
#define DOC_CAP (1 << 20)
static struct first_ref { uint64_t allocs[F_N], left, hash; uint32_t len; char doc[DOC_CAP]; } *ref;
static int rt, fm;
static void *obj, *obj2;
static canon_t want;
static doc_t doc;

/* a release that runs out of memory is repeated once memory is there again */
static void
release (void *dst)
{
  if (!ops[rt].free (dst))
    {
      faults_off ();
      if (!ops[rt].free (dst))
	violate ("later-release-fails", "%s can not be released although memory is available", ops[rt].name);
    }
}

/* one operation: what it delivers is right and complete, or it reports failure and leaves nothing behind; false if it failed */
static bool
first_op (int kind, bool calm)
{
  bool ok = true;
  uint64_t fired = faults_fired;
  switch (kind)
    {
    case F_SAVE:
      {
	doc_t d = op_save (rt, fm, obj);
	ok = d.ok;
	if (ok && (d.len != ref->len || memcmp (d.data, ref->doc, d.len)))
	  violate (cfmt ("first-use-save:%s", fm_name[fm]), "%s save of %s%s delivers another document (%zu bytes instead of %u)", fm_name[fm], ops[rt].name, calm ? " after a first use out of memory" : " as the first use out of memory", d.len, ref->len);
	doc_free (&d);
	break;
      }
    case F_LOAD:
    case F_COPY:
      {
	void *dst = h_alloc (ops[rt].size);
	memset (dst, 0x5a, ops[rt].size);
	mark_t m = live_mark ();
	doc_t d = doc_dup (doc);
	ok = kind == F_LOAD ? op_load (rt, fm, d, dst) : ops[rt].copy (obj, dst) != 0;
	doc_free (&d);
	if (ok)
	  {
	    canon_compare (want, canon (rt, dst), cfmt ("first-use-%s:%s", f_name[kind], kind == F_LOAD ? fm_name[fm] : ""), kind == F_LOAD ? fm_name[fm] : "copy");
	    release (dst);
	  }
	else if (kind == F_LOAD)
	  {
	    /* whatever a failed load left in the destination can be released */
	    faults_off ();
	    ops[rt].free (dst);
	  }
	(void)m;
	h_free (dst);
	break;
      }
    case F_HASH:
      {
	uint64_t h = ops[rt].hash (obj);
	ok = h == ref->hash;
	if (!ok && faults_fired == fired)
	  violate ("first-use-hash", "hash of %s is another one", ops[rt].name);
	break;
      }
    case F_CMP:
      {
	int c = ops[rt].cmp (obj, obj2);
	if (c != 0)	/* equal objects compare equal, and a comparison that fails says so, too */
	  violate ("first-use-comparison", "equal objects of %s compare %d", ops[rt].name, c);
	break;
      }
    case F_TYPE:
      {
	mr_td_t *td = mr_get_td_by_name ((char*)ops[rt].name);
	ok = td != NULL;
	if (td && (td->size != ops[rt].size || !td->type.str || strcmp (td->type.str, ops[rt].name)))
	  violate ("first-use-type", "the description of %s is another one", ops[rt].name);
	break;
      }
    case F_SORT:
      {
	int i, v[] = { 5, -3, 9, 0, 5, -8, 2 };
	ok = mr_generic_sort (v, sizeof (v) / sizeof (v[0]), "int") == MR_SUCCESS;
	for (i = 1; ok && i < (int)(sizeof (v) / sizeof (v[0])); ++i)
	  if (v[i - 1] > v[i] && faults_fired == fired)
	    violate ("first-use-sort", "sorted integers are out of order");
	break;
      }
    }
  ev ("%s: %d", f_name[kind], ok);
  COUNT (ops);
  if (ok)
    COUNT (op_ok);
  else
    COUNT (op_failed);
  if (!ok && faults_fired == fired)
    violate (cfmt ("later-failure:%s", f_name[kind]), "%s fails although memory is available, after a first use of the library that ran out of memory", f_name[kind]);
  return ok;
}

static void
all_ops (void)
{
  int k;
  for (k = 0; k < F_N; ++k)
    first_op (k, true);
}

void
sc_first_faults (void)
{
  int i, n, k;
  blk_t *b;
  rt = pick_rt ();
  fm = draw (T_W, FM_N);
  layout_draw ();
  draw_cfg (fm);
  uint32_t at = tape_mark (T_W);
  gen_reset ();
  obj = gen_root (rt);
  tape_rewind (T_W, at);
  gen_reset ();
  obj2 = gen_root (rt);
  want = canon (rt, obj);
  want.s = strndup (want.s, want.len);
  ref = mmap (NULL, sizeof (*ref), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (ref == MAP_FAILED)
    harness_error ("no memory for results");
  mark_t m = live_mark ();
  /* what the operations do in a process that has memory, the document to load, and what the library keeps */
  pid_t pid = fork ();
  if (pid == 0)
    {
      shared_t *priv = mmap (NULL, sizeof (*priv), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      memcpy (priv, sh, sizeof (*priv));
      sh = priv;
      log_on = false;
      alloc_ops = 0;
      mr_conf_init ();
      ref->allocs[0] = alloc_ops;
      doc_t d = op_save (rt, fm, obj);
      if (!d.ok || d.len >= DOC_CAP)
	_exit (d.ok ? 4 : 3);
      ref->len = d.len;
      memcpy (ref->doc, d.data, d.len);
      doc = d;
      ref->hash = ops[rt].hash (obj);
      all_ops ();
      doc_free (&d);
      ref->left = live_after (m, &b, 1);
      _exit (0);
    }
  int st = 0;
  while (waitpid (pid, &st, 0) < 0)
    ;
  if (WIFEXITED (st) && WEXITSTATUS (st) == 4)
    finish ();
  if (!WIFEXITED (st) || WEXITSTATUS (st))
    violate ("first-use-fails", "the operations of this run fail with memory available (status %x)", st);
  doc.ok = true;
  doc.len = ref->len;
  doc.data = h_alloc (doc.len + 1);
  memcpy (doc.data, ref->doc, doc.len);
  doc.data[doc.len] = 0;
  uint64_t total = 0;
  n = 1 + draw (T_F, 4);
  for (i = 0; i < n; ++i)
    {
      k = draw (T_W, F_N);
      faults_arm (faults_draw (ref->allocs[0] + (draw (T_F, 4) ? 0 : 60)));
      first_op (k, false);
      total += faults_fired;
      faults_off ();
    }
  if (total)
    nontrivial ();
  sig_mix (want.h + fm);
  all_ops ();
  h_free (doc.data);
  uint64_t left = live_after (m, &b, 1);
  if (left != ref->left)
    violate ("first-use-memory", "after a first use of the library that ran out of memory it holds %llu blocks, otherwise %llu", (unsigned long long)left, (unsigned long long)ref->left);
}
