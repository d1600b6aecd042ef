/* Several threads use the library at once, each on data of its own or on shared data that nobody changes: every operation returns
   what it returns alone, whichever way the threads interleave, also when they all make the first use of the library. */
#define _GNU_SOURCE
#include "core.h"
#include "model.h"
#include "fmt.h"
#include "scen.h"
#include <metaresc.h>
#include <mr_stringify.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>

enum { TO_SAVE, TO_LOAD, TO_COPY, TO_HASH, TO_PRINT, TO_TYPE, TO_ENUM, TO_FIELD, TO_FUNC, TO_MSG, TO_DAMAGED, TO_N };
static const char *const to_name[TO_N] = { "save", "load", "copy", "hash", "print", "type-lookup", "enum-lookup", "field-lookup", "function-name", "message", "load-damaged" };

#define MAXT 5
#define MAXOP 10
#define RES_CAP (1 << 17)
typedef struct { uint32_t len; uint32_t full; char b[RES_CAP]; } res_t;
typedef struct
{
  int kind, rt, fm;
  void *obj, *obj2;
  const char *name;
  doc_t doc;
  uint32_t cut;
  res_t *want, *got;
  bool done, faulted;
} top_t;
static struct { int n; top_t op[MAXOP]; } plan[MAXT];
static int nthreads;
static bool with_faults, first_use;
static bool damaged_accepted;

static void
put (res_t *r, const void *p, size_t n)
{
  r->full += n;
  if (n > RES_CAP - r->len)
    n = RES_CAP - r->len;
  memcpy (r->b + r->len, p, n);
  r->len += n;
}

static void
puts_ (res_t *r, const char *s)
{
  if (s)
    put (r, s, strlen (s) + 1);
  else
    put (r, "(null)", 7);
}

/* a release that runs out of memory is repeated once memory is there again */
static void
release (int rt, void *obj)
{
  if (!ops[rt].free (obj) && with_faults)
    {
      faults_off ();
      ops[rt].free (obj);
    }
}

static char *
fmt_msg (int id, ...)
{
  va_list ap;
  va_start (ap, id);
  char *m = mr_message_format (id, ap);
  va_end (ap);
  return m;
}

static void
do_op (top_t *o, res_t *r)
{
  canon_t c;
  r->len = r->full = 0;
  switch (o->kind)
    {
    case TO_SAVE:
      {
	doc_t d = op_save (o->rt, o->fm, o->obj);
	put (r, &d.ok, sizeof (d.ok));
	if (d.ok)
	  put (r, d.data, d.len);
	doc_free (&d);
	break;
      }
    case TO_DAMAGED:
    case TO_LOAD:
      {
	void *dst = h_alloc (ops[o->rt].size);
	doc_t d = doc_dup (o->doc);
	if (o->kind == TO_DAMAGED && d.len > 1)
	  {
	    if (o->fm == FM_XDR)
	      d.len = o->cut % d.len;
	    else
	      d.data[d.len = o->cut % d.len] = 0;
	  }
	memset (dst, 0x11, ops[o->rt].size);
	bool ok = op_load (o->rt, o->fm, d, dst);
	put (r, &ok, sizeof (ok));
	if (ok)
	  {
	    if (o->kind == TO_LOAD)
	      {
		c = canon (o->rt, dst);
		put (r, &c.h, sizeof (c.h));
		put (r, &c.len, sizeof (c.len));
		release (o->rt, dst);
	      }
	    else
	      damaged_accepted = true;	/* a union may not match its discriminator now, then nobody can release it */
	  }
	doc_free (&d);
	h_free (dst);
	break;
      }
    case TO_COPY:
      {
	void *dst = h_alloc (ops[o->rt].size);
	bool ok = ops[o->rt].copy (o->obj, dst);
	put (r, &ok, sizeof (ok));
	if (ok)
	  {
	    c = canon (o->rt, dst);
	    put (r, &c.h, sizeof (c.h));
	    release (o->rt, dst);
	  }
	h_free (dst);
	break;
      }
    case TO_HASH:
      {
	uint64_t h = ops[o->rt].hash (o->obj);
	int s = ops[o->rt].cmp (o->obj, o->obj2), t = ops[o->rt].cmp (o->obj, o->obj);
	s = (s > 0) - (s < 0);
	put (r, &h, sizeof (h));
	put (r, &s, sizeof (s));
	put (r, &t, sizeof (t));
	break;
      }
    case TO_PRINT:
      {
	simstream_t s = { .err_at = -1 };
	FILE *f = simstream_open (&s, false, _IONBF, 0);
	int n = ops[o->rt].print (f, o->fm, o->obj);
	fclose (f);
	put (r, &n, sizeof (n));
	put (r, s.out, s.out_len);
	if (s.out)
	  h_free (s.out);
	break;
      }
    case TO_TYPE:
      {
	mr_td_t *td = mr_get_td_by_name ((char*)o->name);
	puts_ (r, td ? td->type.str : NULL);
	if (td)
	  {
	    uint64_t v[] = { td->size, td->mr_type };
	    put (r, v, sizeof (v));
	    if (td->mr_type == MR_TYPE_STRUCT)
	      {
		int i, n = td->param.struct_param.fields_size / sizeof (td->param.struct_param.fields[0]);
		for (i = 0; i < n; ++i)
		  {
		    mr_fd_t *f = td->param.struct_param.fields[i];
		    uint64_t w[] = { f->offset, f->stype.size, f->stype.mr_type, f->stype.mr_type_aux };
		    puts_ (r, f->name.str);
		    put (r, w, sizeof (w));
		    puts_ (r, f->stype.tdp ? f->stype.tdp->type.str : NULL);
		  }
	      }
	  }
	break;
      }
    case TO_ENUM:
      {
	mr_conf_init ();	/* the lookups of enums and of fields leave this to their callers */
	mr_ed_t *ed = mr_get_enum_by_name ((char*)o->name);
	puts_ (r, ed ? ed->name.str : NULL);
	if (ed)
	  put (r, &ed->value._unsigned, sizeof (ed->value._unsigned));
	break;
      }
    case TO_FIELD:
      {
	mr_conf_init ();
	mr_fd_t *fd = mr_get_any_fd_by_name (o->name, NULL);
	puts_ (r, fd ? fd->name.str : NULL);
	break;
      }
    case TO_FUNC:
      {
	void *const fns[] = { (void*)sv_fn_a, (void*)sv_fn_b, (void*)sv_fn_c, (void*)put, (void*)op_save, (void*)mr_conf_init, NULL };
	puts_ (r, mr_serialize_func (fns[o->cut % (sizeof (fns) / sizeof (fns[0]))]));
	break;
      }
    case TO_MSG:
      {
	mr_conf_init ();
	char *m = fmt_msg (MR_MESSAGE_UNKNOWN_FIELD_NAME, "some name");
	puts_ (r, m);
	if (m)
	  sim_free ("", "harness", 0, m);
	m = fmt_msg (MR_MESSAGE_OUT_OF_MEMORY);
	puts_ (r, m);
	if (m)
	  sim_free ("", "harness", 0, m);
	break;
      }
    }
}

static void
thread_body (int id)
{
  int i;
  for (i = 0; i < plan[id].n; ++i)
    {
      top_t *o = &plan[id].op[i];
      uint64_t f0 = faults_fired;
      ev ("thread %d: %s %s %s", id, to_name[o->kind], fm_name[o->fm], ops[o->rt].name);
      do_op (o, o->got);
      o->done = true;
      o->faulted = faults_fired != f0;
      ev ("thread %d: %s done, %u bytes", id, to_name[o->kind], o->got->len);
      COUNT (ops);
    }
}

static bool
failed_cleanly (top_t *o)
{
  /* a failure report: the first thing of the result is a false status; lookups of collections can not fail */
  switch (o->kind)
    {
    case TO_SAVE: case TO_LOAD: case TO_COPY: case TO_DAMAGED: return o->got->len == sizeof (bool) && o->got->b[0] == 0;
    case TO_PRINT: case TO_HASH: return false;
    case TO_TYPE: case TO_ENUM: case TO_FIELD: return first_use && o->got->len == 7 && memcmp (o->got->b, "(null)", 7) == 0;
    default: return o->kind == TO_MSG || o->kind == TO_FUNC;
    }
}

static void
judge (top_t *o, int id, const char *when)
{
  if (o->got->full == o->want->full && memcmp (o->got->b, o->want->b, o->got->len) == 0)
    return;
  if (with_faults && o->faulted && failed_cleanly (o))
    {
      COUNT (probe_fail_reported);
      return;
    }
  if (with_faults && o->faulted && (o->kind == TO_HASH || o->kind == TO_PRINT))
    return;		/* have no way to report failure of a memory request */
  uint32_t i;
  for (i = 0; i < o->got->len && i < o->want->len && o->got->b[i] == o->want->b[i]; ++i)
    ;
  violate (cfmt ("concurrent-result:%s", to_name[o->kind]), "%s of %s (%s) in thread %d %s returns something else than alone: %u bytes instead of %u, first difference at %u: \"%.40s\" instead of \"%.40s\"",
	   to_name[o->kind], o->name ? o->name : rt_of (o->fm, o->rt), fm_name[o->fm], id, when, o->got->full, o->want->full, i, i < o->got->len ? o->got->b + i : "", i < o->want->len ? o->want->b + i : "");
}

static void
thread_run (bool cold, bool faulty)
{
  static const char *const types[] = { "sv_node_t", "sv_rsz_t", "sv_unions_t", "sv_color_t", "sv_val_t", "sv_nosuch_t", "sv_root_t", "int32_t", "string_t", "sv_ext_t", "mr_ptr_t" };
  static const char *const enums[] = { "SV_RED", "SV_BLACK", "SV_NEG", "SV_S200", "SV_F_H", "SV_NOSUCH", "SV_K_PT", "MR_TYPE_STRUCT" };
  static const char *const fields[] = { "ints_size", "name", "nosuch", "u33", "pts", "sv_point_t", "string_t", "ukind" };
  static const int fms[] = { FM_CINIT, FM_JSON, FM_SCM, FM_XML1, FM_XML2, FM_YAML, FM_XDR };
  int t, i, nshared = 1 + draw (T_W, 2);
  struct { int rt; void *obj, *obj2; int fm; } shared[2];
  size_t rsz = sizeof (res_t);
  blk_t *b1;
  layout_draw ();
  damaged_accepted = false;
  nthreads = (faulty ? 1 : 2) + draw (T_W, cold ? MAXT - 1 : 3);
  first_use = cold;
  int focus = draw (T_W, 3) ? -1 : (int)draw (T_W, FM_N);	/* some runs hammer one format */
  int kinds_focus = draw (T_W, 3) ? -1 : (int)draw (T_W, TO_N);
  mr_conf.cache_func_resolve = draw (T_W, 2);
  with_faults = cold ? faulty : draw (T_F, 4) == 3;
  draw_cfg (FM_XML2);
  if (gen_cfg.budget > 16)
    gen_cfg.budget = 16;
  if (gen_cfg.max_str > 80)
    gen_cfg.max_str = 80;
  gen_cfg.alphabet = AL_XML;
  for (i = 0; i < nshared; ++i)
    {
      gen_reset ();
      shared[i].rt = pick_rt ();
      shared[i].obj = gen_root (shared[i].rt);
      gen_reset ();
      shared[i].obj2 = gen_root (shared[i].rt);
    }
  for (t = 0; t < nthreads; ++t)
    {
      plan[t].n = 1 + draw (T_W, cold ? 3 : 6);
      for (i = 0; i < plan[t].n; ++i)
	{
	  top_t *o = &plan[t].op[i];
	  memset (o, 0, sizeof (*o));
	  static const int common[] = { TO_SAVE, TO_LOAD, TO_LOAD, TO_COPY, TO_HASH, TO_PRINT, TO_TYPE, TO_ENUM, TO_FIELD, TO_FUNC, TO_MSG, TO_DAMAGED, TO_SAVE, TO_LOAD };
	  o->kind = kinds_focus >= 0 && draw (T_W, 3) ? kinds_focus : common[draw (T_W, sizeof (common) / sizeof (common[0]))];
	  o->fm = focus >= 0 && draw (T_W, 4) ? focus : fms[draw (T_W, FM_N)];
	  if (o->kind == TO_PRINT && o->fm == FM_XDR)
	    o->fm = FM_JSON;
	  o->cut = draw (T_W, 1000);
	  if (draw (T_W, 3) == 0)
	    {
	      int k = draw (T_W, nshared);
	      o->rt = shared[k].rt;
	      o->obj = shared[k].obj;
	      o->obj2 = shared[k].obj2;
	    }
	  else if (o->kind <= TO_PRINT || o->kind == TO_DAMAGED)
	    {
	      gen_reset ();
	      o->rt = pick_rt ();
	      o->obj = gen_root (o->rt);
	      gen_reset ();
	      o->obj2 = gen_root (o->rt);
	    }
	  if (o->kind == TO_TYPE)
	    o->name = types[draw (T_W, sizeof (types) / sizeof (types[0]))];
	  if (o->kind == TO_ENUM)
	    o->name = enums[draw (T_W, sizeof (enums) / sizeof (enums[0]))];
	  if (o->kind == TO_FIELD)
	    o->name = fields[draw (T_W, sizeof (fields) / sizeof (fields[0]))];
	  if (o->kind == TO_FUNC)
	    o->name = "function";
	}
    }
  /* what each operation returns alone, and the documents to load, come from another process with the same memory */
  int total = 0, k = 0;
  for (t = 0; t < nthreads; ++t)
    total += plan[t].n;
  char *m = mmap (NULL, rsz * total * 2, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  res_t *got = calloc (total, rsz);
  if (m == MAP_FAILED || !got)
    harness_error ("no memory for results");
  for (t = 0; t < nthreads; ++t)
    for (i = 0; i < plan[t].n; ++i, ++k)
      {
	plan[t].op[i].want = (res_t*)(m + rsz * 2 * k);
	plan[t].op[i].got = &got[k];
      }
  mark_t mark = live_mark ();
  uint64_t *left_alone = mmap (NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (left_alone == MAP_FAILED)
    harness_error ("no memory for results");
  pid_t pid = fork ();
  if (pid == 0)
    {
      bool wf = with_faults;
      shared_t *priv = mmap (NULL, sizeof (*priv), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      memcpy (priv, sh, sizeof (*priv));
      sh = priv;
      log_on = false;
      (void)wf;
      with_faults = false;
      layout_default ();
      for (t = 0; t < nthreads; ++t)
	for (i = 0; i < plan[t].n; ++i)
	  {
	    top_t *o = &plan[t].op[i];
	    if (o->kind == TO_LOAD || o->kind == TO_DAMAGED)
	      {
		res_t *dr = (res_t*)((char*)o->want + rsz);
		o->doc = op_save (o->rt, o->fm, o->obj);
		if (!o->doc.ok)
		  _exit (3);
		if (o->doc.len + 1 > RES_CAP)
		  _exit (4);
		put (dr, o->doc.data, o->doc.len);
	      }
	    do_op (o, o->want);
	  }
      mr_conf_init ();
      *left_alone = live_after (mark, &b1, 1);
      _exit (0);
    }
  int st = 0;
  while (waitpid (pid, &st, 0) < 0)
    ;
  if (!WIFEXITED (st) || (WEXITSTATUS (st) != 0 && WEXITSTATUS (st) != 4))
    violate ("sequential-failure", "the operations of this run fail even one after another (status %x)", st);
  if (WEXITSTATUS (st) == 4)
    finish ();		/* a document larger than the result buffer: nothing to compare */
  for (t = 0; t < nthreads; ++t)
    for (i = 0; i < plan[t].n; ++i)
      {
	top_t *o = &plan[t].op[i];
	if (o->kind == TO_LOAD || o->kind == TO_DAMAGED)
	  {
	    res_t *dr = (res_t*)((char*)o->want + rsz);
	    o->doc.ok = true;
	    o->doc.len = dr->len;
	    o->doc.data = h_alloc (dr->len + 1);
	    memcpy (o->doc.data, dr->b, dr->len);
	    o->doc.data[dr->len] = 0;
	  }
      }
  msg_allocates = draw (T_F, 4) == 3;
  uint64_t h0[2];
  for (i = 0; i < nshared; ++i)
    h0[i] = raw_hash (shared[i].rt, shared[i].obj);
  step_budget (400000000ull, "threads");
  if (with_faults)
    faults_arm (faults_draw (cold ? 200 : 2000));
  sched_run (nthreads, thread_body);
  faults_off ();
  step_budget (UINT64_MAX, NULL);
  if (faulty ? faults_fired : sh->counters[C_ctx_switches])
    nontrivial ();
  for (t = 0; t < nthreads; ++t)
    for (i = 0; i < plan[t].n; ++i)
      judge (&plan[t].op[i], t, "running beside others");
  for (i = 0; i < nshared; ++i)
    if (raw_hash (shared[i].rt, shared[i].obj) != h0[i])
      violate ("source-modified", "threads that only read a shared object changed it");
  if (!cold && !mr_conf.cache_func_resolve && !damaged_accepted)
    leak_check (mark, "concurrent-leak", "threads");
  if (cold)
    mr_conf_init ();	/* in case no operation needed it */
  bool any_damaged = false;	/* what an accepted damaged document leaves is not released, and with faults not every one is accepted */
  for (t = 0; t < nthreads; ++t)
    for (i = 0; i < plan[t].n; ++i)
      any_damaged = any_damaged || plan[t].op[i].kind == TO_DAMAGED;
  if (cold && !mr_conf.cache_func_resolve && !(faulty && any_damaged))
    {
      uint64_t left = live_after (mark, &b1, 1);
      if (left != *left_alone)
	violate ("first-use-memory", "after the first use of the library by several threads it holds %llu blocks, after the same operations one after another %llu: it was initialised otherwise",
		 (unsigned long long)left, (unsigned long long)*left_alone);
    }
  /* and nothing is left behind that makes later results wrong */
  with_faults = false;
  for (t = 0; t < nthreads; ++t)
    for (i = 0; i < plan[t].n; ++i)
      {
	do_op (&plan[t].op[i], plan[t].op[i].got);
	judge (&plan[t].op[i], t, "repeated after the threads ended");
      }
  for (k = 0; k < total; ++k)
    {
      uint64_t v = hash64 (got[k].b, got[k].len, k);
      sig_mix (v);
      ev ("%llx", (unsigned long long)v);
    }
}

void sc_threads_first (void) { thread_run (true, false); }
void sc_threads_first_faults (void) { thread_run (true, true); }
void sc_threads (void) { thread_run (false, false); }
