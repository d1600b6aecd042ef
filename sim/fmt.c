#define _GNU_SOURCE
#include "fmt.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <rpc/types.h>
#include <rpc/xdr.h>
#include <libxml/xmlerror.h>
#include <libxml/parser.h>

const char *fm_name[FM_N] = { "CINIT", "JSON", "SCM", "XML1", "XML2", "YAML", "XDR" };
const int fm_alphabet[FM_N] = { AL_BYTES, AL_BYTES, AL_BYTES, AL_BYTES, AL_XML, AL_UTF8, AL_BYTES };

#define SAVES(N, T, O, P)							\
  static char * save_##N (int fm, void *obj) {					\
    O *p = obj;									\
    switch (fm) {								\
      case FM_CINIT: return MR_SAVE_CINIT (T, P (p));				\
      case FM_JSON: return MR_SAVE_JSON (T, P (p));					\
      case FM_SCM: return MR_SAVE_SCM (T, P (p));					\
      case FM_XML1: return MR_SAVE_XML1 (T, P (p));					\
      case FM_XML2: return MR_SAVE_XML2 (T, P (p));					\
      case FM_YAML: return MR_SAVE_YAML (T, P (p));					\
      } return NULL; }								\
  static mr_rarray_t save_ra_##N (int fm, void *obj) {				\
    O *p = obj;									\
    switch (fm) {								\
      case FM_CINIT: return MR_SAVE_CINIT_RA (T, P (p));				\
      case FM_JSON: return MR_SAVE_JSON_RA (T, P (p));				\
      case FM_SCM: return MR_SAVE_SCM_RA (T, P (p));				\
      case FM_XML1: return MR_SAVE_XML1_RA (T, P (p));				\
      case FM_XML2: return MR_SAVE_XML2_RA (T, P (p));				\
      case FM_YAML: return MR_SAVE_YAML_RA (T, P (p));				\
      case FM_XDR: return MR_SAVE_XDR_RA (T, P (p));				\
      } return (mr_rarray_t) { .MR_SIZE = 0 }; }				\
  static int save_xdr_##N (void *x, void *obj) { O *p = obj; return MR_SAVE_XDR ((XDR*)x, T, P (p)) == MR_SUCCESS; } \
  static int copy_##N (void *s, void *d) { O *p = s, *q = d; return MR_COPY_RECURSIVELY (T, P (p), P (q)) == MR_SUCCESS; } \
  static int free_##N (void *s) { O *p = s; return MR_FREE_RECURSIVELY (T, P (p)) == MR_SUCCESS; } \
  static uint64_t hash_##N (void *s) { O *p = s; return MR_HASH_STRUCT (T, P (p)); } \
  static int cmp_##N (void *s, void *d) { O *p = s, *q = d; return MR_CMP_STRUCTS (T, P (p), P (q)); } \
  static int print_##N (FILE *f, int how, void *s) {				\
    O *p = s;									\
    switch (how) {								\
      case FM_CINIT: return MR_FPRINT (f, (T, P (p), CINIT));			\
      case FM_JSON: return MR_FPRINT (f, (T, P (p), JSON));				\
      case FM_SCM: return MR_FPRINT (f, (T, P (p), SCM));				\
      case FM_XML1: return MR_FPRINT (f, (T, P (p), XML1));				\
      case FM_XML2: return MR_FPRINT (f, (T, P (p), XML2));				\
      case FM_YAML: return MR_FPRINT (f, (T, P (p), YAML));				\
      } return 0; }
#define LOADS(N, T, O, P)								\
  static int load_##N (int fm, char *s, void *dst) {				\
    O *p = dst;									\
    switch (fm) {								\
      case FM_CINIT: return MR_LOAD_CINIT (T, s, P (p)) == MR_SUCCESS;		\
      case FM_JSON: return MR_LOAD_JSON (T, s, P (p)) == MR_SUCCESS;		\
      case FM_SCM: return MR_LOAD_SCM (T, s, P (p)) == MR_SUCCESS;			\
      case FM_XML1: return MR_LOAD_XML1 (T, s, P (p)) == MR_SUCCESS;		\
      case FM_XML2: return MR_LOAD_XML2 (T, s, P (p)) == MR_SUCCESS;		\
      case FM_YAML: return MR_LOAD_YAML (T, s, P (p)) == MR_SUCCESS;		\
      } return 0; }								\
  static int load_ra_##N (int fm, mr_rarray_t *ra, void *dst) {			\
    O *p = dst;									\
    switch (fm) {								\
      case FM_CINIT: return MR_LOAD_CINIT_RA (T, ra, P (p)) == MR_SUCCESS;		\
      case FM_JSON: return MR_LOAD_JSON_RA (T, ra, P (p)) == MR_SUCCESS;		\
      case FM_SCM: return MR_LOAD_SCM_RA (T, ra, P (p)) == MR_SUCCESS;		\
      case FM_XML1: return MR_LOAD_XML1_RA (T, ra, P (p)) == MR_SUCCESS;		\
      case FM_XML2: return MR_LOAD_XML2_RA (T, ra, P (p)) == MR_SUCCESS;		\
      case FM_YAML: return MR_LOAD_YAML_RA (T, ra, P (p)) == MR_SUCCESS;		\
      case FM_XDR: return MR_LOAD_XDR_RA (T, ra, P (p)) == MR_SUCCESS;		\
      } return 0; }								\
  static int load_xdr_##N (void *x, void *dst) { O *p = dst; return MR_LOAD_XDR (T, (XDR*)x, P (p)) == MR_SUCCESS; }
#define VALUE(T)								\
  static void load_val_##T (int fm, mr_rarray_t *ra, void *dst) {		\
    T *p = dst;									\
    char *s = ra->data.ptr;							\
    switch (fm) {								\
      case FM_CINIT: *p = MR_LOAD_CINIT (T, s); break;				\
      case FM_JSON: *p = MR_LOAD_JSON (T, s); break;				\
      case FM_SCM: *p = MR_LOAD_SCM (T, s); break;				\
      case FM_XML1: *p = MR_LOAD_XML1 (T, s); break;				\
      case FM_XML2: *p = MR_LOAD_XML2 (T, s); break;				\
      case FM_YAML: *p = MR_LOAD_YAML (T, s); break;				\
      case FM_XDR: *p = MR_LOAD_XDR_RA (T, ra); break;				\
      } }
/* an array as the root: it is the only field of a structure here; its CINIT documents are loaded as a part of those of the structure */
static char *
row_doc (const char *text)
{
  char *s = h_alloc (strlen (text) + 32);
  sprintf (s, "{ .a = %s }", text);
  return s;
}
#define ROW_LOADS(S)								\
  static int load_##S (int fm, char *s, void *dst) {				\
    S *p = dst;									\
    if (fm != FM_CINIT) return 0;						\
    char *t = row_doc (s);							\
    int ok = MR_LOAD_CINIT (S, t, p) == MR_SUCCESS;				\
    h_free (t);									\
    return ok; }								\
  static int load_ra_##S (int fm, mr_rarray_t *ra, void *dst) { return load_##S (fm, ra->data.string, dst); } \
  static void load_val_##S (int fm, mr_rarray_t *ra, void *dst) { load_##S (fm, ra->data.string, dst); } \
  static int load_xdr_##S (void *x, void *dst) { (void)x; (void)dst; return 0; }
#define ALL(X) X (sv_root_t) X (sv_scalars_t) X (sv_bits_t) X (sv_arrays_t) X (sv_node_t) X (sv_rsz_t) X (sv_unions_t) X (sv_ptrs_t) X (sv_typed_t) X (sv_tree_t) X (sv_point_t) X (sv_ext_t) X (sv_more_t)
#define ROWS(X) X (sv_rown_t, sv_node_t) X (sv_rowt_t, sv_tree_t) X (sv_rowe_t, sv_un_enum_t) X (sv_rows_t, string_t) X (sv_rowi_t, int32_t) X (sv_rowc_t, sv_color_t)
#define BASIC(X) X (string_t) X (sv_color_t) X (sv_flags_t) X (_Bool) X (char) X (int8_t) X (uint8_t) X (int16_t) X (uint16_t) \
  X (int32_t) X (uint32_t) X (int64_t) X (uint64_t) X (mr_int128_t) X (mr_uint128_t) X (float) X (double) X (long_double_t) X (complex_float_t) \
  X (complex_double_t) X (complex_long_double_t)
#define SAME(v) v
#define DEF(T) SAVES (T, T, T, SAME) LOADS (T, T, T, SAME) VALUE (T)
#define VAL_EXPR(u) (&u->v)
#define ROW_EXPR(v) v->a
#define ROW(S, T) SAVES (S, T, S, ROW_EXPR) ROW_LOADS (S)
ALL (DEF)
BASIC (DEF)
SAVES (sv_uval_t, sv_val_t, sv_uval_t, VAL_EXPR)
LOADS (sv_uval_t, sv_val_t, sv_uval_t, VAL_EXPR)
static void load_val_sv_uval_t (int fm, mr_rarray_t *ra, void *dst) { load_ra_sv_uval_t (fm, ra, dst); }
SAVES (sv_carr_t, sv_carr_t, sv_carr_t, SAME)
LOADS (sv_carr_t, sv_carr_t, sv_carr_t, SAME)
static void load_val_sv_carr_t (int fm, mr_rarray_t *ra, void *dst) { load_ra_sv_carr_t (fm, ra, dst); }
ROWS (ROW)
#define ENT(T) { #T, sizeof (T), save_ra_##T, load_ra_##T, load_val_##T, save_##T, save_xdr_##T, load_##T, load_xdr_##T, copy_##T, free_##T, hash_##T, cmp_##T, print_##T },
#define ROW_ENT(S, T) ENT (S)
const ops_t ops[RT_ALL] = { ALL (ENT) ROWS (ROW_ENT) ENT (sv_uval_t) BASIC (ENT) ENT (sv_carr_t) };

/* ------------------------------------------------------------------ simulated disk documents */
static bool surface = true;	/* the entry point used is a choice of the simulator */

doc_t
op_save (int rt, int fm, void *obj)
{
  doc_t d = { NULL, 0, false };
  if (surface && draw (T_L, 4) == 3)
    {
      /* the form that returns a sized buffer */
      mr_rarray_t ra = ops[rt].save_ra (fm, obj);
      d.ok = ra.data.ptr != NULL;
      if (d.ok)
	{
	  d.len = ra.MR_SIZE - (fm != FM_XDR);
	  if (ra.MR_SIZE <= 0 || ra.alloc_size < ra.MR_SIZE || (fm != FM_XDR && strlen (ra.data.string) != d.len))
	    violate ("save-size", "%s of %s: sizes %zd, %zd of the returned buffer do not fit its contents", fm_name[fm], ops[rt].name, (ssize_t)ra.MR_SIZE, (ssize_t)ra.alloc_size);
	  d.data = h_alloc (d.len + 1);
	  memcpy (d.data, ra.data.ptr, d.len);
	  sim_free ("", "harness", 0, ra.data.ptr);
	}
      return d;
    }
  if (fm == FM_XDR)
    {
      mr_rarray_t ra;
      XDR x;
      memset (&ra, 0, sizeof (ra));
      memset (&x, 0, sizeof (x));
      ra.type = "uint8_t";
      mr_xdrra_create (&x, &ra, XDR_ENCODE);
      d.ok = ops[rt].save_xdr (&x, obj);
      if (d.ok)
	{
	  d.len = ra.MR_SIZE;
	  d.data = h_alloc (d.len + 1);
	  memcpy (d.data, ra.data.ptr, d.len);
	}
      if (ra.data.ptr)
	sim_free ("", "harness", 0, ra.data.ptr);
      return d;
    }
  char *s = ops[rt].save (fm, obj);
  if (s)
    {
      d.len = strlen (s);
      d.data = h_alloc (d.len + 1);
      memcpy (d.data, s, d.len);
      d.ok = true;
      sim_free ("", "harness", 0, s);
    }
  return d;
}

int
op_load (int rt, int fm, doc_t d, void *dst)
{
  if (surface && draw (T_L, 4) == 3)
    {
      mr_rarray_t ra = { .data = { d.data }, .MR_SIZE = d.len + (fm != FM_XDR), .alloc_size = d.len + 1, .type = fm == FM_XDR ? "uint8_t" : "string" };
      return ops[rt].load_ra (fm, &ra, dst);
    }
  if (fm == FM_XDR)
    {
      mr_rarray_t ra;
      XDR x;
      memset (&ra, 0, sizeof (ra));
      memset (&x, 0, sizeof (x));
      ra.data.ptr = d.data;
      ra.MR_SIZE = ra.alloc_size = d.len;
      ra.type = "uint8_t";
      mr_xdrra_create (&x, &ra, XDR_DECODE);
      return ops[rt].load_xdr (&x, dst);
    }
  return ops[rt].load (fm, d.data, dst);
}

void
doc_free (doc_t *d)
{
  if (d->data)
    h_free (d->data);
  d->data = NULL;
  d->len = 0;
}

doc_t
doc_dup (doc_t d)
{
  doc_t r = d;
  if (d.data)
    {
      r.data = h_alloc (d.len + 1);
      memcpy (r.data, d.data, d.len);
    }
  return r;
}

bool
doc_equal (doc_t a, doc_t b)
{
  return a.ok == b.ok && a.len == b.len && (a.len == 0 || memcmp (a.data, b.data, a.len) == 0);
}

/* ------------------------------------------------------------------ XDR stream seam */
void
simfile_init (simfile_t *f)
{
  memset (f, 0, sizeof (*f));
  f->fail_at = f->drop_at = f->fail_call = -1;
}

void
simfile_free (simfile_t *f)
{
  if (f->buf)
    h_free (f->buf);
  f->buf = NULL;
}

static bool
sf_fails (simfile_t *f, size_t n, bool write)
{
  uint64_t call = f->calls++;
  bool bad = (f->failed && f->sticky) || (f->fail_at >= 0 && f->pos + n > (uint64_t)f->fail_at && !f->failed) || (f->fail_call >= 0 && call == (uint64_t)f->fail_call);
  if (bad)
    {
      if (!f->failed)
	ev ("fault: stream %s of %zu bytes at %zu fails", write ? "write" : "read", n, f->pos);
      f->failed = true;
      if (write)
	COUNT (fault_write_error);
      else
	COUNT (fault_read_error);
    }
  return bad;
}

static bool_t
sf_write (simfile_t *f, const void *p, size_t n)
{
  if (sf_fails (f, n, true))
    return FALSE;
  if (f->drop_at >= 0 && f->pos + n > (uint64_t)f->drop_at)
    {
      COUNT (fault_lost_write);
      f->pos += n;
      return TRUE;
    }
  if (f->pos + n > f->cap)
    {
      size_t cap = (f->pos + n) * 2 + 64;
      char *b = h_alloc (cap);
      if (f->buf)
	{
	  memcpy (b, f->buf, f->len);
	  h_free (f->buf);
	}
      f->buf = b;
      f->cap = cap;
    }
  memcpy (f->buf + f->pos, p, n);
  f->pos += n;
  if (f->pos > f->len)
    f->len = f->pos;
  return TRUE;
}

static bool_t
sf_read (simfile_t *f, void *p, size_t n)
{
  if (sf_fails (f, n, false))
    return FALSE;
  if (n > f->len || f->pos > f->len - n)
    {
      COUNT (fault_eof_early);
      return FALSE;
    }
  memcpy (p, f->buf + f->pos, n);
  f->pos += n;
  return TRUE;
}

static bool_t sx_getlong (XDR *x, long *l) { int32_t v; if (!sf_read (x->x_private, &v, 4)) return FALSE; *l = (int32_t)__builtin_bswap32 (v); return TRUE; }
static bool_t sx_putlong (XDR *x, const long *l) { int32_t v = __builtin_bswap32 ((int32_t)*l); return sf_write (x->x_private, &v, 4); }
static bool_t sx_getbytes (XDR *x, char *p, u_int n) { return sf_read (x->x_private, p, n); }
static bool_t sx_putbytes (XDR *x, const char *p, u_int n) { return sf_write (x->x_private, p, n); }
static u_int sx_getpos (XDR *x) { return ((simfile_t*)x->x_private)->pos; }
static bool_t sx_setpos (XDR *x, u_int p) { simfile_t *f = x->x_private; if (p > f->len) return FALSE; f->pos = p; return TRUE; }
static int32_t *sx_inline (XDR *x, u_int n) { return NULL; }
static void sx_destroy (XDR *x) { }
static bool_t sx_control (XDR *x, int r, void *i) { return FALSE; }
static const struct xdr_ops sx_ops = { sx_getlong, sx_putlong, sx_getbytes, sx_putbytes, sx_getpos, sx_setpos, sx_inline, sx_destroy, sx_control };

void
simfile_xdr (simfile_t *f, void *xdrs, bool encode)
{
  XDR *x = xdrs;
  memset (x, 0, sizeof (*x));
  x->x_op = encode ? XDR_ENCODE : XDR_DECODE;
  x->x_ops = (void*)&sx_ops;
  x->x_private = (void*)f;
  f->pos = 0;
}

/* ------------------------------------------------------------------ stdio seam */
static ssize_t
ss_read (void *c, char *buf, size_t n)
{
  simstream_t *s = c;
  ++s->calls;
  size_t left = s->in_len - s->in_pos;
  if (s->err_at >= 0 && s->in_pos >= (uint64_t)s->err_at && !(s->once && s->errored))
    {
      if (!s->errored)
	ev ("fault: read error %d at %zu", s->err_no, s->in_pos);
      s->errored = true;
      if (s->err_no == EINTR)
	COUNT (fault_eintr);
      else
	COUNT (fault_read_error);
      errno = s->err_no;
      return -1;
    }
  if (s->err_at >= 0 && s->in_pos < (uint64_t)s->err_at && left > (uint64_t)s->err_at - s->in_pos)
    left = s->err_at - s->in_pos;
  if (left == 0)
    {
      ++s->past_end;
      return 0;
    }
  if (n > left)
    n = left;
  if (s->max_chunk && n > s->max_chunk)
    {
      n = 1 + draw (T_F, s->max_chunk);
      if (n > left)
	n = left;
      COUNT (fault_short_read);
    }
  memcpy (buf, s->in + s->in_pos, n);
  s->in_pos += n;
  return n;
}

static ssize_t
ss_write (void *c, const char *buf, size_t n)
{
  simstream_t *s = c;
  ++s->calls;
  if (s->err_at >= 0 && s->out_len + n > (uint64_t)s->err_at && !(s->once && s->errored))
    {
      /* glibc takes anything less than the whole request from a cookie stream as an error */
      size_t room = s->out_len < (uint64_t)s->err_at ? s->err_at - s->out_len : 0;
      if (!s->errored)
	ev ("fault: write of %zu at %zu fails with %d after %zu bytes", n, s->out_len, s->err_no, room);
      s->errored = true;
      if (s->err_no == ENOSPC)
	COUNT (fault_no_space);
      else
	COUNT (fault_write_error);
      errno = s->err_no;
      if (room == 0)
	return 0;		/* fopencookie: zero means error for writes */
      n = room;
      COUNT (fault_short_write);
    }
  if (s->out_len + n > s->out_cap)
    {
      size_t cap = (s->out_len + n) * 2 + 64;
      char *b = h_alloc (cap);
      if (s->out)
	{
	  memcpy (b, s->out, s->out_len);
	  h_free (s->out);
	}
      s->out = b;
      s->out_cap = cap;
    }
  memcpy (s->out + s->out_len, buf, n);
  s->out_len += n;
  return n;
}

FILE *
simstream_open (simstream_t *s, bool rd, int bufmode, size_t bufsize)
{
  cookie_io_functions_t io = { ss_read, ss_write, NULL, NULL };
  FILE *f = fopencookie (s, rd ? "r" : "w", io);
  static char bufs[2][1 << 14];
  if (!f)
    harness_error ("fopencookie failed");
  if (bufmode == _IONBF)
    {
      setvbuf (f, NULL, _IONBF, 0);
      COUNT (fault_unbuffered);
    }
  else
    {
      if (bufsize > sizeof (bufs[0]))
	bufsize = sizeof (bufs[0]);
      setvbuf (f, bufs[rd], bufmode, bufsize);
    }
  return f;
}

/* ------------------------------------------------------------------ library seams */
uint64_t msgs_seen;
bool msg_allocates;
void (*msg_hook) (const char *file, const char *func, int line, mr_log_level_t ll, mr_message_id_t id, va_list args);

static void
msg_handler (const char *file, const char *func, int line, mr_log_level_t ll, mr_message_id_t id, va_list args)
{
  ++msgs_seen;
  if (msg_hook)
    {
      msg_hook (file, func, line, ll, id, args);
      return;
    }
  (void)file; (void)func; (void)line; (void)ll;
  if (msg_allocates)
    {
      va_list ap;
      va_copy (ap, args);
      char *m = mr_message_format (id, ap);
      va_end (ap);
      if (m)
	{
	  ev_data ("msg", m, strnlen (m, 80));
	  MR_FREE (m);
	}
      COUNT (fault_msg_handler_alloc);
    }
}

void msg_handler_set (bool on) { mr_conf.msg_handler = on ? msg_handler : NULL; }

static void xml_silent (void *ctx, const char *msg, ...) { (void)ctx; (void)msg; }
static void xml_serror (void *ctx, xmlErrorPtr e) { (void)ctx; (void)e; }

void
lib_setup (void)
{
  static const mr_mem_t mem = { .calloc = sim_calloc, .realloc = sim_realloc, .free = sim_free };
  mr_conf.mr_mem = mem;
  mr_conf.msg_handler = msg_handler;
  mr_conf.cache_func_resolve = false;
  xmlSetGenericErrorFunc (NULL, xml_silent);
  xmlSetStructuredErrorFunc (NULL, (xmlStructuredErrorFunc)xml_serror);
}

void
lib_warmup (void)
{
  static char dstbuf[1 << 14] __attribute__ ((aligned (64)));
  int rt, fm;
  gen_cfg = (gen_cfg_t) { .alphabet = AL_PLAIN, .budget = 4 };
  surface = false;		/* no choices are made before the run begins */
  for (rt = 0; rt < RT_N; ++rt)
    for (fm = 0; fm < FM_N; ++fm)
      {
	void *obj = h_alloc (ops[rt].size);
	doc_t d = op_save (rt, fm, obj);
	if (d.ok && op_load (rt, fm, d, dstbuf))
	  ops[rt].free (dstbuf);
	doc_free (&d);
	h_free (obj);
      }
  surface = true;
  xmlResetLastError ();
}
