/* Binary streams, torn documents, documents read one by one from a stream, printing, growable buffers, sorting: what the library does
   when the medium below it fails, splits, loses or delays bytes. */
#define _GNU_SOURCE
#include "core.h"
#include "model.h"
#include "fmt.h"
#include "scen.h"
#include <metaresc.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <inttypes.h>
#include <rpc/types.h>
#include <rpc/xdr.h>

typedef struct { int rt; void *obj; doc_t doc; canon_t ca; uint64_t raw; size_t pos; } item_t;

static canon_t
canon_keep (int rt, void *o)
{
  canon_t c = canon (rt, o);
  c.s = memcpy (h_alloc (c.len + 1), c.s, c.len);
  return c;
}

static item_t
item_make (int fm, bool closed)
{
  item_t it = { .rt = pick_root (fm, true) };
  if (closed && it.rt >= RT_BASIC && fm != FM_XML1 && fm != FM_XML2 && fm != FM_XDR)
    it.rt = RT_ROOT;	/* nothing marks the end of a number */
  draw_cfg (fm);
  gen_reset ();
  it.obj = gen_root (it.rt);
  it.ca = canon_keep (it.rt, it.obj);
  it.doc = op_save (it.rt, fm, it.obj);
  it.raw = raw_hash (it.rt, it.obj);
  if (!it.doc.ok)
    violate ("save-failed", "%s save reports failure without any fault", rt_of (fm, it.rt));
  ev ("object %s", ops[it.rt].name);
  ev_data ("doc", it.doc.data, it.doc.len);
  return it;
}

/* ------------------------------------------------------------------ P07: binary streams */
void
sc_stream (void)
{
  item_t it[4];
  int i, n = 1 + draw (T_W, 4), rounds;
  layout_draw ();
  for (i = 0; i < n; ++i)
    it[i] = item_make (FM_XDR, false);
  mark_t m = live_mark ();
  /* all objects one after another into one stream */
  simfile_t file;
  XDR x;
  simfile_init (&file);
  simfile_xdr (&file, &x, true);
  size_t at = 0;
  for (i = 0; i < n; ++i)
    {
      it[i].pos = at;
      if (!ops[it[i].rt].save_xdr (&x, it[i].obj))
	violate ("save-failed", "%s save to a stream reports failure without any fault", rt_of (FM_XDR, it[i].rt));
      at += it[i].doc.len;
      if (file.len != at || memcmp (file.buf + it[i].pos, it[i].doc.data, it[i].doc.len))
	violate ("stream-differs", "%s saved to a stream (%zu bytes) differs from the same saved to memory (%zu bytes)", rt_of (FM_XDR, it[i].rt), file.len - it[i].pos, it[i].doc.len);
    }
  /* write failures */
  for (rounds = draw (T_F, 5); rounds > 0; --rounds)
    {
      i = draw (T_F, n);
      simfile_t sf;
      simfile_init (&sf);
      simfile_xdr (&sf, &x, true);
      mark_t mm = live_mark ();
      afault_t f = { 0 };
      if (draw (T_F, 4) == 3)
	f = faults_draw (60);
      else if (draw (T_F, 2))
	sf.fail_at = draw (T_F, it[i].doc.len + 1);
      else
	sf.fail_call = draw (T_F, it[i].doc.len / 4 + 1);
      sf.sticky = draw (T_F, 2);
      libc_begin ();
      faults_arm (f);
      int ok = ops[it[i].rt].save_xdr (&x, it[i].obj);
      faults_off ();
      libc_end ("stream-save-leak", cfmt ("%s save to a failing stream", rt_of (FM_XDR, it[i].rt)));
      ev ("save under stream fault at %lld/%lld, %s: failed %d, %d", (long long)sf.fail_at, (long long)sf.fail_call, afault_str (f), sf.failed, ok);
      if (ok && sf.failed)
	violate ("stream-error-unreported", "%s save reports success although the stream failed at byte %zu (call %llu, %s)", rt_of (FM_XDR, it[i].rt), sf.pos, (unsigned long long)sf.calls, sf.sticky ? "and later" : "once");
      if (!ok && !sf.failed && !faults_fired)
	violate ("save-failed", "%s save to a stream reports failure without any fault", rt_of (FM_XDR, it[i].rt));
      if (ok && (sf.len != it[i].doc.len || memcmp (sf.buf, it[i].doc.data, sf.len)))
	violate ("stream-silently-wrong", "%s save to a stream reports success (%s) with wrong contents", rt_of (FM_XDR, it[i].rt), afault_str (f));
      COUNT (ops);
      if (ok)
	COUNT (op_ok);
      else
	COUNT (op_failed), nontrivial ();
      simfile_t old = sf;
      if (sf.buf)
	h_free (sf.buf);
      leak_check (mm, "stream-save-leak", cfmt ("%s save to a failing stream", rt_of (FM_XDR, it[i].rt)));
      if (raw_hash (it[i].rt, it[i].obj) != it[i].raw)
	violate ("source-modified", "%s save to a failing stream modified the object", rt_of (FM_XDR, it[i].rt));
      sig_mix (old.pos + ((uint64_t)i << 32) + ((uint64_t)ok << 40));
      /* the retry over the same stream object, rewound, is complete */
      simfile_init (&sf);
      XDR_SETPOS (&x, 0);
      if (!ops[it[i].rt].save_xdr (&x, it[i].obj) || sf.len != it[i].doc.len || memcmp (sf.buf, it[i].doc.data, sf.len))
	violate ("stream-retry-differs", "%s save after the stream recovered fails or differs", rt_of (FM_XDR, it[i].rt));
      COUNT (probe_retry_ok);
      simfile_free (&sf);
    }
  leak_check (m, "stream-save-leak", "saves to streams");
  COUNT (fault_crash_restart);
  layout_draw ();
  void *b[4];
  for (i = 0; i < n; ++i)
    b[i] = memset (h_alloc (ops[it[i].rt].size), 0x5a, ops[it[i].rt].size);
  m = live_mark ();
  /* the stream read back, in order or by position */
  simfile_xdr (&file, &x, false);
  bool seek = draw (T_W, 2);
  for (i = 0; i < n; ++i)
    {
      int k = seek ? (int)draw (T_W, n) : i;
      if (seek && !XDR_SETPOS (&x, it[k].pos))
	harness_error ("setpos");
      mark_t mm = live_mark ();
      memset (b[k], 0x5a, ops[it[k].rt].size);
      if (!ops[it[k].rt].load_xdr (&x, b[k]))
	violate ("load-rejects-own-output:stream", "%s: object %d of %d in the stream is rejected", rt_of (FM_XDR, it[k].rt), k, n);
      if (XDR_GETPOS (&x) != it[k].pos + it[k].doc.len)
	violate ("stream-position", "%s: the load consumed %zd bytes of the %zu that the save wrote", rt_of (FM_XDR, it[k].rt), (ssize_t)(XDR_GETPOS (&x) - it[k].pos), it[k].doc.len);
      canon_compare (it[k].ca, canon (it[k].rt, b[k]), "roundtrip-differs:stream", rt_of (FM_XDR, it[k].rt));
      ownership_check (mm, it[k].rt, b[k], "stream-load-leak", rt_of (FM_XDR, it[k].rt));
      ops[it[k].rt].free (b[k]);
      COUNT (op_ok);
    }
  leak_check (m, "stream-load-leak", "loads from a stream");
  /* read failures, early ends, lost tails */
  for (rounds = 1 + draw (T_F, 5); rounds > 0; --rounds)
    {
      int k = draw (T_F, n);
      simfile_t sf = file;
      sf.failed = false;
      sf.calls = 0;
      simfile_xdr (&sf, &x, false);
      sf.pos = it[k].pos;
      uint32_t kind = draw (T_F, 3);
      if (kind == 0)
	{
	  sf.len = it[k].pos + draw (T_F, it[k].doc.len);
	  COUNT (fault_torn_write);
	}
      else if (kind == 1)
	sf.fail_at = it[k].pos + draw (T_F, it[k].doc.len);
      else
	sf.fail_call = draw (T_F, it[k].doc.len / 4 + 1);
      sf.sticky = draw (T_F, 2);
      memset (b[k], 0x5a, ops[it[k].rt].size);
      libc_begin ();
      int ok = ops[it[k].rt].load_xdr (&x, b[k]);
      libc_end ("stream-load-leak", cfmt ("%s load from a failing stream", rt_of (FM_XDR, it[k].rt)));
      ev ("load %d under %u at %zu/%lld/%lld: failed %d, %d", k, kind, sf.len, (long long)sf.fail_at, (long long)sf.fail_call, sf.failed, ok);
      if (ok && (sf.failed || kind == 0))
	violate (kind ? "stream-error-unreported" : "stream-cut-accepted", "%s load reports success although %s at byte %zu of %zu", rt_of (FM_XDR, it[k].rt),
		 kind ? "a read failed" : "the stream ends", (kind == 0 ? sf.len : kind == 1 ? (size_t)sf.fail_at : sf.pos) - it[k].pos, it[k].doc.len);
      if (!ok && !sf.failed && kind)
	violate ("load-rejects-own-output:stream", "%s load from a stream reports failure without any fault", rt_of (FM_XDR, it[k].rt));
      if (ok)
	canon_compare (it[k].ca, canon (it[k].rt, b[k]), "roundtrip-differs:stream", rt_of (FM_XDR, it[k].rt));
      else
	{
	  COUNT (op_failed);
	  nontrivial ();
	  canon_t cb = canon (it[k].rt, b[k]);
	  ev_data ("failed load leaves", cb.s, cb.len);
	}
      if (!ops[it[k].rt].free (b[k]))
	violate ("free-failed", "%s: the destination of a %s load from a stream cannot be released", rt_of (FM_XDR, it[k].rt), ok ? "successful" : "failed");
      leak_check (m, "stream-load-leak", cfmt ("%s load from a failing stream (%d), released", rt_of (FM_XDR, it[k].rt), ok));
      sig_mix (sf.pos + ((uint64_t)k << 32) + ((uint64_t)ok << 40) + ((uint64_t)kind << 44));
      /* recovered */
      sf = file;
      sf.pos = it[k].pos;
      if (!ops[it[k].rt].load_xdr (&x, b[k]))
	violate ("load-retry-fails", "%s load from a stream fails after the faults stopped", rt_of (FM_XDR, it[k].rt));
      canon_compare (it[k].ca, canon (it[k].rt, b[k]), "load-retry-differs", rt_of (FM_XDR, it[k].rt));
      COUNT (probe_retry_ok);
      ops[it[k].rt].free (b[k]);
      leak_check (m, "stream-load-leak", "retried load");
    }
  simfile_free (&file);
}

/* ------------------------------------------------------------------ P07: a document whose tail was lost is not a document */
void
sc_torn (void)
{
  static const int fms[] = { FM_CINIT, FM_JSON, FM_SCM, FM_XML1, FM_XML2, FM_XDR };	/* nothing marks the end of a YAML document */
  int fm = fms[draw (T_W, 6)];
  layout_draw ();
  item_t it = item_make (fm, true);
  COUNT (fault_crash_restart);
  layout_draw ();
  void *b = h_alloc (ops[it.rt].size);
  mark_t m = live_mark ();
  int rounds;
  for (rounds = 2 + draw (T_F, 8); rounds > 0; --rounds)
    {
      if (it.doc.len == 0)
	break;
      uint32_t how = draw (T_F, 4);
      size_t cut = how == 0 ? it.doc.len - 1 - draw_log (T_F, it.doc.len) : how == 1 ? draw_log (T_F, it.doc.len) : draw (T_F, it.doc.len);
      doc_t d = { h_alloc (cut + 1), cut, true };
      memcpy (d.data, it.doc.data, cut);
      d.data[cut] = 0;
      memset (b, 0x5a, ops[it.rt].size);
      mark_t mm = live_mark ();
      COUNT (fault_torn_write);
      COUNT (ops);
      libc_begin ();
      int ok = op_load (it.rt, fm, d, b);
      libc_end ("torn-leak", cfmt ("%s load of a document cut at %zu of %zu", rt_of (fm, it.rt), cut, it.doc.len));
      ev ("cut at %zu of %zu: %d", cut, it.doc.len, ok);
      if (ok)
	{
	  canon_t cb = canon (it.rt, b);
	  if (!canon_equal (it.ca, cb))
	    canon_compare (it.ca, cb, cfmt ("torn-accepted:%s", fm_name[fm]), cfmt ("%s load accepts a document cut at byte %zu of %zu", rt_of (fm, it.rt), cut, it.doc.len));
	  ownership_check (mm, it.rt, b, "torn-leak", rt_of (fm, it.rt));
	  COUNT (probe_damage_accepted);
	  ops[it.rt].free (b);
	}
      else
	COUNT (probe_damage_rejected), nontrivial ();
      h_free (d.data);
      leak_check (m, "torn-leak", cfmt ("%s load of a document cut at %zu of %zu (%d)", rt_of (fm, it.rt), cut, it.doc.len, ok));
      sig_mix (cut + ((uint64_t)fm << 32) + ((uint64_t)ok << 40));
    }
  if (!op_load (it.rt, fm, it.doc, b))
    violate (cfmt ("load-rejects-own-output:%s", fm_name[fm]), "%s load rejects the whole document", rt_of (fm, it.rt));
  canon_compare (it.ca, canon (it.rt, b), "load-retry-differs", rt_of (fm, it.rt));
  COUNT (probe_retry_ok);
}

/* ------------------------------------------------------------------ P16: XML documents read one by one from a stream */
void
sc_xml_stream (void)
{
  item_t it[4];
  int fm[4], i, n = 1 + draw (T_W, 4);
  size_t start[5];
  char *text = h_alloc (1 << 22);
  size_t len = 0;
  layout_draw ();
  for (i = 0; i < n; ++i)
    {
      static const char *const gap[] = { "", "\n", " ", "\r\n", "\t\n\n ", "\v\f\n" };
      fm[i] = draw (T_W, 2) ? FM_XML2 : FM_XML1;
      it[i] = item_make (fm[i], false);
      const char *g = gap[draw (T_W, 6)];
      len += sprintf (text + len, "%s", g);
      start[i] = len;
      if (len + it[i].doc.len + 16 > 1 << 22)
	return;
      memcpy (text + len, it[i].doc.data, it[i].doc.len);
      len += it[i].doc.len;
    }
  start[n] = len;
  mark_t m = live_mark ();
  int rounds;
  for (rounds = 1 + draw (T_F, 4); rounds > 0; --rounds)
    {
      simstream_t s = { .in = text, .in_len = len, .err_at = -1 };
      static const uint32_t chunks[] = { 0, 1, 2, 7, 100, 1000 };
      s.max_chunk = chunks[draw (T_F, 6)];
      uint32_t kind = draw (T_F, 4);
      if (kind == 1)
	s.in_len = draw (T_F, len), COUNT (fault_eof_early);
      else if (kind == 2)
	{
	  static const int nos[] = { EIO, EINTR, EAGAIN, EBADF };
	  s.err_at = draw (T_F, len);
	  s.err_no = nos[draw (T_F, 4)];
	  s.once = draw (T_F, 2);
	}
      static const int modes[] = { _IOFBF, _IONBF, _IOLBF };
      FILE *f = simstream_open (&s, true, modes[draw (T_F, 3)], 1 + draw_log (T_F, 1 << 13));
      libc_begin ();
      int got = 0;
      for (i = 0; i < n; ++i)
	{
	  afault_t af = { 0 };
	  if (kind == 3 && draw (T_F, 2))
	    af = faults_draw (1 + it[i].doc.len / 2048);
	  mark_t mm = live_mark ();
	  faults_arm (af);
	  char *d = mr_read_xml_doc (f);
	  faults_off ();
	  uint64_t fired = faults_fired;
	  COUNT (ops);
	  ev ("document %d: %d", i, !!d);
	  size_t end = start[i] + it[i].doc.len;
	  while (end > start[i] && text[end - 1] != '>')
	    --end;		/* the document ends with its last tag */
	  bool broken = (s.in_len < end) || (s.err_at >= 0 && (uint64_t)s.err_at < end);
	  if (!d)
	    {
	      if (!fired && !broken)
		violate ("xml-read-failed", "document %d of %d (%s, %zu bytes): not read though nothing failed", i, n, rt_of (fm[i], it[i].rt), it[i].doc.len);
	      leak_check (mm, "xml-read-leak", "failed read of a document");
	      COUNT (op_failed);
	      nontrivial ();
	      break;
	    }
	  if (broken)
	    violate ("xml-read-cut-accepted", "document %d of %d (%s): returned although the stream %s at %zd of its %zu bytes", i, n, rt_of (fm[i], it[i].rt), kind == 1 ? "ends" : "fails",
		     (ssize_t)((kind == 1 ? s.in_len : (size_t)s.err_at) - start[i]), it[i].doc.len);
	  const char *t = d;
	  while (*t && strchr (" \t\r\n\v\f", *t))
	    ++t;
	  if (strlen (t) != end - start[i] || memcmp (t, text + start[i], end - start[i]))
	    violate ("xml-read-differs", "document %d of %d (%s): %zu bytes returned, %zu written", i, n, rt_of (fm[i], it[i].rt), strlen (t), end - start[i]);
	  /* what was read is a document for the loader of its format */
	  void *b = memset (h_alloc (ops[it[i].rt].size), 0x5a, ops[it[i].rt].size);
	  libc_watch (false);
	  if (!ops[it[i].rt].load (fm[i], d, b))
	    violate (cfmt ("xml-read-unloadable:%s", fm_name[fm[i]]), "document %d of %d (%s) as read from the stream is rejected by the loader%s", i, n, rt_of (fm[i], it[i].rt), t > d ? " (it begins with white space)" : "");
	  canon_compare (it[i].ca, canon (it[i].rt, b), "xml-read-roundtrip", rt_of (fm[i], it[i].rt));
	  ops[it[i].rt].free (b);
	  h_free (b);
	  sim_free ("", "harness", 0, d);
	  leak_check (mm, "xml-read-leak", "document read and loaded");
	  ++got;
	  COUNT (op_ok);
	}
      if (got == n && kind != 2)
	{
	  /* nothing is left but white space */
	  char *d = mr_read_xml_doc (f);
	  if (d)
	    violate ("xml-read-phantom", "a document is returned after the last one");
	}
      fclose (f);
      libc_watch (false);
      leak_check (m, "xml-read-leak", "stream of documents");
      sig_mix (got + (kind << 8) + ((uint64_t)s.calls << 16));
      if (n > 1)
	nontrivial ();
    }
  h_free (text);
}

/* ------------------------------------------------------------------ P17: printing */
void
el_add (line_t *l, char *full, char *fallback, char *fallback2)
{
  el_t *e = &l->e[l->n++];
  e->n = 0;
  e->alt[e->n++] = full;
  if (fallback)
    e->alt[e->n++] = fallback;
  if (fallback2)
    e->alt[e->n++] = fallback2;
}

char *
hfmt (const char *fmt, ...)
{
  va_list ap;
  va_start (ap, fmt);
  int n = vsnprintf (NULL, 0, fmt, ap);
  va_end (ap);
  char *s = h_alloc (n + 1);
  va_start (ap, fmt);
  vsnprintf (s, n + 1, fmt, ap);
  va_end (ap);
  return s;
}

/* library text -> harness text, minus the end of its last line when it describes the target of a pointer */
char *
take (char *s, bool chop)
{
  if (!s)
    violate ("save-failed", "save for printing reports failure without any fault");
  char *r = hfmt ("%s", s);
  sim_free ("", "harness", 0, s);
  if (chop && *r && r[strlen (r) - 1] == '\n')
    r[strlen (r) - 1] = 0;
  return r;
}

/* does the text split into elements, and does every element but the failed ones come out in full? */
bool
line_match (const line_t *l, int i, const char *t, size_t n, bool prefix)
{
  if (i == l->n)
    return n == 0;
  int k;
  for (k = 0; k < l->e[i].n; ++k)
    {
      size_t m = strlen (l->e[i].alt[k]);
      if (m <= n ? memcmp (t, l->e[i].alt[k], m) == 0 : prefix && memcmp (t, l->e[i].alt[k], n) == 0)
	{
	  if (prefix && m >= n)
	    return true;
	  if (line_match (l, i + 1, t + m, n - m, prefix))
	    return true;
	}
    }
  return false;
}

static char *
u128s (mr_uint128_t v, bool neg)
{
  char b[64], *p = b + sizeof (b);
  *--p = 0;
  do
    *--p = '0' + (int)(v % 10);
  while (v /= 10);
  if (neg)
    *--p = '-';
  return hfmt ("%s", p);
}

void
sc_print (void)
{
  layout_draw ();
  int fm = draw (T_W, FM_XDR), shape = draw (T_W, 8);
  item_t it = item_make (fm, false);
  gen_cfg_t keep = gen_cfg;
  gen_cfg = (gen_cfg_t) { .alphabet = AL_PLAIN, .budget = 4, .max_str = 12 };
  gen_reset ();
  sv_point_t *pt = gen_root (RT_POINT);
  sv_scalars_t *sc = gen_root (RT_SCALARS);
  gen_cfg = keep;
  static int32_t arr[3];
  static char word[16];
  int32_t i32 = sc->i32;
  double dv = sc->d;
  string_t str = word;
  string_t nul = NULL;
  int32_t *pi = &i32, *pn = NULL;
  double *pd = &dv;
  string_t *ps = &str;
  uint64_t *pu = &sc->u64;
  sv_color_t col = (sv_color_t[]) { SV_RED, SV_GREEN, SV_BLUE, SV_BLACK, SV_NEG, 77 }[draw (T_W, 6)];
  static const char *const words[] = { "", "x", "word", "100%", "two words", "\xff\x01" };
  snprintf (word, sizeof (word), "%s", words[draw (T_W, 6)]);
  int i;
  for (i = 0; i < 3; ++i)
    arr[i] = (int32_t)draw (T_W, 1000) - 500;
  line_t l = { .n = 0 };
  const char *how = "";
  char *doc = hfmt ("%.*s", (int)it.doc.len, it.doc.data);
#define PTR(P, T, N) el_add (&l, hfmt ("%p (" #T "%s)%s", (void*)(P), N, take (MR_SAVE_CINIT (T, P), true)), hfmt ("%p", (void*)(P)), NULL)
  switch (shape)
    {
    case 0: case 1: case 2:
      el_add (&l, doc, "", NULL);
      break;
    case 3:			/* plain values */
      el_add (&l, "v=", NULL, NULL);
      el_add (&l, hfmt ("%d", sc->i8), NULL, NULL);
      el_add (&l, hfmt ("%u", sc->u16), NULL, NULL);
      el_add (&l, hfmt ("%" PRId64, sc->i64), NULL, NULL);
      el_add (&l, hfmt ("%" PRIu64, sc->u64), NULL, NULL);
      el_add (&l, hfmt ("%g", sc->f), NULL, NULL);
      el_add (&l, hfmt ("%g", sc->d), NULL, NULL);
      el_add (&l, hfmt ("%Lg", sc->ld), NULL, NULL);
      el_add (&l, sc->b ? "true" : "false", NULL, NULL);
      el_add (&l, word, NULL, NULL);
      el_add (&l, "(null)", NULL, NULL);
      break;
    case 4:			/* wide and complex values, enumerations */
      el_add (&l, "w=", NULL, NULL);
      el_add (&l, u128s (sc->i128 < 0 ? -(mr_uint128_t)sc->i128 : (mr_uint128_t)sc->i128, sc->i128 < 0), NULL, NULL);
      el_add (&l, u128s (sc->u128, false), NULL, NULL);
      el_add (&l, hfmt ("%g%+gI", __real__ sc->cf, __imag__ sc->cf), NULL, NULL);
      el_add (&l, hfmt ("%g%+gI", __real__ sc->cd, __imag__ sc->cd), NULL, NULL);
      el_add (&l, hfmt ("%Lg%+LgI", __real__ sc->cld, __imag__ sc->cld), NULL, NULL);
      el_add (&l, "\n", NULL, NULL);
      break;
    case 5:			/* pointers: address, type and contents */
      el_add (&l, "p=", NULL, NULL);
      PTR (pi, int32_t, "");
      PTR (pd, double, "");
      PTR (ps, string_t, "");
      PTR (pu, uint64_t, "");
      el_add (&l, "(null)", NULL, NULL);
      break;
    case 6:			/* structures among values */
      el_add (&l, "pt=", NULL, NULL);
      el_add (&l, take (MR_SAVE_JSON (sv_point_t, pt), false), "", NULL);
      el_add (&l, doc, "", NULL);
      el_add (&l, hfmt ("%d", i32), NULL, NULL);
      el_add (&l, take (MR_SAVE_SCM (sv_scalars_t, sc), false), "", NULL);
      break;
    case 7:			/* arrays, default method */
      el_add (&l, hfmt ("%p (int32_t[]){\n  %s,\n  %s,\n  %s\n}", (void*)arr, hfmt ("%d", arr[0]), hfmt ("%d", arr[1]), hfmt ("%d", arr[2])), hfmt ("%p", (void*)arr), NULL);
      el_add (&l, take (MR_SAVE_CINIT (sv_point_t, pt), false), "", NULL);
      el_add (&l, "\n", NULL, NULL);
      break;
    }
  (void)how; (void)col; (void)nul;
  size_t full = 0;
  for (i = 0; i < l.n; ++i)
    full += strlen (l.e[i].alt[0]);
  int rounds;
  uint64_t allocs = 0;
  for (rounds = 3; rounds > 0; --rounds)
    {
      simstream_t s = { .err_at = -1 };
      static const int modes[] = { _IOFBF, _IONBF, _IOLBF };
      afault_t af = { 0 };
      bool ioerr = false;
      if (rounds < 3)
	{
	  if (draw (T_F, 2))
	    af = faults_draw (allocs);
	  if (draw (T_F, 3) == 2 && full)
	    {
	      static const int nos[] = { EIO, ENOSPC, EPIPE };
	      ioerr = true;
	      s.err_at = draw (T_F, full);
	      s.err_no = nos[draw (T_F, 3)];
	    }
	}
      FILE *f = simstream_open (&s, false, modes[draw (T_F, 3)], 1 + draw_log (T_F, 1 << 13));
      mark_t m = live_mark ();
      int rv = 0;
      libc_begin ();
      alloc_ops = 0;
      faults_arm (af);
      switch (shape)
	{
	case 0: case 1: case 2:
	  rv = ops[it.rt].print (f, fm, it.obj);
	  break;
	case 3:
	  rv = MR_FPRINT (f, "v=", sc->i8, sc->u16, sc->i64, sc->u64, sc->f, sc->d, sc->ld, sc->b, str, nul);
	  break;
	case 4:
	  rv = MR_FPRINT (f, "w=", sc->i128, sc->u128, sc->cf, sc->cd, sc->cld, "\n");
	  break;
	case 5:
	  rv = MR_FPRINT (f, "p=", pi, pd, ps, pu, pn);
	  break;
	case 6:
	  rv = MR_FPRINT (f, "pt=", (sv_point_t, pt, JSON)) + ops[it.rt].print (f, fm, it.obj) + MR_FPRINT (f, i32, (sv_scalars_t, sc, SCM));
	  break;
	case 7:
	  rv = MR_FPRINT (f, arr, (sv_point_t, pt), "\n");
	  break;
	}
      uint64_t fired = faults_fired;
      faults_off ();
      if (rounds == 3)
	allocs = alloc_ops;
      bool bad = ferror (f);
      bad |= fclose (f) != 0;
      libc_watch (false);
      COUNT (ops);
      ev ("print shape %d: %d, %zu bytes, error %d, %s", shape, rv, s.out_len, bad, afault_str (af));
      if (s.out)
	leak_check (m, "print-leak", "harness output") ;
      if (!ioerr && bad)
	violate ("print-error", "the stream is in error though nothing failed");
      if (s.errored && !bad)
	violate ("print-error-hidden", "writing failed and the stream does not tell");
      if (!s.errored && (uint64_t)rv != s.out_len)
	violate ("print-count", "%zu bytes printed, %d reported (shape %d, %s)", s.out_len, rv, shape, afault_str (af));
      if (!line_match (&l, 0, s.out ?: "", s.out_len, s.errored))
	violate ("print-differs", "shape %d, %s: printed %zu bytes \"%.300s\", expected %zu bytes \"%.300s\"", shape, afault_str (af), s.out_len, s.out ? hfmt ("%.*s", (int)s.out_len, s.out) : "", full, l.e[0].alt[0]);
      if (!fired && !s.errored && s.out_len != full)
	violate ("print-incomplete", "shape %d: %zu bytes printed of %zu though nothing failed", shape, s.out_len, full);
      if (fired || s.errored)
	nontrivial ();
      sig_mix (s.out_len + ((uint64_t)shape << 32) + ((uint64_t)af.k << 36) + (uint64_t)s.errored);
      if (raw_hash (it.rt, it.obj) != it.raw)
	violate ("source-modified", "printing modified the object");
    }
}

/* ------------------------------------------------------------------ P18: growable buffers */
typedef struct { char *p; size_t n, cap; } ref_t;
static void
ref_put (ref_t *r, const void *p, size_t n)
{
  if (r->n + n > r->cap)
    {
      char *q = h_alloc (r->cap = (r->n + n) * 2 + 64);
      if (r->p)
	{
	  memcpy (q, r->p, r->n);
	  h_free (r->p);
	}
      r->p = q;
    }
  if (p)
    memcpy (r->p + r->n, p, n);
  else
    memset (r->p + r->n, 0, n);
  r->n += n;
}

static void
buf_same (const char *what, const ref_t *r, const void *p, ssize_t size, ssize_t alloc)
{
  if (size < 0 || (size_t)size != r->n || alloc < size)
    violate ("buffer-size", "%s: the buffer holds %zd bytes (of %zd), %zu were put into it", what, size, alloc, r->n);
  if (r->n && memcmp (p, r->p, r->n))
    violate ("buffer-contents", "%s: the buffer of %zd bytes does not hold what was put into it", what, size);
  if (p)
    {
      blk_t *b = blk_find (p);
      if (!b || b->size < (size_t)alloc)
	violate ("buffer-size", "%s: %zd bytes claimed, %zu allocated", what, alloc, b ? b->size : 0);
    }
}

static void
fill (char *p, size_t n, uint32_t x)
{
  for (; n > 0; --n)
    *p++ = (x = x * 1103515245 + 12345) >> 16;
}

static void
buf_append (void)
{
  mr_rarray_t ra = { .type = "uint8_t" };
  ref_t r = { 0 };
  int ops_left = 3 + draw (T_W, 40);
  char tmp[6000];
  for (; ops_left > 0; --ops_left)
    {
      size_t n = draw (T_W, 8) ? draw (T_W, 40) : draw_log (T_W, sizeof (tmp));
      afault_t af = { 0 };
      if (draw (T_F, 4) == 3)
	af = faults_draw (1);
      faults_arm (af);
      ssize_t was = ra.MR_SIZE, was_alloc = ra.alloc_size;
      void *was_ptr = ra.data.ptr;
      uint32_t how = draw (T_W, 8);
      void *p = how == 0 ? mr_rarray_append (&ra, -1 - (ssize_t)draw (T_W, 5)) : how < 4 ? mr_rarray_allocate_element (&ra.data.ptr, &ra.MR_SIZE, &ra.alloc_size, n) : mr_rarray_append (&ra, n);
      faults_off ();
      COUNT (ops);
      ev ("append %zu: %d", n, !!p);
      if (!p)
	{
	  if (how && !faults_fired && (n || was_ptr))
	    violate ("buffer-failed", "appending %zu bytes to %zd fails though nothing failed", n, was);
	  if (ra.MR_SIZE != was || ra.alloc_size != was_alloc || ra.data.ptr != was_ptr)
	    violate ("buffer-changed", "a failed append changed the buffer");
	  COUNT (op_failed);
	  nontrivial ();
	}
      else if (how == 0)
	violate ("buffer-negative", "appending a negative number of bytes succeeds");
      else
	{
	  if ((char*)p != (char*)ra.data.ptr + was)
	    violate ("buffer-place", "the new element is at %zd, the old end was %zd", (ssize_t)((char*)p - (char*)ra.data.ptr), was);
	  fill (tmp, n, draw (T_W, 1000));
	  memcpy (p, tmp, n);
	  ref_put (&r, tmp, n);
	  COUNT (op_ok);
	}
      buf_same ("append", &r, ra.data.ptr, ra.MR_SIZE, ra.alloc_size);
      sig_mix (ra.MR_SIZE + ((uint64_t)!p << 40));
    }
  if (ra.data.ptr)
    sim_free ("", "harness", 0, ra.data.ptr);
}

static void
buf_printf (void)
{
  mr_rarray_t ra = { .type = "string" };
  ref_t r = { 0 };
  int ops_left = 3 + draw (T_W, 30);
  bool dead = true;
  char arg[3000];
  for (; ops_left > 0; --ops_left)
    {
      if (dead && draw (T_W, 4))
	{
	  ra.data.ptr = strcpy (sim_calloc ("", "harness", 0, 1, 1), "");
	  ra.MR_SIZE = ra.alloc_size = 1;
	  r.n = 0;
	  ref_put (&r, "", 1);
	  dead = false;
	}
      size_t n = draw (T_W, 8) ? draw (T_W, 30) : draw_log (T_W, sizeof (arg) - 1);
      fill (arg, n, draw (T_W, 1000));
      size_t i;
      for (i = 0; i < n; ++i)
	if (!arg[i])
	  arg[i] = '%';
      arg[n] = 0;
      int x = (int)draw (T_W, 1000000) - 500000, got, want;
      char expect[sizeof (arg) + 200];
      afault_t af = { 0 };
      if (draw (T_F, 4) == 3)
	af = faults_draw (1);
      uint32_t how = draw (T_W, 5);
      want = how == 0 ? snprintf (expect, sizeof (expect), "%s", arg) : how == 1 ? snprintf (expect, sizeof (expect), "%d|%s", x, arg)
	: how == 2 ? snprintf (expect, sizeof (expect), "%*d", (int)n, x) : how == 3 ? snprintf (expect, sizeof (expect), "%.*s%c", (int)n / 2, arg, 'c')
	: snprintf (expect, sizeof (expect), "%.17g %#x %%", x / 7.0, x);
      faults_arm (af);
      got = how == 0 ? mr_ra_printf (&ra, "%s", arg) : how == 1 ? mr_ra_printf (&ra, "%d|%s", x, arg)
	: how == 2 ? mr_ra_printf (&ra, "%*d", (int)n, x) : how == 3 ? mr_ra_printf (&ra, "%.*s%c", (int)n / 2, arg, 'c')
	: mr_ra_printf (&ra, "%.17g %#x %%", x / 7.0, x);
      faults_off ();
      COUNT (ops);
      ev ("printf %u %d: %d", how, want, got);
      if (got < 0)
	{
	  if (!dead && !faults_fired)
	    violate ("buffer-failed", "printing %d characters fails though nothing failed", want);
	  if (ra.data.ptr || ra.MR_SIZE || ra.alloc_size)
	    violate ("buffer-kept", "a failed print leaves a buffer of %zd bytes that looks complete", (ssize_t)ra.MR_SIZE);
	  dead = true;
	  r.n = 0;
	  COUNT (op_failed);
	  nontrivial ();
	}
      else
	{
	  if (dead)
	    violate ("buffer-phantom", "printing into an invalidated buffer succeeds");
	  if (got != want)
	    violate ("buffer-count", "%d characters reported, %d printed", got, want);
	  r.n--;
	  ref_put (&r, expect, want + 1);
	  buf_same ("printf", &r, ra.data.ptr, ra.MR_SIZE, ra.alloc_size);
	  COUNT (op_ok);
	}
      sig_mix (ra.MR_SIZE + ((uint64_t)how << 40));
    }
  if (ra.data.ptr)
    sim_free ("", "harness", 0, ra.data.ptr);
}

/* the stream over a growable buffer, driven through the public XDR calls */
static void
buf_xdr (void)
{
  mr_rarray_t ra = { .type = "uint8_t" };
  ref_t r = { 0 };
  XDR x, y;
  size_t at[64], rn = 0;
  struct { uint32_t kind; size_t at, n; int32_t v; uint64_t h; double d; } item[64];
  char tmp[3000], back[3000];
  memset (&x, 0, sizeof (x));
  mr_xdrra_create (&x, &ra, XDR_ENCODE);
  int k, n = 1 + draw (T_W, 64);
  (void)at;
  for (k = 0; k < n; ++k)
    {
      uint32_t kind = draw (T_W, 4);
      size_t len = draw (T_W, 6) ? draw (T_W, 20) : draw_log (T_W, sizeof (tmp));
      int32_t v = (int32_t)((draw (T_W, 65536) << 16) ^ draw (T_W, 65536));
      uint64_t h = ((uint64_t)v << 32) + draw (T_W, 65536);
      double d = v / 3.0;
      fill (tmp, len, v);
      afault_t af = { 0 };
      if (draw (T_F, 5) == 4)
	af = faults_draw (1);
      ref_t before = { 0 };
      ref_put (&before, ra.data.ptr, ra.MR_SIZE);
      faults_arm (af);
      bool ok = kind == 0 ? xdr_int32_t (&x, &v) : kind == 1 ? xdr_uint64_t (&x, &h) : kind == 2 ? xdr_opaque (&x, tmp, len) : xdr_double (&x, &d);
      faults_off ();
      COUNT (ops);
      ev ("put %u %zu: %d", kind, len, ok);
      if (!ok)
	{
	  if (!faults_fired && !(kind == 2 && len == 0))
	    violate ("buffer-failed", "writing to the stream fails though nothing failed");
	  if (ra.MR_SIZE < (ssize_t)before.n || (before.n && memcmp (ra.data.ptr, before.p, before.n)))
	    violate ("buffer-contents", "a failed write damaged what was written before");
	  COUNT (op_failed);
	  nontrivial ();
	  break;		/* nothing can follow an incomplete item */
	}
      if (XDR_GETPOS (&x) != ra.MR_SIZE)
	violate ("stream-position", "position %u after writing %zd bytes", XDR_GETPOS (&x), (ssize_t)ra.MR_SIZE);
      size_t want = kind == 0 ? 4 : kind == 1 || kind == 3 ? 8 : (len + 3) & ~3ul;
      if ((size_t)ra.MR_SIZE != before.n + want || (before.n && memcmp (ra.data.ptr, before.p, before.n)))
	violate ("buffer-contents", "%zd bytes after writing %zu to %zu", (ssize_t)ra.MR_SIZE, want, before.n);
      item[rn].kind = kind;
      item[rn].at = before.n;
      item[rn].n = len;
      item[rn].v = v;
      item[rn].d = d;
      item[rn++].h = kind == 2 ? hash64 (tmp, len, 1) : h;
      if (before.p)
	h_free (before.p);
      COUNT (op_ok);
    }
  /* read back in any order, also beyond the end */
  memset (&y, 0, sizeof (y));
  mr_xdrra_create (&y, &ra, XDR_DECODE);
  for (k = 1 + draw (T_W, 40); k > 0 && rn > 0; --k)
    {
      size_t i = draw (T_W, rn);
      if (!XDR_SETPOS (&y, item[i].at) || XDR_GETPOS (&y) != item[i].at)
	violate ("stream-position", "the stream cannot be positioned at %zu of %zd", item[i].at, (ssize_t)ra.MR_SIZE);
      for (; i < rn && draw (T_W, 4); ++i)
	{
	  int32_t v = 0;
	  uint64_t h = 0;
	  double d = 0;
	  uint32_t kind = item[i].kind;
	  bool ok = kind == 0 ? xdr_int32_t (&y, &v) : kind == 1 ? xdr_uint64_t (&y, &h) : kind == 2 ? xdr_opaque (&y, back, item[i].n) : xdr_double (&y, &d);
	  if (kind == 2)
	    h = hash64 (back, item[i].n, 1);
	  if (!ok || (kind == 0 && v != item[i].v) || ((kind == 1 || kind == 2) && h != item[i].h) || (kind == 3 && d != item[i].d))
	    violate ("stream-readback", "item %zu (kind %u, at %zu) read back %s", i, kind, item[i].at, ok ? "differs" : "fails");
	}
    }
  {
    /* a position behind the end has nothing to read */
    int32_t v;
    if (XDR_SETPOS (&y, ra.MR_SIZE + 1 + draw_log (T_W, 100000)) && (draw (T_W, 2) ? xdr_int32_t (&y, &v) : xdr_opaque (&y, back, 4)))
      violate ("stream-end", "reading behind the end of the stream succeeds");
  }
  if (rn > 0)
    {
      /* reading ends at the end */
      ra.MR_SIZE = draw (T_F, ra.MR_SIZE);
      mr_xdrra_create (&y, &ra, XDR_DECODE);
      COUNT (fault_torn_write);
      size_t i;
      bool ok = true;
      for (i = 0; i < rn && ok; ++i)
	{
	  int32_t v;
	  uint64_t h;
	  double d;
	  uint32_t kind = item[i].kind;
	  ok = kind == 0 ? xdr_int32_t (&y, &v) : kind == 1 ? xdr_uint64_t (&y, &h) : kind == 2 ? xdr_opaque (&y, back, item[i].n) : xdr_double (&y, &d);
	  size_t end = item[i].at + (kind == 0 ? 4 : kind == 2 ? (item[i].n + 3) & ~3ul : 8);
	  if (ok != (end <= (size_t)ra.MR_SIZE))
	    violate ("stream-end", "item %zu ends at %zu of %zd and reading it %s", i, end, (ssize_t)ra.MR_SIZE, ok ? "succeeds" : "fails");
	}
    }
  sig_mix (ra.MR_SIZE + ((uint64_t)rn << 32));
  if (draw (T_W, 2))
    {
      XDR_DESTROY (&x);		/* not a single statement */
    }
  else if (ra.data.ptr)
    sim_free ("", "harness", 0, ra.data.ptr);
  (void)r;
}

void
sc_buffers (void)
{
  layout_draw ();
  mark_t m = live_mark ();
  switch (draw (T_W, 3))
    {
    case 0: buf_append (); break;
    case 1: buf_printf (); break;
    default: buf_xdr (); break;
    }
  blk_t *left[8];
  size_t i, n = live_after (m, left, 8);
  for (i = 0; i < n && i < 8; ++i)
    if (left[i]->lib)
      violate ("buffer-leak", "%zu bytes allocated at %s:%d are still held", left[i]->size, left[i]->func, left[i]->line);
}

/* ------------------------------------------------------------------ P19: sorting */
#define SORT_BASIC(T, DRAW) ({ T *a = arr; int i_; es = sizeof (T); for (i_ = 0; i_ < n; ++i_) a[i_] = (T)(DRAW); \
      ref_put (&before, arr, n * es); status = (faults_arm (af), MR_GENERIC_SORT (a, n)); faults_off (); \
      for (i_ = 1; i_ < n; ++i_) if (a[i_ - 1] > a[i_]) violate ("sort-order", "%d elements of type " #T ": element %d of the result is greater than the next", n, i_ - 1); })

/* elements whose size is no multiple of a machine word */
TYPEDEF_STRUCT (sv_odd13_t, (int8_t, v, [13]))
TYPEDEF_STRUCT (sv_odd11_t, (uint8_t, k), (uint8_t, v, [10]))
TYPEDEF_STRUCT (sv_odd18_t, (int16_t, k), (uint16_t, v, [8]))
TYPEDEF_STRUCT (sv_odd3_t, (bool, k), (uint8_t, v, [2]))
TYPEDEF_STRUCT (sv_odd28_t, (int32_t, v, [7]))

/* elements of library-described types without pointers */
#define SORT_FLAT(T, ...) ({ T *a = arr; int i_; size_t j_; es = sizeof (T); if (n > 40) n = 40;				\
      memset (a, 0, n * es);											\
      for (i_ = 0; i_ < n; ++i_) if (i_ && draw (T_W, 4) == 3) a[i_] = a[draw (T_W, i_)]; else { __VA_ARGS__; }		\
      ref_put (&before, arr, n * es); m = live_mark (); if (draw (T_F, 2)) af = faults_draw (n * 20);			\
      libc_begin (); faults_arm (af); status = draw (T_W, 2) ? mr_generic_sort (a, n, #T) : MR_GENERIC_SORT (a, n, #T); fired = faults_fired; faults_off (); \
      libc_end ("sort-leak", "sort");											\
      if (!fired) for (i_ = 1; i_ < n; ++i_) if (MR_CMP_STRUCTS (T, &a[i_ - 1], &a[i_]) > 0)				\
	violate ("sort-order", "%d objects of type " #T ": object %d of the result is greater than the next", n, i_ - 1); (void)j_; })
#define FILL(f, mask) for (j_ = 0; j_ < sizeof (a[0].f) / sizeof (a[0].f[0]); ++j_) a[i_].f[j_] = draw (T_W, range) & mask
#define SORT_TEXT(N) ({ char (*a)[N] = arr; int i_, j_; es = N; memset (a, 0, n * N);						\
      for (i_ = 0; i_ < n; ++i_) { int l = draw (T_W, N); for (j_ = 0; j_ < l; ++j_) a[i_][j_] = 1 + draw (T_W, range < 255 ? range : 255);		\
	  for (j_ = l + 1; j_ < N; ++j_) a[i_][j_] = draw (T_W, 256); }							\
      ref_put (&before, arr, n * es); faults_arm (af); status = MR_GENERIC_SORT (a, n); faults_off ();			\
      for (i_ = 1; i_ < n; ++i_) if (strcmp (a[i_ - 1], a[i_]) > 0)							\
	violate ("sort-order", "%d elements of type char[" #N "]: \"%s\" comes before \"%s\"", n, a[i_ - 1], a[i_]); })

static int cmp_es;
static int cmp_raw (const void *x, const void *y) { return memcmp (x, y, cmp_es); }

void
sc_sort (void)
{
  layout_draw ();
  int n = draw (T_W, 4) ? draw (T_W, 12) : draw (T_W, 200), i;
  void *arr = h_alloc (256 * 1024);
  size_t es = 0;
  ref_t before = { 0 };
  afault_t af = { 0 };
  bool generic = false;
  mr_status_t status = MR_SUCCESS;
  uint32_t kind = draw (T_W, 30), range = (uint32_t[]) { 2, 10, 1000, 1u << 31 }[draw (T_W, 4)];
  mark_t m;
  uint64_t fired = 0;
#define V ((int64_t)draw (T_W, range) - (range >> 1))
  m = live_mark ();
  switch (kind)
    {
    case 0: SORT_BASIC (int8_t, V); break;
    case 1: SORT_BASIC (uint8_t, V); break;
    case 2: SORT_BASIC (int16_t, V); break;
    case 3: SORT_BASIC (uint32_t, V); break;
    case 4: SORT_BASIC (int64_t, V * 0x100000001); break;
    case 5: SORT_BASIC (uint64_t, V * 0x100000001); break;
    case 6: SORT_BASIC (mr_int128_t, (mr_int128_t)V << draw (T_W, 90)); break;
    case 7: SORT_BASIC (float, V / 3.0f); break;
    case 8: SORT_BASIC (double, V * 1e200); break;
    case 9: SORT_BASIC (bool, draw (T_W, 2)); break;
    case 10: SORT_BASIC (char, V); break;
    case 16: SORT_BASIC (uint16_t, V); break;
    case 17: SORT_BASIC (int32_t, V); break;
    case 18: SORT_BASIC (mr_uint128_t, (mr_uint128_t)V << draw (T_W, 90)); break;
    case 19: memset (arr, 0, n * sizeof (long double)); SORT_BASIC (long double, V * 1e1000L); break;
    case 20: SORT_TEXT (13); break;
    case 21: SORT_TEXT (5); break;
    case 22: SORT_TEXT (31); break;
    case 23: SORT_FLAT (sv_odd13_t, FILL (v, 0x7f)); break;
    case 24: SORT_FLAT (sv_odd11_t, a[i_].k = V; FILL (v, 0xff)); break;
    case 25: SORT_FLAT (sv_odd18_t, a[i_].k = V; FILL (v, 0xffff)); break;
    case 26: SORT_FLAT (sv_odd3_t, a[i_].k = draw (T_W, 2); FILL (v, 0xff)); break;
    case 27: SORT_FLAT (sv_odd28_t, FILL (v, 0xffff)); break;
    case 11:
      {
	string_t *a = arr;
	es = sizeof (*a);
	for (i = 0; i < n; ++i)
	  a[i] = draw (T_W, 6) ? hfmt ("%d", (int)V) : NULL;
	m = live_mark ();
	ref_put (&before, arr, n * es);
	status = MR_GENERIC_SORT (a, n);
	for (i = 1; i < n; ++i)
	  if (a[i - 1] && a[i] && strcmp (a[i - 1], a[i]) > 0)
	    violate ("sort-order", "%d strings: \"%s\" comes before \"%s\"", n, a[i - 1], a[i]);
	  else if (a[i - 1] && !a[i])
	    violate ("sort-order", "%d strings: no string comes after a string", n);
	break;
      }
    default:
      {
	/* objects compared by their contents: comparing needs memory */
	static const int rts[] = { RT_POINT, RT_UNIONS, RT_NODE, RT_TREE, RT_BITS };
	int rt = rts[draw (T_W, 5)];
	generic = true;
	if (n > 24)
	  n = 24;
	es = ops[rt].size;
	if (n * es > 256 * 1024)
	  n = 256 * 1024 / es;
	gen_cfg = (gen_cfg_t) { .alphabet = AL_PLAIN, .budget = 5, .max_str = 3, .no_inf = true, .text_floats = true };
	for (i = 0; i < n; ++i)
	  {
	    gen_reset ();
	    void *o = i && draw (T_W, 4) == 3 ? (char*)arr + draw (T_W, i) * es : gen_root (rt);	/* equal elements too */
	    memcpy ((char*)arr + i * es, o, es);
	  }
	ref_put (&before, arr, n * es);
	m = live_mark ();
	if (draw (T_F, 2))
	  af = faults_draw (n * 20);
	libc_begin ();
	faults_arm (af);
	status = mr_generic_sort (arr, n, (char*)ops[rt].name);
	fired = faults_fired;
	faults_off ();
	libc_end ("sort-leak", "sort");
	if (!fired)
	  for (i = 1; i < n; ++i)
	    if (ops[rt].cmp ((char*)arr + (i - 1) * es, (char*)arr + i * es) > 0)
	      violate ("sort-order", "%d objects of type %s: object %d of the result is greater than the next", n, ops[rt].name, i - 1);
	break;
      }
    }
  COUNT (ops);
  ev ("sort %d of kind %u: %d", n, kind, status);
  if (status != MR_SUCCESS)
    violate ("sort-failed", "sorting %d elements of kind %u reports failure", n, kind);
  ref_t after = { 0 };
  ref_put (&after, arr, n * es);
  cmp_es = es;
  ev_data ("sorted", generic ? "" : arr, generic || kind == 11 ? 0 : n * es);
  if (n)
    {
      qsort (before.p, n, es, cmp_raw);
      qsort (after.p, n, es, cmp_raw);
      if (memcmp (before.p, after.p, n * es))
	violate ("sort-loses", "sorting %d elements of kind %u (%s): the result is not a rearrangement of them", n, kind, afault_str (af));
    }
  if (before.p)
    h_free (before.p);
  if (after.p)
    h_free (after.p);
  (void)generic;
  if (n > 2)
    nontrivial ();
  blk_t *left[4];
  size_t k, l = live_after (m, left, 4);
  for (k = 0; k < l && k < 4; ++k)
    if (left[k]->lib)
      violate ("sort-leak", "%zu bytes allocated at %s:%d are still held after the sort", left[k]->size, left[k]->func, left[k]->line);
  sig_mix (n + ((uint64_t)kind << 32) + (fired << 40));
}
