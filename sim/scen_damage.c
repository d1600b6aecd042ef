/* Documents and binary streams damaged between save and load: the load stays inside its memory, comes to an end, undoes what it
   did when it rejects, loses nothing when it accepts, and its verdict depends on the bytes alone. */
#define _GNU_SOURCE
#include "core.h"
#include "model.h"
#include "fmt.h"
#include "scen.h"
#include <metaresc.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>

/* ------------------------------------------------------------------ damage */
typedef struct { char *p; size_t n, cap; } buf_t;

static void
b_need (buf_t *b, size_t n)
{
  if (b->n + n + 1 > b->cap)
    b->p = realloc (b->p, b->cap = (b->n + n + 1) * 2);
}

static void
b_replace (buf_t *b, size_t at, size_t del, const char *ins, size_t n)
{
  if (at > b->n)
    at = b->n;
  if (del > b->n - at)
    del = b->n - at;
  b_need (b, n);
  memmove (b->p + at + n, b->p + at + del, b->n - at - del);
  memcpy (b->p + at, ins, n);
  b->n += n - del;
}

static const char *const tokens[] = {
  "0", "-1", "1", "7", "256", "65536", "2147483648", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "18446744073709551615",
  "340282366920938463463374607431768211455", "99999999999999999999999999999999999999999999", "0x", "0b1", "-0", "1e99999", "-1e-99999", "nan", "inf", "-inf", "1 + 2 I", "I",
  "1/0", "1%0", "0.0/0", "-9223372036854775808/-1", "SV_RED", "SV_F_A|SV_F_B", "SV_NONE", "true", "false", "NULL", "null", "#f", "[ref=1]", "[ref=0]", "[ref=99999]", "[ref_content=1]",
  "[ref_idx=4294967295]", "[ref_idx=1]", "[ref=-1]", "MR_REF='1'", "MR_REF_IDX='4294967295'", "ref=\"1\"", "ref_idx=\"1\"", "ref_content=\"2\"", "ref_content=\"0\"", "isnull=\"true\"", "\"ref\": 1,",
  "\"ref_idx\": 2,", "\"ref_content\": 1,", "&1 ", "*1 ", "*2", "&2", "*unknown", "!!str ", "- ", "? ", ": ", "{", "}", "[", "]", "(", ")", "((", "))", "\"", "'", "\\", "\\u0000", "\\u", "\\x41", "\\777",
  "\\400", "\\\"", "'\\400'", "'ab'", "'\\'", "''", "\"\"", ",", ":", ";", "=", ".", ".x = ", ".next = ", ".id = 5,", ".name = \"n\",", "(sv_point_t){1,2}", "(sv_nosuch_t){}", "(void){}", "(int){1}", "<", ">",
  "/>", "</", "<!--", "-->", "<![CDATA[", "]]>", "<?xml?>", "<?", "?>", "<id>5</id>", "<name>x</name>", "<x/>", "</name>", "&", "&lt;", "&amp", "&#0;", "&#65;", "&#x110000;", "&#99999999999999999999;", "&unknown;",
  "/*", "*/", "//", "#", "#\\x00", "#\\xfff", "|", "||", "+", "--", "*", "/", "%", "^", "~", "\n", "\r\n", "\t", " ", "\v", "\xff", "\xc3", "\xef\xbb\xbf", "\xf4\x90\x80\x80", "\x1b", "\x7f", "\0" };
static const size_t ntokens = sizeof (tokens) / sizeof (tokens[0]);

/* extent of the line that holds the position */
static void
line_at (buf_t *b, size_t at, size_t *start, size_t *len)
{
  size_t s = at, e = at;
  while (s > 0 && b->p[s - 1] != '\n')
    --s;
  while (e < b->n && b->p[e] != '\n')
    ++e;
  *start = s;
  *len = e - s + (e < b->n);
}

static const char *
damage_text (buf_t *b, doc_t other)
{
  size_t at = b->n ? draw (T_F, b->n) : 0, from, len, len2, to;
  char *cut;
  b_need (b, 1);
  b->p[b->n] = 0;
  switch (draw (T_F, 14))
    {
    case 0:
      if (b->n)
	{
	  b->p[at] ^= 1 << draw (T_F, 8);
	  COUNT (fault_bit_flip);
	}
      return "bit flip";
    case 1:
      b_replace (b, at, 1 + draw_log (T_F, 24), "", 0);
      COUNT (fault_byte_drop);
      return "bytes lost";
    case 2:
    case 3:
      {
	const char *t = tokens[draw (T_F, ntokens)];
	len = *t ? strlen (t) : 1;
	b_replace (b, at, draw (T_F, 2) ? len : 0, t, len);
	COUNT (fault_byte_insert);
	return "token inserted";
      }
    case 4:
      len = 1 + draw_log (T_F, 200);
      if (len > b->n - at)
	len = b->n - at;
      cut = strndup (b->p + at, len);
      b_replace (b, b->n ? draw (T_F, b->n) : 0, 0, cut, strlen (cut));
      free (cut);
      COUNT (fault_block_dup);
      return "block duplicated";
    case 5:
      {
	/* a number becomes an extreme one */
	size_t s = at;
	while (s < b->n && !(b->p[s] >= '0' && b->p[s] <= '9'))
	  ++s;
	size_t e = s;
	while (e < b->n && b->p[e] >= '0' && b->p[e] <= '9')
	  ++e;
	const char *t = tokens[draw (T_F, 30)];
	b_replace (b, s, e - s, t, strlen (t));
	COUNT (fault_digit_edit);
	return "number changed";
      }
    case 6:
      line_at (b, at, &from, &len);
      cut = strndup (b->p + from, len);
      line_at (b, b->n ? draw (T_F, b->n) : 0, &to, &len2);
      b_replace (b, to, 0, cut, strlen (cut));
      free (cut);
      COUNT (fault_block_dup);
      return "line duplicated";
    case 7:
      line_at (b, at, &from, &len);
      b_replace (b, from, len, "", 0);
      COUNT (fault_byte_drop);
      return "line lost";
    case 8:
      line_at (b, at, &from, &len);
      cut = strndup (b->p + from, len);
      b_replace (b, from, len, "", 0);
      line_at (b, b->n ? draw (T_F, b->n) : 0, &to, &len2);
      b_replace (b, to, 0, cut, strlen (cut));
      free (cut);
      COUNT (fault_block_swap);
      return "line moved";
    case 9:
      b->n = at;
      COUNT (fault_torn_write);
      return "tail lost";
    case 10:
      if (other.len)
	{
	  from = draw (T_F, other.len);
	  len = 1 + draw_log (T_F, other.len);
	  if (len > other.len - from)
	    len = other.len - from;
	  b_replace (b, at, draw (T_F, 2) ? len : 0, other.data + from, len);
	  COUNT (fault_splice);
	}
      return "splice";
    case 11:
      if (other.len)
	{
	  from = draw (T_F, other.len);
	  b->n = at;
	  b_replace (b, at, 0, other.data + from, other.len - from);
	  COUNT (fault_splice);
	}
      return "tail of another document";
    case 12:
      {
	/* nested deeper than any real document */
	static const char *const nests[] = { "{", "[", "(", "<a>", "{{", "[{", "- ", "(+ ", "-", "&1 ", "[ref_idx=1]" };
	const char *t = nests[draw (T_F, sizeof (nests) / sizeof (nests[0]))];
	uint32_t n = 1 + draw_log (T_F, 1500);
	while (n--)
	  b_replace (b, at, 0, t, strlen (t));
	COUNT (fault_byte_insert);
	return "deep nesting";
      }
    default:
      {
	/* one field name becomes another of the document */
	size_t s = at, e, s2 = b->n ? draw (T_F, b->n) : 0, e2;
#define WORD(c) (((c) >= 'a' && (c) <= 'z') || (c) == '_')
	while (s < b->n && !WORD (b->p[s])) ++s;
	for (e = s; e < b->n && WORD (b->p[e]); ++e);
	while (s2 < b->n && !WORD (b->p[s2])) ++s2;
	for (e2 = s2; e2 < b->n && WORD (b->p[e2]); ++e2);
	cut = strndup (b->p + s2, e2 - s2);
	b_replace (b, s, e - s, cut, strlen (cut));
	free (cut);
	COUNT (fault_block_swap);
	return "name changed";
      }
    }
}

static const char *
damage_binary (buf_t *b, doc_t other)
{
  size_t at = b->n ? draw (T_F, b->n) : 0, len, from;
  char *cut;
  switch (draw (T_F, 9))
    {
    case 0:
      if (b->n)
	b->p[at] ^= 1 << draw (T_F, 8);
      COUNT (fault_bit_flip);
      return "bit flip";
    case 1:
    case 2:
      {
	/* an aligned word becomes an interesting number */
	static const uint32_t vals[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 24, 32, 64, 127, 128, 255, 256, 1000, 65535, 65536, 0x7fffffff, 0x80000000u, 0xfffffffcu, 0xfffffff8u, 0xfffffffeu, 0xffffffffu };
	uint32_t v = vals[draw (T_F, sizeof (vals) / sizeof (vals[0]))];
	at &= ~(size_t)3;
	v = __builtin_bswap32 (v);
	if (at + 4 <= b->n)
	  memcpy (b->p + at, &v, 4);
	COUNT (fault_digit_edit);
	return "word changed";
      }
    case 3:
      at &= ~(size_t)3;
      b_replace (b, at, 4 * (1 + draw_log (T_F, 12)), "", 0);
      COUNT (fault_byte_drop);
      return "words lost";
    case 4:
      b_replace (b, at, 1 + draw (T_F, 9), "", 0);
      COUNT (fault_byte_drop);
      return "bytes lost";
    case 5:
      len = 1 + draw_log (T_F, 120);
      if (len > b->n - at)
	len = b->n - at;
      cut = malloc (len + 1);
      memcpy (cut, b->p + at, len);
      b_replace (b, b->n ? draw (T_F, b->n) & ~3u : 0, 0, cut, len);
      free (cut);
      COUNT (fault_block_dup);
      return "block duplicated";
    case 6:
      b->n = at;
      COUNT (fault_torn_write);
      return "tail lost";
    case 7:
      if (other.len)
	{
	  from = draw (T_F, other.len) & ~3u;
	  at &= ~(size_t)3;
	  b->n = at;
	  b_replace (b, at, 0, other.data + from, other.len - from);
	}
      COUNT (fault_splice);
      return "tail of another stream";
    default:
      /* a word is increased or decreased */
      at &= ~(size_t)3;
      if (at + 4 <= b->n)
	{
	  uint32_t v;
	  memcpy (&v, b->p + at, 4);
	  v = __builtin_bswap32 (v);
	  v += draw (T_F, 2) ? 1 + draw (T_F, 3) : -1 - draw (T_F, 3);
	  v = __builtin_bswap32 (v);
	  memcpy (b->p + at, &v, 4);
	}
      COUNT (fault_digit_edit);
      return "word shifted";
    }
}

/* ------------------------------------------------------------------ what a load left behind */
typedef struct { uintptr_t addr; size_t size; uint8_t *copy; uint8_t reached; uint32_t seq; const char *func; int line; } snap_t;
typedef struct { snap_t *b; size_t n; } snaps_t;	/* [0] is the destination itself, the others in order of allocation */

static int
seq_cmp (const void *a, const void *b)
{
  const snap_t *x = a, *y = b;
  return (x->seq > y->seq) - (x->seq < y->seq);
}

static snaps_t
snap_take (mark_t m, void *dst, size_t size)
{
  static blk_t *blks[1 << 14];
  size_t i, n = live_after (m, blks, sizeof (blks) / sizeof (blks[0]));
  if (n > sizeof (blks) / sizeof (blks[0]))
    harness_error ("too many blocks");
  snaps_t s = { calloc (n + 1, sizeof (snap_t)), n + 1 };
  s.b[0] = (snap_t) { (uintptr_t)dst, size, malloc (size), 0, 0, "", 0 };
  for (i = 0; i < n; ++i)
    s.b[i + 1] = (snap_t) { blks[i]->addr, blks[i]->size, malloc (blks[i]->size + 1), 0, blks[i]->seq, blks[i]->func, blks[i]->line };
  qsort (s.b + 1, n, sizeof (snap_t), seq_cmp);
  for (i = 0; i <= n; ++i)
    memcpy (s.b[i].copy, (void*)s.b[i].addr, s.b[i].size);
  return s;
}

static void
snap_free (snaps_t *s)
{
  size_t i;
  for (i = 0; i < s->n; ++i)
    free (s->b[i].copy);
  free (s->b);
}

static int
snap_of (snaps_t *s, uintptr_t p)
{
  size_t i;
  for (i = 0; i < s->n; ++i)
    if (p >= s->b[i].addr && p < s->b[i].addr + s->b[i].size)
      return i;
  return -1;
}

/* every block is referred to from the destination, directly or through other blocks */
static void
snap_lost (snaps_t *s, const char *cls, const char *what)
{
  size_t top = 0, i, *stack = malloc (s->n * sizeof (*stack));
  /* sorted addresses for the scan */
  stack[top++] = 0;
  s->b[0].reached = 1;
  while (top)
    {
      snap_t *b = &s->b[stack[--top]];
      for (i = 0; i + sizeof (uintptr_t) <= b->size; ++i)
	{
	  uintptr_t p;
	  memcpy (&p, b->copy + i, sizeof (p));
	  if (p < (uintptr_t)arena_low () || p > (uintptr_t)arena_high ())
	    continue;
	  int k = snap_of (s, p);
	  if (k > 0 && !s->b[k].reached)
	    {
	      s->b[k].reached = 1;
	      stack[top++] = k;
	    }
	}
    }
  free (stack);
  for (i = 1; i < s->n; ++i)
    if (!s->b[i].reached)
      violate (cls, "%s: a block of %zu bytes allocated at %s:%d is not reachable from the loaded object and was never released", what, s->b[i].size, s->b[i].func, s->b[i].line);
}

static void
snap_same (snaps_t *x, snaps_t *y, const char *cls, const char *what)
{
  size_t k, i;
  if (x->n != y->n)
    violate (cls, "%s: loading the same bytes twice leaves %zu and %zu blocks", what, x->n - 1, y->n - 1);
  for (k = 0; k < x->n; ++k)
    {
      snap_t *a = &x->b[k], *b = &y->b[k];
      if (a->size != b->size)
	violate (cls, "%s: loading the same bytes twice allocates %zu and %zu bytes at %s:%d", what, a->size, b->size, a->func, a->line);
      for (i = 0; i < a->size; ++i)
	if (a->copy[i] != b->copy[i])
	  {
	    /* both hold the address of the same place? */
	    size_t w, hit = 0;
	    for (w = i < 7 ? 0 : i - 7; !hit && w <= i && w + sizeof (uintptr_t) <= a->size; ++w)
	      {
		uintptr_t p, q;
		memcpy (&p, a->copy + w, sizeof (p));
		memcpy (&q, b->copy + w, sizeof (q));
		int kp = snap_of (x, p), kq = snap_of (y, q);
		if (kp >= 0 && kp == kq && p - x->b[kp].addr == q - y->b[kq].addr)
		  hit = w + sizeof (uintptr_t);
	      }
	    if (!hit)
	      violate (cls, "%s: loading the same bytes twice gives different contents at byte %zu of %s (%zu bytes, %s:%d): %02x and %02x", what, i, k ? "a block" : "the object", a->size, a->func, a->line, a->copy[i], b->copy[i]);
	    i = hit - 1;
	  }
    }
}

/* one load of the damaged bytes */
static int
damaged_load (int rt, int fm, buf_t *b, void *dst, simfile_t *sf, const char *what)
{
  size_t extra = fm == FM_XDR ? 0 : 1;
  char *data = h_alloc (b->n + extra ? b->n + extra : 1);
  int ok;
  memcpy (data, b->p, b->n);
  if (extra)
    data[b->n] = 0;
  memset (dst, 0x5a, ops[rt].size);
  step_budget (50000000ull + 40000ull * b->n, what);
  libc_begin ();
  if (sf)
    {
      XDR x;
      sf->buf = data;
      sf->len = sf->cap = b->n;
      simfile_xdr (sf, &x, false);
      ok = ops[rt].load_xdr (&x, dst);
      sf->buf = NULL;
    }
  else
    ok = op_load (rt, fm, (doc_t) { data, b->n, true }, dst);
  libc_end ("damage-libc-leak", what);
  step_budget (UINT64_MAX, NULL);
  h_free (data);
  return ok;
}

static void
damage_run (bool binary)
{
  int fm = binary ? FM_XDR : (int)draw (T_W, FM_TEXT_N), rt = pick_root (fm, true), rt2 = draw (T_W, 2) ? rt : pick_root (fm, true);
  layout_draw ();
  draw_cfg (fm);
  gen_reset ();
  doc_t doc = op_save (rt, fm, gen_root (rt));
  gen_reset ();
  doc_t other = op_save (rt2, fm, gen_root (rt2));
  if (!doc.ok || !other.ok)
    violate ("save-failed", "%s save reports failure without any fault", rt_of (fm, rt));
  COUNT (fault_crash_restart);
  msg_allocates = draw (T_F, 4) == 3;
  void *dst = h_alloc (ops[rt].size), *dst2 = h_alloc (ops[rt].size);
  uint32_t rounds = 2 + draw (T_F, 8);
  while (rounds--)
    {
      buf_t b = { NULL, 0, 0 };
      uint32_t hits = 1 + draw_log (T_F, 5);
      const char *what = "";
      layout_draw ();
      b_replace (&b, 0, 0, doc.data, doc.len);
      while (hits--)
	what = cfmt ("%s %s", what, binary ? damage_binary (&b, other) : damage_text (&b, other));
      if (b.n == doc.len && memcmp (b.p, doc.data, b.n) == 0)
	{
	  free (b.p);
	  continue;
	}
      what = cfmt ("%s load after%s", rt_of (fm, rt), what);
      COUNT (ops);
      simfile_t f, f2;
      bool stream = binary && draw (T_F, 2);
      simfile_init (&f);
      if (stream && draw (T_F, 2))
	f.fail_call = draw_log (T_F, 400);
      f2 = f;
      mark_t m = live_mark ();
      ev_data (what, b.p, b.n);
      int ok = damaged_load (rt, fm, &b, dst, stream ? &f : NULL, what);
      ev ("%s: %d", what, ok);
      snaps_t s1 = snap_take (m, dst, ops[rt].size);
      if (ok)
	{
	  snap_lost (&s1, "damage-accept-leak", what);
	  COUNT (probe_damage_accepted);
	}
      else
	{
	  leak_check (m, "damage-reject-leak", what);
	  COUNT (probe_damage_rejected);
	}
      if (ok && f.failed)
	violate ("read-error-ignored", "%s reports success although a read of its stream failed", what);
      nontrivial ();
      sig_mix (hash64 (b.p, b.n, 3));
      if (draw (T_L, 3) == 0)
	{
	  /* the same bytes under another layout of memory */
	  layout_draw ();
	  mark_t m2 = live_mark ();
	  int ok2 = damaged_load (rt, fm, &b, dst2, stream ? &f2 : NULL, what);
	  if (ok != ok2)
	    violate ("damage-unstable", "%s: loading the same bytes twice returns %d and %d", what, ok, ok2);
	  snaps_t s2 = snap_take (m2, dst2, ops[rt].size);
	  snap_same (&s1, &s2, "damage-unstable", what);
	  snap_free (&s2);
	}
      snap_free (&s1);
      free (b.p);
    }
  /* nothing of that history matters to a load of the intact document */
  if (!op_load (rt, fm, doc, dst))
    violate ("damage-poisons", "%s load of the intact document fails after loads of damaged ones", rt_of (fm, rt));
  ev ("%llx", (unsigned long long)canon (rt, dst).h);
}

void sc_damage_text (void) { damage_run (false); }
void sc_damage_xdr (void) { damage_run (true); }

/* ------------------------------------------------------------------ P20: diagnostics do not interfere */
typedef struct { mr_message_id_t id; int line; mr_log_level_t ll; const char *func, *file; char *text; } msg_t;
#define MSGS 300
static msg_t *msg_log;
static int msg_n;
static bool msg_busy, msg_inside;
static void (*msg_activity) (void);

static void
msg_record (const char *file, const char *func, int line, mr_log_level_t ll, mr_message_id_t id, va_list args)
{
  if (msg_inside)
    return;			/* a message about what the handler itself does */
  if (msg_n < MSGS)
    msg_log[msg_n] = (msg_t) { id, line, ll, func, file, NULL };
  if (msg_busy)
    {
      bool w = libc_watching;
      int64_t l = libc_live;
      msg_inside = true;
      faults_suspend ();
      va_list ap;
      va_copy (ap, args);
      char *t = mr_message_format (id, ap);
      va_end (ap);
      if (!t)
	violate ("message-lost", "message %d of %s:%d has no text", id, func, line);
      if (msg_n < MSGS)
	{
	  libc_watch (false);
	  msg_log[msg_n].text = strdup (t);
	}
      MR_FREE (t);
      if (msg_n < 6)
	{
	  libc_watch (false);
	  msg_activity ();
	  COUNT (fault_msg_handler_reentry);
	}
      if (w)
	libc_watch (true);
      libc_live = l;
      faults_resume ();
      msg_inside = false;
    }
  ++msg_n;
}

/* what the handler does besides logging: uses the library for something else */
static void
handler_activity (void)
{
  gen_cfg_t keep = gen_cfg;
  int rt = draw (T_F, RT_N), fm = draw (T_F, FM_N);
  gen_cfg = (gen_cfg_t) { .alphabet = AL_PLAIN, .budget = 4, .share = true, .voidp = true, .funcs = true, .max_str = 16, .text_floats = true };
  gen_reset ();
  void *o = gen_root (rt), *p = h_alloc (ops[rt].size);
  gen_cfg = keep;
  mark_t m = live_mark ();
  doc_t d = op_save (rt, fm, o);
  if (!d.ok)
    violate ("handler-save", "%s save inside of the message handler fails", rt_of (fm, rt));
  if (draw (T_F, 3) == 2 && d.len > 2)
    {
      /* a failing operation inside of the handler */
      doc_t c = doc_dup (d);
      if (fm == FM_XDR)
	c.len /= 2;
      else
	memset (c.data + c.len / 2, ' ', c.len - c.len / 2);
      op_load (rt, fm, c, p);
      doc_free (&c);
      doc_free (&d);
      /* whatever an accepted document left belongs to the handler */
      static blk_t *blks[1 << 12];
      size_t n = live_after (m, blks, sizeof (blks) / sizeof (blks[0]));
      while (n--)
	blks[n]->lib = 0;
    }
  else
    {
      if (!op_load (rt, fm, d, p))
	violate ("handler-load", "%s load inside of the message handler fails", rt_of (fm, rt));
      if (ops[rt].cmp (o, p))
	violate ("handler-load", "%s load inside of the message handler gives another object", rt_of (fm, rt));
      ops[rt].free (p);
      doc_free (&d);
      leak_check (m, "handler-leak", "operations of the message handler");
    }
}

typedef struct { int ok; doc_t doc; canon_t c; } outcome_t;
typedef struct { int kind, rt, fm; void *obj; doc_t doc; buf_t bad; afault_t f; void *dst; } subject_t;

static void
subject_run (subject_t *s, outcome_t *o, snaps_t *snaps)
{
  memset (o, 0, sizeof (*o));
  memset (s->dst, 0x5a, ops[s->rt].size);
  mark_t m = live_mark ();
  msg_n = 0;
  switch (s->kind)
    {
    case 0:
      o->ok = damaged_load (s->rt, s->fm, &s->bad, s->dst, NULL, "damaged document");
      *snaps = snap_take (m, s->dst, ops[s->rt].size);
      break;
    case 1:
      faults_arm (s->f);
      o->doc = op_save (s->rt, s->fm, s->obj);
      o->ok = o->doc.ok;
      faults_off ();
      break;
    case 2:
    case 3:
      faults_arm (s->f);
      o->ok = s->kind == 2 ? op_load (s->rt, s->fm, s->doc, s->dst) : ops[s->rt].copy (s->obj, s->dst);
      faults_off ();
      if (o->ok)
	{
	  o->c = canon (s->rt, s->dst);
	  o->c.s = memcpy (h_alloc (o->c.len + 1), o->c.s, o->c.len);
	  ops[s->rt].free (s->dst);
	}
      break;
    }
}

static const char *
ll_name (mr_log_level_t l)
{
  return l == MR_LL_WARN ? "WARN" : l == MR_LL_ERROR ? "ERROR" : l == MR_LL_FATAL ? "FATAL" : "?";
}

void
sc_diagnostics (void)
{
  subject_t s = { .kind = draw (T_W, 5) };
  if (s.kind == 4)
    s.kind = 0;
  s.rt = pick_rt ();
  s.fm = draw (T_W, FM_N);
  layout_draw ();
  draw_cfg (s.fm);
  gen_reset ();
  s.obj = gen_root (s.rt);
  s.dst = h_alloc (ops[s.rt].size);
  s.doc = op_save (s.rt, s.fm, s.obj);
  if (!s.doc.ok)
    violate ("save-failed", "%s save reports failure without any fault", rt_of (s.fm, s.rt));
  doc_t other = doc_dup (s.doc);
  msg_t *log1 = h_alloc (MSGS * sizeof (msg_t)), *log2 = h_alloc (MSGS * sizeof (msg_t));
  msg_activity = handler_activity;
  int rounds;
  for (rounds = 1 + draw (T_F, 4); rounds > 0; --rounds)
    {
      const char *what = "";
      if (s.kind == 0)
	{
	  b_replace (&s.bad, 0, s.bad.n, s.doc.data, s.doc.len);
	  int hits = 1 + draw_log (T_F, 4);
	  while (hits--)
	    what = s.fm == FM_XDR ? damage_binary (&s.bad, other) : damage_text (&s.bad, other);
	}
      else
	s.f = faults_draw (60);
      what = cfmt ("%s %s %s", s.kind == 0 ? "load" : s.kind == 1 ? "save" : s.kind == 2 ? "load" : "copy", rt_of (s.fm, s.rt), s.kind ? afault_str (s.f) : what);
      uint32_t at = tape_mark (T_L);
      outcome_t quiet, busy, dflt;
      snaps_t sn1, sn2, sn3;
      msg_hook = msg_record;
      msg_log = log1;
      msg_busy = false;
      subject_run (&s, &quiet, &sn1);
      int n1 = msg_n;
      tape_rewind (T_L, at);
      msg_log = log2;
      msg_busy = true;
      subject_run (&s, &busy, &sn2);
      int n2 = msg_n, i;
      COUNT (ops);
      ev ("%s: %d, %d messages", what, quiet.ok, n1);
#define SAME(o, sn, by)								\
      if (quiet.ok != o.ok)							\
	violate ("diagnostics-change-verdict", "%s: returns %d, and %d with %s", what, quiet.ok, o.ok, by); \
      if (s.kind == 0)								\
	snap_same (&sn1, &sn, "diagnostics-change-result", cfmt ("%s, %s", what, by)); \
      if (s.kind == 1 && !doc_equal (quiet.doc, o.doc))				\
	violate ("diagnostics-change-result", "%s: another document with %s", what, by); \
      if (s.kind > 1 && quiet.ok && !canon_equal (quiet.c, o.c))		\
	violate ("diagnostics-change-result", "%s: another object with %s", what, by);
      SAME (busy, sn2, "a message handler that uses the library");
      if (n1 != n2)
	violate ("diagnostics-differ", "%s: %d messages, and %d with a message handler that uses the library", what, n1, n2);
      for (i = 0; i < n1 && i < MSGS; ++i)
	if (log1[i].id != log2[i].id || log1[i].line != log2[i].line || log1[i].ll != log2[i].ll)
	  violate ("diagnostics-differ", "%s: message %d is %d of line %d, and %d of line %d with a message handler that uses the library", what, i, log1[i].id, log1[i].line, log2[i].id, log2[i].line);
      if (s.kind == 0)
	snap_free (&sn2);
      if (n1)
	nontrivial ();
      if (s.kind == 0)
	{
	  /* no handler: the library prints to the standard error stream, which may fail */
	  simstream_t st = { .err_at = -1 };
	  mr_log_level_t level = MR_LL_INFO + draw (T_F, 5);
	  buf_t wb = { NULL, 0, 0 };
	  b_need (&wb, 1);
	  for (i = 0; i < n1 && i < MSGS; ++i)
	    if (log2[i].ll >= level)
	      {
		char *line;
		int n = asprintf (&line, "%s: in %s %s() line %d: %s\n", ll_name (log2[i].ll), log2[i].file, log2[i].func, log2[i].line, log2[i].text);
		b_replace (&wb, wb.n, 0, line, n);
		free (line);
	      }
	  size_t len = wb.n;
	  char *want = wb.p;
	  want[len] = 0;
	  if (draw (T_F, 4) == 3 && len)
	    {
	      st.err_at = draw (T_F, len);
	      st.err_no = ENOSPC;
	    }
	  FILE *f = simstream_open (&st, false, draw (T_F, 2) ? _IONBF : _IOLBF, 1 + draw_log (T_F, 4000)), *was = stderr;
	  mr_log_level_t lwas = mr_conf.log_level;
	  tape_rewind (T_L, at);
	  mr_conf.log_level = level;
	  msg_handler_set (false);
	  stderr = f;
	  subject_run (&s, &dflt, &sn3);
	  stderr = was;
	  msg_handler_set (true);
	  mr_conf.log_level = lwas;
	  fclose (f);
	  SAME (dflt, sn3, "messages printed by the library");
	  if (n1 < MSGS && !st.errored && (st.out_len != len || memcmp (st.out, want, len)))
	    violate ("diagnostics-text", "%s: %zu bytes of messages printed at level %d, %zu expected; printed \"%.300s\", expected \"%.300s\"", what, st.out_len, level, len, st.out ? cfmt ("%.*s", (int)st.out_len, st.out) : "", want);
	  snap_free (&sn3);
	  if (st.out)
	    h_free (st.out);
	  free (want);
	}
      for (i = 0; i < n2 && i < MSGS; ++i)
	free (log2[i].text);
      if (s.kind == 0)
	snap_free (&sn1);
      msg_hook = NULL;
      sig_mix (n1 + ((uint64_t)s.kind << 32) + ((uint64_t)quiet.ok << 36) + ((uint64_t)(n1 ? log1[0].line : 0) << 40));
    }
  free (s.bad.p);
}
