/* P23: documents keep their meaning across versions of the program and edits by hand.  Built into the variant "up" only:
   types_w.h and types_x.h (see vers.py) hold the same types with fields in another order, and with further fields. */
#ifdef SIM_UP
#define _GNU_SOURCE
#include "fmt.h"
#include "scen.h"
#include "types_w.h"
#include "types_x.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <ctype.h>

#define VERSION(v)							\
  extern gen_cfg_t gen_cfg_##v; void gen_reset_##v (void); void *gen_root_##v (int rt); canon_t canon_##v (int rt, const void *root);	\
  void ownership_check_##v (mark_t m, int rt, const void *root, const char *cls, const char *what);
VERSION (w) VERSION (x)

typedef struct { const char *name; size_t size; char *(*save) (int fm, void *obj); int (*load) (int fm, char *s, void *dst); int (*free) (void *obj); } vops_t;
#define DEF(T)									\
  static char * save_##T (int fm, void *obj) {					\
    T *p = obj;									\
    switch (fm) {								\
      case FM_CINIT: return MR_SAVE_CINIT (T, p);				\
      case FM_JSON: return MR_SAVE_JSON (T, p);					\
      case FM_SCM: return MR_SAVE_SCM (T, p);					\
      case FM_XML1: return MR_SAVE_XML1 (T, p);					\
      case FM_XML2: return MR_SAVE_XML2 (T, p);					\
      case FM_YAML: return MR_SAVE_YAML (T, p);					\
      } return NULL; }								\
  static int load_##T (int fm, char *s, void *dst) {				\
    T *p = dst;									\
    switch (fm) {								\
      case FM_CINIT: return MR_LOAD_CINIT (T, s, p) == MR_SUCCESS;		\
      case FM_JSON: return MR_LOAD_JSON (T, s, p) == MR_SUCCESS;		\
      case FM_SCM: return MR_LOAD_SCM (T, s, p) == MR_SUCCESS;			\
      case FM_XML1: return MR_LOAD_XML1 (T, s, p) == MR_SUCCESS;		\
      case FM_XML2: return MR_LOAD_XML2 (T, s, p) == MR_SUCCESS;		\
      case FM_YAML: return MR_LOAD_YAML (T, s, p) == MR_SUCCESS;		\
      } return 0; }								\
  static int free_##T (void *s) { T *p = s; return MR_FREE_RECURSIVELY (T, p) == MR_SUCCESS; }
#define ALL(X, s) X (s##_root_t) X (s##_scalars_t) X (s##_bits_t) X (s##_arrays_t) X (s##_node_t) X (s##_rsz_t) X (s##_unions_t) X (s##_ptrs_t) \
  X (s##_typed_t) X (s##_tree_t) X (s##_point_t) X (s##_ext_t) X (s##_more_t)
ALL (DEF, sv) ALL (DEF, sw) ALL (DEF, sx)
#define ENT(T) { #T, sizeof (T), save_##T, load_##T, free_##T },
static const vops_t vops[3][RT_N] = { { ALL (ENT, sv) }, { ALL (ENT, sw) }, { ALL (ENT, sx) } };
static const char letters[3] = { 'v', 'w', 'x' };

static const struct { const char *v, *w; } names[] = {
#define X(v, w) { v, w },
#include "names_w.h"
#undef X
};

/* The versions stand for one program whose types keep their names: a document of one becomes a document of another one by
   putting the other letter into the names of its structures.  The same is done to canonical forms before they are compared. */
static void
rename_types (char *s, size_t len, char from, char to)
{
  size_t i, k;
  if (from == to)
    return;
  for (i = 0; i + 3 < len; ++i)
    if (s[i] == 's' && s[i + 1] == from && s[i + 2] == '_' && (i == 0 || !(isalnum ((unsigned char)s[i - 1]) || s[i - 1] == '_')))
      for (k = 0; k < sizeof (names) / sizeof (names[0]); ++k)
	{
	  size_t n = strlen (names[k].v);
	  /* the names of unions without a name are made from the name of the structure and a number */
	  if (i + n <= len && memcmp (s + i + 2, names[k].v + 2, n - 2) == 0 && (i + n == len || !isalnum ((unsigned char)s[i + n])))
	    {
	      s[i + 1] = to;
	      break;
	    }
	}
}

/* ------------------------------------------------------------------ edits by hand */
static char *eo;
static size_t elen, ecap;
static void
put (const char *s, size_t n)
{
  if (elen + n + 1 > ecap)
    harness_error ("edited document too long");
  memcpy (eo + elen, s, n);
  elen += n;
  eo[elen] = 0;
}
static void puts_ (const char *s) { put (s, strlen (s)); }

static uint32_t rate;		/* one possible place in that many is changed */
static bool here (void) { return draw (T_F, rate) == 1; }

static void
space (int fm)
{
  static const char *const ws[] = { " ", "\n", "\t", "  \n  ", "\r\n" };
  static const char *const c_comments[] = { "/* remark */", "/**/", "/* it's a \"remark\" */", "/* two\n lines */", "/***/", "/* a * b / c */", "/* .x = { 1, } */" };
  static const char *const x_comments[] = { "<!-- remark -->", "<!---->", "<!-- <x>1</x> -->", "<!-- it's &amp; \"quoted\" -->" };
  puts_ (ws[draw (T_F, 5)]);
  if (fm == FM_CINIT && draw (T_F, 2))
    puts_ (c_comments[draw (T_F, 7)]);
  if (fm == FM_XML2 && draw (T_F, 2))
    puts_ (x_comments[draw (T_F, 4)]);
  if (draw (T_F, 2))
    puts_ (ws[draw (T_F, 5)]);
}

/* s[i] starts a whole decimal number that is a value of its own */
static size_t
number_at (const char *s, size_t i, size_t len)
{
  size_t j = i, p = i;
  while (j < len && isdigit ((unsigned char)s[j]))
    ++j;
  if (j == i || j - i > 9 || (j - i > 1 && s[i] == '0'))
    return 0;
  if (j < len && !strchr (",}) \n\t", s[j]))
    return 0;
  if (p && s[p - 1] == '-')
    --p;
  if (p == 0 || !strchr ("=,{( \n\t", s[p - 1]))
    return 0;
  return j - i;
}

static void
number (int fm, const char *s, size_t n)
{
  char buf[64], t[16];
  memcpy (t, s, n);
  t[n] = 0;
  unsigned long v = strtoul (t, NULL, 10);
  switch (draw (T_F, fm == FM_CINIT ? 4 : 2))
    {
    case 0: snprintf (buf, sizeof (buf), fm == FM_CINIT ? "0x%lx" : "#x%lx", v); break;
    case 1: snprintf (buf, sizeof (buf), fm == FM_CINIT ? "0X%lX" : "#X%lX", v); break;
    case 2: snprintf (buf, sizeof (buf), "(%lu)", v); break;
    default: snprintf (buf, sizeof (buf), "(%lu + %lu)", v / 3, v - v / 3); break;
    }
  puts_ (buf);
}

/* one character of a string, spelled in another way */
static bool
respell (int fm, unsigned char c)
{
  char buf[16];
  if (!(isalnum (c) && c < 128))
    return false;
  switch (fm)
    {
    case FM_CINIT: snprintf (buf, sizeof (buf), "\\%03o", c); break;
    case FM_JSON: snprintf (buf, sizeof (buf), draw (T_F, 2) ? "\\u%04x" : "\\u%04X", c); break;
    case FM_SCM: snprintf (buf, sizeof (buf), "\\x%x;", c); break;
    case FM_XML2: snprintf (buf, sizeof (buf), draw (T_F, 2) ? "&#x%x;" : "&#%u;", c); break;
    default: snprintf (buf, sizeof (buf), "&#x%x;", c); break;
    }
  puts_ (buf);
  return true;
}

static void
edit_curly (int fm, const char *s, size_t len)
{
  size_t i = 0, j;
  char last = 0;		/* last significant character */
  while (i < len)
    {
      char c = s[i];
      if (c == '"' || (c == '\'' && fm == FM_CINIT))
	{
	  for (j = i + 1; j < len && s[j] != c; ++j)
	    if (s[j] == '\\')
	      ++j;
	  size_t k = j + 1;
	  while (k < len && isspace ((unsigned char)s[k]))
	    ++k;
	  bool name = fm == FM_JSON && k < len && s[k] == ':';
	  bool esc = false;
	  put (s + i, 1);
	  for (k = i + 1; k < j; ++k)
	    {
	      if (!esc && s[k] != '\\' && !name && c == '"' && here () && respell (fm, s[k]))
		continue;
	      esc = !esc && s[k] == '\\';
	      if (esc)
		{
		  /* an escape and what belongs to it */
		  size_t e = k + 2;
		  while (e < j && isxdigit ((unsigned char)s[e]) && e < k + 6)
		    ++e;
		  put (s + k, e - k);
		  k = e - 1;
		  esc = false;
		}
	      else
		put (s + k, 1);
	    }
	  if (j < len)
	    put (s + j, 1);
	  i = j + 1;
	  last = '"';
	  continue;
	}
      if (fm == FM_CINIT && c == '/' && i + 1 < len && s[i + 1] == '*')
	{
	  const char *e = strstr (s + i + 2, "*/");
	  j = e ? (size_t)(e - s) + 2 : len;
	  put (s + i, j - i);
	  i = j;
	  continue;
	}
      if (fm == FM_CINIT && c == '(' && i + 1 < len && isalpha ((unsigned char)s[i + 1]))
	{
	  /* a cast */
	  for (j = i; j < len && s[j] != ')'; ++j)
	    ;
	  put (s + i, j + 1 - i);
	  i = j + 1;
	  last = ')';
	  continue;
	}
      size_t n = fm == FM_CINIT ? number_at (s, i, len) : 0;
      if (n && here ())
	{
	  number (fm, s + i, n);
	  i += n;
	  last = '0';
	  continue;
	}
      bool mark = strchr (fm == FM_CINIT ? "{}=," : "{}[]:,", c) != NULL;
      if (mark && here ())
	{
	  if (fm == FM_CINIT && c == '}' && last != '{' && last != ',' && draw (T_F, 2))
	    puts_ (",");
	  space (fm);
	}
      put (s + i, 1);
      if (mark && here ())
	space (fm);
      if (!isspace ((unsigned char)c))
	last = c;
      /* digits of one number stay together */
      if (isdigit ((unsigned char)c))
	while (i + 1 < len && (isalnum ((unsigned char)s[i + 1]) || s[i + 1] == '.'))
	  put (s + ++i, 1);
      ++i;
    }
}

static void
edit_scm (const char *s, size_t len)
{
  size_t i = 0, j;
  while (i < len)
    {
      char c = s[i];
      if (c == '"')
	{
	  put (s + i, 1);
	  for (j = i + 1; j < len && s[j] != '"'; ++j)
	    if (s[j] == '\\')
	      {
		size_t e = j + 2;
		if (j + 1 < len && s[j + 1] == 'x')
		  while (e < len && s[e - 1] != ';')
		    ++e;
		put (s + j, e - j);
		j = e - 1;
	      }
	    else if (!(here () && respell (FM_SCM, s[j])))
	      put (s + j, 1);
	  if (j < len)
	    put (s + j, 1);
	  i = j + 1;
	  continue;
	}
      if (c == '#' && i + 2 < len && s[i + 1] == '\\')
	{
	  put (s + i, 3);
	  i += 3;
	  continue;
	}
      if (c == ';')
	{
	  for (j = i; j < len && s[j] != '\n'; ++j)
	    ;
	  put (s + i, j - i);
	  i = j;
	  continue;
	}
      size_t n = number_at (s, i, len);
      if (n && here ())
	{
	  /* the sign stays in front of the mark of the base */
	  number (FM_SCM, s + i, n);
	  i += n;
	  continue;
	}
      put (s + i, 1);
      if (isspace ((unsigned char)c) && here ())
	{
	  space (FM_SCM);
	  /* a remark between two elements of a list */
	  for (j = i + 1; j < len && isspace ((unsigned char)s[j]); ++j)
	    ;
	  if (j < len && s[j] == '(' && draw (T_F, 2))
	    puts_ (draw (T_F, 2) ? "; remark\n" : "\n;; it's (a . remark \"\n");
	}
      if (isdigit ((unsigned char)c))
	while (i + 1 < len && (isalnum ((unsigned char)s[i + 1]) || s[i + 1] == '.'))
	  put (s + ++i, 1);
      ++i;
    }
}

static void
edit_xml (int fm, const char *s, size_t len)
{
  size_t i = 0, j;
  bool closing = false;
  while (i < len)
    {
      if (s[i] == '<')
	{
	  bool head = i + 1 < len && s[i + 1] == '?';
	  for (j = i; j < len && s[j] != '>'; ++j)
	    ;
	  closing = (i + 1 < len && s[i + 1] == '/') || (j && s[j - 1] == '/') || head;
	  size_t e = j;
	  if (e && (s[e - 1] == '/' || s[e - 1] == '?'))
	    --e;
	  put (s + i, e - i);
	  if (!head && here ())
	    puts_ (draw (T_F, 2) ? " " : "\n\t");
	  if (j < len)
	    put (s + e, j + 1 - e);
	  i = j + 1;
	  continue;
	}
      /* what lies between two tags */
      for (j = i; j < len && s[j] != '<'; ++j)
	;
      size_t k;
      bool blank = true;
      for (k = i; k < j; ++k)
	blank &= isspace ((unsigned char)s[k]) != 0;
      bool opens = j + 1 < len && s[j] == '<' && s[j + 1] != '/';
      if (blank && (opens || closing) && j < len && i > 0)
	{
	  put (s + i, j - i);
	  if (here ())
	    space (fm);
	}
      else
	for (k = i; k < j; ++k)
	  if (s[k] == '&')
	    {
	      size_t e = k;
	      while (e < j && s[e] != ';')
		++e;
	      put (s + k, e + 1 - k);
	      k = e;
	    }
	  else if (!(here () && respell (fm, s[k])))
	    put (s + k, 1);
      i = j;
      if (j < len && s[j] == '<' && i == j && blank && !opens && !closing)
	closing = false;
    }
}

static void
edit (int fm, doc_t *d)
{
  static const uint32_t rates[] = { 200, 40, 8, 3, 2 };
  rate = rates[draw (T_F, 5)];
  ecap = d->len * 60 + 4096;
  eo = malloc (ecap);
  elen = 0;
  switch (fm)
    {
    case FM_CINIT: case FM_JSON: edit_curly (fm, d->data, d->len); break;
    case FM_SCM: edit_scm (d->data, d->len); break;
    case FM_XML1: case FM_XML2: edit_xml (fm, d->data, d->len); break;
    default:
      {
	/* indentation matters: only a remark behind the mark of the beginning */
	size_t n = d->len >= 4 && memcmp (d->data, "---\n", 4) == 0 ? 4 : 0;
	put (d->data, n);
	if (n)
	  puts_ ("# it's a remark: yes\n\n  # another one\n");
	put (d->data + n, d->len - n);
      }
    }
  h_free (d->data);
  d->data = h_alloc (elen + 1);
  memcpy (d->data, eo, elen + 1);
  d->len = elen;
  free (eo);
}

void
sc_upgrade (void)
{
  int rt = pick_rt (), fm = draw (T_W, FM_XDR), src = draw (T_F, 2), dst = draw (T_F, 3), faulty = draw (T_F, 4) == 3;
  layout_draw ();
  draw_cfg (fm);
  /* positions inside of a block and overlaps depend on the layout of the structures of one version */
  gen_cfg.interior = gen_cfg.overlap = gen_cfg.str_in_array = gen_cfg.voidp = false;
  /* the size of a shared array is stored in bytes: it means the same only while the elements keep their size */
  if (sizeof (sv_point_t) != sizeof (sw_point_t) || sizeof (sv_node_t) != sizeof (sw_node_t) || dst == 2)
    gen_cfg.share = gen_cfg.swap = false;
  gen_cfg_w = gen_cfg;
  gen_reset ();
  gen_reset_w ();
  void *a = src ? gen_root_w (rt) : gen_root (rt);
  canon_t ca = src ? canon_w (rt, a) : canon (rt, a);
  char *want = malloc (ca.len + 1);
  memcpy (want, ca.s, ca.len + 1);
  ca.s = want;
  rename_types (want, ca.len, letters[src], 'v');
  ev ("upgrade %s %s -> %s", fm_name[fm], vops[src][rt].name, vops[dst][rt].name);
  ev_data ("object", ca.s, ca.len);
  char *s = vops[src][rt].save (fm, a);
  if (!s)
    violate ("save-failed", "%s save of %s reports failure without any fault", fm_name[fm], vops[src][rt].name);
  doc_t d = { .len = strlen (s), .ok = true };
  d.data = h_alloc (d.len + 1);
  memcpy (d.data, s, d.len + 1);
  sim_free ("", "harness", 0, s);
  rename_types (d.data, d.len, letters[src], letters[dst]);
  bool edited = draw (T_F, 2);
  if (edited)
    edit (fm, &d);
  ev_data ("doc", d.data, d.len);
  /* the program that loads is the other version */
  COUNT (fault_crash_restart);
  layout_draw ();
  void *b = h_alloc (vops[dst][rt].size);
  mark_t m = live_mark ();
  const char *how = cfmt ("%s document of %s loaded into %s%s", fm_name[fm], vops[src][rt].name, vops[dst][rt].name, edited ? " after edits" : "");
  if (faulty)
    {
      /* an attempt that runs out of memory first */
      memset (b, 0x5a, vops[dst][rt].size);
      alloc_ops = 0;
      faults_arm (faults_draw (120));
      int ok = vops[dst][rt].load (fm, d.data, b);
      faults_off ();
      ev ("attempt %d", ok);
      if (!ok)
	COUNT (probe_fail_reported);
      vops[dst][rt].free (b);
      leak_check (m, "load-leak", how);
      m = live_mark ();
    }
  memset (b, 0x5a, vops[dst][rt].size);
  if (!vops[dst][rt].load (fm, d.data, b))
    violate (cfmt ("%s-rejected:%s", edited ? "edited" : src == dst ? "own" : "other-version", fm_name[fm]), "%s is rejected", how);
  canon_t cb = dst == 0 ? canon (rt, b) : dst == 1 ? canon_w (rt, b) : canon_x (rt, b);
  rename_types ((char*)cb.s, cb.len, letters[dst], 'v');
  ev_data ("loaded", cb.s, cb.len);
  canon_compare (ca, cb, cfmt ("%s-differs:%s", edited ? "edited" : src == dst ? "own" : "other-version", fm_name[fm]), how);
  (dst == 0 ? ownership_check : dst == 1 ? ownership_check_w : ownership_check_x) (m, rt, b, "load-leak", how);
  if (edited || src != dst)
    nontrivial ();
  sig_mix (ca.h + fm + dst * 7);
  COUNT (op_ok);
  free (want);
}
#endif
