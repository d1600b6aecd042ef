#define _GNU_SOURCE
#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <pthread.h>
#include <sys/mman.h>

const char *tape_name[T_N] = { "workload", "faults", "schedule", "layout" };
#define X(n) #n,
const char *counter_name[C_N] = { COUNTERS (X) };
#undef X
shared_t *sh;
uint64_t run_seed;
bool run_replay, log_on;

/* ------------------------------------------------------------------ PRNG and tapes */
static uint64_t
splitmix (uint64_t *s)
{
  uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

static uint64_t tape_rng[T_N];
static uint32_t tape_pos[T_N];
static bool tape_seeded;

static void
tapes_seed (void)
{
  int i;
  for (i = 0; i < T_N; ++i)
    {
      tape_rng[i] = run_seed * 0x2545f4914f6cdd1dull + (uint64_t)(i + 1) * 0x9e3779b97f4a7c15ull;
      splitmix (&tape_rng[i]);
    }
  tape_seeded = true;
}

uint32_t
draw (int t, uint32_t bound)
{
  uint32_t v;
  if (bound <= 1)
    return 0;
  if (!tape_seeded)
    tapes_seed ();
  if (run_replay || tape_pos[t] < sh->tape_len[t])
    v = (tape_pos[t] < sh->tape_len[t]) ? sh->tape[t][tape_pos[t]] % bound : 0;
  else
    {
      v = (uint32_t)(((splitmix (&tape_rng[t]) >> 32) * (uint64_t)bound) >> 32);
      if (tape_pos[t] < TAPE_CAP)
	{
	  sh->tape[t][tape_pos[t]] = v;
	  sh->tape_len[t] = tape_pos[t] + 1;
	}
      else
	v = 0; /* past the end of the tape every choice is the simplest one, exactly as in a replay */
    }
  ++tape_pos[t];
  return v;
}

uint32_t tape_mark (int t) { return tape_pos[t]; }
void tape_rewind (int t, uint32_t pos) { tape_pos[t] = pos; }

uint32_t
draw_log (int t, uint32_t bound)
{
  uint32_t bits = 0;
  if (bound <= 1)
    return 0;
  while (bits < 31 && (1u << (bits + 1)) <= bound)
    ++bits;
  uint32_t b = draw (t, bits + 2);
  if (b == 0)
    return 0;
  uint32_t lim = (b >= 32) ? UINT32_MAX : (1u << b);
  return draw (t, lim > bound ? bound : lim);
}

/* ------------------------------------------------------------------ event history */
uint64_t
hash64 (const void *p, size_t n, uint64_t h)
{
  const uint8_t *s = p;
  while (n--)
    h = (h ^ *s++) * 0x100000001b3ull;
  return h ^ (h >> 29);
}

static void
log_line (const char *s)
{
  size_t n = strlen (s);
  if (sh->log_len + n + 2 < LOG_CAP)
    {
      memcpy (sh->log + sh->log_len, s, n);
      sh->log_len += n;
      sh->log[sh->log_len++] = '\n';
      sh->log[sh->log_len] = 0;
    }
}

void
ev (const char *fmt, ...)
{
  char buf[1024];
  va_list ap;
  va_start (ap, fmt);
  int n = vsnprintf (buf, sizeof (buf), fmt, ap);
  va_end (ap);
  if (n >= (int)sizeof (buf))
    n = sizeof (buf) - 1;
  sh->hash = hash64 (buf, n, sh->hash ^ 0xcbf29ce484222325ull);
  ++sh->events;
  if (log_on)
    log_line (buf);
}

void
ev_data (const char *what, const void *p, size_t n)
{
  sh->hash = hash64 (p, n, sh->hash ^ 0x51ed270b35a1f00dull);
  ++sh->events;
  if (log_on)
    {
      char buf[1024];
      size_t i, k = snprintf (buf, sizeof (buf), "%s[%zu]=", what, n);
      const uint8_t *s = p;
      for (i = 0; i < n && k + 8 < sizeof (buf); ++i)
	if (s[i] >= 32 && s[i] < 127 && s[i] != '\\')
	  buf[k++] = s[i];
	else
	  k += sprintf (buf + k, "\\x%02x", s[i]);
      buf[k] = 0;
      log_line (buf);
    }
}

void
sig_mix (uint64_t x)
{
  sh->state_sig = hash64 (&x, sizeof (x), sh->state_sig);
}

const char *
cfmt (const char *fmt, ...)
{
  static char ring[8][2048];
  static int pos;
  char *b = ring[pos++ & 7];
  va_list ap;
  va_start (ap, fmt);
  vsnprintf (b, sizeof (ring[0]), fmt, ap);
  va_end (ap);
  return b;
}

static void
final_record (int phase)
{
  sh->steps = sim_steps;
  __sync_synchronize ();
  sh->phase = phase;
}

extern void __gcov_dump (void) __attribute__ ((weak));
static void __attribute__ ((noreturn))
end_process (void)
{
  if (__gcov_dump)
    __gcov_dump ();
  _exit (0);
}

void
violate (const char *cls, const char *fmt, ...)
{
  va_list ap;
  va_start (ap, fmt);
  vsnprintf (sh->detail, sizeof (sh->detail), fmt, ap);
  va_end (ap);
  snprintf (sh->cls, sizeof (sh->cls), "%s", cls);
  ev ("VIOLATION %s", cls);
  final_record (2);
  end_process ();
}

void
harness_error (const char *fmt, ...)
{
  va_list ap;
  va_start (ap, fmt);
  vsnprintf (sh->detail, sizeof (sh->detail), fmt, ap);
  va_end (ap);
  snprintf (sh->cls, sizeof (sh->cls), "harness-error");
  final_record (3);
  end_process ();
}

/* the simulation's own limit was reached: no verdict */
static void
inconclusive (const char *why)
{
  snprintf (sh->detail, sizeof (sh->detail), "%s", why);
  snprintf (sh->cls, sizeof (sh->cls), "inconclusive");
  final_record (4);
  end_process ();
}

void
finish (void)
{
  final_record (1);
  end_process ();
}

/* ------------------------------------------------------------------ step clock and coverage */
uint64_t sim_steps, sim_step_limit = UINT64_MAX, sim_work;
static const char *step_what = "?";

void
step_budget (uint64_t n, const char *what)
{
  step_what = what;
  sim_step_limit = (n == UINT64_MAX) ? n : sim_steps + n;
}

int sched_active, sched_self;
void sched_tick (void);

#define NOINST __attribute__ ((no_sanitize ("address"), no_sanitize ("thread"), no_instrument_function))
static uint8_t cov_local_dummy[1];
uint8_t *cov_map = cov_local_dummy;
uint32_t cov_mask = 0;

NOINST void
__sanitizer_cov_trace_pc (void)
{
  uintptr_t pc = (uintptr_t)__builtin_return_address (0);
  uint8_t *c = &cov_map[(uint32_t)((pc * 0x9e3779b97f4a7c15ull) >> 40) & cov_mask];
  if (*c != 255)
    ++*c;
  if (__builtin_expect (++sim_steps > sim_step_limit, 0))
    {
      sim_step_limit = UINT64_MAX;
      char cls[96];
      snprintf (cls, sizeof (cls), "no-progress:%s", step_what);
      violate (cls, "operation did not finish within its step budget (%llu basic blocks)", (unsigned long long)sim_steps);
    }
  if (sched_active)
    sched_tick ();
}

/* ------------------------------------------------------------------ simulated memory */
#define ARENA_BASE ((uintptr_t)0x200000000000ull)
#define ARENA_SIZE ((size_t)96 << 20)
#define RZ 32
#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
#define POISON(a, n) __asan_poison_memory_region ((void*)(a), n)
#define UNPOISON(a, n) __asan_unpoison_memory_region ((void*)(a), n)
#else
/* own shadow for the build without ASan: 0 = not accessible, else accessible bytes of the 8-byte granule */
static uint8_t *ts_shadow;
static void POISON (uintptr_t a, size_t n) { memset (ts_shadow + ((a - ARENA_BASE) >> 3), 0, (n + 7) >> 3); }
static void UNPOISON (uintptr_t a, size_t n)
{
  memset (ts_shadow + ((a - ARENA_BASE) >> 3), 8, n >> 3);
  if (n & 7)
    ts_shadow[(a + n - ARENA_BASE) >> 3] = n & 7;
}
NOINST void
ts_check (uintptr_t a, size_t n, bool write)
{
  if (a - ARENA_BASE >= ARENA_SIZE || ts_shadow == NULL)
    return;
  size_t i;
  for (i = 0; i < n; ++i)
    if (((a + i) & 7) >= ts_shadow[(a + i - ARENA_BASE) >> 3])
      {
	sched_active = 0;
	violate ("memory-error", "%s of %zu bytes at unallocated or freed simulated memory", write ? "write" : "read", n);
      }
}
#endif

#define MAX_BLKS (1 << 17)
#define HT (1 << 18)
static blk_t blks[MAX_BLKS];
static uint32_t nblks, ht[HT];
static uintptr_t cur_up, cur_down, seg_cur[64];
static uint32_t alloc_seq;
static size_t live_bytes, live_n;
static int pol_order, pol_reuse, pol_move;
static uint8_t pol_fill = 0;
static bool pol_on;
#define FREELIST 64
static struct { uintptr_t addr; size_t cap; } flist[FREELIST];
static int nflist;
static struct { uintptr_t addr; size_t cap; } caps_dummy;

void
arena_init (void)
{
  (void)caps_dummy;
  void *p = mmap ((void*)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE,
		  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)ARENA_BASE)
    {
      fprintf (stderr, "cannot map arena\n");
      exit (2);
    }
#ifndef SIM_ASAN
  ts_shadow = mmap ((void*)(ARENA_BASE + ((uintptr_t)1 << 32)), ARENA_SIZE >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
#endif
  POISON (ARENA_BASE, ARENA_SIZE);
  cur_up = ARENA_BASE + 4096;
  cur_down = ARENA_BASE + ARENA_SIZE - 4096;
}

static uint32_t
ht_slot (uintptr_t a)
{
  uint32_t h = (uint32_t)((a * 0x9e3779b97f4a7c15ull) >> 40) & (HT - 1);
  while (ht[h] && blks[ht[h] - 1].addr != a)
    h = (h + 1) & (HT - 1);
  return h;
}

blk_t *
blk_find (const void *p)
{
  uint32_t s = ht_slot ((uintptr_t)p);
  return (ht[s] && blks[ht[s] - 1].live) ? &blks[ht[s] - 1] : NULL;
}

static blk_t *
blk_any (const void *p)
{
  uint32_t s = ht_slot ((uintptr_t)p);
  return ht[s] ? &blks[ht[s] - 1] : NULL;
}

blk_t *
blk_containing (const void *p)
{
  uint32_t i;
  for (i = 0; i < nblks; ++i)
    if (blks[i].live && (uintptr_t)p >= blks[i].addr && (uintptr_t)p < blks[i].addr + (blks[i].size ? blks[i].size : 1))
      return &blks[i];
  return NULL;
}

size_t live_count (void) { return live_n; }

static uintptr_t
place (size_t size)
{
  size_t cap = (size + 15) & ~(size_t)15, need = cap + 2 * RZ;
  uintptr_t a;
  int i;
  if (pol_reuse)
    for (i = nflist - 1; i >= 0; --i)
      if (flist[i].cap >= cap && flist[i].cap <= 2 * cap + 64)
	{
	  if (pol_reuse == 2 && draw (T_L, 2))
	    continue;
	  a = flist[i].addr;
	  flist[i] = flist[--nflist];
	  COUNT (fault_alloc_reuse);
	  return a;
	}
  if (cur_down - cur_up < need + (1 << 20))
    return 0;
  if (pol_order == 1)
    {
      cur_down -= need;
      return cur_down + RZ;
    }
  if (pol_order == 2)
    {
      uint32_t s = draw (T_L, 64);
      if (seg_cur[s] == 0 || (seg_cur[s] & 0xffff) + need > 0x10000 || need > 0x8000)
	{
	  if (need > 0x8000)
	    {
	      a = cur_up + RZ;
	      cur_up += need;
	      return a;
	    }
	  if (draw (T_L, 2))
	    {
	      cur_down = (cur_down - 0x10000) & ~(uintptr_t)0xffff;
	      seg_cur[s] = cur_down;
	    }
	  else
	    {
	      cur_up = (cur_up + 0xffff) & ~(uintptr_t)0xffff;
	      seg_cur[s] = cur_up;
	      cur_up += 0x10000;
	    }
	}
      a = seg_cur[s] + RZ;
      seg_cur[s] += need;
      if ((seg_cur[s] & 0xffff) == 0)
	seg_cur[s] = 0;		/* full: what follows belongs to another segment */
      return a;
    }
  a = cur_up + RZ;
  cur_up += need;
  return a;
}

size_t arena_request = (size_t)8 << 20, arena_total = (size_t)64 << 20;

static void *
take (size_t size, const char *func, int line, bool lib)
{
  /* what the simulated machine refuses depends on the request alone, not on what else lies in memory */
  if (size > arena_request)
    {
      COUNT (huge_alloc_refused);
      return NULL;
    }
  uintptr_t a = live_bytes + size > arena_total || nblks >= MAX_BLKS - 1 ? 0 : place (size ? size : 1);
  if (!a)
    inconclusive ("the simulated memory is used up");
  uint32_t s = ht_slot (a);
  blk_t *b;
  if (ht[s])
    b = &blks[ht[s] - 1];
  else
    {
      b = &blks[nblks++];
      b->addr = a;
      ht[s] = nblks;
    }
  b->size = size;
  b->seq = ++alloc_seq;
  b->live = 1;
  b->lib = lib;
  b->func = func;
  b->line = line;
  live_bytes += size;
  ++live_n;
  UNPOISON (a, size ? size : 0);
  return (void*)a;
}

static void
drop (blk_t *b)
{
  b->live = 0;
  live_bytes -= b->size;
  --live_n;
  size_t cap = (b->size + 15) & ~(size_t)15;
  UNPOISON (b->addr, b->size);
  memset ((void*)b->addr, 0xdd, b->size);
  POISON (b->addr, cap ? cap : 16);
  if (pol_reuse)
    {
      if (nflist < FREELIST)
	{
	  flist[nflist].addr = b->addr;
	  flist[nflist].cap = cap ? cap : 16;
	  ++nflist;
	}
    }
}

void
layout_default (void)
{
  pol_on = true;
  pol_order = pol_reuse = 0;
  pol_move = 1;
  pol_fill = 0xa5;
}

/* freed blocks are used again, so that long runs fit */
void
layout_plain (int order, int move)
{
  layout_default ();
  pol_order = order;
  pol_reuse = 1;
  pol_move = move;
}

void
layout_draw (void)
{
  static const uint8_t fills[] = { 0xa5, 0x00, 0xff, 0x01, 0x7f, 0x80, '<', '"' };
  pol_on = true;
  pol_order = draw (T_L, 3);
  pol_reuse = draw (T_L, 3);
  pol_move = 1 + draw (T_L, 3);		/* 1 always moves, 2 in place when it fits, 3 either */
  pol_fill = fills[draw (T_L, sizeof (fills))];
  ev ("layout order=%d reuse=%d realloc=%d fill=%02x", pol_order, pol_reuse, pol_move, pol_fill);
}

void *arena_low (void) { return (void*)ARENA_BASE; }
void *arena_high (void) { return (void*)(ARENA_BASE + ARENA_SIZE); }

/* --- allocation faults */
static afault_t af;
uint64_t alloc_ops, faults_fired;
const char *last_fault_func = ""; int last_fault_line;

void
faults_off (void)
{
  af.mode = 0;
}

void
faults_arm (afault_t f)
{
  af = f;
  alloc_ops = 0;
  faults_fired = 0;
}

static afault_t held_af;
static uint64_t held_ops, held_fired;

void
faults_suspend (void)
{
  held_af = af;
  held_ops = alloc_ops;
  held_fired = faults_fired;
  af.mode = 0;
}

void
faults_resume (void)
{
  af = held_af;
  alloc_ops = held_ops;
  faults_fired = held_fired;
}

afault_t
faults_draw (uint64_t n)
{
  afault_t f = { 0, 0, 0 };
  if (n > 0xffffff)
    n = 0xffffff;
  static const int modes[] = { 0, 1, 1, 1, 1, 1, 3, 3, 2, 4 };
  f.mode = modes[draw (T_F, 10)];
  if (f.mode)
    {
      /* half uniform over the allocations of the fault-free run, half biased to its two ends */
      uint32_t how = draw (T_F, 4);
      if (how < 2)
	f.k = draw (T_F, n ? n : 1);
      else if (how == 2)
	f.k = draw_log (T_F, n ? n : 1);
      else
	f.k = (n ? n - 1 : 0) - draw_log (T_F, n ? n : 1);
      f.period = (f.mode == 2) ? 2 + draw_log (T_F, 64) : (f.mode == 4) ? 2 + draw (T_F, 6) : 0;
    }
  return f;
}

const char *
afault_str (afault_t f)
{
  static const char *m[] = { "none", "single", "periodic", "persistent", "burst" };
  return cfmt ("%s at %llu period %llu", m[f.mode], (unsigned long long)f.k, (unsigned long long)f.period);
}

static bool
alloc_fails (const char *func, int line, int is_realloc)
{
  uint64_t i = alloc_ops++;
  bool fail = false;
  switch (af.mode)
    {
    case 1: fail = (i == af.k); break;
    case 2: fail = (i >= af.k) && ((i - af.k) % af.period == 0); break;
    case 3: fail = (i >= af.k); break;
    case 4: fail = (i >= af.k) && (i < af.k + af.period); break;
    default: return false;
    }
  if (fail)
    {
      ++faults_fired;
      last_fault_func = func;
      last_fault_line = line;
      if (is_realloc)
	COUNT (fault_alloc_realloc);
      else
	COUNT (fault_alloc_calloc);
      if (af.mode == 4)
	COUNT (fault_alloc_burst);
      if (af.mode == 3)
	COUNT (fault_alloc_persistent);
      if (faults_fired < 64)
	ev ("fault: %s fails, request %llu in %s:%d", is_realloc ? "realloc" : "calloc", (unsigned long long)i, func, line);
    }
  return fail;
}

void *
sim_calloc (const char *file, const char *func, int line, size_t count, size_t size)
{
  (void)file;
  if (alloc_fails (func, line, 0))
    return NULL;
  size_t n;
  if (__builtin_mul_overflow (count, size, &n))
    {
      COUNT (huge_alloc_refused);
      return NULL;
    }
  void *p = take (n, func, line, true);
  if (p)
    memset (p, 0, n);
  return p;
}

static void
bad_free (const char *func, int line, void *ptr, const char *op)
{
  blk_t *b = blk_any (ptr);
  faults_off ();
  if (b && !b->live)
    violate ("double-free", "%s of a block already freed (%s:%d), block of %zu bytes allocated at %s:%d", op, func, line, b->size, b->func, b->line);
  violate ("invalid-free", "%s of a pointer that is not the start of an allocated block (%s:%d)", op, func, line);
}

void *
sim_realloc (const char *file, const char *func, int line, void *ptr, size_t size)
{
  (void)file;
  if (ptr && !blk_find (ptr))
    bad_free (func, line, ptr, "realloc");
  if (alloc_fails (func, line, 1))
    return NULL;
  blk_t *b = ptr ? blk_find (ptr) : NULL;
  size_t old = b ? b->size : 0;
  bool in_place = false;
  if (b && pol_on && pol_move != 1)
    {
      size_t cap = (old + 15) & ~(size_t)15;
      if (size <= cap)
	in_place = (pol_move == 2) || draw (T_L, 2);
    }
  if (in_place)
    {
      live_bytes += size - old;
      b->size = size;
      b->func = func;
      b->line = line;
      POISON (b->addr, ((size > old ? size : old) + 15) & ~(size_t)15);
      UNPOISON (b->addr, size);
      if (size > old)
	memset ((char*)ptr + old, pol_fill, size - old);
      return ptr;
    }
  void *p = take (size, func, line, true);
  if (!p)
    return NULL;
  memset (p, pol_fill, size);
  COUNT (fault_alloc_stale_fill);
  if (b)
    {
      memcpy (p, ptr, old < size ? old : size);
      sim_work += (old < size ? old : size) / 16;
      bool lib = b->lib;
      drop (b);
      (void)lib;
      COUNT (fault_realloc_move);
    }
  return p;
}

void
sim_free (const char *file, const char *func, int line, void *ptr)
{
  (void)file;
  if (!ptr)
    return;
  blk_t *b = blk_find (ptr);
  if (!b)
    bad_free (func, line, ptr, "free");
  drop (b);
}

void *
h_alloc (size_t size)
{
  void *p = take (size, "harness", 0, false);
  if (!p)
    harness_error ("out of arena for %zu bytes", size);
  memset (p, 0, size);
  return p;
}

void
h_free (void *p)
{
  blk_t *b = blk_find (p);
  if (!b)
    harness_error ("harness frees a foreign block");
  drop (b);
}

mark_t
live_mark (void)
{
  mark_t m = { alloc_seq, live_n };
  return m;
}

size_t
live_after (mark_t m, blk_t **out, size_t cap)
{
  uint32_t i;
  size_t n = 0;
  for (i = 0; i < nblks; ++i)
    if (blks[i].live && blks[i].lib && blks[i].seq > m.seq)
      {
	if (n < cap)
	  out[n] = &blks[i];
	++n;
      }
  return n;
}

bool lib_keeps;
void
leak_check (mark_t m, const char *cls, const char *what)
{
  blk_t *b[4];
  size_t n = lib_keeps ? 0 : live_after (m, b, 4);
  if (n)
    violate (cls, "%s: %zu block(s) never released; first: %zu bytes allocated at %s:%d%s", what, n, b[0]->size, b[0]->func, b[0]->line,
	     faults_fired ? cfmt (" (after allocation failure in %s:%d)", last_fault_func, last_fault_line) : "");
}

/* ------------------------------------------------------------------ libc heap watch */
int64_t libc_live;
bool libc_watching;
#ifdef SIM_ASAN
extern int __sanitizer_install_malloc_and_free_hooks (void (*m) (const volatile void *, size_t), void (*f) (const volatile void *));
static void on_malloc (const volatile void *p, size_t n) { (void)n; if (libc_watching && p) ++libc_live; }
static void on_free (const volatile void *p) { if (libc_watching && p) --libc_live; }
#endif
void
libc_watch (bool on)
{
#ifdef SIM_ASAN
  static bool installed;
  if (!installed)
    {
      installed = true;
      __sanitizer_install_malloc_and_free_hooks (on_malloc, on_free);
    }
#endif
  if (on)
    libc_live = 0;
  libc_watching = on;
}

#ifndef SIM_SCHED
/* work done by the C library on behalf of the library under test, which has no basic blocks to count */
size_t __wrap_strlen (const char *s) { size_t n = strlen (s); sim_work += n / 16; return n; }
void *__wrap_memset (void *d, int c, size_t n) { sim_work += n / 16; return memset (d, c, n); }
void *__wrap_memcpy (void *d, const void *s, size_t n) { sim_work += n / 16; return memcpy (d, s, n); }
void *__wrap_memmove (void *d, const void *s, size_t n) { sim_work += n / 16; return memmove (d, s, n); }
#endif

/* ------------------------------------------------------------------ fixed stack */
static void *
fs_tramp (void *p)
{
  ((void (*) (void))p) ();
  return NULL;
}

void
on_fixed_stack (void (*fn) (void))
{
  static const uintptr_t base = 0x210000000000ull;
  size_t size = 64 << 20;
  pthread_attr_t at;
  pthread_t th;
  void *p = mmap ((void*)base, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)base)
    {
      fprintf (stderr, "cannot map stack\n");
      exit (2);
    }
  pthread_attr_init (&at);
  pthread_attr_setstack (&at, p, size);
  if (pthread_create (&th, &at, fs_tramp, fn) != 0)
    {
      fprintf (stderr, "cannot start the simulated main thread\n");
      exit (2);
    }
  pthread_join (th, NULL);
}

#ifdef SIM_ASAN
const char *
__asan_default_options (void)
{
  return "detect_leaks=0:allocator_may_return_null=1:symbolize=0:exitcode=77:abort_on_error=0:handle_abort=1:handle_sigfpe=1:"
    "handle_sigill=1:max_malloc_fill_size=65536:malloc_fill_byte=165:quarantine_size_mb=16:detect_stack_use_after_return=0:"
    "max_allocation_size_mb=512:print_summary=0:print_legend=0:print_full_thread_history=0:intercept_tls_get_addr=0";
}

void
__asan_on_error (void)
{
  if (getenv ("SIM_SYMBOLIZE"))
    return;
  char cls[96];
  snprintf (cls, sizeof (cls), "memory-error:%s", __asan_get_report_description () ? __asan_get_report_description () : "?");
  sched_active = 0;
  violate (cls, "%s at pc %p, %s of %zu bytes", __asan_get_report_description () ? __asan_get_report_description () : "error",
	   __asan_get_report_pc (), __asan_get_report_access_type () ? "write" : "read", __asan_get_report_access_size ());
}
#endif
