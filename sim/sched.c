/* Seeded scheduler: simulated threads are real threads, but exactly one holds the baton.  Every memory access and
   basic block of the library is a possible preemption point; the schedule tape decides all of them. */
#define _GNU_SOURCE
#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <sys/mman.h>

#ifndef SIM_SCHED
void sched_tick (void) { }
void sched_point (void) { }
void sched_run (int n, void (*body) (int)) { (void)n; (void)body; harness_error ("threads need the scheduler build"); }
#else
#define NT 8
static struct { sem_t sem; pthread_t th; bool done; } thr[NT];
static sem_t main_sem;
static int nthr, ndone;
static int64_t quantum;
static uint64_t slice_start;
static void (*thr_body) (int);
static int style;
static void *spin0, *spin1;
static int spin_n, spin_self;

#define MAXQ 20000
static void
new_quantum (void)
{
  uint32_t k = draw (T_S, 8);
  slice_start = sim_steps;
  switch (style)
    {
    case 0: quantum = k < 2 ? MAXQ : k < 5 ? 1 + draw (T_S, 1000) : 1 + draw (T_S, 50); break;
    case 1: quantum = k == 0 ? MAXQ : 1 + draw_log (T_S, 5000); break;		/* log-uniform */
    case 2: quantum = k < 6 ? MAXQ : 1 + draw (T_S, 5); break;			/* rare bursts of very fine interleaving */
    case 4: quantum = k == 0 ? MAXQ : 1 + draw_log (T_S, 1000000); break;	/* long stalls */
    case 5: case 6: quantum = k < 7 ? MAXQ : 1 + draw_log (T_S, 5000); break;	/* see suspect () */
    default: quantum = k == 0 ? 200 : 1 + draw (T_S, 12); break;		/* fine grained throughout */
    }
}

static void
switch_to (int next, bool forced)
{
  int me = sched_self;
  if (next == me)
    return;
  COUNT (ctx_switches);
  if (!forced)
    COUNT (fault_preempt);
  sig_mix (((uint64_t)next << 32) | (sim_steps - slice_start));
  if (log_on && sh->counters[C_ctx_switches] < 3000)
    ev ("switch %d -> %d at step %llu", me, next, (unsigned long long)sim_steps);
  else
    {
      uint64_t w = sim_steps ^ ((uint64_t)next << 56);
      sh->hash = hash64 (&w, 8, sh->hash);
    }
  sched_self = next;
  sem_post (&thr[next].sem);
  while (sem_wait (&thr[me].sem) != 0)
    ;
}

static int
other (void)
{
  int i, c = 0, pick;
  for (i = 0; i < nthr; ++i)
    if (!thr[i].done && i != sched_self)
      ++c;
  if (!c)
    return sched_self;
  pick = draw (T_S, c);
  for (i = 1; i <= nthr; ++i)
    {
      int j = (sched_self + i) % nthr;
      if (!thr[j].done && j != sched_self && pick-- == 0)
	return j;
    }
  return sched_self;
}

static int in_tick;
static void
preempt (bool forced)
{
  int e = errno;
  in_tick = 1;
  new_quantum ();
  int n = other ();
  in_tick = 0;
  switch_to (n, forced);
  errno = e;
}

void
sched_tick (void)
{
  if (!sched_active || in_tick)
    return;
  if (--quantum <= 0)
    preempt (false);
}

/* Styles 5 and 6 stall threads in places where state might be shared: shortly after one wrote to static data of the program, and in
   some functions (drawn by address), so that the next thread that gets there finds the first one in the middle. */
static uint32_t rv_mod, rv_key;
extern char __data_start[], _end[];
static void
suspect (void)
{
  if (quantum < 500 || in_tick)
    return;
  int e = errno;
  in_tick = 1;
  if (draw (T_S, 2))
    quantum = 1 + draw_log (T_S, 300);
  in_tick = 0;
  errno = e;
}

static inline void
static_write (void *p)
{
  if (sched_active && style == 5 && (char*)p >= __data_start && (char*)p < _end)
    suspect ();
}

void
sched_point (void)
{
  if (sched_active && !in_tick)
    preempt (true);
}

static void *
thr_main (void *p)
{
  int id = (int)(intptr_t)p;
  while (sem_wait (&thr[id].sem) != 0)
    ;
  thr_body (id);
  in_tick = 1;
  thr[id].done = true;
  if (++ndone == nthr)
    {
      sched_active = 0;
      in_tick = 0;
      sem_post (&main_sem);
      return NULL;
    }
  int n = other ();
  new_quantum ();
  ev ("thread %d ends, %d continues", id, n);
  sched_self = n;
  in_tick = 0;
  sem_post (&thr[n].sem);
  return NULL;
}

void
sched_run (int n, void (*body) (int))
{
  int i;
  if (n > NT)
    harness_error ("too many threads");
  nthr = n;
  ndone = 0;
  thr_body = body;
  spin_self = -1;
  style = draw (T_S, 7);
  if (style == 6)
    {
      rv_mod = 1 + draw_log (T_S, 60);
      rv_key = draw (T_S, rv_mod);
    }
  /* one thread runs at a time: keep them on one processor, handing over is faster there */
  cpu_set_t cs;
  CPU_ZERO (&cs);
  CPU_SET (sched_getcpu (), &cs);
  sched_setaffinity (0, sizeof (cs), &cs);
  sem_init (&main_sem, 0, 0);
  for (i = 0; i < n; ++i)
    {
      pthread_attr_t at;
      size_t size = 8 << 20;
      void *base = (void*)(0x220000000000ull + (uintptr_t)i * (16 << 20));
      void *p = mmap (base, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
      if (p != base && p != MAP_FAILED)
	harness_error ("thread stack");
      if (p == MAP_FAILED && errno != EEXIST)
	harness_error ("thread stack");
      pthread_attr_init (&at);
      pthread_attr_setstack (&at, base, size);
      thr[i].done = false;
      sem_init (&thr[i].sem, 0, 0);
      if (pthread_create (&thr[i].th, &at, thr_main, (void*)(intptr_t)i) != 0)
	harness_error ("cannot create a simulated thread");
      COUNT (threads);
    }
  sched_self = draw (T_S, n);
  new_quantum ();
  sched_active = 1;
  ev ("schedule style %d, thread %d starts", style, sched_self);
  sem_post (&thr[sched_self].sem);
  while (sem_wait (&main_sem) != 0)
    ;
  for (i = 0; i < n; ++i)
    pthread_join (thr[i].th, NULL);
}

/* ------------------------------------------------------------------ instrumentation callbacks (replace the ThreadSanitizer runtime) */
void ts_check (uintptr_t a, size_t n, bool write);
/* a thread that looks at the same places over and over waits for another one */
static inline void
spin (void *p)
{
  if ((p == spin0 || p == spin1) && spin_self == sched_self)
    {
      if (++spin_n > 400 && !in_tick)
	{
	  spin_n = 0;
	  preempt (true);
	}
    }
  else
    {
      spin1 = spin0;
      spin0 = p;
      spin_n = 0;
      spin_self = sched_self;
    }
}

static inline void
acc (void *p, size_t n, bool w)
{
  ts_check ((uintptr_t)p, n, w);
  ++sim_steps;
  if (w)
    static_write (p);
  if (sched_active)
    {
      sched_tick ();
      spin (p);
    }
}
#define A(n) void __tsan_read##n (void *p) { acc (p, n, false); } void __tsan_write##n (void *p) { acc (p, n, true); } \
  void __tsan_unaligned_read##n (void *p) { acc (p, n, false); } void __tsan_unaligned_write##n (void *p) { acc (p, n, true); } \
  void __tsan_volatile_read##n (void *p) { acc (p, n, false); } void __tsan_volatile_write##n (void *p) { acc (p, n, true); }
A (1) A (2) A (4) A (8) A (16)
void __tsan_read_range (void *p, size_t n) { acc (p, n, false); }
void __tsan_write_range (void *p, size_t n) { acc (p, n, true); }
void
__tsan_func_entry (void *p)
{
  (void)p;
  if (sched_active && style == 6)
    {
      uint64_t pc = (uintptr_t)__builtin_return_address (0) * 0x9e3779b97f4a7c15ull;
      if ((pc >> 32) % rv_mod == rv_key)
	suspect ();
    }
}
void __tsan_func_exit (void *p) { (void)p; }
void __tsan_init (void) { }
void __tsan_vptr_update (void **p, void *v) { (void)p; (void)v; }
void __tsan_vptr_read (void **p) { (void)p; }
#define AT(bits, T)								\
  T __tsan_atomic##bits##_load (const volatile T *p, int o) { acc ((void*)p, sizeof (T), false); return *p; } \
  void __tsan_atomic##bits##_store (volatile T *p, T v, int o) { acc ((void*)p, sizeof (T), true); *p = v; } \
  T __tsan_atomic##bits##_exchange (volatile T *p, T v, int o) { acc ((void*)p, sizeof (T), true); T r = *p; *p = v; return r; } \
  T __tsan_atomic##bits##_fetch_add (volatile T *p, T v, int o) { acc ((void*)p, sizeof (T), true); T r = *p; *p = r + v; return r; } \
  T __tsan_atomic##bits##_fetch_sub (volatile T *p, T v, int o) { acc ((void*)p, sizeof (T), true); T r = *p; *p = r - v; return r; } \
  T __tsan_atomic##bits##_fetch_and (volatile T *p, T v, int o) { acc ((void*)p, sizeof (T), true); T r = *p; *p = r & v; return r; } \
  T __tsan_atomic##bits##_fetch_or (volatile T *p, T v, int o) { acc ((void*)p, sizeof (T), true); T r = *p; *p = r | v; return r; } \
  T __tsan_atomic##bits##_fetch_xor (volatile T *p, T v, int o) { acc ((void*)p, sizeof (T), true); T r = *p; *p = r ^ v; return r; } \
  T __tsan_atomic##bits##_fetch_nand (volatile T *p, T v, int o) { acc ((void*)p, sizeof (T), true); T r = *p; *p = ~(r & v); return r; } \
  int __tsan_atomic##bits##_compare_exchange_strong (volatile T *p, T *e, T v, int o, int f) \
  { acc ((void*)p, sizeof (T), true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak (volatile T *p, T *e, T v, int o, int f) \
  { return __tsan_atomic##bits##_compare_exchange_strong (p, e, v, o, f); } \
  T __tsan_atomic##bits##_compare_exchange_val (volatile T *p, T e, T v, int o, int f) \
  { acc ((void*)p, sizeof (T), true); T r = *p; if (r == e) *p = v; return r; }
AT (8, uint8_t) AT (16, uint16_t) AT (32, uint32_t) AT (64, uint64_t)
void __tsan_atomic_thread_fence (int o) { (void)o; }
void __tsan_atomic_signal_fence (int o) { (void)o; }

/* blocking primitives of the library become scheduling decisions */
static void
wait_step (void)
{
  if (++sim_steps > sim_step_limit)
    {
      sched_active = 0;
      sim_step_limit = UINT64_MAX;
      violate ("no-progress:threads", "threads wait for each other for ever");
    }
  sched_point ();
}
int
__wrap_pthread_mutex_lock (pthread_mutex_t *m)
{
  if (!sched_active)
    return pthread_mutex_lock (m);
  int r;
  sched_tick ();
  while ((r = pthread_mutex_trylock (m)) == EBUSY)
    wait_step ();
  return r;
}
int __wrap_pthread_mutex_trylock (pthread_mutex_t *m) { sched_tick (); return pthread_mutex_trylock (m); }
int __wrap_pthread_mutex_unlock (pthread_mutex_t *m) { int r = pthread_mutex_unlock (m); sched_tick (); return r; }
static struct { pthread_once_t *o; int state; } onces[64];
int
__wrap_pthread_once (pthread_once_t *o, void (*fn) (void))
{
  int i;
  if (!sched_active)
    return pthread_once (o, fn);
  for (i = 0; i < 64 && onces[i].o && onces[i].o != o; ++i)
    ;
  if (i == 64)
    harness_error ("too many once controls");
  if (!onces[i].o)
    {
      onces[i].o = o;
      onces[i].state = 1;
      pthread_once (o, fn);
      onces[i].state = 2;
    }
  while (onces[i].state == 1)
    wait_step ();
  return 0;
}
int __wrap_sched_yield (void) { if (!sched_active) return sched_yield (); wait_step (); return 0; }
int __wrap_nanosleep (const struct timespec *a, struct timespec *b) { if (!sched_active) return nanosleep (a, b); wait_step (); return 0; }
int __wrap_usleep (useconds_t u) { if (!sched_active) return usleep (u); wait_step (); return 0; }
/* bulk copies and fills are not atomic either: the library can be preempted in the middle of one */
static void
bulk (void *d, const void *s, size_t n)
{
  ts_check ((uintptr_t)d, n, true);
  static_write (d);
  if (s)
    ts_check ((uintptr_t)s, n, false);
}
void *
__wrap_memset (void *d, int c, size_t n)
{
  if (!sched_active || in_tick || n < 2)
    return memset (d, c, n);
  bulk (d, NULL, n);
  sched_tick ();
  memset (d, c, n / 2);
  sched_tick ();
  memset ((char*)d + n / 2, c, n - n / 2);
  sched_tick ();
  return d;
}
void *
__wrap_memcpy (void *d, const void *s, size_t n)
{
  if (!sched_active || in_tick || n < 2)
    return memcpy (d, s, n);
  bulk (d, s, n);
  sched_tick ();
  memcpy (d, s, n / 2);
  sched_tick ();
  memcpy ((char*)d + n / 2, (const char*)s + n / 2, n - n / 2);
  return d;
}
void *
__wrap_memmove (void *d, const void *s, size_t n)
{
  if (sched_active && !in_tick)
    {
      bulk (d, s, n);
      sched_tick ();
    }
  return memmove (d, s, n);
}
#endif
