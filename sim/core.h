/* Deterministic simulator core: choice tapes, event log, simulated memory, step clock. */
#ifndef CORE_H
#define CORE_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdarg.h>

/* ---- choice tapes: the only source of nondeterminism ---- */
enum { T_W, T_F, T_S, T_L, T_N };	/* workload, faults, schedule, layout */
#define TAPE_CAP (1 << 16)
extern const char *tape_name[T_N];
uint32_t draw (int tape, uint32_t bound);	/* [0, bound); 0 is the simplest choice */
static inline bool chance (int tape, uint32_t num, uint32_t den) { return draw (tape, den) >= den - num; }
uint32_t tape_mark (int tape);
void tape_rewind (int tape, uint32_t pos);	/* later draws repeat the choices made since then */
uint32_t draw_log (int tape, uint32_t bound);	/* log-uniform in [0, bound) */

/* ---- counters: faults actually injected, rare conditions reached ---- */
#define COUNTERS(X)							\
  X (fault_alloc_calloc) X (fault_alloc_realloc) X (fault_alloc_burst) X (fault_alloc_persistent) \
  X (fault_realloc_move) X (fault_alloc_stale_fill) X (fault_alloc_reuse)	\
  X (fault_crash_restart) X (fault_torn_write) X (fault_lost_write) X (fault_bit_flip) \
  X (fault_byte_drop) X (fault_byte_insert) X (fault_block_dup) X (fault_block_swap) X (fault_digit_edit) \
  X (fault_splice) X (fault_short_read) X (fault_read_error) X (fault_eof_early) X (fault_write_error) X (fault_no_space) \
  X (fault_eintr) X (fault_short_write) X (fault_preempt) X (fault_unbuffered) X (fault_msg_handler_alloc) X (fault_msg_handler_reentry)	\
  X (ops) X (op_ok) X (op_failed) X (huge_alloc_refused) X (threads) X (ctx_switches) \
  X (probe_retry_ok) X (probe_fail_reported) X (probe_fault_absorbed) X (probe_shared_ptr) X (probe_swapped) X (probe_overlap) X (probe_cycle) X (probe_interior_ptr) \
  X (probe_shared_string) X (probe_union) X (probe_resizable) X (probe_bitfield) X (probe_null_ptr) X (probe_damage_accepted) \
  X (probe_damage_rejected) X (probe_ic_grow) X (probe_ic_empty) X (probe_dup_key) X (probe_static_overflow) X (probe_race_window) \
  X (probe_special_float) X (probe_escape_char) X (probe_deep) X (probe_void_ptr) X (probe_func_ptr) X (probe_multi_dim)
#define X(n) C_##n,
enum { COUNTERS (X) C_N };
#undef X
extern const char *counter_name[C_N];

/* ---- record shared with the supervising process ---- */
#define LOG_CAP (1 << 18)
#define COV_BITS (1 << 16)
typedef struct
{
  volatile int phase;		/* 0 not finished, 1 ok, 2 violation, 3 harness error */
  char cls[96];			/* violation class: stable, used for dedup and minimisation */
  char detail[2048];
  uint64_t hash;		/* hash of the event history */
  uint64_t events;
  uint64_t steps;		/* simulated time: basic blocks of library code executed */
  uint64_t counters[C_N];
  uint32_t nontrivial;
  uint64_t state_sig;		/* scenario-defined signature of the states visited */
  uint32_t tape_len[T_N];
  uint32_t tape[T_N][TAPE_CAP];
  uint32_t log_len;
  char log[LOG_CAP];
  uint8_t cov[COV_BITS];
} shared_t;
extern shared_t *sh;
extern uint64_t run_seed;
extern bool run_replay;		/* tapes are inputs, not outputs */
extern bool log_on;

void ev (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
void ev_data (const char *what, const void *p, size_t n);
void violate (const char *cls, const char *fmt, ...) __attribute__ ((noreturn, format (printf, 2, 3)));
void harness_error (const char *fmt, ...) __attribute__ ((noreturn, format (printf, 1, 2)));
void finish (void) __attribute__ ((noreturn));
#define COUNT(c) (++sh->counters[C_##c])
static inline void nontrivial (void) { sh->nontrivial = 1; }
void sig_mix (uint64_t x);	/* add to state signature */
uint64_t hash64 (const void *p, size_t n, uint64_t h);
const char *cfmt (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));

/* ---- step clock ---- */
extern uint64_t sim_steps, sim_step_limit;
extern uint64_t sim_work;	/* bytes the C library handled for the library under test, in units of 16 */
void step_budget (uint64_t n, const char *what);	/* violation class "no-progress:<what>" beyond it */

/* ---- simulated memory ---- */
typedef struct { uintptr_t addr; size_t size; uint32_t seq; uint8_t live; uint8_t lib; const char *func; int line; } blk_t;
void arena_init (void);
extern size_t arena_request, arena_total;	/* what the simulated machine grants */
void *sim_calloc (const char *file, const char *func, int line, size_t count, size_t size);
void *sim_realloc (const char *file, const char *func, int line, void *ptr, size_t size);
void sim_free (const char *file, const char *func, int line, void *ptr);
void *h_alloc (size_t size);	/* harness-owned block from the same arena: never fails */
void h_free (void *p);
blk_t *blk_find (const void *p);	/* live block starting at p */
blk_t *blk_containing (const void *p);
size_t live_count (void);
void layout_draw (void);	/* choose address order, reuse, realloc and stale-fill policies */
void layout_default (void);
void layout_plain (int order, int move);
/* snapshots of the set of live blocks */
typedef struct { uint32_t seq; size_t n; } mark_t;
mark_t live_mark (void);
/* violation cls if any block allocated after mark is still live, except those accepted by keep () */
extern bool lib_keeps;		/* the library was told to remember things: no leak check */
void leak_check (mark_t m, const char *cls, const char *what);
size_t live_after (mark_t m, blk_t **out, size_t cap);
void *arena_low (void); void *arena_high (void);

/* allocation faults */
typedef struct { int mode; uint64_t k, period; } afault_t;	/* 0 none 1 single 2 every 3 persistent 4 burst */
void faults_off (void);
void faults_arm (afault_t f);
void faults_suspend (void);	/* requests made until faults_resume are not subject to the armed fault and not counted */
void faults_resume (void);
afault_t faults_draw (uint64_t nallocs);	/* given the fault-free number of allocations */
const char *afault_str (afault_t f);
extern uint64_t alloc_ops;	/* allocation requests since faults_arm/faults_off/alloc_ops=0 */
extern uint64_t faults_fired;
extern const char *last_fault_func; extern int last_fault_line;

/* libc heap watch (blocks taken behind the configured memory functions) */
extern int64_t libc_live;
extern bool libc_watching;
void libc_watch (bool on);

/* run one scenario on a dedicated stack at a fixed address */
void on_fixed_stack (void (*fn) (void));

/* ---- scheduler ---- */
void sched_run (int n, void (*body) (int id));	/* run n simulated threads to completion */
void sched_point (void);
extern int sched_active;
extern int sched_self;

/* scenario registry */
typedef struct { const char *id; const char *name; void (*run) (void); bool cold; int weight; } scenario_t;
extern const scenario_t scenarios[];
#endif
