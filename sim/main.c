/* Runs simulations: one forked process per run, each a pure function of (scenario, seed) or of a replay file.
   Every violation is confirmed by re-running the seed, minimised, and written as a replay file. */
#define _GNU_SOURCE
#include "core.h"
#include "fmt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>

extern uint8_t *cov_map;
extern uint32_t cov_mask;

static const scenario_t *scen;
static shared_t *keep;		/* copy of an interesting record */

static double
now (void)
{
  struct timespec t;
  clock_gettime (CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static const scenario_t *
find_scenario (const char *name)
{
  const scenario_t *s;
  for (s = scenarios; s->id; ++s)
    if (strcmp (s->name, name) == 0)
      return s;
  fprintf (stderr, "no scenario %s\n", name);
  exit (2);
}

static void
reset_record (bool tapes)
{
  int i;
  sh->phase = 0;
  sh->cls[0] = sh->detail[0] = 0;
  sh->hash = 0x1234567;
  sh->events = sh->steps = 0;
  memset (sh->counters, 0, sizeof (sh->counters));
  sh->nontrivial = 0;
  sh->state_sig = 99;
  if (tapes)
    for (i = 0; i < T_N; ++i)
      sh->tape_len[i] = 0;
  sh->log_len = 0;
  sh->log[0] = 0;
  memset (sh->cov, 0, sizeof (sh->cov));
}

static void
child_body (void)
{
  sim_steps = 0;
  sim_step_limit = UINT64_MAX;
  step_budget (1000000000ull, "whole-run");
  if (scen->cold)
    libc_watch (false);
  scen->run ();
  finish ();
}

/* one run in its own process; the record is filled; returns the phase */
static int
run_once (bool replay, bool log)
{
  reset_record (!replay);
  pid_t pid = fork ();
  if (pid < 0)
    {
      perror ("fork");
      exit (2);
    }
  if (pid == 0)
    {
      run_replay = replay;
      log_on = log;
      cov_map = sh->cov;
      cov_mask = COV_BITS - 1;
      struct rlimit rl = { 0, 0 };
      setrlimit (RLIMIT_CORE, &rl);
      alarm (90);
      on_fixed_stack (child_body);
      _exit (0);
    }
  int st;
  while (waitpid (pid, &st, 0) < 0)
    if (errno != EINTR)
      {
	perror ("waitpid");
	exit (2);
      }
  if (sh->phase == 0)
    {
      if (WIFSIGNALED (st) && (WTERMSIG (st) == SIGALRM || WTERMSIG (st) == SIGKILL))
	{
	  sh->phase = 4;		/* ran out of wall clock or was killed from outside: not a verdict */
	  snprintf (sh->cls, sizeof (sh->cls), "inconclusive");
	}
      else
	{
	  sh->phase = 2;
	  if (WIFSIGNALED (st))
	    snprintf (sh->cls, sizeof (sh->cls), "crash:signal-%d", WTERMSIG (st));
	  else
	    snprintf (sh->cls, sizeof (sh->cls), "crash:exit-%d", WEXITSTATUS (st));
	  snprintf (sh->detail, sizeof (sh->detail), "process died before the run ended");
	}
    }
  return sh->phase;
}

static uint64_t
cov_signature (void)
{
  uint64_t h = sh->state_sig;
  uint32_t i;
  for (i = 0; i < COV_BITS; i += 8)
    {
      uint64_t w;
      memcpy (&w, sh->cov + i, 8);
      if (w)
	{
	  int j;
	  for (j = 0; j < 8; ++j)
	    {
	      uint8_t c = sh->cov[i + j];
	      uint8_t b = c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 2 : c < 4 ? 3 : c < 8 ? 4 : c < 16 ? 5 : c < 32 ? 6 : c < 128 ? 7 : 8;
	      if (b)
		h = (h ^ ((uint64_t)(i + j) << 8 | b)) * 0x100000001b3ull;
	    }
	}
    }
  return h ^ (h >> 31);
}

static uint64_t
seed_of (uint64_t base, uint64_t idx)
{
  uint64_t z = base * 0x9e3779b97f4a7c15ull + idx + 1;
  z ^= hash64 (scen->name, strlen (scen->name), 77);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

/* ------------------------------------------------------------------ replay files */
static void
write_replay (const char *path, const char *build)
{
  FILE *f = fopen (path, "w");
  int t;
  uint32_t i;
  if (!f)
    {
      perror (path);
      exit (2);
    }
  fprintf (f, "scenario %s\nbuild %s\nseed %llu\nclass %s\nhash %016llx\n", scen->name, build, (unsigned long long)run_seed, sh->cls, (unsigned long long)sh->hash);
  fprintf (f, "detail %s\n", sh->detail);
  for (t = 0; t < T_N; ++t)
    {
      fprintf (f, "tape %s %u", tape_name[t], sh->tape_len[t]);
      for (i = 0; i < sh->tape_len[t]; ++i)
	fprintf (f, " %u", sh->tape[t][i]);
      fprintf (f, "\n");
    }
  fprintf (f, "log\n%.*s", (int)sh->log_len, sh->log);
  fclose (f);
}

static void
read_replay (const char *path)
{
  FILE *f = fopen (path, "r");
  static char line[1 << 21];
  if (!f)
    {
      perror (path);
      exit (2);
    }
  reset_record (true);
  while (fgets (line, sizeof (line), f))
    {
      char name[64];
      unsigned n;
      int off;
      unsigned long long s;
      if (sscanf (line, "scenario %63s", name) == 1)
	scen = find_scenario (name);
      else if (sscanf (line, "seed %llu", &s) == 1)
	run_seed = s;
      else if (sscanf (line, "tape %63s %u%n", name, &n, &off) == 2)
	{
	  int t;
	  uint32_t i;
	  char *p = line + off;
	  for (t = 0; t < T_N; ++t)
	    if (strcmp (tape_name[t], name) == 0)
	      break;
	  if (t == T_N || n > TAPE_CAP)
	    {
	      fprintf (stderr, "bad replay file\n");
	      exit (2);
	    }
	  for (i = 0; i < n; ++i)
	    sh->tape[t][i] = strtoul (p, &p, 10);
	  sh->tape_len[t] = n;
	}
      else if (strncmp (line, "log", 3) == 0)
	break;
    }
  fclose (f);
}

/* ------------------------------------------------------------------ minimiser */
static uint32_t (*best)[TAPE_CAP];
static uint32_t best_len[T_N];
static char want[96];
static int min_runs;
static double min_deadline;

static bool
try_tapes (void)
{
  ++min_runs;
  return run_once (true, false) == 2 && strcmp (sh->cls, want) == 0;
}

static void
load_best (void)
{
  int t;
  for (t = 0; t < T_N; ++t)
    {
      sh->tape_len[t] = best_len[t];
      memcpy (sh->tape[t], best[t], best_len[t] * sizeof (uint32_t));
    }
}

static void
save_best (void)
{
  int t;
  for (t = 0; t < T_N; ++t)
    {
      best_len[t] = sh->tape_len[t];
      memcpy (best[t], sh->tape[t], best_len[t] * sizeof (uint32_t));
    }
}

static bool
min_more (void)
{
  return now () < min_deadline && min_runs < 4000;
}

static void
minimise (double seconds)
{
  int t, pass;
  uint32_t i;
  best = malloc (sizeof (uint32_t) * T_N * TAPE_CAP);
  snprintf (want, sizeof (want), "%s", sh->cls);
  min_runs = 0;
  min_deadline = now () + seconds;
  save_best ();
  for (pass = 0; pass < 4 && min_more (); ++pass)
    {
      bool changed = false;
      for (t = 0; t < T_N; ++t)
	{
	  uint32_t chunk;
	  /* shorten */
	  uint32_t cut;
	  for (cut = (best_len[t] + 1) / 2; cut >= 1 && min_more (); cut = cut == 1 ? 0 : cut / 2)
	    while (best_len[t] >= cut && min_more ())
	      {
		load_best ();
		sh->tape_len[t] -= cut;
		if (!try_tapes ())
		  break;
		load_best ();
		sh->tape_len[t] -= cut;
		save_best ();
		changed = true;
	      }
	  /* delete chunks */
	  for (chunk = best_len[t] / 2; chunk >= 1 && min_more (); chunk /= 2)
	    for (i = 0; i + chunk <= best_len[t] && min_more (); )
	      {
		load_best ();
		memmove (&sh->tape[t][i], &sh->tape[t][i + chunk], (best_len[t] - i - chunk) * sizeof (uint32_t));
		sh->tape_len[t] -= chunk;
		uint32_t l = sh->tape_len[t];
		if (try_tapes ())
		  {
		    load_best ();
		    memmove (&sh->tape[t][i], &sh->tape[t][i + chunk], (best_len[t] - i - chunk) * sizeof (uint32_t));
		    sh->tape_len[t] = l;
		    save_best ();
		    changed = true;
		  }
		else
		  i += chunk;
	      }
	  /* zero, then lower */
	  for (i = 0; i < best_len[t] && min_more (); ++i)
	    if (best[t][i])
	      {
		uint32_t v[3] = { 0, best[t][i] / 2, best[t][i] - 1 };
		int k;
		for (k = 0; k < 3; ++k)
		  if (v[k] < best[t][i])
		    {
		      load_best ();
		      sh->tape[t][i] = v[k];
		      if (try_tapes ())
			{
			  best[t][i] = v[k];
			  changed = true;
			  break;
			}
		    }
	      }
	}
      if (!changed)
	break;
    }
  load_best ();
}

/* ------------------------------------------------------------------ modes */
#ifdef SIM_ASAN
#ifdef SIM_UP
#define BUILD "up"
#else
#define BUILD "asan"
#endif
#else
#define BUILD "sched"
#endif

static void
json_str (FILE *f, const char *s)
{
  fputc ('"', f);
  for (; *s; ++s)
    if (*s == '"' || *s == '\\')
      fprintf (f, "\\%c", *s);
    else if ((unsigned char)*s < 32 || (unsigned char)*s > 126)
      fprintf (f, "\\u%04x", (unsigned char)*s);
    else
      fputc (*s, f);
  fputc ('"', f);
}

#define MAXV 24
static struct { char cls[96]; uint64_t n; } seen[256];
static int nseen;

int
main (int argc, char **argv)
{
  const char *mode = argc > 1 ? argv[1] : "";
  int i;
  if (!getenv ("SIM_REEXEC"))
    {
      setenv ("SIM_REEXEC", "1", 1);
      if (personality (ADDR_NO_RANDOMIZE) != -1)
	execv ("/proc/self/exe", argv);
    }
  if (strcmp (mode, "list") == 0)
    {
      const scenario_t *s;
      for (s = scenarios; s->id; ++s)
	printf ("%s %s %d %d\n", s->id, s->name, s->cold, s->weight);
      return 0;
    }
  sh = mmap (NULL, sizeof (*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  keep = mmap (NULL, sizeof (*keep), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED || keep == MAP_FAILED)
    return 2;
  reset_record (true);
  if (strcmp (mode, "replay") == 0 && argc > 2)
    read_replay (argv[2]);
  else if (argc > 2)
    scen = find_scenario (argv[2]);
  if (!scen)
    {
      fprintf (stderr, "usage: sim list | batch SCENARIO BASE FIRST STRIDE COUNT SECONDS OUT | one SCENARIO SEED | replay FILE\n");
      return 2;
    }
  arena_init ();
  layout_default ();
  {
    /* tapes of the replay survive the warm-up: nothing draws before the child starts */
    lib_setup ();
    if (!scen->cold)
      lib_warmup ();
  }
  if (strcmp (mode, "replay") == 0)
    {
      run_once (true, true);
      printf ("class %s\nhash %016llx\nphase %d\ndetail %s\n", sh->cls, (unsigned long long)sh->hash, sh->phase, sh->detail);
      printf ("log\n%.*s", (int)sh->log_len, sh->log);
      return 0;
    }
  if (strcmp (mode, "one") == 0 && argc > 3)
    {
      run_seed = strtoull (argv[3], NULL, 0);
      run_once (false, true);
      printf ("%.*s", (int)sh->log_len, sh->log);
      printf ("class %s\nhash %016llx\nphase %d\ndetail %s\nsteps %llu sig %016llx\n", sh->cls, (unsigned long long)sh->hash, sh->phase, sh->detail,
	      (unsigned long long)sh->steps, (unsigned long long)cov_signature ());
      for (i = 0; i < T_N; ++i)
	printf ("tape %s %u\n", tape_name[i], sh->tape_len[i]);
      for (i = 0; i < C_N; ++i)
	if (sh->counters[i])
	  printf ("  %s %llu\n", counter_name[i], (unsigned long long)sh->counters[i]);
      return 0;
    }
  if (strcmp (mode, "batch") != 0 || argc < 9)
    return 2;
  uint64_t base = strtoull (argv[3], NULL, 0), first = strtoull (argv[4], NULL, 0), stride = strtoull (argv[5], NULL, 0), count = strtoull (argv[6], NULL, 0);
  double seconds = atof (argv[7]), t0 = now ();
  const char *out = argv[8];
  char path[4096];
  snprintf (path, sizeof (path), "%s.sig", out);
  FILE *sig = fopen (path, "w");
  snprintf (path, sizeof (path), "%s.json", out);
  FILE *js = fopen (path, "w");
  if (!sig || !js)
    {
      perror (path);
      return 2;
    }
  uint64_t n = 0, idx, steps = 0, events = 0, nontriv = 0, inconclusive = 0, det_checked = 0, nviol = 0, herr = 0;
  static uint64_t totals[C_N];
  uint64_t sample[3]; int nsample = 0;
  fprintf (js, "{\"scenario\":\"%s\",\"build\":\"" BUILD "\",\"violations\":[", scen->name);
  for (idx = first; n < count && now () - t0 < seconds; idx += stride, ++n)
    {
      run_seed = seed_of (base, idx);
      int ph = run_once (false, false);
      for (i = 0; i < C_N; ++i)
	totals[i] += sh->counters[i];
      steps += sh->steps;
      events += sh->events;
      if (ph == 4)
	{
	  ++inconclusive;
	  continue;
	}
      if (ph == 3)
	{
	  fprintf (stderr, "harness error: scenario %s seed %llu: %s\n", scen->name, (unsigned long long)run_seed, sh->detail);
	  ++herr;
	  if (herr > 3)
	    break;
	  continue;
	}
      if (sh->nontrivial)
	{
	  uint64_t s = cov_signature ();
	  fwrite (&s, 8, 1, sig);
	  ++nontriv;
	  if (nsample < 3)
	    sample[nsample++] = run_seed;
	}
      bool check_det = (n % 64 == 0);
      if (ph == 2 || check_det)
	{
	  uint64_t h = sh->hash, st = sh->steps;
	  char cls[96];
	  snprintf (cls, sizeof (cls), "%s", sh->cls);
	  int ph2 = run_once (false, false);
	  ++det_checked;
	  if (ph2 == 4)
	    {
	      ++inconclusive;
	      continue;
	    }
	  if (ph2 != ph || sh->hash != h || sh->steps != st || strcmp (cls, sh->cls) != 0)
	    {
	      fprintf (stderr, "harness error: scenario %s seed %llu is not deterministic: %s/%016llx/%llu then %s/%016llx/%llu\n", scen->name,
		       (unsigned long long)run_seed, cls, (unsigned long long)h, (unsigned long long)st, sh->cls, (unsigned long long)sh->hash, (unsigned long long)sh->steps);
	      ++herr;
	      if (herr > 3)
		break;
	      continue;
	    }
	}
      if (ph == 2)
	{
	  int k;
	  for (k = 0; k < nseen; ++k)
	    if (strcmp (seen[k].cls, sh->cls) == 0)
	      break;
	  if (k == nseen && nseen < 256)
	    snprintf (seen[nseen++].cls, sizeof (seen[0].cls), "%s", sh->cls);
	  if (k < 256 && seen[k].n++ < 4 && nviol < MAXV)
	    {
	      char rp[4096];
	      char cls[96];
	      snprintf (cls, sizeof (cls), "%s", sh->cls);
	      char *bud = getenv ("SIM_MIN_SECONDS");
	      minimise (bud ? atof (bud) : 20);
	      int ph3 = run_once (true, true);
	      bool minimal = (ph3 == 2 && strcmp (cls, sh->cls) == 0);
	      if (!minimal)
		{
		  run_once (false, true);
		  ++herr;
		}
	      snprintf (rp, sizeof (rp), "%s.%d.replay", out, (int)nviol);
	      write_replay (rp, BUILD);
	      fprintf (js, "%s{\"class\":", nviol ? "," : "");
	      json_str (js, sh->cls);
	      fprintf (js, ",\"detail\":");
	      json_str (js, sh->detail);
	      fprintf (js, ",\"seed\":\"%llu\",\"hash\":\"%016llx\",\"replay\":", (unsigned long long)run_seed, (unsigned long long)sh->hash);
	      json_str (js, rp);
	      fprintf (js, ",\"min_runs\":%d,\"tape\":[%u,%u,%u,%u]}", min_runs, sh->tape_len[0], sh->tape_len[1], sh->tape_len[2], sh->tape_len[3]);
	      fflush (js);
	      ++nviol;
	    }
	}
    }
  fprintf (js, "],\"classes\":{");
  for (i = 0; i < nseen; ++i)
    {
      fprintf (js, "%s", i ? "," : "");
      json_str (js, seen[i].cls);
      fprintf (js, ":%llu", (unsigned long long)seen[i].n);
    }
  fprintf (js, "},\"runs\":%llu,\"steps\":%llu,\"events\":%llu,\"nontrivial\":%llu,\"inconclusive\":%llu,\"determinism_checked\":%llu,\"harness_errors\":%llu,\"wall\":%.3f,\"samples\":[",
	   (unsigned long long)n, (unsigned long long)steps, (unsigned long long)events, (unsigned long long)nontriv, (unsigned long long)inconclusive,
	   (unsigned long long)det_checked, (unsigned long long)herr, now () - t0);
  for (i = 0; i < nsample; ++i)
    fprintf (js, "%s\"%llu\"", i ? "," : "", (unsigned long long)sample[i]);
  fprintf (js, "],\"counters\":{");
  for (i = 0; i < C_N; ++i)
    fprintf (js, "%s\"%s\":%llu", i ? "," : "", counter_name[i], (unsigned long long)totals[i]);
  fprintf (js, "}}\n");
  fclose (js);
  fclose (sig);
  return herr ? 4 : 0;
}
