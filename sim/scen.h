/* scenario entry points, and pieces that several scenario files share */
#ifndef SCEN_H
#define SCEN_H
int pick_rt (void);	/* a structure */
int pick_root (int fm, bool load);	/* any kind of root; fm < 0: no document */
void draw_cfg (int fm);
const char *rt_of (int fm, int rt);
void libc_begin (void);
void libc_end (const char *cls, const char *what);
/* what one printed element may look like: exactly alt[0] when memory is available, any of them otherwise */
typedef struct { char *alt[3]; int n; } el_t;
typedef struct { el_t e[16]; int n; } line_t;
void el_add (line_t *l, char *full, char *fallback, char *fallback2);
bool line_match (const line_t *l, int i, const char *t, size_t n, bool prefix);
char *take (char *s, bool chop);
char *hfmt (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
#define SCENARIOS(X)							\
  X ("P01", save_faults, false) X ("P02", load_faults, false) X ("P03", roundtrip, false) X ("P04", deterministic, false) \
  X ("P08", copy, false) X ("P09", free, false) X ("P10", hash_cmp, false) \
  X ("P11", ic, false) X ("P11", ic_typed, false) X ("P12", ic_faults, false) X ("P13", tree, false) \
  X ("P14", threads_first, true) X ("P15", threads, false) \
  X ("P07", stream, false) X ("P07", torn, false) X ("P16", xml_stream, false) X ("P17", print, false) X ("P17", print_auto, false) X ("P18", buffers, false) X ("P19", sort, false) X ("P20", diagnostics, false) X ("P21", growth, false) X ("P21", growth_ic, false) X ("P03", large, false) X ("P08", large_copy, false) \
  X ("P22", first_faults, true) X ("P22", threads_first_faults, true) X ("P05", damage_text, false) X ("P06", damage_xdr, false)
#ifdef SIM_UP
#define SCENARIOS_UP(X) X ("P23", upgrade, false)
#else
#define SCENARIOS_UP(X)
#endif
#define X(p, n, c) void sc_##n (void);
SCENARIOS (X) SCENARIOS_UP (X)
#undef X
#endif
