/* The library's public operations, instantiated for every root type and every serialization format,
   and the I/O seams they run over. */
#ifndef FMT_H
#define FMT_H
#include "core.h"
#include "model.h"
#include <stdio.h>

enum { FM_CINIT, FM_JSON, FM_SCM, FM_XML1, FM_XML2, FM_YAML, FM_XDR, FM_N };
#define FM_TEXT_N FM_XDR
extern const char *fm_name[FM_N];
extern const int fm_alphabet[FM_N];

typedef struct { char *data; size_t len; bool ok; } doc_t;	/* a document as it sits on the simulated disk (harness-owned) */

typedef struct
{
  const char *name;
  size_t size;
  mr_rarray_t (*save_ra) (int fm, void *obj);
  int (*load_ra) (int fm, mr_rarray_t *ra, void *dst);
  void (*load_val) (int fm, mr_rarray_t *ra, void *dst);	/* the form that returns the object and not the status */
  char *(*save) (int fm, void *obj);			/* text formats: string from the library, or NULL */
  int (*save_xdr) (void *xdrs, void *obj);		/* MR_SUCCESS or not */
  int (*load) (int fm, char *text, void *dst);
  int (*load_xdr) (void *xdrs, void *dst);
  int (*copy) (void *src, void *dst);
  int (*free) (void *obj);
  uint64_t (*hash) (void *obj);
  int (*cmp) (void *x, void *y);
  int (*print) (FILE *f, int how, void *obj);
} ops_t;
extern const ops_t ops[RT_ALL];

/* a save is a run of the library; the result is copied to the simulated disk and the library's buffer released */
doc_t op_save (int rt, int fm, void *obj);
int op_load (int rt, int fm, doc_t d, void *dst);	/* 1 on success */
void doc_free (doc_t *d);
doc_t doc_dup (doc_t d);
bool doc_equal (doc_t a, doc_t b);

/* XDR stream over a simulated disk file */
typedef struct
{
  char *buf; size_t len, cap, pos;
  int64_t fail_at;		/* the request that crosses this byte fails (-1: never) */
  bool sticky;			/* ... and so does every later one */
  bool failed;
  int64_t drop_at;		/* from this byte on, writes claim success but are lost (-1: never) */
  uint64_t calls;
  int64_t fail_call;		/* fail exactly this call (-1: never) */
} simfile_t;
void simfile_init (simfile_t *f);
void simfile_xdr (simfile_t *f, void *xdrs, bool encode);
void simfile_free (simfile_t *f);

/* stdio seam: a FILE whose read and write are the simulator's */
typedef struct
{
  const char *in; size_t in_len, in_pos;
  char *out; size_t out_len, out_cap;
  uint32_t max_chunk;		/* short reads and writes: at most that many bytes per call, 0 unlimited */
  int64_t err_at;		/* the call crossing this byte fails with err_no */
  int err_no;
  bool once;			/* the error happens once */
  bool errored;
  uint64_t calls, past_end;
} simstream_t;
FILE *simstream_open (simstream_t *s, bool read, int bufmode, size_t bufsize);

void lib_setup (void);		/* configure the library's memory and message seams */
void lib_warmup (void);		/* touch every format once so that one-time allocations are done */
extern uint64_t msgs_seen;
extern void (*msg_hook) (const char *file, const char *func, int line, mr_log_level_t ll, mr_message_id_t id, va_list args);	/* replaces the handler */
void msg_handler_set (bool on);	/* off: the library prints messages itself */
extern bool msg_allocates;	/* the message handler itself allocates, formats and frees */
#endif
