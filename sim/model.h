/* Reference model of application data: an independent description of the sv_* types, a generator of random
   object graphs, and a canonical form in which two graphs are equal iff they are isomorphic. */
#ifndef MODEL_H
#define MODEL_H
#include "core.h"
#include "types.h"

typedef enum { K_INT, K_UINT, K_BOOL, K_CHAR, K_FLT, K_DBL, K_LDBL, K_CFLT, K_CDBL, K_CLDBL, K_ENUM, K_STR, K_STRUCT, K_UNION, K_PTR,
	       K_VOIDP, K_FUNC, K_CSTR, K_CUSTOM } kind_t;
typedef struct mty mty_t;
typedef struct
{
  const char *name;
  const mty_t *ty;
  size_t off;
  uint32_t count;		/* flattened array length */
  bool is_array;
  int size_off;			/* resizable pointer: offset of its size field in the same struct, or -1 */
  int size_sz; bool size_signed;
  int group;			/* 1 + index of the selector function for members of an anonymous union; 0 otherwise */
  uint64_t (*size_get) (const void *owner);	/* resizable pointer with a size field of an unusual kind */
  void (*size_set) (void *owner, uint64_t size);
} mfld_t;
struct mty
{
  const char *name;
  kind_t kind;
  size_t size;
  int nf;
  const mfld_t *f;
  const mty_t *target;		/* K_PTR */
  const int64_t *evals; int nevals; const char *const *enames;
  bool flags;			/* bitmask enum */
  bool constant;		/* carries a discriminator or a size: not changed on its own */
  int id;
  int (*sel) (const void *owner);	/* active member of a union, from the structure that holds it */
  void (*gen) (void *addr);
  void (*dump) (const void *addr);
};

enum { RT_ROOT, RT_SCALARS, RT_BITS, RT_ARRAYS, RT_NODE, RT_RSZ, RT_UNIONS, RT_PTRS, RT_TYPED, RT_TREE, RT_POINT, RT_EXT, RT_MORE, RT_N,
       /* roots that are no structures: arrays, unions, basic types */
       RT_ROWN = RT_N, RT_ROWT, RT_ROWE, RT_ROWS, RT_ROWI, RT_ROWC,
       RT_BASIC, RT_VAL = RT_BASIC, RT_STR, RT_COLOR, RT_FLAGS, RT_BOOL, RT_CHAR, RT_I8, RT_U8, RT_I16, RT_U16, RT_I32, RT_U32, RT_I64, RT_U64, RT_I128, RT_U128,
       RT_FLT, RT_DBL, RT_LD, RT_CF, RT_CD, RT_CLD, RT_CARR, RT_ALL };
extern const mty_t *root_mty[RT_ALL];

/* what strings may contain */
enum { AL_PLAIN, AL_XML, AL_UTF8, AL_BYTES };
typedef struct
{
  int alphabet;
  uint32_t budget;		/* maximal number of blocks */
  bool share;			/* pointers may point at existing objects */
  bool interior;		/* ... and at members and elements of existing objects */
  bool voidp;
  bool funcs;
  bool overlap;			/* resizable pointers may cover a part of an existing array */
  bool lib_alloc;		/* blocks come from the library's memory functions (so that the library may free them) */
  bool nan;
  bool text_floats;		/* floating point values restricted to those the text precision represents exactly */
  bool no_inf;
  bool signed_zero;		/* zeros take either sign, as a choice of the layout */
  bool dirty;			/* padding, inactive union members and other unspecified bytes hold garbage */
  bool swap;			/* exchange pointers at the end */
  bool str_in_array;		/* strings may point at character arrays of the graph */
  uint32_t max_str;
} gen_cfg_t;
extern gen_cfg_t gen_cfg;
void gen_reset (void);
void *gen_root (int rt);		/* a new random object of the root type */
uint32_t gen_blocks (void);

/* canonical form; the text lives in a harness buffer until the next-but-three call */
typedef struct { const char *s; size_t len; uint64_t h; uint32_t regions, strings; } canon_t;
canon_t canon (int rt, const void *root);
/* every live block allocated by the library after mark must be exactly one region or one string of the object */
void ownership_check (mark_t m, int rt, const void *root, const char *cls, const char *what);
void canon_compare (canon_t a, canon_t b, const char *cls, const char *what);
bool canon_equal (canon_t a, canon_t b);
uint64_t raw_hash (int rt, const void *root);	/* exact bytes of every reachable block (source unmodified?) */
void gen_scribble (int rt, void *root);		/* overwrite every scalar and string byte of the reachable graph */
bool mutate_one (int rt, void *root, const char **what);	/* change one value of the graph; false if none */
/* one basic value of the graph: the same place in isomorphic graphs for the same choices */
typedef struct { const mty_t *ty; void *addr; const char *name; } leaf_t;
leaf_t leaf_pick (int rt, void *root);	/* .ty == NULL if none was found */
void leaf_fill (leaf_t l);		/* a value at the borders of its type */
#endif
