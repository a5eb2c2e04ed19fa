/* Random spaces, ownership specifications and the reference model used by the data-flow harnesses. */
#ifndef GEN_H
#define GEN_H
#include "vh.h"
#include "laik.h"

#define MAXENT 1200
#define MAXT 48
typedef struct { int task, tag; int64_t f[3], t[3]; } Ent;
typedef struct { int dims; int64_t f[3], t[3]; int64_t n; } Box; /* index space; n = number of indexes */
typedef struct {
    int cnt; Ent e[MAXENT]; int order[MAXENT];
    bool single;      /* use the single-index API (1d) */
    unsigned empties; /* if set, ranges without any index are added in between, which must not have any effect */
    int flags; int kind; int ntasks; bool viaBuiltin;
    uint64_t* own;    /* per linear index: bitmask of owners */
    bool multi;       /* some index has several owners */
    bool holes;       /* some index has no owner */
    int grp; int* map; /* cross-group runs: group number, ids of the group in the world (0: same) */
    bool all; int singleTask; /* exactly the full space for all / for one task */
    char desc[80];
    Laik_Partitioner* pr; Laik_Partitioning* p;
} Spec;

static inline int64_t box_size(const Box* b) { int64_t n = 1; for (int d = 0; d < b->dims; d++) n *= b->t[d] - b->f[d]; return n; }
static inline int64_t lin(const Box* b, const int64_t* i) {
    int64_t r = 0; for (int d = b->dims - 1; d >= 0; d--) r = r * (b->t[d] - b->f[d]) + (i[d] - b->f[d]); return r; }
Box gen_box(Rng* r, int dims, int maxper, bool shifted);
void gen_boxname(const Box* b, char* out, size_t n);
Laik_Space* gen_space(Laik_Instance* inst, const Box* b);
/* kind < 0: random. multiOk: may assign an index to several tasks. tagmode: -1 random, 0 untagged, 1 tagged */
void gen_spec(Rng* r, const Box* b, int ntasks, int kind, bool multiOk, int tagmode, Spec* s);
void spec_finish(const Box* b, Spec* s); /* compute own etc from entries */
void spec_remap(const Box* b, Spec* s, int grp, int* map); /* entries are given in ids of a group whose id i is map[i] in the world */
void spec_make(Spec* s, Laik_Group* g, Laik_Space* sp, const char* name); /* create partitioner + partitioning */
void spec_from_laik(Spec* s, const Box* b, Laik_Partitioning* p); /* builtin: read complete range list */
void spec_free(Spec* s, bool freeP);
uint64_t spec_sig(const Spec* s);
void spec_str(const Spec* s, const Box* b, char* out, size_t n);
void spec_run(Laik_RangeReceiver* r, Laik_PartitionerParams* p);
int iter_next(int dims, const int64_t* f, const int64_t* t, int64_t* i); /* odometer, x fastest; 0 at end */
enum { SK_BLOCK, SK_BOXES, SK_ALL, SK_SINGLE, SK_MULTIBOX, SK_HOLES, SK_HALO, SK_SCATTER, SK_NKINDS };

/* element types */
typedef enum { T_CHAR, T_UCHAR, T_I32, T_U32, T_I64, T_U64, T_FLOAT, T_DOUBLE, T_N } TypeId;
extern const char* type_names[T_N];
Laik_Type* type_laik(TypeId t);
int type_size(TypeId t);
void type_put(TypeId t, void* p, int64_t v);           /* store small integer v converted to t */
bool type_eq(TypeId t, const void* p, int64_t v);      /* compare with v converted to t */
void type_str(TypeId t, const void* p, char* out);
int64_t red_apply(Laik_ReductionOperation op, int64_t a, int64_t b);
bool type_is_neutral(TypeId t, const void* p, Laik_ReductionOperation op);
extern const char* red_names[16];
#endif
