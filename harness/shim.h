/* C-callable wrapper around the noja public API (whose headers are C-only:
 * they use `T a[static N]`), so that the C++ explorers can drive it. */
#ifndef NJ_SHIM_H
#define NJ_SHIM_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

enum { NJ_B_NATIVE = 0, NJ_B_FULL = 1, NJ_B_NONE = 2 };
enum { NJ_CONTINUE = 0, NJ_COLLECT = 1, NJ_ABORT = 2, NJ_INTERRUPT = 3 };

typedef struct nj_cfg {
    long  heap;              /* 0: 100000 (sizes beyond are slow under ASan) */
    long  stack;             /* 0: 1024 */
    int   builtins;          /* NJ_B_* */
    int   bytecode;          /* source text is assembly */
    int   time;              /* profiling on */
    int   no_natives;        /* don't plug emit/ask & co. */
    const char *name;        /* source name, NULL: "t" */
    const char *file;        /* run this file instead of a string */
    long  srclen;            /* -1/0: strlen */
    const char *in;  size_t inlen;       /* stdin contents */
    int (*step)(void *ud, long n); void *step_ud;   /* after each instruction */
    int (*ask)(void *ud, int n);   void *ask_ud;    /* <0: horizon reached */
    long  max_steps;         /* abort after that many instructions (0: 2M) */
    int   want_trace;        /* fill trace */
    const char **extra;      /* NULL terminated noja strings plugged as builtins, in order */
    int   keep_going;        /* for extra: n/a */
} nj_cfg;

typedef struct nj_res {
    int   ready;             /* runtime + builtins came up */
    int   retc;              /* <0: error */
    int   err_occurred, err_type, err_internal;
    char  msg[5000]; size_t msglen; unsigned long msghash;   // of the whole message
    char  rets[4096];        /* serialized return values, ';' separated */
    char *out; size_t outlen;        /* stdout + emits, harness-owned */
    char *err; size_t errlen;        /* stderr stream */
    char *trace; size_t tracelen;
    long  steps;
    long  leak;              /* bytes still allocated after Runtime_Free */
    int   horizon;           /* run ended by the ask()/step horizon */
    long  collections, failed_collections;
    long  depth_left;        /* frames still on the stack before free (errors keep them) */
    long  maxuse;
} nj_res;

void nj_run(const nj_cfg *cfg, const char *src, nj_res *res);

/* front end only */
typedef struct nj_comp {
    int ok, err_type, err_occurred, err_internal, offset; char msg[600];
    void *exe;               /* Executable* when ok */
} nj_comp;
void nj_compile(const char *src, long len, nj_comp *c);
void nj_assemble(const char *src, long len, nj_comp *c);
int  nj_equiv(void *e1, void *e2);
void nj_exe_free(void *e);
size_t nj_dump(void *e, char *buf, size_t cap);
/* one instruction: fills name and a textual operand list; 0 when out of range */
int  nj_fetch(void *e, int idx, char *buf, size_t cap, int *off, int *len);
char *nj_diagram(const char *src, nj_comp *c);  /* free() it */
char *nj_diagram_file(const char *path, nj_comp *c);
size_t nj_allocated(void);
long nj_live(void);
size_t nj_outlen(void);
void nj_warm(void);
#ifdef __cplusplus
}
#endif
#endif
