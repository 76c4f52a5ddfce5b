#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#include "run.h"
#include "runtime.h"
#include "diagram.h"
#include "builtins/basic.h"
#include "compiler/compile.h"
#include "assembler/assemble.h"
#include "shim.h"
extern int nj_quiet __attribute__((weak));   /* fault.c: calls of the harness itself don't fail */
static void hush(int d) { if (&nj_quiet) nj_quiet += d; }

#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define HAVE_ASAN 1
# endif
#endif
#ifdef HAVE_ASAN
size_t __sanitizer_get_current_allocated_bytes(void);
size_t nj_allocated(void) { return __sanitizer_get_current_allocated_bytes(); }
#else
#include <malloc.h>
size_t nj_allocated(void) { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
#endif

/* ---- persistent sinks: fixed memory, so that runs don't allocate through them */
#define SINK_CAP (1u << 20)
typedef struct { char *buf; size_t len; } Sink;
static char sinkmem[3][SINK_CAP + 1];
static Sink s_out = { sinkmem[0], 0 }, s_err = { sinkmem[1], 0 }, s_trace = { sinkmem[2], 0 };
static FILE *f_out, *f_err, *f_trace, *f_in;
static const char *in_data; static size_t in_len, in_pos;

static ssize_t sink_write(void *c, const char *b, size_t n)
{
    Sink *s = c; size_t k = n;
    if (k > SINK_CAP - s->len) k = SINK_CAP - s->len;
    memcpy(s->buf + s->len, b, k); s->len += k; s->buf[s->len] = 0;
    return n;
}
static ssize_t in_read(void *c, char *b, size_t n)
{
    (void) c; size_t k = in_len - in_pos; if (k > n) k = n;
    memcpy(b, in_data + in_pos, k); in_pos += k; return k;
}
static FILE *mksink(Sink *s)
{
    cookie_io_functions_t io = { .write = sink_write };
    FILE *f = fopencookie(s, "w", io); setvbuf(f, NULL, _IONBF, 0); return f;
}
void nj_warm(void)
{
    if (f_out) return;
    f_out = mksink(&s_out); f_err = mksink(&s_err); f_trace = mksink(&s_trace);
    cookie_io_functions_t io = { .read = in_read };
    f_in = fopencookie(NULL, "r", io); setvbuf(f_in, NULL, _IONBF, 0);
    fprintf(f_out, "%g %.17g\n", 1.5, 0.1);
    s_out.len = 0;
}

/* ---- canonical value serializer.  Walks collections through the public API
 * with a scratch heap of its own, so that the observed heap isn't touched. */
#define MAXSEEN 512
typedef struct { Object *seen[MAXSEEN]; int n; Heap *h; int depth; } Ser;
static void put(const char *s) { sink_write(&s_out, s, strlen(s)); }
static void putbytes(const char *s, size_t n)
{
    char tmp[8];
    for (size_t i = 0; i < n; i++) {
        unsigned char c = s[i];
        if (c == '\\' || c == '"') { tmp[0] = '\\'; tmp[1] = c; tmp[2] = 0; }
        else if (c < 32 || c == 127) snprintf(tmp, sizeof tmp, "\\x%02x", c);
        else { tmp[0] = c; tmp[1] = 0; }
        put(tmp);
    }
}
static void ser(Ser *S, Object *o)
{
    char tmp[64];
    Error e; Error_Init(&e);
    if (o == NULL) { put("NULL!"); return; }
    if (Object_IsNone(o)) { put("n"); return; }
    if (Object_IsBool(o)) { put(Object_GetBool(o) ? "T" : "F"); return; }
    if (Object_IsInt(o)) { snprintf(tmp, sizeof tmp, "%lld", Object_GetInt(o)); put(tmp); return; }
    if (Object_IsFloat(o)) {
        double d = Object_GetFloat(o);
        if (d != d) put("fnan"); else { snprintf(tmp, sizeof tmp, "f%.17g", d); put(tmp); }
        return;
    }
    if (Object_IsString(o)) { size_t n; const char *s = Object_GetString(o, &n); put("\""); putbytes(s, n); put("\""); return; }
    if (o->type == &t_type) { put("<"); put(((TypeObject*) o)->name); put(">"); return; }
    if (!Object_IsList(o) && !Object_IsMap(o) && !Object_IsBuffer(o)) { put("<a "); put(Object_GetName(o)); put(">"); return; }   /* identity of functions & co. isn't specified */
    for (int i = 0; i < S->n; i++)
        if (S->seen[i] == o) { snprintf(tmp, sizeof tmp, "^%d", i); put(tmp); return; }
    if (S->n < MAXSEEN) S->seen[S->n++] = o;
    if (S->depth > 40) { put("..."); return; }
    S->depth++;
    if (Object_IsList(o)) {
        int n = Object_Count(o, &e);
        put("[");
        for (int i = 0; i < n; i++) {
            if (i) put(",");
            Object *k = Object_FromInt(i, S->h, &e);
            Object *v = Object_Select(o, k, S->h, &e);
            ser(S, v);
        }
        put("]");
    } else if (Object_IsMap(o)) {
        Object *ks = Object_KeysOf(o, S->h, &e);
        int n = ks ? Object_Count(ks, &e) : -1;
        if (n != Object_Count(o, &e)) put("{COUNT!=KEYS!}");
        put("{");
        for (int i = 0; i < n; i++) {
            if (i) put(",");
            Object *k = Object_FromInt(i, S->h, &e);
            Object *kk = Object_Select(ks, k, S->h, &e);
            int was = S->n; ser(S, kk); S->n = was;   /* keys are copies */
            put(":");
            Object *v = Object_Select(o, kk, S->h, &e);
            ser(S, v);
        }
        put("}");
    } else if (Object_IsBuffer(o)) {
        size_t n; unsigned char *p = Object_GetBuffer(o, &n);
        put("b");
        for (size_t i = 0; i < n; i++) { snprintf(tmp, sizeof tmp, "%02x", p[i]); put(tmp); }
    } else { put("<a "); put(Object_GetName(o)); put(">"); }
    S->depth--;
    if (e.occurred) { put("SERERR("); put(e.message); put(")"); }
    Error_Free(&e);
}

/* ---- natives available to the driver programs */
typedef struct {
    const nj_cfg *cfg; nj_res *res; Heap *scratch; int horizon; long steps;
} Env;
static Env *env;

static Ser *mkser(void)
{
    static Ser S; S.n = 0; S.depth = 0;
    if (env->scratch == NULL) env->scratch = Heap_New(1 << 14);
    S.h = env->scratch;
    return &S;
}
static int n_emit(Runtime *rt, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
{
    (void) rt; (void) rets; (void) error;
    hush(1);
    Ser *S = mkser();
    put("@");
    for (unsigned int i = 0; i < argc; i++) { put(" "); ser(S, argv[i]); }
    put("\n");
    if (env->scratch && Heap_GetUsagePercentage(env->scratch) > 5000) { Heap_Free(env->scratch); env->scratch = NULL; }
    hush(-1);
    /* returns its first argument so that it can be used inside expressions */
    if (argc > 0) { rets[0] = argv[0]; return 1; }
    return 0;
}
static int ask_common(Runtime *rt, int n, Object *rets[static MAX_RETS], Error *error, int as_bool)
{
    int v = env->cfg->ask ? env->cfg->ask(env->cfg->ask_ud, n) : -1;
    if (v < 0) { env->horizon = 1; Error_Report(error, ErrorType_RUNTIME, "HORIZON"); return -1; }
    rets[0] = as_bool ? Object_FromBool(v, Runtime_GetHeap(rt), error) : Object_FromInt(v, Runtime_GetHeap(rt), error);
    return rets[0] == NULL ? -1 : 1;
}
static int n_ask(Runtime *rt, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
{ (void) argv; (void) argc; return ask_common(rt, 2, rets, error, 1); }
static int n_choose(Runtime *rt, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
{
    (void) argc;
    if (!Object_IsInt(argv[0])) { Error_Report(error, ErrorType_RUNTIME, "choose(int)"); return -1; }
    return ask_common(rt, (int) Object_GetInt(argv[0]), rets, error, 0);
}
/* many(n): returns the n values 1..n */
static int n_many(Runtime *rt, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
{
    (void) argc;
    if (!Object_IsInt(argv[0])) { Error_Report(error, ErrorType_RUNTIME, "many(int)"); return -1; }
    int n = (int) Object_GetInt(argv[0]); if (n > MAX_RETS) n = MAX_RETS; if (n < 0) n = 0;
    for (int i = 0; i < n; i++)
        if ((rets[i] = Object_FromInt(i + 1, Runtime_GetHeap(rt), error)) == NULL) return -1;
    return n;
}
static int n_gc(Runtime *rt, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
{ (void) rt; (void) argv; (void) argc; (void) rets; (void) error; return 0; }

static StaticMapSlot env_slots[] = {
    { "emit",   SM_FUNCT, .as_funct = n_emit,   .argc = -1 },
    { "ask",    SM_FUNCT, .as_funct = n_ask,    .argc = 0 },
    { "choose", SM_FUNCT, .as_funct = n_choose, .argc = 1 },
    { "many",   SM_FUNCT, .as_funct = n_many,   .argc = 1 },
    { "nop",    SM_FUNCT, .as_funct = n_gc,     .argc = -1 },
    { NULL, SM_END, {}, {} },
};

static Runtime *step_rt;
/* inside of a step callback: collects, then returns the bytes in use (-1: failed) */
long nj_live(void)
{
    Error e; Error_Init(&e);
    bool ok = Runtime_CollectGarbage(step_rt, &e); Error_Free(&e);
    if (!ok) return -1;
    Heap *h = Runtime_GetHeap(step_rt);
    return (long) ((double) Heap_GetUsagePercentage(h) * Heap_GetSize(h) / 100 + 0.5);
}
/* bytes printed and emitted so far by the current run */
size_t nj_outlen(void) { return s_out.len; }
/* every failure is reported once, and nothing is executed after it */
static Error *watched;
static int reports;
static void on_report(Error *e)
{
    static char last[200];
    if (++reports > 1) { fprintf(stderr, "MISBEHAVIOUR: an error (%s, %s) is reported on top of another (%s)\n", e->message, e->func, last); abort(); }
    snprintf(last, sizeof last, "%s, %s", e->message, e->func);
}
static bool on_step(Runtime *rt, void *ud)
{
    (void) ud; step_rt = rt;
    if (watched && watched->occurred) { fprintf(stderr, "MISBEHAVIOUR: the execution goes on after an error: %s\n", watched->message); abort(); }
    long n = env->steps++;
    long max = env->cfg->max_steps ? env->cfg->max_steps : 2000000;
    if (n >= max) { env->horizon = 2; return false; }
    if (env->cfg->step == NULL) return true;
    switch (env->cfg->step(env->cfg->step_ud, n)) {
        case NJ_COLLECT: {
            Error e; Error_Init(&e);
            env->res->collections++;
            bool ok = Runtime_CollectGarbage(rt, &e);
            Error_Free(&e);
            if (!ok) { env->res->failed_collections++; env->horizon = 3; }   /* there's no going on after that */
            return ok;
        }
        case NJ_ABORT: return false;
        case NJ_INTERRUPT: Runtime_Interrupt(rt); return true;
    }
    return true;
}

static void errcopy(nj_res *res, Error *e)
{
    res->err_occurred = e->occurred; res->err_type = e->type; res->err_internal = e->internal;
    snprintf(res->msg, sizeof res->msg, "%s", e->message ? e->message : "");
    res->msglen = 0; res->msghash = 5381;
    for (const char *p = e->message; p && *p; p++) { res->msghash = res->msghash * 33 ^ (unsigned char)*p; res->msglen++; }
}

void nj_run(const nj_cfg *cfg, const char *src, nj_res *res)
{
    nj_warm();
    memset(res, 0, offsetof(nj_res, rets)); res->rets[0] = 0;
    res->leak = res->steps = 0; res->horizon = 0; res->collections = res->failed_collections = 0;
    s_out.len = s_err.len = s_trace.len = 0; s_out.buf[0] = s_err.buf[0] = s_trace.buf[0] = 0;
    in_data = cfg->in; in_len = cfg->inlen; in_pos = 0; clearerr(f_in);

    size_t before = nj_allocated();
    Env E = { .cfg = cfg, .res = res };
    env = &E;

    RuntimeConfig rc = Runtime_GetDefaultConfigs();
    rc.heap = cfg->heap ? cfg->heap : 100000;
    if (cfg->stack) rc.stack = cfg->stack;
    rc.time = cfg->time;
    rc.stdin = f_in; rc.stdout = f_out; rc.stderr = f_err;
    rc.callback.func = on_step;

    Runtime *rt = Runtime_New(rc);
    if (rt == NULL) { res->retc = -2; goto end; }
    {
        Error e; Error_Init2(&e, on_report); watched = &e; reports = 0;
        bool ok = true;
        /* the hook must not fire while the builtins come up */
        const nj_cfg quiet = { .max_steps = 1L << 40 };
        E.cfg = &quiet;
        if (ok && cfg->builtins == NJ_B_NATIVE)
            ok = Runtime_plugBuiltinsFromStaticMap(rt, bins_basic, bins_basic_init, &e);
        if (ok && cfg->builtins == NJ_B_FULL)
            ok = Runtime_plugDefaultBuiltins(rt, &e);
        if (ok && !cfg->no_natives)
            ok = Runtime_plugBuiltinsFromStaticMap(rt, env_slots, NULL, &e);
        for (int i = 0; ok && cfg->extra && cfg->extra[i]; i++)
            ok = Runtime_plugBuiltinsFromString(rt, cfg->extra[i], &e);
        E.cfg = cfg; E.steps = 0; E.horizon = 0;
        if (!ok) { watched = NULL; res->retc = -3; errcopy(res, &e); Error_Free(&e); Runtime_Free(rt); goto end; }
        res->ready = 1;

        Object *rets[MAX_RETS];
        int retc;
        if (cfg->file)
            retc = cfg->bytecode ? runBytecodeFileEx(rt, cfg->file, rets, &e) : runFileEx(rt, cfg->file, rets, &e);
        else {
            Source *s = Source_FromString(cfg->name ? cfg->name : "t", src, cfg->srclen > 0 ? cfg->srclen : -1, &e);
            if (s == NULL) retc = -1;
            else {
                retc = cfg->bytecode ? runBytecodeSource(rt, s, rets, &e) : runSource(rt, s, rets, &e);
                Source_Free(s);
            }
        }
        watched = NULL;
        res->retc = retc;
        res->steps = E.steps;
        res->horizon = E.horizon;
        errcopy(res, &e);
        if (retc >= 0) {
            hush(1);
            size_t mark = s_out.len;
            Ser *S = mkser();
            for (int i = 0; i < retc && i < MAX_RETS; i++) { ser(S, rets[i]); put(";"); }
            snprintf(res->rets, sizeof res->rets, "%s", s_out.buf + mark);
            s_out.len = mark; s_out.buf[mark] = 0;
            hush(-1);
        }
        if (cfg->want_trace && retc < 0) {
            Error_Print(&e, ErrorType_RUNTIME, f_trace);
            Runtime_PrintStackTrace(rt, f_trace);
        }
        if (cfg->time) Runtime_SerializeProfilingResultsToStream(rt, f_trace);
        Error_Free(&e);
    }
    Runtime_Free(rt);
end:
    if (E.scratch) Heap_Free(E.scratch);
    env = NULL;
    res->leak = (long) nj_allocated() - (long) before;
    res->out = s_out.buf; res->outlen = s_out.len;
    res->err = s_err.buf; res->errlen = s_err.len;
    res->trace = s_trace.buf; res->tracelen = s_trace.len;
}

/* ---- front end */
static void comp(const char *src, long len, nj_comp *c, int asmb)
{
    Error e; Error_Init2(&e, on_report); reports = 0;
    memset(c, 0, sizeof *c); c->offset = -777;
    Source *s = Source_FromString("t", src, len, &e);
    if (s) {
        c->exe = asmb ? assemble(s, &e, &c->offset) : compile(s, &e, &c->offset);
        Source_Free(s);
    }
    c->ok = c->exe != NULL;
    c->err_occurred = e.occurred; c->err_type = e.type; c->err_internal = e.internal;
    snprintf(c->msg, sizeof c->msg, "%s", e.message ? e.message : "");
    Error_Free(&e);
}
void nj_compile(const char *src, long len, nj_comp *c)  { comp(src, len, c, 0); }
void nj_assemble(const char *src, long len, nj_comp *c) { comp(src, len, c, 1); }
int  nj_equiv(void *a, void *b) { nj_warm(); s_err.len = 0; return Executable_Equiv(a, b, f_err, ""); }
void nj_exe_free(void *e) { Executable_Free(e); }
size_t nj_dump(void *e, char *buf, size_t cap)
{
    nj_warm(); s_trace.len = 0; s_trace.buf[0] = 0;
    Executable_Dump(e, f_trace);
    size_t n = s_trace.len < cap - 1 ? s_trace.len : cap - 1;
    memcpy(buf, s_trace.buf, n); buf[n] = 0; return n;
}
int nj_fetch(void *exe, int idx, char *buf, size_t cap, int *off, int *len)
{
    Opcode op; Operand ops[8]; int opc = 8;
    if (!Executable_Fetch(exe, idx, &op, ops, &opc)) return 0;
    size_t k = snprintf(buf, cap, "%s", Executable_GetOpcodeName(op));
    for (int i = 0; i < opc && k < cap; i++)
        switch (ops[i].type) {
            case OPTP_IDX:    k += snprintf(buf + k, cap - k, " @%lld", ops[i].as_int); break;
            case OPTP_INT:    k += snprintf(buf + k, cap - k, " %lld", ops[i].as_int); break;
            case OPTP_FLOAT:  k += snprintf(buf + k, cap - k, " f%.17g", ops[i].as_float); break;
            case OPTP_STRING: k += snprintf(buf + k, cap - k, " \"%s\"", ops[i].as_string); break;
            default:          k += snprintf(buf + k, cap - k, " ?"); break;
        }
    if (off) *off = Executable_GetInstrOffset(exe, idx);
    if (len) *len = Executable_GetInstrLength(exe, idx);
    return 1;
}
static char *diagram(const char *src, int file, nj_comp *c)
{
    Error e; Error_Init2(&e, on_report); reports = 0;
    memset(c, 0, sizeof *c); c->offset = -777;
    char *r = file ? diagramFileAST(src, &e, &c->offset) : diagramStringAST(src, &e, &c->offset);
    c->ok = r != NULL;
    c->err_occurred = e.occurred; c->err_type = e.type;
    snprintf(c->msg, sizeof c->msg, "%s", e.message ? e.message : "");
    Error_Free(&e);
    return r;
}
char *nj_diagram(const char *src, nj_comp *c) { return diagram(src, 0, c); }
char *nj_diagram_file(const char *path, nj_comp *c) { return diagram(path, 1, c); }
