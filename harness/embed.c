#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "run.h"
#include "runtime.h"
#include "embed.h"
typedef struct { Runtime *rt; FILE *out; char *buf; size_t len; Object *rets[MAX_RETS]; int retc; } S;
static S ss[2];
size_t nj_allocated(void);
/* bytes held by the sessions: what the calls below allocated and have not released */
long em_bytes; static int depth; static long mark;
static void in(void) { if (depth++ == 0) mark = (long) nj_allocated(); }
static void out(void) { if (--depth == 0) em_bytes += (long) nj_allocated() - mark; }
int em_live(int k) { return ss[k].rt != NULL; }
static int x_em_plug_as(int k, int how, const char *t) { Error e; Error_Init(&e); int ok; if (how == 1) ok = Runtime_plugBuiltinsFromFile(ss[k].rt, t, &e); else { Source *so = Source_FromString("p", t, -1, &e); ok = so && Runtime_plugBuiltinsFromSource(ss[k].rt, so, &e); if (so) Source_Free(so); } if (!ok && !e.occurred) { fprintf(stderr, "MISBEHAVIOUR: a failing plug reports no error\n"); abort(); } Error_Free(&e); ss[k].retc = 0; return ok; }
static int x_em_plug(int k, const char *src) { Error e; Error_Init(&e); int ok = Runtime_plugBuiltinsFromString(ss[k].rt, src, &e); Error_Free(&e); ss[k].retc = 0; return ok; }
static int x_em_new(int k, long heap, int b)
{
    S *s = &ss[k]; memset(s, 0, sizeof *s); s->out = open_memstream(&s->buf, &s->len);
    RuntimeConfig c = Runtime_GetDefaultConfigs(); c.heap = heap; c.stdout = s->out; c.stderr = s->out; c.stdin = stdin;
    s->rt = Runtime_New(c); if (!s->rt) return 0; if (!b) return 1;
    Error e; Error_Init(&e); int ok = Runtime_plugDefaultBuiltins(s->rt, &e); Error_Free(&e); return ok;
}
static void x_em_free(int k) { S *s = &ss[k]; Runtime_Free(s->rt); fclose(s->out); free(s->buf); memset(s, 0, sizeof *s); }
static void show(FILE *f, Object *o, int d)
{
    if (Object_IsString(o)) { size_t n; const char *t = Object_GetString(o, &n); fputc('\'', f); fwrite(t, 1, n, f); fputc('\'', f); return; }
    Object_Print(o, f); (void) d;
}
static void done(S *s, em_res *r, Error *e)
{
    fflush(s->out); size_t n = s->len < sizeof r->out - 1 ? s->len : sizeof r->out - 1; memcpy(r->out, s->buf, n); r->out[n] = 0; fseeko(s->out, 0, SEEK_SET); 
    r->ok = s->retc >= 0; r->occurred = e->occurred; snprintf(r->msg, sizeof r->msg, "%s", e->message ? e->message : ""); r->rets[0] = 0;
    if (s->retc > 0) { char *b = NULL; size_t l = 0; FILE *f = open_memstream(&b, &l); for (int i = 0; i < s->retc; i++) { show(f, s->rets[i], 0); fputc(';', f); } fclose(f); snprintf(r->rets, sizeof r->rets, "%s", b); free(b); }
    Error_Free(e);
}
static int reports;
static void on_report(Error *e) { if (++reports > 1) { fprintf(stderr, "MISBEHAVIOUR: an error (%s) is reported on top of another\n", e->message); abort(); } }
static int start(S *s, int mode, const char *src, Object **rets, Error *e)
{
    char path[64]; FILE *f; int n;
    if (mode == 10) return runFileEx(s->rt, src, rets, e);
    if (mode == 11) return runFile(s->rt, src, e) ? 0 : -1;
    if (mode == 12) return runBytecodeFileEx(s->rt, src, rets, e);
    if (mode == 13) return runBytecodeFile(s->rt, src, e) ? 0 : -1;
    if (mode == 1 || mode == 4 || mode == 6 || mode == 9) { snprintf(path, sizeof path, "/dev/shm/em-%d.noja", (int) getpid()); f = fopen(path, "wb"); if (!f) { snprintf(path, sizeof path, "/tmp/em-%d.noja", (int) getpid()); f = fopen(path, "wb"); } fwrite(src, 1, strlen(src), f); fclose(f); }
    switch (mode) {
    default: return runStringEx(s->rt, "s", src, rets, e);
    case 1: n = runFileEx(s->rt, path, rets, e); break;
    case 2: { Source *so = Source_FromString("s", src, -1, e); if (!so) return -1; n = runSource(s->rt, so, rets, e); Source_Free(so); return n; }
    case 3: return runString(s->rt, src, e) ? 0 : -1;
    case 4: n = runFile(s->rt, path, e) ? 0 : -1; break;
    case 5: return runBytecodeStringEx(s->rt, "s", src, rets, e);
    case 6: n = runBytecodeFileEx(s->rt, path, rets, e); break;
    case 7: { Source *so = Source_FromString("s", src, -1, e); if (!so) return -1; n = runBytecodeSource(s->rt, so, rets, e); Source_Free(so); return n; }
    case 8: return runBytecodeString(s->rt, src, e) ? 0 : -1;
    case 9: n = runBytecodeFile(s->rt, path, e) ? 0 : -1; break;
    }
    unlink(path); return n;
}
static void x_em_interrupt(int k) { Runtime_Interrupt(ss[k].rt); ss[k].retc = 0; }
static void x_em_run(int k, int mode, const char *src, em_res *r) { S *s = &ss[k]; Error e; int rp = reports; reports = 0; Error_Init2(&e, on_report); fseeko(s->out, 0, SEEK_SET); s->retc = start(s, mode, src, s->rets, &e); done(s, r, &e); reports = rp; }
static void x_em_call(int k, int which, int nargs, const long *args, em_res *r)
{
    S *s = &ss[k]; Error e; int rp = reports; reports = 0; Error_Init2(&e, on_report); Object *argv[8]; Object *out[MAX_RETS]; Heap *h = Runtime_GetHeap(s->rt); Object *f = s->rets[which]; fseeko(s->out, 0, SEEK_SET);
    for (int i = 0; i < nargs; i++) if (!(argv[i] = Object_FromInt(args[i], h, &e))) { s->retc = -1; done(s, r, &e); return; }
    s->retc = Object_Call(f, argv, nargs, out, h, &e); if (s->retc > 0) memcpy(s->rets, out, sizeof out); done(s, r, &e);
}
static int x_em_collect(int k) { Error e; int rp = reports; reports = 0; Error_Init2(&e, on_report); ss[k].retc = 0; int ok = Runtime_CollectGarbage(ss[k].rt, &e); Error_Free(&e); return ok; }
/* ---- a table with a slot of every kind; functions print their arguments */
static int fn(const char *n, Runtime *rt, Object **argv, unsigned int argc) { FILE *f = Runtime_GetOutputStream(rt); fprintf(f, "%s(", n); for (unsigned i = 0; i < argc; i++) { if (i) fputc(' ', f); show(f, argv[i], 0); } fprintf(f, ")"); return 0; }
#define F(x) static int f_##x(Runtime *rt, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *e) { (void) rets; (void) e; return fn(#x, rt, argv, argc); }
F(v) F(n0) F(n1) F(n2) F(n5)
static int f_id(Runtime *rt, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *e) { (void) rt; (void) e; unsigned n = argc < MAX_RETS ? argc : MAX_RETS; for (unsigned i = 0; i < n; i++) rets[i] = argv[argc - 1 - i]; return n; }
static int f_fail(Runtime *rt, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *e) { (void) rt; (void) argc; (void) argv; (void) rets; Error_Report(e, ErrorType_RUNTIME, "failed on purpose"); return -1; }
static int f_apply(Runtime *rt, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *e) { (void) argc; return Object_Call(argv[0], argv + 1, argc - 1, rets, Runtime_GetHeap(rt), e); }
/* run a program in the same runtime, and in the other one, from a native function */
static int f_eval(Runtime *rt, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *e) { if (argc < 1 || !Object_IsString(argv[0])) { Error_Report(e, ErrorType_RUNTIME, "eval what"); return -1; } return runStringEx(rt, "e", Object_GetString(argv[0], NULL), rets, e); }
static int f_other(Runtime *rt, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *e)
{
    int k = ss[0].rt == rt; if (argc < 1 || !Object_IsString(argv[0]) || !ss[k].rt) { Error_Report(e, ErrorType_RUNTIME, "no other"); return -1; }
    em_res *r = malloc(sizeof *r); x_em_run(k, 0, Object_GetString(argv[0], NULL), r); FILE *f = Runtime_GetOutputStream(rt); fprintf(f, "<%s|%s>", r->ok ? r->rets : "failed", r->out); ss[k].retc = 0; int ok = r->ok; free(r);
    rets[0] = Object_FromBool(ok, Runtime_GetHeap(rt), e); return rets[0] ? 1 : -1;
}
static StaticMapSlot sub[] = { { "deep", SM_INT, .as_int = 77 }, { "v", SM_FUNCT, .as_funct = f_v, .argc = -1 }, { NULL, SM_END, {}, {} } };
static StaticMapSlot table[] = {
    { "yes", SM_BOOL, .as_bool = 1 }, { "no", SM_BOOL, .as_bool = 0 }, { "big", SM_INT, .as_int = -9223372036854775807LL }, { "half", SM_FLOAT, .as_float = 0.5 }, { "nothing", SM_NONE },
    { "text", SM_STRING, .as_string = "hello", .length = -1 }, { "part", SM_STRING, .as_string = "hello", .length = 3 }, { "empty", SM_STRING, .as_string = "", .length = 0 }, { "nul", SM_STRING, .as_string = "deep\0x", .length = 6 }, { "nul5", SM_STRING, .as_string = "deep\0", .length = 5 }, { "nul1", SM_STRING, .as_string = "\0", .length = 1 }, { "sub", SM_SMAP, .as_smap = sub }, { "kind", SM_TYPE, .as_type = NULL },
    { "v", SM_FUNCT, .as_funct = f_v, .argc = -1 }, { "n0", SM_FUNCT, .as_funct = f_n0, .argc = 0 }, { "n1", SM_FUNCT, .as_funct = f_n1, .argc = 1 }, { "n2", SM_FUNCT, .as_funct = f_n2, .argc = 2 }, { "n5", SM_FUNCT, .as_funct = f_n5, .argc = 5 },
    { "id", SM_FUNCT, .as_funct = f_id, .argc = -1 }, { "fail", SM_FUNCT, .as_funct = f_fail, .argc = -1 }, { "apply", SM_FUNCT, .as_funct = f_apply, .argc = -1 }, { "eval", SM_FUNCT, .as_funct = f_eval, .argc = 1 }, { "other", SM_FUNCT, .as_funct = f_other, .argc = 1 }, { "v", SM_INT, .as_int = 1 }, { NULL, SM_END, {}, {} },
};
static void x_em_plug_table(int k) { Error e; Error_Init(&e); for (StaticMapSlot *t = table; t->name; t++) if (!strcmp(t->name, "kind")) t->as_type = &t_type; Runtime_plugBuiltinsFromStaticMap(ss[k].rt, table, NULL, &e); Error_Free(&e); ss[k].retc = 0; }
int em_plug(int k, const char *t) { in(); int r = x_em_plug(k, t); out(); return r; }
int em_plug_as(int k, int how, const char *t) { in(); int r = x_em_plug_as(k, how, t); out(); return r; }
int em_new(int k, long heap, int b) { in(); int r = x_em_new(k, heap, b); out(); return r; }
void em_free(int k) { in(); x_em_free(k); out(); }
void em_run(int k, int mode, const char *src, em_res *r) { in(); x_em_run(k, mode, src, r); out(); }
void em_call(int k, int which, int n, const long *a, em_res *r) { in(); x_em_call(k, which, n, a, r); out(); }
int em_collect(int k) { in(); int r = x_em_collect(k); out(); return r; }
void em_plug_table(int k) { in(); x_em_plug_table(k); out(); }
void em_interrupt(int k) { x_em_interrupt(k); }
