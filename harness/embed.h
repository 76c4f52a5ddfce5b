#ifdef __cplusplus
extern "C" {
#endif
/* sessions: up to two runtimes, driven step by step through the public interface */
extern long em_bytes;
typedef struct { int ok, occurred; char out[4096]; char rets[2048]; char msg[400]; } em_res;
int  em_new(int k, long heap, int builtins);       /* 0: bare, 1: default builtins */
void em_free(int k);
int  em_live(int k);
/* mode 0: as a string, 1: as a file, 2: as a source object, 3: as a string without results, 4: as a file without results, 5-9: the same (5: string, 6: file, 7: source object, 8, 9: without results) for bytecode;
   10-13: the file of this name, source with and without results, bytecode with and without */
void em_run(int k, int mode, const char *src, em_res *r);    /* keeps what it returns until the next step on k */
void em_call(int k, int which, int nargs, const long *args, em_res *r);  /* call the which-th value returned last */
int  em_collect(int k);
int  em_plug(int k, const char *src);
int  em_plug_as(int k, int how, const char *text);  /* 1: the file of this name, 2: a source object */
void em_interrupt(int k);
void em_plug_table(int k);                         /* the table of every kind of slot */
#ifdef __cplusplus
}
#endif
