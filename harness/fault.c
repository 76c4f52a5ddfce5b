/* Fault injection at the C library boundary (linked with -Wl,--wrap=...): the
 * k-th call of the chosen class fails, or the k-th and all the later ones. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <dirent.h>
#include <unistd.h>
int nj_quiet;                       /* >0: calls of the harness itself */
long nj_fault_at = -1, nj_fault_n; int nj_fault_sticky, nj_fault_class, nj_fault_hit;
/* classes: 1 memory, 2 files */
static int fails(int cls)
{
    if (nj_quiet || !(nj_fault_class & cls)) return 0;
    long n = nj_fault_n++;
    if (nj_fault_at < 0 || !(n == nj_fault_at || (nj_fault_sticky && n > nj_fault_at))) return 0;
    nj_fault_hit++; errno = cls == 1 ? ENOMEM : EIO; return 1;
}
#define W1(ret, name, cls, params, args, fail) ret __real_##name params; ret __wrap_##name params { if (fails(cls)) return fail; return __real_##name args; }
W1(void *, malloc, 1, (size_t n), (n), NULL)
W1(void *, calloc, 1, (size_t n, size_t m), (n, m), NULL)
W1(void *, realloc, 1, (void *p, size_t n), (p, n), NULL)
W1(char *, strdup, 1, (const char *s), (s), NULL)
W1(FILE *, fmemopen, 1, (void *b, size_t n, const char *m), (b, n, m), NULL)
W1(FILE *, fopen, 2, (const char *p, const char *m), (p, m), NULL)
W1(DIR *, opendir, 2, (const char *p), (p), NULL)
W1(char *, getcwd, 2, (char *b, size_t n), (b, n), NULL)
W1(int, fseek, 2, (FILE *f, long o, int w), (f, o, w), -1)
W1(long, ftell, 2, (FILE *f), (f), -1)
W1(size_t, fread, 2, (void *p, size_t s, size_t n, FILE *f), (p, s, n, f), 0)
