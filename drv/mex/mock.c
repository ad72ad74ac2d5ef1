/* Stand-in for the MEX run-time; mexErrMsgTxt() does not return, as in the real one. */
#include "mex.h"
#include <setjmp.h>
#include <string.h>
static jmp_buf jb; static volatile int in_call; static char err[4000]; static char warn[4000];
/* What the function allocates and opens by itself (what comes from the interface belongs to the interface). */
static void *live[1 << 14]; static volatile int nlive, nfiles, in_mx;
void *__real_malloc(size_t n); void *__real_calloc(size_t n, size_t m); void *__real_realloc(void *p, size_t n); void __real_free(void *p); FILE *__real_fopen(const char *a, const char *b); int __real_fclose(FILE *f);
static void *born(void *p) { if (p && in_call && !in_mx && nlive < 1 << 14) live[nlive++] = p; return p; }
static void gone(void *p) { for (int i = nlive; p && i-- > 0; ) if (live[i] == p) { live[i] = live[--nlive]; return; } }
void *__wrap_malloc(size_t n) { return born(__real_malloc(n)); }
void *__wrap_calloc(size_t n, size_t m) { return born(__real_calloc(n, m)); }
void *__wrap_realloc(void *p, size_t n) { void *q = __real_realloc(p, n); if (q || !n) { gone(p); born(q); } return q; }
void __wrap_free(void *p) { gone(p); __real_free(p); }
FILE *__wrap_fopen(const char *a, const char *b) { FILE *f = __real_fopen(a, b); if (f && in_call) nfiles++; return f; }
int __wrap_fclose(FILE *f) { if (in_call) nfiles--; return __real_fclose(f); }
static void die(const char *s) { fprintf(stderr, "HARNESS: mex: %s\n", s); _Exit(97); }
const char *mexFunctionName(void) { return "loadsrf"; }
int mexPrintf(const char *f, ...) { va_list a; va_start(a, f); int r = vsnprintf(warn, sizeof warn, f, a); va_end(a); return r; }
void mexErrMsgTxt(const char *s) { snprintf(err, sizeof err, "E%s", s); if (!in_call) die("error outside a call"); longjmp(jb, 1); }
void mexErrMsgIdAndTxt(const char *id, const char *f, ...) { char b[3000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); mexErrMsgTxt(b); }
void mexWarnMsgTxt(const char *s) { snprintf(warn, sizeof warn, "%s", s); }
void *mxMalloc(mwSize n) { in_mx++; void *p = malloc(n); in_mx--; return p; }
void *mxCalloc(mwSize n, mwSize s) { in_mx++; void *p = calloc(n, s); in_mx--; return p; }
void mxFree(void *p) { free(p); }
static mxArray *mk(int kind, mwSize m, mwSize n) { mxArray *a = mxCalloc(1, sizeof *a); a->kind = kind; a->m = m; a->n = n; return a; }
char *mxArrayToString(const mxArray *a) { return a->kind == 2 ? strdup(a->s) : NULL; }
int mxGetString(const mxArray *a, char *b, mwSize n) { if (a->kind != 2 || strlen(a->s) >= n) return 1; strcpy(b, a->s); return 0; }
mxArray *mxCreateString(const char *s) { mxArray *a = mk(2, 1, strlen(s)); a->s = strdup(s); return a; }
mxArray *mxCreateStructMatrix(mwSize m, mwSize n, int nf, const char **keys) {
  mxArray *a = mk(3, m, n); a->nf = nf; a->keys = mxCalloc(nf + 1, sizeof(char *)); a->f = mxCalloc(nf + 1, sizeof(mxArray *));
  for (int i = 0; i < nf; i++) a->keys[i] = strdup(keys[i]);
  return a;
}
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c) { mxArray *a = mk(1, m, n); a->d = mxCalloc(m * n ? m * n : 1, sizeof(double)); return a; }
mxArray *mxCreateDoubleScalar(double v) { mxArray *a = mxCreateDoubleMatrix(1, 1, 0); a->d[0] = v; return a; }
double *mxGetPr(const mxArray *a) { return a->d; }
double *mxGetDoubles(const mxArray *a) { return a->d; }
double mxGetScalar(const mxArray *a) { return a->d[0]; }
mwSize mxGetM(const mxArray *a) { return a->m; }
mwSize mxGetN(const mxArray *a) { return a->n; }
mwSize mxGetNumberOfElements(const mxArray *a) { return a->m * a->n; }
int mxIsChar(const mxArray *a) { return a->kind == 2; }
int mxIsEmpty(const mxArray *a) { return a->m * a->n == 0; }
void mxSetFieldByNumber(mxArray *a, mwIndex i, int f, mxArray *v) { if (a->kind != 3 || i || f < 0 || f >= a->nf) die("field"); a->f[f] = v; }
int mxGetFieldNumber(const mxArray *a, const char *f) { for (int i = 0; i < a->nf; i++) if (!strcmp(a->keys[i], f)) return i; return -1; }
void mxSetField(mxArray *a, mwIndex i, const char *f, mxArray *v) { mxSetFieldByNumber(a, i, mxGetFieldNumber(a, f), v); }
int mxAddField(mxArray *a, const char *f) { in_mx++; a->keys = realloc(a->keys, (a->nf + 1) * sizeof(char *)); a->f = realloc(a->f, (a->nf + 1) * sizeof(mxArray *)); in_mx--; a->keys[a->nf] = strdup(f); a->f[a->nf] = NULL; return a->nf++; }
void mxDestroyArray(mxArray *a) { if (!a) return; for (int i = 0; i < a->nf; i++) { mxDestroyArray(a->f[i]); free(a->keys[i]); } free(a->keys); free(a->f); free(a->d); free(a->s); free(a); }

/* Result: 0 - a structure, 1 - error, 2 - neither, 3 - no usage message, 4 - no readable error message. */
int mock_load(const char *path, mxArray **res, char **msg) {
  mxArray *in = path ? mxCreateString(path) : NULL, *out[2] = {NULL, NULL}; const mxArray *ins[1] = {in}; volatile int rc = 0;
  err[0] = warn[0] = 0; nlive = nfiles = in_mx = 0; in_call = 1;
  if (setjmp(jb) == 0) mexFunction(1, out, path ? 1 : 0, ins);
  in_call = 0; mxDestroyArray(in); *msg = err; *res = out[0];
  if (!path && !strstr(warn, mexFunctionName())) rc = 3; /* the usage message names the function */
  else if (err[0]) { rc = 1; for (char *c = err + 1; *c; c++) if ((*c < ' ' && *c != '\n' && *c != '\t') || *c == 127) rc = 4; if (!err[1]) rc = 4; } else if (!out[0]) rc = 2;
  return rc;
}
/* Blocks left allocated by the last successful call, or files left open by the last call. */
int mock_left(void) { return (err[0] ? 0 : nlive) + (nfiles > 0 ? nfiles : 0); }
double *mock_field(mxArray *a, const char *name, int *n) { if (!a || a->kind != 3) return NULL; int i = mxGetFieldNumber(a, name); if (i < 0 || !a->f[i] || !a->f[i]->d) return NULL; *n = (int)(a->f[i]->m * a->f[i]->n); return a->f[i]->d; }
void mock_free(mxArray *a) { mxDestroyArray(a); }
