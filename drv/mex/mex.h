/* Stand-in for the Octave/Matlab MEX interface. */
#ifndef MEX_H
#define MEX_H
#include <stddef.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
typedef size_t mwSize; typedef ptrdiff_t mwIndex; typedef size_t mwSignedIndex; typedef int mxComplexity; typedef int mxClassID; typedef char mxChar; typedef unsigned char mxLogical;
enum { mxREAL, mxCOMPLEX };
typedef struct mxArray_ { int kind; mwSize m, n; double *d; char *s; int nf; char **keys; struct mxArray_ **f; } mxArray;
void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]);
const char *mexFunctionName(void);
int mexPrintf(const char *f, ...);
void mexErrMsgTxt(const char *s);
void mexErrMsgIdAndTxt(const char *id, const char *f, ...);
void mexWarnMsgTxt(const char *s);
void *mxMalloc(mwSize n);
void *mxCalloc(mwSize n, mwSize s);
void mxFree(void *p);
char *mxArrayToString(const mxArray *a);
int mxGetString(const mxArray *a, char *b, mwSize n);
mxArray *mxCreateString(const char *s);
mxArray *mxCreateStructMatrix(mwSize m, mwSize n, int nf, const char **keys);
mxArray *mxCreateDoubleScalar(double v);
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c);
double *mxGetPr(const mxArray *a);
double *mxGetDoubles(const mxArray *a);
double mxGetScalar(const mxArray *a);
mwSize mxGetM(const mxArray *a);
mwSize mxGetN(const mxArray *a);
mwSize mxGetNumberOfElements(const mxArray *a);
int mxIsChar(const mxArray *a);
int mxIsEmpty(const mxArray *a);
void mxSetFieldByNumber(mxArray *a, mwIndex i, int f, mxArray *v);
void mxSetField(mxArray *a, mwIndex i, const char *f, mxArray *v);
int mxAddField(mxArray *a, const char *f);
int mxGetFieldNumber(const mxArray *a, const char *f);
void mxDestroyArray(mxArray *a);
#endif
