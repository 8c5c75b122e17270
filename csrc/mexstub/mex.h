/* Stand-in for the MEX interface of MATLAB and Octave: arrays with exactly sized data, errors by longjmp. */
#ifndef VF_MEX_H
#define VF_MEX_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
typedef size_t mwSize;
typedef size_t mwIndex;
typedef bool mxLogical;
typedef char mxChar;
typedef enum { mxUNKNOWN_CLASS, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS,
  mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS } mxClassID;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
typedef struct mxArray_tag { mxClassID cls; size_t m, n; void *data; void *copy; size_t size; } mxArray;
void *mxMalloc(size_t n);
void *mxCalloc(size_t n, size_t s);
void *mxRealloc(void *p, size_t s);
void mxFree(void *p);
mxArray *mxCreateNumericArray(mwSize nd, const mwSize *dims, mxClassID c, mxComplexity x);
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity x);
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity x);
mxArray *mxCreateDoubleScalar(double v);
mxArray *mxCreateLogicalScalar(mxLogical v);
mxArray *mxCreateString(const char *s);
mxArray *mxDuplicateArray(const mxArray *a);
void mxDestroyArray(mxArray *a);
void *mxGetData(const mxArray *a);
double *mxGetPr(const mxArray *a);
double *mxGetDoubles(const mxArray *a);
int32_t *mxGetInt32s(const mxArray *a);
int64_t *mxGetInt64s(const mxArray *a);
mxLogical *mxGetLogicals(const mxArray *a);
double mxGetScalar(const mxArray *a);
size_t mxGetM(const mxArray *a);
size_t mxGetN(const mxArray *a);
mwSize mxGetNumberOfDimensions(const mxArray *a);
const mwSize *mxGetDimensions(const mxArray *a);
size_t mxGetNumberOfElements(const mxArray *a);
size_t mxGetElementSize(const mxArray *a);
mxClassID mxGetClassID(const mxArray *a);
const char *mxGetClassName(const mxArray *a);
bool mxIsDouble(const mxArray *a);
bool mxIsChar(const mxArray *a);
bool mxIsInt32(const mxArray *a);
bool mxIsInt64(const mxArray *a);
bool mxIsUint64(const mxArray *a);
bool mxIsNumeric(const mxArray *a);
bool mxIsComplex(const mxArray *a);
bool mxIsEmpty(const mxArray *a);
bool mxIsScalar(const mxArray *a);
bool mxIsLogical(const mxArray *a);
bool mxIsClass(const mxArray *a, const char *name);
char *mxArrayToString(const mxArray *a);
int mxGetString(const mxArray *a, char *buf, mwSize n);
void mexErrMsgIdAndTxt(const char *id, const char *fmt, ...) __attribute__((noreturn));
void mexErrMsgTxt(const char *msg) __attribute__((noreturn));
void mexWarnMsgIdAndTxt(const char *id, const char *fmt, ...);
void mexWarnMsgTxt(const char *msg);
int mexPrintf(const char *fmt, ...);
int mexAtExit(void (*f)(void));
void mexLock(void);
void mexUnlock(void);
void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]);
#endif
