#define _GNU_SOURCE
/* Executes scripts of cocoCall() calls; one result line per call. */
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <unistd.h>
#include <fcntl.h>
#include "mex.h"

static jmp_buf env;
static char errid[200];
static char *printed; static size_t nprinted;
static void *temp[4096]; static int ntemp;

static void add_printed(const char *s, size_t n) {
  printed = realloc(printed, nprinted + n + 1);
  memcpy(printed + nprinted, s, n);
  nprinted += n;
  printed[nprinted] = 0;
}
void *mxCalloc(size_t n, size_t s) { void *p = calloc(n ? n : 1, s ? s : 1); if (ntemp < 4096) temp[ntemp++] = p; return p; }
void *mxMalloc(size_t n) { return mxCalloc(n, 1); }
void mxFree(void *p) { int i; for (i = 0; i < ntemp; i++) if (temp[i] == p) temp[i] = NULL; free(p); }
void *mxRealloc(void *p, size_t s) { int i; void *q = realloc(p, s); for (i = 0; i < ntemp; i++) if (temp[i] == p) temp[i] = q; return q; }
static size_t esize(mxClassID c) {
  switch (c) {
  case mxLOGICAL_CLASS: case mxCHAR_CLASS: case mxINT8_CLASS: case mxUINT8_CLASS: return 1;
  case mxINT16_CLASS: case mxUINT16_CLASS: return 2;
  case mxINT32_CLASS: case mxUINT32_CLASS: case mxSINGLE_CLASS: return 4;
  default: return 8;
  }
}
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity x) {
  mxArray *a = calloc(1, sizeof(*a));
  a->cls = c; a->m = m; a->n = n; a->size = m * n * esize(c);
  a->data = calloc(1, a->size ? a->size : 1);
  return a;
}
mxArray *mxCreateNumericArray(mwSize nd, const mwSize *d, mxClassID c, mxComplexity x) {
  size_t n = 1, i;
  for (i = 1; i < nd; i++) n *= d[i];
  return mxCreateNumericMatrix(d[0], n, c, x);
}
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity x) { return mxCreateNumericMatrix(m, n, mxDOUBLE_CLASS, x); }
mxArray *mxCreateDoubleScalar(double v) { mxArray *a = mxCreateDoubleMatrix(1, 1, mxREAL); *(double *)a->data = v; return a; }
mxArray *mxCreateLogicalScalar(mxLogical v) { mxArray *a = mxCreateNumericMatrix(1, 1, mxLOGICAL_CLASS, mxREAL); *(char *)a->data = v ? 1 : 0; return a; }
mxArray *mxCreateString(const char *s) { mxArray *a = mxCreateNumericMatrix(strlen(s) ? 1 : 0, strlen(s), mxCHAR_CLASS, mxREAL); memcpy(a->data, s, strlen(s)); return a; }
mxArray *mxDuplicateArray(const mxArray *a) { mxArray *b = mxCreateNumericMatrix(a->m, a->n, a->cls, mxREAL); memcpy(b->data, a->data, a->size); return b; }
void mxDestroyArray(mxArray *a) { if (a) { free(a->data); free(a->copy); free(a); } }
void *mxGetData(const mxArray *a) { return a->size ? a->data : NULL; }
double *mxGetPr(const mxArray *a) { return a->size ? a->data : NULL; }
double *mxGetDoubles(const mxArray *a) { return mxGetPr(a); }
int32_t *mxGetInt32s(const mxArray *a) { return a->data; }
int64_t *mxGetInt64s(const mxArray *a) { return a->data; }
mxLogical *mxGetLogicals(const mxArray *a) { return a->data; }
double mxGetScalar(const mxArray *a) {
  if (a->size == 0) mexErrMsgTxt("empty");
  switch (a->cls) {
  case mxDOUBLE_CLASS: return *(double *)a->data;
  case mxINT32_CLASS: return *(int32_t *)a->data;
  case mxINT64_CLASS: return (double)*(int64_t *)a->data;
  case mxCHAR_CLASS: case mxLOGICAL_CLASS: return *(char *)a->data;
  default: return 0;
  }
}
size_t mxGetM(const mxArray *a) { return a->m; }
size_t mxGetN(const mxArray *a) { return a->n; }
mwSize mxGetNumberOfDimensions(const mxArray *a) { return 2; }
const mwSize *mxGetDimensions(const mxArray *a) { return &a->m; }
size_t mxGetNumberOfElements(const mxArray *a) { return a->m * a->n; }
size_t mxGetElementSize(const mxArray *a) { return esize(a->cls); }
mxClassID mxGetClassID(const mxArray *a) { return a->cls; }
const char *mxGetClassName(const mxArray *a) {
  switch (a->cls) {
  case mxDOUBLE_CLASS: return "double"; case mxINT32_CLASS: return "int32"; case mxINT64_CLASS: return "int64"; case mxCHAR_CLASS: return "char";
  case mxLOGICAL_CLASS: return "logical"; case mxUINT64_CLASS: return "uint64"; case mxUINT32_CLASS: return "uint32"; case mxSINGLE_CLASS: return "single";
  default: return "other"; }
}
bool mxIsDouble(const mxArray *a) { return a->cls == mxDOUBLE_CLASS; }
bool mxIsChar(const mxArray *a) { return a->cls == mxCHAR_CLASS; }
bool mxIsInt32(const mxArray *a) { return a->cls == mxINT32_CLASS; }
bool mxIsInt64(const mxArray *a) { return a->cls == mxINT64_CLASS; }
bool mxIsUint64(const mxArray *a) { return a->cls == mxUINT64_CLASS; }
bool mxIsNumeric(const mxArray *a) { return a->cls >= mxDOUBLE_CLASS && a->cls <= mxUINT64_CLASS; }
bool mxIsComplex(const mxArray *a) { return false; }
bool mxIsEmpty(const mxArray *a) { return a->m * a->n == 0; }
bool mxIsScalar(const mxArray *a) { return a->m * a->n == 1; }
bool mxIsLogical(const mxArray *a) { return a->cls == mxLOGICAL_CLASS; }
bool mxIsClass(const mxArray *a, const char *n) { return strcmp(mxGetClassName(a), n) == 0; }
char *mxArrayToString(const mxArray *a) {
  char *s;
  if (a->cls != mxCHAR_CLASS) return NULL;
  s = mxCalloc(a->m * a->n + 1, 1);
  memcpy(s, a->data, a->m * a->n);
  return s;
}
int mxGetString(const mxArray *a, char *buf, mwSize n) {
  size_t l = a->m * a->n;
  if (a->cls != mxCHAR_CLASS || !n) return 1;
  memcpy(buf, a->data, l < n ? l : n - 1);
  buf[l < n ? l : n - 1] = 0;
  return l >= n;
}
void mexErrMsgIdAndTxt(const char *id, const char *fmt, ...) { strncpy(errid, id, sizeof(errid) - 1); longjmp(env, 1); }
void mexErrMsgTxt(const char *msg) { strncpy(errid, msg, sizeof(errid) - 1); longjmp(env, 1); }
int mexPrintf(const char *fmt, ...) {
  va_list a; int n; char *b;
  va_start(a, fmt); n = vasprintf(&b, fmt, a); va_end(a);
  if (n > 0) add_printed(b, n);
  if (n >= 0) free(b);
  return n;
}
void mexWarnMsgTxt(const char *msg) { mexPrintf("Warning: %s\n", msg); }
void mexWarnMsgIdAndTxt(const char *id, const char *fmt, ...) { mexPrintf("Warning: %s\n", fmt); }
int mexAtExit(void (*f)(void)) { return 0; }
void mexLock(void) {}
void mexUnlock(void) {}

static struct { char name[40]; int64_t v; } slot[64];
static int nslot;
static int64_t *find(const char *n) {
  int i;
  for (i = 0; i < nslot; i++) if (!strcmp(slot[i].name, n)) return &slot[i].v;
  strncpy(slot[nslot].name, n, 39); slot[nslot].v = 0;
  return &slot[nslot++].v;
}
static char *unhex(const char *s, size_t *n) {
  size_t l = strlen(s) / 2, i; char *r = calloc(l + 1, 1); unsigned v;
  for (i = 0; i < l; i++) { sscanf(s + 2 * i, "%2x", &v); r[i] = (char)v; }
  *n = l;
  return r;
}
static mxArray *arg(char *s) {
  mxArray *a; size_t n; char *t; size_t m, k;
  char kind = s[0];
  s += 2;
  if (kind == 's') { t = unhex(s, &n); a = mxCreateString(t); free(t); return a; }
  if (kind == 'h') { a = mxCreateNumericMatrix(1, 1, mxINT64_CLASS, mxREAL); *(int64_t *)a->data = *find(s); return a; }
  sscanf(s, "%zux%zu", &m, &k);
  s = strchr(s, ':') + 1;
  a = mxCreateNumericMatrix(m, k, kind == 'd' ? mxDOUBLE_CLASS : kind == 'l' ? mxINT64_CLASS : mxINT32_CLASS, mxREAL);
  t = unhex(s, &n);
  memcpy(a->data, t, n < a->size ? n : a->size);
  free(t);
  return a;
}
static void hex(FILE *f, const void *p, size_t n) { size_t i; for (i = 0; i < n; i++) fprintf(f, "%02x", ((const unsigned char *)p)[i]); }

int main(void) {
  char *line = NULL; size_t cap = 0; ssize_t len;
  FILE *out = fdopen(dup(1), "w");
  int so = fileno(tmpfile());
  char buf[65536];
  if (so < 0) return 98;
  dup2(so, 1);
  while ((len = getline(&line, &cap, stdin)) > 0) {
    char *f[64]; int nf = 0, i; volatile int rc; char *q = line;
    mxArray *lhs[4] = {0}; mxArray *rhs[64]; int nrhs, nlhs, changed = 0;
    line[len - 1] = 0;
    if (!strcmp(line, "begin")) { nslot = 0; continue; }
    while (q && nf < 64) { f[nf++] = q; q = strchr(q, '\t'); if (q) *q++ = 0; }
    /* outslot, nlhs, args... */
    nlhs = atoi(f[1]);
    nrhs = nf - 2;
    for (i = 0; i < nrhs; i++) {
      rhs[i] = arg(f[i + 2]);
      rhs[i]->copy = malloc(rhs[i]->size + 1);
      memcpy(rhs[i]->copy, rhs[i]->data, rhs[i]->size);
    }
    nprinted = 0; ntemp = 0; errid[0] = 0;
    rc = setjmp(env);
    if (rc == 0) mexFunction(nlhs, lhs, nrhs, (const mxArray **)rhs);
    fflush(stdout);
    for (i = 0; i < nrhs; i++) {
      if (memcmp(rhs[i]->copy, rhs[i]->data, rhs[i]->size)) changed = 1;
      mxDestroyArray(rhs[i]);
    }
    for (i = 0; i < ntemp; i++) free(temp[i]);
    lseek(1, 0, SEEK_SET);
    while ((len = read(1, buf, sizeof(buf))) > 0) { add_printed("\001", 1); add_printed(buf, len); }
    lseek(1, 0, SEEK_SET);
    if (ftruncate(1, 0)) return 97;
    if (rc) fprintf(out, "!%s|", errid);
    else if (!lhs[0]) fprintf(out, "=none|");
    else if (f[0][0]) {
      *find(f[0]) = lhs[0]->cls == mxINT64_CLASS ? *(int64_t *)lhs[0]->data : -1;
      fprintf(out, "=handle %s %zux%zu %d|", mxGetClassName(lhs[0]), lhs[0]->m, lhs[0]->n, lhs[0]->cls == mxINT64_CLASS && *(int64_t *)lhs[0]->data != 0);
    } else {
      fprintf(out, "=%s %zux%zu ", mxGetClassName(lhs[0]), lhs[0]->m, lhs[0]->n);
      hex(out, lhs[0]->data, lhs[0]->size);
      fprintf(out, "|");
    }
    mxDestroyArray(lhs[0]);
    fprintf(out, "%d|", changed);
    hex(out, printed, nprinted);
    fprintf(out, "\n");
    fflush(out);
  }
  return 0;
}
