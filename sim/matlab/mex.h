/* Stand-in for MATLAB's mex.h / matrix.h (separate complex storage, large array dimensions), as the C matrix API documents them. */
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#ifdef __cplusplus
#include <cstring>
#include <sstream>
#include <string>
#include <vector>
extern "C" {
#else
#include <string.h>
#endif
typedef struct mxArray_tag mxArray;
typedef size_t mwSize; typedef size_t mwIndex; typedef ptrdiff_t mwSignedIndex;
typedef bool mxLogical;
#ifdef __cplusplus
typedef char16_t mxChar;
#else
typedef uint16_t mxChar;
#endif
typedef int8_t mxInt8; typedef uint8_t mxUint8; typedef int16_t mxInt16; typedef uint16_t mxUint16; typedef int32_t mxInt32; typedef uint32_t mxUint32;
typedef int64_t mxInt64; typedef uint64_t mxUint64; typedef double mxDouble; typedef float mxSingle;
typedef enum {
  mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS,
  mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS, mxOPAQUE_CLASS, mxOBJECT_CLASS,
  mxINDEX_CLASS = mxUINT64_CLASS
} mxClassID;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
/* creation */
mxArray* mxCreateNumericArray(mwSize ndim, mwSize const* dims, mxClassID c, mxComplexity f);
mxArray* mxCreateUninitNumericArray(size_t ndim, size_t* dims, mxClassID c, mxComplexity f);
mxArray* mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity f);
mxArray* mxCreateUninitNumericMatrix(size_t m, size_t n, mxClassID c, mxComplexity f);
mxArray* mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity f);
mxArray* mxCreateDoubleScalar(double v);
mxArray* mxCreateLogicalScalar(mxLogical v);
mxArray* mxCreateLogicalMatrix(mwSize m, mwSize n);
mxArray* mxCreateLogicalArray(mwSize ndim, mwSize const* dims);
mxArray* mxCreateString(char const* s);
mxArray* mxCreateStringFromNChars(char const* s, mwSize n);
mxArray* mxCreateCharArray(mwSize ndim, mwSize const* dims);
mxArray* mxCreateCellMatrix(mwSize m, mwSize n);
mxArray* mxCreateCellArray(mwSize ndim, mwSize const* dims);
mxArray* mxCreateStructMatrix(mwSize m, mwSize n, int nf, char const** names);
mxArray* mxCreateStructArray(mwSize ndim, mwSize const* dims, int nf, char const** names);
mxArray* mxCreateSparse(mwSize m, mwSize n, mwSize nzmax, mxComplexity f);
mxArray* mxCreateSparseLogicalMatrix(mwSize m, mwSize n, mwSize nzmax);
mxArray* mxDuplicateArray(mxArray const* a);
void mxDestroyArray(mxArray* a);
void* mxMalloc(size_t n); void* mxCalloc(size_t n, size_t s); void* mxRealloc(void* p, size_t n); void mxFree(void* p);
/* inspection */
mxClassID mxGetClassID(mxArray const* a); char const* mxGetClassName(mxArray const* a); bool mxIsClass(mxArray const* a, char const* name);
bool mxIsCell(mxArray const* a); bool mxIsStruct(mxArray const* a); bool mxIsChar(mxArray const* a); bool mxIsLogical(mxArray const* a); bool mxIsDouble(mxArray const* a);
bool mxIsSingle(mxArray const* a); bool mxIsNumeric(mxArray const* a); bool mxIsComplex(mxArray const* a); bool mxIsSparse(mxArray const* a); bool mxIsEmpty(mxArray const* a);
bool mxIsInt8(mxArray const* a); bool mxIsUint8(mxArray const* a); bool mxIsInt16(mxArray const* a); bool mxIsUint16(mxArray const* a); bool mxIsInt32(mxArray const* a);
bool mxIsUint32(mxArray const* a); bool mxIsInt64(mxArray const* a); bool mxIsUint64(mxArray const* a); bool mxIsLogicalScalar(mxArray const* a); bool mxIsLogicalScalarTrue(mxArray const* a);
bool mxIsScalar(mxArray const* a); bool mxIsFunctionHandle(mxArray const* a); bool mxIsOpaque(mxArray const* a);
mwSize mxGetNumberOfDimensions(mxArray const* a); mwSize const* mxGetDimensions(mxArray const* a); size_t mxGetNumberOfElements(mxArray const* a);
size_t mxGetM(mxArray const* a); size_t mxGetN(mxArray const* a); size_t mxGetElementSize(mxArray const* a); mwIndex mxCalcSingleSubscript(mxArray const* a, mwSize ns, mwIndex const* s);
void* mxGetData(mxArray const* a); void* mxGetImagData(mxArray const* a); double* mxGetPr(mxArray const* a); double* mxGetPi(mxArray const* a);
mxLogical* mxGetLogicals(mxArray const* a); mxChar* mxGetChars(mxArray const* a); double mxGetScalar(mxArray const* a);
mwIndex* mxGetIr(mxArray const* a); mwIndex* mxGetJc(mxArray const* a); mwSize mxGetNzmax(mxArray const* a);
mxArray* mxGetCell(mxArray const* a, mwIndex i); void mxSetCell(mxArray* a, mwIndex i, mxArray* v);
int mxGetNumberOfFields(mxArray const* a); char const* mxGetFieldNameByNumber(mxArray const* a, int k); int mxGetFieldNumber(mxArray const* a, char const* name);
mxArray* mxGetFieldByNumber(mxArray const* a, mwIndex i, int k); mxArray* mxGetField(mxArray const* a, mwIndex i, char const* name);
void mxSetFieldByNumber(mxArray* a, mwIndex i, int k, mxArray* v); void mxSetField(mxArray* a, mwIndex i, char const* name, mxArray* v); int mxAddField(mxArray* a, char const* name);
char* mxArrayToString(mxArray const* a); char* mxArrayToUTF8String(mxArray const* a); int mxGetString(mxArray const* a, char* buf, mwSize n);
double mxGetEps(void); double mxGetInf(void); double mxGetNaN(void);
/* MEX */
int mexPrintf(char const* fmt, ...);
void mexErrMsgTxt(char const* m); void mexErrMsgIdAndTxt(char const* id, char const* fmt, ...); void mexWarnMsgTxt(char const* m); void mexWarnMsgIdAndTxt(char const* id, char const* fmt, ...);
int mexCallMATLAB(int nl, mxArray* l[], int nr, mxArray* r[], char const* name);
void mexFunction(int nlhs, mxArray* plhs[], int nrhs, mxArray const* prhs[]);
#define mxAssert(c, m) ((void)0)
#ifdef __cplusplus
}
#endif
