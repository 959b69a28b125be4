#include "mexstub.hh"
#include "../core.hh"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <limits>
using namespace sim;
namespace mexsim {
std::string console;
static int mode_; static uint32_t n_; static uint64_t count_, failed_;
static std::set<mxArray const*>* live; static std::set<void*>* blocks;
static void need() { if (!live) { live = new std::set<mxArray const*>; blocks = new std::set<void*>; } }
void arm(int mode, uint32_t n) { mode_ = mode; n_ = n; count_ = failed_ = 0; }
uint64_t disarm() { mode_ = 0; return failed_; }
static bool lacks() { if (!mode_) return false; uint64_t k = ++count_; bool f = mode_ == 1 ? k == n_ : k >= n_; if (f) { ++failed_; fault(F_HOST_ALLOC); } return f; }
bool known(mxArray const* a) { need(); return live->count(a) != 0; }
static mxArray* chk(mxArray const* a, char const* fn) { if (!a || !known(a)) violation("mx-misuse", std::string(fn) + " was given something that is not a live MATLAB array"); return const_cast<mxArray*>(a); }
size_t esize(mxClassID c) {
  switch (c) {
  case mxLOGICAL_CLASS: case mxINT8_CLASS: case mxUINT8_CLASS: return 1;
  case mxCHAR_CLASS: case mxINT16_CLASS: case mxUINT16_CLASS: return 2;
  case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4;
  case mxDOUBLE_CLASS: case mxINT64_CLASS: case mxUINT64_CLASS: return 8;
  case mxCELL_CLASS: case mxSTRUCT_CLASS: return sizeof(void*);
  default: return 0; }
}
static char* block(size_t n) { return static_cast<char*>(calloc(n ? n : 1, 1)); }
static mxArray* fresh(mxClassID c, std::vector<size_t> dims) {
  need(); if (lacks()) throw Terminate();
  while (dims.size() < 2) dims.push_back(1);
  while (dims.size() > 2 && dims.back() == 1) dims.pop_back();
  size_t n = 1; for (size_t d : dims) { if (d && n > (size_t(1) << 32) / d) violation("mx-size", "an array of impossible size was requested"); n *= d; }
  mxArray* a = new mxArray; a->cls = c; a->dims = dims; live->insert(a); return a;
}
static mxArray* numeric(mxClassID c, std::vector<size_t> dims, bool cplx) {
  if (c == mxCELL_CLASS || c == mxSTRUCT_CLASS || !esize(c)) violation("mx-misuse", "mxCreateNumericArray with a class that is not numeric");
  mxArray* a = fresh(c, dims); size_t n = a->numel() * esize(c); a->re = block(n); if (cplx) { a->cplx = true; a->im = block(n); } return a;
}
static mxArray* cells(mxClassID c, std::vector<size_t> dims, size_t nf) {
  mxArray* a = fresh(c, dims); a->ncell = a->numel() * nf; a->cell = reinterpret_cast<mxArray**>(block(a->ncell * sizeof(void*))); return a;
}
static void drop(mxArray* a) {                            // one array, not its parts
  free(a->re); free(a->im); free(a->ir); free(a->jc); free(a->cell); for (char* p : a->names) free(p); live->erase(a); delete a;
}
static void destroy(mxArray* a) { if (!a || !known(a)) return; for (size_t k = 0; k < a->ncell; ++k) destroy(a->cell[k]); drop(a); }
void reset() { need(); while (!live->empty()) drop(const_cast<mxArray*>(*live->begin())); for (void* p : *blocks) free(p); blocks->clear(); console.clear(); }
std::u16string u16(std::string const& s) {
  std::u16string o;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i]; uint32_t cp; unsigned n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
    cp = n == 1 ? c : c & (0xff >> (n + 1)); for (unsigned k = 1; k < n && i + k < s.size(); ++k) cp = cp << 6 | (s[i + k] & 0x3f);
    i += n; if (cp > 0xffff) { cp -= 0x10000; o += char16_t(0xd800 + (cp >> 10)); o += char16_t(0xdc00 + (cp & 0x3ff)); } else o += char16_t(cp);
  }
  return o;
}
std::string u8(std::u16string const& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); ++i) {
    uint32_t c = s[i]; if (c >= 0xd800 && c < 0xdc00 && i + 1 < s.size()) c = 0x10000 + ((c - 0xd800) << 10) + (s[++i] - 0xdc00);
    if (c < 0x80) o += char(c); else if (c < 0x800) { o += char(0xc0 | c >> 6); o += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += char(0xe0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
    else { o += char(0xf0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
  }
  return o;
}
static mxArray* chars(std::u16string const& s) {
  mxArray* a = fresh(mxCHAR_CLASS, {s.empty() ? size_t(0) : size_t(1), s.size()}); a->re = block(2 * s.size()); memcpy(a->re, s.data(), 2 * s.size()); return a;
}
static std::string text(mxArray const* a) { return u8(std::u16string(reinterpret_cast<char16_t const*>(a->re), a->numel())); }
mxArray* string_object(std::string const& s) { mxArray* a = fresh(mxUNKNOWN_CLASS, {1, 1}); a->class_name = "string"; a->str = u16(s); return a; }
mxArray* handle() { return fresh(mxFUNCTION_CLASS, {1, 1}); }
static void* alloc(size_t n) { need(); if (lacks()) throw Terminate(); void* p = block(n); blocks->insert(p); return p; }
static size_t elem(mxArray const* a, size_t i, char const* fn) { if (i >= a->numel()) violation("mx-misuse", std::string(fn) + ": position out of range"); return i; }
static size_t field(mxArray const* a, size_t i, int k, char const* fn) {
  if (a->cls != mxSTRUCT_CLASS) violation("mx-misuse", std::string(fn) + " on something that is not a struct");
  if (k < 0 || size_t(k) >= a->fields.size()) violation("mx-misuse", std::string(fn) + ": no such field"); return elem(a, i, fn) * a->fields.size() + size_t(k);
}
static void add_names(mxArray* a, int nf, char const** names) { for (int k = 0; k < nf; ++k) { a->fields.push_back(names[k]); a->names.push_back(strdup(names[k])); } }
static char const* cname(mxArray const* a) {
  static char const* const n[] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "function_handle", "opaque", "object"};
  return a->class_name.empty() ? n[a->cls] : a->class_name.c_str();
}
}
using namespace mexsim;
#define A(fn) Out o_; mxArray* x = chk(a, fn)
extern "C" {
mxArray* mxCreateNumericArray(mwSize nd, mwSize const* d, mxClassID c, mxComplexity f) { Out o; return numeric(c, std::vector<size_t>(d, d + nd), f == mxCOMPLEX); }
mxArray* mxCreateUninitNumericArray(size_t nd, size_t* d, mxClassID c, mxComplexity f) { Out o; return numeric(c, std::vector<size_t>(d, d + nd), f == mxCOMPLEX); }
mxArray* mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity f) { Out o; return numeric(c, {m, n}, f == mxCOMPLEX); }
mxArray* mxCreateUninitNumericMatrix(size_t m, size_t n, mxClassID c, mxComplexity f) { Out o; return numeric(c, {m, n}, f == mxCOMPLEX); }
mxArray* mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity f) { Out o; return numeric(mxDOUBLE_CLASS, {m, n}, f == mxCOMPLEX); }
mxArray* mxCreateDoubleScalar(double v) { Out o; mxArray* a = numeric(mxDOUBLE_CLASS, {1, 1}, false); memcpy(a->re, &v, 8); return a; }
mxArray* mxCreateLogicalScalar(mxLogical v) { Out o; mxArray* a = numeric(mxLOGICAL_CLASS, {1, 1}, false); a->re[0] = v; return a; }
mxArray* mxCreateLogicalMatrix(mwSize m, mwSize n) { Out o; return numeric(mxLOGICAL_CLASS, {m, n}, false); }
mxArray* mxCreateLogicalArray(mwSize nd, mwSize const* d) { Out o; return numeric(mxLOGICAL_CLASS, std::vector<size_t>(d, d + nd), false); }
mxArray* mxCreateString(char const* s) { Out o; return chars(u16(s)); }
mxArray* mxCreateStringFromNChars(char const* s, mwSize n) { Out o; return chars(u16(std::string(s, n))); }
mxArray* mxCreateCharArray(mwSize nd, mwSize const* d) { Out o; return numeric(mxCHAR_CLASS, std::vector<size_t>(d, d + nd), false); }
mxArray* mxCreateCellMatrix(mwSize m, mwSize n) { Out o; return cells(mxCELL_CLASS, {m, n}, 1); }
mxArray* mxCreateCellArray(mwSize nd, mwSize const* d) { Out o; return cells(mxCELL_CLASS, std::vector<size_t>(d, d + nd), 1); }
mxArray* mxCreateStructMatrix(mwSize m, mwSize n, int nf, char const** names) { Out o; mxArray* a = cells(mxSTRUCT_CLASS, {m, n}, size_t(nf)); add_names(a, nf, names); return a; }
mxArray* mxCreateStructArray(mwSize nd, mwSize const* d, int nf, char const** names) { Out o; mxArray* a = cells(mxSTRUCT_CLASS, std::vector<size_t>(d, d + nd), size_t(nf)); add_names(a, nf, names); return a; }
static mxArray* sparse_of(mxClassID c, size_t m, size_t n, size_t nz, bool cplx) {
  mxArray* a = fresh(c, {m, n}); a->sparse = true; if (!nz) nz = 1; a->nzmax = nz; a->ir = (size_t*)block(8 * nz); a->jc = (size_t*)block(8 * (n + 1)); a->re = block(nz * esize(c)); if (cplx) { a->cplx = true; a->im = block(nz * esize(c)); } return a;
}
mxArray* mxCreateSparse(mwSize m, mwSize n, mwSize nz, mxComplexity f) { Out o; return sparse_of(mxDOUBLE_CLASS, m, n, nz, f == mxCOMPLEX); }
mxArray* mxCreateSparseLogicalMatrix(mwSize m, mwSize n, mwSize nz) { Out o; return sparse_of(mxLOGICAL_CLASS, m, n, nz, false); }
static mxArray* dup(mxArray const* s) {
  mxArray* a = fresh(s->cls, s->dims); a->cplx = s->cplx; a->sparse = s->sparse; a->nzmax = s->nzmax; a->class_name = s->class_name; a->str = s->str;
  size_t n = (s->sparse ? s->nzmax : s->numel()) * esize(s->cls); auto cp = [](void const* p, size_t k) { char* q = block(k); memcpy(q, p, k); return q; };
  if (s->re) a->re = cp(s->re, n); if (s->im) a->im = cp(s->im, n); if (s->ir) a->ir = (size_t*)cp(s->ir, 8 * s->nzmax); if (s->jc) a->jc = (size_t*)cp(s->jc, 8 * (s->dims[1] + 1));
  a->fields = s->fields; for (auto& f : s->fields) a->names.push_back(strdup(f.c_str()));
  if (s->cell) { a->ncell = s->ncell; a->cell = (mxArray**)block(8 * s->ncell); for (size_t k = 0; k < s->ncell; ++k) a->cell[k] = s->cell[k] ? dup(s->cell[k]) : nullptr; }
  return a;
}
mxArray* mxDuplicateArray(mxArray const* a) { A("mxDuplicateArray"); return dup(x); }
void mxDestroyArray(mxArray* a) { Out o; if (a) { chk(a, "mxDestroyArray"); destroy(a); } }
void* mxMalloc(size_t n) { Out o; return alloc(n); }
void* mxCalloc(size_t n, size_t s) { Out o; return alloc(n * s); }
void* mxRealloc(void* p, size_t n) { Out o; if (!p) return alloc(n); if (!blocks->count(p)) violation("mx-misuse", "mxRealloc of a foreign block"); if (lacks()) throw Terminate(); blocks->erase(p); p = realloc(p, n ? n : 1); blocks->insert(p); return p; }
void mxFree(void* p) { Out o; if (!p) return; need(); if (!blocks->erase(p)) violation("mx-misuse", "mxFree of a block MATLAB does not own"); free(p); }
mxClassID mxGetClassID(mxArray const* a) { A("mxGetClassID"); return x->cls; }
char const* mxGetClassName(mxArray const* a) { A("mxGetClassName"); return cname(x); }
bool mxIsClass(mxArray const* a, char const* n) { A("mxIsClass"); return !strcmp(cname(x), n); }
#define IS(fn, c) bool fn(mxArray const* a) { A(#fn); return x->cls == c; }
IS(mxIsCell, mxCELL_CLASS) IS(mxIsStruct, mxSTRUCT_CLASS) IS(mxIsChar, mxCHAR_CLASS) IS(mxIsLogical, mxLOGICAL_CLASS) IS(mxIsDouble, mxDOUBLE_CLASS) IS(mxIsSingle, mxSINGLE_CLASS)
IS(mxIsInt8, mxINT8_CLASS) IS(mxIsUint8, mxUINT8_CLASS) IS(mxIsInt16, mxINT16_CLASS) IS(mxIsUint16, mxUINT16_CLASS) IS(mxIsInt32, mxINT32_CLASS) IS(mxIsUint32, mxUINT32_CLASS)
IS(mxIsInt64, mxINT64_CLASS) IS(mxIsUint64, mxUINT64_CLASS) IS(mxIsFunctionHandle, mxFUNCTION_CLASS) IS(mxIsOpaque, mxOPAQUE_CLASS)
bool mxIsNumeric(mxArray const* a) { A("mxIsNumeric"); return x->cls >= mxDOUBLE_CLASS && x->cls <= mxUINT64_CLASS; }
bool mxIsComplex(mxArray const* a) { A("mxIsComplex"); return x->cplx; }
bool mxIsSparse(mxArray const* a) { A("mxIsSparse"); return x->sparse; }
bool mxIsEmpty(mxArray const* a) { A("mxIsEmpty"); return x->numel() == 0; }
bool mxIsScalar(mxArray const* a) { A("mxIsScalar"); return x->numel() == 1; }
bool mxIsLogicalScalar(mxArray const* a) { A("mxIsLogicalScalar"); return x->cls == mxLOGICAL_CLASS && x->numel() == 1; }
bool mxIsLogicalScalarTrue(mxArray const* a) { A("mxIsLogicalScalarTrue"); return x->cls == mxLOGICAL_CLASS && x->numel() == 1 && x->re[0]; }
mwSize mxGetNumberOfDimensions(mxArray const* a) { A("mxGetNumberOfDimensions"); return x->dims.size(); }
mwSize const* mxGetDimensions(mxArray const* a) { A("mxGetDimensions"); return x->dims.data(); }
size_t mxGetNumberOfElements(mxArray const* a) { A("mxGetNumberOfElements"); return x->numel(); }
size_t mxGetM(mxArray const* a) { A("mxGetM"); return x->dims[0]; }
size_t mxGetN(mxArray const* a) { A("mxGetN"); size_t n = 1; for (size_t k = 1; k < x->dims.size(); ++k) n *= x->dims[k]; return n; }
size_t mxGetElementSize(mxArray const* a) { A("mxGetElementSize"); return esize(x->cls); }
mwIndex mxCalcSingleSubscript(mxArray const* a, mwSize ns, mwIndex const* s) { A("mxCalcSingleSubscript"); size_t r = 0, f = 1; for (size_t k = 0; k < ns; ++k) { r += s[k] * f; if (k < x->dims.size()) f *= x->dims[k]; } return r; }
void* mxGetData(mxArray const* a) { A("mxGetData"); return x->re; }
void* mxGetImagData(mxArray const* a) { A("mxGetImagData"); return x->im; }
double* mxGetPr(mxArray const* a) { A("mxGetPr"); return (double*)x->re; }
double* mxGetPi(mxArray const* a) { A("mxGetPi"); return (double*)x->im; }
mxLogical* mxGetLogicals(mxArray const* a) { A("mxGetLogicals"); return x->cls == mxLOGICAL_CLASS ? (mxLogical*)x->re : nullptr; }
mxChar* mxGetChars(mxArray const* a) { A("mxGetChars"); return x->cls == mxCHAR_CLASS ? (mxChar*)x->re : nullptr; }
double mxGetScalar(mxArray const* a) {
  A("mxGetScalar"); if (!x->re || !x->numel()) return 0; void* p = x->re;
  switch (x->cls) { case mxDOUBLE_CLASS: return *(double*)p; case mxSINGLE_CLASS: return *(float*)p; case mxLOGICAL_CLASS: case mxUINT8_CLASS: return *(uint8_t*)p; case mxINT8_CLASS: return *(int8_t*)p;
    case mxINT16_CLASS: return *(int16_t*)p; case mxCHAR_CLASS: case mxUINT16_CLASS: return *(uint16_t*)p; case mxINT32_CLASS: return *(int32_t*)p; case mxUINT32_CLASS: return *(uint32_t*)p;
    case mxINT64_CLASS: return double(*(int64_t*)p); case mxUINT64_CLASS: return double(*(uint64_t*)p); default: return 0; }
}
mwIndex* mxGetIr(mxArray const* a) { A("mxGetIr"); return x->ir; }
mwIndex* mxGetJc(mxArray const* a) { A("mxGetJc"); return x->jc; }
mwSize mxGetNzmax(mxArray const* a) { A("mxGetNzmax"); return x->sparse ? x->nzmax : x->numel(); }
mxArray* mxGetCell(mxArray const* a, mwIndex i) { A("mxGetCell"); if (x->cls != mxCELL_CLASS) violation("mx-misuse", "mxGetCell on something that is not a cell array"); return x->cell[elem(x, i, "mxGetCell")]; }
void mxSetCell(mxArray* a, mwIndex i, mxArray* v) { A("mxSetCell"); if (x->cls != mxCELL_CLASS) violation("mx-misuse", "mxSetCell on something that is not a cell array"); if (v) chk(v, "mxSetCell"); x->cell[elem(x, i, "mxSetCell")] = v; }
int mxGetNumberOfFields(mxArray const* a) { A("mxGetNumberOfFields"); return int(x->fields.size()); }
char const* mxGetFieldNameByNumber(mxArray const* a, int k) { A("mxGetFieldNameByNumber"); return k >= 0 && size_t(k) < x->names.size() ? x->names[k] : nullptr; }
int mxGetFieldNumber(mxArray const* a, char const* n) { A("mxGetFieldNumber"); for (size_t k = 0; k < x->fields.size(); ++k) if (x->fields[k] == n) return int(k); return -1; }
mxArray* mxGetFieldByNumber(mxArray const* a, mwIndex i, int k) { A("mxGetFieldByNumber"); return x->cell[field(x, i, k, "mxGetFieldByNumber")]; }
mxArray* mxGetField(mxArray const* a, mwIndex i, char const* n) { int k = mxGetFieldNumber(a, n); return k < 0 ? nullptr : mxGetFieldByNumber(a, i, k); }
void mxSetFieldByNumber(mxArray* a, mwIndex i, int k, mxArray* v) { A("mxSetFieldByNumber"); if (v) chk(v, "mxSetFieldByNumber"); x->cell[field(x, i, k, "mxSetFieldByNumber")] = v; }
void mxSetField(mxArray* a, mwIndex i, char const* n, mxArray* v) { int k = mxGetFieldNumber(a, n); if (k >= 0) mxSetFieldByNumber(a, i, k, v); }
int mxAddField(mxArray* a, char const* n) {
  A("mxAddField"); if (x->cls != mxSTRUCT_CLASS || !n) return -1; if (lacks()) throw Terminate();
  size_t e = x->numel(), f = x->fields.size(); mxArray** c = (mxArray**)block(8 * e * (f + 1)); for (size_t i = 0; i < e; ++i) for (size_t k = 0; k < f; ++k) c[i * (f + 1) + k] = x->cell[i * f + k];
  free(x->cell); x->cell = c; x->ncell = e * (f + 1); x->fields.push_back(n); x->names.push_back(strdup(n)); return int(f);
}
char* mxArrayToString(mxArray const* a) {
  A("mxArrayToString"); if (x->cls != mxCHAR_CLASS) return nullptr; if (lacks()) return nullptr;
  std::string s = text(x); char* p = block(s.size() + 1); memcpy(p, s.data(), s.size()); blocks->insert(p); return p;
}
char* mxArrayToUTF8String(mxArray const* a) { return mxArrayToString(a); }
int mxGetString(mxArray const* a, char* buf, mwSize n) {
  A("mxGetString"); if (x->cls != mxCHAR_CLASS || !n) return 1; std::string s = text(x); size_t k = s.size() < n - 1 ? s.size() : n - 1; memcpy(buf, s.data(), k); buf[k] = 0; return s.size() > n - 1;
}
double mxGetEps(void) { return std::numeric_limits<double>::epsilon(); }
double mxGetInf(void) { return std::numeric_limits<double>::infinity(); }
double mxGetNaN(void) { return std::numeric_limits<double>::quiet_NaN(); }
int mexPrintf(char const* fmt, ...) {
  Out o; va_list ap; va_start(ap, fmt); va_list aq; va_copy(aq, ap); int n = vsnprintf(nullptr, 0, fmt, ap); va_end(ap);
  std::string s(size_t(n) + 1, 0); vsnprintf(&s[0], s.size(), fmt, aq); va_end(aq); s.pop_back(); console += s; return n;
}
void mexErrMsgTxt(char const*) { throw Terminate(); }
void mexErrMsgIdAndTxt(char const*, char const*, ...) { throw Terminate(); }
void mexWarnMsgTxt(char const* m) { Out o; console += m; }
void mexWarnMsgIdAndTxt(char const*, char const* m, ...) { Out o; console += m; }
int mexCallMATLAB(int nl, mxArray* l[], int nr, mxArray* r[], char const* name) {
  Out o; if (nl != 1 || nr != 1) violation("mx-misuse", "mexCallMATLAB with unexpected arguments");
  mxArray* x = chk(r[0], "mexCallMATLAB"); std::string f = name;
  if (f == "char" || f == "string" || f == "cellstr") {
    if (x->class_name == "string" && f == "char") { l[0] = chars(x->str); return 0; }
    if (x->cls == mxCHAR_CLASS && f == "char") { l[0] = dup(x); return 0; }
  }
  violation("mx-misuse", "mexCallMATLAB of a function the simulated MATLAB does not have: " + f);
}
}
