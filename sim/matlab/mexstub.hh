// The simulated MATLAB: arrays in exactly sized blocks, a memory manager that reclaims everything, a console, memory that can run out.
#pragma once
#include "mex.h"
#include <string>
#include <vector>
struct mxArray_tag {
  mxClassID cls = mxDOUBLE_CLASS; std::vector<size_t> dims; bool cplx = false, sparse = false;
  char* re = nullptr; char* im = nullptr;                 // numeric, logical, char data (exactly sized)
  size_t* ir = nullptr; size_t* jc = nullptr; size_t nzmax = 0;
  mxArray** cell = nullptr; size_t ncell = 0;             // cells, struct fields (element-major)
  std::vector<std::string> fields; std::vector<char*> names;
  std::string class_name; std::u16string str;             // objects of class string
  size_t numel() const { size_t n = 1; for (size_t d : dims) n *= d; return n; }
};
namespace mexsim {
struct Terminate {};                                      // MATLAB ends the MEX function (out of memory, mexErrMsgTxt)
extern std::string console;                               // what mexPrintf wrote
void arm(int mode, uint32_t n); uint64_t disarm();        // MATLAB's memory: 1 fail the n-th request, 2 fail from the n-th on
void reset();                                             // reclaim every array and block
size_t esize(mxClassID c); std::u16string u16(std::string const& s); std::string u8(std::u16string const& s);
mxArray* string_object(std::string const& s); mxArray* handle();
bool known(mxArray const* a);
}
