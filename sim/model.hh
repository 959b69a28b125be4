// Reference model: a typed value tree, its canonical encoding, snapshots of real containers, generators.
#pragma once
#include "core.hh"
#include "GenericContainer/GenericContainer.hh"
#include <cstring>
#include <cmath>
#include <limits>
#include <memory>

namespace sim {
using GC_namespace::GenericContainer;
using GC = GenericContainer;
using GC_namespace::GC_type;
using std::string; using std::string_view; using std::vector; using std::map;
typedef std::complex<double> cplx;

enum T { NOTYPE, POINTER, BOOL, INTEGER, LONG, REAL, COMPLEX, STRING, VEC_POINTER, VEC_BOOL, VEC_INTEGER, VEC_LONG,
         VEC_REAL, VEC_COMPLEX, VEC_STRING, MAT_INTEGER, MAT_LONG, MAT_REAL, MAT_COMPLEX, VECTOR, MAP };
extern char const* tname[21];

struct Val {
  int t = NOTYPE;
  int64_t i = 0;                 // POINTER BOOL INTEGER LONG
  double r = 0;                  // REAL
  cplx c;                        // COMPLEX
  string s;                      // STRING
  vector<int64_t> vi;            // VEC_POINTER VEC_BOOL VEC_INTEGER VEC_LONG MAT_INTEGER MAT_LONG
  vector<double> vr;             // VEC_REAL MAT_REAL
  vector<cplx> vc;               // VEC_COMPLEX MAT_COMPLEX
  vector<string> vs;             // VEC_STRING
  unsigned nr = 0, nc = 0;       // matrices, column major
  vector<Val> v;                 // VECTOR
  map<string, Val> m;            // MAP
  Val() {}
  static Val B(bool x) { Val v; v.t = BOOL; v.i = x; return v; }
  static Val I(int64_t x) { Val v; v.t = INTEGER; v.i = x; return v; }
  static Val L(int64_t x) { Val v; v.t = LONG; v.i = x; return v; }
  static Val R(double x) { Val v; v.t = REAL; v.r = x; return v; }
  static Val C(cplx x) { Val v; v.t = COMPLEX; v.c = x; return v; }
  static Val S(string x) { Val v; v.t = STRING; v.s = std::move(x); return v; }
  static Val P(int64_t x) { Val v; v.t = POINTER; v.i = x; return v; }
  static Val of(int t) { Val v; v.t = t; return v; }
  bool is_imat() const { return t == MAT_INTEGER || t == MAT_LONG; }
  bool is_mat() const { return t >= MAT_INTEGER && t <= MAT_COMPLEX; }
  bool is_ivec() const { return t >= VEC_POINTER && t <= VEC_LONG; }
  unsigned size() const;         // get_num_elements
};
string enc(Val const& v);                       // canonical, exact (reals by value, NaN as one class)
string show(Val const& v, int depth = 4);       // for traces
Val snapshot(GC const& g);                      // through public const accessors; violation if malformed
bool try_snapshot(GC const& g, Val& out, string& why);
void build(GC& g, Val const& v);                // make a real container hold v (fresh target)
string encd(double d); string encc(cplx c);
void exact_reals(bool on);                       // values are the same when every bit is (signed zeros, NaN payloads); off at the start of a run
inline bool same(Val const& a, Val const& b) { return enc(a) == enc(b); }

// ---- generators ----
struct Gen {
  int depth = 3;
  unsigned width = 4;
  bool pointers = true, complexes = true, nonfinite = true, weird_strings = true, mats = true, notype = true, typed_vecs = true;
  bool utf8_only = false, toplevel_map = false, nuls = true, longs = true, uniform_bias = false, bigints = true;
  bool empties = true, nested_null = true;
};
struct Tame { bool was; explicit Tame(bool on); ~Tame(); };
double gen_imag(bool nonfinite);
int64_t gen_int32(); int64_t gen_int64(); double gen_real(bool nonfinite); string gen_string(Gen const& g); string gen_key(Gen const& g);
void new_run();
bool fragment_budget();                         // false once a run has read very many fragments: the rest comes in whole blocks
void allow_huge(unsigned one_in);               // one run in so many may use one size beyond 16 bits
unsigned gen_size(unsigned small);              // mostly 0..small, now and then a larger size near a power of two or ten (budget per run)
void fill_elems(Val& v, unsigned n, Gen const& g);
Val gen_scalar(Gen const& g);
Val gen_val(Gen const& g, int depth);
inline Val gen_val(Gen const& g) { return gen_val(g, g.depth); }
size_t count_nodes(Val const& v);

// string_view over an exactly sized heap block (nothing readable after it)
struct ExactView {
  char* p; size_t n;
  explicit ExactView(string const& s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { if (n) memcpy(p, s.data(), n); }
  ~ExactView() { free(p); }
  ExactView(ExactView const&) = delete;
  string_view sv() const { return string_view(p, n); }
};

// ---- document equivalence for text formats ----
// norm(): typed vector -> vector of scalars, matrix -> vector of columns, integers/reals by value
struct NormOpt { double rel = 0; bool bool_as_int = false;
  bool keep_int = false;    // outside of sequences an int stays an int and a long an integer
  bool keep_real = false;   // outside of sequences a real stays a real
  bool as_text = false;     // complex numbers and pointers may come back as their text, pointers as integers
  bool elem = false; };     // (internal) the value is an element of a sequence
bool equiv(Val const& a, Val const& b, NormOpt const& o, string& why, string path = "");
}
