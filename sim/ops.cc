#include "ops.hh"
#include <climits>
namespace sim {
using namespace GC_namespace;
using std::to_string;
typedef sim::GC G;

// ---------------------------------------------------------------- model helpers
Val elem(Val const& v, size_t k) {
  switch (v.t) {
  case VEC_POINTER: return Val::P(v.vi[k]);
  case VEC_BOOL: return Val::B(v.vi[k]);
  case VEC_INTEGER: case MAT_INTEGER: return Val::I(v.vi[k]);
  case VEC_LONG: case MAT_LONG: return Val::L(v.vi[k]);
  case VEC_REAL: case MAT_REAL: return Val::R(v.vr[k]);
  case VEC_COMPLEX: case MAT_COMPLEX: return Val::C(v.vc[k]);
  case VEC_STRING: return Val::S(v.vs[k]);
  case VECTOR: return v.v[k];
  }
  return v;   // scalars: themselves
}
static bool isnum(int t) { return t >= BOOL && t <= COMPLEX; }
static double dbl(Val const& v) { return v.t == REAL ? v.r : double(v.i); }
static cplx cx(Val const& v) { return v.t == COMPLEX ? v.c : cplx(dbl(v), 0); }
void append_elem(Val& v, Val const& e) {       // e numerically widened into typed vector v
  switch (v.t) {
  case VEC_POINTER: case VEC_BOOL: case VEC_INTEGER: case VEC_LONG: case MAT_INTEGER: case MAT_LONG: v.vi.push_back(e.i); break;
  case VEC_REAL: case MAT_REAL: v.vr.push_back(dbl(e)); break;
  case VEC_COMPLEX: case MAT_COMPLEX: v.vc.push_back(cx(e)); break;
  case VEC_STRING: v.vs.push_back(e.s); break;
  case VECTOR: v.v.push_back(e); break;
  }
}
void resize_arr(Val& v, size_t n) {
  switch (v.t) {
  case VEC_POINTER: case VEC_BOOL: case VEC_INTEGER: case VEC_LONG: case MAT_INTEGER: case MAT_LONG: v.vi.resize(n); break;
  case VEC_REAL: case MAT_REAL: v.vr.resize(n); break;
  case VEC_COMPLEX: case MAT_COMPLEX: v.vc.resize(n); break;
  case VEC_STRING: v.vs.resize(n); break;
  case VECTOR: v.v.resize(n); break;
  }
}
static Val widen(Val const& e, int t) {
  Val r = Val::of(t);
  switch (t) {
  case INTEGER: case LONG: r.i = e.i; break;
  case REAL: r.r = dbl(e); break;
  case COMPLEX: r.c = cx(e); break;
  }
  return r;
}
#define M_(x) (1u << (x))
bool promote(Val& v, int target) {
  uint32_t ok = 0;
  unsigned n = v.size();
  switch (target) {
  case INTEGER: ok = M_(NOTYPE) | M_(BOOL) | M_(INTEGER); break;
  case LONG: ok = M_(NOTYPE) | M_(BOOL) | M_(INTEGER) | M_(LONG); break;
  case REAL: ok = M_(NOTYPE) | M_(BOOL) | M_(INTEGER) | M_(LONG) | M_(REAL); break;
  case COMPLEX:
    if (v.t == VEC_BOOL || v.t == VEC_INTEGER || v.t == VEC_LONG || v.t == VEC_REAL) return promote(v, VEC_COMPLEX);
    ok = M_(NOTYPE) | M_(BOOL) | M_(INTEGER) | M_(LONG) | M_(REAL) | M_(COMPLEX); break;
  case VEC_INTEGER: ok = M_(NOTYPE) | M_(BOOL) | M_(INTEGER) | M_(VEC_BOOL) | M_(VEC_INTEGER); break;
  case VEC_LONG: ok = M_(NOTYPE) | M_(BOOL) | M_(INTEGER) | M_(LONG) | M_(VEC_BOOL) | M_(VEC_INTEGER) | M_(VEC_LONG); break;
  case VEC_REAL: ok = M_(NOTYPE) | M_(BOOL) | M_(INTEGER) | M_(LONG) | M_(REAL) | M_(VEC_BOOL) | M_(VEC_INTEGER) | M_(VEC_LONG) | M_(VEC_REAL); break;
  case VEC_COMPLEX: ok = M_(NOTYPE) | M_(BOOL) | M_(INTEGER) | M_(LONG) | M_(REAL) | M_(COMPLEX) | M_(VEC_BOOL) | M_(VEC_INTEGER) | M_(VEC_LONG) | M_(VEC_REAL) | M_(VEC_COMPLEX); break;
  case MAT_INTEGER: ok = M_(NOTYPE) | M_(BOOL) | M_(INTEGER) | M_(VEC_BOOL) | M_(VEC_INTEGER) | M_(MAT_INTEGER); break;
  case MAT_LONG: ok = M_(NOTYPE) | M_(BOOL) | M_(INTEGER) | M_(VEC_BOOL) | M_(VEC_INTEGER) | M_(VEC_LONG) | M_(MAT_INTEGER) | M_(MAT_LONG); break;
  case MAT_REAL: ok = M_(NOTYPE) | M_(BOOL) | M_(INTEGER) | M_(REAL) | M_(VEC_BOOL) | M_(VEC_INTEGER) | M_(VEC_LONG) | M_(VEC_REAL) | M_(MAT_INTEGER) | M_(MAT_LONG) | M_(MAT_REAL); break;
  case MAT_COMPLEX: ok = M_(NOTYPE) | M_(BOOL) | M_(INTEGER) | M_(LONG) | M_(REAL) | M_(VEC_BOOL) | M_(VEC_INTEGER) | M_(VEC_LONG) | M_(VEC_REAL)
      | M_(MAT_INTEGER) | M_(MAT_LONG) | M_(MAT_REAL) | M_(MAT_COMPLEX); break;
  case VECTOR: ok = 0x1fffffu & ~(M_(MAT_INTEGER) | M_(MAT_LONG) | M_(MAT_REAL) | M_(MAT_COMPLEX) | M_(MAP)); break;
  }
  if (!(ok & M_(v.t))) return false;
  if (v.t == target) return true;
  if (target <= STRING) { Val r = widen(v, target); v = r; return true; }
  Val r = Val::of(target);
  if (v.t == NOTYPE) { if (target == VECTOR) r.v.push_back(Val()); else append_elem(r, Val::I(0)); n = 1; }
  else for (unsigned k = 0; k < n; ++k) append_elem(r, elem(v, k));
  if (r.is_mat()) { if (v.is_mat()) { r.nr = v.nr; r.nc = v.nc; } else { r.nr = n; r.nc = 1; } }
  v = r;
  return true;
}
static void must_promote(Val& v, int t) { if (!promote(v, t)) throw Reject(); }

static bool zero0(double x) { int c = std::fpclassify(x); return c == FP_ZERO || c == FP_SUBNORMAL; }
template <class I> static I to_int(Val const& v) {   // representable in I or Reject
  typedef std::numeric_limits<I> L;
  auto from_real = [](double x) -> I {
    if (!zero0(x - std::round(x))) throw Reject();
    if (!(x >= double(L::min())) || !(x < std::ldexp(1.0, L::digits))) throw Reject();
    return I(x);
  };
  switch (v.t) {
  case BOOL: return I(v.i);
  case INTEGER: case LONG:
    if (!L::is_signed) { if (v.i < 0 || uint64_t(v.i) > uint64_t(L::max())) throw Reject(); return I(v.i); }
    if (v.i < int64_t(L::min()) || v.i > int64_t(L::max())) throw Reject();
    return I(v.i);
  case REAL: return from_real(v.r);
  case COMPLEX: if (!zero0(v.c.imag())) throw Reject(); return from_real(v.c.real());
  }
  throw Reject();
}
static double m_value_real(Val const& v) { if (v.t == COMPLEX) { if (!zero0(v.c.imag())) throw Reject(); return v.c.real(); } if (v.t >= BOOL && v.t <= REAL) return dbl(v); throw Reject(); }
double m_number(Val const& v) { if (v.t >= BOOL && v.t <= REAL) return dbl(v); throw Reject(); }
cplx m_cnumber(Val const& v) { if (isnum(v.t)) return cx(v); throw Reject(); }

// ---------------------------------------------------------------- encodings of results
static string E(bool b) { return b ? "true" : "false"; }
static string E(int32_t x) { return to_string(x); }
static string E(uint32_t x) { return to_string(x); }
static string E(int64_t x) { return to_string(x); }
static string E(uint64_t x) { return to_string(x); }
static string E(double x) { return encd(x); }
static string E(float x) { return encd(double(x)); }
static string E(cplx x) { return encc(x); }
static string E(string const& x) { return to_string(x.size()) + ":" + x; }
static string E(string_view x) { return E(string(x)); }
static string E(void* p) { return to_string(int64_t(intptr_t(p))); }
template <class Tt> static string E(vector<Tt> const& v) { string o = "["; for (auto const& x : v) { o += E(Tt(x)); o += ' '; } return o + "]"; }
template <class Tt> static string EM(mat_type<Tt> const& m) { return to_string(m.num_rows()) + "x" + to_string(m.num_cols()) + E(static_cast<vector<Tt> const&>(m)); }
static string E(mat_int_type const& m) { return EM(m); }
static string E(mat_long_type const& m) { return EM(m); }
static string E(mat_real_type const& m) { return EM(m); }
static string E(mat_complex_type const& m) { return EM(m); }
static string EV(Val const& v) { return enc(v); }

// typed traits
template <class Tt> struct Tr;
template <> struct Tr<int32_t> { enum { S = INTEGER, V = VEC_INTEGER, M = MAT_INTEGER }; static int32_t gen() { return int32_t(gen_int32()); } static vector<int64_t>& a(Val& v) { return v.vi; } };
template <> struct Tr<int64_t> { enum { S = LONG, V = VEC_LONG, M = MAT_LONG }; static int64_t gen() { return gen_int64(); } static vector<int64_t>& a(Val& v) { return v.vi; } };
template <> struct Tr<double> { enum { S = REAL, V = VEC_REAL, M = MAT_REAL }; static double gen() { return gen_real(true); } static vector<double>& a(Val& v) { return v.vr; } };
template <> struct Tr<cplx> { enum { S = COMPLEX, V = VEC_COMPLEX, M = MAT_COMPLEX }; static cplx gen() { double r = gen_real(true); return cplx(r, pick(2) ? gen_real(true) : 0); } static vector<cplx>& a(Val& v) { return v.vc; } };
template <> struct Tr<bool> { enum { S = BOOL, V = VEC_BOOL }; static bool gen() { return pick(2); } static vector<int64_t>& a(Val& v) { return v.vi; } };
template <> struct Tr<string> { enum { S = STRING, V = VEC_STRING }; static string gen() { return gen_string(Gen()); } static vector<string>& a(Val& v) { return v.vs; } };
template <> struct Tr<void*> { enum { S = POINTER, V = VEC_POINTER }; static void* gen() { return (void*)intptr_t(pick(1000) * 8); } static vector<int64_t>& a(Val& v) { return v.vi; } };
static Val sv(bool x) { return Val::B(x); }
static Val sv(int32_t x) { return Val::I(x); }
static Val sv(int64_t x) { return Val::L(x); }
static Val sv(double x) { return Val::R(x); }
static Val sv(cplx x) { return Val::C(x); }
static Val sv(string const& x) { return Val::S(x); }
static Val sv(void* p) { return Val::P(int64_t(intptr_t(p))); }
template <class Tt> static vector<Tt> gen_vec() { vector<Tt> r; unsigned n = pick(6); if (chance(1, 16)) n += 30; for (unsigned k = 0; k < n; ++k) r.push_back(Tr<Tt>::gen()); return r; }
template <class Tt> static Val vec_val(vector<Tt> const& x) { Val v = Val::of(Tr<Tt>::V); for (auto const& e : x) append_elem(v, sv(Tt(e))); return v; }
template <class Tt> static mat_type<Tt> gen_mat() { mat_type<Tt> m(pick(4), pick(4)); for (size_t k = 0; k < m.size(); ++k) m[k] = Tr<Tt>::gen(); return m; }
template <class Tt> static Val mat_val(mat_type<Tt> const& m) { Val v = Val::of(Tr<Tt>::M); v.nr = m.num_rows(); v.nc = m.num_cols(); for (auto const& e : m) append_elem(v, sv(e)); return v; }
template <class Tt> static Tt get_s(Val const& v);
template <> int32_t get_s<int32_t>(Val const& v) { return int32_t(v.i); }
template <> int64_t get_s<int64_t>(Val const& v) { return v.i; }
template <> bool get_s<bool>(Val const& v) { return v.i; }
template <> double get_s<double>(Val const& v) { return v.r; }
template <> cplx get_s<cplx>(Val const& v) { return v.c; }
template <> string get_s<string>(Val const& v) { return v.s; }
template <> void* get_s<void*>(Val const& v) { return (void*)intptr_t(v.i); }
template <class Tt> static string EVA(Val const& v) { vector<Tt> r; for (unsigned k = 0; k < v.size(); ++k) r.push_back(get_s<Tt>(elem(v, k))); return E(r); }
template <class Tt> static string EMA(Val const& v) { return to_string(v.nr) + "x" + to_string(v.nc) + EVA<Tt>(v); }

// ---------------------------------------------------------------- argument generators
static unsigned idx_grow(Val const& t) { uint32_t k = pick(8); unsigned n = t.size(); if (k < 5 && n) return pick(n); if (k < 7) return n + pick(3); return pick(40); }
static unsigned idx_any(Val const& t) {
  uint32_t k = pick(8); unsigned n = t.size();
  if (k < 4 && n) return pick(n);
  if (k < 6) return n + pick(3);
  if (k == 6) return pick(40);
  static const unsigned big[] = {UINT_MAX, UINT_MAX - 1, 0x80000000u, 0x7fffffffu, 1u << 20, 100};
  return big[pick(6)];
}
static string some_key(Val const& t) {
  if (t.t == MAP && !t.m.empty() && pick(4)) { auto it = t.m.begin(); std::advance(it, long(pick(uint32_t(t.m.size())))); 
    if (chance(1, 16)) return it->first + string(1, char(pick(2) ? 'x' : 0));        // extends a present key
    if (chance(1, 16) && it->first.size()) return it->first.substr(0, it->first.size() - 1);
    return it->first; }
  Gen g; return gen_key(g);
}
static vector<string> some_keys(Val const& t) { vector<string> r; for (unsigned n = pick(4); n-- > 0;) r.push_back(some_key(t)); return r; }
static string K(string const& k) { return "'" + k + "'"; }
static string KS(vector<string> const& k) { string o = "{"; for (auto& x : k) o += K(x) + ","; return o + "}"; }
static Val const* find(Val const& v, string const& k) { if (v.t != MAP) return nullptr; auto it = v.m.find(k); return it == v.m.end() ? nullptr : &it->second; }
static Val* find(Val& v, string const& k) { if (v.t != MAP) return nullptr; auto it = v.m.find(k); return it == v.m.end() ? nullptr : &it->second; }
static void mgrow(Val& v, size_t i) { if (v.size() <= i) resize_arr(v, i + 1); }

static Op mk(string name, bool ro, std::function<string(G&)> r, std::function<string(Val&)> m) { Op o; o.name = std::move(name); o.ro = ro; o.real = std::move(r); o.model = std::move(m); return o; }

// a string argument handed over as an unterminated view
struct SV { std::shared_ptr<ExactView> p; SV(string const& s) : p(std::make_shared<ExactView>(s)) {} operator string_view() const { return p->sv(); } };

static vector<OpGen>* T_;
struct Add { Add(char const* n, std::function<Op(Val const&)> f) { if (!T_) T_ = new vector<OpGen>; T_->push_back(OpGen{n, f}); } };

template <class Tt> static void reg_scalar(char const* setn, std::function<Tt&(G&, Tt const&)> set, char const* getn,
    std::function<Tt&(G&)> get, std::function<Tt const&(G const&)> cget) {
  Add(setn, [=](Val const&) { Tt x = Tr<Tt>::gen();
    return mk(string(setn) + "(" + E(x) + ")", false, [=](G& g) { return E(Tt(LIB(set(g, x)))); }, [=](Val& v) { v = sv(x); return E(x); }); });
  Add(getn, [=](Val const&) { bool w = pick(2); Tt x = Tr<Tt>::gen();
    return mk(string(getn) + "() non-const" + (w ? " = " + E(x) : ""), false,
      [=](G& g) { Tt& r = LIB(get(g)); string o = E(Tt(r)); if (w) r = x; return o; },
      [=](Val& v) { if (v.t == NOTYPE) v = sv(Tt()); if (v.t != Tr<Tt>::S) throw Reject(); string o = E(get_s<Tt>(v)); if (w) v = sv(x); return o; }); });
  Add(getn, [=](Val const&) { return mk(string(getn) + "() const", true, [=](G& g) { return E(Tt(LIB(cget(g)))); },
      [=](Val& v) -> string { if (v.t != Tr<Tt>::S) throw Reject(); return E(get_s<Tt>(v)); }); });
}
template <class Tt> static void reg_vec(char const* n, std::function<vector<Tt>&(G&, unsigned)> setn, std::function<vector<Tt>&(G&, vector<Tt> const&)> setv,
    std::function<vector<Tt>&(G&)> get, std::function<vector<Tt> const&(G const&)> cget, bool promoting) {
  Add(n, [=](Val const&) { unsigned sz = pick(3) ? pick(8) : 0; 
    return mk(string("set_") + n + "(" + to_string(sz) + ")", false, [=](G& g) { return E(vector<Tt>(LIB(setn(g, sz)))); },
      [=](Val& v) { if (v.t != Tr<Tt>::V) v = Val::of(Tr<Tt>::V); if (sz) resize_arr(v, sz); return EVA<Tt>(v); }); });
  Add(n, [=](Val const&) { vector<Tt> x = gen_vec<Tt>();
    return mk(string("set_") + n + "(" + E(x) + ")", false, [=](G& g) { return E(vector<Tt>(LIB(setv(g, x)))); }, [=](Val& v) { v = vec_val<Tt>(x); return E(x); }); });
  Add(n, [=](Val const&) { bool w = pick(2); Tt x = Tr<Tt>::gen();
    return mk(string("get_") + n + "() non-const" + (w ? " push_back" : ""), false,
      [=](G& g) { vector<Tt>& r = LIB(get(g)); string o = E(vector<Tt>(r)); if (w) r.push_back(x); return o; },
      [=](Val& v) { if (promoting) { if (v.t == NOTYPE) v = Val::of(Tr<Tt>::V); else if (v.t >= VEC_BOOL && v.t < Tr<Tt>::V) must_promote(v, Tr<Tt>::V); }
        if (v.t != Tr<Tt>::V) throw Reject(); string o = EVA<Tt>(v); if (w) append_elem(v, sv(x)); return o; }); });
  Add(n, [=](Val const&) { return mk(string("get_") + n + "() const", true, [=](G& g) { return E(vector<Tt>(LIB(cget(g)))); },
      [=](Val& v) { if (v.t != Tr<Tt>::V) throw Reject(); return EVA<Tt>(v); }); });
}
template <class Tt> static void reg_mat(char const* n, std::function<mat_type<Tt>&(G&, unsigned, unsigned)> setn, std::function<mat_type<Tt>&(G&, mat_type<Tt> const&)> setm,
    std::function<mat_type<Tt>&(G&)> get, std::function<mat_type<Tt> const&(G const&)> cget, uint32_t promo) {
  Add(n, [=](Val const&) { unsigned nr = pick(5), nc = pick(5);
    return mk(string("set_") + n + "(" + to_string(nr) + "," + to_string(nc) + ")", false, [=](G& g) { return E(mat_type<Tt>(LIB(setn(g, nr, nc)))); },
      [=](Val& v) { if (v.t != Tr<Tt>::M) v = Val::of(Tr<Tt>::M); resize_arr(v, size_t(nr) * nc); v.nr = nr; v.nc = nc; return EMA<Tt>(v); }); });
  Add(n, [=](Val const&) { mat_type<Tt> x = gen_mat<Tt>();
    return mk(string("set_") + n + "(" + E(x) + ")", false, [=](G& g) { return E(mat_type<Tt>(LIB(setm(g, x)))); }, [=](Val& v) { v = mat_val<Tt>(x); return E(x); }); });
  Add(n, [=](Val const& t) { unsigned i = pick(6), j = pick(6); if (t.is_mat()) { if (t.nr && pick(4)) i = pick(t.nr); if (t.nc && pick(4)) j = pick(t.nc); } bool w = pick(2); Tt x = Tr<Tt>::gen();
    return mk(string("get_") + n + "()(" + to_string(i) + "," + to_string(j) + ")" + (w ? " write" : ""), false,
      [=](G& g) { mat_type<Tt>& r = LIB(get(g)); string o = E(r); if (w) { try { Tt& e = LIB(r(i, j)); e = x; o += "w"; } catch (std::exception const&) { o += "x"; } } return o; },
      [=](Val& v) { Val s = v; if (v.t == NOTYPE) v = Val::of(Tr<Tt>::M); else if (promo & M_(v.t)) must_promote(v, Tr<Tt>::M);
        if (v.t != Tr<Tt>::M) { v = s; throw Reject(); }
        string o = EMA<Tt>(v);
        if (w) { if (i >= v.nr || j >= v.nc) o += "x"; else { Tr<Tt>::a(v)[size_t(i) + size_t(j) * v.nr] = x; o += "w"; } }
        return o; }); });
  Add(n, [=](Val const& t) { unsigned k = pick(3), i = pick(6), j = pick(6); if (t.is_mat()) { if (t.nr && pick(4)) i = pick(t.nr); if (t.nc && pick(4)) j = pick(t.nc); } if (chance(1, 12)) i = UINT_MAX; if (chance(1, 12)) j = UINT_MAX;
    return mk(string("get_") + n + "() const " + (k == 0 ? "(i,j)" : k == 1 ? "row" : "column") + " " + to_string(i) + "," + to_string(j), true,
      [=](G& g) { mat_type<Tt> const& r = LIB(cget(g)); string o = E(r);
        if (k == 0) o += E(Tt(LIB(r(i, j))));
        vector<Tt> b;
        if (k == 1) { if (chance(1, 2)) { bool al = pick(2); Lib l; if (al) r.getRow(i, b); else r.get_row(i, b); } else if (i < r.num_rows()) { b.resize(r.numCols()); bool al = pick(2); Lib l; if (al) r.getRow(i, b.data()); else r.get_row(i, b.data()); } else { bool al = pick(2); if (al) { b.resize(r.num_cols() + 1); Lib l; r.get_row(i, b.data()); } Lib l; if (al) r.getRow(i, b); else r.get_row(i, b); } o += E(b); }
        if (k == 2) { if (chance(1, 2)) { bool al = pick(2); Lib l; if (al) r.getColumn(j, b); else r.get_column(j, b); } else if (j < r.num_cols()) { b.resize(r.numRows()); bool al = pick(2); Lib l; if (al) r.getColumn(j, b.data()); else r.get_column(j, b.data()); } else { bool al = pick(2); if (al) { b.resize(r.num_rows() + 1); Lib l; r.get_column(j, b.data()); } Lib l; if (al) r.getColumn(j, b); else r.get_column(j, b); } o += E(b); }
        return o; },
      [=](Val& v) { if (v.t != Tr<Tt>::M) throw Reject(); string o = EMA<Tt>(v);
        auto el = [&](unsigned a, unsigned b) { return get_s<Tt>(elem(v, size_t(a) + size_t(b) * v.nr)); };
        if (k == 0) { if (i >= v.nr || j >= v.nc) throw Reject(); o += E(el(i, j)); }
        vector<Tt> b;
        if (k == 1) { if (i >= v.nr) throw Reject(); for (unsigned c = 0; c < v.nc; ++c) b.push_back(el(i, c)); o += E(b); }
        if (k == 2) { if (j >= v.nc) throw Reject(); for (unsigned c = 0; c < v.nr; ++c) b.push_back(el(c, j)); o += E(b); }
        return o; }); });
}
// non-const element access by position
template <class Tt> static void reg_at(char const* n, std::function<string(G&, unsigned, bool, Tt const&)> rw, std::function<Tt(G const&, unsigned, string_view)> cget, uint32_t promo, bool can_write) {
  Add(n, [=](Val const& t) { unsigned i = idx_grow(t); bool w = can_write && pick(2); Tt x = Tr<Tt>::gen();
    return mk(string(n) + "(" + to_string(i) + ")" + (w ? " = " + E(x) : ""), false,
      [=](G& g) { return rw(g, i, w, x); },
      [=](Val& v) -> string {
        if (v.t == NOTYPE) v = Val::of(Tr<Tt>::V); else if (promo & M_(v.t)) must_promote(v, Tr<Tt>::V);
        if (v.t == Tr<Tt>::V) { mgrow(v, i); string o = E(get_s<Tt>(elem(v, i))); if (w) { Val e = sv(x); switch (int(Tr<Tt>::V)) { case VEC_REAL: v.vr[i] = e.r; break; case VEC_COMPLEX: v.vc[i] = e.c; break; case VEC_STRING: v.vs[i] = e.s; break; default: v.vi[i] = e.i; } } return o; }
        must_promote(v, VECTOR); mgrow(v, i); v.v[i] = sv(Tt()); string o = E(Tt()); if (w) v.v[i] = sv(x); return o; }); });
  Add(n, [=](Val const& t) { unsigned i = idx_any(t); SV wh("here");
    return mk(string(n) + "(" + to_string(i) + ",where) const", true, [=](G& g) { return E(LIB(cget(g, i, wh))); },
      [=](Val& v) { if (v.t != Tr<Tt>::V || i >= v.size()) throw Reject(); return E(get_s<Tt>(elem(v, i))); }); });
}
template <class Tt> static void reg_at2(char const* n, std::function<Tt&(G&, unsigned, unsigned)> get, std::function<Tt const&(G const&, unsigned, unsigned, string_view)> cget, uint32_t promo) {
  auto ij = [](Val const& t, bool huge, unsigned& i, unsigned& j) { i = pick(5); j = pick(4); if (pick(3) == 0) j = 0;
    if (t.is_mat()) { if (t.nr && pick(4)) i = pick(t.nr); if (t.nc && pick(4)) j = pick(t.nc); } else if (t.size() && pick(2)) i = pick(t.size());
    if (huge && chance(1, 10)) { static const unsigned b[] = {UINT_MAX, UINT_MAX - 1, 0x80000000u, 0x10000u}; (pick(2) ? i : j) = b[pick(4)]; } };
  Add(n, [=](Val const& t) { unsigned i, j; ij(t, t.t != NOTYPE, i, j); bool w = pick(2); Tt x = Tr<Tt>::gen();
    return mk(string(n) + "(" + to_string(i) + "," + to_string(j) + ")" + (w ? " = " + E(x) : ""), false,
      [=](G& g) { Tt& r = LIB(get(g, i, j)); string o = E(Tt(r)); if (w) r = x; return o; },
      [=](Val& v) -> string {
        if (v.t == NOTYPE) { v = Val::of(Tr<Tt>::M); v.nr = i + 1; v.nc = j + 1; resize_arr(v, size_t(i + 1) * (j + 1)); }
        else if (promo & M_(v.t)) { bool in = v.is_mat() ? i < v.nr && j < v.nc : i < v.size() && j == 0; if (!in) throw Reject(); must_promote(v, Tr<Tt>::M); }
        if (v.t != Tr<Tt>::M || i >= v.nr || j >= v.nc) throw Reject();
        size_t k = size_t(i) + size_t(j) * v.nr; string o = E(get_s<Tt>(elem(v, k))); if (w) Tr<Tt>::a(v)[k] = x; return o; }); });
  Add(n, [=](Val const& t) { unsigned i, j; ij(t, true, i, j); SV wh("w");
    return mk(string(n) + "(" + to_string(i) + "," + to_string(j) + ",where) const", true, [=](G& g) { return E(Tt(LIB(cget(g, i, j, wh)))); },
      [=](Val& v) { if (v.t != Tr<Tt>::M || i >= v.nr || j >= v.nc) throw Reject(); return E(get_s<Tt>(elem(v, size_t(i) + size_t(j) * v.nr))); }); });
}
// read-only conversions
template <class R> static void reg_ro(char const* n, std::function<R(G const&)> f, std::function<R(Val const&)> m) {
  Add(n, [=](Val const&) { return mk(string(n) + "()", true, [=](G& g) { return E(LIB(f(g))); }, [=](Val& v) { return E(m(v)); }); });
}
template <class R> static void reg_ptr(char const* n, std::function<R const*(G const&)> cf, std::function<R*(G&)> f) {
  auto model = [](Val const& v) -> string { if (v.t == Tr<R>::S || v.t == Tr<R>::V || v.t == Tr<R>::M) return EVA<R>(v); throw Reject(); };
  auto dump = [](R const* p, G& g) { unsigned n2 = g.get_num_elements(); return E(vector<R>(p, p + n2)); };
  Add(n, [=](Val const&) { bool c = pick(2); return mk(string(n) + (c ? "() const" : "()"), true, [=](G& g) { R const* p = c ? LIB(cf(g)) : LIB((R const*)f(g)); return dump(p, g); },
    [=](Val& v) { return model(v); }); });
}
template <class R> static void reg_if(char const* n, std::function<R(Val const&)> conv) {
  auto look = [=](Val const& v, vector<string> const& ks, R& x) { for (auto& k : ks) if (Val const* e = find(v, k)) { try { x = conv(*e); return true; } catch (Reject&) {} } return false; };
  Add(n, [=](Val const& t) { string k = some_key(t); uint32_t form = pick(3); SV s(k); R init = R(); if (form == 1) k = k.c_str();
    return mk(string("get_if_exists(") + K(k) + "," + n + ")", true,
      [=](G& g) { G const& c = g; R x = init; bool r = form == 1 ? LIB(c.get_if_exists(k.c_str(), x)) : LIB(c.get_if_exists(string_view(s), x)); return E(r) + (r ? E(x) : ""); },
      [=](Val& v) { R x = init; bool r = look(v, {k}, x); return E(r) + (r ? E(x) : ""); }); });
  Add(n, [=](Val const& t) { auto ks = some_keys(t); R init = R();
    return mk(string("get_if_exists(") + KS(ks) + "," + n + ")", true,
      [=](G& g) { G const& c = g; R x = init; bool r = LIB(c.get_if_exists(ks, x)); return E(r) + (r ? E(x) : ""); },
      [=](Val& v) { R x = init; bool r = look(v, ks, x); return E(r) + (r ? E(x) : ""); }); });
}
// get_map_X : key form, list-of-alternatives form, path form
template <class R> static void reg_map(char const* n, std::function<R(G const&, string_view, string_view)> f1, std::function<R(G const&, vector<string> const&, string_view)> f2,
   std::function<R(G const&, vector<string> const&)> f3, std::function<string(Val&)> conv, std::function<string(Val&)> conv_strict, bool ro) {
  Add(n, [=](Val const& t) { string k = some_key(t); SV s(k), w("loc");
    return mk(string(n) + "(" + K(k) + ")", ro, [=](G& g) { return E(LIB(f1(g, s, w))); }, [=](Val& v) { Val* e = find(v, k); if (!e) throw Reject(); return conv(*e); }); });
  Add(n, [=](Val const& t) { auto ks = some_keys(t); SV w("loc");
    return mk(string(n) + "(any of " + KS(ks) + ")", ro, [=](G& g) { return E(LIB(f2(g, ks, w))); },
      [=](Val& v) { for (auto& k : ks) if (Val* e = find(v, k)) return conv(*e); throw Reject(); }); });
  Add(n, [=](Val const& t) { vector<string> ks; Val const* p = &t; unsigned d = 1 + pick(3); for (unsigned q = 0; q < d; ++q) { string k = some_key(*p); ks.push_back(k); Val const* e = find(*p, k); if (!e) { if (pick(3)) break; } else p = e; }
    return mk(string(n) + "(path " + KS(ks) + ")", true, [=](G& g) { return E(LIB(f3(g, ks))); },
      [=](Val& v) { Val* p = &v; for (auto& k : ks) { Val* e = find(*p, k); if (!e) throw Reject(); p = e; } return conv_strict(*p); }); });
}
template <class M> static auto call_list(M f, vector<string> const& k) -> decltype(f(std::initializer_list<string>())) {
  switch (k.size()) {
  case 0: return f({});
  case 1: return f({k[0]});
  case 2: return f({k[0], k[1]});
  default: return f({k[0], k[1], k[2]});
  }
}
template <class R, class El> static void reg_copyto(char const* n, std::function<void(G const&, R&)> f, std::function<string(Val const&)> m, std::function<El()> junk) {
  Add(n, [=](Val const&) { unsigned j = pick(4); vector<El> pre; for (unsigned k = 0; k < j; ++k) pre.push_back(junk());
    return mk(n, true, [=](G& g) { R out; for (auto const& x : pre) out.push_back(x); { Lib l; f(g, out); } return E(out); }, [=](Val& v) { return m(v); }); });
}
template <class I> static string m_copy_int(Val const& v) {
  vector<I> r; unsigned n = v.size();
  if (n && (v.t == POINTER || v.t == STRING || v.t == VEC_POINTER || v.t == VEC_STRING || v.t == MAP)) throw Reject();
  for (unsigned k = 0; k < n; ++k) r.push_back(to_int<I>(elem(v, k)));
  return E(r);
}
static vector<cplx> m_copy_c(Val const& v) {
  vector<cplx> r; unsigned n = v.size();
  if (n && (v.t == POINTER || v.t == STRING || v.t == VEC_POINTER || v.t == VEC_STRING || v.t == MAP)) throw Reject();
  for (unsigned k = 0; k < n; ++k) r.push_back(m_cnumber(elem(v, k)));
  return r;
}
static vector<double> m_copy_r(Val const& v) {
  vector<double> r; unsigned n = v.size();
  if (n && (v.t == POINTER || v.t == STRING || v.t == VEC_POINTER || v.t == VEC_STRING || v.t == MAP)) throw Reject();
  for (unsigned k = 0; k < n; ++k) { Val e = elem(v, k); r.push_back(v.t == VECTOR ? m_number(e) : m_value_real(e)); }
  return r;
}
template <class Tt> static vector<Tt> m_col(Val const& v);
template <> vector<int32_t> m_col<int32_t>(Val const& v) { vector<int32_t> r; m_copy_int<int32_t>(v); for (unsigned k = 0; k < v.size(); ++k) r.push_back(to_int<int32_t>(elem(v, k))); return r; }
template <> vector<int64_t> m_col<int64_t>(Val const& v) { vector<int64_t> r; m_copy_int<int64_t>(v); for (unsigned k = 0; k < v.size(); ++k) r.push_back(to_int<int64_t>(elem(v, k))); return r; }
template <> vector<double> m_col<double>(Val const& v) { return m_copy_r(v); }
template <> vector<cplx> m_col<cplx>(Val const& v) { return m_copy_c(v); }
template <class Tt> static string m_copy_mat(Val const& v) {
  uint32_t ok = 0;
  switch (int(Tr<Tt>::S)) {
  case COMPLEX: ok |= M_(COMPLEX) | M_(VEC_COMPLEX) | M_(MAT_COMPLEX); [[fallthrough]];
  case REAL: ok |= M_(REAL) | M_(VEC_REAL) | M_(MAT_REAL); [[fallthrough]];
  case LONG: ok |= M_(LONG) | M_(VEC_LONG) | M_(MAT_LONG); [[fallthrough]];
  case INTEGER: ok |= M_(NOTYPE) | M_(BOOL) | M_(INTEGER) | M_(VEC_BOOL) | M_(VEC_INTEGER) | M_(MAT_INTEGER);
  }
  Val r = Val::of(Tr<Tt>::M);
  if (v.t == VECTOR) {
    if (v.v.empty()) throw Reject();
    vector<vector<Tt>> cols;
    for (auto& c : v.v) { cols.push_back(m_col<Tt>(c)); }
    for (auto& c : cols) if (c.size() != cols[0].size()) throw Reject();
    r.nc = unsigned(cols.size()); r.nr = unsigned(cols[0].size());
    for (auto& c : cols) for (auto& x : c) append_elem(r, sv(x));
    return EMA<Tt>(r);
  }
  if (!(ok & M_(v.t))) throw Reject();
  if (v.t == NOTYPE) { r.nr = r.nc = 1; append_elem(r, Val::I(0)); return EMA<Tt>(r); }
  if (v.is_mat()) { r.nr = v.nr; r.nc = v.nc; } else { r.nr = v.size(); r.nc = 1; }
  for (unsigned k = 0; k < v.size(); ++k) append_elem(r, elem(v, k));
  return EMA<Tt>(r);
}

static uint32_t keyed_from, keyed_to;   // reads below a map by key or path
static void reg_all() {
  // ---- scalars
  reg_scalar<bool>("set_bool", [](G& g, bool const& x) -> bool& { return g.set_bool(x); }, "get_bool", [](G& g) -> bool& { return g.get_bool(); }, [](G const& g) -> bool const& { return g.get_bool(); });
  reg_scalar<int32_t>("set_int", [](G& g, int32_t const& x) -> int32_t& { return g.set_int(x); }, "get_int", [](G& g) -> int32_t& { return g.get_int(); }, [](G const& g) -> int32_t const& { return g.get_int(); });
  reg_scalar<int64_t>("set_long", [](G& g, int64_t const& x) -> int64_t& { return g.set_long(x); }, "get_long", [](G& g) -> int64_t& { return g.get_long(); }, [](G const& g) -> int64_t const& { return g.get_long(); });
  reg_scalar<double>("set_real", [](G& g, double const& x) -> double& { return g.set_real(x); }, "get_real", [](G& g) -> double& { return g.get_real(); }, [](G const& g) -> double const& { return g.get_real(); });
  reg_scalar<cplx>("set_complex", [](G& g, cplx const& x) -> cplx& { return g.set_complex(x); }, "get_complex", [](G& g) -> cplx& { return g.get_complex(); }, [](G const& g) -> cplx const& { return g.get_complex(); });
  Add("set_complex2", [](Val const&) { cplx x = Tr<cplx>::gen(); return mk("set_complex(" + encd(x.real()) + "," + encd(x.imag()) + ")", false, [=](G& g) { return E(cplx(LIB(g.set_complex(x.real(), x.imag())))); }, [=](Val& v) { v = Val::C(x); return E(x); }); });
  Add("set_string", [](Val const&) { string x = gen_string(Gen()); SV s(x); return mk("set_string(" + K(x) + ")", false, [=](G& g) { return E(string(LIB(g.set_string(s)))); }, [=](Val& v) { v = Val::S(x); return E(x); }); });
  Add("get_string", [](Val const&) { bool w = pick(2); string x = gen_string(Gen()); return mk(string("get_string()") + (w ? " = " + K(x) : ""), false, [=](G& g) { string& r = LIB(g.get_string()); string o = E(r); if (w) r = x; return o; },
    [=](Val& v) { if (v.t == NOTYPE) v = Val::S(""); if (v.t != STRING) throw Reject(); string o = E(v.s); if (w) v.s = x; return o; }); });
  Add("get_string", [](Val const&) { return mk("get_string() const", true, [](G& g) { G const& c = g; return E(LIB(c.get_string("w"))); }, [](Val& v) { if (v.t != STRING) throw Reject(); return E(v.s); }); });
  Add("set_pointer", [](Val const&) { void* x = Tr<void*>::gen(); return mk("set_pointer", false, [=](G& g) { return E((void*)LIB(g.set_pointer(x))); }, [=](Val& v) { v = sv(x); return E(x); }); });
  Add("get_pvoid", [](Val const&) { uint32_t f = pick(4); return mk("get pointer form " + to_string(f), true, [=](G& g) { G const& c = g; void* p = nullptr;
      switch (f) { case 0: p = LIB(c.get_pvoid("w")); break; case 1: { void** q = LIB(c.get_ppvoid("w")); p = *q; break; } case 2: p = LIB(c.get_pointer<void*>()); break; default: { void*& q = LIB(g.get_pointer<void*>()); p = q; } } return E(p); },
    [](Val& v) { if (v.t != POINTER) throw Reject(); return to_string(v.i); }); });
  // ---- set()/operator=/constructors with values
  Add("set()", [](Val const&) {
    uint32_t f = pick(12), form = pick(3); Val x; 
    switch (f) { case 0: x = sv(bool(pick(2))); break; case 1: x = Val::I(int32_t(uint32_t(wide()))); break; case 2: x = sv(int32_t(gen_int32())); break; case 3: x = Val::L(int64_t(wide())); break; case 4: x = sv(int64_t(gen_int64())); break;
      case 5: x = Val::R(double(float(pick(1000)) / 7)); break; case 6: x = sv(gen_real(true)); break; case 7: x = Val::C(cplx(double(float(pick(100)) / 3), 2)); break; case 8: x = sv(Tr<cplx>::gen()); break;
      case 9: x = Val::S(gen_string(Gen())); x.s = x.s.c_str(); break; case 10: x = Val::S(gen_string(Gen())); break; default: x = sv(Tr<void*>::gen()); }
    SV s(x.s);
    return mk(string(form == 0 ? "set(" : form == 1 ? "operator=(" : "assign from temporary constructed from (") + show(x) + ") overload " + to_string(f), false,
      [=](G& g) {
        auto go = [&](auto const& a) { Lib l; if (form == 0) g.set(a); else if (form == 1) g = a; else { GenericContainer t(a); g = t; } };
        switch (f) { case 0: go(bool(x.i)); break; case 1: go(uint32_t(x.i)); break; case 2: go(int32_t(x.i)); break; case 3: go(uint64_t(x.i)); break; case 4: go(int64_t(x.i)); break;
          case 5: go(float(x.r)); break; case 6: go(x.r); break; case 7: go(std::complex<float>(x.c)); break; case 8: go(x.c); break; case 9: go(x.s.c_str()); break;
          case 10: if (form == 1) { Lib l; g = x.s; } else go(string_view(s)); break; default: { void* p = (void*)intptr_t(x.i); Lib l; if (form == 0) g.set(p); else if (form == 1) g = p; else { GenericContainer t(p); g = t; } } }
        return string(); },
      [=](Val& v) { v = x; return string(); }); });
  Add("operator=(vec/mat)", [](Val const&) {
    uint32_t f = pick(10);
    auto V = [&](auto x, Val val) { return mk("operator=(" + show(val) + ")", false, [=](G& g) { { Lib l; g = x; } return string(); }, [=](Val& v) { v = val; return string(); }); };
    switch (f) {
    case 0: { auto x = gen_vec<bool>(); return V(x, vec_val<bool>(x)); }
    case 1: { auto x = gen_vec<int32_t>(); return V(x, vec_val<int32_t>(x)); }
    case 2: { auto x = gen_vec<int64_t>(); return V(x, vec_val<int64_t>(x)); }
    case 3: { auto x = gen_vec<double>(); return V(x, vec_val<double>(x)); }
    case 4: { auto x = gen_vec<cplx>(); return V(x, vec_val<cplx>(x)); }
    case 5: { auto x = gen_vec<string>(); return V(x, vec_val<string>(x)); }
    case 6: { auto x = gen_mat<int32_t>(); return V(x, mat_val<int32_t>(x)); }
    case 7: { auto x = gen_mat<int64_t>(); return V(x, mat_val<int64_t>(x)); }
    case 8: { auto x = gen_mat<double>(); return V(x, mat_val<double>(x)); }
    default: { auto x = gen_mat<cplx>(); return V(x, mat_val<cplx>(x)); }
    } });
  // ---- vectors
#define RV(T, N, P) reg_vec<T>("vec_" #N, [](G& g, unsigned n) -> vector<T>& { return g.set_vec_##N(n); }, [](G& g, vector<T> const& v) -> vector<T>& { return g.set_vec_##N(v); }, \
    [](G& g) -> vector<T>& { return g.get_vec_##N("w"); }, [](G const& g) -> vector<T> const& { return g.get_vec_##N("w"); }, P);
  RV(void*, pointer, false) RV(bool, bool, false) RV(int32_t, int, true) RV(int64_t, long, true) RV(double, real, true) RV(cplx, complex, true) RV(string, string, false)
#define RM(T, N, P) reg_mat<T>("mat_" #N, [](G& g, unsigned r, unsigned c) -> mat_type<T>& { return g.set_mat_##N(r, c); }, [](G& g, mat_type<T> const& m) -> mat_type<T>& { return g.set_mat_##N(m); }, \
    [](G& g) -> mat_type<T>& { return g.get_mat_##N("w"); }, [](G const& g) -> mat_type<T> const& { return g.get_mat_##N("w"); }, P);
  uint32_t V4 = M_(VEC_BOOL) | M_(VEC_INTEGER) | M_(VEC_LONG) | M_(VEC_REAL);
  RM(int32_t, int, V4) RM(int64_t, long, V4 | M_(MAT_INTEGER)) RM(double, real, V4 | M_(MAT_INTEGER) | M_(MAT_LONG)) RM(cplx, complex, V4 | M_(MAT_REAL) | M_(VEC_COMPLEX))
  Add("set_vector", [](Val const&) { unsigned sz = pick(3) ? pick(6) : 0; return mk("set_vector(" + to_string(sz) + ")", false, [=](G& g) { return to_string(LIB(g.set_vector(sz).size())); },
    [=](Val& v) { if (v.t != VECTOR) v = Val::of(VECTOR); if (sz) v.v.resize(sz); return to_string(v.v.size()); }); });
  Add("set_map", [](Val const&) { return mk("set_map()", false, [=](G& g) { return to_string(LIB(g.set_map().size())); }, [=](Val& v) { if (v.t != MAP) v = Val::of(MAP); return to_string(v.m.size()); }); });
  Add("get_vector", [](Val const&) { bool c = pick(2); return mk(c ? "get_vector() const" : "get_vector()", true, [=](G& g) { G const& k = g; return to_string(c ? LIB(k.get_vector("w").size()) : LIB(g.get_vector("w").size())); }, [](Val& v) { if (v.t != VECTOR) throw Reject(); return to_string(v.v.size()); }); });
  Add("get_map", [](Val const&) { bool c = pick(2); return mk(c ? "get_map() const" : "get_map()", true, [=](G& g) { G const& k = g; return to_string(c ? LIB(k.get_map("w").size()) : LIB(g.get_map("w").size())); }, [](Val& v) { if (v.t != MAP) throw Reject(); return to_string(v.m.size()); }); });
  // ---- push
#define PUSHM(X, ALLOWED, TARGET) [=](Val& v) { if ((ALLOWED) & M_(v.t)) append_elem(v, v.t == VECTOR ? X : X); else { must_promote(v, TARGET); append_elem(v, X); } return string(); }
  for (int rep = 0; rep < 2; ++rep) {
  Add("push_bool", [](Val const&) { bool x = pick(2); return mk("push_bool(" + E(x) + ")", false, [=](G& g) { Lib l; g.push_bool(x); return string(); },
    [=](Val& v) { if (v.t == VEC_BOOL || v.t == VEC_INTEGER || v.t == VEC_LONG || v.t == VEC_REAL || v.t == VEC_COMPLEX || v.t == VECTOR) append_elem(v, sv(x)); else throw Reject(); return string(); }); });
  Add("push_int", [](Val const&) { int32_t x = Tr<int32_t>::gen(); return mk("push_int(" + E(x) + ")", false, [=](G& g) { Lib l; g.push_int(x); return string(); }, PUSHM(sv(x), M_(VEC_INTEGER) | M_(VEC_LONG) | M_(VEC_REAL) | M_(VEC_COMPLEX) | M_(VECTOR), VEC_INTEGER)); });
  Add("push_long", [](Val const&) { int64_t x = Tr<int64_t>::gen(); return mk("push_long(" + E(x) + ")", false, [=](G& g) { Lib l; g.push_long(x); return string(); }, PUSHM(sv(x), M_(VEC_LONG) | M_(VEC_REAL) | M_(VEC_COMPLEX) | M_(VECTOR), VEC_LONG)); });
  Add("push_real", [](Val const&) { double x = Tr<double>::gen(); return mk("push_real(" + E(x) + ")", false, [=](G& g) { Lib l; g.push_real(x); return string(); }, PUSHM(sv(x), M_(VEC_REAL) | M_(VEC_COMPLEX) | M_(VECTOR), VEC_REAL)); });
  Add("push_complex", [](Val const&) { cplx x = Tr<cplx>::gen(); bool f = pick(2); return mk("push_complex(" + E(x) + ")", false, [=](G& g) { cplx y = x; Lib l; if (f) g.push_complex(y); else g.push_complex(x.real(), x.imag()); return string(); }, PUSHM(sv(x), M_(VECTOR), VEC_COMPLEX)); });
  // arguments that live inside the container itself
  Add("push_string of own text", [](Val const& t) {
    unsigned k = (t.t == VEC_STRING || t.t == VECTOR) && t.size() ? pick(t.size()) : 0;
    return mk("push_string(own text " + std::to_string(k) + ")", false, [=](G& g) {
      Lib l;
      if (g.get_type() == GC_type::STRING) g.push_string(g.get_string());
      else if (g.get_type() == GC_type::VEC_STRING && k < g.get_vec_string().size()) g.push_string(g.get_vec_string()[k]);
      else if (g.get_type() == GC_type::VECTOR && k < g.get_vector().size() && g.get_vector()[k].get_type() == GC_type::STRING) g.push_string(g.get_vector()[k].get_string());
      else g.push_string("");
      return string(); },
      [=](Val& v) { string x = v.t == STRING ? v.s : v.t == VEC_STRING && k < v.vs.size() ? v.vs[k] : v.t == VECTOR && k < v.v.size() && v.v[k].t == STRING ? v.v[k].s : string(); auto f = PUSHM(sv(x), M_(VEC_STRING) | M_(VECTOR), VECTOR); return f(v); }); });
  Add("push_complex of own value", [](Val const& t) {
    unsigned k = (t.t == VEC_COMPLEX || t.t == VECTOR) && t.size() ? pick(t.size()) : 0;
    return mk("push_complex(own value " + std::to_string(k) + ")", false, [=](G& g) {
      Lib l;
      if (g.get_type() == GC_type::COMPLEX) g.push_complex(g.get_complex());
      else if (g.get_type() == GC_type::VEC_COMPLEX && k < g.get_vec_complex().size()) g.push_complex(g.get_vec_complex()[k]);
      else if (g.get_type() == GC_type::VECTOR && k < g.get_vector().size() && g.get_vector()[k].get_type() == GC_type::COMPLEX) g.push_complex(g.get_vector()[k].get_complex());
      else g.push_complex(0, 0);
      return string(); },
      [=](Val& v) { cplx x = v.t == COMPLEX ? v.c : v.t == VEC_COMPLEX && k < v.vc.size() ? v.vc[k] : v.t == VECTOR && k < v.v.size() && v.v[k].t == COMPLEX ? v.v[k].c : cplx(0, 0); auto f = PUSHM(sv(x), M_(VECTOR), VEC_COMPLEX); return f(v); }); });
  Add("push_string", [](Val const&) { string x = gen_string(Gen()); SV s(x); return mk("push_string(" + K(x) + ")", false, [=](G& g) { Lib l; g.push_string(s); return string(); }, PUSHM(sv(x), M_(VEC_STRING) | M_(VECTOR), VECTOR)); });
  }
  // ---- promotions
  struct PT { char const* n; int t; GenericContainer const& (G::*f)(); };
  static const PT pts[] = {{"promote_to_int", INTEGER, &G::promote_to_int}, {"promote_to_long", LONG, &G::promote_to_long}, {"promote_to_real", REAL, &G::promote_to_real}, {"promote_to_complex", COMPLEX, &G::promote_to_complex},
    {"promote_to_vec_int", VEC_INTEGER, &G::promote_to_vec_int}, {"promote_to_vec_long", VEC_LONG, &G::promote_to_vec_long}, {"promote_to_vec_real", VEC_REAL, &G::promote_to_vec_real}, {"promote_to_vec_complex", VEC_COMPLEX, &G::promote_to_vec_complex},
    {"promote_to_mat_int", MAT_INTEGER, &G::promote_to_mat_int}, {"promote_to_mat_long", MAT_LONG, &G::promote_to_mat_long}, {"promote_to_mat_real", MAT_REAL, &G::promote_to_mat_real}, {"promote_to_mat_complex", MAT_COMPLEX, &G::promote_to_mat_complex},
    {"promote_to_vector", VECTOR, &G::promote_to_vector}};
  for (auto const& p : pts) Add(p.n, [p](Val const&) { return mk(string(p.n) + "()", false, [p](G& g) { GenericContainer const* r = LIB(&(g.*p.f)()); return string(r == &g ? "self" : "other"); }, [p](Val& v) { must_promote(v, p.t); return string("self"); }); });
  // ---- structure
  Add("clear", [](Val const&) { return mk("clear()", false, [](G& g) { Lib l; g.clear(); return string(); }, [](Val& v) { v = Val(); return string(); }); });
  for (int rep = 0; rep < 2; ++rep)
  Add("erase", [](Val const& t) { string k = some_key(t); SV s(k); return mk("erase(" + K(k) + ")", false, [=](G& g) { Lib l; g.erase(s); return string(); }, [=](Val& v) { if (v.t != MAP) throw Reject(); v.m.erase(k); return string(); }); });
  Add("free_pointer", [](Val const&) { return mk("free_pointer()", false, [](G& g) { Lib l; g.free_pointer(); return string(); }, [](Val& v) { if (v.t != POINTER && v.t != NOTYPE) throw Reject(); v = Val(); return string(); }); });
  for (int rep = 0; rep < 3; ++rep) {
  Add("operator[](i)", [](Val const& t) { unsigned i = idx_grow(t); bool f = pick(3) == 0; bool w = pick(2); int32_t x = Tr<int32_t>::gen();
    return mk(string(f ? "get_gc_at(" : "operator[](") + to_string(i) + ")" + (w ? " = int" : ""), false, [=](G& g) { G& e = f ? LIB(g.get_gc_at(i)) : LIB(g[i]); string o = enc(snapshot(e)); if (w) e.set_int(x); return o; },
      [=](Val& v) { if (v.t != VECTOR) v = Val::of(VECTOR); mgrow(v, i); string o = enc(v.v[i]); if (w) v.v[i] = Val::I(x); return o; }); });
  Add("operator[](key)", [](Val const& t) { string k = some_key(t); SV s(k); bool w = pick(2); double x = Tr<double>::gen();
    return mk("operator[](" + K(k) + ")" + (w ? " = real" : ""), false, [=](G& g) { G& e = LIB(g[string_view(s)]); string o = enc(snapshot(e)); if (w) e.set_real(x); return o; },
      [=](Val& v) { if (v.t != MAP) v = Val::of(MAP); Val& e = v.m[k]; string o = enc(e); if (w) e = Val::R(x); return o; }); });
  }
  Add("operator[](i) const", [](Val const& t) { unsigned i = idx_any(t); uint32_t f = pick(4); SV w("where");
    return mk("const index form " + to_string(f) + " (" + to_string(i) + ")", true, [=](G& g) { G const& c = g; G const* e;
      switch (f) { case 0: e = LIB(&c[i]); break; case 1: e = LIB(&c(i, w)); break; case 2: e = LIB(&c.get_gc_at(i, w)); break; default: e = LIB(&g(i, w)); } return enc(snapshot(*e)); },
      [=](Val& v) { if (v.t != VECTOR || i >= v.v.size()) throw Reject(); return enc(v.v[i]); }); });
  Add("operator[](key) const", [](Val const& t) { string k = some_key(t); uint32_t f = pick(3); SV s(k), w("where");
    return mk("const key form " + to_string(f) + " (" + K(k) + ")", true, [=](G& g) { G const& c = g; G const* e;
      switch (f) { case 0: e = LIB(&c[string_view(s)]); break; case 1: e = LIB(&c(string_view(s), w)); break; default: e = LIB(&g(string_view(s), w)); } return enc(snapshot(*e)); },
      [=](Val& v) { Val* e = find(v, k); if (!e) throw Reject(); return enc(*e); }); });
  Add("operator()(keys)", [](Val const& t) { auto ks = some_keys(t); bool c = pick(2); SV w("where");
    return mk("operator()(any of " + KS(ks) + ")", true, [=](G& g) { G const& k = g; G const* e = c ? LIB(&k(ks, w)) : LIB((G const*)&g(ks, w)); return enc(snapshot(*e)); },
      [=](Val& v) { for (auto& k : ks) if (Val* e = find(v, k)) return enc(*e); throw Reject(); }); });
  // ---- queries
  Add("queries", [](Val const& t) { string k = some_key(t); SV s(k); auto ks = some_keys(t);
    return mk("type/size/keys/exists(" + K(k) + ")", true, [=](G& g) { G const& c = g; string o = to_string(int(LIB(c.get_type()))) + " " + to_string(LIB(c.get_num_elements())) + " " + to_string(LIB(c.num_rows())) + " " + to_string(LIB(c.num_cols())) + to_string(LIB(c.get_numRows())) + " " + to_string(LIB(c.get_numCols()));
        o += E(LIB(c.exists(string_view(s)))); o += E(LIB(c.exists(ks))); vector<string> keys{"junk"}; { Lib l; c.get_keys(keys); } o += E(keys); o += E(LIB(c.get_keys())); return o; },
      [=](Val& v) { unsigned r = v.t == NOTYPE ? 0 : v.is_mat() ? v.nr : 1, n = v.size(), q = v.is_mat() ? v.nc : n; string o = to_string(v.t) + " " + to_string(n) + " " + to_string(r) + " " + to_string(q) + to_string(r) + " " + to_string(q);
        o += E(find(v, k) != nullptr); bool any = false; for (auto& x : ks) any |= find(v, x) != nullptr; o += E(any);
        vector<string> keys; string j; for (auto& e : v.m) { keys.push_back(e.first); if (keys.size() > 1) j += ", "; j += e.first; } o += E(keys); o += E(j); return o; }); });
  Add("must_exists", [](Val const& t) { auto ks = some_keys(t); SV w("w"); return mk("must_exists(" + KS(ks) + ")", true, [=](G& g) { G const& c = g; return E(LIB(c.must_exists(ks, w))); },
      [=](Val& v) { if (v.t == MAP) for (auto& k : ks) if (find(v, k)) return E(k); throw Reject(); }); });
  // ---- numeric conversions
  reg_ro<int32_t>("get_as_int", [](G const& g) { return g.get_as_int("w"); }, to_int<int32_t>);
  reg_ro<uint32_t>("get_as_uint", [](G const& g) { return g.get_as_uint("w"); }, to_int<uint32_t>);
  reg_ro<int64_t>("get_as_long", [](G const& g) { return g.get_as_long("w"); }, to_int<int64_t>);
  reg_ro<uint64_t>("get_as_ulong", [](G const& g) { return g.get_as_ulong("w"); }, to_int<uint64_t>);
  reg_ro<int32_t>("get_value<int>", [](G const& g) { int32_t x; g.get_value(x, "w"); return x; }, to_int<int32_t>);
  reg_ro<uint32_t>("get_value<uint>", [](G const& g) { uint32_t x; g.get_value(x, "w"); return x; }, to_int<uint32_t>);
  reg_ro<int64_t>("get_value<long>", [](G const& g) { int64_t x; g.get_value(x, "w"); return x; }, to_int<int64_t>);
  reg_ro<uint64_t>("get_value<ulong>", [](G const& g) { uint64_t x; g.get_value(x, "w"); return x; }, to_int<uint64_t>);
  reg_ro<float>("get_value<float>", [](G const& g) { float x; g.get_value(x, "w"); return x; }, [](Val const& v) { return v.t == INTEGER || v.t == LONG ? float(v.i) : float(m_value_real(v)); });
  reg_ro<double>("get_value<double>", [](G const& g) { double x; g.get_value(x, "w"); return x; }, m_value_real);
  reg_ro<double>("get_number", [](G const& g) { return g.get_number("w"); }, m_number);
  reg_ro<cplx>("get_complex_number", [](G const& g) { return g.get_complex_number("w"); }, m_cnumber);
  reg_ro<cplx>("get_complex_number(re,im)", [](G const& g) { double a, b; g.get_complex_number(a, b); return cplx(a, b); }, m_cnumber);
  Add("get_number_at", [](Val const& t) { unsigned i = idx_any(t); uint32_t f = pick(3); return mk("get_number_at form " + to_string(f) + " (" + to_string(i) + ")", true,
      [=](G& g) { G const& c = g; if (f == 0) return E(cplx(LIB(c.get_number_at(i, "w")), 0)); if (f == 1) return E(LIB(c.get_complex_number_at(i, "w"))); double a, b; { Lib l; c.get_complex_number_at(i, a, b, "w"); } return E(cplx(a, b)); },
      [=](Val& v) { if (i >= v.size() || v.t <= VEC_POINTER || v.t == VEC_STRING || v.t == MAP) throw Reject(); Val e = elem(v, i); if (f == 0) return E(cplx(m_number(e), 0)); return E(m_cnumber(e)); }); });
  reg_ptr<int32_t>("get_int_pointer", [](G const& g) { return g.get_int_pointer(); }, [](G& g) { return g.get_int_pointer(); });
  reg_ptr<int64_t>("get_long_pointer", [](G const& g) { return g.get_long_pointer(); }, [](G& g) { return g.get_long_pointer(); });
  reg_ptr<double>("get_real_pointer", [](G const& g) { return g.get_real_pointer(); }, [](G& g) { return g.get_real_pointer(); });
  reg_ptr<cplx>("get_complex_pointer", [](G const& g) { return g.get_complex_pointer(); }, [](G& g) { return g.get_complex_pointer(); });
  // ---- get_if_exists
  keyed_from = uint32_t(T_->size());
  reg_if<bool>("bool", [](Val const& v) { if (v.t != BOOL) throw Reject(); return bool(v.i); });
  reg_if<int32_t>("int", to_int<int32_t>);
  reg_if<uint32_t>("uint", to_int<uint32_t>);
  reg_if<int64_t>("long", to_int<int64_t>);
  reg_if<uint64_t>("ulong", to_int<uint64_t>);
  reg_if<double>("real", m_value_real);
  reg_if<cplx>("complex", m_cnumber);
  reg_if<string>("string", [](Val const& v) { if (v.t != STRING) throw Reject(); return v.s; });
  // ---- get_map_*
#define RMAP(R, N, CONV, STRICT, RO) reg_map<R>("get_map_" #N, [](G const& g, string_view k, string_view w) -> R { return g.get_map_##N(k, w); }, [](G const& g, vector<string> const& k, string_view w) -> R { return g.get_map_##N(k, w); }, \
    [](G const& g, vector<string> const& k) -> R { return call_list([&](std::initializer_list<string> a) -> R { return g.get_map_##N(a); }, k); }, CONV, STRICT, RO);
  auto strict = [](int t) { return [t](Val& v) -> string { if (v.t != t) throw Reject(); switch (t) { case BOOL: return E(bool(v.i)); case INTEGER: return E(int32_t(v.i)); case STRING: return E(v.s); case VEC_REAL: return EVA<double>(v); case VEC_COMPLEX: return EVA<cplx>(v); default: return EVA<string>(v); } }; };
  auto promo = [=](int t) { return [=](Val& v) -> string { if (v.t == NOTYPE) v = Val::of(t); else if (v.t >= VEC_BOOL && v.t < t) must_promote(v, t); return strict(t)(v); }; };
  RMAP(bool, bool, strict(BOOL), strict(BOOL), true)
  RMAP(int32_t, int, [](Val& v) { return E(to_int<int32_t>(v)); }, strict(INTEGER), true)
  RMAP(double, number, [](Val& v) { return E(m_number(v)); }, [](Val& v) { return E(m_number(v)); }, true)
  RMAP(string_view, string, strict(STRING), strict(STRING), true)
  RMAP(vector<double> const&, vec_real, promo(VEC_REAL), strict(VEC_REAL), false)
  RMAP(vector<cplx> const&, vec_complex, promo(VEC_COMPLEX), strict(VEC_COMPLEX), false)
  RMAP(vector<string> const&, vec_string, strict(VEC_STRING), strict(VEC_STRING), true)
  keyed_to = uint32_t(T_->size());
  // ---- element access
#define RWR(N) [](G& g, unsigned i, bool w, auto const& x) { auto& r = LIB(g.N(i)); string o = E(typename std::decay<decltype(x)>::type(r)); if (w) r = x; return o; }
  reg_at<bool>("get_bool_at", [](G& g, unsigned i, bool, bool const&) { return E(LIB(g.get_bool_at(i))); }, [](G const& g, unsigned i, string_view w) { return g.get_bool_at(i, w); }, 0, false);
  reg_at<int32_t>("get_int_at", RWR(get_int_at), [](G const& g, unsigned i, string_view w) { return g.get_int_at(i, w); }, M_(BOOL) | M_(INTEGER) | M_(VEC_BOOL), true);
  reg_at<int64_t>("get_long_at", RWR(get_long_at), [](G const& g, unsigned i, string_view w) { return g.get_long_at(i, w); }, M_(BOOL) | M_(INTEGER) | M_(LONG) | M_(VEC_BOOL) | M_(VEC_INTEGER), true);
  reg_at<double>("get_real_at", RWR(get_real_at), [](G const& g, unsigned i, string_view w) { return g.get_real_at(i, w); }, M_(VEC_BOOL) | M_(VEC_INTEGER) | M_(VEC_LONG), true);
  reg_at<cplx>("get_complex_at", RWR(get_complex_at), [](G const& g, unsigned i, string_view w) { return g.get_complex_at(i, w); }, M_(VEC_BOOL) | M_(VEC_INTEGER) | M_(VEC_LONG) | M_(VEC_REAL), true);
  reg_at<string>("get_string_at", RWR(get_string_at), [](G const& g, unsigned i, string_view w) { return string(g.get_string_at(i, w)); }, 0, true);
  reg_at2<int32_t>("get_int_at", [](G& g, unsigned i, unsigned j) -> int32_t& { return g.get_int_at(i, j); }, [](G const& g, unsigned i, unsigned j, string_view w) -> int32_t const& { return g.get_int_at(i, j, w); }, M_(VEC_BOOL) | M_(VEC_INTEGER));
  reg_at2<int64_t>("get_long_at", [](G& g, unsigned i, unsigned j) -> int64_t& { return g.get_long_at(i, j); }, [](G const& g, unsigned i, unsigned j, string_view w) -> int64_t const& { return g.get_long_at(i, j, w); }, M_(VEC_BOOL) | M_(VEC_INTEGER) | M_(VEC_LONG));
  reg_at2<double>("get_real_at", [](G& g, unsigned i, unsigned j) -> double& { return g.get_real_at(i, j); }, [](G const& g, unsigned i, unsigned j, string_view w) -> double const& { return g.get_real_at(i, j, w); }, V4);
  reg_at2<cplx>("get_complex_at", [](G& g, unsigned i, unsigned j) -> cplx& { return g.get_complex_at(i, j); }, [](G const& g, unsigned i, unsigned j, string_view w) -> cplx const& { return g.get_complex_at(i, j, w); }, V4 | M_(VEC_COMPLEX) | M_(MAT_REAL));
  Add("get_pointer_at const", [](Val const& t) { unsigned i = idx_any(t); return mk("get_pointer_at(" + to_string(i) + ") const", true, [=](G& g) { G const& c = g; return E(LIB(c.get_pointer_at<void*>(i))); },
      [=](Val& v) { if (v.t != VECTOR || i >= v.v.size() || v.v[i].t != POINTER) throw Reject(); return to_string(v.v[i].i); }); });
  // ---- copyto
  reg_copyto<vector<int32_t>, int32_t>("copyto_vec_int", [](G const& g, vector<int32_t>& o) { g.copyto_vec_int(o, "w"); }, m_copy_int<int32_t>, Tr<int32_t>::gen);
  reg_copyto<vector<uint32_t>, uint32_t>("copyto_vec_uint", [](G const& g, vector<uint32_t>& o) { g.copyto_vec_uint(o, "w"); }, m_copy_int<uint32_t>, [] { return uint32_t(7); });
  reg_copyto<vector<int64_t>, int64_t>("copyto_vec_long", [](G const& g, vector<int64_t>& o) { g.copyto_vec_long(o, "w"); }, m_copy_int<int64_t>, Tr<int64_t>::gen);
  reg_copyto<vector<uint64_t>, uint64_t>("copyto_vec_ulong", [](G const& g, vector<uint64_t>& o) { g.copyto_vec_ulong(o, "w"); }, m_copy_int<uint64_t>, [] { return uint64_t(7); });
  reg_copyto<vector<double>, double>("copyto_vec_real", [](G const& g, vector<double>& o) { g.copyto_vec_real(o, "w"); }, [](Val const& v) { return E(m_copy_r(v)); }, Tr<double>::gen);
  reg_copyto<vector<cplx>, cplx>("copyto_vec_complex", [](G const& g, vector<cplx>& o) { g.copyto_vec_complex(o, "w"); }, [](Val const& v) { return E(m_copy_c(v)); }, Tr<cplx>::gen);
  reg_copyto<vector<string>, string>("copyto_vec_string", [](G const& g, vector<string>& o) { g.copyto_vec_string(o, "w"); }, [](Val const& v) { vector<string> r;
      if (v.t == STRING) r.push_back(v.s); else if (v.t == VEC_STRING) r = v.vs; else if (v.t == VECTOR) { for (auto& e : v.v) { if (e.t != STRING) throw Reject(); r.push_back(e.s); } } else throw Reject(); return E(r); }, [] { return string("junk"); });
  reg_copyto<mat_int_type, int32_t>("copyto_mat_int", [](G const& g, mat_int_type& o) { g.copyto_mat_int(o, "w"); }, m_copy_mat<int32_t>, Tr<int32_t>::gen);
  reg_copyto<mat_long_type, int64_t>("copyto_mat_long", [](G const& g, mat_long_type& o) { g.copyto_mat_long(o, "w"); }, m_copy_mat<int64_t>, Tr<int64_t>::gen);
  reg_copyto<mat_real_type, double>("copyto_mat_real", [](G const& g, mat_real_type& o) { g.copyto_mat_real(o, "w"); }, m_copy_mat<double>, Tr<double>::gen);
  reg_copyto<mat_complex_type, cplx>("copyto_mat_complex", [](G const& g, mat_complex_type& o) { g.copyto_mat_complex(o, "w"); }, m_copy_mat<cplx>, Tr<cplx>::gen);
}
vector<OpGen> const& op_table() { if (!T_) reg_all(); return *T_; }
Op gen_op(Val const& t) { auto const& tab = op_table(); return tab[pick(uint32_t(tab.size()))].make(t); }
Op gen_key_op(Val const& t) {
  static vector<uint32_t> const keyed = [] { vector<uint32_t> r; auto const& tab = op_table(); for (uint32_t k = keyed_from; k < keyed_to; ++k) r.push_back(k); for (uint32_t k = 0; k < tab.size(); ++k) if (string(tab[k].name) == "must_exists") r.push_back(k); return r; }();
  return op_table()[keyed[pick(uint32_t(keyed.size()))]].make(t);
}
Val gen_keyed() {
  static char const* const key[] = {"a", "b", "key"}; Gen g; g.width = 3;
  Val m = Val::of(MAP); for (unsigned n = 1 + pick(2); n-- > 0;) { Val e = gen_typed(int(pick(21)), g); if (pick(3) == 0) { Val d = Val::of(MAP); d.m[key[pick(3)]] = e; e = d; } m.m[key[pick(3)]] = e; }
  return m;
}

Val gen_typed(int t, Gen const& g) {
  Val v = Val::of(t); unsigned n = pick(g.width + 2);
  Tame tame(pick(2));
  switch (t) {
  case NOTYPE: break;
  case POINTER: v.i = int64_t(pick(1000)) * 8; break;
  case BOOL: v.i = pick(2); break;
  case INTEGER: v.i = gen_int32(); break;
  case LONG: v.i = gen_int64(); break;
  case REAL: v.r = gen_real(g.nonfinite); break;
  case COMPLEX: { if (chance(1, 5)) { v.c = cplx(double(gen_int64()), 0); break; } double a = gen_real(g.nonfinite); v.c = cplx(a, gen_imag(g.nonfinite)); break; }
  case STRING: v.s = gen_string(g); break;
  case VEC_POINTER: case VEC_BOOL: case VEC_INTEGER: case VEC_LONG: case VEC_REAL: case VEC_COMPLEX: case VEC_STRING: fill_elems(v, gen_size(g.width + 1), g); break;
  case MAT_INTEGER: case MAT_LONG: case MAT_REAL: case MAT_COMPLEX:
    v.nr = gen_size(3); v.nc = v.nr > 40 ? pick(4) : gen_size(3); if (v.nr * v.nc > 1500) v.nc = 1;
    fill_elems(v, v.nr * v.nc, g); break;
  case VECTOR: { uint32_t k = pick(4); while (n--) v.v.push_back(k == 0 ? gen_typed(BOOL + int(pick(5)), g) : k == 1 ? gen_typed(VEC_BOOL + int(pick(5)), g) : k == 2 ? gen_typed(INTEGER, g) : gen_val(g, 1)); break; }
  case MAP: while (n--) { string k = gen_key(g); v.m[k] = pick(3) ? gen_scalar(g) : gen_typed(VEC_BOOL + int(pick(6)), g); } break;
  }
  return v;
}
Val gen_any(Gen const& g) { uint32_t k = pick(24); if (k < 21) return gen_typed(int(k), g); return gen_val(g, 2); }

string Path::str() const { string o = "root"; for (auto& s : steps) if (s.first >= 0) o += "[" + to_string(s.first) + "]"; else o += "['" + s.second + "']"; return o; }
Path random_path(Val const& root, int maxd) {
  Path p; Val const* v = &root;
  for (int d = 0; d < maxd; ++d) {
    if (v->t == VECTOR && !v->v.empty() && pick(3)) { int k = int(pick(uint32_t(v->v.size()))); p.steps.emplace_back(k, ""); v = &v->v[size_t(k)]; }
    else if (v->t == MAP && !v->m.empty() && pick(3)) { auto it = v->m.begin(); std::advance(it, long(pick(uint32_t(v->m.size())))); p.steps.emplace_back(-1, it->first); v = &it->second; }
    else break;
  }
  return p;
}
Val& at(Val& root, Path const& p) { Val* v = &root; for (auto& s : p.steps) v = s.first >= 0 ? &v->v[size_t(s.first)] : &v->m[s.second]; return *v; }
G& at(G& root, Path const& p) { Out o; G* g = &root; for (auto& s : p.steps) g = s.first >= 0 ? &g->get_vector()[size_t(s.first)] : &g->get_map().find(s.second)->second; return *g; }
}
