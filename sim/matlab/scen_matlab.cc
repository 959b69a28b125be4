// C17: data across the MATLAB boundary. The interface code is real; MATLAB itself is simulated (mexstub.cc): its arrays live in
// exactly sized blocks, its memory can run out at any request, and it ends a MEX function the way MATLAB does.
#include "../ops.hh"
#include "../docs.hh"
#include "../scen.hh"
#include "mexstub.hh"
#include "GenericContainer/GenericContainerInterface_matlab.hh"
extern "C" void mexFunction_test_gc(int, mxArray**, int, mxArray const**);
extern "C" void mexFunction_print_recursive(int, mxArray**, int, mxArray const**);
namespace sim {
namespace {
using namespace GC_namespace;
int64_t iat(mxArray const* a, size_t k, char const* re) {
  switch (a->cls) {
  case mxINT8_CLASS: return reinterpret_cast<int8_t const*>(re)[k]; case mxUINT8_CLASS: return reinterpret_cast<uint8_t const*>(re)[k];
  case mxINT16_CLASS: return reinterpret_cast<int16_t const*>(re)[k]; case mxUINT16_CLASS: return reinterpret_cast<uint16_t const*>(re)[k];
  case mxINT32_CLASS: return reinterpret_cast<int32_t const*>(re)[k]; case mxUINT32_CLASS: return reinterpret_cast<uint32_t const*>(re)[k];
  case mxINT64_CLASS: case mxUINT64_CLASS: return reinterpret_cast<int64_t const*>(re)[k];
  default: return reinterpret_cast<uint8_t const*>(re)[k]; }
}
double rat(mxArray const* a, size_t k, char const* re) {
  if (a->cls == mxDOUBLE_CLASS) return reinterpret_cast<double const*>(re)[k];
  if (a->cls == mxSINGLE_CLASS) return reinterpret_cast<float const*>(re)[k];
  return double(iat(a, k, re));
}
bool is_int(mxClassID c) { return c >= mxINT8_CLASS && c <= mxUINT64_CLASS; }
string text_of(mxArray const* a) { return mexsim::u8(std::u16string(reinterpret_cast<char16_t const*>(a->re), a->numel())); }

// the document a MATLAB value denotes; `lost` counts values that have no counterpart
Val want(mxArray const* a, unsigned& lost) {
  if (!a) return Val();
  size_t n = a->numel(); Val v;
  if (a->cls == mxCELL_CLASS) { v.t = VECTOR; for (size_t k = 0; k < n; ++k) v.v.push_back(want(a->cell[k], lost)); return v; }
  if (a->cls == mxSTRUCT_CLASS) {
    v.t = MAP; size_t nf = a->fields.size();
    for (size_t f = 0; f < nf; ++f) {
      if (n == 1) { v.m[a->fields[f]] = want(a->cell[f], lost); continue; }
      Val w = Val::of(VECTOR); for (size_t k = 0; k < n; ++k) w.v.push_back(want(a->cell[k * nf + f], lost)); v.m[a->fields[f]] = w;
    }
    return v;
  }
  if (a->cls == mxCHAR_CLASS) return Val::S(text_of(a));
  if (a->class_name == "string") return Val::S(mexsim::u8(a->str));
  if (a->sparse) {
    v.t = MAP; size_t nc = a->dims[1], nz = a->jc[nc]; Val jc = Val::of(VEC_LONG), ir = Val::of(VEC_LONG), x = Val::of(a->cplx ? VEC_COMPLEX : VEC_REAL);
    for (size_t k = 0; k <= nc; ++k) jc.vi.push_back(int64_t(a->jc[k]));
    for (size_t k = 0; k < nz; ++k) { ir.vi.push_back(int64_t(a->ir[k])); if (a->cplx) x.vc.push_back(cplx(rat(a, k, a->re), rat(a, k, a->im))); else x.vr.push_back(rat(a, k, a->re)); }
    v.m["jc"] = jc; v.m["ir"] = ir; v.m["values"] = x; return v;
  }
  if (a->cls == mxLOGICAL_CLASS) { if (n == 1) return Val::B(a->re[0] != 0); v.t = VECTOR; for (size_t k = 0; k < n; ++k) v.v.push_back(Val::B(a->re[k] != 0)); return v; }
  if (!is_int(a->cls) && a->cls != mxDOUBLE_CLASS && a->cls != mxSINGLE_CLASS) { ++lost; return v; }
  int kind = a->cplx ? 2 : is_int(a->cls) ? 0 : 1;
  if (n == 1) return kind == 0 ? Val::L(iat(a, 0, a->re)) : kind == 1 ? Val::R(rat(a, 0, a->re)) : Val::C(cplx(rat(a, 0, a->re), rat(a, 0, a->im)));
  if (a->dims.size() != 2) { ++lost; return v; }
  bool row = a->dims[0] == 1; static const int vt[] = {VEC_LONG, VEC_REAL, VEC_COMPLEX}, mt[] = {MAT_LONG, MAT_REAL, MAT_COMPLEX};
  v.t = row ? vt[kind] : mt[kind]; if (!row) { v.nr = unsigned(a->dims[0]); v.nc = unsigned(a->dims[1]); }
  for (size_t k = 0; k < n; ++k) if (kind == 0) v.vi.push_back(iat(a, k, a->re)); else if (kind == 1) v.vr.push_back(rat(a, k, a->re)); else v.vc.push_back(cplx(rat(a, k, a->re), rat(a, k, a->im)));
  return v;
}
// int and long are one thing, uniform vectors of booleans and strings may be typed or not
Val can(Val v) {
  if (v.t == INTEGER) v.t = LONG; else if (v.t == VEC_INTEGER) v.t = VEC_LONG; else if (v.t == MAT_INTEGER) v.t = MAT_LONG;
  else if (v.t == VEC_BOOL || v.t == VEC_STRING) { Val r = Val::of(VECTOR); for (unsigned k = 0; k < v.size(); ++k) r.v.push_back(elem(v, k)); return r; }
  for (auto& e : v.v) e = can(e);
  for (auto& e : v.m) e.second = can(e.second);
  return v;
}
string eqd(double a, double b) { return encd(a) == encd(b) ? "" : "value " + std::to_string(a) + " became " + std::to_string(b); }
// does the MATLAB value hold what the container holds? (column: a vector may be a column)
string check_mx(Val const& v, mxArray const* a, string const& at, bool column = false) {
  if (!a) return at + ": no array";
  if (!mexsim::known(a)) return at + ": not a live array";
  size_t n = a->numel(); auto cls = [&](bool ok) { return ok ? string() : at + ": a " + tname[v.t] + " became class " + std::to_string(int(a->cls)); };
  auto shape = [&](size_t r, size_t c) { return a->dims.size() == 2 && ((a->dims[0] == r && a->dims[1] == c) || (column && a->dims[0] == c && a->dims[1] == r)) ? string() : at + ": shape " + std::to_string(r) + "x" + std::to_string(c) + " became " + std::to_string(a->dims[0]) + "x" + std::to_string(a->dims[1]); };
  string e;
  auto ints = [&](vector<int64_t> const& x) { if (!(e = cls(is_int(a->cls) && !a->cplx)).empty()) return e; for (size_t k = 0; k < n; ++k) if (iat(a, k, a->re) != x[k]) return at + "[" + std::to_string(k) + "]: " + std::to_string(x[k]) + " became " + std::to_string(iat(a, k, a->re)); return string(); };
  auto reals = [&](vector<double> const& x) { if (!(e = cls(a->cls == mxDOUBLE_CLASS && !a->cplx)).empty()) return e; for (size_t k = 0; k < n; ++k) if (!(e = eqd(x[k], rat(a, k, a->re))).empty()) return at + "[" + std::to_string(k) + "]: " + e; return string(); };
  auto cplxs = [&](vector<cplx> const& x) { if (!(e = cls(a->cls == mxDOUBLE_CLASS && a->cplx)).empty()) return e; for (size_t k = 0; k < n; ++k) if (!(e = eqd(x[k].real(), rat(a, k, a->re)) + eqd(x[k].imag(), rat(a, k, a->im))).empty()) return at + "[" + std::to_string(k) + "]: " + e; return string(); };
  auto str = [&](string const& s, mxArray const* c, string const& w) { return c && mexsim::known(c) && c->cls == mxCHAR_CLASS && text_of(c) == s && (s.empty() || (c->dims.size() == 2 && c->dims[0] == 1)) ? string() : w + ": the text differs"; };
  if (a->sparse) return at + ": became sparse";
  switch (v.t) {
  case NOTYPE: case POINTER: case VEC_POINTER: return n == 0 ? string() : at + ": an empty value became a non empty array";
  case BOOL: if (!(e = cls(a->cls == mxLOGICAL_CLASS) + shape(1, 1)).empty()) return e; return (a->re[0] != 0) == (v.i != 0) && (a->re[0] == 0 || a->re[0] == 1) ? string() : at + ": the boolean differs";
  case INTEGER: case LONG: if (!(e = shape(1, 1)).empty()) return e; return ints({v.i});
  case REAL: if (!(e = shape(1, 1)).empty()) return e; return reals({v.r});
  case COMPLEX: if (!(e = shape(1, 1)).empty()) return e; return cplxs({v.c});
  case STRING: return str(v.s, a, at);
  case VEC_BOOL: if (!(e = cls(a->cls == mxLOGICAL_CLASS) + shape(1, v.vi.size())).empty()) return e; for (size_t k = 0; k < n; ++k) if ((a->re[k] != 0) != (v.vi[k] != 0) || (unsigned char)a->re[k] > 1) return at + ": a boolean differs"; return "";
  case VEC_INTEGER: case VEC_LONG: if (!(e = shape(1, v.vi.size())).empty()) return e; return ints(v.vi);
  case VEC_REAL: if (!(e = shape(1, v.vr.size())).empty()) return e; return reals(v.vr);
  case VEC_COMPLEX: if (!(e = shape(1, v.vc.size())).empty()) return e; return cplxs(v.vc);
  case VEC_STRING: if (!(e = cls(a->cls == mxCELL_CLASS) + shape(1, v.vs.size())).empty()) return e; for (size_t k = 0; k < n; ++k) if (!(e = str(v.vs[k], a->cell[k], at + "{" + std::to_string(k) + "}")).empty()) return e; return "";
  case MAT_INTEGER: case MAT_LONG: column = false; if (!(e = shape(v.nr, v.nc)).empty()) return e; return ints(v.vi);
  case MAT_REAL: column = false; if (!(e = shape(v.nr, v.nc)).empty()) return e; return reals(v.vr);
  case MAT_COMPLEX: column = false; if (!(e = shape(v.nr, v.nc)).empty()) return e; return cplxs(v.vc);
  case VECTOR: if (!(e = cls(a->cls == mxCELL_CLASS) + shape(1, v.v.size())).empty()) return e; for (size_t k = 0; k < n; ++k) if (!(e = check_mx(v.v[k], a->cell[k], at + "{" + std::to_string(k) + "}")).empty()) return e; return "";
  case MAP: {
    if (!(e = cls(a->cls == mxSTRUCT_CLASS) + shape(1, 1)).empty()) return e;
    if (a->fields.size() != v.m.size()) return at + ": " + std::to_string(v.m.size()) + " keys became " + std::to_string(a->fields.size()) + " fields";
    for (size_t k = 0; k < a->fields.size(); ++k) { auto it = v.m.find(a->fields[k]); if (it == v.m.end()) return at + ": unexpected field " + a->fields[k]; if (!(e = check_mx(it->second, a->cell[k], at + "." + it->first)).empty()) return e; }
    return ""; }
  }
  return "";
}
string ident() { static char const* const n[] = {"a", "b", "field", "value", "x1", "A", "a_b", "data", "jc", "ir", "values"}; if (pick(3)) return n[pick(11)]; string s(1, char('a' + pick(26))); for (unsigned k = pick(4) ? pick(6) : pick(62); k-- > 0;) s += "abcXYZ019_"[pick(10)]; return s; }
string mtext() { Gen g; g.utf8_only = true; g.nuls = false; string s = gen_string(g); string o; for (char c : s) if (c) o += c; return o; }
void idents(Val& v) {                       // text and keys as MATLAB has them
  if (v.t == STRING) v.s = mtext(); for (auto& s : v.vs) s = mtext();
  for (auto& e : v.v) idents(e);
  if (v.t == MAP) { map<string, Val> m; for (auto& e : v.m) { idents(e.second); m[ident()] = e.second; } v.m = m; }
}
Val gen_ml(int depth) { Gen g; g.depth = depth; g.width = 5; Val v = pick(3) ? gen_any(g) : gen_val(g, depth); idents(v); return v; }

int64_t clampi(int64_t x, mxClassID c) {
  switch (c) { case mxINT8_CLASS: return int8_t(x); case mxUINT8_CLASS: return uint8_t(x); case mxINT16_CLASS: return int16_t(x); case mxUINT16_CLASS: return uint16_t(x); case mxINT32_CLASS: return int32_t(x);
    case mxUINT32_CLASS: return uint32_t(x); case mxUINT64_CLASS: return x & INT64_MAX; default: return x; }
}
void put(mxArray* a, char* p, size_t k) {
  int64_t i; if (k >= 64) { // beyond the first ones: cheap and different from their neighbours
    i = int64_t(k * k * 31 % 1999) - 500; double d = double(i) / 4; float f = float(d); i = clampi(i, a->cls);
    if (a->cls == mxDOUBLE_CLASS) memcpy(p + 8 * k, &d, 8); else if (a->cls == mxSINGLE_CLASS) memcpy(p + 4 * k, &f, 4); else if (a->cls == mxLOGICAL_CLASS) p[k] = char(i & 1);
    else { if (i < 0 && a->cls == mxUINT64_CLASS) i = -i; memcpy(p + mexsim::esize(a->cls) * k, &i, mexsim::esize(a->cls)); }
    return;
  }
  switch (a->cls) {
  case mxDOUBLE_CLASS: { double d = gen_real(true); memcpy(p + 8 * k, &d, 8); return; }
  case mxSINGLE_CLASS: { float d = float(gen_real(true)); memcpy(p + 4 * k, &d, 4); return; }
  case mxLOGICAL_CLASS: p[k] = char(pick(2)); return;
  default: i = clampi(pick(3) ? gen_int64() : gen_int32(), a->cls); if (pick(6) == 0) i = clampi(-1, a->cls); if (pick(8) == 0) i = clampi(INT64_MIN >> pick(64), a->cls); memcpy(p + mexsim::esize(a->cls) * k, &i, mexsim::esize(a->cls)); }
}
vector<size_t> gen_dims() {
  size_t n = gen_size(5), m = pick(5);
  switch (pick(10)) { case 0: case 1: return {1, 1}; case 2: case 3: return {1, n}; case 4: return {n, 1}; case 5: case 6: return {m, n}; case 7: return {0, 0}; case 8: return {m, pick(2) ? 0u : 3u}; default: if (pick(3)) return {2, 3}; return {m, n, 1 + pick(3)}; }
}
static unsigned mx_left_ = 0;                              // arrays one value may still nest
mxArray* gen_mx(int depth) {
  if (mx_left_) --mx_left_; else depth = 0;
  uint32_t k = pick(depth > 0 ? 16 : 12);
  if (k < 7) {
    static const mxClassID c[] = {mxDOUBLE_CLASS, mxINT64_CLASS, mxINT32_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxUINT32_CLASS, mxUINT64_CLASS};
    auto d = gen_dims(); mxArray* a = mxCreateNumericArray(d.size(), d.data(), c[pick(10)], pick(4) ? mxREAL : mxCOMPLEX);
    for (size_t q = 0, n = a->numel(); q < n; ++q) { put(a, a->re, q); if (a->im) put(a, a->im, q); } return a;
  }
  if (k == 7) { auto d = gen_dims(); mxArray* a = mxCreateLogicalArray(d.size(), d.data()); for (size_t q = 0; q < a->numel(); ++q) put(a, a->re, q); return a; }
  if (k == 8) return mxCreateString(mtext().c_str());
  if (k == 9) return mexsim::string_object(mtext());
  if (k == 10) {
    size_t m = pick(6), n = gen_size(6), nz = 0; vector<size_t> ir, jc(1, 0);
    for (size_t c = 0; c < n; ++c) { for (size_t r = 0; r < m; ++r) if ((c > 400 ? (c * 7 + r) % 3 : pick(3)) == 0) { ir.push_back(r); ++nz; } jc.push_back(nz); }
    bool lg = pick(4) == 0; size_t room = nz + (pick(2) ? pick(4) : 0); mxArray* a = lg ? mxCreateSparseLogicalMatrix(m, n, room) : mxCreateSparse(m, n, room, pick(3) ? mxREAL : mxCOMPLEX);
    for (size_t q = 0; q < nz; ++q) { a->ir[q] = ir[q]; put(a, a->re, q); if (lg) a->re[q] = 1; if (a->im) put(a, a->im, q); } for (size_t q = 0; q <= n; ++q) a->jc[q] = jc[q];
    return a;
  }
  if (k == 11) return pick(4) ? mxCreateDoubleScalar(gen_real(true)) : mexsim::handle();
  if (k < 14) { auto d = gen_dims(); size_t t = 1; for (size_t x : d) t *= x; if (t > 40) d = {1, 3}; mxArray* a = mxCreateCellArray(d.size(), d.data()); for (size_t q = 0; q < a->ncell; ++q) if (pick(8)) a->cell[q] = gen_mx(depth - 1); return a; }
  vector<string> f; for (unsigned q = pick(5); q-- > 0;) { string s = ident(); bool dup = false; for (auto& x : f) dup |= x == s; if (!dup) f.push_back(s); }
  vector<char const*> p; for (auto& s : f) p.push_back(s.c_str()); size_t m = 1, n = 1; if (pick(3) == 0) { m = pick(3); n = pick(4); }
  mxArray* a = mxCreateStructMatrix(m, n, int(f.size()), p.data()); for (size_t q = 0; q < a->ncell; ++q) if (pick(8)) a->cell[q] = gen_mx(depth - 1); return a;
}
string show_mx(mxArray const* a, int d = 3) {
  if (!a) return "null"; static char const* const n[] = {"?", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "function"};
  string s = a->class_name.empty() ? n[a->cls] : a->class_name; if (a->cplx) s += " complex"; if (a->sparse) s += " sparse"; s += " "; for (size_t k = 0; k < a->dims.size(); ++k) s += (k ? "x" : "") + std::to_string(a->dims[k]);
  if (a->cell && d > 0) { s += "{"; for (size_t k = 0; k < a->ncell && k < 6; ++k) s += (k ? ", " : "") + (a->fields.empty() ? "" : a->fields[k % a->fields.size()] + "=") + show_mx(a->cell[k], d - 1); s += "}"; }
  return s;
}
} // namespace

void scen_c17() {
  allow_huge(400); quiet_streams(); mexsim::reset(); set_step_limit(400000000);
  GC* g = LIB(new GC); unsigned steps = 1 + pick(30);
  for (unsigned st = 0; st < steps; ++st) {
    if (!more(64)) break;
    op();
    AllocPlan plan; int hm = 0; uint32_t hn = 0;
    if (chance(1, 4)) { if (pick(2)) { hm = 1 + int(pick(2)); hn = 1 + pick(pick(2) ? 2 : 12); } else { plan.mode = 1 + int(pick(2)); plan.n = 1 + pick(pick(2) ? 3 : 14); } }
    bool err = false; string msg, desc; uint64_t f = 0, hf = 0;
    auto run = [&](std::function<void()> fn) {
      err = false; mexsim::console.clear(); if (hm) mexsim::arm(hm, hn); if (plan.mode) arm(plan);
      try { fn(); } catch (std::bad_alloc const&) { err = true; msg = "out of memory"; } catch (std::exception const& e) { Out o; err = true; msg = e.what(); } catch (mexsim::Terminate const&) { err = true; msg = "MATLAB ended the function"; }
      f = plan.mode ? fired() : 0; disarm(); hf = hm ? mexsim::disarm() : 0;
      logf("%s%s%s -> %s", desc.c_str(), hm ? " [MATLAB memory fails]" : "", plan.mode ? " [memory request fails]" : "", err ? ("error: " + msg.substr(0, 120)).c_str() : "ok"); mix(err ? 3 : 7);
      if (err && !f && !hf) violation("mx-error", desc + " failed: " + msg);
      if (!err && hf) violation("mx-silent", desc + ": MATLAB could not provide memory but no failure was reported");
    };
    auto state_of = [&](char const* k, int t) { state(hash_str(string("mx|") + k + "|" + std::to_string(t) + (err ? "E" : "O") + (hm ? "h" : "") + (plan.mode ? "a" : ""))); };
    auto read = [&](mxArray const* a) {
      unsigned lost = 0; Val w = can(want(a, lost)); desc = "container := MATLAB " + show_mx(a);
      if (pick(3) == 0) { Gen gg; Val v = gen_any(gg); GC t; build(t, v); g->from_gc(t); desc += " over " + string(tname[v.t]); }
      bool direct = a->sparse && pick(3) == 0; if (direct) { g->clear(); desc += " (mxSparse_to_GenericContainer)"; }
      run([&] { Lib l; if (direct) GC_namespace::mxSparse_to_GenericContainer(a, *g); else GC_namespace::mxArray_to_GenericContainer(a, *g); });
      Val got = snapshot(*g); state_of("read", int(a->cls) * 2 + a->cplx);
      if (err) return;
      if (!same(w, can(got))) violation("mx-document", desc + ": " + diff_vals(w, can(got)));
      if (lost && mexsim::console.empty()) violation("mx-silent", desc + ": a value that has no counterpart was dropped without a report");
    };
    uint32_t what = pick(10); Val v;
    if (what < 4) {                                    // container -> MATLAB (-> container)
      v = gen_ml(int(pick(4))); GC* t = new GC; build(*t, v); mxArray* a = nullptr; desc = "MATLAB := container " + show(v, 2);
      run([&] { Lib l; GC_namespace::GenericContainer_to_mxArray(*t, a); }); state_of("give", v.t);
      if (!same(snapshot(*t), v)) violation("mx-source", desc + " changed the container");
      bool gone = pick(2); if (gone) delete t;
      if (!err) { string e = check_mx(v, a, "it"); if (!e.empty()) violation("mx-value", desc + ": " + e); if (pick(2)) { hm = 0; plan.mode = 0; read(a); } }
      if (!gone) delete t;
    } else if (what < 5) {                             // one value
      v = gen_ml(0); mxArray* a = nullptr; desc = "to_mxArray " + show(v, 2); GC t; build(t, v); bool did = true; ExactView ev(v.s);
      run([&] { Lib l; switch (v.t) {
        case BOOL: GC_namespace::to_mxArray(t.get_bool(), a); break; case INTEGER: GC_namespace::to_mxArray(t.get_int(), a); break; case LONG: GC_namespace::to_mxArray(t.get_long(), a); break;
        case REAL: GC_namespace::to_mxArray(t.get_real(), a); break; case COMPLEX: GC_namespace::to_mxArray(t.get_complex(), a); break; case STRING: GC_namespace::to_mxArray(ev.sv(), a); break;
        case VEC_BOOL: GC_namespace::to_mxArray(t.get_vec_bool(), a); break; case VEC_INTEGER: GC_namespace::to_mxArray(t.get_vec_int(), a); break; case VEC_LONG: GC_namespace::to_mxArray(t.get_vec_long(), a); break;
        case VEC_REAL: GC_namespace::to_mxArray(t.get_vec_real(), a); break; case VEC_COMPLEX: GC_namespace::to_mxArray(t.get_vec_complex(), a); break; case VEC_STRING: GC_namespace::to_mxArray(t.get_vec_string(), a); break;
        case MAT_INTEGER: GC_namespace::to_mxArray(t.get_mat_int(), a); break; case MAT_LONG: GC_namespace::to_mxArray(t.get_mat_long(), a); break; case MAT_REAL: GC_namespace::to_mxArray(t.get_mat_real(), a); break;
        case MAT_COMPLEX: GC_namespace::to_mxArray(t.get_mat_complex(), a); break; default: did = false; } });
      state_of("one", v.t); if (!err && did) { string e = check_mx(v, a, "it", true); if (!e.empty()) violation("mx-value", desc + ": " + e); }
    } else if (what < 9) {                             // MATLAB -> container (-> MATLAB)
      mxArray* a = (mx_left_ = 400, gen_mx(int(pick(4)))); read(a);
      if (!err && pick(3) == 0) { hm = 0; plan.mode = 0; Val m = snapshot(*g); mxArray* b = nullptr; desc = "MATLAB := what was read"; run([&] { Lib l; GC_namespace::GenericContainer_to_mxArray(*g, b); }); string e = check_mx(m, b, "it"); if (!e.empty()) violation("mx-value", desc + ": " + e); }
    } else if (pick(2)) {                              // the MEX functions the repository ships
      mxArray* a = (mx_left_ = 400, gen_mx(int(pick(4)))); unsigned lost = 0; Val w = can(want(a, lost)); bool pr = pick(2); mxArray* b = nullptr; mxArray const* in = a; desc = string("mex ") + (pr ? "print_recursive " : "test_gc ") + show_mx(a);
      try { err = false; mexsim::console.clear(); if (hm) mexsim::arm(hm, hn); if (plan.mode) arm(plan); Lib l; if (pr) mexFunction_print_recursive(0, &b, 1, &in); else mexFunction_test_gc(1, &b, 1, &in); } catch (mexsim::Terminate const&) { err = true; } catch (...) { disarm(); mexsim::disarm(); violation("mx-exception", desc + ": a C++ exception reached MATLAB"); }
      f = plan.mode ? fired() : 0; disarm(); hf = hm ? mexsim::disarm() : 0; logf("%s -> %s", desc.c_str(), err ? "terminated" : "ok"); state_of(pr ? "mexp" : "mext", int(a->cls));
      if (err && !hf) violation("mx-error", desc + " was terminated");
      if (!f && !hf && !err) {
        GC t; build(t, w); GC u; if (pr) { std::ostringstream os; try { Lib l; GC_namespace::mxArray_to_GenericContainer(a, u); } catch (...) { violation("mx-error", desc + ": conversion failed"); } mexsim::console.clear(); u.print(os); Lib l; mexFunction_print_recursive(0, &b, 1, &in); Out o; if (!lost && mexsim::console != os.str() + "\n") violation("mx-print", desc + ": the console shows something else than the listing"); }
        else { string e = check_mx(w, b, "it"); if (!e.empty()) violation("mx-value", desc + ": " + e); }
      } else if ((f || hf) && !err && mexsim::console.empty()) { if (!pr && hf) violation("mx-silent", desc + ": MATLAB could not provide memory but nothing was reported"); }
    } else {                                           // on the MATLAB console
      v = gen_ml(2); GC t; build(t, v); hm = 0; desc = "mexPrint " + show(v, 2); std::ostringstream os; t.print(os);
      run([&] { Lib l; GC_namespace::mexPrint(t); }); state_of("print", v.t);
      if (!err && !f && mexsim::console != os.str() + "\n") violation("mx-print", desc + ": the console shows something else than the listing");
      if (!same(snapshot(t), v)) violation("mx-source", desc + " changed the container");
    }
    if (chance(1, 4)) mexsim::reset();                 // the MEX function returned
  }
  { Lib l; delete g; }
  mexsim::reset();
}
}
