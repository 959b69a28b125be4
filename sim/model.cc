#include "model.hh"
#include <cinttypes>
namespace sim {
char const* tname[21] = {"NOTYPE","POINTER","BOOL","INTEGER","LONG","REAL","COMPLEX","STRING","VEC_POINTER","VEC_BOOL","VEC_INTEGER","VEC_LONG",
 "VEC_REAL","VEC_COMPLEX","VEC_STRING","MAT_INTEGER","MAT_LONG","MAT_REAL","MAT_COMPLEX","VECTOR","MAP"};

unsigned Val::size() const {
  switch (t) {
  case NOTYPE: return 0;
  case POINTER: case BOOL: case INTEGER: case LONG: case REAL: case COMPLEX: case STRING: return 1;
  case VEC_POINTER: case VEC_BOOL: case VEC_INTEGER: case VEC_LONG: case MAT_INTEGER: case MAT_LONG: return unsigned(vi.size());
  case VEC_REAL: case MAT_REAL: return unsigned(vr.size());
  case VEC_COMPLEX: case MAT_COMPLEX: return unsigned(vc.size());
  case VEC_STRING: return unsigned(vs.size());
  case VECTOR: return unsigned(v.size());
  case MAP: return unsigned(m.size());
  }
  return 0;
}
static bool exact_ = false;
void exact_reals(bool on) { exact_ = on; }
string encd(double d) {
  if (exact_) { uint64_t w; memcpy(&w, &d, 8); char b[24]; snprintf(b, sizeof b, "%016lx", (unsigned long)w); return b; }  // every bit counts
  if (d != d) return "nan";
  if (d == 0) d = 0;            // -0 and +0 are the same number
  char b[40]; snprintf(b, sizeof b, "%a", d); return b;
}
string encc(cplx c) { return "(" + encd(c.real()) + "," + encd(c.imag()) + ")"; }
static void enc_s(string& o, string const& s) { o += std::to_string(s.size()); o += ':'; o += s; }
static void enc_(string& o, Val const& v) {
  o += char('A' + v.t);
  switch (v.t) {
  case POINTER: case BOOL: case INTEGER: case LONG: o += std::to_string(v.i); break;
  case REAL: o += encd(v.r); break;
  case COMPLEX: o += encc(v.c); break;
  case STRING: enc_s(o, v.s); break;
  case MAT_INTEGER: case MAT_LONG: o += std::to_string(v.nr) + "x" + std::to_string(v.nc); [[fallthrough]];
  case VEC_POINTER: case VEC_BOOL: case VEC_INTEGER: case VEC_LONG: o += '['; for (auto x : v.vi) { o += std::to_string(x); o += ' '; } o += ']'; break;
  case MAT_REAL: o += std::to_string(v.nr) + "x" + std::to_string(v.nc); [[fallthrough]];
  case VEC_REAL: o += '['; for (auto x : v.vr) { o += encd(x); o += ' '; } o += ']'; break;
  case MAT_COMPLEX: o += std::to_string(v.nr) + "x" + std::to_string(v.nc); [[fallthrough]];
  case VEC_COMPLEX: o += '['; for (auto x : v.vc) { o += encc(x); o += ' '; } o += ']'; break;
  case VEC_STRING: o += '['; for (auto& x : v.vs) { enc_s(o, x); o += ' '; } o += ']'; break;
  case VECTOR: o += '['; for (auto& x : v.v) { enc_(o, x); o += ' '; } o += ']'; break;
  case MAP: o += '{'; for (auto& x : v.m) { enc_s(o, x.first); o += '='; enc_(o, x.second); o += ' '; } o += '}'; break;
  }
}
string enc(Val const& v) { string o; enc_(o, v); return o; }
string show(Val const& v, int depth) {
  char b[64];
  string o = tname[v.t];
  auto num = [&](double x) { snprintf(b, sizeof b, "%.17g", x); return string(b); };
  switch (v.t) {
  case POINTER: case BOOL: case INTEGER: case LONG: return o + " " + std::to_string(v.i);
  case REAL: return o + " " + num(v.r);
  case COMPLEX: return o + " (" + num(v.c.real()) + "," + num(v.c.imag()) + ")";
  case STRING: return o + " \"" + v.s + "\"";
  default: break;
  }
  if (v.is_mat()) o += " " + std::to_string(v.nr) + "x" + std::to_string(v.nc);
  o += " [";
  size_t n = 0; auto sep = [&] { if (n++) o += ", "; };
  for (auto x : v.vi) { sep(); if (n > 24) { o += "..."; break; } o += std::to_string(x); }
  for (auto x : v.vr) { sep(); if (n > 24) { o += "..."; break; } o += num(x); }
  for (auto x : v.vc) { sep(); if (n > 24) { o += "..."; break; } o += "(" + num(x.real()) + "," + num(x.imag()) + ")"; }
  for (auto& x : v.vs) { sep(); if (n > 24) { o += "..."; break; } o += "\"" + x + "\""; }
  if (depth <= 0 && (v.v.size() || v.m.size())) o += "...";
  else {
    for (auto& x : v.v) { sep(); o += show(x, depth - 1); }
    for (auto& x : v.m) { sep(); o += "\"" + x.first + "\": " + show(x.second, depth - 1); }
  }
  return o + "]";
}
template <class M, class F> static bool mat_ok(M const& m, Val& o, string& why, F f) {
  o.nr = m.num_rows(); o.nc = m.num_cols();
  if (size_t(o.nr) * o.nc != m.size()) {
    why = "matrix claims " + std::to_string(o.nr) + "x" + std::to_string(o.nc) + " but holds " + std::to_string(m.size()) + " elements";
    return false;
  }
  for (auto const& x : m) f(x);
  return true;
}
static bool snap(GC const& g, Val& o, string& why, int depth) {
  if (depth > 4000) { why = "nesting deeper than any value that was built"; return false; }
  int t = int(g.get_type());
  if (t < 0 || t > MAP) { why = "invalid type code " + std::to_string(t); return false; }
  o = Val(); o.t = t;
  switch (t) {
  case NOTYPE: break;
  case POINTER: o.i = int64_t(intptr_t(g.get_pvoid())); break;
  case BOOL: { unsigned char raw; memcpy(&raw, &g.get_bool(), 1); o.i = raw; if (raw > 1) { why = "bool holds raw value " + std::to_string(raw); return false; } break; }
  case INTEGER: o.i = g.get_int(); break;
  case LONG: o.i = g.get_long(); break;
  case REAL: o.r = g.get_real(); break;
  case COMPLEX: o.c = g.get_complex(); break;
  case STRING: o.s = string(g.get_string()); break;
  case VEC_POINTER: for (auto x : g.get_vec_pointer()) o.vi.push_back(int64_t(intptr_t(x))); break;
  case VEC_BOOL: for (bool x : g.get_vec_bool()) o.vi.push_back(x); break;
  case VEC_INTEGER: for (auto x : g.get_vec_int()) o.vi.push_back(x); break;
  case VEC_LONG: for (auto x : g.get_vec_long()) o.vi.push_back(x); break;
  case VEC_REAL: for (auto x : g.get_vec_real()) o.vr.push_back(x); break;
  case VEC_COMPLEX: for (auto x : g.get_vec_complex()) o.vc.push_back(x); break;
  case VEC_STRING: for (auto& x : g.get_vec_string()) o.vs.push_back(x); break;
  case MAT_INTEGER: return mat_ok(g.get_mat_int(), o, why, [&](int x) { o.vi.push_back(x); });
  case MAT_LONG: return mat_ok(g.get_mat_long(), o, why, [&](int64_t x) { o.vi.push_back(x); });
  case MAT_REAL: return mat_ok(g.get_mat_real(), o, why, [&](double x) { o.vr.push_back(x); });
  case MAT_COMPLEX: return mat_ok(g.get_mat_complex(), o, why, [&](cplx x) { o.vc.push_back(x); });
  case VECTOR: { auto const& v = g.get_vector(); o.v.resize(v.size());
    for (size_t k = 0; k < v.size(); ++k) if (!snap(v[k], o.v[k], why, depth + 1)) return false; break; }
  case MAP: for (auto const& kv : g.get_map()) if (!snap(kv.second, o.m[kv.first], why, depth + 1)) return false; break;
  }
  return true;
}
bool try_snapshot(GC const& g, Val& o, string& why) { Out out; return snap(g, o, why, 0); }
Val snapshot(GC const& g) {
  Val o; string why;
  if (!try_snapshot(g, o, why)) violation("malformed", "container is not well formed: " + why);
  return o;
}
void build(GC& g, Val const& v) {
  switch (v.t) {
  case NOTYPE: g.clear(); break;
  case POINTER: g.set_pointer((void*)intptr_t(v.i)); break;
  case BOOL: g.set_bool(v.i); break;
  case INTEGER: g.set_int(int(v.i)); break;
  case LONG: g.set_long(v.i); break;
  case REAL: g.set_real(v.r); break;
  case COMPLEX: g.set_complex(v.c.real(), v.c.imag()); break;
  case STRING: g.set_string(v.s); break;
  case VEC_POINTER: { auto& o = g.set_vec_pointer(unsigned(v.vi.size())); for (size_t k = 0; k < v.vi.size(); ++k) o[k] = (void*)intptr_t(v.vi[k]); break; }
  case VEC_BOOL: { auto& o = g.set_vec_bool(unsigned(v.vi.size())); for (size_t k = 0; k < v.vi.size(); ++k) o[k] = v.vi[k]; break; }
  case VEC_INTEGER: { auto& o = g.set_vec_int(unsigned(v.vi.size())); for (size_t k = 0; k < v.vi.size(); ++k) o[k] = int(v.vi[k]); break; }
  case VEC_LONG: { auto& o = g.set_vec_long(unsigned(v.vi.size())); for (size_t k = 0; k < v.vi.size(); ++k) o[k] = v.vi[k]; break; }
  case VEC_REAL: { auto& o = g.set_vec_real(unsigned(v.vr.size())); for (size_t k = 0; k < v.vr.size(); ++k) o[k] = v.vr[k]; break; }
  case VEC_COMPLEX: { auto& o = g.set_vec_complex(unsigned(v.vc.size())); for (size_t k = 0; k < v.vc.size(); ++k) o[k] = v.vc[k]; break; }
  case VEC_STRING: { auto& o = g.set_vec_string(unsigned(v.vs.size())); for (size_t k = 0; k < v.vs.size(); ++k) o[k] = v.vs[k]; break; }
  case MAT_INTEGER: { auto& o = g.set_mat_int(v.nr, v.nc); for (size_t k = 0; k < v.vi.size(); ++k) o[k] = int(v.vi[k]); break; }
  case MAT_LONG: { auto& o = g.set_mat_long(v.nr, v.nc); for (size_t k = 0; k < v.vi.size(); ++k) o[k] = v.vi[k]; break; }
  case MAT_REAL: { auto& o = g.set_mat_real(v.nr, v.nc); for (size_t k = 0; k < v.vr.size(); ++k) o[k] = v.vr[k]; break; }
  case MAT_COMPLEX: { auto& o = g.set_mat_complex(v.nr, v.nc); for (size_t k = 0; k < v.vc.size(); ++k) o[k] = v.vc[k]; break; }
  case VECTOR: { auto& o = g.set_vector(unsigned(v.v.size())); for (size_t k = 0; k < v.v.size(); ++k) build(o[k], v.v[k]); break; }
  case MAP: { auto& o = g.set_map(); for (auto& kv : v.m) build(o[kv.first], kv.second); break; }
  }
}

// ---------------------------------------------------------------- generators
// "tame" arrays: numbers that most conversions accept, now and then one they do not
static thread_local bool tame_;
Tame::Tame(bool on) : was(tame_) { tame_ = on; }
Tame::~Tame() { tame_ = was; }
static int64_t tame_int() { static const int64_t k[] = {0, 1, 2, 3, 7, 100, INT32_MAX, 0, 1, 5, 4, -1}; return k[pick(pick(6) ? 10 : 12)]; }
double gen_imag(bool nonfinite) { return tame_ ? (chance(1, 8) ? 1.0 : 0.0) : pick(2) ? gen_real(nonfinite) : 0; }
int64_t gen_int32() {
  if (tame_) return tame_int();
  switch (pick(8)) {
  case 0: case 1: case 2: return int64_t(pick(10));
  case 3: case 4: return -int64_t(pick(10)) - 1;
  case 5: return int32_t(wide());
  case 6: { static const int64_t k[] = {INT32_MAX, INT32_MIN, INT32_MAX - 1, INT32_MIN + 1, 255, 256, 65535, 65536, 127, 128, -128, -129, 32767, 32768, -32768, -32769, 999999, 1000000, -1000000, 99999999, 100000000, 1000000000, 16777216, 16777217}; return k[pick(2) ? pick(8) : pick(sizeof k / sizeof *k)]; }
  default: return int64_t(pick(100000)) - 50000;
  }
}
int64_t gen_int64() {
  if (tame_) return chance(1, 10) ? int64_t(UINT32_MAX) : tame_int();
  switch (pick(6)) {
  case 0: case 1: return gen_int32();
  case 2: return int64_t(wide());
  case 3: { static const int64_t k[] = {INT64_MAX, INT64_MIN, INT64_MAX - 1, int64_t(INT32_MAX) + 1, int64_t(INT32_MIN) - 1, int64_t(UINT32_MAX), int64_t(UINT32_MAX) + 1,
      (int64_t(1) << 53), (int64_t(1) << 53) + 1, -(int64_t(1) << 53) - 1, INT64_MIN + 1, -int64_t(UINT32_MAX), -int64_t(UINT32_MAX) - 1, -(int64_t(1) << 53), 10000000000, 999999999999999999, 1000000000000000000, -1000000000000000000, (int64_t(1) << 62), (int64_t(1) << 40)}; return k[pick(2) ? pick(10) : pick(sizeof k / sizeof *k)]; }
  case 4: return int64_t(wide()) >> pick(40);
  default: return int64_t(pick(1000000)) * 1000003 - 500000000000;
  }
}
double gen_real(bool nonfinite) {
  if (tame_) return chance(1, 12) ? 0.5 : double(tame_int());
  switch (pick(10)) {
  case 0: case 1: return double(pick(20)) - 5;
  case 2: case 3: return (double(pick(20001)) - 10000) / 16.0;
  case 4: return double(gen_int64());
  case 5: { static const double k[] = {0.1, -0.3, 1e-5, 1e10, 2147483647.0, 2147483648.0, -2147483649.0, 9223372036854775807.0, 1e300, -1e-300, 4294967295.0, 4294967296.0, 5e-324, 1.7976931348623157e308, -0.0, 123456.789, 2.2250738585072014e-308, 2.220446049250313e-16, 1e15, 1e16, 1e17, 999999, 1e6, 1234567, 9007199254740993.0, -9223372036854775808.0, 0.0001, 0.00001234, 1e-7, 100000, 65536.5, 3e-310}; return k[pick(2) ? pick(16) : pick(sizeof k / sizeof *k)]; }
  case 6: { double d; uint64_t w = wide(); memcpy(&d, &w, 8); if (std::isfinite(d)) return d; return nonfinite ? d : 2.5; }
  case 7: if (nonfinite && chance(1, 3)) { static const double k[] = {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()}; return k[pick(3)]; }
          return double(pick(1000)) / 7.0;
  case 8: return double(int32_t(wide())) / 3.0;
  default: return double(pick(100)) + 0.5;
  }
}
static string utf8(uint32_t c) {
  string s;
  if (c < 0x80) s += char(c);
  else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); }
  else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
  else { s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
  return s;
}
static bool huge_ = false; static unsigned huge_size();
static string huge_text() {
  unsigned n = huge_size(); string s(n, 'h'); uint32_t style = pick(5);
  switch (style) {
  case 2: for (unsigned k = 0; k < n; ++k) s[k] = char('0' + (k / 10 + k) % 10); break;               // digits
  case 3: { static char const c[] = "ab\"\n \\cd'\t#: "; for (unsigned k = 0; k < n; ++k) s[k] = c[(k / 13 + k) % 13]; break; } // much to escape
  default: for (unsigned k = 0; k < n; ++k) s[k] = char('a' + (k / 26 + k) % 26);
  }
  if (style == 4) s.replace(0, 5, "1 ##-");                                                           // a title
  return s;
}
string gen_string(Gen const& g) {
  static char const* lit[] = {"", "a", "hello", "true", "null", "12", "-3.5", "1e5", "~", "yes", "no", "[1,2]", "{a: 1}", "a: b", "- x", "# c", "x # y", " lead", "trail ",
    "it's", "say \"hi\"", "back\\slash", "tab\there", "line1\nline2", "\n", "!tag", "&anchor", "*alias", "%d", "@at", "`tick`", "a,b", "?", ":", "-", "|", ">", "0x1F", "nan", ".inf", "2001-01-01", "<<", "=", "'", "\"", "\\", "//", "\r\n", "null ", "True", "0o17", "1_000", "+5", ".5", "5.", "---", "...", "\xEF\xBB\xBF" "bom",
    "TRUE", "False", "FALSE", "Null", "NULL", "on", "off", "y", "N", "Yes", "-.inf", ".NaN", "+.INF", "1:30", "0b1", "1e", "e1", "-0", "+", "0x", "12e03", "- ", "? x", "a #b", "#", "{", "}", "[", "]", ",", "]x", "a\tb", "\t", "  ", "\x7f", "\xC2\x85", "\xE2\x80\xA8", "x\xEF\xBB\xBF", "$", "key: ", "::", "a:b", ":a", "a :b", "\n\n", "a\n", "\na", " \n ", "a\n  b\n c", "-a", "-1", "- 1\n- 2", "a: 1\nb: 2", "\"\"\"", "'' '", "\\u0041", "\\n", "\\", "\\\\", "%YAML 1.2", "--- x", "... ", "inf", "-inf", "+nan", "1979-05-27T07:32:00Z", "07:32:00", "18446744073709551616", "9223372036854775808", "0.1e", "1__0", "\b\f", "/", "</script>", "&#39;", "\xF0\x9F\x98\x80"};
  if (!g.weird_strings) { string s; for (unsigned n = pick(6); n-- > 0;) s += char('a' + pick(26)); return s; }
  switch (pick(6)) {
  case 0: case 1: { string s; for (unsigned n = pick(8); n-- > 0;) s += char('a' + pick(26)); return s; }
  case 2: case 3: return lit[pick(sizeof lit / sizeof *lit)];
  case 4: { string s; unsigned n = pick(12);
    for (unsigned k = 0; k < n; ++k) {
      uint32_t kind = pick(8), c;
      if (kind < 4) c = 32 + pick(95);
      else if (kind == 4) c = pick(32) + (g.nuls ? 0 : 1);
      else if (kind == 5) c = 0xA1 + pick(0x500);
      else if (kind == 6) c = 0x4E00 + pick(0x1000);
      else if (pick(3)) c = 0x1F600 + pick(64);
      else { static const uint32_t edge[] = {0xA0, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFD, 0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF}; c = edge[pick(14)]; }
      if (c == 0 && !g.nuls) c = 1;
      if (!g.utf8_only && chance(1, 24)) s += char(128 + pick(128)); else s += utf8(c);
    }
    return s; }
  default: { // long
    if (huge_ && chance(1, 2)) return huge_text();
    if (chance(1, 4)) { string s; static const unsigned len[] = {15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1500}; unsigned n = pick(2) ? len[pick(pick(2) ? 13 : 22)] : 20 + pick(300); for (unsigned k = 0; k < n; ++k) s += char('a' + (k * 7 + n) % 26); return s; }
    string s = "s"; s += std::to_string(pick(1000)); return s; }
  }
}
string gen_key(Gen const& g) {
  static char const* pool[] = {"a", "b", "c", "key", "x", "y", "alpha", "beta"};
  uint32_t k = pick(10);
  if (huge_ && g.weird_strings && chance(1, 6)) return huge_text();
  if (k < 8) return pool[pick(8)];
  if (k == 8 && pick(2)) {   // names that differ from others in one place only
    static struct { char const* s; unsigned n; } const near[] = {{"A", 1}, {"aa", 2}, {"ab", 2}, {"Key", 3}, {"key ", 4}, {"keys", 4}, {"key1", 4}, {"key10", 5}, {"key2", 4}, {"x.y", 3}, {"a b", 3}, {"", 0}, {"0", 1}, {"1", 1}, {"10", 2}, {"-1", 2}, {"a\0", 2}, {"a\0b", 3}, {"a\0c", 3}, {"\0", 1}};
    auto const& x = near[pick(g.nuls && g.weird_strings ? 20 : g.weird_strings ? 16 : 4)]; return string(x.s, x.n);
  }
  if (k == 8) { static char const* hd[] = {"1#-title", "2##=big", "10#~t", "3 # plain", "12##_u", "3#", "4 # # x"}; return hd[pick(7)]; }
  return gen_string(g);
}
Val gen_scalar(Gen const& g) {
  for (;;) {
    switch (pick(9)) {
    case 0: return g.notype ? Val() : Val::I(1);
    case 1: return Val::B(pick(2));
    case 2: case 3: return Val::I(gen_int32());
    case 4: return Val::L(g.bigints ? gen_int64() : gen_int32());
    case 5: return Val::R(gen_real(g.nonfinite));
    case 6: return Val::S(gen_string(g));
    case 7: if (!g.complexes) return Val::R(gen_real(g.nonfinite)); return Val::C(cplx(gen_real(g.nonfinite), pick(3) ? gen_real(g.nonfinite) : 0));
    default: if (!g.pointers) return Val::S(gen_string(g)); return Val::P(int64_t(pick(1000)) * 8);
    }
  }
}
static unsigned big_budget_ = 0, fragments_ = 0;
void new_run() { exact_ = false; big_budget_ = 1500; tame_ = false; huge_ = false; fragments_ = 60000; }
bool fragment_budget() { if (!fragments_) return false; --fragments_; return true; }
void allow_huge(unsigned one_in) { huge_ = chance(1, one_in); }
static unsigned huge_size() { huge_ = false; static const unsigned b[] = {32767, 32768, 40000, 65535, 65536, 65537, 70000}; return b[pick(7)]; }
unsigned gen_size(unsigned small) {
  if (huge_ && chance(1, 3)) return huge_size();
  if (big_budget_ && chance(1, 24)) {
    static const unsigned b[] = {5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 31, 32, 33, 48, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300};
    static const unsigned h[] = {400, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025};
    unsigned n = chance(1, 16) ? h[pick(10)] : b[pick(pick(3) ? 18 : 32)];
    if (n <= big_budget_) { big_budget_ -= n; return n; }
  }
  return pick(small + 1);
}
void fill_elems(Val& v, unsigned n, Gen const& g) {
  uint32_t base = n > 16 ? pick(1000) : 0;
  for (unsigned x = 0; x < n; ++x) {
    int64_t c = (int64_t(base) + int64_t(x) * x * 31) % 1999;           // beyond the first ones: cheap and different from their neighbours
    bool own = x < 16 || x + 2 >= n;
    switch (v.t) {
    case VEC_POINTER: v.vi.push_back((own ? int64_t(pick(1000)) : c) * 8); break;
    case VEC_BOOL: v.vi.push_back(own ? pick(2) : (c & 1)); break;
    case VEC_INTEGER: case MAT_INTEGER: v.vi.push_back(own ? gen_int32() : c); break;
    case VEC_LONG: case MAT_LONG: v.vi.push_back(!own ? c : g.bigints ? gen_int64() : gen_int32()); break;
    case VEC_REAL: case MAT_REAL: v.vr.push_back(own ? gen_real(g.nonfinite) : tame_ ? double(c) : double(c) / 8); break;
    case VEC_COMPLEX: case MAT_COMPLEX: { double a = own ? gen_real(g.nonfinite) : double(c); v.vc.push_back(cplx(a, own ? gen_imag(g.nonfinite) : tame_ ? 0.0 : double(c % 7))); break; }
    case VEC_STRING: v.vs.push_back(own ? gen_string(g) : "e" + std::to_string(c)); break;
    }
  }
}
static Val gen_deep(Gen const& g, int depth) {
  if (depth <= 0) return gen_val(g, 0);
  Val v;
  if (pick(2)) { v.t = MAP; if (!pick(4)) v.m[gen_key(g)] = gen_scalar(g); v.m[gen_key(g)] = gen_deep(g, depth - 1); }
  else { v.t = VECTOR; if (!pick(4)) v.v.push_back(gen_scalar(g)); v.v.push_back(gen_deep(g, depth - 1)); }
  return v;
}
Val gen_val(Gen const& g, int depth) {
  uint32_t k = pick(depth > 0 ? 10 : 5);
  if (k < 3) return gen_scalar(g);
  unsigned lo = g.empties ? 0 : 1;
  if (k < 5 && g.typed_vecs) {
    Val v; unsigned n = lo + gen_size(g.width);
    if (g.mats && chance(1, 3)) {
      static const int ts[] = {MAT_INTEGER, MAT_LONG, MAT_REAL, MAT_COMPLEX};
      v.t = ts[pick(g.complexes ? 4 : 3)];
      v.nr = lo + gen_size(3); v.nc = lo + (v.nr > 40 ? pick(4) : gen_size(3)); if (v.nr * v.nc > 1500) v.nc = 1;
      n = v.nr * v.nc;
    } else {
      static const int ts[] = {VEC_BOOL, VEC_INTEGER, VEC_LONG, VEC_REAL, VEC_STRING, VEC_COMPLEX, VEC_POINTER};
      do v.t = ts[pick(7)]; while ((v.t == VEC_POINTER && !g.pointers) || (v.t == VEC_COMPLEX && !g.complexes));
    }
    Tame tame(chance(1, 3));
    fill_elems(v, n, g);
    return v;
  }
  if (k < 5) return gen_scalar(g);
  Val v; unsigned n = lo + pick(g.width + 1); bool wide_one = g.width > 2 && big_budget_ > 200 && chance(1, 40);
  if (wide_one) { n = 5 + pick(30); if (chance(1, 10)) n = 35 + pick(300); big_budget_ -= 100; depth = 1; }
  if (depth == 1 && big_budget_ > 200 && chance(1, 60)) { depth = 6 + int(pick(10)); if (chance(1, 5)) { depth = 17 + int(pick(50)); if (chance(1, 4)) depth = 67 + int(pick(160)); } n = 1; big_budget_ -= 100; Gen q = g; q.width = 1; if (k < 8) { v.t = MAP; v.m[gen_key(g)] = gen_deep(q, depth); } else { v.t = VECTOR; v.v.push_back(gen_deep(q, depth)); } return v; }
  if (k < 8) {
    v.t = MAP;
    for (unsigned x = 0; x < n; ++x) { string key = wide_one ? "w" + std::to_string(x) : gen_key(g); Val e = gen_val(g, depth - 1); v.m[key] = e; }
  } else {
    v.t = VECTOR;
    for (unsigned x = 0; x < n; ++x) v.v.push_back(gen_val(g, depth - 1));
  }
  return v;
}
size_t count_nodes(Val const& v) { size_t n = 1; for (auto& x : v.v) n += count_nodes(x); for (auto& x : v.m) n += count_nodes(x.second); return n; }

// ---------------------------------------------------------------- equivalence of documents
static Val scal(Val const& v, size_t k) {
  switch (v.t) {
  case VEC_POINTER: return Val::P(v.vi[k]);
  case VEC_BOOL: return Val::B(v.vi[k]);
  case VEC_INTEGER: case MAT_INTEGER: return Val::I(v.vi[k]);
  case VEC_LONG: case MAT_LONG: return Val::L(v.vi[k]);
  case VEC_REAL: case MAT_REAL: return Val::R(v.vr[k]);
  case VEC_COMPLEX: case MAT_COMPLEX: return Val::C(v.vc[k]);
  case VEC_STRING: return Val::S(v.vs[k]);
  }
  return Val();
}
static bool seq(Val const& v, vector<Val>& o) {
  if (v.t == VECTOR) { o = v.v; return true; }
  if (v.is_mat()) {
    for (unsigned j = 0; j < v.nc; ++j) { Val col; col.t = VECTOR; for (unsigned i = 0; i < v.nr; ++i) col.v.push_back(scal(v, size_t(i) + size_t(j) * v.nr)); o.push_back(col); }
    return true;
  }
  if (v.t >= VEC_POINTER && v.t <= VEC_STRING) { for (size_t k = 0; k < v.size(); ++k) o.push_back(scal(v, k)); return true; }
  return false;
}
static bool isnum(Val const& v, bool b) { return v.t == INTEGER || v.t == LONG || v.t == REAL || (b && v.t == BOOL); }
bool equiv(Val const& a, Val const& b, NormOpt const& o, string& why, string path) {
  auto no = [&](string const& w) { why = "at '" + path + "': " + w + ": " + show(a, 1) + " vs " + show(b, 1); return false; };
  vector<Val> sa, sb; bool qa = seq(a, sa), qb = seq(b, sb);
  if (qa != qb) return no("sequence vs non-sequence");
  if (qa) {
    if (sa.size() != sb.size()) return no("sequence lengths differ");
    // unifying [true,5] gives [1,5]: a boolean element may come back as its numeric value
    for (size_t k = 0; k < sa.size(); ++k) {
      NormOpt oe = o; oe.elem = true; oe.bool_as_int = sa[k].t == BOOL && sb[k].t != BOOL;
      if (!equiv(sa[k], sb[k], oe, why, path + "[" + std::to_string(k) + "]")) return false;
    }
    return true;
  }
  if (isnum(a, o.bool_as_int) && isnum(b, o.bool_as_int)) {
    if (a.t != REAL && b.t != REAL) { if (a.i != b.i) return no("integers differ"); if (o.keep_int && !o.elem && a.t == INTEGER && b.t != INTEGER) return no("an int came back as another type"); return true; }
    if (o.keep_real && !o.elem && a.t == REAL && b.t != REAL) return no("a real came back as an integer");
    if (a.t != REAL) {           // an integer has no rounding to be excused by
      if (o.keep_int && !o.elem) return no("an integer came back as a real");
      if (!(b.r >= -9223372036854775808.0 && b.r < 9223372036854775808.0) || int64_t(b.r) != a.i || double(int64_t(b.r)) != b.r) return no("integer changed value");
      return true;
    }
    double x = a.t == REAL ? a.r : double(a.i), y = b.t == REAL ? b.r : double(b.i);
    if (x == y || (x != x && y != y)) return true;
    double e = std::fabs(x - y), s = std::max(std::fabs(x), std::fabs(y));
    if (e <= o.rel * s) return true;
    return no("numbers differ");
  }
  if (o.as_text && a.t == POINTER && b.t != POINTER) {
    if (b.t == INTEGER || b.t == LONG) return b.i == a.i ? true : no("pointer changed value");
    if (b.t == REAL) return b.r == double(a.i) ? true : no("pointer changed value");
    if (b.t != STRING) return no("kinds differ");
    char* e; uint64_t x = strtoull(b.s.c_str(), &e, 16);
    return e != b.s.c_str() && !*e && b.s.size() == strlen(b.s.c_str()) && x == uint64_t(a.i) ? true : no("pointer changed value");
  }
  if (o.as_text && a.t == COMPLEX && b.t != COMPLEX) {
    double re, im = 0;
    if (b.t == INTEGER || b.t == LONG) re = double(b.i); else if (b.t == REAL) re = b.r;
    else if (b.t != STRING) return no("kinds differ");
    else { char const* p = b.s.c_str(); char* e; re = strtod(p, &e); if (e == p) return no("complex number is not its text"); if (*e) { char* q; im = strtod(e, &q); if (q == e || *q != 'i' || q[1]) return no("complex number is not its text"); } }
    auto near = [&](double x, double y) { return std::fabs(x - y) <= std::max(o.rel, 1e-11) * std::max(std::fabs(x), std::fabs(y)); };
    return near(a.c.real(), re) && near(a.c.imag(), im) ? true : no("complex number changed value");
  }
  if (a.t != b.t) return no("kinds differ");
  switch (a.t) {
  case NOTYPE: return true;
  case POINTER: case BOOL: if (a.i != b.i) return no("values differ"); return true;
  case COMPLEX: if (encc(a.c) != encc(b.c)) return no("values differ"); return true;
  case STRING: if (a.s != b.s) return no("strings differ"); return true;
  case MAP: {
    if (a.m.size() != b.m.size()) return no("key sets differ");
    auto i = a.m.begin(); auto j = b.m.begin();
    for (; i != a.m.end(); ++i, ++j) {
      if (i->first != j->first) return no("key sets differ ('" + i->first + "' / '" + j->first + "')");
      NormOpt oe = o; oe.elem = oe.bool_as_int = false;
      if (!equiv(i->second, j->second, oe, why, path + "/" + i->first)) return false;
    }
    return true; }
  }
  return no("?");
}
}
