// C10 C14: writers on failing media, tables.
#include "docs.hh"
#include <iomanip>
#include <regex>
namespace sim {
using namespace GC_namespace;

struct Format { std::ios_base::fmtflags f; int prec; char fill; int width; };
static Format gen_format() {
  Format o{std::ios_base::fmtflags(std::ios_base::dec | std::ios_base::skipws), 6, ' ', 0};
  if (!pick(2)) return o;
  std::ios_base::fmtflags f = std::ios_base::skipws;
  switch (pick(4)) { case 1: f |= std::ios_base::hex; break; case 2: f |= std::ios_base::oct; break; default: f |= std::ios_base::dec; }
  switch (pick(4)) { case 1: f |= std::ios_base::fixed; break; case 2: f |= std::ios_base::scientific; break; default:; }
  switch (pick(4)) { case 1: f |= std::ios_base::left; break; case 2: f |= std::ios_base::internal; break; default:; }
  if (chance(1, 4)) f |= std::ios_base::boolalpha;
  if (chance(1, 4)) f |= std::ios_base::showpos;
  if (chance(1, 4)) f |= std::ios_base::uppercase;
  if (chance(1, 4)) f |= std::ios_base::showbase;
  if (chance(1, 4)) f |= std::ios_base::showpoint;
  static const int ps[] = {6, 2, 17, 0, 10}; static const char fs[] = {' ', '*', '0'};
  o.f = f; o.prec = ps[pick(5)]; o.fill = fs[pick(3)];
  return o;
}
static void set_format(std::ostream& s, Format const& f) { s.flags(f.f); s.precision(f.prec); s.fill(f.fill); s.width(f.width); }
static string later_output(std::ostream& s) {   // what the stream makes of the caller's next insertions
  std::ios_base::fmtflags fl = s.flags();
  std::ostringstream o; o.flags(fl); o.precision(s.precision()); o.fill(s.fill()); o.width(s.width());
  o << 255 << ' '; o << std::setw(12) << 1.0 / 3 << ' ' << true << ' ' << -1e10 << ' '; o << std::setw(5) << 'x';
  return o.str();
}

char const* const writer_name[] = {"print", "print_content_types", "to_json", "to_yaml", "to_toml", "write_table", "write_table_formatted", "write_formatted_data", "operator<< of the stored data", "string_escape", "info"};

void do_write(uint32_t w, GC const& g, Val const& m, std::ostream& os, string const& pre) {
  switch (w) {
  case 0: g.print(os, pre, "  "); break;
  case 1: g.print_content_types(os, pre); break;
  case 2: g.to_json(os); break;
  case 3: g.to_yaml(os); break;
  case 4: g.to_toml(os); break;
  case 5: case 6: { vec_string_type const& h = g("headers").get_vec_string(); GC const& d = g("data");
    if (d.get_type() == GC_type::MAT_REAL) { if (w == 5) write_table(h, d.get_mat_real(), os, ','); else write_table_formatted(h, d.get_mat_real(), os); }
    else { if (w == 5) write_table(h, d.get_vector(), os, ','); else write_table_formatted(h, d.get_vector(), os); }
    break; }
  case 7: g.write_formatted_data(os, ';'); break;
  case 8:
    switch (m.t) {
    case VEC_INTEGER: os << g.get_vec_int(); break; case VEC_LONG: os << g.get_vec_long(); break; case VEC_REAL: os << g.get_vec_real(); break; case VEC_COMPLEX: os << g.get_vec_complex(); break;
    case MAT_INTEGER: os << g.get_mat_int(); break; case MAT_LONG: os << g.get_mat_long(); break; case MAT_REAL: os << g.get_mat_real(); break; case MAT_COMPLEX: os << g.get_mat_complex(); break;
    default: g.dump(os); }
    break;
  case 9: string_escape(os, m.s); break;
  default: g.info(os);
  }
}

// What a listing has to show, in order: each token in one of its spellings, not glued to another word or number.
struct Listing {
  struct Tok { vector<string> alt; int edge; };   // edge: 0 anything, 1 no letter or digit on either side, 2 a ':' or line end after it
  vector<Tok> toks; Format f;
  template <typename X> string fmt(X const& x) const { std::ostringstream o; o.flags(f.f); o.precision(f.prec); o << x; return o.str(); }
  void add(string s, int edge = 1) { toks.push_back({{std::move(s)}, edge}); }
  void real(double x) { add(fmt(x)); }
  void cpl(cplx const& c) {
    std::ostringstream o; o.precision(12); o << c.real(); if (c.imag() > 0) o << '+' << c.imag() << 'i'; if (c.imag() < 0) o << '-' << -c.imag() << 'i';
    toks.push_back({{o.str(), fmt(c)}, 1});
  }
  static string hex(int64_t p) { std::ostringstream o; o << std::hex << std::showbase << uintptr_t(p); return o.str(); }
  // the title of a key of the form  <number> #[#][underline] <title>,  else the key (std::regex for short keys, it recurs for each character)
  static string header(string const& k) {
    if (k.size() <= 1000) { static std::regex const re(R"(^\s*\d+\s*(##?)(-|=|~|_|)\s*(.*)$)"); std::smatch m; return std::regex_match(k, m, re) ? m[3].str() : k; }
    static char const sp[] = " \t\n\v\f\r"; size_t i = k.find_first_not_of(sp), d = i == string::npos ? i : k.find_first_not_of("0123456789", i);
    if (i == string::npos || d == i || d == string::npos) return k;
    d = k.find_first_not_of(sp, d); if (d == string::npos || k[d] != '#') return k;
    if (k[++d] == '#') ++d;
    if (d < k.size() && k[d] && strchr("-=~_", k[d])) ++d;
    d = d < k.size() ? k.find_first_not_of(sp, d) : string::npos; string t = d == string::npos ? "" : k.substr(d);
    return t.find_first_of("\n\r") == string::npos ? t : k;
  }
  void values(Val const& v) {
    switch (v.t) {
    case NOTYPE: add("null"); break;
    case POINTER: add(hex(v.i)); break;
    case BOOL: add(v.i ? "true" : "false"); break;
    case INTEGER: add(fmt(int(v.i))); break;
    case LONG: add(fmt(int64_t(v.i))); break;
    case REAL: real(v.r); break;
    case COMPLEX: cpl(v.c); break;
    case STRING: add("\"" + v.s + "\"", 0); break;
    case VEC_POINTER: for (size_t k = 0; k < v.vi.size(); ++k) { add("vec_pointer"); add(fmt(k)); add(hex(v.vi[k])); } break;
    case VEC_BOOL: for (auto x : v.vi) add(x ? "true" : "false"); break;
    case VEC_INTEGER: for (auto x : v.vi) add(fmt(int(x))); break;
    case VEC_LONG: for (auto x : v.vi) add(fmt(int64_t(x))); break;
    case VEC_REAL: for (auto x : v.vr) real(x); break;
    case VEC_COMPLEX: for (auto& x : v.vc) cpl(x); break;
    case VEC_STRING: for (size_t k = 0; k < v.vs.size(); ++k) { add(fmt(k), 2); add("\"" + v.vs[k] + "\"", 0); } break;
    case VECTOR: for (size_t k = 0; k < v.v.size(); ++k) { add(fmt(k), 2); values(v.v[k]); } break;
    case MAP: for (auto& e : v.m) { add(header(e.first), 2); values(e.second); } break;
    default:
      if (!v.nr || !v.nc) { add(fmt(v.nr)); add("by"); add(fmt(v.nc)); add("matrix"); break; }
      for (unsigned r = 0; r < v.nr; ++r) for (unsigned c = 0; c < v.nc; ++c) { size_t k = r + size_t(c) * v.nr;
        if (v.t == MAT_INTEGER) add(fmt(int(v.vi[k]))); else if (v.t == MAT_LONG) add(fmt(int64_t(v.vi[k]))); else if (v.t == MAT_REAL) real(v.vr[k]); else cpl(v.vc[k]); }
    }
  }
  void types(Val const& v) {
    static char const* one[] = {"Empty", "void", "bool", "int", "long int", "double", "complex", "string"};
    static char const* vec[] = {"pointer", "bool", "int", "long", "double", "complex", "string"};
    static char const* mat[] = {"int", "long", "double", "complex"};
    if (v.t <= STRING) add(one[v.t]);
    else if (v.t <= VEC_STRING) add(string("vector of ") + vec[v.t - VEC_POINTER] + "[" + fmt(size_t(v.size())) + "]");
    else if (v.is_mat()) add(string("matrix of ") + mat[v.t - MAT_INTEGER] + "[" + fmt(v.nr) + "," + fmt(v.nc) + "]");
    else if (v.t == VECTOR) for (size_t k = 0; k < v.v.size(); ++k) { add(fmt(k), 2); types(v.v[k]); }
    else for (auto& e : v.m) { add(header(e.first), 2); types(e.second); }
  }
  void summary(Val const& v) {
    static char const* one[] = {"GenericContainer: No data stored", "Generic pointer", "Boolean", "Integer", "Long", "Floating Point", "Complex Floating Point", "String"};
    static char const* vec[] = {"generic pointer", "boolean", "integer", "long integer", "floating point number", "complex floating point number", "string"};
    if (v.t <= STRING) { add(one[v.t]); if (v.t == STRING) add(v.s.substr(0, v.s.find('\0')), 0); else if (v.t == POINTER) { std::ostringstream o; o.flags(f.f); o << (void*)v.i; add(o.str()); } else if (v.t != NOTYPE) values(v); }
    else if (v.t <= VEC_STRING) { add(string("Vector of ") + vec[v.t - VEC_POINTER] + " of size"); add(fmt(size_t(v.size()))); }
    else if (v.is_mat()) { add("Matrix"); add(fmt(v.nr)); add("x"); add(fmt(v.nc)); }
    else if (v.t == VECTOR) { add("Vector of generic data type of size"); add(fmt(v.v.size())); }
    else add("Map");
  }
  static size_t letters(string const& s) { size_t n = 0; for (unsigned char c : s) n += c < 128 && isalnum(c); return n; }
  string missing(string const& out, bool exact) const {
    size_t pos = 0, lo = 0, hi = 0;
    auto word = [](unsigned char c) { return c < 128 && isalnum(c); };
    for (size_t n = 0; n < toks.size(); ++n) {
      size_t end = string::npos, a = size_t(-1), b = 0;
      for (string const& s : toks[n].alt) {
        a = std::min(a, letters(s)); b = std::max(b, letters(s));
        for (size_t q = out.find(s, pos); q != string::npos; q = out.find(s, q + 1)) {
          size_t e = q + s.size();
          if (toks[n].edge == 1 && !s.empty() && ((q > pos && word(out[q - 1]) && word(s[0])) || (e < out.size() && word(out[e]) && word(s.back())))) continue;
          if (toks[n].edge == 2 && e < out.size() && out[e] != ':' && out[e] != '\n') continue;
          if (e < end) end = e;
          break;
        }
      }
      if (end == string::npos) return "item " + std::to_string(n) + " '" + toks[n].alt[0] + "' is not shown after byte " + std::to_string(pos);
      pos = end; lo += a; hi += b;
    }
    size_t have = letters(out);
    if (exact && (have < lo || have > hi)) return std::to_string(have) + " letters and digits shown, " + std::to_string(lo) + " to " + std::to_string(hi) + " expected";
    return "";
  }
};

static void c10() {
  allow_huge(300);
  quiet_streams();
  for (unsigned n = 1 + pick(8); n-- > 0;) {
    op();
    uint32_t w = pick(11);
    Val m;
    if (w == 4) m = gen_doc(TOML, int(1 + pick(3)), false);
    else if (w == 2 || w == 3) m = pick(3) ? gen_doc(w == 2 ? JSON : YAML, int(1 + pick(3)), true) : [] { Gen g; g.depth = 2; return gen_val(g); }();
    else if (w >= 5 && w <= 7) { unsigned c, r; m = gen_table(pick(3) == 2, true, c, r, false); }
    else if (w == 8) { Gen g; static const int ts[] = {VEC_REAL, MAT_REAL, VEC_INTEGER, MAT_INTEGER, VEC_LONG, MAT_LONG, VEC_COMPLEX, MAT_COMPLEX}; m = gen_typed(ts[pick(8)], g); }
    else if (w == 9) { Gen g; m = Val::S(gen_string(g)); }
    else { Gen g; g.depth = int(1 + pick(3)); m = pick(3) ? gen_val(g) : gen_any(g); }
    GC* g = LIB(new GC); build(*g, m);
    Format f = gen_format(); string pre = pick(3) == 2 ? "> " : "";
    string who = string(writer_name[w]) + " of " + show(m, 2);
    // healthy medium
    OutMedium hm; std::ostream hs(&hm); set_format(hs, f);
    string before = later_output(hs);
    bool refused = false;
    try { Lib l; do_write(w, *g, m, hs, pre); } catch (std::exception const& e) { refused = true; logf("%s: raised %s", who.c_str(), e.what()); }
    log(who + " -> " + std::to_string(hm.got.size()) + " bytes");
    if (!hs && !refused) violation("write-state", who + ": the stream of a healthy medium reports a failure");
    if (hs && (hs.flags() != f.f || hs.precision() != f.prec || hs.fill() != f.fill || later_output(hs) != before))
      violation("write-format", who + ": later output on the stream changes from '" + before + "' to '" + later_output(hs) + "'");
    { Val s = snapshot(*g); if (!same(s, m)) violation("write-const", who + " changed the container: " + diff_vals(m, s)); }
    string const ref = hm.got;
    if (!refused && f.fill == ' ' && !(f.f & std::ios_base::internal) && (w == 0 || w == 1 || w == 8 || w == 10)) {   // (padding inside of a number would split it)
      Listing ls; ls.f = f; if (w == 1) ls.types(m); else if (w == 10) ls.summary(m); else ls.values(m);
      string miss = ls.missing(ref, w != 10);
      if (!miss.empty()) violation("write-content", who + ": " + miss + " in: " + ref);
    }
    state(hash_str("C10" + std::to_string(w) + "|" + std::to_string(m.t) + "|" + std::to_string(std::min<size_t>(ref.size() / 32, 20)) + (refused ? "r" : "")));
    if (refused) { Lib l; delete g; continue; }
    for (unsigned k = 1 + pick(6); k-- > 0;) {
      op();
      size_t lim = ref.empty() ? 0 : pick(4) ? pick(uint32_t(ref.size())) : ref.size() - 1;
      int how = int(pick(4)); int exc = int(pick(4));
      bool dead = chance(1, 10);
      OutMedium om(lim, how); std::ostream os(&om); set_format(os, f);
      if (dead) os.setstate(std::ios_base::badbit);
      if (exc == 3 && !dead) os.exceptions(std::ios_base::badbit | std::ios_base::failbit); else if (exc == 2 && !dead) os.exceptions(std::ios_base::badbit);
      bool thrown = false; string ex;
      try { Lib l; do_write(w, *g, m, os, pre); } catch (std::exception const& e) { thrown = true; ex = e.what(); }
      os.exceptions(std::ios_base::goodbit);
      state(hash_str("C10f" + std::to_string(w) + "|" + std::to_string(how) + std::to_string(exc) + std::to_string(ref.size() ? lim * 8 / ref.size() : 0) + (dead ? "d" : "")));
      mix(om.got); mix(os.rdstate());
      string what = who + ", medium " + (how == 1 ? "raises" : how == 3 ? "refuses once" : "refuses") + " after " + std::to_string(lim) + " of " + std::to_string(ref.size()) + " bytes" + (dead ? ", stream already failed" : "");
      logf("  %s: %zu bytes delivered, state %d%s", what.c_str(), om.got.size(), int(os.rdstate()), thrown ? ", raised" : "");
      if (dead && !om.got.empty()) violation("write-after-failure", what + ": bytes were written to a failed stream");
      if (om.got.size() > ref.size() || ref.compare(0, om.got.size(), om.got) != 0)
        violation("write-prefix", what + ": delivered '" + om.got + "', not a prefix of '" + ref + "'");
      if (om.failed && !os.fail()) violation("write-hidden", what + ": the failure is not visible on the stream");
      if (om.got.size() < ref.size() && !os.fail() && !thrown) violation("write-hidden", what + ": only " + std::to_string(om.got.size()) + " bytes arrived and nothing reports it");
      if (!om.failed && thrown && !dead) violation("write-raise", what + ": raised " + ex + " although the medium did not fail");
      if (!(w == 10 && m.t == POINTER) &&   /* libstdc++ leaves hex set when its own pointer inserter is cut by an exception */
          (os.flags() != f.f || os.precision() != f.prec || os.fill() != f.fill)) violation("write-format", what + ": the failed write left the stream's format changed");
      Val s = snapshot(*g); if (!same(s, m)) violation("write-const", what + " changed the container: " + diff_vals(m, s));
    }
    { Lib l; delete g; }
  }
}

// ---------------------------------------------------------------- C14
static string gen_header(unsigned k) {
  static char const* hs[] = {"t", "x", "speed", "a", "very_long_header_name_beyond_twenty", "1", "-", "y[m]", "\xC3\xA9", "!", "e5", "nan", "'q'", "a.b", "K", "\\n"};
  string h = hs[pick(16)]; if (chance(1, 2)) h += std::to_string(k); return h;
}
Val gen_table(bool as_matrix, bool any_numbers, unsigned& ncol, unsigned& nrow, bool unique) {
  ncol = 1 + gen_size(4); nrow = ncol > 20 ? pick(6) : gen_size(5); if (ncol * nrow > 700) nrow = 2; if (ncol > 300) ncol = 300;
  Val t = Val::of(MAP), h = Val::of(VEC_STRING), d;
  for (unsigned k = 0; k < ncol; ++k) {
    string s = gen_header(k);
    if (unique) for (bool dup = true; dup;) { dup = false; for (auto& q : h.vs) if (q == s) { dup = true; s += "_"; } }
    h.vs.push_back(s);
  }
  if (as_matrix) { d = Val::of(MAT_REAL); d.nr = nrow; d.nc = ncol; for (unsigned k = 0; k < nrow * ncol; ++k) d.vr.push_back(gen_real(pick(8) == 7)); }
  else {
    d = Val::of(VECTOR);
    for (unsigned k = 0; k < ncol; ++k) {
      static const int ts[] = {VEC_REAL, VEC_INTEGER, VEC_LONG, VEC_BOOL};
      Val c = Val::of(any_numbers ? ts[pick(2) ? 0 : pick(4)] : VEC_REAL);
      for (unsigned r = 0; r < nrow; ++r) { if (c.t == VEC_REAL) c.vr.push_back(gen_real(pick(8) == 7)); else if (c.t == VEC_BOOL) c.vi.push_back(pick(2)); else c.vi.push_back(c.t == VEC_LONG ? gen_int64() : gen_int32()); }
      d.v.push_back(c);
    }
  }
  t.m["headers"] = h; t.m["data"] = d;
  return t;
}
static double cell(Val const& t, unsigned col, unsigned row) {
  Val const& d = t.m.at("data");
  if (d.t == MAT_REAL) return d.vr[row + size_t(col) * d.nr];
  Val const& c = d.v[col]; return c.t == VEC_REAL ? c.vr[row] : double(c.vi[row]);
}
// columns of a table that was read: all of one length
static void wellformed(Val const& s, bool as_map, string const& what) {
  if (s.t != MAP) violation("table-shape", what + ": left " + show(s, 2));
  auto h = s.m.find("headers"); auto d = s.m.find("data");
  if (h == s.m.end() || d == s.m.end() || h->second.t != VEC_STRING) violation("table-shape", what + ": left " + show(s, 2));
  size_t n = h->second.vs.size(); size_t len = 0; bool first = true;
  auto col = [&](Val const& c) { if (c.t != VEC_REAL) violation("table-shape", what + ": a column is " + show(c, 1)); if (first) { len = c.vr.size(); first = false; } else if (len != c.vr.size()) violation("table-ragged", what + ": columns of different length in " + show(s, 3)); };
  if (as_map) {
    if (!(d->second.t == MAP || (d->second.t == NOTYPE && n == 0))) violation("table-shape", what + ": data is " + show(d->second, 1));
    if (d->second.m.size() != n) violation("table-shape", what + ": " + std::to_string(n) + " headers but " + std::to_string(d->second.m.size()) + " columns");
    for (auto& x : h->second.vs) { auto it = d->second.m.find(x); if (it == d->second.m.end()) violation("table-shape", what + ": no column '" + x + "'"); col(it->second); }
  } else {
    if (d->second.t != VECTOR || d->second.v.size() != n) violation("table-shape", what + ": data is " + show(d->second, 2) + " for " + std::to_string(n) + " headers");
    for (auto& x : d->second.v) col(x);
  }
}
// A table without columns, or whose names and columns do not match
static void c14_odd() {
  quiet_streams();
  bool mat = pick(2); uint32_t form = pick(3); unsigned nc, nr; Val t = gen_table(mat, true, nc, nr, true);
  if (nc > 12) { nc = 12; t.m["headers"].vs.resize(nc); Val& d = t.m["data"]; if (mat) { d.nc = nc; d.vr.resize(size_t(nc) * d.nr); } else d.v.resize(nc); }
  Val& h = t.m["headers"]; Val& d = t.m["data"]; bool must_fail = false, empty = false, same_n = false; string how;
  switch (pick(5)) {
  case 0: how = "no columns"; h.vs.clear(); if (mat) { d.nc = 0; d.vr.clear(); } else d.v.clear(); empty = true; break;
  case 1: how = "one name too few"; h.vs.pop_back(); if (mat) must_fail = form != 2 || h.vs.empty(); else if (h.vs.empty()) empty = true; break;
  case 2: how = "one name too many"; h.vs.push_back("extra"); must_fail = !mat; break;
  case 3: how = "no names"; h.vs.clear(); must_fail = mat; empty = !mat; break;
  default: how = "a shorter column"; if (mat || nr < 1 || nc < 2) { same_n = true; break; } { Val& c = d.v[1 + pick(nc - 1)]; if (c.t == VEC_REAL) c.vr.pop_back(); else c.vi.pop_back(); must_fail = true; }
  }
  GC* src = LIB(new GC); build(*src, t); op();
  string what = string(form == 0 ? "write_formatted_data" : form == 1 ? "write_table" : "write_table_formatted") + " of a " + (mat ? "matrix" : "vector") + " table with " + how + ": " + show(t, 3);
  log(what); state(hash_str("C14odd" + how + std::to_string(form) + (mat ? "M" : "") + std::to_string(nc)));
  OutMedium om; std::ostream os(&om); bool thrown = false; string ex;
  try { Lib l; vec_string_type const& hh = (*src)("headers").get_vec_string(); GC const& cd = (*src)("data");
    if (form == 0) src->write_formatted_data(os, ',');
    else if (form == 1) { if (mat) write_table(hh, cd.get_mat_real(), os, ','); else write_table(hh, cd.get_vector(), os, ','); }
    else { if (mat) write_table_formatted(hh, cd.get_mat_real(), os); else write_table_formatted(hh, cd.get_vector(), os); } }
  catch (std::exception const& e) { thrown = true; ex = e.what(); }
  logf("  %zu bytes%s%s", om.got.size(), thrown ? ", raised " : "", ex.substr(0, 60).c_str());
  if (must_fail && !thrown) violation("table-mismatch", what + ": written without an error: " + om.got);
  if (empty && !same_n && (thrown || om.got.find_first_not_of("\n") != string::npos)) violation("table-empty", what + ": " + (thrown ? "raised " + ex : "wrote '" + om.got.substr(0, 80) + "'"));
  { Val s = snapshot(*src); if (!same(s, t)) violation("table-const", what + ": writing changed the container: " + diff_vals(t, s)); }
  Lib l; delete src;
}
static void c14() {
  quiet_streams();
  if (pick(12) == 11) { c14_odd(); return; }
  GC* dst = LIB(new GC); Val dm; { Gen q; q.depth = 2; q.width = 3; dm = gen_val(q); build(*dst, dm); }
  string last;
  for (unsigned rounds = 1 + pick(3); rounds-- > 0;) {
    unsigned nc, nr; bool mat = pick(3) == 2;
    Val t = gen_table(mat, true, nc, nr, pick(8) != 7);
    bool dup = false; { auto hs = t.m["headers"].vs; for (size_t a = 0; a < hs.size(); ++a) for (size_t b = a + 1; b < hs.size(); ++b) if (hs[a] == hs[b]) dup = true; }
    GC* src = LIB(new GC); build(*src, t);
    int prec = 6; if (chance(1, 2)) { static const int ps[] = {17, 9, 3, 15, 12}; prec = ps[pick(5)]; }
    static const char dl[] = {'\t', ' ', ',', ';', '|', ':'}; char delim = dl[pick(6)];
    string what = "table " + show(t, 3) + " precision " + std::to_string(prec) + " delimiter '" + delim + "'";
    OutMedium om; std::ostream os(&om); os << std::setprecision(prec);
    uint32_t form = pick(4); bool pretty = form == 3;
    try { Lib l;
      if (form == 0) src->write_formatted_data(os, delim);
      else if (form == 1) src->writeFormattedData(os, delim);
      else { vec_string_type const& h = (*src)("headers").get_vec_string(); GC const& cd = (*src)("data");
        if (form == 2) { if (mat) write_table(h, cd.get_mat_real(), os, delim); else write_table(h, cd.get_vector(), os, delim); }
        else { if (mat) write_table_formatted(h, cd.get_mat_real(), os); else write_table_formatted(h, cd.get_vector(), os); } } }
    catch (std::exception const& e) { violation("table-write", what + ": writing raised " + e.what()); }
    { Val s = snapshot(*src); if (!same(s, t)) violation("table-const", what + ": writing changed the container"); }
    { Lib l; delete src; }
    string text = om.got;
    string seps(1, delim);
    if (pretty) {   // remove the two rules; columns are separated by blanks
      delim = ' '; seps = " "; string u, ln; size_t nth = 0, rules = 0; std::istringstream is(text);
      while (std::getline(is, ln)) { ++nth; if (nth == 2 || !ln.empty() && ln.find_first_not_of('-') == string::npos && nth == nr + 3) { if (ln.find_first_not_of('-') != string::npos) violation("table-write", what + ": formatted table has no rule in line " + std::to_string(nth)); ++rules; continue; } u += ln + "\n"; }
      if (rules != 2) violation("table-write", what + ": formatted table has " + std::to_string(rules) + " rules: " + text);
      text = u;
    }
    // the file is edited: comments and blank lines, parameters, a lost final newline
    vector<string> lines; { std::istringstream is(text); string ln; while (std::getline(is, ln)) lines.push_back(ln); }
    std::map<string, Val> pars; string file; bool as_map = pick(2);
    string comments = pick(3) ? "#%" : "*"; char cc = comments[0];
    for (auto& h : t.m["headers"].vs) if (h.find_first_of(comments) != string::npos) comments = "#%", cc = '#';
    for (size_t k = 0; k <= lines.size(); ++k) {
      while (chance(1, 6)) {
        uint32_t q = pick(4);
        if (q == 0 && as_map) { file += "\n"; }
        else if (q == 1) { static char const* ks[] = {"mass", "g", "name", "tau"}; string key = ks[pick(4)]; Val v; string vt; if (pick(2)) { v = Val::R(double(int(pick(2000)) - 1000) / 8); vt = encd(v.r); char b[40]; snprintf(b, sizeof b, "%.17g", v.r); vt = b; } else { vt = pick(2) ? "foo" : "long value_2"; v = Val::S(vt); }
          file += string(1, cc) + "! " + key + (pick(2) ? " = " : "=") + vt + (pick(3) == 2 ? "  " : "") + "\n"; pars[key] = v; }
        else { static char const* cs[] = {" comment", "", " 1 2 3", " a,b;c", "#"}; file += (pick(4) == 3 ? " " : "") + string(1, cc) + cs[pick(5)] + "\n"; }
      }
      if (k < lines.size()) file += lines[k] + "\n";
    }
    if (chance(1, 5)) { string f2; for (char c : file) { if (c == '\n') f2 += '\r'; f2 += c; } file = f2; what += " with CR LF line ends"; }   // passed through another system
    if (chance(1, 5) && !file.empty()) { file.pop_back(); fault(F_CUT); }
    log(what); if (verbose) log("   file: " + file);
    for (unsigned reads = 1 + pick(4); reads-- > 0;) {
      op();
      uint32_t kind = pick(6); int frag = int(pick(3));
      string bytes = file; size_t err = size_t(-1); string how = "read back"; Damage d; bool clean = kind <= 2;
      if (kind == 3) { err = pick(uint32_t(file.size() + 1)); how = "medium fails after " + std::to_string(err); }
      else if (kind == 4) { bytes.resize(pick(uint32_t(file.size() + 1))); fault(F_CUT); how = "cut to " + std::to_string(bytes.size()) + " of " + std::to_string(file.size()); if (bytes.size() == file.size()) clean = true; }
      else if (kind == 5) { bytes = damage_image(file, last, d); how = "altered:" + d.what; clean = !d.any; }
      state(hash_str("C14" + std::to_string(kind) + std::to_string(frag) + (as_map ? "m" : "v") + (mat ? "M" : "") + std::to_string(nc) + "," + std::to_string(nr) + std::to_string(form) + (dup ? "d" : "")));
      InMedium im(bytes, frag, err); std::istream is(&im);
      GC* pp = LIB(new GC); bool with_pars = as_map && pick(2);
      bool thrown = false; string ex;
      set_step_limit(4000000 + 40000 * uint64_t(bytes.size()));
      bool byname = chance(1, 4); std::unique_ptr<NamedFile> sf; string fname;
      if (byname) { if (chance(1, 8)) { fname = pick(2) ? "/nonexistent-gcsim/table" : "/"; err = 0; kind = 3; how = "the file cannot be read"; clean = false; } else { sf.reset(new NamedFile(bytes, frag, err)); if (sf->fd < 0) { sf.reset(); byname = false; } else fname = sf->path; } }
      AllocPlan plan; if (!clean && chance(1, 8)) { plan.mode = 1; plan.n = 1 + pick(30); arm(plan); }
      try { Lib l;
        bool old = pick(2);
        if (byname) { if (as_map) dst->read_formatted_data2(fname.c_str(), comments.c_str(), seps.c_str(), with_pars ? pp : nullptr); else dst->read_formatted_data(fname.c_str(), comments.c_str(), seps.c_str()); } else
        if (as_map) { if (old) dst->readFormattedData2(is, comments.c_str(), seps.c_str(), with_pars ? pp : nullptr); else dst->read_formatted_data2(is, comments.c_str(), seps.c_str(), with_pars ? pp : nullptr); }
        else { if (old) dst->readFormattedData(is, comments.c_str(), seps.c_str()); else dst->read_formatted_data(is, comments.c_str(), seps.c_str()); }
      } catch (std::exception const& e) { thrown = true; ex = e.what(); }
      uint64_t nf = plan.mode ? fired() : 0; disarm(); set_step_limit(40000000);
      if (byname) im.failed = sf ? sf->failed : true; sf.reset();
      Val s = snapshot(*dst); mix(enc(s));
      logf("%s, %s form -> %s", how.c_str(), as_map ? "map" : "vector", thrown ? ex.c_str() : show(s, 3).c_str());
      if (clean) {
        if (dup && as_map) { if (!thrown) wellformed(s, as_map, what); }
        else {
          if (thrown) violation("table-lost", what + ": reading back raised " + ex + " from " + file);
          wellformed(s, as_map, what);
          Val const& h = s.m["headers"]; if (h.vs != t.m["headers"].vs) violation("table-headers", what + ": headers came back as " + show(h, 2));
          for (unsigned c = 0; c < nc; ++c) {
            Val const& col = as_map ? s.m["data"].m[h.vs[c]] : s.m["data"].v[c];
            if (col.vr.size() != nr) violation("table-rows", what + ": column " + std::to_string(c) + " has " + std::to_string(col.vr.size()) + " rows");
            for (unsigned r = 0; r < nr; ++r) {
              double x = cell(t, c, r), y = col.vr[r];
              if (x == y || (x != x && y != y)) continue;
              if (std::isfinite(x) && std::isfinite(y) && std::fabs(x - y) <= printed_rel(prec) * std::fabs(x) + 1e-300) continue;
              if (std::isfinite(x) && std::fabs(x) > 1.5e308 && std::isinf(y)) continue;   // rounded up when printed
              violation("table-value", what + ": column " + std::to_string(c) + " row " + std::to_string(r) + " is " + std::to_string(y) + " instead of " + encd(x));
            }
          }
          if (with_pars) { Val ps = snapshot(*pp);
            Val want; if (!pars.empty()) { want = Val::of(MAP); for (auto& e : pars) want.m[e.first] = e.second; }
            if (!same(ps, want)) violation("table-parameters", what + ": parameters came back as " + show(ps, 2) + " instead of " + show(want, 2)); }
        }
      } else if (!thrown) {
        wellformed(s, as_map, what + " " + how);
        if (kind == 3 && im.failed) violation("table-undetected", what + ": " + how + " bytes, but reading reported success");
      } else if (!nf && !same(s, dm)) {   // (an earlier failed memory request may have left what is there)
        // an error: whatever was filled in has equal columns too
        if (s.t == MAP && s.m.count("data") && s.m.count("headers") && !dup && s.m["data"].t == VECTOR) { size_t len = size_t(-1); for (auto& c : s.m["data"].v) if (c.t == VEC_REAL) { if (len == size_t(-1)) len = c.vr.size(); else if (len != c.vr.size()) violation("table-ragged", what + " " + how + ": failed and left columns of different length"); } }
      }
      dm = s; (void)nf;
      { Lib l; delete pp; }
      if (chance(1, 4)) { StepOpt o; o.report_accept = o.report_reject = false; step_ops(*dst, dm, o); if (count_nodes(dm) > 60) { dst->clear(); dm = Val(); } }
    }
    last = file;
    // a table that cannot be written is refused
    if (chance(1, 4)) {
      op(); fault(F_MISUSE);
      GC* bad = LIB(new GC); Val b = t; uint32_t q = pick(9);
      if (q == 0 && mat && pick(2)) b.m["headers"].vs.pop_back();
      else if (q == 0) { b.m["headers"].vs.push_back("extra"); if (mat) q = 9; }
      else if (q >= 6 && (mat || !nr)) { b.m["headers"].vs.push_back("extra"); if (mat) q = 9; }
      else if (q == 6 && nc < 2) b.m["data"] = Val::B(true);
      else if (q == 6) { Val& c = b.m["data"].v[1 + pick(nc - 1)]; if (c.t == VEC_REAL) c.vr.pop_back(); else c.vi.pop_back(); }   // a column shorter than the first
      else if (q == 7) { Val& c = b.m["data"].v[pick(nc)]; c = Val::of(VEC_STRING); for (unsigned r = 0; r < nr; ++r) c.vs.push_back("s"); }
      else if (q == 8) { Val& c = b.m["data"].v[pick(nc)]; c = Val::of(MAP); for (unsigned r = 0; r < nr; ++r) c.m["k" + std::to_string(r)] = Val::I(1); }
      else if (q == 1) b.m.erase("data"); else if (q == 2) b.m.erase("headers");
      else if (q == 3) b.m["headers"] = Val::I(3); else if (q == 4) { b.m["data"] = Val::S("x"); } else { b.m["data"] = Val::of(VECTOR); }
      build(*bad, b); OutMedium o2; std::ostream s2(&o2); bool th = false;
      log("writing the malformed table " + show(b, 3));
      bool direct = (b.m.count("headers") && b.m["headers"].t == VEC_STRING && b.m.count("data") && (b.m["data"].t == VECTOR || b.m["data"].t == MAT_REAL)) && pick(2); bool fmt = direct && pick(2);
      if (fmt && b.m["data"].t == MAT_REAL) q = 9;   // the formatted listing of a matrix shows columns without a header too
      try { Lib l;
        if (!direct) bad->write_formatted_data(s2);
        else { vec_string_type const& h = (*bad)("headers").get_vec_string(); GC const& cd = (*bad)("data");
          if (fmt) { if (cd.get_type() == GC_type::MAT_REAL) write_table_formatted(h, cd.get_mat_real(), s2); else write_table_formatted(h, cd.get_vector(), s2); }
          else { if (cd.get_type() == GC_type::MAT_REAL) write_table(h, cd.get_mat_real(), s2, ','); else write_table(h, cd.get_vector(), s2, ','); } }
      } catch (std::exception const&) { th = true; }
      if (!th && q != 9) violation("table-write", "a table that cannot be written was accepted: " + show(b, 3));
      Val s = snapshot(*bad); if (!same(s, b)) violation("table-const", "refusing a table changed it");
      { Lib l; delete bad; }
    }
  }
  { Lib l; delete dst; }
}
void scen_c10() { c10(); }
void scen_c14() { c14(); }
}
