// C07 C08 C09: text documents on a simulated medium.
#include "docs.hh"
#include <iomanip>
#include "GenericContainer/GenericContainerInterface_json.hh"
#include "GenericContainer/GenericContainerInterface_yaml.hh"
#include "GenericContainer/GenericContainerInterface_toml.hh"
namespace sim {
char const* fmt_name[3] = {"JSON", "YAML", "TOML"};
struct NullBuf : std::streambuf { int_type overflow(int_type c) override { return traits_type::not_eof(c); } std::streamsize xsputn(char const*, std::streamsize n) override { return n; } };
void quiet_streams() { static NullBuf* nb = new NullBuf; std::cerr.clear(); std::cout.clear(); std::cerr.rdbuf(nb); std::cout.rdbuf(nb); }

static void tame(Val& v, Fmt f) {
  auto fix = [&](double& d) { if (d != 0 && !(std::fabs(d) >= 1e-300 && std::fabs(d) <= 1e300)) { if (f == TOML) return; d = std::isfinite(d) ? (std::fabs(d) < 1 ? 1e-300 : 1e300) : 1.5; } };
  fix(v.r); for (auto& d : v.vr) fix(d);
  auto fixc = [&](cplx& c) { double a = c.real(), b = c.imag(); fix(a); fix(b); c = cplx(a, b); };
  fixc(v.c); for (auto& c : v.vc) fixc(c);
  for (auto& x : v.v) tame(x, f);
  for (auto& x : v.m) tame(x.second, f);
}
Val gen_doc(Fmt f, int depth, bool scalar_top, bool own) {
  Gen g; g.depth = depth; g.width = 2 + pick(4); g.pointers = g.complexes = !own && chance(1, 4); g.nonfinite = f == TOML; g.utf8_only = true; g.notype = f != TOML; g.mats = f != TOML || (!own && chance(1, 3));
  g.nuls = true;
  Val v;
  for (int k = 0;; ++k) {
    v = gen_val(g);
    if (f == JSON && (v.t == MAP || v.t == VECTOR || v.size() > 1 || scalar_top)) break;
    if (f != JSON && v.t == MAP) break;
    if (k > 6) { Val m = Val::of(MAP); m.m[gen_key(g)] = v; v = m; break; }
  }
  tame(v, f);
  return v;
}
void write_doc(Fmt f, GC const& g, std::ostream& s, bool& ok) {
  ok = true;
  switch (f) { case JSON: g.to_json(s); break; case YAML: g.to_yaml(s); break; case TOML: ok = g.to_toml(s); break; }
}
bool read_doc(Fmt f, GC& g, std::istream& s, bool other) {
  switch (f) { case JSON: return other ? g.from_json2(s) : g.from_json(s); case YAML: return g.from_yaml(s); default: return g.from_toml(s); }
}
double printed_rel(int prec) { return 0.6 * std::pow(10.0, 1 - prec) + 2e-14; }

// How TOML spells what it has no type for: a complex number as [re, im], a matrix as a table with its type, size and data by columns.
static Val express(Fmt f, Val v) {
  for (auto& x : v.v) x = express(f, x);
  for (auto& x : v.m) x.second = express(f, x.second);
  if (f != TOML) return v;
  auto pair = [](cplx const& c) { Val r = Val::of(VEC_REAL); r.vr = {c.real(), c.imag()}; return r; };
  Val r;
  if (v.t == COMPLEX) return pair(v.c);
  if (v.t == VEC_COMPLEX) { r = Val::of(VECTOR); for (auto& c : v.vc) r.v.push_back(pair(c)); return r; }
  if (!v.is_mat()) return v;
  static char const* nm[] = {"$mat_integer", "$mat_long", "$mat_real", "$mat_complex"};
  r = Val::of(MAP); Val& q = r.m[nm[v.t - MAT_INTEGER]]; q = Val::of(MAP);
  q.m["$nrows"] = Val::I(v.nr); q.m["$ncols"] = Val::I(v.nc);
  if (v.t == MAT_COMPLEX) { Val a = Val::of(VEC_REAL), b = a; for (auto& c : v.vc) { a.vr.push_back(c.real()); b.vr.push_back(c.imag()); } q.m["$data_real"] = a; q.m["$data_imag"] = b; }
  else { Val& d = q.m["$data"]; d = v; d.nr = d.nc = 0; d.t = v.t == MAT_REAL ? VEC_REAL : v.t == MAT_LONG ? VEC_LONG : VEC_INTEGER; }
  return r;
}

// text produced through one of the library's entry points
static string produce(Fmt f, GC const& g, int prec, string const& what) {
  bool ok = true; string out;
  uint32_t form = pick(3);
  try {
    if (form == 0 || prec != 6) {
      OutMedium om; std::ostream os(&om); os << std::setprecision(prec);
      if (chance(1, 4)) { if (pick(2)) os << std::scientific; if (pick(2)) os << std::uppercase; if (pick(2)) os << std::boolalpha; if (pick(2)) os << std::left; }   // settings a program may have made for its own output
      { Lib l; write_doc(f, g, os, ok); }
      if (!os) violation("doc-write", what + ": writing to a healthy medium failed");
      out = om.got;
    } else if (form == 1) {
      Lib l; std::string r;
      switch (f) { case JSON: GC_namespace::GC_to_JSON(g, r); break; case YAML: GC_namespace::GC_to_YAML(g, r); break; default: GC_namespace::GC_to_TOML(g, r); }
      Out o; out = string(r.data(), r.size());
    } else {
      OutMedium om; std::ostream os(&om);
      { Lib l; switch (f) { case JSON: GC_namespace::GC_to_JSON(g, os); break; case YAML: GC_namespace::GC_to_YAML(g, os); break; default: GC_namespace::GC_to_TOML(g, os); } }
      out = om.got;
    }
  } catch (std::exception const& e) { violation("doc-write", what + ": the writer raised " + e.what()); }
  if (!ok) violation("doc-write", what + ": the writer reported a failure");
  return out;
}

static void text_scenario(Fmt f) {
  quiet_streams();
  string F = fmt_name[f];
  GC* dst = LIB(new GC); Val dm; { Gen q; q.depth = 2; q.width = 3; dm = gen_val(q); build(*dst, dm); }
  allow_huge(200);
  string last;
  for (unsigned rounds = 1 + pick(4); rounds-- > 0;) {
    Val doc = gen_doc(f, int(1 + pick(3)), true);
    GC* src = LIB(new GC); build(*src, doc);
    int prec = 6; if (f != TOML && chance(1, 2)) { static const int ps[] = {17, 9, 3, 15, 12}; prec = ps[pick(5)]; }
    string what = F + " of " + show(doc, 2);
    string text = produce(f, *src, prec, what);
    { Val s = snapshot(*src); if (!same(s, doc)) violation("doc-const", what + ": writing changed the container: " + diff_vals(doc, s)); }
    { Lib l; delete src; }
    log(what); if (verbose) log("   text: " + text);
    bool structured = f != JSON || doc.t == MAP || (doc.t >= VEC_POINTER && doc.t <= VECTOR);
    NormOpt no; no.as_text = true; no.rel = f == TOML ? 0 : printed_rel(prec); no.keep_int = true; no.keep_real = f == TOML;
    for (unsigned reads = 1 + pick(5); reads-- > 0;) {
      op();
      uint32_t kind = pick(8);
      int frag = int(pick(3)); bool seek = pick(2);
      state(hash_str(F + std::to_string(kind) + "|" + std::to_string(frag) + std::to_string(seek) + "|" + std::to_string(doc.t) + "|" + std::to_string(dm.t) + "|" + std::to_string(std::min<size_t>(text.size() / 16, 20))));
      string bytes = text; size_t err = size_t(-1); bool must_fail = false, must_match = false; string how;
      Damage d;
      if (kind <= 3) { must_match = true; how = "read back"; }
      else if (kind == 4) { if (f == YAML) ignore_leaks(); size_t c = pick(uint32_t(text.size() ? text.size() : 1)); bytes.resize(c); fault(F_CUT); must_fail = f == JSON && structured && c < text.size(); how = "cut to " + std::to_string(c) + " of " + std::to_string(text.size()) + " bytes"; }
      else if (kind == 5) { err = pick(uint32_t(text.size() + 1)); must_fail = true; how = "medium fails after " + std::to_string(err) + " of " + std::to_string(text.size()) + " bytes"; }
      else { if (f == YAML) ignore_leaks(); bytes = damage_image(text, last, d); how = "altered:" + d.what; if (!d.any) must_match = true; }
      logf("%s, fragments=%d seekable=%d over %s", how.c_str(), frag, int(seek), show(dm, 1).c_str());
      InMedium im(bytes, frag, err, seek); std::istream is(&im);
      bool ok = false, thrown = false, cleared = false; string ex;
      set_step_limit(4000000 + 40000 * uint64_t(bytes.size()));
      try {
        uint32_t form = pick(4);
        std::unique_ptr<NamedFile> sf; bool missing = false;
        if (form == 3) { missing = chance(1, 8); if (!missing) { sf.reset(new NamedFile(bytes, frag, err)); if (sf->fd < 0) form = 0; } }
        if (form == 3) {
          cleared = true; string path = missing ? pick(2) ? "/nonexistent-gcsim/doc" : "/" : sf->path; logf("    by name%s", missing ? ", the file cannot be read" : "");
          { Lib l; std::string t(path.data(), path.size()); ok = f == JSON ? GC_namespace::file_JSON_to_GC(t, *dst) : f == YAML ? GC_namespace::file_YAML_to_GC(t, *dst) : GC_namespace::file_TOML_to_GC(t, *dst); }
          if (missing) { must_match = false; must_fail = true; how += " (from a file that cannot be read)"; }
          else im.failed = sf->failed;
        }
        else if (form == 2 && kind != 5) { cleared = true; Lib l; std::string t(bytes.data(), bytes.size()); ok = f == JSON ? GC_namespace::JSON_to_GC(t, *dst) : f == YAML ? GC_namespace::YAML_to_GC(t, *dst) : GC_namespace::TOML_to_GC(t, *dst); }
        else if (form == 1) { cleared = true; Lib l; ok = f == JSON ? GC_namespace::JSON_to_GC(is, *dst) : f == YAML ? GC_namespace::YAML_to_GC(is, *dst) : GC_namespace::TOML_to_GC(is, *dst); }
        else { bool other = f == JSON && pick(2); if (other) log("    by the second reader"); Lib l; ok = read_doc(f, *dst, is, other); }
      } catch (std::exception const& e) { thrown = true; ex = e.what(); ok = false; }
      set_step_limit(40000000);
      Val s = snapshot(*dst);
      mix(ok ? 1 : 2); mix(enc(s));
      logf("    -> %s %s", ok ? "success" : thrown ? ex.c_str() : "failure", show(s, 2).c_str());
      // rapidjson stops reading at the closing bracket; a medium that fails later was never asked
      if (kind == 5 && !im.failed && how.back() != ')') { must_fail = false; must_match = ok; }
      if (must_fail && ok) violation("doc-undetected", what + ": " + how + " but reading reported success with " + show(s, 2));
      if (must_match) {
        if (!ok) violation("doc-lost", what + ": " + how + " was reported as a failure" + (thrown ? ": " + ex : ""));
        string why;
        if (!equiv(express(f, doc), s, no, why)) violation("doc-value", what + " over " + show(dm, 1) + ": the document came back different " + why);
      }
      if (!ok) {
        Val expect = cleared ? Val() : dm;
        if (!same(expect, s)) violation("doc-residue", what + ": " + how + ", a failed read left " + show(s, 2) + " instead of " + show(expect, 2));
      }
      dm = s;
      if (chance(1, 4)) { StepOpt o; step_ops(*dst, dm, o); if (count_nodes(dm) > 60) { dst->clear(); dm = Val(); } }
    }
    last = text;
  }
  if (f == TOML) {   // what TOML cannot express
    Gen g; g.depth = 2; g.pointers = g.complexes = g.mats = false; g.utf8_only = true;
    Val doc = Val::of(MAP); doc.m["k"] = gen_val(g); Val* at_ = &doc; 
    for (unsigned k = 1 + pick(3); k-- > 0;) { if (chance(1, 2)) { Val v = Val::of(VECTOR); for (unsigned q = pick(3); q-- > 0;) v.v.push_back(Val::I(int(q))); v.v.push_back(Val()); at_->m["n"] = v; at_->m["m"] = Val::of(MAP); at_ = &at_->m["m"]; } else { at_->m["q"] = Val::of(MAP); at_ = &at_->m["q"]; } }
    at_->m["z"] = Val();
    GC* src = LIB(new GC); build(*src, doc);
    OutMedium om; std::ostream os(&om); bool ok = true;
    op(); log("TOML of a tree with an empty value " + show(doc, 3));
    try { ok = LIB(src->to_toml(os)); } catch (std::exception const&) { ok = false; }
    if (ok) violation("doc-inexpressible", "TOML of " + show(doc, 3) + " reported success although it holds an empty value");
    Val s = snapshot(*src); if (!same(s, doc)) violation("doc-const", "a refused TOML write changed the container");
    { Lib l; delete src; }
  }
  { Lib l; delete dst; }
}
void scen_c07() { text_scenario(JSON); }
void scen_c08() { text_scenario(YAML); }
void scen_c09() { text_scenario(TOML); }
}
