// C01: every memory request of every operation may fail.
#include "docs.hh"
#include "GenericContainer/GenericContainerInterface_C.h"
#include "GenericContainer/GenericContainerInterface_json.hh"
#include "GenericContainer/GenericContainerInterface_yaml.hh"
#include "GenericContainer/GenericContainerInterface_toml.hh"
namespace sim {
using namespace GC_namespace;
namespace {
string keep(std::string const& r) { Out o; return string(r.data(), r.size()); }
string to_text(std::function<void(std::ostream&)> const& f) {
  OutMedium om; std::ostream os(&om); bool ok = true; (void)ok;
  { Lib l; f(os); }
  return (os ? "" : "!") + om.got;
}
// libstdc++ formats std::complex through a stream of its own and swallows that stream's failures
bool has_complex(Val const& v) { if (v.t == COMPLEX || v.t == VEC_COMPLEX || v.t == MAT_COMPLEX) return true; for (auto& x : v.v) if (has_complex(x)) return true; for (auto& x : v.m) if (has_complex(x.second)) return true; return false; }
} // namespace
Big gen_big(Val const& ma, Val const& mb, bool capi) {
  Big o; Gen gs; (void)mb; bool cx = has_complex(ma);
  uint32_t form = pick(20); if (form == 18 && !capi) form = 17;
  switch (form) {
  case 0: case 1: o.name = "merge"; o.mutates = true; o.run = [](GC& a, GC& b) { Lib l; a.merge(b, "C01"); return string(); }; break;
  case 2: o.name = "collapse"; o.mutates = true; o.run = [](GC& a, GC&) { Lib l; a.collapse(); return string(); }; break;
  case 3: o.name = "compare_content"; o.run = [](GC& a, GC& b) { Lib l; std::string r = a.compare_content(b, "x"); return string(r.empty() ? "same" : "different"); }; break;
  case 4: case 5: { uint32_t w = pick(11); if (w == 8 || w == 9 || (w >= 5 && w <= 7)) w = pick(5); o.name = writer_name[w]; Val m = ma; o.exact_result = !cx;
    o.run = [w, m](GC& a, GC&) { bool ok = true; string r = to_text([&](std::ostream& os) { if (w == 4) ok = a.to_toml(os); else do_write(w, a, m, os, "  "); }); return ok ? r : "!" + r; }; break; }
  case 6: o.name = "print to a string"; o.exact_result = !cx; o.run = [](GC& a, GC&) { Lib l; std::string r = a.print("p ", " "); return keep(r); }; break;
  case 7: { int f = int(pick(3)); o.name = string("GC_to_") + fmt_name[f] + " (string)"; o.exact_result = !cx; o.run = [f](GC& a, GC&) { Lib l; std::string r; bool ok = true; switch (f) { case 0: GC_to_JSON(a, r); break; case 1: GC_to_YAML(a, r); break; default: ok = GC_to_TOML(a, r); } return (ok ? "" : "!") + keep(r); }; break; }
  case 8: case 9: { o.name = "serialize"; o.run = [](GC& a, GC&) { Lib l; vector<uint8_t> v; int32_t n = a.serialize(v); string t((char const*)v.data(), v.size()); Out o2; return std::to_string(n) + ":" + keep(t); }; break; }
  case 10: case 11: { Gen g; g.depth = 2; Val v = gen_val(g); GC t; build(t, v); auto img = std::make_shared<vector<uint8_t>>(); LIB(t.serialize(*img)); img->shrink_to_fit();
    { vector<uint8_t> c; { c.assign(img->begin(), img->end()); } *img = c; }
    o.name = "de_serialize " + show(v, 2); o.mutates = true; string bytes((char const*)img->data(), img->size()); img.reset();
    o.run = [bytes](GC& a, GC&) { char* p = (char*)malloc(bytes.size()); memcpy(p, bytes.data(), bytes.size()); std::unique_ptr<char, void (*)(void*)> hold(p, free); Lib l; int32_t r = a.de_serialize(int32_t(bytes.size()), (uint8_t const*)p); Out q; return std::to_string(r); }; break; }
  case 12: case 13: case 14: { Fmt f = Fmt(pick(3)); Val d = gen_doc(f, int(1 + pick(2)), f == JSON); GC t; build(t, d); OutMedium om; std::ostream os(&om); bool ok; { Lib l; write_doc(f, t, os, ok); } string text = om.got;
    if (chance(1, 6) && !text.empty()) { text.resize(pick(uint32_t(text.size()))); if (f == YAML) ignore_leaks(); }
    o.name = string("read ") + fmt_name[f] + " " + show(d, 2); o.mutates = true; bool other = f == JSON && pick(2); if (other) o.name += " by the second reader";
    o.run = [f, text, other](GC& a, GC&) { InMedium im(text, 0); std::istream is(&im); Lib l; bool r = read_doc(f, a, is, other); Out q; return string(r ? "read" : "!refused"); }; break; }
  case 15: { unsigned c, r; Val t = gen_table(pick(2), true, c, r, true); GC s; build(s, t); OutMedium om; std::ostream os(&om); { Lib l; s.write_formatted_data(os, ','); } string text = om.got; if (chance(1, 2)) text = "#! mass = 3.5\n# c\n" + text; bool mp = pick(2);
    o.name = "read table " + show(t, 2); o.mutates = true;
    o.run = [text, mp](GC& a, GC&) { InMedium im(text, 0); std::istream is(&im); Lib l; if (mp) { GC p; a.read_formatted_data2(is, "#", ",", &p); } else a.read_formatted_data(is, "#", ","); return string(); }; break; }
  case 16: { uint32_t w = 5 + pick(3); unsigned c, r; Val t = gen_table(pick(3) == 2, true, c, r, false); o.name = string(writer_name[w]) + " of " + show(t, 2);
    o.run = [w, t](GC&, GC&) { GC s; build(s, t); return to_text([&](std::ostream& os) { do_write(w, s, t, os, ""); }); }; break; }
  case 17: { uint32_t h = pick(6); o.name = "copy form " + std::to_string(h); o.mutates = h < 3;
    o.run = [h](GC& a, GC& b) { Lib l; switch (h) { case 0: a = b; break; case 1: a.load(b); break; case 2: b.to_gc(a); break; case 3: { GC c(a); GC d(c); d = b; break; } case 4: { GC* p = new GC(b); std::unique_ptr<GC> q(p); GC e; e.from_gc(*q); break; } default: { GC v; vector_type& x = v.set_vector(3); x[0] = a; x[1].load(b); x[2] = v; map_type& m = v["k"].get_type() == GC_type::MAP ? v["k"].get_map() : v["k"].set_map(); m["z"] = b; break; } } return string(); };
    break; }
  case 18: { struct C { uint32_t k; int v; string s; }; auto prog = std::make_shared<vector<C>>(); for (unsigned n = 2 + pick(12); n-- > 0;) { C c; c.k = pick(22); c.v = int(pick(4)); string s = gen_string(gs); c.s = s.substr(0, s.find('\0')); if (pick(2)) c.s += " and a tail that does not fit in a small string"; prog->push_back(c); }
    o.name = "C calls"; for (auto& c : *prog) o.name += " " + std::to_string(c.k);
    o.run = [prog](GC& a, GC&) { string out; 
      auto rec = [&](long r) { Out q; out += std::to_string(r) + ","; };
      bool alive = false;
      try { Lib l;
        { void* p = GC_mem_ptr("C01 session with a name too long for a small string"); if (p) { Out q; alive = true; } rec(p != nullptr); }
        if (alive) rec(GC_select("C01 session with a name too long for a small string"));
        if (alive) for (auto& c : *prog) {
          char const* s = c.s.c_str(); double d[3] = {1, 2.5, -3}; int b[3] = {1, 0, 7}; char const* ss[3] = {s, "x", s}; long r = 0;
          switch (c.k) {
          case 0: r = GC_set_bool(c.v); break; case 1: r = GC_set_int(c.v); break; case 2: r = GC_set_real(c.v); break; case 3: r = GC_set_complex2(c.v, 1); break; case 4: r = GC_set_string(s); break;
          case 5: r = GC_push_bool(c.v); break; case 6: r = GC_push_int(c.v); break; case 7: r = GC_push_real(c.v); break; case 8: r = GC_push_complex2(c.v, 2); break; case 9: r = GC_push_string(s); break;
          case 10: r = GC_set_vector_of_real(d, 3); break; case 11: r = GC_set_vector_of_int(b, 3); break; case 12: r = GC_set_vector_of_string(ss, 3); break; case 13: r = GC_set_vector_of_bool(b, 3); break; case 14: r = GC_set_vector_of_complex(d, d, 3); break;
          case 15: r = GC_set_vector(c.v); break; case 16: r = GC_push_vector_position(c.v); break; case 17: r = GC_set_map(); break; case 18: r = GC_push_map_position(s); break; case 19: r = GC_pop_head(); break;
          case 20: { r = GC_init_map_key(); for (int k = 0; k < 3; ++k) { char const* q = GC_get_next_key(); r = r * 3 + (q ? 1 : 0); } break; }
          default: r = GC_reset_head(); }
          rec(r);
        }
      } catch (...) { Out q; disarm(); violation("capi-throw", "a C++ exception reached the C caller"); }
      (void)a; return out; };
    break; }
  default: { Gen g; Val v = gen_any(g); o.name = "build " + show(v, 2) + " inside"; o.mutates = true;
    o.run = [v](GC& a, GC&) { GC t; build(t, v); Lib l; if (a.get_type() == GC_type::MAP) { a["new key that needs an allocation of its own"] = t; a.erase("new key that needs an allocation of its own"); } else if (a.get_type() == GC_type::VECTOR) { vector_type& x = a.get_vector(); x.push_back(t); x.pop_back(); } else a = t; return string(); }; break; }
  }
  return o;
}

static void c01() {
  quiet_streams();
  const int N = 2; GC* g[N]; Val m[N];
  for (int k = 0; k < N; ++k) { g[k] = LIB(new GC); Gen q; q.depth = 2; m[k] = pick(4) ? gen_val(q) : Val(); build(*g[k], m[k]); }
  for (unsigned n = 2 + pick(16); n-- > 0;) {
    op();
    if (pick(2)) {
      int k = int(pick(N)); StepOpt o; o.report_accept = o.report_reject = false;
      o.plan.mode = int(1 + pick(4)); o.plan.n = o.plan.mode == 3 ? 2 + pick(6) : 1 + pick(pick(3) ? 4 : 14); o.plan.m = 1 + pick(3);
      step_ops(*g[k], m[k], o);
      if (count_nodes(m[k]) > 50) { { Lib l; g[k]->clear(); } m[k] = Val(); }
      continue;
    }
    // one of the large operations: first with all the memory it asks for on copies, then with a failure at one of its requests
    int ia = int(pick(N)), ib = pick(5) ? 1 - ia : ia;
    Path pa = random_path(m[ia]), pb = random_path(m[ib]);
    if (ia == ib) pb = pa;
    if (chance(1, 4)) { Gen q; q.depth = 2; Val v = chance(1, 2) ? gen_any(q) : gen_val(q); GC tmp; build(tmp, v); at(*g[ia], pa).from_gc(tmp); at(m[ia], pa) = v; if (ia == ib) pb = pa; }
    Val va = at(m[ia], pa), vb = at(m[ib], pb);
    Big b = gen_big(va, vb, true);
    bool alias = ia == ib; bool capi = b.name.compare(0, 7, "C calls") == 0;
    string want; bool dry_threw = false; Val after; uint64_t cnt;
    auto drop = [&] { Lib l; GC_delete("C01 session with a name too long for a small string"); };
    Val csnap_want;
    auto csnap = [&]() -> Val { void* p; { Lib l; p = GC_mem_ptr("C01 session with a name too long for a small string"); } return p ? snapshot(*(GC*)p) : Val(); };
    {
      GC* da = LIB(new GC); build(*da, va); GC* db = alias ? da : LIB(new GC); if (!alias) build(*db, vb);
      reset_requests();
      try { want = b.run(*da, *db); } catch (std::exception const& e) { dry_threw = true; want = e.what(); }
      cnt = requests(); after = snapshot(*da);
      if (capi) { csnap_want = csnap(); drop(); }
      Lib l; delete da; if (!alias) delete db;
    }
    AllocPlan p; p.mode = pick(4) == 3 ? 2 : pick(6) == 5 ? 4 : 1; p.n = cnt ? 1 + pick(uint32_t(std::min<uint64_t>(cnt, 100000))) : 1; p.m = 1 + pick(4);
    string what = b.name + " on " + show(va, 2) + " with " + show(vb, 2) + ", memory request " + std::to_string(p.n) + (p.mode == 2 ? " and all later ones" : "") + " of " + std::to_string(cnt) + " fails";
    log(what);
    string got; bool threw = false, oom = false; string ex;
    GC& ra = at(*g[ia], pa); GC& rb = alias ? ra : at(*g[ib], pb);
    arm(p);
    try { got = b.run(ra, rb); } catch (std::bad_alloc const&) { threw = oom = true; ex = "bad_alloc"; } catch (std::exception const& e) { threw = true; ex = e.what(); } catch (...) { disarm(); violation("bad-exception", what + ": raised something that is not a std::exception"); }
    uint64_t f = fired(); disarm();
    Val csnap_got; if (capi) { csnap_got = csnap(); drop(); }
    state(hash_str("C01" + b.name.substr(0, 12) + "|" + std::to_string(va.t) + "|" + std::to_string(vb.t) + (threw ? "t" : "n") + std::to_string(p.n > 6 ? 6 : p.n) + (f ? "f" : "")));
    mix(got); mix(threw ? 5 : 2);
    logf("    -> %s%s", threw ? "raised " : "returned ", threw ? ex.c_str() : got.size() > 100 ? "(long)" : got.c_str());
    Val before[N]; for (int k = 0; k < N; ++k) before[k] = m[k];
    for (int k = 0; k < N; ++k) m[k] = snapshot(*g[k]);
    // what was only read, and everything that is not the target, keeps its value
    for (int k = 0; k < N; ++k) {
      Val x = before[k], y = m[k];
      if (k == ia && b.mutates) {
        at(x, pa) = Val(); Val* q = &y; bool gone = false;
        for (auto& st : pa.steps) { if (st.first >= 0) { if (q->t != VECTOR || q->v.size() <= size_t(st.first)) { gone = true; break; } q = &q->v[size_t(st.first)]; } else { if (q->t != MAP || !q->m.count(st.second)) { gone = true; break; } q = &q->m[st.second]; } }
        if (gone) violation("oom-spill", what + ": the path to the target disappeared");
        *q = Val();
      }
      if (!same(x, y)) violation("oom-spill", what + ": data that was not being modified changed: " + diff_vals(x, y));
    }
    bool failed = threw || (!got.empty() && got[0] == '!');
    if (!failed && dry_threw) violation("oom-silent", what + ": has to be refused (" + want + ") but returned normally");
    if (!failed && !capi) {
      if (b.exact_result && got != want) violation("oom-silent", what + ": returned normally after " + std::to_string(f) + " failed memory requests, but its result is '" + got + "' instead of '" + want + "'");
      if (b.mutates && !same(after, at(m[ia], pa))) violation("oom-silent", what + ": returned normally after " + std::to_string(f) + " failed memory requests, but the container differs from the undisturbed result: " + diff_vals(after, at(m[ia], pa)));
    }
    if (capi && got == want && !same(csnap_want, csnap_got)) violation("oom-silent", what + ": every call reported what it reports undisturbed, but the container differs: " + diff_vals(csnap_want, csnap_got));
    if (failed && !f && !dry_threw && !(want.size() && want[0] == '!')) violation("oom-spurious", what + ": failed (" + ex + got + ") although every memory request was granted");
    (void)oom;
    // still usable
    if (threw && chance(1, 4)) {
      Gen q; Val v = gen_any(q); GC tmp; build(tmp, v); at(*g[ia], pa).from_gc(tmp); at(m[ia], pa) = v;
      Val s = snapshot(*g[ia]); if (!same(s, m[ia])) violation("oom-usable", what + ": a later assignment does not take: " + diff_vals(m[ia], s));
    }
    for (int k = 0; k < N; ++k) if (count_nodes(m[k]) > 50) { { Lib l; g[k]->clear(); } m[k] = Val(); }
  }
  for (int k = 0; k < N; ++k) { Lib l; delete g[k]; }
}
void scen_c01() { c01(); }
}
