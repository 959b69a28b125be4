// C12: clients of the C interface, interleaved over named containers, against a cursor-over-tree model.
#include "ops.hh"
#include "docs.hh"
#include "scen.hh"
#include "GenericContainer/GenericContainerInterface_C.h"
namespace sim {
namespace {
struct Session { Val root; vector<Path> heads; vector<string> keys; size_t kpos = 0; GC* real = nullptr; };
struct World {
  map<string, Session> s; string active; bool any = false;
  Session* cur() { return any ? &s[active] : nullptr; }
};
string cstr(string const& s) { return s.substr(0, s.find('\0')); }
string no_nul(string s) { for (auto& c : s) if (!c) c = '0'; return s; }
string pstr(char const* p) { return p ? "'" + string(p) + "'" : "NULL"; }

// one call: how it is made, what the model says
struct Call {
  string name; bool setter = false;                 // setter: returns an error code; else: returns a value
  std::function<string()> real;                     // result as text ("ok"/"err" for codes)
  string want; string neutral;                      // expected text, and the neutral value allowed when memory fails
  bool moves = false;
};
string code(int rc) { return rc == 0 ? "ok" : "err"; }
string dtxt(double d) { return encd(d); }
string ctxt(c_complex_type c) { return encc(cplx(c.real, c.imag)); }
int small_index(Val const& t) { uint32_t k = pick(8); unsigned n = t.size(); if (k < 5 && n) return int(pick(n)); if (k < 6) return int(n + pick(3)); if (k == 6) return -1 - int(pick(3)); static const int big[] = {2147483647, -2147483647 - 1, 1000000, 12}; return big[pick(4)]; }
char const* type_name_of(Val const& v) { return v.t == NOTYPE ? "NOTYPE" : tname[v.t]; }

void push_model(Val& h, Val const& x, int target, uint32_t direct, bool may_promote) {   // throws Reject
  if (direct & (1u << h.t)) { append_elem(h, x); return; }
  if (!may_promote) throw Reject();
  if (!promote(h, target)) throw Reject();
  append_elem(h, x);
}
} // namespace

// the example document GC_fill_for_test makes
static Val filled() {
  auto M = [](std::initializer_list<std::pair<string const, Val>> l) { Val v = Val::of(MAP); v.m = l; return v; };
  Val d = Val::of(VECTOR), v = Val::of(VEC_REAL); v.vr.assign(10, 0); v.vr[2] = 123;
  Val s = Val::of(VEC_STRING); s.vs = {"string1", "string2", "string3", "string4"};
  Val vi = Val::of(VEC_INTEGER); vi.vi = {12, 10, 1};
  Val vc = Val::of(VEC_COMPLEX); vc.vc = {cplx(1, 0), cplx(2, 0), cplx(3, 0), cplx(-12, 2)};
  Val vv = Val::of(VECTOR); vv.v = {Val::I(123), Val::R(3.14), Val::S("nonna papera"), vc};
  Val mr = Val::of(MAT_REAL); mr.nr = mr.nc = 2; mr.vr = {0, 0, 3, 2};
  Val mc = Val::of(MAT_COMPLEX); mc.nr = mc.nc = 2; mc.vc = {cplx(0, 0), cplx(0, 0), cplx(1, -1), cplx(2, 2)};
  d.v = {Val::I(1), v, M({{"pippo", Val::I(13)}, {"pluto", Val::I(1)}, {"paperino", Val::I(3)}, {"aaa", Val::S("stringa1")}, {"bbb", Val::S("stringa2")}}), s,
         Val::R(1.3), Val::S("pippo"), M({{"aaa", Val::I(123)}, {"bbb", Val::R(3.4)}, {"vector", vi}}), vv, mr, mc, Val::B(true)};
  return d;
}
static void c12() {
  quiet_streams();
  static char const* const pool[] = {"a", "b", "session three", "", "a ", "B"};
  World w;
  unsigned nclients = 1 + pick(4);
  vector<string> mine; for (unsigned k = 0; k < nclients; ++k) mine.push_back(pool[pick(6)]);
  Gen gs; gs.depth = 2; gs.width = 3;
  auto select_model = [&](string const& id) { Session& s = w.s[id]; if (s.heads.empty() && !s.real) s.heads.push_back(Path()); w.active = id; w.any = true; };
  auto verify = [&](string const& after) {
    for (auto& e : w.s) { Val got = snapshot(*e.second.real); if (!same(got, e.second.root)) violation("capi-state", after + ": container '" + e.first + "': " + diff_vals(e.second.root, got)); }
  };
  unsigned steps = 1 + pick(70);
  for (unsigned step = 0; step < steps; ++step) {
    if (!more(96)) break;
    op();
    AllocPlan plan; if (chance(1, 10)) { plan.mode = 1 + pick(2); plan.n = 1 + pick(6); }
    unsigned cl = pick(nclients); string id = mine[cl];
    if (pick(4) || (!w.any && pick(2))) {                       // the client selects its container first, unless it forgets to
      uint32_t how = pick(3);
      auto at_new = w.s.count(id) == 0;
      logf("client %u: %s(\"%s\")%s", cl, how == 0 ? "GC_new" : how == 1 ? "GC_select" : "GC_mem_ptr", id.c_str(), plan.mode ? " [memory request fails]" : "");
      if (plan.mode) arm(plan);
      bool ok; void* mp = nullptr;
      try { Lib l; if (how == 0) ok = GC_new(id.c_str()) == 0; else if (how == 1) ok = GC_select(id.c_str()) == 0; else { mp = GC_mem_ptr(id.c_str()); ok = mp != nullptr; } }
      catch (...) { violation("capi-throw", "selecting a container raised a C++ exception"); }
      bool f = plan.mode && fired(); disarm();
      if (!ok) { if (!f) violation("capi-code", "selecting container '" + id + "' reported an error"); logf("    -> error, memory request failed"); verify("failed selection"); continue; }
      (void)at_new;
      select_model(id);
      Session& s = w.s[id];
      // the selection alone must do: the address is asked for (which selects again) only where it is not known
      { Lib l; int t = GC_get_type(), e = s.heads.empty() ? -1 : at(s.root, s.heads.back()).t; if (t != e) violation("capi-state", "after container '" + id + "' was selected the type at the cursor is " + std::to_string(t) + ", expected " + std::to_string(e)); }
      if (!s.real || pick(4) == 0) {
        { Lib l; mp = GC_mem_ptr(id.c_str()); }
        if (!mp) violation("capi-code", "GC_mem_ptr returned NULL for a selected container");
        if (s.real && s.real != mp) violation("capi-state", "container '" + id + "' moved between two selections");
        s.real = static_cast<GC*>(mp);
      }
      plan = AllocPlan(); if (chance(1, 10)) { plan.mode = 1 + pick(2); plan.n = 1 + pick(6); }
    }
    if (chance(1, 30)) {                           // delete some container (existing or not), perhaps the active one
      string did = pool[pick(6)]; logf("client %u: GC_delete(\"%s\")", cl, did.c_str());
      int rc; try { Lib l; rc = GC_delete(did.c_str()); } catch (...) { violation("capi-throw", "GC_delete raised a C++ exception"); }
      if (rc != 0) violation("capi-code", "GC_delete reported an error");
      if (w.any && w.active == did) w.any = false;
      w.s.erase(did);
      verify("GC_delete"); continue;
    }
    Session* cur = w.cur();
    if (cur && cur->heads.size() == 1 && chance(1, 6)) {   // the container also changes through its C++ address
      Val v = pick(3) ? gen_any(gs) : gen_val(gs); GC tmp; build(tmp, v); cur->real->from_gc(tmp); cur->root = v; logf("(c++) container '%s' := %s", w.active.c_str(), show(v, 2).c_str());
    }
    bool headless = !cur || cur->heads.empty();
    Val none; Val* hp = headless ? nullptr : &at(cur->root, cur->heads.back());
    Val const h = hp ? *hp : none;
    Call c;
    Val root_before = cur ? cur->root : Val();
    size_t hb = cur ? cur->heads.size() : 0;
    bool misuse = false;
    uint32_t k = pick(54);
    auto setter = [&](string const& nm, std::function<int()> f, std::function<void(Val&)> m, bool own_lib = false) {
      c.name = nm; c.setter = true; c.real = own_lib ? std::function<string()>([=] { return code(f()); }) : std::function<string()>([=] { Lib l; return code(f()); });
      c.want = "ok";
      if (headless) { c.want = "err"; return; }
      try { m(*hp); } catch (Reject&) { cur->root = root_before; c.want = "err"; }
    };
    auto getter = [&](string const& nm, string const& neutral, std::function<string()> f, std::function<string(Val const&)> m) {
      c.name = nm; c.real = f; c.neutral = c.want = neutral;
      if (!headless) try { c.want = m(h); } catch (Reject&) {}
    };
    int idx = 0, jdx = 0;
    switch (k) {
    case 0: { int x = int(pick(3)) - 1; setter("GC_set_bool(" + std::to_string(x) + ")", [=] { return GC_set_bool(x); }, [=](Val& v) { v = Val::B(x != 0); }); break; }
    case 1: { int x = int(gen_int32()); setter("GC_set_int(" + std::to_string(x) + ")", [=] { return GC_set_int(x); }, [=](Val& v) { v = Val::I(x); }); break; }
    case 2: { double x = gen_real(true); setter("GC_set_real(" + dtxt(x) + ")", [=] { return GC_set_real(x); }, [=](Val& v) { v = Val::R(x); }); break; }
    case 3: { c_complex_type z{gen_real(true), gen_real(true)}; bool two = pick(2); setter(string("GC_set_complex") + (two ? "2" : ""), [=] { return two ? GC_set_complex2(z.real, z.imag) : GC_set_complex(&z); }, [=](Val& v) { v = Val::C(cplx(z.real, z.imag)); }); break; }
    case 4: { string x = no_nul(gen_string(gs)); setter("GC_set_string('" + x + "')", [=] { return GC_set_string(x.c_str()); }, [=](Val& v) { v = Val::S(x); }); break; }
    case 5: getter("GC_get_bool", "0", [] { return std::to_string(LIB(GC_get_bool())); }, [](Val const& v) -> string { if (v.t != BOOL) throw Reject(); return std::to_string(v.i != 0); }); break;
    case 6: getter("GC_get_int", "0", [] { return std::to_string(LIB(GC_get_int())); }, [](Val const& v) -> string { if (v.t != INTEGER) throw Reject(); return std::to_string(v.i); }); break;
    case 7: getter("GC_get_long", "0", [] { return std::to_string(LIB(GC_get_long())); }, [](Val const& v) -> string { if (v.t != LONG) throw Reject(); return std::to_string(v.i); }); break;
    case 8: getter("GC_get_real", dtxt(0), [] { return dtxt(LIB(GC_get_real())); }, [](Val const& v) -> string { if (v.t != REAL) throw Reject(); return dtxt(v.r); }); break;
    case 9: getter("GC_get_complex", encc(0), [] { return ctxt(LIB(GC_get_complex())); }, [](Val const& v) -> string { if (v.t != COMPLEX) throw Reject(); return encc(v.c); }); break;
    case 10: getter("GC_get_complex_re", dtxt(0), [] { return dtxt(LIB(GC_get_complex_re())); }, [](Val const& v) -> string { if (v.t != COMPLEX) throw Reject(); return dtxt(v.c.real()); }); break;
    case 11: getter("GC_get_complex_im", dtxt(0), [] { return dtxt(LIB(GC_get_complex_im())); }, [](Val const& v) -> string { if (v.t != COMPLEX) throw Reject(); return dtxt(v.c.imag()); }); break;
    case 12: getter("GC_get_string", "NULL", [] { return pstr(LIB(GC_get_string())); }, [](Val const& v) -> string { if (v.t != STRING) throw Reject(); return "'" + cstr(v.s) + "'"; }); break;
    case 13: { int x = int(pick(3)); setter("GC_push_bool(" + std::to_string(x) + ")", [=] { return GC_push_bool(x); }, [=](Val& v) { push_model(v, Val::B(x != 0), 0, 1u << VEC_BOOL | 1u << VEC_INTEGER | 1u << VEC_LONG | 1u << VEC_REAL | 1u << VEC_COMPLEX | 1u << VECTOR, false); }); break; }
    case 14: case 15: { int x = int(gen_int32()); setter("GC_push_int(" + std::to_string(x) + ")", [=] { return GC_push_int(x); }, [=](Val& v) { push_model(v, Val::I(x), VEC_INTEGER, 1u << VEC_INTEGER | 1u << VEC_LONG | 1u << VEC_REAL | 1u << VEC_COMPLEX | 1u << VECTOR, true); }); break; }
    case 16: { double x = gen_real(true); setter("GC_push_real(" + dtxt(x) + ")", [=] { return GC_push_real(x); }, [=](Val& v) { push_model(v, Val::R(x), VEC_REAL, 1u << VEC_REAL | 1u << VEC_COMPLEX | 1u << VECTOR, true); }); break; }
    case 17: { c_complex_type z{gen_real(true), gen_real(true)}; bool two = pick(2); setter(string("GC_push_complex") + (two ? "2" : ""), [=] { return two ? GC_push_complex2(z.real, z.imag) : GC_push_complex(&z); }, [=](Val& v) { push_model(v, Val::C(cplx(z.real, z.imag)), VEC_COMPLEX, 1u << VEC_COMPLEX | 1u << VECTOR, true); }); break; }
    case 18: { if (pick(4) == 0) {      // a text the library itself handed out
        bool set = pick(4) == 0; string x = "none"; bool have = false; uint32_t k = 0;
        if (h.t == STRING) { x = h.s.c_str(); have = true; } else if (h.t == VEC_STRING && !h.vs.empty()) { k = pick(uint32_t(h.vs.size())); x = h.vs[k].c_str(); have = true; }
        bool at = h.t == VEC_STRING;
        setter(string(set ? "GC_set_string" : "GC_push_string") + "(text handed out by the library)", [=] { char const* p = !have ? "none" : at ? GC_get_string_at_pos(int(k)) : GC_get_string(); if (!p) return 1; return set ? GC_set_string(p) : GC_push_string(p); },
          [=](Val& v) { if (set) v = Val::S(x); else push_model(v, Val::S(x), VECTOR, 1u << VEC_STRING | 1u << VECTOR, true); }); break; }
      string x = no_nul(gen_string(gs)); setter("GC_push_string('" + x + "')", [=] { return GC_push_string(x.c_str()); }, [=](Val& v) { push_model(v, Val::S(x), VECTOR, 1u << VEC_STRING | 1u << VECTOR, true); }); break; }
    case 19: idx = small_index(h); getter("GC_get_bool_at_pos(" + std::to_string(idx) + ")", "0", [=] { return std::to_string(LIB(GC_get_bool_at_pos(idx))); }, [=](Val const& v) -> string { if (v.t != VEC_BOOL || unsigned(idx) >= v.size()) throw Reject(); return std::to_string(v.vi[size_t(idx)] != 0); }); break;
    case 20: idx = small_index(h); getter("GC_get_int_at_pos(" + std::to_string(idx) + ")", "0", [=] { return std::to_string(LIB(GC_get_int_at_pos(idx))); }, [=](Val const& v) -> string { if (v.t != VEC_INTEGER || unsigned(idx) >= v.size()) throw Reject(); return std::to_string(v.vi[size_t(idx)]); }); break;
    case 21: idx = small_index(h); getter("GC_get_real_at_pos(" + std::to_string(idx) + ")", dtxt(0), [=] { return dtxt(LIB(GC_get_real_at_pos(idx))); }, [=](Val const& v) -> string { if (unsigned(idx) >= v.size() || v.t <= VEC_POINTER || v.t == VEC_STRING || v.t == MAP) throw Reject(); return dtxt(m_number(elem(v, size_t(idx)))); }); break;
    case 22: case 23: case 24: { idx = small_index(h);
      auto m = [=](Val const& v) -> cplx { if (unsigned(idx) >= v.size() || v.t <= VEC_POINTER || v.t == VEC_STRING || v.t == MAP) throw Reject(); return m_cnumber(elem(v, size_t(idx))); };
      if (k == 22) getter("GC_get_complex_at_pos(" + std::to_string(idx) + ")", encc(0), [=] { return ctxt(LIB(GC_get_complex_at_pos(idx))); }, [=](Val const& v) { return encc(m(v)); });
      else if (k == 23) getter("GC_get_complex_real_at_pos(" + std::to_string(idx) + ")", dtxt(0), [=] { return dtxt(LIB(GC_get_complex_real_at_pos(idx))); }, [=](Val const& v) { return dtxt(m(v).real()); });
      else getter("GC_get_complex_imag_at_pos(" + std::to_string(idx) + ")", dtxt(0), [=] { return dtxt(LIB(GC_get_complex_imag_at_pos(idx))); }, [=](Val const& v) { return dtxt(m(v).imag()); });
      break; }
    case 25: idx = small_index(h); getter("GC_get_string_at_pos(" + std::to_string(idx) + ")", "NULL", [=] { return pstr(LIB(GC_get_string_at_pos(idx))); }, [=](Val const& v) -> string { if (v.t != VEC_STRING || unsigned(idx) >= v.size()) throw Reject(); return "'" + cstr(v.vs[size_t(idx)]) + "'"; }); break;
    case 26: case 27: case 28: case 29: {
      auto coord = [](unsigned n) { uint32_t q = pick(6); return q < 4 && n ? int(pick(n)) : q == 4 ? int(n) : -int(pick(3)) - 1; };
      idx = coord(h.is_mat() ? h.nr : 2); jdx = coord(h.is_mat() ? h.nc : 2);
      auto m = [=](Val const& v) -> cplx { if ((v.t != MAT_COMPLEX && v.t != MAT_REAL) || unsigned(idx) >= v.nr || unsigned(jdx) >= v.nc) throw Reject(); size_t p = size_t(idx) + size_t(jdx) * v.nr; return v.t == MAT_REAL ? cplx(v.vr[p], 0) : v.vc[p]; };
      string a = "(" + std::to_string(idx) + "," + std::to_string(jdx) + ")";
      if (k == 26) getter("GC_get_real_at_coor" + a, dtxt(0), [=] { return dtxt(LIB(GC_get_real_at_coor(idx, jdx))); }, [=](Val const& v) -> string { if (v.t != MAT_REAL) throw Reject(); return dtxt(m(v).real()); });
      else if (k == 27) getter("GC_get_complex_at_coor" + a, encc(0), [=] { return ctxt(LIB(GC_get_complex_at_coor(idx, jdx))); }, [=](Val const& v) { return encc(m(v)); });
      else if (k == 28) getter("GC_get_complex_real_at_coor" + a, dtxt(0), [=] { return dtxt(LIB(GC_get_complex_real_at_coor(idx, jdx))); }, [=](Val const& v) { return dtxt(m(v).real()); });
      else getter("GC_get_complex_imag_at_coor" + a, dtxt(0), [=] { return dtxt(LIB(GC_get_complex_imag_at_coor(idx, jdx))); }, [=](Val const& v) { return dtxt(m(v).imag()); });
      break; }
    case 30: { static int (*const f[])() = {GC_set_empty_vector_of_bool, GC_set_empty_vector_of_int, GC_set_empty_vector_of_real, GC_set_empty_vector_of_complex, GC_set_empty_vector_of_string, GC_set_empty_vector}; static const int tt[] = {VEC_BOOL, VEC_INTEGER, VEC_REAL, VEC_COMPLEX, VEC_STRING, VECTOR};
      uint32_t q = pick(6); int t = tt[q]; auto g = f[q]; setter(string("GC_set_empty_vector ") + tname[t], [=] { return g(); }, [=](Val& v) { v = Val::of(t); }); break; }
    case 31: case 32: { static const int tt[] = {VEC_BOOL, VEC_INTEGER, VEC_REAL, VEC_COMPLEX, VEC_STRING}; int t = tt[pick(5)]; Val x = gen_typed(t, gs); for (auto& s : x.vs) s = no_nul(s);
      int n = int(x.size()); bool neg = chance(1, 8); if (neg) n = -1 - int(pick(4));
      setter(string("GC_set_vector_of ") + tname[t] + " n=" + std::to_string(n), [=] {
        vector<int> a; vector<double> re, im; vector<char const*> ps; for (auto e : x.vi) a.push_back(int(e)); for (auto e : x.vc) { re.push_back(e.real()); im.push_back(e.imag()); } for (auto const& e : x.vs) ps.push_back(e.c_str());
        Lib l; switch (t) { case VEC_BOOL: return GC_set_vector_of_bool(a.data(), n); case VEC_INTEGER: return GC_set_vector_of_int(a.data(), n); case VEC_REAL: return GC_set_vector_of_real(x.vr.data(), n); case VEC_COMPLEX: return GC_set_vector_of_complex(re.data(), im.data(), n); default: return GC_set_vector_of_string(ps.data(), n); } },
        [=](Val& v) { if (neg) throw Reject(); v = x; }, true); break; }
    case 33: { int n = chance(1, 8) ? -1 - int(pick(4)) : int(pick(6)); setter("GC_set_vector(" + std::to_string(n) + ")", [=] { return GC_set_vector(n); }, [=](Val& v) { if (n < 0) throw Reject(); if (v.t != VECTOR) v = Val::of(VECTOR); v.v.resize(size_t(n)); }); break; }
    case 34: getter("GC_get_vector_size", "0", [] { return std::to_string(LIB(GC_get_vector_size())); }, [](Val const& v) { return std::to_string(int(v.size())); }); break;
    case 35: case 36: { bool rows = k == 35; getter(rows ? "GC_get_matrix_num_rows" : "GC_get_matrix_num_cols", "0", [=] { return std::to_string(LIB(rows ? GC_get_matrix_num_rows() : GC_get_matrix_num_cols())); },
      [=](Val const& v) { if (v.is_mat()) return std::to_string(rows ? v.nr : v.nc); if (v.t == NOTYPE) return string("0"); return std::to_string(rows ? 1u : v.size()); }); break; }
    case 37: case 38: case 39: { idx = h.t == VECTOR && pick(5) ? int(pick(h.size() + 2)) : pick(2) ? int(pick(9)) : -1 - int(pick(3));
      setter("GC_push_vector_position(" + std::to_string(idx) + ")", [=] { return GC_push_vector_position(idx); }, [=](Val& v) { if (idx < 0 || v.t != VECTOR) throw Reject(); if (v.v.size() <= size_t(idx)) v.v.resize(size_t(idx) + 1); Path p = cur->heads.back(); p.steps.push_back({idx, ""}); cur->heads.push_back(p); }); c.moves = true; break; }
    case 40: case 41: case 42: { string key; if (h.t == MAP && !h.m.empty() && pick(3)) { auto it = h.m.begin(); std::advance(it, long(pick(uint32_t(h.m.size())))); key = it->first; if (key.find('\0') != string::npos) key = cstr(key); } else key = no_nul(gen_key(gs));
      setter("GC_push_map_position('" + key + "')", [=] { return GC_push_map_position(key.c_str()); }, [=](Val& v) { if (v.t != MAP) throw Reject(); v.m[key]; Path p = cur->heads.back(); p.steps.push_back({-1, key}); cur->heads.push_back(p); }); c.moves = true; break; }
    case 43: setter("GC_set_map", [] { return GC_set_map(); }, [](Val& v) { if (v.t != MAP) v = Val::of(MAP); }); break;
    case 44: setter("GC_init_map_key", [] { return GC_init_map_key(); }, [=](Val& v) { if (v.t != MAP) throw Reject(); }); c.moves = true; break;
    case 45: case 46: { c.name = "GC_get_next_key"; c.real = [] { return pstr(LIB(GC_get_next_key())); }; c.neutral = "NULL"; c.want = !cur ? "NULL" : cur->kpos < cur->keys.size() ? "'" + cstr(cur->keys[cur->kpos]) + "'" : "''"; break; }
    case 47: case 48: { c.name = "GC_pop_head"; c.setter = true; c.real = [] { return code(LIB(GC_pop_head())); }; c.want = headless ? "err" : "ok"; if (!headless) cur->heads.pop_back(); c.moves = true; break; }
    case 49: { c.name = "GC_reset_head"; c.setter = true; c.real = [] { return code(LIB(GC_reset_head())); }; c.want = headless ? "err" : "ok"; if (!headless) cur->heads.resize(1); c.moves = true; break; }
    case 50: getter("GC_get_type", "-1", [] { return std::to_string(LIB(GC_get_type())); }, [](Val const& v) { return std::to_string(v.t); }); break;
    case 51: getter("GC_get_type_name", "''", [] { return pstr(LIB(GC_get_type_name())); }, [](Val const& v) { GC t; Val e = Val::of(v.t); build(t, e); return "'" + string(t.get_type_name()) + "'"; }); break;
    case 52: { bool d = pick(2); c.name = d ? "GC_dump" : "GC_print_content_types"; c.setter = true; c.real = [=] { return code(LIB(d ? GC_dump() : GC_print_content_types())); }; c.want = headless ? "err" : "ok"; break; }
    default: if (pick(3) == 0) { c.name = "GC_fill_for_test(\"" + id + "\")"; c.setter = true; c.real = [=] { return code(LIB(GC_fill_for_test(id.c_str()))); }; c.want = "ok"; }
      else getter("GC_get_type", "-1", [] { return std::to_string(LIB(GC_get_type())); }, [](Val const& v) { return std::to_string(v.t); });
    }
    bool filling = c.name.compare(0, 8, "GC_fill_") == 0;
    misuse = c.want == "err";
    log("client " + std::to_string(cl) + ": " + c.name + "   head " + (headless ? string("none") : "'" + w.active + "'" + (hb ? Path(cur ? (cur->heads.size() ? cur->heads.back() : Path()) : Path()).str() : "") + " " + show(h, 1)) + (plan.mode ? " [memory request fails]" : ""));
    state(hash_str("capi|" + c.name.substr(0, c.name.find('(')) + "|" + std::to_string(hp ? h.t : -1) + c.want.substr(0, 3)));
    if (plan.mode) arm(plan);
    string got;
    try { got = c.real(); } catch (std::exception const& e) { disarm(); violation("capi-throw", c.name + " let a C++ exception reach the C caller: " + e.what()); } catch (...) { disarm(); violation("capi-throw", c.name + " let a C++ exception reach the C caller"); }
    bool f = plan.mode && fired(); disarm();
    mix(got);
    logf("    -> %s%s", got.size() > 100 ? "(long)" : got.c_str(), f ? " (a memory request failed)" : "");
    if (misuse) fault(F_MISUSE);
    if (filling) {
      if (got == "ok") { select_model(id); Session& s = w.s[id]; void* mp; { Lib l; mp = GC_mem_ptr(id.c_str()); } s.real = static_cast<GC*>(mp); s.root = snapshot(*s.real); s.heads.assign(1, Path()); 
        Val want = filled(); if (!same(s.root, want)) violation("capi-state", "GC_fill_for_test did not fill the container as documented: " + diff_vals(want, s.root)); }
      else if (!f) violation("capi-code", c.name + " reported an error");
      else { // it may have selected or created the container before running out of memory: select it again
        select_model(id); Session& s = w.s[id]; void* mp; { Lib l; mp = GC_mem_ptr(id.c_str()); } if (!mp) violation("capi-code", "GC_mem_ptr failed"); s.real = static_cast<GC*>(mp); s.root = snapshot(*s.real); { Lib l; GC_reset_head(); } if (s.heads.empty()) { Lib l; if (GC_get_type() != -1) s.heads.assign(1, Path()); } else s.heads.resize(1); }
      verify(c.name); continue;
    }
    if (f && got != c.want) {
      bool allowed = c.setter ? got == "err" : got == c.neutral;
      if (!allowed) violation("capi-value", c.name + " returned " + got + " after a failed memory request, expected " + c.want + " or a report");
      // only the element at the head may have changed, and the cursor did not move
      if (cur) {
        if (c.moves) cur->heads.resize(hb > cur->heads.size() ? cur->heads.size() : hb);
        Val now = snapshot(*cur->real), a = root_before, b = now;
        if (c.setter && !headless) { Path p = cur->heads.back(); at(a, p) = Val(); at(b, p) = Val(); }
        if (!same(a, b)) violation("capi-oom", c.name + ": a failed memory request changed data that was not being modified: " + diff_vals(a, b));
        cur->root = now;
      }
      verify(c.name); continue;
    }
    if (got != c.want) violation(c.setter ? "capi-code" : "capi-value", c.name + " on " + (headless ? string("no head") : show(h, 1)) + " returned " + got + ", expected " + c.want);
    if (k == 44 && got == "ok") { cur->keys.clear(); cur->kpos = 0; for (auto& e : at(cur->root, cur->heads.back()).m) cur->keys.push_back(e.first); }
    if ((k == 45 || k == 46) && cur && cur->kpos < cur->keys.size()) ++cur->kpos;
    verify(c.name);
    if (cur && cur->heads.size() == 1 && count_nodes(cur->root) > 50) { cur->real->clear(); cur->root = Val(); logf("(c++) container cleared"); }
  }
  logf("end: every container is deleted");
  for (auto id : pool) { Lib l; GC_delete(id); }
  { Lib l; if (GC_get_type() != -1 || GC_get_next_key() != nullptr) violation("capi-state", "a container is still active after all were deleted"); }
}
void scen_c12() { c12(); }
}
