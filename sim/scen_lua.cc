// C13: data and failures across the Lua boundary. The real interpreter runs; its memory, its files and its
// hash seed belong to the simulator (lua_seams.h).
#include "ops.hh"
#include "docs.hh"
#include "scen.hh"
#include "luasim.hh"
#include "GenericContainer/GenericContainerInterface_lua.hh"
#include "lua.hpp"
#include <malloc.h>
#include <dlfcn.h>
namespace sim {
LuaMem lm;
void lua_arm(int mode, uint32_t n) { lm.mode = mode; lm.n = n; lm.count = lm.failed = 0; }
uint64_t lua_disarm() { lm.mode = 0; return lm.failed; }
uint32_t lua_seed_value = 1;
map<string, SimFile> files;
namespace {
ssize_t file_read(void* c, char* buf, size_t n) {
  SimFile* f = static_cast<SimFile*>(c);
  if (f->eio && f->pos >= f->eio_at) { fault(F_READ_ERROR); errno = EIO; return -1; }
  size_t left = f->data.size() - f->pos; if (n > left) n = left; if (f->eio && n > f->eio_at - f->pos) n = f->eio_at - f->pos;
  if (n > 1 && chance(1, 3)) { n = 1 + pick(uint32_t(n)) / 2; fault(F_SHORT_READ); }
  memcpy(buf, f->data.data() + f->pos, n); f->pos += n; return ssize_t(n);
}
int file_close(void*) { return 0; }
} // namespace
FILE* open_sim_file(SimFile* f) { f->pos = 0; cookie_io_functions_t io{}; io.read = file_read; io.close = file_close; return fopencookie(f, "r", io); }
}
extern "C" {
void* gcsim_lua_realloc(void* p, size_t n) {
  using namespace sim;
  size_t old = p ? malloc_usable_size(p) : 0;
  if (lm.mode && n > old) {
    uint64_t k = ++lm.count; bool f = lm.mode == 1 ? k == lm.n : k >= lm.n;
    if (f) { ++lm.failed; fault(F_LUA_ALLOC); return nullptr; }
  }
  if (n > (1u << 26)) { fault(F_ALLOC_CAP); return nullptr; }
  void* q = realloc(p, n); if (!p && q) ++lm.live; return q;
}
void gcsim_lua_free(void* p) { if (p) --sim::lm.live; free(p); }
unsigned gcsim_lua_seed(void) { return sim::lua_seed_value; }
FILE* gcsim_fopen(char const* name, char const*) {
  using namespace sim; Out o;
  auto it = files.find(name); if (it == files.end() || it->second.missing) { errno = ENOENT; return nullptr; }
  return open_sim_file(&it->second);
}
FILE* gcsim_freopen(char const* name, char const* mode, FILE* f) { if (f) fclose(f); return gcsim_fopen(name, mode); }
}
namespace sim {
namespace {
// what a value is once it is a Lua value: nil entries vanish, integers and integral reals are one thing, empty tables carry no kind
Val canon(Val const& v) {
  switch (v.t) {
  case BOOL: return v;
  case INTEGER: case LONG: return Val::L(v.i);
  case REAL: if (v.r >= -9223372036854775808.0 && v.r < 9223372036854775808.0 && v.r == std::floor(v.r)) return Val::L(int64_t(v.r)); return v;
  case STRING: return v;
  case VEC_BOOL: case VEC_INTEGER: case VEC_LONG: case VEC_REAL: case VEC_STRING: case VECTOR: {
    Val r = Val::of(VECTOR); for (unsigned k = 0; k < v.size(); ++k) r.v.push_back(canon(elem(v, k)));
    while (!r.v.empty() && r.v.back().t == NOTYPE) r.v.pop_back();
    return r.v.empty() ? Val() : r; }
  case MAP: { Val r = Val::of(MAP); for (auto& e : v.m) { Val x = canon(e.second); if (x.t != NOTYPE || e.second.t == MAP || e.second.t == VECTOR || e.second.is_ivec() || e.second.t == VEC_REAL || e.second.t == VEC_STRING) r.m[e.first] = x; }
    return r.m.empty() ? Val() : r; }
  }
  return Val();
}
// an empty table is a value, nil is not: entries that are empty tables stay in a map and keep their place in a vector.
// Once read back they are empty values; the comparison treats both alike.
void strip(Val& v) {
  if (v.t == MAP) { for (auto it = v.m.begin(); it != v.m.end();) { strip(it->second); if (it->second.t == NOTYPE) it = v.m.erase(it); else ++it; } if (v.m.empty()) v = Val(); }
  else if (v.t == VECTOR) { for (auto& e : v.v) strip(e); while (!v.v.empty() && v.v.back().t == NOTYPE) v.v.pop_back(); if (v.v.empty()) v = Val(); }
}
Val norm(Val const& v) { Val r = canon(v); strip(r); return r; }

// a value that Lua holds as a table, however empty
bool is_table(Val const& v) { return v.t == VECTOR || v.t == MAP || v.t == VEC_BOOL || v.t == VEC_INTEGER || v.t == VEC_LONG || v.t == VEC_REAL || v.t == VEC_STRING; }
bool is_nil(Val const& v) { return norm(v).t == NOTYPE && !is_table(v); }

string lua_str(string const& s) { string o = "\""; char b[8]; for (unsigned char c : s) { if (c >= 32 && c < 127 && c != '"' && c != '\\') o += char(c); else { snprintf(b, 8, "\\%03u", c); o += b; } } return o + "\""; }
string lua_num(double r) { if (std::isnan(r)) return "(0/0)"; if (std::isinf(r)) return r > 0 ? "(1/0)" : "(-1/0)"; char b[64]; snprintf(b, 64, "(%a)", r); return b; }
string lua_int(int64_t i) { return i == INT64_MIN ? "math.mininteger" : std::to_string(i); }
int nesting(Val const& v) { int d = 0; for (auto& e : v.v) d = std::max(d, nesting(e)); for (auto& e : v.m) d = std::max(d, nesting(e.second)); return d + 1; }
string lua_lit(Val const& v) {
  switch (v.t) {
  case BOOL: return v.i ? "true" : "false";
  case INTEGER: case LONG: return lua_int(v.i);
  case REAL: return lua_num(v.r);
  case STRING: return lua_str(v.s);
  case VEC_BOOL: case VEC_INTEGER: case VEC_LONG: case VEC_REAL: case VEC_STRING: case VECTOR: {
    string o = "{"; bool ex = pick(3) == 0, rev = ex && pick(2); unsigned n = v.size();
    for (unsigned q = 0; q < n; ++q) { unsigned k = rev ? n - 1 - q : q; string e = lua_lit(elem(v, k)); o += ex ? "[" + std::to_string(k + 1) + "]=" + e + "," : e + ","; }
    return o + "}"; }
  case MAP: { string o = "{"; for (auto& e : v.m) o += "[" + lua_str(e.first) + "]=" + lua_lit(e.second) + ","; return o + "}"; }
  }
  return "nil";
}
Val gen_lua_doc(int depth) {
  Gen g; g.depth = depth; g.width = 4;
  Val v; uint32_t k = pick(10);
  if (k == 9 && pick(3) == 0) {     // numbers of both kinds, some of which no real holds exactly
    static const int64_t edge[] = {9007199254740991, 9007199254740992, 9007199254740993, -9007199254740992, -9007199254740993, INT64_MAX, INT64_MIN, 3};
    static const double re[] = {0.5, 9007199254740992.0, -9007199254740994.0, 1e300, -0.25, 7};
    v = Val::of(VECTOR); for (unsigned n = 1 + pick(4); n-- > 0;) v.v.push_back(pick(2) ? Val::L(edge[pick(8)]) : Val::R(re[pick(6)]));
    return v;
  }
  if (k < 2) return gen_scalar(g);
  v = gen_val(g, depth);
  return v;
}
Val chain(unsigned depth, bool maps) { Val v = Val::L(7); for (unsigned k = 0; k < depth; ++k) { Val o = Val::of(maps ? MAP : VECTOR); if (maps) o.m["k"] = v; else o.v.push_back(v); v = o; } return v; }

struct Interp {
  GC_namespace::LuaInterpreter* li = nullptr; lua_State* own = nullptr; int top0 = 0;
  map<string, Val> globals;                        // what the model says (documents as they were given)
};
char const* const names[] = {"a", "b", "data", "long global name", ""};
char const* const functions =
  "function id(x) return x end function wrap(x) return {inner=x,n=1} end function pair(x) return {x,x} end "
  "function bad(x) error('bad ' .. tostring(x)) end function badnil(x) error(nil) end function badtable(x) error({1,2}) end "
  "function fun(x) return print end function nothing(x) end function selfref(x) local t={} t.me=t return t end "
  "function mixed(x) return {1,2,name=3} end function zero(x) return {[0]=1} end function frac(x) return {[1.5]=1} end function neg(x) return {[-3]=1} "
  "end function far(x) return {[2^40]=1} end function deep(x) local t={} local r=t for i=1,3000 do t[1]={} t=t[1] end return r end "
  "function over(x) return over(x)+1 end function probe(x) return x+1 end function gl(x) return _G[x] end "
  "function bkey(x) return {x=1,[true]=2} end function bpos(x) return {1,2,[false]=3} end function bonly(x) return {[print]=1,[true]=2} end function co(x) return {a=coroutine.create(print),b=io.stdout,c=x} end "
  "function hungry(x) local t={} for i=1,500 do t[i]=('x'):rep(100)..i end return #t end function fn_table(x) return {1,print,3} end ";
} // namespace

static void c13() {
  allow_huge(500);
  using GC_namespace::LuaInterpreter;
  quiet_streams();
  lm = LuaMem(); files.clear(); lua_seed_value = uint32_t(pick(1000)) * 2654435761u + 1;
  set_step_limit(400000000);
  vector<Interp> I;
  unsigned ni = 1 + pick(2);
  for (unsigned k = 0; k < ni; ++k) {
    Interp in;
    if (k == 1 && pick(2)) {        // a state of the caller's own, with its own data on the stack
      in.own = luaL_newstate(); luaL_openlibs(in.own); for (unsigned q = pick(4); q-- > 0;) lua_pushinteger(in.own, int(q) + 100); in.top0 = lua_gettop(in.own);
      if (luaL_dostring(in.own, functions)) violation("lua-setup", "cannot define the functions"); lua_settop(in.own, in.top0);
    } else {
      if (chance(1, 4)) {           // memory runs out while the interpreter is being made
        int64_t live0 = lm.live; lua_arm(1 + int(pick(2)), 1 + pick(400)); LuaInterpreter* t = nullptr; bool err = false;
        try { Lib l; t = new LuaInterpreter; } catch (std::exception const&) { err = true; }
        uint64_t f = lua_disarm(); logf("new interpreter with failing memory -> %s", err ? "error" : "ok"); if (err && !f) violation("lua-error", "creating an interpreter failed although memory was available");
        { Lib l; delete t; }
        if (lm.live != live0) violation("lua-leak", "interpreter destroyed but " + std::to_string(lm.live - live0) + " Lua blocks stay allocated");
      }
      { Lib l; in.li = new LuaInterpreter; }
      try { Lib l; in.li->execute(functions); } catch (std::exception const& e) { violation("lua-error", string("a correct script failed: ") + e.what()); }
    }
    I.push_back(in);
  }
  GC* g = LIB(new GC); Val gm;       // the reading container and what it holds
  unsigned steps = 1 + pick(60);
  for (unsigned st = 0; st < steps; ++st) {
    if (!more(96)) break;
    op();
    Interp& in = I[pick(uint32_t(I.size()))];
    string name = names[pick(5)];
    if (pick(3) == 0) { Gen gg; Val v = gen_any(gg); GC t; build(t, v); g->from_gc(t); gm = v; }   // earlier contents
    int lmode = 0; uint32_t ln = 0; AllocPlan plan;
    if (chance(1, 5)) { if (pick(3)) { lmode = 1 + int(pick(2)); ln = 1 + pick(30); } else { plan.mode = 1 + pick(2); plan.n = 1 + pick(10); } }
    uint32_t what = pick(12);
    if (in.own && !(what < 4)) what = pick(4);
    string desc; bool err = false, oom = false; string msg; uint64_t f = 0, lf = 0;
    auto run = [&](std::function<void()> fn) {
      if (lmode) lua_arm(lmode, ln); if (plan.mode) arm(plan);
      try { fn(); } catch (std::bad_alloc const&) { err = oom = true; msg = "bad_alloc"; } catch (std::exception const& e) { Out o; err = true; msg = e.what(); } catch (...) { disarm(); lua_disarm(); violation("lua-exception", desc + " raised something that is not a std::exception"); }
      f = plan.mode ? fired() : 0; disarm(); lf = lua_disarm();
      logf("%s%s%s -> %s", desc.c_str(), lmode ? " [Lua memory fails]" : "", plan.mode ? " [memory request fails]" : "", err ? ("error: " + msg.substr(0, 150)).c_str() : "ok");
      mix(err ? 5 : 9);
      if (in.own && lua_gettop(in.own) != in.top0) violation("lua-stack", desc + ": the caller's Lua stack had " + std::to_string(in.top0) + " values and now has " + std::to_string(lua_gettop(in.own)));
    };
    auto state_of = [&](char const* k, int t) { state(hash_str(string("lua|") + k + "|" + std::to_string(t) + (err ? "E" : "O") + (lmode ? "m" : "") + (plan.mode ? "a" : ""))); };
    auto check_g = [&](Val const& want, string const& d) {    // the reading container against an expected document
      Val got = snapshot(*g); Val a = norm(want), b = norm(got);
      if (!same(a, b)) violation("lua-document", d + ": " + diff_vals(a, b));
      gm = got;
    };
    auto unchanged = [&](string const& d) { Val got = snapshot(*g); if (plan.mode && f) { gm = got; return; } if (!same(got, gm)) violation("lua-lost", d + " failed (" + msg.substr(0, 80) + ") but changed the receiving container: " + diff_vals(gm, got)); };
    if (what < 2) {                                   // container -> global
      Val doc = gen_lua_doc(int(pick(4))); if (chance(1, 40)) { static const unsigned d[] = {20, 40, 60, 120, 190, 1050}; unsigned q = pick(6); if (q == 5 && pick(8)) q = 2; doc = chain(d[q], pick(2)); }
      unsigned dep = 0; { Val const* p = &doc; while ((p->t == MAP && p->m.size() == 1) || (p->t == VECTOR && p->v.size() == 1)) { p = p->t == MAP ? &p->m.begin()->second : &p->v[0]; ++dep; } }
      GC t; build(t, doc); desc = "global '" + name + "' := container " + show(doc, 2);
      run([&] { Lib l; if (in.own) GC_namespace::Lua_GC_to_global(in.own, t, name.c_str()); else in.li->GC_to_global(t, name.c_str()); });
      state_of("push", doc.t);
      if (!same(snapshot(t), doc)) violation("lua-source", desc + " changed the container pushed");
      if (err) { if (!f && !lf && dep < 200) violation("lua-error", desc + " failed: " + msg); }
      else { if (is_nil(doc)) in.globals.erase(name); else in.globals[name] = doc; }
    } else if (what < 4) {                            // global -> container
      desc = "container := global '" + name + "'";
      run([&] { Lib l; if (in.own) GC_namespace::Lua_global_to_GC(in.own, name.c_str(), *g); else in.li->global_to_GC(name.c_str(), *g); });
      bool have = in.globals.count(name); state_of("read", have ? in.globals[name].t : -1);
      unsigned dep = 0; if (have) { Val const* p = &in.globals[name]; while ((p->t == MAP && p->m.size() == 1) || (p->t == VECTOR && p->v.size() == 1)) { p = p->t == MAP ? &p->m.begin()->second : &p->v[0]; ++dep; } }
      if (err) { unchanged(desc); if (have && !f && !lf && dep < 200) violation("lua-error", desc + " failed: " + msg); if (!have) fault(F_SCRIPT_FAIL); }
      else { if (!have) violation("lua-missing", desc + ": there is no such global but no error was reported"); check_g(in.globals[name], desc); }
    } else if (what < 6) {                            // a script that assigns a document
      Val doc = gen_lua_doc(int(pick(3))); if (nesting(doc) > 150) doc = chain(100, pick(2)); /* Lua reads literals of fewer than 200 levels */ string sc = "_G[" + lua_str(name) + "]=" + lua_lit(doc); desc = "execute " + sc;
      bool file = pick(3) == 0; SimFile sf; bool broken = false;
      if (file) { sf.data = sc; desc = "do_file: " + sc; uint32_t q = pick(6); if (q == 1) { sf.missing = true; broken = true; fault(F_CUT); } if (q == 2) { sf.eio = true; sf.eio_at = pick(uint32_t(sc.size())); broken = true; } if (q == 3) { sf.data = sc.substr(0, 3 + lua_str(name).size() + pick(2)); broken = true; fault(F_CUT); } files["script.lua"] = sf; }
      run([&] { Lib l; if (file) in.li->do_file("script.lua"); else in.li->execute(sc.c_str()); });
      state_of(file ? "file" : "exec", doc.t);
      if (err) { if (!f && !lf && !broken) violation("lua-error", desc + " failed: " + msg); }
      else if (broken) violation("lua-silent", desc + ": the script file could not be read whole but no error was reported");
      else { if (is_nil(doc)) in.globals.erase(name); else in.globals[name] = doc; }
    } else if (what == 6) {                           // scripts that fail
      static char const* const bad[] = {"x = = 3", "error('no')", "error(nil)", "error({})", "local t = nil; t.x = 1", "over(1)", "return hungry(1) + {}", "\x1bLua", "goto nowhere", "error()", "error(setmetatable({},{__tostring=function() error('again') end}))", "('x'):rep(1e9)"};
      unsigned bk = pick(12); if (bk == 5 && pick(100)) bk = 1; if ((bk == 6 || bk == 11) && pick(4)) bk = 2; unsigned rep = bk != 5 && chance(1, 12) ? 60 : 1; string sc = bad[bk]; bool file = pick(3) == 0; desc = (file ? "do_file: " : "execute ") + sc; if (file) { SimFile sf; sf.data = sc; files["bad.lua"] = sf; }
      for (unsigned q = 0; q < rep; ++q) { err = false; run([&] { Lib l; if (file) in.li->do_file("bad.lua"); else in.li->execute(sc.c_str()); }); fault(F_SCRIPT_FAIL); if (!err) violation("lua-silent", desc + " is a failing script but no error was reported"); }
      state_of("fail", 0);
    } else if (what < 10) {                           // calls
      static char const* const good[] = {"id", "wrap", "pair", "id", "nothing"};
      static char const* const hard[] = {"bad", "badnil", "badtable", "missing_function", "selfref", "mixed", "zero", "frac", "neg", "far", "deep", "over", "data"};
      bool ok_fn = pick(3) != 0; string fn = ok_fn ? good[pick(5)] : hard[pick(13)]; if (fn == "over" && pick(100)) fn = "bad"; if (fn == "deep" && pick(60)) fn = "neg";
      // values and keys a document cannot hold: they are left out or the call is refused
      static char const* const odd[] = {"bkey", "bpos", "bonly", "co", "fn_table", "fun"}; bool odd_fn = chance(1, 10); if (odd_fn) { fn = odd[pick(6)]; ok_fn = true; }
      Val doc = gen_lua_doc(int(pick(3))); Val io = Val::of(MAP); io.m["function"] = Val::S(fn); io.m["args"] = doc; GC t; build(t, io);
      if (!ok_fn && fn == "data" && !in.li) fn = "bad";
      bool alias = chance(1, 8);
      desc = "call " + fn + "(" + show(doc, 2) + ")" + (alias ? " into the arguments" : "");
      unsigned rep = !ok_fn && fn != "over" && fn != "deep" && chance(1, 12) ? 60 : 1;
      for (unsigned q = 0; q < rep; ++q) {
        err = false;
        if (alias && !lmode && !plan.mode) { g->from_gc(t); gm = io; run([&] { Lib l; in.li->call(*g, *g); }); }
        else run([&] { Lib l; in.li->call(t, *g); });
        if (!same(snapshot(t), io)) violation("lua-source", desc + " changed its arguments");
        if (!ok_fn) { fault(F_SCRIPT_FAIL); if (!err) violation("lua-silent", desc + " cannot succeed but no error was reported"); unchanged(desc); continue; }
        if (err) { unchanged(desc); if (!f && !lf && !odd_fn) violation("lua-error", desc + " failed: " + msg); continue; }
        Val want = doc;
        if (fn == "bkey") { want = Val::of(MAP); want.m["x"] = Val::L(1); } if (fn == "bpos") { want = Val::of(VECTOR); want.v = {Val::L(1), Val::L(2)}; } if (fn == "bonly" || fn == "fun") want = Val();
        if (fn == "co") { want = Val::of(MAP); want.m["c"] = doc; } if (fn == "fn_table") { want = Val::of(VECTOR); want.v = {Val::L(1), Val(), Val::L(3)}; }
        if (fn == "wrap") { want = Val::of(MAP); want.m["inner"] = doc; want.m["n"] = Val::L(1); } if (fn == "pair") { want = Val::of(VECTOR); want.v = {doc, doc}; } if (fn == "nothing") want = Val();
        check_g(want, desc);
      }
      state_of(("call" + fn).c_str(), doc.t);
    } else if (what == 10) {                          // a call that is not one
      Val io = pick(2) ? gen_any(Gen()) : Val::of(MAP); if (io.t == MAP && pick(2)) io.m["function"] = pick(2) ? Val::L(3) : Val::S("id"); if (io.t == MAP) io.m.erase("args"); GC t; build(t, io); desc = "call with request " + show(io, 2);
      run([&] { Lib l; in.li->call(t, *g); }); fault(F_MISUSE);
      if (!err) violation("lua-silent", desc + " is not a call request but no error was reported"); unchanged(desc);
    } else {                                          // the interpreter still works
      int64_t x = int64_t(pick(1000000)) - 500000; Val io = Val::of(MAP); io.m["function"] = Val::S("probe"); io.m["args"] = Val::L(x); GC t; build(t, io); desc = "probe(" + std::to_string(x) + ")"; lmode = 0; plan.mode = 0;
      run([&] { Lib l; in.li->call(t, *g); });
      if (err) violation("lua-dead", "the interpreter no longer answers: " + msg); check_g(Val::L(x + 1), desc);
    }
  }
  // at the end every interpreter still answers and still holds what it was given
  for (auto& in : I) {
    for (auto& e : in.globals) {
      unsigned dep = 0; { Val const* p = &e.second; while ((p->t == MAP && p->m.size() == 1) || (p->t == VECTOR && p->v.size() == 1)) { p = p->t == MAP ? &p->m.begin()->second : &p->v[0]; ++dep; } }
      if (dep >= 200) continue;
      try { Lib l; if (in.own) GC_namespace::Lua_global_to_GC(in.own, e.first.c_str(), *g); else in.li->global_to_GC(e.first.c_str(), *g); }
      catch (std::exception const& x) { violation("lua-dead", "global '" + e.first + "' can no longer be read: " + x.what()); }
      Val a = norm(e.second), b = norm(snapshot(*g)); if (!same(a, b)) violation("lua-document", "global '" + e.first + "' at the end: " + diff_vals(a, b));
    }
    if (in.own) { for (int q = 1; q <= in.top0; ++q) if (lua_tointeger(in.own, q) != 100 + in.top0 - q) violation("lua-stack", "a value the caller kept on its Lua stack changed"); lua_close(in.own); }
    else { Lib l; delete in.li; }
  }
  if (lm.live) violation("lua-leak", "all interpreters are closed but " + std::to_string(lm.live) + " Lua blocks stay allocated");
  { Lib l; delete g; }
}
void scen_c13() { c13(); }
}
