// C11: threads under a baton; the simulator preempts at memory accesses and branches of the library.
#include "docs.hh"
#include "GenericContainer/GenericContainerInterface_lua.hh"
namespace sim {
using namespace GC_namespace;
namespace {
struct Step { string name; std::function<string(GC&, GC&)> run; };
string guarded(Step const& s, GC& a, GC& b) {
  try { return s.run(a, b); } catch (std::bad_alloc const&) { return "raised bad_alloc"; } catch (std::exception const& e) { Out o; return string("raised ") + e.what(); } catch (...) { return "raised something that is not a std::exception"; }
}
// an interpreter of its own, a value through it and back
string through_lua(GC& a) {
  string out; LuaInterpreter* li = nullptr; GC* t = nullptr;
  try {
    { Lib l; li = new LuaInterpreter; t = new GC;
      li->GC_to_global(a, "g");
      li->execute("local function f(x) if type(x) ~= 'table' then return x end local r = {} for k, v in pairs(x) do r[k] = f(v) end return r end h = f(g); function twice(x) return {first = x, second = f(x)} end");
      li->global_to_GC("h", *t); }
    out = enc(snapshot(*t));
    { Lib l; GC q; q["function"] = "twice"; q["args"].load(*t); t->clear(); li->call(q, *t); }
    out += enc(snapshot(*t));
    { Lib l; li->execute("error('no')"); }
  } catch (std::exception const& e) { Out o; out += string(" raised ") + e.what(); }
  Lib l; delete t; delete li; return out;
}
// a program for a thread that owns both its containers; `m` follows it so that most calls make sense
vector<Step> gen_program(Val m0) {
  vector<Step> p; Val m = m0; Val other;
  for (unsigned n = 1 + pick(6); n-- > 0;) {
    Step s;
    if (pick(2)) {
      Path q = random_path(m); Val& t = at(m, q); Op o = gen_op(t); Val before = m; bool rej = false;
      try { o.model(t); } catch (Reject&) { rej = true; } if (rej) m = before;
      s.name = q.str() + " " + o.name; s.run = [q, o](GC& a, GC&) { return o.real(at(a, q)); };
    } else if (!pick(10)) { s.name = "through an interpreter"; s.run = [](GC& a, GC&) { return through_lua(a); };
    } else {
      Big b = gen_big(m, other, false); s.name = b.name;
      if (b.mutates) { s.run = [b](GC& a, GC& c) { GC* t = LIB(new GC(a)); string r; try { r = b.run(*t, c); } catch (...) { Lib l; delete t; throw; } Val v = snapshot(*t); { Lib l; delete t; } return r + " => " + enc(v); }; }
      else s.run = b.run;
    }
    p.push_back(s);
  }
  return p;
}
} // namespace

static void compare(string const& who, vector<Step> const& prog, vector<string> const& want, vector<string> const& got) {
  for (size_t k = 0; k < prog.size(); ++k) {
    mix(got[k]);
    if (want[k] != got[k]) violation("interference", who + " step " + std::to_string(k) + " " + prog[k].name + ": gives '" + got[k] + "' next to the other threads, '" + want[k] + "' alone");
  }
}
static void c11() {
  quiet_streams();
  unsigned T = 2 + pick(3);
  static const uint32_t gaps[] = {2000, 200, 40, 8, 20000}; uint32_t gap = gaps[pick(5)];
  static const uint32_t biases[] = {0, 3, 16}; uint32_t bias = biases[pick(3)];
  bool shared = pick(3) == 2;
  set_step_limit(400000000);
  if (!shared) {
    vector<vector<Step>> prog(T); vector<Val> m0(T); vector<vector<string>> want(T), got(T); vector<Val> fin(T);
    for (unsigned t = 0; t < T; ++t) {
      Gen g; g.depth = 2; g.width = 3; m0[t] = gen_val(g);
      if (t && chance(1, 3)) { m0[t] = m0[0]; prog[t] = prog[0]; } else prog[t] = gen_program(m0[t]);
      logf("thread %u on its own %s", t, show(m0[t], 2).c_str()); for (auto& s : prog[t]) log("   " + s.name);
    }
    auto body = [&](unsigned t, vector<string>& out, Val& last) {
      GC* a = LIB(new GC); GC* b = LIB(new GC); { Lib l; build(*a, m0[t]); }
      for (auto& s : prog[t]) { op(); out.push_back(guarded(s, *a, *b)); }
      last = snapshot(*a);
      Lib l; delete a; delete b;
    };
    for (unsigned t = 0; t < T; ++t) body(t, want[t], fin[t]);
    vector<Val> fin2(T); vector<std::function<void()>> th;
    for (unsigned t = 0; t < T; ++t) th.push_back([&, t] { body(t, got[t], fin2[t]); });
    run_threads(th, gap, bias);
    for (unsigned t = 0; t < T; ++t) {
      compare("thread " + std::to_string(t), prog[t], want[t], got[t]);
      if (!same(fin[t], fin2[t])) violation("interference", "thread " + std::to_string(t) + " ends with a different container: " + diff_vals(fin[t], fin2[t]));
    }
    state(hash_bytes(&T, sizeof T, schedule_hash()));
  } else {
    Gen g; g.depth = 2; g.width = 4; Val m = pick(4) ? gen_val(g) : gen_any(g);
    GC* s = LIB(new GC); build(*s, m); GC* s2 = LIB(new GC); build(*s2, m);
    log("shared, only read: " + show(m, 3));
    vector<vector<Step>> prog(T); vector<vector<string>> want(T), got(T);
    for (unsigned t = 0; t < T; ++t) {
      logf("reader %u", t);
      for (unsigned n = 1 + pick(8); n-- > 0;) {
        Step st; bool have = false;
        for (int tries = 0; tries < 12 && !have; ++tries) {
          if (pick(2)) { Path q = random_path(m); Op o = gen_op(at(m, q)); if (!o.ro) continue; have = true; st.name = q.str() + " " + o.name; st.run = [q, o](GC& a, GC&) { return o.real(at(a, q)); }; }
          else { Big b = gen_big(m, m, false); if (b.mutates) continue; have = true; st.name = b.name; st.run = [b](GC& a, GC&) { return b.run(a, a); }; }
        }
        if (!have) continue;
        log("   " + st.name); prog[t].push_back(st);
      }
    }
    auto body = [&](unsigned t, vector<string>& out) { for (auto& st : prog[t]) { op(); out.push_back(guarded(st, *s, *s2)); } };
    for (unsigned t = 0; t < T; ++t) body(t, want[t]);
    { Val v = snapshot(*s); if (!same(v, m)) violation("shared-changed", "reading changed the shared container: " + diff_vals(m, v)); }
    vector<std::function<void()>> th;
    for (unsigned t = 0; t < T; ++t) th.push_back([&, t] { body(t, got[t]); });
    run_threads(th, gap, bias);
    for (unsigned t = 0; t < T; ++t) compare("reader " + std::to_string(t), prog[t], want[t], got[t]);
    { Val v = snapshot(*s); if (!same(v, m)) violation("shared-changed", "the shared container changed although it was only read: " + diff_vals(m, v)); }
    state(hash_bytes(&T, sizeof T, schedule_hash()));
    Lib l; delete s; delete s2;
  }
}
void scen_c11() { c11(); }

// ---- known finding C11: const reads that promote the stored vector in place
void scen_probe_c11() {
  GC* g = LIB(new GC); { Lib l; (*g)["v"].set_vec_int() = {1, 2, 3}; }
  Val before = snapshot(*g);
  try { Lib l; GC const& c = *g; (void)c.get_map_vec_real("v", "probe"); } catch (std::exception const&) {}
  Val after = snapshot(*g);
  { Lib l; delete g; }
  if (!same(before, after)) violation("shared-changed", "the const method get_map_vec_real changed the container: " + diff_vals(before, after));
}
}
