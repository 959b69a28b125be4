// C01 C02 C03 C04: histories of container operations against the reference tree.
#include "ops.hh"
#include "scen.hh"
namespace sim {

static void grow_guard(GC& g, Val& m) {
  if (count_nodes(m) > 60) { g.clear(); m = Val(); logf("(harness) root cleared, it grew too large"); }
}
static string diff(Val const& want, Val const& got) {
  if (want.t == MAP && got.t == MAP) {
    for (auto& e : want.m) { auto it = got.m.find(e.first); if (it == got.m.end()) return "key '" + e.first + "' is missing"; if (!same(e.second, it->second)) return "['" + e.first + "'] " + diff(e.second, it->second); }
    for (auto& e : got.m) if (!want.m.count(e.first)) return "unexpected key '" + e.first + "'";
  }
  if (want.t == VECTOR && got.t == VECTOR && want.v.size() == got.v.size())
    for (size_t k = 0; k < want.v.size(); ++k) if (!same(want.v[k], got.v[k])) return "[" + std::to_string(k) + "] " + diff(want.v[k], got.v[k]);
  return "expected " + show(want, 2) + " but found " + show(got, 2);
}
string diff_vals(Val const& a, Val const& b) { return diff(a, b); }

// state of the target type and operation reached: the distinct-state measure
static void note(Op const& op, Val const& before, bool rejected, int fired) {
  state(hash_str(op.name.substr(0, op.name.find('(')) + "|" + std::to_string(before.t) + "|" + std::to_string(before.size() > 3 ? 3 : before.size()) + (rejected ? "R" : "A") + std::to_string(fired > 2 ? 2 : fired)));
}

void step_ops(GC& g, Val& m, StepOpt const& o) {
  Path p = random_path(m);
  bool keyed = o.keyed && chance(1, 8);
  if (keyed) {
    Val v = gen_keyed(); GC& t = at(g, p); GC tmp; build(tmp, v); t.from_gc(tmp); at(m, p) = v;
    logf("(setup) %s := %s", p.str().c_str(), show(v, 3).c_str());
  } else if (chance(2, 5)) {   // put a fresh value of a random type at the node first
    Gen gg; Val v = gen_any(gg); GC& t = at(g, p); GC tmp; build(tmp, v); t.from_gc(tmp); at(m, p) = v;
    logf("(setup) %s := %s", p.str().c_str(), show(v, 2).c_str());
  }
  Val& mt = at(m, p); Val before = mt;
  Op op1 = keyed ? gen_key_op(mt) : gen_op(mt);
  for (int tries = 0; o.prefer && tries < 2 && pick(4); ++tries) {   // bias towards calls that can (1) or cannot (2) be carried out
    Val t1 = mt; int is = 1; try { op1.model(t1); } catch (Reject&) { is = 2; }
    if (is == o.prefer) break;
    op1 = keyed ? gen_key_op(mt) : gen_op(mt);
  }
  log(p.str() + " " + op1.name + "   on " + show(before, 2));
  op();
  string want; bool rej = false;
  Val root_before = m;
  try { want = op1.model(mt); } catch (Reject&) { rej = true; m = root_before; }
  GC& t = at(g, p);
  if (o.plan.mode) arm(o.plan);
  string got; bool thrown = false, oom = false; string what;
  try { got = op1.real(t); }
  catch (std::bad_alloc const& e) { thrown = true; oom = true; what = "bad_alloc"; }
  catch (std::exception const& e) { thrown = true; what = e.what(); }
  catch (...) { violation("bad-exception", op1.name + " raised something that is not a std::exception"); }
  uint64_t fired_now = o.plan.mode ? fired() : 0;
  disarm();
  note(op1, before, rej, int(fired_now));
  mix(got); mix(thrown ? 7 : 3);
  Val s = snapshot(g);
  auto where = [&] { return op1.name + " at " + p.str() + " holding " + show(before, 2); };
  if (fired_now) {   // a memory request failed inside the call
    if (!thrown) {
      if (rej) violation("oom-silent", where() + ": had to be rejected, returned normally although a memory request failed");
      if (!same(s, m)) violation("oom-state", where() + ": returned normally after a failed memory request but " + diff(m, s));
      if (got != want) violation("oom-result", where() + ": returned " + got + " after a failed memory request, expected " + want);
      return;
    }
    // everything outside the target is untouched, and so is the target of a read
    Val a = root_before, b = s;
    if (!op1.ro) { at(a, p) = Val(); 
      Val* q = &b; for (auto& st : p.steps) { if (st.first >= 0) { if (q->t != VECTOR || q->v.size() <= size_t(st.first)) violation("oom-spill", where() + ": path to the target disappeared"); q = &q->v[size_t(st.first)]; } else { if (q->t != MAP || !q->m.count(st.second)) violation("oom-spill", where() + ": path to the target disappeared"); q = &q->m[st.second]; } }
      *q = Val(); }
    if (!same(a, b)) violation("oom-spill", where() + ": failed memory request changed data that was not being modified: " + diff(a, b));
    logf("    -> memory request failed, reported: %s", what.c_str());
    if (rej && !oom && !same(root_before, s)) violation("reject-changed", where() + " was rejected but changed the container: " + diff(root_before, s));
    m = s;
    return;
  }
  if (rej) {
    fault(F_MISUSE);
    logf("    -> rejected: %s", thrown ? what.c_str() : "NO ERROR");
    if (!thrown) { if (o.report_reject) violation("no-error", where() + " cannot be carried out but raised no error (returned " + got + ")"); m = s; return; }
    if (!same(s, root_before)) { if (o.report_reject) violation("reject-changed", where() + " was rejected (" + what + ") but changed the container: " + diff(root_before, s)); m = s; }
    return;
  }
  if (thrown) {
    if (o.report_reject && !same(s, root_before)) violation("reject-changed", where() + " raised '" + what + "' and changed the container: " + diff(root_before, s));
    if (o.report_accept) violation("spurious-error", where() + " must succeed but raised: " + what);
    m = s; return;
  }
  if (o.report_reject && !same(s, m) && same(m, root_before)) violation("nothing-to-do-changed", where() + " has nothing to do but changed the container: " + diff(m, s));
  if (!same(s, m)) { if (o.report_accept) violation("state", where() + ": " + diff(m, s)); m = s; return; }
  if (op1.ro && !same(s, root_before)) { if (o.report_accept) violation("state", where() + " is a read but changed the container: " + diff(root_before, s)); }
  if (got != want && o.report_accept) violation("result", where() + ": returned " + got + " expected " + want);
  logf("    -> %s", got.size() > 200 ? "(long)" : got.c_str());
}

static void start(GC& g, Val& m) {
  Gen gg; gg.depth = 2; m = pick(3) ? gen_val(gg) : Val();
  build(g, m);
  Val s = snapshot(g); if (!same(s, m)) violation("build", "a container filled through its setters differs from the value: " + diff(m, s));
}
static void c02() {
  exact_reals(true);
  GC* g = LIB(new GC); Val m; start(*g, m);
  StepOpt o; o.prefer = 1; o.keyed = true;
  for (unsigned n = 1 + pick(60); n-- > 0;) { step_ops(*g, m, o); grow_guard(*g, m); if (!more(64)) break; }
  { Lib l; delete g; }
}
static void c03() {
  exact_reals(true);
  GC* g = LIB(new GC); Val m; start(*g, m);
  StepOpt o; o.report_accept = false; o.prefer = int(pick(3)); o.keyed = true;
  for (unsigned n = 1 + pick(60); n-- > 0;) { step_ops(*g, m, o); grow_guard(*g, m); if (!more(64)) break; }
  { Lib l; delete g; }
}

// ---------------------------------------------------------------- C04
static void c04() {
  exact_reals(true);
  allow_huge(300);
  const int N = 3;
  GC* g[N]; Val m[N];
  for (int k = 0; k < N; ++k) { g[k] = LIB(new GC); Gen gg; gg.depth = 2; m[k] = gen_val(gg); build(*g[k], m[k]); }
  auto verify = [&](string const& after) {
    for (int k = 0; k < N; ++k) { Val s = snapshot(*g[k]); if (!same(s, m[k])) violation("copy", after + ": container " + std::to_string(k) + ": " + diff(m[k], s)); }
  };
  StepOpt o; o.report_accept = false; o.report_reject = false;
  for (unsigned n = 2 + pick(30); n-- > 0;) {
    op();
    uint32_t what = pick(10);
    if (what < 4) {   // mutate one; the others must not notice
      int k = int(pick(N)); logf("mutate container %d:", k); step_ops(*g[k], m[k], o); grow_guard(*g[k], m[k]);
      verify("operation on container " + std::to_string(k));
      continue;
    }
    if (what == 9) {  // destroy one and start over
      int k = int(pick(N)); logf("destroy container %d", k); { Lib l; delete g[k]; } g[k] = LIB(new GC); m[k] = Val();
      verify("destroying container " + std::to_string(k)); continue;
    }
    int si = int(pick(N)), di = pick(3) ? int(pick(N)) : si;
    Path sp = random_path(m[si]), dp = random_path(m[di]);
    Val src = at(m[si], sp); Val dst = at(m[di], dp);
    bool alias = si == di;
    uint32_t how = pick(11);
    static char const* hn[] = {"operator=", "load", "from_gc", "to_gc", "copy-construct then assign", "set_vec/mat/string of own or other data", "swap through copies", "vector copy", "map copy", "return by value", "element wise through const accessors"};
    AllocPlan plan; if (chance(1, 6)) { plan.mode = 1; plan.n = 1 + pick(12); }
    string desc = string(hn[how]) + " container " + std::to_string(di) + ":" + dp.str() + " <- container " + std::to_string(si) + ":" + sp.str() + " (" + show(src, 1) + " over " + show(dst, 1) + ")";
    log(desc + (plan.mode ? " [memory request " + std::to_string(plan.n) + " fails]" : ""));
    state(hash_str("C04" + std::to_string(how) + "|" + std::to_string(src.t) + "|" + std::to_string(dst.t) + (alias ? "a" : "") + std::to_string(sp.steps.size()) + std::to_string(dp.steps.size())));
    Val before[N]; for (int k = 0; k < N; ++k) before[k] = m[k];
    GC& d = at(*g[di], dp); GC& s = at(*g[si], sp);
    Val expect = src; bool skip = false;
    // setting typed data from a reference that may live inside the destination
    if (how == 5 && !(src.t == STRING || (src.t >= VEC_POINTER && src.t <= MAT_COMPLEX))) how = 0;
    if (how == 7 && src.t != VECTOR) how = 1;
    if (how == 8 && src.t != MAP) how = 2;
    if (plan.mode) arm(plan);
    bool thrown = false;
    try { Lib l;
      switch (how) {
      case 0: d = s; break;
      case 1: d.load(s); break;
      case 2: d.from_gc(s); break;
      case 3: s.to_gc(d); break;
      case 4: { GenericContainer c(s); d = c; break; }
      case 5: { GC const& cs = s;
        switch (src.t) { case STRING: if (src.i == 0 && plan.mode == 0 && n % 2) d = cs.get_string(); else d.set_string(cs.get_string()); break; case VEC_POINTER: d.set_vec_pointer(cs.get_vec_pointer()); break; case VEC_BOOL: d.set_vec_bool(cs.get_vec_bool()); break; case VEC_INTEGER: d.set_vec_int(cs.get_vec_int()); break;
          case VEC_LONG: d.set_vec_long(cs.get_vec_long()); break; case VEC_REAL: d.set_vec_real(cs.get_vec_real()); break; case VEC_COMPLEX: d.set_vec_complex(cs.get_vec_complex()); break; case VEC_STRING: d.set_vec_string(cs.get_vec_string()); break;
          case MAT_INTEGER: d.set_mat_int(cs.get_mat_int()); break; case MAT_LONG: d.set_mat_long(cs.get_mat_long()); break; case MAT_REAL: d.set_mat_real(cs.get_mat_real()); break; case MAT_COMPLEX: d.set_mat_complex(cs.get_mat_complex()); break; }
        break; }
      case 6: { GenericContainer c(s); GenericContainer e; e = c; c.clear(); d = e; break; }
      case 7: { GC_namespace::vector_type v(s.get_vector()); GenericContainer t; t.set_vector() = v; d = t; break; }
      case 8: { GC_namespace::map_type v(s.get_map()); GenericContainer t; t.set_map() = v; d = t; break; }
      case 9: { auto f = [&]() -> GenericContainer { return s; }; GenericContainer t(f()); d = t; break; }
      default: { GenericContainer const c(s); GenericContainer t; t.load(c); d.from_gc(t); break; }
      }
    } catch (std::bad_alloc const&) { thrown = true; if (!plan.mode || !fired()) violation("copy-error", desc + " raised bad_alloc although memory was available"); }
    catch (std::exception const& e) { violation("copy-error", desc + " raised: " + e.what()); }
    disarm();
    if (thrown) {   // the source and every other container keep their value; the destination stays usable
      for (int k = 0; k < N; ++k) {
        Val now = snapshot(*g[k]);
        if (k != di && !same(now, before[k])) violation("copy-oom", desc + ": a failed memory request changed container " + std::to_string(k) + ": " + diff(before[k], now));
        m[k] = now;
      }
      continue;
    }
    (void)skip;
    at(m[di], dp) = expect;
    verify(desc);
    grow_guard(*g[di], m[di]);
  }
  for (int k = 0; k < N; ++k) { Lib l; delete g[k]; }
}
void scen_c02() { c02(); }
void scen_c03() { c03(); }
void scen_c04() { c04(); }
}
