// C15 C16: replicas fed by unreliable channels, layered merges, unification.
#include "ops.hh"
#include "scen.hh"
namespace sim {

static bool has_nan(Val const& v) {
  auto n = [](double d) { return d != d; };
  if (n(v.r) || n(v.c.real()) || n(v.c.imag())) return true;
  for (double d : v.vr) if (n(d)) return true;
  for (cplx const& c : v.vc) if (n(c.real()) || n(c.imag())) return true;
  for (auto& x : v.v) if (has_nan(x)) return true;
  for (auto& x : v.m) if (has_nan(x.second)) return true;
  return false;
}
static bool path_exists(Val const& root, Path const& p) {
  Val const* q = &root;
  for (auto& s : p.steps) {
    if (s.first >= 0) { if (q->t != VECTOR || size_t(s.first) >= q->v.size()) return false; q = &q->v[size_t(s.first)]; }
    else { if (q->t != MAP) return false; auto it = q->m.find(s.second); if (it == q->m.end()) return false; q = &it->second; }
  }
  return true;
}
// alters exactly one place of v
static bool nudge(Val& v, string& what) {
  if (v.t == VECTOR && !v.v.empty() && pick(8)) { size_t k = pick(2) ? v.v.size() - 1 : pick(uint32_t(v.v.size())); what += "[" + std::to_string(k) + "]"; return nudge(v.v[k], what); }
  if (v.t == MAP && !v.m.empty() && pick(8)) { auto it = v.m.begin(); std::advance(it, pick(uint32_t(v.m.size()))); what += "/" + it->first; return nudge(it->second, what); }
  auto where = [&](size_t n) -> size_t { return pick(3) ? (pick(2) ? n - 1 : 0) : pick(uint32_t(n)); };
  uint32_t how = pick(6);
  switch (v.t) {
  case NOTYPE: v = how & 1 ? Val::I(0) : Val::of(MAP); return true;
  case POINTER: v.i ^= 16; return true;
  case BOOL: if (how == 0) { v = Val::I(v.i); return true; } v.i = !v.i; return true;
  case INTEGER: if (how == 0) { v = Val::L(v.i); return true; } if (how == 1) { v = Val::R(double(v.i)); return true; } v.i = int32_t(uint32_t(v.i) ^ (1u << pick(32))); return true;
  case LONG: if (how == 0 && v.i == int32_t(v.i)) { v = Val::I(v.i); return true; } v.i = int64_t(uint64_t(v.i) ^ (1ull << pick(64))); return true;
  case REAL: if (how == 0) { v = Val::C(v.r); return true; } v.r = std::isfinite(v.r) ? std::nextafter(v.r, how & 1 ? 1e308 : -1e308) : 1; return true;
  case COMPLEX: if (how == 0) { v = Val::R(v.c.real()); return true; } if (how & 1) v.c = cplx(v.c.real(), std::isfinite(v.c.imag()) ? std::nextafter(v.c.imag(), 1e308) : 1); else v.c = cplx(std::isfinite(v.c.real()) ? std::nextafter(v.c.real(), 1e308) : 1, v.c.imag()); return true;
  case STRING: if (v.s.empty() || how == 0) { v.s += pick(2) ? string(1, '\0') : "x"; return true; } if (how == 1) { v.s.pop_back(); return true; } v.s[where(v.s.size())] ^= 1; return true;
  case MAP: { if (v.m.empty() || how < 2) { Gen g; string k = gen_key(g); if (v.m.count(k)) return false; v.m[k] = Val(); return true; }
    auto it = v.m.begin(); std::advance(it, pick(uint32_t(v.m.size()))); if (how == 2) { v.m.erase(it); return true; }
    string k = it->first; Val x = it->second; v.m.erase(it);
    switch (pick(6)) { case 0: k += "'"; break; case 1: k += string("\0x", 2); break; case 2: k += '\0'; break; case 3: if (k.empty()) k = "e"; else k.pop_back(); break; case 4: if (k.empty()) k = " "; else k.back() = char(k.back() ^ 1); break; default: if (k.empty()) k = "E"; else k[0] = char(k[0] ^ 32); }
    if (v.m.count(k)) return false; v.m[k] = x; return true; }
  case VECTOR: if (v.v.empty() || how < 2) { v.v.push_back(Val()); return true; } if (how == 2) { v.v.pop_back(); return true; }
    if (v.v.size() > 1) { size_t a = pick(uint32_t(v.v.size() - 1)); if (same(v.v[a], v.v[a + 1])) return false; std::swap(v.v[a], v.v[a + 1]); return true; } return false;
  }
  if (v.is_mat()) {
    if (how == 0) { if (v.nr == v.nc) return false; std::swap(v.nr, v.nc); return true; }       // same data, other shape
    size_t n = v.size(); if (!n) return false; size_t k = where(n);
    if (!v.vi.empty()) v.vi[k] ^= 1; else if (!v.vr.empty()) v.vr[k] = std::isfinite(v.vr[k]) ? std::nextafter(v.vr[k], 1e308) : 1; else v.vc[k] += cplx(0, std::isfinite(v.vc[k].imag()) && std::fabs(v.vc[k].imag()) < 1e10 ? 1 : 0);
    return true;
  }
  size_t n = v.size();
  if (how == 0 || !n) { switch (v.t) { case VEC_REAL: v.vr.push_back(0); break; case VEC_COMPLEX: v.vc.push_back(0); break; case VEC_STRING: v.vs.push_back(""); break; default: v.vi.push_back(0); } return true; }
  if (how == 1) { switch (v.t) { case VEC_REAL: v.vr.pop_back(); break; case VEC_COMPLEX: v.vc.pop_back(); break; case VEC_STRING: v.vs.pop_back(); break; default: v.vi.pop_back(); } return true; }
  size_t k = where(n);
  switch (v.t) {
  case VEC_REAL: v.vr[k] = std::isfinite(v.vr[k]) ? std::nextafter(v.vr[k], 1e308) : 1; break;
  case VEC_COMPLEX: v.vc[k] = cplx(v.vc[k].real(), std::isfinite(v.vc[k].imag()) ? std::nextafter(v.vc[k].imag(), 1e308) : 1); break;
  case VEC_STRING: v.vs[k] += "x"; break;
  case VEC_POINTER: v.vi[k] ^= 16; break;
  case VEC_BOOL: v.vi[k] = !v.vi[k]; break;
  case VEC_INTEGER: v.vi[k] = int32_t(uint32_t(v.vi[k]) ^ (1u << pick(32))); break;
  default: v.vi[k] = int64_t(uint64_t(v.vi[k]) ^ (1ull << pick(64)));
  }
  return true;
}

static void check_compare(GC& a, GC& b, Val const& sa, Val const& sb, string const& who) {
  op();
  if (has_nan(sa) || has_nan(sb)) return;
  bool eq = same(sa, sb);
  state(hash_str("cmp" + std::to_string(sa.t) + "|" + std::to_string(sb.t) + (eq ? "=" : "!") + std::to_string(std::min(sa.size(), 4u)) + std::to_string(std::min<size_t>(count_nodes(sa), 12))));
  string r; string from = pick(3) == 2 ? "here: " : "";
  ExactView fv(from);
  try { Lib l; r = a.compare_content(b, fv.sv()); }
  catch (std::exception const& e) { violation("compare-error", who + ": comparing raised " + e.what()); }
  logf("compare %s -> %s", who.c_str(), r.empty() ? "no difference" : r.substr(0, 120).c_str());
  if (eq && !r.empty()) violation("compare-false", who + ": equal containers " + show(sa, 2) + " reported as different: " + r);
  if (!eq && r.empty()) violation("compare-missed", who + ": no difference reported, but " + diff_vals(sa, sb));
  Val ta = snapshot(a), tb = snapshot(b);
  if (!same(sa, ta)) violation("compare-const", who + ": comparing changed the left container: " + diff_vals(sa, ta));
  if (!same(sb, tb)) violation("compare-const", who + ": comparing changed the right container: " + diff_vals(sb, tb));
}

static void c15() {
  allow_huge(300);
  const int N = 3;
  GC* g[N]; Val m[N];
  Gen gg; gg.depth = int(1 + pick(3)); Val init = pick(4) ? gen_val(gg) : gen_any(gg);
  for (int k = 0; k < N; ++k) { g[k] = LIB(new GC); build(*g[k], init); m[k] = init; }
  struct Upd { Path p; Op op; };
  vector<Upd> log_; vector<vector<size_t>> inbox(N);
  for (unsigned n = 1 + pick(24); n-- > 0;) {
    uint32_t what = pick(8);
    if (what <= 3) {            // an update happens on replica 0 and is sent to the others
      Path p = random_path(m[0]); Upd u{p, gen_op(at(m[0], p))};
      log_.push_back(u); size_t id = log_.size() - 1;
      logf("update %zu: %s %s", id, p.str().c_str(), u.op.name.c_str());
      for (int k = 0; k < N; ++k) {
        uint32_t f = k == 0 ? 0 : pick(8);
        if (f == 7) { fault(F_MSG_LOSS); logf("  lost on the way to %d", k); continue; }
        inbox[k].push_back(id);
        if (f == 6) { fault(F_MSG_DUP); inbox[k].push_back(id); logf("  duplicated on the way to %d", k); }
        if (f == 5 && inbox[k].size() > 1) { fault(F_MSG_REORDER); std::swap(inbox[k].back(), inbox[k][pick(uint32_t(inbox[k].size() - 1))]); logf("  reordered on the way to %d", k); }
      }
      what = 7;
    }
    if (what >= 6) {            // delivery
      for (int k = 0; k < N; ++k) {
        size_t keep = k == 0 ? 0 : pick(uint32_t(inbox[k].size() + 1));
        while (inbox[k].size() > keep) {
          size_t id = inbox[k].front(); inbox[k].erase(inbox[k].begin());
          Upd& u = log_[id];
          if (!path_exists(m[k], u.p)) continue;
          try { u.op.real(at(*g[k], u.p)); } catch (std::exception const&) {}
          m[k] = snapshot(*g[k]);
          if (count_nodes(m[k]) > 60) { g[k]->clear(); m[k] = Val(); }
        }
      }
    } else if (what == 5) {     // a replica is rebuilt from another one, then one place in it changes
      int a = int(pick(N)), b = int(pick(N)); if (a == b) continue;
      Val v = m[a]; string w; bool ch = chance(3, 4) && nudge(v, w);
      logf("replica %d := replica %d%s%s", b, a, ch ? " with one change at " : "", w.c_str());
      { Lib l; delete g[b]; } g[b] = LIB(new GC); build(*g[b], v); m[b] = snapshot(*g[b]);
      check_compare(*g[a], *g[b], m[a], m[b], "replica " + std::to_string(a) + " with its copy");
      check_compare(*g[b], *g[a], m[b], m[a], "the copy with replica " + std::to_string(a));
    }
    int a = int(pick(N)), b = int(pick(N));
    check_compare(*g[a], *g[b], m[a], m[b], "replicas " + std::to_string(a) + "," + std::to_string(b));
    if (chance(1, 3)) {         // parts of replicas
      Path pa = random_path(m[a]), pb = path_exists(m[b], pa) ? pa : random_path(m[b]);
      check_compare(at(*g[a], pa), at(*g[b], pb), at(m[a], pa), at(m[b], pb), "replica parts " + pa.str() + " , " + pb.str());
    }
  }
  for (int k = 0; k < N; ++k) { Lib l; delete g[k]; }
}

// ---------------------------------------------------------------- C16
// every element with its numeric value and position, whatever type stores it
static void flat(string& o, Val const& v, bool in_seq);
static void num(string& o, double d) { if (d == std::floor(d) && std::fabs(d) < 9e18) { o += "#" + std::to_string(int64_t(d)); } else o += "#" + encd(d); }
static void cnum(string& o, cplx c) { if (c.imag() == 0) num(o, c.real()); else o += "#" + encc(c); }
static void flat_el(string& o, Val const& v, size_t k) {
  switch (v.t) {
  case VEC_REAL: case MAT_REAL: num(o, v.vr[k]); break;
  case VEC_COMPLEX: case MAT_COMPLEX: cnum(o, v.vc[k]); break;
  case VEC_STRING: o += "S" + std::to_string(v.vs[k].size()) + ":" + v.vs[k]; break;
  case VEC_POINTER: o += "P" + std::to_string(v.vi[k]); break;
  default: o += "#" + std::to_string(v.vi[k]);
  }
}
static void flat(string& o, Val const& v, bool in_seq) {
  switch (v.t) {
  case NOTYPE: o += "N"; return;
  case POINTER: o += "P" + std::to_string(v.i); return;
  case BOOL: o += (in_seq ? "#" : "B") + std::to_string(v.i); return;
  case INTEGER: case LONG: o += (in_seq ? "#" : v.t == INTEGER ? "I" : "L") + std::to_string(v.i); return;
  case REAL: if (!in_seq) o += "R"; num(o, v.r); return;
  case COMPLEX: if (!in_seq) o += "C"; cnum(o, v.c); return;
  case STRING: o += "S" + std::to_string(v.s.size()) + ":" + v.s; return;
  case VECTOR: o += "["; for (auto& x : v.v) { flat(o, x, true); o += ","; } o += "]"; return;
  case MAP: o += "{"; for (auto& x : v.m) { o += std::to_string(x.first.size()) + ":" + x.first + "="; flat(o, x.second, false); o += ","; } o += "}"; return;
  }
  o += "[";
  if (v.is_mat()) for (unsigned j = 0; j < v.nc; ++j) { o += "["; for (unsigned i = 0; i < v.nr; ++i) { flat_el(o, v, size_t(i) + size_t(j) * v.nr); o += ","; } o += "],"; }
  else for (size_t k = 0; k < v.size(); ++k) { flat_el(o, v, k); o += ","; }
  o += "]";
}
// what unification must at least achieve, innermost first
static int unified(Val const& v) {
  if (v.t != VECTOR || v.v.empty()) return v.t;
  int t = -1; unsigned n = 0; bool uni = true, unknown = false;
  for (auto& x : v.v) { int u = unified(x); if (u < 0) unknown = true; if (t < 0) { t = u; n = x.size(); } else if (u != t || x.size() != n) uni = false; }
  if (unknown) return -1;
  if (!uni) return VECTOR;
  switch (t) { case BOOL: return VEC_BOOL; case INTEGER: return VEC_INTEGER; case LONG: return VEC_LONG; case REAL: return VEC_REAL; case COMPLEX: return VEC_COMPLEX; case STRING: return VEC_STRING;
    case VEC_INTEGER: return n ? MAT_INTEGER : -1; case VEC_LONG: return n ? MAT_LONG : -1; case VEC_REAL: return n ? MAT_REAL : -1; case VEC_COMPLEX: return n ? MAT_COMPLEX : -1; }
  return VECTOR;
}
static void must_unify(Val const& before, Val const& after, string const& who) {
  if (before.t == MAP && after.t == MAP) { for (auto& x : before.m) { auto it = after.m.find(x.first); if (it != after.m.end()) must_unify(x.second, it->second, who + "/" + x.first); } return; }
  if (before.t != VECTOR) return;
  int u = unified(before);
  if (u == VECTOR || u < 0) { if (after.t == VECTOR && after.v.size() == before.v.size()) for (size_t k = 0; k < before.v.size(); ++k) must_unify(before.v[k], after.v[k], who + "[" + std::to_string(k) + "]"); return; }
  if (after.t != u) violation("not-unified", who + ": " + show(before, 2) + " holds elements of one type but became " + show(after, 2) + " instead of " + tname[u]);
}
static Val gen_nested(int d) {   // vectors that can often be unified
  Gen g; g.width = 4;
  if (d <= 0) return gen_scalar(g);
  uint32_t k = pick(8);
  if (k == 7) return gen_val(g, d);
  if (k == 6) { Val v = Val::of(MAP); for (unsigned n = pick(4); n-- > 0;) v.m[gen_key(g)] = gen_nested(d - 1); return v; }
  Val v = Val::of(VECTOR); unsigned n = pick(5);
  if (k <= 2) { Val p = gen_nested(d - 1); for (unsigned q = 0; q < n; ++q) { Val e = p; if (pick(2)) { string w; nudge(e, w); } v.v.push_back(e); } }
  else if (k <= 4) { static const int st[] = {INTEGER, LONG, REAL, BOOL, COMPLEX, STRING, POINTER, NOTYPE, VEC_INTEGER, VEC_LONG, VEC_REAL, VEC_BOOL, VEC_COMPLEX, VEC_STRING, VEC_POINTER, MAT_REAL, MAP};
    int base = pick(3) ? 8 : 0, t1 = st[base + pick(7)], t2 = pick(2) ? t1 : st[pick(2) ? base + pick(7) : pick(17)];
    unsigned len = pick(4);
    for (unsigned q = 0; q < n; ++q) { Val e = gen_typed(pick(3) ? t1 : t2, g);
      if (pick(8)) { if (e.t >= VEC_POINTER && e.t <= VEC_LONG) e.vi.resize(len); if (e.t == VEC_REAL) e.vr.resize(len); if (e.t == VEC_COMPLEX) e.vc.resize(len); if (e.t == VEC_STRING) e.vs.resize(len); }
      v.v.push_back(e); } }
  else for (unsigned q = 0; q < n; ++q) v.v.push_back(gen_nested(d - 1));
  return v;
}
static void c16() {
  allow_huge(300);
  const int N = 3;
  GC* g[N]; Val m[N];
  Gen gg; gg.depth = 2;
  for (int k = 0; k < N; ++k) { g[k] = LIB(new GC); m[k] = pick(5) ? Val::of(MAP) : gen_any(gg); if (m[k].t == MAP) for (unsigned n = pick(5); n-- > 0;) m[k].m[gen_key(gg)] = gen_nested(int(pick(4))); build(*g[k], m[k]); }
  auto others = [&](int k, string const& w) { for (int q = 0; q < N; ++q) if (q != k) { Val s = snapshot(*g[q]); if (!same(s, m[q])) violation("merge-other", w + " changed another container: " + diff_vals(m[q], s)); } };
  for (unsigned n = 1 + pick(16); n-- > 0;) {
    op();
    uint32_t what = pick(8);
    AllocPlan plan; if (chance(1, 6)) { plan.mode = 1 + pick(2); plan.n = 1 + pick(10); }
    if (what <= 3) {      // a layer is merged, possibly delivered again
      int d = int(pick(N)), s = int(pick(N)); 
      Path dp, sp; if (chance(1, 3)) dp = random_path(m[d]); if (chance(1, 3)) sp = random_path(m[s]);
      unsigned times = 1 + (chance(1, 4) ? 1 + pick(2) : 0);
      for (unsigned t = 0; t < times; ++t) {
        if (t) fault(F_MSG_DUP);
        if (!path_exists(m[s], sp) || !path_exists(m[d], dp)) break;
        Val sv = at(m[s], sp), dv = at(m[d], dp), root = m[d];
        bool refuse = sv.t != NOTYPE && (sv.t != MAP || (dv.t != MAP && dv.t != NOTYPE));
        string w = "merging " + std::to_string(s) + ":" + sp.str() + " " + show(sv, 1) + " into " + std::to_string(d) + ":" + dp.str() + " " + show(dv, 1);
        state(hash_str("merge" + std::to_string(sv.t) + "|" + std::to_string(dv.t) + (s == d ? "a" : "") + std::to_string(std::min(sv.size(), 4u)) + std::to_string(std::min(dv.size(), 4u)) + std::to_string(t) + std::to_string(plan.mode)));
        string msg = "merge test: "; ExactView mv(msg);
        bool thrown = false; string ex;
        if (plan.mode) arm(plan);
        try { Lib l; at(*g[d], dp).merge(at(*g[s], sp), mv.sv()); } catch (std::exception const& e) { thrown = true; ex = e.what(); }
        uint64_t f = plan.mode ? fired() : 0; disarm();
        logf("%s -> %s", w.c_str(), thrown ? ex.c_str() : "done");
        others(d, w);
        Val now = snapshot(*g[d]);
        if (refuse) {
          if (!thrown) violation("merge-accepted", w + " must be refused but was carried out");
          if (!same(now, root)) violation("merge-changed", w + " was refused but changed the destination: " + diff_vals(root, now));
        } else if (thrown) {
          if (!f) violation("merge-error", w + " raised: " + ex);
          // keys not named by the layer keep their value
          Val a = root, b = now; at(a, dp) = Val(); if (path_exists(b, dp)) at(b, dp) = Val(); if (!same(a, b)) violation("merge-oom", w + " ran out of memory and changed data outside the destination");
          Val nv = at(now, dp);
          if (nv.t != MAP && !same(nv, dv)) violation("merge-oom", w + " ran out of memory and left " + show(nv, 1));
          if (nv.t == MAP && dv.t == MAP) {
            for (auto& x : dv.m) { auto it = nv.m.find(x.first); if (it == nv.m.end()) violation("merge-oom", w + " ran out of memory and lost key '" + x.first + "'"); if (!sv.m.count(x.first) && !same(it->second, x.second)) violation("merge-oom", w + " ran out of memory and changed key '" + x.first + "'"); }
            for (auto& x : nv.m) if (!dv.m.count(x.first) && !sv.m.count(x.first)) violation("merge-oom", w + " ran out of memory and invented key '" + x.first + "'");
          }
          m[d] = now;
        } else {
          Val e = dv; if (sv.t == MAP) { if (e.t == NOTYPE) e = Val::of(MAP); for (auto& x : sv.m) e.m[x.first] = x.second; }
          at(m[d], dp) = e;
          if (!same(now, m[d])) violation("merge-value", w + ": " + diff_vals(m[d], now));
        }
        if (t + 1 < times && pick(2)) plan = AllocPlan();
      }
      if (count_nodes(m[d]) > 80) { g[d]->clear(); m[d] = Val(); }
    } else if (what <= 6) { // unify
      int d = int(pick(N)); Path p;
      if (chance(1, 2)) { Val v = gen_nested(int(1 + pick(3))); p = random_path(m[d]); at(m[d], p) = v; { GC* t = LIB(new GC); build(*t, v); at(*g[d], p).from_gc(*t); Lib l; delete t; } }
      else if (chance(1, 2)) p = random_path(m[d]);
      Val before = at(m[d], p), root = m[d]; string fb; flat(fb, before, false);
      string w = "unifying " + show(before, 3);
      state(hash_str("uni" + std::to_string(before.t) + std::to_string(before.t == VECTOR && before.v.size() ? before.v[0].t : -1) + std::to_string(before.t == VECTOR && before.v.size() ? before.v.back().t : -1) + std::to_string(plan.mode)));
      bool thrown = false; string ex;
      if (plan.mode) arm(plan);
      try { Lib l; at(*g[d], p).collapse(); } catch (std::exception const& e) { thrown = true; ex = e.what(); }
      uint64_t f = plan.mode ? fired() : 0; disarm();
      others(d, w);
      Val now = snapshot(*g[d]);
      logf("%s -> %s", w.c_str(), thrown ? ex.c_str() : show(now, 3).c_str());
      if (thrown && !f) violation("unify-error", w + " raised: " + ex);
      if (!path_exists(now, p)) violation("unify-lost", w + ": the place it was applied to is gone");
      Val a = root, b = now, nv = at(now, p); at(a, p) = Val(); at(b, p) = Val();
      if (!same(a, b)) violation("unify-spill", w + " changed data elsewhere: " + diff_vals(a, b));
      string fa; flat(fa, nv, false);
      if (!thrown) {
        if (fa != fb && !(before.t != nv.t && fa == fb)) violation("unify-value", w + " changed values: became " + show(nv, 3));
        if (!f) must_unify(before, nv, "unifying");
        m[d] = now;
        if (!f) {
          try { Lib l; at(*g[d], p).collapse(); } catch (std::exception const& e) { violation("unify-error", w + " a second time raised: " + e.what()); }
          Val again = snapshot(*g[d]); if (!same(again, now)) violation("unify-again", w + " a second time changed it: " + diff_vals(now, again));
        }
      } else m[d] = now;
    } else {
      int d = int(pick(N)); StepOpt o; o.report_accept = o.report_reject = false; step_ops(*g[d], m[d], o); if (count_nodes(m[d]) > 80) { g[d]->clear(); m[d] = Val(); }
    }
  }
  for (int k = 0; k < N; ++k) { Lib l; delete g[k]; }
}
void scen_c15() { c15(); }
void scen_c16() { c16(); }
}
