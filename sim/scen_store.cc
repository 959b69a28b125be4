// C05 C06: binary images on a simulated disk.
#include "ops.hh"
#include "scen.hh"
#include "io.hh"
namespace sim {

Val without_pointers(Val const& v) {
  Val o = v;
  if (o.t == POINTER || o.t == VEC_POINTER) return Val();
  for (auto& x : o.v) x = without_pointers(x);
  for (auto& x : o.m) x.second = without_pointers(x.second);
  return o;
}
// a heap block of exactly n bytes: any access outside is reported by the address sanitizer
struct Block { uint8_t* p; size_t n; explicit Block(size_t n_) : p((uint8_t*)malloc(n_ ? n_ : 1)), n(n_) { memset(p, 0xA5, n_ ? n_ : 1); } explicit Block(string const& s) : Block(s.size()) { if (n) memcpy(p, s.data(), n); } ~Block() { free(p); } Block(Block const&) = delete; string str() const { return string((char*)p, n); } };

static void some_history(GC& g, Val& m, unsigned maxops) {
  StepOpt o; o.report_accept = o.report_reject = false;
  for (unsigned n = pick(maxops + 1); n-- > 0;) { step_ops(g, m, o); if (count_nodes(m) > 60) { g.clear(); m = Val(); } }
}
static void make(GC& g, Val& m, bool hist) {
  Gen gg; gg.depth = int(1 + pick(3)); gg.width = 2 + pick(4);
  m = pick(8) ? gen_val(gg) : gen_any(gg);
  build(g, m);
  if (hist && chance(1, 3)) some_history(g, m, 6);
}

static void c05() {
  exact_reals(true);
  allow_huge(60);
  const int N = 3;
  GC* g[N]; Val m[N]; GC* dst = LIB(new GC); Val dm; make(*dst, dm, true);
  string img[N]; vector<uint8_t> hbuf;
  for (int k = 0; k < N; ++k) { g[k] = LIB(new GC); make(*g[k], m[k], true); }
  for (unsigned n = 2 + pick(10); n-- > 0;) {
    op();
    int k = int(pick(N));
    string who = "container " + std::to_string(k) + " " + show(m[k], 2);
    uint32_t what = pick(8);
    int32_t need = LIB(g[k]->mem_size());
    if (need < 4) violation("image-size", who + " announces a size of " + std::to_string(need));
    size_t N1 = size_t(need);
    state(hash_str("C05" + std::to_string(what) + "|" + std::to_string(m[k].t) + "|" + std::to_string(m[k].size() > 4 ? 4 : m[k].size()) + "|" + std::to_string(dm.t)));
    auto save = [&](GC const& src, uint8_t* p, size_t room, bool& thrown) -> int32_t {
      thrown = false;
      try { return LIB(src.serialize(int32_t(room), p)); } catch (std::exception const& e) { thrown = true; return -1; }
    };
    bool th;
    if (what == 0) {   // buffer too small, possibly empty or of negative size
      size_t room = pick(4) ? pick(uint32_t(N1)) : N1 - 1;
      fault(F_SMALL_BUFFER);
      logf("save into %zu of %zu bytes: %s", room, N1, show(m[k], 2).c_str());
      Block b(N1 + 16);
      save(*g[k], b.p, room, th);
      if (!th) violation("short-buffer", who + ": saving into " + std::to_string(room) + " bytes raised no error, " + std::to_string(N1) + " are needed");
      for (size_t i = room; i < b.n; ++i) if (b.p[i] != 0xA5) violation("short-buffer", who + ": saving into " + std::to_string(room) + " bytes wrote byte " + std::to_string(i));
      Block e(room); save(*g[k], e.p, room, th);
      if (!th) violation("short-buffer", who + ": saving into too few bytes raised no error");
      if (chance(1, 4)) { Block z(4); try { Lib l; g[k]->serialize(-int32_t(1 + pick(1000)), z.p); th = false; } catch (std::exception const&) { th = true; } if (!th) violation("short-buffer", who + ": a negative buffer size was accepted"); }
      Val s = snapshot(*g[k]); if (!same(s, m[k])) violation("image-const", who + ": a refused save changed the container: " + diff_vals(m[k], s));
    } else if (what <= 3) {   // save (exact or larger buffer), restore over whatever dst holds
      size_t room = N1 + (pick(3) ? 0 : pick(40));
      logf("save %zu bytes into %zu and restore: %s", N1, room, show(m[k], 2).c_str());
      Block b(room);
      int32_t w = save(*g[k], b.p, room, th);
      if (th) violation("image-save", who + ": saving into the announced size raised an error");
      if (size_t(w) != N1) violation("image-size", who + ": announced " + std::to_string(N1) + " bytes, the image occupies " + std::to_string(w));
      for (size_t i = N1; i < room; ++i) if (b.p[i] != 0xA5) violation("image-size", who + ": wrote beyond the announced size");
      if (what == 2) {   // vector form
        vector<uint8_t> v(pick(3) ? 0 : pick(uint32_t(2 * N1))); size_t vs = v.size();
        int32_t w2; try { w2 = LIB(g[k]->serialize(v)); } catch (std::exception const& e) { violation("image-save", who + ": serialize(vector) raised " + e.what()); }
        if (size_t(w2) != N1 || v.size() < N1 || (vs >= N1 && v.size() != vs)) violation("image-size", who + ": serialize(vector) returned " + std::to_string(w2));
        if (memcmp(v.data(), b.p, N1) != 0) violation("image-save", who + ": the two save functions disagree");
        hbuf = v;
      }
      img[k] = string((char*)b.p, N1);
      int32_t r = -1;
      try { if (what == 2) r = LIB(dst->de_serialize(hbuf)); else r = LIB(dst->de_serialize(int32_t(room), b.p)); }
      catch (std::exception const& e) { violation("image-load", who + ": its image cannot be restored: " + e.what()); }
      if (size_t(r) != N1) violation("image-size", who + ": image of " + std::to_string(N1) + " bytes, reading consumed " + std::to_string(r));
      Val want = without_pointers(m[k]), got = without_pointers(snapshot(*dst));
      if (!same(want, got)) violation("image-value", who + " restored over " + show(dm, 1) + ": " + diff_vals(want, got));
      dm = snapshot(*dst);
      Val s = snapshot(*g[k]); if (!same(s, m[k])) violation("image-const", who + ": saving changed the container");
    } else if (what == 4) {   // several images back to back in one file
      string file; size_t off[N + 1]; 
      size_t total = 0; for (int q = 0; q < N; ++q) { total += size_t(LIB(g[q]->mem_size())); }
      Block b(total); size_t at = 0;
      for (int q = 0; q < N; ++q) { off[q] = at; int32_t w = save(*g[q], b.p + at, total - at, th); if (th) violation("image-save", "storing images back to back: no room for container " + std::to_string(q) + " although the announced sizes fit"); at += size_t(w); }
      off[N] = at;
      if (at != total) violation("image-size", "images stored back to back occupy " + std::to_string(at) + " bytes, announced " + std::to_string(total));
      logf("three images back to back, %zu bytes", total);
      at = 0;
      for (int q = 0; q < N; ++q) {
        int32_t r = -1;
        try { r = LIB(dst->de_serialize(int32_t(total - at), b.p + at)); } catch (std::exception const& e) { violation("image-load", "image " + std::to_string(q) + " in a file of several cannot be restored: " + e.what()); }
        Val want = without_pointers(m[q]), got = without_pointers(snapshot(*dst));
        if (!same(want, got)) violation("image-value", "image " + std::to_string(q) + " in a file of several: " + diff_vals(want, got));
        at += size_t(r); if (at != off[q + 1]) violation("image-size", "reading image " + std::to_string(q) + " of a file consumed " + std::to_string(r) + " bytes instead of " + std::to_string(off[q + 1] - off[q]));
      }
      dm = snapshot(*dst);
    } else if (what == 5) {   // a restart: only the disk image survives
      if (img[k].empty()) continue;
      fault(F_CRASH);
      logf("restart: container %d comes back from its last image", k);
      { Lib l; delete g[k]; } g[k] = LIB(new GC);
      Block b(img[k]);
      try { LIB(g[k]->de_serialize(int32_t(b.n), b.p)); } catch (std::exception const& e) { violation("image-load", "last image cannot be restored after a restart: " + string(e.what())); }
      m[k] = snapshot(*g[k]);
      // the restored tree must produce the same image again
      if (enc(without_pointers(m[k])) == enc(m[k])) {
        bool hasp = false; (void)hasp;
        vector<uint8_t> v; int32_t w = LIB(g[k]->serialize(v));
        if (string((char*)v.data(), size_t(w)) != img[k]) {
          // images of trees that held pointers cannot be reproduced
          GC* t = LIB(new GC); int32_t r = LIB(t->de_serialize(v)); Val a = snapshot(*t); if (!same(a, m[k]) || r != w) violation("image-value", "image written after a restart does not restore the same tree: " + diff_vals(m[k], a)); { Lib l; delete t; }
        }
      }
    } else {   // keep changing it
      StepOpt o; o.report_accept = o.report_reject = false;
      if (chance(1, 4)) { o.plan.mode = 1; o.plan.n = 1 + pick(6); }
      step_ops(*g[k], m[k], o); if (count_nodes(m[k]) > 60) { g[k]->clear(); m[k] = Val(); }
    }
  }
  for (int k = 0; k < N; ++k) { Lib l; delete g[k]; }
  { Lib l; delete dst; }
}

static void c06() {
  exact_reals(true);
  allow_huge(150);
  GC* g = LIB(new GC); Val m; Gen gg; gg.depth = int(1 + pick(3)); gg.width = 2 + pick(4); m = pick(6) ? gen_val(gg) : gen_any(gg); build(*g, m);
  GC* h = LIB(new GC); Val hm; hm = pick(3) ? gen_any(gg) : gen_val(gg, 2); build(*h, hm);
  GC* dst = LIB(new GC); Val dm; { Gen q; q.depth = 2; dm = gen_val(q); build(*dst, dm); }
  vector<uint8_t> a, b; LIB(g->serialize(a)); LIB(h->serialize(b));
  string img((char*)a.data(), size_t(LIB(g->mem_size()))), old((char*)b.data(), size_t(LIB(h->mem_size())));
  for (unsigned n = 1 + pick(12); n-- > 0;) {
    op();
    Damage d; string bad = damage_image(img, pick(3) ? old : string(), d);
    log("image of " + show(m, 2) + " (" + std::to_string(img.size()) + " bytes):" + d.what + " -> " + std::to_string(bad.size()) + " bytes, read over " + show(dm, 1));
    state(hash_bytes(bad.data(), std::min<size_t>(bad.size(), 24)));
    if (!bad.empty()) state(hash_str("C06" + std::to_string(m.t) + d.what.substr(0, 5)));
    Block blk(bad);
    reset_requests();
    set_step_limit(2000 * (bad.size() + 100) + 400 * uint64_t(std::max(0, LIB(dst->mem_size())))); // what is replaced is destroyed too
    int32_t r = -1; bool thrown = false; string err;
    try { r = LIB(dst->de_serialize(int32_t(bad.size()), blk.p)); }
    catch (std::bad_alloc const&) { violation("image-memory", "damaged image (" + d.what + ") of " + std::to_string(bad.size()) + " bytes: unreasonable memory request"); }
    catch (std::exception const& e) { thrown = true; err = e.what(); }
    set_step_limit(40000000);
    uint64_t asked = bytes_requested();
    if (asked > 200 * uint64_t(bad.size()) + 65536) violation("image-memory", "reading a damaged image of " + std::to_string(bad.size()) + " bytes requested " + std::to_string(asked) + " bytes");
    mix(thrown ? 1 : uint64_t(r));
    if (thrown) {
      logf("    -> refused: %s", err.c_str());
      Val s = snapshot(*dst); dm = s;
    } else {
      if (d.cut_only && bad.size() < img.size()) violation("image-cut", "an image cut to " + std::to_string(bad.size()) + " of " + std::to_string(img.size()) + " bytes was accepted: " + show(m, 2));
      if (r < 4 || size_t(r) > bad.size()) violation("image-size", "reading a damaged image of " + std::to_string(bad.size()) + " bytes reported " + std::to_string(r) + " bytes");
      Val s = snapshot(*dst); dm = s;
      if (!d.any && !same(without_pointers(s), without_pointers(m))) violation("image-value", "undamaged image: " + diff_vals(without_pointers(m), without_pointers(s)));
      // what was accepted is a value like any other: it can be saved and restored
      vector<uint8_t> v; int32_t w = LIB(dst->serialize(v)); int32_t ms = LIB(dst->mem_size());
      if (w != ms) violation("image-wellformed", "container restored from a damaged image announces " + std::to_string(ms) + " bytes and writes " + std::to_string(w));
      GC* t = LIB(new GC); LIB(t->de_serialize(v)); Val s2 = snapshot(*t); if (!same(s2, s)) violation("image-wellformed", "container restored from a damaged image does not survive a save: " + diff_vals(s, s2)); { Lib l; delete t; }
      logf("    -> accepted %d bytes: %s", r, show(s, 2).c_str());
    }
    // it stays usable
    if (chance(1, 2)) { Block ok(img); int32_t q = -1; try { q = LIB(dst->de_serialize(int32_t(ok.n), ok.p)); } catch (std::exception const& e) { violation("image-usable", "after a refused image a good one cannot be read: " + string(e.what())); }
      Val s = snapshot(*dst); if (size_t(q) != img.size() || !same(without_pointers(s), without_pointers(m))) violation("image-usable", "after a damaged image a good one restores wrongly: " + diff_vals(without_pointers(m), without_pointers(s))); dm = s; }
    else if (chance(1, 3)) { StepOpt o; step_ops(*dst, dm, o); if (count_nodes(dm) > 80) { dst->clear(); dm = Val(); } }
  }
  { Lib l; delete g; delete h; delete dst; }
}
void scen_c05() { c05(); }
void scen_c06() { c06(); }
}
