// C20: the stand-alone interpreter (LuaInterpreter::interactive). Command line, environment, script and module files,
// terminal (input, output, error stream), interrupts and Lua's memory belong to the simulator.
#include "ops.hh"
#include "scen.hh"
#include "luasim.hh"
#include "GenericContainer/GenericContainerInterface_lua.hh"
#include "lua.hpp"
#include <csignal>
#include <cstring>
namespace sim {
namespace {
// ---- the terminal
struct Tty { string in; size_t pos = 0; bool eio = false; string out, err; bool out_fails = false; size_t out_at = 0; bool err_fails = false; int irq = 0; unsigned stars = 0; };
Tty tty;
ssize_t in_read(void*, char* b, size_t n) {
  Out o; size_t left = tty.in.size() - tty.pos;
  if (!left && tty.eio) { fault(F_READ_ERROR); errno = EIO; return -1; }
  if (n > left) n = left; if (n > 1 && chance(1, 4)) { n = 1 + pick(uint32_t(n)) / 2; fault(F_SHORT_READ); }
  memcpy(b, tty.in.data() + tty.pos, n); tty.pos += n; return ssize_t(n);
}
ssize_t out_write(void*, char const* b, size_t n) {
  Out o; size_t k = n;
  if (tty.out_fails) { size_t room = tty.out.size() >= tty.out_at ? 0 : tty.out_at - tty.out.size(); if (k > room) { k = room; fault(F_DISK_FULL); } }
  tty.out.append(b, k);
  if (tty.irq && n == 1 && *b == '*' && ++tty.stars == unsigned(tty.irq)) { fault(F_SIGNAL); raise(SIGINT); }
  return k ? ssize_t(k) : 0;
}
ssize_t err_write(void*, char const* b, size_t n) { Out o; if (tty.err_fails) { fault(F_WRITE_ERROR); return 0; } tty.err.append(b, n); return ssize_t(n); }

// ---- programs: every act has a text and an effect on this state
struct World { map<string, string> var; map<string, string> mods; bool fdef = false; bool p1 = false, p2 = false; string pr1 = "> ", pr2 = ">> "; vector<string> argneg, arg; string arg0; unsigned nstars = 0; };
enum { A_PRINT, A_SET, A_SHOW, A_WRITE, A_LOOP, A_DEF, A_CALL, A_EXPR, A_ARG, A_DOTS, A_PROMPT, A_PROMPT2, A_TEXT, A_BLANK, A_LOCAL, A_LONG, A_STAR, A_FAIL, A_SYNTAX, A_SETARG, A_MOD, A__N };
struct Act { int k = 0; string a, b; int n = 0, q = 0; };
char const* const vars[] = {"a", "b", "c"};
unsigned serial = 0;
Act gen_act(bool allow_fail, bool loops) {
  Act x; ++serial; uint32_t r = pick(42);
  x.k = r < 4 ? A_PRINT : r < 9 ? A_SET : r < 14 ? A_SHOW : r < 16 ? A_WRITE : r < 18 ? A_LOOP : r < 20 ? A_DEF : r < 22 ? A_CALL : r < 25 ? A_EXPR : r < 27 ? A_ARG : r < 28 ? A_DOTS : r < 29 ? A_PROMPT : r < 30 ? A_PROMPT2 : r < 31 ? A_TEXT : r < 32 ? A_BLANK : r < 33 ? A_LOCAL : r < 34 ? A_LONG : r < 35 ? A_STAR : r < 37 ? A_FAIL : r < 38 ? A_SYNTAX : r < 39 ? A_PRINT : r < 40 ? A_SETARG : A_MOD;
  if (!allow_fail && (x.k == A_FAIL || x.k == A_SYNTAX || x.k == A_STAR)) x.k = A_PRINT;
  if (!loops && x.k == A_STAR) x.k = A_SHOW;
  x.a = vars[pick(3)]; x.b = vars[pick(3)]; x.n = int(serial); x.q = int(pick(6)); return x;
}
vector<string> text(Act const& x, bool repl) {
  string n = std::to_string(x.n);
  switch (x.k) {
  case A_PRINT: return {"print('tok" + n + "')"};
  case A_SET: if (x.q == 0) return {x.a + " = nil"}; if (x.q < 3) return {x.a + " = '" + n + "' .. tostring(" + x.b + ")"}; return {x.a + " = " + n};
  case A_SHOW: return {"print(" + x.a + ", " + x.b + ")"};
  case A_WRITE: return {"io.write('w" + n + "') ;"};
  case A_LOOP: if (x.q < 2) return {"for i = 1, 3 do", "  io.write(i, ';')", "", "end"}; if (x.q < 4) return {"do local s = { 1,", " 2 }; print(#s) end"}; return {"if true then", "print('y" + n + "')", "else", "print('z')", "end"};
  case A_DEF: return {"function f(x)", "  -- adds " , "  return tostring(x) .. 'f' end"};
  case A_CALL: return {"print(f(" + n + "))"};
  case A_EXPR: { string e = x.q == 0 ? n + " + 1" : x.q == 1 ? "'s" + n + "', nil" : x.q == 2 ? x.a : x.q == 3 ? "nil" : x.q == 4 ? "#'abc', true" : "tostring(" + x.a + ") == tostring(" + x.b + ")"; if (!repl) return {"print(" + e + ")"}; return {(x.n % 3 == 0 ? "=" : "") + e}; }
  case A_ARG: return {"print(arg[0], #arg, arg[1], arg[-1])"};
  case A_MOD: return {"print(m1, m2, m4)"};
  case A_DOTS: return {"print(...)"};
  case A_PROMPT: return {"_PROMPT = 'p" + n + ": '"};
  case A_PROMPT2: return {"_PROMPT2 = 'q" + n + ": '"};
  case A_TEXT: return {x.a + " = [[one" + n, "two]]"};
  case A_BLANK: return {x.q < 3 ? "" : "-- nothing " + n};
  case A_LOCAL: return {"local a = " + n};
  case A_LONG: return {"print(" + n + "," + string(520 + 37 * unsigned(x.q), ' ') + "'end')"};
  case A_STAR: return {"while true do io.write('*') end"};
  case A_SETARG: return {"arg[1] = 'changed" + n + "'"};
  case A_FAIL: switch (x.q) { case 0: return {"error('boom" + n + "')"}; case 1: return {"error({})"}; case 2: return {"error(setmetatable({}, {__tostring = function() return 'custom" + n + "' end}))"}; case 3: return {"nope" + n + "()"}; case 4: return {"do", "error('late" + n + "')", "end"}; default: return {"f2 = " + n + " .. {}"}; }
  case A_SYNTAX: return {x.q < 3 ? "x" + n + " = = 1" : "end" + n + ")("};
  }
  return {};
}
// the effect: appends what it prints, returns the text an error must show ("" no error)
struct Ctx { vector<string> dots; bool has_local = false; string local; bool repl = false; };
string show1(World const& w, Ctx const& c, string const& v) { if (v == "a" && c.has_local) return c.local; auto it = w.var.find(v); return it == w.var.end() ? "nil" : it->second; }
string exec(Act const& x, World& w, Ctx& c, string& out, bool interrupts) {
  string n = std::to_string(x.n);
  auto put = [&](string const& v, string const& val, bool nil) { if (v == "a" && c.has_local) { c.local = val; return; } if (nil) w.var.erase(v); else w.var[v] = val; };
  switch (x.k) {
  case A_PRINT: out += "tok" + n + "\n"; break;
  case A_SET: { string val = x.q == 0 ? "nil" : x.q < 3 ? n + show1(w, c, x.b) : n; put(x.a, val, x.q == 0); break; }
  case A_SHOW: out += show1(w, c, x.a) + "\t" + show1(w, c, x.b) + "\n"; break;
  case A_WRITE: out += "w" + n; break;
  case A_LOOP: out += x.q < 2 ? "1;2;3;" : x.q < 4 ? "2\n" : "y" + n + "\n"; break;
  case A_DEF: w.fdef = true; break;
  case A_CALL: if (!w.fdef) return "attempt to call a nil value (global 'f')"; out += n + "f\n"; break;
  case A_EXPR: out += (x.q == 0 ? std::to_string(x.n + 1) : x.q == 1 ? "s" + n + "\tnil" : x.q == 2 ? show1(w, c, x.a) : x.q == 3 ? "nil" : x.q == 4 ? "3\ttrue" : show1(w, c, x.a) == show1(w, c, x.b) ? "true" : "false") + "\n"; break;
  case A_ARG: out += w.arg0 + "\t" + std::to_string(w.arg.size()) + "\t" + (w.arg.empty() ? "nil" : w.arg[0]) + "\t" + (w.argneg.empty() ? "nil" : w.argneg[0]) + "\n"; break;
  case A_MOD: { auto g = [&](char const* m) { auto it = w.mods.find(m); return it == w.mods.end() ? string("nil") : it->second; }; out += g("m1") + "\t" + g("m2") + "\t" + g("m4") + "\n"; break; }
  case A_DOTS: for (size_t k = 0; k < c.dots.size(); ++k) out += (k ? "\t" : "") + c.dots[k]; out += "\n"; break;
  case A_PROMPT: w.pr1 = "p" + n + ": "; break;
  case A_PROMPT2: w.pr2 = "q" + n + ": "; break;
  case A_TEXT: put(x.a, "one" + n + "\ntwo", false); break;
  case A_BLANK: break;
  case A_LOCAL: if (!c.repl) { c.has_local = true; c.local = n; } break;
  case A_LONG: out += n + "\tend\n"; break;
  case A_SETARG: if (w.arg.empty()) w.arg.push_back("changed" + n); else w.arg[0] = "changed" + n; break;
  case A_STAR: out += string(w.nstars, '*'); (void)interrupts; return "interrupted!";
  case A_FAIL: switch (x.q) { case 0: return "boom" + n; case 1: return "(error object is a table value)"; case 2: return "custom" + n; case 3: return "attempt to call a nil value (global 'nope" + n + "')"; case 4: return "late" + n; default: return "attempt to concatenate a table value"; }
  }
  return "";
}
string lua_quote(string const& s) { string o = "\""; char b[8]; for (unsigned char c : s) { if (c >= 32 && c < 127 && c != 34 && c != 92) o += char(c); else { snprintf(b, 8, "\\%03u", c); o += b; } } return o + "\""; }
typedef vector<Act> Prog;
Prog gen_prog(unsigned maxn, bool allow_fail, bool loops) { Prog p; unsigned n = 1 + pick(maxn); for (unsigned k = 0; k < n; ++k) p.push_back(gen_act(allow_fail, loops)); return p; }
string render(Prog const& p) { string s; for (auto& a : p) for (auto& l : text(a, false)) s += l + "\n"; return s; }
bool has_syntax(Prog const& p) { for (auto& a : p) if (a.k == A_SYNTAX) return true; return false; }
string run_chunk(Prog const& p, World& w, vector<string> const& dots, string& out) {
  if (has_syntax(p)) return "near "; Ctx c; c.dots = dots;
  for (auto& a : p) { string e = exec(a, w, c, out, true); if (!e.empty()) return e; }
  return "";
}
int count_stars(Prog const& p) { int n = 0; for (auto& a : p) n += a.k == A_STAR; return n; }
struct Want { string out; vector<string> err; bool ok = true; };
} // namespace

void scen_c20() {
  using GC_namespace::LuaInterpreter;
  lm = LuaMem(); files.clear(); lua_seed_value = uint32_t(pick(1000)) * 2654435761u + 1; serial = 0;
  set_step_limit(400000000);
  for (char const* e : {"LUA_INIT", "LUA_INIT_5_4", "LUA_PATH", "LUA_PATH_5_4", "LUA_CPATH", "LUA_CPATH_5_4"}) unsetenv(e);
  LuaInterpreter* li; { Lib l; li = new LuaInterpreter; }
  int64_t const live0 = lm.live;
  unsigned sessions = 1 + pick(3);
  for (unsigned s = 0; s < sessions; ++s) {
    files.clear(); tty = Tty(); World w; Want want; bool had_star = false; bool uses_stdin_script = false; bool broken_in = false;
    auto star_ok = [&] { return !had_star; };
    // ---- what is on the disk and in the environment
    struct Module { Prog p; string ret; bool missing = false, eio = false; };
    map<string, Module> mods;
    for (char const* m : {"m1", "m2"}) { Module& M = mods[m]; uint32_t q = pick(6); if (q == 5) { M.missing = true; continue; } M.p = gen_prog(2, q == 4, false); string t = render(M.p); if (q >= 2) { M.ret = std::to_string(++serial); t += "return " + M.ret + "\n"; } SimFile f; f.data = t; if (chance(1, 12)) { f.eio = M.eio = true; f.eio_at = pick(uint32_t(t.size())); } files[string("./") + m + ".lua"] = f; }
    bool const path = pick(4) == 3;         // a module found only through LUA_PATH
    if (path) { setenv("LUA_PATH", "alt/?.lua;;", 1); Module& M = mods["m4"]; M.p = gen_prog(1, false, false); SimFile f; f.data = render(M.p); files["alt/m4.lua"] = f; }
    Prog script = gen_prog(6, true, star_ok()); had_star = had_star || count_stars(script); bool script_eio = false, script_missing = false;
    { SimFile f; f.data = (pick(5) == 4 ? "#!/usr/bin/lua\n" : "") + render(script); if (chance(1, 15)) { script_eio = f.eio = true; f.eio_at = pick(uint32_t(f.data.size())); } else if (chance(1, 20)) { script_missing = f.missing = true; } files["script.lua"] = f; }
    Prog init; int init_kind = int(pick(8)); string init_env; // 5: string, 6: @file, 7: both variables set
    if (init_kind >= 5) { init = gen_prog(2, chance(1, 4), false); SimFile f; f.data = render(init); files["init.lua"] = f; init_env = init_kind == 6 ? "@init.lua" : render(init); setenv(init_kind == 7 ? "LUA_INIT_5_4" : "LUA_INIT", init_env.c_str(), 1); if (init_kind == 7) setenv("LUA_INIT", "print('not this one')", 1); }
    // ---- the command line
    vector<string> av; string name = pick(6) == 5 ? "" : pick(2) ? "prog" : "./lua-shell"; av.push_back(name);
    struct Opt { char k; Prog p; string mod; }; vector<Opt> opts; bool fi = false, fv = false, fE = false, fe = false, bad = false; string badopt, badmsg;
    unsigned no = pick(5);
    for (unsigned k = 0; k < no && !bad; ++k) {
      uint32_t q = pick(14);
      if (q < 5) { Opt o; o.k = 'e'; o.p = gen_prog(2, pick(4) == 3, star_ok() && pick(3) == 2); if (count_stars(o.p)) had_star = true; string t = render(o.p); if (t[0] == '-' || t[0] == '\n') t = " " + t; if (pick(2)) { av.push_back("-e"); av.push_back(t); } else av.push_back("-e" + t); opts.push_back(o); fe = true; }
      else if (q < 8) { Opt o; o.k = 'l'; o.mod = pick(8) == 7 ? (pick(2) ? "m4" : "m3") : pick(2) ? "m1" : "m2"; if (pick(2)) { av.push_back("-l"); av.push_back(o.mod); } else av.push_back("-l" + o.mod); opts.push_back(o); }
      else if (q < 10) { av.push_back("-i"); fi = fv = true; }
      else if (q < 11) { av.push_back("-v"); fv = true; }
      else if (q < 13) { av.push_back("-E"); fE = true; }
      else { static char const* const b[] = {"-x", "--foo", "-iX", "-E1", "-vv", "-e", "-l"}; badopt = b[pick(7)]; av.push_back(badopt); bad = true; badmsg = (badopt[1] == 'e' || badopt[1] == 'l') && badopt.size() == 2 ? "'" + badopt + "' needs argument" : "unrecognized option '" + badopt + "'"; if (badopt.size() == 2 && badopt != "-x") { if (pick(2)) av.push_back("-v"); } }
    }
    size_t script_at = 0; bool has_script = false, dash_file = false;
    if (!bad) { uint32_t q = pick(6);
      if (q >= 3) { has_script = true; if (q == 4) av.push_back("--"); string sn = "script.lua"; if (q == 4 && pick(3) == 2) { sn = "-"; dash_file = true; } if (q == 5) { sn = "-"; uses_stdin_script = true; } script_at = av.size(); av.push_back(sn); for (unsigned k = pick(3); k-- > 0;) av.push_back("arg" + std::to_string(++serial)); }
      else if (q == 2) av.push_back("--"); }
    size_t base = has_script ? script_at : 0;
    w.arg0 = av[base]; for (size_t k = base + 1; k < av.size(); ++k) w.arg.push_back(av[k]); for (size_t k = base; k-- > 0;) w.argneg.push_back(av[k]);
    string shown = name.empty() ? "lua" : name;
    bool repl = !bad && (fi || (!has_script && !fe && !fv));
    // ---- what is typed
    Prog typed; if (repl && !uses_stdin_script) typed = gen_prog(8, true, star_ok()); if (count_stars(typed) > 1 || (had_star && count_stars(typed))) { bool seen = had_star; for (auto& a : typed) if (a.k == A_STAR) { if (seen) a.k = A_PRINT; seen = true; } }
    { bool seen = false; for (Prog* p : {&script}) for (auto& a : *p) if (a.k == A_STAR) { if (seen) a.k = A_PRINT; seen = true; } if (files.count("script.lua")) { string d = render(script); bool sh = files["script.lua"].data.compare(0, 2, "#!") == 0; files["script.lua"].data = (sh ? "#!/usr/bin/lua\n" : "") + d; if (script_eio && files["script.lua"].eio_at >= d.size()) files["script.lua"].eio_at = d.size() / 2; } }
    if (dash_file) files["-"] = files["script.lua"];
    string cut_note; size_t cut_at = string::npos;
    if (uses_stdin_script) { tty.in = render(script); if (chance(1, 8)) { tty.eio = true; tty.in.resize(pick(uint32_t(tty.in.size()))); broken_in = true; } }
    else if (repl) {
      for (auto& a : typed) for (auto& l : text(a, true)) tty.in += l + "\n";
      if (chance(1, 5) && tty.in.size() > 1) { cut_at = pick(uint32_t(tty.in.size())); tty.in.resize(cut_at); tty.eio = pick(2); fault(F_CUT); }
    }
    tty.irq = 1 + int(pick(4)); w.nstars = unsigned(tty.irq);
    string const prompt = pick(3) == 0 ? "" : "<" + std::to_string(pick(10)) + ">";
    vector<string> msgs; for (unsigned k = pick(3); k-- > 0;) msgs.push_back("message " + std::to_string(++serial));
    // ---- what must happen
    auto version = [&] { want.out += string(LUA_COPYRIGHT) + "\n\n"; for (auto& m : msgs) want.err.push_back(shown + ": " + m); want.out += "\n"; };
    auto fails = [&](string const& e) { want.err.push_back(shown + ": "); want.err.push_back(e); want.ok = false; };
    auto expect = [&] {
      if (bad) { want.err.push_back(shown + ": " + badmsg); want.err.push_back("usage: " + shown); want.ok = false; return; }
      if (fv) version();
      if (!fE && init_kind >= 5) { string e = run_chunk(init, w, {}, want.out); if (!e.empty()) { fails(e); return; } }
      for (auto& o : opts) {
        if (o.k == 'e') { string e = run_chunk(o.p, w, {}, want.out); if (!e.empty()) { fails(e); return; } }
        else {
          auto it = mods.find(o.mod); if (it == mods.end() || it->second.missing || (o.mod == "m4" && fE)) { if (!w.mods.count(o.mod)) { fails("module '" + o.mod + "' not found"); return; } }
          if (!w.mods.count(o.mod)) { Module& M = it->second; if (M.eio) { fails("cannot read"); return; } if (has_syntax(M.p)) { fails("near "); return; } string e = run_chunk(M.p, w, {o.mod, (o.mod == "m4" ? "alt/" : "./") + o.mod + ".lua"}, want.out); if (!e.empty()) { fails(e); return; } w.mods[o.mod] = M.ret.empty() ? "true" : M.ret; }
        }
      }
      if (has_script) {
        if (uses_stdin_script) { if (broken_in) { fails("cannot read"); return; } }
        else if (script_missing) { fails("cannot open"); return; } else if (script_eio) { fails("cannot read"); return; }
        string e = run_chunk(script, w, w.arg, want.out); if (!e.empty()) { fails(e); return; }
      }
      if (!repl) return;
      if (!fi) version();
      // the session, line by line as the terminal delivers them
      vector<string> pieces; { size_t p = 0; while (p < tty.in.size()) { size_t e = tty.in.find('\n', p); size_t len = e == string::npos ? tty.in.size() - p : e + 1 - p; if (len > 511) len = 511; if (e == string::npos && tty.eio && len < 511 && p + len == tty.in.size()) break; pieces.push_back(tty.in.substr(p, len)); p += len; } }
      if (uses_stdin_script) pieces.clear();
      size_t at = 0;
      for (auto& a : typed) {
        vector<string> ls = text(a, true); unsigned need = 0; bool whole = true; size_t left_at = at;
        string all; for (auto& l : ls) { size_t len = l.size() + 1; size_t got = 0; while (got < len) { size_t n = std::min<size_t>(511, len - got); string exp = (l + "\n").substr(got, n); if (left_at >= pieces.size()) { whole = false; break; } string p = pieces[left_at]; string e2 = exp; if (!e2.empty() && e2.back() == '\n') e2.pop_back(); if (p != exp && p != e2) { whole = false; break; } ++left_at; ++need; got += n; } if (!whole) break; }
        if (!whole) { cut_note = "cut"; break; }
        want.out += w.pr1; for (unsigned k = 1; k < need; ++k) want.out += w.pr2;
        at = left_at;
        string o; Ctx c; c.repl = true; string e = a.k == A_SYNTAX ? "near " : exec(a, w, c, o, true);
        if (!e.empty()) { want.out += o; want.err.push_back(e); continue; }
        if (a.k == A_EXPR) want.out += prompt + o; else want.out += o + prompt;
      }
      if (cut_note.empty()) want.out += w.pr1 + "\n";
      else if (at == pieces.size()) { want.out += w.pr1 + "\n"; cut_note.clear(); }   // nothing of the cut statement arrived
    };
    expect();
    // ---- run
    string cmd; for (auto& a : av) cmd += lua_quote(a) + " ";
    string desc = "session " + std::to_string(s + 1) + ": " + cmd + (init_kind >= 5 ? " LUA_INIT=" + lua_quote(init_env) : "") + " input " + lua_quote(tty.in);
    log(desc);
    if (uses_stdin_script || has_script) log("script: " + lua_quote(render(script)));
    for (auto& m : mods) if (!m.second.missing) log("module " + m.first + ": " + lua_quote(files[(m.first == "m4" ? "alt/" : "./") + m.first + ".lua"].data));
    uint32_t lmode = chance(1, 4) ? 1 + pick(2) : 0, ln = lmode ? 1 + pick(pick(2) ? 60 : 3000) : 0;
    bool of = chance(1, 8); if (of) { tty.out_fails = true; tty.out_at = pick(uint32_t(want.out.size() + 8)); } tty.err_fails = chance(1, 12);
    vector<char*> argv; for (auto& a : av) { char* p = static_cast<char*>(malloc(a.size() + 1)); memcpy(p, a.c_str(), a.size() + 1); argv.push_back(p); } argv.push_back(nullptr);
    vector<char const*> msg; for (auto& m : msgs) msg.push_back(m.c_str()); msg.push_back(nullptr);
    FILE *si = stdin, *so = stdout, *se = stderr;
    cookie_io_functions_t ci{}, co{}, ce{}; ci.read = in_read; co.write = out_write; ce.write = err_write;
    FILE *ni = fopencookie(nullptr, "r", ci), *nof = fopencookie(nullptr, "w", co), *ne = fopencookie(nullptr, "w", ce);
    setvbuf(nof, nullptr, had_star || count_stars(typed) || pick(2) ? _IONBF : _IOFBF, had_star ? 0 : BUFSIZ); setvbuf(ne, nullptr, _IONBF, 0);
    int status = -1; bool threw = false; string what; op();
    stdin = ni; stdout = nof; stderr = ne;
    if (lmode) lua_arm(int(lmode), ln);
    try { Lib l; status = li->interactive(int(av.size()), const_cast<char const**>(argv.data()), msg.data(), prompt.c_str()); }
    catch (std::exception const& e) { threw = true; what = e.what(); }
    uint64_t lf = lua_disarm();
    stdin = si; stdout = so; stderr = se;
    tty.irq = 0; fflush(nof); fclose(ni); fclose(nof); fclose(ne);
    for (char* p : argv) free(p);
    for (char const* e : {"LUA_INIT", "LUA_INIT_5_4", "LUA_PATH"}) unsetenv(e);
    logf("-> %s, %zu bytes out, errors: %s", threw ? what.c_str() : status == EXIT_SUCCESS ? "success" : "failure", tty.out.size(), lua_quote(tty.err.substr(0, 400)).c_str());
    state(hash_str(std::to_string(fi) + std::to_string(fv) + std::to_string(fE) + std::to_string(opts.size()) + std::to_string(has_script) + std::to_string(want.ok) + std::to_string(want.err.size()) + std::to_string(init_kind) + cut_note + std::to_string(lmode)));
    mix(tty.out); mix(tty.err);
    // ---- judge
    if (lm.live != live0) violation("shell-leak", desc + ": " + std::to_string(lm.live - live0) + " Lua blocks stay allocated after the session");
    struct sigaction sa; sigaction(SIGINT, nullptr, &sa); if (sa.sa_handler != SIG_DFL) violation("shell-signal", desc + ": the interrupt handler is still installed after the session");
    auto visible = [&] { return threw || status != EXIT_SUCCESS || !tty.err.empty() || tty.err_fails; };
    bool exact = !threw && (status == EXIT_SUCCESS) == want.ok && tty.out == want.out;
    if (lf) { if (!exact && cut_note.empty() && !tty.out_fails && !visible()) violation("shell-silent", desc + ": memory ran out, the output differs and no failure was reported"); continue; }
    if (threw) violation("shell-error", desc + ": raised " + what);
    if (status != EXIT_SUCCESS && status != EXIT_FAILURE) violation("shell-status", desc + ": returned " + std::to_string(status));
    if ((status == EXIT_SUCCESS) != want.ok) violation("shell-status", desc + ": reported " + (want.ok ? "failure" : "success") + ", it is the opposite; errors: " + tty.err.substr(0, 300));
    if (tty.out_fails) { size_t n = std::min(tty.out.size(), want.out.size()); if (tty.out.compare(0, n, want.out, 0, n) != 0) violation("shell-output", desc + ": wrote " + lua_quote(tty.out) + " which is not a prefix of " + lua_quote(want.out)); }
    else if (!cut_note.empty()) { if (tty.out.compare(0, want.out.size(), want.out) != 0) violation("shell-output", desc + ": wrote " + lua_quote(tty.out) + " which does not begin with " + lua_quote(want.out)); if (tty.out.empty() || tty.out.back() != '\n') violation("shell-output", desc + ": the session did not end its last line"); }
    else if (tty.out != want.out) violation("shell-output", desc + ": wrote " + lua_quote(tty.out) + " instead of " + lua_quote(want.out));
    if (!tty.err_fails) {
      size_t p = 0; for (auto& e : want.err) { size_t q = tty.err.find(e, p); if (q == string::npos) violation("shell-report", desc + ": the error stream lacks " + lua_quote(e) + ": " + lua_quote(tty.err.substr(0, 600))); p = q + e.size(); }
      if (want.err.empty() && !tty.err.empty() && cut_note.empty()) violation("shell-report", desc + ": nothing fails but the error stream shows " + lua_quote(tty.err.substr(0, 300)));
      if (tty.err.find("(null)") != string::npos) violation("shell-report", desc + ": an error was reported without its text: " + lua_quote(tty.err.substr(0, 300)));
    }
  }
  { Lib l; delete li; }
  if (lm.live) violation("lua-leak", "the interpreter is closed but " + std::to_string(lm.live) + " Lua blocks stay allocated");
}
}
