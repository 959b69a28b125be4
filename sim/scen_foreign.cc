// C18: documents written by other programs. The same document is spelled in two random ways; both must be read as
// the document they denote and give exactly the same container.
#include "docs.hh"
namespace sim {
namespace {
string ws(char const* set, unsigned max) { string s; unsigned n = strlen(set); for (unsigned k = pick(max + 1); k-- > 0;) s += set[pick(n)]; return s; }
vector<uint32_t> codepoints(string const& s) {
  vector<uint32_t> o;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i]; unsigned n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; uint32_t v = n == 1 ? c : c & (0xFF >> (n + 1));
    for (unsigned k = 1; k < n; ++k) v = v << 6 | (s[i + k] & 63);
    o.push_back(v); i += n;
  }
  return o;
}
string u8(uint32_t c) {
  string s;
  if (c < 0x80) s += char(c); else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); }
  else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
  else { s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
  return s;
}
string hexs(uint32_t v, int w, bool up) { char b[16]; snprintf(b, sizeof b, up ? "%0*X" : "%0*x", w, v); return b; }
// a decimal spelling that reads back as exactly d
string real_text(double d, bool plus_ok) {
  char b[400];
  switch (pick(4)) {
  case 0: if (std::fabs(d) < 1e15 && std::fabs(d) >= 1e-4) { int p = 1; do snprintf(b, sizeof b, "%.*f", p, d); while (strtod(b, nullptr) != d && ++p < 30); if (strtod(b, nullptr) == d) break; } [[fallthrough]];
  case 1: snprintf(b, sizeof b, "%.17e", d); break;
  case 2: snprintf(b, sizeof b, "%.16E", d); if (strtod(b, nullptr) != d) snprintf(b, sizeof b, "%.17E", d); break;
  default: { int p = 0; do snprintf(b, sizeof b, "%.*e", p, d); while (strtod(b, nullptr) != d && ++p < 20); string s = b; if (s.find('.') == string::npos) { size_t e = s.find('e'); s.insert(e, ".0"); } snprintf(b, sizeof b, "%s", s.c_str()); }
  }
  string s = b;
  if (plus_ok && d > 0 && chance(1, 8)) s = "+" + s;
  return s;
}
// ------------------------------------------------------------------ JSON
string json_str(string const& s) {
  string o = "\""; bool all = chance(1, 6);
  for (uint32_t c : codepoints(s)) {
    auto esc = [&] { bool up = pick(2); if (c >= 0x10000) { uint32_t v = c - 0x10000; o += "\\u" + hexs(0xD800 + (v >> 10), 4, up) + "\\u" + hexs(0xDC00 + (v & 0x3FF), 4, up); } else o += "\\u" + hexs(c, 4, up); };
    if (c == '"' || c == '\\' || c < 0x20) {
      char const* p = nullptr; switch (c) { case '"': p = "\\\""; break; case '\\': p = "\\\\"; break; case 8: p = "\\b"; break; case 12: p = "\\f"; break; case 10: p = "\\n"; break; case 13: p = "\\r"; break; case 9: p = "\\t"; break; }
      if (p && pick(4)) o += p; else esc();
    } else if (c == '/' && pick(2)) o += "\\/";
    else if (all || chance(1, 12)) esc(); else o += u8(c);
  }
  return o + "\"";
}
string json(Val const& v) {
  string w = ws(" \n\t\r", 2), o;
  switch (v.t) {
  case NOTYPE: o = "null"; break;
  case BOOL: o = v.i ? "true" : "false"; break;
  case INTEGER: case LONG: o = std::to_string(v.i); break;
  case REAL: o = real_text(v.r, false); break;
  case STRING: o = json_str(v.s); break;
  case VECTOR: o = "[" + ws(" \n", 1); for (size_t k = 0; k < v.v.size(); ++k) o += (k ? "," : "") + json(v.v[k]); o += "]"; break;
  case MAP: { o = "{" + ws(" \n", 1); bool first = true; vector<string> ks; for (auto& e : v.m) ks.push_back(e.first); if (pick(2)) for (size_t k = ks.size(); k > 1; --k) std::swap(ks[k - 1], ks[pick(uint32_t(k))]);
    for (auto& k : ks) { o += (first ? "" : ",") + ws(" \n", 1) + json_str(k) + ws(" \t", 1) + ":" + json(v.m.at(k)); first = false; } o += "}"; break; }
  }
  return w + o + ws(" \n\t\r", 2);
}
// ------------------------------------------------------------------ YAML
bool plain_ok(string const& s) {
  if (s.empty() || s.size() > 30 || !isalpha((unsigned char)s[0])) return false;
  for (char c : s) if (!isalnum((unsigned char)c) && c != '_') return false;
  string l; for (char c : s) l += char(tolower(c));
  static char const* res[] = {"true", "false", "null", "yes", "no", "on", "off", "nan", "inf", "y", "n"};
  for (auto r : res) if (l == r) return false;
  return true;
}
string yaml_str(string const& s) {
  bool printable = true, ascii = true; for (unsigned char c : s) { if (c < 0x20 || c == 0x7F) printable = false; if (c >= 0x80) ascii = false; }
  if (plain_ok(s) && pick(2)) return s;
  if (printable && ascii && pick(2)) { string o = "'"; for (char c : s) { if (c == '\'') o += "''"; else o += c; } return o + "'"; }
  string o = "\"";
  for (uint32_t c : codepoints(s)) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c == '\r') o += "\\r";
    else if (c < 0x20 || c == 0x7F || (c >= 0x80 && c < 0xA1)) o += "\\x" + hexs(c, 2, pick(2));
    else if (c >= 0x80 && c < 0x10000 && chance(1, 3)) o += "\\u" + hexs(c, 4, pick(2));
    else if (c >= 0x10000 && chance(1, 3)) o += "\\U" + hexs(c, 8, pick(2));
    else o += u8(c);
  }
  return o + "\"";
}
string yaml_scalar(Val const& v) {
  switch (v.t) {
  case NOTYPE: { static char const* n[] = {"null", "~", "Null", "NULL"}; return n[pick(4)]; }
  case BOOL: { static char const* t[] = {"true", "True", "TRUE"}; static char const* f[] = {"false", "False", "FALSE"}; return (v.i ? t : f)[pick(3)]; }
  case INTEGER: case LONG: { if (v.i >= 0 && chance(1, 4)) { char b[40]; snprintf(b, sizeof b, pick(2) ? "0x%llX" : "0x%llx", (unsigned long long)v.i); return b; } if (v.i >= 0 && chance(1, 6)) { char b[40]; snprintf(b, sizeof b, "0o%llo", (unsigned long long)v.i); return b; } return std::to_string(v.i); }
  case REAL: return real_text(v.r, false);
  default: return yaml_str(v.s);
  }
}
string yaml_flow(Val const& v) {
  string o;
  if (v.t == VECTOR) { o = "["; for (size_t k = 0; k < v.v.size(); ++k) o += (k ? "," + ws(" ", 1) : "") + yaml_flow(v.v[k]); return o + "]"; }
  if (v.t == MAP) { o = "{"; bool first = true; for (auto& e : v.m) { o += (first ? "" : ", ") + yaml_str(e.first) + ": " + yaml_flow(e.second); first = false; } return o + "}"; }
  return yaml_scalar(v);
}
string yaml_comment(unsigned ind) { if (!chance(1, 6)) return ""; static char const* cs[] = {"# note", "#", "# a: b", "# - x", "# \"q"}; return string(ind, ' ') + cs[pick(5)] + "\n"; }
string yaml_eol() { return chance(1, 8) ? " # c\n" : "\n"; }
// a text as a literal block: lines of printable characters, none of them blank, the first not indented
bool literal(string const& s, unsigned ind, string& o) {
  if (s.empty() || s[0] == ' ' || s[0] == '\t' || s[0] == '\n' || s.size() > 400) return false;
  bool nl = s.back() == '\n'; string t = nl ? s.substr(0, s.size() - 1) : s;
  o = nl ? " |\n" : " |-\n"; string line;
  for (size_t k = 0; k <= t.size(); ++k) {
    if (k < t.size() && t[k] != '\n') { unsigned char c = (unsigned char)t[k]; if (c < 0x20 || c >= 0x7F) return false; line += char(c); continue; }
    if (line.find_first_not_of(' ') == string::npos) return false;
    o += string(ind, ' ') + line + "\n"; line.clear();
  }
  return true;
}
string yaml_block(Val const& v, unsigned ind) {   // v is a non-empty map or vector
  string o, pad(ind, ' ');
  auto child = [&](Val const& c) {
    bool nest = (c.t == MAP && !c.m.empty()) || (c.t == VECTOR && !c.v.empty());
    string lit;
    if (c.t == STRING && chance(1, 3) && literal(c.s, ind + 1 + pick(4), lit)) { o += lit; return; }
    if (nest && v.t == VECTOR && pick(3) == 2) { string b = yaml_block(c, ind + 2); if (b[ind + 2] != '#') { o += " " + b.substr(ind + 2); return; } }
    if (nest && pick(3)) { unsigned st = 1 + pick(4); o += yaml_eol() + yaml_block(c, ind + (st == 1 ? 2 : st)); }
    else o += " " + yaml_flow(c) + yaml_eol();
  };
  if (v.t == MAP) for (auto& e : v.m) { o += yaml_comment(ind) + pad + yaml_str(e.first) + ":"; child(e.second); }
  else for (auto& e : v.v) { o += yaml_comment(ind) + pad + "-"; child(e); }
  return o;
}
string yaml(Val const& v) {
  string o; if (chance(1, 4)) o = pick(4) ? "---\n" : "%YAML 1.2\n---\n";
  bool nest = (v.t == MAP && !v.m.empty()) || (v.t == VECTOR && !v.v.empty());
  o += yaml_comment(0);
  string end = chance(1, 8) ? "...\n" : "";
  if (nest && pick(4)) return o + yaml_block(v, 0) + end;
  return o + yaml_flow(v) + "\n" + end;
}
// ------------------------------------------------------------------ TOML
bool bare(string const& s) { if (s.empty()) return false; for (char c : s) if (!isalnum((unsigned char)c) && c != '_' && c != '-') return false; return true; }
string toml_basic(string const& s, bool multi) {
  string o;
  for (uint32_t c : codepoints(s)) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c == '\n') o += multi && pick(2) ? "\n" : "\\n"; else if (c == '\t') o += pick(2) ? "\\t" : "\t"; else if (c == '\r') o += "\\r"; else if (c == 8) o += "\\b"; else if (c == 12) o += "\\f";
    else if (c < 0x20 || c == 0x7F || (c >= 0x80 && c < 0xA1) || c == 0xFEFF || (c >= 0x80 && chance(1, 4))) { if (c < 0x10000 && pick(2)) o += "\\u" + hexs(c, 4, pick(2)); else o += "\\U" + hexs(c, 8, pick(2)); }
    else o += u8(c);
  }
  return o;
}
string toml_str(string const& s, bool key) {
  bool lit = true; for (unsigned char c : s) if (c < 0x20 || c >= 0x7F || c == '\'') lit = false;
  uint32_t k = pick(4);
  if (k == 1 && lit) return "'" + s + "'";
  if (k == 2 && !key) return string("\"\"\"") + (pick(2) ? "\n" : "") + (!s.empty() && s[0] == '\n' ? "\\n" + toml_basic(s.substr(1), true) : toml_basic(s, true)) + "\"\"\"";
  if (k == 3 && lit && !key) return "'''" + s + "'''";
  return "\"" + toml_basic(s, false) + "\"";
}
string toml_key(string const& s) { if (bare(s) && pick(3)) return s; return toml_str(s, true); }
string underscored(string d) { if (d.size() < 3 || !chance(1, 4)) return d; size_t a = d[0] == '-' || d[0] == '+' ? 2 : 1; size_t p = a + pick(uint32_t(d.size() - a)); return d.substr(0, p) + "_" + d.substr(p); }
bool stamp(Val const& v) { return v.t == MAP && v.m.size() == 1 && (v.m.count("$date") || v.m.count("$time") || v.m.count("$date_time")); }
string spell_stamp(Val const& v);
string toml_inline(Val const& v) {
  if (stamp(v)) return spell_stamp(v);
  switch (v.t) {
  case BOOL: return v.i ? "true" : "false";
  case INTEGER: case LONG: { char b[80]; uint32_t k = pick(8);
    if (v.i >= 0 && k == 1) { snprintf(b, sizeof b, pick(2) ? "0x%llX" : "0x%llx", (unsigned long long)v.i); return b; }
    if (v.i >= 0 && k == 2) { snprintf(b, sizeof b, "0o%llo", (unsigned long long)v.i); return b; }
    if (v.i >= 0 && k == 3) { string s; uint64_t u = uint64_t(v.i); do s.insert(0, 1, char('0' + (u & 1))); while (u >>= 1); return "0b" + s; }
    return string(v.i > 0 && k == 4 ? "+" : "") + underscored(std::to_string(v.i)); }
  case REAL: if (std::isinf(v.r)) return v.r > 0 ? pick(2) ? "inf" : "+inf" : "-inf"; if (v.r != v.r) return pick(2) ? "nan" : "+nan"; return real_text(v.r, true);
  case STRING: return toml_str(v.s, false);
  case VECTOR: { string o = "["; for (size_t k = 0; k < v.v.size(); ++k) { o += ws(" \n", 2); if (chance(1, 10)) o += "# c\n"; o += toml_inline(v.v[k]); if (k + 1 < v.v.size() || pick(3) == 2) o += ws(" ", 1) + ","; } return o + ws(" \n", 1) + "]"; }
  default: { string o = "{"; bool first = true; for (auto& e : v.m) { o += (first ? " " : ", ") + toml_key(e.first) + ws(" ", 1) + "=" + ws(" ", 1) + toml_inline(e.second); first = false; } return o + " }"; }
  }
}
bool all_maps(Val const& v) { if (v.t != VECTOR || v.v.empty()) return false; for (auto& e : v.v) if (e.t != MAP || stamp(e)) return false; return true; }
void toml_table(Val const& v, string const& path, string& o) {
  string nl = "\n"; vector<string> later;
  for (auto& e : v.m) {
    bool sub = (e.second.t == MAP && !stamp(e.second)) || all_maps(e.second);
    if (sub && pick(3)) { later.push_back(e.first); continue; }
    if (chance(1, 8)) o += "# remark = 1\n"; if (chance(1, 10)) o += "\n";
    if (e.second.t == MAP && !stamp(e.second) && !e.second.m.empty() && chance(1, 2)) {   // dotted keys
      for (auto& q : e.second.m) o += toml_key(e.first) + ws(" ", 1) + "." + ws(" ", 1) + toml_key(q.first) + " = " + toml_inline(q.second) + nl;
    } else o += ws(" ", 2) + toml_key(e.first) + ws(" \t", 1) + "=" + ws(" \t", 1) + toml_inline(e.second) + (chance(1, 8) ? " # c" : "") + nl;
  }
  for (auto& k : later) {
    Val const& c = v.m.at(k); string p = path + (path.empty() ? "" : ".") + toml_key(k);
    if (c.t == MAP) { o += ws(" \n", 2) + "[" + ws(" ", 1) + p + ws(" ", 1) + "]" + (chance(1, 8) ? " # t" : "") + nl; toml_table(c, p, o); }
    else for (auto& e : c.v) { o += "[[" + p + "]]" + nl; toml_table(e, p, o); }
  }
}
string toml(Val const& v) { string o; toml_table(v, "", o); if (chance(1, 6) && !o.empty() && o.back() == '\n') o.pop_back(); if (chance(1, 6)) { string u; for (char c : o) { if (c == '\n' && o.find("\"\"\"") == string::npos) u += "\r\n"; else u += c; } o = u; } return o; }

Val expand(Val const& v) {   // typed vectors and matrices spelled as sequences
  Val o;
  switch (v.t) {
  case MAP: o.t = MAP; for (auto& e : v.m) o.m[e.first] = expand(e.second); return o;
  case VECTOR: o.t = VECTOR; for (auto& e : v.v) o.v.push_back(expand(e)); return o;
  case VEC_BOOL: o.t = VECTOR; for (auto x : v.vi) o.v.push_back(Val::B(x)); return o;
  case VEC_INTEGER: case VEC_LONG: o.t = VECTOR; for (auto x : v.vi) o.v.push_back(Val::L(x)); break;
  case VEC_REAL: o.t = VECTOR; for (auto x : v.vr) o.v.push_back(Val::R(x)); break;
  case VEC_STRING: o.t = VECTOR; for (auto& x : v.vs) o.v.push_back(Val::S(x)); break;
  case MAT_INTEGER: case MAT_LONG: case MAT_REAL: o.t = VECTOR; for (unsigned j = 0; j < v.nc; ++j) { Val c = Val::of(VECTOR); for (unsigned i = 0; i < v.nr; ++i) c.v.push_back(v.t == MAT_REAL ? Val::R(v.vr[i + size_t(j) * v.nr]) : Val::L(v.vi[i + size_t(j) * v.nr])); o.v.push_back(c); } break;
  default: o = v;
  }
  // an integer is an int when it fits
  for (auto& e : o.v) if (e.t == LONG && e.i >= INT32_MIN && e.i <= INT32_MAX) e.t = INTEGER;
  if (o.t == LONG && o.i >= INT32_MIN && o.i <= INT32_MAX) o.t = INTEGER;
  return o;
}
Val gen_stamp() {
  char b[60]; string kind, txt; uint32_t q = pick(3);
  static const unsigned days[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  unsigned mo = pick(12); char d[20], t[40];
  snprintf(d, sizeof d, "%04u-%02u-%02u", pick(2) ? 1900 + pick(200) : 1 + pick(9999), 1 + mo, 1 + pick(days[mo]));
  snprintf(t, sizeof t, "%02u:%02u:%02u", pick(24), pick(60), pick(60));
  string tt = t;
  if (pick(2)) { string fr; for (unsigned n = 1 + pick(9); n-- > 0;) fr += char('0' + pick(10)); fr.back() = char('1' + pick(9)); tt += "." + fr; }
  if (q == 0) { kind = "$date"; txt = d; } else if (q == 1) { kind = "$time"; txt = tt; }
  else { kind = "$date_time"; txt = string(d) + "T" + tt; uint32_t z = pick(4); if (z == 1) txt += "Z"; else if (z == 2) { snprintf(b, sizeof b, "%c%02u:%02u", pick(2) ? '+' : '-', pick(13), 1 + pick(59)); txt += b; } }
  Val s = Val::of(MAP); s.m[kind] = Val::S(txt); return s;
}
// the same instant, spelled another way
string spell_stamp(Val const& v) {
  string t = v.m.begin()->second.s, k = v.m.begin()->first;
  if (k == "$date_time") { size_t p = t.find('T'); uint32_t q = pick(4); if (q == 1) t[p] = ' '; if (q == 2) t[p] = 't'; if (t.back() == 'Z') { uint32_t z = pick(3); if (z == 1) t.back() = 'z'; if (z == 2) { t.pop_back(); t += pick(2) ? "+00:00" : "-00:00"; } } }
  size_t dot = t.find('.');
  if (dot != string::npos && chance(1, 3)) { size_t e = dot + 1; while (e < t.size() && t[e] >= '0' && t[e] <= '9') ++e; if (e - dot - 1 < 9) t.insert(e, 1 + pick(uint32_t(9 - (e - dot - 1))), '0'); }
  return t;
}
void add_stamps(Val& v) {
  if (v.t == MAP && chance(1, 2)) { if (pick(3)) v.m["when"] = gen_stamp(); else { Val l = Val::of(VECTOR); for (unsigned n = 1 + pick(3); n-- > 0;) l.v.push_back(gen_stamp()); v.m["events"] = l; } }
  for (auto& e : v.m) if (!stamp(e.second)) add_stamps(e.second);
}
} // namespace

static void c18() {
  quiet_streams();
  GC* dst = LIB(new GC); Val dm; { Gen q; q.depth = 2; q.width = 3; dm = gen_val(q); build(*dst, dm); }
  for (unsigned rounds = 1 + pick(4); rounds-- > 0;) {
    Fmt f = Fmt(pick(3));
    Val doc = expand(gen_doc(f, int(1 + pick(3)), f == JSON, true));
    if (f == TOML && pick(2)) add_stamps(doc);
    NormOpt no; no.keep_int = true; no.keep_real = true; if (f == JSON) no.rel = 2e-14;   // rapidjson rounds reals in its fast way
    Val first; string ftext;
    string what = string(fmt_name[f]) + " document " + show(doc, 3);
    for (unsigned k = 0; k < 2; ++k) {
      op();
      string text = f == JSON ? json(doc) : f == YAML ? yaml(doc) : toml(doc);
      int frag = int(pick(3)); bool seek = pick(2);
      logf("%s, fragments=%d, spelled: %s", what.c_str(), frag, verbose ? text.c_str() : "");
      state(hash_str("C18" + std::to_string(f) + std::to_string(frag) + std::to_string(doc.t) + std::to_string(dm.t) + std::to_string(std::min<size_t>(text.size() / 8, 40))));
      bool bad = chance(1, 6); size_t err = bad ? pick(uint32_t(text.size() + 1)) : size_t(-1); if (bad) logf("    the medium fails after %zu of %zu bytes", err, text.size());
      InMedium im(text, frag, err, seek); std::istream is(&im);
      bool ok = false; string ex;
      set_step_limit(4000000 + 40000 * uint64_t(text.size()));
      bool other = f == JSON && pick(2); if (other) log("    by the second reader");
      try { Lib l; ok = read_doc(f, *dst, is, other); } catch (std::exception const& e) { ex = e.what(); }
      set_step_limit(40000000);
      Val s = snapshot(*dst); mix(enc(s)); log("    -> " + (ok ? show(s, 3) : "failure " + ex));
      if (bad && im.failed) {
        if (ok) violation("foreign-undetected", what + " spelled " + text + ": the medium failed after " + std::to_string(err) + " bytes but reading reported success");
        if (!same(s, dm)) violation("foreign-residue", what + ": a failed read left " + show(s, 2) + " instead of " + show(dm, 2));
        break;
      }
      if (!ok) violation("foreign-refused", what + " spelled " + text + " was refused");
      string why;
      if (!equiv(doc, s, no, why)) violation("foreign-value", what + " spelled " + text + " was read as " + show(s, 3) + " " + why);
      if (k == 0) { first = s; ftext = text; }
      else if (f == JSON ? !equiv(first, s, no, why) || !equiv(s, first, no, why) : !same(first, s)) violation("foreign-spelling", what + ": two spellings give different containers: " + diff_vals(first, s) + "\n" + ftext + "\n" + text);
      dm = s;
    }
  }
  { Lib l; delete dst; }
}
void scen_c18() { c18(); }
}
