#include "gen.h"
#include <string.h>
using namespace rt;
std::string cstr(std::string s) { size_t z = s.find('\0'); if (z != std::string::npos) s.resize(z); return s; }
// ---------------------------------------------------------------- damage token by token
static std::vector<std::string> tokens(const std::string& s) {
  std::vector<std::string> t; size_t i = 0;
  while (i < s.size()) {
    size_t b = i; char c = s[i++];
    if (c == '"') { while (i < s.size() && s[i] != '"') i += s[i] == '\\' && i + 1 < s.size() ? 2 : 1; if (i < s.size()) ++i; }
    else if (!strchr("[]{},: \t\r\n", c)) while (i < s.size() && !strchr("[]{},:\" \t\r\n", s[i])) ++i;
    else if (strchr(" \t\r\n", c)) while (i < s.size() && strchr(" \t\r\n", s[i])) ++i;
    t.push_back(s.substr(b, i - b));
  }
  return t;
}
static std::string damage_tokens(Rng& r, const std::string& s) {
  std::vector<std::string> t = tokens(s); if (t.empty()) return s;
  static const char* w[] = { ",", ",", ",", ":", ":", "[", "]", "{", "}", "\"k\"", "\"\"", "1", "-1", "true", "false", "tru", "-", "0", "01", " ", "\n", "\\", "\"", "'k'", "k", "nul" };
  std::vector<size_t> st, cl; for (size_t i = 0; i < t.size(); ++i) { if (t[i].size() == 1 && strchr(",:[]{}", t[i][0])) st.push_back(i); if (t[i] == "}" || t[i] == "]") cl.push_back(i); }
  size_t at = st.size() && r.chance(2, 3) ? st[r.below(st.size())] : r.below(t.size());
  switch (r.below(15)) {
    case 11: { // within a number
      std::vector<size_t> q; for (size_t i = 0; i < t.size(); ++i) if (strchr("-0123456789", t[i][0])) q.push_back(i);
      if (q.empty()) break; std::string& x = t[q[r.below(q.size())]]; if (r.chance(1, 2)) x += std::to_string(r.below(100000000));
      static const char* z[] = { "_", "'", ".", " ", "e", "E", "-", "+", "x", "a", "f", "n", "u", "L", ",,", "\v", "\xa0", "0x", "e5", ".0", "\"" };
      switch (r.below(5)) { case 0: x.insert(x[0] == '-', r.chance(1, 2) ? "0" : "00"); break; case 1: x.insert(0, r.chance(1, 2) ? "-" : "+"); break; default: x.insert(r.below(x.size() + 1), z[r.below(sizeof z / sizeof *z)]); }
      break; }
    case 12: { // within an escape
      std::vector<size_t> q; for (size_t i = 0; i < t.size(); ++i) if (t[i][0] == '"') q.push_back(i);
      if (q.empty()) break; std::string& x = t[q[r.below(q.size())]]; size_t b = 1 + r.below(x.size()); if (b + 1 >= x.size()) b = x.size() > 1 ? x.size() - 1 : x.size();
      std::string e = "\\u"; int n = r.chance(1, 2) ? 4 : (int)r.below(4); for (int i = 0; i < n; ++i) e += "0123456789abcdefABCDEF"[r.below(22)];
      if (r.chance(1, 3)) e = "\\ud8" + std::string(1, "0123456789abcdefABCDEF"[r.below(22)]) + std::string(1, "0123456789abcdefABCDEF"[r.below(22)]) + "\\udc0" + std::string(r.below(2), '1');
      if (n == 4) { if (r.chance(1, 8)) e[1] = "UxvtBNaR0'"[r.below(10)]; else e[2 + r.below(e.size() - 2)] = "/:@G`gzZ \"\\-+.\x80\n"[r.below(16)]; }
      if (b > 1 && x[b - 1] == '\\') ++b; if (b > x.size()) b = x.size();
      if (b < x.size() && r.chance(1, 3)) x.resize(b), x += e + "\""; else x.insert(b, e);
      break; }
    case 9: { static const char like[] = ":=:;,;,.[(])[{]}{(})\"'-+-_:,,:"; for (int k = 0; k < 20; ++k) { size_t i = r.below((sizeof like - 1) / 2) * 2; std::vector<size_t> q; for (size_t j = 0; j < t.size(); ++j) if (t[j][0] == like[i]) q.push_back(j); if (q.empty()) continue; t[q[r.below(q.size())]][0] = like[i + 1]; break; } break; }   // a look-alike
    case 10: { size_t q = r.below(t.size()); for (size_t k = 0; k < t.size(); ++k, q = (q + 1) % t.size()) if (t[q][0] != '"' && (t[q][0] | 32) >= 'a' && (t[q][0] | 32) <= 'z') { if (r.chance(1, 3)) for (char& c : t[q]) c ^= 32; else t[q][r.below(t[q].size())] ^= 32; break; } break; }   // the case of a literal
    case 0: t.erase(t.begin() + at); break;
    case 1: t.insert(t.begin() + at, t[at]); break;
    case 2: std::swap(t[at], t[r.below(t.size())]); break;
    case 3: if (at + 1 < t.size()) std::swap(t[at], t[at + 1]); break;
    case 4: t.insert(t.begin() + at + r.below(2), w[r.below(sizeof w / sizeof *w)]); break;
    case 5: t[at] = w[r.below(sizeof w / sizeof *w)]; break;
    case 6: case 13: case 14: if (r.chance(2, 3)) { // something after an opening bracket or a comma, deep inside or not
      std::vector<size_t> q; int d = 0, deep = (int)r.below(7); for (size_t i = 0; i < t.size(); ++i) { if (t[i] == "[" || t[i] == "{") ++d; if (t[i] == "]" || t[i] == "}") --d; if (d >= deep && t[i].size() == 1 && strchr("[{,:", t[i][0])) q.push_back(i); }
      if (q.size()) { at = q[r.below(q.size())]; t.insert(t.begin() + at + 1, r.chance(1, 2) ? "," : w[r.below(sizeof w / sizeof *w)]); break; } }
      if (cl.size()) { at = cl[r.below(cl.size())]; t.insert(t.begin() + at, r.chance(2, 3) ? "," : w[r.below(sizeof w / sizeof *w)]); } break;   // something before a closing bracket
    case 7: { std::vector<size_t> q; for (size_t i = 0; i < t.size(); ++i) if (t[i][0] == '"') q.push_back(i); if (q.size()) { size_t i = q[r.below(q.size())]; static const char* z[] = { "1", "true", "k", "'k'", "", "{}", "[]", "\"", "-", "\"\\u00\"", "\"\\", "\"a\\q\"" }; t[i] = z[r.below(12)]; } break; }   // a key or string becomes something else
    default: { size_t n = 1 + r.below(3); if (at + n <= t.size()) t.erase(t.begin() + at, t.begin() + at + n); }
  }
  std::string o; for (size_t i = 0; i < t.size(); ++i) o += t[i];
  return o;
}
std::string damage_text(Rng& r, const std::string& in) {
  std::string s = in;
  static const char odd[] = "[]{}\",:\\ \t\n\rtfnu0123456789-+.eE/'=;()<>|\v\f\x01\x1f\x7f\x80\xc3\xff";
  int rounds = r.chance(2, 3) ? 1 : r.range(2, 4);
  for (int k = 0; k < rounds; ++k) switch (r.below(18)) {
    case 0: case 1: case 2: if (s.size()) s.resize(r.below(s.size())); break;
    case 3: if (s.size()) s[r.below(s.size())] = odd[r.below(sizeof odd - 1)]; break;
    case 4: if (s.size()) s[r.below(s.size())] = (char)(1 + r.below(255)); break;
    case 5: if (s.size()) s.erase(r.below(s.size()), 1 + r.below(3)); break;
    case 6: s.insert(r.below(s.size() + 1), 1, odd[r.below(sizeof odd - 1)]); break;
    case 7: { static const char* w[] = { "", " ", "[", "]", "{", "}", "\"", "t", "tr", "tru", "true", "f", "fals", "false", "-", "0", "01", "-0", "null", "nul", "1.5", "1e9", "+1", "[1,", "[,1]", "[1 2]", "{\"a\"", "{\"a\":", "{\"a\":1", "{\"a\":1,", "{a:1}", "{1:2}", "{\"a\":1,}", "[1,]", "[,]", "{,}", "{\"a\" 1}", "{\"a\",\"b\"}", "{\"a\":1 \"b\":2}", "{\"a\":}", "{:1}", "{\"a\"}", "{true:1}", "{[]:1}", "{\"a\":1,,\"b\":2}", "[1,,2]", "{\"a\":1]", "[1}", "[\"a\":1]", "{\"a\\\":1}", "\"\\", "\"\\u", "\"\\u00", "\"\\u004", "\"\\u0041", "\"\\x41\"", "\"\\u00g0\"", "\"\\ud83d\\ude00\"", "\"\\ud83d\\u", "\"\\ud83d\\u0041\"", "\"\\ud83d\\", "\"\\ude00\"", "[\"\\ud83d\\ude0", "\"\\uFFFF\"", "[\"\\u0", "//", "'a'", "\xef\xbb\xbf[1]", "[true", "[fals]", "[tru", "\t\n\r ", "[-]", "[--1]", "[1]]", "[1]x", "{}}" };
              s = w[r.below(sizeof w / sizeof *w)]; break; }
    case 8: { size_t a = r.below(s.size() + 1), b = r.below(s.size() + 1); if (a > b) std::swap(a, b); s.insert(r.below(s.size() + 1), s.substr(a, std::min<size_t>(b - a, 40))); break; }
    case 9: { int n = (int)r.below(600); if (r.chance(1, 10)) n = r.chance(3, 4) ? r.range(600, 9000) : r.range(9000, 150000); int kind = (int)r.below(4); std::string t; for (int i = 0; i < n; ++i) t += kind == 0 ? "[" : kind == 1 ? "{\"a\":" : kind == 2 ? (i % 2 ? "{\"k\":" : "[") : "[1,"; if (r.chance(1, 2)) { t += "0"; for (int i = n; i-- > 0;) t += kind == 0 || kind == 3 || (kind == 2 && i % 2 == 0) ? ']' : '}'; s = t; break; } s = r.chance(1, 2) ? t : t + s; break; }
    case 10: { std::string d(r.range(60, 400), '9'); if (r.chance(1, 2)) d = "-" + d; s = r.chance(1, 2) ? "[" + d + "]" : d; break; }
    case 11: s = s + s.substr(0, r.below(s.size() + 1)); break;
    case 12: case 13: case 14: case 15: s = damage_tokens(r, s); break;
    default: { // a string cut inside an escape, at the very end
      std::string t = "[\"" + std::string(r.below(40), 'a'); static const char* w[] = { "\\", "\\u", "\\u0", "\\u00", "\\u004", "\\u0041", "\\u12", "\\ud83d", "\\ud83d\\", "\\ud83d\\u", "\\ud83d\\ude0", "" }; s = t + w[r.below(12)]; break; }
  }
  return cstr(s);
}
// ---------------------------------------------------------------- values and calls that have much in common with earlier ones
static std::string related_string(Rng& r, std::string s) {
  static const char hex[] = "0123456789abcdefABCDEF";
  bool ishex = s.size() && s.find_first_not_of(hex) == std::string::npos; auto ch = [&]() -> char { return ishex ? hex[r.below(22)] : (char)(r.chance(1, 2) ? 'a' + r.below(26) : 1 + r.below(255)); };
  size_t n = s.size(), b = s.find("-----BEGIN");
  if (b != std::string::npos && r.chance(3, 4)) { // a key: damage in its body
    b = s.find('\n', b); size_t e = b == std::string::npos ? b : s.find("\n-----END", b);
    if (e != std::string::npos && e > b + 2) { for (int i = r.chance(2, 3) ? 1 : 2; i > 0; --i) { size_t at = b + 1 + r.below(e - b - 1); s[at] = r.chance(1, 2) ? '!' : "Aa9+/= -\n"[r.below(9)]; } return s; }
  }
  switch (r.below(16)) {
    case 12: if (n > 1) { size_t i = r.below(n - 1); std::swap(s[i], s[i + 1]); } break;
    case 13: case 14: if (n > 1) { // the same polynomial checksum
      static const int base[] = { 31, 31, 33, 37, 16, 10, 13 }; int m = base[r.below(7)];
      for (int tries = 0; tries < 30; ++tries) { size_t i = r.below(n - 1); int x = (unsigned char)s[i], y = (unsigned char)s[i + 1], d = r.chance(1, 2) ? 1 : -1; x += d; y -= d * m; auto fit = [&](int c) { return c > 31 && c < 127 && c != '"' && c != '\\' && (!ishex || strchr(hex, c)); }; if (!fit(x) || !fit(y)) continue; s[i] = (char)x; s[i + 1] = (char)y; break; }
      break; }
    case 15: if (n > 2) { size_t k = 1 + r.below(n - 1); s = s.substr(k) + s.substr(0, k); } break;
    case 0: if (n) s[n - 1] = ch(); else s = ch(); break;
    case 1: if (n) s[0] = ch(); break;
    case 2: case 3: if (n) s[r.below(n)] = ch(); break;
    case 4: s += ch(); break;
    case 5: if (n) s.erase(n - 1); break;
    case 6: if (n) s.erase(0, 1); break;
    case 7: s.insert(0, 1, ishex ? '0' : ch()); break;
    case 8: { size_t k = r.below(n + 1); for (size_t i = k; i < n; ++i) s[i] = ch(); break; }                    // same start and length
    case 9: { size_t k = r.below(n + 1); for (size_t i = 0; i < k; ++i) s[i] = ch(); break; }                    // same end and length
    case 10: for (size_t i = 0; i < n; ++i) if (r.chance(1, 2)) { if (s[i] >= 'a' && s[i] <= 'z') s[i] -= 32; else if (s[i] >= 'A' && s[i] <= 'Z') s[i] += 32; } break;
    default: if (n > 1) std::swap(s[r.below(n)], s[r.below(n)]); break;
  }
  return s;
}
JV related_value(Rng& r, const JV& v) {
  JV o = v;
  switch (v.k) {
    case JV::STR: o.s = related_string(r, v.s); break;
    case JV::BOOL: o.b = !v.b; break;
    case JV::INT: {
      std::string d = v.s; bool neg = d[0] == '-'; if (neg) d.erase(0, 1);
      switch (r.below(5)) { case 0: neg = !neg; break; case 1: d += (char)('0' + r.below(10)); break; case 2: if (d.size() > 1) d.erase(d.size() - 1); break; case 3: d[d.size() - 1] = (char)('0' + r.below(10)); break; default: d[r.below(d.size())] = (char)('1' + r.below(9)); break; }
      if (d[0] == '0' && d.size() > 1) d[0] = '1'; std::string t = neg && d != "0" ? "-" + d : d; if (fits256(t)) o.s = t; break;
    }
    case JV::ARR: {
      size_t n = o.a.size();
      if (!n || r.chance(1, 8)) { o.a.insert(o.a.begin() + r.below(n + 1), gen_value(r, 1, 2)); break; }
      if (r.chance(1, 10)) { o.a.erase(o.a.begin() + r.below(n)); break; }
      if (r.chance(1, 12)) { o.a.push_back(o.a[r.below(n)]); break; }
      if (n > 1 && r.chance(1, 12)) { std::swap(o.a[r.below(n)], o.a[r.below(n)]); break; }
      size_t i = r.chance(1, 2) ? n - 1 : r.below(n); o.a[i] = related_value(r, v.a[i]); break;
    }
    case JV::OBJ: {
      size_t n = o.o.size();
      if (!n || r.chance(1, 6)) { o.put(gen_string(r, 6), gen_value(r, 1, 2)); break; }
      size_t i = r.below(n);
      if (r.chance(1, 3)) { std::string k = related_string(r, o.o[i].first); if (!o.get(k)) o.o[i].first = k; }
      else if (r.chance(1, 6)) o.o.erase(o.o.begin() + i);
      else o.o[i].second = related_value(r, v.o[i].second);
      break;
    }
  }
  return o;
}
Line related_call(Rng& r, const Line& earlier, const std::string& word) {
  Call c = call_of(earlier);
  switch (r.below(8)) {
    case 0: c.run = !c.run; break;
    case 1: c.op = (int)r.below(OP_COUNT); break;
    case 2: break;
    default: {
      ReadResult q = read_json(c.text);
      if (!q.ok || q.gray || r.chance(1, 12)) { c.text = cstr(damage_text(r, c.text)); break; }
      JV v = q.v; int n = r.chance(3, 4) ? 1 : 2;
      if (v.k == JV::ARR && v.a.size() > 1 && r.chance(1, 4)) {   // some of its arguments with others of the same operation
        JV w = gen_args(r, c.op, FL_VALID, 1024); for (size_t i = 0; i < v.a.size() && i < w.a.size(); ++i) if (r.chance(1, 2)) v.a[i] = w.a[i];
      } else if (!r.chance(1, 8)) while (n--) v = related_value(r, v);
      c.text = cstr(spell(v, r, (int)r.chance(1, 4)));
      if (r.chance(1, 8)) c.run = !c.run;
    }
  }
  return call_line(word, c.op, c.run, c.text);
}
SchedCfg gen_sched(Rng& r, int weight) {
  SchedCfg c; c.mode = r.chance(1, 3) ? 4 : r.chance(1, 2) ? 2 : r.chance(1, 2) ? 1 : 3; c.seed = r.next() >> 1; c.p1 = c.p2 = 0; if (weight < 1) weight = 1;
  switch (c.mode) {
    case 1: { static const int m[] = { 3, 20, 100, 500, 3000, 20000 }; c.p1 = m[r.below(6)]; if (weight > 200 && c.p1 < 100) c.p1 = 500; break; }
    case 2: { static const int a[] = { 5, 30, 100, 300, 700 }, b[] = { 100, 1000, 10000, 100000 }; c.p1 = a[r.below(5)]; c.p2 = b[r.below(4)]; if (weight > 200 && c.p2 < 1000) c.p2 = 10000; break; }
    case 4: { static const int a[] = { 20, 100, 300, 600 }, b[] = { 1000, 10000, 100000, 1000000 }; c.p1 = a[r.below(4)]; c.p2 = b[r.below(4)]; break; }
    default: c.p1 = r.range(1, 10); c.p2 = weight * 2000; break;
  }
  return c;
}
Line sched_line(const SchedCfg& c) { Line l("sched"); l.set("mode", c.mode).set("seed", (long long)c.seed).set("p1", c.p1).set("p2", c.p2); return l; }
SchedCfg sched_of(const Plan& p) {
  SchedCfg c; c.mode = 0; c.seed = 1; c.p1 = c.p2 = 0; const Line* l = p.first("sched");
  if (l) { c.mode = (int)l->num("mode"); c.seed = (uint64_t)l->num("seed", 1); c.p1 = (int)l->num("p1"); c.p2 = (int)l->num("p2"); }
  if (c.mode < 0 || (c.mode > 4 && c.mode != 9)) c.mode = 0;
  if (c.p1 < 1) c.p1 = 1; if (c.p2 < 1) c.p2 = 1;
  for (const Line& x : p.all("pre")) c.pre.push_back(std::make_pair((int)x.num("t"), std::make_pair((uint64_t)x.num("s"), (int)x.num("to"))));
  return c;
}
void resolve_sched(Plan& p, const SchedStats& st) {
  std::vector<Line> keep; for (Line& l : p.lines) if (l.word != "pre" && l.word != "sched") keep.push_back(l);
  p.lines = keep; SchedCfg c; c.mode = 9; c.seed = 1; c.p1 = c.p2 = 1; p.lines.push_back(sched_line(c));
  for (auto& e : st.log) { Line l("pre"); l.set("t", e.first).set("s", (long long)e.second.first).set("to", e.second.second); p.lines.push_back(l); }
}
