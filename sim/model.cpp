#include "model.h"
#include <stdio.h>
#include <string.h>
#include <algorithm>
using namespace rt;

const char* const POW256_MINUS_1 = "115792089237316195423570985008687907853269984665640564039457584007913129639935";

JV& JV::put(const std::string& key, const JV& val) { for (auto& p : o) if (p.first == key) { p.second = val; return *this; } o.push_back(std::make_pair(key, val)); return *this; }
const JV* JV::get(const std::string& key) const { for (auto& p : o) if (p.first == key) return &p.second; return 0; }
std::string canon_str(const std::string& s) { return "s" + tohex(s); }
std::string canon(const JV& v) {
  switch (v.k) {
    case JV::INT: return "i" + v.s;
    case JV::BOOL: return v.b ? "t" : "f";
    case JV::STR: return canon_str(v.s);
    case JV::ARR: { std::string r = "["; for (size_t i = 0; i < v.a.size(); ++i) { if (i) r += ","; r += canon(v.a[i]); } return r + "]"; }
    case JV::OBJ: {
      std::vector<std::pair<std::string, std::string> > m; for (auto& p : v.o) m.push_back(std::make_pair(tohex(p.first), canon(p.second)));
      std::sort(m.begin(), m.end()); std::string r = "{"; for (size_t i = 0; i < m.size(); ++i) { if (i) r += ","; r += m[i].first + ":" + m[i].second; } return r + "}";
    }
  }
  return "?";
}
int dec_cmp_abs(const std::string& a, const std::string& b) { if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1; int c = a.compare(b); return c < 0 ? -1 : c > 0; }
bool fits256(const std::string& c) { return dec_cmp_abs(c[0] == '-' ? c.substr(1) : c, POW256_MINUS_1) <= 0; }

static std::string pow2(int n) { std::string d = "1"; for (int i = 0; i < n; ++i) { int c = 0; for (int k = (int)d.size() - 1; k >= 0; --k) { int x = (d[k] - '0') * 2 + c; d[k] = '0' + x % 10; c = x / 10; } if (c) d = std::string(1, '0' + c) + d; } return d; }
static std::string addsmall(std::string d, int delta) { // d > 1
  int k = (int)d.size() - 1; int x = d[k] - '0' + delta;
  if (x >= 0 && x <= 9) { d[k] = '0' + x; return d; }
  if (delta > 0) { int c = 1; d[k] = '0' + x - 10; for (--k; k >= 0 && c; --k) { if (d[k] == '9') d[k] = '0'; else { ++d[k]; c = 0; } } if (c) d = "1" + d; return d; }
  d[k] = '0' + x + 10; for (--k; k >= 0; --k) { if (d[k] == '0') d[k] = '9'; else { --d[k]; break; } }
  size_t nz = d.find_first_not_of('0'); return nz == std::string::npos ? "0" : d.substr(nz);
}
std::string max_unsigned(int bits) { return addsmall(pow2(bits), -1); }
std::string gen_int(Rng& r) {
  std::string d;
  switch (r.below(8)) {
    case 0: d = std::to_string(r.below(10)); break;
    case 1: d = std::to_string(r.below(100000)); break;
    case 2: { static const int ps[] = { 1, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 159, 160, 191, 192, 193, 254, 255 }; d = addsmall(pow2(ps[r.below(21)]), r.range(-1, 1)); break; }
    case 3: d = r.chance(1, 2) ? POW256_MINUS_1 : addsmall(POW256_MINUS_1, -(int)r.below(5)); break;
    case 4: { int n = r.range(1, 77); d = std::string(1, '1' + (int)r.below(9)); for (int i = 1; i < n; ++i) d += '0' + (int)r.below(10); break; }
    case 5: { int n = r.range(0, 76); d = "1" + std::string(n, '0'); break; }
    case 6: { int n = r.range(1, 77); d = std::string(n, '9'); break; }
    default: d = std::to_string(r.next()); break;
  }
  if (d != "0" && r.chance(2, 5)) d = "-" + d;
  if (!fits256(d)) d = POW256_MINUS_1;
  return d;
}
int tails = 1;
std::string utf8(unsigned c) {
  std::string s;
  if (c < 0x80) s += (char)c;
  else if (c < 0x800) { s += (char)(0xc0 + c / 64); s += (char)(0x80 + c % 64); }
  else if (c < 0x10000) { s += (char)(0xe0 + c / 4096); s += (char)(0x80 + c / 64 % 64); s += (char)(0x80 + c % 64); }
  else { s += (char)(0xf0 + c / 262144); s += (char)(0x80 + c / 4096 % 64); s += (char)(0x80 + c / 64 % 64); s += (char)(0x80 + c % 64); }
  return s;
}
// the character whose UTF-8 form starts at s[i], or -1; n: its length
static long unutf8(const std::string& s, size_t i, size_t& n) {
  unsigned char c = (unsigned char)s[i]; n = c >= 0xf0 ? 4 : c >= 0xe0 ? 3 : c >= 0xc0 ? 2 : 1; if (n == 1) return c < 0x80 ? c : -1;
  if (i + n > s.size()) return -1;
  unsigned long v = c & (0xff >> (n + 1));
  for (size_t k = 1; k < n; ++k) { unsigned char d = (unsigned char)s[i + k]; if ((d & 0xc0) != 0x80) return -1; v = v * 64 + (d & 63); }
  if (v > 0x10ffff || (v >= 0xd800 && v < 0xe000) || s.compare(i, n, utf8((unsigned)v))) return -1;
  return (long)v;
}
static unsigned gen_char(Rng& r) {   // with the edges of its lengths
  static const unsigned edge[] = { 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x1f600, 0x4e2d, 0xe9, 0xfeff, 0xfffe, 0x2028, 0x2029, 0x200b, 0xa0, 0x85, 0xad, 0xffff + 1 - 2, 0x1fffe, 0xd7fe, 0xe001 };
  return r.chance(1, 3) ? edge[r.below(27)] : r.chance(1, 2) ? 0x80 + r.below(0x780) : r.chance(2, 3) ? 0x800 + r.below(0xd000) : 0x10000 + r.below(0x100000);
}
std::string gen_utf8(Rng& r, int n) { std::string s; while (n-- > 0) s += utf8(gen_char(r)); return s; }
std::string gen_string(Rng& r, int maxlen) {
  static const int edges[] = { 0, 1, 2, 7, 8, 14, 15, 16, 17, 30, 31, 32, 33, 63, 64, 127, 128, 255, 256, 511, 512, 1000 };
  int n; if (r.chance(1, 3)) { n = edges[r.below(22)]; } else n = (int)r.below(12);
  if (n > maxlen) n = (int)r.below(maxlen + 1);
  if (tails && maxlen >= 80 && r.chance(1, 60)) n = r.chance(1, 12) ? r.range(60000, 70000) : r.range(1000, 9000);   // the tail of long strings
  std::string s; int kind = (int)r.below(8);
  static const char sp[] = "\"\\/\b\f\n\r\t\x7f\x1f{}[],:'u0";
  for (int i = 0; i < n; ++i) switch (kind) {
    case 0: case 1: s += 'a' + (char)r.below(26); break;
    case 2: s += (char)r.below(256); break;
    case 3: s += sp[r.below(sizeof sp - 1)]; break;
    case 4: s += (char)(r.chance(1, 2) ? 0x80 + r.below(128) : 0x20 + r.below(95)); break;
    case 5: s += (char)(r.chance(1, 8) ? 0 : r.below(32)); break;
    case 6: { // text in UTF-8
      unsigned c = gen_char(r);
      if (i + 4 <= n) { std::string q = utf8(c); s += q; i += (int)q.size() - 1; } else s += 'z'; break; }
    default: s += '0' + (char)r.below(10); break;
  }
  return s;
}
static JV gen_chain(Rng& r, int depth) {  // deep nesting
  JV v = r.chance(1, 2) ? gen_value(r, 0, 1) : r.chance(1, 2) ? JV::Arr() : JV::Obj();
  int kind = (int)r.below(3);
  for (int i = 0; i < depth; ++i) {
    JV w; if (kind == 0 || (kind == 2 && r.chance(1, 2))) { w = JV::Arr(); if (r.chance(1, 10)) w.a.push_back(JV::Int("1")); w.a.push_back(JV()); std::swap(w.a.back(), v); if (r.chance(1, 10)) w.a.push_back(JV::Bool(false)); }
    else { w = JV::Obj(); w.o.push_back(std::make_pair(std::string(r.chance(1, 2) ? "a" : ""), JV())); std::swap(w.o[0].second, v); if (r.chance(1, 10)) w.put("b", JV::Str("")); }
    std::swap(v, w);
  }
  return v;
}
static JV gen_small(Rng& r) {   // the smallest containers
  JV v = r.chance(1, 2) ? JV::Arr() : JV::Obj(); if (r.chance(3, 4)) return v;
  JV e = r.chance(1, 2) ? JV::Int("0") : r.chance(1, 2) ? JV::Arr() : JV::Obj();
  if (v.k == JV::ARR) v.a.push_back(e); else v.put("k", e); return v;
}
static std::string long_name(Rng& r) { std::string s = gen_string(r, 60); int n = r.chance(1, 3) ? r.range(4000, 9000) : r.chance(1, 20) ? r.range(65000, 66000) : r.range(60, 1100); std::string f = s.size() ? s : "n"; while ((int)s.size() < n) s += r.chance(1, 4) ? gen_string(r, 20) : f; return s; }
JV gen_value(Rng& r, int depth, int breadth) {
  if (tails && depth > 1 && r.chance(1, 100)) return gen_chain(r, r.chance(1, 16) ? r.range(495, 512) : r.chance(1, 3) ? r.range(64, 300) : r.range(6, 40));
  int k = (int)r.below(depth > 0 ? 9 : 6);
  if (k < 2) return JV::Int(gen_int(r));
  if (k == 2) return JV::Bool(r.chance(1, 2));
  if (k < 6) return JV::Str(gen_string(r, 80));
  if (k < 8) return gen_array(r, depth - 1, breadth);
  JV v = JV::Obj(); int n = (int)r.below(breadth + 1); if (r.chance(1, 12)) n += 20; int small = 0;
  if (tails && depth > 0 && r.chance(1, 40)) { n = r.chance(1, 6) ? r.range(200, 700) : r.range(30, 120); depth = 1; breadth = 0; if (r.chance(1, 3)) { small = (int)r.range(1, 3); if (r.chance(1, 3)) n = r.range(500, 1200); } }
  for (int i = 0; i < n; ++i) v.put(n > 100 && !r.chance(1, 200) ? std::to_string(i) + gen_string(r, 3) : r.chance(1, 6) ? "" : tails && r.chance(1, 100) ? long_name(r) : gen_string(r, 24), small == 1 ? JV::Obj() : small == 2 ? JV::Arr() : small ? gen_small(r) : gen_value(r, depth - 1, breadth));
  return v;
}
JV gen_array(Rng& r, int depth, int breadth) {
  JV v = JV::Arr(); int n = (int)r.below(breadth + 1); if (r.chance(1, 16)) n += 17; int small = 0;
  if (tails && depth > 0 && r.chance(1, 40)) { n = r.chance(1, 6) ? r.range(200, 700) : r.range(30, 120); depth = 1; breadth = 0; if (r.chance(1, 3)) { small = (int)r.range(1, 3); if (r.chance(1, 3)) n = r.range(500, 1200); } }
  for (int i = 0; i < n; ++i) v.a.push_back(small == 1 ? JV::Obj() : small == 2 ? JV::Arr() : small ? gen_small(r) : gen_value(r, depth - 1, breadth));
  return v;
}
JV gen_big(Rng& r) {
  if (r.chance(1, 8)) return gen_chain(r, r.chance(1, 3) ? r.range(509, 512) : r.range(490, 512));
  JV v = r.chance(1, 2) ? JV::Arr() : JV::Obj(); int n = r.range(500, 1300), kind = (int)r.below(5);
  for (int i = 0; i < n; ++i) {
    JV e = kind == 0 ? JV::Arr() : kind == 1 ? JV::Obj() : kind == 2 ? gen_small(r) : kind == 3 ? gen_value(r, 0, 0) : r.chance(1, 2) ? JV::Int(std::to_string(i)) : gen_small(r);
    if (v.k == JV::ARR) v.a.push_back(e); else v.put("m" + std::to_string(i), e);
  }
  return v;
}
static void ws(std::string& o, Rng& r, int style) { if (!style) return; static const char w[] = " \t\n\r"; for (int n = r.chance(1, 3) ? !r.chance(1, 400) ? r.range(1, 3) : r.chance(9, 10) ? r.range(10, 300) : r.range(300, 70000) : 0; n > 0; --n) o += w[r.below(4)]; }
std::string spell_string(const std::string& s, Rng& r, int style) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = (unsigned char)s[i];
    if (c >= 0x80) {
      size_t n; long v; char t[16];
      if (style && r.chance(1, 3) && (v = unutf8(s, i, n)) >= 0) {
        const char* f = r.chance(1, 2) ? "\\u%04lx" : "\\u%04lX";
        if (v < 0x10000) { snprintf(t, sizeof t, f, v); o += t; }
        else { snprintf(t, sizeof t, f, 0xd800 + (v - 0x10000) / 1024); o += t; snprintf(t, sizeof t, f, 0xdc00 + (v - 0x10000) % 1024); o += t; }
        i += n - 1;
      } else o += (char)c;
      continue;
    }
    char t[8]; const char* e = c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '\b' ? "\\b" : c == '\f' ? "\\f" : c == '\n' ? "\\n" : c == '\r' ? "\\r" : c == '\t' ? "\\t" : c == '/' ? "\\/" : 0;
    bool must = c < 32 || c == '"' || c == '\\';
    bool u = style && r.chance(1, must ? 3 : 12);
    if (must && !e) u = true;
    if (u) { snprintf(t, sizeof t, r.chance(1, 2) ? "\\u%04x" : "\\u%04X", c); o += t; }
    else if (must) o += e;
    else if (c == '/' && style && r.chance(1, 2)) o += e;
    else o += (char)c;
  }
  return o + "\"";
}
std::string spell(const JV& v, Rng& r, int style) {
  std::string o; ws(o, r, style);
  switch (v.k) {
    case JV::INT: if (v.s == "0" && style && r.chance(1, 4)) o += "-0"; else o += v.s; break;
    case JV::BOOL: o += v.b ? "true" : "false"; break;
    case JV::STR: o += spell_string(v.s, r, style); break;
    case JV::ARR: o += '['; for (size_t i = 0; i < v.a.size(); ++i) { if (i) o += ','; o += spell(v.a[i], r, style); } ws(o, r, style); o += ']'; break;
    case JV::OBJ: {
      o += '{'; bool first = true;
      for (auto& p : v.o) {
        if (!first) o += ','; first = false;
        if (style && r.chance(1, 10)) { ws(o, r, style); o += spell_string(p.first, r, style); ws(o, r, style); o += ':'; o += spell(gen_value(r, 0, 0), r, style); o += ','; } // a duplicate: the later one counts
        ws(o, r, style); o += spell_string(p.first, r, style); ws(o, r, style); o += ':'; o += spell(p.second, r, style); ws(o, r, style);
      }
      ws(o, r, style); o += '}'; break;
    }
  }
  ws(o, r, style);
  return o;
}
std::string print_strict(const JV& v) { Rng r(1); return spell(v, r, 0); }

// ------------------------------------------------------------------ strict reader
namespace {
struct Reader {
  const std::string& t; size_t i; bool gray; bool build; int depth, maxdepth;
  Reader(const std::string& s, bool b) : t(s), i(0), gray(false), build(b), depth(0), maxdepth(0) {}
  int at() const { return i < t.size() ? (unsigned char)t[i] : -1; }
  void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\t' || t[i] == '\n' || t[i] == '\r')) ++i; }
  bool lit(const char* w) { size_t n = strlen(w); if (t.compare(i, n, w)) return false; i += n; return true; }
  static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
  bool str(std::string& out) {
    if (at() != '"') return false; ++i;
    for (;;) {
      int c = at(); if (c < 0) return false; ++i;
      if (c == '"') return true;
      if (c == '\\') {
        int e = at(); if (e < 0) return false; ++i;
        switch (e) {
          case '"': case '\\': case '/': out += (char)e; break;
          case 'b': out += '\b'; break; case 'f': out += '\f'; break; case 'n': out += '\n'; break; case 'r': out += '\r'; break; case 't': out += '\t'; break;
          case 'u': {
            int v = 0; for (int k = 0; k < 4; ++k) { int h = hexv(at()); if (h < 0) return false; v = v * 16 + h; ++i; }
            if (v >= 0xd800 && v < 0xdc00 && t.compare(i, 2, "\\u") == 0) {
              size_t was = i; i += 2; int w = 0; for (int k = 0; k < 4; ++k) { int h = hexv(at()); if (h < 0) return false; w = w * 16 + h; ++i; }
              if (w >= 0xdc00 && w < 0xe000) v = 0x10000 + (v - 0xd800) * 1024 + (w - 0xdc00); else i = was;
            }
            if (v >= 0xd800 && v < 0xe000) gray = true;   // half a character
            out += utf8((unsigned)v); break; }
          default: return false;
        }
      } else { if (c < 32) gray = true; out += (char)c; }
    }
  }
  bool value(JV& v) {
    ws();
    int c = at();
    if (c == 't') { if (!lit("true")) return false; v = JV::Bool(true); return true; }
    if (c == 'f') { if (!lit("false")) return false; v = JV::Bool(false); return true; }
    if (c == '"') { v = JV::Str(""); return str(v.s); }
    if (c == '-' || (c >= '0' && c <= '9')) {
      std::string d; bool neg = false; if (c == '-') { neg = true; ++i; }
      if (at() == '0') { d = "0"; ++i; }
      else if (at() >= '1' && at() <= '9') { while (at() >= '0' && at() <= '9') { d += (char)at(); ++i; } }
      else return false;
      if (dec_cmp_abs(d, POW256_MINUS_1) > 0) gray = true;
      v = JV::Int(neg && d != "0" ? "-" + d : d); return true;
    }
    if (c == '[') {
      ++i; v = JV::Arr(); maxdepth = std::max(maxdepth, ++depth); if (depth > 6000) { gray = true; return false; }
      ws(); if (at() == ']') { ++i; --depth; return true; }
      for (;;) { JV e; if (!value(e)) return false; if (build) v.a.push_back(std::move(e)); ws(); if (at() == ',') { ++i; continue; } if (at() == ']') { ++i; --depth; return true; } return false; }
    }
    if (c == '{') {
      ++i; v = JV::Obj(); maxdepth = std::max(maxdepth, ++depth); if (depth > 6000) { gray = true; return false; }
      ws(); if (at() == '}') { ++i; --depth; return true; }
      for (;;) {
        ws(); std::string k; if (!str(k)) return false; ws(); if (at() != ':') return false; ++i;
        JV e; if (!value(e)) return false; if (build) { JV* z = 0; for (size_t q = 0; q < v.o.size() && !z; ++q) if (v.o[q].first == k) z = &v.o[q].second; if (z) *z = std::move(e); else { v.o.push_back(std::make_pair(k, JV())); v.o.back().second = std::move(e); } } ws();
        if (at() == ',') { ++i; continue; } if (at() == '}') { ++i; --depth; return true; } return false;
      }
    }
    return false;
  }
};
}
ReadResult read_json(const std::string& text, bool build) {
  Reader r(text, build); ReadResult o; o.ok = r.value(o.v); o.gray = r.gray || r.maxdepth > 512; o.end = r.i; o.depth = r.maxdepth; return o;
}
bool all_ws(const std::string& s, size_t f) { for (; f < s.size(); ++f) if (s[f] != ' ' && s[f] != '\t' && s[f] != '\n' && s[f] != '\r') return false; return true; }
