// C09: histories on a pool of JSON values, arrays and objects.
#include "hist.h"
#include "model.h"
#include <set>
using namespace rt;

namespace {
// The model of a value: 'u' undefined, 'i' 's' 't' 'f' scalars, 'a' array, 'o' object.
struct W {
  char k; std::string s; std::vector<W> a; std::map<std::string, W> o;
  W() : k('u') {}
  size_t nodes() const { size_t n = 1 + s.size() / 64; for (size_t i = 0; i < a.size(); ++i) n += a[i].nodes(); for (std::map<std::string, W>::const_iterator i = o.begin(); i != o.end(); ++i) n += 1 + i->second.nodes(); return n; }
  size_t depth() const { size_t n = 0; for (size_t i = 0; i < a.size(); ++i) n = std::max(n, a[i].depth()); for (std::map<std::string, W>::const_iterator i = o.begin(); i != o.end(); ++i) n = std::max(n, i->second.depth()); return n + 1; }
  std::string str() const {
    switch (k) {
      case 'u': return "?";
      case 't': return "t";
      case 'f': return "f";
      case 'i': return "i" + s;
      case 's': return "s" + tohex(s);
      case 'a': { std::string r = "["; for (size_t i = 0; i < a.size(); ++i) { if (i) r += ","; r += a[i].str(); } return r + "]"; }
      default: { std::map<std::string, std::string> m; for (std::map<std::string, W>::const_iterator i = o.begin(); i != o.end(); ++i) m[tohex(i->first)] = i->second.str();
        std::string r = "{"; bool first = true; for (std::map<std::string, std::string>::iterator i = m.begin(); i != m.end(); ++i) { if (!first) r += ","; first = false; r += i->first + ":" + i->second; } return r + "}"; }
    }
  }
};
W wof(const JV& v) {
  W w;
  switch (v.k) {
    case JV::INT: w.k = 'i'; w.s = v.s; break;
    case JV::BOOL: w.k = v.b ? 't' : 'f'; break;
    case JV::STR: w.k = 's'; w.s = v.s; break;
    case JV::ARR: w.k = 'a'; for (size_t i = 0; i < v.a.size(); ++i) w.a.push_back(wof(v.a[i])); break;
    default: w.k = 'o'; for (size_t i = 0; i < v.o.size(); ++i) w.o[v.o[i].first] = wof(v.o[i].second); break;
  }
  return w;
}
struct Step { int i; std::string key; };
typedef std::vector<Step> Path;

enum { V_NEW, V_COPY, V_MOVE, V_ASSIGN, V_SELF, V_PART_TO_WHOLE, V_WHOLE_TO_PART, V_PART_TO_PART, V_DELEGATE, V_LOOKUP, V_SCALAR, V_PUSH, V_EMPLACE, V_INSERT, V_ERASE, V_CLEAR, V_RESIZE, V_MEMBER, V_ARRAY, V_OBJECT, V_WRAP, V_DEFAULT, V_SWAPDOWN, V_GROW, V_KINDS };
const char* const VN[V_KINDS] = { "construct", "copy-construct", "move-construct", "assign", "self-assign", "assign part to whole", "assign whole to part", "assign part to part", "delegate", "lookup", "change scalar", "push_back", "emplace_back", "insert", "erase", "clear", "resize", "obj[key] =", "array copy", "object copy", "wrap", "destroy", "assign array part to array", "reserve" };

struct ValRun {
  enum { N = 5 };
  json::Value* v[N]; W m[N]; json::Array* arr[2]; W ma[2]; json::Object* obj[2]; W mo[2]; std::string what;
  void bad(const std::string& cls, const std::string& d) { violation(cls, what + ": " + d); }
  std::string canon_of(const json::Value& x) { std::string r; { Sut u; std::string c = canon_value(x); Host h; r = host_copy(c); } return r; }
  std::string canon_of(const json::Array& x) {
    std::string r;
    { Sut u; std::string c = "["; for (size_t i = 0; i < x.size(); ++i) { if (i) c += ","; c += canon_value(x[(int)i]); } c += "]"; if (x.empty() != (x.size() == 0)) c += "!"; Host h; r = host_copy(c); }
    return r;
  }
  std::string canon_of(const json::Object& x) { std::string r; { Sut u; json::Value t(x); std::string c = canon_value(t); Host h; r = host_copy(c); } return r; }
  void check() {
    for (int k = 0; k < N; ++k) { std::string c = canon_of(*v[k]), w = m[k].str(); if (c != w) bad("content", "value " + std::to_string(k) + " is " + esc(c) + " instead of " + esc(w)); }
    for (int k = 0; k < 2; ++k) {
      std::string c = canon_of(*arr[k]), w = ma[k].str(); if (c != w) bad("content", "array " + std::to_string(k) + " is " + esc(c) + " instead of " + esc(w));
      c = canon_of(*obj[k]); w = mo[k].str(); if (c != w) bad("content", "object " + std::to_string(k) + " is " + esc(c) + " instead of " + esc(w));
    }
  }
  // a path below w, from a number
  static Path path(const W& w, long long n, int least) {
    Path p; const W* c = &w; if (n < 0) n = -n; int depth = (int)(n % 4); n /= 4; if (depth < least) depth = least;
    for (int d = 0; d < depth; ++d) {
      int t = (int)(n % 11); n /= 11; Step s; s.i = -1;
      if (c->k == 'a' && c->a.size()) { s.i = t % (int)c->a.size(); p.push_back(s); c = &c->a[s.i]; }
      else if (c->k == 'o' && c->o.size()) { std::map<std::string, W>::const_iterator i = c->o.begin(); std::advance(i, t % (int)c->o.size()); s.key = i->first; p.push_back(s); c = &i->second; }
      else break;
    }
    return p;
  }
  static W& mat(W& w, const Path& p) { W* c = &w; for (size_t i = 0; i < p.size(); ++i) c = p[i].i >= 0 ? &c->a[p[i].i] : &c->o[p[i].key]; return *c; }
  static json::Value& at(json::Value& x, const Path& p) { // as the system under test
    json::Value* c = &x;
    for (size_t i = 0; i < p.size(); ++i) { if (p[i].i >= 0) c = &c->asArray().at((size_t)p[i].i); else { std::string key; { Host h; key = host_copy(p[i].key); } c = i % 2 ? &c->asObject().at(key) : &c->asObject()[key]; } }
    return *c;
  }
  static const json::Value& cat(const json::Value& x, const Path& p) {
    const json::Value* c = &x;
    for (size_t i = 0; i < p.size(); ++i) { if (p[i].i >= 0) c = &(*c)[p[i].i]; else c = &(*c)[p[i].key]; }
    return *c;
  }
  static std::string keyof(long long n) { if (n < 0) n = -n; return n % 5 == 0 ? "" : n % 5 == 1 ? std::string("\0", 1) : n % 5 == 2 ? "k" : text_of_code((int)(n % 30)); }
  void replace(int k, json::Value* fresh, const W& w) { { Sut u; delete v[k]; } v[k] = fresh; m[k] = w; }
  // after a failure the target may hold anything sound; start it afresh
  void settle(int k) { std::string c = canon_of(*v[k]); if (c.find('!') != std::string::npos) bad("broken-on-exhaustion", "after the failure the value reads " + esc(c)); json::Value* f; { Sut u; f = new json::Value(); } replace(k, f, W()); }
  // earlier lookups, to be made again after later steps
  struct Probe { int k; Path p; std::string key; };
  std::vector<Probe> probes; size_t primed = 0;
  void again(int k, const Path& p, const std::string& key) { Probe b; b.k = k; b.p = p; b.key = key; if (probes.size() > 5) probes.erase(probes.begin()); probes.push_back(b); }
  bool valid(const Probe& b) const {
    const W* c = &m[b.k];
    for (size_t i = 0; i < b.p.size(); ++i) { const Step& s = b.p[i]; if (s.i >= 0) { if (c->k != 'a' || (size_t)s.i >= c->a.size()) return false; c = &c->a[s.i]; } else { std::map<std::string, W>::const_iterator f = c->o.find(s.key); if (c->k != 'o' || f == c->o.end()) return false; c = &f->second; } }
    return true;
  }
  void relook(size_t from, size_t count) {
    for (size_t z = from; z < from + count && z < probes.size(); ++z) {
      const Probe& b = probes[probes.size() - 1 - z]; if (!valid(b)) continue; const W* c = &mat(m[b.k], b.p);
      std::string want = c->k == 'o' && c->o.count(b.key) ? c->o.find(b.key)->second.str() : "?", got;
      { Sut u; std::string g = canon_value(cat(*v[b.k], b.p)[b.key]); Host h; got = host_copy(g); }
      if (got != want) bad("lookup", "member " + esc(b.key) + " of value " + std::to_string(b.k) + ", looked up earlier, now reads " + esc(got) + " instead of " + esc(want));
    }
  }
  void lookups(int k, const Path& p, long long n) {
    const json::Value& x = *v[k]; const W& w = mat(m[k], p); bool uk = false, ui = false, rk = false, ri = false; std::string key = keyof(n); int idx = (int)(n % 9) - 2; if (n % 11 == 5) { static const int far[] = { 256, 65536, 0x7fffffff, -0x7fffffff - 1, 0x10000000, -256, -65536, 1000 }; int z = far[n / 11 % 8]; idx = z == 0x7fffffff || z == -0x7fffffff - 1 ? z : z + idx; } if (n % 13 == 4) { static const char* likely[] = { "length", "size", "type", "value", "0", "__proto__", "key", "-1" }; key = likely[n / 13 % 8]; } if (w.k == 'o' && w.o.size() && n % 2) { std::map<std::string, W>::const_iterator i = w.o.begin(); std::advance(i, n / 9 % w.o.size()); key = i->first; } again(k, p, key); std::string gk, gi; long addr_same = 0;
    {
      Sut u; const json::Value& y = cat(x, p);
      try { const json::Value& z = y[key]; uk = z.isUndefined(); std::string c = canon_value(z); Host h; gk = host_copy(c); } catch (const std::out_of_range&) { rk = true; }
      try { const json::Value& z = y[idx]; ui = z.isUndefined(); std::string c = canon_value(z); Host h; gi = host_copy(c); } catch (const std::out_of_range&) { ri = true; }
      addr_same = &y == &cat(x, p);
    }
    if (!addr_same) bad("lookup", "looking up twice gives two places");
    if (w.k != 'o') { if (rk || !uk) bad("lookup", "member " + esc(key) + " of " + esc(w.str()) + " is " + (rk ? "an exception" : esc(gk)) + " instead of undefined"); }
    else if (w.o.count(key)) { if (rk || gk != w.o.find(key)->second.str()) bad("lookup", "member " + esc(key) + " is " + (rk ? "an exception" : esc(gk))); }
    else if (rk || !uk) bad("lookup", "a missing member is " + (rk ? std::string("an exception") : esc(gk)) + " instead of undefined");
    if (w.k != 'a') { if (ri || !ui) bad("lookup", "element " + std::to_string(idx) + " of " + esc(w.str()) + " is " + (ri ? "an exception" : esc(gi)) + " instead of undefined"); }
    else if (idx >= 0 && (size_t)idx < w.a.size()) { if (ri || gi != w.a[idx].str()) bad("lookup", "element " + std::to_string(idx) + " is " + (ri ? "an exception" : esc(gi))); }
    else if (!ri) bad("lookup", "element " + std::to_string(idx) + " of " + std::to_string(w.a.size()) + " reads " + esc(gi));
  }
  void step(const Line& l) {
    int op = (int)l.num("op"), k = (int)(l.num("k") % N), j = (int)(l.num("j") % N), x = (int)(l.num("k") % 2), y = (int)(l.num("j") % 2); if (op < 0 || op >= V_KINDS || k < 0 || j < 0) return;
    long long n = l.num("n"); if (n < 0) n = -n;
    what = std::string(VN[op]) + " (" + l.str() + ")";
    if ((m[k].nodes() > 250 || m[k].depth() > 30) && op != V_NEW) op = V_DEFAULT;
    if (ma[x].nodes() > 250 || ma[x].depth() > 30) { { Sut u; arr[x]->clear(); } ma[x] = W(); ma[x].k = 'a'; }
    if (m[j].nodes() > 250 || ma[y].nodes() > 250 || mo[y].nodes() > 250 || mo[x].nodes() > 250 || mo[x].depth() > 30) { { Sut u; *obj[x] = json::Object(); *obj[y] = json::Object(); } mo[x] = W(); mo[x].k = 'o'; mo[y] = mo[x]; if (op != V_DEFAULT) return; }
    const Probe* aim = 0;   // change what was looked up last
    if (n % 4 == 3 && primed < probes.size()) { aim = &probes[probes.size() - 1 - primed]; if (valid(*aim) && m[aim->k].nodes() <= 250 && m[aim->k].depth() <= 30) { k = aim->k; } else aim = 0; }
    Path p = aim ? aim->p : path(m[k], l.num("p"), 0), q = path(m[j], l.num("q"), 0); std::string r; json::Value* fresh = 0; W src = mat(m[j], q), own = mat(m[k], p), before = m[k];
    W& tm = mat(m[k], p); bool mutate = false, fired_target = true;
    switch (op) {
      case V_NEW: { JV jv; { ReadResult rr = read_json(l.bytes("v")); if (rr.ok && !rr.gray) jv = rr.v; else jv = JV::Int("0"); } unsigned route = (unsigned)n;
        r = attempt(l, [&]() { fresh = new json::Value(make_value(jv, route)); }); if (r.empty()) replace(k, fresh, wof(jv)); fired_target = false; break; }
      case V_COPY: r = attempt(l, [&]() { fresh = new json::Value(cat(*v[j], q)); }); if (r.empty()) { if (!q.empty() && j == k && false) {} replace(k, fresh, src); } fired_target = false; break;
      case V_MOVE: {
        if (j == k) j = (k + 1) % N; W w = m[j]; r = attempt(l, [&]() { fresh = new json::Value(std::move(*v[j])); });
        if (r.empty()) { std::string c = canon_of(*v[j]); if (c == "?") m[j] = W(); else if (c != m[j].str()) bad("moved-from", "a moved-from value reads " + esc(c)); replace(k, fresh, w); }
        fired_target = false; break; }
      case V_ASSIGN: { W w = m[j]; r = attempt(l, [&]() { *v[k] = *v[j]; }); if (r.empty()) m[k] = w; break; }
      case V_SELF: r = attempt(l, [&]() { json::Value& t = at(*v[k], p); const json::Value& s = cat(*v[k], p); t = s; }); break;
      case V_PART_TO_WHOLE: { r = attempt(l, [&]() { *v[k] = cat(*v[k], p); }); if (r.empty()) m[k] = own; break; }
      case V_WHOLE_TO_PART: { W w = m[k]; r = attempt(l, [&]() { json::Value& t = at(*v[k], p); t = *v[k]; }); if (r.empty()) mat(m[k], p) = w; break; }
      case V_PART_TO_PART: { r = attempt(l, [&]() { json::Value& t = at(*v[k], p); t = cat(*v[j], q); }); if (r.empty()) mat(m[k], p) = src; break; }
      case V_DELEGATE: {
        W w; eni::s256 big; json::Array* a = 0; json::Object* b = 0;
        { Sut u; switch (n % 3) { case 0: big = eni::s256((int)n) * 1000003; break; case 1: a = new json::Array(); a->push_back(json::Value((int)n)); a->push_back(json::Value("delegated to the value")); break; default: b = new json::Object(); (*b)["m"] = json::Value((int)n); } }
        if (n % 3 == 0) { w.k = 'i'; w.s = std::to_string(n * 1000003); if (n > 2000000) return; } else { W e; e.k = 'i'; e.s = std::to_string((int)n); if (n % 3 == 1) { w.k = 'a'; w.a.push_back(e); e.k = 's'; e.s = "delegated to the value"; w.a.push_back(e); } else { w.k = 'o'; w.o["m"] = e; } }
        r = attempt(l, [&]() { json::Value& t = at(*v[k], p); if (n % 3 == 0) t.delegate(big); else if (a) t.delegate(*a); else t.delegate(*b); });
        if (own.k == 'u') { if (r.empty()) tm = w; else if (r == "oom" && step_fired) { Sut u; if (canon_value(at(*v[k], p)) == "?") { delete a; delete b; } } }
        else { if (r != "logic" && !(r == "oom" && step_fired)) bad("delegate", "giving content to " + esc(own.str()) + (r.empty() ? " is accepted" : " raises '" + r + "'")); r.clear(); Sut u; delete a; delete b; }
        break; }
      case V_LOOKUP: lookups(k, p, n); break;
      case V_SCALAR: {
        mutate = true; bool s = own.k == 's', i = own.k == 'i'; if (!s && !i) return; std::string add = text_of_code((int)(n % 50)); W w = own;
        if (s) w.s += add; else w.s = std::to_string(n % 100000);
        r = attempt(l, [&]() { json::Value& t = at(*v[k], p); if (s) t.asString() += add; else t.asInteger() = eni::s256((int)(n % 100000)); }); if (r.empty()) tm = w; break; }
      case V_PUSH: case V_EMPLACE: case V_INSERT: {
        mutate = true; if (own.k != 'a') return; size_t pos = own.a.size() ? n % (own.a.size() + 1) : 0; if (op != V_INSERT) pos = own.a.size();
        W w = own; w.a.insert(w.a.begin() + pos, src);
        r = attempt(l, [&]() { json::Array& a = at(*v[k], p).asArray(); const json::Value& s = cat(*v[j], q); if (op == V_PUSH) a.push_back(s); else if (op == V_EMPLACE) a.emplace_back(s); else if (n % 3) a.insert(pos, s); else { json::Array::iterator it = a.begin(); for (size_t z = 0; z < pos; ++z) ++it; a.insert(it, s); } });
        if (r.empty()) tm = w; break; }
      case V_ERASE: {
        mutate = true; if (own.k == 'a' && own.a.size()) { size_t pos = n % own.a.size(); W w = own; w.a.erase(w.a.begin() + pos); r = attempt(l, [&]() { at(*v[k], p).asArray().erase(pos); }); if (r.empty()) tm = w; }
        else if (own.k == 'o') { std::string key = keyof(n); if (own.o.size() && n % 2) { std::map<std::string, W>::iterator i = own.o.begin(); std::advance(i, n % own.o.size()); key = i->first; } if (aim) key = aim->key; W w = own; w.o.erase(key); r = attempt(l, [&]() { at(*v[k], p).asObject().erase(key); }); if (r.empty()) tm = w; }
        break; }
      case V_CLEAR: { mutate = true; if (own.k != 'a') return; r = attempt(l, [&]() { at(*v[k], p).asArray().clear(); }); if (r.empty()) tm.a.clear(); break; }
      case V_RESIZE: { mutate = true; if (own.k != 'a') return; size_t z = n % 12; W w = own; W e; e.k = 'i'; e.s = "7"; w.a.resize(z, n % 2 ? e : W()); r = attempt(l, [&]() { json::Array& a = at(*v[k], p).asArray(); if (n % 2) a.resize(z, json::Value(7)); else a.resize(z); }); if (r.empty()) tm = w; break; }
      case V_GROW: { mutate = true; if (own.k != 'a') return; size_t z = n % 200; r = attempt(l, [&]() { json::Array& a = at(*v[k], p).asArray(); if (n % 3) a.reserve(z); else a.shrink_to_fit(); }); break; }
      case V_MEMBER: {
        mutate = true; if (own.k != 'o') return; std::string key = aim ? aim->key : keyof(n); W w = own; w.o[key] = src; bool self = j == k && n % 3 != 2;
        if (self) { // the value assigned may live in the very table the new member makes grow: copy it first
          r = attempt(l, [&]() { json::Value s(cat(*v[j], q)); at(*v[k], p).asObject()[key] = s; });
        } else r = attempt(l, [&]() { json::Value s(cat(*v[j], q)); json::Object& b = at(*v[k], p).asObject(); json::Value& slot = b[key]; slot = s; });
        if (r.empty()) tm = w; break; }
      case V_ARRAY: { // arrays by themselves
        fired_target = false; int z = (int)(n % 6); W w;
        if (z == 0) { json::Array* f = 0; r = attempt(l, [&]() { f = new json::Array(*arr[y]); }); if (r.empty()) { w = ma[y]; { Sut u; delete arr[x]; } arr[x] = f; ma[x] = w; } }
        else if (z == 1) { w = ma[y]; r = attempt(l, [&]() { *arr[x] = *arr[y]; }); if (r.empty()) ma[x] = w; else { Sut u; arr[x]->clear(); ma[x].a.clear(); } }
        else if (z == 2) { if (m[j].k != 'a') return; w = m[j]; r = attempt(l, [&]() { *arr[x] = v[j]->toArray(); }); if (r.empty()) ma[x] = w; else { Sut u; arr[x]->clear(); ma[x].a.clear(); } }
        else if (z == 3) { w = ma[x]; w.a.push_back(src); r = attempt(l, [&]() { arr[x]->push_back(cat(*v[j], q)); }); if (r.empty()) ma[x] = w; }
        else if (z == 4) { W e = ma[x]; w = ma[x]; w.a.push_back(e); r = attempt(l, [&]() { arr[x]->push_back(json::Value(*arr[x])); }); if (r.empty()) ma[x] = w; }
        else { w = ma[x]; if (w.a.empty()) return; W e = w.a[n % w.a.size()]; w.a.push_back(e); size_t i = n % ma[x].a.size(); r = attempt(l, [&]() { arr[x]->push_back((*arr[x])[(int)i]); }); if (r.empty()) ma[x] = w; }
        break; }
      case V_OBJECT: {
        fired_target = false; int z = (int)(n % 5); W w;
        if (z == 0) { json::Object* f = 0; r = attempt(l, [&]() { f = new json::Object(*obj[y]); }); if (r.empty()) { w = mo[y]; { Sut u; delete obj[x]; } obj[x] = f; mo[x] = w; } }
        else if (z == 1) { w = mo[y]; r = attempt(l, [&]() { *obj[x] = *obj[y]; }); if (r.empty()) mo[x] = w; else reset_obj(x); }
        else if (z == 2) { if (m[j].k != 'o') return; w = m[j]; r = attempt(l, [&]() { *obj[x] = v[j]->toObject(); }); if (r.empty()) mo[x] = w; else reset_obj(x); }
        else if (z == 3) { std::string key = keyof(n / 5); w = mo[x]; w.o[key] = src; r = attempt(l, [&]() { json::Value s(cat(*v[j], q)); (*obj[x])[key] = s; }); if (r.empty()) mo[x] = w; else reset_obj(x); }
        else { std::string key = keyof(n / 5); w = mo[x]; w.o[key] = mo[x]; r = attempt(l, [&]() { json::Value s(*obj[x]); (*obj[x])[key] = s; }); if (r.empty()) mo[x] = w; else reset_obj(x); }
        break; }
      case V_WRAP: { bool a = n % 2; W w = a ? ma[y] : mo[y]; if (n % 4 < 2) { fired_target = false; r = attempt(l, [&]() { fresh = a ? new json::Value(*arr[y]) : new json::Value(*obj[y]); }); if (r.empty()) replace(k, fresh, w); }
        else { r = attempt(l, [&]() { if (a) *v[k] = json::Value(*arr[y]); else *v[k] = *obj[y]; }); if (r.empty()) m[k] = w; } break; }
      case V_DEFAULT: { { Sut u; fresh = new json::Value(); } replace(k, fresh, W()); break; }
      case V_SWAPDOWN: { // assign to an array or object a nested one of its own
        fired_target = false;
        if (n % 2) {
          int at_ = -1; for (size_t i = 0; i < ma[x].a.size(); ++i) if (ma[x].a[(i + n) % ma[x].a.size()].k == 'a') { at_ = (int)((i + n) % ma[x].a.size()); break; }
          if (at_ < 0) return; W w = ma[x].a[at_]; r = attempt(l, [&]() { *arr[x] = (*arr[x])[at_].toArray(); }); if (r.empty()) ma[x] = w; else { Sut u; arr[x]->clear(); ma[x].a.clear(); }
        } else {
          std::map<std::string, W>::iterator i = mo[x].o.begin(); while (i != mo[x].o.end() && i->second.k != 'o') ++i; if (i == mo[x].o.end()) return;
          W w = i->second; std::string key = i->first; r = attempt(l, [&]() { json::Object& b = *obj[x]; b = b[key].toObject(); }); if (r.empty()) mo[x] = w; else reset_obj(x);
        }
        break; }
    }
    (void)mutate; (void)before;
    cover(mix(mix(op + 90, std::min<size_t>(m[k].nodes(), 30)), mix(r.size() * 8 + own.k, step_fired > 0)));
    if (!r.empty()) {
      if (r != "oom" || !step_fired) bad("exception", "the step raised '" + r + "'");
      if (fired_target) settle(k);
    }
    if (op != V_LOOKUP) relook(primed, 1);   // the very lookup that was the last one before the step
    check();
    if (n % 2 == 0) relook(0, probes.size());
    primed = n / 2 % 6; if (primed >= probes.size()) primed = 0; relook(primed, 1);
  }
  void reset_obj(int x) { Sut u; json::Object* f = new json::Object(); delete obj[x]; obj[x] = f; mo[x].o.clear(); }
  void go(const std::vector<Line>& ls) {
    for (int k = 0; k < N; ++k) { Sut u; v[k] = new json::Value(); }
    for (int k = 0; k < 2; ++k) { Sut u; arr[k] = new json::Array(); obj[k] = new json::Object(); ma[k].k = 'a'; mo[k].k = 'o'; }
    for (size_t i = 0; i < ls.size(); ++i) { set_op((int)i); step_fired = 0; step(ls[i]); trace(m[0].nodes() * 31 + m[1].nodes()); }
    set_op(-3); what = "end"; step_fired = 0;
    for (int k = 0; k < N; ++k) { { Sut u; delete v[k]; v[k] = new json::Value(); } m[k] = W(); check(); }
    for (int k = 0; k < 2; ++k) { Sut u; delete arr[k]; delete obj[k]; }
    for (int k = 0; k < N; ++k) { Sut u; delete v[k]; }
    record("end");
  }
};
}
static void c09_gen(Rng& r, Plan& p, bool th) {
  p.lines.push_back((r.chance(1, 3) ? NodeCfg() : NodeCfg::random(r)).line("node"));
  int n = r.range(6, th ? 120 : 60), every = r.chance(1, 2) ? 0 : r.range(2, 10);
  for (int i = 0; i < n; ++i) {
    Line l("op"); int op = i < 3 || r.chance(1, 6) ? V_NEW : (int)r.below(V_KINDS); if (op == V_DEFAULT && r.chance(1, 2)) op = V_DELEGATE;
    l.set("op", op).set("k", (long long)r.below(5)).set("j", (long long)r.below(5)).set("p", (long long)r.below(4 * 11 * 11 * 11)).set("q", (long long)r.below(4 * 11 * 11 * 11)).set("n", (long long)r.below(1000));
    if (op == V_NEW) { int d = r.range(0, 3); if (r.chance(1, 6)) { JV w = JV::Obj(); for (int z = r.range(3, 14); z > 0; --z) w.put(r.chance(1, 2) ? gen_string(r, 6) : std::string(1, (char)('a' + r.below(26))), gen_value(r, r.chance(1, 4) ? 2 : 0, 3)); JV a = JV::Arr(); a.a.push_back(w); l.hex("v", print_strict(r.chance(1, 4) ? a : w)); } else l.hex("v", print_strict(r.chance(1, 2) ? gen_array(r, d, 4) : gen_value(r, d, 4))); }
    gen_fault(r, l, every); p.lines.push_back(l);
  }
}
static Outcome c09_exec(const Plan& p) {
  Outcome o; const Line* nl = p.first("node"); NodeCfg cfg = nl ? NodeCfg::from(*nl) : NodeCfg(); std::vector<Line> ls = p.all("op"); if (ls.empty()) return o;
  return judge_history(p, cfg, [&]() { ValRun q; q.go(ls); }, o, ls.size());
}
static const Scenario c09 = { "C09", "histories of 6 to 120 operations (24 kinds: every construction route, copy, move and assignment between wholes and parts including into itself, delegation, lookups, changes deep inside containers, destruction) on a pool of five JSON values, two arrays and two objects, some steps with seeded allocation failures, in seeded memory; after every step the whole pool is compared with a model of independent trees. Non-trivial: at least two steps. Distinct: hash of the whole execution.", c09_gen, c09_exec };
static RegisterScenario r09(&c09);
