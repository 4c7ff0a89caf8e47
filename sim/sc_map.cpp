// C07 and C14: histories on string maps, JSON objects and hash tables.
#include "hist.h"
#include <adt/StringMap.h>
#include <adt/HashTable.h>
#include <adt/StringHashTable.h>
#include <set>
using namespace rt;

// ================================================================ keys
static std::string key_of(int c) {
  if (c < 0) c = -c;
  char t[24]; snprintf(t, sizeof t, "%d", c);
  switch (c % 10) {
    case 0: return std::string((size_t)(c / 10), '\0');               // all of these hash alike
    case 1: return std::string((size_t)(c / 27 % 4), '\0') + "k";      // and these
    case 2: return std::string(1, (char)c);
    case 3: return t;
    case 4: return std::string("key\0", 4) + t;
    case 5: return std::string((size_t)(200 + (c < 400 ? c * 7 : c % 400)), (char)('a' + c % 26));
    case 6: return std::string("\xff\xfe\x80", 3) + t;
    case 7: return std::string((size_t)(c % 5), ' ') + t + "\"\\\n";
    case 8: return std::string(t) + t + t + t;
    default: {   // long keys of any bytes, many of which differ from others only in one place or in length
      static const int len[] = { 1000, 2047, 2048, 4095, 4096, 4097, 5000, 6000, 8191, 8200, 255, 256, 257, 511, 512, 1023, 1024 };
      int k = c / 10; size_t n = (size_t)len[k % 17]; if (k % 17 == 9 && k / 17 % 4 == 3) n = (size_t)(65535 + k % 5); /* codes 609, 1289, .. */ unsigned x = (unsigned)(k % 17) * 77u + 5; std::string s; s.reserve(n);
      while (s.size() < n) { x = x * 1664525u + 1013904223u; s += (char)(x >> 24); }
      int v = k / 17; if (v) s[(size_t)(v % 3 == 0 ? 0 : v % 3 == 1 ? n - 1 : n / 2)] = (char)(v + 1); return s;
    }
  }
}
static std::string many(int c, long long of) { return of <= 2000 ? key_of(c % 4000) : std::to_string(c * 7919 % 1000003); }
typedef std::map<std::string, std::string> Model;
static std::string show(const Model& m) { std::string r; for (Model::const_iterator i = m.begin(); i != m.end(); ++i) r += " " + esc(i->first.substr(0, 24)) + "=" + i->second.substr(0, 24); return "{" + r + " }"; }

// ================================================================ C07
namespace {
template<class T> struct Val;
template<> struct Val<int> { static int make(int c) { return c; } static std::string view(const int& v) { int c = v; Host h; return std::to_string(c); } };
template<> struct Val<std::string> { static std::string make(int c) { Host h; return text_of_code(c); } static std::string view(const std::string& v) { std::string c(v); Host h; return "s" + tohex(host_copy(c)); } };
// a value of some kilobytes, with pieces on the heap
struct Wide { std::string s; unsigned char pad[1800]; std::string e; Wide() { memset(pad, 0, sizeof pad); }
  Wide(const Wide& o) : s(o.s), e(o.e) { memcpy(pad, o.pad, sizeof pad); }
  Wide& operator=(const Wide& o) { std::string a(o.s), b(o.e); s.swap(a); e.swap(b); memmove(pad, o.pad, sizeof pad); return *this; }   // all or nothing
  bool operator==(const Wide& o) const { return s == o.s; } };
template<> struct Val<Wide> {
  static Wide make(int c) { Wide w; std::string t = Val<std::string>::make(c); w.s = t; w.e = t; for (size_t i = 0; i < sizeof w.pad; ++i) w.pad[i] = (unsigned char)(c * 7 + i); return w; }
  static std::string view(const Wide& v) { int c = v.pad[0]; bool whole = v.s == v.e; for (size_t i = 0; i < sizeof v.pad; ++i) if (v.pad[i] != (unsigned char)(c ? c + i : v.pad[1] ? i : 0)) whole = false; std::string a(v.s); Host h; return (whole ? "w" : "broken") + std::to_string(c) + tohex(host_copy(a)); }
};
template<> struct Val<json::Value> { static json::Value make(int c) { return value_of_code(c); } static std::string view(const json::Value& v) { std::string c = canon_value(v); Host h; return host_copy(c); } };

enum { M_NEW, M_NEWN, M_COPY, M_MOVE, M_SET, M_TOUCH, M_GET, M_CGET, M_MISS, M_ERASE, M_FIND, M_EQ, M_SELF, M_MEQ, M_VALCOPY, M_ITER, M_FILL, M_DRAIN, M_KINDS };
const char* const MN[M_KINDS] = { "new", "new(n)", "copy", "move", "set", "operator[]", "at", "at const", "missing", "erase", "find", "operator=", "self-assign", "move-assign", "set from own value", "iterate", "fill", "drain" };

template<class S, class T> struct MakeMap { static S* n(size_t k) { return new S(k); } static S* move(S& o) { return new S(std::move(o)); } static void meq(S& a, S& b) { a = std::move(b); } };
template<> struct MakeMap<json::Object, json::Value> { static json::Object* n(size_t) { return new json::Object(); } static json::Object* move(json::Object& o) { return new json::Object(o); } static void meq(json::Object& a, json::Object& b) { a = b; } };

template<class S, class T> struct MapRun {
  enum { N = 3 }; typedef Val<T> X; typedef eni::StringMap<T> B;
  S* s[N]; Model m[N]; std::map<int, std::string> known; std::string dflt, what;
  void bad(const std::string& cls, const std::string& d) { violation(cls, what + ": " + d); }
  std::string viewc(int c) { std::map<int, std::string>::iterator i = known.find(c); if (i != known.end()) return i->second; std::string r; { Sut u; T t(X::make(c)); std::string v = X::view(t); Host h; r = host_copy(v); } return known[c] = r; }
  Model read(int k) {
    Model a; B& b = *s[k]; const B& cb = b; size_t n = cb.size(), seen = 0; std::string prob;
    {
      Sut u;
      typename B::const_iterator it = cb.begin(), e = cb.end();
      for (; it != e; ++it) {
        std::string key = it->key(), v = X::view(it->value());
        { Host h; std::string hk = host_copy(key); if (a.count(hk)) prob = "the iteration visits a key twice"; a[hk] = host_copy(v); }
        if (++seen > n + 4) break;
      }
      size_t again = 0; typename B::iterator w = b.begin(), x = b.end(); while (w != x && again <= n + 4) {
        typename B::iterator was(w), before = again % 2 ? w++ : ++w, cpy; cpy = was; cpy = was; if (again % 2) cpy = *&cpy; const typename B::iterator& cc = cpy;
        if ((again % 2 ? before != was : before != w) || cpy != was || (w == was) != !(w != was) || w == was || &*cpy != cpy.operator->() || &cpy->value() != &(*cc).value()) { Host h; prob = "an iterator is not where it has been put"; }
        if (again % 7 == 3 && n < 200) { typename B::const_iterator v(cpy); size_t rest = 0; while (v != e && rest <= n) { ++v; ++rest; } if (rest != seen - again) { Host h; prob = "a constant iterator made from another does not go on from there"; } }
        ++again;
      }
      if (again != seen) { Host h; prob = "the two kinds of iterators disagree"; }
    }
    if (!prob.empty()) bad("iteration", prob);
    if (seen != n || a.size() != n) bad("size", "size() is " + std::to_string(n) + ", the iteration visits " + std::to_string(a.size()) + " keys");
    if (cb.empty() != (n == 0)) bad("empty", "empty() disagrees with size()");
    return a;
  }
  void lookups(int k) {
    B& b = *s[k]; const B& cb = b;
    for (Model::const_iterator i = m[k].begin(); i != m[k].end(); ++i) {
      bool ok = true; std::string got; const std::string& key = i->first;
      { Sut u; try { typename B::const_iterator it = cb.find(key), e = cb.end(); typename B::iterator jt = b.find(key), f = b.end(); ok = it != e && jt != f; if (ok) { ok = &it->value() == &jt->value() && &cb.at(key) == &it->value() && &b.at(key) == &it->value() && &cb[key] == &it->value() && it->key() == key; std::string v = X::view(it->value()); Host h; got = host_copy(v); } } catch (...) { ok = false; } }
      if (!ok || got != i->second) bad("lookup", "looking up " + esc(key) + " in map " + std::to_string(k) + " gives '" + esc(got) + "' instead of '" + esc(i->second) + "'");
    }
  }
  void check(bool deep) {
    for (int k = 0; k < N; ++k) { Model a = read(k); if (a != m[k]) bad("content", "map " + std::to_string(k) + " holds " + show(a) + " instead of " + show(m[k])); if (deep) lookups(k); }
  }
  void step(const Line& l) {
    int op = (int)l.num("op"), k = (int)(l.num("s") % N), j = (int)(l.num("t") % N); if (op < 0 || op >= M_KINDS || k < 0 || j < 0) return;
    int kc = (int)(l.num("k") % 4000), code = (int)(l.num("c") % 1000); std::string key = key_of(kc); B& b = *s[k]; const B& cb = b;
    what = std::string(MN[op]) + " (" + l.str() + ", key " + esc(key.substr(0, 30)) + ")";
    bool had = m[k].count(key) > 0; std::string old = had ? m[k][key] : std::string(), vc = viewc(code), r; Model want = m[k]; S* fresh = 0; bool touch = false, whole = false, expect_range = false;
    if (m[k].size() > 100000 && op != M_ERASE && op != M_DRAIN && op != M_NEW) op = M_NEW;
    long long big = l.num("n"); if (big < 0 || big > 80000) big = 0;
    switch (op) {
      case M_NEW: case M_NEWN: case M_COPY: case M_MOVE:
        r = attempt(l, [&]() { fresh = op == M_NEW ? new S() : op == M_NEWN ? MakeMap<S, T>::n((size_t)(kc % 50)) : op == M_COPY ? new S(*s[j]) : MakeMap<S, T>::move(*s[j]); });
        if (r.empty()) {
          want.clear(); if (op == M_COPY || op == M_MOVE) want = m[j];
          { Sut u; delete s[k]; } s[k] = fresh;
          if (op == M_MOVE && j != k) { Sut u; S* q = new S(); delete s[j]; s[j] = q; { Host h; m[j].clear(); } }
        } else if (op == M_MOVE && j != k) { Model a = read(j); if (a != m[j]) bad("lost-on-exhaustion", "the failed move changed its source"); }
        break;
      case M_SET: touch = true; want[key] = vc; r = attempt(l, [&]() { T v(X::make(code)); b[key] = v; }); break;
      case M_TOUCH: { touch = true; if (!had) want[key] = dflt; std::string got; r = attempt(l, [&]() { T& v = b[key]; std::string g = X::view(v); Host h; got = host_copy(g); });
        if (r.empty() && got != want[key]) bad(had ? "lookup" : "new-value", std::string(had ? "the value" : "the value of a new key") + " is '" + esc(got) + "' instead of '" + esc(want[key]) + "'"); break; }
      case M_GET: case M_CGET: { std::string got; r = attempt(l, [&]() { const T& v = op == M_GET ? b.at(key) : kc % 2 ? cb.at(key) : cb[key]; std::string g = X::view(v); Host h; got = host_copy(g); }); if (!had) expect_range = true; else if (r.empty() && got != old) bad("lookup", "gives '" + esc(got) + "'"); break; }
      case M_MISS: { std::string nk = key + "\x01 no such key"; expect_range = true; r = attempt(l, [&]() { if (code % 3 == 0) b.at(nk); else if (code % 3 == 1) cb.at(nk); else cb[nk]; }); break; }
      case M_ERASE: { touch = true; bool did = false; want.erase(key); r = attempt(l, [&]() { did = b.erase(key); }); if (r.empty() && did != had) bad("erase", "erase reports " + std::string(did ? "true" : "false")); break; }
      case M_FIND: { bool found = false; r = attempt(l, [&]() { if (kc % 2) found = b.find(key) != b.end(); else found = cb.find(key) != cb.end(); }); if (r.empty() && found != had) bad("lookup", found ? "find finds an absent key" : "find does not find a present key"); break; }
      case M_EQ: whole = true; want = m[j]; r = attempt(l, [&]() { *s[k] = *s[j]; }); break;
      case M_SELF: r = attempt(l, [&]() { S& q = *s[k]; *s[k] = q; }); break;
      case M_MEQ: if (j == k) return; whole = true; want = m[j]; r = attempt(l, [&]() { MakeMap<S, T>::meq(*s[k], *s[j]); });
        if (r.empty()) { Sut u; S* q = new S(); delete s[j]; s[j] = q; { Host h; m[j].clear(); } }
        break;
      case M_VALCOPY: { if (m[k].empty()) return; Model::const_iterator i = m[k].begin(); for (int z = code % (int)m[k].size(); z > 0; --z) ++i; std::string from = i->first; if (!had && from != key) { touch = true; } touch = true; want[key] = i->second;
        r = attempt(l, [&]() { T v(b.at(from)); b[key] = v; }); break; }
      case M_FILL: { bool wrong = false;   // one time in four earlier keys leave as new ones come
        r = attempt([&]() { for (int i = 0; i < big; ++i) { std::string q; { Host h; q = many(kc + i, big); want[q] = viewc((code + i) % 1000); } T v(X::make((code + i) % 1000)); b[q] = v; if (code % 4 == 3 && i > code % 23 * (code % 23)) { bool h; { Host x; q = many(kc + i - 1 - code % 23 * (code % 23), big); h = want.erase(q) > 0; } if (b.erase(q) != h) wrong = true; } } }); if (wrong) bad("erase", "erase reports the wrong thing for one of many keys"); break; }
      case M_DRAIN: { bool wrong = false; r = attempt([&]() { for (int i = 0; i < big; ++i) { std::string q; bool h; { Host x; q = many(kc + i * (1 + code % 3), big); h = want.erase(q) > 0; } if (b.erase(q) != h) wrong = true; } }); if (wrong) bad("erase", "erase reports the wrong thing for one of many keys"); break; }
      case M_ITER: { size_t c = 0; r = attempt([&]() { for (typename B::iterator i = b.begin(), e = b.end(); i != e && c < 1000; ++i) { ++c; T keep(i->value()); i->value() = keep; } }); break; }
    }
    cover(mix(mix(op, std::min<size_t>(m[k].size(), 40)), mix(r.size() * 2 + had, step_fired > 0)));
    if (expect_range) { if (r != "range" && !(r == "oom" && step_fired)) bad("range", "looking up a missing key gave '" + r + "' instead of an out-of-range error"); r.clear(); want = m[k]; }
    if (r.empty()) m[k] = want;
    else if (r == "oom" && step_fired) {
      Model a = read(k); Model x = a, y = m[k];
      if (touch) { // the key itself: as before, as wanted, or fresh
        if (a.count(key)) { if (a[key] != old && a[key] != dflt && !(want.count(key) && a[key] == want[key])) bad("lost-on-exhaustion", "after the failure the key has '" + esc(a[key]) + "'"); if (had && a[key] != old && !(want.count(key) && a[key] == want[key])) bad("lost-on-exhaustion", "after the failure the key has lost its value"); }
        else if (had && op != M_ERASE) bad("lost-on-exhaustion", "after the failure the key is gone");
        x.erase(key); y.erase(key);
        if (x != y) bad("lost-on-exhaustion", "after the failure the map holds " + show(a) + ", before " + show(m[k]));
      } else if (whole) { if (a != m[k] && a != want) bad("lost-on-exhaustion", "after the failed assignment the map holds " + show(a) + ", before " + show(m[k])); }
      else if (a != m[k]) bad("lost-on-exhaustion", "after the failure the map holds " + show(a) + ", before " + show(m[k]));
      m[k] = a;
    } else bad("exception", "the step raised '" + r + "'");
    check(l.num("c") % 8 == 0 || step_fired || big);
  }
  void go(const std::vector<Line>& ls) {
    { Sut u; T t = T(); std::string v = X::view(t); Host h; dflt = host_copy(v); }
    for (int k = 0; k < N; ++k) { Sut u; s[k] = new S(); }
    for (size_t i = 0; i < ls.size(); ++i) { set_op((int)i); step(ls[i]); trace(m[0].size() * 31 + m[1].size()); }
    set_op(-3); what = "end"; check(true);
    for (int k = 0; k < N; ++k) { Sut u; delete s[k]; }
    record("end");
  }
};
}
static void c07_gen(Rng& r, Plan& p, bool th) {
  p.lines.push_back((r.chance(1, 3) ? NodeCfg() : NodeCfg::random(r)).line("node"));
  Line t("type"); t.set("k", (long long)r.below(3)); p.lines.push_back(t);
  bool big = r.chance(1, 10), huge = r.chance(1, 100); if (huge) { big = true; p.lines.back().set("k", 0); }
  int n = huge ? r.range(2, 4) : big ? r.range(3, 14) : r.range(4, th ? 200 : 90), every = r.chance(1, 2) ? 0 : r.range(2, 10), nk = big ? 1500 : r.chance(1, 3) ? 6 : r.chance(1, 2) ? 25 : 120, cls = r.chance(1, 2) ? (int)r.below(10) : -1;
  bool churn = r.chance(1, 3), very = !big && r.chance(1, 15);   // very long keys
  for (int i = 0; i < n; ++i) {
    Line l("op"); int op = r.chance(1, 2) ? (churn && r.chance(1, 2) ? M_ERASE : M_SET) : (int)r.below(M_KINDS); if ((op <= M_MOVE || op == M_MEQ || op == M_EQ) && r.chance(2, 3)) op = M_SET;
    if (big && (i == 0 || r.chance(1, 3))) op = i && r.chance(1, 2) ? M_DRAIN : M_FILL; else if (op >= M_FILL) op = M_SET;
    if (big && i && op < M_FILL && r.chance(1, 3)) { static const int whole[] = { M_COPY, M_MOVE, M_EQ, M_MEQ, M_SELF, M_ITER, M_NEW }; op = whole[r.below(7)]; }
    int k = (int)r.below(nk); if (cls >= 0 && r.chance(4, 5)) k = k / 10 * 10 + cls;
    if (op >= M_FILL) { if (r.chance(1, 2)) k = 0; l.set("n", (long long)(r.chance(1, 3) ? r.range(50, 200) : r.chance(2, 3) ? r.range(200, 600) : r.range(600, 1500))); if (huge) l.set("n", r.range(r.chance(1, 3) ? 33000 : 65000, 75000)); }
    if (churn && r.chance(1, 3)) k = i % nk;
    if (very && r.chance(1, 8)) k = 609 + 680 * (int)r.below(3);
    l.set("op", op).set("s", (long long)r.below(r.chance(1, 2) ? 1 : 3)).set("t", (long long)r.below(3)).set("k", k).set("c", (long long)r.below(60));
    gen_fault(r, l, every); p.lines.push_back(l);
  }
}
static Outcome c07_exec(const Plan& p) {
  Outcome o; const Line* nl = p.first("node"); NodeCfg cfg = nl ? NodeCfg::from(*nl) : NodeCfg(); const Line* tl = p.first("type"); int k = tl ? (int)tl->num("k") : 0;
  std::vector<Line> ls = p.all("op"); if (ls.empty()) return o;
  return judge_history(p, cfg, [&]() {
    switch (k) {
      case 1: { MapRun<eni::StringMap<std::string>, std::string> q; q.go(ls); break; }
      case 2: { MapRun<json::Object, json::Value> q; q.go(ls); break; }
      default: { MapRun<eni::StringMap<int>, int> q; q.go(ls); break; }
    }
  }, o, ls.size());
}
static const Scenario c07 = { "C07", "histories of 4 to 200 operations (18 kinds) on three string maps of int, std::string or JSON values (JSON objects) over adversarial keys (equal hashes, empty, binary, embedded NULs, up to several thousand bytes), many of them insertion and removal churn, one history in ten with hundreds to thousands of entries, some steps with seeded allocation failures, in seeded memory; after every step content, iteration, size and lookups are compared with a model map. Non-trivial: at least two steps. Distinct: hash of the whole execution.", c07_gen, c07_exec };
static RegisterScenario r07(&c07);

// ================================================================ C14
namespace {
struct HConst { unsigned operator()(int) const { return 7; } unsigned operator()(const std::string&) const { return 7; } };
struct HFew { unsigned operator()(int k) const { return (unsigned)k % 3; } unsigned operator()(const std::string& k) const { return (unsigned)k.size() % 3; } };
struct HId { unsigned operator()(int k) const { return (unsigned)k; } unsigned operator()(const std::string& k) const { unsigned h = 0; for (size_t i = 0; i < k.size(); ++i) h = h * 131 + (unsigned char)k[i]; return h; } };
struct HExt { unsigned operator()(int k) const { return k % 2 ? ~0u - (unsigned)k % 5 : (unsigned)k % 2 * 0x80000000u; } unsigned operator()(const std::string& k) const { return k.size() % 2 ? ~0u : 0x80000000u; } };
template<class K> struct Key;
template<> struct Key<int> { static int make(int c) { return c % 3 == 0 ? -c : c % 3 == 1 ? c : c * 17; } static std::string view(const int& v) { int c = v; Host h; return std::to_string(c); } };
template<> struct Key<std::string> { static std::string make(int c) { Host h; return key_of(c); } static std::string view(const std::string& v) { std::string c(v); Host h; return host_copy(c); } };

enum { H_NEW, H_NEWN, H_COPY, H_MOVE, H_INS, H_SET, H_ERASE, H_FIND, H_COUNT, H_CLEAR, H_REHASH, H_REHASHN, H_EQ, H_SELF, H_MEQ, H_SELFM, H_CHAIN, H_LOAD, H_FILL, H_DRAIN, H_KINDS };
const char* const HN[H_KINDS] = { "new", "new(n)", "copy", "move", "insert", "insert+set", "erase", "find", "count", "clear", "rehash()", "rehash(n)", "operator=", "self-assign", "move-assign", "self-move", "chain", "load_factor", "fill", "drain" };

// an iterator at the end is not to be read; one over all entries is not to be advanced either
template<class It> bool refuses(It e, bool all) {
  int n = 0; const It& c = e; volatile const void* p;
  try { p = &*e; } catch (const std::logic_error&) { ++n; }
  try { p = c.operator->(); } catch (const std::logic_error&) { ++n; }
  try { p = e.operator->(); } catch (const std::logic_error&) { ++n; }
  try { p = &*c; } catch (const std::logic_error&) { ++n; }
  It x(e); bool stays = true;
  try { ++x; stays = !all && x == e; } catch (const std::logic_error&) { stays = all && x == e; }
  (void)p; return n == 4 && stays;
}
template<class K, class T, class H> struct TabRun {
  enum { N = 3 }; typedef eni::HashTable<K, T, H> S; typedef Val<T> X; typedef Key<K> KX;
  S* s[N]; Model m[N]; std::map<std::string, K> keys; std::map<int, std::string> known; std::string dflt, what;
  void bad(const std::string& cls, const std::string& d) { violation(cls, what + ": " + d); }
  std::string viewc(int c) { std::map<int, std::string>::iterator i = known.find(c); if (i != known.end()) return i->second; std::string r; { Sut u; T t(X::make(c)); std::string v = X::view(t); Host h; r = host_copy(v); } return known[c] = r; }
  Model read(int k) {
    Model a; S& b = *s[k]; const S& cb = b; size_t n = cb.numOfEntries(), seen = 0; std::string prob; size_t real = 0, tomb = 0;
    {
      Sut u;
      typename S::const_iterator it = cb.begin(), e = cb.end();
      for (; it != e; ++it) {
        std::string key = KX::view(it->key()), v = X::view(it->value());
        { Host h; std::string hk = host_copy(key); if (a.count(hk)) prob = "the iteration visits an entry twice"; a[hk] = host_copy(v); }
        if (++seen > n + 4) break;
      }
      size_t again = 0; typename S::iterator w = b.begin(), x = b.end(); while (w != x && again <= n + 4) {
        typename S::iterator was(w), before = again % 2 ? w++ : ++w, cpy; cpy = was; cpy = was; if (again % 2) cpy = *&cpy; const typename S::iterator& cc = cpy;
        if ((again % 2 ? before != was : before != w) || cpy != was || (w == was) != !(w != was) || w == was || &*cpy != cpy.operator->() || &cpy->value() != &(*cc).value()) { Host h; prob = "an iterator is not where it has been put"; }
        if (again % 7 == 3 && n < 200) { typename S::const_iterator v(cpy); size_t rest = 0; while (v != e && rest <= n) { ++v; ++rest; } if (rest != seen - again) { Host h; prob = "a constant iterator made from another does not go on from there"; } }
        ++again;
      }
      if (again != seen) { Host h; prob = "the two kinds of iterators disagree"; }
      for (size_t i = 0; i < cb.numOfBuckets(); ++i) { if (cb.bucket(i).entry == S::Tombstone()) ++tomb; else if (cb.bucket(i).entry != S::EmptyBucket()) ++real; }
    }
    if (!prob.empty()) bad("iteration", prob);
    if (seen != n || a.size() != n) bad("counts", "numOfEntries() is " + std::to_string(n) + ", the iteration visits " + std::to_string(a.size()));
    if (cb.empty() != (n == 0)) bad("counts", "empty() disagrees with numOfEntries()");
    if (real != n || tomb != cb.numOfTombstones() || n + tomb > cb.numOfBuckets()) bad("counts", "the buckets hold " + std::to_string(real) + " entries and " + std::to_string(tomb) + " tombstones, the table says " + std::to_string(n) + " and " + std::to_string(cb.numOfTombstones()) + " of " + std::to_string(cb.numOfBuckets()));
    return a;
  }
  K& keyval(const std::string& v, int kc) { typename std::map<std::string, K>::iterator i = keys.find(v); if (i != keys.end()) return i->second; return keys.insert(std::make_pair(v, KX::make(kc))).first->second; }
  void chain(int k, const std::string& kv, const K& key) {
    S& b = *s[k]; const S& cb = b; bool had = m[k].count(kv) > 0; H hash; std::set<std::string> want, got; std::string first; bool same = true, twice = false, moved = false, past = false; size_t cnt = 0, steps = 0;
    if (had) { unsigned h = hash(key); for (Model::iterator i = m[k].begin(); i != m[k].end(); ++i) if (hash(keys.find(i->first)->second) == h) want.insert(i->first); }
    {
      Sut u;
      cnt = cb.count(key);
      typename S::const_chain_iterator i = cb.begin(key), e = cb.end(key);
      for (; i != e; ++i) { std::string v = KX::view(i->key()); bool eq = i->value() == i->value(); (void)eq; Host h; std::string hv = host_copy(v); if (got.empty()) first = hv; if (!got.insert(hv).second) twice = true; if (++steps > m[k].size() + 4) break; }
      size_t z = 0; typename S::chain_iterator q = b.begin(key), f = b.end(key); while (q != f && z <= steps) {
        typename S::chain_iterator was(q), before = z % 2 ? q++ : ++q, cpy; cpy = was; cpy = was; if (z % 2) cpy = *&cpy; const typename S::chain_iterator& cc = cpy;
        if (z % 3 == steps % 3) { typename S::const_chain_iterator w(cpy); size_t rest = 0; if (&w->value() != &cpy->value()) moved = true; while (w != e && rest <= steps) { ++w; ++rest; } if (rest != steps - z) moved = true; }
        if ((z % 2 ? before != was : before != q) || cpy != was || (q == was) != !(q != was) || q == was || &*cpy != cpy.operator->() || &cpy->value() != &(*cc).value()) moved = true;
        ++z;
      }
      same = z == steps;
      if (cnt % 2 == kv.size() % 2 && (!refuses(i, false) || !refuses(q, false) || !refuses(cb.end(), true) || !refuses(b.end(), true) || !refuses(typename S::iterator(), true))) past = true;
    }
    if (past) bad("end", "an iterator at the end could be read or advanced");
    if (moved) bad("chain", "an iterator is not where it has been put");
    if (!same) bad("chain", "the two kinds of chain iterators disagree");
    if (!had) { if (cnt || steps) bad("count", "an absent key has count " + std::to_string(cnt)); return; }
    if (!cnt) bad("count", "a present key has count 0");
    if (twice || steps > m[k].size()) bad("chain", "walking the entries with the key's hash visits one twice");
    if (first != kv) bad("chain", "the walk starts at " + esc(first) + " instead of the key");
    if (got != want || cnt != want.size()) bad("chain", "the walk visits " + std::to_string(got.size()) + " entries (count " + std::to_string(cnt) + "), " + std::to_string(want.size()) + " share the hash");
  }
  void lookups(int k) {
    S& b = *s[k]; const S& cb = b;
    for (Model::const_iterator i = m[k].begin(); i != m[k].end(); ++i) {
      const K& key = keys.find(i->first)->second; std::string got; bool ok;
      { Sut u; typename S::const_iterator it = cb.find(key), e = cb.end(); typename S::iterator jt = b.find(key), f = b.end(); ok = it != e && jt != f && &it->value() == &jt->value() && it->key() == key; if (ok) { std::string v = X::view(it->value()); Host h; got = host_copy(v); } }
      if (!ok || got != i->second) bad("lookup", "finding " + esc(i->first) + " gives '" + esc(got) + "' instead of '" + esc(i->second) + "'");
    }
  }
  void check(bool deep) { for (int k = 0; k < N; ++k) { Model a = read(k); if (a != m[k]) bad("content", "table " + std::to_string(k) + " holds " + show(a) + " instead of " + show(m[k])); if (deep) lookups(k); } }
  void step(const Line& l) {
    int op = (int)l.num("op"), k = (int)(l.num("s") % N), j = (int)(l.num("t") % N); if (op < 0 || op >= H_KINDS || k < 0 || j < 0) return;
    int kc = (int)(l.num("k") % 4000), code = (int)(l.num("c") % 1000); if (kc < 0) kc = -kc;
    std::string kv; { K t(KX::make(kc)); kv = KX::view(t); } K& key = keyval(kv, kc); S& b = *s[k]; const S& cb = b;
    what = std::string(HN[op]) + " (" + l.str() + ")";
    bool had = m[k].count(kv) > 0; std::string old = had ? m[k][kv] : std::string(), vc = viewc(code), r; Model want = m[k]; S* fresh = 0; bool touch = false, whole = false;
    if (m[k].size() > 100000 && op != H_ERASE && op != H_DRAIN && op != H_CLEAR) op = H_CLEAR;
    long long big = l.num("n"); if (big < 0 || big > 80000) big = 0; int lim = big > 2000 ? 100000 : 4000;
    switch (op) {
      case H_NEW: case H_NEWN: case H_COPY: case H_MOVE:
        r = attempt(l, [&]() { fresh = op == H_NEW ? new S() : op == H_NEWN ? new S((size_t)(kc % 7 < 3 ? kc % 4 : kc % 300)) : op == H_COPY ? new S(*s[j]) : new S(std::move(*s[j])); });
        if (r.empty()) {
          want.clear(); if (op == H_COPY || op == H_MOVE) want = m[j];
          if (op == H_MOVE) { m[j].clear(); Model a = read(j); if (!a.empty()) bad("moved-from", "a moved-from table holds " + show(a)); }
          { Sut u; delete s[k]; } s[k] = fresh;
        }
        break;
      case H_INS: case H_SET: { touch = true; if (op == H_SET) want[kv] = vc; else if (!had) want[kv] = dflt; bool ex = code % 2; std::string gk, gv;
        r = attempt(l, [&]() { typename S::entry_type* e = b.insert(key, ex); if (op == H_SET) { T v(X::make(code)); if (code % 3) e->setValue(v); else e->value() = v; } std::string a = KX::view(e->key()), c = X::view(e->value()); Host h; gk = host_copy(a); gv = host_copy(c); });
        if (r.empty()) { if (ex != had) bad("insert", std::string("insert reports that the key was ") + (ex ? "there" : "absent")); if (gk != kv || gv != want[kv]) bad("insert", "the entry inserted has key " + esc(gk) + " and value " + esc(gv)); } break; }
      case H_ERASE: { touch = true; bool did = false; want.erase(kv); r = attempt(l, [&]() { did = b.erase(key); }); if (r.empty() && did != had) bad("erase", std::string("erase reports ") + (did ? "true" : "false")); break; }
      case H_FIND: { bool f = false; r = attempt(l, [&]() { if (code % 2) f = b.find(key) != b.end(); else f = cb.find(key) != cb.end(); }); if (r.empty() && f != had) bad("lookup", f ? "find finds an absent key" : "find does not find a present key"); break; }
      case H_COUNT: case H_CHAIN: chain(k, kv, key); break;
      case H_CLEAR: want.clear(); r = attempt(l, [&]() { b.clear(); }); break;
      case H_REHASH: r = attempt(l, [&]() { b.rehash(); }); break;
      case H_REHASHN: {
        // a size with room for the elements is taken as it is, a smaller one is raised
        size_t full = m[k].size() + 1, z = kc % 3 == 0 ? (size_t)(kc / 3) % full : m[k].size() * 4 / 3 + 1 + (size_t)(kc % 40);
        r = attempt(l, [&]() { b.rehash(z); });
        if (r.empty() && ((z >= full && cb.numOfBuckets() != z) || cb.numOfBuckets() < full || cb.numOfTombstones())) bad("counts", "after rehash(" + std::to_string(z) + ") the table of " + std::to_string(m[k].size()) + " has " + std::to_string(cb.numOfBuckets()) + " buckets and " + std::to_string(cb.numOfTombstones()) + " tombstones");
        break;
      }
      case H_FILL: { bool wrong = false; r = attempt([&]() { for (int i = 0; i < big; ++i) { int kk = (kc + i) % lim; K q(KX::make(kk)); std::string qv = KX::view(q); bool h, ex = false; { Host x; std::string hv = host_copy(qv); keyval(hv, kk); h = want.count(hv) > 0; want[hv] = viewc((code + i) % 1000); } T v(X::make((code + i) % 1000)); b.insert(q, ex)->setValue(v); if (ex != h) wrong = true; if (code % 4 == 3 && i > code % 23 * (code % 23)) { K o(KX::make((kc + i - 1 - code % 23 * (code % 23)) % lim)); std::string ov = KX::view(o); bool g; { Host x; g = want.erase(host_copy(ov)) > 0; } if (b.erase(o) != g) wrong = true; } } }); if (wrong) bad("insert", "insert reports the wrong thing for one of many keys"); break; }
      case H_DRAIN: { bool wrong = false; r = attempt([&]() { for (int i = 0; i < big; ++i) { int kk = (kc + i * (1 + code % 3)) % lim; K q(KX::make(kk)); std::string qv = KX::view(q); bool h; { Host x; h = want.erase(host_copy(qv)) > 0; } if (b.erase(q) != h) wrong = true; } }); if (wrong) bad("erase", "erase reports the wrong thing for one of many keys"); break; }
      case H_EQ: whole = true; want = m[j]; r = attempt(l, [&]() { *s[k] = *s[j]; }); break;
      case H_SELF: r = attempt(l, [&]() { S& q = *s[k]; *s[k] = q; }); break;
      case H_SELFM: r = attempt(l, [&]() { S& q = *s[k]; *s[k] = std::move(q); }); break;
      case H_MEQ: whole = true; want = m[j]; r = attempt(l, [&]() { *s[k] = std::move(*s[j]); }); if (r.empty() && j != k) m[j].clear(); break;
      case H_LOAD: { if (!cb.numOfBuckets()) break; float f = cb.load_factor(), e = (float)cb.numOfEntries() / (float)cb.numOfBuckets(); if (f != e) bad("counts", "load_factor() disagrees with the counts"); break; }
    }
    cover(mix(mix(op + 50, std::min<size_t>(m[k].size(), 40)), mix(r.size() * 2 + had, step_fired > 0)));
    if (r.empty()) m[k] = want;
    else if (r == "oom" && step_fired) {
      Model a = read(k), x = a, y = m[k];
      if (touch) {
        if (a.count(kv)) { if (had ? a[kv] != old && !(want.count(kv) && a[kv] == want[kv]) : a[kv] != dflt && a[kv] != want[kv]) bad("lost-on-exhaustion", "after the failure the key has '" + esc(a[kv]) + "'"); }
        else if (had && op != H_ERASE) bad("lost-on-exhaustion", "after the failure the key is gone");
        x.erase(kv); y.erase(kv);
      } else if (whole && a == want) y = x;
      if (x != y) bad("lost-on-exhaustion", "after the failure the table holds " + show(a) + ", before " + show(m[k]));
      m[k] = a;
    } else bad("exception", "the step raised '" + r + "'");
    check(l.num("c") % 8 == 0 || step_fired || big);
    if (l.num("c") % 5 == 0) chain(k, kv, key);
  }
  void go(const std::vector<Line>& ls) {
    { Sut u; T t = T(); std::string v = X::view(t); Host h; dflt = host_copy(v); }
    for (int k = 0; k < N; ++k) { Sut u; s[k] = new S(); }
    for (size_t i = 0; i < ls.size(); ++i) { set_op((int)i); step(ls[i]); trace(m[0].size() * 31 + m[1].size()); }
    set_op(-3); what = "end"; check(true);
    for (int k = 0; k < N; ++k) { Sut u; delete s[k]; }
    record("end");
  }
};
template<class K, class T> void tab(int h, const std::vector<Line>& ls) {
  switch (h) {
    case 0: { TabRun<K, T, HConst> q; q.go(ls); break; }
    case 1: { TabRun<K, T, HFew> q; q.go(ls); break; }
    case 2: { TabRun<K, T, HExt> q; q.go(ls); break; }
    default: { TabRun<K, T, HId> q; q.go(ls); break; }
  }
}
}
static void c14_gen(Rng& r, Plan& p, bool th) {
  p.lines.push_back((r.chance(1, 3) ? NodeCfg() : NodeCfg::random(r)).line("node"));
  Line t("type"); t.set("k", (long long)(r.chance(1, 8) ? 3 : r.below(3))).set("h", (long long)r.below(4)); p.lines.push_back(t);
  bool big = r.chance(1, 10), huge = r.chance(1, 120); if (huge) { big = true; p.lines.back().set("k", 0).set("h", 3); } else if (big && r.chance(1, 2)) p.lines.back().set("h", 3);
  int n = huge ? r.range(2, 4) : big ? r.range(3, 14) : r.range(4, th ? 200 : 90), every = r.chance(1, 2) ? 0 : r.range(2, 10), nk = big ? 1500 : r.chance(1, 3) ? 5 : r.chance(1, 2) ? 25 : 150; bool churn = r.chance(1, 2);
  for (int i = 0; i < n; ++i) {
    Line l("op"); int op = r.chance(3, 5) ? (churn && r.chance(1, 2) ? H_ERASE : r.chance(1, 2) ? H_SET : H_INS) : (int)r.below(H_KINDS);
    if ((op <= H_MOVE || op == H_CLEAR || op == H_EQ || op == H_MEQ) && r.chance(3, 4)) op = H_SET;
    if (op >= H_REHASH && op <= H_REHASHN && r.chance(1, 2)) op = H_ERASE;
    if (big && (i == 0 || r.chance(1, 3))) op = i && r.chance(1, 2) ? H_DRAIN : H_FILL; else if (op >= H_FILL) op = H_SET;
    if (big && i && op < H_FILL && r.chance(1, 3)) { static const int whole[] = { H_COPY, H_MOVE, H_EQ, H_MEQ, H_SELF, H_CLEAR, H_CLEAR, H_REHASH, H_REHASHN, H_SELFM }; op = whole[r.below(10)]; }
    int k = (int)r.below(nk); if (churn && r.chance(1, 3)) k = i / 2 % nk;
    if (op >= H_FILL) { if (r.chance(1, 2)) k = 0; l.set("n", (long long)(r.chance(1, 3) || p.lines[1].num("h") < 3 ? r.range(50, 250) : r.chance(1, 2) ? r.range(200, 600) : r.range(600, 1500))); if (huge) l.set("n", r.range(r.chance(1, 3) ? 33000 : 65000, 75000)); }
    l.set("op", op).set("s", (long long)r.below(r.chance(1, 2) ? 1 : 3)).set("t", (long long)r.below(3)).set("k", k).set("c", (long long)r.below(60));
    gen_fault(r, l, every); p.lines.push_back(l);
  }
}
static Outcome c14_exec(const Plan& p) {
  Outcome o; const Line* nl = p.first("node"); NodeCfg cfg = nl ? NodeCfg::from(*nl) : NodeCfg(); const Line* tl = p.first("type"); int k = tl ? (int)tl->num("k") : 0, h = tl ? (int)tl->num("h") : 0;
  std::vector<Line> ls = p.all("op"); if (ls.empty()) return o;
  return judge_history(p, cfg, [&]() {
    switch (k) {
      case 1: tab<std::string, std::string>(h, ls); break;
      case 2: tab<int, std::string>(h, ls); break;
      case 3: tab<int, Wide>(h, ls); break;
      default: tab<int, int>(h, ls); break;
    }
  }, o, ls.size());
}
static const Scenario c14 = { "C14", "histories of 4 to 200 operations (20 kinds) on three hash tables with int or string keys and int, string or kilobyte values and a constant, three-valued, extreme-valued or spreading hash function, many of them insertion and removal churn, one history in ten with hundreds to thousands of entries, some steps with seeded allocation failures, in seeded memory; after every step content, iteration, lookups, chains and the entry, bucket and tombstone counts are compared with a model map. Non-trivial: at least two steps. Distinct: hash of the whole execution.", c14_gen, c14_exec };
static RegisterScenario r14(&c14);
