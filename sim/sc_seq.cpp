// C08: histories on vectors and JSON arrays.
#include "hist.h"
#include <adt/Vector.h>
#include <algorithm>
using namespace rt;
typedef std::vector<std::string> Seq;

namespace {
template<class T> struct Tr;
template<> struct Tr<int> {
  static int make(int c) { return c; }
  static std::string view(const int& v) { int c = v; Host h; return std::to_string(c); }
  static long live() { return -1; } static bool broken() { return false; }
};
template<> struct Tr<std::string> {
  static std::string make(int c) { Host h; std::string s = text_of_code(c); return s; }
  static std::string view(const std::string& v) { std::string c(v); Host h; return "s" + tohex(host_copy(c)); }
  static long live() { return -1; } static bool broken() { return false; }
};
template<> struct Tr<json::Value> {
  static json::Value make(int c) { return value_of_code(c); }
  static std::string view(const json::Value& v) { std::string c = canon_value(v); Host h; return host_copy(c); }
  static long live() { return -1; } static bool broken() { return false; }
};
template<class M> struct TrM {
  static M make(int c) { return M(c); }
  static std::string view(const M& v) { bool s = v.sound(); int c = v.code(); Host h; return s ? std::to_string(c) : "unsound"; }
  static long live() { return M::live; } static bool broken() { return M::broken; }
};
template<> struct Tr<Tracked> : TrM<Tracked> {};
template<> struct Tr<Movable> : TrM<Movable> {};

enum { S_NEW, S_NEWN, S_NEWNV, S_NEWSTD, S_COPY, S_NEWIL, S_PUSH, S_PUSHOWN, S_EMPL, S_EMPLOWN, S_EMPLDEF, S_POP, S_INS, S_INSOWN, S_INSN, S_INSNOWN, S_INSRANGE, S_INSIL,
       S_ITINS, S_ITINSN, S_ITINSRANGE, S_ITINSIL, S_ERASE, S_ERASER, S_ITERASE, S_ITERASER, S_RESIZE, S_RESIZEV, S_RESIZEOWN, S_RESERVE, S_SHRINK, S_ASSIGN, S_ASSIGNOWN, S_ASSIGNR, S_ASSIGNIL,
       S_EQ, S_EQIL, S_SELF, S_SWAP, S_CLEAR, S_AT, S_ATBAD, S_INSBAD, S_ERASEBAD, S_SET, S_SETOWN, S_ENDS, S_HUGE, S_WALK, S_KINDS };
const char* const NAMES[S_KINDS] = { "new", "new(n)", "new(n,v)", "new(std)", "copy", "new{}", "push_back", "push_back(own)", "emplace_back", "emplace_back(own)", "emplace_back()", "pop_back", "insert", "insert(own)", "insert(n)", "insert(n,own)", "insert(range)", "insert{}",
  "insert(it)", "insert(it,n)", "insert(it,range)", "insert(it,{})", "erase", "erase(range)", "erase(it)", "erase(it,it)", "resize", "resize(v)", "resize(own)", "reserve", "shrink_to_fit", "assign", "assign(own)", "assign(range)", "assign{}",
  "operator=", "operator={}", "self-assign", "swap", "clear", "at", "at(bad)", "insert(bad)", "erase(bad)", "set", "set(own)", "ends", "huge", "walk" };

template<class V, class T> struct Make {
  static V* plain() { return new V(); }
  static V* n(size_t k) { return new V(k); }
  static V* nv(size_t k, const T& v) { return new V(k, v); }
  static V* std_(const std::vector<T>& v) { return new V(v); }
  static V* il(const T& a, const T& b, const T& c) { return new V{ a, b, c }; }
};
template<> struct Make<json::Array, json::Value> {   // has no such constructors: same content by other means
  typedef json::Array V; typedef json::Value T;
  static V* plain() { return new V(); }
  static V* n(size_t k) { std::unique_ptr<V> p(new V()); p->resize(k); return p.release(); }
  static V* nv(size_t k, const T& v) { std::unique_ptr<V> p(new V()); p->assign(k, v); return p.release(); }
  static V* std_(const std::vector<T>& v) { std::unique_ptr<V> p(new V()); eni::Vector<T> w(v); static_cast<eni::Vector<T>&>(*p) = w; return p.release(); }
  static V* il(const T& a, const T& b, const T& c) { std::unique_ptr<V> p(new V()); p->assign({ a, b, c }); return p.release(); }
};

template<class V, class T> struct Run {
  enum { N = 3 };
  typedef eni::Vector<T> B; typedef Tr<T> X;
  V* s[N]; Seq m[N]; std::map<int, std::string> known; std::string dflt; long base; std::string what;
  std::string viewc(int c) {
    std::map<int, std::string>::iterator i = known.find(c); if (i != known.end()) return i->second;
    std::string r; { Sut u; T t(X::make(c)); std::string v = X::view(t); Host h; r = host_copy(v); }
    return known[c] = r;
  }
  void bad(const std::string& cls, const std::string& d) { violation(cls, what + ": " + d); }
  Seq read(int k) {   // through the constant and the changeable iterators and by index
    Seq a; B& b = *s[k]; const B& cb = b; size_t n = cb.size(), i = 0; bool agree = true; size_t cap = cb.capacity();
    {
      Sut u;
      typename B::const_iterator it = cb.begin(), e = cb.end();
      for (; it != e; ++it) { std::string v = X::view(*it); { Host h; a.push_back(host_copy(v)); } if (++i > n + 4) break; }
      i = 0;
      for (typename B::iterator w = b.begin(), x = b.end(); w != x && i < a.size(); ++w, ++i) if (&*w != &b[i] || &cb[i] != &b[i] || &cb.at(i) != &b[i] || &b.at(i) != &b[i]) agree = false;
    }
    if (a.size() != n) bad("iteration", "the iterators walk " + std::to_string(a.size()) + " elements of " + std::to_string(n));
    if (!agree || i != n) bad("iteration", "iterators and indices disagree");
    if (cap < n) bad("capacity", "the capacity is " + std::to_string(cap) + " with " + std::to_string(n) + " elements");
    bool em; { Sut u; em = cb.empty(); } if (em != (n == 0)) bad("empty", "empty() disagrees with size()");
    return a;
  }
  static std::string show(const Seq& a) { std::string r = "["; for (size_t i = 0; i < a.size(); ++i) r += (i ? "," : "") + a[i]; return esc(r + "]"); }
  void check() {
    size_t total = 0;
    for (int k = 0; k < N; ++k) {
      Seq a = read(k); total += a.size();
      if (a != m[k]) bad("content", "vector " + std::to_string(k) + " holds " + show(a) + " instead of " + show(m[k]));
    }
    if (X::broken()) bad("element-life", "an element was used before its construction, after its destruction or moved without its constructor");
    if (X::live() >= 0 && X::live() - base != (long)total) bad("element-life", std::to_string(X::live() - base) + " elements are alive, the vectors hold " + std::to_string(total));
  }
  // the step failed with out-of-memory: k keeps its first `keep` elements
  void failed(int k, size_t keep) {
    Seq a = read(k);
    if (a.size() < keep) bad("lost-on-exhaustion", "after the failure vector " + std::to_string(k) + " holds " + show(a) + " instead of " + show(m[k]));
    for (size_t i = 0; i < keep; ++i) if (a[i] != m[k][i]) bad("lost-on-exhaustion", "after the failure vector " + std::to_string(k) + " holds " + show(a) + " instead of " + show(m[k]));
    for (const std::string& v : a) if (v == "unsound") bad("element-life", "after the failure an element is not alive");
    m[k] = a;
  }
  void step(const Line& l) {
    int op = (int)l.num("op"), k = (int)(l.num("s") % N), j = (int)(l.num("t") % N); if (op < 0 || op >= S_KINDS || k < 0 || j < 0) return;
    what = std::string(NAMES[op]) + " (" + l.str() + ")";
    long long A = l.num("a"), Bn = l.num("b"), C = l.num("c"); if (A < 0) A = -A; if (Bn < 0) Bn = -Bn; if (C < 0) C = -C;
    size_t n = m[k].size(); B& v = *s[k]; const B& cw = *s[j]; int code = (int)(C % 1000);
    long long big = l.num("n"); if (big < 0 || big > 70000) big = 0; size_t at = n ? A % (n + 1) : 0, own = n ? Bn % n : 0, cnt = big ? big : Bn % 9, f = 0, t = 0;
    { size_t z = m[j].size(); f = z ? A % (z + 1) : 0; t = z ? Bn % (z + 1) : 0; if (f > t) std::swap(f, t); }
    if (n > 150000 && op != S_CLEAR && op != S_RESIZE && op != S_ERASER && op != S_ITERASER) op = S_CLEAR;
    std::string r; Seq want = m[k]; size_t keep = 0; bool isrange = false, expect_range = false; V* fresh = 0; (void)isrange;
    std::string vc; if (op != S_AT) vc = viewc(code);
    switch (op) {
      case S_NEW: case S_NEWN: case S_NEWNV: case S_NEWSTD: case S_COPY: case S_NEWIL: {
        r = attempt(l, [&]() {
          if (op == S_NEW) fresh = Make<V, T>::plain();
          else if (op == S_NEWN) fresh = Make<V, T>::n(cnt);
          else if (op == S_NEWNV) { T x(X::make(code)); fresh = Make<V, T>::nv(cnt, x); }
          else if (op == S_NEWSTD) { std::vector<T> x; for (size_t i = 0; i < cnt; ++i) x.push_back(X::make(code + (int)i)); fresh = Make<V, T>::std_(x); }
          else if (op == S_COPY) { fresh = new V(*s[j]); }
          else { T a(X::make(code)), b(X::make(code + 1)), c(X::make(code + 2)); fresh = Make<V, T>::il(a, b, c); }
        });
        if (r.empty()) {
          want.clear();
          if (op == S_NEWN) want.assign(cnt, dflt); else if (op == S_NEWNV) want.assign(cnt, vc);
          else if (op == S_NEWSTD) for (size_t i = 0; i < cnt; ++i) want.push_back(viewc(code + (int)i));
          else if (op == S_COPY) want = m[j];
          else if (op == S_NEWIL) { want.push_back(vc); want.push_back(viewc(code + 1)); want.push_back(viewc(code + 2)); }
          { Sut u; delete s[k]; } s[k] = fresh;
        } else keep = n;
        break;
      }
      case S_PUSH: if (big) { keep = n; for (int i = 0; i < big; ++i) want.push_back(viewc((code + i) % 1000)); r = attempt(l, [&]() { for (int i = 0; i < big; ++i) { T x(X::make((code + i) % 1000)); v.push_back(x); } }); break; }
        keep = n; want.push_back(vc); r = attempt(l, [&]() { T x(X::make(code)); v.push_back(x); }); break;
      case S_PUSHOWN: if (!n) return; keep = n; want.push_back(m[k][own]); r = attempt(l, [&]() { v.push_back(v.at(own)); }); break;
      case S_EMPL: keep = n; want.push_back(vc); r = attempt(l, [&]() { v.emplace_back(X::make(code)); }); break;
      case S_EMPLOWN: if (!n) return; keep = n; want.push_back(m[k][own]); r = attempt(l, [&]() { v.emplace_back(v.at(own)); }); break;
      case S_EMPLDEF: keep = n; want.push_back(dflt); r = attempt(l, [&]() { v.emplace_back(); }); break;
      case S_POP: { if (!n) return; std::string got; r = attempt(l, [&]() { T x(v.pop_back()); Line none("n"); uint64_t q = 0; (void)q; std::string g = X::view(x); Host h; got = host_copy(g); });
        want.pop_back(); if (r.empty() && got != m[k].back()) bad("pop", "pop_back returned " + esc(got) + " instead of " + esc(m[k].back())); break; }
      case S_INS: case S_INSOWN: case S_ITINS: { if (op == S_INSOWN && !n) return; size_t ret = at; std::string x = op == S_INSOWN ? m[k][own] : vc; want.insert(want.begin() + at, x); if (at == n) keep = n;
        r = attempt(l, [&]() { if (op == S_INS) { T y(X::make(code)); v.insert(at, y); } else if (op == S_INSOWN) v.insert(at, v.at(own)); else { T y(X::make(code)); typename B::iterator i = v.insert(v.begin() + at, y); ret = i - v.begin(); } });
        if (r.empty() && ret != at) bad("iterator", "insert returned an iterator to position " + std::to_string(ret) + " instead of " + std::to_string(at)); break; }
      case S_INSN: case S_INSNOWN: case S_ITINSN: { if (op == S_INSNOWN && !n) return; size_t ret = at; std::string x = op == S_INSNOWN ? m[k][own] : vc; size_t c9 = big ? big : C % 7; want.insert(want.begin() + at, c9, x); if (at == n) keep = n;
        r = attempt(l, [&]() { if (op == S_INSN) { T y(X::make(code)); v.insert(at, c9, y); } else if (op == S_INSNOWN) v.insert(at, c9, v.at(own)); else { T y(X::make(code)); typename B::iterator i = v.insert(v.begin() + at, c9, y); ret = i - v.begin(); } });
        if (r.empty() && ret != at) bad("iterator", "insert returned an iterator to a wrong position"); break; }
      case S_INSRANGE: case S_ITINSRANGE: { size_t p = n ? C % (n + 1) : 0, ret = p; Seq part(m[j].begin() + f, m[j].begin() + t); want.insert(want.begin() + p, part.begin(), part.end()); if (p == n) keep = n;
        r = attempt(l, [&]() { typename B::const_iterator a = cw.begin() + f, b = cw.begin() + t; if (op == S_INSRANGE) v.insert(p, a, b); else { typename B::iterator i = v.insert(v.begin() + p, a, b); ret = i - v.begin(); } });
        if (r.empty() && ret != p) bad("iterator", "insert returned an iterator to a wrong position"); break; }
      case S_INSIL: case S_ITINSIL: { size_t ret = at; want.insert(want.begin() + at, viewc(code + 1)); want.insert(want.begin() + at, vc); if (at == n) keep = n;
        r = attempt(l, [&]() { T a(X::make(code)), b(X::make(code + 1)); if (op == S_INSIL) v.insert(at, { a, b }); else { typename B::iterator i = v.insert(v.begin() + at, { a, b }); ret = i - v.begin(); } });
        if (r.empty() && ret != at) bad("iterator", "insert returned an iterator to a wrong position"); break; }
      case S_ERASE: case S_ITERASE: { if (!n) return; size_t ret = own; want.erase(want.begin() + own); r = attempt(l, [&]() { if (op == S_ERASE) v.erase(own); else { typename B::iterator i = v.erase(v.begin() + own); ret = i - v.begin(); } });
        if (r.empty() && ret != own) bad("iterator", "erase returned an iterator to a wrong position"); break; }
      case S_ERASER: case S_ITERASER: { size_t a = A % (n + 1), b = Bn % (n + 1); if (a > b) std::swap(a, b); if (a == b) return; size_t ret = a; want.erase(want.begin() + a, want.begin() + b);
        r = attempt(l, [&]() { if (op == S_ERASER) v.erase(a, b); else { typename B::iterator i = v.erase(v.begin() + a, v.begin() + b); ret = i - v.begin(); } });
        if (r.empty() && ret != a) bad("iterator", "erase returned an iterator to a wrong position"); break; }
      case S_RESIZE: { size_t z = big ? big : A % 24; keep = std::min(n, z); want.resize(z, dflt); r = attempt(l, [&]() { v.resize(z); }); break; }
      case S_RESIZEV: { size_t z = big ? big : A % 24; keep = std::min(n, z); want.resize(z, vc); r = attempt(l, [&]() { T x(X::make(code)); v.resize(z, x); }); break; }
      case S_RESIZEOWN: { if (!n) return; size_t z = n + A % 12; keep = n; want.resize(z, m[k][own]); r = attempt(l, [&]() { v.resize(z, v.at(own)); }); break; }
      case S_RESERVE: { size_t z = big ? big : A % 64; keep = n; r = attempt(l, [&]() { v.reserve(z); }); if (r.empty() && v.capacity() < z) bad("capacity", "reserve left a smaller capacity"); break; }
      case S_SHRINK: keep = n; r = attempt(l, [&]() { v.shrink_to_fit(); }); break;
      case S_ASSIGN: want.assign(cnt, vc); r = attempt(l, [&]() { T x(X::make(code)); v.assign(cnt, x); }); break;
      case S_ASSIGNOWN: if (!n) return; want.assign(cnt, m[k][own]); r = attempt(l, [&]() { v.assign(cnt, v.at(own)); }); break;
      case S_ASSIGNR: want = Seq(m[j].begin() + f, m[j].begin() + t); r = attempt(l, [&]() { typename B::const_iterator a = cw.begin() + f, b = cw.begin() + t; v.assign(a, b); }); break;
      case S_ASSIGNIL: want.clear(); want.push_back(vc); want.push_back(viewc(code + 3)); r = attempt(l, [&]() { T a(X::make(code)), b(X::make(code + 3)); v.assign({ a, b }); }); break;
      case S_EQ: want = m[j]; if (j == k) keep = n; r = attempt(l, [&]() { *s[k] = *s[j]; }); break;
      case S_SELF: keep = n; r = attempt(l, [&]() { V& q = *s[k]; *s[k] = q; }); break;
      case S_EQIL: want.clear(); want.push_back(vc); want.push_back(viewc(code + 1)); want.push_back(vc); r = attempt(l, [&]() { T a(X::make(code)), b(X::make(code + 1)); v = { a, b, a }; }); break;
      case S_SWAP: r = attempt(l, [&]() { v.swap(*s[j]); }); if (r.empty()) { std::swap(m[k], m[j]); want = m[k]; } else keep = n; break;
      case S_CLEAR: want.clear(); r = attempt(l, [&]() { v.clear(); }); break;
      case S_AT: { if (!n) return; std::string got; r = attempt([&]() { const B& cv = v; std::string g = X::view(cv.at(own)); Host h; got = host_copy(g); }); if (got != m[k][own]) bad("at", "at(" + std::to_string(own) + ") gives " + esc(got)); break; }
      case S_ATBAD: { size_t i = A % 3 == 0 ? n : A % 3 == 1 ? n + Bn : ~(size_t)0 - (size_t)(Bn % 5); expect_range = true; r = attempt(l, [&]() { const B& cv = v; if (C % 2) v.at(i); else cv.at(i); }); break; }
      case S_INSBAD: { size_t i = A % 3 == 0 ? n + 1 : A % 3 == 1 ? n + 1 + Bn : ~(size_t)0 - (size_t)(Bn % 5); expect_range = true; r = attempt(l, [&]() { T x(X::make(code)); if (C % 3 == 0) v.insert(i, x); else if (C % 3 == 1) v.insert(i, 2, x); else v.insert(i, { x }); }); break; }
      case S_ERASEBAD: { size_t i = A % 3 == 0 ? n : A % 3 == 1 ? n + Bn : ~(size_t)0 - 1 - (size_t)(Bn % 5); expect_range = true; r = attempt(l, [&]() { if (C % 2) v.erase(i); else v.erase(own, n + 1 + (size_t)(Bn % 3)); }); break; }
      case S_SET: if (!n) return; want[own] = vc; r = attempt(l, [&]() { T x(X::make(code)); if (A % 2) v[own] = x; else v.at(own) = x; }); if (!r.empty()) keep = own; break;
      case S_SETOWN: { if (!n) return; size_t o = A % n; want[own] = m[k][o]; r = attempt(l, [&]() { v[own] = v[o]; }); if (!r.empty()) keep = own; break; }
      case S_ENDS: { if (!n) return; std::string x, y, z; r = attempt([&]() { std::string g = X::view(v.front()), q = X::view(v.back()), w = X::view(v.data()[own]); Host h; x = host_copy(g); y = host_copy(q); z = host_copy(w); });
        if (x != m[k].front() || y != m[k].back() || z != m[k][own]) bad("ends", "front, back or data disagree with the content"); break; }
      case S_HUGE: { static const size_t big[] = { (size_t)1 << 40, (size_t)1 << 60, (size_t)1 << 61, ((size_t)1 << 62) + 1, ((size_t)1 << 63) + 1, ~(size_t)0 }; size_t z = big[A % 6]; keep = n;
        r = attempt(l, [&]() { if (C % 2) v.reserve(z); else v.resize(z); });
        if (r.empty() || (r != "oom" && r != "length")) bad("huge", "asking for " + std::to_string(z) + " elements gave '" + r + "'"); r = "oom"; step_fired = 1; break; }
      case S_WALK: { // pointer arithmetic of the iterators
        bool ok = true; long d = 0;
        r = attempt([&]() {
          typename B::iterator b = v.begin(), e = v.end(), i = b + at, q = i; d = e - b;
          ok = i - b == (long)at && !(i < b) && b <= i && i >= b && (at ? b < i && i > b : !(b < i)) && (i == e) == (at == n) && !((i != e) == (at == n));
          if (at < n) { ok = ok && &*(q++) == v.data() + at && q - b == (long)at + 1 && &*(q--) == v.data() + at + (at + 1 < n ? 1 : 1) && q == i && &*i == v.data() + at && &b[at] == v.data() + at; ++q; --q; q += 1; q -= 1; ok = ok && q == i && (q - at) == b; typename B::iterator w = e; w = q; ok = ok && w == i && &*w.operator->() == v.data() + at; }
        });
        if (!ok || d != (long)n) bad("iterator", "iterator arithmetic disagrees with the indices"); break; }
    }
    cover(mix(mix(op, std::min<size_t>(n, 20)), mix(r.size(), step_fired > 0)));
    if (expect_range) {
      if (r != "range" && !(r == "oom" && step_fired)) bad("range", "an index out of range gave '" + r + "' instead of an out-of-range error");
      check(); return;
    }
    if (r.empty()) { m[k] = want; check(); return; }
    if (r == "oom" && step_fired) { failed(k, keep); check(); return; }
    bad("exception", "the step raised '" + r + "'");
  }
  void go(const std::vector<Line>& ls) {
    { Sut u; T t = T(); std::string v = X::view(t); Host h; dflt = host_copy(v); }
    base = X::live() < 0 ? 0 : X::live();
    for (int k = 0; k < N; ++k) { Sut u; s[k] = new V(); }
    for (size_t i = 0; i < ls.size(); ++i) { set_op((int)i); step(ls[i]); trace(m[0].size() * 31 + m[1].size()); }
    set_op(-3); what = "end";
    for (int k = 0; k < N; ++k) { Sut u; delete s[k]; }
    if (X::broken() || (X::live() >= 0 && X::live() != base)) bad("element-life", "after the vectors are gone " + std::to_string(X::live() - base) + " elements are alive");
    record("end");
  }
};
}

static void c08_gen(Rng& r, Plan& p, bool th) {
  p.lines.push_back((r.chance(1, 3) ? NodeCfg() : NodeCfg::random(r)).line("node"));
  Line t("type"); t.set("k", (long long)r.below(6)); p.lines.push_back(t);
  bool big = r.chance(1, 10), huge = r.chance(1, 300); if (huge) { big = true; p.lines.back().set("k", 0); } static const int sizes[] = { 60, 127, 128, 129, 255, 256, 257, 500, 1000, 1024, 1025, 2048, 2500, 4095, 4097, 6000 };
  int n = huge ? r.range(3, 5) : big ? r.range(3, 14) : r.range(4, th ? 120 : 50), every = r.chance(1, 2) ? 0 : r.range(2, 8); bool two = r.chance(1, 2); int fav = (int)r.below(S_KINDS);
  for (int i = 0; i < n; ++i) {
    Line l("op"); int op = r.chance(1, 4) ? S_PUSH : r.chance(1, 5) ? fav : (int)r.below(S_KINDS); if (op <= S_NEWIL && r.chance(1, 2)) op = S_PUSH; if (op == S_CLEAR && r.chance(1, 2)) op = S_INS;
    int a = (int)r.below(r.chance(1, 4) ? 1000 : 8), b = (int)r.below(r.chance(1, 4) ? 1000 : 8);
    l.set("op", op).set("s", (long long)r.below(two ? 2 : 3)).set("t", (long long)r.below(two ? 2 : 3)).set("a", a).set("b", b).set("c", (long long)r.below(60));
    if (big && r.chance(1, 3)) { int z = sizes[r.below(t.num("k") == 0 ? 16 : t.num("k") == 2 || t.num("k") == 4 ? 8 : 11)]; if (huge) z = r.range(32700, 66000); l.set("n", z).set("a", (long long)r.below(z * 2)).set("b", (long long)r.below(z * 2)); }
    if (big && i > 1 && r.chance(1, 5)) { static const int shrink[] = { S_RESIZE, S_RESIZE, S_RESIZEV, S_ERASER, S_ASSIGN, S_CLEAR, S_EQ, S_SWAP }; l = Line("op"); l.set("op", shrink[r.below(8)]).set("s", (long long)r.below(two ? 2 : 3)).set("t", (long long)r.below(3)).set("a", 0).set("b", (long long)(r.chance(2, 3) ? 0 : r.below(9))).set("c", (long long)r.below(60)); }
    gen_fault(r, l, every); p.lines.push_back(l);
  }
}
static Outcome c08_exec(const Plan& p) {
  Outcome o; const Line* nl = p.first("node"); NodeCfg cfg = nl ? NodeCfg::from(*nl) : NodeCfg(); const Line* tl = p.first("type"); int k = tl ? (int)tl->num("k") : 0;
  std::vector<Line> ls = p.all("op"); if (ls.empty()) return o;
  return judge_history(p, cfg, [&]() {
    switch (k) {
      case 1: { Run<eni::Vector<std::string>, std::string> q; q.go(ls); break; }
      case 2: { Run<eni::Vector<json::Value>, json::Value> q; q.go(ls); break; }
      case 3: { Run<eni::Vector<Tracked>, Tracked> q; q.go(ls); break; }
      case 4: { Run<json::Array, json::Value> q; q.go(ls); break; }
      case 5: { Run<eni::Vector<Movable>, Movable> q; q.go(ls); break; }
      default: { Run<eni::Vector<int>, int> q; q.go(ls); break; }
    }
  }, o, ls.size());
}
static const Scenario c08 = { "C08", "histories of 4 to 120 operations (48 kinds: construction, appends, insertions, removals, resizes, assignments, swaps, by index and by iterator, with own elements and ranges, out of range, huge) on three vectors of int, std::string, JSON values, JSON arrays, self-referential elements and movable self-referential elements, one history in ten with hundreds or thousands of elements, some steps with seeded allocation failures, in seeded memory; after every step all vectors are compared with sequences of a model and the ledger of living elements. Non-trivial: at least two steps. Distinct: hash of the whole execution.", c08_gen, c08_exec };
static RegisterScenario r08(&c08);
