// C15: string hash functions.
#include "sc_ops.h"
#include "gen.h"
#include "hist.h"
#include <adt/StringHasher.h>
using namespace rt;
using namespace eni::internal;

namespace {
enum { NH = 12, NV = 2 * NH + 2 };
const char* const HASHES[NH] = { "RS", "JS", "PJW", "ELF", "BKDR", "SDBM", "DJB", "DEK", "BP", "FNV", "AP", "ES" };
uint32_t real_hash(int h, const std::string& s) {
  switch (h) {
    case 0: return StringHasher<RS>()(s); case 1: return StringHasher<JS>()(s); case 2: return StringHasher<PJW>()(s); case 3: return StringHasher<ELF>()(s);
    case 4: return StringHasher<BKDR>()(s); case 5: return StringHasher<SDBM>()(s); case 6: return StringHasher<DJB>()(s); case 7: return StringHasher<DEK>()(s);
    case 8: return StringHasher<BP>()(s); case 9: return StringHasher<FNV>()(s); case 10: return StringHasher<AP>()(s); default: return StringHasher<ES>()(s);
  }
}
// strings made in several ways: in place, on the heap, with room to spare, cut from a longer one
std::string incarnation(const std::string& s, unsigned way) {
  switch (way % 4) {
    case 0: return std::string(s.data(), s.size());
    case 1: { std::string t; t.reserve(s.size() * 2 + 40); t.assign(s.data(), s.size()); return t; }
    case 2: { std::string t(s.data(), s.size()); t += "tail that goes away again"; t.resize(s.size()); return t; }
    default: { std::string t("head"); t.append(s.data(), s.size()); t.erase(0, 4); return t; }
  }
}
}
static NodeCfg node_of(const Line& l) { return NodeCfg::from(l); }
static void c15_gen(Rng& r, Plan& p, bool th) {
  int nodes = r.range(1, 3); for (int i = 0; i < nodes; ++i) p.lines.push_back((r.chance(1, 4) ? NodeCfg() : NodeCfg::random(r)).line("node"));
  int n = r.range(1, th ? 30 : 16); bool thr = r.chance(1, 4);
  for (int i = 0; i < n; ++i) {
    std::string s; int kind = (int)r.below(6);
    if (kind < 2) s = gen_string(r, 1000);
    else if (kind == 2) { int m = (int)r.below(40); for (int k = 0; k < m; ++k) s += "aAzZbBmM..__--0 9/:@[`{\x80\xc0\xd7\xe0\xff"[r.below(27)]; }
    else if (kind == 3) { int m = (int)r.below(r.chance(1, 2) ? 9 : 300); for (int k = 0; k < m; ++k) s += (char)r.below(256); }
    else if (kind == 4) s = std::string(r.below(r.chance(1, 4) ? 600 : 20), (char)r.below(256));
    else { int m = (int)r.below(24); for (int k = 0; k < m; ++k) s += (char)(r.chance(1, 3) ? '.' : 'a' + r.below(26)); }
    if (s.size() > 5000 && !r.chance(1, 4)) s.resize(5000);
    Line l("str"); l.set("way", (long long)r.below(4)).set("t", (long long)(thr ? r.below(3) : 0)).set("from", (long long)r.below(s.size() + 1)).set("len", (long long)r.below(s.size() + 1)).hex("s", s); p.lines.push_back(l);
  }
  if (thr) p.lines.push_back(sched_line(gen_sched(r, 20)));
}
static Outcome c15_exec(const Plan& p) {
  Outcome o; std::vector<Line> ls = p.all("str"), nodes = p.all("node"); if (ls.empty() || nodes.empty()) return o;
  int nt = 0; for (const Line& l : ls) { int t = (int)l.num("t"); if (t < 0 || t > 3) return o; if (t + 1 > nt) nt = t + 1; }
  bool threads = p.first("sched") != 0 && nt > 1; SchedCfg sc = sched_of(p); if (sc.mode != 9) sc.pre.clear();
  auto one = [&](const Line& l) -> std::string {
    std::string s = l.bytes("s"), out; uint32_t v[NV]; size_t from = (size_t)l.num("from"), len = (size_t)l.num("len"); if (from > s.size()) from = s.size();
    { Sut u; std::string a = incarnation(s, (unsigned)l.num("way")), b = incarnation(s, (unsigned)l.num("way") + 1), part = a.substr(from, len);
      for (int h = 0; h < NH; ++h) { v[h] = real_hash(h, a); v[NH + h] = real_hash(h, b); }
      v[2 * NH] = (StringHasher<ES>::may_include(StringHasher<ES>()(part), v[NH - 1]) ? 1 : 0) + (StringHasher<ES>::may_include(v[NH - 1], StringHasher<ES>()(part)) ? 2 : 0);
      // comparisons: equal, a part, the last byte changed; C strings end at the first NUL
      std::string c = b; if (c.size()) c[c.size() - 1] ^= 1; StringCompare<std::string> cmp; StringCompare<const char*> cc; StringCompare<char*> cm;
      v[2 * NH + 1] = (cmp(a, b) ? 1 : 0) + (cmp(a, part) ? 2 : 0) + (cmp(c, a) ? 4 : 0) + (cc(a.c_str(), b.c_str()) ? 8 : 0) + (cc(part.c_str(), a.c_str()) ? 16 : 0) + (cc(a.c_str(), c.c_str()) ? 32 : 0) + (cm(&a[0], &b[0]) ? 64 : 0) + (cm(&a[0], &part[0]) ? 128 : 0) + (cm(&c[0], &a[0]) ? 256 : 0); }
    for (int i = 0; i < NV; ++i) out += std::to_string(v[i]) + " ";
    return out;
  };
  SchedStats st; st.switches = st.steps = st.shared = 0;
  for (size_t q = 0; q < nodes.size() && !o.bad(); ++q) {
    set_hot("");
    if (threads && sc.mode == 4) {
      LifeResult t = fork_life(node_of(nodes[q]), [&]() { track_statics(true); for (size_t i = 0; i < ls.size(); ++i) one(ls[i]); track_statics(false); record(written_statics()); });
      if (tool_end(t.end)) { o.toolerr = t.end + " " + t.detail; return o; }
      if (t.end == "ok" && t.rec.size() == 1) set_hot(t.rec[0]);
    }
    LifeResult a = fork_life(node_of(nodes[q]), [&]() {
      std::vector<std::string> out(ls.size());
      if (!threads) for (size_t i = 0; i < ls.size(); ++i) { set_op((int)i); out[i] = one(ls[i]); }
      else {
        std::vector<std::function<void()> > bodies;
        for (int t = 0; t < nt; ++t) bodies.push_back([&, t]() { for (size_t i = 0; i < ls.size(); ++i) if ((int)ls[i].num("t") == t) out[i] = one(ls[i]); });
        set_op(-3); SchedStats x = run_threads(sc, bodies); count("sched.switches", x.switches);
        if (x.log.size() <= 3000) for (size_t i = 0; i < x.log.size(); ++i) record("s" + std::to_string(x.log[i].first) + " " + std::to_string(x.log[i].second.first) + " " + std::to_string(x.log[i].second.second));
      }
      for (size_t i = 0; i < out.size(); ++i) record("o" + out[i]);
    });
    o.mix(a); if (tool_end(a.end)) { o.toolerr = a.end + " " + a.detail; return o; }
    size_t k = 0; st.log.clear();
    for (size_t z = 0; z < a.rec.size() && !o.bad(); ++z) {
      if (a.rec[z][0] == 's') { int t, to; unsigned long long n; if (sscanf(a.rec[z].c_str() + 1, "%d %llu %d", &t, &n, &to) == 3) st.log.push_back(std::make_pair(t, std::make_pair((uint64_t)n, to))); continue; }
      if (k >= ls.size()) break;
      const Line& l = ls[k++]; std::string s = l.bytes("s"); const char* c = a.rec[z].c_str() + 1; char* e; uint32_t v[NV]; int i = 0; for (; i < NV; ++i) { v[i] = (uint32_t)strtoul(c, &e, 10); if (e == c) break; c = e; }
      if (i < NV) { o.fail("no-answer", "no hash of " + esc(s)); break; }
      uint32_t es = 0; std::string what = esc(s.size() > 200 ? s.substr(0, 200) : s) + " (" + std::to_string(s.size()) + " bytes) on node " + std::to_string(q);
      for (int h = 0; h < NH && !o.bad(); ++h) {
        uint32_t w = ref_hash(HASHES[h], s); if (h == NH - 1) es = w;
        if (v[h] != w || v[NH + h] != w) o.fail(v[h] != v[NH + h] ? "unstable" : "formula", std::string(HASHES[h]) + " of " + what + " is " + std::to_string(v[h]) + " and " + std::to_string(v[NH + h]) + ", the formula gives " + std::to_string(w));
      }
      size_t from = std::min<size_t>((size_t)l.num("from"), s.size()); uint32_t pe = ref_hash("ES", s.substr(from, (size_t)l.num("len")));
      uint32_t inc = (ref_may_include(pe, es) ? 1 : 0) + (ref_may_include(es, pe) ? 2 : 0);
      if (!o.bad() && v[2 * NH] != inc) o.fail("may-include", "may_include of a part of " + what + " answers " + std::to_string(v[2 * NH]) + " instead of " + std::to_string(inc));
      std::string pt = s.substr(from, (size_t)l.num("len")), ch = s; if (ch.size()) ch[ch.size() - 1] ^= 1; auto cs = [](const std::string& x) { return std::string(x.c_str()); };
      bool e1 = pt == s, e2 = ch == s, e3 = cs(pt) == cs(s), e4 = cs(ch) == cs(s); uint32_t cmpw = 1 + 2 * e1 + 4 * e2 + 8 + 16 * e3 + 32 * e4 + 64 + 128 * e3 + 256 * e4;
      if (!o.bad() && v[2 * NH + 1] != cmpw) o.fail("compare", "the comparisons of " + what + " with itself, a part of it and a changed copy answer " + std::to_string(v[2 * NH + 1]) + " instead of " + std::to_string(cmpw));
      cover(mix(s.size() / 4, s.empty() ? 999 : (unsigned char)s[s.size() / 2])); if (s.size()) o.nontrivial = true;
    }
    if (!o.bad() && a.end != "ok") o.fail(a.end.compare(0, 5, "viol:") == 0 ? a.end.substr(5) : a.end.compare(0, 5, "crash") == 0 ? "crash" : "ended", "while hashing: " + a.end + " " + a.detail);
  }
  if (o.bad() && threads && nodes.size() == 1 && sc.mode != 9 && st.log.size()) { o.resolved = p; resolve_sched(o.resolved, st); }
  return o;
}
static const Scenario c15 = { "C15", "1 to 3 simulated nodes with different memory contents and layout, stack, environment and locale (also an 8-bit one with other character classes) hash the same 1 to 30 byte strings, made in several ways, with all twelve named hashes, one run in four from several threads under a seeded scheduler; every value is compared with the formula, and the comparison functors with the equality of byte strings and C strings. Non-trivial: a string that is not empty. Distinct: hash of the whole execution.", c15_gen, c15_exec };
static RegisterScenario r15(&c15);
