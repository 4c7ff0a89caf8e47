// C02: histories on operation objects.
#include "sc_ops.h"
#include "gen.h"
#include <eni.h>
#include <json/Object.h>
#include <json/Array.h>
#include <eni_crypto.h>
#include <eni_scrypt.h>
#include <new>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
using namespace rt;

namespace {
struct Script { bool accept, runok, partial; uint64_t gas; std::vector<JV> rets; unsigned route; int parses, threw, gases, runs; std::string seen; };
class Probe : public eni::EniBase {
public:
  Probe(const std::string& s, Script& c) : eni::EniBase(s), m_S(c) {}
private:
  bool parse(const json::Array& a) override {
    { Host h; ++m_S.parses; }
    try {
      std::string c = canon_value(json::Value(a));
      { Host h; m_S.seen = std::string(c.data(), c.size()); }
      m_Args = a;
    } catch (...) { Host h; ++m_S.threw; throw; }
    return m_S.accept;
  }
  eni::Gas gas() const override { Host h; ++m_S.gases; return m_S.gas; }
  bool run(json::Array& ret) override {
    { Host h; ++m_S.runs; }
    size_t n = m_S.rets.size(); if (!m_S.runok && !m_S.partial) n = 0;
    for (size_t i = 0; i < n; ++i) {
      json::Value v = make_value(m_S.rets[i], m_S.route + i);
      switch ((m_S.route + i) % 3) { case 0: ret.push_back(v); break; case 1: ret.emplace_back(v); break; default: ret.insert(ret.size(), v); }
    }
    return m_S.runok;
  }
  Script& m_S;
  json::Array m_Args;
};
}

// objects that live from their first request to their last one, or all the time
static void lifetimes(const Plan& p, const std::vector<Line>& dos, size_t n, std::vector<size_t>& first, std::vector<size_t>& last) {
  bool late = p.first("late") != 0; first.assign(n, 0); last.assign(n, dos.size());
  if (late) for (size_t k = 0; k < n; ++k) { first[k] = dos.size(); for (size_t i = dos.size(); i-- > 0;) if ((size_t)dos[i].num("obj") == k) { if (last[k] == dos.size()) last[k] = i; first[k] = i; } }
}
static void gen_late(Rng& r, Plan& p) {   // one object after the other, mostly
  std::vector<Line> d, o; for (Line& l : p.lines) (l.word == "do" ? d : o).push_back(l);
  if (r.chance(3, 4)) std::stable_sort(d.begin(), d.end(), [](const Line& a, const Line& b) { return a.num("obj") < b.num("obj"); });
  o.insert(o.end(), d.begin(), d.end()); o.push_back(Line("late")); p.lines = o;
}
// the shipped operations as objects, requested over and over
static void c02_real_gen(Rng& r, Plan& p, bool th) {
  bool late = r.chance(1, 3); int n = late ? 3 : r.range(1, 2), only = (int)r.below(6); bool heavy = false;
  for (int i = 0; i < n; ++i) {
    static const int ops[] = { OP_RSAE, OP_RSAD, OP_SCRYPT }; int op = ops[late && only < 3 ? only : (int)r.below(3)]; heavy = heavy || op == OP_SCRYPT;
    std::string t; do t = cstr(gen_text(r, op, r.chance(1, 2) ? FL_VALID : r.chance(4, 5) ? FL_ANY : FL_UNSUITABLE, 1024)); while (!read_json(t).ok || read_json(t).gray);
    if (op == OP_SCRYPT && r.chance(1, 3)) { JV v = read_json(t).v; if (v.k == JV::ARR && v.a.size() && v.a[0].k == JV::STR) { std::string& s = v.a[0].s; for (size_t q = s.size() - r.below(s.size() + 1); q < s.size(); ++q) s[q] = '0'; t = print_strict(v); } }
    Line l("real"); l.set("op", op_name(op)).hex("text", t); p.lines.push_back(l);
  }
  int k = !heavy && r.chance(1, 20) ? r.range(30, 100) : r.range(2, heavy ? 7 : th ? 20 : 12); bool faults = r.chance(1, 3);
  for (int i = 0; i < k; ++i) {
    Line l("do"); l.set("obj", (long long)r.below(n)).set("what", r.chance(1, 2) ? "gas" : "start");
    if (faults && r.chance(1, 3)) { int m = r.range(1, 3); l.set("fm", m).set("fa", (long long)(m == 3 ? 2 + r.below(20) : 1 + r.below(r.chance(1, 2) ? 12 : 60))); }
    p.lines.push_back(l);
  }
  if (late) gen_late(r, p);
}
static eni::EniBase* make_op(int op, const char* t) { switch (op) { case OP_RSAE: return new eni_crypto::RSAEncrypt(t); case OP_RSAD: return new eni_crypto::RSADecrypt(t); default: return new Scrypt(t); } }
static Outcome c02_real(const Plan& p, const NodeCfg& cfg) {
  Outcome o; struct Obj { int op; std::string text, gas, run; }; std::vector<Obj> objs;
  for (const Line& l : p.all("real")) { Obj b; b.op = op_by_name(l.get("op")); b.text = cstr(l.bytes("text")); ReadResult q = read_json(b.text); if ((b.op != OP_RSAE && b.op != OP_RSAD && b.op != OP_SCRYPT) || !q.ok || q.gray || objs.size() >= 3) return o; objs.push_back(b); }
  std::vector<Line> dos; for (const Line& l : p.all("do")) if (l.num("obj") >= 0 && l.num("obj") < (long long)objs.size()) dos.push_back(l);
  if (objs.empty() || dos.empty()) return o;
  for (Obj& b : objs) for (int run = 0; run < 2; ++run) {   // what a process of its own answers
    LifeResult a = fork_life(cfg, [&]() { set_op(0); record(do_call(b.op, run, b.text)); });
    o.mix(a); if (tool_end(a.end)) { o.toolerr = a.end + " " + a.detail; return o; }
    if (a.end != "ok" || a.rec.size() != 1) return o;   // other properties' business
    Expect e = expect_call(b.op, read_json(b.text).v); std::string why;
    if (!run && e.known && expect_gas(e) != a.rec[0]) { o.fail("gas", describe_call(Call{ b.op, false, b.text }) + " gives " + a.rec[0] + " instead of " + expect_gas(e)); return o; }
    if (run && e.known && !result_matches(e, a.rec[0], why)) { o.fail("result", describe_call(Call{ b.op, true, b.text }) + ": " + why); return o; }
    (run ? b.run : b.gas) = a.rec[0];
  }
  LifeResult a = fork_life(cfg, [&]() {
    std::vector<eni::EniBase*> pr(objs.size()); std::vector<size_t> first, last; lifetimes(p, dos, objs.size(), first, last);
    for (size_t i = 0; i < dos.size(); ++i) {
      for (size_t j = 0; j < objs.size(); ++j) if (first[j] == i) {
        set_op(-2); char* t = place_text(objs[j].text); eni::EniBase* q; { Sut u; q = make_op(objs[j].op, t); }
        pr[j] = q; memset(t, ']', objs[j].text.size()); node_free(t);
      }
      int k = (int)dos[i].num("obj"), fm = (int)dos[i].num("fm"); bool start = dos[i].get("what") == "start"; std::string out; char* res = 0; uint64_t g = 0; bool ok = false;
      set_op((int)i); if (fm >= 1 && fm <= 3) fault_arm((FaultMode)fm, (uint64_t)dos[i].num("fa"));
      try { Sut u; if (start) res = pr[k]->start(); else g = pr[k]->getGas(); ok = true; }
      catch (const std::bad_alloc&) { out = "oom"; }
      catch (const std::exception& e) { Host h; out = std::string("exc:") + e.what(); }
      catch (...) { out = "exc:?"; }
      uint64_t f = fault_disarm();
      if (ok && start) { if (!res) out = "null"; else { out = std::string("out:") + res; Sut u; ::free(res); } }
      else if (ok) out = "gas:" + std::to_string(g);
      record((f ? "f" : "n") + out); cover(mix(mix(objs[k].op * 2 + start, f > 0), mix(out[0], i)));
      for (size_t j = 0; j < pr.size(); ++j) if (last[j] == i) { set_op(-3); Sut u; delete pr[j]; pr[j] = 0; }
    }
    for (size_t i = 0; i < pr.size(); ++i) { set_op(-3); Sut u; delete pr[i]; }
  });
  o.mix(a); if (tool_end(a.end)) { o.toolerr = a.end + " " + a.detail; return o; }
  for (size_t i = 0; i < a.rec.size() && !o.bad(); ++i) {
    bool f = a.rec[i][0] == 'f', start = dos[i].get("what") == "start"; std::string out = a.rec[i].substr(1); const Obj& b = objs[dos[i].num("obj")]; const std::string& want = start ? b.run : b.gas;
    std::string where = "request " + std::to_string(i + 1) + " (" + (start ? "start" : "gas") + ") on a " + op_name(b.op) + " object of " + esc(b.text) + ": ";
    if (f && (out == "oom" || (start && out == "null"))) continue;
    if (out == "oom" || out.compare(0, 4, "exc:") == 0) o.fail("exception", where + out);
    else if (out != want) o.fail(start ? "result-differs" : "gas", where + esc(out) + " where an object of its own answers " + esc(want));
  }
  if (!o.bad() && a.end != "ok") o.fail(a.end.compare(0, 5, "viol:") == 0 ? a.end.substr(5) : a.end.compare(0, 5, "crash") == 0 ? "crash" : a.end, a.end + " " + a.detail);
  count("objects.shipped", objs.size()); o.nontrivial = dos.size() > 1;
  return o;
}
static void c02_gen(Rng& r, Plan& p, bool th) {
  p.lines.push_back((r.chance(1, 2) ? NodeCfg() : NodeCfg::random(r)).line("node"));
  if (r.chance(1, 5)) { c02_real_gen(r, p, th); return; }
  bool late = r.chance(1, 3); int n = late ? r.range(2, 6) : r.range(1, 3);
  for (int i = 0; i < n; ++i) {
    Line l("obj"); JV a = r.chance(1, 8) ? gen_value(r, 1, 3) : gen_array(r, r.range(0, 3), 4);
    static const long long gases[] = { 0, 1, 1500, 21000, 4294967296ll, 0x7fffffffffffffffll };
    l.hex("text", cstr(spell(a, r, 1))).set("accept", (long long)r.chance(3, 4)).set("runok", (long long)r.chance(3, 4)).set("partial", (long long)r.below(2)).set("gas", gases[r.below(6)]).set("route", (long long)r.below(12));
    l.hex("rets", print_strict(gen_array(r, r.range(0, 3), r.range(0, 6))));
    p.lines.push_back(l);
  }
  int k = r.chance(1, 20) ? r.range(30, th ? 600 : 200) : r.range(2, th ? 24 : 14); bool faults = r.chance(1, 2);
  for (int i = 0; i < k; ++i) {
    Line l("do"); l.set("obj", (long long)r.below(n)).set("what", r.chance(2, 5) ? "gas" : "start");
    if (faults && r.chance(1, 3)) { int m = r.range(1, 3); l.set("fm", m).set("fa", (long long)(m == 3 ? 2 + r.below(20) : 1 + r.below(r.chance(1, 2) ? 12 : 80))); }
    p.lines.push_back(l);
  }
  if (late) gen_late(r, p);
}
static Outcome c02_exec(const Plan& p) {
  Outcome o; const Line* nl = p.first("node"); NodeCfg cfg = nl ? NodeCfg::from(*nl) : NodeCfg(); if (p.first("real")) return c02_real(p, cfg);
  struct Obj { std::string text, canonargs, expect; bool isarr; Line l; JV rets; };
  std::vector<Obj> objs; std::vector<int> index;
  for (const Line& l : p.all("obj")) {
    Obj b; b.l = l; b.text = cstr(l.bytes("text")); ReadResult r = read_json(b.text), q = read_json(l.bytes("rets"));
    index.push_back(-1);
    if (!r.ok || r.gray || !q.ok || q.gray || q.v.k != JV::ARR || objs.size() >= 6) continue;
    b.isarr = r.v.k == JV::ARR; b.canonargs = canon(r.v); b.rets = q.v; b.expect = canon(q.v);
    index.back() = (int)objs.size(); objs.push_back(b);
  }
  std::vector<Line> dos; for (Line l : p.all("do")) { long long k = l.num("obj"); if (k < 0 || k >= (long long)index.size() || index[k] < 0) continue; l.set("obj", index[k]); dos.push_back(l); }
  if (objs.empty() || dos.empty()) return o;
  LifeResult a = fork_life(cfg, [&]() {
    std::vector<Script> sc(objs.size()); std::vector<Probe*> pr(objs.size()); std::vector<size_t> first, last; lifetimes(p, dos, objs.size(), first, last);
    auto make = [&](size_t i) {
      Script& s = sc[i]; const Line& l = objs[i].l;
      s.accept = l.num("accept"); s.runok = l.num("runok"); s.partial = l.num("partial"); s.gas = (uint64_t)l.num("gas"); s.route = (unsigned)l.num("route"); s.rets = objs[i].rets.a; s.parses = s.threw = s.gases = s.runs = 0;
      set_op(-2); char* t = place_text(objs[i].text); Probe* q;
      { Sut u; q = new Probe(t, s); }
      pr[i] = q; memset(t, ']', objs[i].text.size()); node_free(t);   // the object keeps no reference to its argument text
    };
    for (size_t i = 0; i < dos.size(); ++i) {
      for (size_t j = 0; j < objs.size(); ++j) if (first[j] == i) make(j);
      int k = (int)dos[i].num("obj"); Script& s = sc[k]; bool start = dos[i].get("what") == "start";
      int p0 = s.parses, t0 = s.threw, g0 = s.gases, r0 = s.runs, fm = (int)dos[i].num("fm"); std::string out;
      set_op((int)i); if (fm >= 1 && fm <= 3) fault_arm((FaultMode)fm, (uint64_t)dos[i].num("fa"));
      char* res = 0; uint64_t g = 0; bool ok = false;
      try { Sut u; if (start) res = pr[k]->start(); else g = pr[k]->getGas(); ok = true; }
      catch (const std::bad_alloc&) { out = "oom"; }
      catch (const std::exception& e) { Host h; out = std::string("exc:") + e.what(); }
      catch (...) { out = "exc:?"; }
      uint64_t f = fault_disarm();
      if (ok && start) {
        if (!res) out = "null";
        else {
          size_t n; int kind; if (!is_live_block(res, &n, &kind) || kind != 0) violation("memory:result-not-malloc", "the result is not a block that free() can release");
          if (!memchr(res, 0, n)) violation("memory:result-unterminated", "the result does not end within its block");
          out = std::string("out:") + res; { Sut u; ::free(res); }
        }
      } else if (ok) out = "gas:" + std::to_string(g);
      char t[80]; snprintf(t, sizeof t, "%d %d %d %d %d ", (int)(f > 0), s.parses - p0, s.threw - t0, s.gases - g0, s.runs - r0);
      record("d" + std::string(t) + out);
      if (s.parses > p0 && s.threw == t0) record("s" + std::to_string(k) + " " + s.seen);
      cover(mix(mix((p0 > 0) * 8 + (r0 > 0) * 4 + (g0 > 0) * 2 + start, s.accept * 2 + s.runok), mix(f > 0, out[0])));
      for (size_t j = 0; j < pr.size(); ++j) if (last[j] == i) { set_op(-3); Sut u; delete pr[j]; pr[j] = 0; }
    }
    for (size_t i = 0; i < pr.size(); ++i) { set_op(-3); Sut u; delete pr[i]; }
  });
  o.mix(a); if (tool_end(a.end)) { o.toolerr = a.end + " " + a.detail; return o; }
  struct Seen { int parses, threw; std::string text; }; std::vector<Seen> seen(objs.size()); for (Seen& s : seen) s.parses = s.threw = 0;
  size_t k = 0; 
  for (size_t i = 0; i < a.rec.size() && !o.bad(); ++i) {
    const std::string& s = a.rec[i];
    if (s[0] == 's') { size_t sp = s.find(' '); int b = atoi(s.c_str() + 1); if (s.substr(sp + 1) != objs[b].canonargs) o.fail("arguments", "the operation saw " + esc(s.substr(sp + 1)) + " for " + esc(objs[b].text)); continue; }
    int f, pa, tw, g, r, used = 0; sscanf(s.c_str() + 1, "%d %d %d %d %d %n", &f, &pa, &tw, &g, &r, &used);
    std::string out = s.substr(1 + used); const Line& d = dos[k]; ++k; int b = (int)d.num("obj"); const Obj& ob = objs[b]; bool start = d.get("what") == "start";
    bool acc = ob.isarr && ob.l.num("accept") != 0; Seen& se = seen[b];
    std::string where = "request " + std::to_string(k) + " (" + (start ? "start" : "gas") + ") on object " + std::to_string(b) + ": ";
    se.parses += pa; se.threw += tw;
    if (se.parses > 1 + se.threw) o.fail("examined-again", where + "the arguments are examined again");
    if (out != "oom" && ob.isarr && se.parses <= se.threw) o.fail("not-examined", where + "answered without examining the arguments");
    if (!ob.isarr && se.parses) o.fail("examined-non-array", where + "arguments that are not an array were given to the operation");
    if (!acc && (g || r)) o.fail("invoked-after-reject", where + "the operation's gas or run routine was invoked although it rejected its arguments");
    if (r > 1) o.fail("ran-twice", where + "the run routine was invoked more than once");
    if (out == "oom") { if (!f) o.fail("exception", where + "out of memory although no allocation failed"); continue; }
    if (out.compare(0, 4, "exc:") == 0) { o.fail("exception", where + out); continue; }
    if (!start) {
      std::string e = "gas:" + (acc ? std::to_string((uint64_t)ob.l.num("gas")) : std::string("1500"));
      if (out != e) o.fail("gas", where + out + " instead of " + e);
    } else if (!acc || !ob.l.num("runok")) { if (out != "null") o.fail("result-of-refused", where + esc(out) + (acc ? " although the run failed" : " although the arguments were rejected")); }
    else if (out == "null") { if (!f) o.fail("no-result", where + "no result of an accepted execution"); }
    else {
      std::string t = out.substr(4); ReadResult q = read_json(t);
      if (!q.ok || !all_ws(t, q.end)) o.fail("result-malformed", where + esc(t));
      else if (canon(q.v) != ob.expect) o.fail("result", where + esc(t) + " instead of " + esc(print_strict(ob.rets)));
      else if (se.text.empty()) se.text = t;
      else if (se.text != t) o.fail("result-differs", where + esc(t) + " instead of " + esc(se.text));
    }
  }
  if (!o.bad() && a.end != "ok") o.fail(a.end.compare(0, 5, "viol:") == 0 ? a.end.substr(5) : a.end.compare(0, 5, "crash") == 0 ? "crash" : a.end, a.end + " " + a.detail);
  o.nontrivial = dos.size() > 1;
  return o;
}
static const Scenario c02 = { "C02", "1 to 6 scripted operation objects, alive together or one after the other (arguments of any shape, accept or reject, run succeeding, failing with or without partial results, declared gas, results of any shape) receive 2 to 600 gas queries and executions in seeded order, some with seeded allocation failures; answers and the number of times each routine was invoked are compared with the script; one run in five drives objects of the shipped RSA and scrypt operations instead, whose every answer is compared with that of a process of its own. Non-trivial: at least two requests. Distinct: hash of the whole execution.", c02_gen, c02_exec };
static RegisterScenario r02(&c02);
