// C01, C03, C04, C05, C06, C10: whole calls.
#include "sc_ops.h"
#include "gen.h"
#include <eni_types.h>
#include <stdlib.h>
using namespace rt;

static std::vector<Call> calls_of(const Plan& p, const char* w) { std::vector<Call> v; for (const Line& l : p.all(w)) v.push_back(call_of(l)); return v; }
static NodeCfg node_of(const Plan& p) { const Line* l = p.first("node"); return l ? NodeCfg::from(*l) : NodeCfg(); }
static void cover_call(const Call& c, const std::string& out) { cover(mix(mix(c.op * 2 + c.run, out.compare(0, 4, "out:") ? out.size() < 12 ? mix(out[0], out.size()) : 5 : 1), c.text.size() / 16)); }

// ================================================================ C01
static void c01_gen(Rng& r, Plan& p, bool th) {
  int nodes = r.range(2, 4);
  for (int i = 0; i < nodes; ++i) p.lines.push_back((i == 0 && r.chance(1, 2) ? NodeCfg() : NodeCfg::random(r)).line("node"));
  if (r.chance(1, 4)) p.lines[r.below(nodes)].set("img", 1);
  int n = r.range(1, th ? 10 : 6), bits = r.chance(1, 6) ? 2048 : 1024;
  for (int i = 0; i < n; ++i) {
    Call c = gen_call(r, r.chance(1, 5) ? FL_UNSUITABLE : r.chance(1, 2) ? FL_VALID : FL_ANY, bits);
    if (r.chance(1, 8)) c.text = damage_text(r, c.text);
    if (i && r.chance(1, 3)) { p.lines.push_back(related_call(r, p.lines[nodes + (r.chance(1, 2) ? i - 1 : r.below(i))], "call")); continue; }
    p.lines.push_back(call_line("call", c.op, c.run, c.text));
  }
  int w = (int)r.below(4);
  for (int i = 0; i < w; ++i) { Call c = gen_call(r, FL_ANY, 1024); if (r.chance(1, 6)) c.text = damage_text(r, c.text); Line l = call_line("warm", c.op, c.run, c.text); if (r.chance(1, 2)) { Line& q = p.lines[nodes + r.below(n)]; if (r.chance(1, 2)) l = related_call(r, q, "warm"); else { l = q; l.word = "warm"; q = related_call(r, l, "call"); } } l.set("node", (long long)r.below(nodes)); if (r.chance(1, 4)) { int m = r.range(1, 3); l.set("fm", m).set("fa", (long long)(m == 3 ? 2 + r.below(30) : 1 + r.below(r.chance(1, 2) ? 30 : 200))); } p.lines.push_back(l); }
  if (r.chance(1, 12)) { // a long history on one node
    Line l = p.lines[nodes + r.below(n)]; l.word = "warm"; if (r.chance(1, 4)) { Call c = gen_call(r, FL_VALID, 512); l = call_line("warm", c.op, c.run, c.text); }
    l.set("node", (long long)r.below(nodes)).set("rep", (long long)(r.chance(1, 2) ? r.range(10, 70) : r.range(70, 300))).set("vary", (long long)r.below(3)); p.lines.push_back(l);
  }
  int k = r.chance(1, 2) ? (int)r.below(3) : 0;
  for (int i = 0; i < k; ++i) { Line l("crash"); l.set("node", (long long)r.below(nodes)).set("call", (long long)r.below(n)).set("step", (long long)(1 + r.below(r.chance(1, 2) ? 3000 : 200000))); p.lines.push_back(l); }
}
// one node: its outcomes, and a hash of its execution
static void c01_node(const Plan& p, size_t i, CallRun& cr, Outcome& o) {
  std::vector<Line> nodes = p.all("node"), warms = p.all("warm"), crashes = p.all("crash");
  std::vector<std::pair<int, long long> > wf;
  std::vector<Call> w; for (const Line& l : warms) if (l.num("node") == (long long)i) {
    Call c = call_of(l); long long rep = l.num("rep"), vary = l.num("vary"); w.push_back(c); wf.resize(w.size()); wf.back() = std::make_pair((int)l.num("fm"), l.num("fa")); if (rep < 2) continue;
    ReadResult q = read_json(c.text); if (!q.ok || q.gray || c.text.size() > 3000) continue;
    long long most = c.op == OP_SCRYPT ? c.run ? 12 : 100 : c.op == OP_RSAE || c.op == OP_RSAD ? 40 : 300; if (rep > most) rep = most;
    for (long long k = 1; k < rep; ++k) {   // the same again, or other arguments each time
      Call d = c; JV v = q.v;
      if (vary && v.k == JV::ARR) { if (v.a.size() && v.a.back().k == JV::STR) { if (vary == 1) v.a.back().s = std::to_string(k) + v.a.back().s; else v.a.back().s += std::to_string(k); } else v.a.push_back(JV::Int(std::to_string(k))); d.text = print_strict(v); if (example_trouble(d.op, d.text)) d.op = OP_ECHO; }
      w.push_back(d);
    }
    count("history.long");
  }
  int cc = -1; uint64_t cs = 0; for (const Line& l : crashes) if (l.num("node") == (long long)i) { cc = (int)l.num("call"); cs = (uint64_t)l.num("step"); }
  run_calls(NodeCfg::from(nodes[i]), w, calls_of(p, "call"), cr, o, cc, cs, &wf);
}
static std::string c01_remote(const std::string& req) {
  Plan p; if (!Plan::parse(req, p) || !p.first("which")) return "";
  CallRun cr; Outcome o; c01_node(p, (size_t)p.first("which")->num("node"), cr, o);
  Plan a; Line l("end"); l.hex("cls", o.cls).hex("detail", o.detail).hex("tool", o.toolerr).set("hash", (long long)o.hash); a.lines.push_back(l);
  for (size_t k = 0; k < cr.out.size(); ++k) { Line m("out"); m.hex("s", cr.out[k]); a.lines.push_back(m); }
  return a.str();
}
static void c01_other(const Plan& p, size_t i, CallRun& cr, Outcome& o) {
  Plan q = p; Line l("which"); l.set("node", (long long)i); q.lines.push_back(l);
  std::string s = other_image ? other_image(q.str()) : ""; Plan a; const Line* e = 0;
  if (Plan::parse(s, a)) e = a.first("end");
  if (!e) { o.toolerr = "the second image does not answer"; return; }
  o.hash = mix(o.hash, (uint64_t)e->num("hash")); if (e->bytes("tool").size()) { o.toolerr = e->bytes("tool"); return; }
  if (e->bytes("cls").size()) o.fail(e->bytes("cls"), e->bytes("detail"));
  std::vector<Line> ls = a.all("out"); for (size_t k = 0; k < ls.size(); ++k) cr.out.push_back(ls[k].bytes("s"));
  count("env.other_image");
}
static Outcome c01_exec(const Plan& p) {
  Outcome o; std::vector<Line> nodes = p.all("node"), warms = p.all("warm"), crashes = p.all("crash"); std::vector<Call> calls = calls_of(p, "call");
  if (calls.empty() || nodes.size() < 2) return o;
  std::vector<std::string> first; bool differ = false;
  for (size_t i = 0; i < nodes.size() && !o.bad(); ++i) {
    CallRun cr; if (nodes[i].num("img")) c01_other(p, i, cr, o); else c01_node(p, i, cr, o);
    if (o.bad()) break;
    if (i && nodes[i].str() != nodes[0].str()) differ = true;
    for (size_t k = 0; k < calls.size(); ++k) {
      std::string out = k < cr.out.size() ? cr.out[k] : "missing";
      if (i == 0) { first.push_back(out); cover_call(calls[k], out); }
      else if (out != first[k]) {
        const std::string& bad = out.compare(0, 4, "viol") == 0 || out.compare(0, 5, "crash") == 0 ? out : first[k];
        std::string cls = bad.compare(0, 5, "viol:") == 0 ? bad.substr(5, bad.find(' ') - 5) : bad.compare(0, 5, "crash") == 0 ? "crash" : "replicas-differ";
        o.fail(cls, describe_call(calls[k]) + ": node 0 answers " + esc(first[k]) + ", node " + std::to_string(i) + " answers " + esc(out)); break;
      } else if (out.compare(0, 5, "viol:") == 0 || out.compare(0, 5, "crash") == 0) { o.fail(out.compare(0, 5, "viol:") == 0 ? out.substr(5, out.find(' ') - 5) : "crash", describe_call(calls[k]) + ": " + esc(out)); break; }
    }
  }
  o.nontrivial = differ || warms.size() || crashes.size();
  return o;
}
static const Scenario c01 = { "C01", "2 to 4 simulated nodes with different memory contents and layout, stack, clock, identity, entropy, environment, locale, load address and earlier calls (up to several hundred, some with failing allocations) execute one sequence of 1 to 10 calls (valid, rejected, unsuitable and damaged argument texts over every shipped operation and an echo operation); nodes are killed at a random memory access and restarted; outcomes are compared across nodes. Non-trivial: the nodes differ in environment, history or crashes. Distinct: hash of the whole execution.", c01_gen, c01_exec };
static RegisterScenario r01(&c01);
static struct C01Remote { C01Remote() { remote_fn = c01_remote; } } r01r;

// ================================================================ C03
static void c03_gen(Rng& r, Plan& p, bool th) {
  int threads = r.range(2, th ? 5 : 4), per = r.range(1, 3); unsigned mask = ~0u; int weight = 20;
  p.lines.push_back((r.chance(1, 2) ? NodeCfg() : NodeCfg::random(r)).line("node"));
  if (r.chance(2, 3)) { mask = 1u << r.below(OP_COUNT); if (r.chance(1, 2)) mask |= 1u << r.below(OP_COUNT); }
  std::vector<Line> ls; bool heavy = false;
  for (int t = 0; t < threads; ++t) for (int i = 0; i < per; ++i) {
    Call c;
    do { c = gen_call(r, r.chance(2, 3) ? FL_VALID : r.chance(1, 2) ? FL_ANY : FL_UNSUITABLE, 1024, mask); } while (c.text.size() > 3000);
    if (ls.size() && r.chance(1, 3)) c = call_of(related_call(r, ls[r.below(ls.size())], "call"));
    ReadResult rr = read_json(c.text); if (!rr.ok || rr.gray) { --i; continue; }
    if (c.op == OP_SCRYPT && c.run) heavy = true;
    Line l = call_line("call", c.op, c.run, c.text); l.set("t", t); ls.push_back(l);
  }
  p.lines.insert(p.lines.end(), ls.begin(), ls.end());
  if (heavy) weight = 400;
  p.lines.push_back(sched_line(gen_sched(r, weight)));
}
static Outcome c03_exec(const Plan& p) {
  Outcome o; NodeCfg cfg = node_of(p); std::vector<Line> ls = p.all("call"); if (ls.empty()) return o;
  std::vector<Call> all; std::vector<int> th; int nt = 0;
  for (const Line& l : ls) { Call c = call_of(l); ReadResult rr = read_json(c.text); if (!rr.ok || rr.gray) continue; int t = (int)l.num("t"); if (t < 0 || t > 5) t = 0; all.push_back(c); th.push_back(t); if (t + 1 > nt) nt = t + 1; }
  if (all.empty()) return o;
  std::vector<std::string> solo;
  set_hot(""); LifeResult a = fork_life(cfg, [&]() { track_statics(true); for (size_t i = 0; i < all.size(); ++i) { set_op((int)i); record(do_call(all[i].op, all[i].run, all[i].text)); } track_statics(false); record(written_statics()); });
  o.mix(a); if (tool_end(a.end)) { o.toolerr = a.end + " " + a.detail; return o; }
  if (a.end != "ok" || a.rec.size() != all.size() + 1) return o;   // not settled alone: other properties speak about that
  solo = a.rec; set_hot(solo.back()); if (solo.back().size()) count("sched.hot_statics"); solo.pop_back();
  SchedCfg sc = sched_of(p); if (sc.mode != 9) sc.pre.clear();
  LifeResult b = fork_life(cfg, [&]() {
    std::vector<std::vector<std::string> > outs(nt);
    std::vector<std::function<void()> > bodies;
    for (int t = 0; t < nt; ++t) bodies.push_back([&, t]() { for (size_t i = 0; i < all.size(); ++i) if (th[i] == t) outs[t].push_back(do_call(all[i].op, all[i].run, all[i].text)); });
    set_op(-3);
    SchedStats st = run_threads(sc, bodies);
    std::vector<size_t> at(nt, 0);
    for (size_t i = 0; i < all.size(); ++i) record("o" + (at[th[i]] < outs[th[i]].size() ? outs[th[i]][at[th[i]]] : std::string("missing"))), ++at[th[i]];
    count("sched.switches", st.switches); count("sched.points", st.steps); count("sched.shared_points", st.shared);
    record("n" + std::to_string(st.switches));
    if (st.log.size() <= 3000) for (size_t i = 0; i < st.log.size(); ++i) record("s" + std::to_string(st.log[i].first) + " " + std::to_string(st.log[i].second.first) + " " + std::to_string(st.log[i].second.second));
  });
  o.mix(b); if (tool_end(b.end)) { o.toolerr = b.end + " " + b.detail; return o; }
  if (b.end != "ok") {
    std::string cls = b.end.compare(0, 5, "viol:") == 0 ? b.end.substr(5) : b.end.compare(0, 5, "crash") == 0 ? "crash" : b.end.compare(0, 4, "exit") == 0 ? "exit" : b.end;
    o.fail("concurrent:" + cls, "with several callers: " + b.end + " " + b.detail); return o;
  }
  size_t k = 0; uint64_t sw = 0; SchedStats st; st.switches = st.steps = st.shared = 0;
  for (size_t i = 0; i < b.rec.size(); ++i) {
    const std::string& s = b.rec[i];
    if (s[0] == 'o') { if (s.substr(1) != solo[k]) o.fail("concurrent-outcome", describe_call(all[k]) + " in thread " + std::to_string(th[k]) + ": " + esc(s.substr(1)) + " instead of " + esc(solo[k])); cover_call(all[k], solo[k]); ++k; }
    else if (s[0] == 'n') sw = strtoull(s.c_str() + 1, 0, 10);
    else { int t, to; unsigned long long n; if (sscanf(s.c_str() + 1, "%d %llu %d", &t, &n, &to) == 3) { st.log.push_back(std::make_pair(t, std::make_pair((uint64_t)n, to))); cover(mix(mix(t * 8 + to, n / 16), 99)); } }
  }
  if (o.bad() && sc.mode != 9 && st.log.size()) { o.resolved = p; resolve_sched(o.resolved, st); }
  o.nontrivial = nt > 1 && sw > 0;
  return o;
}
static const Scenario c03 = { "C03", "2 to 5 threads of one simulated process make 1 to 3 calls each (often all of one operation) from a cold start; a seeded scheduler decides at every instrumented memory access and lock whether to switch: uniformly, directed at accesses to memory that is not the thread's own, or by priorities with change points; every outcome is compared with that of the same call made alone. Non-trivial: at least one preemption between two threads. Distinct: hash over all switches and outcomes.", c03_gen, c03_exec };
static RegisterScenario r03(&c03);

// ================================================================ C04
static void c04_gen(Rng& r, Plan& p, bool th) {
  p.lines.push_back((r.chance(1, 3) ? NodeCfg() : NodeCfg::random(r)).line("node"));
  Call c; do { c = gen_call(r, r.chance(2, 3) ? FL_VALID : r.chance(2, 3) ? FL_ANY : FL_UNSUITABLE, 1024); ReadResult rr = read_json(c.text); if (rr.ok && !rr.gray && c.text.size() < 6000) break; } while (1);
  p.lines.push_back(call_line("call", c.op, c.run, c.text));
  int n = th ? 400 : 150, mode = (int)r.below(4);
  if (mode == 0) { int from = 1 + (r.chance(1, 2) ? 0 : (int)r.below(300)); for (int i = 0; i < n; ++i) { Line l("fault"); l.set("mode", 1).set("at", from + i); p.lines.push_back(l); } return; }
  for (int i = 0; i < (c.op == OP_SCRYPT && c.run ? 20 : n / 2); ++i) {
    Line l("fault"); int m = mode == 1 ? 2 : r.range(1, 4); l.set("mode", m);
    switch (m) { case 3: l.set("at", (long long)(2 + r.below(40))); break; case 4: { static const int z[] = { 8, 17, 33, 65, 129, 257, 513, 1025, 4097 }; l.set("at", z[r.below(9)]); break; } default: l.set("at", (long long)(1 + r.below(r.chance(1, 2) ? 60 : 1000))); }
    p.lines.push_back(l);
  }
}
static Outcome c04_exec(const Plan& p) {
  Outcome o; NodeCfg cfg = node_of(p); std::vector<Line> fl = p.all("fault"); const Line* cl = p.first("call"); if (!cl || fl.empty()) return o;
  Call c = call_of(*cl); { ReadResult rr = read_json(c.text); if (!rr.ok || rr.gray) return o; }
  std::string exact; uint64_t total = 0;
  LifeResult a = fork_life(cfg, [&]() { set_op(0); std::string s; for (int i = 0; i < 2; ++i) { uint64_t b = alloc_count(); s = do_call(c.op, c.run, c.text); if (i == 1) { record(s); record(std::to_string(alloc_count() - b)); } } });
  o.mix(a); if (tool_end(a.end)) { o.toolerr = a.end + " " + a.detail; return o; }
  if (a.end != "ok" || a.rec.size() != 2) return o;
  exact = a.rec[0]; total = strtoull(a.rec[1].c_str(), 0, 10);
  LifeResult b = fork_life(cfg, [&]() {
    for (size_t i = 0; i < fl.size(); ++i) {
      int m = (int)fl[i].num("mode"); uint64_t at = (uint64_t)fl[i].num("at"); if (m < 1 || m > 4) continue;
      if (life_steps() > 150000000ull) break;   // an expensive call: fewer faults
      if (m <= 2) at = total ? (at - 1) % total + 1 : 1;
      set_op((int)i); fault_arm((FaultMode)m, at);
      std::string s = do_call(c.op, c.run, c.text);
      uint64_t fired = fault_disarm();
      record((fired ? "f" : "-") + s);
      if (fired) { cover(mix(mix(c.op * 2 + c.run, at), s[0])); record("r" + do_call(c.op, c.run, c.text)); }
    }
  });
  o.mix(b); if (tool_end(b.end)) { o.toolerr = b.end + " " + b.detail; return o; }
  bool fired = false; size_t k = 0;
  for (size_t i = 0; i < b.rec.size() && !o.bad(); ++i) {
    char t = b.rec[i][0]; std::string s = b.rec[i].substr(1);
    std::string where = describe_call(c) + " with failing allocations (" + (k < fl.size() ? fl[k].str() : "") + ")";
    if (t == 'r') { if (s != exact) o.fail("after-exhaustion", where + ": the same call afterwards gave " + esc(s) + " instead of " + esc(exact)); continue; }
    ++k; if (t == 'f') fired = true;
    if (s == exact || s == "null") continue;
    if (s == "oom" && t == 'f') continue;
    o.fail(s.compare(0, 4, "exc:") == 0 ? "wrong-exception" : "wrong-answer", where + ": " + esc(s) + " instead of " + esc(exact));
  }
  if (!o.bad() && b.end != "ok") {
    std::string cls = b.end.compare(0, 5, "viol:") == 0 ? b.end.substr(5) : b.end.compare(0, 5, "crash") == 0 ? "crash" : b.end.compare(0, 4, "exit") == 0 ? "exit" : b.end;
    o.fail("exhaustion:" + cls, describe_call(c) + " with failing allocations: " + b.end + " " + b.detail);
  }
  o.nontrivial = fired;
  return o;
}
static const Scenario c04 = { "C04", "one well-formed call per simulated process; its allocations are counted in a dry run, then single allocations, all from one on, every n-th, or all above a size fail at seeded points (consecutive points in one run in four); after each faulted call the same call is made again without faults. Non-trivial: at least one allocation failed. Distinct: hash of the whole execution.", c04_gen, c04_exec };
static RegisterScenario r04(&c04);

// ================================================================ C05
static void c05_gen(Rng& r, Plan& p, bool th) {
  p.lines.push_back(NodeCfg::random(r).line("node"));
  int n = r.range(1, th ? 12 : 8);
  for (int i = 0; i < n; ++i) {
    Call c = gen_call(r, r.chance(1, 2) ? FL_UNSUITABLE : FL_ANY, 512); c.run = r.chance(1, 2);
    if (r.chance(1, 6)) c.text = spell(gen_value(r, r.range(2, 4), 3), r, 1);
    else if (r.chance(1, 40)) c.text = spell(gen_big(r), r, (int)r.below(2));
    else if (r.chance(1, 6)) { // a small value some levels down
      JV v = gen_value(r, r.range(0, 2), 3); int kind = (int)r.below(3);
      for (int k = r.range(2, 10); k > 0; --k) { JV w = kind == 1 || (kind == 2 && r.chance(1, 2)) ? JV::Arr() : JV::Obj(); if (w.k == JV::ARR) { w.a.push_back(v); if (r.chance(1, 4)) w.a.push_back(JV::Int("1")); } else { if (r.chance(1, 4)) w.put("b", JV::Bool(true)); w.put("a", v); } v = w; }
      c.text = spell(v, r, (int)r.below(2));
    }
    if (r.chance(1, 2)) c.text = damage_text(r, c.text);
    Line l = call_line("call", c.op, c.run, cstr(c.text));
    if (i && r.chance(1, 4)) l = related_call(r, p.lines.back(), "call");
    p.lines.push_back(l);
  }
}
static Outcome c05_exec(const Plan& p) {
  Outcome o; NodeCfg cfg = node_of(p); std::vector<Call> calls = calls_of(p, "call"); if (calls.empty()) return o;
  CallRun cr; run_calls(cfg, std::vector<Call>(), calls, cr, o); if (o.bad()) return o;
  for (size_t i = 0; i < calls.size() && !o.bad(); ++i) {
    const Call& c = calls[i]; std::string s = i < cr.out.size() ? cr.out[i] : "missing"; cover_call(c, s);
    ReadResult r = read_json(c.text); std::string rej = c.run ? "null" : "gas:1500";
    bool answer = s.compare(0, 4, "gas:") == 0 || s.compare(0, 4, "out:") == 0 || s == "null";
    if (s.compare(0, 5, "viol:") == 0) o.fail(s.substr(5, s.find(' ') - 5), describe_call(c) + ": " + s);
    else if (!answer && s != "exit:87") o.fail(s.compare(0, 5, "crash") == 0 ? "crash" : s == "hang" ? "hang" : s.compare(0, 4, "exc:") == 0 || s == "oom" ? "exception" : "ended", describe_call(c) + ": " + esc(s));
    else if (r.gray) continue;
    else if (!r.ok) { o.nontrivial = true; if (s != "exit:87") o.fail("malformed-accepted", describe_call(c) + " answers " + esc(s) + " although the text does not begin with a complete JSON value"); }
    else if (s == "exit:87") o.fail("wellformed-refused", describe_call(c) + " ends the process although the text begins with a complete JSON value");
    else if (is_kind_unsuitable(c.op, r.v)) { o.nontrivial = true; if (s != rej) o.fail("unsuitable-accepted", describe_call(c) + " answers " + esc(s) + " instead of " + rej); }
  }
  return o;
}
static const Scenario c05 = { "C05", "1 to 12 calls per simulated node with argument texts that are truncated, corrupted, spliced, nested, extended or of unsuitable shape; a strict reader decides which are well-formed; memory around the text holds seeded bytes. Non-trivial: at least one text is malformed or unsuitable. Distinct: hash of the whole execution.", c05_gen, c05_exec };
static RegisterScenario r05(&c05);

// ================================================================ C06
static void c06_gen(Rng& r, Plan& p, bool th) {
  p.lines.push_back((r.chance(1, 4) ? NodeCfg() : NodeCfg::random(r)).line("node"));
  int n = r.range(1, th ? 8 : 5); JV last = JV::Arr();
  for (int i = 0; i < n; ++i) {
    JV a = gen_array(r, r.range(1, 5), r.range(1, 6)); Line l("echo"); if (i && r.chance(1, 4)) a = related_value(r, last); if (a.k != JV::ARR) a = JV::Arr(); if (r.chance(1, 40)) { a = gen_big(r); if (a.k != JV::ARR) { JV w = JV::Arr(); w.a.push_back(a); a = w; } }
    if (r.chance(1, 500)) { a = JV::Arr(); int m = r.range(65530, 66000), kind = (int)r.below(3); for (int k = 0; k < m; ++k) a.a.push_back(kind == 0 ? JV::Bool(k % 3 == 0) : kind == 1 ? JV::Arr() : JV::Str(k % 2 ? "" : "x")); }
    if (r.chance(1, 6)) { a = JV::Arr(); for (int k = r.range(1, 2); k > 0; --k) { std::string t = r.chance(1, 3) ? gen_utf8(r, r.range(1, 3)) : gen_string(r, r.range(0, 12)); if (r.chance(1, 4)) { JV w = JV::Obj(); w.put(t, JV::Str(gen_string(r, 3))); a.a.push_back(w); } else a.a.push_back(r.chance(3, 4) ? JV::Str(t) : JV::Int(gen_int(r))); } }   // a short text
    last = a;
    l.hex("text", cstr(spell(a, r, (int)r.below(3) > 0)));
    if (r.chance(1, 4)) l.set("fm", r.range(1, 3)).set("fa", (long long)(1 + r.below(200)));
    p.lines.push_back(l);
    if (r.chance(1, 4)) { Line t("tostr"); static const int w[] = { 64, 128, 160, 256 }; std::string d = gen_int(r); int b = w[r.below(4)]; if (r.chance(2, 3)) { std::string m = max_unsigned(b); if (d[0] == '-') d.erase(0, 1); if (dec_cmp_abs(d, m) > 0) d = r.chance(1, 2) ? m : d.substr(0, m.size() - 1); } t.set("bits", b).set("n", d); p.lines.push_back(t); }
  }
}
static std::string native(int bits, const std::string& n) {
  switch (bits) {
    case 64: return eni::to_string(eni::u64(n.c_str()));
    case 128: return eni::to_string(eni::u128(n.c_str()));
    case 160: return eni::to_string(eni::u160(n.c_str()));
    case 256: return eni::to_string(eni::u256(n.c_str()));
    default: return eni::to_string(eni::s256(n.c_str()));
  }
}
static bool isint(const std::string& s) { size_t i = s.size() && s[0] == '-' ? 1 : 0; if (i >= s.size()) return false; if (s[i] == '0' && s.size() > i + 1) return false; if (s == "-0") return false; for (; i < s.size(); ++i) if (s[i] < '0' || s[i] > '9') return false; return true; }
static Outcome c06_exec(const Plan& p) {
  Outcome o; NodeCfg cfg = node_of(p); std::vector<Line> ls;
  for (const Line& l : p.lines) {
    if (l.word == "echo") { ReadResult r = read_json(cstr(l.bytes("text"))); if (r.ok && !r.gray && r.v.k == JV::ARR) ls.push_back(l); }
    if (l.word == "tostr" && isint(l.get("n")) && fits256(l.get("n"))) ls.push_back(l);
  }
  if (ls.empty()) return o;
  // per echo: outcome, arguments seen, and the same for the fed-back result
  LifeResult a = fork_life(cfg, [&]() {
    std::string seen; seen_args = &seen;
    for (size_t i = 0; i < ls.size(); ++i) {
      set_op((int)i);
      if (ls[i].word == "tostr") {
        std::string d = ls[i].get("n"); int b = (int)ls[i].num("bits"); if (d[0] == '-' || b < 64 || b > 256 || dec_cmp_abs(d, max_unsigned(b)) > 0) b = 0;
        std::string s; try { Sut u; s = native(b, d); } catch (const std::exception& e) { Host h; s = std::string("exc:") + e.what(); }
        record("t" + std::string(s.data(), s.size())); continue;
      }
      std::string text = cstr(ls[i].bytes("text"));
      int fm = (int)ls[i].num("fm");
      if (fm >= 1 && fm <= 3) { seen_args = 0; fault_arm((FaultMode)fm, (uint64_t)ls[i].num("fa")); do_call(OP_ECHO, true, text); fault_disarm(); seen_args = &seen; }
      seen = "nothing"; std::string out = do_call(OP_ECHO, true, text);
      record("e" + out); record("a" + seen);
      if (out.compare(0, 4, "out:") == 0) { seen = "nothing"; std::string again = do_call(OP_ECHO, true, out.substr(4)); record("E" + again); record("A" + seen); }
      else { record("E"); record("A"); }
    }
    seen_args = 0;
  });
  o.mix(a); if (tool_end(a.end)) { o.toolerr = a.end + " " + a.detail; return o; }
  size_t k = 0;
  for (size_t i = 0; i < ls.size() && !o.bad(); ++i) {
    if (ls[i].word == "tostr") {
      if (k >= a.rec.size()) break;
      std::string s = a.rec[k++].substr(1); if (s != ls[i].get("n")) o.fail("integer-text", "integer " + ls[i].get("n") + " is printed as " + esc(s)); continue;
    }
    if (k + 4 > a.rec.size()) break;
    std::string out = a.rec[k].substr(1), seen = a.rec[k + 1].substr(1), out2 = a.rec[k + 2].substr(1), seen2 = a.rec[k + 3].substr(1); k += 4;
    std::string text = cstr(ls[i].bytes("text")); ReadResult r = read_json(text); std::string want = canon(r.v);
    cover(mix(want.size() / 8, text.size() / 8)); if (want.size() > 4) o.nontrivial = true;
    if (seen != want) { o.fail("arguments-changed", "arguments " + esc(text) + " reach the operation as " + esc(seen) + " instead of " + esc(want)); break; }
    if (out.compare(0, 4, "out:")) { o.fail("no-result", "echo of " + esc(text) + " answers " + esc(out)); break; }
    ReadResult q = read_json(out.substr(4));
    if (!q.ok || q.gray || !all_ws(out.substr(4), q.end)) { o.fail("result-not-json", "echo of " + esc(text) + " answers " + esc(out.substr(4)) + ", which is not JSON"); break; }
    if (canon(q.v) != want) { o.fail("result-changed", "echo of " + esc(text) + " answers " + esc(out.substr(4))); break; }
    if (seen2 != want) { o.fail("feedback", "the result " + esc(out.substr(4)) + " fed back reaches the operation as " + esc(seen2)); break; }
    if (out2.compare(0, 4, "out:")) { o.fail("feedback", "the result " + esc(out.substr(4)) + " fed back answers " + esc(out2)); break; }
    ReadResult q2 = read_json(out2.substr(4)); if (!q2.ok || q2.gray || canon(q2.v) != want) { o.fail("feedback", "the result " + esc(out.substr(4)) + " fed back answers " + esc(out2)); break; }
  }
  if (!o.bad() && a.end != "ok") o.fail(a.end.compare(0, 5, "viol:") == 0 ? a.end.substr(5) : a.end.compare(0, 5, "crash") == 0 ? "crash" : "ended", "while echoing: " + a.end + " " + a.detail);
  return o;
}
static const Scenario c06 = { "C06", "1 to 8 generated argument arrays (integers up to 256 bits, arbitrary bytes, every escape form, nesting, any whitespace) go through an echo operation that reads them through the public accessors and returns them by several construction routes, in seeded memory, locale and after calls with failing allocations; the result is parsed by an independent reader and fed back. Non-trivial: a non-empty array. Distinct: hash of the whole execution.", c06_gen, c06_exec };
static RegisterScenario r06(&c06);

// ================================================================ C10
static void c10_gen(Rng& r, Plan& p, bool th) {
  p.lines.push_back((r.chance(1, 2) ? NodeCfg() : NodeCfg::random(r)).line("node"));
  int n = r.range(1, th ? 6 : 4); bool lng = r.chance(1, 5); unsigned mask = ~0u; if (lng) { n = r.range(1, 2); mask = 1u << OP_REVERSE | 1u << OP_JSON | 1u << OP_ECHO; if (r.chance(1, 6)) mask |= 1u << OP_RSAE | 1u << OP_RSAD; Line l("long"); l.set("on", 1); if (mask < 64 && !(mask >> OP_RSAE & 3) && r.chance(1, 3)) l.set("cyc", r.range(1000, 4000)); p.lines.push_back(l); }
  for (int i = 0; i < n; ++i) {
    Call c; do { if (lng) { do c = gen_call(r, r.chance(1, 2) ? FL_VALID : FL_ANY, 512, mask); while (c.text.size() > 2000); } else c = gen_call(r, r.chance(1, 3) ? FL_VALID : r.chance(2, 3) ? FL_ANY : FL_UNSUITABLE, 1024); ReadResult rr = read_json(c.text); if (rr.ok && !rr.gray) break; } while (1);
    Line l = call_line("call", c.op, c.run, c.text); if (i && r.chance(1, 4)) l = related_call(r, p.lines.back(), "call");
    if (r.chance(1, 2)) { int m = r.range(1, 3); l.set("fm", m).set("fa", (long long)(m == 3 ? 2 + r.below(30) : 1 + r.below(r.chance(1, 2) ? 40 : 300))); }
    p.lines.push_back(l);
  }
}
static Outcome c10_exec(const Plan& p) {
  Outcome o; NodeCfg cfg = node_of(p); std::vector<Line> ls;
  for (const Line& l : p.all("call")) { ReadResult rr = read_json(call_of(l).text); if (rr.ok && !rr.gray) ls.push_back(l); }
  if (ls.empty()) return o;
  bool lng = p.first("long") != 0; for (const Line& l : ls) if (call_of(l).op == OP_SCRYPT && call_of(l).run) lng = false;
  enum { SHORT = 48, EARLY = 40, LATE = 240 }; int CYC = lng ? LATE : SHORT; if (lng) { long long c = p.first("long")->num("cyc"); if (c > LATE && c <= 4000) { CYC = (int)c; for (const Line& l : ls) { Call q = call_of(l); if (q.op == OP_RSAE || q.op == OP_RSAD || q.op == OP_SCRYPT || q.text.size() > 2000) CYC = LATE; } } }
  LifeResult a = fork_life(cfg, [&]() {
    std::vector<Call> cs; for (size_t i = 0; i < ls.size(); ++i) cs.push_back(call_of(ls[i]));
    uint64_t before = 0; int quiet = 0;
    for (int c = 0; c < CYC && (lng || quiet < 2); ++c) {
      if (life_steps() > 200000000ull) break;   // expensive calls: fewer repetitions
      if (c == CYC - 1) mark_live();
      for (size_t i = 0; i < cs.size(); ++i) {
        set_op((int)i); int fm = (int)ls[i].num("fm");
        if (fm >= 1 && fm <= 3) fault_arm((FaultMode)fm, (uint64_t)ls[i].num("fa"));
        std::string s = do_call(cs[i].op, cs[i].run, cs[i].text);
        uint64_t f = fault_disarm();
        if (c == 0) { record((f ? "f" : "c") + s); cover(mix(mix(cs[i].op, s[0]), f)); }
      }
      uint64_t now = live_bytes() + crypto_live_bytes(); record("m" + std::to_string(now));
      if (c && now <= before) ++quiet; else quiet = 0;
      before = now;
    }
    record("d" + describe_live(4));
  });
  o.mix(a); if (tool_end(a.end)) { o.toolerr = a.end + " " + a.detail; return o; }
  if (a.end.compare(0, 5, "viol:") == 0) { o.fail(a.end.substr(5), a.detail); return o; }
  if (a.end != "ok") return o;   // crashes and exits are other properties' business
  std::vector<long long> m; std::string d; for (size_t i = 0; i < a.rec.size(); ++i) if (a.rec[i][0] == 'm') m.push_back(atoll(a.rec[i].c_str() + 1)); else if (a.rec[i][0] == 'd') d = a.rec[i].substr(1);
  if (lng) {   // whatever is kept now and then must have stopped growing: the second half may not exceed the first
    size_t h = m.size() / 2; long long a1 = 0, b1 = 0; for (size_t i = EARLY; i < m.size(); ++i) { long long& x = i < h ? a1 : b1; x = std::max(x, m[i]); }
    if ((int)m.size() != CYC || b1 <= a1) m.resize(std::min<size_t>(m.size(), 3));
  }
  if ((int)m.size() == CYC) {
    std::string s; for (size_t i = 0; i < ls.size(); ++i) s += (i ? ", " : "") + describe_call(call_of(ls[i])) + (ls[i].num("fm") ? " with failing allocations" : "");
    o.fail("memory-grows", "each repetition of " + s + " keeps " + (lng ? std::to_string((m[CYC - 1] - m[EARLY]) / (CYC - EARLY)) + " more bytes on average: " : std::to_string(m[CYC - 1] - m[CYC - 2]) + " more bytes: ") + d);
  }
  o.nontrivial = m.size() >= 3;
  return o;
}
static const Scenario c10 = { "C10", "one simulated process makes the same 1 to 6 calls (valid, rejected, unsuitable; half of them with seeded allocation failures) over and over, up to 48 times (one process in five: 240 to 4000 times), and releases the results, until live bytes on the node heap and in libcrypto stop growing, and every release is checked against its allocation. Non-trivial: all repetitions completed. Distinct: hash of the whole execution.", c10_gen, c10_exec };
static RegisterScenario r10(&c10);
