// C13: the command line tools.
#include "sc_ops.h"
#include "gen.h"
#include "hist.h"
using namespace rt;
extern "C" int eni_gas__main(int, char**); extern "C" int eni_run__main(int, char**);

static NodeCfg node_of(const Plan& p) { const Line* l = p.first("node"); return l ? NodeCfg::from(*l) : NodeCfg(); }

// the library the simulated loader knows
static std::string* fake_answer; static bool fake_null; static uint64_t fake_number; static std::string* fake_seen; static char* fake_param;
static void fake_called(char* p) { Host h; *fake_seen += "[" + std::string(p) + "]"; if (dl_open_handles() != 1) violation("cli:closed-library", "the operation runs while its library is not loaded"); }
static void* fake_run(char* p) { fake_called(p); if (fake_null) return 0; size_t n = fake_answer->size(); char* r = (char*)malloc(n + 1); if (!r) return 0; memcpy(r, fake_answer->data(), n); r[n] = 0; return r; }
static void* fake_gas(char* p) { fake_called(p); if (fake_null) return 0; uint64_t* r = (uint64_t*)malloc(sizeof *r); if (!r) return 0; *r = fake_number; return r; }
static bool known_lib(const std::string& s) { return s == "/lib/ops.so" || s == "ops.so" || s == "-ops.so" || s == "" ; }
// -1: shipped operation `op`; -2: the fake; -3: unknown
static int known_op(const std::string& name, bool run, int& op) {
  if (name == "fake" || name == "" || name == "-fake") return -2;
  if (name == (run ? "onlyrun" : "onlygas")) return -2;
  for (int i = 0; i < OP_COUNT; ++i) if (name == op_name(i)) { op = i; return -1; }
  return -3;
}
static void c13_gen(Rng& r, Plan& p, bool th) {
  p.lines.push_back((r.chance(1, 3) ? NodeCfg() : NodeCfg::random(r)).line("node"));
  int n = r.range(1, th ? 10 : 6);
  for (int i = 0; i < n; ++i) {
    Line l("run"); l.set("run", (long long)r.below(2)); std::vector<std::string> a; std::string lib, op, par;
    static const char* libs[] = { "/lib/ops.so", "ops.so", "/lib/none.so", "", "opssso", "-ops.so" }; static const char* names[] = { "fake", "none", "onlyrun", "onlygas", "", "FAKE", "fake_run", "-fake", "fakee" };
    lib = libs[r.chance(3, 4) ? r.below(2) : r.below(6)]; int sop = (int)r.below(OP_COUNT); if (sop == OP_SCRYPT && r.chance(2, 3)) sop = OP_REVERSE; bool shipped = r.chance(1, 3);
    op = shipped ? op_name(sop) : names[r.chance(2, 3) ? 0 : r.below(9)];
    par = shipped ? cstr(gen_text(r, sop, r.chance(2, 3) ? FL_VALID : r.chance(1, 2) ? FL_ANY : FL_UNSUITABLE, 1024)) : cstr(gen_string(r, 100)); if (shipped && r.chance(1, 10)) par = damage_text(r, par);
    bool dash = lib[0] == '-' || op[0] == '-' || par[0] == '-'; int dd = dash ? (r.chance(1, 6) ? -1 : 0) : r.chance(1, 3) ? (int)r.below(5) : -1;
    a.push_back(lib); a.push_back(op); a.push_back(par);
    if (r.chance(1, 10)) a.resize(r.below(3)); else if (r.chance(1, 10)) { int m = r.range(1, 3); while (m--) a.push_back(r.chance(1, 3) ? "" : "more"); }
    if (dd >= 0) { if (dd > (int)a.size()) dd = (int)a.size(); a.insert(a.begin() + dd, "--"); if (r.chance(1, 6)) a.push_back(r.chance(1, 2) ? "--" : "-x"); }
    if (r.chance(1, 4)) { // options
      static const char* w[] = { "-x", "-", "--verbose", "--help", "---", "-h", "-1", "--=", "-- ", "--x", "-v", "-ops.so", "-fake" };
      int m = r.range(1, 3); bool front = r.chance(1, 3); while (m--) { size_t k = front ? r.below(2) : r.below(a.size() + 1); if (k > a.size()) k = a.size(); a.insert(a.begin() + k, w[r.below(13)]); }
    }
    l.set("n", (long long)a.size()); for (size_t k = 0; k < a.size(); ++k) l.hex("a" + std::to_string(k), a[k]);
    l.set("null", (long long)r.chance(1, 8));
    std::string ans; switch (r.below(6)) { case 0: break; case 1: ans = "[\"ok\"]"; break; case 2: ans = std::string(r.range(1, 20), '\n'); break; case 3: { int m = (int)r.below(r.chance(1, 40) ? 200000 : r.chance(1, 3) ? 30000 : 3000); for (int k = 0; k < m; ++k) ans += (char)(1 + r.below(255)); break; } case 4: ans = cstr("%s%n%d" + gen_string(r, 50)); break; default: ans = cstr(gen_string(r, 500)); }
    l.hex("ans", ans);
    static const unsigned long long g[] = { 0, 1, 10, 1500, 999, 1000, 123456789, 4294967295ull, 4294967296ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull };
    l.set("g", std::to_string(r.chance(1, 2) ? g[r.below(12)] : r.next() >> r.below(64)));
    if (r.chance(1, 2)) { size_t len = (op == "fake" && l.num("run") ? ans.size() : 20) + 2; l.set("of", r.range(1, 8)).set("at", (long long)(r.chance(1, 4) ? len - 1 - r.below(2) : r.below(len))); }
    if (r.chance(1, 2)) l.set("buf", (long long)r.below(8));
    if (r.chance(1, 6)) l.set("fm", r.range(1, 3)).set("fa", (long long)(2 + r.below(30)));
    p.lines.push_back(l);
  }
}
struct Want { bool settled; std::vector<int> status; bool usage, answer; std::string text; };
static Outcome c13_exec(const Plan& p) {
  Outcome o; NodeCfg cfg = node_of(p); std::vector<Line> runs = p.all("run");
  for (size_t i = 0; i < runs.size() && !o.bad(); ++i) {
    const Line& l = runs[i]; bool run = l.num("run") != 0; std::vector<std::string> a; int n = (int)l.num("n"); if (n < 0 || n > 12) continue;
    for (int k = 0; k < n; ++k) a.push_back(cstr(l.bytes("a" + std::to_string(k))));
    std::vector<std::string> pos; bool end = false; for (const std::string& s : a) { if (!end && s == "--") { end = true; continue; } if (!end && s.size() && s[0] == '-') continue; pos.push_back(s); }
    std::string ans = cstr(l.bytes("ans")); bool null = l.num("null") != 0; uint64_t g = strtoull(l.get("g", "0").c_str(), 0, 10); int fm = (int)l.num("fm"); bool faulty = fm >= 1 && fm <= 3;
    int of = (int)l.num("of"); uint64_t at = (uint64_t)l.num("at"); if (of < 0 || of > 8) of = 0;
    // what must come out
    Want w; w.usage = pos.size() != 3; w.answer = false; int op = 0, what = w.usage ? -3 : known_op(pos[1], run, op); std::string seen_want;
    if (what == -1 && example_trouble(op, pos[2])) continue;
    if (w.usage) {}
    else if (!known_lib(pos[0])) w.status.push_back(3);
    else if (what == -3) w.status.push_back(4);
    else if (what == -2) { seen_want = "[" + pos[2] + "]"; if (null) w.status.push_back(5); else { w.answer = true; w.text = (run ? ans : std::to_string(g)) + "\n"; } }
    else {
      LifeResult s = fork_life(cfg, [&]() { record(do_call(op, run, pos[2])); }); o.mix(s); if (tool_end(s.end)) { o.toolerr = s.end + " " + s.detail; return o; }
      if (s.end.compare(0, 5, "exit:") == 0) w.status.push_back(atoi(s.end.c_str() + 5));
      else if (s.end != "ok" || s.rec.empty()) continue;
      else if (s.rec[0] == "null") w.status.push_back(5);
      else if (s.rec[0].compare(0, 4, "out:") == 0 || s.rec[0].compare(0, 4, "gas:") == 0) { w.answer = true; w.text = s.rec[0].substr(4) + "\n"; }
      else continue;
    }
    LifeResult b = fork_life(cfg, [&]() {
      std::string seen; fake_answer = &ans; fake_null = null; fake_number = g; fake_seen = &seen; set_op((int)i);
      set_loader([&](const char* path) -> void* { return path && known_lib(path) ? (void*)0x10 : 0; },
                 [&](void* h, const char* nm) -> void* {
                   if (h != (void*)0x10 || dl_open_handles() != 1) violation("cli:handle", "a symbol is looked up in something that is not the loaded library");
                   std::string s = nm; bool r = s.size() >= 4 && s.compare(s.size() - 4, 4, "_run") == 0, q = s.size() >= 4 && s.compare(s.size() - 4, 4, "_gas") == 0; if (!r && !q) return 0;
                   int x = 0, k = known_op(s.substr(0, s.size() - 4), r, x); if (k == -3) return 0; return k == -2 ? r ? (void*)fake_run : (void*)fake_gas : (void*)op_entry(x, r);
                 });
      std::vector<char*> argv; argv.push_back(place_text(run ? "eni_run" : "eni_gas")); for (const std::string& s : a) argv.push_back(place_text(s));
      char** av = (char**)node_alloc((argv.size() + 1) * sizeof(char*)); for (size_t k = 0; k < argv.size(); ++k) av[k] = argv[k]; av[argv.size()] = 0;
      static char obuf[8192];
      switch (l.num("buf")) { case 1: setvbuf(stdout, 0, _IONBF, 0); break; case 2: setvbuf(stdout, obuf, _IOLBF, 64); break; case 3: setvbuf(stdout, obuf, _IOLBF, 4096); break; case 4: setvbuf(stdout, obuf, _IOFBF, 1); break; case 5: setvbuf(stdout, obuf, _IOFBF, 16); break; case 6: setvbuf(stdout, obuf, _IOFBF, 512); break; case 7: setvbuf(stdout, obuf, _IOFBF, 8192); break; }
      OutFault f; f.kind = of; f.at = at; out_begin(f);
      if (faulty) fault_arm((FaultMode)fm, (uint64_t)l.num("fa"));
      int st = 0;
      try { Sut u; st = run ? eni_run__main((int)argv.size(), av) : eni_gas__main((int)argv.size(), av); }
      catch (...) { st = 134; }
      uint64_t af = fault_disarm();
      flush_std(); uint64_t fired = out_faults_fired(); std::string out = out_end();
      record("s" + std::to_string(st & 255)); record("o" + out); record("f" + std::to_string(fired) + " " + std::to_string(af)); record("a" + seen);
    });
    o.mix(b); if (tool_end(b.end)) { o.toolerr = b.end + " " + b.detail; return o; }
    std::string d = std::string(run ? "eni_run" : "eni_gas"); for (const std::string& s : a) d += " '" + esc(s.substr(0, 60)) + "'";
    if (of) d += " with output fault " + std::to_string(of) + " at byte " + std::to_string(at);
    if (faulty) d += " with failing allocations";
    int st = -1; std::string out, seen; uint64_t fired = 0, af = 0; bool ended = false;
    for (const std::string& s : b.rec) { if (s.compare(0, 7, "stdout:") == 0) { out = s.substr(7); continue; } if (s[0] == 's') st = atoi(s.c_str() + 1); if (s[0] == 'o') out = s.substr(1); if (s[0] == 'a') seen = s.substr(1); if (s[0] == 'f') { unsigned long long x, y; if (sscanf(s.c_str() + 1, "%llu %llu", &x, &y) == 2) fired = x, af = y; } }
    if (b.end.compare(0, 5, "exit:") == 0) { st = atoi(b.end.c_str() + 5); ended = true; af = faulty; }
    else if (b.end != "ok") { o.fail(b.end.compare(0, 5, "viol:") == 0 ? b.end.substr(5) : b.end.compare(0, 5, "crash") == 0 ? "crash" : "ended", d + ": " + b.end + " " + b.detail); break; }
    cover(mix(mix(run * 512 + of * 8 + l.num("buf"), st), mix(w.answer * 2 + w.usage, out.size() / 64)));
    std::string full = w.answer ? w.text : std::string();
    if (full.compare(0, out.size(), out) || out.size() > full.size()) { o.fail("cli:output", d + " writes " + esc(out) + (w.answer ? " instead of " + esc(full) : std::string(" though there is no answer"))); break; }
    if (st == 0 && (!w.answer || out != full)) { o.fail("cli:false-success", d + " exits with status 0 after writing " + std::to_string(out.size()) + " of " + std::to_string(full.size()) + " bytes"); break; }
    bool harsh = fired && of != 1 && of != 8;
    if (w.answer && !harsh && !af && st != 0) { o.fail("cli:false-failure", d + " exits with status " + std::to_string(st) + " though the answer could be written"); break; }
    if (!w.answer && !af) {
      if (w.usage ? st == 0 || (st >= 3 && st <= 5) : st != w.status[0]) { o.fail("cli:status", d + " exits with status " + std::to_string(st) + " instead of " + (w.usage ? std::string("a usage error") : std::to_string(w.status[0]))); break; }
    }
    if (!ended && !af && seen != seen_want) { o.fail("cli:parameters", d + ": the operation is called with " + esc(seen) + " instead of " + esc(seen_want)); break; }
    o.nontrivial = true;
  }
  return o;
}
static const Scenario c13 = { "C13", "1 to 10 runs of eni_gas or eni_run, each a simulated process with a simulated loader (libraries, operations and halves of operations that exist or not), argument lists of every length with and without '--', answers of up to 30000 bytes of any content or none, standard output with any buffering and short writes, interruptions or errors from any byte on, and failing allocations; exit status and output are compared with the rule. Non-trivial: at least one run whose outcome is settled. Distinct: hash of the whole execution.", c13_gen, c13_exec };
static RegisterScenario r13(&c13);
