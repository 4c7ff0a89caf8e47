// C11: RSA calls and helpers.  C12: scrypt.
#include "sc_ops.h"
#include "gen.h"
#include "hist.h"
#include <eni_crypto.h>
#include <scrypt.h>
using namespace rt;

static NodeCfg node_of(const Plan& p) { const Line* l = p.first("node"); return l ? NodeCfg::from(*l) : NodeCfg(); }
static void judge_end(const LifeResult& a, Outcome& o, const std::string& what) {
  if (o.bad() || a.end == "ok") return;
  o.fail(a.end.compare(0, 5, "viol:") == 0 ? a.end.substr(5) : a.end.compare(0, 5, "crash") == 0 ? "crash" : "ended", what + ": " + a.end + " " + a.detail);
}

// ================================================================ C11
enum { HP_STR2HEX, HP_HEX2STR, HP_PUBENC, HP_PUBDEC, HP_PRIVENC, HP_PRIVDEC, HP_KINDS };
static const char* const HPN[HP_KINDS] = { "str2hex", "hex2str", "pub_encrypt", "pub_decrypt", "priv_encrypt", "priv_decrypt" };

static std::string some_bytes(Rng& r, const RsaKey& k, int kind) {
  int sz = rsa_bytes(k); std::string m;
  switch (r.below(9)) {
    case 0: break;
    case 1: m = std::string(sz, '\0'); break;
    case 2: m = std::string(r.range(0, sz), '\0'); m.resize(sz, (char)r.range(1, 100)); break;
    case 3: m = ref_exact_less(k, r.chance(1, 2) ? "1" : "2"); break;
    case 4: m = ref_exact_less(k, "0"); break;
    case 5: for (int i = 0; i < sz + r.range(1, 5); ++i) m += (char)r.below(256); break;
    case 6: for (int i = 0; i < sz; ++i) m += (char)r.below(256); break;
    default: { int n = r.range(1, sz); for (int i = 0; i < n; ++i) m += (char)(1 + r.below(r.chance(1, 4) ? 255 : 126)); }
  }
  if (kind == HP_PUBDEC || kind == HP_PRIVDEC) { // the image of something, mostly
    if (r.chance(1, 4)) return m;
    std::string x, c; int n = r.range(0, sz); for (int i = 0; i < n; ++i) x += (char)(1 + r.below(127)); x.resize(sz, '\0');
    if (ref_rsa(k, kind == HP_PUBDEC, x, c)) return c;
  }
  return m;
}
static bool helper_priv(const Line& l) { int h = (int)l.num("h"); return h == HP_PRIVENC || h == HP_PRIVDEC || l.num("priv") != 0; }
static std::string helper_pem(const Line& l) { int k = (int)l.num("key"); const RsaKey& q = rsa_keys[k]; return pem_variant(helper_priv(l) ? k % 2 ? q.priv8 : q.priv1 : q.pub, (int)l.num("pv"), q); }
static void c11_gen(Rng& r, Plan& p, bool th) {
  p.lines.push_back((r.chance(1, 4) ? NodeCfg() : NodeCfg::random(r)).line("node"));
  int n = r.range(2, th ? 16 : 10), bits = r.chance(1, 4) ? r.chance(1, 5) ? 4096 : 2048 : 1024; bool ent = r.chance(1, 4);
  for (int i = 0; i < n; ++i) {
    if (r.chance(1, 2)) {
      Call c; c.op = r.chance(1, 2) ? OP_RSAE : OP_RSAD; c.run = r.chance(4, 5); c.text = cstr(gen_text(r, c.op, r.chance(1, 3) ? FL_VALID : r.chance(5, 6) ? FL_ANY : FL_UNSUITABLE, bits));
      Line l = call_line("call", c.op, c.run, c.text);
      if (r.chance(1, 3)) for (size_t q = p.lines.size(); q-- > 1;) if (p.lines[q].word == "call") { l = related_call(r, p.lines[q], "call"); if (r.chance(2, 3)) break; }
      if (ent && r.chance(1, 2)) l.set("ent", 1); p.lines.push_back(l);
    } else {
      int k; do k = (int)r.below(n_rsa_keys); while (rsa_keys[k].bits > bits);
      int h = (int)r.below(HP_KINDS); std::string m;
      if (h == HP_STR2HEX) m = gen_string(r, 200); else if (h == HP_HEX2STR) { m = gen_string(r, 100); m = tohex(m); if (r.chance(1, 3)) for (char& ch : m) if (ch >= 'a' && r.chance(1, 2)) ch -= 32; if (r.chance(1, 3) && m.size()) { if (r.chance(1, 2)) m.erase(r.below(m.size()), 1); else m[r.below(m.size())] = "gG/:@`\x80 \0"[r.below(9)]; } }
      else m = some_bytes(r, rsa_keys[k], h);
      Line l("help"); l.set("h", h).set("key", k).hex("m", m).set("own", (long long)r.chance(1, 2)).set("priv", (long long)r.chance(1, 3)); if (r.chance(1, 6)) l.set("pv", (long long)gen_pem_variant(r)); if (ent && r.chance(1, 2)) l.set("ent", 1); p.lines.push_back(l);
    }
  }
}
static Outcome c11_exec(const Plan& p) {
  Outcome o; NodeCfg cfg = node_of(p); std::vector<Line> ls;
  for (const Line& l : p.lines) {
    if (l.word == "call") { Call c = call_of(l); ReadResult rr = read_json(c.text); if ((c.op == OP_RSAE || c.op == OP_RSAD) && rr.ok && !rr.gray) ls.push_back(l); }
    if (l.word == "help" && l.num("h") >= 0 && l.num("h") < HP_KINDS && l.num("key") >= 0 && l.num("key") < n_rsa_keys) ls.push_back(l);
  }
  if (ls.empty()) return o;
  LifeResult a = fork_life(cfg, [&]() {
    set_prompt_answer("secret"); RSA* pool[64][2]; memset(pool, 0, sizeof pool);
    for (size_t i = 0; i < ls.size(); ++i) {
      const Line& l = ls[i]; set_op((int)i); entropy_fail(l.num("ent") != 0);
      if (l.word == "call") { Call c = call_of(l); record("c" + do_call(c.op, c.run, c.text)); }
      else {
        int h = (int)l.num("h"), k = (int)l.num("key"); std::string m = l.bytes("m"), out, res; bool ok = false, priv = helper_priv(l); RSA *single = 0, **slot = l.num("pv") ? &single : &pool[k % 64][priv];
        try {
          Sut u; std::string in(m), r = "untouched"; bool asked = true;
          if (h >= HP_PUBENC) {
            if (!*slot) { std::string pem; { Host x; pem = helper_pem(l); } *slot = priv ? eni_crypto::rsa::create_privkey(pem) : eni_crypto::rsa::create_pubkey(pem); }
            if (!*slot) { Host x; res = "nokey"; asked = false; }
          }
          if (asked) switch (h) {
            case HP_STR2HEX: ok = eni_crypto::str2hex(in, r); break;
            case HP_HEX2STR: ok = eni_crypto::hex2str(in, r); break;
            case HP_PUBENC: ok = eni_crypto::rsa::pub_encrypt(**slot, in, r); break;
            case HP_PUBDEC: ok = eni_crypto::rsa::pub_decrypt(**slot, in, r); break;
            case HP_PRIVENC: ok = eni_crypto::rsa::priv_encrypt(**slot, in, r); break;
            default: ok = eni_crypto::rsa::priv_decrypt(**slot, in, r); break;
          }
          if (asked) { Host x; res = ok ? "y" + host_copy(r) : "n"; }
          if (h >= HP_PUBENC && (l.num("own") || l.num("pv"))) { eni_crypto::rsa::destroy(*slot); if (*slot) { Host x; res = "key pointer left behind"; } }
        } catch (const std::exception& e) { res = std::string("exc:") + e.what(); }
        record("h" + res);
      }
      entropy_fail(0);
      record("p" + std::to_string(prompts()));
    }
    for (int i = 0; i < 64; ++i) for (int j = 0; j < 2; ++j) if (pool[i][j]) { Sut u; eni_crypto::rsa::destroy(pool[i][j]); }
  });
  o.mix(a); if (tool_end(a.end)) { o.toolerr = a.end + " " + a.detail; return o; }
  long long asked = 0; int results = 0;
  for (size_t i = 0; i < ls.size() && 2 * i + 1 < a.rec.size() && !o.bad(); ++i) {
    const Line& l = ls[i]; std::string out = a.rec[2 * i].substr(1); bool ent = l.num("ent") != 0;
    if (atoll(a.rec[2 * i + 1].c_str() + 1) != asked) { o.fail("prompt", "operation " + std::to_string(i) + " asked at a terminal for a pass phrase"); break; }
    if (l.word == "call") {
      Call c = call_of(l); JV v = read_json(c.text).v; Expect e = expect_call(c.op, v); std::string why, d = describe_call(c);
      bool kindbad = is_kind_unsuitable(c.op, v);
      if (!kindbad && c.op == OP_RSAD && e.accepted && !e.known) { // a short ciphertext: its number, or no result
        if (c.run ? out != "null" : false) { std::string m; int k = ref_read_key(true, v.a[0].s); if (k >= 0) { if (ref_rsa(rsa_keys[k], true, unhex(v.a[1].s), m)) { e.known = e.has_result = true; e.result = JV::Arr(); e.result.a.push_back(JV::Str(m.c_str())); } else e.known = true; } }
        else if (!c.run) e.known = true;
      }
      cover(mix(mix(c.op * 4 + c.run * 2 + ent, out[0]), mix(e.known * 4 + e.accepted * 2 + e.has_result, v.k == JV::ARR ? v.a.size() : 9)));
      if (out.compare(0, 4, "exc:") == 0 || out == "oom") { o.fail("exception", d + " raises " + out); break; }
      if (!e.known) continue;
      if (!c.run) { if (out != expect_gas(e)) o.fail("gas", d + " answers " + out + " instead of " + expect_gas(e)); }
      else { if (!result_matches(e, out, why)) o.fail(ent ? "wrong-without-entropy" : "result", d + ": " + why); else if (out != "null") ++results; }
    } else {
      int h = (int)l.num("h"), ki = (int)l.num("key"); std::string m = l.bytes("m"), want, w; bool exact = true;
      if (h >= HP_PUBENC) {
        int q = ref_read_key(helper_priv(l), helper_pem(l)); if (q == -2) continue;
        if (q == -1) { if (out != "nokey") o.fail("key", "a text that is no key is accepted: " + esc(helper_pem(l))); cover(mix(77, (uint64_t)l.num("pv"))); continue; }
        ki = q;
      }
      const RsaKey& k = rsa_keys[ki]; int sz = rsa_bytes(k);
      switch (h) {
        case HP_STR2HEX: want = "y" + tohex(m); break;
        case HP_HEX2STR: want = m.size() % 2 || m.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos ? "n" : "y" + unhex(m); break;
        case HP_PUBENC: case HP_PRIVENC: { std::string q = m; if ((int)q.size() > sz) want = "n"; else { q.resize(sz, '\0'); want = ref_rsa(k, h == HP_PRIVENC, q, w) ? "y" + w : "n"; } break; }
        default: if ((int)m.size() > sz) want = "n"; else { want = ref_rsa(k, h == HP_PRIVDEC, m, w) ? "y" + std::string(w.c_str()) : "n"; if ((int)m.size() < sz && out == "n") exact = false; } break;
      }
      cover(mix(mix(h, ki), mix(out[0], m.size() / 8)));
      if (exact && out != want) o.fail(ent ? "wrong-without-entropy" : "helper", std::string(HPN[h]) + " of " + std::to_string(m.size()) + " bytes with a key of " + std::to_string(k.bits) + " bits: " + esc(out) + " instead of " + esc(want));
      else if (out[0] == 'y') ++results;
    }
  }
  judge_end(a, o, "in operation " + std::to_string(a.rec.size() / 2));
  o.nontrivial = results > 0;
  return o;
}
static const Scenario c11 = { "C11", "2 to 16 calls of the RSA operations and of the encryption helpers in one simulated process, over keys of 512 to 4096 bits (also of odd size, other kinds, damaged, protected by a pass phrase), messages around every boundary, seeded entropy, memory and history, sometimes with a failing entropy source and always with somebody at the terminal; gas, results and refusals are compared with modular exponentiation. Non-trivial: at least one result was computed. Distinct: hash of the whole execution.", c11_gen, c11_exec };
static RegisterScenario r11(&c11);

// ================================================================ C12
static void c12_gen(Rng& r, Plan& p, bool th) {
  p.lines.push_back((r.chance(1, 4) ? NodeCfg() : NodeCfg::random(r)).line("node"));
  bool threads = r.chance(1, 3); int n = threads ? r.range(2, 3) : r.range(1, th ? 12 : 6);
  for (int i = 0; i < n; ++i) {
    Line l;
    if (r.chance(3, 4)) {
      Call c; c.op = OP_SCRYPT; c.run = r.chance(4, 5); c.text = cstr(gen_text(r, c.op, r.chance(1, 2) ? FL_VALID : r.chance(7, 8) ? FL_ANY : FL_UNSUITABLE, 1024)); l = call_line("call", c.op, c.run, c.text);
      if (r.chance(1, 2)) for (size_t q = p.lines.size(); q-- > 1;) if (p.lines[q].word == "call") { do l = related_call(r, p.lines[q], "call"); while (l.num("op") != p.lines[q].num("op")); if (r.chance(2, 3)) break; }
      if (!threads && r.chance(1, 10)) l.set("fm", r.range(1, 3)).set("fa", (long long)(2 + r.below(40)));
    } else {
      std::string m; int k = (int)r.below(4); for (int j = 0; j < 80; ++j) m += (char)(k == 0 ? 0 : k == 1 ? 255 : r.below(256));
      l = Line("raw"); l.hex("m", m).set("in", (long long)r.below(16)).set("out", (long long)r.below(16)).set("pad", (long long)r.below(4) * (long long)r.below(17)).set("sp", (long long)r.below(2));
    }
    if (threads) l.set("t", (long long)(i < 2 ? i : (int)r.below(3))); p.lines.push_back(l);
  }
  if (threads) p.lines.push_back(sched_line(gen_sched(r, 400)));
}
static std::string do_raw(const Line& l) {
  std::string m = l.bytes("m"); m.resize(80, '\0'); size_t ia = (size_t)(l.num("in") & 15), oa = (size_t)(l.num("out") & 15), sa = (size_t)(l.num("pad") & 63);
  char* in = (char*)node_alloc(ia + 80); char* out = (char*)node_alloc(oa + 32); char* sp = l.num("sp") ? (char*)node_alloc(sa + SCRYPT_SCRATCHPAD_SIZE) : 0;
  memcpy(in + ia, m.data(), 80); std::string keep(in, ia + 80);
  { Sut u; if (sp) scrypt_1024_1_1_256_sp_generic(in + ia, out + oa, sp + sa); else scrypt_1024_1_1_256(in + ia, out + oa); }
  std::string r(out + oa, 32); if (keep != std::string(in, ia + 80)) r = "the input was changed";
  node_free(in); node_free(out); if (sp) node_free(sp); return r;
}
static Outcome c12_exec(const Plan& p) {
  Outcome o; NodeCfg cfg = node_of(p); std::vector<Line> ls; int nt = 0;
  for (const Line& l : p.lines) {
    if (l.word == "call") { Call c = call_of(l); ReadResult rr = read_json(c.text); if (c.op != OP_SCRYPT || !rr.ok || rr.gray) continue; ls.push_back(l); }
    else if (l.word == "raw") ls.push_back(l); else continue;
    int t = (int)l.num("t"); if (t < 0 || t > 3) return o; if (t + 1 > nt) nt = t + 1;
  }
  if (ls.empty()) return o;
  bool threads = p.first("sched") != 0 && nt > 1; SchedCfg sc = sched_of(p); if (sc.mode != 9) sc.pre.clear();
  auto one = [&](const Line& l) -> std::string {
    if (l.word == "raw") return do_raw(l);
    Call c = call_of(l); int fm = (int)l.num("fm"); if (fm >= 1 && fm <= 3 && !threads) { fault_arm((FaultMode)fm, (uint64_t)l.num("fa")); do_call(c.op, c.run, c.text); fault_disarm(); }
    return do_call(c.op, c.run, c.text);
  };
  set_hot("");
  if (threads && sc.mode == 4) {   // which static memory do the calls write?
    LifeResult t = fork_life(cfg, [&]() { track_statics(true); for (size_t i = 0; i < ls.size(); ++i) { set_op((int)i); one(ls[i]); } track_statics(false); record(written_statics()); });
    if (tool_end(t.end)) { o.toolerr = t.end + " " + t.detail; return o; }
    if (t.end == "ok" && t.rec.size() == 1) set_hot(t.rec[0]);
  }
  LifeResult a = fork_life(cfg, [&]() {
    std::vector<std::string> out(ls.size());
    if (!threads) for (size_t i = 0; i < ls.size(); ++i) { set_op((int)i); out[i] = one(ls[i]); }
    else {
      std::vector<std::function<void()> > bodies;
      for (int t = 0; t < nt; ++t) bodies.push_back([&, t]() { for (size_t i = 0; i < ls.size(); ++i) if ((int)ls[i].num("t") == t) out[i] = one(ls[i]); });
      set_op(-3); SchedStats st = run_threads(sc, bodies); count("sched.switches", st.switches); record("n" + std::to_string(st.switches));
      if (st.log.size() <= 3000) for (size_t i = 0; i < st.log.size(); ++i) record("s" + std::to_string(st.log[i].first) + " " + std::to_string(st.log[i].second.first) + " " + std::to_string(st.log[i].second.second));
    }
    for (size_t i = 0; i < out.size(); ++i) record("o" + out[i]);
  });
  o.mix(a); if (tool_end(a.end)) { o.toolerr = a.end + " " + a.detail; return o; }
  size_t k = 0; SchedStats st; st.switches = st.steps = st.shared = 0;
  for (size_t q = 0; q < a.rec.size(); ++q) {
    if (a.rec[q][0] == 's') { int t, to; unsigned long long n; if (sscanf(a.rec[q].c_str() + 1, "%d %llu %d", &t, &n, &to) == 3) st.log.push_back(std::make_pair(t, std::make_pair((uint64_t)n, to))); continue; }
    if (a.rec[q][0] != 'o' || k >= ls.size()) continue;
    const Line& l = ls[k++]; std::string out = a.rec[q].substr(1), why; if (o.bad()) continue;
    if (l.word == "raw") { std::string m = l.bytes("m"); m.resize(80, '\0'); std::string w = ref_scrypt_raw(m); cover(mix(l.num("in") * 16 + l.num("out"), l.num("pad") * 2 + l.num("sp"))); if (out != w) o.fail("digest", "digest of " + tohex(m) + " is " + tohex(out) + " instead of " + tohex(w)); else o.nontrivial = true; continue; }
    Call c = call_of(l); JV v = read_json(c.text).v; Expect e = expect_call(c.op, v); cover(mix(mix(c.run, e.accepted), v.k == JV::ARR && v.a.size() ? v.a[0].s.size() : 999));
    if (!c.run) { if (out != expect_gas(e)) o.fail("gas", describe_call(c) + " answers " + out + " instead of " + expect_gas(e)); }
    else if (!result_matches(e, out, why)) o.fail("digest", describe_call(c) + ": " + why);
    else if (e.has_result) o.nontrivial = true;
  }
  judge_end(a, o, "while computing digests");
  if (o.bad() && threads && sc.mode != 9 && st.log.size()) { o.resolved = p; resolve_sched(o.resolved, st); }
  return o;
}
static const Scenario c12 = { "C12", "1 to 12 scrypt calls and direct digest computations (every input length, letter case, alignment of input, output and scratch memory) in one simulated process with seeded memory and stack contents, after calls with failing allocations, or by 2 to 3 threads under a seeded scheduler; compared with an independent scrypt. Non-trivial: at least one digest was computed. Distinct: hash of the whole execution.", c12_gen, c12_exec };
static RegisterScenario r12(&c12);
