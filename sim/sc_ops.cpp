#include "sc_ops.h"
#include <eni.h>
#include <json/Object.h>
#include <json/Array.h>
#include <new>
#include <map>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
using namespace rt;

extern "C" {
uint64_t* reverse_gas(char*); char* reverse_run(char*);
uint64_t* json_gas(char*); char* json_run(char*);
uint64_t* rsa_encrypt_gas(char*); char* rsa_encrypt_run(char*);
uint64_t* rsa_decrypt_gas(char*); char* rsa_decrypt_run(char*);
uint64_t* scrypt_gas(char*); char* scrypt_run(char*);
}

// ---------------------------------------------------------------- the echo operation
std::string* seen_args;

static void hexinto(std::string& o, const std::string& s) {
  static const char d[] = "0123456789abcdef";
  for (size_t i = 0; i < s.size(); ++i) { o += d[(unsigned char)s[i] >> 4]; o += d[s[i] & 15]; }
}
static void canon_into(std::string& o, const json::Value& v) {
  int kinds = v.isInteger() + v.isBoolean() + v.isString() + v.isObject() + v.isArray() + v.isUndefined();
  if (kinds != 1) o += "!kinds";
  if (v.isInteger()) {
    std::string a = eni::to_string(v.toInteger()); o += "i"; o += a;
    std::ostringstream os; os.exceptions(std::ios::badbit); os.imbue(std::locale::classic()); os << v.toInteger(); if (os.str() != a) { o += "!print "; o += os.str(); }
    return;
  }
  if (v.isBoolean()) { o += v.toBoolean() ? "t" : "f"; if (eni::to_string(v.toBoolean()) != (v.toBoolean() ? "true" : "false")) o += "!"; return; }
  if (v.isString()) { o += "s"; hexinto(o, v.toString()); return; }
  if (v.isArray()) {
    const json::Array& a = v.toArray(); o += "[";
    size_t n = 0; for (const json::Value& e : a) { if (n) o += ","; canon_into(o, e); ++n; }
    o += "]"; if (n != a.size()) o += "!size";
    return;
  }
  if (v.isObject()) {
    const json::Object& b = v.toObject(); std::map<std::string, std::string> m; size_t n = 0;
    json::Object::const_iterator it = b.begin(), e = b.end();
    for (; it != e; ++it) {
      std::string k, c; hexinto(k, it->key()); canon_into(c, it->value());
      m[k] = c; ++n;
      if (&v[it->key()] != &it->value()) o += "!lookup";
    }
    if (n != b.size() || n != m.size()) o += "!size";
    o += "{"; bool first = true;
    for (std::map<std::string, std::string>::const_iterator i = m.begin(); i != m.end(); ++i) { if (!first) o += ","; first = false; o += i->first; o += ":"; o += i->second; }
    o += "}"; return;
  }
  o += "?";
}
std::string canon_value(const json::Value& v) { std::string s; canon_into(s, v); return s; }

static void make_into(json::Value& out, const JV& v, unsigned route) {
  switch (v.k) {
    case JV::INT: {
      eni::s256 i(v.s.c_str());
      if (route % 3 == 0) { out.delegate(i); }
      else if (route % 3 == 1) out = json::Value(i);
      else if (v.s.size() < 9) out = json::Value(atoi(v.s.c_str()));
      else { json::Value t(i); out = t; }
      break;
    }
    case JV::BOOL: out = json::Value(v.b); break;
    case JV::STR:
      if (route % 2 && v.s.find('\0') == std::string::npos) out = json::Value(v.s.c_str());
      else out = json::Value(v.s);
      break;
    case JV::ARR: {
      json::Array a;
      for (size_t i = 0; i < v.a.size(); ++i) {
        json::Value e; make_into(e, v.a[i], route + i + 1);
        switch ((route + i) % 4) {
          case 0: a.push_back(e); break;
          case 1: a.emplace_back(e); break;
          case 2: a.insert(a.size(), e); break;
          default: a.insert(a.end(), e); break;
        }
      }
      if (route % 2) out = json::Value(a);
      else { std::unique_ptr<json::Array> p(new json::Array(a)); json::Value t; t.delegate(*p); p.release(); out = t; }
      break;
    }
    case JV::OBJ: {
      json::Object b;
      for (size_t i = 0; i < v.o.size(); ++i) {
        if ((route + i) % 3 == 0) make_into(b[v.o[i].first], v.o[i].second, route + i);
        else { json::Value e; make_into(e, v.o[i].second, route + i); b[v.o[i].first] = e; }
      }
      if (route % 2) out = json::Value(b);
      else { std::unique_ptr<json::Object> p(new json::Object(b)); json::Value t; t.delegate(*p); p.release(); out = t; }
      break;
    }
  }
}
json::Value make_value(const JV& v, unsigned route) { json::Value r; make_into(r, v, route); return r; }

// puts members in and takes them out again: the content stays
static void churn_members(json::Object& b, unsigned route) {
  char k[3] = { '\x01', (char)('a' + route % 26), 0 }; bool in[3];
  for (int i = 0; i < 3; ++i) { k[0] = (char)(i + 1); in[i] = b.find(k) != b.end(); if (!in[i]) b[k] = json::Value(i == 1); }
  for (int i = 2; i >= 0; --i) { k[0] = (char)(i + 1); if (!in[i]) b.erase(k); }
}

namespace {
class Echo : public eni::EniBase {
public:
  Echo(const std::string& s) : eni::EniBase(s) {}
private:
  bool parse(const json::Array& a) override {
    if (seen_args) {
      std::string c = canon_value(json::Value(a));
      Host h; *seen_args = std::string(c.data(), c.size());
    }
    m_Args = a;
    return true;
  }
  eni::Gas gas() const override { return 7 + m_Args.size(); }
  bool run(json::Array& ret) override {
    size_t n = m_Args.size();
    json::Object own; own["n"] = json::Value((int)n); churn_members(own, (unsigned)n); own["again"] = json::Value(true); own.erase("n");
    if (own.size() != 1 || own.find("n") != own.end() || own.find("again") == own.end()) ret.push_back(json::Value("!an object of its own is wrong"));
    for (size_t i = 0; i < n; ++i) {
      const json::Value& v = m_Args[(int)i];
      switch ((n + i) % 6) {
        case 0: ret.push_back(v); break;
        case 1: ret.emplace_back(v); break;
        case 2: ret.insert(ret.size(), v); break;
        case 3:
          if (v.isString()) ret.emplace_back(v.toString());
          else if (v.isInteger()) ret.emplace_back(v.toInteger());
          else if (v.isArray()) ret.emplace_back(v.toArray());
          else if (v.isObject()) { json::Object q(v.toObject()); churn_members(q, (unsigned)n); ret.emplace_back(q); }
          else ret.emplace_back(v.toBoolean());
          break;
        case 4: { json::Value t(v), u; u = t; if (u.isObject()) { json::Object q(u.toObject()); churn_members(q, (unsigned)i); u = q; } ret.push_back(u); break; }
        default: ret.insert(ret.end(), v); break;
      }
    }
    return true;
  }
  json::Array m_Args;
};
}
ENI_C_INTERFACE(echo, Echo)

c_op_t op_entry(int op, bool run) {
  switch (op) {
    case OP_REVERSE: return run ? (c_op_t)reverse_run : (c_op_t)reverse_gas;
    case OP_JSON: return run ? (c_op_t)json_run : (c_op_t)json_gas;
    case OP_RSAE: return run ? (c_op_t)rsa_encrypt_run : (c_op_t)rsa_encrypt_gas;
    case OP_RSAD: return run ? (c_op_t)rsa_decrypt_run : (c_op_t)rsa_decrypt_gas;
    case OP_SCRYPT: return run ? (c_op_t)scrypt_run : (c_op_t)scrypt_gas;
    default: return run ? (c_op_t)echo_run : (c_op_t)echo_gas;
  }
}

std::string do_call(int op, bool run, const std::string& text) {
  char* p = place_text(text); void* r = 0; std::string out; c_op_t f = op_entry(op, run); bool threw = true;
  count(run ? "calls.run" : "calls.gas");
  try { Sut s; r = f(p); threw = false; }
  catch (const std::bad_alloc&) { out = "oom"; }
  catch (const std::exception& e) { Host h; out = std::string("exc:") + e.what(); }
  catch (...) { out = "exc:?"; }
  if (strlen(text.c_str()) != text.size() ? strcmp(p, text.c_str()) : memcmp(p, text.data(), text.size() + 1)) violation("memory:argument-changed", "the call changed its argument text");
  if (!threw) {
    if (!r) out = "null";
    else {
      size_t n = 0; int kind = -1;
      if (!is_live_block(r, &n, &kind) || kind != 0) violation("memory:result-not-malloc", "the result is not a block that free() can release");
      if (run) {
        const void* z = memchr(r, 0, n);
        if (!z) violation("memory:result-unterminated", "the result text does not end within its block");
        out = std::string("out:") + (const char*)r;
      } else {
        if (n < 8) violation("memory:result-small", "the gas does not fit its block");
        uint64_t g; memcpy(&g, r, 8); char t[40]; snprintf(t, sizeof t, "gas:%llu", (unsigned long long)g); out = t;
      }
      { Sut s; ::free(r); }
    }
  }
  node_free(p);
  return out;
}

Line call_line(const std::string& w, int op, bool run, const std::string& text) { Line l(w); l.set("op", op_name(op)).set("run", (long long)run).hex("text", text); return l; }
Call call_of(const Line& l) {
  Call c; c.op = op_by_name(l.get("op")); if (c.op < 0) c.op = OP_REVERSE; c.run = l.num("run") != 0; c.text = l.bytes("text");
  size_t z = c.text.find('\0'); if (z != std::string::npos) c.text.resize(z);
  if (!l.num("raw") && example_trouble(c.op, c.text)) c.op = OP_ECHO;
  return c;
}
std::string describe_call(const Call& c) { return std::string(op_name(c.op)) + (c.run ? "_run" : "_gas") + "(" + esc(c.text) + ")"; }
Call gen_call(Rng& r, Flavor f, int maxbits, unsigned mask) {
  Call c; do c.op = (int)r.below(OP_COUNT); while (!(mask >> c.op & 1));
  if ((c.op == OP_RSAD || c.op == OP_SCRYPT) && r.chance(1, 2)) do c.op = (int)r.below(OP_COUNT); while (!(mask >> c.op & 1));
  c.run = r.chance(3, 4); c.text = gen_text(r, c.op, f, maxbits); size_t z = c.text.find('\0'); if (z != std::string::npos) c.text.resize(z);
  if (example_trouble(c.op, c.text)) c.op = OP_ECHO;
  return c;
}

bool tool_end(const std::string& e) { return e.compare(0, 3, "sim") == 0 || e.compare(0, 8, "viol:sim") == 0; }
std::string end_outcome(const LifeResult& r) { return r.end == "ok" || r.end == "killed" ? "" : r.end + (r.detail.empty() ? "" : " " + r.detail); }

void run_calls(const NodeCfg& cfg0, const std::vector<Call>& warm, const std::vector<Call>& calls, CallRun& cr, Outcome& o, int ccall, uint64_t cstep, const std::vector<std::pair<int, long long> >* wf) {
  size_t next = 0; NodeCfg cfg = cfg0; bool crashed = false; size_t done_warm = 0;
  cr.out.clear();
  for (int life = 0; next < calls.size() || done_warm < warm.size(); ++life) {
    if (life > (int)(2 * calls.size() + warm.size()) + 4) { o.toolerr = "no progress over lives"; return; }
    size_t w0 = done_warm;
    LifeResult r = fork_life(cfg, [&]() {
      for (size_t i = w0; i < warm.size(); ++i) {
        if (life_steps() > 200000000ull) { record("w"); continue; }   // a history of expensive calls: shorter
        set_op(-2); int fm = wf && i < wf->size() ? (*wf)[i].first : 0; if (fm >= 1 && fm <= 3) fault_arm((FaultMode)fm, (uint64_t)(*wf)[i].second);
        std::string s = do_call(warm[i].op, warm[i].run, warm[i].text); fault_disarm(); record("w" + s);
      }
      for (size_t i = next; i < calls.size(); ++i) {
        set_op((int)i);
        if (!crashed && ccall == (int)i && cstep) set_kill(cstep);
        record("c" + do_call(calls[i].op, calls[i].run, calls[i].text));
      }
    });
    o.mix(r); cr.lives.push_back(r);
    if (tool_end(r.end)) { o.toolerr = r.end + " " + r.detail; return; }
    size_t got = 0, gotw = 0;
    for (size_t i = 0; i < r.rec.size(); ++i) {
      if (r.rec[i][0] == 'w') { ++gotw; continue; }
      std::string s = r.rec[i].substr(1);
      size_t at = next + got; ++got;
      if (at < cr.out.size()) { if (cr.out[at] != s) { o.fail("outcome-after-restart", describe_call(calls[at]) + " gave " + esc(cr.out[at]) + " before and " + esc(s) + " after the restart"); return; } }
      else cr.out.push_back(s);
    }
    if (r.end == "ok") return;
    if (r.end == "killed") { // restart: the node executes the sequence again
      count("fault.crash_restart"); crashed = true; next = 0; done_warm = warm.size(); cfg.env = cfg.env * 31 + 7;
      continue;
    }
    // a call ended the process
    std::string e = r.end + (r.end.compare(0, 5, "exit:") && r.detail.size() ? " " + r.detail : "");
    if (w0 + gotw < warm.size()) { done_warm = w0 + gotw + 1; continue; }
    done_warm = warm.size();
    size_t at = next + got;
    if (at >= calls.size()) { o.toolerr = "life ended after its last call: " + r.end; return; }
    if (at < cr.out.size()) { if (cr.out[at] != e) { o.fail("outcome-after-restart", describe_call(calls[at]) + " gave " + esc(cr.out[at]) + " before and " + esc(e) + " after the restart"); return; } }
    else cr.out.push_back(e);
    next = at + 1;
  }
}
