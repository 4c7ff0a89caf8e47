#include "ref.h"
#include <string.h>
#include <map>
#include <stdio.h>
#include <openssl/bn.h>
#include <openssl/evp.h>
#include <openssl/crypto.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/err.h>
using namespace rt;

#define WANT_RSA_KEYS
const RsaKey rsa_keys[] = {
#include "keys.inc"
};
#undef WANT_RSA_KEYS
const int n_rsa_keys = sizeof rsa_keys / sizeof rsa_keys[0];
const char* const other_keys[] = {
#include "keys.inc"
};
const int n_other_keys = sizeof other_keys / sizeof other_keys[0];

static const char* const names[] = { "reverse", "json", "rsa_encrypt", "rsa_decrypt", "scrypt", "echo" };
const char* op_name(int op) { return op >= 0 && op < OP_COUNT ? names[op] : "reverse"; }
int op_by_name(const std::string& s) { for (int i = 0; i < OP_COUNT; ++i) if (s == names[i]) return i; return OP_REVERSE; }
int rsa_bytes(const RsaKey& k) { return (k.bits + 7) / 8; }

bool ref_rsa(const RsaKey& k, bool priv, const std::string& m, std::string& out) {
  int sz = rsa_bytes(k); if ((int)m.size() > sz) return false;
  BN_CTX* c = BN_CTX_new(); BIGNUM *n = 0, *x = 0, *b = BN_bin2bn((const unsigned char*)m.data(), (int)m.size(), 0), *r = BN_new(); bool ok = false;
  BN_hex2bn(&n, k.n);
  if (priv) BN_hex2bn(&x, k.d); else { x = BN_new(); BN_set_word(x, k.e); }
  if (BN_cmp(b, n) < 0) { BN_mod_exp(r, b, x, n, c); out.assign(sz, 0); BN_bn2binpad(r, (unsigned char*)&out[0], sz); ok = true; }
  BN_free(n); BN_free(x); BN_free(b); BN_free(r); BN_CTX_free(c);
  return ok;
}
std::string ref_exact_less(const RsaKey& k, const std::string& h) {
  BIGNUM *n = 0, *d = 0; BN_hex2bn(&n, k.n); BN_hex2bn(&d, h.c_str()); int sz = rsa_bytes(k); BN_sub(n, n, d);
  std::string o(sz, 0); BN_bn2binpad(n, (unsigned char*)&o[0], sz); BN_free(n); BN_free(d); return o;
}
std::string ref_scrypt_raw(const std::string& in) {
  unsigned char o[32]; EVP_PBE_scrypt(in.data(), in.size(), (const unsigned char*)in.data(), in.size(), 1024, 1, 1, 0, o, 32); return std::string((char*)o, 32);
}
std::string ref_scrypt_hex(const std::string& digits) {
  std::string d = digits.size() % 2 ? "0" + digits : digits; std::string in = unhex(d); in.resize(80, '\0'); return tohex(ref_scrypt_raw(in));
}
void ref_pbkdf2_sha256(const std::string& pw, const std::string& salt, int c, size_t dk, std::string& out) {
  out.assign(dk, 0); PKCS5_PBKDF2_HMAC(pw.data(), (int)pw.size(), (const unsigned char*)salt.data(), (int)salt.size(), c, EVP_sha256(), (int)dk, (unsigned char*)&out[0]);
}

static std::string hexdigits(Rng& r, int n) { static const char d[] = "0123456789abcdefABCDEF"; std::string s; int k = r.chance(1, 2) ? 22 : 16; for (int i = 0; i < n; ++i) s += d[r.below(k)]; return s; }
static int pick_key(Rng& r, int maxbits) { for (;;) { int k = r.chance(2, 3) ? (int)r.below(8) : (int)r.below(n_rsa_keys); if (rsa_keys[k].bits <= maxbits) return k; } }
static std::string bytes_nonzero(Rng& r, int n, bool text) { std::string s; for (int i = 0; i < n; ++i) s += (char)(text ? 32 + r.below(95) : 1 + r.below(255)); return s; }
static std::string gen_msg(Rng& r, const RsaKey& k) {
  int sz = rsa_bytes(k);
  switch (r.below(10)) {
    case 9: { // its ciphertext begins with zero bytes
      std::string c(sz, '\0'), m; for (int i = r.range(1, r.chance(1, 2) ? 3 : sz - 1); i < sz; ++i) c[i] = (char)r.below(256);
      return ref_rsa(k, true, c, m) ? m : std::string("m"); }
    case 0: return "";
    case 1: return bytes_nonzero(r, r.range(1, 4), true);
    case 2: return bytes_nonzero(r, sz - 1, true);
    case 3: return bytes_nonzero(r, sz, true);
    case 4: { std::string s = bytes_nonzero(r, sz, false); s[0] = (char)r.below(256); return s; }
    case 5: return bytes_nonzero(r, sz + r.range(1, 9), true);
    case 6: { static const char* h[] = { "0", "1", "2", "100" }; return ref_exact_less(k, h[r.below(4)]); }
    case 7: return gen_string(r, sz);
    case 8: if (r.chance(1, 12)) return bytes_nonzero(r, r.chance(1, 3) ? 65536 + r.range(0, sz) : r.range(sz, 3000), r.chance(1, 2));
    default: return bytes_nonzero(r, r.range(1, sz), r.chance(1, 2));
  }
}
static std::string damage(Rng& r, std::string s) {
  if (s.empty()) return "x";
  switch (r.below(5)) {
    case 0: s.resize(r.below(s.size())); break;
    case 1: s[r.below(s.size())] = (char)(1 + r.below(127)); break;
    case 2: s.erase(r.below(s.size()), 1 + r.below(8)); break;
    case 3: { size_t i = s.find('\n'); if (i != std::string::npos) s.erase(0, i + 1); break; }
    default: s.insert(r.below(s.size()), 1, 'A'); break;
  }
  return s;
}
// numbers of the key changed, so that it can mostly still be read
static std::string inconsistent(Rng& r, std::string s) {
  size_t b = s.find('\n'), e = s.find("\n-----END"); if (b == std::string::npos || e == std::string::npos || e < b + 40) return s;
  for (int i = r.range(1, 3); i > 0; --i) { size_t at = b + 36 + r.below(e - b - 36); if (s[at] != '\n') s[at] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[r.below(64)]; }
  return s;
}
// the same key written another way, and texts that only look so
std::string pem_variant(const std::string& pem, int v, const RsaKey& k) {
  std::string o = pem; size_t e;
  if (v >= PEM_VARIANTS && v < PEM_MIXES) {   // up to three blocks
    const char* w[] = { "", pem.c_str(), k.pub, k.priv1, k.priv8, k.enc1, k.enc8, k.pub1, other_keys[v % n_other_keys], "-----BEGIN -----\n-----END -\n" };
    v -= PEM_VARIANTS; return std::string(w[v % 10]) + w[v / 10 % 10] + w[v / 100 % 10];
  }
  switch (v) {
    case 1: return "subject=/CN=x\nissuer: none\n" + o;
    case 2: return "\n\n" + o;
    case 3: { std::string q; for (char c : o) { if (c == '\n') q += '\r'; q += c; } return q; }
    case 4: return o + "some text behind\n";
    case 5: if (o.size()) o.resize(o.size() - 1); return o;
    case 6: { std::string q; for (char c : o) { if (c == '\n') q += "  "; q += c; } return q; }
    case 7: return o + std::string("\0-----", 7);
    case 8: return std::string(k.pub) + k.priv1;
    case 9: return std::string(k.priv8) + k.pub;
    case 10: return " " + o;
    case 11: return "x" + o;
    case 12: { std::string q; for (char c : o) q += c == '\n' ? '\r' : c; return q; }
    case 13: e = o.find("-----END"); if (e != std::string::npos) o.insert(e, "\n"); return o;
    case 14: e = o.find("-----END"); if (e != std::string::npos) o.insert(e, "====\n"); return o;
    case 15: { std::string q; size_t at = 0; for (char c : o) { q += c; if (++at > 60 && at % 17 == 0 && c != '\n' && at + 60 < o.size()) q += '\n'; } return q; }
    case 16: { std::string q; int line = 0; size_t end = o.find("\n-----END"); for (size_t i = 0; i < o.size(); ++i) { if (o[i] == '\n') { ++line; if (line > 1 && i < end) continue; } q += o[i]; } return q; }
    case 17: return o + o;
    case 18: e = o.find("-----END"); if (e != std::string::npos) o.resize(e); return o;
    case 19: e = o.find("BEGIN "); if (e != std::string::npos) o.replace(e, 5, "begin"); return o;
    case 20: e = o.find("-----\n"); if (e != std::string::npos) o.insert(e + 6, "Comment: 1\n\n"); return o;
    case 21: return std::string(other_keys[v % n_other_keys]) + o;
    case 22: return std::string(3000, '#') + "\n" + o;
    case 23: e = o.find("-----END "); if (e != std::string::npos) { e = o.find("KEY", e); if (e != std::string::npos) o.replace(e, 3, "KEZ"); } return o;
    case 24: e = o.find("-----\n"); if (e != std::string::npos) o.erase(e, 1); return o;
    case 25: e = o.find("-----\n"); if (e != std::string::npos) o.insert(e + 6, "\n"); return o;
    default: return o;
  }
}
int gen_pem_variant(Rng& r) { return r.chance(1, 2) ? r.range(1, PEM_VARIANTS - 1) : r.range(PEM_VARIANTS, PEM_MIXES - 1); }
// what the cryptographic library makes of a key text: a key of the table, no key at all (-1), or another key (-2)
int ref_read_key(bool priv, const std::string& text) {
  static std::map<std::string, int> known[2]; auto& m = known[priv]; auto f = m.find(text); if (f != m.end()) return f->second;
  ERR_clear_error(); BIO* b = BIO_new_mem_buf(text.c_str(), -1); auto no = [](char*, int, int, void*) { return -1; };
  RSA* r = priv ? PEM_read_bio_RSAPrivateKey(b, 0, no, 0) : PEM_read_bio_RSA_PUBKEY(b, 0, no, 0); BIO_free(b); ERR_clear_error();
  int out = -1;
  if (r) {
    out = -2; const BIGNUM *n, *e, *d, *p, *q, *x, *y, *z; RSA_get0_key(r, &n, &e, &d); RSA_get0_factors(r, &p, &q); RSA_get0_crt_params(r, &x, &y, &z);
    for (int i = 0; i < n_rsa_keys && out < 0; ++i) {
      const RsaKey& k = rsa_keys[i]; if (RSA_bits(r) != k.bits) continue;
      BIGNUM *kn = 0, *kd = 0; BN_hex2bn(&kn, k.n); BN_hex2bn(&kd, k.d); bool same = !BN_cmp(n, kn) && BN_is_word(e, k.e);
      if (same && priv) { // all its parts fit together
        same = d && !BN_cmp(d, kd) && p && q && x && y && z;
        if (same) { BN_CTX* c = BN_CTX_new(); BIGNUM *t = BN_new(), *u = BN_new(); BN_mul(t, p, q, c); same = !BN_cmp(t, n);
          if (same) { BN_sub(t, p, BN_value_one()); BN_mod(u, d, t, c); same = !BN_cmp(u, x); }
          if (same) { BN_sub(t, q, BN_value_one()); BN_mod(u, d, t, c); same = !BN_cmp(u, y); }
          if (same) { BN_mod_mul(t, z, q, p, c); same = BN_is_one(t); }
          BN_free(t); BN_free(u); BN_CTX_free(c); }
      }
      BN_free(kn); BN_free(kd); if (same) out = i;
    }
    RSA_free(r);
  }
  if (m.size() > 500) m.clear(); m[text] = out; return out;
}
static JV wrong(Rng& r) { switch (r.below(4)) { case 0: return JV::Int(gen_int(r)); case 1: return JV::Bool(r.chance(1, 2)); case 2: return gen_array(r, 1, 2); default: { JV o = JV::Obj(); if (r.chance(1, 2)) o.put("k", JV::Str("v")); return o; } } }

JV gen_args(Rng& r, int op, Flavor f, int maxbits) {
  JV a = JV::Arr();
  switch (op) {
    case OP_REVERSE: a.a.push_back(JV::Str(gen_string(r, 2000))); break;
    case OP_SCRYPT: {
      static const int len[] = { 0, 1, 2, 3, 63, 64, 79, 80, 81, 159, 160 };
      int n = r.chance(1, 2) ? len[r.below(11)] : (int)r.below(161);
      std::string s = hexdigits(r, n);
      if (f == FL_ANY && r.chance(1, 5)) s = hexdigits(r, r.chance(3, 4) ? 161 + (int)r.below(4) : r.chance(3, 4) ? 256 + (int)r.below(500) : 65536 + (int)r.below(170));
      if (f == FL_ANY && r.chance(1, 6) && s.size()) s[r.below(s.size())] = "ghGz-/:@`\x80 \x01"[r.below(12)];
      a.a.push_back(JV::Str(s)); break;
    }
    case OP_RSAE: {
      const RsaKey& k = rsa_keys[pick_key(r, maxbits)]; std::string p = k.pub;
      if (f == FL_ANY && r.chance(1, 6)) { switch (r.below(6)) { case 0: p = k.priv1; break; case 1: p = damage(r, p); break; case 5: p = inconsistent(r, p); break; case 2: p = other_keys[r.below(n_other_keys)]; break; case 3: p = k.pub1; break; default: p = ""; } }
      else if (r.chance(1, 7)) p = pem_variant(p, gen_pem_variant(r), k);
      std::string m = gen_msg(r, k); if (f == FL_VALID && (int)m.size() > rsa_bytes(k)) m.resize(3);
      a.a.push_back(JV::Str(p)); a.a.push_back(JV::Str(m)); break;
    }
    case OP_RSAD: {
      const RsaKey& k = rsa_keys[pick_key(r, maxbits)]; std::string p = r.chance(1, 2) ? k.priv1 : k.priv8;
      if (f == FL_ANY && r.chance(1, 6)) { switch (r.below(8)) { case 0: p = k.pub; break; case 1: p = damage(r, p); break; case 6: case 7: p = inconsistent(r, p); break; case 2: p = other_keys[r.below(n_other_keys)]; break; case 3: p = k.enc1; break; case 4: p = k.enc8; break; default: p = ""; } }
      else if (r.chance(1, 7)) p = pem_variant(p, gen_pem_variant(r), k);
      std::string m = gen_msg(r, k), c; if ((int)m.size() < rsa_bytes(k)) m.resize(rsa_bytes(k), '\0');
      if (!ref_rsa(k, false, m, c)) { m.assign(rsa_bytes(k), '\1'); m[0] = 0; ref_rsa(k, false, m, c); }
      if (f == FL_ANY && r.chance(1, 8)) c = r.chance(1, 2) ? c + "x" : ref_exact_less(k, "0");
      if (f == FL_ANY && r.chance(1, 8)) { size_t z = c.find_first_not_of('\0'); c = r.chance(1, 3) ? "" : r.chance(1, 2) || z == std::string::npos ? c.substr(0, r.below(c.size())) : c.substr(z); }
      std::string h = tohex(c); if (r.chance(1, 2)) for (char& ch : h) if (ch >= 'a' && r.chance(1, 2)) ch -= 32;
      if (f == FL_ANY && r.chance(1, 10)) { h += hexdigits(r, r.chance(2, 3) ? r.range(1, 40) : r.chance(3, 4) ? r.range(300, 3000) : 65536 - (int)h.size() % 7); if (r.chance(1, 2)) h[h.size() - 1 - r.below(std::min<size_t>(h.size(), 4))] = "gG:/@`\x80 "[r.below(8)]; }
      if (f == FL_ANY && r.chance(1, 8) && h.size()) { if (r.chance(1, 2)) h.erase(h.size() - 1); else h[r.below(h.size())] = "gG:/@`\x80 "[r.below(8)]; }
      a.a.push_back(JV::Str(p)); a.a.push_back(JV::Str(h)); break;
    }
    case OP_JSON: {
      JV d = gen_value(r, 3, 4); if (d.k != JV::ARR && d.k != JV::OBJ && r.chance(2, 3)) d = gen_array(r, 2, 4);
      std::string data = spell(d, r, (int)r.below(2));
      static const char* ops[] = { "parseString", "parseArray", "arrayGet", "objectGet" };
      int o = d.k == JV::STR ? 0 : d.k == JV::OBJ ? 3 : r.chance(1, 2) ? 1 : 2;
      if (f == FL_ANY && r.chance(1, 4)) o = (int)r.below(4);
      long long b = 0, e = (long long)data.size();
      while (b < e && (data[b] == ' ' || data[b] == '\t' || data[b] == '\n' || data[b] == '\r')) ++b;
      if (f == FL_ANY && r.chance(1, 4)) { b = (long long)r.below(data.size() + 2); e = (long long)r.below(data.size() + 3) - 1; }
      if (f == FL_ANY && r.chance(1, 6)) data = damage(r, data);
      a.a.push_back(JV::Str(f == FL_ANY && r.chance(1, 20) ? "other" : ops[o])); a.a.push_back(JV::Str(data)); a.a.push_back(JV::Int(std::to_string(b))); a.a.push_back(JV::Int(std::to_string(e)));
      if (o == 2) a.a.push_back(JV::Int(std::to_string(r.below(d.a.size() + 1))));
      if (o == 3) a.a.push_back(JV::Str(d.o.size() && r.chance(4, 5) ? d.o[r.below(d.o.size())].first : "none"));
      break;
    }
    default: a = gen_array(r, 3, 4); break;
  }
  if (op != OP_ECHO && f == FL_UNSUITABLE) {
    switch (r.below(3)) {
      case 0: a.a.resize(r.below(a.a.size())); break;
      case 1: a.a[r.below(a.a.size())] = wrong(r); break;
      default: { size_t i = r.below(a.a.size()); a.a[i] = a.a[i].k == JV::STR ? JV::Int("7") : JV::Str("7"); break; }
    }
  } else if (r.chance(1, 10)) { int n = r.chance(2, 3) ? 1 : r.chance(3, 4) ? r.range(2, 14) : r.range(15, 70); while (n--) a.a.push_back(gen_value(r, n > 2 ? 0 : 1, 2)); } // more arguments than needed
  return a;
}
std::string gen_text(Rng& r, int op, Flavor f, int maxbits) { return spell(gen_args(r, op, f, maxbits), r, (int)r.below(2)); }

bool is_kind_unsuitable(int op, const JV& v) {
  if (v.k != JV::ARR) return true;
  auto str = [&](size_t i) { return i < v.a.size() && v.a[i].k == JV::STR; };
  auto num = [&](size_t i) { return i < v.a.size() && v.a[i].k == JV::INT; };
  switch (op) {
    case OP_REVERSE: case OP_SCRYPT: return !str(0);
    case OP_RSAE: case OP_RSAD: return !str(0) || !str(1);
    case OP_JSON:
      if (!str(0) || !str(1) || !num(2) || !num(3)) return true;
      if (v.a[0].s == "arrayGet") return !num(4);
      if (v.a[0].s == "objectGet") return !str(4);
      return false;
    default: return false;
  }
}
static long long small_int(const std::string& s) { return s.size() > 9 ? s[0] == '-' ? -1 : 1000000000 : atoll(s.c_str()); }
bool example_trouble(int op, const std::string& text) {
  if (op != OP_REVERSE && op != OP_JSON) return false;
  ReadResult r = read_json(text);
  if (r.gray) return true;
  if (!r.ok || r.v.k != JV::ARR) return false;     // refused before the operation sees it
  const std::vector<JV>& a = r.v.a;
  if (is_kind_unsuitable(op, r.v)) return true;
  if (op == OP_REVERSE) return false;
  const std::string &o = a[0].s, &data = a[1].s; long long b = small_int(a[2].s), e = small_int(a[3].s);
  if (o != "parseString" && o != "parseArray" && o != "arrayGet" && o != "objectGet") return false;
  if (b < 0 || b > e || e > (long long)data.size() || data.find('\0') != std::string::npos) return true;
  std::string part = o == "parseString" ? data.substr(b, e) : data.substr(b, e - b);
  ReadResult q = read_json(part);
  if (q.gray) return true;
  if (o == "parseString") return q.ok && q.v.k != JV::STR;
  if (!q.ok || !all_ws(part, q.end) || q.v.k != (o == "objectGet" ? JV::OBJ : JV::ARR)) return true;
  for (size_t i = 0; i < part.size(); ++i) if (part[i] == '\\') {   // the escapes its own tokenizer knows
    if (++i >= part.size() || !strchr("\"/\\bfnrtu", part[i])) return true;
  }
  if (o == "arrayGet") { long long i = small_int(a[4].s); return i < 0 || i >= (long long)q.v.a.size(); }
  return false;
}
static bool allhex(const std::string& s) { return s.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos; }
Expect expect_call(int op, const JV& v) {
  Expect e;
  if (is_kind_unsuitable(op, v)) { e.known = true; return e; }
  switch (op) {
    case OP_REVERSE: { e.known = e.accepted = e.has_result = true; std::string s = v.a[0].s; e.gas = s.size() * 10; e.result = JV::Arr(); e.result.a.push_back(JV::Str(std::string(s.rbegin(), s.rend()))); return e; }
    case OP_SCRYPT: {
      const std::string& s = v.a[0].s; e.known = true; if (s.size() > 160 || !allhex(s)) return e;
      e.accepted = e.has_result = true; e.gas = (s.size() + 1) / 2 * 10; e.result = JV::Arr(); e.result.a.push_back(JV::Str(ref_scrypt_hex(s))); return e;
    }
    case OP_RSAE: {
      int i = ref_read_key(false, v.a[0].s); e.known = i != -2; if (i < 0) return e;
      const RsaKey& k = rsa_keys[i]; e.accepted = true; e.gas = rsa_bytes(k) * 10; std::string m = v.a[1].s, c;
      if ((int)m.size() > rsa_bytes(k)) return e;
      m.resize(rsa_bytes(k), '\0'); if (!ref_rsa(k, false, m, c)) return e;
      e.has_result = true; e.result = JV::Arr(); e.result.a.push_back(JV::Str(tohex(c))); return e;
    }
    case OP_RSAD: {
      if (v.a[1].s.size() % 2 || !allhex(v.a[1].s)) { e.known = true; return e; }
      int i = ref_read_key(true, v.a[0].s); e.known = i != -2; if (i < 0) return e;
      const RsaKey& k = rsa_keys[i]; std::string c = unhex(v.a[1].s), m; e.accepted = true; e.gas = rsa_bytes(k) * 10;
      if ((int)c.size() < rsa_bytes(k)) { e.known = false; return e; } // accepted as a number; not settled
      if ((int)c.size() > rsa_bytes(k)) return e;
      if (!ref_rsa(k, true, c, m)) return e;
      e.has_result = true; e.result = JV::Arr(); e.result.a.push_back(JV::Str(m.c_str())); return e;
    }
    default: return e;
  }
}
std::string expect_gas(const Expect& e) { return "gas:" + std::to_string(e.accepted ? e.gas : 1500); }
bool result_matches(const Expect& e, const std::string& o, std::string& why) {
  if (!e.accepted || !e.has_result) { if (o == "null") return true; why = "expected no result, got " + esc(o); return false; }
  if (o.compare(0, 4, "out:")) { why = "expected a result, got " + esc(o); return false; }
  std::string t = o.substr(4); ReadResult r = read_json(t);
  if (!r.ok || r.gray || !all_ws(t, r.end)) { why = "the result is not JSON: " + esc(t); return false; }
  if (canon(r.v) != canon(e.result)) { why = "result " + esc(t) + " instead of " + esc(print_strict(e.result)); return false; }
  return true;
}

void warm_crypto() {
  for (int i = 0; i < 2; ++i) {
    const RsaKey& k = rsa_keys[0]; const char* pems[] = { k.pub, k.priv1, k.priv8, "" , k.enc1 };
    unsigned char b[512], c[512]; memset(b, 0, sizeof b); b[1] = 5;
    for (int j = 0; j < 5; ++j) {
      BIO* bio = BIO_new_mem_buf(pems[j], -1); RSA* r = j == 0 ? PEM_read_bio_RSA_PUBKEY(bio, 0, [](char*, int, int, void*) { return -1; }, 0) : PEM_read_bio_RSAPrivateKey(bio, 0, [](char*, int, int, void*) { return -1; }, 0);
      BIO_free(bio);
      if (r) { if (j == 0) RSA_public_encrypt(RSA_size(r), b, c, r, RSA_NO_PADDING); else RSA_private_decrypt(RSA_size(r), b, c, r, RSA_NO_PADDING); RSA_free(r); }
    }
    ERR_clear_error();
    ref_scrypt_hex("00"); std::string o; ref_rsa(k, false, "", o);
  }
}

// ------------------------------------------------------------------ string hashes, from their published formulas (char is signed)
uint32_t ref_hash(const std::string& name, const std::string& s) {
  uint32_t h = 0; size_t n = s.size(); auto c = [&](size_t i) { return (uint32_t)(int32_t)(signed char)s[i]; };
  if (name == "RS") { uint32_t a = 63689; for (size_t i = 0; i < n; ++i) { h = h * a + c(i); a *= 378551u; } }
  else if (name == "JS") { h = 1315423911u; for (size_t i = 0; i < n; ++i) h ^= (h << 5) + c(i) + (h >> 2); }
  else if (name == "PJW") { for (size_t i = 0; i < n; ++i) { h = (h << 4) + c(i); uint32_t t = h & 0xf0000000u; if (t) h = (h ^ (t >> 24)) & 0x0fffffffu; } }
  else if (name == "ELF") { for (size_t i = 0; i < n; ++i) { h = (h << 4) + c(i); uint32_t x = h & 0xf0000000u; if (x) h ^= x >> 24; h &= ~x; } }
  else if (name == "BKDR") { for (size_t i = 0; i < n; ++i) h = h * 131u + c(i); }
  else if (name == "SDBM") { for (size_t i = 0; i < n; ++i) h = h * 65599u + c(i); }
  else if (name == "DJB") { h = 5381; for (size_t i = 0; i < n; ++i) h = h * 33u + c(i); }
  else if (name == "DEK") { h = (uint32_t)n; for (size_t i = 0; i < n; ++i) h = (h << 5 ^ h >> 27) ^ c(i); }
  else if (name == "BP") { for (size_t i = 0; i < n; ++i) h = h << 7 ^ c(i); }
  else if (name == "FNV") { for (size_t i = 0; i < n; ++i) h = (h * 0x811c9dc5u) ^ c(i); }
  else if (name == "AP") { h = 0xaaaaaaaau; for (size_t i = 0; i < n; ++i) h ^= i % 2 == 0 ? (h << 7) ^ (c(i) * (h >> 3)) : ~((h << 11) + (c(i) ^ (h >> 5))); }
  else { uint32_t dots = 0; for (char x : s) { if (x == '.') ++dots; else if (x >= '0' && x <= '9') h |= 1u << 27; else if (x == '_') h |= 1u << 26; else if (x >= 'A' && x <= 'Z') h |= 1u << (x - 'A'); else if (x >= 'a' && x <= 'z') h |= 1u << (x - 'a'); } h |= dots << 28; }
  return h;
}
bool ref_may_include(uint32_t rule, uint32_t in) { uint32_t r = rule & 0x0fffffffu; return (in & r) == r && rule >> 28 <= in >> 28; }
