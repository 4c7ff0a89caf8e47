// Reference computations and argument generators for the shipped operations (uninstrumented).
#ifndef SIM_REF_H
#define SIM_REF_H
#include "model.h"

enum OpId { OP_REVERSE, OP_JSON, OP_RSAE, OP_RSAD, OP_SCRYPT, OP_ECHO, OP_COUNT };
const char* op_name(int op);
int op_by_name(const std::string& s);

struct RsaKey { int bits, e; const char *n, *d, *pub, *priv1, *priv8, *enc1, *enc8, *pub1; };
extern const RsaKey rsa_keys[]; extern const int n_rsa_keys;
extern const char* const other_keys[]; extern const int n_other_keys;

int rsa_bytes(const RsaKey& k);
enum { PEM_VARIANTS = 26, PEM_MIXES = PEM_VARIANTS + 1000 };
int gen_pem_variant(rt::Rng& r);
std::string pem_variant(const std::string& pem, int v, const RsaKey& k);
int ref_read_key(bool priv, const std::string& text);   // a key of the table, -1: not a key, -2: another key
// m^e mod n resp. m^d mod n, as bytes of modulus length; false: m >= n or too long
bool ref_rsa(const RsaKey& k, bool priv, const std::string& m, std::string& out);
std::string ref_scrypt_hex(const std::string& digits);   // digits: <=160 hex digits
std::string ref_scrypt_raw(const std::string& in80);
void ref_pbkdf2_sha256(const std::string& pw, const std::string& salt, int c, size_t dklen, std::string& out);
std::string ref_exact_less(const RsaKey& k, const std::string& h); // big-endian value of n minus small h

// A call's arguments.
enum Flavor { FL_VALID, FL_ANY, FL_UNSUITABLE };
JV gen_args(rt::Rng& r, int op, Flavor f, int maxbits = 2048);

// What a call must answer.
struct Expect {
  bool known;        // the answer is settled
  bool accepted;     // the operation accepts its arguments
  uint64_t gas;
  bool has_result;
  JV result;
  Expect() : known(false), accepted(false), gas(1500), has_result(false) {}
};
Expect expect_call(int op, const JV& args);
// one of the recorded defects of the example operations (known_findings.txt) would decide the outcome
bool example_trouble(int op, const std::string& text);
// outcome strings as do_call() makes them
std::string expect_gas(const Expect& e);
bool result_matches(const Expect& e, const std::string& outcome, std::string& why);
bool is_kind_unsuitable(int op, const JV& args);   // lacks a required argument or has one of the wrong type
std::string gen_text(rt::Rng& r, int op, Flavor f, int maxbits = 2048);
// a call in a plan: "call op= run= text="
rt::Line call_line(const std::string& word, int op, bool run, const std::string& text);
struct Call { int op; bool run; std::string text; };
Call call_of(const rt::Line& l);
void warm_crypto();   // libcrypto's own tables, before any life
uint32_t ref_hash(const std::string& name, const std::string& s);
bool ref_may_include(uint32_t rule, uint32_t in);
#endif
