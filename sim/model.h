// Reference model of JSON values: independent of libeni.
#ifndef SIM_MODEL_H
#define SIM_MODEL_H
#include "rt.h"

struct JV {
  enum K { INT, BOOL, STR, OBJ, ARR } k;
  bool b;
  std::string s;                                   // STR: bytes; INT: canonical decimal text
  std::vector<JV> a;
  std::vector<std::pair<std::string, JV> > o;      // latest value per key, any order
  JV() : k(BOOL), b(false) {}
  static JV Int(const std::string& t) { JV v; v.k = INT; v.s = t; return v; }
  static JV Bool(bool x) { JV v; v.b = x; return v; }
  static JV Str(const std::string& t) { JV v; v.k = STR; v.s = t; return v; }
  static JV Arr() { JV v; v.k = ARR; return v; }
  static JV Obj() { JV v; v.k = OBJ; return v; }
  JV& put(const std::string& key, const JV& val);
  const JV* get(const std::string& key) const;
};
std::string canon(const JV& v);                    // members in key order
std::string canon_str(const std::string& s);
JV gen_value(rt::Rng& r, int depth, int breadth);
JV gen_big(rt::Rng& r);                              // as deep or as wide as arguments get
JV gen_array(rt::Rng& r, int depth, int breadth);
std::string utf8(unsigned c);
std::string gen_string(rt::Rng& r, int maxlen);
std::string gen_utf8(rt::Rng& r, int n);
std::string gen_int(rt::Rng& r);
std::string max_unsigned(int bits);                // 2^bits - 1
extern int tails;                                  // generate rare long strings, deep nesting and wide containers
std::string spell(const JV& v, rt::Rng& r, int style);   // style 0: compact, 1: any spelling
std::string spell_string(const std::string& s, rt::Rng& r, int style);
std::string print_strict(const JV& v);             // one fixed spelling, escapes everything unusual

// A strict reader of one JSON text of the supported kinds.
struct ReadResult {
  bool ok;          // text starts with a complete value
  bool gray;        // acceptance is not settled by the property (raw control characters, very deep nesting, ...)
  size_t end;       // where the value ends
  int depth;
  JV v;
};
ReadResult read_json(const std::string& text, bool build = true);
bool all_ws(const std::string& s, size_t from);

// decimal arithmetic on text, for integer bounds
int dec_cmp_abs(const std::string& a, const std::string& b);
bool fits256(const std::string& canon_int);        // |x| <= 2^256-1
extern const char* const POW256_MINUS_1;
#endif
