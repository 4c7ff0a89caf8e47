// What a scenario offers to the driver.
#ifndef SIM_SCEN_H
#define SIM_SCEN_H
#include "rt.h"

struct Outcome {
  std::string cls;      // empty: the property held
  std::string detail;
  std::string toolerr;  // not empty: the simulator itself failed
  uint64_t hash;        // of the whole execution
  bool nontrivial;
  rt::Plan resolved;    // the same execution with the scheduler's choices written out (may be empty)
  Outcome() : hash(0xcbf29ce484222325ull), nontrivial(false) {}
  void mix(const rt::LifeResult& r) { hash = rt::mix(hash, r.hash); }
  bool bad() const { return !cls.empty() || !toolerr.empty(); }
  void fail(const std::string& c, const std::string& d) { if (!bad()) { cls = c; detail = d; } }
};

struct Scenario {
  const char* id;
  const char* rule;   // how cases are made, and what makes one non-trivial
  void (*gen)(rt::Rng&, rt::Plan&, bool thorough);
  Outcome (*exec)(const rt::Plan&);
};
// The same simulator linked to another address (ASLR): request in, answer out.  Set by the driver; answered by remote_fn there.
extern std::string (*other_image)(const std::string& request);
extern std::string (*remote_fn)(const std::string& request);
extern const Scenario* find_scenario(const std::string& id);
struct RegisterScenario { explicit RegisterScenario(const Scenario* s); };
#endif
