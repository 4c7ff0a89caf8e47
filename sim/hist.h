// Shared by the container histories.
#ifndef SIM_HIST_H
#define SIM_HIST_H
#include "sc_ops.h"
#include "gen.h"
#include <json/Object.h>
#include <json/Array.h>
#include <new>
#include <stdexcept>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

// runs f as the system under test, with the step's allocation failure; "", "oom", "range", "logic", "length", "exc"
extern uint64_t step_fired;
template<class F> inline std::string attempt(const rt::Line& l, F f) {
  int fm = (int)l.num("fm"); uint64_t fa = (uint64_t)l.num("fa"); std::string r;
  if (fm >= 1 && fm <= 3) rt::fault_arm((rt::FaultMode)fm, fa);
  try { rt::Sut s; f(); }
  catch (const std::bad_alloc&) { r = "oom"; }
  catch (const std::out_of_range&) { r = "range"; }
  catch (const std::length_error&) { r = "length"; }
  catch (const std::logic_error&) { r = "logic"; }
  catch (...) { r = "exc"; }
  step_fired = rt::fault_disarm();
  return r;
}
template<class F> inline std::string attempt(F f) { rt::Line l("none"); return attempt(l, f); }
inline std::string host_copy(const std::string& s) { return std::string(s.data(), s.size()); }
void gen_fault(rt::Rng& r, rt::Line& l, int every);   // a failure in one step of `every`
Outcome judge_history(const rt::Plan& p, const rt::NodeCfg& cfg, const std::function<void()>& body, Outcome& o, size_t steps);

// An element that knows where it lives.
struct Tracked {
  Tracked(); Tracked(int c); Tracked(const Tracked& o); Tracked& operator=(const Tracked& o); ~Tracked();
  bool sound() const;
  int code() const;
  static long live; static bool broken;
private:
  const Tracked* m_Self; int m_Code; int* m_Heap; unsigned m_Magic;
};
// the same with a move constructor
struct Movable {
  Movable(); Movable(int c); Movable(const Movable& o); Movable(Movable&& o) noexcept; Movable& operator=(const Movable& o); ~Movable();
  bool sound() const;
  int code() const;
  static long live; static bool broken;
private:
  const Movable* m_Self; int m_Code; int* m_Heap; unsigned m_Magic;
};
std::string text_of_code(int c);   // a string for a small code: short, long, empty, binary
json::Value value_of_code(int c);  // a json value for a small code (call as the system under test)
#endif
