// Plan generators shared by scenarios (uninstrumented).
#ifndef SIM_GEN_H
#define SIM_GEN_H
#include "ref.h"
std::string damage_text(rt::Rng& r, const std::string& s);   // truncation, corruption, ... of argument text
JV related_value(rt::Rng& r, const JV& v);                     // a small change of a value: one character, digit, element, ...
rt::Line related_call(rt::Rng& r, const rt::Line& earlier, const std::string& word);   // a call that has much in common with an earlier one
std::string cstr(std::string s);                             // up to the first NUL
rt::SchedCfg gen_sched(rt::Rng& r, int weight);              // weight: rough number of steps per thread / 1000
rt::Line sched_line(const rt::SchedCfg& c);
rt::SchedCfg sched_of(const rt::Plan& p);
void resolve_sched(rt::Plan& p, const rt::SchedStats& st);
#endif
