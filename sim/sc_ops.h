// Calling operations the way a node does, inside a life.
#ifndef SIM_SC_OPS_H
#define SIM_SC_OPS_H
#include "scen.h"
#include "ref.h"
#include <json/Value.h>

typedef void* (*c_op_t)(char*);
c_op_t op_entry(int op, bool run);
// "gas:<n>", "null", "out:<bytes>", "oom", "exc:<what>"; a process exit ends the life
std::string do_call(int op, bool run, const std::string& text);
extern std::string* seen_args;          // what the echo operation saw last (null: nobody asks)
std::string canon_value(const json::Value& v);   // canon() of model.h, through the public accessors
json::Value make_value(const JV& v, unsigned route);  // a json::Value made through the public interface


std::string describe_call(const Call& c);
Call gen_call(rt::Rng& r, Flavor f, int maxbits, unsigned opmask = ~0u);

// the life ended in a way that says nothing about the property
bool tool_end(const std::string& end);
// the end of a life as the outcome of the call it was in; empty: the life ended by itself
std::string end_outcome(const rt::LifeResult& r);
// executes calls, one life after the other when a call ends the process
struct CallRun {
  std::vector<std::string> out;  // per call
  std::vector<rt::LifeResult> lives;
};
void run_calls(const rt::NodeCfg& cfg, const std::vector<Call>& warm, const std::vector<Call>& calls, CallRun& cr, Outcome& o,
               int crash_call = -1, uint64_t crash_step = 0, const std::vector<std::pair<int, long long> >* warm_faults = 0);   // failing allocations in the warm calls
#endif
