// Simulator runtime: the API scenarios use.  Plain C++11, includes nothing of libeni.
#ifndef SIM_RT_H
#define SIM_RT_H
#include <stdint.h>
#include <stddef.h>
#include <functional>
#include <string>
#include <vector>
#include <map>

namespace rt {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  bool chance(int num, int den) { return below(den) < (uint64_t)num; }
  template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- plans
// A plan is a list of lines; a line is a word followed by tokens "key=value".
struct Line {
  std::string word;
  std::vector<std::pair<std::string, std::string> > kv;
  Line() {}
  explicit Line(const std::string& w) : word(w) {}
  Line& set(const std::string& k, const std::string& v);
  Line& set(const std::string& k, long long v);
  Line& hex(const std::string& k, const std::string& bytes);   // stored as x<hex>
  bool has(const std::string& k) const;
  std::string get(const std::string& k, const std::string& dflt = "") const;
  long long num(const std::string& k, long long dflt = 0) const;
  std::string bytes(const std::string& k) const;
  std::string str() const;
  static bool parse(const std::string& text, Line& out);
};
struct Plan {
  std::vector<Line> lines;
  std::string str() const;
  static bool parse(const std::string& text, Plan& out);
  std::vector<Line> all(const std::string& word) const;
  const Line* first(const std::string& word) const;
};
std::string tohex(const std::string& s);
std::string unhex(const std::string& s);
std::string esc(const std::string& s);   // printable rendering, bounded

// ---------------------------------------------------------------- node environment
struct NodeCfg {
  int base;       // 0: heap below the code, 1: above it
  int fill;       // byte new memory holds, 256: random bytes, 257: whatever was there
  int ffill;      // byte freed memory is overwritten with, 257: left alone
  int reuse;      // 0: freed blocks rest as long as possible, 1: reused at once
  int rmove;      // 1: realloc always moves
  int pad;        // blocks are displaced by this many 16-byte units
  int stack;      // byte the stack below the call holds, 256: random, 257: left alone
  int soff;       // displacement of the stack, in 16-byte units
  uint64_t env;   // seed of clock, pid, entropy, environment variables, locale, ...
  int loc;        // 0: classic locale, 1: grouping separators, 2: other character classes too
  NodeCfg();
  Line line(const std::string& word) const;
  static NodeCfg from(const Line& l);
  static NodeCfg random(Rng& r);
};

// ---------------------------------------------------------------- lives
// A life is one process of a simulated node: a forked child in pristine state.
struct LifeResult {
  // "ok", "exit:<n>", "crash:<what>", "hang", "killed", "viol:<class>"
  std::string end;
  std::string detail;
  std::vector<std::string> rec;   // what the life recorded
  uint64_t hash;                  // over all events
  uint64_t steps;                 // instrumented accesses executed
  uint64_t allocs;
};
LifeResult fork_life(const NodeCfg& cfg, const std::function<void()>& body);

// Runs fn on `in` in a forked process whose host heap and stack are at fixed places and empty: what the lives it
// starts find in memory does not depend on what this process did before.  Empty result: fn did not finish.
std::string isolated(const std::string& in, const std::function<std::string(const std::string&)>& fn);

// inside a life
void record(const std::string& s);
void trace(uint64_t v);
void violation(const std::string& cls, const std::string& detail) __attribute__((noreturn));   // ends the life
void violation(const char* cls, const char* detail) __attribute__((noreturn));
void end_life(const std::string& how, const std::string& detail) __attribute__((noreturn));
void junk_stack();
void set_op(int op);            // which plan operation runs (for reports)
void set_budget(uint64_t steps);  // instrumented accesses before "hang"
void set_kill(uint64_t step);     // end the life as "killed" at this step of the current section; 0: never
uint64_t section_steps();
uint64_t life_steps();                 // since the life began

struct Sut { Sut(); ~Sut(); private: int m_Old; };    // code in its scope is the system under test
struct Host { Host(); ~Host(); private: int m_Old; }; // code in its scope is not
bool in_sut();

// ---------------------------------------------------------------- memory
enum FaultMode { FM_NONE, FM_ONCE, FM_FOREVER, FM_EVERY, FM_BIG };
void fault_arm(FaultMode m, uint64_t at);   // at: 1 = next allocation; FM_BIG: allocations of at least `at` bytes
uint64_t fault_disarm();                    // how many allocations failed
uint64_t alloc_count();                     // node allocations so far
uint64_t live_bytes();                      // node heap
uint64_t live_blocks();
uint64_t crypto_live_bytes();
void* node_alloc(size_t n);                 // a block on the node heap, owned by the scenario
void node_free(void* p);
bool is_node_ptr(const void* p);
bool is_live_block(const void* p, size_t* size, int* kind);  // kind 0 malloc, 1 new, 2 new[]
std::string describe_live(int max);         // oldest live blocks made since mark
void mark_live();
char* place_text(const std::string& s);     // NUL-terminated copy in an exact block on the node heap

// ---------------------------------------------------------------- other seams
void entropy_fail(int on);
uint64_t entropy_draws();
uint64_t prompts();
void set_prompt_answer(const std::string& s);
void install_locale(int kind);

// stdout / loader
struct OutFault { int kind; uint64_t at; };  // 0 none, 1 short writes, 2 EINTR once, 3 ENOSPC from byte at, 4 EPIPE, 5 EIO, 6 EAGAIN, 7 EBADF, 8 writes one byte at a time
void out_begin(const OutFault& f);
std::string out_end();     // what was accepted on fd 1
const std::string& out_seen();   // the same, while it goes on; recorded as "stdout:..." when the process exits
std::string err_text();    // what was accepted on fd 2
uint64_t out_faults_fired();
void flush_std();
void set_loader(const std::function<void*(const char*)>& open, const std::function<void*(void*, const char*)>& sym);
int dl_open_handles();

// ---------------------------------------------------------------- threads
struct SchedCfg { int mode; uint64_t seed; int p1, p2; std::vector<std::pair<int, std::pair<uint64_t,int> > > pre; };
// mode 0: no preemption; 1: uniform; 2: directed at shared memory; 3: priorities with change points; 4: long stops before accesses to hot memory; 9: explicit list (tid, step, to)
struct SchedStats { uint64_t switches, steps, shared; std::vector<std::pair<int, std::pair<uint64_t,int> > > log; };
// static memory written by calls: noted in one life, hot in the next
void track_statics(bool on);
std::string written_statics();
void set_hot(const std::string& list);
SchedStats run_threads(const SchedCfg& cfg, const std::vector<std::function<void()> >& bodies);

// ---------------------------------------------------------------- statistics (shared with the worker)
void count(const char* name, uint64_t n = 1);
void cover(uint64_t key);                     // a state was reached
std::map<std::string, uint64_t> snapshot_counts();
void set_counting(bool on);
uint64_t covered_states();
uint64_t covered_functions();
const unsigned char* cover_bits(size_t* n);   // both bitmaps, in the worker

void init();   // once per process

} // namespace rt
#endif
