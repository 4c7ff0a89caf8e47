// Element types and helpers of the container histories (instrumented).
#include "hist.h"
using namespace rt;
uint64_t step_fired;
long Tracked::live, Movable::live; bool Tracked::broken, Movable::broken;
enum { GOOD = 0x600d600d, DEAD = 0xdeadbeef };
Tracked::Tracked() : m_Self(this), m_Code(0), m_Heap(new int(0)), m_Magic(GOOD) { ++live; }
Tracked::Tracked(int c) : m_Self(this), m_Code(c), m_Heap(new int(c)), m_Magic(GOOD) { ++live; }
Tracked::Tracked(const Tracked& o) : m_Self(this), m_Code(o.m_Code), m_Heap(0), m_Magic(GOOD) { if (!o.sound()) broken = true; m_Heap = new int(m_Code); ++live; }
Tracked& Tracked::operator=(const Tracked& o) { if (!sound() || !o.sound()) broken = true; int c = o.m_Code; m_Code = c; if (m_Heap) *m_Heap = c; return *this; }
Tracked::~Tracked() { if (!sound()) broken = true; delete m_Heap; m_Heap = 0; m_Self = 0; m_Magic = DEAD; --live; }
bool Tracked::sound() const { return m_Self == this && m_Magic == GOOD && m_Heap && *m_Heap == m_Code; }
int Tracked::code() const { return m_Code; }
Movable::Movable() : m_Self(this), m_Code(0), m_Heap(new int(0)), m_Magic(GOOD) { ++live; }
Movable::Movable(int c) : m_Self(this), m_Code(c), m_Heap(new int(c)), m_Magic(GOOD) { ++live; }
Movable::Movable(const Movable& o) : m_Self(this), m_Code(o.m_Code), m_Heap(0), m_Magic(GOOD) { if (!o.sound()) broken = true; m_Heap = new int(m_Code); ++live; }
Movable::Movable(Movable&& o) noexcept : m_Self(this), m_Code(o.m_Code), m_Heap(o.m_Heap), m_Magic(GOOD) { if (!o.sound()) broken = true; o.m_Heap = 0; o.m_Code = -1; ++live; }
Movable& Movable::operator=(const Movable& o) {
  if (m_Self != this || m_Magic != GOOD || !o.sound()) broken = true;
  int c = o.m_Code; if (!m_Heap) m_Heap = new int(c); *m_Heap = c; m_Code = c; return *this;
}
Movable::~Movable() { if (m_Self != this || m_Magic != GOOD) broken = true; delete m_Heap; m_Heap = 0; m_Self = 0; m_Magic = DEAD; --live; }
bool Movable::sound() const { return m_Self == this && m_Magic == GOOD && (m_Heap ? *m_Heap == m_Code : m_Code == -1); }
int Movable::code() const { return m_Code; }

std::string text_of_code(int c) {
  if (c < 0) c = -c;
  char t[24]; snprintf(t, sizeof t, "%d", c);
  switch (c % 7) {
    case 0: return c ? std::string(t) : std::string();
    case 1: case 2: return t;
    case 3: return std::string(20 + c % 60, (char)('a' + c % 26)) + t;
    case 4: return std::string(t) + std::string("\0\xff\0", 3);
    case 5: return std::string(c % 3, '\0') + t;
    default: return std::string(t) + std::string(300, 'z');
  }
}
json::Value value_of_code(int c) {
  if (c < 0) c = -c;
  switch (c % 6) {
    case 0: return json::Value(c);
    case 1: return json::Value(c % 4 == 1);
    case 2: { std::string s; { Host h; s = text_of_code(c); } return json::Value(s); }
    case 3: { json::Array a; for (int i = 0; i < c % 4; ++i) a.push_back(json::Value(c + i)); return json::Value(a); }
    case 4: { json::Object b; b["k"] = json::Value(c); b["a longer key than fits in place"] = json::Value("text"); return json::Value(b); }
    default: { eni::s256 v(c); v = v * v * v * v * v * v * v * v; return json::Value(-v); }
  }
}
Outcome judge_history(const Plan& p, const NodeCfg& cfg, const std::function<void()>& body, Outcome& o, size_t steps) {
  LifeResult a = fork_life(cfg, [&]() {
    uint64_t m = live_bytes(); body();
    if (live_bytes() <= m) return;
    // something may be made once and kept: only what every repetition keeps is lost
    count("history.again"); m = live_bytes(); mark_live(); body();
    if (live_bytes() > m) violation("memory-kept", "when everything is destroyed " + std::to_string(live_bytes() - m) + " bytes are still allocated: " + describe_live(4));
  }); o.mix(a);
  if (tool_end(a.end)) { o.toolerr = a.end + " " + a.detail; return o; }
  if (a.end != "ok") o.fail(a.end.compare(0, 5, "viol:") == 0 ? a.end.substr(5) : a.end.compare(0, 5, "crash") == 0 ? "crash" : a.end, a.end + " " + a.detail);
  o.nontrivial = steps > 1;
  return o;
}
