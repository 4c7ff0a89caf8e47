#include "gen.h"
using namespace rt;
void gen_fault(Rng& r, Line& l, int every) {
  if (every <= 0 || !r.chance(1, every)) return;
  int m = r.range(1, 3); l.set("fm", m).set("fa", (long long)(m == 3 ? 2 + r.below(4) : 1 + r.below(r.chance(2, 3) ? 4 : 20)));
}
