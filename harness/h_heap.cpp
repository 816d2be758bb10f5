#include "queue.h"
#include <algorithm>
namespace {
  void addAll(const QInfo& q) {
    mc::add(q.name + "/weak-orders", [q](mc::Ctx& c) {weakOrders(c, q, c.tier(7, 8));}, 4);
    mc::add(q.name + "/histories", [q](mc::Ctx& c) {histories(c, q, c.tier(5, 7));}, 3);
    mc::add(q.name + "/seeded", [q](mc::Ctx& c) {
      std::vector<int> s;
      for (int i = 0; i <= 36; ++i) s.push_back(i);
      s.push_back(63); s.push_back(64); s.push_back(65); s.push_back(130);
      seeded(c, q, s, c.tier(2, 3));
    }, 2);
    mc::add(q.name + "/reuse", [q](mc::Ctx& c) {reuse(c, q, c.tier(2, 3), 18);}, 2);
    mc::add(q.name + "/large", [q](mc::Ctx& c) {
      // the numbers around which an index or count of 8 or 16 bits ends
      std::vector<int> s;
      if (c.mTier == mc::Quick) s = {255, 257, 1030, 5000, 66000};
      else s = {127, 129, 254, 255, 256, 257, 300, 511, 513, 600, 1023, 1030, 5000, 32770, 65535, 65536, 65537, 140000, 600000};
      large(c, q, s, c.tier(2, 5));
    }, 4);
  }
}
void mc::registerSuites() {
  QInfo q[] = {
    {"heap si16", [](Ctl* c) {return makeHeap<E16, false, false>(c);}, false, true},
    {"heap fi16", [](Ctl* c) {return makeHeap<E16, false, true>(c);}, false, true},
    {"heap fi32", [](Ctl* c) {return makeHeap<E32, false, true>(c);}, false, false},
    {"heap si24", [](Ctl* c) {return makeHeap<E24, false, false>(c);}, false, false},
    {"dheap si16", [](Ctl* c) {return makeHeap<E16, true, false>(c);}, true, true},
    {"dheap fi16", [](Ctl* c) {return makeHeap<E16, true, true>(c);}, true, true},
    {"tour", [](Ctl* c) {return makeTour<E16>(c);}, false, true},
    {"tour24", [](Ctl* c) {return makeTour<E24>(c);}, false, false},
    {"stl", [](Ctl* c) {return makeStl<E16>(c);}, false, true},
  };
  for (auto& x : q) {
    x.unsorted = x.range; // only geobuckets ask for sorted ranges
    addAll(x);
    if (x.name.compare(0, 4, "tour") == 0)
      mc::add(x.name + "/faults", [x](mc::Ctx& c) {faults(c, x, c.tier(18, 34), c.tier(1, 2));}, 3);
  }
}
