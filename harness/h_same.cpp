// All the queues are fed the same history and must give out the same keys.
#include "queue.h"
#include <algorithm>
namespace {
  struct Inst {std::string name; std::unique_ptr<Ctl> ctl; std::unique_ptr<IQ> q;};
  void addInst(std::vector<Inst>& v, const std::string& n, IQ* (*make)(Ctl*)) {
    Inst i; i.name = n; i.ctl.reset(new Ctl()); i.ctl->disjoint = false; i.q.reset(make(i.ctl.get())); v.push_back(std::move(i));
  }
  void setup(std::vector<Inst>& v, bool wide) {
    addInst(v, "stl set", &makeStl<E16>);
    addInst(v, "heap", [](Ctl* c) {return makeHeap<E16, false, false>(c);});
    addInst(v, "heap fast", [](Ctl* c) {return makeHeap<E16, false, true>(c);});
    addInst(v, "tour tree", &makeTour<E16>);
    addInst(v, "geo plain", [](Ctl* c) {return makeGeo<false, false, false, false, false, 0, 1>(c, 2, 1);});
    addInst(v, "geo tf", [](Ctl* c) {return makeGeo<true, true, false, true, true, 0, 1>(c, 2, 2);});
    addInst(v, "geo db", [](Ctl* c) {return makeGeo<true, false, false, false, true, 1, 1>(c, 3, 1);});
    addInst(v, "geo ss", [](Ctl* c) {return makeGeo<false, true, false, true, false, 2, 2>(c, 2, 3);});
    if (wide) {
      addInst(v, "geo db pre", [](Ctl* c) {return makeGeo<false, true, false, true, true, 1, 4>(c, 4, 2);});
      addInst(v, "geo ss tf", [](Ctl* c) {return makeGeo<true, true, false, false, true, 2, 1>(c, 2, 1);});
      addInst(v, "geo plain tf pre", [](Ctl* c) {return makeGeo<true, false, false, true, false, 0, 2>(c, 2, 1);});
    }
  }
  void push(std::vector<Inst>& v, std::vector<E>& es, bool range) {
    for (auto& i : v) {
      if (range) i.q->pushRange(es);
      else for (auto& e : es) i.q->push(e);
    }
  }
  void body(mc::Ctx& c, bool wide, int depth, bool seeded) {
    std::vector<Inst> v; setup(v, wide);
    std::multiset<long long> m;
    unsigned long long id = 0;
    auto mk = [&](long long k) {E e; e.key = k; e.w = splitmix(id++); m.insert(k); return e;};
    if (seeded) {
      const int n = 1 + c.choose(c.tier(40, 140)), p = c.choose(4);
      for (int i = 0; i < n; ++i) {
        std::vector<E> es(1, mk(p == 0 ? i : p == 1 ? n - i : p == 2 ? (i * 37) % 23 : i % 2));
        push(v, es, false);
      }
      c.log("filled with " + mc::str(n) + " pattern " + mc::str(p));
    }
    for (int s = 0; s < depth; ++s) {
      const int x = c.choose(m.empty() ? 7 : 10);
      if (x < 3) {
        if (c.verbose()) c.log("push " + mc::str(x));
        std::vector<E> es(1, mk(x)); push(v, es, false);
      } else if (x < 7) {
        static const std::vector<long long> R[] = {{}, {2, 1, 0}, {1, 1}, {9, 4, 2, 1, 1, 0, -3}};
        if (c.verbose()) c.log("push range " + mc::list(R[x - 3]));
        std::vector<E> es; for (long long k : R[x - 3]) es.push_back(mk(k));
        push(v, es, true);
      } else if (x == 7) {
        const long long want = *m.rbegin();
        if (c.verbose()) c.log("pop, should be " + mc::str(want));
        for (auto& i : v) {
          long long t = i.q->top().key, k = i.q->pop().key;
          if (t != want || k != want) mc::fail(i.name + " gives " + mc::str(k) + " (top " + mc::str(t) + ") where others give " + mc::str(want));
        }
        m.erase(--m.end());
        c.outcome(want);
      } else if (x == 8) {
        // one way to replace the top: where there is no decreaseTop, pop and push
        const long long k = *m.rbegin() - 1;
        if (c.verbose()) c.log("replace the top by " + mc::str(k));
        m.erase(--m.end());
        E e = mk(k);
        for (auto& i : v) {
          if (i.q->hasDecreaseTop()) i.q->decreaseTop(e);
          else {i.q->pop(); i.q->push(e);}
        }
      } else {
        c.log("clear");
        m.clear();
        for (auto& i : v) {
          if (i.q->hasClear()) i.q->clear();
          else while (!i.q->empty()) i.q->pop();
        }
      }
      for (auto& i : v) if (i.q->empty() != m.empty()) mc::fail(i.name + ": empty() differs");
      c.step(); c.state(mc::hashAll(m));
    }
    while (!m.empty()) {
      const long long want = *m.rbegin(); m.erase(--m.end());
      for (auto& i : v) {
        if (i.q->empty()) mc::fail(i.name + " is empty before the others");
        const long long k = i.q->pop().key;
        if (k != want) mc::fail(i.name + " gives " + mc::str(k) + " where others give " + mc::str(want));
      }
      c.step();
    }
    for (auto& i : v) if (!i.q->empty()) mc::fail(i.name + " has more entries than the others");
  }
}
void mc::registerSuites() {
  mc::add("same/histories", [](mc::Ctx& c) {body(c, c.mTier == Thorough, c.tier(5, 6), false);}, 3);
  mc::add("same/seeded", [](mc::Ctx& c) {body(c, c.mTier == Thorough, c.tier(2, 3), true);}, 2);
}
