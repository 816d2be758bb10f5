// Moving heaps, the complete binary tree below heap and tournament tree, and the
// lifetime of entries in all the queues.
#include "queue.h"
#include "divfinder.h"
#include "mathic/ComTree.h"
#include <algorithm>

namespace {
  // An entry with a checked lifetime that also owns memory.
  template<size_t Pad>
  struct LE : public Life {
    LE(): k(0), w(0), s(new std::string("none")) {}
    LE(const LE& o): Life(o), k(o.k), w(o.w), s(new std::string(*o.s)) {}
    LE& operator=(const LE& o) {
      Life::operator=(o);
      k = o.k; w = o.w; *s = *o.s;
      return *this;
    }
    ~LE() {delete s; s = 0;}
    static LE from(E e) {LE r; r.k = e.key; r.w = e.w; *r.s = mc::str(e.key); return r;}
    E to() const {
      use("given out");
      if (*s != mc::str(k)) mc::fail("the content of an entry has been torn apart");
      E r; r.key = k; r.w = w; return r;
    }
    long long k; unsigned long long w;
    std::string* s;
    char pad[Pad];
  };

  template<class Q, class Conf> void moveHeap(mc::Ctx& c, int maxN, bool dedup) {
    typedef typename Conf::Entry En;
    Ctl ctl;
    const long live = mc::liveAllocs();
    {
      std::unique_ptr<Q> a(new Q(Conf(&ctl)));
      std::map<long long, unsigned long long> want;
      const int n = c.choose(maxN + 1);
      const int p = c.choose(4);
      for (int i = 0; i < n; ++i) {
        E e; e.key = p == 0 ? i : p == 1 ? -i : p == 2 ? (i * 7) % 11 : i % 3; e.w = 1ULL << i;
        a->push(En::from(e));
        want[e.key] += e.w;
      }
      const int pops = c.choose(3);
      for (int i = 0; i < pops && !a->empty(); ++i) {
        E e = a->pop().to();
        if (e.key != want.rbegin()->first) mc::fail("pop does not give the largest key");
        if ((want[e.key] -= e.w) == 0) want.erase(e.key);
      }
      if (c.verbose()) c.log("heap of " + mc::str(n) + " entries, pattern " + mc::str(p) + ", " + mc::str(pops) + " popped");
      const size_t size = a->size();
      std::unique_ptr<Q> b(new Q(std::move(*a)));
      c.log("moved");
      c.step();
      mc::checkEq(b->size(), size, "size of the heap moved to");
      const int kill = c.choose(3);
      if (kill == 0) {c.log("destruct the old heap"); a.reset();}
      if (kill == 2) {c.log("move again"); std::unique_ptr<Q> d(new Q(std::move(*b))); b.swap(d); d.reset();}
      const bool more = c.flag();
      if (more) {
        for (int i = 0; i < 18; ++i) {
          E e; e.key = i % 5; e.w = 1ULL << (30 + i); b->push(En::from(e)); want[e.key] += e.w;
        }
      }
      c.state(mc::mix(mc::mix(n, p), mc::mix(pops * 8 + kill, more)));
      bool first = true; long long last = 0;
      size_t left = b->size();
      while (!b->empty()) {
        if (left-- == 0) mc::fail("the heap moved to yields more entries than its size");
        E t = b->top().to();
        E e = b->pop().to();
        if (t.key != e.key || t.w != e.w) mc::fail("top and pop differ after a move");
        if (!first && e.key > last) mc::fail("the heap moved to does not pop in decreasing order");
        first = false; last = e.key;
        if (want.count(e.key) == 0 || (want[e.key] & e.w) != e.w) mc::fail("the heap moved to yields something that was not pushed");
        if ((want[e.key] -= e.w) == 0) want.erase(e.key);
        c.step();
      }
      if (!want.empty()) mc::fail("the heap moved to has lost entries");
      c.outcome(mc::mix(n, size));
    }
    mc::checkEq(mc::liveAllocs() - live, 0L, "allocations left after all heaps are gone");
  }

  // ---- ComTree against a vector
  template<class En, bool Fast> void comTree(mc::Ctx& c, int depth) {
    typedef mathic::ComTree<En, Fast> T;
    typedef typename T::Node Node;
    const size_t caps[] = {0, 1, 3, 16};
    std::unique_ptr<T> t(new T(caps[c.choose(4)]));
    std::vector<long long> m;
    long long next = 1;
    const int pre = c.choose(4);
    static const int P[] = {0, 1, 15, 33};
    for (int i = 0; i < P[pre]; ++i) {E e; e.key = next++; e.w = 0; t->pushBack(En::from(e)); m.push_back(e.key);}
    for (int s = 0; s <= depth; ++s) {
      // compare
      mc::checkEq(t->size(), m.size(), "size of the tree");
      mc::checkEq(t->empty(), m.empty(), "empty of the tree");
      if (t->capacity() < t->size()) mc::fail("capacity below size");
      for (size_t k = 0; k <= t->capacity() - t->size() + 2; ++k)
        mc::checkEq(t->hasFreeCapacity(k), t->size() + k <= t->capacity(), "hasFreeCapacity");
      Node n; size_t i = 0;
      for (; i < m.size(); ++i, ++n) {
        mc::checkEq((*t)[n].to().key, m[i], "element of the tree");
        if (i == 0) {if (!n.isRoot()) mc::fail("the first node is not the root");}
        else {
          if (n.isRoot()) mc::fail("two roots");
          Node p; p = p.next((i + 1) / 2 - 1);
          if (n.parent() != p) mc::fail("parent of a node");
          if ((n.isLeft() != 0) != (i % 2 == 1) || (n.isRight() != 0) != (i % 2 == 0)) mc::fail("isLeft or isRight of a node");
          if ((n.isLeft() ? p.left() : p.right()) != n) mc::fail("child of a node");
          if ((n.isLeft() ? p.right() : p.left()) != n.sibling()) mc::fail("sibling of a node");
          if (n.leftSibling() != p.left()) mc::fail("left sibling of a node");
          if (n.prev().next() != n || !(n.prev() < n)) mc::fail("neighbours of a node");
        }
        if (i + 1 == m.size() && t->lastLeaf() != n) mc::fail("the last leaf");
      }
      if (s == depth) break;
      const int op = c.choose(6 + (m.empty() ? 0 : 1));
      E e; e.w = 0;
      switch (op) {
      case 0: c.log("push"); e.key = next++; t->pushBack(En::from(e)); m.push_back(e.key); break;
      case 1: {
        c.log("copy, change the copy, keep the original");
        T copy(*t); e.key = -5; copy.pushBack(En::from(e)); if (!m.empty()) copy[Node()] = En::from(e);
        mc::checkEq(copy.size(), m.size() + 1, "size of the copy");
        break;
      }
      case 2: {
        c.log("copy with capacity and keep the copy");
        const size_t cap = c.choose(3) * 20;
        std::unique_ptr<T> copy(new T(*t, cap));
        if (copy->capacity() < cap) mc::fail("a copy with too little capacity");
        t.swap(copy);
        break;
      }
      case 3: {
        c.log("move and keep the target");
        std::unique_ptr<T> to(new T(std::move(*t)));
        t.swap(to);
        break;
      }
      case 4: {
        c.log("swap with another");
        std::unique_ptr<T> o(new T(4)); e.key = 99; o->pushBack(En::from(e)); o->swap(*t);
        mc::checkEq(t->size(), (size_t)1, "size after swap");
        mc::checkEq((*t)[Node()].to().key, 99LL, "content after swap");
        t.swap(o);
        break;
      }
      case 5: c.log("clear"); t->clear(); m.clear(); break;
      case 6: c.log("pop"); t->popBack(); m.pop_back(); break;
      }
      if (op == 0 || op == 6) {
        if (t->hasFreeCapacity(1)) {
          e.key = next++; t->pushBackWithCapacity(En::from(e)); m.push_back(e.key);
        }
      }
      c.step();
      c.state(mc::mix(mc::hashAll(m), t->capacity()));
      c.outcome(t->size());
    }
  }

  // ---- entries with a lifetime in every queue
  template<class En> struct LGeoConf : public BaseConf<En, true> {
    explicit LGeoConf(Ctl* c): BaseConf<En, true>(c), geoBase(2), minBucketSize(2) {}
    size_t geoBase, minBucketSize;
    static const bool trackFront = true, minBucketBinarySearch = true, premerge = true, collectMax = true;
    static const mathic::GeobucketBucketStorage bucketStorage = mathic::GeoStorePlain;
    static const size_t insertFactor = 1;
  };
  template<class En, int Store, bool TF, bool PRE, bool COL> struct LGeoConf2 : public BaseConf<En, false> {
    explicit LGeoConf2(Ctl* c): BaseConf<En, false>(c), geoBase(2), minBucketSize(1) {}
    size_t geoBase, minBucketSize;
    static const bool trackFront = TF, minBucketBinarySearch = false, premerge = PRE, collectMax = COL;
    static const mathic::GeobucketBucketStorage bucketStorage = (mathic::GeobucketBucketStorage)Store;
    static const size_t insertFactor = 1;
  };
  template<class Q, class Conf> IQ* mk(Ctl* c) {return new QSized<Q, Conf>(Conf(c));}
  template<class Q, class Conf> IQ* mkN(Ctl* c) {return new QNoSize<Q, Conf>(Conf(c));}
  template<class Q, class Conf> IQ* mkS(Ctl* c) {return new QStl<Q, Conf>(Conf(c));}

  void withLife(mc::Ctx& c, const QInfo& q, int which) {
    const long live = Life::live();
    const long allocs = mc::liveAllocs();
    if (which == 0) histories(c, q, c.tier(3, 5));
    else reuse(c, q, c.tier(1, 2), 18);
    mc::checkEq(Life::live() - live, 0L, "entries alive after the queue is gone");
    mc::checkEq(mc::liveAllocs() - allocs, 0L, "allocations left after the queue is gone");
  }
}

void mc::registerSuites() {
  typedef LE<32> L64;
  static_assert(sizeof(L64) == 64, "power of two");
  mc::add("move/heap si", [](mc::Ctx& c) {typedef TreeConf<E16, false, false> C; moveHeap<mathic::Heap<C>, C>(c, c.tier(20, 36), false);});
  mc::add("move/heap fi", [](mc::Ctx& c) {typedef TreeConf<E32, false, true> C; moveHeap<mathic::Heap<C>, C>(c, c.tier(20, 36), false);});
  mc::add("move/heap dedup", [](mc::Ctx& c) {typedef TreeConf<E24, true, false> C; moveHeap<mathic::Heap<C>, C>(c, c.tier(20, 36), true);});
  mc::add("move/heap life", [](mc::Ctx& c) {typedef TreeConf<L64, false, true> C; moveHeap<mathic::Heap<C>, C>(c, c.tier(20, 36), false);});
  mc::add("comtree/16 fast", [](mc::Ctx& c) {comTree<E16, true>(c, c.tier(5, 7));});
  mc::add("comtree/16 slow", [](mc::Ctx& c) {comTree<E16, false>(c, c.tier(5, 7));});
  mc::add("comtree/24 slow", [](mc::Ctx& c) {comTree<E24, false>(c, c.tier(5, 7));});
  mc::add("comtree/32 fast", [](mc::Ctx& c) {comTree<E32, true>(c, c.tier(5, 7));});
  mc::add("comtree/life", [](mc::Ctx& c) {
    const long live = Life::live();
    comTree<L64, true>(c, c.tier(3, 5));
    mc::checkEq(Life::live() - live, 0L, "entries alive after the tree is gone");
  });
  static const QInfo qs[] = {
    {"heap", [](Ctl* c) {typedef TreeConf<L64, false, true> C; return mk<mathic::Heap<C>, C>(c);}, false, true},
    {"heap dedup", [](Ctl* c) {typedef TreeConf<LE<8>, true, false> C; return mk<mathic::Heap<C>, C>(c);}, true, true},
    {"tour", [](Ctl* c) {typedef TreeConf<LE<8>, false, false> C; return mkN<mathic::TourTree<C>, C>(c);}, false, true},
    {"stl", [](Ctl* c) {typedef TreeConf<LE<8>, false, false> C; return mkS<mathic::StlSet<C>, C>(c);}, false, true},
    {"geo dedup", [](Ctl* c) {typedef LGeoConf<L64> C; return mk<mathic::Geobucket<C>, C>(c);}, true, true},
    {"geo plain", [](Ctl* c) {typedef LGeoConf2<L64, 0, false, false, true> C; return mk<mathic::Geobucket<C>, C>(c);}, false, true},
    {"geo double", [](Ctl* c) {typedef LGeoConf2<L64, 1, true, true, false> C; return mk<mathic::Geobucket<C>, C>(c);}, false, true},
    {"geo same", [](Ctl* c) {typedef LGeoConf2<L64, 2, true, false, true> C; return mk<mathic::Geobucket<C>, C>(c);}, false, true},
  };
  for (const QInfo& q : qs) {
    mc::add("life/" + q.name + " histories", [q](mc::Ctx& c) {withLife(c, q, 0);}, 2);
    mc::add("life/" + q.name + " reuse", [q](mc::Ctx& c) {withLife(c, q, 1);}, 2);
  }
}
