// What the containers cost: the memory they report against what they allocate, and the
// number of comparisons they make.
#include "queue.h"
#include "divfinder.h"
#include "mathic/DivList.h"
#include "mathic/KDTree.h"
#include "mathic/PairQueue.h"
#include "mathic/HashTable.h"
#include "mathic/BitTriangle.h"
#include <memtailor.h>
#include <set>
namespace {
  // Allocations of the container are those since this object was made.
  struct Bytes {
    Bytes() {
      // scratch memory is shared and stays
      memt::Arena& arena = memt::Arena::getArena();
      void* p = arena.alloc(1 << 14);
      arena.freeTop(p);
      before = mc::liveBytes();
    }
    size_t now() const {return (size_t)(mc::liveBytes() - before);}
    long before;
  };
  // use: what is reported; need: what the contents take; have: what is allocated.
  void judge(mc::Ctx& c, const char* what, size_t use, size_t need, size_t have, bool exact) {
    if (c.verbose()) c.log(std::string(what) + " reports " + mc::str(use) + " bytes, content " + mc::str(need) + ", allocated " + mc::str(have));
    c.step();
    c.state(mc::mix(need, have));
    c.outcome(use);
    if (use < need) mc::fail(std::string(what) + " reports " + mc::str(use) + " bytes though its contents alone take " + mc::str(need));
    if (use > have) mc::fail(std::string(what) + " reports " + mc::str(use) + " bytes but has allocated no more than " + mc::str(have));
    // bookkeeping that is not counted: headers of memory blocks and tables of mask calculators
    if (use + 1024 + have / 16 < have) mc::fail(std::string(what) + " reports " + mc::str(use) + " bytes, far less than the " + mc::str(have) + " that are allocated");
    if (exact && use != have) mc::fail(std::string(what) + " reports " + mc::str(use) + " bytes but has allocated " + mc::str(have));
  }
  long long pat(int p, int i, int n) {
    switch (p) {
    case 0: return i;
    case 1: return -i;
    case 2: return 5;
    case 3: return (long long)(splitmix(i * 7919 + n) % 7);
    default: return (long long)(splitmix(i * 104729 + n) % 1000);
    }
  }
  template<class En> En en(long long k) {E e; e.key = k; e.w = 1; return En::from(e);}

  // ------------------------------------------------------------------ memory of queues
  template<class Q, class Conf> struct Clear {static void go(Q& q) {q.clear();}};
  template<class Conf> struct Clear<mathic::StlSet<Conf>, Conf> {
    static void go(mathic::StlSet<Conf>& q) {while (!q.empty()) q.pop();}
  };
  template<class Q, class Conf>
  void memQueue(mc::Ctx& c, const Conf& conf, int kind, const std::vector<int>& sizes) {
    // kind 0: may report less than it has allocated. 1: must report exactly. 2: estimates.
    typedef typename Conf::Entry En;
    const int n = sizes[c.choose((int)sizes.size())];
    const int p = c.choose(5);
    const int rounds = 1 + c.choose(2);
    const int how = c.choose(4);
    const bool bulk = c.flag();
    std::vector<En> range;
    range.reserve(n);
    Bytes b;
    {
      Q q(conf);
      size_t count = 0;
      for (int r = 0; r < rounds; ++r) {
        const int m = r == 0 ? n : n / 2 + 3;
        if (bulk) {
          std::vector<long long> ks;
          for (int i = 0; i < m; ++i) ks.push_back(pat(p, i, m));
          std::sort(ks.rbegin(), ks.rend());
          if (Conf::supportDeduplication) ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
          std::vector<En> es;
          for (size_t i = 0; i < ks.size(); ++i) es.push_back(en<En>(ks[i]));
          q.push(es.data(), es.data() + es.size());
        } else {
          for (int i = 0; i < m; ++i) q.push(en<En>(pat(p, i, m)));
        }
        count = 0;
        // deduplication decides how many there are
        count = Conf::supportDeduplication ? 1 : (r == 0 ? 0 : count) + m;
        const size_t have = b.now();
        if (kind == 2) {
          const size_t use = q.getMemoryUse();
          c.step();
          if (use < count * sizeof(En) || use > (have + sizeof(En)) * 2) mc::fail("the estimate of the memory use is off: " + mc::str(use) + " for " + mc::str(have) + " bytes");
        } else judge(c, "queue", q.getMemoryUse(), n == 0 ? 0 : count * sizeof(En), have, kind == 1);
        if (how == 0) Clear<Q, Conf>::go(q);
        else if (how == 1) while (!q.empty()) q.pop();
        else if (how == 2) {for (int i = 0; i < m / 2 && !q.empty(); ++i) q.pop();}
        if (kind != 2) judge(c, "queue", q.getMemoryUse(), 0, b.now(), kind == 1);
      }
    }
    if (b.now() != 0) mc::fail("memory is still allocated after the queue is gone");
  }
  std::vector<int> sizes(mc::Ctx& c, int dense) {
    std::vector<int> s;
    for (int i = 0; i <= dense; ++i) s.push_back(i);
    static const int more[] = {47, 48, 63, 64, 65, 66, 127, 128, 129, 200, 255, 256, 257, 300, 513};
    for (int x : more) if (x > dense) s.push_back(x);
    return s;
  }
  template<class En, bool D, bool F> void memHeap(mc::Ctx& c) {
    Ctl ctl; ctl.disjoint = false;
    typedef TreeConf<En, D, F> Conf;
    memQueue<mathic::Heap<Conf>, Conf>(c, Conf(&ctl), 1, sizes(c, 40));
  }
  template<class En> void memTour(mc::Ctx& c) {
    Ctl ctl; typedef TreeConf<En, false, false> Conf;
    memQueue<mathic::TourTree<Conf>, Conf>(c, Conf(&ctl), 1, sizes(c, 40));
  }
  template<class En> void memStl(mc::Ctx& c) {
    Ctl ctl; typedef TreeConf<En, false, false> Conf;
    memQueue<mathic::StlSet<Conf>, Conf>(c, Conf(&ctl), 2, sizes(c, 10));
  }
  template<bool TF, bool BIN, bool D, bool PRE, bool COL, int ST, size_t IF> void memGeo(mc::Ctx& c) {
    Ctl ctl; ctl.disjoint = false; typedef GeoConf<TF, BIN, D, PRE, COL, ST, IF> Conf;
    static const size_t P[4][2] = {{2, 1}, {2, 3}, {4, 2}, {3, 5}};
    const int p = c.choose(4);
    memQueue<mathic::Geobucket<Conf>, Conf>(c, Conf(&ctl, P[p][0], P[p][1]), 1, sizes(c, 20));
  }

  // ------------------------------------------------------------------ comparisons
  int lg(size_t n) {int r = 0; while (n > 1) {n /= 2; ++r;} return r;} // rounded down
  template<class Q, class Conf> struct Dec {
    static void go(Q& q, typename Conf::Entry e) {q.decreaseTop(e);}
  };
  template<class Conf> struct Dec<mathic::StlSet<Conf>, Conf> {
    static void go(mathic::StlSet<Conf>& q, typename Conf::Entry e) {q.pop(); q.push(e);}
  };
  // a * log2(n) + b comparisons for each operation on a queue of n entries
  template<class Q, class Conf>
  void costQueue(mc::Ctx& c, Ctl& ctl, int a, int b, int depth) {
    typedef typename Conf::Entry En;
    static const int N[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600, 1023, 1024, 1025, 4000};
    const int n = N[c.choose(c.tier(24, 28))];
    const int p = c.choose(5);
    Conf conf(&ctl);
    Q q(conf);
    size_t size = 0;
    auto run = [&](const char* what, size_t sizeNow, std::function<void()> f) {
      const unsigned long before = ctl.compares, merges = ctl.dedups;
      f();
      const unsigned long used = ctl.compares - before;
      // each merge removes an entry for good, which is paid for like a pop
      const unsigned long bound = (1 + ctl.dedups - merges) * (a * lg(sizeNow == 0 ? 1 : sizeNow) + b);
      c.step();
      c.outcome(used);
      c.state(mc::mix(sizeNow, used));
      if (c.verbose()) c.log(std::string(what) + " on " + mc::str(sizeNow) + " entries took " + mc::str(used) + " comparisons");
      if (used > bound) mc::fail(std::string(what) + " took " + mc::str(used) + " comparisons on " + mc::str(sizeNow) + " entries, more than " + mc::str(bound));
    };
    for (int i = 0; i < n; ++i) {
      En e = en<En>(pat(p, i, n));
      run("push", size, [&] {q.push(e);});
      ++size;
    }
    for (int i = 0; i < depth; ++i) {
      const int x = c.choose(6);
      if (x < 3) {
        En e = en<En>(x == 0 ? 100000 : x == 1 ? -100000 : pat(p, n / 2, n));
        run("push", size, [&] {q.push(e);});
        ++size;
      } else if (q.empty()) continue;
      else if (x == 3) {run("pop", size, [&] {q.pop();}); --size;}
      else {
        En e = en<En>(x == 4 ? -100001 : pat(p, n / 3, n));
        if (x == 5) e = q.top();
        run("decreaseTop", 2 * size, [&] {Dec<Q, Conf>::go(q, e);});
      }
      run("top", 1, [&] {if (!q.empty()) q.top();});
    }
    while (!q.empty()) {
      if (size == 0) size = 1; // deduplication makes it an upper bound
      run("pop", size, [&] {q.pop();});
      --size;
    }
  }
  template<class En, bool D, bool F> void costHeap(mc::Ctx& c) {
    Ctl ctl; ctl.disjoint = false; typedef TreeConf<En, D, F> Conf;
    costQueue<mathic::Heap<Conf>, Conf>(c, ctl, 2, 3, c.tier(4, 5));
  }
  void costTour(mc::Ctx& c) {
    Ctl ctl; typedef TreeConf<E16, false, false> Conf;
    costQueue<mathic::TourTree<Conf>, Conf>(c, ctl, 1, 2, c.tier(4, 5));
  }
  // Comparisons of a geobucket from empty to empty, per operation.
  template<bool TF, bool BIN, bool D, bool PRE, bool COL, int ST, size_t IF> void costGeo(mc::Ctx& c) {
    typedef GeoConf<TF, BIN, D, PRE, COL, ST, IF> Conf;
    static const size_t P[5][2] = {{2, 1}, {2, 3}, {4, 2}, {3, 5}, {8, 20}};
    const int x = c.choose(5);
    static const int N[] = {5, 10, 20, 40, 80, 160, 320, 640, 1280, 2560, 20000, 100000};
    const int n = N[c.choose(c.tier(11, 12))];
    const int p = c.choose(5);
    const int mixed = c.choose(4);
    Ctl ctl; ctl.disjoint = false;
    mathic::Geobucket<Conf> q(Conf(&ctl, P[x][0], P[x][1]));
    // An entry takes part in at most about base merges at each of the levels that there are,
    // and removing one takes a look at each level. That is more than twice what is used.
    const size_t base = P[x][0], small = P[x][1];
    size_t levels = 2;
    for (size_t cap = small; cap < (size_t)n; cap *= base) ++levels;
    const unsigned long each = base * levels + levels + small / 4 + 4;
    unsigned long ops = 0;
    auto judge = [&](unsigned long opsInAll) {
      if (ctl.compares > opsInAll * each / 2) mc::fail(mc::str(opsInAll) + " operations take " + mc::str(ctl.compares) + " comparisons, more than " + mc::str(opsInAll * each / 2));
    };
    for (int i = 0; i < n; ++i) {
      q.push(en<E16>(pat(p, i, n)));
      ++ops;
      if (mixed == 1 && i % 3 == 2) {q.pop(); ++ops;}
      if (mixed == 2 && i % 2 == 1) {E16 e = q.top(); e.k -= 3; q.decreaseTop(e); ++ops;}
      if (mixed == 3) {q.top(); ++ops;}
      judge(3 * n);
    }
    while (!q.empty()) {q.pop(); ++ops; judge(3 * n);}
    c.step(); c.state(mc::mix(n, ctl.compares)); c.outcome(ctl.compares / ops);
    if (c.verbose()) c.log("base " + mc::str(base) + ", smallest " + mc::str(small) + ": " + mc::str(ops) + " operations took " + mc::str(ctl.compares) + " comparisons");
    judge(ops);
  }

  // ------------------------------------------------------------------ pair queue
  struct PqPd {int v;};
  struct PqConf {
    typedef PqPd PairData; typedef int CompareResult;
    unsigned long* compares; int pattern;
    void computePairData(size_t col, size_t row, PqPd& d) {d.v = (int)pat(pattern, (int)(col * 31 + row * (pattern == 1 ? 31 : 7)), 100);}
    int compare(size_t, size_t, const PqPd& a, size_t, size_t, const PqPd& b) const {++*compares; return a.v < b.v ? -1 : a.v > b.v;}
    bool cmpLessThan(int r) const {return r < 0;}
  };
  void pairQueue(mc::Ctx& c, bool cost) {
    static const int N[] = {1, 2, 3, 5, 8, 9, 17, 33, 64, 65, 100};
    const int n = N[c.choose(c.tier(10, 11))], p = c.choose(5), which = c.choose(3), popping = c.choose(3);
    unsigned long compares = 0;
    PqConf conf; conf.compares = &compares; conf.pattern = p;
    std::vector<size_t> rows; rows.reserve(n + 1);
    std::vector<std::pair<int, size_t> > order; order.reserve(n + 1);
    Bytes b;
    {
      mathic::PairQueue<PqConf> q(conf);
      size_t pairs = 0;
      for (int col = 0; col < n; ++col) {
        order.clear(); rows.clear();
        for (int r = 0; r < col; ++r) if (which == 0 || (which == 1 ? r == 0 : (r * 7 + col) % 3 == 0)) {
          PqPd d; conf.computePairData(col, r, d); order.push_back(std::make_pair(d.v, (size_t)r));
        }
        std::stable_sort(order.begin(), order.end(), [](const std::pair<int, size_t>& x, const std::pair<int, size_t>& y) {return x.first > y.first;});
        for (auto& o : order) rows.push_back(o.second);
        const unsigned long before = compares;
        q.addColumnDescending(rows.begin(), rows.end());
        pairs += rows.size();
        c.step();
        if (cost && compares - before > (unsigned long)lg(col + 1) + 2) mc::fail("adding column " + mc::str(col) + " took " + mc::str(compares - before) + " comparisons");
        if (!cost) judge(c, "pair queue", q.getMemoryUse(), pairs * 2, b.now(), false);
        if (popping && col % popping == 0 && !q.empty()) {q.pop(); --pairs;}
      }
      while (!q.empty()) {
        const unsigned long before = compares;
        q.pop(); --pairs;
        c.step();
        c.outcome(compares - before); c.state(mc::mix(pairs, compares - before));
        if (cost && compares - before > (unsigned long)lg(n) + 2) mc::fail("pop of " + mc::str(n) + " columns took " + mc::str(compares - before) + " comparisons");
        if (!cost) judge(c, "pair queue", q.getMemoryUse(), pairs * 2, b.now(), false);
      }
      if (pairs != 0) mc::fail("pairs were lost");
    }
    if (b.now() != 0) mc::fail("memory is still allocated after the pair queue is gone");
  }

  // ------------------------------------------------------------------ divisor finders
  unsigned long gDivides;
  template<bool Linked, bool DM> struct LConf : public DfConf<int, 4> {
    typedef DfConf<int, 4> Base;
    explicit LConf(const DfParams& p): Base(p) {}
    template<class A, class B> bool divides(const A& a, const B& b) const {++gDivides; return Base::divides(a, b);}
    static const bool UseLinkedList = Linked;
    static const bool UseDivMask = DM;
  };
  template<bool DM, bool TDM, bool Packed, size_t Leaf> struct TConf : public DfConf<int, 4> {
    typedef DfConf<int, 4> Base;
    explicit TConf(const DfParams& p): Base(p) {}
    template<class A, class B> bool divides(const A& a, const B& b) const {++gDivides; return Base::divides(a, b);}
    static const bool UseDivMask = DM, UseTreeDivMask = TDM, PackedTree = Packed, AllowRemovals = true;
    static const size_t LeafSize = Leaf;
    size_t getLeafSize() const {return Leaf;}
  };
  struct Any {
    template<class T> bool proceed(const T&) {++n; return true;}
    template<class T> void push_back(const T&) {++n;}
    size_t n;
  };
  // kind 1: the memory use is exact. 2: of a linked list, an estimate
  template<class Finder, class Conf> void finder(mc::Ctx& c, int kind, size_t leaf, bool cost) {
    static const int N[] = {0, 1, 2, 3, 5, 8, 13, 21, 34, 60, 120};
    const int n = N[c.choose(c.tier(10, 11))], p = c.choose(5), bulk = c.choose(2);
    const int depth = c.tier(3, 4);
    DfParams par; par.vars = 3; par.sort = c.flag(); par.cache = leaf != 0 && c.flag(); par.rebuilds = c.flag(); par.ratio = 0.5; par.minRebuild = 3;
    typedef typename Conf::Entry Entry;
    auto mono = [](int p, int i, int n) {
      typename Conf::Monomial m;
      // all different
      if (p == 0) {m.e[0] = i; m.e[1] = n - i; m.e[2] = 1;}
      else if (p == 1) {m.e[0] = i % 5; m.e[1] = (i / 5) % 5; m.e[2] = i / 25;}
      else if (p == 2) {m.e[0] = m.e[1] = m.e[2] = i;}
      else if (p == 3) {m.e[0] = 3; m.e[1] = 3; m.e[2] = n - i;}
      else {m.e[0] = (int)(splitmix(i) % 9); m.e[1] = (int)(splitmix(i + 1000) % 9); m.e[2] = i;}
      return m;
    };
    std::vector<Entry> es; es.reserve(n + 1);
    for (int i = 0; i < n; ++i) {Entry e; e.m = mono(p, i, n); e.id = i; es.push_back(e);}
    Bytes b;
    {
      Finder f((Conf(par)));
      if (bulk) f.insert(es.begin(), es.end());
      else for (auto& e : es) f.insert(e);
      auto memory = [&] {
        if (cost) {c.step(); c.state(mc::mix(f.size(), gDivides)); return;}
        const size_t use = f.getMemoryUse(), have = b.now(), need = f.size() * sizeof(Entry);
        judge(c, "divisor finder", use, need, have, kind == 1);
      };
      memory();
      for (int d = 0; d < depth; ++d) {
        const int x = c.choose(8);
        const typename Conf::Monomial q = x % 2 ? mono(p, n / 2, n) : mono(p, n - 1, n + 2);
        const size_t size = f.size();
        gDivides = 0;
        size_t most = size;
        Any out; out.n = 0;
        if (x < 2) {f.findDivisor(q); most = size + 1;} // the one that is remembered is looked at twice
        else if (x < 4) f.findAllDivisors(q, out);
        else if (x < 6) f.findAllMultiples(q, out);
        else if (x < 7) f.removeMultiples(q);
        else {Entry e; e.m = mono(p, n + 1 + d, n); e.id = -1; f.insert(e);}
        if (x < 7) {
          c.outcome(gDivides);
          if (cost && gDivides > most) mc::fail("a query on " + mc::str(size) + " entries tested for divisibility " + mc::str(gDivides) + " times");
        }
        memory();
      }
    }
    if (b.now() != 0) mc::fail("memory is still allocated after the divisor finder is gone");
  }
  template<bool Linked, bool DM> void listFinder(mc::Ctx& c, bool cost) {
    typedef LConf<Linked, DM> Conf; finder<mathic::DivList<Conf>, Conf>(c, Linked || DM ? 0 : 1, 0, cost);
  }
  template<bool DM, bool TDM, bool Packed, size_t Leaf> void treeFinder(mc::Ctx& c, bool cost) {
    typedef TConf<DM, TDM, Packed, Leaf> Conf; finder<mathic::KDTree<Conf>, Conf>(c, 0, Leaf, cost);
  }

  // ------------------------------------------------------------------ hash table and bits
  unsigned long gEqual;
  struct HConf {
    typedef int Key; typedef long long Value;
    int kind;
    size_t hash(int k) const {return kind == 0 ? (size_t)k : kind == 1 ? (size_t)(100000 - k) : (size_t)k + ((size_t)k << 32);}
    bool keysEqual(int a, int b) const {++gEqual; return a == b;}
  };
  // A table that grows to many bins.
  void largeHash(mc::Ctx& c, bool cost) {
    HConf conf; conf.kind = c.choose(3);
    static const unsigned Bits[] = {0, 9, 15, 16, 17};
    const unsigned bits = Bits[c.choose(5)];
    const int n = 70000 << c.choose(c.tier(2, 3));
    Bytes b;
    {
      typedef mathic::HashTable<HConf> T;
      T t(conf, bits);
      for (int i = 0; i < n; ++i) {
        gEqual = 0;
        if (!t.insert(i, i).second) mc::fail("insert gives no handle");
        if (cost && gEqual > 1) mc::fail("inserting the key " + mc::str(i) + " with a hash value of its own compares " + mc::str(gEqual) + " keys");
      }
      c.step();
      for (int i = 0; i < n; ++i) {
        gEqual = 0;
        if (t.lookup(i) == 0) mc::fail("lookup finds nothing");
        if (cost && gEqual > 1) mc::fail("looking up the key " + mc::str(i) + " with a hash value of its own compares " + mc::str(gEqual) + " keys");
      }
      c.step(); c.state(mc::mix(bits, n)); c.outcome(n);
      if (!cost) judge(c, "hash table", t.memoryUse(), n * (sizeof(int) + sizeof(long long) + sizeof(void*)), b.now(), false);
    }
    if (b.now() != 0) mc::fail("memory is still allocated after the hash table is gone");
  }
  void hashTable(mc::Ctx& c, bool cost) {
    HConf conf; conf.kind = c.choose(3);
    const unsigned bits = (unsigned)c.choose(12);
    static const int N[] = {0, 1, 2, 5, 13, 26, 52, 103, 205, 410, 820, 5000};
    const int n = N[c.choose(c.tier(11, 12))];
    const int removing = c.choose(3);
    Bytes b;
    {
      typedef mathic::HashTable<HConf> T;
      T t(conf, bits);
      size_t count = 0;
      for (int i = 0; i < n; ++i) {
        gEqual = 0;
        if (!t.insert(i, i).second) mc::fail("insert gives no handle");
        ++count;
        c.step();
        if (cost && gEqual > 1) mc::fail("inserting the key " + mc::str(i) + " with a hash value of its own compares " + mc::str(gEqual) + " keys");
        if (removing && i % removing == 0 && i > 3) {
          T::Handle* h = t.lookup(i / 2);
          if (h != 0) {t.remove(h); --count;}
        }
      }
      for (int i = 0; i < n; ++i) {
        gEqual = 0;
        t.lookup(i);
        if (cost && gEqual > 1) mc::fail("looking up the key " + mc::str(i) + " with a hash value of its own compares " + mc::str(gEqual) + " keys");
      }
      c.state(mc::mix(n, bits * 8 + removing));
      if (!cost) judge(c, "hash table", t.memoryUse(), count * (sizeof(int) + sizeof(long long)) + count * sizeof(void*), b.now(), false);
    }
    if (b.now() != 0) mc::fail("memory is still allocated after the hash table is gone");
  }
  void bitTriangle(mc::Ctx& c) {
    const int n = c.choose(c.tier(140, 300));
    Bytes b;
    {
      mathic::BitTriangle t;
      for (int i = 0; i < n; ++i) t.addColumn();
      size_t bits = 0;
      for (int i = 0; i < n; ++i) bits += i;
      judge(c, "bit triangle", t.getMemoryUse(), bits / 8, b.now(), false);
    }
    if (b.now() != 0) mc::fail("memory is still allocated after the bit triangle is gone");
  }
}
void mc::registerSuites() {
  mc::add("memory/heap si16", [](mc::Ctx& c) {memHeap<E16, false, false>(c);}, 2);
  mc::add("memory/heap fi32", [](mc::Ctx& c) {memHeap<E32, false, true>(c);}, 2);
  mc::add("memory/heap si24", [](mc::Ctx& c) {memHeap<E24, false, false>(c);}, 2);
  mc::add("memory/dheap fi16", [](mc::Ctx& c) {memHeap<E16, true, true>(c);}, 2);
  mc::add("memory/tour16", [](mc::Ctx& c) {memTour<E16>(c);}, 2);
  mc::add("memory/tour24", [](mc::Ctx& c) {memTour<E24>(c);}, 2);
  mc::add("memory/stl", [](mc::Ctx& c) {memStl<E16>(c);}, 2);
  mc::add("memory/geo 0", [](mc::Ctx& c) {memGeo<false, false, false, false, false, 0, 1>(c);}, 2);
  mc::add("memory/geo 1", [](mc::Ctx& c) {memGeo<true, true, false, true, true, 1, 1>(c);}, 2);
  mc::add("memory/geo 2", [](mc::Ctx& c) {memGeo<true, false, false, false, true, 2, 2>(c);}, 2);
  mc::add("memory/dgeo 2", [](mc::Ctx& c) {memGeo<true, false, true, true, false, 2, 1>(c);}, 2);
  mc::add("cost/heap si16", [](mc::Ctx& c) {costHeap<E16, false, false>(c);}, 2);
  mc::add("cost/heap fi16", [](mc::Ctx& c) {costHeap<E16, false, true>(c);}, 2);
  mc::add("cost/dheap si16", [](mc::Ctx& c) {costHeap<E16, true, false>(c);}, 2);
  mc::add("memory/pair queue", [](mc::Ctx& c) {pairQueue(c, false);}, 2);
  mc::add("memory/bits", [](mc::Ctx& c) {bitTriangle(c);}, 1);
  mc::add("memory/hash", [](mc::Ctx& c) {hashTable(c, false);}, 2);
  mc::add("memory/large hash", [](mc::Ctx& c) {largeHash(c, false);}, 2);
  mc::add("cost/large hash", [](mc::Ctx& c) {largeHash(c, true);}, 2);
  mc::add("cost/hash", [](mc::Ctx& c) {hashTable(c, true);}, 2);
  mc::add("memory/finder array", [](mc::Ctx& c) {listFinder<false, true>(c, false);}, 3);
  mc::add("cost/finder array", [](mc::Ctx& c) {listFinder<false, true>(c, true);}, 3);
  mc::add("memory/finder array plain", [](mc::Ctx& c) {listFinder<false, false>(c, false);}, 3);
  mc::add("cost/finder array plain", [](mc::Ctx& c) {listFinder<false, false>(c, true);}, 3);
  mc::add("memory/finder linked", [](mc::Ctx& c) {listFinder<true, true>(c, false);}, 3);
  mc::add("cost/finder linked", [](mc::Ctx& c) {listFinder<true, true>(c, true);}, 3);
  mc::add("memory/finder packed 1", [](mc::Ctx& c) {treeFinder<true, true, true, 1>(c, false);}, 3);
  mc::add("cost/finder packed 1", [](mc::Ctx& c) {treeFinder<true, true, true, 1>(c, true);}, 3);
  mc::add("memory/finder packed 8", [](mc::Ctx& c) {treeFinder<true, false, true, 8>(c, false);}, 3);
  mc::add("cost/finder packed 8", [](mc::Ctx& c) {treeFinder<true, false, true, 8>(c, true);}, 3);
  mc::add("memory/finder binary 2", [](mc::Ctx& c) {treeFinder<true, true, false, 2>(c, false);}, 3);
  mc::add("cost/finder binary 2", [](mc::Ctx& c) {treeFinder<true, true, false, 2>(c, true);}, 3);
  mc::add("memory/finder binary 8", [](mc::Ctx& c) {treeFinder<false, false, false, 8>(c, false);}, 3);
  mc::add("cost/finder binary 8", [](mc::Ctx& c) {treeFinder<false, false, false, 8>(c, true);}, 3);
  mc::add("cost/pair queue", [](mc::Ctx& c) {pairQueue(c, true);}, 2);
  mc::add("cost/geo 0", [](mc::Ctx& c) {costGeo<false, false, false, false, false, 0, 1>(c);}, 2);
  mc::add("cost/geo 1", [](mc::Ctx& c) {costGeo<true, true, false, true, true, 1, 1>(c);}, 2);
  mc::add("cost/geo 2", [](mc::Ctx& c) {costGeo<true, false, false, false, true, 2, 2>(c);}, 2);
  mc::add("cost/geo 3", [](mc::Ctx& c) {costGeo<false, true, false, true, false, 2, 4>(c);}, 2);
  mc::add("cost/dgeo 2", [](mc::Ctx& c) {costGeo<true, false, true, true, false, 2, 1>(c);}, 2);
  mc::add("cost/tour", [](mc::Ctx& c) {costTour(c);}, 2);
}
