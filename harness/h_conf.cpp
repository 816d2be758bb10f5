// The configuration that a container holds: one copy of what it was given, asked for everything,
// accessible to the user and never copied again.
#include "mc.h"
#include "mathic/Heap.h"
#include "mathic/TourTree.h"
#include "mathic/Geobucket.h"
#include "mathic/StlSet.h"
#include "mathic/PairQueue.h"
#include "mathic/DivList.h"
#include "mathic/KDTree.h"
#include "mathic/HashTable.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
namespace {
  struct Probe;
  // what all copies of a configuration in one trace have in common
  struct Shared {
    Shared(): own(0), copies(0), calls(0) {}
    const Probe* own; // the one that must be asked, 0 while a container is being constructed
    long copies, calls;
  };
  // Base of the configurations. Has state of its own.
  struct Probe {
    explicit Probe(Shared* s): s(s), calls(0), sign(1) {}
    Probe(const Probe& p): s(p.s), calls(p.calls), sign(p.sign) {++s->copies;}
    Probe& operator=(const Probe& p) {s = p.s; calls = p.calls; sign = p.sign; ++s->copies; return *this;}
    void call(const char* what) const {
      if (s->own != 0 && s->own != this)
        mc::fail(std::string(what) + " is called on another configuration than the one the container holds");
      ++calls; ++s->calls;
    }
    Shared* s;
    mutable long calls; // made to this one (and the one it was copied from, before that)
    int sign; // direction of the order
  };
  // Watches the configuration of one container.
  class Watch {
  public:
    Watch(): before(0) {}
    Shared s;
    void holds(Probe& p) {own = &p; s.own = &p; before = p.calls - s.calls; copies = s.copies;}
    void check(const Probe& held) {
      if (&held != own) mc::fail("the access to the configuration gives another object than before");
      if (s.copies != copies) mc::fail("the configuration is copied after the container was constructed");
      mc::checkEq(own->calls - s.calls, before, "calls that the configuration counted itself, less all calls that were made");
    }
    Probe* own;
  private:
    long before, copies;
  };

  // ------------------------------------------------------------ queues
  struct En {int k; unsigned w;};
  template<bool Dedup> struct QConf : public Probe {
    typedef En Entry;
    typedef int CompareResult;
    explicit QConf(Shared* s): Probe(s), geoBase(2), minBucketSize(1) {}
    int compare(const En& a, const En& b) const {call("compare"); return a.k == b.k ? 0 : (a.k < b.k ? -1 : 1) * sign;}
    bool cmpLessThan(int r) const {call("cmpLessThan"); return r < 0;}
    bool cmpEqual(int r) const {
      call("cmpEqual");
      if (!Dedup) mc::fail("cmpEqual is called though deduplication is off");
      return r == 0;
    }
    En deduplicate(const En& a, const En& b) const {
      call("deduplicate");
      if (!Dedup) mc::fail("deduplicate is called though deduplication is off");
      En e = {a.k, a.w | b.w};
      return e;
    }
    static const bool supportDeduplication = Dedup;
    size_t geoBase, minBucketSize;
  };
  template<bool Dedup, bool Fast> struct TreeConf : public QConf<Dedup> {
    explicit TreeConf(Shared* s): QConf<Dedup>(s) {}
    static const bool fastIndex = Fast;
  };
  template<bool Dedup, bool Front, bool Bin, bool Pre, bool Collect, mathic::GeobucketBucketStorage Store, int Base = 2, int Min = 1>
  struct GConf : public QConf<Dedup> {
    explicit GConf(Shared* s): QConf<Dedup>(s) {this->geoBase = Base; this->minBucketSize = Min;}
    static const bool trackFront = Front, minBucketBinarySearch = Bin, premerge = Pre, collectMax = Collect;
    static const mathic::GeobucketBucketStorage bucketStorage = Store;
    static const size_t insertFactor = 1;
  };
  struct Q {
    virtual ~Q() {}
    virtual Probe& held() = 0;
    virtual const Probe& constHeld() = 0;
    virtual void push(En) = 0;
    virtual void pushRange(const En* b, const En* e) = 0;
    virtual En top() = 0;
    virtual En pop() = 0;
    virtual bool empty() = 0;
    virtual void rest() = 0; // name, memory and the like
    virtual bool more() {return true;} // the following exist
    virtual void decreaseTop(En) {}
    virtual void clear() {}
    virtual bool canMove() {return false;}
    virtual void move() {}
  };
  struct Count {size_t n; Count(): n(0) {} bool proceed(const En&) {++n; return true;}};
  template<class C, template<class> class T> struct QW : public Q {
    explicit QW(Shared* s) {
      std::unique_ptr<C> given(new C(s));
      q.reset(new T<C>(*given));
    } // the given one is gone
    Probe& held() override {return q->getConfiguration();}
    const Probe& constHeld() override {const T<C>& c = *q; return c.getConfiguration();}
    void push(En e) override {q->push(e);}
    void pushRange(const En* b, const En* e) override {q->push(b, e);}
    En top() override {return q->top();}
    En pop() override {return q->pop();}
    bool empty() override {return q->empty();}
    void rest() override {q->getName(); q->getMemoryUse();}
    std::unique_ptr<T<C> > q;
  };
  template<class C, template<class> class T> struct QM : public QW<C, T> {
    explicit QM(Shared* s): QW<C, T>(s) {}
    void decreaseTop(En e) override {this->q->decreaseTop(e);}
    void clear() override {this->q->clear();}
    void rest() override {QW<C, T>::rest(); Count n; const T<C>& c = *this->q; c.forAll(n);}
  };
  template<class C, template<class> class T> struct QMove : public QM<C, T> {
    explicit QMove(Shared* s): QM<C, T>(s) {}
    bool canMove() override {return true;}
    void move() override {this->q.reset(new T<C>(std::move(*this->q)));}
  };
  template<class C> struct SW : public QW<C, mathic::StlSet> {
    explicit SW(Shared* s): QW<C, mathic::StlSet>(s) {}
    bool more() override {return false;}
  };
  struct QKind {std::string name; bool dedup; std::function<Q*(Shared*)> make;};
  template<class W> void addQ(std::vector<QKind>& v, const char* name, bool dedup) {
    QKind k; k.name = name; k.dedup = dedup; k.make = [](Shared* s) -> Q* {return new W(s);};
    v.push_back(k);
  }
  const std::vector<QKind>& queueKinds() {
    static std::vector<QKind> v;
    if (v.empty()) {
      using namespace mathic;
      addQ<QMove<TreeConf<false, false>, Heap> >(v, "heap", false);
      addQ<QMove<TreeConf<true, true>, Heap> >(v, "heap fast dedup", true);
      addQ<QMove<TreeConf<false, false>, TourTree> >(v, "tournament tree", false);
      addQ<QMove<TreeConf<false, true>, TourTree> >(v, "tournament tree fast", false);
      addQ<SW<QConf<false> > >(v, "set", false);
      addQ<QM<GConf<false, false, false, false, false, GeoStorePlain>, Geobucket> >(v, "geobucket", false);
      addQ<QM<GConf<true, true, true, false, false, GeoStorePlain>, Geobucket> >(v, "geobucket front binary dedup", true);
      addQ<QM<GConf<false, true, false, true, false, GeoStoreDoubleBuffer>, Geobucket> >(v, "geobucket front premerge double", false);
      addQ<QM<GConf<true, false, true, true, true, GeoStoreSameSizeBuffer>, Geobucket> >(v, "geobucket binary premerge collect same size dedup", true);
      addQ<QM<GConf<true, false, false, false, true, GeoStoreDoubleBuffer>, Geobucket> >(v, "geobucket collect double dedup", true);
      addQ<QM<GConf<false, true, true, true, false, GeoStoreSameSizeBuffer>, Geobucket> >(v, "geobucket front binary premerge same size", false);
      addQ<QM<GConf<false, false, false, false, false, GeoStorePlain, 3, 4>, Geobucket> >(v, "geobucket of larger buckets", false);
      addQ<QM<GConf<false, true, true, true, false, GeoStoreDoubleBuffer, 3, 4>, Geobucket> >(v, "geobucket front binary premerge double of larger buckets", false);
      addQ<QM<GConf<true, true, false, false, false, GeoStoreSameSizeBuffer, 2, 4>, Geobucket> >(v, "geobucket front same size dedup of larger buckets", true);
      addQ<QM<GConf<true, false, true, false, true, GeoStorePlain, 2, 4>, Geobucket> >(v, "geobucket binary collect dedup of larger buckets", true);
    }
    return v;
  }
  void queues(mc::Ctx& c, int depth, int many) {
    const QKind& k = queueKinds()[c.choose((int)queueKinds().size())];
    Watch w;
    std::unique_ptr<Q> q(k.make(&w.s));
    w.holds(q->held());
    std::map<int, int> model; // key -> number of entries pushed and not removed (dedup: 0 or 1)
    if (c.verbose()) c.log(k.name);
    auto add = [&](int key) {if (k.dedup) model[key] = 1; else ++model[key];};
    auto sub = [&](int key) {
      if (model.count(key) == 0) mc::fail("an entry that is not in the queue comes out");
      if (--model[key] == 0) model.erase(key);
    };
    auto best = [&]() {return w.own->sign > 0 ? model.rbegin()->first : model.begin()->first;};
    // deduplication may happen later, so equal entries are taken out together
    auto pop = [&]() {
      const int b = best();
      mc::checkEq(q->pop().k, b, "key popped");
      if (k.dedup) {while (!q->empty() && q->top().k == b) q->pop();}
      sub(b);
    };
    const unsigned bit = 1;
    const int fill = c.choose(3) == 0 ? 0 : many;
    for (int i = 0; i < fill; ++i) {En e = {(i * 7) % 23, bit}; q->push(e); add(e.k);}
    if (fill != 0) {w.check(q->held()); if (c.flag()) while (!model.empty()) pop();}
    const int n = c.choose(depth + 1);
    for (int i = 0; i < n; ++i) {
      const bool any = !model.empty();
      std::vector<int> ops = {0, 1, 2, 3};
      if (any) {ops.push_back(4); if (q->more()) ops.push_back(5);}
      else ops.push_back(6);
      if (q->more()) ops.push_back(7);
      if (q->canMove()) ops.push_back(8);
      switch (ops[c.choose((int)ops.size())]) {
      case 0: {En e = {i % 2 ? 6 : 4, bit}; c.log("push " + mc::str(e.k)); q->push(e); add(e.k); break;}
      case 1: {En e = {9, bit}; c.log("push 9"); q->push(e); add(e.k); break;}
      case 2: {
        En r[3] = {{8, bit}, {5, bit}, {1, bit}};
        if (w.own->sign < 0) std::swap(r[0], r[2]);
        c.log("push a range"); q->pushRange(r, r + 3);
        for (int j = 0; j < 3; ++j) add(r[j].k);
        break;
      }
      case 3: c.log("name, memory, forAll"); q->rest(); break;
      case 4: c.log("pop"); mc::checkEq(q->top().k, best(), "key on top"); pop(); break;
      case 5: {
        c.log("decreaseTop");
        const int b = best();
        mc::checkEq(q->top().k, b, "key on top");
        if (k.dedup) {pop(); En same = {b, bit}; q->push(same); add(b);} // leaves one with this key
        En e = {b - 3 * w.own->sign, bit};
        q->decreaseTop(e);
        sub(b); add(e.k);
        break;
      }
      case 6: c.log("reverse the order, by the access to the configuration"); w.own->sign *= -1; break;
      case 7: c.log("clear"); q->clear(); model.clear(); break;
      case 8: {
        c.log("move to a new queue");
        const long calls = w.own->calls; const int sign = w.own->sign;
        w.s.own = 0;
        q->move();
        mc::checkEq(q->held().calls >= calls, true, "the calls counted so far are known to the configuration of the new queue");
        mc::checkEq(q->held().sign, sign, "the order that the configuration of the new queue has");
        w.holds(q->held());
        break;
      }
      }
      w.check(q->held());
      if (&q->constHeld() != w.own) mc::fail("the const access to the configuration gives another object");
      mc::checkEq(q->empty(), model.empty(), "empty");
      uint64_t h = mc::hashStr(k.name) + w.own->sign;
      for (auto& m : model) h = mc::mix(h, m.first * 100 + m.second);
      c.state(h); c.step();
    }
    while (!model.empty()) pop();
    w.check(q->held());
    mc::checkEq(q->empty(), true, "empty at the end");
    c.outcome(w.s.calls);
  }

  // ------------------------------------------------------------ pair queues
  struct PConf : public Probe {
    explicit PConf(Shared* s): Probe(s) {}
    typedef int PairData;
    typedef int CompareResult;
    static int value(size_t col, size_t row) {return int(col * 5 + row * 3) % 11;}
    void computePairData(size_t col, size_t row, int& pd) const {call("computePairData"); pd = value(col, row);}
    int compare(size_t, size_t, int a, size_t, size_t, int b) const {call("compare"); return (a - b) * sign;}
    bool cmpLessThan(int r) const {call("cmpLessThan"); return r < 0;}
  };
  void pairs(mc::Ctx& c, int depth) {
    Watch w;
    typedef mathic::PairQueue<PConf> PQ;
    std::unique_ptr<PConf> given(new PConf(&w.s));
    PQ q(*given);
    given.reset();
    w.holds(q.configuration());
    const PQ& cq = q;
    std::set<std::pair<int, int> > model;
    std::vector<bool> retired;
    const int n = 1 + c.choose(depth);
    for (int i = 0; i < n; ++i) {
      const int cols = (int)q.columnCount();
      std::vector<int> ops = {0, 1};
      if (!model.empty()) ops.push_back(2); else ops.push_back(3);
      if (cols > 2 && !retired[cols / 2]) ops.push_back(4);
      ops.push_back(5);
      const int op = ops[c.choose((int)ops.size())];
      switch (op) {
      case 0: case 1: {
        std::vector<int> rows;
        for (int r = 0; r < cols; ++r) if (!retired[r] && (op == 0 || r % 2 == i % 2)) rows.push_back(r);
        const int sign = w.own->sign;
        std::sort(rows.begin(), rows.end(), [&](int a, int b) {return sign * PConf::value(cols, a) > sign * PConf::value(cols, b);});
        c.log("add column of " + mc::str(rows.size()) + " rows");
        q.addColumnDescending(rows.begin(), rows.end());
        for (int r : rows) model.insert(std::make_pair(cols, r));
        retired.push_back(false);
        break;
      }
      case 2: {
        c.log("pop");
        const std::pair<int, int> p(q.topPair());
        if (model.count(p) == 0) mc::fail("the top pair is not in the queue");
        for (auto& m : model) if ((PConf::value(m.first, m.second) - PConf::value(p.first, p.second)) * w.own->sign > 0) mc::fail("the top pair is not maximal");
        q.pop(); model.erase(p);
        break;
      }
      case 3: c.log("reverse the order, by the access to the configuration"); w.own->sign *= -1; break;
      case 4: {
        const int r = cols / 2;
        c.log("retire " + mc::str(r));
        q.retireIndex(r); retired[r] = true;
        for (auto it = model.begin(); it != model.end();) if (it->first == r || it->second == r) it = model.erase(it); else ++it;
        break;
      }
      case 5: c.log("name, memory, pairCount"); q.name(); q.getMemoryUse(); q.pairCount(); break;
      }
      w.check(q.configuration());
      if (&cq.configuration() != w.own) mc::fail("the const access to the configuration gives another object");
      mc::checkEq(q.empty(), model.empty(), "empty");
      uint64_t h = w.own->sign;
      for (auto& m : model) h = mc::mix(h, m.first * 100 + m.second);
      c.state(h); c.step();
    }
    while (!model.empty()) {
      const std::pair<int, int> p(q.topPair());
      if (model.erase(p) == 0) mc::fail("the top pair is not in the queue");
      q.pop();
    }
    w.check(q.configuration());
    mc::checkEq(q.empty(), true, "empty at the end");
    c.outcome(w.s.calls);
  }

  // ------------------------------------------------------------ divisor finders
  struct Mono {int e[2];};
  struct Ent {Mono m; int id;};
  struct FOpt {bool sort, cache, rebuilds;};
  template<bool DM, bool TDM, bool Packed, size_t Leaf, bool Linked> struct FConf : public Probe {
    FConf(Shared* s, FOpt o): Probe(s), o(o) {}
    typedef int Exponent; typedef Mono Monomial; typedef Ent Entry;
    static const bool UseDivMask = DM, UseTreeDivMask = TDM, PackedTree = Packed, AllowRemovals = true, UseLinkedList = Linked;
    static const size_t LeafSize = Leaf;
    static const Mono& mono(const Mono& m) {return m;}
    static const Mono& mono(const Ent& e) {return e.m;}
    template<class T> int getExponent(const T& t, size_t v) const {call("getExponent"); return mono(t).e[v];}
    template<class A, class B> bool divides(const A& a, const B& b) const {
      call("divides");
      return mono(a).e[0] <= mono(b).e[0] && mono(a).e[1] <= mono(b).e[1];
    }
    // both orders put divisors first
    template<class A, class B> bool isLessThan(const A& a, const B& b) const {
      call("isLessThan");
      const Mono& x = mono(a); const Mono& y = mono(b);
      const int i = sign > 0 ? 0 : 1;
      return x.e[i] != y.e[i] ? x.e[i] < y.e[i] : x.e[1 - i] < y.e[1 - i];
    }
    size_t getVarCount() const {call("getVarCount"); return 2;}
    bool getSortOnInsert() const {call("getSortOnInsert"); return o.sort;}
    bool getUseDivisorCache() const {call("getUseDivisorCache"); return o.cache;}
    bool getDoAutomaticRebuilds() const {call("getDoAutomaticRebuilds"); return o.rebuilds;}
    double getRebuildRatio() const {call("getRebuildRatio"); return 0.5;}
    size_t getRebuildMin() const {call("getRebuildMin"); return 3;}
    FOpt o;
  };
  struct Sink {
    std::vector<int> ids;
    bool proceed(const Ent& e) {ids.push_back(e.id); return true;}
    void push_back(const Ent& e) {ids.push_back(e.id);}
  };
  struct F {
    virtual ~F() {}
    virtual Probe& held() = 0;
    virtual const Probe& constHeld() = 0;
    virtual void insert(const Ent&) = 0;
    virtual void insertRange(std::vector<Ent>&) = 0;
    virtual void removeMultiples(const Mono&, Sink&) = 0;
    virtual bool removeElement(const Mono&) = 0;
    virtual void search(int what, const Mono&, bool viaConst, Sink&) = 0;
    virtual void rebuild() = 0;
    virtual void rest() = 0;
    virtual size_t size() = 0;
  };
  template<class C, template<class> class T> struct FW : public F {
    FW(Shared* s, FOpt o) {
      std::unique_ptr<C> given(new C(s, o));
      f.reset(new T<C>(*given));
    }
    Probe& held() override {return f->getConfiguration();}
    const Probe& constHeld() override {const T<C>& t = *f; return t.getConfiguration();}
    void insert(const Ent& e) override {f->insert(e);}
    void insertRange(std::vector<Ent>& v) override {f->insert(v.begin(), v.end());}
    void removeMultiples(const Mono& m, Sink& s) override {f->removeMultiples(m, s);}
    bool removeElement(const Mono& m) override {return f->removeElement(m);}
    template<class X> static void on(X& x, int what, const Mono& m, Sink& s) {
      switch (what) {
      case 0: x.findAllDivisors(m, s); break;
      case 1: x.findAllMultiples(m, s); break;
      case 2: x.forAll(s); break;
      default: {const Ent* e = x.findDivisor(m); if (e != 0) s.ids.push_back(e->id);}
      }
    }
    void search(int what, const Mono& m, bool viaConst, Sink& s) override {
      if (viaConst) {const T<C>& t = *f; on(t, what, m, s);} else on(*f, what, m, s);
    }
    void rebuild() override {f->rebuild();}
    void rest() override {f->getName(); f->getMemoryUse(); f->empty();}
    size_t size() override {return f->size();}
    std::unique_ptr<T<C> > f;
  };
  struct FKind {std::string name; bool tree; size_t leaf; std::function<F*(Shared*, FOpt)> make;};
  template<class C> void addList(std::vector<FKind>& v, const char* name) {
    FKind k; k.name = name; k.tree = false; k.leaf = 1000; k.make = [](Shared* s, FOpt o) -> F* {return new FW<C, mathic::DivList>(s, o);};
    v.push_back(k);
  }
  template<class C> void addTree(std::vector<FKind>& v, const char* name) {
    FKind k; k.name = name; k.tree = true; k.leaf = C::LeafSize; k.make = [](Shared* s, FOpt o) -> F* {return new FW<C, mathic::KDTree>(s, o);};
    v.push_back(k);
  }
  const std::vector<FKind>& finderKinds() {
    static std::vector<FKind> v;
    if (v.empty()) {
      addList<FConf<false, false, false, 1, false> >(v, "array");
      addList<FConf<true, false, false, 1, false> >(v, "array mask");
      addList<FConf<true, false, false, 1, true> >(v, "linked mask");
      addList<FConf<false, false, false, 1, true> >(v, "linked");
      addTree<FConf<false, false, true, 1, false> >(v, "packed leaf1");
      addTree<FConf<true, true, true, 2, false> >(v, "packed treemask leaf2");
      addTree<FConf<true, false, true, 3, false> >(v, "packed mask leaf3");
      addTree<FConf<false, false, false, 2, false> >(v, "binary leaf2");
      addTree<FConf<true, true, false, 1, false> >(v, "binary treemask leaf1");
      addTree<FConf<true, false, false, 3, false> >(v, "binary mask leaf3");
    }
    return v;
  }
  bool divs(const Mono& a, const Mono& b) {return a.e[0] <= b.e[0] && a.e[1] <= b.e[1];}
  void finders(mc::Ctx& c, int depth) {
    const FKind& k = finderKinds()[c.choose((int)finderKinds().size())];
    const int opt = c.choose(3);
    FOpt o; o.sort = opt == 1; o.cache = opt == 2; o.rebuilds = opt != 0;
    Watch w;
    std::unique_ptr<F> f(k.make(&w.s, o));
    w.holds(f->held());
    if (c.verbose()) c.log(k.name + (o.sort ? " sort" : "") + (o.cache ? " cache" : "") + (o.rebuilds ? " rebuilds" : ""));
    std::vector<Ent> items;
    int next = 0;
    auto insertable = [&](const Mono& m) {
      size_t same = 0;
      for (auto& i : items) same += divs(i.m, m) && divs(m, i.m);
      return same < k.leaf;
    };
    auto observe = [&](bool all) {
      w.check(f->held());
      if (&f->constHeld() != w.own) mc::fail("the const access to the configuration gives another object");
      mc::checkEq(f->size(), items.size(), "size");
      if (all) {
        for (int i = 0; i < 9; ++i) for (int what = 0; what < 4; ++what) {
          const Mono m = {{i / 3 * 2, i % 3 * 2}};
          Sink s; f->search(what, m, (i + what) % 2 == 0, s);
          std::vector<int> want;
          for (auto& x : items) if (what == 2 || (what == 1 ? divs(m, x.m) : divs(x.m, m))) want.push_back(x.id);
          std::sort(s.ids.begin(), s.ids.end());
          if (what == 3 ? s.ids.empty() != want.empty() : s.ids != want) mc::fail("a search gives another answer than it should");
        }
        w.check(f->held());
      }
      uint64_t h = mc::hashStr(k.name) + w.own->sign;
      for (auto& i : items) h = mc::mix(h, i.m.e[0] * 100 + i.m.e[1]);
      c.state(h); c.step();
    };
    static const int N[] = {0, 3, 8};
    const int fill = N[c.choose(3)];
    std::vector<Ent> start;
    for (int i = 0; i < fill; ++i) {Ent e = {{{i % 4, (i * 3) % 5}}, next++}; start.push_back(e);}
    if (fill == 3) for (auto& e : start) {f->insert(e); items.push_back(e);}
    else if (fill == 8) {items = start; f->insertRange(start);}
    observe(true);
    static const Mono U[] = {{{1, 1}}, {{4, 0}}, {{0, 3}}};
    const int n = c.choose(depth + 1);
    for (int i = 0; i < n; ++i) {
      const int x = c.choose(items.empty() ? 9 : 8);
      switch (x) {
      case 0: case 1: case 2: {
        if (!insertable(U[x])) break;
        Ent e = {U[x], next++}; c.log("insert " + mc::str(U[x].e[0]) + "," + mc::str(U[x].e[1])); f->insert(e); items.push_back(e); break;
      }
      case 3: case 4: {
        const Mono m = {{x == 3 ? 1 : 0, x == 3 ? 2 : 0}};
        c.log(x == 3 ? "remove multiples of 1,2" : "remove all");
        Sink s; f->removeMultiples(m, s);
        std::vector<Ent> left; std::vector<int> gone;
        for (auto& j : items) if (divs(m, j.m)) gone.push_back(j.id); else left.push_back(j);
        std::sort(s.ids.begin(), s.ids.end());
        if (s.ids != gone) mc::fail("removeMultiples reports other entries than it should");
        items.swap(left); break;
      }
      case 5: {
        c.log("remove element 4,0");
        bool have = false; size_t at = 0;
        size_t same = 0;
        for (size_t j = 0; j < items.size(); ++j) if (items[j].m.e[0] == 4 && items[j].m.e[1] == 0) {have = true; at = j; ++same;}
        if (same > 1) break; // which one goes is not said
        mc::checkEq(f->removeElement(U[1]), have, "removeElement");
        if (have) items.erase(items.begin() + at);
        break;
      }
      case 6: c.log("rebuild"); f->rebuild(); break;
      case 7: c.log("name and memory"); f->rest(); break;
      case 8: c.log("another order, by the access to the configuration"); w.own->sign *= -1; break;
      }
      observe(i + 1 == n);
    }
    c.outcome(w.s.calls);
  }

  // ------------------------------------------------------------ hash tables
  struct HConf : public Probe {
    explicit HConf(Shared* s): Probe(s) {}
    typedef int Key; typedef int Value;
    size_t hash(int k) const {call("hash"); return sign > 0 ? k : 0;}
    bool keysEqual(int a, int b) const {call("keysEqual"); return a == b;}
  };
  void hashes(mc::Ctx& c, int depth) {
    Watch w;
    typedef mathic::HashTable<HConf> T;
    std::unique_ptr<HConf> given(new HConf(&w.s));
    const int bits = 1 + c.choose(3);
    T t(*given, bits);
    given.reset();
    w.holds(t.configuration());
    const T& ct = t;
    std::map<int, int> model;
    int next = 0;
    const int n = 1 + c.choose(depth);
    for (int i = 0; i < n; ++i) {
      const int x = c.choose(model.empty() ? 7 : 6);
      switch (x) {
      case 0: case 1: {
        const int k = x == 0 ? 1 : 8;
        c.log("insert " + mc::str(k));
        mc::checkEq(t.insert(k, next).first, model.count(k) == 0, "whether the key was new");
        model.insert(std::make_pair(k, next++)); break;
      }
      case 2: c.log("insert 20 keys"); for (int k = 0; k < 20; ++k) {t.insert(k, next); model.insert(std::make_pair(k, next++));} break;
      case 3: {
        c.log("remove 8");
        T::Handle* h = t.lookup(8);
        mc::checkEq(h != 0, model.count(8) == 1, "whether the key is there");
        if (h != 0) {t.remove(h); model.erase(8);}
        break;
      }
      case 4: c.log("hard reset"); t.hardReset(); model.clear(); break;
      case 5: c.log("name and memory"); t.name(); t.memoryUse(); break;
      case 6: c.log("another hash function, by the access to the configuration"); w.own->sign *= -1; break;
      }
      w.check(t.configuration());
      if (&ct.configuration() != w.own) mc::fail("the const access to the configuration gives another object");
      for (int k = 0; k < 22; ++k) {
        T::Handle* h = t.lookup(k);
        if ((h != 0) != (model.count(k) == 1) || (h != 0 && h->value() != model[k])) mc::fail("lookup gives another answer than it should");
      }
      w.check(t.configuration());
      uint64_t h = w.own->sign * 10 + bits;
      for (auto& m : model) h = mc::mix(h, m.first);
      c.state(h); c.step();
    }
    c.outcome(w.s.calls);
  }
}
void mc::registerSuites() {
  mc::add("conf/queues", [](mc::Ctx& c) {queues(c, c.tier(4, 6), 19);}, 2);
  mc::add("conf/pair queues", [](mc::Ctx& c) {pairs(c, c.tier(7, 9));}, 2);
  mc::add("conf/finders", [](mc::Ctx& c) {finders(c, c.tier(4, 5));}, 3);
  mc::add("conf/hash tables", [](mc::Ctx& c) {hashes(c, c.tier(6, 8));}, 2);
}
