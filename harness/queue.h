// Uniform access to the priority queues for the model checker.
#ifndef VERIF_QUEUE_H
#define VERIF_QUEUE_H
#include "mc.h"
#include <memory>
#include <vector>
#include <string>
#include <map>
#include <new>
#include "mathic/Heap.h"
#include "mathic/TourTree.h"
#include "mathic/Geobucket.h"
#include "mathic/StlSet.h"

struct E {long long key; unsigned long long w;};

struct CompareFault {}; // thrown by a comparison that is told to fail

// What a queue under test tells the harness. One per trace.
struct VisitHook { // something done within a visit or comparison
  virtual ~VisitHook() {}
  virtual void at(size_t call) = 0;
};
struct Ctl {
  Ctl(): dedups(0), compares(0), failCompare(-1), disjoint(true), onCompare(0) {}
  unsigned long dedups;
  unsigned long compares;
  long failCompare; // this many comparisons from now, one throws
  bool disjoint; // weights are sets of bits
  VisitHook* onCompare; // told the number of each comparison
};

struct Visitor {
  Visitor(): limit((size_t)-1), calls(0), afterStop(false), hook(0) {}
  bool proceed(const E& e) {
    ++calls;
    if (calls > limit) afterStop = true;
    seen.push_back(e);
    if (hook != 0) hook->at(calls);
    return calls < limit;
  }
  size_t limit; // returns false at this call
  size_t calls;
  bool afterStop;
  std::vector<E> seen;
  VisitHook* hook;
};

class IQ {
public:
  virtual ~IQ() {}
  virtual void push(E) = 0;
  virtual void pushRange(const std::vector<E>&) = 0;
  virtual E pop() = 0;
  virtual E top() = 0;
  virtual bool empty() = 0;
  virtual bool hasSize() {return true;}
  virtual size_t size() = 0;
  virtual bool hasDecreaseTop() {return true;}
  virtual void decreaseTop(E) = 0;
  virtual bool hasClear() {return true;}
  virtual void clear() = 0;
  virtual bool hasForAll() {return true;}
  virtual void forAll(Visitor&) = 0;
  virtual size_t memory() = 0;
  virtual std::string name() = 0;
};

// Layouts of entries
struct E16 { // power of two, 16 bytes
  long long k; unsigned long long w;
  static E16 from(E e) {E16 r; r.k = e.key; r.w = e.w; return r;}
  E to() const {E r; r.key = k; r.w = w; return r;}
};
struct E32 { // power of two, 32 bytes
  long long pad; long long k; unsigned long long w; long long pad2;
  static E32 from(E e) {E32 r; r.k = e.key; r.w = e.w; r.pad = 1; r.pad2 = 2; return r;}
  E to() const {E r; r.key = k; r.w = w; return r;}
};
struct E24 { // not a power of two
  long long k; unsigned long long w; long long pad;
  static E24 from(E e) {E24 r; r.k = e.key; r.w = e.w; r.pad = 7; return r;}
  E to() const {E r; r.key = k; r.w = w; return r;}
};

// The result type of compare is opaque to the queues: only cmpLessThan and cmpEqual
// interpret it.
struct Cmp {
  explicit Cmp(int v): v(v) {}
  int v; // 7 less, 3 equal, 5 greater
};

template<class En, bool Dedup>
struct BaseConf {
  typedef En Entry;
  typedef Cmp CompareResult;
  explicit BaseConf(Ctl* ctl): ctl(ctl) {}
  Cmp compare(const En& a, const En& b) const {
    ++ctl->compares;
    if (ctl->onCompare != 0) ctl->onCompare->at(ctl->compares - 1);
    if (ctl->failCompare >= 0 && ctl->failCompare-- == 0) throw CompareFault();
    return Cmp(a.k < b.k ? 7 : a.k == b.k ? 3 : 5);
  }
  bool cmpLessThan(Cmp c) const {return c.v == 7;}
  bool cmpEqual(Cmp c) const {return c.v == 3;}
  static const bool supportDeduplication = Dedup;
  En deduplicate(const En& a, const En& b) const {
    if (!Dedup) mc::fail("deduplicate called though deduplication is off");
    if (a.k != b.k) mc::fail("deduplicate called on entries that are not equal");
    if (ctl->disjoint && (a.w & b.w) != 0)
      mc::fail("deduplicate called on two copies of the same entry");
    ++ctl->dedups;
    En r(a);
    r.w = a.w + b.w;
    return r;
  }
  Ctl* ctl;
};

template<class En, bool Dedup, bool Fast>
struct TreeConf : public BaseConf<En, Dedup> {
  explicit TreeConf(Ctl* ctl): BaseConf<En, Dedup>(ctl) {}
  static const bool fastIndex = Fast;
};

template<class En, class V> struct FwdVisitor {
  explicit FwdVisitor(V& v): v(v) {}
  bool proceed(const En& e) {return v.proceed(e.to());}
  V& v;
};

// The configuration given to the constructor is gone afterwards.
template<class Q, class Conf> Q* build(const Conf& c) {
  std::unique_ptr<Conf> tmp(new Conf(c));
  Q* q = new Q(*tmp);
  return q;
}

template<class Q, class Conf>
class QBase : public IQ {
public:
  typedef typename Conf::Entry En;
  explicit QBase(const Conf& c): q(build<Q, Conf>(c)) {}
  void push(E e) override {q->push(En::from(e));}
  void pushRange(const std::vector<E>& v) override {
    std::vector<En> w;
    for (size_t i = 0; i < v.size(); ++i) w.push_back(En::from(v[i]));
    const En* b = w.empty() ? 0 : &w[0];
    q->push(b, b + w.size());
  }
  E pop() override {return q->pop().to();}
  E top() override {return q->top().to();}
  bool empty() override {return q->empty();}
  size_t memory() override {return q->getMemoryUse();}
  std::string name() override {return q->getName();}
protected:
  std::unique_ptr<Q> q;
};

template<class Q, class Conf>
class QFull : public QBase<Q, Conf> {
public:
  typedef typename Conf::Entry En;
  explicit QFull(const Conf& c): QBase<Q, Conf>(c) {}
  void decreaseTop(E e) override {this->q->decreaseTop(En::from(e));}
  void clear() override {this->q->clear();}
  void forAll(Visitor& v) override {
    FwdVisitor<En, Visitor> f(v);
    this->q->forAll(f);
  }
  size_t size() override {return 0;}
};

template<class Q, class Conf>
class QSized : public QFull<Q, Conf> {
public:
  explicit QSized(const Conf& c): QFull<Q, Conf>(c) {}
  size_t size() override {return this->q->size();}
};
template<class Q, class Conf>
class QNoSize : public QFull<Q, Conf> {
public:
  explicit QNoSize(const Conf& c): QFull<Q, Conf>(c) {}
  bool hasSize() override {return false;}
};
template<class Q, class Conf>
class QStl : public QBase<Q, Conf> {
public:
  explicit QStl(const Conf& c): QBase<Q, Conf>(c) {}
  bool hasSize() override {return false;}
  size_t size() override {return 0;}
  bool hasDecreaseTop() override {return false;}
  void decreaseTop(E) override {}
  bool hasClear() override {return false;}
  void clear() override {}
  bool hasForAll() override {return false;}
  void forAll(Visitor&) override {}
};

template<class En, bool Dedup, bool Fast> IQ* makeHeap(Ctl* c) {
  typedef TreeConf<En, Dedup, Fast> Conf;
  return new QSized<mathic::Heap<Conf>, Conf>(Conf(c));
}
template<class En> IQ* makeTour(Ctl* c) {
  typedef TreeConf<En, false, false> Conf;
  return new QNoSize<mathic::TourTree<Conf>, Conf>(Conf(c));
}
template<class En> IQ* makeStl(Ctl* c) {
  typedef TreeConf<En, false, false> Conf;
  return new QStl<mathic::StlSet<Conf>, Conf>(Conf(c));
}

template<bool TF, bool BIN, bool DEDUP, bool PRE, bool COL, int STORE, size_t IF>
struct GeoConf : public BaseConf<E16, DEDUP> {
  GeoConf(Ctl* c, size_t base, size_t minSize):
    BaseConf<E16, DEDUP>(c), geoBase(base), minBucketSize(minSize) {}
  size_t geoBase;
  size_t minBucketSize;
  static const bool trackFront = TF;
  static const bool minBucketBinarySearch = BIN;
  static const bool premerge = PRE;
  static const bool collectMax = COL;
  static const mathic::GeobucketBucketStorage bucketStorage =
    (mathic::GeobucketBucketStorage)STORE;
  static const size_t insertFactor = IF;
};
template<bool TF, bool BIN, bool DEDUP, bool PRE, bool COL, int STORE, size_t IF>
IQ* makeGeo(Ctl* c, size_t base, size_t minSize) {
  typedef GeoConf<TF, BIN, DEDUP, PRE, COL, STORE, IF> Conf;
  return new QSized<mathic::Geobucket<Conf>, Conf>(Conf(c, base, minSize));
}

typedef IQ* (*GeoMaker)(Ctl*, size_t base, size_t minSize);
struct GeoInfo {GeoMaker make; bool dedup; std::string name;};
void addGeo0(std::vector<GeoInfo>&); // the templates, split over translation units
void addGeo1(std::vector<GeoInfo>&);
void addGeo2(std::vector<GeoInfo>&);
void addGeo3(std::vector<GeoInfo>&);
void addGeo4(std::vector<GeoInfo>&);
void addGeo5(std::vector<GeoInfo>&);

// ---------------------------------------------------------------- reference model
inline unsigned long long splitmix(unsigned long long x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

// A queue under test together with what it must contain.
class Checked {
public:
  // bits: every entry gets a weight that is a bit of its own (at most 64 entries).
  Checked(mc::Ctx& ctx, IQ* q, Ctl* ctl, bool dedup, bool bits):
    mCtx(ctx), mQ(q), mCtl(ctl), mDedup(dedup), mBits(bits), mNext(0),
    mPushed(0), mPopped(0), mTopKnown(false) {
    ctl->disjoint = bits;
    mCtl->dedups = 0;
  }
  E fresh(long long key) {
    E e; e.key = key;
    e.w = mBits ? 1ULL << mNext : splitmix(mNext);
    if (mBits && mNext >= 64) mc::fail("harness error: too many entries");
    ++mNext;
    return e;
  }
  size_t live() const {return mPushed - mPopped - mCtl->dedups;}
  bool modelEmpty() const {return mKeys.empty();}
  long long maxKey() const {return mKeys.rbegin()->first;}
  const std::map<long long, std::map<unsigned long long, int> >& keys() const {return mKeys;}

  void push(long long key) {
    E e = fresh(key);
    if (mCtx.verbose()) mCtx.log("push key " + mc::str(key) + " id " + mc::str(mNext - 1));
    mQ->push(e);
    add(e);
    done();
  }
  // A push during which comparison number cmpAt or allocation number allocAt fails
  // (negative: none). Returns whether the push was refused.
  bool pushFailing(long long key, long cmpAt, long allocAt) {
    E e = fresh(key);
    if (mCtx.verbose())
      mCtx.log("push key " + mc::str(key) + (cmpAt >= 0 ? " failing at comparison " + mc::str(cmpAt) :
        " failing at allocation " + mc::str(allocAt)));
    bool refused = false;
    mCtl->failCompare = cmpAt;
    mc::failAllocAt(allocAt);
    try {mQ->push(e);}
    catch (const CompareFault&) {refused = true;}
    catch (const std::bad_alloc&) {refused = true;}
    mCtl->failCompare = -1;
    mc::failAllocAt(-1);
    mCtx.log(refused ? "  refused" : "  accepted");
    if (!refused) add(e);
    done();
    mCtx.outcome(mc::mix(2, refused));
    return refused;
  }
  // The same of a range. Refused means that all of it is.
  bool pushRangeFailing(const std::vector<long long>& keys, long allocAt) {
    if (mCtx.verbose()) mCtx.log("push range " + mc::list(keys) + " failing at allocation " + mc::str(allocAt));
    std::vector<E> v;
    for (size_t i = 0; i < keys.size(); ++i) v.push_back(fresh(keys[i]));
    bool refused = false;
    mc::failAllocAt(allocAt);
    try {mQ->pushRange(v);} catch (const std::bad_alloc&) {refused = true;}
    mc::failAllocAt(-1);
    mCtx.log(refused ? "  refused" : "  accepted");
    if (!refused) for (size_t i = 0; i < v.size(); ++i) add(v[i]);
    done();
    return refused;
  }
  void pushRange(const std::vector<long long>& keys) {
    if (mCtx.verbose()) mCtx.log("push range " + mc::list(keys));
    std::vector<E> v;
    for (size_t i = 0; i < keys.size(); ++i) v.push_back(fresh(keys[i]));
    mQ->pushRange(v);
    for (size_t i = 0; i < v.size(); ++i) add(v[i]);
    done();
  }
  E top() {
    E e = mQ->top();
    if (mCtx.verbose()) mCtx.log("top -> key " + mc::str(e.key));
    checkPresent(e, "top");
    mTopKnown = true; mTop = e;
    mCtx.step();
    mCtx.outcome(mc::mix(1, e.key));
    return e;
  }
  E pop() {
    E e = mQ->pop();
    if (mCtx.verbose()) mCtx.log("pop -> key " + mc::str(e.key));
    checkPresent(e, "pop");
    if (mTopKnown && (e.key != mTop.key || e.w != mTop.w))
      mc::fail("pop returned another entry than top did just before");
    remove(e);
    done();
    return e;
  }
  void decreaseTop(long long key) {
    // The entry that is replaced is the top one, learn which one that is.
    E old = top();
    E e = fresh(key);
    if (mCtx.verbose()) mCtx.log("decreaseTop to key " + mc::str(key));
    mQ->decreaseTop(e);
    remove(old);
    add(e);
    done();
  }
  void clear() {
    mCtx.log("clear");
    mQ->clear();
    mKeys.clear();
    mPushed = mPopped = 0; mCtl->dedups = 0;
    done();
  }
  // empty, size and content. stopAt: let forAll stop at that entry.
  void observe(size_t stopAt = (size_t)-1) {
    checkEmpty();
    if (mQ->hasSize()) mc::checkEq(mQ->size(), live(), "size");
    if (mQ->hasForAll()) {
      Visitor v;
      mQ->forAll(v);
      content(v.seen);
      if (stopAt != (size_t)-1 && stopAt >= 1 && stopAt <= live()) {
        Visitor s; s.limit = stopAt;
        mQ->forAll(s);
        mc::check(!s.afterStop, "forAll went on after proceed returned false");
        mc::checkEq(s.calls, stopAt, "number of entries forAll visited until told to stop");
      }
    }
  }
  void checkEmpty() {
    if (mQ->empty() != mKeys.empty())
      mc::fail(mKeys.empty() ? "empty() is false for an empty queue" : "empty() is true for a queue with entries");
  }
  // pops everything
  void drain() {
    size_t guard = mPushed + 1;
    while (!mQ->empty()) {
      if (guard-- == 0 || mKeys.empty()) mc::fail("the queue yields more entries than were pushed");
      pop();
    }
    mc::check(mKeys.empty(), "the queue is empty before every entry has been popped");
    mc::checkEq(live(), (size_t)0, "entries pushed minus popped minus merged");
    if (mQ->hasSize()) mc::checkEq(mQ->size(), (size_t)0, "size after popping everything");
  }
  void recordState() {
    uint64_t h = 17;
    for (KeyMap::const_iterator it = mKeys.begin(); it != mKeys.end(); ++it) {
      h = mc::mix(h, it->first);
      for (std::map<unsigned long long, int>::const_iterator j = it->second.begin(); j != it->second.end(); ++j)
        h = mc::mix(h, j->first);
    }
    mCtx.state(mc::mix(h, live()));
  }
  IQ& q() {return *mQ;}

private:
  typedef std::map<long long, std::map<unsigned long long, int> > KeyMap;
  // In the dedup case mKeys[key] holds the weights that have been pushed with that key
  // and not been popped; the queue may hold sums of them.
  void add(E e) {
    ++mPushed;
    ++mKeys[e.key][e.w];
  }
  void checkPresent(E e, const char* what) {
    if (mKeys.empty()) mc::fail(std::string(what) + " on an empty queue in the model (harness error)");
    if (e.key != maxKey()) {
      mc::fail(std::string(what) + " gave key " + mc::str(e.key) + " but the largest is " + mc::str(maxKey()));
    }
    if (!mDedup) {
      if (mKeys[e.key].count(e.w) == 0)
        mc::fail(std::string(what) + " gave an entry that is not in the queue (lost or returned twice)");
    } else if (mBits) {
      unsigned long long all = 0;
      std::map<unsigned long long, int>& m = mKeys[e.key];
      for (std::map<unsigned long long, int>::iterator i = m.begin(); i != m.end(); ++i) all |= i->first;
      if (e.w == 0 || (e.w & ~all) != 0)
        mc::fail(std::string(what) + " gave an entry with content that is not in the queue");
    }
  }
  void remove(E e) {
    ++mPopped;
    std::map<unsigned long long, int>& m = mKeys[e.key];
    if (!mDedup) {
      m.erase(e.w);
    } else if (mBits) {
      for (int b = 0; b < 64; ++b) if ((e.w >> b) & 1) m.erase(1ULL << b);
    } else {
      // Weights are spread out; keep what remains as one sum.
      unsigned long long sum = 0;
      for (std::map<unsigned long long, int>::iterator i = m.begin(); i != m.end(); ++i) sum += i->first * i->second;
      m.clear();
      if (sum != e.w) m[sum - e.w] = 1;
    }
    if (m.empty()) mKeys.erase(e.key);
  }
  void content(const std::vector<E>& seen) {
    mc::checkEq(seen.size(), live(), "number of entries forAll visits");
    std::map<long long, unsigned long long> got, want;
    std::map<unsigned long long, int> ids;
    for (size_t i = 0; i < seen.size(); ++i) {
      got[seen[i].key] += seen[i].w;
      if (!mDedup && ++ids[seen[i].w] > 1) mc::fail("forAll visited an entry twice");
    }
    for (KeyMap::const_iterator it = mKeys.begin(); it != mKeys.end(); ++it)
      for (std::map<unsigned long long, int>::const_iterator j = it->second.begin(); j != it->second.end(); ++j)
        want[it->first] += j->first * j->second;
    if (got != want) mc::fail("the entries forAll visits are not those pushed and not yet popped");
  }
  void done() {
    mTopKnown = false;
    mCtx.step();
    recordState();
  }

  mc::Ctx& mCtx;
  IQ* mQ;
  Ctl* mCtl;
  bool mDedup, mBits;
  size_t mNext, mPushed, mPopped;
  bool mTopKnown;
  E mTop;
  KeyMap mKeys;
};

// One configuration of a queue.
struct QInfo {
  std::string name;
  std::function<IQ*(Ctl*)> make;
  bool dedup;
  bool range; // alphabet includes pushing ranges
  bool unsorted = false; // ranges need not be sorted
};

// The bodies, shared by all queues.
void weakOrders(mc::Ctx& c, const QInfo& q, int maxN);
void histories(mc::Ctx& c, const QInfo& q, int depth);
void seeded(mc::Ctx& c, const QInfo& q, const std::vector<int>& sizes, int depth);
void reuse(mc::Ctx& c, const QInfo& q, int rounds, int n);
void faults(mc::Ctx& c, const QInfo& q, int maxFill, int rounds);
void large(mc::Ctx& c, const QInfo& q, const std::vector<int>& sizes, int patterns);
#endif
