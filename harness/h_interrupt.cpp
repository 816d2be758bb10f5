// Queries that end by an exception of the user's code, and queries made from within the
// callback of another query.
#include "queue.h"
#include "finders.h"
#include "mathic/HashTable.h"
#include <algorithm>
#include <memory>
namespace {
  // afterwards the finder must be as before, and be able to go on
  void goOn(mc::Ctx& c, Finder& f, int quick = -1) {
    f.all("afterwards");
    const int then = quick < 0 || c.mTier != mc::Quick ? c.choose(3) : quick % 3;
    if (then == 1) {Mono m = {{1, 5, 1}}; f.insert(m); Mono o = {{4, 0, 1}}; f.insert(o);}
    else if (then == 2) {f.removeMultiples(Args[1]); f.f->rebuild();}
    if (then != 0) f.all("after going on");
  }

  void thrown(mc::Ctx& c, int maxSize, int maxAt) {
    User u;
    std::unique_ptr<Finder> f(fill(c, u, maxSize));
    const int what = c.choose(3);
    const int arg = what == 2 ? 0 : c.choose(4);
    const int at = c.choose(maxAt);
    const int times = c.mTier == mc::Quick ? 1 + at % 2 : 1 + c.choose(2);
    const bool viaConst = c.mTier == mc::Quick ? (at + arg) % 2 == 0 : c.flag();
    if ((size_t)at >= f->want(what, Args[arg]).size()) return;
    for (int t = 0; t < times; ++t) {
      Thrower th(at);
      if (c.verbose()) c.log(std::string(Searches[what]) + " of argument " + mc::str(arg) + ", the callback throws at call " + mc::str(at));
      bool came = false;
      try {f->f->search(what, Args[arg], viaConst, &th);}
      catch (const UserFault&) {came = true;}
      if (!came) mc::fail("the exception of the callback did not reach the caller");
    }
    goOn(c, *f);
  }
  void userFails(mc::Ctx& c, int maxSize, int maxAt) {
    User u;
    std::unique_ptr<Finder> f(fill(c, u, maxSize));
    const int what = c.choose(4);
    const int arg = what == 2 ? 0 : c.choose(4);
    const int at = c.choose(maxAt);
    const bool viaConst = c.mTier == mc::Quick ? (at + arg) % 2 == 0 : c.flag();
    if (c.verbose()) c.log(std::string(Searches[what]) + " of argument " + mc::str(arg) + ", call " + mc::str(at) + " of the configuration throws");
    bool came = false;
    std::vector<int> got;
    u.calls = 0;
    u.failAt = at;
    try {got = f->f->search(what, Args[arg], viaConst, 0);}
    catch (const UserFault&) {came = true;}
    const bool fired = u.failAt < 0;
    u.failAt = -1;
    if (!fired) {f->checkResult(what, Args[arg], got, "without a failure"); return;}
    if (!came) mc::fail("the exception of the configuration did not reach the caller");
    goOn(c, *f);
  }
  void nested(mc::Ctx& c, int maxSize, int maxAt) {
    User u;
    std::unique_ptr<Finder> f(fill(c, u, maxSize));
    const int what = c.choose(3);
    const int arg = what == 2 ? 0 : c.choose(4);
    const int at = c.choose(maxAt) - 1;
    const bool viaConst = c.mTier == mc::Quick ? (at + arg) % 2 == 0 : c.flag();
    if (at >= (int)f->want(what, Args[arg]).size()) return;
    const int inner = c.choose(5);
    const int innerArg = inner == 2 ? 0 : c.choose(4);
    if (c.verbose()) c.log(std::string(Searches[what]) + " of argument " + mc::str(arg) + ", at call " + mc::str(at) +
      " (-1: each) " + (inner == 4 ? "a search that is cut short by an exception, " : Searches[inner]) + " of argument " + mc::str(innerArg));
    if (inner == 4) {
      if (at < 0) return;
      ThrowInNested n(*f, at, (what + innerArg) % 3, Args[innerArg]);
      f->checkResult(what, Args[arg], f->f->search(what, Args[arg], viaConst, &n), "that had another one within");
    } else {
      Nested n(*f, at, inner, Args[innerArg], !viaConst);
      f->checkResult(what, Args[arg], f->f->search(what, Args[arg], viaConst, &n), "that had another one within");
    }
    goOn(c, *f, at + 1 + inner);
  }

  // ------------------------------------------------------------ queues
  // fronts: geobuckets of the main options
  void queues(mc::Ctx& c, const std::vector<QInfo>& qs, int maxN) {
    const QInfo& info = qs[c.choose((int)qs.size())];
    Ctl ctl;
    std::unique_ptr<IQ> q(info.make(&ctl));
    if (c.verbose()) c.log(q->name());
    Checked m(c, q.get(), &ctl, info.dedup, true);
    static const int N[] = {1, 2, 3, 5, 8, 13, 20, 34};
    const int n = N[c.choose(maxN)];
    const int pat = c.choose(3);
    for (int i = 0; i < n; ++i) m.push(pat == 0 ? i : pat == 1 ? -i : (i * 7) % 5);
    if (c.flag()) {m.pop(); if (m.modelEmpty()) return; }
    const int how = c.choose(3);
    if (how == 0) {
      const size_t at = 1 + c.choose(4);
      if (at > m.live()) return;
      if (c.verbose()) c.log("forAll, the visitor throws at call " + mc::str(at));
      struct Throw : public VisitHook {
        size_t n;
        void at(size_t call) override {if (call == n) throw UserFault();}
      } hook;
      hook.n = at;
      Visitor v; v.hook = &hook;
      bool came = false;
      try {q->forAll(v);} catch (const UserFault&) {came = true;}
      if (!came) mc::fail("the exception of the visitor did not reach the caller");
    } else if (how == 1) {
      const int at = c.choose(6);
      bool came = false;
      ctl.failCompare = at;
      try {q->top();} catch (const CompareFault&) {came = true;}
      const bool fired = ctl.failCompare < 0;
      ctl.failCompare = -1;
      if (c.verbose()) c.log("top, comparison " + mc::str(at) + " throws" + (fired ? "" : " (not reached)"));
      if (fired && !came) mc::fail("the exception of the comparison did not reach the caller");
    } else {
      c.log("forAll with forAll, size and empty from within");
      struct Nest : public VisitHook {
        IQ* q; Checked* m;
        void at(size_t call) override {
          if (call > 3) return;
          Visitor v;
          q->forAll(v);
          mc::checkEq(v.seen.size(), m->live(), "number of entries visited by a forAll within another");
          if (q->hasSize()) mc::checkEq(q->size(), m->live(), "size asked for within forAll");
          mc::check(!q->empty(), "empty() is true within forAll");
        }
      } hook;
      hook.q = q.get(); hook.m = &m;
      Visitor v; v.hook = &hook;
      q->forAll(v);
      mc::checkEq(v.seen.size(), m.live(), "number of entries visited by a forAll that had another within");
    }
    c.step();
    c.outcome(mc::mix(how, n));
    m.observe();
    const int then = c.choose(4);
    if (then == 1) m.push(3);
    else if (then == 2 && q->hasDecreaseTop()) m.decreaseTop(m.maxKey() - 2);
    else if (then == 3 && q->hasClear()) {m.clear(); m.push(1); m.push(2);}
    m.observe();
    m.drain();
  }
  template<bool TF, bool BIN, bool DEDUP, bool PRE, bool COL, int STORE> QInfo geo(size_t base, size_t minSize) {
    QInfo q; q.name = "geo"; q.dedup = DEDUP; q.range = false;
    q.make = [base, minSize](Ctl* c) {return makeGeo<TF, BIN, DEDUP, PRE, COL, STORE, 1>(c, base, minSize);};
    return q;
  }
  template<class F> QInfo other(F f, bool dedup) {QInfo q; q.name = "queue"; q.dedup = dedup; q.range = false; q.make = f; return q;}

  // ------------------------------------------------------------ hash table
  struct HConf {
    typedef int Key; typedef int Value;
    User* user; int kind;
    size_t hash(int k) const {user->call(); return kind == 0 ? k : kind == 1 ? 0 : k % 3;}
    bool keysEqual(int a, int b) const {user->call(); return a == b;}
  };
  void hash(mc::Ctx& c, int maxN) {
    User u;
    HConf conf; conf.user = &u; conf.kind = c.choose(3);
    mathic::HashTable<HConf> t(conf, c.choose(4));
    static const int N[] = {0, 1, 2, 4, 7, 12, 40};
    const int n = N[c.choose(maxN)];
    std::vector<mathic::HashTable<HConf>::Handle*> hs;
    for (int i = 0; i < n; ++i) hs.push_back(t.insert(i * 2, i).second);
    const int key = c.choose(10), at = c.choose(8);
    if (c.verbose()) c.log(mc::str(n) + " keys, lookup of " + mc::str(key) + ", call " + mc::str(at) + " of the configuration throws");
    bool came = false;
    u.failAt = at;
    try {t.lookup(key);} catch (const UserFault&) {came = true;}
    const bool fired = u.failAt < 0;
    u.failAt = -1;
    if (fired && !came) mc::fail("the exception of the configuration did not reach the caller");
    c.step();
    for (int i = 0; i < n; ++i) {
      auto* h = t.lookup(i * 2);
      if (h != hs[i]) mc::fail("key " + mc::str(i * 2) + " is not found any more");
      mc::checkEq(h->value(), i, "value");
      if (t.lookup(i * 2 + 1) != 0) mc::fail("a key that was never inserted is found");
    }
    c.step();
    c.state(mc::mix(mc::mix(n, key), at * 8 + conf.kind));
    c.outcome(fired);
    t.insert(1001, 5);
    mc::check(t.lookup(1001) != 0 && t.lookup(1001)->value() == 5, "a key inserted afterwards is not found");
  }
}

void mc::registerSuites() {
  mc::add("finders/callback throws", [](mc::Ctx& c) {thrown(c, c.tier(7, 8), c.tier(6, 12));}, 4);
  mc::add("finders/configuration throws", [](mc::Ctx& c) {userFails(c, c.tier(6, 8), c.tier(16, 60));}, 4);
  mc::add("finders/nested", [](mc::Ctx& c) {nested(c, c.tier(6, 8), c.tier(4, 9));}, 4);
  static std::vector<QInfo> qs;
  typedef E16 En;
  qs.push_back(other([](Ctl* c) {return makeHeap<En, false, true>(c);}, false));
  qs.push_back(other([](Ctl* c) {return makeHeap<En, true, false>(c);}, true));
  qs.push_back(other([](Ctl* c) {return makeTour<En>(c);}, false));
  qs.push_back(geo<false, false, false, false, false, 0>(2, 1));
  qs.push_back(geo<true, true, false, true, true, 1>(2, 2));
  qs.push_back(geo<false, true, true, false, true, 2>(3, 1));
  qs.push_back(geo<true, false, true, true, false, 0>(2, 1));
  qs.push_back(geo<false, false, true, true, false, 1>(4, 2));
  mc::add("queues/interrupted", [](mc::Ctx& c) {queues(c, qs, c.tier(7, 8));}, 3);
  mc::add("hash/interrupted", [](mc::Ctx& c) {hash(c, 7);}, 3);
}
