// Two instances of a structure, used in turn, from within each other's calls of the user's
// code, or one made as a copy of the other, never influence each other.
#include "queue.h"
#include "finders.h"
#include "mathic/HashTable.h"
#include "mathic/PairQueue.h"
#include "mathic/BitTriangle.h"
#include "mathic/DivMask.h"
#include "mathic/NameFactory.h"
#include "mathic/CliParser.h"
#include "mathic/IntegerParameter.h"
#include "mathic/HelpAction.h"
#include "capture.h"
#include <set>
namespace {
  // ------------------------------------------------------------ divisor finders
  const Mono FArgs[] = {{{5, 5, 5}}, {{2, 3, 2}}, {{0, 0, 0}}, {{1, 1, 0}}, {{3, 1, 1}}};
  void light(mc::Ctx& c, Finder& f, int from) {
    mc::checkEq(f.f->size(), f.items.size(), "size");
    for (int i = 0; i < 5; ++i) f.query((i + from) % 4, FArgs[i], i % 2 == 0, "of one of two finders");
    uint64_t h = mc::hashStr(f.k.name);
    for (size_t i = 0; i < f.items.size(); ++i) h = mc::mix(h, f.items[i].m.e[0] * 100 + f.items[i].m.e[1]);
    c.state(h);
  }
  Finder* filled(mc::Ctx& c, User& u, int kind, int opt, int vars, int n, int pat) {
    Params p; p.user = &u; p.vars = vars; p.sort = opt % 3 == 1; p.cache = opt % 3 == 2; p.rebuilds = opt % 3 != 0;
    const Kind& k = kinds()[kind % kinds().size()];
    std::unique_ptr<Finder> f(new Finder(c, k, p));
    for (int i = 0; i < n; ++i) f->insert(place(pat, i));
    if (c.verbose()) c.log(k.name + ", " + mc::str(vars) + " variables" + (p.sort ? " sort" : "") + (p.cache ? " cache" : "") +
      (p.rebuilds ? " rebuilds" : "") + ", " + mc::str(n) + " entries in pattern " + mc::str(pat));
    return f.release();
  }
  const int FOps = 8;
  void fop(mc::Ctx& c, Finder& f, int op) {
    static const char* const names[] = {"insert 2,1,1", "insert 0,4,0", "remove multiples of 3,1,1", "rebuild", "search for divisors",
      "search for a divisor", "search for multiples", "forAll"};
    c.log(names[op]);
    switch (op) {
    case 0: {Mono m = {{2, 1, 1}}; f.insert(m); break;}
    case 1: {Mono m = {{0, 4, 0}}; f.insert(m); break;}
    case 2: f.removeMultiples(FArgs[4]); break;
    case 3: f.f->rebuild(); c.step(); break;
    case 4: f.query(0, FArgs[1], false, "of one of two finders"); break;
    case 5: f.query(3, FArgs[1], false, "of one of two finders"); break;
    case 6: f.query(1, FArgs[3], true, "of one of two finders"); break;
    default: f.query(2, FArgs[0], true, "of one of two finders"); break;
    }
  }
  void twoFinders(mc::Ctx& c, int depth) {
    User ua, ub;
    static const int N[] = {0, 5, 16};
    const int kind = c.choose((int)kinds().size()), opt = c.choose(3), sizes = c.tier(1, 0) + c.choose(c.tier(2, 3)), pat = c.mTier == mc::Quick ? (kind + opt) % 3 : c.choose(3);
    const int other = c.choose(c.tier(3, 4)); // the same kind and options, the same kind, another kind
    std::unique_ptr<Finder> a(filled(c, ua, kind, opt, 2 + sizes % 2, N[sizes], pat));
    std::unique_ptr<Finder> b(filled(c, ub, kind + (other == 2 ? 3 : 0), opt + (other == 1 ? 1 : other == 3 ? 2 : 0), 3 - (sizes + other / 2) % 2, N[(sizes + other + 1) % 3], pat + 1));
    for (int d = 0; d < depth; ++d) {
      const int x = c.choose(2 * FOps - 5);
      c.log(x % 2 == 0 ? "first finder:" : "second finder:");
      fop(c, x % 2 == 0 ? *a : *b, x / 2);
      light(c, *a, d); light(c, *b, d + 1);
    }
    a->all("of one of two finders"); b->all("of one of two finders");
  }
  struct OnOther : public Within {
    OnOther(mc::Ctx& c, Finder& f, long n, int op): c(c), f(f), n(n), op(op), ran(false) {}
    void at(long call) override {
      if (call != n && n >= 0) return;
      ran = true;
      fop(c, f, n < 0 && op < 4 ? 4 + op : op);
      light(c, f, (int)call);
    }
    mc::Ctx& c; Finder& f; long n; int op; bool ran;
  };
  void nestedFinders(mc::Ctx& c, int calls) {
    User ua, ub;
    static const int N[] = {3, 9, 16, 30};
    const int kind = c.choose((int)kinds().size()), opt = c.choose(3), sizes = c.choose(c.tier(3, 4)), pat = c.choose(c.tier(2, 3));
    const int other = c.choose(c.tier(3, 4));
    std::unique_ptr<Finder> a(filled(c, ua, kind, opt, 2 + sizes % 2, N[sizes], pat));
    std::unique_ptr<Finder> b(filled(c, ub, kind + (other == 2 ? 3 : 0), opt + (other == 1 ? 1 : other == 3 ? 2 : 0), 3 - (sizes + other / 2) % 2, N[(sizes + other + 1) % 3], pat + 1));
    const int outer = c.choose(FOps), inner = c.choose(FOps);
    static const int At[] = {0, 1, 2, 3, 5, 8, 12, 17, 25, 40, 60};
    const int at = c.choose(calls);
    const bool callback = outer >= 4 && outer != 5 && c.flag();
    OnOther o(c, *b, callback ? at - 1 : At[at], inner);
    if (callback) {
      if (c.verbose()) c.log("in the first finder " + std::string(Searches[outer == 4 ? 0 : outer == 6 ? 1 : 2]) + ", at call " + mc::str(at - 1) + " of the callback in the second:");
      const int what = outer == 4 ? 0 : outer == 6 ? 1 : 2;
      const Mono& m = FArgs[outer == 4 ? 1 : 3];
      a->checkResult(what, m, a->f->search(what, m, inner % 2 == 0, &o), "during which another finder was used");
    } else {
      ua.calls = 0; ua.hook = &o;
      if (c.verbose()) c.log("in the first finder, with something done in the second at call " + mc::str(At[at]) + " of the configuration:");
      fop(c, *a, outer);
      ua.hook = 0;
    }
    c.outcome(o.ran);
    if (!o.ran) return;
    light(c, *a, 0);
    a->all("of one of two finders"); b->all("of one of two finders");
    if (c.tier(0, 1) == 1) {fop(c, *a, inner); fop(c, *b, outer); light(c, *a, 1); light(c, *b, 2);}
  }

  // ------------------------------------------------------------ queues
  std::vector<QInfo> qs;
  template<class F> QInfo other(F f, bool dedup) {QInfo q; q.name = "queue"; q.dedup = dedup; q.range = false; q.make = f; return q;}
  template<bool TF, bool BIN, bool DEDUP, bool PRE, bool COL, int STORE> QInfo geo(size_t base, size_t minSize) {
    return other([base, minSize](Ctl* c) {return makeGeo<TF, BIN, DEDUP, PRE, COL, STORE, 1>(c, base, minSize);}, DEDUP);
  }
  bool qop(mc::Ctx& c, Checked& m, int op) {
    IQ& q = m.q();
    switch (op) {
    case 0: m.push(2); break;
    case 1: m.push(5); break;
    case 2: if (m.modelEmpty()) return false; m.pop(); break;
    case 3: if (m.modelEmpty()) return false; if (q.hasDecreaseTop()) m.decreaseTop(m.maxKey() - 3); else m.top(); break;
    default: {std::vector<long long> v; v.push_back(6); v.push_back(3); v.push_back(1); m.pushRange(v); break;}
    }
    c.step();
    return true;
  }
  void twoQueues(mc::Ctx& c, int depth) {
    Ctl ca, cb;
    const int i = c.choose((int)qs.size()), j = (i + c.choose(c.tier(3, (int)qs.size()))) % qs.size();
    std::unique_ptr<IQ> qa(qs[i].make(&ca)), qb(qs[j].make(&cb));
    c.log("first " + qa->name() + ", second " + qb->name());
    Checked a(c, qa.get(), &ca, qs[i].dedup, true), b(c, qb.get(), &cb, qs[j].dedup, true);
    static const int N[] = {0, 3, 9};
    const int sizes = c.choose(3);
    for (int k = 0; k < N[sizes]; ++k) a.push((k * 7) % 5);
    for (int k = 0; k < N[(sizes + 1) % 3]; ++k) b.push((k * 3) % 7);
    for (int d = 0; d < depth; ++d) {
      const int x = c.choose(10);
      c.log(x % 2 == 0 ? "first:" : "second:");
      if (!qop(c, x % 2 == 0 ? a : b, x / 2)) return;
      a.observe(); b.observe();
      a.recordState(); b.recordState();
    }
    while (!a.modelEmpty() && !b.modelEmpty()) {a.pop(); b.pop();}
    a.drain(); b.drain();
  }
  struct QHook : public VisitHook {
    QHook(mc::Ctx& c, Checked& m, long n, int op): c(c), m(m), n(n), op(op), ran(false) {}
    void at(size_t call) override {
      if ((long)call != n || ran) return;
      ran = true;
      c.log("within, in the second:");
      qop(c, m, op);
      m.observe();
    }
    mc::Ctx& c; Checked& m; long n; int op; bool ran;
  };
  void nestedQueues(mc::Ctx& c, int calls) {
    Ctl ca, cb;
    const int i = c.choose((int)qs.size()), j = (i + c.choose(c.tier(3, (int)qs.size()))) % qs.size();
    std::unique_ptr<IQ> qa(qs[i].make(&ca)), qb(qs[j].make(&cb));
    c.log("first " + qa->name() + ", second " + qb->name());
    Checked a(c, qa.get(), &ca, qs[i].dedup, true), b(c, qb.get(), &cb, qs[j].dedup, true);
    static const int N[] = {1, 3, 6, 10, 17};
    const int sizes = c.choose(5), pat = c.choose(3);
    for (int k = 0; k < N[sizes]; ++k) a.push(pat == 0 ? k : pat == 1 ? -k : (k * 7) % 5);
    for (int k = 0; k < N[(sizes + 1) % 5]; ++k) b.push((k * 3) % 7);
    const int outer = c.choose(6), inner = c.choose(5), at = c.choose(calls);
    QHook h(c, b, at, inner);
    c.log("first, with something done in the second at comparison or visit " + mc::str(at) + ":");
    if (outer == 5) {
      Visitor v; v.hook = &h; h.n = at + 1;
      qa->forAll(v);
      mc::checkEq(v.seen.size(), a.live(), "number of entries visited by a forAll");
    } else {
      ca.compares = 0; ca.onCompare = &h;
      qop(c, a, outer);
      ca.onCompare = 0;
    }
    c.outcome(h.ran);
    if (!h.ran) return;
    a.observe(); b.observe(); a.recordState(); b.recordState();
    while (!a.modelEmpty() && !b.modelEmpty()) {a.pop(); b.pop();}
    a.drain(); b.drain();
  }

  // ------------------------------------------------------------ tournament trees: copies
  template<class En> void copyTour(mc::Ctx& c, int depth) {
    typedef TreeConf<En, false, false> C;
    typedef mathic::TourTree<C> T;
    Ctl ctl;
    std::unique_ptr<T> a(new T(C(&ctl)));
    std::multiset<long long> ma, mb;
    static const int N[] = {0, 1, 2, 3, 5, 8, 9, 16, 17, 33};
    const int n = N[c.choose(10)], pat = c.choose(3), pops = c.choose(3), how = c.choose(3);
    unsigned long long id = 0;
    auto push = [&](T& t, std::multiset<long long>& m, long long k) {E e; e.key = k; e.w = ++id; t.push(En::from(e)); m.insert(k); c.step();};
    auto pop = [&](T& t, std::multiset<long long>& m) {
      mc::checkEq(t.empty(), m.empty(), "empty");
      if (m.empty()) return;
      mc::checkEq(t.top().to().key, *m.rbegin(), "key of top");
      mc::checkEq(t.pop().to().key, *m.rbegin(), "key of pop");
      m.erase(--m.end());
      c.step();
    };
    for (int k = 0; k < n; ++k) push(*a, ma, pat == 0 ? k : pat == 1 ? -k : (k * 7) % 5);
    for (int k = 0; k < pops; ++k) pop(*a, ma);
    std::unique_ptr<T> b;
    if (how == 0) {c.log("copied"); b.reset(new T(*a)); mb = ma;}
    else if (how == 1) {c.log("copied, then the original is destroyed"); b.reset(new T(*a)); mb = ma; a.reset(); a.reset(new T(C(&ctl))); ma.clear();}
    else {c.log("moved"); b.reset(new T(std::move(*a))); mb.swap(ma); a.reset(); a.reset(new T(C(&ctl)));}
    for (int d = 0; d < depth; ++d) {
      const int x = c.choose(6);
      T& t = x % 2 == 0 ? *a : *b;
      std::multiset<long long>& m = x % 2 == 0 ? ma : mb;
      c.log(x % 2 == 0 ? "first:" : "second:");
      if (x / 2 == 0) {c.log("push 3"); push(t, m, 3);}
      else if (x / 2 == 1) {c.log("pop"); pop(t, m);}
      else if (!m.empty()) {
        c.log("decreaseTop");
        E e; e.key = *m.rbegin() - 3; e.w = ++id;
        t.decreaseTop(En::from(e));
        m.erase(--m.end()); m.insert(e.key);
        c.step();
      }
    }
    uint64_t h = 3;
    for (long long k : ma) h = mc::mix(h, k);
    for (long long k : mb) h = mc::mix(h, k + 1000);
    c.state(h); c.outcome(mc::mix(ma.size(), mb.size()));
    while (!ma.empty() || !mb.empty()) {pop(*a, ma); pop(*b, mb);}
    pop(*a, ma); pop(*b, mb);
  }

  // ------------------------------------------------------------ hash tables
  struct HConf {
    typedef int Key; typedef int Value;
    User* user; int kind;
    size_t hash(int k) const {user->call(); return kind == 0 ? k : kind == 1 ? 0 : k % 3;}
    bool keysEqual(int a, int b) const {user->call(); return a == b;}
  };
  struct Table {
    typedef mathic::HashTable<HConf> T;
    Table(mc::Ctx& c, User& u, int kind, int bits): c(c) {HConf h; h.user = &u; h.kind = kind; t.reset(new T(h, bits));}
    void insert(int k, int v) {
      auto r = t->insert(k, v);
      mc::checkEq(r.first, m.count(k) == 0, "whether insert inserted");
      m.insert(std::make_pair(k, v));
      mc::checkEq(r.second->value(), m[k], "value of the inserted key");
      c.step();
    }
    void remove(int k) {
      T::Handle* h = t->lookup(k);
      mc::checkEq(h != 0, m.count(k) != 0, "lookup");
      if (h != 0) t->remove(h);
      m.erase(k);
      c.step();
    }
    void all() {
      for (int k = 0; k < 24; ++k) {
        T::Handle* h = t->lookup(k);
        mc::checkEq(h != 0, m.count(k) != 0, "whether a key is found");
        if (h != 0) {mc::checkEq(h->key(), k, "key"); mc::checkEq(h->value(), m[k], "value");}
      }
      c.step();
      uint64_t s = 5;
      for (auto& e : m) s = mc::mix(s, e.first * 100 + e.second);
      c.state(s);
    }
    void op(int o) {
      switch (o) {
      case 0: c.log("insert 1"); insert(1, 11); break;
      case 1: c.log("insert 23"); insert(23, 12); break;
      case 2: c.log("remove 2"); remove(2); break;
      case 3: c.log("look up all"); all(); break;
      default: c.log("hardReset"); t->hardReset(); m.clear(); c.step(); break;
      }
    }
    mc::Ctx& c;
    std::unique_ptr<T> t;
    std::map<int, int> m;
  };
  struct HHook : public Within {
    HHook(Table& t, long n, int op): t(t), n(n), op(op), ran(false) {}
    void at(long call) override {
      if (call != n) return;
      ran = true;
      t.c.log("within, in the second:");
      t.op(op); t.all();
    }
    Table& t; long n; int op; bool ran;
  };
  void tables(mc::Ctx& c, bool within, int depth) {
    User ua, ub;
    const int bits = c.choose(4), kind = c.choose(3), off = c.choose(3);
    Table a(c, ua, kind, bits), b(c, ub, (kind + off) % 3, (bits + off) % 4);
    static const int N[] = {0, 3, 8, 12};
    const int sizes = c.choose(4);
    for (int i = 0; i < N[sizes]; ++i) a.insert(i * 2, i);
    for (int i = 0; i < N[(sizes + 1) % 4]; ++i) b.insert(i * 2, i + 50);
    if (within) {
      const int outer = c.choose(5), inner = c.choose(5), at = c.choose(depth);
      HHook h(b, at, inner);
      ua.calls = 0; ua.hook = &h;
      c.log("first, with something done in the second at call " + mc::str(at) + " of the configuration:");
      a.op(outer);
      ua.hook = 0;
      c.outcome(h.ran);
      if (!h.ran) return;
    } else {
      for (int d = 0; d < depth; ++d) {
        const int x = c.choose(10);
        c.log(x % 2 == 0 ? "first:" : "second:");
        (x % 2 == 0 ? a : b).op(x / 2);
        a.all(); b.all();
      }
      c.outcome(a.m.size() * 50 + b.m.size());
    }
    a.all(); b.all();
  }

  // ------------------------------------------------------------ pair queues
  int valueOf(int pat, size_t col, size_t row) {return pat == 0 ? (int)(col * 5 + row * 3) % 7 : pat == 1 ? (int)(col + row) : -(int)(col * 2 + row);}
  struct PData {int v; int tag;};
  struct PConf {
    typedef PData PairData;
    typedef int CompareResult;
    User* user; int pat;
    void computePairData(size_t col, size_t row, PairData& pd) const {user->call(); pd.v = valueOf(pat, col, row); pd.tag = (int)(col * 1000 + row);}
    int compare(size_t ca, size_t ra, const PairData& a, size_t cb, size_t rb, const PairData& b) const {
      if (a.tag != (int)(ca * 1000 + ra) || b.tag != (int)(cb * 1000 + rb)) mc::fail("compare is given pair data of another pair");
      user->call();
      return a.v < b.v ? -1 : a.v > b.v;
    }
    bool cmpLessThan(int r) const {return r < 0;}
  };
  struct Pairs {
    Pairs(mc::Ctx& c, User& u, int pat): c(c), pat(pat) {PConf p; p.user = &u; p.pat = pat; q.reset(new mathic::PairQueue<PConf>(p));}
    void add(int which) { // which rows: all, none, the even ones
      const size_t col = q->columnCount();
      std::vector<mathic::PairQueueNamespace::Index> rows;
      retired.push_back(false);
      if (which != 1) for (size_t r = col; r > 0; --r) if (which == 0 || r % 2 == 1) if (!retired[r - 1]) rows.push_back(r - 1);
      std::stable_sort(rows.begin(), rows.end(), [&](size_t a, size_t b) {return valueOf(pat, col, a) > valueOf(pat, col, b);});
      q->addColumnDescending(rows.begin(), rows.end());
      for (size_t i = 0; i < rows.size(); ++i) m.insert(std::make_pair(col, (size_t)rows[i]));
      c.step();
    }
    void pop() {
      mc::checkEq(q->empty(), m.empty(), "empty");
      if (m.empty()) return;
      top();
      const std::pair<size_t, size_t> p = q->topPair();
      q->pop();
      m.erase(p);
      c.step();
    }
    void top() {
      const std::pair<size_t, size_t> p = q->topPair();
      if (m.count(p) == 0) mc::fail("the top pair (" + mc::str(p.first) + "," + mc::str(p.second) + ") is not in the queue");
      if (q->topPairData().tag != (int)(p.first * 1000 + p.second)) mc::fail("topPairData is that of another pair");
      for (auto& o : m) if (valueOf(pat, o.first, o.second) > valueOf(pat, p.first, p.second)) mc::fail("the top pair is not a largest one");
    }
    void all() {
      const size_t n = q->pairCount(); // pairs of retired indices may still be counted
      if (n < m.size() || n > m.size() + hidden || (m.empty() && n != 0)) mc::fail("pairCount " + mc::str(n) + " with " + mc::str(m.size()) + " pairs");
      mc::checkEq(q->empty(), m.empty(), "empty");
      mc::checkEq(q->columnCount(), retired.size(), "columnCount");
      if (!m.empty()) top();
      uint64_t s = pat;
      for (auto& p : m) s = mc::mix(s, p.first * 100 + p.second);
      c.state(s);
    }
    void retire(size_t i) {
      if (i >= retired.size() || retired[i]) return;
      q->retireIndex(i);
      retired[i] = true;
      for (auto it = m.begin(); it != m.end();) if (it->first == i || it->second == i) {it = m.erase(it); ++hidden;} else ++it;
      c.step();
    }
    void op(int o) {
      switch (o) {
      case 0: c.log("add a column with all rows"); add(0); break;
      case 1: c.log("add a column with every second row"); add(2); break;
      case 2: c.log("pop"); pop(); break;
      case 3: c.log("retire 1"); retire(1); break;
      default: c.log("retire 3"); retire(3); break;
      }
    }
    void drain() {while (!m.empty()) pop(); all();}
    mc::Ctx& c; int pat;
    std::unique_ptr<mathic::PairQueue<PConf> > q;
    std::set<std::pair<size_t, size_t> > m;
    std::vector<bool> retired;
    size_t hidden = 0;
  };
  struct PHook : public Within {
    PHook(Pairs& p, long n, int op): p(p), n(n), op(op), ran(false) {}
    void at(long call) override {
      if (call != n) return;
      ran = true;
      p.c.log("within, in the second:");
      p.op(op); p.all();
    }
    Pairs& p; long n; int op; bool ran;
  };
  void pairs(mc::Ctx& c, bool within, int depth) {
    User ua, ub;
    const int pat = c.choose(3), off = c.choose(2), sizes = c.choose(4);
    Pairs a(c, ua, pat), b(c, ub, (pat + off) % 3);
    static const int N[] = {0, 3, 5, 8};
    for (int i = 0; i < N[sizes]; ++i) a.add(i % 4 == 3 ? 2 : 0);
    for (int i = 0; i < N[(sizes + 1) % 4]; ++i) b.add(i % 3 == 2 ? 2 : 0);
    if (within) {
      const int outer = c.choose(5), inner = c.choose(5), at = c.choose(depth);
      PHook h(b, at, inner);
      ua.calls = 0; ua.hook = &h;
      c.log("first, with something done in the second at call " + mc::str(at) + " of the configuration:");
      a.op(outer);
      ua.hook = 0;
      c.outcome(h.ran);
      if (!h.ran) return;
      a.all(); b.all();
    } else {
      for (int d = 0; d < depth; ++d) {
        const int x = c.choose(10);
        c.log(x % 2 == 0 ? "first:" : "second:");
        (x % 2 == 0 ? a : b).op(x / 2);
        a.all(); b.all();
      }
      c.outcome(a.m.size() * 50 + b.m.size());
    }
    while (!a.m.empty() && !b.m.empty()) {a.pop(); b.pop();}
    a.drain(); b.drain();
  }

  // ------------------------------------------------------------ copies of small things
  void copyBits(mc::Ctx& c, int depth) {
    mathic::BitTriangle a;
    typedef std::vector<std::vector<bool> > M;
    M ma, mb;
    const int n = c.choose(5);
    for (int i = 0; i < n; ++i) {
      a.addColumn(); ma.push_back(std::vector<bool>(i));
      for (int j = 0; j < i; ++j) if ((i * 3 + j) % 2) {a.setBit(i, j, true); ma[i][j] = true;}
    }
    std::unique_ptr<mathic::BitTriangle> b;
    if (c.flag()) {b.reset(new mathic::BitTriangle(a)); c.log("copied a triangle of " + mc::str(n));}
    else {
      b.reset(new mathic::BitTriangle); b->addColumn(); b->addColumn(); b->setBit(1, 0, true); *b = a;
      c.log("assigned a triangle of " + mc::str(n));
    }
    mb = ma;
    auto check = [&](mathic::BitTriangle& t, M& m) {
      mc::checkEq(t.columnCount(), m.size(), "columnCount");
      mc::checkEq(t.empty(), m.empty(), "empty");
      for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < i; ++j) mc::checkEq(t.bit(i, j), (bool)m[i][j], "bit");
      c.step();
    };
    check(a, ma); check(*b, mb);
    for (int d = 0; d < depth; ++d) {
      const int x = c.choose(8);
      mathic::BitTriangle& t = x % 2 == 0 ? a : *b;
      M& m = x % 2 == 0 ? ma : mb;
      c.log(x % 2 == 0 ? "first:" : "second:");
      switch (x / 2) {
      case 0: c.log("addColumn"); m.push_back(std::vector<bool>(m.size())); t.addColumn(); break;
      case 1: if (m.size() < 2) return; c.log("set the last bit"); t.setBit(m.size() - 1, m.size() - 2, true); m[m.size() - 1][m.size() - 2] = true; break;
      case 2: if (m.size() < 3) return; c.log("clear bit 2,0"); t.setBitUnordered(0, 2, false); m[2][0] = false; break;
      default: c.log("assign to the other"); if (x % 2 == 0) {*b = a; mb = ma;} else {a = *b; ma = mb;} break;
      }
      check(a, ma); check(*b, mb);
    }
    uint64_t s = 1;
    for (size_t i = 0; i < ma.size(); ++i) for (size_t j = 0; j < i; ++j) s = s * 2 + ma[i][j];
    for (size_t i = 0; i < mb.size(); ++i) for (size_t j = 0; j < i; ++j) s = s * 2 + mb[i][j];
    c.state(mc::mix(s, ma.size() * 10 + mb.size())); c.outcome(s);
  }
  // The masks of one calculator are told apart from those of another by bounds chosen at rebuild:
  // a calculator is described by the masks it computes of a grid.
  struct MConf {
    typedef int Exponent;
    static const bool UseDivMask = true;
    int vars;
    template<class T> int getExponent(const T& t, size_t var) const {return t.e[var];}
    size_t getVarCount() const {return vars;}
  };
  void masks(mc::Ctx& c, int depth) {
    typedef mathic::DivMask::Calculator<MConf> Calc;
    MConf conf; conf.vars = 1 + c.choose(3);
    std::vector<Mono> grid, sets[3];
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; j += conf.vars > 1 ? 1 : 6) {Mono m = {{i, j, (i + j) % 4}}; grid.push_back(m);}
    for (int s = 0; s < 3; ++s) for (int i = 0; i < s * 5; ++i) sets[s].push_back(place(s, i));
    typedef std::vector<std::string> D;
    auto describe = [&](const Calc& k) { // the order of all masks
      D d; std::vector<mathic::DivMask> v;
      for (size_t i = 0; i < grid.size(); ++i) v.push_back(mathic::DivMask(grid[i], k, conf));
      for (size_t i = 0; i < v.size(); ++i) {
        std::string r;
        for (size_t j = 0; j < v.size(); ++j) r += v[i].canDivide(v[j]) ? '1' : '0';
        d.push_back(r);
      }
      return d;
    };
    static std::map<std::pair<int, int>, D> alone; // as computed by a calculator of its own
    auto want = [&](int s) -> const D& {
      D& d = alone[std::make_pair(conf.vars, s)];
      if (d.empty()) {Calc k(conf); k.rebuild(sets[s].begin(), sets[s].end(), conf); d = describe(k);}
      return d;
    };
    std::vector<std::unique_ptr<Calc> > k;
    std::vector<int> is;
    k.push_back(std::unique_ptr<Calc>(new Calc(conf))); is.push_back(0);
    if (c.flag()) {k.push_back(std::unique_ptr<Calc>(new Calc(conf))); is.push_back(0);}
    else {
      const int s = c.choose(3);
      k[0]->rebuild(sets[s].begin(), sets[s].end(), conf); is[0] = s;
      k.push_back(std::unique_ptr<Calc>(new Calc(*k[0]))); is.push_back(s);
      c.log("the second is a copy of the first, rebuilt for set " + mc::str(s));
    }
    for (int d = 0; d <= depth; ++d) {
      for (int i = 0; i < 2; ++i) if (describe(*k[i]) != want(is[i])) mc::fail("the masks of one of two calculators differ from those of a calculator of its own");
      c.step();
      if (d == depth) break;
      const int x = c.choose(8), i = x % 2;
      c.log(std::string(i == 0 ? "first: " : "second: ") + (x / 2 < 3 ? "rebuild for set " + mc::str(x / 2) : "assigned the other"));
      if (x / 2 < 3) {k[i]->rebuild(sets[x / 2].begin(), sets[x / 2].end(), conf); is[i] = x / 2;}
      else {*k[i] = *k[1 - i]; is[i] = is[1 - i];}
    }
    c.state(mc::mix(is[0] * 3 + is[1], conf.vars)); c.outcome(is[0] * 3 + is[1]);
  }
  struct Prod {virtual ~Prod() {} virtual int id() = 0;};
  template<int I> std::unique_ptr<Prod> makeProd() {struct P : public Prod {int id() override {return I;}}; return std::unique_ptr<Prod>(new P);}
  void factories(mc::Ctx& c, int depth) {
    typedef mathic::NameFactory<Prod> F;
    static const char* const names[] = {"a", "ab", "b"};
    static F::FactoryFunction const fs[] = {makeProd<0>, makeProd<1>, makeProd<2>};
    std::unique_ptr<F> f[2];
    std::map<std::string, int> m[2];
    f[0].reset(new F("first"));
    int copyAt = c.choose(depth + 1);
    if (c.flag()) {copyAt = -1; f[1].reset(new F("second"));}
    for (int d = 0; d <= depth; ++d) {
      if (d == copyAt) {f[1].reset(new F(*f[0])); m[1] = m[0]; c.log("second is a copy of the first");}
      if (d == depth) break;
      const int x = c.choose(6), i = x % 2, n = x / 2;
      if (f[i] == 0 || m[i].count(names[n]) != 0) return;
      c.log(std::string(i == 0 ? "first" : "second") + ": register " + names[n]);
      f[i]->registerProduct(names[n], fs[(n + i) % 3]);
      m[i][names[n]] = (n + i) % 3;
    }
    for (int i = 0; i < 2; ++i) {
      mc::checkEq(f[i]->empty(), m[i].empty(), "empty");
      for (int n = 0; n < 3; ++n) {
        std::unique_ptr<Prod> p = f[i]->createNullOnUnknown(names[n]);
        mc::checkEq(p != 0, m[i].count(names[n]) != 0, "whether a name is known");
        if (p != 0) mc::checkEq(p->id(), m[i][names[n]], "what a name stands for");
      }
      std::vector<std::string> v, w;
      f[i]->namesWithPrefix("a", v);
      for (auto& e : m[i]) if (e.first[0] == 'a') w.push_back(e.first);
      std::sort(v.begin(), v.end());
      if (v != w) mc::fail("names with prefix a");
      mc::checkEq(f[i]->abstractProductName(), std::string(i == 1 && copyAt < 0 ? "second" : "first"), "abstractProductName");
      c.step();
      c.state(mc::mix(m[0].size() * 4 + m[1].size(), copyAt + 1)); c.outcome(m[0].size() * 4 + m[1].size());
    }
  }
  template<int I> struct Act : public mathic::Action {
    static const char* staticName() {return I == 0 ? "zero" : I == 1 ? "one" : "two";}
    Act(): p(I == 0 ? "speed" : "depth", "A number.", 10 * I + 1) {}
    void directOptions(std::vector<std::string> t, mathic::CliParser&) override {direct = t;}
    void performAction() override {}
    const char* name() const override {return staticName();}
    const char* description() const override {return "";}
    const char* shortDescription() const override {return "";}
    void pushBackParameters(std::vector<mathic::CliParameter*>& v) override {v.push_back(&p);}
    mathic::IntegerParameter p;
    std::vector<std::string> direct;
  };
  // two parsers, each with its own actions; the actions they make have parameters of their own
  void parsers(mc::Ctx& c, int depth) {
    std::unique_ptr<mathic::CliParser> p[2];
    std::set<std::string> known[2];
    p[0].reset(new mathic::CliParser);
    const int copied = c.choose(3);
    p[0]->registerAction<Act<0> >(); known[0].insert("zero");
    if (copied == 1) p[0]->registerAction<Act<1> >(), known[0].insert("one");
    if (copied != 0) {p[1].reset(new mathic::CliParser(*p[0])); known[1] = known[0];}
    else p[1].reset(new mathic::CliParser);
    if (copied != 2) p[1]->registerAction<Act<2> >(), known[1].insert("two");
    else p[0]->registerAction<Act<1> >(), known[0].insert("one");
    if (c.flag()) p[0]->registerHelpAction("pre0", "post0"), known[0].insert("help");
    if (c.flag()) p[1]->registerHelpAction("pre1", "post1"), known[1].insert("help");
    for (int i = 0; i < 2; ++i) {
      std::vector<std::string> v;
      p[i]->pushBackRegisteredActionNames(v);
      if (std::set<std::string>(v.begin(), v.end()) != known[i]) mc::fail("the actions registered with one of two parsers");
      const std::string n(1, (char)('0' + i));
      if (known[i].count("help") != 0) {
        mc::checkEq(p[i]->helpPreMessage(), "pre" + n, "helpPreMessage");
        mc::checkEq(p[i]->helpPostMessage(), "post" + n, "helpPostMessage");
      }
    }
    // actions alive at the same time
    static const char* const lines[][2] = {{"zero", ""}, {"one", ""}, {"two", ""}, {"zero", "5"}, {"one", "6"}, {"two", "7"}};
    std::vector<std::unique_ptr<mathic::Action> > acts;
    std::vector<unsigned> want;
    for (int d = 0; d < depth; ++d) {
      const int x = c.choose(12), i = x % 2;
      std::vector<std::string> l;
      l.push_back(lines[x / 2][0]);
      if (*lines[x / 2][1]) {l.push_back(x / 2 == 3 ? "-speed" : "-depth"); l.push_back(lines[x / 2][1]);}
      c.log(std::string(i == 0 ? "first: " : "second: ") + mc::list(l));
      bool came = false;
      std::unique_ptr<mathic::Action> a;
      try {a = p[i]->parse(l);} catch (const mathic::MathicException&) {came = true;}
      mc::checkEq(came, known[i].count(l[0]) == 0, "whether an action unknown to one of two parsers is refused");
      c.step();
      if (came) continue;
      mc::checkEq(std::string(a->name()), l[0], "name of the action");
      acts.push_back(std::move(a));
      want.push_back(l.size() == 3 ? std::atoi(l[2].c_str()) : 10 * (x / 2 % 3) + 1);
      for (size_t k = 0; k < acts.size(); ++k) {
        std::vector<mathic::CliParameter*> v;
        acts[k]->pushBackParameters(v);
        mc::checkEq(dynamic_cast<mathic::IntegerParameter&>(*v[0]).value(), want[k], "parameter of one of several actions");
      }
    }
    uint64_t s = copied;
    for (size_t k = 0; k < want.size(); ++k) s = mc::mix(s, want[k]);
    c.state(s); c.outcome(acts.size());
  }
  // Help actions alive at the same time show what each was asked for.
  std::string shown(mathic::Action& a) {
    Capture cap;
    try {a.performAction();} catch (const mathic::MathicException& e) {return std::string("refused: ") + e.what();}
    return cap.stop();
  }
  void helps(mc::Ctx& c, int actions) {
    mathic::CliParser p[2];
    p[0].registerAction<Act<0> >(); p[0].registerAction<Act<1> >(); p[0].registerHelpAction("pre0", "post0");
    p[1].registerAction<Act<2> >(); p[1].registerAction<Act<0> >(); p[1].registerHelpAction("pre1", "post1");
    static const char* const topics[] = {"", "zero", "o", "two", "help"};
    std::vector<std::unique_ptr<mathic::Action> > as;
    std::vector<int> what;
    for (int k = 0; k < actions; ++k) {
      const int x = c.choose(10);
      std::vector<std::string> l(1, "help");
      if (x / 2 > 0) l.push_back(topics[x / 2]);
      c.log(mc::str(x % 2) + ": " + mc::list(l));
      as.push_back(p[x % 2].parse(l));
      what.push_back(x);
    }
    const int order = c.choose(3);
    static std::map<int, std::string> alone;
    for (int k = 0; k < 2 * actions; ++k) {
      const int i = order == 0 ? k % actions : order == 1 ? actions - 1 - k % actions : (k + 1) % actions;
      const std::string got = shown(*as[i]);
      const int x = what[i];
      if (alone.find(x) == alone.end()) {
        mathic::CliParser q;
        if (x % 2 == 0) {q.registerAction<Act<0> >(); q.registerAction<Act<1> >();}
        else {q.registerAction<Act<2> >(); q.registerAction<Act<0> >();}
        q.registerHelpAction(x % 2 ? "pre1" : "pre0", x % 2 ? "post1" : "post0");
        std::vector<std::string> l(1, "help");
        if (x / 2 > 0) l.push_back(topics[x / 2]);
        alone[x] = shown(*q.parse(l));
        if (alone[x].empty()) mc::fail("nothing is shown");
      }
      if (got != alone[x]) mc::fail("one of several help actions shows\n" + got + "\ninstead of\n" + alone[x]);
      c.step(); c.outcome(mc::hashStr(got)); c.state(mc::mix(x, k));
    }
  }
}

void mc::registerSuites() {
  mc::add("two finders/in turn", [](mc::Ctx& c) {twoFinders(c, c.tier(3, 4));}, 4, false, true);
  mc::add("two finders/within", [](mc::Ctx& c) {nestedFinders(c, c.tier(5, 11));}, 4, false, true);
  typedef E16 En;
  qs.push_back(other([](Ctl* c) {return makeHeap<En, false, true>(c);}, false));
  qs.push_back(other([](Ctl* c) {return makeHeap<En, true, false>(c);}, true));
  qs.push_back(other([](Ctl* c) {return makeTour<En>(c);}, false));
  qs.push_back(geo<false, false, false, false, false, 0>(2, 1));
  qs.push_back(geo<true, true, false, true, true, 1>(2, 2));
  qs.push_back(geo<false, true, true, false, true, 2>(3, 1));
  qs.push_back(geo<true, false, true, true, false, 0>(2, 1));
  qs.push_back(geo<false, false, true, true, false, 1>(4, 2));
  mc::add("two queues/in turn", [](mc::Ctx& c) {twoQueues(c, c.tier(4, 5));}, 3, false, true);
  mc::add("two queues/within", [](mc::Ctx& c) {nestedQueues(c, c.tier(8, 20));}, 4, false, true);
  mc::add("two queues/copied 16", [](mc::Ctx& c) {copyTour<E16>(c, c.tier(5, 7));}, 4, false, true);
  mc::add("two queues/copied 24", [](mc::Ctx& c) {copyTour<E24>(c, c.tier(4, 7));}, 4, false, true);
  mc::add("two tables/in turn", [](mc::Ctx& c) {tables(c, false, c.tier(3, 5));}, 4, false, true);
  mc::add("two tables/within", [](mc::Ctx& c) {tables(c, true, c.tier(24, 48));}, 4, false, true);
  mc::add("two pair queues/in turn", [](mc::Ctx& c) {pairs(c, false, c.tier(4, 6));}, 3, false, true);
  mc::add("two pair queues/within", [](mc::Ctx& c) {pairs(c, true, c.tier(24, 40));}, 4, false, true);
  mc::add("two triangles/copied", [](mc::Ctx& c) {copyBits(c, c.tier(4, 6));}, 3, false, true);
  mc::add("two calculators", [](mc::Ctx& c) {masks(c, c.tier(3, 5));}, 3, false, true);
  mc::add("two factories", [](mc::Ctx& c) {factories(c, c.tier(4, 6));}, 3, false, true);
  mc::add("two parsers", [](mc::Ctx& c) {parsers(c, c.tier(3, 4));}, 3, false, true);
  mc::add("two help actions", [](mc::Ctx& c) {helps(c, c.tier(3, 4));}, 2, false, true);
}
