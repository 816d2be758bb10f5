// Operations during which an allocation of memory fails.
#include "queue.h"
#include "finders.h"
#include "mathic/HashTable.h"
#include "mathic/BitTriangle.h"
#include "mathic/DivMask.h"
#include "mathic/NameFactory.h"
#include "mathic/CliParser.h"
#include "mathic/IntegerParameter.h"
#include "mathic/StringParameter.h"
#include "mathic/ColumnPrinter.h"
#include <set>
#include <sstream>
namespace {
  void warm() {
    memt::Arena& arena = memt::Arena::getArena();
    arena.freeTop(arena.alloc(1 << 16));
  }
  // Runs f with allocation number at failing (-1: none). Returns whether it was refused.
  template<class F> bool failing(long at, F f, size_t size = 0) {
    bool refused = false;
    // The allocators of memtailor do not survive a failed allocation of theirs, so have space in them.
    warm();
    mc::failAllocAt(at, size);
    try {f();} catch (const std::bad_alloc&) {refused = true;}
    const bool fired = mc::allocsSeen() > at && at >= 0;
    mc::failAllocAt(-1);
    if (refused && !fired) mc::fail("an operation is refused though no allocation failed");
    return refused;
  }
  void finders(mc::Ctx& c, int maxSize, int maxAt) {
    User u;
    const Kind& k = kinds()[c.choose(3)]; // the lists
    Params p; p.user = &u;
    const int opt = c.choose(3);
    p.vars = 2 + (opt != 1);
    p.sort = opt == 1; p.cache = opt == 2; p.rebuilds = opt != 0;
    Finder f(c, k, p);
    static const int N[] = {0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 36, 70, 71};
    const int n = N[c.choose(maxSize)], pat = c.choose(3);
    if (c.verbose()) c.log(k.name + ", " + mc::str(p.vars) + " variables" + (p.sort ? " sort" : "") + (p.cache ? " cache" : "") +
      (p.rebuilds ? " rebuilds" : "") + ", " + mc::str(n) + " entries in pattern " + mc::str(pat));
    for (int i = 0; i < n; ++i) f.insert(place(pat, i));
    const int op = c.choose(6), at = c.choose(maxAt);
    static const char* const names[] = {"insert 2,1,1", "insert 0,4,0", "remove multiples of 3,1,1", "rebuild", "search for divisors", "forAll"};
    c.log(std::string(names[op]) + ", allocation " + mc::str(at) + " fails");
    Mono m = {{2, 1, 1}}; if (op == 1) {m.e[0] = 0; m.e[1] = 4; m.e[2] = 0;} if (op == 2) m.e[0] = 3;
    Ent e; e.m = m; e.id = f.next++;
    bool refused = false;
    if (op < 2) {
      size_t same = 0;
      for (size_t i = 0; i < f.items.size(); ++i) same += Finder::div(f.items[i].m, m, p.vars) && Finder::div(m, f.items[i].m, p.vars);
      if (same >= k.leaf) return;
      refused = failing(at, [&]() {f.f->insert(e);});
      // may have been done all the same
      if (!refused || f.f->size() == f.items.size() + 1) f.items.push_back(e);
    } else if (op == 2) {
      refused = failing(at, [&]() {f.f->removeMultiples(m);});
      // may have been done all the same
      if (!refused || f.f->size() != f.items.size()) {
        std::vector<Ent> left;
        for (size_t i = 0; i < f.items.size(); ++i) if (!Finder::div(m, f.items[i].m, p.vars)) left.push_back(f.items[i]);
        f.items.swap(left);
      }
    } else if (op == 3) refused = failing(at, [&]() {f.f->rebuild();});
    else refused = failing(at, [&]() {f.f->search(op == 4 ? 0 : 2, m, true, 0);});
    c.step(); c.outcome(mc::mix(refused, op));
    if (!refused && at > 0) return;
    c.log(refused ? "refused" : "accepted");
    f.all("after a failed allocation");
    const int then = c.choose(4);
    if (then == 0) {Mono a = {{1, 5, 1}}; f.insert(a); f.all("after going on");}
    else if (then == 1) {f.removeMultiples(Args[3]); f.all("after going on");}
    else if (then == 2) {f.f->rebuild(); f.all("after going on");}
  }
  template<class F> QInfo other(F f, bool dedup, bool range = false) {QInfo q; q.name = "queue"; q.dedup = dedup; q.range = range; q.make = f; return q;}
  template<bool TF, bool BIN, bool DEDUP, bool PRE, bool COL, int STORE> QInfo geo(size_t base, size_t minSize) {
    return other([base, minSize](Ctl* c) {return makeGeo<TF, BIN, DEDUP, PRE, COL, STORE, 1>(c, base, minSize);}, DEDUP, true);
  }
  std::vector<QInfo> qs;
  void queues(mc::Ctx& c, int sizes) {
    Ctl ctl;
    const int i = c.choose((int)qs.size());
    std::unique_ptr<IQ> q(qs[i].make(&ctl));
    c.log(q->name());
    Checked a(c, q.get(), &ctl, qs[i].dedup, true);
    const int n = c.choose(sizes), pat = c.choose(3);
    static const int lengths[] = {1, 1, 2, 3, 9, 33};
    const int what = c.choose(qs[i].range ? n + 33 < 53 ? 6 : n + 9 < 53 ? 5 : 2 : 2);
    for (int k = 0; k < n; ++k) a.push(pat == 0 ? k : pat == 1 ? -k : (k * 7) % 5);
    const int at = c.choose(4);
    const size_t before = q->size();
    bool refused;
    if (what < 2) refused = a.pushFailing(what == 1 ? 3 : 100, -1, at);
    else {
      std::vector<long long> keys;
      for (int k = lengths[what]; k > 0; --k) keys.push_back(3 * k);
      refused = a.pushRangeFailing(keys, at);
    }
    if (refused) mc::checkEq(q->size(), before, "size after a refused push");
    if (!refused && at > 0) return;
    a.observe();
    const int then = c.choose(3);
    if (then == 1) a.push(4); else if (then == 2) {for (int k = 0; k < 9; ++k) a.push(k);}
    a.observe();
    a.drain();
  }
  // a container that cannot be constructed leaves no memory allocated
  void construct(mc::Ctx& c) {
    Ctl ctl; User u; kinds();
    const int what = c.choose((int)qs.size() + 5), at = c.choose(12);
    c.log("construct structure " + mc::str(what) + ", allocation " + mc::str(at) + " fails");
    std::unique_ptr<IQ> q; std::unique_ptr<IF> f; std::unique_ptr<mathic::ColumnPrinter> p; std::unique_ptr<mathic::CliParser> cli;
    const bool refused = failing(at, [&]() {
      if (what < (int)qs.size()) q.reset(qs[what].make(&ctl));
      else if (what - qs.size() < 3) {
        Params p; p.user = &u; p.vars = 3; p.sort = p.cache = p.rebuilds = true;
        f.reset(kinds()[what - qs.size()].make(p));
      } else if (what - qs.size() == 3) p.reset(new mathic::ColumnPrinter(5));
      else {cli.reset(new mathic::CliParser); cli->registerHelpAction("a message of some length, too long to be kept inside", "another message that takes memory");}
    });
    if (refused) mc::check(!q && !f && !p, "refused, but made");
    c.step(); c.outcome(refused); c.state(mc::mix(what, at));
  }
  struct HConf {
    typedef int Key; typedef int Value;
    int kind;
    size_t hash(int k) const {return kind == 0 ? k : kind == 1 ? 0 : k % 3;}
    bool keysEqual(int a, int b) const {return a == b;}
  };
  void table(mc::Ctx& c, int sizes) {
    typedef mathic::HashTable<HConf> T;
    HConf h; h.kind = c.choose(3);
    const int nbits = c.choose(6);
    T t(h, nbits);
    const int n = c.choose(sizes);
    for (int i = 0; i < n; ++i) t.insert(i, i * 2);
    const int at = c.choose(4) + 1; // the table that is not to be had has 4^at times as many places as the first
    const bool refused = failing(0, [&]() {t.insert(n, n * 2);}, ((size_t)1 << (nbits + 2 * at)) * sizeof(void*));
    c.log(mc::str(n) + " keys, another one, no table of 2^" + mc::str(nbits + 2 * at) + " places to be had" + (refused ? ": refused" : ": accepted"));
    c.step(); c.outcome(refused); c.state(mc::mix(n, (nbits * 8 + at) * 3 + h.kind));
    if (!refused) return;
    auto check = [&](int count) {
      for (int i = 0; i < count + 5; ++i) {
        T::Handle* p = t.lookup(i);
        mc::checkEq(p != 0, i < count, "whether a key is found");
        if (p != 0) {mc::checkEq(p->key(), i, "key"); mc::checkEq(p->value(), i * 2, "value");}
      }
      c.step();
    };
    int count = n + !refused;
    if (refused && t.lookup(n) != 0) ++count; // has been done all the same
    check(count);
    for (int i = 0; i < 10; ++i) {mc::check(t.insert(count, count * 2).first, "a new key is taken for a known one"); ++count; check(count);}
  }
  void bits(mc::Ctx& c, int sizes) {
    mathic::BitTriangle t;
    const int n = c.choose(sizes), at = c.choose(4);
    for (int i = 0; i < n; ++i) {t.addColumn(); for (int j = 0; j < i; ++j) if ((i + j) % 3 == 0) t.setBit(i, j, true);}
    const bool refused = failing(at, [&]() {t.addColumn();});
    c.log(mc::str(n) + " columns, another one, allocation " + mc::str(at) + " fails" + (refused ? ": refused" : ": accepted"));
    c.step(); c.outcome(refused); c.state(mc::mix(n, at));
    mc::checkEq(t.columnCount(), (size_t)(n + !refused), "columnCount");
    const size_t m = t.columnCount();
    t.addColumn();
    for (size_t i = 0; i <= m; ++i) for (size_t j = 0; j < i; ++j) mc::checkEq(t.bit(i, j), i < (size_t)n && (i + j) % 3 == 0, "bit");
  }
  template<int I> struct Act : public mathic::Action {
    Act(): n("number", "A number.", 7), s("text", "A text.", "some text that takes an allocation of memory") {}
    void directOptions(std::vector<std::string> t, mathic::CliParser&) override {direct = t;}
    void performAction() override {}
    const char* name() const override {return staticName();}
    const char* description() const override {return "does nothing";}
    const char* shortDescription() const override {return "nothing";}
    void pushBackParameters(std::vector<mathic::CliParameter*>& p) override {p.push_back(&n); p.push_back(&s);}
    static const char* staticName() {return I == 0 ? "first" : I == 1 ? "second" : I == 2 ? "third-that-has-a-name-of-some-length" : "fourth";}
    mathic::IntegerParameter n; mathic::StringParameter s;
    std::vector<std::string> direct;
  };
  void commandLine(mc::Ctx& c, int maxAt) {
    mathic::CliParser p;
    const int n = c.choose(4), op = c.choose(6), at = c.choose(maxAt);
    if (n > 0) p.registerAction<Act<0> >();
    if (n > 1) p.registerAction<Act<1> >();
    if (n > 2) p.registerAction<Act<2> >();
    static const char* const names[] = {"register another action", "parse 'f'", "parse 'first x y -number 3 -text abc'", "parse 'unknown'", "parse 'first -bad 1'", "list the actions"};
    c.log(mc::str(n) + " actions, " + names[op] + ", allocation " + mc::str(at) + " fails");
    bool refused = false, reported = false;
    try {
      refused = failing(at, [&]() {
        if (op == 0) {
          if (n == 0) p.registerAction<Act<0> >(); else if (n == 1) p.registerAction<Act<1> >();
          else if (n == 2) p.registerAction<Act<2> >(); else p.registerAction<Act<3> >();
        } else if (op < 5) {
          std::vector<std::string> l;
          if (op == 1) l = {"f"}; else if (op == 2) l = {"first", "x", "y", "-number", "3", "-text", "abc"};
          else if (op == 3) l = {"unknown"}; else l = {"first", "-bad", "1"};
          p.parse(l);
        } else {std::vector<std::string> v; p.pushBackRegisteredActionNames(v);}
      });
    } catch (const mathic::MathicException&) {reported = true; mc::failAllocAt(-1);}
    c.step(); c.outcome(mc::mix(refused, op)); c.state(mc::mix(n * 6 + op, refused));
    std::vector<std::string> v, want;
    p.pushBackRegisteredActionNames(v);
    const int count = n + (op == 0 && !refused);
    if (count > 3) want.push_back("fourth"); if (count > 0) want.insert(want.begin(), "first");
    if (count > 1) want.push_back("second"); if (count > 2) want.push_back("third-that-has-a-name-of-some-length");
    if (v != want) mc::fail("the registered actions are others than were registered");
    if (!refused && op > 0 && op < 5) mc::checkEq(reported, n == 0 || op > 2, "whether the command line is refused");
    for (int i = 0; i < 2; ++i) {
      if (count > 2) mc::check(dynamic_cast<Act<2>*>(p.parse({"third"}).get()) != 0, "an abbreviated action");
      if (count > 0) {
        std::unique_ptr<mathic::Action> a = p.parse({"first", "d", "-num", "12", "-te", "xyz"});
        Act<0>* t = dynamic_cast<Act<0>*>(a.get());
        mc::check(t != 0 && t->n.value() == 12 && t->s.value() == "xyz" && t->direct.size() == 1, "a command line after a failed allocation");
      }
      bool unknown = false;
      try {p.parse({"nosuch"});} catch (const mathic::UnknownNameException&) {unknown = true;}
      mc::check(unknown, "an unknown action is accepted");
      if (refused && op == 0 && i == 0) { // again
        if (n == 0) p.registerAction<Act<0> >(); else if (n == 1) p.registerAction<Act<1> >();
        else if (n == 2) p.registerAction<Act<2> >(); else p.registerAction<Act<3> >();
      }
      c.step();
    }
  }
  void columns(mc::Ctx& c) {
    mathic::ColumnPrinter pr;
    const int n = c.choose(10), at = c.choose(12), op = c.choose(2);
    for (int i = 0; i < n; ++i) pr.addColumn(i % 2 == 0, "<", ">") << i << "\n" << i * 111 << "\n";
    const bool refused = failing(at, [&]() {
      if (op == 0) pr.addColumn(true, "a prefix that takes an allocation of memory", "a suffix that takes an allocation, too");
      else {std::ostringstream o; pr.print(o);}
    });
    c.log(mc::str(n) + " columns, " + (op == 0 ? "another one" : "printing") + ", allocation " + mc::str(at) + " fails" + (refused ? ": refused" : ": accepted"));
    c.step(); c.outcome(mc::mix(refused, op)); c.state(mc::mix(n, at * 2 + op));
    mc::checkEq(pr.getColumnCount(), (size_t)(n + (op == 0 && !refused)), "number of columns");
    if (op == 0 && !refused) return;
    std::ostringstream got, want;
    pr.print(got);
    for (int row = 0; row < 2 && n > 0; ++row) {
      for (int i = 0; i < n; ++i) {
        const std::string t = mc::str(row == 0 ? i : i * 111), fill(mc::str(i * 111).size() - t.size(), ' ');
        want << '<' << (i % 2 == 0 ? t + fill : fill + t) << '>';
      }
      want << '\n';
    }
    mc::checkEq(got.str(), want.str(), "what is printed");
  }
  // with nothing left allocated
  mc::Body tight(mc::Body f) {
    return [f](mc::Ctx& c) {
      kinds();
      warm();
      const long live = mc::liveAllocs();
      f(c);
      warm();
      mc::checkEq(mc::liveAllocs(), live, "allocations when everything is gone");
    };
  }
}
void mc::registerSuites() {
  mc::add("finders", tight([](mc::Ctx& c) {finders(c, c.tier(13, 14), c.tier(24, 30));}), 4);
  typedef E16 En;
  qs.push_back(other([](Ctl* c) {return makeHeap<En, false, true>(c);}, false));
  qs.push_back(other([](Ctl* c) {return makeHeap<En, true, false>(c);}, true));
  qs.push_back(other([](Ctl* c) {return makeTour<En>(c);}, false));
  qs.push_back(geo<false, false, false, false, false, 0>(2, 1));
  qs.push_back(geo<true, true, false, true, true, 1>(2, 2));
  qs.push_back(geo<false, true, true, false, true, 2>(3, 1));
  qs.push_back(geo<true, false, true, true, false, 0>(2, 1));
  qs.push_back(geo<false, false, true, true, false, 1>(4, 2));
  qs.push_back(geo<false, true, false, false, true, 1>(3, 1));
  qs.push_back(geo<true, true, false, false, false, 2>(2, 1));
  qs.push_back(geo<true, false, false, false, true, 1>(2, 3));
  qs.push_back(geo<false, false, false, true, true, 2>(4, 1));
  mc::add("queues", tight([](mc::Ctx& c) {queues(c, c.tier(40, 52));}), 3);
  mc::add("construct", tight([](mc::Ctx& c) {construct(c);}), 2);
  mc::add("hash", tight([](mc::Ctx& c) {table(c, c.tier(80, 300));}), 3);
  mc::add("command line", tight([](mc::Ctx& c) {commandLine(c, c.tier(120, 200));}), 2);
  mc::add("columns", tight([](mc::Ctx& c) {columns(c);}), 2);
  mc::add("bits", tight([](mc::Ctx& c) {bits(c, c.tier(70, 200));}), 2);
}
