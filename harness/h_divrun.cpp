// The simulator of divisor finders: the workload it makes, and that it notices a finder that
// disagrees with an earlier one. The explorer decides what rand() gives, sets the clock and
// catches exit.
#include "divsim/stdinc.h"
#include "divsim/DivListModel.h"
#include "divsim/KDTreeModel.h"
#include "divsim/Simulation.h"
#include "mc.h"
#include <csetjmp>
#include <cstdlib>
#include <ctime>
#include <memory>
#include <set>
#include <sstream>
#include <unistd.h>
namespace {
  std::clock_t now = 0;
  std::jmp_buf whereTo;
  volatile bool armed = false;
  volatile int exitStatus = 0;
  mc::Ctx* gCtx = 0;
  int randChoices = 0;
  int randRange = 0; // 0: anything
  unsigned long long randState = 1;
  int nextRand() {
    if (randChoices > 0) {--randChoices; return gCtx->choose(3);}
    randState = randState * 6364136223846793005ULL + 1442695040888963407ULL;
    const int v = (int)(randState >> 33);
    return randRange ? v % randRange : v;
  }
}
extern "C" clock_t clock() noexcept {return now;}
extern "C" int rand() noexcept {return nextRand();}
extern "C" void srand(unsigned int s) noexcept {randState = s * 2654435761ULL + 12345;}
extern "C" void exit(int status) noexcept {
  if (armed) {armed = false; exitStatus = status; std::longjmp(whereTo, 1);}
  fflush(0);
  _exit(status);
}
namespace {
  struct Ran {std::string err, out; bool exited; int status;};
  template<class F> Ran catching(F f) {
    static std::ostringstream* err; static std::ostringstream* out; // survive the longjmp
    std::ostringstream e, o;
    err = &e; out = &o;
    static std::streambuf* oldErr; static std::streambuf* oldOut;
    oldErr = std::cerr.rdbuf(err->rdbuf());
    oldOut = std::cout.rdbuf(out->rdbuf());
    volatile bool exited = false;
    armed = true;
    if (setjmp(whereTo) == 0) f(); else exited = true;
    armed = false;
    std::cerr.rdbuf(oldErr); std::cout.rdbuf(oldOut);
    Ran r; r.err = err->str(); r.out = out->str(); r.exited = exited; r.status = exitStatus;
    return r;
  }

  typedef std::vector<int> V;
  struct Ev {bool insert; V v;};
  // What the finder under test shall do wrong.
  enum How {Nothing, LessInserted, MoreInserted, OneLess, OneMore, FindNone, FindOne};
  struct Script {
    How how;
    long at;      // at this event
    bool applied; // it made a difference
    long event;
    std::vector<Ev> events;
    unsigned long long cost; // what it reports as queries for exponents
    long ticks;
    std::string name;
    size_t vars;
  };
  Script* gScript;
  // A right finder, minimizing, that records what it is asked.
  class Ref {
  public:
    typedef Monomial Entry;
    explicit Ref(size_t vars): s(*gScript) {s.event = 0; s.events.clear(); s.applied = false; s.vars = vars;}
    static bool divides(const V& a, const V& b) {for (size_t i = 0; i < a.size(); ++i) if (a[i] > b[i]) return false; return true;}
    bool wrong() {return s.event == s.at;}
    void record(const Monomial& m, bool insert) const {
      Ev e; e.insert = insert; e.v.assign(m.getPointer(), m.getPointer() + s.vars);
      s.events.push_back(e);
      now += s.ticks;
    }
    void insert(const Monomial& m) {std::vector<Monomial> o; insert(m, o);}
    template<class MO> void insert(const Monomial& m, MO& out) {
      record(m, true);
      const V& v = s.events.back().v;
      size_t removed = 0;
      bool dominated = false;
      for (auto& x : held) dominated = dominated || divides(x, v);
      if (!dominated) {
        for (size_t i = 0; i < held.size();)
          if (divides(v, held[i])) {held.erase(held.begin() + i); monos.erase(monos.begin() + i); ++removed;} else ++i;
        held.push_back(v);
        monos.push_back(m);
      }
      if (wrong()) {
        if (s.how == LessInserted && removed > 0) {--removed; s.applied = true;}
        if (s.how == MoreInserted) {++removed; s.applied = true;}
      }
      for (size_t i = 0; i < removed; ++i) out.push_back(m);
      ++s.event;
    }
    Monomial* findDivisor(const Monomial& m) {
      record(m, false);
      const V& v = s.events.back().v;
      Monomial* r = 0;
      for (size_t i = 0; i < held.size() && r == 0; ++i) if (divides(held[i], v)) r = &monos[i];
      if (wrong()) {
        if (s.how == FindNone && r != 0) {r = 0; s.applied = true;}
        else if (s.how == FindOne && r == 0 && !monos.empty()) {r = &monos[0]; s.applied = true;}
      }
      ++s.event;
      return r;
    }
    const Monomial* findDivisor(const Monomial& m) const {return const_cast<Ref*>(this)->findDivisor(m);}
    template<class DO> void findAllDivisors(const Monomial& m, DO& out) const {
      record(m, false);
      const V& v = s.events.back().v;
      size_t n = 0;
      for (size_t i = 0; i < held.size(); ++i) n += divides(held[i], v);
      if (s.event == s.at) {
        if (s.how == OneLess && n > 0) {--n; s.applied = true;}
        if (s.how == OneMore) {++n; s.applied = true;}
      }
      for (size_t i = 0; i < n; ++i) out.proceed(monos.empty() ? m : monos[i % monos.size()]);
      ++s.event;
    }
    template<class DO> void findAllDivisors(const Monomial& m, DO& out) {const_cast<const Ref&>(*this).findAllDivisors(m, out);}
    template<class DO> void forAll(DO& out) const {for (auto& m : monos) out.proceed(m);}
    size_t size() const {return held.size();}
    std::string getName() const {return s.name;}
    unsigned long long getExpQueryCount() const {return s.cost;}
    Script& s;
    std::vector<V> held;
    std::vector<Monomial> monos;
  };
  std::string commas(unsigned long long v) {
    std::string s = mc::str(v), r;
    for (size_t i = 0; i < s.size(); ++i) {if (i && (s.size() - i) % 3 == 0) r += ','; r += s[i];}
    return r;
  }
  Script plain(const std::string& name) {
    Script s; s.how = Nothing; s.at = -1; s.applied = false; s.event = 0; s.cost = 0; s.ticks = 0; s.name = name; s.vars = 0;
    return s;
  }
  struct Load {
    std::unique_ptr<Simulation> sim;
    size_t vars, inserts, queries;
    bool all;
    std::string what;
  };
  void pick(mc::Ctx& c, Load& l, bool small) {
    static const size_t I[] = {0, 1, 2, 4, 9, 30, 100}, Q[] = {0, 1, 3, 5, 12, 40, 150};
    l.vars = 1 + c.choose(small ? 2 : 4);
    l.inserts = I[c.choose(small ? 4 : 7)];
    l.queries = Q[c.choose(small ? 4 : 7)];
    l.all = c.flag();
  }
  void make(mc::Ctx& c, Load& l, int choices, int range, bool partial = false) {
    l.what = "makeStandard(" + mc::str(l.vars) + ", " + mc::str(l.inserts) + ", " + mc::str(l.queries) + (l.all ? ", true)" : ", false)");
    if (c.verbose()) c.log(l.what);
    l.sim.reset(new Simulation(1, partial));
    gCtx = &c; randChoices = choices; randRange = range;
    l.sim->makeStandard(l.vars, l.inserts, l.queries, l.all);
    randChoices = 0; randRange = 0;
    c.step();
  }
  std::vector<Ev> checkLoad(mc::Ctx& c, Load& l) {
    Script s = plain("ref");
    gScript = &s;
    Ran r = catching([&]() {l.sim->run<Ref>();});
    if (r.exited) mc::fail(l.what + ": the first finder was rejected: " + r.err);
    mc::checkEq(s.vars, l.vars, "variables of the finder");
    if (s.events.size() != l.inserts + l.queries) mc::fail(l.what + ": " + mc::str(s.events.size()) + " events");
    uint64_t h = l.all;
    for (size_t i = 0; i < s.events.size(); ++i) {
      if (s.events[i].insert != (i < l.inserts)) mc::fail(l.what + ": event " + mc::str(i) + " is " + (s.events[i].insert ? "an insertion" : "a query"));
      for (int e : s.events[i].v) if (e < 0) mc::fail(l.what + ": an exponent is negative");
      h = mc::hashAll(s.events[i].v, h);
    }
    c.state(h);
    c.outcome(s.events.size());
    return s.events;
  }
  void loads(mc::Ctx& c, bool small, int choices) {
    Load l;
    pick(c, l, small);
    make(c, l, choices, choices ? 3 : 0);
    const std::vector<Ev> ev = checkLoad(c, l);
    // all finders are given the same, and right ones agree
    Script s = plain("again");
    gScript = &s;
    Ran r = catching([&]() {l.sim->run<Ref>();});
    if (r.exited) mc::fail(l.what + ": a second finder that is right was rejected: " + r.err);
    mc::checkEq(s.events.size(), ev.size(), "events given to the second finder");
    for (size_t i = 0; i < ev.size(); ++i)
      if (s.events[i].insert != ev[i].insert || s.events[i].v != ev[i].v) mc::fail(l.what + ": the second finder was asked something else");
    // the same parameters give the same workload
    if (choices == 0) {
      Load k; k.vars = l.vars; k.inserts = l.inserts; k.queries = l.queries; k.all = l.all;
      make(c, k, 0, 0);
      const std::vector<Ev> again = checkLoad(c, k);
      for (size_t i = 0; i < ev.size(); ++i) if (again[i].v != ev[i].v) mc::fail(l.what + ": another simulation with these parameters differs");
    }
    c.step();
  }
  template<class M, class... X> void right(mc::Ctx& c, Load& l, const char* name, X... x) {
    Ran r = catching([&]() {l.sim->run<M>(x...);});
    if (r.exited) mc::fail(l.what + ": " + name + " was rejected: " + r.err);
    c.step();
  }
  void models(mc::Ctx& c) {
    Load l;
    pick(c, l, false);
    make(c, l, 0, c.choose(2) ? 0 : 4);
    checkLoad(c, l);
    right<DivListModel<0, 0> >(c, l, "array list", 1, 0, 0, 0.0, 0);
    right<DivListModel<0, 1> >(c, l, "array list with masks, to front", 1, 1, 0, 0.5, 3);
    right<DivListModel<1, 1> >(c, l, "linked list with masks, sorted", 1, 0, 1, 0.5, 3);
    right<DivListModel<1, 0> >(c, l, "linked list", 1, 1, 0, 0.0, 0);
    right<KDTreeModel<1, 1, 1, 1, 1> >(c, l, "packed tree with tree masks", 1, 0, 0, 1.0, 10);
    right<KDTreeModel<1, 0, 1, 2, 1> >(c, l, "packed tree with masks, sorted", 1, 1, 0, 0.5, 5);
    right<KDTreeModel<0, 0, 1, 2, 1> >(c, l, "packed tree, cache", 1, 0, 1, 0.5, 5);
    right<KDTreeModel<1, 1, 0, 2, 1> >(c, l, "binary tree with tree masks", 1, 1, 1, 0.5, 5);
    right<KDTreeModel<0, 0, 0, 1, 1> >(c, l, "binary tree", 1, 0, 0, 0.0, 0);
    std::ostringstream o;
    l.sim->printData(o);
    size_t rows = 0;
    for (char ch : o.str()) rows += ch == '\n';
    mc::checkEq(rows, (size_t)11, "lines of the table of 10 finders");
  }
  void wrong(mc::Ctx& c) {
    Load l;
    pick(c, l, false);
    make(c, l, 0, 2 + c.choose(c.tier(5, 12)));
    const std::vector<Ev> ev = checkLoad(c, l);
    for (long at = 0; at < (long)ev.size(); ++at)
      for (int how = LessInserted; how <= FindOne; ++how) {
        if (ev[at].insert != (how <= MoreInserted)) continue;
        if (!ev[at].insert && l.all != (how <= OneMore)) continue;
        Script s = plain("wrong1");
        s.how = (How)how; s.at = at;
        gScript = &s;
        Ran r = catching([&]() {l.sim->run<Ref>();});
        if (!s.applied) {
          if (r.exited) mc::fail(l.what + ": a right finder was rejected: " + r.err);
          continue;
        }
        static const char* const Hows[] = {"", "one too few displaced", "one too many displaced", "one divisor too few", "one divisor too many", "no divisor although there is one", "a divisor although there is none"};
        const std::string desc = l.what + ": event " + mc::str(at) + " answered with " + Hows[how];
        if (!r.exited) mc::fail(desc + " is not noticed");
        if (r.status == 0) mc::fail(desc + ": exit with status 0");
        if (s.event != at + 1) mc::fail(desc + ": the simulation went on");
        if (r.err.find("wrong1") == std::string::npos) mc::fail(desc + ": the message does not name the finder: " + r.err);
        c.step(); c.outcome(how);
      }
    Script s = plain("right1");
    gScript = &s;
    Ran r = catching([&]() {l.sim->run<Ref>();});
    if (r.exited) mc::fail(l.what + ": after wrong finders a right one is rejected: " + r.err);
  }
  void table(mc::Ctx& c) {
    Load l;
    l.vars = 2; l.inserts = 3; l.queries = 1; l.all = false;
    make(c, l, 0, 0, true);
    const int n = 1 + c.choose(c.tier(3, 4));
    static const unsigned long long C[] = {0, 7, 999, 1000, 12345, 999999, 1000000, 12345678901ULL};
    static const long T[] = {0, 250, 1000, 999750, 1000000, 123456000, 4000000000L};
    struct Row {std::string name; unsigned long long ms, eqs;};
    std::vector<Row> rows;
    for (int i = 0; i < n; ++i) {
      Script s = plain("finder" + mc::str((i * 3 + n) % 5) + (i % 2 ? " with a long name" : ""));
      s.cost = C[c.choose(i == 0 ? 8 : 3) + (i == 0 ? 0 : 3)];
      s.ticks = T[c.choose(i == 0 ? 7 : 3) + (i == 0 ? 0 : 2)];
      gScript = &s;
      now = i * 1000;
      Ran r = catching([&]() {l.sim->run<Ref>();});
      if (r.exited) mc::fail("a right finder was rejected: " + r.err);
      Row w; w.name = s.name; w.eqs = s.cost; w.ms = s.ticks * 4 * 1000ULL / CLOCKS_PER_SEC;
      const std::string want = w.name + " " + commas(w.ms) + " ms " + commas(w.eqs) + " eqs\n";
      if (r.err != want) mc::fail("the line on the finder is " + r.err + ", should be " + want);
      rows.push_back(w);
      c.step();
    }
    std::ostringstream o;
    l.sim->printData(o);
    std::istringstream in(o.str());
    std::string line;
    std::getline(in, line);
    mc::checkEq(line, std::string("*** Simulation outcome for 1 repeats ***"), "heading of the table");
    unsigned long long last = 0;
    std::set<std::string> seen;
    while (std::getline(in, line)) {
      bool found = false;
      for (auto& w : rows) {
        std::string want = w.name + commas(w.ms) + "ms" + commas(w.eqs) + "eqs", squeezed, wantSqueezed;
        for (char ch : line) if (ch != ' ') squeezed += ch;
        for (char ch : want) if (ch != ' ') wantSqueezed += ch;
        if (squeezed != wantSqueezed) continue;
        found = true;
        if (!seen.insert(w.name).second) mc::fail("a finder is in the table twice:\n" + o.str());
        if (w.ms < last) mc::fail("the table is not sorted by time:\n" + o.str());
        last = w.ms;
      }
      if (!found) mc::fail("a line of the table is wrong:\n" + o.str());
    }
    mc::checkEq(seen.size(), rows.size(), "rows of the table");
    c.state(mc::hashStr(o.str()));
    now = 0;
  }
}
void mc::registerSuites() {
  mc::add("div/chosen rand", [](mc::Ctx& c) {loads(c, true, c.tier(8, 10));}, 3);
  mc::add("div/workloads", [](mc::Ctx& c) {loads(c, false, 0);}, 2);
  mc::add("div/models", [](mc::Ctx& c) {models(c);}, 2);
  mc::add("div/wrong", [](mc::Ctx& c) {wrong(c);}, 2);
  mc::add("div/table", [](mc::Ctx& c) {table(c);}, 2);
}
