// The simulator of priority queues: the workloads it makes, and that it notices a queue that
// answers wrong. The explorer decides what rand() gives, sets the clock and catches exit.
#include "pqsim/stdinc.h"
#include "pqsim/HeapModel.h"
#include "pqsim/TourTreeModel.h"
#include "pqsim/StlSetModel.h"
#include "pqsim/GeobucketModel.h"
#include "pqsim/Simulator.h"
#include "mc.h"
#include <csetjmp>
#include <cstdlib>
#include <ctime>
#include <map>
#include <set>
#include <memory>
#include <sstream>
#include <unistd.h>
int pqMainOfRepo(int argc, const char** args);
namespace {
  // ---------------------------------------------------------- environment
  std::clock_t now = 0;
  std::jmp_buf whereTo;
  volatile bool armed = false;
  volatile int exitStatus = 0;
  mc::Ctx* gCtx = 0;
  int randChoices = 0;  // so many calls are decided by the explorer
  long randCalls = 0;
  unsigned long long randState = 1;
  const int Rands[] = {0, 1, 2, 99};
  int nextRand() {
    if (++randCalls > 20000000) mc::fail("making the workload does not end");
    if (randChoices > 0) {--randChoices; return Rands[gCtx->choose(gCtx->mTier == mc::Quick ? 3 : 4)];}
    randState = randState * 6364136223846793005ULL + 1442695040888963407ULL;
    return (int)(randState >> 33);
  }
}
extern "C" clock_t clock() noexcept {return now;}
extern "C" int rand() noexcept {return nextRand();}
extern "C" void srand(unsigned int s) noexcept {randState = s * 2654435761ULL + 12345;}
extern "C" void exit(int status) noexcept {
  if (armed) {armed = false; exitStatus = status; std::longjmp(whereTo, 1);}
  fflush(0);
  _exit(status);
}
namespace {
  // What f writes; whether it called exit.
  struct Ran {std::string err, out; bool exited; int status;};
  template<class F> Ran catching(F f) {
    static std::ostringstream* err; static std::ostringstream* out; // survive the longjmp
    std::ostringstream e, o;
    err = &e; out = &o;
    static std::streambuf* oldErr; static std::streambuf* oldOut;
    oldErr = std::cerr.rdbuf(err->rdbuf());
    oldOut = std::cout.rdbuf(out->rdbuf());
    volatile bool exited = false;
    armed = true;
    if (setjmp(whereTo) == 0) f(); else exited = true;
    armed = false;
    std::cerr.rdbuf(oldErr); std::cout.rdbuf(oldOut);
    Ran r; r.err = err->str(); r.out = out->str(); r.exited = exited; r.status = exitStatus;
    return r;
  }

  // ---------------------------------------------------------- queues
  struct Ev {
    std::vector<Value> span; // empty: a pop
    Value popped;
  };
  // A right queue that records what is asked of it, and can be made to answer wrong once.
  class Ref {
  public:
    Ref(std::string name, bool dups): mName(name), mDups(dups), mPops(0), mWrongAt(-1), mWrong(0), mComparisons(0), mMemory(0), mTicks(0), mBad(0) {}
    void push(const Value* b, const Value* e) {
      if (!mBad && b == e) mBad = "an empty span is pushed";
      for (const Value* i = b; i != e; ++i) {
        if (!mBad && i != b && !(*i < i[-1])) mBad = "a span is not strictly decreasing";
        m.insert(*i);
      }
      Ev ev; ev.span.assign(b, e); ev.popped = 0;
      mEvents.push_back(ev);
      now += mTicks;
    }
    Value pop() {
      if (m.empty()) {mBad = "a pop of an empty queue"; return 0;}
      Value v = *m.rbegin();
      do {m.erase(--m.end());} while (mDups && !m.empty() && *m.rbegin() == v);
      Ev ev; ev.popped = v;
      mEvents.push_back(ev);
      now += mTicks;
      if (mPops++ == mWrongAt) {
        const Value right = v;
        switch (mWrong) {
        case 0: v = right + 1; break;
        case 1: v = right - 1; break;
        case 2: v = m.empty() ? right + 7 : *m.rbegin() != right ? *m.rbegin() : right + 7; break;
        default: v = m.empty() || *m.begin() == right ? 0 - right - 1 : *m.begin(); break;
        }
      }
      return v;
    }
    bool empty() const {return m.empty();}
    std::string getName() const {return mName;}
    unsigned long getComparisons() const {return mComparisons;}
    size_t getMemoryUse() const {return mMemory;}
    void print(std::ostream& out) const {out << "STATE" << m.size();}
    std::multiset<Value> m;
    std::string mName;
    bool mDups;
    long mPops, mWrongAt;
    int mWrong;
    unsigned long mComparisons;
    size_t mMemory;
    long mTicks;
    const char* mBad;
    std::vector<Ev> mEvents;
  };
  struct Load {
    std::unique_ptr<Simulator> sim;
    std::string what, name;
    bool dups;
    size_t repeats;
    int kind;
    size_t a, b, d, p;
  };
  // all generators and parameters
  void make(mc::Ctx& c, Load& l, int kind, size_t a, size_t b, size_t d, size_t p, size_t repeats, int choices) {
    l.sim.reset(new Simulator(repeats));
    l.kind = kind; l.a = a; l.b = b; l.d = d; l.p = p; l.repeats = repeats; l.dups = kind != 2;
    l.what = std::string(kind == 0 ? "dupSpans(" : kind == 1 ? "orderSpans(" : "randomSpans(") + mc::str(a) + ", " + mc::str(b) + ", " + mc::str(d) +
      (kind == 0 ? ", " + mc::str(p) : "") + ")";
    l.name = kind == 0 ? "dup spans" : kind == 1 ? "ordered spans" : "random spans";
    if (c.verbose()) c.log(l.what);
    gCtx = &c;
    randChoices = choices;
    randCalls = 0;
    switch (kind) {
    case 0: l.sim->dupSpans(a, b, d, p); break;
    case 1: l.sim->orderSpans(a, b, d); break;
    default: l.sim->randomSpans(a, b, d); break;
    }
    randChoices = 0;
    c.step();
  }
  std::string text(const Ev& e) {
    if (e.span.empty()) return "Pop " + mc::str(e.popped) + "\n";
    std::string s = "Insert";
    for (auto v : e.span) s += ' ' + mc::str(v);
    return s + "\n";
  }
  std::string commas(unsigned long v) {
    std::string s = mc::str(v), r;
    for (size_t i = 0; i < s.size(); ++i) {if (i && (s.size() - i) % 3 == 0) r += ','; r += s[i];}
    return r;
  }
  // Runs the right queue and checks the workload.
  std::vector<Ev> checkLoad(mc::Ctx& c, Load& l) {
    Ref q("ref", l.dups);
    Ran r = catching([&]() {l.sim->run(q, false);});
    if (q.mBad) mc::fail(l.what + ": " + q.mBad);
    if (r.exited) mc::fail(l.what + ": a right queue was rejected: " + r.err);
    if (!q.m.empty()) mc::fail(l.what + ": the queue is not empty in the end");
    if (q.mEvents.size() % l.repeats != 0) mc::fail(l.what + ": the repeats differ in length");
    const size_t n = q.mEvents.size() / l.repeats;
    std::vector<Ev> ev(q.mEvents.begin(), q.mEvents.begin() + n);
    for (size_t i = n; i < q.mEvents.size(); ++i)
      if (q.mEvents[i].span != ev[i % n].span || q.mEvents[i].popped != ev[i % n].popped) mc::fail(l.what + ": the repeats differ");
    // figures
    size_t spans = 0, sum = 0, live = 0, dups = 0;
    std::multiset<Value> m;
    uint64_t h = l.kind;
    for (size_t i = 0; i < n; ++i) {
      live += m.size();
      if (ev[i].span.empty()) {
        const Value v = *m.rbegin();
        h = mc::mix(h, v);
        do {m.erase(--m.end());} while (l.dups && !m.empty() && *m.rbegin() == v);
      } else {
        const size_t size = ev[i].span.size();
        if (l.kind == 0) {
          if (sum >= l.a) mc::fail(l.what + ": a span is pushed although the goal is reached");
          if (size > l.b + 10 || size + 10 < l.b) mc::fail(l.what + ": a span of " + mc::str(size));
        } else if (size != (l.kind == 2 && spans == 0 ? l.d : l.b)) mc::fail(l.what + ": span " + mc::str(spans) + " has size " + mc::str(size));
        ++spans; sum += size;
        for (auto v : ev[i].span) dups += m.count(v) != 0;
        m.insert(ev[i].span.begin(), ev[i].span.end());
        h = mc::hashAll(ev[i].span, h);
      }
    }
    c.state(h);
    c.outcome(mc::mix(spans, dups));
    if (l.kind == 0) {
      if (sum < l.a) mc::fail(l.what + ": only " + mc::str(sum) + " entries are pushed");
      if (l.p == 0 && dups != 0) mc::fail(l.what + ": " + mc::str(dups) + " duplicates, should have none");
    } else if (spans != l.a) mc::fail(l.what + ": " + mc::str(spans) + " spans");
    // what it says about them
    std::ostringstream o1, o2, w1, w2;
    l.sim->printEvents(o1);
    w1 << "*** The " << n << " events are\n";
    for (size_t i = 0; i < n; ++i) w1 << text(ev[i]);
    if (o1.str() != w1.str()) mc::fail(l.what + ": printEvents wrote " + o1.str() + " but the events are " + w1.str());
    l.sim->printEventSummary(o2);
    w2 << "*** Simulation \"" << l.name << "\"\n " << spans << " spans\n " << sum / spans << " per span on average\n " << live / n
       << " elements in queue on average\n " << sum << " entries popped in total.\n " << dups * 100 / sum << "% duplicates\n " << l.repeats << " repeats.\n\n";
    if (o2.str() != w2.str()) mc::fail(l.what + ": the summary is " + o2.str() + " should be " + w2.str());
    c.step();
    return ev;
  }
  void pick(mc::Ctx& c, Load& l, bool small, int choices) {
    static const size_t A[] = {1, 2, 3, 5, 8, 20, 60};
    static const size_t B[] = {1, 2, 3, 4, 7, 11, 14, 40};
    static const size_t D[] = {1, 2, 3, 6, 15, 40};
    static const size_t P[] = {0, 30, 100};
    const int kind = c.choose(3);
    const size_t a = A[c.choose(small ? 4 : 7)], b = B[c.choose(small ? 4 : 8)], d = D[c.choose(small ? 3 : 6)];
    const size_t p = kind == 0 ? P[c.choose(3)] : 0;
    const size_t repeats = small ? 1 : 1 + c.choose(2);
    if (choices == 0) randState = 1 + c.choose(c.tier(6, 30));
    else randState = 1;
    make(c, l, kind, a, b, d, p, repeats, choices);
  }
  void loads(mc::Ctx& c, bool small, int choices) {
    Load l;
    pick(c, l, small, choices);
    checkLoad(c, l);
  }
  // ---------------------------------------------------------- the real queues
  template<class M, class... X> void right(mc::Ctx& c, Load& l, X... x) {
    M m(x...);
    Ran r = catching([&]() {l.sim->run(m);});
    if (r.exited) mc::fail(l.what + ": " + m.getName() + " was rejected: " + r.err);
    if (!m.empty()) mc::fail(m.getName() + " is not empty after the simulation");
    if (r.err.find(m.getName() + " ") != 0 || r.err.find(" " + commas(m.getComparisons()) + " cmps ") == std::string::npos)
      mc::fail("the line on " + m.getName() + " is " + r.err);
    c.step();
  }
  void models(mc::Ctx& c) {
    Load l;
    static const size_t A[] = {1, 5, 30, 200}, B[] = {1, 3, 12, 30}, D[] = {1, 4, 25};
    const int kind = c.choose(2); // the values of randomSpans are all different, as in the others a duplicate is removed with the first
    const size_t a = A[c.choose(4)], b = B[c.choose(4)], d = D[c.choose(3)];
    randState = 1 + c.choose(c.tier(3, 12));
    make(c, l, kind, a, b, d, 30, 2, 0);
    const size_t n = checkLoad(c, l).size();
    (void)n;
    right<TourTreeModel<1, 0> >(c, l);
    right<TourTreeModel<0, 0> >(c, l);
    right<StlSetModel<1> >(c, l);
    right<StlSetModel<0> >(c, l);
    right<HeapModel<0, 0, 0> >(c, l);
    right<HeapModel<1, 1, 0> >(c, l);
    right<HeapModel<1, 0, 1> >(c, l);
    right<HeapModel<0, 1, 1> >(c, l);
    right<GeobucketModel<0, 0, 0, 0, 0, 0, 0> >(c, l, 4, 32);
    right<GeobucketModel<1, 1, 1, 1, 1, 0, 0> >(c, l, 2, 2);
    right<GeobucketModel<0, 1, 0, 1, 0, 1, 1> >(c, l, 3, 1);
    std::ostringstream o;
    l.sim->printData(o);
    size_t rows = 0;
    for (char ch : o.str()) rows += ch == '\n';
    mc::checkEq(rows, (size_t)13, "lines of the table of 12 queues");
  }
  // ---------------------------------------------------------- queues that are wrong
  void wrong(mc::Ctx& c) {
    Load l;
    pick(c, l, true, 0);
    if (c.flag()) {l.repeats = 3; Load k; const size_t a = l.a, b = l.b, d = l.d, p = l.p; const int kind = l.kind; randState = 5; make(c, k, kind, a, b, d, p, 3, 0); l = std::move(k);}
    const std::vector<Ev> ev = checkLoad(c, l);
    size_t pops = 0;
    for (auto& e : ev) pops += e.span.empty();
    for (size_t at = 0; at < pops * l.repeats; ++at)
      for (int how = 0; how < 4; ++how) {
        Ref q("wrong1", l.dups);
        q.mWrongAt = at; q.mWrong = how;
        Ran r = catching([&]() {l.sim->run(q, at % 2 == 0, how == 1);});
        if (q.mBad) mc::fail(std::string(q.mBad));
        if (!r.exited) mc::fail(l.what + ": that pop " + mc::str(at) + " gave a wrong value was not noticed");
        if (r.status == 0) mc::fail(l.what + ": exit with status 0 although pop " + mc::str(at) + " gave a wrong value");
        if (q.mPops != (long)at + 1) mc::fail(l.what + ": the simulation went on after the wrong value");
        if (r.err.find("wrong1") == std::string::npos) mc::fail("the message does not name the queue: " + r.err);
        c.step();
      }
    // nothing of these runs is in the table
    std::ostringstream o;
    l.sim->printData(o);
    if (o.str().find("wrong1") != std::string::npos) mc::fail("a queue that failed is in the table: " + o.str());
  }
  // ---------------------------------------------------------- the table
  void table(mc::Ctx& c) {
    Load l;
    randState = 3;
    make(c, l, 0, 8, 3, 4, 30, 1 + c.choose(2), 0);
    const std::vector<Ev> ev = checkLoad(c, l);
    const int n = 1 + c.choose(c.tier(3, 4));
    static const unsigned long C[] = {0, 7, 999, 1000, 12345, 999999, 1000000, 1234567890};
    static const size_t Mem[] = {0, 1023, 1024, 1024 * 1000 - 1, 1024 * 1000, 5000000000UL};
    static const long T[] = {0, 1, 999, 1000, 123456, 40000000};
    struct Row {std::string name; unsigned long ms, cmps, kb;};
    std::vector<Row> rows;
    for (int i = 0; i < n; ++i) {
      Ref q("queue" + mc::str((i * 3 + n) % 5) + (i % 2 ? " with a long name" : ""), l.dups);
      q.mComparisons = C[c.choose(i == 0 ? 8 : c.tier(1, 2)) + (i == 0 ? 0 : 3)];
      q.mMemory = Mem[c.choose(i == 0 ? 6 : c.tier(1, 2)) + (i == 0 ? 0 : 2)];
      q.mTicks = T[c.choose(i == 0 ? 6 : 3) + (i == 0 ? 0 : 2)];
      now = i * 1000;
      Ran r = catching([&]() {l.sim->run(q, true, c.mTier == mc::Thorough && i == 0);});
      if (r.exited) mc::fail("a right queue was rejected: " + r.err);
      Row w; w.name = q.mName; w.cmps = q.mComparisons; w.kb = q.mMemory / 1024;
      w.ms = (unsigned long)((double)q.mTicks * ev.size() * l.repeats * 1000 / CLOCKS_PER_SEC);
      const std::string want = w.name + " " + commas(w.ms) + " ms " + commas(w.cmps) + " cmps " + commas(w.kb) + " kb\n";
      if (r.err.size() < want.size() || r.err.substr(r.err.size() - want.size()) != want) mc::fail("the line on the queue is " + r.err + ", should be " + want);
      rows.push_back(w);
      c.step();
    }
    // ref of checkLoad took no time
    Row z; z.name = "ref"; z.ms = z.cmps = z.kb = 0;
    rows.push_back(z);
    std::ostringstream o;
    l.sim->printData(o);
    std::istringstream in(o.str());
    std::string line;
    std::getline(in, line);
    mc::checkEq(line, std::string("*** Simulation outcome ***"), "heading of the table");
    unsigned long last = 0;
    std::set<std::string> seen;
    while (std::getline(in, line)) {
      bool found = false;
      for (auto& w : rows) {
        std::string got, want = w.name + commas(w.ms) + "ms" + commas(w.cmps) + "cmps" + commas(w.kb) + "kb";
        std::string squeezed, wantSqueezed;
        for (char ch : line) if (ch != ' ') squeezed += ch;
        for (char ch : want) if (ch != ' ') wantSqueezed += ch;
        if (squeezed != wantSqueezed) continue;
        found = true;
        if (!seen.insert(w.name).second) mc::fail("a queue is in the table twice:\n" + o.str());
        if (w.ms < last) mc::fail("the table is not sorted by time:\n" + o.str());
        last = w.ms;
      }
      if (!found) mc::fail("a line of the table is wrong:\n" + o.str());
    }
    mc::checkEq(seen.size(), rows.size(), "rows of the table");
    c.state(mc::hashStr(o.str()));
    now = 0;
  }
  // ---------------------------------------------------------- the program
  void program(mc::Ctx& c) {
    static const char* A[] = {"1", "2", "9", "30"};
    static const char* B[] = {"1", "2", "4", "12"};
    static const char* D[] = {"1", "5", "20"};
    static const char* P[] = {"0", "50", "100", 0};
    const char* a[6] = {"pqsim", A[c.choose(4)], B[c.choose(4)], D[c.choose(3)], P[c.choose(4)], 0};
    if (c.verbose()) c.log(std::string("pqsim ") + a[1] + " " + a[2] + " " + a[3] + (a[4] ? std::string(" ") + a[4] : ""));
    gCtx = &c; randChoices = 0; randCalls = 0;
    int rc = -1;
    Ran r = catching([&]() {rc = pqMainOfRepo(a[4] ? 5 : 4, a);});
    if (r.exited) mc::fail("the program reports an error: " + r.err);
    mc::checkEq(rc, 0, "status of the program");
    size_t lines = 0, announced = 0;
    for (char ch : r.out) lines += ch == '\n';
    std::istringstream in(r.err);
    std::string line;
    while (std::getline(in, line)) announced += line.find(" cmps ") != std::string::npos;
    if (lines < 2 || lines != announced + 1) mc::fail("the table has " + mc::str(lines) + " lines for " + mc::str(announced) + " queues:\n" + r.out);
    c.step(); c.state(mc::hashStr(r.err)); c.outcome(lines);
  }
}
void mc::registerSuites() {
  mc::add("pq/chosen rand", [](mc::Ctx& c) {loads(c, true, c.tier(6, 8));}, 4);
  mc::add("pq/workloads", [](mc::Ctx& c) {loads(c, false, 0);}, 3);
  mc::add("pq/models", [](mc::Ctx& c) {models(c);}, 3);
  mc::add("pq/wrong", [](mc::Ctx& c) {wrong(c);}, 3);
  mc::add("pq/table", [](mc::Ctx& c) {table(c);}, 3);
  mc::add("pq/program", [](mc::Ctx& c) {program(c);}, 3);
}
