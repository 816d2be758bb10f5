#include "mc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <atomic>
#include <fstream>
#include <algorithm>
#include <exception>
#include <csignal>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <malloc.h>
#include <time.h>

// ---------------------------------------------------------------- allocation seam
namespace {
  long gLive = 0;
  long gBytes = 0; // as requested if the address sanitizer is on
  long gSeen = 0;
  long gFailAt = -1;
  size_t gFailSize = 0; // if not 0, only allocations of that size count
  void* doAlloc(size_t n, bool nothrow) {
    const bool counts = gFailSize == 0 || n == gFailSize;
    if (gFailAt >= 0 && gSeen == gFailAt && counts) {
      ++gSeen;
      if (nothrow) return 0;
      throw std::bad_alloc();
    }
    gSeen += counts;
    void* p = std::malloc(n == 0 ? 1 : n);
    if (p == 0) {
      if (nothrow) return 0;
      throw std::bad_alloc();
    }
    ++gLive;
    gBytes += malloc_usable_size(p);
    return p;
  }
  void doFree(void* p) {if (p != 0) {--gLive; gBytes -= malloc_usable_size(p); std::free(p);}}
}
void* operator new(size_t n) {return doAlloc(n, false);}
void* operator new[](size_t n) {return doAlloc(n, false);}
void* operator new(size_t n, const std::nothrow_t&) noexcept {return doAlloc(n, true);}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {return doAlloc(n, true);}
void operator delete(void* p) noexcept {doFree(p);}
void operator delete[](void* p) noexcept {doFree(p);}
void operator delete(void* p, size_t) noexcept {doFree(p);}
void operator delete[](void* p, size_t) noexcept {doFree(p);}
void operator delete(void* p, const std::nothrow_t&) noexcept {doFree(p);}
void operator delete[](void* p, const std::nothrow_t&) noexcept {doFree(p);}

namespace mc {
  long liveAllocs() {return gLive;}
  long liveBytes() {return gBytes;}
  void failAllocAt(long n, size_t size) {gFailAt = n; gSeen = 0; gFailSize = size;}
  long allocsSeen() {return gSeen;}

  // ---------------------------------------------------------------- shared state
  static const int MaxChoices = 4000;
  static const int MaxWorkers = 64;
  static const size_t ClaimBits = 1 << 23;
  static const size_t SampleSlots = 24;
  struct Slot {
    volatile uint64_t progress;
    volatile uint64_t transitions;
    volatile uint64_t traces;
    volatile uint64_t ordinal; // fresh: the next claim number
    volatile int choiceCount;
    volatile int choices[MaxChoices];
    volatile int alts[MaxChoices];
    volatile int failed;
    char msg[4000];
  };
  struct Table {
    std::atomic<uint64_t> count;
    std::atomic<uint64_t> overflow;
    std::atomic<uint64_t>* slots;
    size_t size;
    void insert(uint64_t h) {
      if (h == 0) h = 0x9876543210abcdefULL;
      if (count.load(std::memory_order_relaxed) * 4 > size * 3) {overflow.store(1); return;}
      size_t i = (h * 0x9e3779b97f4a7c15ULL) & (size - 1);
      for (;;) {
        uint64_t cur = slots[i].load(std::memory_order_relaxed);
        if (cur == h) return;
        if (cur == 0) {
          uint64_t expect = 0;
          if (slots[i].compare_exchange_strong(expect, h)) {++count; return;}
          if (expect == h) return;
        }
        i = (i + 1) & (size - 1);
      }
    }
  };
  struct Shared {
    Table states;
    Table outcomes;
    std::atomic<uint64_t> stop;
    std::atomic<uint64_t> claimOverflow;
    std::atomic<unsigned char> claims[ClaimBits];
    Slot slots[MaxWorkers];
  };
  static Shared* gShared = 0;
  static Slot* gSlot = 0;
  static Ctx gCtx;
  static std::ostream* gLogOut = 0;
  static bool gVerboseFail = false;

  struct Suite {std::string name; Body body; int claimDepth; bool thoroughOnly, fresh;};
  static std::vector<Suite>& suites() {static std::vector<Suite> s; return s;}
  void add(const std::string& name, Body body, int claimDepth, bool thoroughOnly, bool fresh) {
    Suite s = {name, body, claimDepth, thoroughOnly, fresh};
    suites().push_back(s);
  }

  // ---------------------------------------------------------------- explorer
  struct SkipTrace {};
  struct Explorer {
    std::vector<int> prefix; // forced choices
    int pos;
    int claimDepth;
    uint64_t ordinal; // next claim number
    bool claimedThis;
    bool replay;
    bool inUnit; // claimed by an earlier trace
    uint64_t dedupState;
  };
  static Explorer gEx;

  static bool claimNow() {
    uint64_t o = gEx.ordinal++;
    gEx.claimedThis = true;
    if (o >= ClaimBits) {
      gShared->claimOverflow.store(1);
      return true; // all the work is repeated rather than lost
    }
    unsigned char expect = 0;
    return gShared->claims[o].compare_exchange_strong(expect, 1);
  }

  // What the explorer allocates is not counted.
  struct NotCounted {
    NotCounted(): before(gBytes) {}
    ~NotCounted() {gBytes = before;}
    long before;
  };
  int Ctx::choose(int n) {
    NotCounted notCounted;
    if (n <= 0) fail("harness error: choose(0)");
    ++gSlot->progress;
    int p = gEx.pos++;
    if (p >= MaxChoices) fail("harness error: too many choices");
    int c = 0;
    if (p < (int)gEx.prefix.size()) {
      c = gEx.prefix[p];
      if (c >= n) {
        if (gEx.replay) {std::fprintf(stderr, "replay diverged\n"); _exit(7);}
        fail("nondeterminism: a replayed prefix offered fewer choices than before");
      }
      if (!gEx.replay && p + 1 < (int)gEx.prefix.size() && gSlot->alts[p] != 0 && gSlot->alts[p] != n)
        fail("nondeterminism: a replayed prefix offered different choices than before");
    }
    gSlot->choices[p] = c;
    gSlot->alts[p] = n;
    gSlot->choiceCount = p + 1;
    if (!gEx.replay && !gEx.inUnit && p + 1 == gEx.claimDepth && !gEx.claimedThis) {
      if ((int)gEx.prefix.size() > gEx.claimDepth) {
        gEx.claimedThis = true; // inside claimed work
      } else if (!claimNow())
        throw SkipTrace();
    }
    return c;
  }
  void Ctx::step() {++gSlot->progress; ++gSlot->transitions;}
  void Ctx::state(uint64_t h) {if (!gEx.replay) gShared->states.insert(h);}
  void Ctx::outcome(uint64_t h) {if (!gEx.replay) gShared->outcomes.insert(h);}
  void Ctx::logText(const std::string& s) {if (gLogOut) {*gLogOut << s << '\n'; gLogOut->flush();}}

  void fail(const std::string& msg) {
    gFailAt = -1;
    if (gSlot != 0) {
      gSlot->failed = 1;
      std::strncpy(gSlot->msg, msg.c_str(), sizeof(gSlot->msg) - 1);
    }
    if (gVerboseFail && gLogOut) {*gLogOut << "FAIL: " << msg << '\n'; gLogOut->flush();}
    _exit(42);
  }

  static void runBody(const Suite& s) {
    gFailAt = -1;
    gSeen = 0;
    gEx.pos = 0;
    try {
      s.body(gCtx);
    } catch (const SkipTrace&) {
      gFailAt = -1;
      throw;
    } catch (const std::exception& e) {
      fail(std::string("unexpected exception: ") + e.what());
    } catch (...) {
      fail("unexpected exception of unknown type");
    }
    gFailAt = -1;
  }

  static void worker(const Suite& s) {
    gEx.prefix.clear();
    gEx.ordinal = 0;
    gEx.claimDepth = s.claimDepth;
    gEx.replay = false;
    for (;;) {
      if (gShared->stop.load()) _exit(0);
      gEx.claimedThis = false;
      bool skipped = false;
      try {
        runBody(s);
      } catch (const SkipTrace&) {
        skipped = true;
      }
      bool mine = !skipped;
      if (!skipped && !gEx.claimedThis && gSlot->choiceCount < gEx.claimDepth)
        mine = claimNow(); // short trace, all workers ran it, one counts it
      if (mine)
        ++gSlot->traces;
      // next prefix
      int n = skipped ? gEx.claimDepth : gEx.pos;
      while (n > 0 && gSlot->choices[n - 1] + 1 >= gSlot->alts[n - 1]) --n;
      if (n == 0) _exit(0);
      gEx.prefix.resize(n);
      for (int i = 0; i < n - 1; ++i) gEx.prefix[i] = gSlot->choices[i];
      gEx.prefix[n - 1] = gSlot->choices[n - 1] + 1;
    }
  }

  // Runs all traces that begin as gEx.prefix does up to the claim depth, without claiming.
  static void unit(const Suite& s) {
    const int depth = s.claimDepth;
    for (;;) {
      runBody(s);
      ++gSlot->traces;
      int n = gEx.pos;
      while (n > depth && gSlot->choices[n - 1] + 1 >= gSlot->alts[n - 1]) --n;
      if (n <= depth) return;
      gEx.prefix.resize(n);
      for (int i = 0; i < n - 1; ++i) gEx.prefix[i] = gSlot->choices[i];
      gEx.prefix[n - 1] = gSlot->choices[n - 1] + 1;
      gEx.claimedThis = true;
    }
  }
  // As worker, but everything runs in children of this process.
  static void freshWorker(const Suite& s) {
    std::vector<int> prefix;
    gSlot->ordinal = 0;
    for (;;) {
      if (gShared->stop.load()) _exit(0);
      pid_t pid = fork();
      if (pid < 0) _exit(41);
      if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        gEx.prefix = prefix;
        gEx.ordinal = gSlot->ordinal;
        gEx.claimDepth = s.claimDepth;
        gEx.replay = false;
        gEx.claimedThis = false;
        gEx.inUnit = false;
        try {
          // the claim is made while the first trace runs
          runBody(s);
          gSlot->ordinal = gEx.ordinal;
          bool mine = true;
          if (!gEx.claimedThis && gSlot->choiceCount < s.claimDepth) {mine = claimNow(); gSlot->ordinal = gEx.ordinal;}
          if (mine) ++gSlot->traces;
          int n = gEx.pos;
          while (n > s.claimDepth && gSlot->choices[n - 1] + 1 >= gSlot->alts[n - 1]) --n;
          if (n > s.claimDepth) {
            gEx.prefix.resize(n);
            for (int i = 0; i < n - 1; ++i) gEx.prefix[i] = gSlot->choices[i];
            gEx.prefix[n - 1] = gSlot->choices[n - 1] + 1;
            gEx.inUnit = true;
            unit(s);
          }
        } catch (const SkipTrace&) {
          gSlot->ordinal = gEx.ordinal;
        }
        _exit(0);
      }
      int st = 0;
      while (waitpid(pid, &st, 0) != pid) {}
      if (WIFSIGNALED(st)) {raise(WTERMSIG(st)); _exit(43);}
      if (WEXITSTATUS(st) != 0) _exit(WEXITSTATUS(st));
      int n = std::min((int)gSlot->choiceCount, s.claimDepth);
      while (n > 0 && gSlot->choices[n - 1] + 1 >= gSlot->alts[n - 1]) --n;
      if (n == 0) _exit(0);
      prefix.resize(n);
      for (int i = 0; i < n - 1; ++i) prefix[i] = gSlot->choices[i];
      prefix[n - 1] = gSlot->choices[n - 1] + 1;
    }
  }

  static std::string gErrFile;
  static double now() {
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
  }

  // Runs one trace in a child. Returns 0 ok, 42 violation, otherwise crash description.
  // asUnit: the traces of the same piece of work that come before it, too.
  static int runOne(const Suite& s, const std::vector<int>& choices, const std::string& logFile,
                    double limit, std::string& how, bool asUnit = false) {
    Slot& slot = gShared->slots[MaxWorkers - 1];
    std::memset((void*)&slot, 0, sizeof(slot));
    pid_t pid = fork();
    if (pid == 0) {
      gSlot = &slot;
      if (!gErrFile.empty()) {
        int fd = open(gErrFile.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
        if (fd >= 0) {dup2(fd, 2); close(fd);}
      }
      gEx.replay = !asUnit;
      gEx.inUnit = asUnit;
      gEx.prefix = choices;
      gEx.claimDepth = 0;
      if (asUnit) gEx.prefix.resize(std::min((int)choices.size(), s.claimDepth));
      static std::ofstream out;
      if (!logFile.empty()) {
        out.open(logFile.c_str(), std::ios::app);
        gLogOut = &out;
        gCtx.mVerbose = true;
        gVerboseFail = true;
      }
      if (asUnit) unit(s); else runBody(s);
      _exit(0);
    }
    double start = now();
    int st = 0;
    for (;;) {
      pid_t r = waitpid(pid, &st, WNOHANG);
      if (r == pid) break;
      if (now() - start > limit) {
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        how = "hang: the trace did not end";
        return 99;
      }
      usleep(2000);
    }
    if (WIFEXITED(st)) {
      int c = WEXITSTATUS(st);
      if (c == 42) {how = slot.msg; return 42;}
      if (c == 0) return 0;
      std::ostringstream o; o << "process died with exit code " << c << " (sanitizer report or exit call)";
      how = o.str();
      return c;
    }
    std::ostringstream o; o << "process died of signal " << WTERMSIG(st);
    how = o.str();
    return 128 + WTERMSIG(st);
  }

  static Table* initTable(Table& t, size_t bits) {
    t.size = (size_t)1 << bits;
    t.slots = (std::atomic<uint64_t>*)mmap(0, t.size * 8, PROT_READ | PROT_WRITE,
      MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (t.slots == MAP_FAILED) {perror("mmap"); std::exit(3);}
    t.count = 0; t.overflow = 0;
    return &t;
  }

  static std::string jsonEsc(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
      unsigned char c = s[i];
      if (c == '"' || c == '\\') {r += '\\'; r += c;}
      else if (c == '\n') r += "\\n";
      else if (c < 32 || c > 126) {char b[8]; std::sprintf(b, "\\u%04x", c); r += b;}
      else r += c;
    }
    return r;
  }

  struct Result {
    std::string name;
    uint64_t states, transitions, traces, outcomes;
    bool stateOverflow;
    bool claimOverflow;
    double wall;
    int failed; // 0 no, 1 violation, 2 error
    std::string msg;
    std::vector<int> choices;
    bool reproduced;
    std::string sample;
  };

  static double gHang = 30;

  static Result explore(const Suite& s, int jobs, const std::string& tmp) {
    Result r;
    r.name = s.name; r.failed = 0; r.reproduced = false;
    double start = now();
    gShared->states.count = 0; gShared->states.overflow = 0;
    gShared->outcomes.count = 0; gShared->outcomes.overflow = 0;
    madvise(gShared->states.slots, gShared->states.size * 8, MADV_REMOVE);
    madvise(gShared->outcomes.slots, gShared->outcomes.size * 8, MADV_REMOVE);
    gShared->stop = 0; gShared->claimOverflow = 0;
    std::memset((void*)gShared->claims, 0, sizeof(gShared->claims));
    std::vector<pid_t> pids(jobs, 0);
    std::vector<uint64_t> last(jobs, 0);
    std::vector<double> lastT(jobs, start);
    for (int i = 0; i < jobs; ++i) {
      std::memset((void*)&gShared->slots[i], 0, sizeof(Slot));
      pid_t p = fork();
      if (p < 0) {perror("fork"); std::exit(3);}
      if (p == 0) {
        gSlot = &gShared->slots[i];
        gLogOut = 0;
        int fd = open((tmp + "/worker.err").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
        if (fd >= 0) {dup2(fd, 2); close(fd);}
        if (s.fresh) freshWorker(s);
        worker(s);
        _exit(0);
      }
      pids[i] = p;
    }
    int alive = jobs;
    int bad = -1;
    std::string how;
    int oom = 0;
    while (alive > 0) {
      bool any = false;
      for (int i = 0; i < jobs; ++i) {
        if (pids[i] == 0) continue;
        int st;
        pid_t w = waitpid(pids[i], &st, WNOHANG);
        if (w == pids[i]) {
          any = true;
          pids[i] = 0; --alive;
          bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
          if (!ok && bad < 0) {
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {oom = 1; gShared->stop = 1; continue;}
            bad = i;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 42) how = gShared->slots[i].msg;
            else {
              std::ostringstream o;
              if (WIFEXITED(st)) o << "process died with exit code " << WEXITSTATUS(st)
                << " (sanitizer report or exit call)";
              else o << "process died of signal " << WTERMSIG(st);
              how = o.str();
            }
            gShared->stop = 1;
            for (int j = 0; j < jobs; ++j) if (pids[j] != 0) kill(pids[j], SIGKILL);
          }
          continue;
        }
        uint64_t pr = gShared->slots[i].progress;
        if (pr != last[i]) {last[i] = pr; lastT[i] = now();}
        else if (now() - lastT[i] > gHang && bad < 0) {
          bad = i;
          how = "hang: no progress";
          gShared->stop = 1;
          for (int j = 0; j < jobs; ++j) if (pids[j] != 0) kill(pids[j], SIGKILL);
        }
      }
      if (!any) usleep(alive == jobs ? 2000 : 1000);
    }
    r.states = gShared->states.count; r.outcomes = gShared->outcomes.count;
    r.stateOverflow = gShared->states.overflow != 0;
    r.claimOverflow = gShared->claimOverflow != 0;
    r.transitions = r.traces = 0;
    for (int i = 0; i < jobs; ++i) {
      r.transitions += gShared->slots[i].transitions;
      r.traces += gShared->slots[i].traces;
    }
    if (bad >= 0) {
      Slot& sl = gShared->slots[bad];
      for (int k = 0; k < sl.choiceCount; ++k) r.choices.push_back((int)sl.choices[k]);
      r.msg = how;
      // replay before report
      std::string h2, h3;
      std::string log = tmp + "/replay.log";
      unlink(log.c_str());
      int a = runOne(s, r.choices, log, 60, h2);
      int b = runOne(s, r.choices, "", 60, h3);
      r.reproduced = a != 0 && b != 0 && a != 7 && b != 7;
      if (!r.reproduced && s.fresh) {
        // not by itself, but after the other traces of its piece of work
        a = runOne(s, r.choices, "", 300, h2, true);
        b = a == 0 ? 0 : runOne(s, r.choices, "", 300, h3, true);
        r.reproduced = a != 0 && b != 0 && a != 7 && b != 7;
      }
      if (r.reproduced) r.msg = h2;
      std::ifstream in(log.c_str());
      std::stringstream ss; ss << in.rdbuf();
      r.sample = ss.str();
      r.failed = 1;
    } else if (oom) {
      r.failed = 2;
      r.msg = "a worker was killed (out of memory?)";
    } else {
      // Sample: the last trace each of a few workers ran.
      std::string log = tmp + "/sample.log";
      unlink(log.c_str());
      std::vector<int> best;
      for (int i = 0; i < jobs; ++i) {
        Slot& sl = gShared->slots[i];
        if (sl.traces == 0) continue;
        std::vector<int> c;
        for (int k = 0; k < sl.choiceCount; ++k) c.push_back((int)sl.choices[k]);
        if (c.size() > best.size()) best.swap(c);
      }
      // a trace in the middle of the space: halve every choice
      std::vector<int> mid(best);
      std::string h;
      int st = runOne(s, mid, log, 60, h);
      std::ifstream in(log.c_str());
      std::stringstream ss; ss << in.rdbuf();
      r.sample = ss.str();
      if (st != 0) {r.failed = 2; r.msg = "sample trace failed on replay: " + h; r.choices = mid;}
    }
    r.wall = now() - start;
    return r;
  }
}

using namespace mc;

int main(int argc, char** argv) {
  std::string out, tmp = "/tmp", filter, replaySuite, replayChoices;
  int jobs = (int)sysconf(_SC_NPROCESSORS_ONLN);
  Tier tier = Quick;
  bool listOnly = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    std::string v = i + 1 < argc ? argv[i + 1] : "";
    if (a == "--out") {out = v; ++i;}
    else if (a == "--tmp") {tmp = v; ++i;}
    else if (a == "--jobs") {jobs = std::atoi(v.c_str()); ++i;}
    else if (a == "--tier") {tier = v == "thorough" ? Thorough : Quick; ++i;}
    else if (a == "--filter") {filter = v; ++i;}
    else if (a == "--list") listOnly = true;
    else if (a == "--replay") {replaySuite = v; ++i;}
    else if (a == "--choices") {replayChoices = v; ++i;}
  }
  if (jobs < 1) jobs = 1;
  if (jobs > MaxWorkers - 2) jobs = MaxWorkers - 2;
  signal(SIGPIPE, SIG_IGN);
  rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
#ifndef VERIF_ASAN
  rl.rlim_cur = rl.rlim_max = (rlim_t)6 << 30; setrlimit(RLIMIT_AS, &rl);
#endif
  gShared = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE,
    MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (gShared == MAP_FAILED) {perror("mmap"); return 3;}
  initTable(gShared->states, 26);
  initTable(gShared->outcomes, 22);
  gCtx.mTier = tier;
  gCtx.mVerbose = false;
  if (replaySuite.empty()) gErrFile = tmp + "/worker.err";
  registerSuites();
  if (listOnly) {
    for (size_t i = 0; i < suites().size(); ++i) std::cout << suites()[i].name << '\n';
    return 0;
  }
  if (!replaySuite.empty()) {
    for (size_t i = 0; i < suites().size(); ++i) {
      if (suites()[i].name != replaySuite) continue;
      std::vector<int> c;
      std::stringstream ss(replayChoices);
      std::string tok;
      while (std::getline(ss, tok, ',')) if (!tok.empty()) c.push_back(std::atoi(tok.c_str()));
      std::string how;
      std::string log = tmp + "/replay.log";
      unlink(log.c_str());
      int st = runOne(suites()[i], c, log, 60, how);
      if (st == 0 && suites()[i].fresh) st = runOne(suites()[i], c, "", 300, how, true);
      std::ifstream in(log.c_str());
      std::cout << in.rdbuf();
      std::cout << "replay result: " << (st == 0 ? "no violation" : how) << std::endl;
      return st == 0 ? 0 : 1;
    }
    std::cerr << "no such suite\n";
    return 3;
  }
  std::ostringstream js;
  js << "{\"suites\":[";
  int rc = 0;
  bool first = true;
  for (size_t i = 0; i < suites().size(); ++i) {
    const Suite& s = suites()[i];
    if (!filter.empty() && s.name.find(filter) == std::string::npos) continue;
    if (s.thoroughOnly && tier == Quick) continue;
    Result r = explore(s, jobs, tmp);
    if (r.failed == 2 || (r.failed == 1 && !r.reproduced)) {
      // memory pressure, or a crash that one trace alone does not show: once more
      std::cerr << "suite " << s.name << ": " << r.msg << "; running it again\n";
      Result r2 = explore(s, r.failed == 2 ? std::max(1, jobs / 3) : 1, tmp);
      r = r2;
    }
    if (!first) js << ",\n";
    first = false;
    js << "{\"name\":\"" << jsonEsc(r.name) << "\",\"states\":" << r.states
       << ",\"transitions\":" << r.transitions << ",\"traces\":" << r.traces
       << ",\"outcomes\":" << r.outcomes << ",\"wall\":" << r.wall
       << ",\"state_table_full\":" << (r.stateOverflow ? "true" : "false")
       << ",\"claim_overflow\":" << (r.claimOverflow ? "true" : "false")
       << ",\"failed\":" << r.failed << ",\"reproduced\":" << (r.reproduced ? "true" : "false")
       << ",\"msg\":\"" << jsonEsc(r.msg) << "\",\"log\":\"" << jsonEsc(r.sample.substr(0, 6000)) << "\",\"choices\":[";
    for (size_t k = 0; k < r.choices.size(); ++k) js << (k ? "," : "") << r.choices[k];
    js << "]}";
    std::cerr << s.name << ": states " << r.states << " transitions " << r.transitions
      << " traces " << r.traces << " outcomes " << r.outcomes << " wall " << r.wall
      << (r.failed ? " FAILED: " + r.msg : std::string()) << "\n";
    if (r.failed) {rc = r.failed == 1 ? 1 : 3; break;}
  }
  js << "]}\n";
  if (!out.empty()) {std::ofstream f(out.c_str()); f << js.str();}
  else std::cout << js.str();
  return rc;
}
