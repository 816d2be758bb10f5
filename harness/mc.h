// A small stateless model checker for sequential C++ code.
//
// A suite is a function body(Ctx&).  Every nondeterministic decision it makes goes
// through Ctx::choose(n); the explorer runs the body once for every possible sequence
// of answers (depth first, exhaustively) against the real implementation.  The body
// compares the implementation with a reference model and calls mc::fail on
// disagreement.  Worker processes share the work; a crash, hang or failure of a worker
// is turned into a replayable list of choices by the parent.
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <functional>

namespace mc {
  enum Tier {Quick = 0, Thorough = 1};

  class Ctx {
  public:
    // returns a value in [0,n); all n are explored.
    int choose(int n);
    bool flag() {return choose(2) == 1;}
    // value depending on the tier.
    template<class T> T tier(T quick, T thorough) const {
      return mTier == Quick ? quick : thorough;
    }
    // one operation carried out on the implementation and checked.
    void step();
    // an abstract state of the system that was reached.
    void state(uint64_t h);
    // what the implementation answered (for vacuity statistics).
    void outcome(uint64_t h);
    // whether log text is wanted. Guard expensive formatting with it.
    bool verbose() const {return mVerbose;}
    void log(const std::string& s) {if (mVerbose) logText(s);}
    void logText(const std::string& s);

    // implementation
    Tier mTier;
    bool mVerbose;
  };

  // Report a violation of the property and end this process.
  [[noreturn]] void fail(const std::string& msg);
  inline void check(bool ok, const char* msg) {if (!ok) fail(msg);}
  template<class A, class B>
  void checkEq(const A& got, const B& want, const char* what) {
    if (!(got == want)) {
      std::ostringstream o;
      o << what << ": got " << got << ", expected " << want;
      fail(o.str());
    }
  }

  typedef std::function<void(Ctx&)> Body;
  // Registers a suite. claimDepth is the number of leading choices used to split work.
  // fresh: each piece of work is done in a process in which nothing has run before, so that
  // anything the code keeps in static variables is set by that piece of work.
  void add(const std::string& name, Body body, int claimDepth = 3, bool thoroughOnly = false, bool fresh = false);
  void registerSuites(); // defined by the harness

  // hashing
  inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL; h ^= h >> 33;
    return h;
  }
  inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ULL) {
    for (size_t i = 0; i < s.size(); ++i) {h ^= (unsigned char)s[i]; h *= 1099511628211ULL;}
    return mix(h, s.size());
  }
  template<class C> uint64_t hashAll(const C& c, uint64_t h = 77) {
    for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) h = mix(h, (uint64_t)*i);
    return mix(h, 0x1234567);
  }

  // memory accounting (global operator new/delete of the harness)
  long liveAllocs();
  long liveBytes(); // what is allocated; exactly as requested in address sanitizer builds
  // the n'th (from 0) operator new from now on throws bad_alloc; negative: none.
  void failAllocAt(long n, size_t size = 0); // size: only allocations of that size count
  long allocsSeen(); // since last failAllocAt

  template<class T> std::string str(const T& t) {std::ostringstream o; o << t; return o.str();}
  template<class C> std::string list(const C& c) {
    std::ostringstream o; o << '[';
    for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) {
      if (i != c.begin()) o << ' ';
      o << *i;
    }
    o << ']'; return o.str();
  }
}
#endif
