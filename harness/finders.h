// Divisor finders of several kinds with a model of what they hold, for the harnesses that
// look at what happens within the calls of the user's code.
#ifndef VERIF_FINDERS_H
#define VERIF_FINDERS_H
#include "mc.h"
#include "mathic/KDTree.h"
#include "mathic/DivList.h"
#include <algorithm>
#include <functional>
#include <memory>
namespace {
  struct UserFault {};
  // What is done at one call of a callback.
  struct Within {
    virtual ~Within() {}
    virtual void at(long call) = 0;
  };
  // Shared by everything the user supplies in one trace.
  struct User {
    User(): failAt(-1), calls(0), hook(0), inHook(false) {}
    void call() {
      ++calls;
      if (hook != 0 && !inHook) {inHook = true; hook->at(calls - 1); inHook = false;}
      if (failAt >= 0 && failAt-- == 0) throw UserFault();
    }
    long failAt; // this many calls from now, one throws
    long calls;
    Within* hook; // done at each call
    bool inHook;
  };

  // ------------------------------------------------------------ divisor finders
  struct Mono {int e[3];};
  struct Ent {Mono m; int id;};
  struct Params {int vars; bool sort, cache, rebuilds; User* user;};
  template<bool DM, bool TDM, bool Packed, size_t Leaf, bool Linked>
  struct FConf {
    typedef int Exponent;
    typedef Mono Monomial;
    typedef Ent Entry;
    static const bool UseDivMask = DM;
    static const bool UseTreeDivMask = TDM;
    static const bool PackedTree = Packed;
    static const size_t LeafSize = Leaf;
    static const bool AllowRemovals = true;
    static const bool UseLinkedList = Linked;
    explicit FConf(const Params& p): p(p) {}
    static const Mono& mono(const Mono& m) {return m;}
    static const Mono& mono(const Ent& e) {return e.m;}
    template<class T> int getExponent(const T& t, size_t var) const {
      p.user->call();
      if (var >= (size_t)p.vars) mc::fail("asked for the exponent of a variable that does not exist");
      return mono(t).e[var];
    }
    template<class A, class B> bool divides(const A& a, const B& b) const {
      p.user->call();
      for (int i = 0; i < p.vars; ++i) if (mono(b).e[i] < mono(a).e[i]) return false;
      return true;
    }
    template<class A, class B> bool isLessThan(const A& a, const B& b) const {
      p.user->call();
      for (int i = 0; i < p.vars; ++i) if (mono(a).e[i] != mono(b).e[i]) return mono(a).e[i] < mono(b).e[i];
      return false;
    }
    size_t getVarCount() const {return p.vars;}
    bool getSortOnInsert() const {return p.sort;}
    bool getUseDivisorCache() const {return p.cache;}
    bool getDoAutomaticRebuilds() const {return p.rebuilds;}
    double getRebuildRatio() const {return 0.5;}
    size_t getRebuildMin() const {return 3;}
    Params p;
  };
  const char* const Searches[] = {"findAllDivisors", "findAllMultiples", "forAll", "findDivisor"};

  struct Recorder {
    explicit Recorder(Within* w): w(w), calls(0) {}
    bool proceed(const Ent& e) {
      if (std::find(ids.begin(), ids.end(), e.id) != ids.end()) mc::fail("an entry was given out twice");
      ids.push_back(e.id);
      if (w != 0) w->at(calls);
      ++calls;
      return true;
    }
    Within* w;
    long calls;
    std::vector<int> ids;
  };
  class IF {
  public:
    virtual ~IF() {}
    virtual void insert(const Ent&) = 0;
    virtual void removeMultiples(const Mono&) = 0;
    virtual void rebuild() = 0;
    virtual size_t size() = 0;
    // the ids found, sorted; findDivisor: at most one
    virtual std::vector<int> search(int what, const Mono& m, bool viaConst, Within* w) = 0;
  };
  template<class Conf, class F> class FW : public IF {
  public:
    explicit FW(const Params& p): f(Conf(p)) {}
    void insert(const Ent& e) override {f.insert(e);}
    void removeMultiples(const Mono& m) override {f.removeMultiples(m);}
    void rebuild() override {f.rebuild();}
    size_t size() override {return f.size();}
    template<class T> std::vector<int> on(T& t, int what, const Mono& m, Within* w) {
      Recorder r(w);
      switch (what) {
      case 0: t.findAllDivisors(m, r); break;
      case 1: t.findAllMultiples(m, r); break;
      case 2: t.forAll(r); break;
      default: {
        const Ent* e = t.findDivisor(m);
        if (e != 0) r.ids.push_back(e->id);
      }
      }
      std::sort(r.ids.begin(), r.ids.end());
      return r.ids;
    }
    std::vector<int> search(int what, const Mono& m, bool viaConst, Within* w) override {
      if (viaConst) {const F& cf = f; return on(cf, what, m, w);}
      return on(f, what, m, w);
    }
    F f;
  };
  struct Kind {std::string name; bool list; size_t leaf; std::function<IF*(const Params&)> make;};
  template<bool DM, bool TDM, bool Packed, size_t Leaf> void tree(std::vector<Kind>& v) {
    typedef FConf<DM, TDM, Packed, Leaf, false> C;
    Kind k;
    k.name = std::string(Packed ? "packed" : "binary") + (TDM ? " treemask" : DM ? " mask" : "") + " leaf" + mc::str(Leaf);
    k.list = false; k.leaf = Leaf;
    k.make = [](const Params& p) -> IF* {return new FW<C, mathic::KDTree<C> >(p);};
    v.push_back(k);
  }
  template<bool DM, bool Linked> void list(std::vector<Kind>& v) {
    typedef FConf<DM, false, false, 1, Linked> C;
    Kind k;
    k.name = std::string(Linked ? "linked" : "array") + (DM ? " mask" : "");
    k.list = true; k.leaf = 1000;
    k.make = [](const Params& p) -> IF* {return new FW<C, mathic::DivList<C> >(p);};
    v.push_back(k);
  }
  const std::vector<Kind>& kinds() {
    static std::vector<Kind> v;
    if (v.empty()) {
      list<false, false>(v); list<true, true>(v); list<true, false>(v);
      tree<false, false, false, 1>(v); tree<true, false, false, 2>(v); tree<true, true, false, 1>(v); tree<true, true, false, 3>(v);
      tree<false, false, true, 1>(v); tree<true, false, true, 2>(v); tree<true, true, true, 1>(v); tree<true, true, true, 3>(v);
    }
    return v;
  }

  struct Finder {
    mc::Ctx& c;
    Kind k;
    Params p;
    std::unique_ptr<IF> f;
    std::vector<Ent> items;
    int next;
    Finder(mc::Ctx& c, const Kind& k, const Params& p): c(c), k(k), p(p), f(k.make(p)), next(0) {}
    static bool div(const Mono& a, const Mono& b, int vars) {
      for (int i = 0; i < vars; ++i) if (b.e[i] < a.e[i]) return false;
      return true;
    }
    void insert(const Mono& m) {
      size_t same = 0;
      for (size_t i = 0; i < items.size(); ++i) same += div(items[i].m, m, p.vars) && div(m, items[i].m, p.vars);
      if (same >= k.leaf) return; // a leaf of a tree can hold no more equal entries
      Ent e; e.m = m; e.id = next++;
      f->insert(e);
      items.push_back(e);
      c.step();
    }
    void removeMultiples(const Mono& m) {
      f->removeMultiples(m);
      std::vector<Ent> left;
      for (size_t i = 0; i < items.size(); ++i) if (!div(m, items[i].m, p.vars)) left.push_back(items[i]);
      items.swap(left);
      c.step();
    }
    std::vector<int> want(int what, const Mono& m) const {
      std::vector<int> v;
      for (size_t i = 0; i < items.size(); ++i)
        if (what == 2 || (what == 1 ? div(m, items[i].m, p.vars) : div(items[i].m, m, p.vars))) v.push_back(items[i].id);
      std::sort(v.begin(), v.end());
      return v;
    }
    void checkResult(int what, const Mono& m, const std::vector<int>& got, const char* when) {
      const std::vector<int> w = want(what, m);
      if (what != 3 ? got != w : got.empty() != w.empty() || (!got.empty() && !std::binary_search(w.begin(), w.end(), got[0])))
        mc::fail(std::string(Searches[what]) + " of " + mc::str(m.e[0]) + "," + mc::str(m.e[1]) + " " + when + ": got " + mc::list(got) +
          ", expected " + (what == 3 ? "one of " : "") + mc::list(w));
      c.step();
      c.outcome(mc::mix(what, got.size()));
    }
    void query(int what, const Mono& m, bool viaConst, const char* when) {
      checkResult(what, m, f->search(what, m, viaConst, 0), when);
    }
    void all(const char* when) {
      mc::checkEq(f->size(), items.size(), "size");
      Mono m = {{0, 0, 0}};
      query(2, m, true, when);
      for (m.e[0] = 0; m.e[0] < 6; m.e[0] += 1)
        for (m.e[1] = m.e[0] % 2; m.e[1] < 6; m.e[1] += 2)
          for (int what = 0; what < 4; ++what) {m.e[2] = m.e[0]; query(what, m, (m.e[0] + what) % 2 == 0, when);}
      query(2, m, false, when);
      uint64_t h = mc::hashStr(k.name);
      for (size_t i = 0; i < items.size(); ++i) h = mc::mix(h, items[i].m.e[0] * 100 + items[i].m.e[1]);
      c.state(h);
    }
  };
  Mono place(int pat, int i) {
    Mono m = {{0, 0, 0}};
    switch (pat) {
    case 0: m.e[0] = i % 5; m.e[1] = (i * 3) % 5; break;
    case 1: m.e[0] = i % 6; m.e[1] = 5 - i % 6; m.e[2] = i % 2; break;
    default: m.e[0] = (i * 7) % 4; m.e[1] = i % 3; m.e[2] = (i * 5) % 3; break;
    }
    return m;
  }
  struct Thrower : public Within {
    Thrower(long n): n(n) {}
    void at(long call) override {if (call == n) throw UserFault();}
    long n;
  };
  struct Nested : public Within {
    Nested(Finder& f, long n, int what, const Mono& m, bool viaConst): f(f), n(n), what(what), m(m), viaConst(viaConst), ran(false) {}
    void at(long call) override {
      if (call != n && n >= 0) return;
      ran = true;
      f.query(what, m, viaConst, "from within another search");
    }
    Finder& f; long n; int what; Mono m; bool viaConst; bool ran;
  };
  struct ThrowInNested : public Within {
    ThrowInNested(Finder& f, long n, int what, const Mono& m): f(f), n(n), what(what), m(m) {}
    void at(long call) override {
      if (call != n) return;
      Thrower t(1);
      try {f.checkResult(what, m, f.f->search(what, m, true, &t), "from within another search");}
      catch (const UserFault&) {}
    }
    Finder& f; long n; int what; Mono m;
  };
  Finder* fill(mc::Ctx& c, User& u, int maxSize) {
    const Kind& k = kinds()[c.choose((int)kinds().size())];
    Params p; p.user = &u;
    const int opt = c.choose(3);
    p.vars = c.mTier == mc::Quick ? 2 + (opt != 1) : 2 + c.choose(2);
    p.sort = opt == 1; p.cache = opt == 2; p.rebuilds = opt != 0;
    std::unique_ptr<Finder> f(new Finder(c, k, p));
    static const int N[] = {0, 1, 2, 3, 5, 9, 16, 30};
    const int n = N[c.choose(maxSize)];
    const int pat = c.choose(3);
    if (c.verbose()) c.log(k.name + ", " + mc::str(p.vars) + " variables" + (p.sort ? " sort" : "") + (p.cache ? " cache" : "") +
      (p.rebuilds ? " rebuilds" : "") + ", " + mc::str(n) + " entries in pattern " + mc::str(pat));
    for (int i = 0; i < n; ++i) f->insert(place(pat, i));
    if (n >= 3 && c.flag()) {Mono m = {{3, 2, 0}}; f->removeMultiples(m); c.log("remove multiples of 3,2,0");}
    return f.release();
  }
  const Mono Args[] = {{{5, 5, 5}}, {{2, 3, 2}}, {{0, 0, 0}}, {{1, 1, 0}}};
}
#endif
