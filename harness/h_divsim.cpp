// The divisor finder models of the simulator, minimizing what they hold or not.
#include "divsim/stdinc.h"
#include "divsim/DivListModel.h"
#include "divsim/KDTreeModel.h"
#include "mc.h"
#include <set>
#include <map>
#include <memory>
#include <algorithm>
namespace {
  typedef std::vector<int> V;
  typedef std::multiset<V> Set;
  size_t gVars = 2;
  V exps(const Monomial& m) {return V(m.getPointer(), m.getPointer() + gVars);}
  bool divides(const V& a, const V& b) {
    for (size_t i = 0; i < gVars; ++i) if (a[i] > b[i]) return false;
    return true;
  }
  struct Out {
    Set s; bool proceed(const Monomial& m) {s.insert(exps(m)); return true;}
    void push_back(const Monomial& m) {s.insert(exps(m));}
  };
  struct IM {
    virtual ~IM() {}
    virtual void insert(V& v) = 0;
    virtual Set insertOut(V& v) = 0;
    virtual const Monomial* find(V& v, bool viaConst) = 0;
    virtual Set all(V& v, bool viaConst) = 0;
    virtual Set everything(bool viaConst) = 0;
    virtual size_t size() = 0;
    virtual std::string name() = 0;
    virtual unsigned long long count() = 0;
  };
  template<class M> struct MM : public IM {
    template<class... A> MM(A... a): m(a...) {}
    void insert(V& v) {m.insert(Monomial(v));}
    Set insertOut(V& v) {Out o; m.insert(Monomial(v), o); return o.s;}
    const Monomial* find(V& v, bool k) {const M& cm = m; return k ? cm.findDivisor(Monomial(v)) : m.findDivisor(Monomial(v));}
    Set all(V& v, bool k) {Out o; const M& cm = m; if (k) cm.findAllDivisors(Monomial(v), o); else m.findAllDivisors(Monomial(v), o); return o.s;}
    Set everything(bool k) {Out o; const M& cm = m; if (k) cm.forAll(o); else m.forAll(o); return o.s;}
    size_t size() {return m.size();}
    std::string name() {return m.getName();}
    unsigned long long count() {return m.getExpQueryCount();}
    M m;
  };
  struct Kind {std::string name; std::function<IM*(bool min)> make; bool canMin;};
  template<bool ULL, bool UDM> void lists(std::vector<Kind>& v) {
    for (int k = 0; k < 4; ++k) v.push_back({std::string("list") + (ULL ? " linked" : "") + (UDM ? " masks" : "") + " variant" + mc::str(k),
      [k](bool min) -> IM* {return new MM<DivListModel<ULL, UDM> >(gVars, min, k == 1 || k == 3, k == 2, k >= 2 ? 0.5 : 0.0, (size_t)(k >= 2 ? 1 : 0));}, true});
  }
  template<bool UDM, bool UTDM, bool PT, size_t LS, bool AR> void trees(std::vector<Kind>& v) {
    for (int k = 0; k < 4; ++k) v.push_back({std::string("tree") + (PT ? " packed" : "") + (UTDM ? " treemasks" : UDM ? " masks" : "") + " leaf" + mc::str(LS) + (AR ? "" : " noremove") + " variant" + mc::str(k),
      [k](bool min) -> IM* {return new MM<KDTreeModel<UDM, UTDM, PT, LS, AR> >(gVars, min, (k & 1) != 0, k >= 2, k == 1 || k == 2 ? 0.5 : 0.0, (size_t)(k == 1 ? 1 : k == 2 ? 3 : 0));}, AR});
  }
  const std::vector<Kind>& kinds() {
    static std::vector<Kind> v;
    if (v.empty()) {
      lists<false, false>(v); lists<true, false>(v); lists<false, true>(v); lists<true, true>(v);
      trees<false, false, false, 1, true>(v); trees<true, false, false, 2, true>(v); trees<true, true, false, 2, true>(v);
      trees<false, false, true, 2, true>(v); trees<true, false, true, 1, true>(v); trees<true, true, true, 2, true>(v);
      trees<true, true, true, 4, true>(v); trees<true, true, false, 2, false>(v); trees<false, false, true, 1, false>(v);
    }
    return v;
  }
  struct Checked {
    mc::Ctx& c; std::unique_ptr<IM> m; bool min; Set ref;
    std::vector<std::unique_ptr<V> > store;
    std::vector<V> probes;
    Checked(mc::Ctx& c): c(c) {
      const Kind& k = kinds()[c.choose((int)kinds().size())];
      min = k.canMin && c.flag();
      m.reset(k.make(min));
      if (c.verbose()) c.log(k.name + (min ? " minimizing" : ""));
      if (m->name().find(min ? " remin" : " nomin") == std::string::npos) mc::fail("the name does not say whether it minimizes: " + m->name());
    }
    void insert(const V& v, bool viaOut) {
      if (c.verbose()) c.log(std::string(viaOut ? "insert with output " : "insert ") + mc::list(v));
      if (!min && ref.count(v)) return;
      store.emplace_back(new V(v));
      Set gone;
      bool dominated = false;
      if (min) {
        for (auto& x : ref) if (divides(x, v)) dominated = true;
        if (!dominated) {
          for (auto it = ref.begin(); it != ref.end();) if (divides(v, *it)) {gone.insert(*it); it = ref.erase(it);} else ++it;
          ref.insert(v);
        }
      } else ref.insert(v);
      if (viaOut) {
        const Set got = m->insertOut(*store.back());
        if (got != gone) mc::fail("insert reports " + show(got) + " as removed, expected " + show(gone));
      } else m->insert(*store.back());
      mc::checkEq(m->size(), ref.size(), "size");
      const Set all = m->everything(store.size() % 2);
      if (all != ref) mc::fail("contents are " + show(all) + ", expected " + show(ref));
      c.step(); uint64_t h = min; for (auto& x : ref) h = mc::hashAll(x, h); c.state(h);
    }
    void query(const V& q) {
      V tmp(q);
      Set want;
      for (auto& x : ref) if (divides(x, q)) want.insert(x);
      const Set got = m->all(tmp, ref.size() % 2);
      if (got != want) mc::fail("divisors of " + mc::list(q) + " are " + show(got) + ", expected " + show(want));
      for (int k = 0; k < 2; ++k) {
        const Monomial* d = m->find(tmp, k);
        if ((d != 0) == want.empty()) mc::fail("findDivisor of " + mc::list(q) + (d ? " found one that is not there" : " found none"));
        if (d && !want.count(exps(*d))) mc::fail("findDivisor of " + mc::list(q) + " gave " + mc::list(exps(*d)));
      }
      c.outcome(want.size());
    }
    static std::string show(const Set& s) {std::string r; for (auto& x : s) r += mc::list(x); return "{" + r + "}";}
  };
  std::vector<V> grid(int vars, int max) {
    std::vector<V> r(1);
    for (int v = 0; v < vars; ++v) {std::vector<V> n; for (auto& x : r) for (int e = 0; e < max; ++e) {n.push_back(x); n.back().push_back(e);} r.swap(n);}
    return r;
  }
  void histories(mc::Ctx& c, int vars, int max, int depth) {
    gVars = vars;
    Checked t(c);
    const std::vector<V> g = grid(vars, max);
    const bool out = c.mTier == mc::Thorough ? c.flag() : true;
    const int q = (int)g.size();
    for (int i = 0; i < depth; ++i) {
      t.insert(g[c.choose(q)], out != (i % 2 == 1));
      if (i == depth - 2) t.query(g[q / 2]);
    }
    for (auto& x : g) t.query(x);
    t.m->count();
  }
  void seeded(mc::Ctx& c, int vars, int n) {
    gVars = vars;
    Checked t(c);
    const int size = 5 + c.choose(n), p = c.choose(5);
    for (int i = 0; i < size; ++i) {
      V v(vars, 0);
      for (int k = 0; k < vars; ++k) {
        const int x = k % 2 ? size - i : i;
        v[k] = p == 0 ? x : p == 1 ? (i * 7 + k * 5) % 11 : p == 2 ? size - i + k : p == 3 ? (i + k) % 4 + (i * i) % 5 : i + k;
      }
      t.insert(v, i % 2);
      if (i % 5 == 4) t.query(v);
    }
    const std::vector<V> g = grid(vars, vars == 2 ? 8 : 4);
    for (auto& x : g) {V q(x); for (auto& e : q) e *= 2; t.query(q);}
  }
}
void mc::registerSuites() {
  mc::add("divsim/two", [](mc::Ctx& c) {histories(c, 2, 3, c.tier(4, 5));}, 2);
  mc::add("divsim/three", [](mc::Ctx& c) {histories(c, 3, 2, c.tier(4, 4));}, 2);
  mc::add("divsim/one", [](mc::Ctx& c) {histories(c, 1, 4, c.tier(5, 7));}, 2);
  mc::add("divsim/seeded", [](mc::Ctx& c) {seeded(c, 2 + c.choose(2), c.tier(24, 60));}, 3);
}
