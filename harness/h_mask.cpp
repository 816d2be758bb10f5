// DivMask: a mask never rules out an actual divisor, whatever entries the calculator was
// built for, whatever the exponent type and the number of variables.
#include "mathic/DivMask.h"
#include "mc.h"
#include <limits>
namespace {
  typedef std::vector<long long> M; // exponents
  template<class E, bool UM> struct Conf {
    typedef E Exponent;
    static const bool UseDivMask = UM;
    size_t vars;
    size_t getVarCount() const {return vars;}
    Exponent getExponent(const M& m, size_t v) const {
      if (v >= vars || m.size() != vars) mc::fail("the exponent of a variable that does not exist was asked for");
      return (Exponent)m[v];
    }
    bool divides(const M& a, const M& b) const {
      for (size_t i = 0; i < vars; ++i) if (a[i] > b[i]) return false;
      return true;
    }
  };
  typedef mathic::DivMask D;

  // every pair of probes under one calculator
  template<class C, class Calc>
  void probe(mc::Ctx& c, const C& conf, const Calc& calc, const std::vector<M>& p, bool triples) {
    typedef D::Extender<M, true> X;
    typedef D::Extender<const M&, true> R;
    const size_t n = p.size();
    std::vector<D> mask(n);
    for (size_t i = 0; i < n; ++i) {
      mask[i] = D(p[i], calc, conf);
      // recalculating gives the same mask
      D other(p[(i + 1) % n], calc, conf);
      other.recalculate(p[i], calc, conf);
      if (other != mask[i] || !(other == mask[i])) mc::fail("recalculate differs from construction");
      c.step();
    }
    const D max = D::getMaxMask();
    uint64_t sig = 3;
    for (size_t i = 0; i < n; ++i) {
      const X xi(p[i], calc, conf);
      mc::check(xi.get() == p[i], "Extender::get");
      mc::check(mask[i].canDivide(max), "a mask rules itself out against the maximal mask");
      D::HasDivMask<true> top;
      mc::check(xi.canDivide(top), "entry is ruled out against a bound that has seen no entries");
      for (size_t j = 0; j < n; ++j) {
        const bool div = conf.divides(p[i], p[j]);
        const bool can = mask[i].canDivide(mask[j]);
        sig = mc::mix(sig, can);
        if (div && !can)
          mc::fail("mask of " + mc::list(p[i]) + " rules out that it divides " + mc::list(p[j]));
        X xj(p[(j + 1) % n], calc, conf);
        xj.get() = p[j];
        xj.recalculateDivMask(calc, conf);
        R rj(p[j], calc, conf);
        if (xi.divides(xj, conf) != div || xi.divides(rj, conf) != div)
          mc::fail("Extender::divides is wrong for " + mc::list(p[i]) + " and " + mc::list(p[j]));
        if (rj.divides(xi, conf) != conf.divides(p[j], p[i]))
          mc::fail("Extender::divides is wrong for references");
        c.step();
      }
    }
    // lower bounds: what can divide the bounds
    const size_t m = triples ? n : std::min<size_t>(n, 12);
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) {
      D::HasDivMask<true> bound;
      bound.resetDivMask();
      const X xi(p[i], calc, conf), xj(p[j], calc, conf);
      bound.updateToLowerBound(xi);
      bound.updateToLowerBound(xj);
      D both = mask[i];
      both.combineAnd(mask[j]);
      for (size_t k = 0; k < n; ++k) {
        const X xk(p[k], calc, conf);
        if (conf.divides(p[i], p[k]) || conf.divides(p[j], p[k])) {
          if (!bound.canDivide(xk) || !both.canDivide(mask[k]))
            mc::fail("bound of " + mc::list(p[i]) + " and " + mc::list(p[j]) + " rules out a divisor of " + mc::list(p[k]));
        }
        if (bound.canDivide(xk) != both.canDivide(mask[k]))
          mc::fail("updateToLowerBound and combineAnd differ");
      }
      c.step();
    }
    c.state(sig); c.outcome(sig);
  }
  template<class C> void noMask(mc::Ctx& c, const C& conf, const std::vector<M>& p) {
    typedef D::Extender<M, false> X;
    D::Calculator<C> calc(conf);
    calc.rebuildDefault(conf); calc.rebuild(p.begin(), p.end(), conf);
    for (auto& a : p) for (auto& b : p) {
      X x(a, calc, conf), y(b, calc, conf);
      y.recalculateDivMask(calc, conf);
      x.updateToLowerBound(y);
      if (x.divides(y, conf) != conf.divides(a, b) || !x.canDivide(y)) mc::fail("divides without masks is wrong");
      c.step();
    }
  }
  std::vector<M> grid(size_t vars, const std::vector<long long>& alpha) {
    std::vector<M> r(1, M());
    for (size_t v = 0; v < vars; ++v) {
      std::vector<M> n;
      for (auto& m : r) for (long long a : alpha) {n.push_back(m); n.back().push_back(a);}
      r.swap(n);
    }
    return r;
  }
  // at most two different non-zero variables
  std::vector<M> sparse(size_t vars, const std::vector<long long>& alpha) {
    std::vector<M> r(1, M(vars, 0));
    std::vector<size_t> where = {0, 1, vars / 2, vars - 2, vars - 1};
    for (size_t v : where) for (long long a : alpha) {
      M m(vars, 0); m[v] = a; r.push_back(m);
      m[(v + 1) % vars] = alpha.back(); r.push_back(m);
      M f(vars, 1); f[v] = a; r.push_back(f);
    }
    return r;
  }
  template<class E> void suite(mc::Ctx& c, size_t vars, const std::vector<M>& gridIn, int maxSet, bool triples) {
    typedef Conf<E, true> C;
    C conf; conf.vars = vars;
    D::Calculator<C> calc(conf);
    const int how = c.choose(maxSet + 2);
    if (how == 0) {
      c.log("default calculator");
    } else {
      std::vector<M> set;
      int from = 0;
      for (int i = 0; i < how - 1; ++i) {
        from += c.choose((int)gridIn.size() - from);
        set.push_back(gridIn[from]);
      }
      if (c.flag()) std::reverse(set.begin(), set.end());
      if (c.flag()) { // built for something else before
        std::vector<M> other(gridIn.begin(), gridIn.begin() + gridIn.size() / 2);
        calc.rebuild(other.begin(), other.end(), conf);
      }
      calc.rebuild(set.begin(), set.end(), conf);
      if (c.verbose()) {c.log("rebuilt for:"); for (auto& m : set) c.log("  " + mc::list(m));}
      if (c.flag()) {calc.rebuildDefault(conf); c.log("rebuildDefault");}
    }
    probe(c, conf, calc, gridIn, triples);
    Conf<E, false> nc; nc.vars = vars;
    if (how == 0) noMask(c, nc, gridIn);
  }
  // Rebuilt for many entries of many variables.
  template<class E> void many(mc::Ctx& c, const std::vector<int>& sizes, const std::vector<int>& varCounts, long long top) {
    typedef Conf<E, true> C;
    C conf; conf.vars = varCounts[c.choose((int)varCounts.size())];
    const int n = sizes[c.choose((int)sizes.size())], pattern = c.choose(4);
    std::vector<M> set;
    for (int i = 0; i < n; ++i) {
      M m(conf.vars, 0);
      unsigned long long r = i * 2654435761ULL + pattern * 97 + 13;
      for (size_t v = 0; v < conf.vars; ++v) {
        r ^= r >> 13; r *= 0x5bd1e9955bd1e995ULL; r ^= r >> 17;
        m[v] = pattern == 0 ? (long long)(r % 7) : pattern == 1 ? (long long)(r % (unsigned long long)top) :
          pattern == 2 ? (v == (size_t)i % conf.vars ? i % 90 : 0) : v + 1 == conf.vars ? top - i % 50 : (long long)(r % 2);
      }
      set.push_back(m);
    }
    if (c.verbose()) c.log("rebuilt for " + mc::str(n) + " entries in " + mc::str(conf.vars) + " variables, pattern " + mc::str(pattern));
    D::Calculator<C> calc(conf);
    if (c.flag()) {std::vector<M> few(set.begin(), set.begin() + 2); calc.rebuild(few.begin(), few.end(), conf);}
    calc.rebuild(set.begin(), set.end(), conf);
    std::vector<M> p;
    for (int i = 0; i < n && p.size() < 24; i += n / 9 + 1) {
      p.push_back(set[i]);
      M m(set[i]); for (size_t v = 0; v < conf.vars; ++v) if (m[v] < top && (v + i) % 3 == 0) ++m[v];
      p.push_back(m);
      for (size_t v = 0; v < conf.vars; ++v) m[v] = std::max(m[v], set[(i + 1) % n][v]);
      p.push_back(m);
    }
    p.push_back(M(conf.vars, 0)); p.push_back(M(conf.vars, top));
    probe(c, conf, calc, p, false);
  }
}
void mc::registerSuites() {
  mc::add("mask/many int", [](mc::Ctx& c) {many<int>(c, {40, 300, c.tier(1000, 70000)}, {1, 2, 3, 31, 33, 70, 260}, 2147483647LL);}, 3);
  mc::add("mask/many uchar", [](mc::Ctx& c) {many<unsigned char>(c, {40, 300}, {1, 2, 3, 33, 260}, 255);}, 3);
  mc::add("mask/many llong", [](mc::Ctx& c) {many<long long>(c, {40, 300}, {1, 3, 33}, std::numeric_limits<long long>::max());}, 3);
  typedef std::vector<long long> A;
  const long long im = std::numeric_limits<int>::max();
  const long long lm = std::numeric_limits<long long>::max();
  mc::add("mask/int 1", [im](mc::Ctx& c) {suite<int>(c, 1, grid(1, A{0, 1, 2, 3, 5, 31, 32, 1000, im}), c.tier(3, 4), true);}, 2);
  mc::add("mask/int 2", [](mc::Ctx& c) {suite<int>(c, 2, grid(2, A{0, 1, 2, 7}), c.tier(3, 4), true);}, 2);
  mc::add("mask/int 2 big", [im](mc::Ctx& c) {suite<int>(c, 2, grid(2, A{0, 3, 1000, im}), c.tier(3, 4), true);}, 2);
  mc::add("mask/int 3", [](mc::Ctx& c) {suite<int>(c, 3, grid(3, A{0, 1, 4}), c.tier(2, 3), false);}, 2);
  mc::add("mask/uchar 1", [](mc::Ctx& c) {suite<unsigned char>(c, 1, grid(1, A{0, 1, 2, 100, 127, 128, 254, 255}), c.tier(3, 4), true);}, 2);
  mc::add("mask/uchar 2", [](mc::Ctx& c) {suite<unsigned char>(c, 2, grid(2, A{0, 1, 130, 255}), c.tier(3, 4), true);}, 2);
  mc::add("mask/ushort 2", [](mc::Ctx& c) {suite<unsigned short>(c, 2, grid(2, A{0, 2, 40000, 65535}), c.tier(2, 3), true);}, 2);
  mc::add("mask/llong 1", [lm](mc::Ctx& c) {suite<long long>(c, 1, grid(1, A{0, 1, 3, 70, 1LL << 33, lm}), c.tier(3, 4), true);}, 2);
  mc::add("mask/unsigned 2", [](mc::Ctx& c) {suite<unsigned>(c, 2, grid(2, A{0, 1, 6, 4294967295LL}), c.tier(2, 3), true);}, 2);
  const int vs[] = {5, 7, 16, 31, 32, 33, 40, 65};
  for (int v : vs) mc::add("mask/int " + mc::str(v) + " variables", [v](mc::Ctx& c) {
    suite<int>(c, v, sparse(v, A{1, 2, 9}), c.tier(1, 2), false);}, 2);
}
