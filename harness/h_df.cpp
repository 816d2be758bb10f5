#include "divfinder.h"
#include <map>
namespace {
  typedef std::vector<DfKind> Kinds;
  Exps ex(long long a, long long b) {Exps e; e.push_back(a); e.push_back(b); return e;}
  // all monomials in two variables with exponents below n
  std::vector<Exps> grid(int n) {
    std::vector<Exps> g;
    for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) g.push_back(ex(a, b));
    return g;
  }
  const std::vector<Exps>& grid3() {static std::vector<Exps> g = grid(3); return g;}
  const std::vector<Exps>& grid4() {static std::vector<Exps> g = grid(4); return g;}

  // Every sequence of insertions over a universe, then every query.
  void inserts(mc::Ctx& c, const Kinds& ks, int maxN) {
    const DfKind& k = ks[c.choose((int)ks.size())];
    CheckedDf d(c, k, chooseParams(c, k, 2, false));
    const int n = c.choose(maxN + 1);
    for (int i = 0; i < n; ++i) {
      // monomials that may still be inserted
      std::vector<Exps> u;
      for (size_t j = 0; j < grid3().size(); ++j) if (d.mayInsert(grid3()[j])) u.push_back(grid3()[j]);
      d.insert(u[c.choose((int)u.size())]);
    }
    d.content(n % 2 == 0);
    d.queries(grid3());
    d.content(n % 2 != 0);
    d.destroy();
  }

  // Every range inserted into an empty finder, and into one that has an entry already.
  void bulk(mc::Ctx& c, const Kinds& ks, int maxN) {
    const DfKind& k = ks[c.choose((int)ks.size())];
    CheckedDf d(c, k, chooseParams(c, k, 2, false));
    const int before = c.choose(3);
    if (before == 1) d.insert(ex(1, 1));
    if (before == 2) {d.insert(ex(2, 0)); d.insert(ex(0, 1)); if (k.removals) d.removeMultiples(ex(0, 0), true); else d.clear();}
    if (before == 2 && k.list) d.rebuild();
    const int n = c.choose(maxN + 1);
    std::vector<Exps> v;
    for (int i = 0; i < n; ++i) {
      std::vector<Exps> u;
      for (size_t j = 0; j < grid3().size(); ++j)
        if (k.list || d.count(grid3()[j]) + std::count(v.begin(), v.end(), grid3()[j]) < k.leaf) u.push_back(grid3()[j]);
      v.push_back(u[c.choose((int)u.size())]);
    }
    d.insertRange(v, n % 2);
    if (d.mayInsert(ex(1, 2))) d.insert(ex(1, 2));
    d.content(n % 2 == 0);
    d.queries(grid3());
    d.destroy();
  }

  // Every history of operations.
  void histories(mc::Ctx& c, const Kinds& ks, int depth, bool full) {
    const DfKind& k = ks[c.choose((int)ks.size())];
    DfParams p = chooseParams(c, k, 2, full);
    CheckedDf d(c, k, p);
    static const Exps U[] = {ex(0, 0), ex(1, 0), ex(0, 1), ex(2, 1), ex(1, 2), ex(2, 2)};
    const int start = c.mTier == mc::Quick && !k.list ? 1 + c.choose(2) : c.choose(3);
    if (start >= 1) {d.insert(U[1]); d.insert(U[4]); d.insert(U[3]);}
    if (start == 2) {d.insert(ex(0, 3)); d.insert(ex(3, 0)); d.insert(ex(2, 0)); d.insert(ex(0, 2));}
    const int len = c.choose(depth + 1);
    for (int i = 0; i < len; ++i) {
      const int nIns = 5, nRem = k.removals ? 4 : 0, nEl = k.removals ? 3 : 0, nFind = 3, nWrite = 2;
      const int nMove = k.list && !p.sort && d.size() > 0 ? 2 : 0;
      const int nRange = 2;
      int x = c.choose(nIns + nRem + nEl + nFind + nWrite + nMove + nRange + 1 + (k.list ? 0 : 1));
      if (x < nIns) {
        const Exps& e = U[x + (x >= 1)];
        if (d.mayInsert(e)) d.insert(e);
        continue;
      }
      x -= nIns;
      if (x < nRem) {
        static const Exps R[] = {ex(0, 0), ex(1, 1), ex(0, 2), ex(2, 1)};
        d.removeMultiples(R[x], x != 1);
        continue;
      }
      x -= nRem;
      if (x < nEl) {
        static const Exps R[] = {ex(1, 0), ex(2, 1), ex(0, 3)};
        d.removeElement(R[x]);
        continue;
      }
      x -= nEl;
      if (x < nFind) {
        static const Exps Q[] = {ex(2, 2), ex(1, 2), ex(3, 0)};
        d.find(Q[x], x == 1, x == 0);
        continue;
      }
      x -= nFind;
      if (x < nWrite) {d.write(x == 0 ? 2 : c.choose(2), ex(1, 1)); continue;}
      x -= nWrite;
      if (x < nMove) {
        if (x == 0) d.moveToFront(d.size() - 1);
        else d.findIterator(ex(2, 2), true);
        continue;
      }
      x -= nMove;
      if (x < nRange) {
        std::vector<Exps> v;
        if (x == 0) {v.push_back(ex(2, 0)); v.push_back(ex(0, 2)); v.push_back(ex(3, 3)); v.push_back(ex(1, 1));}
        std::vector<Exps> w;
        for (size_t j = 0; j < v.size(); ++j) if (d.mayInsert(v[j])) w.push_back(v[j]);
        d.insertRange(w, 1);
        continue;
      }
      x -= nRange;
      if (x == 0) d.rebuild(); else d.clear();
    }
    d.content(false);
    d.queries(grid3());
    d.find(ex(3, 0), false, true);
    d.content(true);
    d.destroy();
  }

  Exps pattern(int p, int i, int n, int vars) {
    Exps e(vars, 0);
    unsigned long long r = i * 2654435761ULL + p * 97 + 13;
    r ^= r >> 13; r *= 0x5bd1e9955bd1e995ULL; r ^= r >> 17;
    for (int v = 0; v < vars; ++v) {
      long long x;
      switch (p) {
      case 0: x = v == 0 ? i : v == 1 ? n - i : (i * 7) % 3; break; // antichain
      case 1: x = i + v; break; // chain
      case 2: x = (r >> (4 * (v % 8))) % 7; break; // small scrambled
      case 3: x = v == 0 ? 5 : (r >> (3 * (v % 9))) % 60; break; // one constant variable
      case 4: x = v == 0 ? i % 5 : v == 1 ? i / 5 : 0; break; // grid
      default: x = (long long)((r >> (5 * (v % 7))) % 200); // spread
      }
      e[v] = x;
    }
    return e;
  }

  // Large contents, built in three ways, then a short history, then queries around the entries.
  void seeded(mc::Ctx& c, const Kinds& ks, const std::vector<int>& sizes, int vars, int depth, int patterns) {
    const DfKind& k = ks[c.choose((int)ks.size())];
    DfParams p = chooseParams(c, k, vars, true);
    CheckedDf d(c, k, p);
    const int n = sizes[c.choose((int)sizes.size())];
    const int pat = c.choose(patterns);
    const int how = c.choose(3);
    std::vector<Exps> v;
    for (int i = 0; i < n; ++i) {
      Exps e = pattern(pat, i, n, vars);
      if (k.list || (size_t)std::count(v.begin(), v.end(), e) < k.leaf) v.push_back(e);
    }
    if (how == 0) for (size_t i = 0; i < v.size(); ++i) d.insert(v[i]);
    else if (how == 1) d.insertRange(v, 0);
    else {
      std::vector<Exps> a(v.begin(), v.begin() + v.size() / 2), b(v.begin() + v.size() / 2, v.end());
      d.insertRange(a, 1); d.insertRange(b, 0);
    }
    for (int i = 0; i < depth; ++i) {
      const Exps mid = v.empty() ? Exps(vars, 1) : v[v.size() / 2];
      Exps up(mid); up[0] += 1;
      int x = c.choose(k.removals ? (k.list ? 7 : 8) : 5);
      if (!k.removals && x == 4) {d.clear(); x = 99;}
      switch (x) {
      case 0: break;
      case 1: if (d.mayInsert(up)) d.insert(up); break;
      case 2: d.rebuild(); break;
      case 3: d.find(up, false, true); break;
      case 4: d.removeMultiples(mid, true); break;
      case 5: d.removeElement(mid); break;
      case 6: {Exps m(vars, 0); m[vars - 1] = mid[vars - 1]; d.removeMultiples(m, false); break;}
      case 7: d.clear(); break;
      }
    }
    d.content(true);
    std::vector<Exps> q;
    const size_t stepBy = std::max<size_t>(1, v.size() / 6);
    for (size_t i = 0; i < v.size(); i += stepBy) {
      q.push_back(v[i]);
      Exps e(v[i]); e[i % vars] += 1; q.push_back(e);
      e = v[i]; if (e[(i + 1) % vars] > 0) {e[(i + 1) % vars] -= 1; q.push_back(e);}
    }
    q.push_back(Exps(vars, 0));
    q.push_back(Exps(vars, 250));
    d.queries(q);
    d.destroy();
  }

  // Very many entries, or leaves of many entries: ways of inserting, of removing, and then queries.
  void large(mc::Ctx& c, const Kinds& ks, const std::vector<int>& sizes, bool mutate, bool huge) {
    const DfKind& k = ks[c.choose((int)ks.size())];
    DfParams p = huge ? DfParams() : chooseParams(c, k, 3, true);
    p.vars = 3;
    if (huge) {p.cache = !k.list; p.rebuilds = !k.list; p.ratio = 0.5; p.minRebuild = 100;}
    CheckedDf d(c, k, p);
    d.many();
    const int n = sizes[c.choose((int)sizes.size())];
    static const int Pats[] = {0, 5, 1, 2};
    const int pat = Pats[huge ? 1 : c.choose(k.list || k.leaf >= 16 ? 4 : 3)];
    const int how = huge ? 1 : c.choose(3);
    std::vector<Exps> v;
    std::map<Exps, size_t> count;
    for (int i = 0; i < n; ++i) {
      Exps e = pattern(pat, i, n, 3);
      if (huge) e[1] = e[1] * 7 + i % 7;
      if (k.list || ++count[e] <= k.leaf) v.push_back(e);
    }
    if (c.verbose()) c.log(mc::str(v.size()) + " entries of pattern " + mc::str(pat) + (how == 0 ? " one by one" : how == 1 ? " as a range" : " as two ranges"));
    if (how == 0) for (size_t i = 0; i < v.size(); ++i) d.insert(v[i]);
    else if (how == 1) d.insertRange(v, 0);
    else {
      std::vector<Exps> a(v.begin(), v.begin() + v.size() / 2), b(v.begin() + v.size() / 2, v.end());
      d.insertRange(a, 1); d.insertRange(b, 0);
    }
    if (mutate) {
      const int rounds = c.tier(1, 2);
      for (int r = 0; r < rounds; ++r) {
        const Exps mid = v[v.size() / 2 + r];
        const int x = c.choose(k.removals ? 5 : 2);
        if (x == 0) {
          for (int i = 0; i < 40; ++i) {
            Exps e = pattern(5, i + r * 50, n, 3); e[0] += 300 * (i % 2);
            if (d.mayInsert(e)) d.insert(e);
          }
        } else if (x == 1) d.rebuild();
        else if (x == 2) d.removeMultiples(mid, r == 0);
        else if (x == 3) for (size_t i = r; i < v.size(); i += v.size() / 30 + 1) d.removeElement(v[i]);
        else {Exps m(3, 0); m[r] = mid[r]; d.removeMultiples(m, r != 0);}
      }
    }
    d.content(true);
    std::vector<Exps> q;
    const size_t stepBy = std::max<size_t>(1, v.size() / 6);
    for (size_t i = 0; i < v.size(); i += stepBy) {
      q.push_back(v[i]);
      Exps e(v[i]); e[i % 3] += 1; q.push_back(e);
      e = v[i]; if (e[(i + 1) % 3] > 0) {e[(i + 1) % 3] -= 1; q.push_back(e);}
    }
    q.push_back(v.back());
    q.push_back(Exps(3, 0));
    q.push_back(Exps(3, 30000));
    d.queries(q);
    d.content(false);
    if (mutate) {
      // all of it, one way or the other, and then it must be as good as new
      if (k.list || k.removals) d.removeMultiples(Exps(3, 0), true); else d.clear();
      d.insert(v[0]);
      d.queries(q);
    }
    d.destroy();
  }

  // Telling a search to stop at every possible call, in the middle of a history.
  void stops(mc::Ctx& c, const Kinds& ks, int maxStop) {
    const DfKind& k = ks[c.choose((int)ks.size())];
    CheckedDf d(c, k, chooseParams(c, k, 2, false));
    const int fill = c.choose(4);
    static const int N[] = {1, 3, 7, 12};
    for (int i = 0; i < N[fill]; ++i) {
      Exps e = ex((i * 5) % 4, (i * 3) % 5);
      if (d.mayInsert(e)) d.insert(e);
    }
    if (k.removals && c.flag()) {d.removeMultiples(ex(2, 2), true); d.removeMultiples(ex(1, 4), true);}
    static const Exps Q[] = {ex(0, 0), ex(3, 4), ex(1, 1), ex(2, 3)};
    for (int i = 0; i < 2; ++i) {
      const int what = c.choose(3);
      const Exps& q = what == 2 ? Q[0] : Q[c.choose(4)];
      const int after = 1 + c.choose(maxStop);
      d.stopEarly(what, q, after, i == 0);
    }
    // the finder must be fully usable afterwards
    d.content(false);
    d.queries(std::vector<Exps>(Q, Q + 4));
    if (d.mayInsert(ex(3, 3))) d.insert(ex(3, 3));
    if (k.removals) d.removeMultiples(ex(1, 0), true);
    d.content(true);
    d.destroy();
  }

  // Leaves of several entries: fill them in some order, then remove any of the entries and insert others.
  void leaves(mc::Ctx& c, const Kinds& ks, int depth) {
    const DfKind& k = ks[c.choose((int)ks.size())];
    CheckedDf d(c, k, chooseParams(c, k, 2, false));
    static const int N[] = {3, 4, 5, 7, 11};
    const int n = N[c.choose(5)], order = c.choose(4);
    std::vector<Exps> v;
    for (int i = 0; i < n; ++i) {
      const int j = order == 0 ? i : order == 1 ? n - 1 - i : (i * 3 + 1) % n; // n is not a multiple of 3 below
      const int x = order == 2 && n % 3 == 0 ? i : j;
      v.push_back(order == 3 ? ex(x / 3, x % 3) : ex(x, n - 1 - x));
    }
    for (int i = 0; i < n; ++i) d.insert(v[i]);
    for (int i = 0; i < depth; ++i) {
      int x = c.choose(2 * n + 3);
      if (x < n) {d.removeElement(v[x]); continue;}
      x -= n;
      if (x < n) {d.removeMultiples(v[x], x % 2 == 0); continue;}
      x -= n;
      const Exps e = x == 0 ? ex(0, 1) : x == 1 ? ex(n, n) : v[n / 2];
      if (d.mayInsert(e)) d.insert(e);
    }
    d.content(true);
    d.queries(v);
    d.queries(grid4());
    d.destroy();
  }

  // One more equal entry than a leaf can hold.
  void limit(mc::Ctx& c, const Kinds& ks) {
    const DfKind& k = ks[c.choose((int)ks.size())];
    CheckedDf d(c, k, chooseParams(c, k, 2, true));
    const int pre = c.choose(4);
    if (pre >= 1) d.insert(ex(0, 3));
    if (pre >= 2) {d.insert(ex(3, 0)); d.insert(ex(2, 2));}
    if (pre >= 3) {d.insert(ex(1, 0)); d.insert(ex(0, 1));}
    const Exps e = c.flag() ? ex(1, 1) : ex(0, 0);
    while (d.mayInsert(e)) d.insert(e);
    d.insertBeyondLimit(e);
    d.content(true);
    d.queries(grid3());
    if (k.removals && c.flag()) d.removeElement(e);
    else d.rebuild();
    if (d.mayInsert(e)) d.insert(e);
    d.content(false);
    d.queries(grid3());
    d.destroy();
  }

  // The same history on every configuration: the answers must be the same.
  struct Answer {
    std::vector<int> v;
  };
  void sameAnswers(mc::Ctx& c, const Kinds& all, int depth, int vars, bool large = false) {
    // a reference configuration is compared with every other
    struct Inst {DfKind k; DfParams p; std::unique_ptr<IDF> f;};
    std::vector<Inst> in;
    for (size_t i = 0; i < all.size(); ++i) {
      if (!all[i].removals || (!large && !all[i].list && all[i].leaf < 2)) continue;
      for (int j = 0; j < 6; ++j) {
        DfParams p; p.vars = vars;
        p.sort = j & 1; p.order = j == 3; p.cache = j >= 2 && !all[i].list; p.rebuilds = j >= 3; p.minRebuild = j == 3 ? 1 : 3; p.ratio = 0.2;
        if (all[i].list && (j == 2 || j == 5)) continue;
        Inst x; x.k = all[i]; x.p = p; x.f.reset(all[i].make(p));
        in.push_back(std::move(x));
      }
    }
    int next = 0;
    std::vector<Exps> have;
    int n = 6, pat = 2;
    if (large) {
      // no two entries are equal
      n = c.tier(12, 20) + c.choose(2) * 30;
      pat = c.choose(6);
      const int how = c.choose(3);
      for (int i = 0; i < n; ++i) {
        const Exps e = pattern(pat, i, n, vars);
        if (std::count(have.begin(), have.end(), e) == 0) have.push_back(e);
      }
      if (c.verbose()) c.log("all: insert " + mc::str(have.size()) + " entries of pattern " + mc::str(pat) + (how == 0 ? " one by one" : how == 1 ? " as a range" : " as two ranges"));
      std::vector<Item> items;
      for (auto& e : have) items.push_back(item(e, next++, 0));
      const std::vector<Item> a(items.begin(), items.begin() + items.size() / 2), b(items.begin() + items.size() / 2, items.end());
      for (auto& x : in) {
        if (how == 0) for (auto& i : items) x.f->insert(i);
        else if (how == 1) x.f->insertRange(items, 0);
        else {x.f->insertRange(a, 1); x.f->insertRange(b, 0);}
      }
    }
    for (int s = 0; s < depth; ++s) {
      const int op = large ? 1 + c.choose(3) : c.choose(4);
      Exps e(vars, 0);
      if (large) {
        const int k = c.choose(4);
        e = pattern(pat, k == 0 ? 0 : k == 1 ? n - 1 : n / 2, n, vars);
        if (k == 3) e[vars - 1] += 1;
      } else if (vars == 2) {
        static const Exps U[] = {ex(1, 0), ex(0, 2), ex(2, 1), ex(3, 3), ex(1, 1), ex(4, 0)};
        e = U[c.choose(6)];
      } else e = pattern(c.flag() ? 2 : 5, c.choose(6), 6, vars);
      if (op <= 1) {
        if (std::count(have.begin(), have.end(), e) >= (large ? 1 : 2)) continue;
        if (c.verbose()) c.log("all: insert " + show(e));
        have.push_back(e);
        for (auto& x : in) x.f->insert(item(e, next, 0));
        ++next;
      } else if (op == 2) {
        if (c.verbose()) c.log("all: remove multiples of " + show(e));
        std::vector<int> first;
        for (size_t i = 0; i < in.size(); ++i) {
          std::vector<Item> out; in[i].f->removeMultiples(e, &out);
          std::vector<int> ids; for (auto& o : out) ids.push_back(o.id);
          std::sort(ids.begin(), ids.end());
          if (i == 0) first = ids;
          else if (ids != first) mc::fail("removeMultiples differs between " + in[0].k.name + " and " + in[i].k.name + ", " + show(in[i].p));
        }
        std::vector<Exps> left; for (auto& h : have) if (!divides(e, h)) left.push_back(h);
        have = left;
      } else {
        if (c.verbose()) c.log("all: find divisor of " + show(e));
        bool first = false;
        for (size_t i = 0; i < in.size(); ++i) {
          Item r; bool b = in[i].f->findDivisor(e, false, r, -1);
          if (i == 0) first = b;
          else if (b != first) mc::fail("findDivisor differs between " + in[0].k.name + " and " + in[i].k.name + ", " + show(in[i].p));
        }
      }
      c.step();
    }
    std::vector<Exps> qs = vars == 2 ? grid4() : std::vector<Exps>();
    if (large) {
      for (int i = 0; i < n; i += 3) {
        Exps e = pattern(pat, i, n, vars);
        qs.push_back(e);
        e[i % vars] += 1; qs.push_back(e);
        e[(i + 1) % vars] += 2; qs.push_back(e);
      }
      qs.push_back(Exps(vars, 0));
      qs.push_back(Exps(vars, 250));
    } else if (vars != 2) for (int i = 0; i < 6; ++i) {qs.push_back(pattern(2, i, 6, vars)); qs.push_back(pattern(5, i, 6, vars)); Exps e(qs.back()); e[i] += 3; qs.push_back(e);}
    for (size_t q = 0; q < qs.size(); ++q) {
      std::vector<int> first[3]; bool firstFound = false;
      for (size_t i = 0; i < in.size(); ++i) {
        for (int w = 0; w < 3; ++w) {
          Sink s;
          if (w == 0) in[i].f->findAllDivisors(qs[q], false, s);
          else if (w == 1) in[i].f->findAllMultiples(qs[q], false, s);
          else if (q == 0) in[i].f->forAll(false, s);
          std::vector<int> ids; for (auto& o : s.seen) ids.push_back(o.id);
          std::sort(ids.begin(), ids.end());
          if (i == 0) first[w] = ids;
          else if (ids != first[w])
            mc::fail(std::string(w == 0 ? "findAllDivisors" : w == 1 ? "findAllMultiples" : "forAll") + " for " + show(qs[q]) + " differs between " +
              in[0].k.name + ", " + show(in[0].p) + " and " + in[i].k.name + ", " + show(in[i].p));
        }
        Item r; bool b = in[i].f->findDivisor(qs[q], false, r, -1);
        if (i == 0) firstFound = b;
        else if (b != firstFound) mc::fail("findDivisor for " + show(qs[q]) + " differs between " + in[0].k.name + " and " + in[i].k.name + ", " + show(in[i].p));
        if (b != !first[0].empty()) mc::fail("findDivisor and findAllDivisors disagree in " + in[i].k.name + ", " + show(in[i].p));
        if (in[i].f->size() != have.size()) mc::fail("size differs in " + in[i].k.name + ", " + show(in[i].p));
      }
      c.outcome(mc::mix(first[0].size(), first[1].size()));
    }
    uint64_t h = 3; for (auto& e : have) h += mc::hashAll(e);
    c.state(h); c.step();
  }
}

void mc::registerSuites() {
  static Kinds lists, trees, listsMany, treesMany, treesBig, treesHuge, all, allMany;
  addTreesBig(treesBig);
  addTreesHuge(treesHuge);
  treesHuge.insert(treesHuge.end(), treesBig.begin(), treesBig.end());
  addLists(lists);
  addListsMany(listsMany);
  addTreesB0(trees); addTreesB1(trees); addTreesB2(trees);
  addTreesP0(trees); addTreesP1(trees); addTreesP2(trees);
  addTreesMany(treesMany);
  all = lists; all.insert(all.end(), trees.begin(), trees.end());
  allMany = listsMany;
  for (size_t i = 0; i < treesMany.size(); ++i) if (treesMany[i].removals) allMany.push_back(treesMany[i]);
  for (int t = 0; t < 2; ++t) {
    Kinds* ks = t ? &trees : &lists;
    Kinds* many = t ? &treesMany : &listsMany;
    const std::string n = t ? "tree" : "list";
    const bool T = t == 1;
    mc::add(n + "-query/inserts", [ks, T](mc::Ctx& c) {inserts(c, *ks, T ? c.tier(3, 5) : c.tier(4, 5));}, 3);
    mc::add(n + "-query/bulk", [ks, T](mc::Ctx& c) {bulk(c, *ks, T ? c.tier(3, 4) : c.tier(3, 5));}, 3);
    mc::add(n + "-query/seeded", [ks, T](mc::Ctx& c) {
      std::vector<int> s; const bool k0 = T;
      if (c.mTier == Quick) s = k0 ? std::vector<int>{5, 36, 120} : std::vector<int>{4, 9, 34, 35, 36, 71, 120};
      else {for (int i = 0; i <= 40; ++i) s.push_back(i); s.push_back(70); s.push_back(71); s.push_back(120); s.push_back(300);}
      seeded(c, *ks, s, 3, c.tier(1, 2), 6);
    }, 3);
    mc::add(n + "-query/many", [many](mc::Ctx& c) {
      std::vector<int> s = {5, 17, 60};
      int vars = c.choose(4);
      static const int V[] = {1, 33, 40, 7};
      seeded(c, *many, s, V[vars], c.tier(1, 2), 6);
    }, 3);
    mc::add(n + "-mutate/histories", [ks](mc::Ctx& c) {
      // the quick tier leaves out some of the leaf sizes
      Kinds few;
      for (size_t i = 0; i < ks->size(); ++i) {
        const DfKind& k = (*ks)[i];
        if (c.mTier == Thorough || k.list || k.leaf == 2 || (k.leaf == 1 && k.removals)) few.push_back(k);
      }
      histories(c, few, c.tier(3, 4), c.mTier == Thorough);}, 3);
    Kinds* most = t ? &treesHuge : &lists;
    for (int mut = 0; mut < 2; ++mut) {
      mc::add(n + (mut ? "-mutate/large" : "-query/large"), [most, mut](mc::Ctx& c) {
        std::vector<int> s = {300};
        if (mut == 0) s.push_back(700);
        if (c.mTier == Thorough) s = {127, 129, 255, 256, 257, 300, 513, 1100, 3000};
        large(c, *most, s, mut == 1, false);
      }, 4);
      mc::add(n + (mut ? "-mutate/huge" : "-query/huge"), [most, mut](mc::Ctx& c) {
        std::vector<int> s = {66000};
        if (c.mTier == Thorough) s.push_back(200000);
        Kinds few; // the quick tier leaves out some kinds of tree
        for (size_t i = 0; i < most->size(); ++i) if (c.mTier == Thorough || (*most)[i].list || i % 3 == 1) few.push_back((*most)[i]);
        large(c, few, s, mut == 1, true);
      }, 2);
    }
    mc::add(n + "-stop/stops", [ks, T](mc::Ctx& c) {stops(c, *ks, c.tier(T ? 3 : 4, 12));}, 3);
  }
  mc::add("tree-mutate/limit", [](mc::Ctx& c) {limit(c, trees);}, 2);
  mc::add("tree-mutate/leaves", [](mc::Ctx& c) {leaves(c, treesBig, c.tier(2, 3));}, 3);
  mc::add("same/two", [](mc::Ctx& c) {sameAnswers(c, all, c.tier(3, 4), 2);}, 3);
  mc::add("same/large", [](mc::Ctx& c) {sameAnswers(c, all, c.tier(1, 2), 3, true);}, 3);
  mc::add("same/large many", [](mc::Ctx& c) {sameAnswers(c, allMany, c.tier(1, 2), 33, true);}, 3);
  mc::add("same/many", [](mc::Ctx& c) {sameAnswers(c, allMany, c.tier(2, 3), 36);}, 3);
}
