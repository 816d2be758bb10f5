#include "mc.h"
#include "mathic/PairQueue.h"
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <stdexcept>
#include <algorithm>
#include <cstring>

namespace {
  const int MaxLive = 512;
  struct Injected {};

  struct PD;
  // Everything the queue tells its configuration. No allocation in here, since
  // allocations are counted and failed while the queue runs.
  struct Ctl {
    Ctl() {std::memset(this, 0, sizeof(*this)); failUser = -1;}
    const PD* live[MaxLive];
    int liveCount;
    long created, destroyed;
    bool big; // indices are mapped
    // value of the pair (c, r), indices translated to small ones
    int value[32][32];
    int computed[32][32];
    bool retired[32];
    long userCalls;
    long failUser; // this user call throws (counted from 0), -1 none
    bool counting;
    size_t map[32]; // real index of small index
    int n;
    bool noRetiredCompute;
    int smallOf(size_t real) const {
      for (int i = 0; i < n; ++i) if (map[i] == real) return i;
      mc::fail("the configuration was asked about a pair that was never added, index " + mc::str(real));
    }
    void userPoint() {
      if (!counting) return;
      if (userCalls++ == failUser) throw Injected();
    }
    void born(const PD* p) {
      for (int i = 0; i < liveCount; ++i)
        if (live[i] == p) mc::fail("pair data constructed on top of existing pair data");
      if (liveCount == MaxLive) mc::fail("harness error: too many pair data");
      live[liveCount++] = p;
      ++created;
    }
    void died(const PD* p) {
      for (int i = 0; i < liveCount; ++i)
        if (live[i] == p) {live[i] = live[--liveCount]; ++destroyed; return;}
      mc::fail("pair data destroyed that does not exist (twice destroyed or never constructed)");
    }
    void need(const PD* p, const char* what) const {
      for (int i = 0; i < liveCount; ++i) if (live[i] == p) return;
      mc::fail(std::string("pair data that does not exist passed to ") + what);
    }
  };
  Ctl* gCtl = 0;

  struct PD {
    PD(): col(-1), row(-1), val(-1) {gCtl->born(this);}
    PD(const PD& p): col(p.col), row(p.row), val(p.val) {gCtl->need(&p, "copy"); gCtl->born(this);}
    ~PD() {gCtl->died(this); col = row = val = -99;}
    int col, row, val; // small indices
  };

  struct Cmp {explicit Cmp(int v): v(v) {} int v;};

  // Kind 0: retirement supported (default), 1: not supported,
  // 2: construction and destruction of pair data specialized.
  template<int Kind>
  struct Conf {
    explicit Conf(Ctl* c): ctl(c) {}
    typedef ::PD PairData;
    typedef Cmp CompareResult;
    void computePairData(size_t col, size_t row, PD& pd) {
      ctl->need(&pd, "computePairData");
      int c = ctl->smallOf(col), r = ctl->smallOf(row);
      if (c <= r) mc::fail("computePairData with column <= row");
      if (ctl->noRetiredCompute && (ctl->retired[c] || ctl->retired[r]))
        mc::fail("pair data computed for a retired index");
      ctl->userPoint();
      ++ctl->computed[c][r];
      pd.col = c; pd.row = r; pd.val = ctl->value[c][r];
    }
    Cmp compare(size_t ca, size_t ra, const PD& a, size_t cb, size_t rb, const PD& b) const {
      ctl->need(&a, "compare"); ctl->need(&b, "compare");
      int c1 = ctl->smallOf(ca), r1 = ctl->smallOf(ra), c2 = ctl->smallOf(cb), r2 = ctl->smallOf(rb);
      if (a.col != c1 || a.row != r1 || b.col != c2 || b.row != r2)
        mc::fail("compare got pair data of another pair");
      ctl->userPoint();
      return Cmp(a.val < b.val ? 11 : 4);
    }
    bool cmpLessThan(Cmp c) const {return c.v == 11;}
    Ctl* ctl;
  };
}

namespace mathic {
  namespace PairQueueNamespace {
    template<> struct SupportRetirement<Conf<1> > {static bool const value = false;};
    template<> struct ConstructPairDataFunction<Conf<2> > {
      static void function(void* memory, Index col, Index row, Conf<2>& conf) {
        conf.ctl->userPoint();
        PD* pd = new (memory) PD();
        pd->col = conf.ctl->smallOf(col); pd->row = conf.ctl->smallOf(row);
        pd->val = conf.ctl->value[pd->col][pd->row];
        if (pd->col <= pd->row) mc::fail("pair data constructed with column <= row");
        ++conf.ctl->computed[pd->col][pd->row];
      }
    };
    template<> struct DestructPairDataFunction<Conf<2> > {
      static void function(PD* pd, Index col, Index row, Conf<2>& conf) {
        conf.ctl->need(pd, "destructPairData");
        if (pd->col != conf.ctl->smallOf(col) || pd->row != conf.ctl->smallOf(row))
          mc::fail("pair data of (" + mc::str(pd->col) + "," + mc::str(pd->row) +
            ") is destroyed as if it were that of another pair");
        pd->~PD();
      }
    };
  }
}

namespace {
  // The queue, and the set of pairs it must hold.
  template<int Kind>
  class PQ {
  public:
    typedef mathic::PairQueue<Conf<Kind> > Queue;
    typedef typename Queue::Index Index;
    explicit PQ(mc::Ctx& ctx): c(ctx), empties(0) {
      gCtl = &ctl;
      ctl.noRetiredCompute = true;
      std::unique_ptr<Conf<Kind> > conf(new Conf<Kind>(&ctl));
      q.reset(new Queue(*conf));
      for (int i = 0; i < 32; ++i) ctl.retired[i] = false;
    }
    ~PQ() {}
    // Ends the trace: all pair data must be gone with the queue.
    void finish() {
      q.reset();
      mc::checkEq(ctl.liveCount, 0, "pair data that outlive the queue");
      mc::checkEq(ctl.created, ctl.destroyed, "pair data constructed versus destroyed");
    }
    // adds empty columns up to but excluding real index limit
    void pad(size_t limit) {
      Index* null = 0;
      while (q->columnCount() < limit) {q->addColumnDescending(null, null); ++empties;}
    }
    // next column gets a small index; rows are small indices with values, sorted.
    void beginColumn() {
      if (ctl.n >= 32) mc::fail("harness error: too many columns");
      ctl.map[ctl.n] = q->columnCount();
      ++ctl.n;
    }
    template<class It> void call(It b, It e) {q->addColumnDescending(b, e);}
    bool addColumn(const std::vector<std::pair<int, int> >& rows, int iterKind = 0) {
      beginColumn();
      int col = ctl.n - 1;
      std::vector<Index> r;
      std::string text;
      for (size_t i = 0; i < rows.size(); ++i) {
        ctl.value[col][rows[i].first] = rows[i].second;
        r.push_back((Index)ctl.map[rows[i].first]);
        if (c.verbose()) text += " row " + mc::str(ctl.map[rows[i].first]) + " value " + mc::str(rows[i].second);
      }
      if (c.verbose()) c.log("add column " + mc::str(ctl.map[col]) + ":" + text);
      size_t before = q->columnCount();
      bool thrown = false;
      ctl.counting = true;
      try {
        if (iterKind == 0) {
          const Index* p = r.empty() ? 0 : &r[0];
          call(p, p + r.size());
        } else {
          std::vector<size_t> w(r.begin(), r.end());
          call(w.begin(), w.end());
        }
      } catch (const Injected&) {
        thrown = true;
      } catch (const std::bad_alloc&) {
        thrown = true;
      }
      ctl.counting = false;
      if (thrown) {
        if (c.verbose()) c.log("  -> exception");
        mc::checkEq(q->columnCount(), before, "columnCount after addColumn threw");
        --ctl.n;
        return false;
      }
      mc::checkEq(q->columnCount(), before + 1, "columnCount after adding a column");
      for (size_t i = 0; i < rows.size(); ++i) pairs[std::make_pair(col, rows[i].first)] = rows[i].second;
      c.step();
      return true;
    }
    void retire(int index) {
      if (c.verbose()) c.log("retire " + mc::str(ctl.map[index]));
      ctl.retired[index] = true;
      q->retireIndex(ctl.map[index]);
      for (Pairs::iterator it = pairs.begin(); it != pairs.end();) {
        if (it->first.first == index || it->first.second == index) {
          hidden.insert(it->first);
          pairs.erase(it++);
        } else ++it;
      }
      c.step();
    }
    std::pair<int, int> top() {
      std::pair<size_t, size_t> p = q->topPair();
      std::pair<int, int> s(ctl.smallOf(p.first), ctl.smallOf(p.second));
      if (pairs.count(s) == 0) {
        if (ctl.retired[s.first] || ctl.retired[s.second]) mc::fail("the top pair involves a retired index");
        mc::fail("the top pair " + mc::str(p.first) + "," + mc::str(p.second) + " is not in the queue (lost order, or given twice)");
      }
      int best = -1;
      for (Pairs::const_iterator it = pairs.begin(); it != pairs.end(); ++it) best = std::max(best, it->second);
      if (pairs[s] != best) mc::fail("the top pair is not maximal");
      const PD& pd = q->topPairData();
      ctl.need(&pd, "topPairData");
      if (pd.col != s.first || pd.row != s.second || pd.val != pairs[s])
        mc::fail("topPairData is not the data of the top pair");
      c.outcome(mc::mix(p.first * 1000 + p.second, best));
      return s;
    }
    void pop() {
      std::pair<int, int> s = top();
      if (c.verbose()) c.log("pop (" + mc::str(ctl.map[s.first]) + "," + mc::str(ctl.map[s.second]) + ")");
      q->pop();
      pairs.erase(s);
      c.step();
    }
    bool modelEmpty() const {return pairs.empty();}
    // hidden: pairs of retired indices that the queue may still count.
    void observe() {
      if (q->empty() != pairs.empty())
        mc::fail(pairs.empty() ? "not empty though no pair is left" : "empty though pairs are left");
      size_t n = q->pairCount();
      if (n < pairs.size() || n > pairs.size() + hidden.size())
        mc::fail("pairCount " + mc::str(n) + " with " + mc::str(pairs.size()) + " pairs left and " +
          mc::str(hidden.size()) + " retired");
      if (pairs.empty()) mc::checkEq(n, (size_t)0, "pairCount of an empty queue");
      else top();
      mc::checkEq(q->columnCount(), (size_t)ctl.n + empties, "columnCount");
      for (int i = 0; i < ctl.n; ++i)
        if (q->retired(ctl.map[i]) != ctl.retired[i]) mc::fail("retired() is wrong for index " + mc::str(ctl.map[i]));
      uint64_t h = 3;
      for (Pairs::const_iterator it = pairs.begin(); it != pairs.end(); ++it)
        h = mc::mix(h, it->first.first * 10000 + it->first.second * 100 + it->second);
      for (int i = 0; i < ctl.n; ++i) h = mc::mix(h, ctl.retired[i]);
      c.state(h);
    }
    void drain() {
      int last = 1 << 30;
      size_t guard = pairs.size() + 1;
      while (!q->empty()) {
        if (guard-- == 0) mc::fail("more pairs come out than went in");
        std::pair<int, int> s = top();
        if (pairs[s] > last) mc::fail("pairs come out in increasing order");
        last = pairs[s];
        pop();
      }
      mc::check(pairs.empty(), "pairs were lost");
      observe();
    }
    void checkComputedOnce() {
#ifdef MATHIC_DEBUG
      return; // the assertions compute pair data of their own
#endif
      // "The pd value of a pair is computed exactly twice", counting the client's own.
      for (int a = 0; a < ctl.n; ++a) for (int b = 0; b < a; ++b)
        if (ctl.computed[a][b] > 1) mc::fail("pair data computed more than once by the queue");
    }
    typedef std::map<std::pair<int, int>, int> Pairs;
    mc::Ctx& c;
    Ctl ctl;
    std::unique_ptr<Queue> q;
    Pairs pairs;
    std::set<std::pair<int, int> > hidden;
    size_t empties;
  };

  bool byValue(const std::pair<int, int>& a, const std::pair<int, int>& b) {return a.second > b.second;}

  // chooses a column: for each usable row absent or one of V values; ties in two orders.
  template<int K>
  std::vector<std::pair<int, int> > chooseRows(mc::Ctx& c, const PQ<K>& m, int values) {
    std::vector<std::pair<int, int> > rows;
    for (int r = 0; r < m.ctl.n; ++r) {
      if (m.ctl.retired[r]) continue;
      int x = c.choose(values + 1);
      if (x > 0) rows.push_back(std::make_pair(r, x));
    }
    // descending row order among ties
    std::reverse(rows.begin(), rows.end());
    std::stable_sort(rows.begin(), rows.end(), byValue);
    return rows;
  }

  // Histories of adding columns, popping and retiring.
  template<int K>
  void histories(mc::Ctx& c, int depth, int maxCols, int values, bool retire) {
    PQ<K> m(c);
    int len = c.choose(depth + 1);
    for (int i = 0; i < len; ++i) {
      std::vector<int> canRetire;
      if (retire) for (int r = 0; r < m.ctl.n; ++r) if (!m.ctl.retired[r]) canRetire.push_back(r);
      int add = m.ctl.n < maxCols ? 1 : 0;
      int pop = m.modelEmpty() ? 0 : 1;
      int total = add + pop + (int)canRetire.size();
      if (total == 0) break;
      int x = c.choose(total);
      if (x < add) m.addColumn(chooseRows(c, m, values), m.ctl.n % 2);
      else if (x < add + pop) m.pop();
      else m.retire(canRetire[x - add - pop]);
      m.observe();
    }
    bool end = c.flag();
    if (!end) m.drain();
    m.checkComputedOnce();
    m.finish();
  }

  int pat(int p, int i) {
    switch (p) {
    case 0: return i;
    case 1: return 100 - i;
    case 2: return 7;
    case 3: return (i * 7 + 3) % 5;
    default: return (i * 11) % 13;
    }
  }

  // Many columns, so that the tournament tree grows; then a short history.
  template<int K>
  void seeded(mc::Ctx& c, int maxCols, int depth, bool retire) {
    PQ<K> m(c);
    int n = 1 + c.choose(maxCols);
    int p = c.choose(5);
    int rowsPer = 1 + c.choose(3);
    int pops = c.choose(3);
    for (int i = 0; i < n; ++i) {
      std::vector<std::pair<int, int> > rows;
      for (int k = 0; k < rowsPer && k < i; ++k)
        rows.push_back(std::make_pair((i * 3 + k) % i, pat(p, i * 2 + k)));
      // distinct rows
      std::sort(rows.begin(), rows.end());
      for (size_t k = 1; k < rows.size();)
        if (rows[k].first == rows[k - 1].first) rows.erase(rows.begin() + k); else ++k;
      std::stable_sort(rows.begin(), rows.end(), byValue);
      m.addColumn(rows);
      if (pops == 1 && i % 3 == 2 && !m.modelEmpty()) m.pop();
      if (pops == 2 && i % 5 == 4) while (!m.modelEmpty()) m.pop();
    }
    m.observe();
    for (int i = 0; i < depth; ++i) {
      std::vector<int> canRetire;
      if (retire) for (int r = 0; r < m.ctl.n; r += (i == 0 ? 1 : 3)) if (!m.ctl.retired[r]) canRetire.push_back(r);
      int pop = m.modelEmpty() ? 0 : 1;
      int x = c.choose(pop + 1 + (int)canRetire.size());
      if (x < pop) m.pop();
      else if (x == pop) {
        std::vector<std::pair<int, int> > rows;
        for (int r = m.ctl.n - 1, k = 0; r >= 0 && k < 2; --r)
          if (!m.ctl.retired[r]) rows.push_back(std::make_pair(r, 50 - 49 * k++));
        m.addColumn(rows);
      } else m.retire(canRetire[x - pop - 1]);
      m.observe();
    }
    m.drain();
    m.finish();
  }

  // Column and row indices around the largest value of a small index.
  template<int K>
  void bigIndices(mc::Ctx& c, bool retire) {
    PQ<K> m(c);
    static const size_t starts[] = {65533, 65534, 65535, 65536, 65540};
    size_t start = starts[c.choose(5)];
    // columns 0, 1, 2 (with one pair) and then the boundary
    m.addColumn(std::vector<std::pair<int, int> >());
    std::vector<std::pair<int, int> > one(1, std::make_pair(0, 2));
    m.addColumn(one);
    int style = c.choose(3);
    m.pad(start);
    for (int i = 0; i < 4; ++i) {
      std::vector<std::pair<int, int> > rows;
      for (int r = 0; r < m.ctl.n; ++r) {
        int v = style == 0 ? 1 + (r * 5 + i) % 4 : style == 1 ? 10 + r + i : 20 - r - i;
        bool take = i < c.tier(3, 2) ? (i == 1 || (r + i) % 3 != 1) : c.flag();
        if (take) rows.push_back(std::make_pair(r, v));
      }
      std::stable_sort(rows.begin(), rows.end(), byValue);
      m.addColumn(rows, i % 2);
      m.observe();
    }
    if (retire) {
      int x = c.choose(m.ctl.n + 1);
      if (x > 0) {m.retire(x - 1); m.observe();}
    }
    int pops = c.choose(2);
    for (int i = 0; i < pops * 3 && !m.modelEmpty(); ++i) m.pop();
    m.observe();
    m.drain();
    m.finish();
  }

  // Histories of retirements and pops over columns of both widths.
  void bigRetire(mc::Ctx& c, int depth) {
    PQ<0> m(c);
    const size_t start = 65534 + c.choose(2);
    const int style = c.choose(3);
    m.addColumn(std::vector<std::pair<int, int> >());
    m.addColumn(std::vector<std::pair<int, int> >(1, std::make_pair(0, 2)));
    m.pad(start);
    for (int i = 0; i < 3; ++i) {
      std::vector<std::pair<int, int> > rows;
      for (int r = 0; r < m.ctl.n; ++r)
        rows.push_back(std::make_pair(r, style == 0 ? 1 + (r * 5 + i) % 4 : style == 1 ? 10 + r + i : 20 - r - i));
      std::stable_sort(rows.begin(), rows.end(), byValue);
      m.addColumn(rows, i % 2);
    }
    m.observe();
    for (int i = 0; i < depth; ++i) {
      std::vector<int> canRetire;
      for (int r = 0; r < m.ctl.n; ++r) if (!m.ctl.retired[r]) canRetire.push_back(r);
      const int pop = m.modelEmpty() ? 0 : 1;
      const int x = c.choose(pop + (int)canRetire.size() + 1);
      if (x == 0) break;
      if (x <= pop) m.pop();
      else m.retire(canRetire[x - pop - 1]);
      m.observe();
    }
    m.drain();
    m.finish();
  }

  // Every point of failure while a column is added, from many states.
  template<int K>
  void faults(mc::Ctx& c, int maxCols, int maxUser, int maxAlloc) {
    PQ<K> m(c);
    int n = c.choose(maxCols + 1);
    int p = c.choose(4);
    int pops = c.choose(3);
    for (int i = 0; i < n; ++i) {
      std::vector<std::pair<int, int> > rows;
      for (int k = 0; k < 2 && k < i; ++k)
        rows.push_back(std::make_pair((i + k) % i, pat(p, i + k)));
      std::stable_sort(rows.begin(), rows.end(), byValue);
      if (!m.addColumn(rows)) mc::fail("harness error: unexpected exception");
    }
    for (int i = 0; i < pops && !m.modelEmpty(); ++i) m.pop();
    std::vector<std::pair<int, int> > rows;
    int kind = c.choose(3); // value of the new column: low, middle, high
    int count = c.choose(3);
    for (int k = 0; k < count && k < m.ctl.n; ++k)
      rows.push_back(std::make_pair(m.ctl.n - 1 - k, (kind == 0 ? 0 : kind == 1 ? 5 : 200) + 3 - k));
    int attempts = 1 + c.choose(2);
    for (int a = 0; a < attempts; ++a) {
      int x = c.choose(maxUser + maxAlloc);
      if (x < maxUser) {
        m.ctl.userCalls = 0; m.ctl.failUser = x;
        if (c.verbose()) c.log("the user function called as number " + mc::str(x) + " throws");
      } else {
        if (c.verbose()) c.log("allocation number " + mc::str(x - maxUser) + " fails");
      }
      const int data = m.ctl.liveCount;
      bool ok;
      if (x < maxUser) ok = m.addColumn(rows);
      else ok = addWithAllocFailure(m, rows, x - maxUser);
      m.ctl.failUser = -1;
      if (ok) break; // the fault point was not reached
      mc::checkEq(m.ctl.liveCount, data, "pair data existing before and after an addition that failed");
      m.observe();
      c.step();
    }
    int after = c.choose(3);
    if (after >= 1) m.addColumn(rows);
    if (after == 2) {
      for (int i = 0; i < 12; ++i) {
        std::vector<std::pair<int, int> > r1(1, std::make_pair(m.ctl.n - 1, pat(p, i)));
        if (m.ctl.n > 0) m.addColumn(r1);
      }
    }
    m.observe();
    if (after != 0 || c.flag()) m.drain();
    m.finish();
  }

  template<int K>
  bool addWithAllocFailure(PQ<K>& m, const std::vector<std::pair<int, int> >& rows, int k) {
    // prepare everything that allocates beforehand
    typedef typename PQ<K>::Index Index;
    std::vector<Index> r;
    m.beginColumn();
    int col = m.ctl.n - 1;
    for (size_t i = 0; i < rows.size(); ++i) {
      m.ctl.value[col][rows[i].first] = rows[i].second;
      r.push_back((Index)m.ctl.map[rows[i].first]);
    }
    const Index* p = r.empty() ? 0 : &r[0];
    size_t before = m.q->columnCount();
    bool thrown = false;
    mc::failAllocAt(k);
    try {
      m.q->addColumnDescending(p, p + r.size());
    } catch (const std::bad_alloc&) {
      thrown = true;
    }
    mc::failAllocAt(-1);
    if (thrown) {
      m.c.log("  -> exception");
      mc::checkEq(m.q->columnCount(), before, "columnCount after addColumn threw");
      --m.ctl.n;
      return false;
    }
    for (size_t i = 0; i < rows.size(); ++i) m.pairs[std::make_pair(col, rows[i].first)] = rows[i].second;
    return true;
  }
}

namespace {
  // Very many pairs, with a model whose cost per operation does not depend on their number.
  struct LPD {LPD(): col(-1), row(-1), val(-1) {++live();} LPD(const LPD& p): col(p.col), row(p.row), val(p.val) {++live();} ~LPD() {--live();}
    static long& live() {static long n = 0; return n;}
    long col, row, val;
  };
  struct LConf {
    typedef LPD PairData;
    typedef bool CompareResult;
    int pattern; long cols;
    long value(long c, long r) const {
      switch (pattern) {
      case 0: return (long)((c * 2654435761ULL ^ r * 40503ULL) % 1000003); // scrambled
      case 1: return c + r; // many ties
      case 2: return cols * (cols - c) - r;
      default: return r;
      }
    }
    void computePairData(size_t c, size_t r, LPD& p) const {
      if (c <= r) mc::fail("pair data computed for column <= row");
      p.col = c; p.row = r; p.val = value(c, r);
    }
    bool compare(size_t ca, size_t ra, const LPD& a, size_t cb, size_t rb, const LPD& b) const {
      if ((size_t)a.col != ca || (size_t)a.row != ra || (size_t)b.col != cb || (size_t)b.row != rb) mc::fail("compare got pair data of another pair");
      return a.val < b.val;
    }
    bool cmpLessThan(bool b) const {return b;}
  };
  void large(mc::Ctx& c, const std::vector<int>& sizes, bool retire) {
    typedef mathic::PairQueue<LConf> Q;
    LConf conf;
    const int n = sizes[c.choose((int)sizes.size())];
    conf.cols = n;
    conf.pattern = c.choose(4);
    const int sparse = c.choose(2), mode = c.choose(3);
    if (c.verbose()) c.log(mc::str(n) + " columns, " + (sparse ? "a third of the pairs" : "all pairs") + ", pattern " + mc::str(conf.pattern) + ", mode " + mc::str(mode));
    const long before = LPD::live();
    {
      Q q(conf);
      typedef std::set<std::pair<long, std::pair<long, long> > > Model;
      Model m;
      size_t hidden = 0;
      std::vector<bool> gone(n, false);
      struct {
        void operator()(mc::Ctx& c, Q& q, Model& m, const LConf& conf) {
          if (m.empty()) mc::fail("a pair is given though none is left");
          const std::pair<size_t, size_t> t = q.topPair();
          const long v = conf.value(t.first, t.second);
          if (v != m.rbegin()->first) mc::fail("the top pair is not maximal");
          const std::pair<long, std::pair<long, long> > x(v, std::make_pair((long)t.first, (long)t.second));
          if (m.count(x) == 0) mc::fail("the top pair " + mc::str(t.first) + "," + mc::str(t.second) + " is not in the queue");
          const LPD& pd = q.topPairData();
          if ((size_t)pd.col != t.first || (size_t)pd.row != t.second || pd.val != v) mc::fail("topPairData is not the data of the top pair");
          q.pop();
          m.erase(x);
          if (q.empty() != m.empty()) mc::fail(m.empty() ? "not empty though no pair is left" : "empty though pairs are left");
          c.step();
        }
      } pop;
      for (int col = 0; col < n; ++col) {
        std::vector<std::pair<long, Q::Index> > rows;
        for (int r = 0; r < col; ++r) if (!gone[r] && (!sparse || (r + col) % 3 == 0)) {
          rows.push_back(std::make_pair(-conf.value(col, r), (Q::Index)r));
          m.insert(std::make_pair(conf.value(col, r), std::make_pair((long)col, (long)r)));
        }
        std::sort(rows.begin(), rows.end());
        std::vector<Q::Index> v;
        for (auto& x : rows) v.push_back(x.second);
        q.addColumnDescending(v.begin(), v.end());
        if (mode == 1) for (int i = 0; i < col / 3 && !m.empty(); ++i) pop(c, q, m, conf);
        if (retire && mode == 2 && col % 9 == 8) {
          const int i = col / 2; gone[i] = true; q.retireIndex(i);
          for (Model::iterator it = m.begin(); it != m.end();) if (it->second.first == i || it->second.second == i) {++hidden; m.erase(it++);} else ++it;
        }
        mc::checkEq(q.columnCount(), (size_t)col + 1, "columnCount");
        if (q.empty() != m.empty()) mc::fail("empty() is wrong");
        const size_t pc = q.pairCount();
        if (pc < m.size() || pc > m.size() + hidden) mc::fail("pairCount is " + mc::str(pc) + " with " + mc::str(m.size()) + " pairs in the queue");
      }
      if (retire && mode != 1) for (int i = 0; i < n; i += 7) if (!gone[i]) {
        gone[i] = true; q.retireIndex(i);
        for (Model::iterator it = m.begin(); it != m.end();) if (it->second.first == i || it->second.second == i) {++hidden; m.erase(it++);} else ++it;
      }
      for (int i = 0; i < n; ++i) if (q.retired(i) != gone[i]) mc::fail("retired() is wrong for index " + mc::str(i));
      c.state(mc::mix(m.size(), conf.pattern)); c.outcome(m.size());
      size_t left = mode == 0 ? m.size() / 2 : 0;
      while (m.size() > left) {
        pop(c, q, m, conf);
        if (m.size() % 512 == 0) {
          const size_t pc = q.pairCount();
          if (pc < m.size() || pc > m.size() + hidden) mc::fail("pairCount is " + mc::str(pc) + " with " + mc::str(m.size()) + " pairs in the queue");
        }
      }
    }
    mc::checkEq(LPD::live(), before, "pair data that outlive the queue");
  }
}
void mc::registerSuites() {
  mc::add("order/large", [](mc::Ctx& c) {large(c, c.mTier == mc::Quick ? std::vector<int>{40, 130, 400} : std::vector<int>{40, 130, 257, 400, 1000}, false);}, 4);
  mc::add("retire/large", [](mc::Ctx& c) {large(c, c.mTier == mc::Quick ? std::vector<int>{40, 130, 300} : std::vector<int>{40, 130, 257, 400, 600}, true);}, 4);
  mc::add("order/histories", [](mc::Ctx& c) {histories<1>(c, c.tier(10, 12), 4, c.tier(3, 4), false);}, 5);
  mc::add("order/five", [](mc::Ctx& c) {histories<0>(c, c.tier(7, 9), 5, 2, false);}, 6);
  mc::add("order/seeded", [](mc::Ctx& c) {seeded<0>(c, 24, c.tier(3, 6), false);}, 3);
  mc::add("order/seeded-nr", [](mc::Ctx& c) {seeded<1>(c, 24, c.tier(3, 6), false);}, 3);
  mc::add("retire/histories", [](mc::Ctx& c) {histories<0>(c, c.tier(7, 9), 4, 2, true);}, 5);
  mc::add("retire/seeded", [](mc::Ctx& c) {seeded<0>(c, c.tier(12, 20), c.tier(2, 3), true);}, 3);
  mc::add("retire/big", [](mc::Ctx& c) {bigRetire(c, c.tier(4, 5));}, 3);
  mc::add("data/histories", [](mc::Ctx& c) {histories<2>(c, c.tier(7, 9), 4, 2, true);}, 5);
  mc::add("data/seeded", [](mc::Ctx& c) {seeded<2>(c, c.tier(12, 20), c.tier(2, 3), true);}, 3);
  mc::add("data/faults", [](mc::Ctx& c) {faults<0>(c, 18, c.tier(8, 12), c.tier(4, 6));}, 4);
  mc::add("data/faults-custom", [](mc::Ctx& c) {faults<2>(c, 18, c.tier(8, 12), c.tier(4, 6));}, 4);
  mc::add("data/faults-nr", [](mc::Ctx& c) {faults<1>(c, 18, c.tier(8, 12), c.tier(4, 6));}, 4);
  mc::add("big/order", [](mc::Ctx& c) {bigIndices<1>(c, false);}, 3);
  mc::add("big/retire", [](mc::Ctx& c) {bigIndices<2>(c, true);}, 3);
}
