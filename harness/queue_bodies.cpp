#include "queue.h"

// Every input of at most maxN elements up to order isomorphism, then popping all.
void weakOrders(mc::Ctx& c, const QInfo& info, int maxN) {
  Ctl ctl;
  std::unique_ptr<IQ> q(info.make(&ctl));
  int n = 1 + c.choose(maxN);
  // ranks[i] as a canonical insertion: element i goes to an existing class or to a new
  // class between/around existing ones.  classes are kept as sorted list of keys.
  std::vector<int> order; // order[r] = class id, by rank
  std::vector<int> cls;
  std::vector<int> classOf;
  for (int i = 0; i < n; ++i) {
    int k = (int)order.size();
    int x = c.choose(2 * k + 1); // odd: join class x/2; even: new class before rank x/2
    if (x % 2 == 1) classOf.push_back(order[x / 2]);
    else {
      int id = k;
      order.insert(order.begin() + x / 2, id);
      classOf.push_back(id);
    }
  }
  std::vector<long long> rank(order.size());
  for (size_t r = 0; r < order.size(); ++r) rank[order[r]] = (long long)r * 10 - 20;
  Checked m(c, q.get(), &ctl, info.dedup, true);
  m.checkEmpty();
  // singly, all in one range, or the last ones in a range
  const int way = info.unsorted ? c.choose(n > 1 ? 3 : 2) : 0;
  const int single = way == 0 ? n : way == 1 ? 0 : n / 2;
  for (int i = 0; i < single; ++i) m.push(rank[classOf[i]]);
  if (way != 0) {
    std::vector<long long> v;
    for (int i = single; i < n; ++i) v.push_back(rank[classOf[i]]);
    m.pushRange(v);
  }
  m.observe(1);
  m.drain();
}

namespace {
  const int NRanges = 7;
  std::vector<long long> range(int i, bool dedup) {
    static const long long r[NRanges][6] = {
      {0, 0, 0, 0, 0, 0}, {1, 1, 0, 0, 0, 0}, {3, 2, 1, 0, 0, 0}, {2, 2, 0, 0, 0, 0},
      {5, 4, 3, 2, 1, 0}, {2, 1, 1, 0, 0, 0}, {4, 2, 2, 1, 0, 0}};
    if (dedup) {
      if (i == 5) i = 0;
      if (i == 6) i = 3;
    }
    std::vector<long long> v;
    for (int j = 1; j <= r[i][0]; ++j) v.push_back(r[i][j]);
    return v;
  }

  // one operation chosen freely. Returns false if the history is to end.
  bool oneOp(mc::Ctx& c, const QInfo& info, IQ& q, Checked& m, int keys) {
    const bool em = m.modelEmpty();
    const int pops = em ? 0 : 2; // pop, top
    const int dec = em || !q.hasDecreaseTop() ? 0 : 3;
    const int clr = q.hasClear() ? 1 : 0;
    const int rng = info.range ? (info.dedup ? NRanges - 2 : NRanges) : 0;
    int x = c.choose(keys + pops + dec + clr + rng + (info.unsorted ? 1 : 0));
    if (x < keys) {m.push(x); return true;}
    x -= keys;
    if (x < pops) {if (x == 0) m.pop(); else m.top(); return true;}
    x -= pops;
    if (x < dec) {m.decreaseTop(m.maxKey() - x); return true;}
    x -= dec;
    if (x < clr) {m.clear(); return true;}
    x -= clr;
    if (x == rng) {
      static const long long r[] = {1, 2, 0, 2, 1};
      m.pushRange(std::vector<long long>(r, r + 5));
    } else m.pushRange(range(x, info.dedup));
    return true;
  }
}

// Every history of the given length over a small alphabet.
void histories(mc::Ctx& c, const QInfo& info, int depth) {
  Ctl ctl;
  std::unique_ptr<IQ> q(info.make(&ctl));
  int len = c.choose(depth + 1);
  Checked m(c, q.get(), &ctl, info.dedup, true);
  m.observe();
  for (int i = 0; i < len; ++i) {
    oneOp(c, info, *q, m, 3);
    m.checkEmpty();
  }
  // every prefix is a history of its own, so the last state is all there is to look at
  m.observe(2);
  m.drain();
  // still usable when empty
  m.push(1);
  m.observe();
  m.drain();
}

namespace {
  long long pattern(int p, int i, int n) {
    switch (p) {
    case 0: return i; // ascending
    case 1: return -i; // descending
    case 2: return 5; // equal
    case 3: return i < n / 2 ? i : n - i; // up and down
    case 4: return (long long)(splitmix(i * 7919 + n) % 5); // many ties
    case 5: return (long long)(splitmix(i * 104729 + n) % 1000); // scrambled
    default: return i % 2 == 0 ? i : -i;
    }
  }
}

// Large states first, then every short history from there.
void seeded(mc::Ctx& c, const QInfo& info, const std::vector<int>& sizes, int depth) {
  Ctl ctl;
  std::unique_ptr<IQ> q(info.make(&ctl));
  int n = sizes[c.choose((int)sizes.size())];
  int p = c.choose(7);
  int rangeFill = info.range ? c.choose(info.unsorted ? 3 : 2) : 0;
  Checked m(c, q.get(), &ctl, info.dedup, false);
  if (rangeFill) {
    // the pattern in two halves, sorted in decreasing order where that is required
    for (int half = 0; half < 2; ++half) {
      std::vector<long long> v;
      for (int i = half; i < n; i += 2) v.push_back(pattern(p, i, n));
      if (rangeFill == 1) {
        std::sort(v.begin(), v.end(), std::greater<long long>());
        if (info.dedup) v.erase(std::unique(v.begin(), v.end()), v.end());
      }
      m.pushRange(v);
    }
  } else {
    for (int i = 0; i < n; ++i) m.push(pattern(p, i, n));
  }
  m.observe(n / 2 + 1);
  for (int i = 0; i < depth; ++i) {
    const bool em = m.modelEmpty();
    const long long top = em ? 0 : m.maxKey();
    const long long low = em ? 0 : m.keys().begin()->first;
    const long long mid = em ? 0 : (top + low) / 2;
    int x = c.choose(em ? 4 : 11);
    switch (x) {
    case 0: m.push(top + 1); break;
    case 1: m.push(low - 1); break;
    case 2: m.push(mid); break;
    case 3: if (q->hasClear()) m.clear(); break;
    case 4: m.push(top); break;
    case 5: m.pop(); break;
    case 6: m.top(); break;
    case 7: if (q->hasDecreaseTop()) m.decreaseTop(top); break;
    case 8: if (q->hasDecreaseTop()) m.decreaseTop(mid); break;
    case 9: if (q->hasDecreaseTop()) m.decreaseTop(low - 1); break;
    case 10: {
      std::vector<long long> v;
      v.push_back(top + 2); v.push_back(top); if (mid != top) v.push_back(mid);
      if (low != mid) v.push_back(low);
      m.pushRange(v);
      break;
    }
    }
    m.observe(3);
  }
  m.drain();
}

// Rounds of filling and partly emptying (or clearing) the same queue.
void reuse(mc::Ctx& c, const QInfo& info, int rounds, int n) {
  Ctl ctl;
  std::unique_ptr<IQ> q(info.make(&ctl));
  Checked m(c, q.get(), &ctl, info.dedup, true);
  for (int r = 0; r < rounds; ++r) {
    int fill = c.choose(n + 1);
    int p = c.choose(5);
    for (int i = 0; i < fill; ++i) m.push(pattern(p, i, fill) + r);
    int how = c.choose(4);
    if (how == 0) {
      if (q->hasClear()) m.clear();
      else m.drain();
    } else if (how == 1) m.drain();
    else if (how == 2) {
      for (int i = 0; i < fill / 2 && !m.modelEmpty(); ++i) m.pop();
    } else if (!m.modelEmpty() && q->hasDecreaseTop()) m.decreaseTop(m.maxKey() - 2);
    m.observe(1);
  }
  m.drain();
}

// From every size up to maxFill, pushes that fail at each possible comparison or
// allocation. A push that throws must have left the queue as it was.
void faults(mc::Ctx& c, const QInfo& info, int maxFill, int rounds) {
  Ctl ctl;
  std::unique_ptr<IQ> q(info.make(&ctl));
  Checked m(c, q.get(), &ctl, info.dedup, true);
  const int fill = c.choose(maxFill + 1);
  const int p = c.choose(5);
  for (int i = 0; i < fill; ++i) m.push(pattern(p, i, fill) * 2);
  const int pops = fill == 0 ? 0 : c.choose(2);
  if (pops) m.pop();
  for (int r = 0; r < rounds; ++r) {
    const long long top = m.modelEmpty() ? 0 : m.maxKey();
    const long long low = m.modelEmpty() ? 0 : m.keys().begin()->first;
    const int which = c.choose(3);
    const long long key = which == 0 ? top + 1 : which == 1 ? low - 1 : (top + low) / 2;
    const int kind = c.choose(2);
    const int at = c.choose(kind == 0 ? 7 : 4);
    const bool refused = kind == 0 ? m.pushFailing(key, at, -1) : m.pushFailing(key, -1, at);
    m.observe();
    if (!m.modelEmpty()) m.top();
    if (refused) {
      const int then = c.choose(3);
      if (then == 1) m.push(key); // try again
      else if (then == 2 && !m.modelEmpty()) m.pop();
    }
  }
  const int after = c.choose(3);
  for (int i = 0; i < after * 2; ++i) m.push(i);
  m.drain();
  m.push(1);
  m.drain();
}

namespace {
  // What a queue of very many entries must contain, at a cost per operation that does not
  // depend on how many there are: the number of entries of each key and the sum of their
  // weights. Without merging, the weight of an entry is the number of its push plus one, and
  // each is known to be in the queue or not.
  class Light {
  public:
    Light(mc::Ctx& c, IQ* q, Ctl* ctl, bool dedup): mCtx(c), mQ(q), mCtl(ctl), mDedup(dedup), mPushed(0), mPopped(0) {
      mIn.push_back(false);
      ctl->disjoint = false;
      ctl->dedups = 0;
    }
    size_t live() const {return mPushed - mPopped - mCtl->dedups;}
    bool isEmpty() const {return mOf.empty();}
    long long maxKey() const {return mOf.rbegin()->first;}
    E fresh(long long key) {
      E e; e.key = key; e.w = mIn.size();
      mIn.push_back(true); mKey.resize(mIn.size()); mKey.back() = key;
      if (mDedup) e.w = splitmix(e.w) | 1;
      return e;
    }
    void push(long long key) {
      E e = fresh(key);
      mQ->push(e);
      add(e);
    }
    void pushRange(std::vector<long long> keys, bool sorted = true) {
      if (sorted) std::sort(keys.begin(), keys.end(), std::greater<long long>());
      if (mDedup && sorted) keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
      std::vector<E> v;
      for (size_t i = 0; i < keys.size(); ++i) v.push_back(fresh(keys[i]));
      mQ->pushRange(v);
      for (size_t i = 0; i < v.size(); ++i) add(v[i]);
    }
    E top() {
      E e = mQ->top();
      present(e, "top");
      return e;
    }
    void pop() {
      const bool look = mPopped % 16 == 0;
      E t; if (look) t = top();
      E e = mQ->pop();
      present(e, "pop");
      if (look && (t.key != e.key || t.w != e.w)) mc::fail("pop returned another entry than top did just before");
      remove(e);
    }
    void decreaseTop(long long key) {
      E old = top();
      E e = fresh(key);
      mQ->decreaseTop(e);
      remove(old);
      add(e);
    }
    void clear() {
      mQ->clear();
      mOf.clear(); mIn.assign(mIn.size(), false);
      mPushed = mPopped = 0; mCtl->dedups = 0;
      cheap();
    }
    void cheap() {
      if (mQ->empty() != isEmpty()) mc::fail("empty() is " + mc::str(!isEmpty()) + " for a queue of " + mc::str(live()) + " entries");
      if (mQ->hasSize()) mc::checkEq(mQ->size(), live(), "size");
    }
    void observe() {
      cheap();
      if (!mQ->hasForAll()) return;
      Visitor v;
      mQ->forAll(v);
      mc::checkEq(v.seen.size(), live(), "number of entries forAll visits");
      std::map<long long, unsigned long long> got;
      std::vector<bool> seen(mIn.size(), false);
      for (size_t i = 0; i < v.seen.size(); ++i) {
        got[v.seen[i].key] += v.seen[i].w;
        if (mDedup) continue;
        const unsigned long long w = v.seen[i].w;
        if (w >= mIn.size() || !mIn[w] || mKey[w] != v.seen[i].key) mc::fail("forAll visited an entry that is not in the queue");
        if (seen[w]) mc::fail("forAll visited an entry twice");
        seen[w] = true;
      }
      if (got.size() != mOf.size()) mc::fail("forAll did not visit each key");
      for (auto& k : mOf) if (got[k.first] != k.second.sum) mc::fail("the entries forAll visits are not those pushed and not yet popped");
      const size_t half = live() / 2;
      if (half >= 1) {
        Visitor s; s.limit = half;
        mQ->forAll(s);
        mc::checkEq(s.calls, half, "number of entries forAll visited until told to stop");
      }
      record();
    }
    void drain(size_t downTo = 0) {
      while (!isEmpty() && live() > downTo) {
        if (mQ->empty()) mc::fail("the queue is empty before every entry has been popped");
        pop();
      }
      if (downTo == 0) {
        mc::check(mQ->empty(), "the queue yields more entries than were pushed");
        mc::checkEq(live(), (size_t)0, "entries pushed minus popped minus merged");
      }
      cheap();
      record();
    }
    void record() {
      mCtx.state(mc::mix(mc::mix(mOf.size(), live()), isEmpty() ? 0 : mc::mix(maxKey(), mOf.rbegin()->second.sum)));
      mCtx.outcome(live());
    }

  private:
    struct Of {Of(): count(0), sum(0) {} long count; unsigned long long sum;};
    void add(const E& e) {
      ++mPushed;
      Of& o = mOf[e.key]; ++o.count; o.sum += e.w;
      mCtx.step();
    }
    void present(const E& e, const char* what) {
      if (e.key != maxKey())
        mc::fail(std::string(what) + " gave key " + mc::str(e.key) + " but the largest is " + mc::str(maxKey()));
      if (!mDedup && (e.w >= mIn.size() || !mIn[e.w] || mKey[e.w] != e.key))
        mc::fail(std::string(what) + " gave an entry that is not in the queue (lost or returned twice)");
    }
    void remove(const E& e) {
      ++mPopped;
      mCtx.step();
      if (!mDedup) mIn[e.w] = false;
      Of& o = mOf[e.key];
      o.sum -= e.w;
      if (mDedup ? o.sum == 0 : --o.count == 0) mOf.erase(e.key);
    }
    mc::Ctx& mCtx;
    IQ* mQ;
    Ctl* mCtl;
    bool mDedup;
    size_t mPushed, mPopped;
    std::vector<bool> mIn; // by number, with no merging
    std::vector<long long> mKey;
    std::map<long long, Of> mOf;
  };

  long long largeKey(int p, int i, int n) {
    switch (p) {
    case 0: return (long long)(splitmix(i * 104729ULL + n) % (4 * (unsigned)n)); // scrambled
    case 1: return i; // ascending
    case 2: return -i; // descending
    case 3: return (long long)(splitmix(i * 7919ULL + n) % 40); // many ties
    default: return i % 2 == 0 ? i : -i;
    }
  }
}

// Very many entries: ways of filling, and of emptying.
void large(mc::Ctx& c, const QInfo& info, const std::vector<int>& sizes, int patterns) {
  Ctl ctl;
  std::unique_ptr<IQ> q(info.make(&ctl));
  Light m(c, q.get(), &ctl, info.dedup);
  const int n = sizes[c.choose((int)sizes.size())];
  const int p = c.choose(patterns);
  const int fill = c.choose(info.unsorted ? 4 : info.range ? 3 : 1);
  const int how = c.choose(5);
  if (c.verbose()) c.log(mc::str(n) + " entries of pattern " + mc::str(p) + (fill == 0 ? " singly" : fill == 1 ? " in one range" : fill == 3 ? " in one unsorted range" : " in ranges of up to 100") + ", then mode " + mc::str(how));
  if (fill == 0) {
    for (int i = 0; i < n; ++i) {
      m.push(largeKey(p, i, n));
      if (i % 64 == 0) m.cheap();
      if (how == 4 && i % 3 == 2) m.pop();
    }
  } else {
    std::vector<long long> v;
    for (int i = 0, r = 0; i < n; ++i) {
      v.push_back(largeKey(p, i, n));
      if (fill == 2 && (int)v.size() > (r * 37) % 100) {
        m.pushRange(v); v.clear(); ++r; m.cheap();
        if (how == 4) m.pop();
      }
    }
    if (!v.empty()) m.pushRange(v, fill != 3);
  }
  m.observe();
  if (how == 1) {
    m.drain(m.live() / 2);
    m.observe();
    for (int i = 0; i < n / 2; ++i) m.push(largeKey((p + 1) % patterns, i, n) - n / 4);
    m.observe();
  } else if (how == 2 && q->hasDecreaseTop()) {
    // decrease, also to what the key is already
    for (int i = 0; i < n && !m.isEmpty(); ++i) m.decreaseTop(m.maxKey() - (long long)(splitmix(i) % (n / 2)));
    m.observe();
  } else if (how == 3) {
    if (q->hasClear()) m.clear(); else m.drain();
    for (int i = 0; i < n; ++i) m.push(largeKey((p + 1) % patterns, i, n));
    m.observe();
  }
  m.drain();
  m.push(1);
  m.observe();
  m.drain();
}
