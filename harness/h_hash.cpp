// HashTable against std::map under several hash functions and initial sizes.
#include "mathic/HashTable.h"
#include "mc.h"
#include <map>
#include <string>
namespace {
  size_t hashOf(int kind, size_t x) {
    switch (kind) {
    case 0: return x;
    case 1: return 0;
    case 2: return x % 2;
    case 3: return x << 8;
    case 4: return x * 0x9e3779b97f4a7c15ULL;
    case 5: return ~(size_t)0 - x;
    default: return x / 3;
    }
  }
  const int Kinds = 7;
  struct IntConf {
    typedef int Key; typedef int Value;
    int kind;
    size_t hash(int k) {return hashOf(kind, (size_t)k);}
    bool keysEqual(int a, int b) {return a == b;}
    static int key(int i) {return i;}
    static int num(int k) {return k;}
  };
  struct StrConf {
    typedef const char* Key; typedef std::pair<long long, long long> Value;
    int kind;
    size_t hash(const char* k) const {return hashOf(kind, (size_t)num(k));}
    bool keysEqual(const char* a, const char* b) const {return std::string(a) == b;}
    static const char* key(int i) {
      // equal keys at different addresses
      static char buf[4][1024][8];
      static int turn = 0;
      turn = (turn + 1) % 4;
      char* b = buf[turn][i];
      snprintf(b, 8, "k%d", i);
      return b;
    }
    static int num(const char* k) {return atoi(k + 1);}
  };
  template<class V> struct Val;
  template<> struct Val<int> {static int make(int x) {return x;}};
  template<> struct Val<std::pair<long long, long long> > {
    static std::pair<long long, long long> make(int x) {return std::make_pair((long long)x, (long long)-x);}};

  template<class C> struct Checked {
    typedef mathic::HashTable<C> T;
    typedef typename T::Handle H;
    mc::Ctx& c;
    T t;
    std::map<int, std::pair<int, H*> > m;
    int universe, serial;
    Checked(mc::Ctx& c, const C& conf, unsigned bits, int universe): c(c), t(conf, bits), universe(universe), serial(0) {
      mc::check(t.name() == "HashTable", "name");
      mc::checkEq(t.configuration().kind, conf.kind, "configuration");
    }
    void insert(int k) {
      const int v = ++serial;
      std::pair<bool, H*> r = t.insert(C::key(k), Val<typename C::Value>::make(v));
      if (c.verbose()) c.log("insert " + mc::str(k) + " value " + mc::str(v));
      const bool fresh = m.find(k) == m.end();
      mc::checkEq(r.first, fresh, "insert says whether the key was new");
      mc::check(r.second != 0, "insert returned no handle");
      if (fresh) m[k] = std::make_pair(v, r.second);
      else if (r.second != m[k].second) mc::fail("insert of a present key returned another handle");
      done();
    }
    void lookup(int k) {
      H* h = t.lookup(C::key(k));
      auto it = m.find(k);
      if ((h != 0) != (it != m.end())) mc::fail("lookup of " + mc::str(k) + (h ? " found a key that is not there" : " does not find the key"));
      if (!h) return;
      if (h != it->second.second) mc::fail("lookup of " + mc::str(k) + ": the handle has changed");
      mc::checkEq(C::num(h->key()), k, "key of the handle");
      const H* ch = h;
      if (!(ch->value() == Val<typename C::Value>::make(it->second.first))) mc::fail("value of " + mc::str(k) + " is wrong");
    }
    void remove(int k) {
      if (c.verbose()) c.log("remove " + mc::str(k));
      H* h = t.lookup(C::key(k));
      mc::check(h != 0, "key to remove is not found");
      t.remove(h);
      m.erase(k);
      done();
    }
    void modify(int k) {
      const int v = ++serial;
      if (c.verbose()) c.log("modify " + mc::str(k));
      H* h = t.lookup(C::key(k));
      mc::check(h != 0, "key to modify is not found");
      h->value() = Val<typename C::Value>::make(v);
      m[k].first = v;
      done();
    }
    void hardReset() {c.log("hardReset"); t.hardReset(); m.clear(); done();}
    void removeAllAndReset() {
      c.log("remove all and reset");
      while (!m.empty()) remove(c.mTier == mc::Quick || m.size() % 2 ? m.begin()->first : m.rbegin()->first);
      t.reset();
      done();
    }
    void done() {
      c.step();
      uint64_t h = 5;
      for (auto& x : m) h = mc::mix(h, mc::mix(x.first, x.second.first));
      c.state(h);
    }
    void observe() {
      for (int k = 0; k < universe; ++k) lookup(k);
      if (t.memoryUse() < m.size() * sizeof(H)) mc::fail("memoryUse is less than the nodes use");
      c.outcome(m.size());
    }
  };
  template<class C> void histories(mc::Ctx& c, int depth, int keys) {
    C conf; conf.kind = c.choose(Kinds);
    const unsigned bits[] = {0, 1, 2, 4, 5};
    const unsigned b = bits[c.choose(5)];
    if (c.verbose()) c.log("hash function " + mc::str(conf.kind) + " bits " + mc::str(b));
    Checked<C> t(c, conf, b, keys + 1);
    t.observe();
    for (int i = 0; i < depth; ++i) {
      int x = c.choose(keys * 2 + 3);
      if (x < keys) t.insert(x);
      else if (x < 2 * keys) {
        x -= keys;
        if (t.m.count(x)) t.remove(x); else {t.lookup(x); return;}
      } else if (x == 2 * keys) {if (t.m.empty()) return; t.modify(t.m.rbegin()->first);}
      else if (x == 2 * keys + 1) t.hardReset();
      else t.removeAllAndReset();
      t.observe();
    }
  }
  template<class C> void growing(mc::Ctx& c, int depth) {
    C conf; conf.kind = c.choose(Kinds);
    const unsigned bits[] = {0, 1, 3, 5, 10};
    const unsigned b = bits[c.choose(5)];
    const int sizes[] = {2, 3, 5, 7, 13, 26, 30, 52, 103, 110, 210, 410};
    const int n = sizes[c.choose(c.tier(10, 12))];
    if (c.verbose()) c.log("hash function " + mc::str(conf.kind) + " bits " + mc::str(b) + " keys " + mc::str(n));
    Checked<C> t(c, conf, b, n + 3);
    const int order = c.choose(3);
    for (int i = 0; i < n; ++i) {
      t.insert(order == 0 ? i : order == 1 ? n - 1 - i : (i * 7) % n == 0 ? i : (n - i));
      if (order == 2 && i % 3 == 2) t.remove(t.m.begin()->first);
    }
    t.observe();
    for (int i = 0; i < depth; ++i) {
      const int x = c.choose(7);
      if (t.m.empty() && x > 1) break;
      switch (x) {
      case 0: t.hardReset(); break;
      case 1: t.insert(n); t.insert(n + 1); break;
      case 2: t.remove(t.m.begin()->first); break;
      case 3: t.remove(t.m.rbegin()->first); break;
      case 4: t.removeAllAndReset(); break;
      case 5: t.modify(std::next(t.m.begin(), t.m.size() / 2)->first); break;
      case 6: t.insert(t.m.begin()->first); break;
      }
      t.observe();
    }
    // and it can be filled again
    for (int i = 0; i < n; i += 2) t.insert(i);
    t.observe();
  }
  // Very many keys, at a cost per operation that does not depend on how many there are.
  void large(mc::Ctx& c) {
    typedef mathic::HashTable<IntConf> T;
    IntConf conf;
    static const int K[] = {0, 4, 5, 6};
    conf.kind = K[c.choose(4)];
    static const unsigned B[] = {0, 10, 16};
    const unsigned bits = B[c.choose(3)];
    static const int N[] = {300, 1030, 5000, 33000, 70000, 140000, 600000};
    const int n = N[c.choose(c.tier(5, 7))];
    const int order = c.choose(3), mode = c.choose(3);
    if (c.verbose()) c.log("hash function " + mc::str(conf.kind) + " bits " + mc::str(bits) + " keys " + mc::str(n) + " order " + mc::str(order) + " mode " + mc::str(mode));
    T t(conf, bits);
    std::vector<T::Handle*> h(n + 10, (T::Handle*)0);
    std::vector<int> value(n + 10, 0);
    int serial = 0;
    struct {
      void operator()(T& t, std::vector<T::Handle*>& h, std::vector<int>& value) {
        for (size_t k = 0; k < h.size(); ++k) {
          T::Handle* got = t.lookup((int)k);
          if (got != h[k]) mc::fail("lookup of " + mc::str(k) + (got == 0 ? " does not find the key" : h[k] == 0 ? " found a key that is not there" : " gives another handle"));
          if (got != 0 && (got->key() != (int)k || got->value() != value[k])) mc::fail("key or value of " + mc::str(k) + " is wrong");
        }
      }
    } all;
    for (int round = 0; round < 2; ++round) {
      for (int i = 0; i < n; ++i) {
        const int k = order == 0 ? i : order == 1 ? n - 1 - i : (int)((long long)i * 7919 % n);
        std::pair<bool, T::Handle*> r = t.insert(k, ++serial);
        if (r.first != (h[k] == 0)) mc::fail("insert of " + mc::str(k) + " says wrongly whether the key was new");
        if (r.first) {h[k] = r.second; value[k] = serial;}
        else if (r.second != h[k]) mc::fail("insert of a present key gives another handle");
        c.step();
      }
      all(t, h, value);
      c.state(mc::mix(n, mode * 2 + round)); c.outcome(mc::mix(n, mode));
      if (mode == 0) {t.hardReset(); h.assign(h.size(), (T::Handle*)0);}
      else for (int i = 0; i < n; i += mode) {
        const int k = order == 1 ? n - 1 - i : i;
        if (h[k] == 0) continue;
        t.remove(h[k]); h[k] = 0; c.step();
      }
      all(t, h, value);
      if (mode == 1) {t.reset(); all(t, h, value);}
    }
  }
}
void mc::registerSuites() {
  mc::add("hash/large", [](mc::Ctx& c) {large(c);}, 5);
  mc::add("hash/int histories", [](mc::Ctx& c) {histories<IntConf>(c, c.tier(6, 7), 4);}, 3);
  mc::add("hash/pointer histories", [](mc::Ctx& c) {histories<StrConf>(c, c.tier(5, 6), 4);}, 3);
  mc::add("hash/int growing", [](mc::Ctx& c) {growing<IntConf>(c, c.tier(3, 4));}, 3);
  mc::add("hash/pointer growing", [](mc::Ctx& c) {growing<StrConf>(c, c.tier(2, 3));}, 3);
}
