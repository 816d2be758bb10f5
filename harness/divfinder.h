// Uniform access to the divisor finders for the model checker.
#ifndef VERIF_DIVFINDER_H
#define VERIF_DIVFINDER_H
#include "mc.h"
#include <vector>
#include <string>
#include <memory>
#include <algorithm>
#include <stdexcept>
#include <iterator>
#include "mathic/stdinc.h"

// Objects with a checked lifetime.
struct Life {
  Life(): magic(Alive) {++live();}
  Life(const Life& o): magic(Alive) {o.use("copied"); ++live();}
  Life& operator=(const Life& o) {use("assigned to"); o.use("assigned from"); return *this;}
  ~Life() {use("destructed"); magic = Dead; --live();}
  void use(const char* how) const {
    if (magic != Alive)
      mc::fail(std::string("an entry that is not alive was ") + how);
  }
  static long& live() {static long n = 0; return n;}
  enum : unsigned {Alive = 0x5ca1ab1e, Dead = 0xdeadbeef};
  unsigned magic;
};

// Monomials as the harness talks about them.
typedef std::vector<long long> Exps;
inline std::string show(const Exps& e) {
  if (e.size() <= 4) return mc::list(e);
  return mc::list(Exps(e.begin(), e.begin() + 4)) + "..";
}

template<class Exponent, size_t MaxVars>
struct MonoT {
  Exponent e[MaxVars];
};
template<class Exponent, size_t MaxVars>
struct EntryT : public Life {
  EntryT(): id(-1), payload(0) {}
  MonoT<Exponent, MaxVars> m;
  int id;
  int payload;
};

// The total orders that entries can be sorted by: lexicographic (0), and degree first and then
// reverse lexicographic (1), in which the first variable does not say where an entry belongs.
template<class A, class B> inline bool isLess(int order, const A& a, const B& b, size_t vars) {
  if (order == 1) {
    long long da = 0, db = 0;
    for (size_t i = 0; i < vars; ++i) {da += a[i]; db += b[i];}
    if (da != db) return da < db;
    for (size_t i = vars; i-- > 0;) if (a[i] < b[i] || b[i] < a[i]) return b[i] < a[i];
    return false;
  }
  for (size_t i = 0; i < vars; ++i) if (a[i] < b[i] || b[i] < a[i]) return a[i] < b[i];
  return false;
}

// runtime part of a configuration
struct DfParams {
  DfParams(): vars(2), sort(false), order(0), cache(false), rebuilds(false), ratio(0.5), minRebuild(1) {}
  size_t vars;
  bool sort;
  int order; // which total order entries are sorted by, see isLess
  bool cache;
  bool rebuilds;
  double ratio;
  size_t minRebuild;
};

template<class Exp, size_t MaxVars>
struct DfConf {
  typedef Exp Exponent;
  typedef MonoT<Exp, MaxVars> Monomial;
  typedef EntryT<Exp, MaxVars> Entry;
  explicit DfConf(const DfParams& p): p(p) {}

  static const Monomial& mono(const Monomial& m) {return m;}
  static const Monomial& mono(const Entry& e) {e.use("used"); return e.m;}
  template<class T> Exponent getExponent(const T& t, size_t var) const {
    if (var >= p.vars) mc::fail("asked for the exponent of a variable that does not exist");
    return mono(t).e[var];
  }
  template<class A, class B> bool divides(const A& a, const B& b) const {
    const Monomial& x = mono(a); const Monomial& y = mono(b);
    for (size_t i = 0; i < p.vars; ++i) if (y.e[i] < x.e[i]) return false;
    return true;
  }
  template<class A, class B> bool isLessThan(const A& a, const B& b) const {
    return isLess(p.order, mono(a).e, mono(b).e, p.vars);
  }
  size_t getVarCount() const {return p.vars;}
  bool getSortOnInsert() const {return p.sort;}
  bool getUseDivisorCache() const {return p.cache;}
  bool getDoAutomaticRebuilds() const {return p.rebuilds;}
  bool getUseAutomaticRebuild() const {return p.rebuilds;}
  double getRebuildRatio() const {return p.ratio;}
  size_t getRebuildMin() const {return p.minRebuild;}
  DfParams p;
};

struct Item {
  Exps e; int id; int payload;
};
inline Item item(const Exps& e, int id, int payload) {Item i; i.e = e; i.id = id; i.payload = payload; return i;}

// Output object of the searches.
struct Sink {
  explicit Sink(size_t limit = (size_t)-1): limit(limit), calls(0), afterStop(false), setPayload(-1) {}
  size_t limit, calls;
  bool afterStop;
  int setPayload; // if >= 0, write this into the (non-const) entries
  std::vector<Item> seen;
};

class IDF {
public:
  virtual ~IDF() {}
  virtual void insert(const Item&) = 0;
  virtual void insertRange(const std::vector<Item>&, int iterKind) = 0;
  virtual bool removeMultiples(const Exps&, std::vector<Item>* out) = 0;
  virtual bool removeElement(const Exps&) = 0;
  virtual bool findDivisor(const Exps&, bool viaConst, Item& result, int setPayload) = 0;
  virtual void findAllDivisors(const Exps&, bool viaConst, Sink&) = 0;
  virtual void findAllMultiples(const Exps&, bool viaConst, Sink&) = 0;
  virtual void forAll(bool viaConst, Sink&) = 0;
  virtual void rebuild() = 0;
  virtual bool isList() = 0;
  virtual void clear() {}
  virtual size_t size() = 0;
  virtual bool empty() = 0;
  virtual size_t memory() = 0;
  virtual std::string name() = 0;
  // lists only
  virtual void iterate(bool viaConst, std::vector<Item>& out, bool backwards) {}
  virtual bool findDivisorIterator(const Exps&, Item& result, bool thenMoveToFront) {return false;}
  virtual void moveToFront(size_t pos) {}
};

template<class Conf, class Finder>
class DfBase : public IDF {
public:
  typedef typename Conf::Entry Entry;
  typedef typename Conf::Monomial Monomial;
  typedef typename Conf::Exponent Exponent;
  explicit DfBase(const DfParams& p): vars(p.vars) {
    // the configuration given to the constructor is gone afterwards
    std::unique_ptr<Conf> c(new Conf(p));
    f.reset(new Finder(*c));
  }
  Monomial toMono(const Exps& e) const {
    Monomial m;
    for (size_t i = 0; i < vars; ++i) m.e[i] = (Exponent)e[i];
    return m;
  }
  Entry toEntry(const Item& i) const {
    Entry e; e.m = toMono(i.e); e.id = i.id; e.payload = i.payload; return e;
  }
  Item fromEntry(const Entry& e) const {
    e.use("given out");
    Exps x(vars);
    for (size_t i = 0; i < vars; ++i) x[i] = (long long)e.m.e[i];
    return item(x, e.id, e.payload);
  }
  void insert(const Item& i) override {f->insert(toEntry(i));}
  void insertRange(const std::vector<Item>& v, int iterKind) override {
    std::vector<Entry> es;
    for (size_t i = 0; i < v.size(); ++i) es.push_back(toEntry(v[i]));
    if (iterKind == 0) f->insert(es.begin(), es.end());
    else f->insert(es.data(), es.data() + es.size());
  }
  struct Collect {
    Collect(const DfBase& b, std::vector<Item>& out): b(b), out(out) {}
    void push_back(const Entry& e) {out.push_back(b.fromEntry(e));}
    const DfBase& b; std::vector<Item>& out;
  };
  bool findDivisor(const Exps& m, bool viaConst, Item& result, int setPayload) override {
    const Monomial mono = toMono(m);
    if (viaConst) {
      const Finder& cf = *f;
      const Entry* e = cf.findDivisor(mono);
      if (e == 0) return false;
      result = fromEntry(*e);
    } else {
      Entry* e = f->findDivisor(mono);
      if (e == 0) return false;
      result = fromEntry(*e);
      if (setPayload >= 0) e->payload = setPayload;
    }
    return true;
  }
  struct Fwd {
    Fwd(const DfBase& b, Sink& s): b(b), s(s) {}
    bool go(const Entry& e) {
      ++s.calls;
      if (s.calls > s.limit) s.afterStop = true;
      s.seen.push_back(b.fromEntry(e));
      return s.calls < s.limit;
    }
    bool proceed(const Entry& e) {return go(e);}
    bool proceed(Entry& e) {
      if (s.setPayload >= 0) e.payload = s.setPayload;
      return go(e);
    }
    const DfBase& b; Sink& s;
  };
  void findAllDivisors(const Exps& m, bool viaConst, Sink& s) override {
    const Monomial mono = toMono(m); Fwd w(*this, s);
    if (viaConst) {const Finder& cf = *f; cf.findAllDivisors(mono, w);}
    else f->findAllDivisors(mono, w);
  }
  void findAllMultiples(const Exps& m, bool viaConst, Sink& s) override {
    const Monomial mono = toMono(m); Fwd w(*this, s);
    if (viaConst) {const Finder& cf = *f; cf.findAllMultiples(mono, w);}
    else f->findAllMultiples(mono, w);
  }
  void forAll(bool viaConst, Sink& s) override {
    Fwd w(*this, s);
    if (viaConst) {const Finder& cf = *f; cf.forAll(w);}
    else f->forAll(w);
  }
  void rebuild() override {f->rebuild();}
  size_t size() override {const Finder& cf = *f; return cf.size();}
  bool empty() override {const Finder& cf = *f; return cf.empty();}
  size_t memory() override {const Finder& cf = *f; return cf.getMemoryUse();}
  std::string name() override {const Finder& cf = *f; return cf.getName();}
protected:
  size_t vars;
  std::unique_ptr<Finder> f;
};

// A way to build one kind of finder.
struct DfKind {
  std::string name;
  std::function<IDF*(const DfParams&)> make;
  bool list;
  bool packed;
  size_t leaf; // for trees: most entries with equal exponents
  bool removals;
  bool masks;
};
void addLists(std::vector<DfKind>&);       // int exponents, up to 4 variables
void addListsMany(std::vector<DfKind>&);   // unsigned char exponents, up to 40 variables
void addTreesB0(std::vector<DfKind>&);
void addTreesB1(std::vector<DfKind>&);
void addTreesB2(std::vector<DfKind>&);
void addTreesP0(std::vector<DfKind>&);
void addTreesP1(std::vector<DfKind>&);
void addTreesP2(std::vector<DfKind>&);
void addTreesMany(std::vector<DfKind>&);
void addTreesBig(std::vector<DfKind>&);
void addTreesHuge(std::vector<DfKind>&);   // leaves of many entries

inline bool divides(const Exps& a, const Exps& b) {
  for (size_t i = 0; i < a.size(); ++i) if (a[i] > b[i]) return false;
  return true;
}

// A finder together with what it must contain.
class CheckedDf {
public:
  CheckedDf(mc::Ctx& c, const DfKind& k, const DfParams& p);
  ~CheckedDf();
  const DfKind& kind() const {return mKind;}
  size_t count(const Exps& e) const;
  bool mayInsert(const Exps& e) const {return mKind.list || count(e) < mKind.leaf;}

  void insert(const Exps& e);
  // tries to insert more equal entries than a leaf can hold
  void insertBeyondLimit(const Exps& e);
  void insertRange(const std::vector<Exps>& v, int iterKind);
  void removeMultiples(const Exps& e, bool withOutput);
  void removeElement(const Exps& e);
  void find(const Exps& e, bool viaConst, bool write);
  void allDivisors(const Exps& e, bool viaConst);
  void allMultiples(const Exps& e, bool viaConst);
  void write(int how, const Exps& e); // change the payload through a search
  void rebuild();
  void clear();
  void moveToFront(size_t pos);
  void findIterator(const Exps& e, bool thenMoveToFront);
  void stopEarly(int what, const Exps& e, size_t after, bool viaConst);

  void content(bool viaConst);          // forAll, size, empty, iteration, order
  void queries(const std::vector<Exps>& q); // all searches for every one of them
  size_t size() const {return mItems.size();}
  const std::vector<Item>& items() const {return mItems;}
  void destroy(); // and check that every entry is gone
  void many() {mMany = true;} // so many entries that states are told apart by their number only
private:
  void done(const char* op);
  void same(const std::vector<Item>& got, const std::vector<Item>& want, const char* what);
  std::vector<Item> wanted(int what, const Exps& e) const; // 0 divisors 1 multiples 2 all
  mc::Ctx& mCtx;
  DfKind mKind;
  DfParams mP;
  long mLive;
  std::unique_ptr<IDF> mF;
  std::vector<Item> mItems; // lists: in order
  int mNext;
  bool mMany;
};

std::string show(const DfParams& p);
DfParams chooseParams(mc::Ctx& c, const DfKind& k, int vars, bool full);
#endif
