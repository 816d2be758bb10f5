// Names and printed forms of the structures.
#include "mathic/Heap.h"
#include "mathic/TourTree.h"
#include "mathic/Geobucket.h"
#include "mathic/StlSet.h"
#include "mathic/ComTree.h"
#include "mathic/DivList.h"
#include "mathic/KDTree.h"
#include "mathic/PairQueue.h"
#include "mathic/HashTable.h"
#include "mc.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <sstream>
namespace {
  struct E16 {long k; long pad;};
  std::ostream& operator<<(std::ostream& o, const E16& e) {return o << e.k;}
  template<bool Dedup, bool Fast> struct QC {
    typedef E16 Entry;
    typedef int CompareResult;
    int compare(const E16& a, const E16& b) const {return a.k < b.k ? -1 : a.k > b.k;}
    bool cmpLessThan(int r) const {return r < 0;}
    bool cmpEqual(int r) const {return r == 0;}
    E16 deduplicate(const E16& a, const E16&) const {return a;}
    static const bool supportDeduplication = Dedup;
    static const bool fastIndex = Fast;
  };
  template<bool Bin, bool TF, bool Dedup, bool Pre, bool Col, int St, size_t IFac> struct GC : public QC<Dedup, false> {
    GC(size_t b, size_t m): geoBase(b), minBucketSize(m) {}
    size_t geoBase, minBucketSize;
    static const bool minBucketBinarySearch = Bin;
    static const bool trackFront = TF;
    static const bool premerge = Pre;
    static const bool collectMax = Col;
    static const mathic::GeobucketBucketStorage bucketStorage = (mathic::GeobucketBucketStorage)St;
    static const size_t insertFactor = IFac;
  };
  struct IQ {
    virtual ~IQ() {}
    virtual std::string name() const = 0;
    virtual void push(long k) = 0;
    virtual long pop() = 0;
    virtual std::string print() const = 0;
    virtual bool abbreviates() const = 0;
  };
  template<class Q> struct QW : public IQ {
    template<class C> explicit QW(const C& c, bool abbr = false): q(c), abbr(abbr) {}
    std::string name() const override {return q.getName();}
    void push(long k) override {E16 e; e.k = k; e.pad = 0; q.push(e);}
    long pop() override {return q.pop().k;}
    std::string print() const override {std::ostringstream o; q.print(o); return o.str();}
    bool abbreviates() const override {return abbr;}
    Q q; bool abbr;
  };
  struct QKind {std::string options; std::function<IQ*()> make;};
  template<bool D, bool F> void simple(std::vector<QKind>& v) {
    typedef QC<D, F> C;
    v.push_back({std::string("heap") + (D ? " dedup" : "") + (F ? " fast" : ""), []() -> IQ* {return new QW<mathic::Heap<C> >(C());}});
    if (!D) v.push_back({std::string("tour") + (F ? " fast" : ""), []() -> IQ* {return new QW<mathic::TourTree<C> >(C());}});
  }
  template<bool Bin, bool TF, bool Dedup, bool Pre, bool Col, int St, size_t IFac> void geo(std::vector<QKind>& v) {
    typedef GC<Bin, TF, Dedup, Pre, Col, St, IFac> C;
    static const size_t B[] = {2, 2, 3, 12}, M[] = {1, 4, 1, 31};
    for (int i = 0; i < 4; ++i) {
      const size_t b = B[i], m = M[i];
      v.push_back({std::string("geobucket") + (Bin ? " bin" : "") + (TF ? " tf" : "") + (Dedup ? " dedup" : "") + (Pre ? " pre" : "") + (Col ? " col" : "") +
        " store" + mc::str(St) + " if" + mc::str(IFac) + " b" + mc::str(b) + " m" + mc::str(m), [b, m]() -> IQ* {return new QW<mathic::Geobucket<C> >(C(b, m), true);}});
    }
  }
  const std::vector<QKind>& queues() {
    static std::vector<QKind> v;
    if (!v.empty()) return v;
    simple<false, false>(v); simple<false, true>(v); simple<true, false>(v); simple<true, true>(v);
    typedef QC<false, false> C;
    v.push_back({"stlset", []() -> IQ* {return new QW<mathic::StlSet<C> >(C());}});
    geo<0, 0, 0, 0, 0, 0, 1>(v); geo<1, 0, 0, 0, 0, 0, 1>(v); geo<0, 1, 0, 0, 0, 0, 1>(v); geo<0, 0, 1, 0, 0, 0, 1>(v); geo<0, 0, 0, 1, 0, 0, 1>(v);
    geo<0, 0, 0, 0, 1, 0, 1>(v); geo<0, 0, 0, 0, 0, 1, 1>(v); geo<0, 0, 0, 0, 0, 2, 1>(v); geo<0, 0, 0, 0, 0, 0, 2>(v); geo<1, 1, 1, 1, 1, 2, 3>(v);
    geo<1, 1, 1, 1, 1, 1, 11>(v);
    return v;
  }
  // The values of the entries (1000 and more) that occur, in order of occurrence.
  std::vector<long> values(const std::string& s) {
    std::vector<long> v;
    std::istringstream in(s);
    std::string t;
    while (in >> t) {
      while (!t.empty() && (t[t.size() - 1] == '}' || t[t.size() - 1] == ',')) t.resize(t.size() - 1);
      if (!t.empty() && t.find_first_not_of("0123456789") == std::string::npos && t.size() >= 4) v.push_back(atol(t.c_str()));
    }
    return v;
  }
  bool gTour = false;
  void checkPrint(mc::Ctx& c, const IQ& q, const std::set<long>& m, const std::string& name) {
    const std::string text = q.print();
    if (q.name() != name) mc::fail("the name changed from " + name + " to " + q.name());
    if (text.find(name) != 0) mc::fail("what is printed does not begin with the name: " + text);
    if (q.print() != text) mc::fail("printing twice gives different texts");
    std::vector<long> v = values(text);
    std::sort(v.begin(), v.end());
    for (size_t i = 0; i < v.size(); ++i) {
      if (i && v[i] == v[i - 1]) mc::fail("entry " + mc::str(v[i]) + " is printed twice: " + text);
      if (!m.count(v[i])) mc::fail("entry " + mc::str(v[i]) + " is printed but not there: " + text);
    }
    if (gTour) {c.step(); return;} // shows addresses of entries
    if (!q.abbreviates()) mc::checkEq(v.size(), m.size(), "number of entries printed");
    else {
      // buckets: index, at most four entries, [size/capacity]
      std::istringstream in(text);
      std::string line;
      size_t sum = 0, shown = 0, number = 0;
      std::getline(in, line);
      while (std::getline(in, line) && line != "}") {
        const size_t at = line.find('['), slash = line.find('/');
        if (at == std::string::npos || slash == std::string::npos) mc::fail("a line without size and capacity: " + line);
        const size_t size = atol(line.c_str() + at + 1), cap = atol(line.c_str() + slash + 1);
        mc::checkEq((size_t)atol(line.c_str()), number, "index of the bucket");
        if (size > cap) mc::fail("a bucket has more entries than its capacity: " + line);
        std::vector<long> w = values(line.substr(0, at));
        mc::checkEq(w.size(), std::min<size_t>(size, 4), "number of entries printed of a bucket");
        if ((line.find(" ... ") != std::string::npos) != (size > 4)) mc::fail("dots in a line where nothing is left out, or none: " + line);
        for (size_t i = 1; i < w.size(); ++i) if (w[i] < w[i - 1]) mc::fail("the entries of a bucket are out of order: " + line);
        sum += size; shown += w.size(); ++number;
      }
      mc::checkEq(sum, m.size(), "sum of the sizes of the buckets");
      mc::checkEq(shown, v.size(), "entries in lines of buckets");
    }
    c.step();
    c.state(mc::hashStr(text));
    c.outcome(v.size());
  }
  void queuePrint(mc::Ctx& c, int depth) {
    const QKind& k = queues()[c.choose((int)queues().size())];
    gTour = k.options.find("tour") == 0;
    if (c.verbose()) c.log(k.options);
    std::unique_ptr<IQ> q(k.make());
    const std::string name = q->name();
    static const int N[] = {0, 1, 3, 6, 11, 20, 40};
    const int n = N[c.choose(7)], pat = c.choose(3);
    std::set<long> m;
    for (int i = 0; i < n; ++i) {
      const long v = 1000 + (pat == 0 ? i : pat == 1 ? n - i : (i * 17) % 41);
      q->push(v); m.insert(v);
    }
    if (c.verbose()) c.log(mc::str(n) + " entries in pattern " + mc::str(pat));
    checkPrint(c, *q, m, name);
    for (int s = 0; s < depth; ++s) {
      const int x = c.choose(m.empty() ? 2 : 3);
      if (x < 2) {const long v = x == 0 ? 5000 + s : 999 + 1000 - s * 3; q->push(v); m.insert(v);}
      else {
        const long got = q->pop();
        if (got != *m.rbegin()) mc::fail("pop gave " + mc::str(got) + " after printing, expected " + mc::str(*m.rbegin()));
        m.erase(got);
      }
      checkPrint(c, *q, m, name);
    }
    while (!m.empty()) {
      const long got = q->pop();
      if (got != *m.rbegin()) mc::fail("pop gave " + mc::str(got) + " after printing, expected " + mc::str(*m.rbegin()));
      m.erase(got);
    }
    checkPrint(c, *q, m, name);
  }
  // ---------------------------------------------------------- finders
  struct FP {bool sort, cache, rebuilds; size_t min; double ratio;};
  template<bool DM, bool TDM, bool Packed, size_t Leaf, bool Linked, bool Rem> struct FC {
    typedef int Exponent; typedef std::vector<int> Monomial; typedef Monomial Entry;
    static const bool UseDivMask = DM;
    static const bool UseTreeDivMask = TDM;
    static const bool PackedTree = Packed;
    static const size_t LeafSize = Leaf;
    static const bool AllowRemovals = Rem;
    static const bool UseLinkedList = Linked;
    FC(const FP& p): p(p) {}
    int getExponent(const Monomial& m, size_t v) const {return m[v];}
    bool divides(const Monomial& a, const Monomial& b) const {return a[0] <= b[0];}
    bool isLessThan(const Monomial& a, const Monomial& b) const {return a[0] < b[0];}
    size_t getVarCount() const {return 1;}
    bool getSortOnInsert() const {return p.sort;}
    bool getUseDivisorCache() const {return p.cache;}
    bool getDoAutomaticRebuilds() const {return p.rebuilds;}
    double getRebuildRatio() const {return p.ratio;}
    size_t getRebuildMin() const {return p.min;}
    FP p;
  };
  // options, name
  typedef std::vector<std::pair<std::string, std::string> > Names;
  std::string fp(const FP& p, bool masks) {
    return std::string(p.sort ? " sort" : "") + (masks && p.rebuilds ? " rebuilds " + mc::str(p.ratio) + " " + mc::str(p.min) : "");
  }
  std::string nameOf(const std::string& name, const std::string& later) {
    if (name != later) mc::fail("the name changed from " + name + " to " + later);
    return name;
  }
  template<class F, class C> std::string named(const FP& p) {
    F f((C(p)));
    const std::string s = f.getName();
    typename C::Monomial m(1, 3);
    f.insert(m);
    return nameOf(s, f.getName());
  }
  std::vector<FP> params() {
    std::vector<FP> v;
    for (int i = 0; i < 4; ++i)
      for (int r = 0; r < 4; ++r) {
        FP p; p.sort = i & 1; p.cache = i & 2; p.rebuilds = r > 0; p.min = r == 2 ? 7 : 50; p.ratio = r == 3 ? 0.25 : 0.5;
        v.push_back(p);
      }
    return v;
  }
  template<bool DM, bool Linked> void lists(Names& n) {
    typedef FC<DM, false, false, 1, Linked, true> C;
    for (auto& p : params()) {
      if (p.cache) continue; // lists have none
      n.push_back({std::string("list") + (Linked ? " linked" : "") + (DM ? " mask" : "") + fp(p, DM), named<mathic::DivList<C>, C>(p)});
    }
  }
  template<bool DM, bool TDM, bool Packed, size_t Leaf, bool Rem> void trees(Names& n) {
    typedef FC<DM, TDM, Packed, Leaf, false, Rem> C;
    for (auto& p : params())
      n.push_back({std::string("tree") + (Packed ? " packed" : "") + (TDM ? " treemask" : DM ? " mask" : "") + " leaf" + mc::str(Leaf) + (Rem ? "" : " noremovals") +
        (p.cache ? " cache" : "") + fp(p, DM), named<mathic::KDTree<C>, C>(p)});
  }
  template<bool Rem> void treesWith(Names& n) {
    trees<false, false, false, 1, Rem>(n); trees<true, false, false, 1, Rem>(n); trees<true, true, false, 1, Rem>(n); trees<true, true, false, 12, Rem>(n);
    trees<false, false, true, 1, Rem>(n); trees<true, false, true, 1, Rem>(n); trees<true, true, true, 1, Rem>(n); trees<false, false, true, 2, Rem>(n);
  }
  struct PC : public QC<false, false> {
    typedef int PairData;
    static void computePairData(size_t a, size_t b, PairData& d) {d = 0;}
    typedef bool CompareResult;
    bool compare(size_t, size_t, const PairData&, size_t, size_t, const PairData&) const {return false;}
    bool cmpLessThan(bool v) const {return v;}
  };
  struct HC {
    typedef int Key; typedef int Value;
    size_t hash(int k) const {return k;}
    bool keysEqual(int a, int b) const {return a == b;}
  };
  void names(mc::Ctx& c) {
    Names n;
    const int what = c.choose(3);
    if (what == 0) {
      for (auto& k : queues()) {std::unique_ptr<IQ> q(k.make()); n.push_back({k.options, q->name()});}
      mathic::HashTable<HC> t(HC(), 3);
      n.push_back({"hash", t.name()});
      mathic::PairQueue<PC> p((PC()));
      n.push_back({"pair queue", p.name()});
    } else if (what == 1) {
      lists<false, false>(n); lists<true, false>(n); lists<false, true>(n); lists<true, true>(n);
    } else {
      treesWith<true>(n); treesWith<false>(n);
    }
    std::map<std::string, std::string> byName, byOptions;
    for (auto& x : n) {
      if (c.verbose()) c.log(x.first + ": " + x.second);
      if (x.second.empty()) mc::fail("the name of " + x.first + " is empty");
      auto a = byName.insert({x.second, x.first}).first;
      if (a->second != x.first) mc::fail("the name " + x.second + " stands for " + a->second + " and for " + x.first);
      auto b = byOptions.insert({x.first, x.second}).first;
      if (b->second != x.second) mc::fail(x.first + " has two names, " + b->second + " and " + x.second);
      c.step(); c.state(mc::hashStr(x.second)); c.outcome(mc::hashStr(x.second));
    }
  }
  // ---------------------------------------------------------- tree storage
  template<bool F> void comTree(mc::Ctx& c) {
    typedef mathic::ComTree<E16, F> T;
    T t;
    const int n = c.choose(40);
    for (int i = 0; i < n; ++i) {E16 e; e.k = 1000 + i * 3; e.pad = 0; t.pushBack(e);}
    std::ostringstream o1, o2;
    t.print(o1); o2 << t;
    mc::checkEq(o2.str(), o1.str(), "text of operator<<");
    std::vector<long> v = values(o1.str());
    mc::checkEq(v.size(), (size_t)n, "entries printed");
    for (int i = 0; i < n; ++i) mc::checkEq(v[i], 1000L + i * 3, "entry printed");
    c.step(); c.state(mc::hashStr(o1.str())); c.outcome(n);
  }
}
void mc::registerSuites() {
  mc::add("names", [](mc::Ctx& c) {names(c);}, 1);
  mc::add("print/queues", [](mc::Ctx& c) {queuePrint(c, c.tier(4, 7));}, 2);
  mc::add("print/storage", [](mc::Ctx& c) {if (c.flag()) comTree<true>(c); else comTree<false>(c);}, 2);
}
