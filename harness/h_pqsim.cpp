// The queue models of the simulator: spans or single elements, with or without
// deduplication, popping with or without decreaseTop.
#include "pqsim/stdinc.h"
#include "pqsim/HeapModel.h"
#include "pqsim/TourTreeModel.h"
#include "pqsim/StlSetModel.h"
#include "pqsim/GeobucketModel.h"
#include "mc.h"
#include <set>
namespace {
  struct IM {
    virtual ~IM() {}
    virtual void push(const Value* b, const Value* e) = 0;
    virtual Value pop() = 0;
    virtual bool empty() = 0;
    virtual std::string name() = 0;
  };
  template<class M> struct MM : public IM {
    MM() {}
    MM(size_t a, size_t b): m(a, b) {}
    void push(const Value* b, const Value* e) {m.push(b, e);}
    Value pop() {return m.pop();}
    bool empty() {return m.empty();}
    std::string name() {m.getMemoryUse(); m.getComparisons(); return m.getName();}
    M m;
  };
  typedef std::vector<std::unique_ptr<IM> > Models;
  template<bool S> void addAll(Models& v) {
    v.emplace_back(new MM<StlSetModel<S> >());
    v.emplace_back(new MM<HeapModel<S, false, false> >());
    v.emplace_back(new MM<HeapModel<S, false, true> >());
    v.emplace_back(new MM<HeapModel<S, true, false> >());
    v.emplace_back(new MM<HeapModel<S, true, true> >());
    v.emplace_back(new MM<TourTreeModel<S, false> >());
    v.emplace_back(new MM<Model<S, false, false, mathic::Heap, HeapModelBase<true> > >());
    v.emplace_back(new MM<Model<S, true, false, mathic::Heap, HeapModelBase<false> > >());
    v.emplace_back(new MM<Model<S, false, false, mathic::TourTree, TourTreeModelBase<false> > >());
    //                          TF BIN DED PRE COL ST IF
    v.emplace_back(new MM<GeobucketModel<S, 0, 0, 0, 0, 0, 0, 1> >(2, 1));
    v.emplace_back(new MM<GeobucketModel<S, 1, 1, 1, 1, 1, 0, 1> >(2, 2));
    v.emplace_back(new MM<GeobucketModel<S, 1, 0, 1, 0, 0, 1, 1> >(3, 1));
    v.emplace_back(new MM<GeobucketModel<S, 0, 1, 1, 1, 1, 2, 1> >(2, 1));
    v.emplace_back(new MM<GeobucketModel<S, 0, 0, 1, 0, 1, 1, 2> >(2, 3));
    v.emplace_back(new MM<GeobucketModel<S, 1, 1, 0, 0, 1, 2, 1> >(4, 2));
    v.emplace_back(new MM<GeobucketModel<S, 0, 1, 0, 1, 0, 1, 4> >(2, 1));
    v.emplace_back(new MM<GeobucketModel<S, 1, 0, 1, 1, 0, 2, 1> >(2, 2));
    v.emplace_back(new MM<Model<S, true, true, mathic::Geobucket, GeobucketModelBase<1, 1, 1, 1, 0, 1> > >(2, 2));
    v.emplace_back(new MM<Model<S, false, true, mathic::Geobucket, GeobucketModelBase<0, 0, 0, 0, 1, 1> > >(2, 1));
  }
  void popAll(mc::Ctx& c, Models& v, std::multiset<Value>& m) {
    const Value want = *m.rbegin();
    if (c.verbose()) c.log("pop, should be " + mc::str(want));
    for (auto& x : v) {
      if (x->empty()) mc::fail(x->name() + " is empty while values remain");
      const Value got = x->pop();
      if (got != want) mc::fail(x->name() + " popped " + mc::str(got) + ", expected " + mc::str(want));
    }
    m.erase(want);
    c.outcome(want);
  }
  void body(mc::Ctx& c, bool spans, int depth, int seed) {
    Models v;
    if (spans) addAll<true>(v); else addAll<false>(v);
    // spans are kept by reference
    static const std::vector<Value> S[] = {
      {1}, {4}, {5, 4, 2}, {3, 1}, {9, 8, 7, 6, 5, 4, 3, 2, 1}, {6, 5, 3, 1}, {7, 2}};
    std::multiset<Value> m;
    std::vector<std::vector<Value> > store;
    if (seed) {
      const int n = 1 + c.choose(seed);
      store.resize(n);
      for (int i = 0; i < n; ++i) {
        for (int j = 12; j > 0; --j) if (((i * 7 + j * 5 + n) % 4) != 0) store[i].push_back((Value)(j * 3 + i % 3));
        if (store[i].empty()) store[i].push_back(1);
        for (auto& x : v) x->push(store[i].data(), store[i].data() + store[i].size());
        m.insert(store[i].begin(), store[i].end());
      }
      c.log("filled with " + mc::str(n) + " spans");
    }
    for (int s = 0; s < depth; ++s) {
      const int x = c.choose(m.empty() ? 7 : 9);
      if (x < 7) {
        if (c.verbose()) c.log("push span " + mc::list(S[x]));
        for (auto& q : v) q->push(S[x].data(), S[x].data() + S[x].size());
        m.insert(S[x].begin(), S[x].end());
      } else {
        popAll(c, v, m);
        if (x == 8) for (int i = 0; i < 3 && !m.empty(); ++i) popAll(c, v, m);
      }
      for (auto& q : v) if (q->empty() != m.empty()) mc::fail(q->name() + ": empty() is wrong");
      c.step(); c.state(mc::hashAll(m));
    }
    while (!m.empty()) {popAll(c, v, m); c.step();}
    for (auto& q : v) if (!q->empty()) mc::fail(q->name() + " has values left");
  }
}
void mc::registerSuites() {
  mc::add("models/spans", [](mc::Ctx& c) {body(c, true, c.tier(5, 6), 0);}, 2);
  mc::add("models/elements", [](mc::Ctx& c) {body(c, false, c.tier(5, 6), 0);}, 2);
  mc::add("models/spans seeded", [](mc::Ctx& c) {body(c, true, c.tier(2, 3), c.tier(24, 40));}, 1);
  mc::add("models/elements seeded", [](mc::Ctx& c) {body(c, false, c.tier(2, 3), c.tier(24, 40));}, 1);
}
