#include "divfinder.h"
#include <map>

std::string show(const DfParams& p) {
  std::ostringstream o;
  o << p.vars << " variables" << (p.sort ? p.order == 1 ? " sorted by degree" : " sorted" : "") << (p.cache ? " cache" : "");
  if (p.rebuilds) o << " rebuild ratio " << p.ratio << " min " << p.minRebuild;
  return o.str();
}

DfParams chooseParams(mc::Ctx& c, const DfKind& k, int vars, bool full) {
  DfParams p;
  p.vars = vars;
  if (!k.list && c.mTier == mc::Quick) {
    // pairs of settings; the thorough tier takes all combinations
    static const int P[4][3] = {{0, 0, 0}, {1, 1, 0}, {0, 1, 1}, {1, 0, 2}};
    const int* q = P[c.choose(4)];
    p.sort = q[0]; p.cache = q[1]; p.rebuilds = q[2] != 0;
    p.order = q[2] == 2;
    if (q[2] == 1) {p.ratio = 0.01; p.minRebuild = 1;}
    if (q[2] == 2) {p.ratio = 0.5; p.minRebuild = 2;}
    if (c.verbose()) c.log(k.name + ", " + show(p));
    return p;
  }
  const int sort = c.choose(3);
  p.sort = sort != 0; p.order = sort == 2;
  if (!k.list) p.cache = c.flag();
  int r = c.choose(full ? 3 : 2);
  p.rebuilds = r != 0;
  if (r == 1) {p.ratio = 0.01; p.minRebuild = 1;} // at every change
  if (r == 2) {p.ratio = 0.5; p.minRebuild = 2;}
  if (c.verbose()) c.log(k.name + ", " + show(p));
  return p;
}

CheckedDf::CheckedDf(mc::Ctx& c, const DfKind& k, const DfParams& p):
  mCtx(c), mKind(k), mP(p), mLive(Life::live()), mF(k.make(p)), mNext(0), mMany(false) {}
CheckedDf::~CheckedDf() {if (mF.get() != 0) destroy();}

void CheckedDf::destroy() {
  mF.reset();
  mc::checkEq(Life::live() - mLive, 0L, "entries still alive after the finder was destructed");
}

size_t CheckedDf::count(const Exps& e) const {
  size_t n = 0;
  for (size_t i = 0; i < mItems.size(); ++i) n += mItems[i].e == e;
  return n;
}

namespace {
  struct ById {bool operator()(const Item& a, const Item& b) const {return a.id < b.id;}};
  std::string showItems(const std::vector<Item>& v) {
    std::ostringstream o;
    for (size_t i = 0; i < v.size() && i < 12; ++i) o << " #" << v[i].id << show(v[i].e);
    if (v.size() > 12) o << " ...";
    return o.str();
  }
}

void CheckedDf::same(const std::vector<Item>& got0, const std::vector<Item>& want0, const char* what) {
  std::vector<Item> got(got0), want(want0);
  std::sort(got.begin(), got.end(), ById());
  std::sort(want.begin(), want.end(), ById());
  bool ok = got.size() == want.size();
  for (size_t i = 0; ok && i < got.size(); ++i)
    ok = got[i].id == want[i].id && got[i].e == want[i].e && got[i].payload == want[i].payload;
  if (!ok)
    mc::fail(std::string(what) + ": got" + showItems(got) + ", expected" + showItems(want));
}

std::vector<Item> CheckedDf::wanted(int what, const Exps& e) const {
  std::vector<Item> v;
  for (size_t i = 0; i < mItems.size(); ++i)
    if (what == 2 || (what == 0 && divides(mItems[i].e, e)) || (what == 1 && divides(e, mItems[i].e)))
      v.push_back(mItems[i]);
  return v;
}

void CheckedDf::done(const char* op) {
  mCtx.step();
  uint64_t h = mc::hashStr(mKind.name);
  if (mMany) {mCtx.state(mc::mix(h, mItems.size())); return;}
  uint64_t sum = 0;
  for (size_t i = 0; i < mItems.size(); ++i) {
    uint64_t x = mc::mix(5, mItems[i].payload);
    for (size_t j = 0; j < mItems[i].e.size(); ++j) x = mc::mix(x, mItems[i].e[j]);
    sum += x; // as a multiset
  }
  mCtx.state(mc::mix(h, sum));
}

void CheckedDf::insert(const Exps& e) {
  if (mCtx.verbose()) mCtx.log("insert " + show(e) + " as #" + mc::str(mNext));
  Item i = item(e, mNext++, 0);
  mF->insert(i);
  mItems.push_back(i);
  done("insert");
}

void CheckedDf::insertBeyondLimit(const Exps& e) {
  if (mCtx.verbose()) mCtx.log("insert one more equal entry " + show(e) + " as #" + mc::str(mNext));
  Item i = item(e, mNext++, 0);
  bool thrown = false;
  try {
    mF->insert(i);
  } catch (const std::exception&) {
    thrown = true;
  }
  // either it was refused and nothing has changed, or it is in
  if (!thrown) mItems.push_back(i);
  mCtx.outcome(thrown);
  done("insert beyond");
}

void CheckedDf::insertRange(const std::vector<Exps>& v, int iterKind) {
  std::vector<Item> w;
  for (size_t i = 0; i < v.size(); ++i) {
    if (mCtx.verbose()) mCtx.log("range element " + show(v[i]) + " as #" + mc::str(mNext));
    w.push_back(item(v[i], mNext++, 0));
  }
  if (mCtx.verbose()) mCtx.log("insert range of " + mc::str(v.size()));
  mF->insertRange(w, iterKind);
  mItems.insert(mItems.end(), w.begin(), w.end());
  done("range");
}

void CheckedDf::removeMultiples(const Exps& e, bool withOutput) {
  if (mCtx.verbose()) mCtx.log("remove multiples of " + show(e));
  std::vector<Item> want = wanted(1, e), got;
  const bool any = mF->removeMultiples(e, withOutput ? &got : 0);
  if (withOutput) same(got, want, "entries reported as removed by removeMultiples");
  mc::checkEq(any, !want.empty(), "whether removeMultiples removed something");
  std::vector<Item> left;
  for (size_t i = 0; i < mItems.size(); ++i) if (!divides(e, mItems[i].e)) left.push_back(mItems[i]);
  mItems.swap(left);
  mCtx.outcome(mc::mix(3, want.size()));
  done("removeMultiples");
}

void CheckedDf::removeElement(const Exps& e) {
  if (mCtx.verbose()) mCtx.log("remove element " + show(e));
  const size_t n = count(e);
  const bool any = mF->removeElement(e);
  mc::checkEq(any, n != 0, "whether removeElement found an element");
  if (n != 0) {
    // which of several equal ones goes is not specified; ask
    Sink s; mF->forAll(true, s);
    size_t gone = mItems.size();
    std::vector<bool> there(mNext, false);
    for (size_t j = 0; j < s.seen.size(); ++j)
      if (s.seen[j].id >= 0 && s.seen[j].id < mNext) there[s.seen[j].id] = true;
    for (size_t i = 0; i < mItems.size(); ++i) {
      if (!there[mItems[i].id]) {
        if (gone != mItems.size()) mc::fail("removeElement removed more than one entry");
        gone = i;
      }
    }
    if (gone == mItems.size()) mc::fail("removeElement removed nothing");
    if (mItems[gone].e != e) mc::fail("removeElement removed another element");
    mItems.erase(mItems.begin() + gone);
  }
  mCtx.outcome(mc::mix(4, any));
  done("removeElement");
}

void CheckedDf::find(const Exps& e, bool viaConst, bool write) {
  Item got;
  const int pay = write ? 1000 + mNext : -1;
  const bool found = mF->findDivisor(e, viaConst, got, viaConst ? -1 : pay);
  if (mCtx.verbose()) mCtx.log("find divisor of " + show(e) + (found ? " -> " + mc::str(got.id) : " -> none"));
  bool any = false, present = false;
  for (size_t i = 0; i < mItems.size(); ++i) {
    if (divides(mItems[i].e, e)) any = true;
    if (found && mItems[i].id == got.id) {
      present = mItems[i].e == got.e && mItems[i].payload == got.payload;
      if (write && !viaConst) mItems[i].payload = pay;
    }
  }
  if (found != any)
    mc::fail(std::string("findDivisor of ") + show(e) + (found ? " found one but there is none" : " found none but there is one"));
  if (found) {
    if (!divides(got.e, e)) mc::fail("findDivisor gave an entry that does not divide");
    if (!present) mc::fail("findDivisor gave an entry that is not in the finder");
  }
  mCtx.outcome(mc::mix(5, found));
  mCtx.step();
}

void CheckedDf::allDivisors(const Exps& e, bool viaConst) {
  Sink s;
  mF->findAllDivisors(e, viaConst, s);
  if (mCtx.verbose()) mCtx.log("all divisors of " + show(e) + " ->" + showItems(s.seen));
  same(s.seen, wanted(0, e), "findAllDivisors");
  mCtx.outcome(mc::mix(6, s.seen.size()));
  mCtx.step();
}

void CheckedDf::allMultiples(const Exps& e, bool viaConst) {
  Sink s;
  mF->findAllMultiples(e, viaConst, s);
  if (mCtx.verbose()) mCtx.log("all multiples of " + show(e) + " ->" + showItems(s.seen));
  same(s.seen, wanted(1, e), "findAllMultiples");
  mCtx.outcome(mc::mix(7, s.seen.size()));
  mCtx.step();
}

void CheckedDf::write(int how, const Exps& e) {
  Sink s;
  s.setPayload = 5000 + mNext + how;
  if (mCtx.verbose()) mCtx.log("write into the entries found by search " + mc::str(how) + " for " + show(e));
  if (how == 0) mF->findAllDivisors(e, false, s);
  else if (how == 1) mF->findAllMultiples(e, false, s);
  else mF->forAll(false, s);
  for (size_t i = 0; i < mItems.size(); ++i)
    if (how == 2 || (how == 0 && divides(mItems[i].e, e)) || (how == 1 && divides(e, mItems[i].e)))
      mItems[i].payload = s.setPayload;
  same(s.seen, wanted(how, e), "search that writes to the entries");
  done("write");
}

void CheckedDf::rebuild() {mCtx.log("rebuild"); mF->rebuild(); done("rebuild");}
void CheckedDf::clear() {
  mCtx.log("clear"); mF->clear(); mItems.clear();
  mc::checkEq(Life::live() - mLive, 0L, "entries still alive after clear");
  done("clear");
}

void CheckedDf::moveToFront(size_t pos) {
  if (mCtx.verbose()) mCtx.log("move position " + mc::str(pos) + " to the front");
  mF->moveToFront(pos);
  Item i = mItems[pos];
  mItems.erase(mItems.begin() + pos);
  mItems.insert(mItems.begin(), i);
  done("moveToFront");
}

void CheckedDf::findIterator(const Exps& e, bool thenMoveToFront) {
  Item got;
  const bool found = mF->findDivisorIterator(e, got, thenMoveToFront);
  if (mCtx.verbose()) mCtx.log("find divisor iterator of " + show(e) + (found ? " -> " + mc::str(got.id) : " -> none") +
    (thenMoveToFront ? ", move to front" : ""));
  if (found != !wanted(0, e).empty())
    mc::fail(found ? "findDivisorIterator found one but there is none" : "findDivisorIterator found none but there is one");
  if (found) {
    size_t pos = mItems.size();
    for (size_t i = 0; i < mItems.size(); ++i) if (mItems[i].id == got.id && mItems[i].e == got.e) pos = i;
    if (pos == mItems.size()) mc::fail("findDivisorIterator gave an entry that is not in the list");
    if (!divides(got.e, e)) mc::fail("findDivisorIterator gave an entry that does not divide");
    if (thenMoveToFront) {
      Item i = mItems[pos];
      mItems.erase(mItems.begin() + pos);
      mItems.insert(mItems.begin(), i);
    }
  }
  done("findIterator");
}

void CheckedDf::stopEarly(int what, const Exps& e, size_t after, bool viaConst) {
  std::vector<Item> want = wanted(what, e);
  Sink s(after);
  if (what == 0) mF->findAllDivisors(e, viaConst, s);
  else if (what == 1) mF->findAllMultiples(e, viaConst, s);
  else mF->forAll(viaConst, s);
  if (mCtx.verbose()) mCtx.log("search " + mc::str(what) + " for " + show(e) + ", told to stop at call " + mc::str(after) +
    ", calls made: " + mc::str(s.calls));
  if (s.afterStop) mc::fail("the search went on after proceed returned false");
  mc::checkEq(s.calls, std::min(after, want.size()), "number of entries given out before stopping");
  std::vector<int> ids;
  for (size_t i = 0; i < s.seen.size(); ++i) {
    bool ok = false;
    for (size_t j = 0; j < want.size(); ++j)
      ok = ok || (want[j].id == s.seen[i].id && want[j].e == s.seen[i].e && want[j].payload == s.seen[i].payload);
    if (!ok) mc::fail("a search that was stopped gave an entry it should not give");
    ids.push_back(s.seen[i].id);
  }
  std::sort(ids.begin(), ids.end());
  if (std::unique(ids.begin(), ids.end()) != ids.end()) mc::fail("a search that was stopped gave an entry twice");
  mCtx.outcome(mc::mix(8, s.calls));
  mCtx.step();
}

void CheckedDf::content(bool viaConst) {
  mc::checkEq(mF->size(), mItems.size(), "size");
  mc::checkEq(mF->empty(), mItems.empty(), "empty");
  Sink s;
  mF->forAll(viaConst, s);
  same(s.seen, mItems, "forAll");
  mF->memory();
  if (mKind.list) {
    for (int back = 0; back < 2; ++back) {
      std::vector<Item> it;
      mF->iterate(viaConst, it, back == 1);
      if (back) std::reverse(it.begin(), it.end());
      same(it, mItems, back ? "backwards iteration" : "iteration");
      if (!mP.sort) {
        for (size_t i = 0; i < it.size(); ++i)
          if (it[i].id != mItems[i].id) mc::fail("the entries are not in the order they were inserted or moved to");
      } else {
        for (size_t i = 1; i < it.size(); ++i)
          if (isLess(mP.order, it[i].e, it[i - 1].e, mP.vars)) mc::fail("the list is not kept sorted");
      }
      for (size_t i = 0; i < it.size(); ++i)
        if (it[i].id != s.seen[back ? i : i].id) mc::fail("forAll and iteration disagree on the order");
    }
  }
  mCtx.step();
}

void CheckedDf::queries(const std::vector<Exps>& q) {
  bool viaConst = false;
  for (size_t i = 0; i < q.size(); ++i) {
    find(q[i], viaConst, false);
    if (mKind.list) findIterator(q[i], false);
    allDivisors(q[i], !viaConst);
    find(q[i], !viaConst, false);
    allMultiples(q[i], viaConst);
    viaConst = !viaConst;
  }
  // once more in the other order, as a cache depends on it
  for (size_t i = q.size(); i-- > 0;) find(q[i], false, false);
}
