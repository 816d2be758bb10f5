#include "queue.h"
#include <algorithm>
namespace {
  // choose configuration by the first choices
  QInfo pick(mc::Ctx& c, const std::vector<GeoInfo>& v, int params, int* which = 0) {
    const GeoInfo& g = v[c.choose((int)v.size())];
    static const size_t P[6][2] = {{2, 1}, {2, 2}, {3, 1}, {2, 3}, {4, 2}, {3, 5}};
    int p = c.choose(params);
    if (which) *which = p;
    const size_t base = P[p][0], minSize = P[p][1];
    if (c.verbose()) c.log("geobucket " + g.name + " geoBase " + mc::str(base) + " minBucketSize " + mc::str(minSize));
    QInfo q = {g.name, [g, base, minSize](Ctl* ctl) {return g.make(ctl, base, minSize);}, g.dedup, true};
    return q;
  }
}
void mc::registerSuites() {
  static std::vector<GeoInfo> nd, d;
  addGeo0(nd); addGeo1(nd); addGeo2(nd);
  addGeo3(d); addGeo4(d); addGeo5(d);
  for (int dd = 0; dd < 2; ++dd) {
    const std::vector<GeoInfo>* v = dd ? &d : &nd;
    std::string n = dd ? "dgeo" : "geo";
    mc::add(n + "/weak-orders", [v](mc::Ctx& c) {
      QInfo q = pick(c, *v, c.tier(3, 4)); weakOrders(c, q, c.tier(5, 6));}, 2);
    mc::add(n + "/histories", [v](mc::Ctx& c) {
      int p; QInfo q = pick(c, *v, c.tier(3, 4), &p); histories(c, q, p == 0 ? c.tier(4, 5) : c.tier(3, 5));}, 2);
    mc::add(n + "/seeded", [v](mc::Ctx& c) {
      QInfo q = pick(c, *v, c.tier(3, 6));
      std::vector<int> s;
      if (c.mTier == mc::Quick) s = {1, 2, 3, 4, 6, 7, 9, 15, 17, 33};
      else for (int i = 0; i <= 40; ++i) s.push_back(i);
      seeded(c, q, s, c.tier(1, 2));
    }, 2);
    mc::add(n + "/reuse", [v](mc::Ctx& c) {
      QInfo q = pick(c, *v, 2); reuse(c, q, 2, c.tier(4, 9));}, 2);
    mc::add(n + "/large", [v](mc::Ctx& c) {
      int p; QInfo q = pick(c, *v, c.tier(3, 6), &p);
      std::vector<int> s = {257, 1100};
      if (c.mTier == mc::Thorough) s = {127, 129, 255, 257, 300, 513, 1100, 5000};
      if (p == 0) s.push_back(c.tier(5000, 66000));
      large(c, q, s, c.tier(1, 5));
    }, 4);
    mc::add(n + "/huge", [v](mc::Ctx& c) {
      // the quick tier: every seventh combination of options
      std::vector<GeoInfo> few;
      for (size_t i = 0; i < v->size(); i += c.tier(7, 1)) few.push_back((*v)[i]);
      QInfo q = pick(c, few, 1);
      std::vector<int> s = {66000};
      if (c.mTier == mc::Thorough) s.push_back(140000);
      large(c, q, s, 1);
    }, 4);
  }
}
