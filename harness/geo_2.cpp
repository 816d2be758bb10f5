#include "queue.h"
// storage 2, dedup 0
namespace {
  const int S = 2;
  const bool D = 0 == 1;
  template<bool TF, bool BIN, bool PRE, bool COL, size_t IF>
  void add1(std::vector<GeoInfo>& v) {
    GeoInfo g = {&makeGeo<TF, BIN, D, PRE, COL, S, IF>, D,
      std::string("tf") + (TF ? '1' : '0') + " bin" + (BIN ? '1' : '0') + " dedup" + (D ? '1' : '0') +
      " pre" + (PRE ? '1' : '0') + " col" + (COL ? '1' : '0') + " store" + char('0' + S) + " if" + char('0' + IF)};
    v.push_back(g);
  }
  template<bool TF, bool BIN, bool PRE> void add2(std::vector<GeoInfo>& v) {
    add1<TF, BIN, PRE, false, 1>(v);
    add1<TF, BIN, PRE, true, 1>(v);
  }
  template<bool TF, bool BIN> void add3(std::vector<GeoInfo>& v) {
    add2<TF, BIN, false>(v);
    add2<TF, BIN, true>(v);
  }
}
void addGeo2(std::vector<GeoInfo>& v) {
  add3<false, false>(v);
  add3<false, true>(v);
  add3<true, false>(v);
  add3<true, true>(v);
  add1<false, false, false, true, 2>(v);
  add1<true, true, true, false, 2>(v);
  add1<true, false, false, false, 4>(v);
  add1<false, true, true, true, 4>(v);
}
