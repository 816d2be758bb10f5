// BitTriangle against a map of bits.
#include "mathic/BitTriangle.h"
#include "mc.h"
#include <map>
namespace {
  struct Checked {
    mc::Ctx& c;
    mathic::BitTriangle t;
    std::vector<std::vector<char> > m; // m[column][row]
    Checked(mc::Ctx& c): c(c) {}
    void addColumn() {
      c.log("addColumn");
      t.addColumn();
      m.push_back(std::vector<char>(m.size(), 0));
      done();
    }
    void set(size_t a, size_t b, bool v, bool unordered) {
      if (c.verbose()) c.log((unordered ? "setBitUnordered " : "setBit ") + mc::str(a) + " " + mc::str(b) + " " + mc::str(v));
      if (unordered) t.setBitUnordered(a, b, v);
      else t.setBit(a, b, v);
      m[std::max(a, b)][std::min(a, b)] = v;
      done();
    }
    void done() {
      c.step();
      uint64_t h = m.size();
      for (auto& x : m) h = mc::hashAll(x, h);
      c.state(h);
    }
    void observe() {
      const mathic::BitTriangle& k = t;
      mc::checkEq(k.columnCount(), m.size(), "columnCount");
      mc::checkEq(k.empty(), m.empty(), "empty");
      size_t bits = 0;
      for (size_t col = 0; col < m.size(); ++col) for (size_t row = 0; row < col; ++row) {
        const bool want = m[col][row] != 0;
        ++bits;
        if (k.bit(col, row) != want || k.bitUnordered(col, row) != want || k.bitUnordered(row, col) != want) {
          std::ostringstream o;
          o << "bit (" << col << ',' << row << ") should be " << want;
          mc::fail(o.str());
        }
      }
      if (k.getMemoryUse() < bits / 8) mc::fail("getMemoryUse is less than the bits take");
      c.outcome(bits);
    }
  };
  void histories(mc::Ctx& c, int depth, int start) {
    Checked t(c);
    for (int i = 0; i < start; ++i) t.addColumn();
    t.observe();
    for (int i = 0; i < depth; ++i) {
      const int n = (int)t.m.size();
      const int pairs = n * (n - 1) / 2;
      int x = c.choose(1 + 4 * pairs);
      if (x == 0) t.addColumn();
      else {
        --x;
        int p = x / 4, v = x % 4;
        int col = 1;
        while (p >= col) {p -= col; ++col;}
        if (v == 0) t.set(col, p, true, false);
        else if (v == 1) t.set(p, col, true, true);
        else if (v == 2) t.set(col, p, false, i % 2 == 0);
        else t.set(p, col, !t.m[col][p], true);
      }
      t.observe();
    }
  }
  // a single write in a big triangle that is all false, all true or a pattern; then it grows
  void big(mc::Ctx& c, int max) {
    Checked t(c);
    const int n = 1 + c.choose(max);
    const int fill = c.choose(3);
    for (int i = 0; i < n; ++i) {
      t.addColumn();
      for (int r = 0; r < i; ++r) if (fill == 1 || (fill == 2 && (i * 3 + r) % 5 < 2)) {
        t.t.setBit(i, r, true); t.m[i][r] = 1;
      }
    }
    t.observe();
    const int col = c.choose(n), row = col == 0 ? 0 : c.choose(col);
    if (col > 0) {
      t.set(row, col, !t.m[col][row], true);
      t.observe();
    }
    const int more = c.choose(2) ? 1 : 5;
    for (int i = 0; i < more; ++i) t.addColumn();
    t.observe();
    mathic::BitTriangle copy(t.t);
    t.set(n, 0, true, false);
    t.t = copy; t.m[n][0] = 0;
    t.observe();
  }
  // sizes around the limits of machine words and of growing storage
  void huge(mc::Ctx& c) {
    static const int N[] = {31, 32, 33, 47, 48, 49, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 130, 192, 193, 255, 256, 257, 258};
    const int n = N[c.choose(c.tier(19, 23))];
    const int fill = c.choose(3);
    Checked t(c);
    for (int i = 0; i < n; ++i) {
      t.addColumn();
      for (int r = 0; r < i; ++r) if (fill == 1 || (fill == 2 && (i * 3 + r) % 5 < 2)) {
        t.t.setBitUnordered(r, i, true); t.m[i][r] = 1;
      }
    }
    const int col = n - 1 - c.choose(4);
    const int rows[] = {0, 1, 30, 31, 32, 33, 62, 63, 64, 65, 127, 128, col - 1};
    const int row = rows[c.choose(13)];
    if (row < col) t.set(col, row, !t.m[col][row], c.flag());
    t.observe();
    const int more = 1 + c.choose(3);
    for (int i = 0; i < more; ++i) t.addColumn();
    t.observe();
  }
  // Very many columns: a pattern of bits, all of it read back; half of it is unset and the triangle grows.
  bool at(int p, size_t col, size_t row) {return p == 0 ? (col * 31 + row * 7) % 11 < 4 : p == 1 ? (col ^ row) % 3 == 0 : (row & (row - 1)) == 0;}
  void many(mc::Ctx& c) {
    static const int N[] = {363, 700, 1025, 2050, 5000};
    const int n = N[c.choose(c.tier(4, 5))];
    const int p = c.choose(3);
    const bool unordered = c.flag();
    if (c.verbose()) c.log(mc::str(n) + " columns of pattern " + mc::str(p));
    mathic::BitTriangle t;
    const mathic::BitTriangle& k = t;
    for (int i = 0; i < n; ++i) {
      t.addColumn();
      for (int r = 0; r < i; ++r) if (at(p, i, r)) {
        if (unordered) t.setBitUnordered(r, i, true); else t.setBit(i, r, true);
      }
    }
    for (int round = 0; round < 3; ++round) {
      mc::checkEq(k.columnCount(), (size_t)n + round / 2, "columnCount");
      for (int i = 0; i < n; ++i) for (int r = 0; r < i; ++r) {
        const bool want = at(p, i, r) && (round == 0 || (i + r) % 2 == 0);
        if ((unordered ? k.bitUnordered(r, i) : k.bit(i, r)) != want)
          mc::fail("bit (" + mc::str(i) + "," + mc::str(r) + ") of " + mc::str(n) + " columns should be " + mc::str(want));
        if (round == 0 && (i + r) % 2 != 0) t.setBit(i, r, false);
      }
      if (round == 1) {
        t.addColumn();
        for (int r = 0; r < n; ++r) if (k.bit(n, r)) mc::fail("a bit of a new column is set");
      }
      c.step(); c.state(mc::mix(n, p * 3 + round)); c.outcome(n);
    }
  }
  // More columns than a 16 bit number can count; the number of bits is more than 2^31.
  void most(mc::Ctx& c) {
    const size_t n = 65600;
    const size_t col[] = {65535, 65536, 65537, 65599, 46342, 32768, 363};
    const size_t a = col[c.choose(7)];
    mathic::BitTriangle t;
    for (size_t i = 0; i < n; ++i) t.addColumn();
    const size_t row[] = {0, 63, a / 2, a - 1};
    const size_t b = row[c.choose(4)];
    t.setBitUnordered(b, a, true);
    for (size_t i = 1; i < n; ++i) {
      const size_t rs[] = {0, 63, i / 2, i - 1, b};
      for (size_t r : rs) if (r < i && (t.bit(i, r) != (i == a && r == b) || t.bitUnordered(i % 2 ? i : r, i % 2 ? r : i) != (i == a && r == b))) mc::fail("bit (" + mc::str(i) + "," + mc::str(r) + ") is wrong");
    }
    c.step(); c.state(mc::mix(a, b)); c.outcome(a);
  }
}
void mc::registerSuites() {
  mc::add("bits/many", [](mc::Ctx& c) {many(c);}, 3);
  mc::add("bits/most", [](mc::Ctx& c) {most(c);}, 2);
  mc::add("bits/words", [](mc::Ctx& c) {huge(c);}, 2);
  mc::add("bits/histories", [](mc::Ctx& c) {histories(c, c.tier(6, 7), 0);}, 3);
  for (int s = 2; s <= 4; ++s)
    mc::add("bits/histories from " + mc::str(s), [s](mc::Ctx& c) {histories(c, s == 4 ? c.tier(4, 4) : c.tier(5, 5), s);}, 2);
  mc::add("bits/big", [](mc::Ctx& c) {big(c, c.tier(36, 70));}, 2);
}
