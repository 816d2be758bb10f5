// ColumnPrinter: the text that is laid out, against an independent layout.
#include "mathic/ColumnPrinter.h"
#include "mc.h"
#include <cstdlib>
namespace {
  struct Line {std::string text; char pad;};
  struct Col {
    bool left; std::string prefix, suffix;
    std::vector<std::pair<std::string, char> > pieces; // a char other than 0: a repeat marker
    std::vector<Line> lines() const {
      std::vector<Line> r; Line cur = {"", ' '}; bool open = false;
      for (auto& p : pieces) {
        if (p.second) {cur.pad = p.second; r.push_back(cur); cur = {"", ' '}; open = false; continue;}
        for (char ch : p.first) {
          if (ch == '\n') {r.push_back(cur); cur = {"", ' '}; open = false;}
          else {cur.text += ch; open = true;}
        }
      }
      if (open) r.push_back(cur);
      return r;
    }
  };
  std::string layout(const std::string& prefix, const std::vector<Col>& cols) {
    std::vector<std::vector<Line> > ls;
    std::vector<size_t> w;
    size_t rows = 0;
    for (auto& c : cols) {
      ls.push_back(c.lines());
      size_t width = 0;
      for (auto& l : ls.back()) width = std::max(width, l.text.size());
      w.push_back(width);
      rows = std::max(rows, ls.back().size());
    }
    std::string out;
    for (size_t r = 0; r < rows; ++r) {
      out += prefix;
      for (size_t i = 0; i < cols.size(); ++i) {
        Line l = {"", ' '};
        if (r < ls[i].size()) l = ls[i][r];
        const std::string pad(w[i] - l.text.size(), l.pad);
        out += cols[i].prefix;
        out += cols[i].left ? l.text + pad : pad + l.text;
        out += cols[i].suffix;
      }
      out += "\n";
    }
    return out;
  }
  std::string shown(std::string s) {
    std::string r;
    for (char c : s) if (c == '\n') r += "\\n"; else if (c == 0) r += "\\0"; else r += c;
    return "\"" + r + "\"";
  }
  void compare(mc::Ctx& c, const mathic::ColumnPrinter& pr, const std::string& prefix, const std::vector<Col>& cols, bool file) {
    const std::string want = layout(prefix, cols);
    std::ostringstream o;
    pr.print(o);
    if (o.str() != want) mc::fail("printed " + shown(o.str()) + ", expected " + shown(want));
    std::ostringstream o2;
    o2 << pr;
    if (o2.str() != want) mc::fail("operator<< differs from print");
    if (file) {
      char* buf = 0; size_t size = 0;
      FILE* f = open_memstream(&buf, &size);
      print(f, pr);
      fclose(f);
      const std::string got(buf, size);
      free(buf);
      if (got != want) mc::fail("printing to a FILE gave " + shown(got) + ", expected " + shown(want));
    }
    c.step(); c.state(mc::hashStr(want)); c.outcome(mc::hashStr(want));
  }
  void body(mc::Ctx& c, int maxCols, int depth, bool all) {
    const int n = maxCols;
    const bool byCtor = c.flag();
    mathic::ColumnPrinter pr(byCtor ? n : 0);
    std::vector<Col> cols;
    std::string prefix;
    for (int i = 0; i < n; ++i) {
      Col col = {true, "  ", "", {}};
      if (!byCtor) {
        const int k = c.choose(n > 2 ? 3 : 5);
        static const char* P[] = {"  ", "", "> ", "", "ab"};
        static const char* S[] = {"", "|", "", "", " <"};
        col.left = k == 0 || k == 4;
        col.prefix = P[k]; col.suffix = S[k];
        if (k == 0) pr.addColumn(); else pr.addColumn(col.left, col.prefix, col.suffix);
      }
      cols.push_back(col);
    }
    mc::checkEq(pr.getColumnCount(), (size_t)n, "getColumnCount");
    if (c.flag()) {prefix = "## "; pr.setPrefix("old"); pr.setPrefix(prefix);}
    if (c.verbose()) for (auto& x : cols) c.log("column flush " + std::string(x.left ? "left" : "right") + " prefix " + shown(x.prefix) + " suffix " + shown(x.suffix));
    static const char* T[] = {"x", "yyy", "\n", "ab\n", "p q", "\nz", "12345\n1"};
    const int texts = n == 1 ? 7 : 4;
    for (int s = 0; s < depth; ++s) {
      // what is printed does not depend on what was printed before
      const int k = c.choose(n * (texts + 2) + 1 + (all ? 1 : 0));
      if (k == n * (texts + 2)) break;
      if (k > n * (texts + 2)) {
        c.log("repeat '=' to the end of the line in every column");
        pr.repeatToEndOfLine('=');
        for (auto& x : cols) x.pieces.push_back({"", '='});
      } else {
        const int col = k / (texts + 2), t = k % (texts + 2);
        if (t < texts) {
          if (c.verbose()) c.log("column " + mc::str(col) + " << " + shown(T[t]));
          pr[col] << T[t]; cols[col].pieces.push_back({T[t], 0});
        } else {
          const char ch = t == texts ? '-' : '.';
          if (c.verbose()) c.log(std::string("column ") + mc::str(col) + " repeat " + ch);
          pr.repeatToEndOfLine(ch, col); cols[col].pieces.push_back({"", ch});
        }
      }
      if (s == depth / 2) compare(c, pr, prefix, cols, false);
    }
    compare(c, pr, prefix, cols, depth < 4);
    if (c.flag()) { // a column more after printing
      std::ostream& o = pr.addColumn(false, "/", "/");
      o << 12 << '\n';
      pr[n] << "345";
      Col x = {false, "/", "/", {{"12\n345", 0}}};
      cols.push_back(x);
      compare(c, pr, prefix, cols, true);
    }
  }
  // Many columns, many rows, long texts.
  void large(mc::Ctx& c, const std::vector<int>& sizes) {
    const int n = sizes[c.choose((int)sizes.size())], rows = sizes[c.choose((int)sizes.size())], p = c.choose(4);
    if (n > 3000000 / rows / 4) return;
    mathic::ColumnPrinter pr(p == 0 ? n : 0);
    std::vector<Col> cols;
    for (int i = 0; i < n; ++i) {
      Col col = {true, "  ", "", {}};
      if (p != 0) {col.left = i % 3 == 0; col.prefix = std::string(i % 4, '>'); col.suffix = i % 5 ? "|" : ""; pr.addColumn(col.left, col.prefix, col.suffix);}
      const int has = p == 1 ? (rows * (i + 1)) / n : p == 2 ? rows - i % 2 : rows;
      for (int r = 0; r < has; ++r) {
        std::string t;
        if ((i + r) % 13 == 12) {pr.repeatToEndOfLine("-=."[r % 3], i); col.pieces.push_back({"", "-=."[r % 3]}); continue;}
        t = p == 3 && r == rows / 2 && i % 50 == 0 ? std::string(250 + i % 20, 'w') : mc::str((long)(i * 7919L + r * 104729L) % (r % 7 == 0 ? 1000000007L : 100));
        if (r + 1 < has || i % 2 == 0) t += "\n";
        pr[i] << t; col.pieces.push_back({t, 0});
      }
      cols.push_back(col);
    }
    if (c.verbose()) c.log(mc::str(n) + " columns of " + mc::str(rows) + " rows, pattern " + mc::str(p));
    mc::checkEq(pr.getColumnCount(), (size_t)n, "getColumnCount");
    const std::string want = layout("", cols);
    std::ostringstream o; o << pr;
    if (o.str() != want) {
      size_t i = 0; while (i < want.size() && i < o.str().size() && o.str()[i] == want[i]) ++i;
      mc::fail("printed text of length " + mc::str(o.str().size()) + " instead of " + mc::str(want.size()) + ", different from place " + mc::str(i));
    }
    c.step(); c.state(mc::hashStr(want)); c.outcome(mc::hashStr(want));
  }
}
void mc::registerSuites() {
  mc::add("columns/large", [](mc::Ctx& c) {large(c, c.mTier == mc::Quick ? std::vector<int>{1, 7, 130, 300} : std::vector<int>{1, 2, 7, 40, 130, 256, 257, 300, 1000, 66000});}, 3);
  mc::add("columns/none", [](mc::Ctx& c) {body(c, 0, 1, false);}, 1);
  mc::add("columns/one", [](mc::Ctx& c) {body(c, 1, c.tier(4, 6), false);}, 3);
  mc::add("columns/two", [](mc::Ctx& c) {body(c, 2, c.tier(3, 4), true);}, 4);
  mc::add("columns/three", [](mc::Ctx& c) {body(c, 3, c.tier(3, 4), true);}, 4);
}
