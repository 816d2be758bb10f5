// The number formats of ColumnPrinter against exact arithmetic.
#include "mathic/ColumnPrinter.h"
#include "mc.h"
#include <limits>
#include <set>
namespace {
  typedef mathic::ColumnPrinter P;
  typedef unsigned long long U;
  typedef unsigned __int128 W;
  const U Max = std::numeric_limits<U>::max();

  // Parses D+.D ; fails otherwise.  Returns ten times the value.
  U tenths(const std::string& s, const std::string& what) {
    const size_t dot = s.find('.');
    bool ok = dot != std::string::npos && dot > 0 && dot + 2 == s.size() && (s[0] != '0' || dot == 1);
    for (size_t i = 0; ok && i < s.size(); ++i) if (i != dot && (s[i] < '0' || s[i] > '9')) ok = false;
    if (!ok) mc::fail(what + " gave \"" + s + "\", which is not a number with one decimal");
    return std::stoull(s.substr(0, dot)) * 10 + (s[dot + 1] - '0');
  }
  std::string call(const char* f, U a) {return std::string(f) + "(" + mc::str(a) + ")";}
  std::string call(const char* f, U a, U b) {return std::string(f) + "(" + mc::str(a) + ", " + mc::str(b) + ")";}

  void commafy(U x) {
    const std::string s = P::commafy(x);
    // built the other way round: from the number by three digits at a time
    std::string want;
    U r = x;
    do {
      std::string part = mc::str(r % 1000);
      r /= 1000;
      if (r) part = std::string(3 - part.size(), '0') + part;
      want = want.empty() ? part : part + "," + want;
    } while (r);
    if (s != want) mc::fail(call("commafy", x) + " gave \"" + s + "\", expected \"" + want + "\"");
  }

  // t tenths for the exact value num/den.
  void closest(U t, W num, W den, const std::string& what, const std::string& got, bool ties = true) {
    // |t/10 - num/den| <= 1/20 (1 + tolerance of double arithmetic)
    const long double exact = (long double)num / (long double)den * 10;
    const long double diff = (long double)t - exact;
    const long double tol = exact < 1e9L ? 1e-6L : exact * 1e-14L;
    if (diff > 0.5L + tol || diff < -0.5L - tol)
      mc::fail(what + " gave " + got);
    // halves that are exact in binary go up (for operands that a double holds exactly)
    if (ties && exact < 1e9L && num < ((W)1 << 50) && den < ((W)1 << 50) && (20 * num) % den == 0 && ((20 * num) / den) % 2 == 1) {
      const bool representable = (8 * num) % den == 0;
      if (representable && diff < 0) mc::fail(what + " gave " + got + ": a half is to be rounded up");
    }
  }
  void ratio(U n, U d) {
    {
      const std::string s = P::ratioInteger(n, d), what = call("ratioInteger", n, d);
      if (d == 0) {
        if (s != (n == 0 ? "0/0" : "?/0")) mc::fail(what + " gave " + s);
      } else closest(tenths(s, what), n, d, what, s);
    }
    const std::string s = P::percentInteger(n, d), what = call("percentInteger", n, d);
    if (s.empty() || s.back() != '%') mc::fail(what + " gave " + s + ": no % at the end");
    const std::string num = s.substr(0, s.size() - 1);
    bool small = true;
    if (d == 0) {
      if (num != (n == 0 ? "0/0" : "?/0")) mc::fail(what + " gave " + s);
    } else {
      const U t = tenths(num, what);
      closest(t, (W)n * 100, d, what, s);
      small = t <= 9999;
    }
    const std::string f = P::percentIntegerFixed(n, d);
    std::string want = s;
    if (small) {
      if (f.size() != 6) mc::fail(call("percentIntegerFixed", n, d) + " gave \"" + f + "\", which is not 6 characters");
      while (want.size() < 6) want = " " + want;
    }
    if (f != want) mc::fail(call("percentIntegerFixed", n, d) + " gave \"" + f + "\", expected \"" + want + "\"");
  }
  void withUnit(U x, U base, const char* const* units, const std::string& s, const char* name) {
    const std::string what = call(name, x);
    if (x < base) {
      if (s != mc::str(x) + units[0]) mc::fail(what + " gave " + s);
      return;
    }
    const size_t pos = s.find_first_not_of("0123456789.");
    if (pos == std::string::npos) mc::fail(what + " gave " + s + ": no unit");
    const std::string unit = s.substr(pos);
    W f = 1; int u = 0;
    for (u = 1; u <= 6; ++u) {f *= base; if (unit == units[u]) break;}
    if (u > 6) mc::fail(what + " gave " + s + ": unknown unit");
    const U t = tenths(s.substr(0, pos), what);
    closest(t, x, f, what, s);
    if (t < 10) mc::fail(what + " gave " + s + ": a smaller unit should be used");
    if (u < 6 && t >= base * 10) mc::fail(what + " gave " + s + ": a larger unit should be used");
    // the smallest unit in which the rounded amount stays below the base
    if (u > 1) {
      const W smaller = f / base;
      // rounded amount in the smaller unit, in tenths, must reach base*10
      // (an amount within the precision of a double of the limit may go either way)
      if ((W)x * 20 + x / 1000000000000000ULL * 100 + smaller * 1 < (W)base * 10 * 2 * smaller) mc::fail(what + " gave " + s + ": a smaller unit would do");
    }
  }
  void si(U x) {
    static const char* const units[] = {"", "k", "M", "G", "T", "P", "E"};
    withUnit(x, 1000, units, P::withSIPrefix(x), "withSIPrefix");
  }
  void bytes(U x) {
    static const char* const units[] = {"B", "kB", "MB", "GB", "TB", "PB", "EB"};
    withUnit(x, 1024, units, P::bytesInUnit(x), "bytesInUnit");
  }
  void doubles(U n, U d, int scale) {
    // n / (d * 2^scale), all exact
    const double den = (double)d * (double)(1 << scale), num = (double)n;
    std::ostringstream o; o << "ratioDouble(" << num << ", " << den << ")";
    const std::string s = P::ratioDouble(num, den), p = P::percentDouble(num, den);
    if (d == 0) {
      if (s != (n == 0 ? "0/0" : "?/0") || p != s + "%") mc::fail(o.str() + " gave " + s + " and " + p);
      return;
    }
    closest(tenths(s, o.str()), n, (W)d << scale, o.str(), s);
    if (p.empty() || p.back() != '%') mc::fail("percentDouble gave " + p);
    closest(tenths(p.substr(0, p.size() - 1), o.str()), (W)n * 100, (W)d << scale, "percentDouble for " + o.str(), p);
    const std::string q = P::percentDouble(num / den);
    if (q.empty() || q.back() != '%') mc::fail("percentDouble gave " + q);
    closest(tenths(q.substr(0, q.size() - 1), o.str()), (W)n * 100, (W)d << scale, "percentDouble of the ratio for " + o.str(), q, (d & (d - 1)) == 0);
    const std::string r = P::oneDecimal(num / den);
    closest(tenths(r, o.str()), n, (W)d << scale, "oneDecimal for " + o.str(), r, (d & (d - 1)) == 0);
  }
  const std::vector<U>& special() {
    static std::vector<U> v;
    if (!v.empty()) return v;
    std::set<U> s;
    const int R = 3;
    auto around = [&](W x) {
      for (int i = -R; i <= R; ++i) {
        if (i < 0 && x < (W)-i) continue;
        const W y = x + i;
        if (y <= Max) s.insert((U)y);
      }
    };
    around(0); around(Max);
    for (int k = 0; k < 64; ++k) around((W)1 << k);
    W p = 1;
    for (int k = 0; k < 20; ++k) {
      for (U m : {1, 2, 5, 9, 10, 15, 25, 99, 100, 105, 115, 125, 999, 9994, 9995, 9996, 9999, 99949, 99950, 99951, 10005, 12345, 99995})
        around(p * m);
      p *= 10;
    }
    p = 1;
    for (int k = 0; k < 7; ++k) {
      for (U m : {1, 2, 10, 100, 999, 1000, 1023}) around(p * m);
      around(p * 102394 / 100); around(p * 102395 / 100); around(p * 102396 / 100); around(p * 105 / 100); around(p * 115 / 100); around(p * 10239 / 10);
      p *= 1024;
    }
    v.assign(s.begin(), s.end());
    return v;
  }
  void ranges(mc::Ctx& c, int total) {
    const int chunk = c.choose(total / 1000);
    c.log("numbers from " + mc::str(chunk * 1000));
    for (U x = (U)chunk * 1000; x < (U)chunk * 1000 + 1000; ++x) {commafy(x); si(x); bytes(x); c.step();}
    c.state(chunk); c.outcome(mc::hashStr(P::withSIPrefix(chunk * 1000)));
  }
  void specials(mc::Ctx& c) {
    const std::vector<U>& v = special();
    const U x = v[c.choose((int)v.size())];
    c.log("number " + mc::str(x));
    commafy(x); si(x); bytes(x);
    c.step(); c.state(x); c.outcome(mc::hashStr(P::withSIPrefix(x) + P::bytesInUnit(x)));
  }
  void specialRatios(mc::Ctx& c) {
    const std::vector<U>& v = special();
    const U d = v[c.choose((int)v.size())];
    c.log("denominator " + mc::str(d));
    for (U n : v) {
      // results beyond what one decimal of a 64 bit number can hold are out of scope
      if (d != 0 && (W)n * 1000 / d > (W)1 << 60) continue;
      ratio(n, d); c.step();
    }
    c.state(d); c.outcome(mc::hashStr(P::percentInteger(d, 777)));
  }
  void grid(mc::Ctx& c, int max) {
    const U d = c.choose(max);
    c.log("denominator " + mc::str(d));
    for (U n = 0; n < (U)max * 12; ++n) {ratio(n, d); c.step();}
    c.state(d); c.outcome(mc::hashStr(P::percentInteger(d, 777)));
  }
  void doubleGrid(mc::Ctx& c, int max) {
    const U d = c.choose(max);
    const int scale = c.choose(8);
    c.log("denominator " + mc::str(d) + " * 2^" + mc::str(scale));
    for (U n = 0; n < (U)max * 3; ++n) {doubles(n, d, scale); c.step();}
    c.state(d * 8 + scale); c.outcome(mc::hashStr(P::ratioDouble(d, 7)));
  }
}
void mc::registerSuites() {
  mc::add("numbers/range", [](mc::Ctx& c) {ranges(c, c.tier(1100000, 20000000));}, 1);
  mc::add("numbers/special", specials, 1);
  mc::add("numbers/special ratios", specialRatios, 1);
  mc::add("numbers/grid", [](mc::Ctx& c) {grid(c, c.tier(260, 1100));}, 1);
  mc::add("numbers/doubles", [](mc::Ctx& c) {doubleGrid(c, c.tier(90, 400));}, 2);
}
