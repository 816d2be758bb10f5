// Timer under a clock that the explorer sets.
#include "mathic/Timer.h"
#include "capture.h"
#include "mc.h"
#include <ctime>
namespace {std::clock_t now = 0;}
extern "C" clock_t clock() noexcept {return now;}
namespace {
  typedef long long L;
  const L CPS = CLOCKS_PER_SEC;
  // the text for a number of milliseconds
  std::string text(L ms) {
    char b[100];
    const L h = ms / 3600000, m = ms / 60000 % 60, s = ms / 1000 % 60, r = ms % 1000;
    if (h) snprintf(b, 100, "%lldh%lldm%lld.%03llds", h, m, s, r);
    else if (m) snprintf(b, 100, "%lldm%lld.%03llds", m, s, r);
    else snprintf(b, 100, "%lld.%03llds", s, r);
    return b;
  }
  std::string toFile(const mathic::Timer& t) {
    char* buf = 0; size_t size = 0;
    FILE* f = open_memstream(&buf, &size);
    t.print(f);
    fclose(f);
    std::string r(buf, size);
    free(buf);
    return r;
  }
  void observe(mc::Ctx& c, const mathic::Timer& t, L start) {
    const L span = (L)now - start;
    const L ms = t.getMilliseconds();
    // rounded to the nearest; an exact half may go either way
    const L twice = span * 2000 - ms * 2 * CPS;
    if (twice > CPS || twice < -CPS) {
      std::ostringstream o;
      o << "getMilliseconds after " << span << " ticks of " << CPS << " per second: " << ms;
      mc::fail(o.str());
    }
    const std::string want = text(ms);
    std::ostringstream o1, o2;
    t.print(o1); o2 << t;
    if (o1.str() != want) mc::fail("print(ostream) gave \"" + o1.str() + "\", expected \"" + want + "\"");
    if (o2.str() != want) mc::fail("operator<< gave \"" + o2.str() + "\", expected \"" + want + "\"");
    const std::string f = toFile(t);
    if (f != "(" + want + ")") mc::fail("print(FILE) gave \"" + f + "\", expected \"(" + want + ")\"");
    c.step(); c.state(mc::mix(start, now)); c.outcome(ms);
  }
  void ranges(mc::Ctx& c, int chunks) {
    static const L starts[] = {0, 1, 123456789, 3000000000LL};
    now = starts[c.choose(4)];
    const L start = now;
    const mathic::Timer t;
    // blocks of 1000 ticks at the beginning, and around all the places where the format changes
    static const L bases[] = {0, 59, 60, 61, 119, 120, 599, 600, 3599, 3600, 3601, 3659, 3660, 7199, 7200, 35999, 36000, 86399, 86400, 360000, 1000000};
    const int b = c.choose(21), k = c.choose(chunks);
    const L from = bases[b] * CPS + (b ? -chunks * 500 : 0) + k * 1000;
    c.log("start " + mc::str(start) + " ticks from " + mc::str(from));
    for (L x = from; x < from + 1000; x += b ? 7 : 1) {
      if (x < 0) continue;
      now = start + x;
      observe(c, t, start);
    }
  }
  void seconds(mc::Ctx& c, int hours) {
    now = 42;
    const mathic::Timer t;
    const int m = c.choose(hours * 60);
    static const L part[] = {0, 499, 500, 999, 1000, 9500, 10000, 99499, 99500, 100000, 500000, 999499, 999500, 999999};
    c.log("minute " + mc::str(m));
    for (int s = 0; s < 60; ++s) for (L p : part) {
      now = 42 + ((L)m * 60 + s) * CPS + p;
      observe(c, t, 42);
    }
  }
  // two timers that are reset and read while time goes on
  void histories(mc::Ctx& c, int depth) {
    static const L steps[] = {0, 499, 501, 1000, 59999500, 3599000000LL, 999};
    now = 17;
    mathic::Timer a;
    now += 400;
    mathic::Timer b;
    L sa = 17, sb = 417;
    for (int i = 0; i < depth; ++i) {
      const int x = c.choose(10);
      if (x < 7) {c.log("time passes: " + mc::str(steps[x])); now += steps[x];}
      else if (x == 7) {c.log("reset a"); a.reset(); sa = now;}
      else if (x == 8) {c.log("reset b"); b.reset(); sb = now;}
      else {c.log("a = b"); a = b; sa = sb;}
      observe(c, a, sa); observe(c, b, sb);
    }
  }
}
void mc::registerSuites() {
  mc::add("timer/ranges", [](mc::Ctx& c) {ranges(c, c.tier(20, 200));}, 2);
  mc::add("timer/seconds", [](mc::Ctx& c) {seconds(c, c.tier(3, 30));}, 1);
  mc::add("timer/histories", [](mc::Ctx& c) {histories(c, c.tier(4, 5));}, 2);
}
