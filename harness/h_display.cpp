// Messages to the user: line breaking of display(), prefixes of the message kinds and
// what the error functions throw.
#include "mathic/display.h"
#include "mathic/error.h"
#include "capture.h"
#include "mc.h"
namespace {
  const size_t Width = 79;
  std::string shown(const std::string& s) {
    std::string r;
    for (char c : s) if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else r += c;
    return "\"" + r + "\"";
  }
  bool white(char c) {return c == ' ' || c == '\t';}
  std::string rstrip(std::string s) {
    while (!s.empty() && white(s.back())) s.erase(s.size() - 1);
    return s;
  }
  std::vector<std::string> split(const std::string& s) {
    std::vector<std::string> r; std::string cur;
    for (char c : s) if (c == '\n') {r.push_back(cur); cur.clear();} else cur += c;
    if (!cur.empty()) r.push_back(cur);
    return r;
  }
  // the lines that are to be printed, without whitespace at the end
  std::vector<std::string> layout(const std::string& msg, const std::string& prefix) {
    std::vector<std::string> out;
    for (const std::string& line : split(msg)) {
      size_t p = 0;
      while (p < line.size() && white(line[p])) ++p;
      const std::string lead = prefix + line.substr(0, p);
      std::string cur = lead;
      bool any = false;
      while (p < line.size()) {
        size_t w = p;
        while (w < line.size() && white(line[w])) ++w;
        if (w == line.size()) break;
        size_t e = w;
        while (e < line.size() && !white(line[e])) ++e;
        const std::string space = any ? line.substr(p, w - p) : "", word = line.substr(w, e - w);
        if (any && cur.size() + space.size() + word.size() > Width) {
          out.push_back(rstrip(cur));
          cur = lead + word;
        } else cur += space + word;
        any = true;
        p = e;
      }
      out.push_back(rstrip(cur));
    }
    return out;
  }
  void compare(mc::Ctx& c, const std::string& got, const std::string& msg, const std::string& prefix) {
    if (c.verbose()) c.log("message " + shown(msg) + " prefix " + shown(prefix));
    const std::vector<std::string> want = layout(msg, prefix);
    std::vector<std::string> lines = split(got);
    for (auto& l : lines) l = rstrip(l);
    // only whitespace after the last newline is not specified
    const size_t nl = msg.rfind('\n');
    const std::string last = nl == std::string::npos ? msg : msg.substr(nl + 1);
    bool blankEnd = rstrip(last).empty() && !last.empty();
    if (!blankEnd && !got.empty() && got.back() != '\n') mc::fail("no newline at the end of " + shown(got));
    std::vector<std::string> w = want;
    if (blankEnd) { // the trailing blank line may or may not appear
      w.pop_back();
      while (lines.size() > w.size() && lines.back() == rstrip(prefix)) lines.pop_back();
    }
    if (lines != w) {
      std::string e;
      for (auto& l : w) e += l + "\n";
      mc::fail("displayed " + shown(got) + ", expected " + shown(e));
    }
    c.step(); c.state(mc::hashStr(got)); c.outcome(mc::hashStr(got));
  }
  const char* const Prefixes[] = {"", "> ", "            ", "error in something: "};
  std::string chooseMessage(mc::Ctx& c, const std::vector<int>& lens, int depth) {
    static const char* const Seps[] = {" ", "   ", "\n", "\n  ", "\n\n", " \n\t", "\t"};
    static const char* const Leads[] = {"", "    ", "\n", "\n "};
    static const char* const Ends[] = {"", "\n", "  ", "\n\n", " \n "};
    std::string msg = Leads[c.choose(4)];
    const int words = c.choose(depth + 1);
    for (int i = 0; i < words; ++i) {
      if (i) msg += Seps[c.choose(7)];
      const int len = lens[c.choose((int)lens.size())];
      std::string w(len, (char)('a' + i));
      w[0] = (char)('A' + i);
      msg += w;
    }
    msg += Ends[c.choose(5)];
    return msg;
  }
  void free_(mc::Ctx& c, const std::vector<int>& lens, int depth) {
    const std::string prefix = Prefixes[c.choose(4)];
    const std::string msg = chooseMessage(c, lens, depth);
    Capture cap;
    if (prefix.empty() && c.flag()) mathic::display(msg);
    else mathic::display(msg, prefix);
    compare(c, cap.stop(), msg, prefix);
  }
  // words of every length around the width
  void boundary(mc::Ctx& c, int span) {
    const std::string prefix = Prefixes[c.choose(4)];
    const std::string indent(c.choose(4), ' ');
    const int first = 1 + c.choose(100);
    const int gap = 1 + c.choose(3);
    const int base = (int)Width - (int)prefix.size() - (int)indent.size() - first - gap;
    const int second = base - span + c.choose(2 * span + 1);
    if (second < 1) return;
    const std::string msg = indent + std::string(first, 'a') + std::string(gap, ' ') + std::string(second, 'b') + " c";
    Capture cap;
    mathic::display(msg, prefix);
    compare(c, cap.stop(), msg, prefix);
  }
  void sentences(mc::Ctx& c, int max) {
    // many words of one or two lengths
    const std::string prefix = Prefixes[c.choose(4)];
    const int a = 1 + c.choose(max), b = 1 + c.choose(max), n = 10 + c.choose(5) * 15;
    std::string msg = c.flag() ? "  " : "";
    for (int i = 0; i < n; ++i) {
      if (i) msg += i % 7 == 6 ? "  " : " ";
      msg += std::string(i % 2 ? a : b, (char)('a' + i % 26));
    }
    if (c.flag()) msg += "\n  and " + msg;
    Capture cap;
    mathic::display(msg, prefix);
    compare(c, cap.stop(), msg, prefix);
  }
  void kinds(mc::Ctx& c, int depth) {
    const int k = c.choose(4);
    const std::string msg = chooseMessage(c, {1, 9, 70, 79, 90}, depth);
    Capture cap;
    std::string full;
    switch (k) {
    case 0: mathic::displayNote(msg); full = "NOTE: " + msg + "\n"; break;
    case 1: mathic::displayError(msg); full = "ERROR: " + msg + "\n"; break;
    case 2: mathic::displayInternalError(msg); full = "INTERNAL ERROR: " + msg + "\n"; break;
    default: mathic::displayException(std::runtime_error(msg)); full = msg; break;
    }
    compare(c, cap.stop(), full, "");
  }
  template<class E> void caught(const std::string& kind, const std::string& msg) {
    try {mathic::throwError<E>(msg);}
    catch (const mathic::MathicException& e) {
      if (dynamic_cast<const E*>(&e) == 0) mc::fail(kind + ": another type was thrown");
      mc::checkEq(shown(e.what()), shown("ERROR: " + msg + "\n"), kind.c_str());
      return;
    } catch (const std::exception& e) {mc::fail(kind + " is not a MathicException");}
    mc::fail(kind + ": nothing was thrown");
  }
  void errors(mc::Ctx& c, int depth) {
    const std::string msg = chooseMessage(c, {1, 9, 79, 90}, depth);
    if (c.verbose()) c.log("message " + shown(msg));
    Capture cap;
    bool ok = false;
    try {mathic::reportError(msg);} catch (const mathic::MathicException& e) {
      ok = true;
      const std::runtime_error& r = e;
      mc::checkEq(shown(r.what()), shown("ERROR: " + msg), "reportError");
    } catch (...) {}
    mc::check(ok, "reportError did not throw a MathicException");
    ok = false;
    try {mathic::reportInternalError(msg);} catch (const mathic::MathicException&) {
      mc::fail("an internal error is reported as an expected error");
    } catch (const mathic::InternalMathicException& e) {
      ok = true;
      const std::logic_error& r = e;
      mc::checkEq(shown(r.what()), shown("INTERNAL ERROR: " + msg), "reportInternalError");
    } catch (...) {}
    mc::check(ok, "reportInternalError did not throw an InternalMathicException");
    ok = false;
    try {mathic::reportInternalError(msg, "some/file.cpp", 1234567);} catch (const mathic::InternalMathicException& e) {
      ok = true;
      const std::string w = e.what();
      if (w.find("INTERNAL ERROR: " + msg) != 0) mc::fail("the message of an internal error is lost: " + shown(w));
      if (w.find("some/file.cpp", msg.size()) == std::string::npos || w.find("1234567", msg.size()) == std::string::npos)
        mc::fail("an internal error does not say where: " + shown(w));
    } catch (...) {}
    mc::check(ok, "reportInternalError with a location did not throw an InternalMathicException");
    ok = false;
    using mathic::reportInternalError;
    try {MATHIC_INTERNAL_ERROR(msg);} catch (const mathic::InternalMathicException& e) {
      ok = std::string(e.what()).find("h_display.cpp") != std::string::npos;
    } catch (...) {}
    mc::check(ok, "MATHIC_INTERNAL_ERROR");
    caught<mathic::UnknownNameException>("UnknownNameException", msg);
    caught<mathic::AmbiguousNameException>("AmbiguousNameException", msg);
    caught<mathic::UnsupportedException>("UnsupportedException", msg);
    mc::checkEq(cap.stop(), std::string(), "printed by the error functions");
    c.step(); c.state(mc::hashStr(msg)); c.outcome(mc::hashStr(msg));
  }
  // Very long words, messages, lines and prefixes.
  void large(mc::Ctx& c, const std::vector<int>& sizes) {
    std::string prefix(c.choose(2) * 100, '#');
    const int n = sizes[c.choose((int)sizes.size())], w = sizes[c.choose((int)sizes.size())], p = c.choose(3);
    if (n > 400000 / w) return;
    std::string msg;
    for (int i = 0; i < n; ++i) {
      if (i) msg += p == 0 ? " " : p == 1 ? (i % 11 == 10 ? "\n" : i % 7 == 3 ? "    " : " ") : std::string(i % 13 == 5 ? 300 : 1, ' ');
      msg += std::string(w + (p == 0 ? 0 : i % 5), (char)('a' + i % 26));
    }
    if (p == 2) msg = std::string(90, ' ') + msg + "\n";
    Capture cap;
    mathic::display(msg, prefix);
    compare(c, cap.stop(), msg, prefix);
  }
}
void mc::registerSuites() {
  mc::add("display/large", [](mc::Ctx& c) {large(c, c.mTier == mc::Quick ? std::vector<int>{1, 5, 80, 300, 2000} : std::vector<int>{1, 2, 5, 40, 80, 127, 128, 255, 256, 300, 2000, 66000});}, 4);
  mc::add("display/messages", [](mc::Ctx& c) {free_(c, {1, 10, 38, 39, 40, 66, 80}, c.tier(3, 4));}, 3);
  mc::add("display/boundary", [](mc::Ctx& c) {boundary(c, c.tier(3, 10));}, 3);
  mc::add("display/sentences", [](mc::Ctx& c) {sentences(c, c.tier(14, 40));}, 3);
  mc::add("display/kinds", [](mc::Ctx& c) {kinds(c, c.tier(2, 3));}, 3);
  mc::add("errors/thrown", [](mc::Ctx& c) {errors(c, c.tier(2, 3));}, 2);
}
