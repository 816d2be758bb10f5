// The command line framework: name factory, parser, parameters, help.
#include "mathic/NameFactory.h"
#include "mathic/CliParser.h"
#include "mathic/CliParameter.h"
#include "mathic/BoolParameter.h"
#include "mathic/IntegerParameter.h"
#include "mathic/StringParameter.h"
#include "mathic/HelpAction.h"
#include "mathic/Action.h"
#include "mathic/error.h"
#include "capture.h"
#include "mc.h"
#include <algorithm>
#include <set>
#include <map>
namespace {
  using namespace mathic;
  enum Err {None, Unknown, Ambiguous, Plain, Other};
  const char* errName(int e) {
    static const char* n[] = {"no error", "UnknownNameException", "AmbiguousNameException", "MathicException", "another exception"};
    return n[e];
  }
  template<class F> Err run(F f, std::string* what = 0) {
    try {f(); return None;}
    catch (const UnknownNameException& e) {if (what) *what = e.what(); return Unknown;}
    catch (const AmbiguousNameException& e) {if (what) *what = e.what(); return Ambiguous;}
    catch (const MathicException& e) {if (what) *what = e.what(); return Plain;}
    catch (const std::exception& e) {if (what) *what = e.what(); return Other;}
  }
  std::string q(const std::string& s) {return "\"" + s + "\"";}

  // ---- name factory
  struct Product {
    virtual ~Product() {--live;}
    Product() {++live;}
    virtual int id() const = 0;
    static long live;
  };
  long Product::live = 0;
  const char* const Names[] = {"a", "ab", "abc", "b", "ba", "aB", "cc", "", "abd"};
  const int NameCount = 9;
  template<int I> struct P : public Product {
    int id() const {return I;}
    static const char* staticName() {return Names[I];}
  };
  template<int I> void reg(NameFactory<Product>& f, int how) {
    if (how == 0) nameFactoryRegister<P<I> >(f);
    else if (how == 1) nameFactoryRegister<P<I> >(f, std::string(Names[I]));
    else f.registerProduct(Names[I], []() {return std::unique_ptr<Product>(new P<I>());});
  }
  void regAny(NameFactory<Product>& f, int i, int how) {
    switch (i) {
    case 0: reg<0>(f, how); break; case 1: reg<1>(f, how); break; case 2: reg<2>(f, how); break;
    case 3: reg<3>(f, how); break; case 4: reg<4>(f, how); break; case 5: reg<5>(f, how); break;
    case 6: reg<6>(f, how); break; case 7: reg<7>(f, how); break; default: reg<8>(f, how); break;
    }
  }
  void queries(mc::Ctx& c, const NameFactory<Product>& f, const std::vector<int>& in) {
    static std::vector<std::string> qs;
    if (qs.empty()) {
      const std::string alpha = "abcdB";
      std::vector<std::string> level(1, "");
      for (int d = 0; d <= 4; ++d) {
        qs.insert(qs.end(), level.begin(), level.end());
        std::vector<std::string> next;
        for (auto& s : level) for (char ch : alpha) next.push_back(s + ch);
        level.swap(next);
        if (d == 3) break;
      }
      qs.push_back("abcd"); qs.push_back("thing"); qs.push_back(std::string("a\0", 2)); qs.push_back("a ");
    }
    mc::checkEq(f.empty(), in.empty(), "empty");
    mc::checkEq(f.abstractProductName(), std::string("thing"), "abstractProductName");
    uint64_t sig = 1;
    for (const std::string& s : qs) {
      std::set<std::string> match; int exact = -1, only = -1;
      for (int i : in) {
        const std::string n = Names[i];
        if (n.size() >= s.size() && n.substr(0, s.size()) == s) {match.insert(n); only = i;}
        if (n == s) exact = i;
      }
      std::vector<std::string> got;
      f.namesWithPrefix(s, got);
      if (got != std::vector<std::string>(match.begin(), match.end()))
        mc::fail("namesWithPrefix " + q(s) + " gave " + mc::list(got) + ", expected " + mc::list(match));
      {
        std::unique_ptr<Product> p = f.createNullOnUnknown(s);
        if ((p ? p->id() : -1) != exact) mc::fail("createNullOnUnknown " + q(s));
        int id = -1;
        std::string what;
        const Err e = run([&] {id = f.create(s)->id();}, &what);
        if (e != (exact >= 0 ? None : Unknown) || id != exact) mc::fail("create " + q(s) + ": " + errName(e));
        if (e != None && what.find("thing") == std::string::npos) mc::fail("the message of create does not say what is unknown: " + what);
      }
      const Err want = exact >= 0 ? None : match.empty() ? Unknown : match.size() > 1 ? Ambiguous : None;
      if (want == None && exact >= 0) only = exact;
      std::string name, what; int id = -1;
      Err e = run([&] {name = uniqueNameWithPrefix(f, s);}, &what);
      if (e != want) mc::fail("uniqueNameWithPrefix " + q(s) + " gave " + errName(e) + ", expected " + errName(want));
      if (e == None && name != Names[only]) mc::fail("uniqueNameWithPrefix " + q(s) + " gave " + q(name));
      if (e != None && s.find((char)0) == std::string::npos && what.find(q(s)) == std::string::npos) mc::fail("the message does not contain the prefix " + q(s) + ": " + what);
      if (e == Ambiguous) for (auto& n : match) if (what.find(n) == std::string::npos)
        mc::fail("the message does not list the candidate " + n + ": " + what);
      e = run([&] {id = createWithPrefix(f, s)->id();});
      if (e != want || (e == None && id != only)) mc::fail("createWithPrefix " + q(s) + " gave " + errName(e) + " id " + mc::str(id));
      sig = mc::mix(sig, e * 100 + id);
      c.step();
    }
    mc::checkEq(Product::live, 0L, "products left");
    c.state(sig); c.outcome(sig);
  }
  // every selection of names registered in every order
  void factory(mc::Ctx& c, int max) {
    NameFactory<Product> f("thing");
    std::vector<int> left, in;
    for (int i = 0; i < NameCount; ++i) left.push_back(i);
    const int n = c.choose(max + 1);
    const int how = c.choose(3);
    if (n == 0) queries(c, f, in);
    for (int i = 0; i < n; ++i) {
      const int k = c.choose((int)left.size());
      c.log("register " + q(Names[left[k]]));
      regAny(f, left[k], (how + i) % 3);
      in.push_back(left[k]);
      left.erase(left.begin() + k);
    }
    queries(c, f, in);
    NameFactory<Product> copy(f);
    if (!left.empty()) {regAny(copy, left[0], 0); std::vector<int> more(in); more.push_back(left[0]); if (n < 2) queries(c, copy, more);}
    if (n < 2) queries(c, f, in);
  }

  // ---- parameters
  struct Value {bool b; unsigned i; std::string s;};
  void boolean(mc::Ctx& c, int depth) {
    const bool def = c.flag();
    BoolParameter p("flag", "desc", def);
    mc::checkEq(p.value(), def, "default");
    bool want = def;
    for (int s = 0; s < depth; ++s) {
      static const char* const A[] = {"", "on", "off", "On", "ON", "o", "onn", "of", "offf", " on", "on ", "true", "1", "0", "yes", "OFF", "false", "\n", "no", "-on"};
      const int k = c.choose(22);
      if (k >= 20) {
        c.log(k == 20 ? "assign true" : "setValue(false)");
        if (k == 20) {p = true; want = true;} else {p.setValue(false); want = false;}
      } else {
        c.log("argument " + q(A[k]));
        const bool ok = k < 3;
        std::string what;
        const Err e = run([&] {p.processArgument(A[k]);}, &what);
        if (e != (ok ? None : Plain)) mc::fail("argument " + q(A[k]) + " gave " + errName(e));
        if (ok) want = k < 2;
        else if (what.find("flag") == std::string::npos) mc::fail("the message does not name the option: " + what);
      }
      mc::checkEq(p.value(), want, "value"); mc::checkEq((bool)p, want, "conversion");
      mc::checkEq(p.valueAsString(), std::string(want ? "on" : "off"), "valueAsString");
      BoolParameter o("other", "", !want);
      o.processArgument(p.valueAsString());
      mc::checkEq(o.value(), want, "value read back from valueAsString");
      c.step(); c.state(want + 1); c.outcome(want * 32 + k);
    }
  }
  bool canonical(const std::string& s, unsigned long long& v) {
    if (s.empty() || s.size() > 18 || (s[0] == '0' && s.size() > 1)) {
      // too long: not a value of 32 bits; say it is not acceptable
      return false;
    }
    v = 0;
    for (char ch : s) {if (ch < '0' || ch > '9') return false; v = v * 10 + (ch - '0');}
    return true;
  }
  void oneInteger(mc::Ctx& c, IntegerParameter& p, unsigned& want, const std::string& a) {
    if (c.verbose()) c.log("argument " + q(a));
    unsigned long long v = 0;
    const bool can = canonical(a, v);
    std::string what;
    const Err e = run([&] {p.processArgument(a);}, &what);
    if (can && v <= 2147483647ULL) {
      if (e != None) mc::fail("argument " + q(a) + " gave " + errName(e));
      want = (unsigned)v;
    } else if (can && v <= 4294967295ULL) {
      if (e == None) want = (unsigned)v; // the range that is documented ends before this
      else if (e != Plain) mc::fail("argument " + q(a) + " gave " + errName(e));
    } else {
      if (e != Plain) mc::fail("argument " + q(a) + " gave " + errName(e));
      if (what.find("count") == std::string::npos) mc::fail("the message does not name the option: " + what);
    }
    if (p.value() != want || (unsigned)p != want)
      mc::fail("value after argument " + q(a) + " is " + mc::str(p.value()) + ", expected " + mc::str(want));
    if (p.valueAsString() != mc::str(want)) mc::fail("valueAsString gave " + p.valueAsString());
    IntegerParameter o("other", "", want + 1);
    o.processArgument(p.valueAsString());
    mc::checkEq(o.value(), want, "value read back from valueAsString");
    c.step(); c.state(want); c.outcome(e * 7 + (can ? v % 1000 : 0) * 100);
  }
  void integerStrings(mc::Ctx& c, int len) {
    static const char A[] = "0129-+ .ax\t";
    std::string a;
    const int n = c.choose(len + 1);
    for (int i = 0; i < n; ++i) a += A[c.choose(11)];
    IntegerParameter p("count", "desc", 77);
    unsigned want = 77;
    oneInteger(c, p, want, a);
    oneInteger(c, p, want, "5");
    oneInteger(c, p, want, a);
  }
  void integerValues(mc::Ctx& c, int depth) {
    static const char* const A[] = {"0", "1", "10", "2147483646", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297",
      "9999999999", "18446744073709551615", "18446744073709551616", "18446744073709551621", "340282366920938463463374607431768211456",
      "-1", "-0", "+1", "01", "1 ", " 1", "0x10", "1e3", "1.0", "", "12a", "a12", "1\n", "00"};
    IntegerParameter p("count", "desc", 5);
    unsigned want = 5;
    for (int s = 0; s < depth; ++s) {
      const int k = c.choose(31);
      if (k < 28) oneInteger(c, p, want, A[k]);
      else if (k == 28) {c.log("setValue(9)"); p.setValue(9); want = 9;}
      else if (k == 29) {c.log("assign max"); p = 4294967295U; want = 4294967295U;}
      else {
        const unsigned v = (unsigned)c.choose(c.tier(300, 3000));
        oneInteger(c, p, want, mc::str(v * 715827u % 2147483647u));
      }
      mc::checkEq(p.value(), want, "value");
    }
  }
  void strings(mc::Ctx& c, int depth) {
    static const char* const A[] = {"", "a", "on", "two words", "-dash", "12", "line\nbreak", "\"quoted\""};
    StringParameter p("text", "desc", A[c.choose(8)]);
    std::string want = p.value();
    p.appendToDescription(" more");
    mc::checkEq(p.description(), std::string("desc more"), "description");
    mc::checkEq(p.name(), std::string("text"), "name");
    mc::checkEq(p.argumentType(), std::string("STRING"), "argumentType");
    for (int s = 0; s < depth; ++s) {
      const int k = c.choose(8), how = c.choose(3);
      if (c.verbose()) c.log((how == 0 ? "argument " : "set ") + q(A[k]));
      if (how == 0) p.processArgument(A[k]); else if (how == 1) p.setValue(A[k]); else p = std::string(A[k]);
      want = A[k];
      mc::checkEq(p.value(), want, "value"); mc::checkEq(p.valueAsString(), want, "valueAsString");
      mc::check(p == want && !(p == want + "x"), "comparison");
      mc::check(static_cast<const std::string&>(p) == want, "conversion");
      c.step(); c.state(mc::hashStr(want)); c.outcome(mc::hashStr(want));
    }
  }

  // ---- parser
  struct Rec : public Action {
    Rec(): flag("flag", "A flag.", false), flagged("flagged", "Another flag.", true),
      count("count", "How many.", 7), out("out", "Where to.", "default") {}
    BoolParameter flag, flagged; IntegerParameter count; StringParameter out;
    std::vector<std::string> direct; int directCalls = 0;
    void performAction() {}
    const char* description() const {return "Long description.\n";}
    const char* shortDescription() const {return "short";}
    void pushBackParameters(std::vector<CliParameter*>& p) {
      p.push_back(&flag); p.push_back(&out); p.push_back(&count); p.push_back(&flagged);
    }
  };
  struct Run : public Rec { // takes direct options
    const char* name() const {return "run";}
    static const char* staticName() {return "run";}
    void directOptions(std::vector<std::string> t, CliParser& p) {direct = t; ++directCalls;}
  };
  struct Runner : public Rec { // does not
    const char* name() const {return "runner";}
    static const char* staticName() {return "runner";}
  };
  struct Sum : public Action { // no parameters at all
    void performAction() {}
    const char* name() const {return "sum";}
    const char* description() const {return "Sums up.";}
    const char* shortDescription() const {return "sum it all up";}
    void pushBackParameters(std::vector<CliParameter*>&) {}
    static const char* staticName() {return "sum";}
  };
  void setup(CliParser& p, int order) {
    if (order == 0) {p.registerAction<Run>(); p.registerAction<Runner>("runner"); p.registerAction<Sum>(); p.registerAction<HelpAction>();}
    else {p.registerAction<HelpAction>(); p.registerAction<Sum>("sum"); p.registerAction<Runner>(); p.registerAction<Run>();}
  }
  // resolves a prefix. Returns -1 with e set if there is an error.
  int resolve(const std::vector<std::string>& names, const std::string& s, Err& e) {
    std::vector<int> m;
    for (size_t i = 0; i < names.size(); ++i) {
      if (names[i] == s) return (int)i;
      if (names[i].compare(0, s.size(), s) == 0) m.push_back((int)i);
    }
    if (m.size() == 1) return m[0];
    e = m.empty() ? Unknown : Ambiguous;
    return -1;
  }
  const char* const ActionNames[] = {"run", "runner", "sum", "help"};
  const char* const ParamNames[] = {"flag", "flagged", "count", "out"};
  void parse(mc::Ctx& c, int depth, bool few) {
    static const char* const A[] = {"run", "runn", "ru", "sum", "", "x", "help", "runners"};
    static const char* const T[] = {"-flag", "x", "12", "-c", "-out", "", "off", "-flagg", "-f", "-z", "-", "-oh", "on", "-1"};
    std::vector<std::string> line;
    const int a = few ? 0 : c.choose(9);
    if (a < 8) {
      line.push_back(A[a]);
      const int n = c.choose(depth + 1);
      for (int i = 0; i < n; ++i) line.push_back(T[c.choose(few ? 7 : 14)]);
    }
    if (c.verbose()) {std::string s; for (auto& x : line) s += q(x) + " "; c.log("command line: " + s);}
    // what is to happen
    std::set<int> errs;
    int action = -1;
    Err e = None;
    std::vector<std::string> direct;
    bool flag = false, flagged = true; unsigned count = 7; std::string out = "default";
    if (line.empty()) errs.insert(Unknown);
    else {
      action = resolve(std::vector<std::string>(ActionNames, ActionNames + 4), line[0], e);
      if (action < 0) errs.insert(e);
      else {
        std::vector<std::string> t;
        for (size_t i = 1; i < line.size(); ++i) if (!line[i].empty()) t.push_back(line[i]);
        size_t i = 0;
        while (i < t.size() && t[i][0] != '-') direct.push_back(t[i++]);
        if (!direct.empty() && (action == 1 || action == 2)) errs.insert(Plain);
        if (action == 3 && direct.size() > 1) errs.insert(Plain);
        std::vector<std::string> names;
        if (action < 2) names.assign(ParamNames, ParamNames + 4);
        while (i < t.size()) {
          if (t[i][0] != '-') {errs.insert(Plain); ++i; continue;}
          Err pe = None;
          const int p = resolve(names, t[i].substr(1), pe);
          ++i;
          std::string arg;
          if (i < t.size() && t[i][0] != '-') arg = t[i++];
          if (p < 0) {errs.insert(pe); continue;}
          if (p < 2) {
            if (arg != "" && arg != "on" && arg != "off") errs.insert(Plain);
            else (p == 0 ? flag : flagged) = arg != "off";
          } else if (p == 2) {
            if (arg == "12") count = 12; else errs.insert(Plain);
          } else out = arg;
        }
      }
    }
    CliParser parser;
    setup(parser, (int)line.size() % 2);
    std::unique_ptr<Action> got;
    Err r;
    if (line.size() % 3 == 2) {
      std::vector<char*> argv;
      for (auto& s : line) argv.push_back(const_cast<char*>(s.c_str()));
      r = run([&] {got = parser.parse((int)argv.size(), argv.data());});
    } else r = run([&] {got = parser.parse(line);});
    c.step();
    if (errs.empty() ? r != None : !errs.count(r)) {
      std::string w;
      for (int x : errs) w += std::string(" ") + errName(x);
      mc::fail(std::string("parse gave ") + errName(r) + ", expected" + (errs.empty() ? " no error" : w));
    }
    c.outcome(r * 10 + action);
    if (r != None) {mc::check(!got, "an action was returned along with an error"); c.state(r); return;}
    mc::check(got != 0, "no action was returned");
    mc::checkEq(std::string(got->name()), std::string(ActionNames[action]), "action");
    mc::checkEq(got->isHelpAction(), action == 3, "isHelpAction");
    if (action < 2) {
      Rec& g = dynamic_cast<Rec&>(*got);
      mc::checkEq(g.flag.value(), flag, "value of -flag"); mc::checkEq(g.flagged.value(), flagged, "value of -flagged");
      mc::checkEq(g.count.value(), count, "value of -count"); mc::checkEq(g.out.value(), out, "value of -out");
      if (action == 0) {
        mc::checkEq(g.directCalls, 1, "calls of directOptions");
        mc::checkEq(mc::list(g.direct), mc::list(direct), "tokens before the first option");
      }
      c.state(mc::mix(mc::hashStr(out), flag * 4 + flagged * 2 + count));
    }
  }

  // ---- help
  void inOrder(const std::string& text, const std::vector<std::string>& parts, const char* what) {
    size_t pos = 0;
    for (auto& p : parts) {
      const size_t at = text.find(p, pos);
      if (at == std::string::npos) mc::fail(std::string(what) + ": " + q(p) + " is missing or at the wrong place in:\n" + text);
      pos = at + p.size();
    }
  }
  size_t countOf(const std::string& t, const std::string& p) {
    size_t n = 0;
    for (size_t i = t.find(p); i != std::string::npos; i = t.find(p, i + p.size())) ++n;
    return n;
  }
  void helpList(mc::Ctx& c) {
    CliParser p;
    const int set = c.choose(8), order = c.choose(2), how = c.choose(3);
    const std::string pre = how == 1 ? "Welcome to this program." : "", post = how == 1 ? "Have a nice day." : "";
    if (order == 1 && how > 0) p.registerHelpAction(pre, post);
    if (set & 1) p.registerAction<Sum>();
    if (set & 2) p.registerAction<Runner>();
    if (set & 4) p.registerAction<Run>();
    if (order == 0 && how > 0) p.registerHelpAction(pre, post);
    if (how == 0) p.registerAction<HelpAction>();
    std::vector<std::string> names, want;
    p.pushBackRegisteredActionNames(names);
    want.push_back("help");
    if (set & 4) want.push_back("run");
    if (set & 2) want.push_back("runner");
    if (set & 1) want.push_back("sum");
    mc::checkEq(mc::list(names), mc::list(want), "pushBackRegisteredActionNames");
    mc::checkEq(p.helpPreMessage(), pre, "helpPreMessage"); mc::checkEq(p.helpPostMessage(), post, "helpPostMessage");
    std::unique_ptr<Action> a = p.parse(std::vector<std::string>(1, c.flag() ? "he" : "help"));
    mc::check(a->isHelpAction(), "isHelpAction");
    Capture cap;
    a->performAction();
    const std::string text = cap.stop();
    c.log(text);
    std::vector<std::string> parts;
    if (how == 1) parts.push_back(pre);
    parts.push_back("help - Return information about");
    if (set & 4) parts.push_back(" run - short");
    if (set & 2) parts.push_back(" runner - short");
    if (set & 1) parts.push_back(" sum - sum it all up");
    if (how == 1) parts.push_back(post);
    inOrder(text, parts, "the list of actions");
    mc::checkEq(countOf(text, " - "), want.size(), "actions listed");
    c.step(); c.state(mc::hashStr(text)); c.outcome(mc::hashStr(text));
  }
  void helpTopic(mc::Ctx& c) {
    CliParser p;
    setup(p, c.choose(2));
    static const char* const T[] = {"run", "runner", "sum", "help", "runn", "s", "ru", "zzz"};
    const int t = c.choose(8);
    std::vector<std::string> line(1, "help");
    line.push_back(T[t]);
    if (c.flag()) {
      line.push_back("");
      if (c.flag()) {
        line.push_back("second");
        const Err e = run([&] {p.parse(line);});
        if (e != Plain) mc::fail(std::string("help with two topics gave ") + errName(e));
        c.step(); return;
      }
    }
    std::unique_ptr<Action> a = p.parse(line);
    Capture cap;
    const Err e = run([&] {a->performAction();});
    const std::string text = cap.stop();
    c.log(text);
    const Err want = t == 6 ? Ambiguous : t == 7 ? Unknown : None;
    if (e != want) mc::fail(std::string("help on ") + T[t] + " gave " + errName(e));
    c.step(); c.state(mc::hashStr(text)); c.outcome(mc::hashStr(text));
    if (e != None) return;
    std::vector<std::string> parts;
    const char* const full[] = {"run", "runner", "sum", "help", "runner", "sum"};
    parts.push_back(full[t]);
    if (t == 2 || t == 5) parts.push_back("Sums up.");
    else if (t == 3) parts.push_back("displays a list of the available actions");
    else {
      parts.push_back("Long description.");
      const char* const ps[4][4] = {{"-count", "INTEGER", "7", "How many."}, {"-flag", "BOOL", "off", "A flag."},
        {"-flagged", "BOOL", "on", "Another flag."}, {"-out", "STRING", "default", "Where to."}};
      for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) parts.push_back(ps[i][j]);
    }
    inOrder(text, parts, "the description of an action");
  }
  // An action with any parameters.
  std::vector<CliParameter*> gParams;
  struct Many : public Action {
    void performAction() {}
    const char* name() const {return "many";}
    const char* description() const {return "Has parameters.";}
    const char* shortDescription() const {return "short";}
    void pushBackParameters(std::vector<CliParameter*>& p) {p.insert(p.end(), gParams.begin(), gParams.end());}
    static const char* staticName() {return "many";}
  };
  void helpParameters(mc::Ctx& c, int most) {
    static const char* const A[] = {"a", "ab", "abcd", "abce", "abcdefgh1", "abcdefgh0", "B", "b", "zz", "z-y", "9"};
    const int count = sizeof(A) / sizeof(*A);
    const int n = c.choose(most + 1);
    std::vector<std::unique_ptr<CliParameter> > own;
    std::vector<std::string> names;
    std::vector<int> used;
    for (int i = 0; i < n; ++i) {
      int x = c.choose(count - i);
      for (int j = 0; j < count; ++j) {
        if (std::count(used.begin(), used.end(), j)) continue;
        if (x-- == 0) {x = j; break;}
      }
      used.push_back(x);
      const std::string name = A[x];
      names.push_back(name);
      if (x % 3 == 0) own.emplace_back(new BoolParameter(name, "Does " + name + "!", x % 2 == 0));
      else if (x % 3 == 1) own.emplace_back(new IntegerParameter(name, "Does " + name + "!", 1000 + x));
      else own.emplace_back(new StringParameter(name, "Does " + name + "!", "<" + name + ">"));
    }
    gParams.clear();
    for (auto& p : own) gParams.push_back(p.get());
    CliParser p;
    setup(p, 0);
    p.registerAction<Many>();
    std::vector<std::string> line(1, "help");
    line.push_back("m");
    std::unique_ptr<Action> a = p.parse(line);
    Capture cap;
    a->performAction();
    const std::string text = cap.stop();
    c.log(text);
    std::vector<int> order(used);
    std::sort(order.begin(), order.end(), [&](int x, int y) {return std::string(A[x]) < A[y];});
    std::vector<std::string> parts(1, "many");
    parts.push_back("Has parameters.");
    for (int x : order) {
      parts.push_back(std::string("-") + A[x] + " ");
      parts.push_back(x % 3 == 0 ? "BOOL" : x % 3 == 1 ? "INTEGER" : "STRING");
      parts.push_back(x % 3 == 0 ? (x % 2 == 0 ? "on" : "off") : x % 3 == 1 ? mc::str(1000 + x) : std::string("<") + A[x] + ">");
      parts.push_back(std::string("Does ") + A[x] + "!");
    }
    inOrder(text, parts, "the parameters of an action");
    mc::checkEq(countOf(text, "Does "), (size_t)n, "parameters described");
    gParams.clear();
    c.step(); c.state(mc::hashStr(text)); c.outcome(mc::hashStr(text));
  }

  // ---- much of everything
  struct Num : public Product {
    explicit Num(int i): mId(i) {}
    int id() const {return mId;}
    int mId;
  };
  typedef std::unique_ptr<Product> (*Maker)();
  template<int I> std::unique_ptr<Product> make() {return std::unique_ptr<Product>(new Num(I));}
  template<int From, int Count> struct Fill { // by halves, as templates may not nest deeply
    static void in(Maker* m) {Fill<From, Count / 2>::in(m); Fill<From + Count / 2, Count - Count / 2>::in(m);}
  };
  template<int I> struct Fill<I, 1> {static void in(Maker* m) {m[I] = make<I>;}};
  Maker maker(int i) {
    static std::vector<Maker> m;
    if (m.empty()) {m.resize(700); Fill<0, 700>::in(&m[0]);}
    return m[i];
  }
  // hundreds of names that are prefixes of each other
  void factoryLarge(mc::Ctx& c) {
    const int sizes[] = {254, 255, 256, 257, 300, 700};
    const int n = sizes[c.choose(c.tier(5, 6))], order = c.choose(3), shape = c.choose(3);
    c.log(mc::str(n) + " names, order " + mc::str(order) + ", shape " + mc::str(shape));
    std::vector<std::string> names;
    for (int i = 0; i < n; ++i) {
      if (shape == 0) names.push_back("n" + mc::str(i));              // numbers: 1, 10, 100, ...
      else if (shape == 1) names.push_back(std::string(i + 1, 'x'));  // every name a prefix of the next
      else names.push_back(std::string(200, 'l') + mc::str(i * 7));   // long common prefix
    }
    NameFactory<Product> f("thing");
    for (int k = 0; k < n; ++k) {
      const int i = order == 0 ? k : order == 1 ? n - 1 - k : (int)((k * 101LL) % n);
      f.registerProduct(names[i], maker(i));
    }
    std::set<std::string> qs(names.begin(), names.end());
    for (auto& s : names) {qs.insert(s.substr(0, s.size() - 1)); if (s.size() > 2) qs.insert(s.substr(0, s.size() - 2)); qs.insert(s + "0");}
    std::vector<std::string> sorted(names);
    std::sort(sorted.begin(), sorted.end());
    std::map<std::string, int> ids;
    for (int i = 0; i < n; ++i) ids[names[i]] = i;
    uint64_t sig = n;
    for (auto& s : qs) {
      std::vector<std::string> match, got;
      for (auto it = std::lower_bound(sorted.begin(), sorted.end(), s); it != sorted.end() && it->compare(0, s.size(), s) == 0; ++it) match.push_back(*it);
      f.namesWithPrefix(s, got);
      if (got != match) mc::fail("namesWithPrefix " + q(s) + " gave " + mc::str(got.size()) + " names, expected " + mc::str(match.size()));
      const int exact = ids.count(s) ? ids[s] : -1;
      std::unique_ptr<Product> p = f.createNullOnUnknown(s);
      if ((p ? p->id() : -1) != exact) mc::fail("createNullOnUnknown " + q(s));
      const Err want = exact >= 0 ? None : match.empty() ? Unknown : match.size() > 1 ? Ambiguous : None;
      const int only = exact >= 0 ? exact : want == None ? ids[match[0]] : -1;
      int id = -1;
      std::string what;
      const Err e = run([&] {id = createWithPrefix(f, s)->id();}, &what);
      if (e != want || id != only) mc::fail("createWithPrefix " + q(s) + " gave " + errName(e) + " id " + mc::str(id));
      if (e == Ambiguous && (match.size() < 20 || s.size() % 16 == 0))
        for (auto& m : match) if (what.find(m) == std::string::npos) mc::fail("the message does not list the candidate " + m);
      sig = mc::mix(sig, e * 1000 + id);
      c.step();
    }
    mc::checkEq(Product::live, 0L, "products left");
    c.state(sig); c.outcome(sig);
  }
  // command lines of hundreds of tokens
  void parseLarge(mc::Ctx& c) {
    const int sizes[] = {120, 127, 128, 255, 256, 257, 300, 1000};
    const int n = sizes[c.choose(c.tier(7, 8))], shape = c.choose(4), how = c.choose(2);
    c.log(mc::str(n) + " tokens, shape " + mc::str(shape));
    std::vector<std::string> line(1, "run"), direct;
    bool flag = false, flagged = true; unsigned count = 7; std::string out = "default";
    bool bad = false;
    if (shape == 0 || shape == 2) for (int i = 0; i < n; ++i) {direct.push_back("file" + mc::str(i)); line.push_back(direct.back()); if (i % 50 == 3) line.push_back("");}
    if (shape == 1 || shape == 2) for (int i = 0; i < n; ++i) {
      const int k = i % 5;
      if (k == 0) {line.push_back("-flag"); flag = i % 2 == 0; line.push_back(flag ? "on" : "off");}
      else if (k == 1) {line.push_back("-flagged"); flagged = true;}
      else if (k == 2) {line.push_back("-c"); count = i * 1001u; line.push_back(mc::str(count));}
      else if (k == 3) {line.push_back("-o"); out = std::string(i, 'o') + mc::str(i); line.push_back(out);}
      else {line.push_back("-flagge"); flagged = i % 4 != 0; line.push_back(flagged ? "on" : "off");}
    }
    if (shape == 3) { // a single mistake at the end
      for (int i = 0; i < n; ++i) line.push_back(i % 2 == 0 ? "-count" : mc::str(i));
      if (n % 2 == 1) line.push_back("1");
      line.push_back("surplus");
      bad = true;
    }
    CliParser parser;
    setup(parser, n % 2);
    std::unique_ptr<Action> got;
    Err r;
    if (how) {
      std::vector<char*> argv;
      for (auto& s : line) argv.push_back(const_cast<char*>(s.c_str()));
      r = run([&] {got = parser.parse((int)argv.size(), argv.data());});
    } else r = run([&] {got = parser.parse(line);});
    c.step(); c.state(n * 8 + shape * 2 + how); c.outcome(n * 8 + r);
    if (r != (bad ? Plain : None)) mc::fail(std::string("parse gave ") + errName(r));
    if (bad) return;
    Rec& g = dynamic_cast<Rec&>(*got);
    mc::checkEq(g.flag.value(), flag, "value of -flag"); mc::checkEq(g.flagged.value(), flagged, "value of -flagged");
    mc::checkEq(g.count.value(), count, "value of -count"); mc::checkEq(g.out.value(), out, "value of -out");
    mc::checkEq(g.directCalls, 1, "calls of directOptions");
    if (g.direct != direct) mc::fail("tokens before the first option: got " + mc::str(g.direct.size()) + " of " + mc::str(direct.size()));
  }
  // an action with hundreds of parameters, with long names and texts
  void helpLarge(mc::Ctx& c) {
    const int sizes[] = {100, 255, 256, 257, 300};
    const int n = sizes[c.choose(c.tier(4, 5))], shape = c.choose(3);
    c.log(mc::str(n) + " parameters, shape " + mc::str(shape));
    std::vector<std::unique_ptr<CliParameter> > own;
    std::vector<std::pair<std::string, std::vector<std::string> > > want;
    for (int k = 0; k < n; ++k) {
      const int i = (int)(k * 101LL % n);
      const std::string name = shape == 0 ? "p" + mc::str(i) : shape == 1 ? std::string(i % 40 + 1, 'q') + mc::str(i) : std::string(i == 5 ? 260 : 2, 'z') + mc::str(i);
      std::string text = "Does " + name + "!";
      std::vector<std::string> parts;
      parts.push_back("-" + name + " ");
      if (i % 3 == 0) {own.emplace_back(new BoolParameter(name, text, i % 2 == 0)); parts.push_back("BOOL"); parts.push_back(i % 2 == 0 ? "on" : "off");}
      else if (i % 3 == 1) {own.emplace_back(new IntegerParameter(name, text, 70000 + i)); parts.push_back("INTEGER"); parts.push_back(mc::str(70000 + i));}
      else {own.emplace_back(new StringParameter(name, text, std::string(i, 's'))); parts.push_back("STRING"); parts.push_back(std::string(i, 's'));}
      own.back()->appendToDescription(" Tail" + mc::str(i) + ".");
      parts.push_back("Does"); parts.push_back("Tail" + mc::str(i) + ".");
      want.push_back(std::make_pair(name, parts));
    }
    gParams.clear();
    for (auto& p : own) gParams.push_back(p.get());
    CliParser p;
    setup(p, 0);
    p.registerAction<Many>();
    std::vector<std::string> line(1, "help");
    line.push_back("many");
    std::unique_ptr<Action> a = p.parse(line);
    Capture cap;
    a->performAction();
    const std::string text = cap.stop();
    std::sort(want.begin(), want.end());
    std::vector<std::string> parts(1, "many");
    parts.push_back("Has parameters.");
    for (auto& w : want) parts.insert(parts.end(), w.second.begin(), w.second.end());
    inOrder(text, parts, "the parameters of an action");
    mc::checkEq(countOf(text, "Tail"), (size_t)n, "parameters described");
    // every one of them is set by its name
    line.assign(1, "many");
    for (int k = 0; k < n; ++k) {
      line.push_back("-" + own[k]->name());
      line.push_back(dynamic_cast<BoolParameter*>(own[k].get()) ? (k % 2 ? "on" : "off") : mc::str(k));
    }
    p.parse(line);
    for (int k = 0; k < n; ++k) {
      const std::string w = dynamic_cast<BoolParameter*>(own[k].get()) ? (k % 2 ? "on" : "off") : mc::str(k);
      if (own[k]->valueAsString() != w) mc::fail("parameter " + own[k]->name() + " is " + own[k]->valueAsString() + ", expected " + w);
    }
    gParams.clear();
    c.step(); c.state(mc::hashStr(text)); c.outcome(mc::hashStr(text));
  }
  // long texts
  void stringLarge(mc::Ctx& c) {
    const int n = c.choose(600) * (c.flag() ? 1 : 117);
    std::string a(n, 'a');
    for (int i = 0; i < n; i += 7) a[i] = (char)('A' + i % 26);
    c.log(mc::str(n) + " characters");
    StringParameter p("text", "desc", "");
    p.processArgument(a);
    mc::check(p.value() == a && p.valueAsString() == a, "the value is not the argument");
    StringParameter d("text", a, a);
    d.appendToDescription(a);
    mc::check(d.value() == a && d.description() == a + a, "the description or default is not what was given");
    IntegerParameter i("count", "", 7);
    const std::string digits(n % 64 + 11, (char)('1' + n % 9));
    const Err e = run([&] {i.processArgument(digits);});
    if (e != Plain) mc::fail("the argument " + digits + " gave " + errName(e));
    mc::checkEq(i.value(), 7u, "value");
    c.step(); c.state(n); c.outcome(n);
  }
}
void mc::registerSuites() {
  mc::add("factory/large", factoryLarge, 2);
  mc::add("parse/large", parseLarge, 2);
  mc::add("help/large", helpLarge, 2);
  mc::add("params/large", stringLarge, 1);
  mc::add("factory/names", [](mc::Ctx& c) {factory(c, c.tier(3, 5));}, 4);
  mc::add("params/bool", [](mc::Ctx& c) {boolean(c, c.tier(3, 4));}, 2);
  mc::add("params/integer texts", [](mc::Ctx& c) {integerStrings(c, c.tier(5, 6));}, 3);
  mc::add("params/integer values", [](mc::Ctx& c) {integerValues(c, c.tier(2, 3));}, 2);
  mc::add("params/string", [](mc::Ctx& c) {strings(c, c.tier(2, 3));}, 2);
  mc::add("parse/command lines", [](mc::Ctx& c) {parse(c, c.tier(4, 5), false);}, 3);
  mc::add("parse/long command lines", [](mc::Ctx& c) {parse(c, c.tier(6, 7), true);}, 3);
  mc::add("help/list", helpList, 1);
  mc::add("help/topic", helpTopic, 1);
  mc::add("help/parameters", [](mc::Ctx& c) {helpParameters(c, c.tier(4, 5));}, 3);
}
