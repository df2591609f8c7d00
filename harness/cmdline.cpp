#include "util.h"
#include "quietlog.h"
#include <icl_core_config/GetoptParser.h>
using namespace icl_core::config;
#ifdef VF_THOROUGH
static const int NARG = 3, ALEN = 4;
#else
static const int NARG = 2, ALEN = 4;
#endif
typedef std::string S;
struct Expect { bool ok; bool a, b; S bv; int np; S pk[4], pv[4]; int nn; S non[4]; int keep[4]; int nx; S extra[4]; S pos; bool haspos; };
// The short names differ from the long ones: "-b" is the flag a, "-a" the option b and "-=" the prefix option p.
// what the documentation of the parser says, written down independently: options "a" (a flag), "b" (with a value), the
// prefix options "p" (with a value) and optionally one optional positional parameter
static bool starts(const S &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static Expect expect(int n, S *arg, bool strict, bool extra, bool positional) {
  Expect x; x.ok = true; x.a = x.b = x.haspos = false; x.np = x.nn = x.nx = 0; bool rest = false;
  for (int i = 0; i < n; ++i) { const S &s = arg[i]; bool lng = s.size() > 2 && s[0] == '-' && s[1] == '-' && s[2] != '-', sht = s.size() > 1 && s[0] == '-' && s[1] != '-';
    if (rest) { x.extra[x.nx++] = s; continue; }
    if (lng) { size_t eq = s.find('=', 3); S name = s.substr(2, eq == S::npos ? S::npos : eq - 2), val = eq == S::npos ? S() : s.substr(eq + 1); bool has = eq != S::npos; sx_assume(name != "help");
      if (name == "a") x.a = true; else if (name == "b") { if (!has) { x.ok = false; return x; } x.b = true; x.bv = val; }
      else if (starts(name, "p")) { if (!has) { x.ok = false; return x; } x.pk[x.np] = name.substr(1); x.pv[x.np++] = val; }
      else if (strict) { x.ok = false; return x; } else { x.keep[x.nn] = i; x.non[x.nn++] = s; } continue; }
    if (sht) { S name = s.substr(1); sx_assume(name != "h"); bool val = name == "a" || (name != "b" && starts(name, "=")); if (val && i + 1 == n) { x.ok = false; return x; }
      if (name == "b") x.a = true; else if (name == "a") { x.b = true; x.bv = arg[++i]; } else if (val) { x.pk[x.np] = name.substr(1); x.pv[x.np++] = arg[++i]; }
      else if (strict) { x.ok = false; return x; } else { x.keep[x.nn] = i; x.non[x.nn++] = s; } continue; }
    if (extra && s == "--") { rest = true; continue; }
    if (positional && !x.haspos) { x.haspos = true; x.pos = s; continue; }
    x.keep[x.nn] = i; x.non[x.nn++] = s; }
  return x; }
static void check(int n, S *arg) {
  static char prog[] = "prog", text[4][16]; char *argv[6]; argv[0] = prog; for (int i = 0; i < n; ++i) { strcpy(text[i], arg[i].c_str()); argv[1 + i] = text[i]; } argv[n + 1] = 0; int argc = n + 1;
  Getopt &g = Getopt::instance(); g.addParameter(GetoptParameter("a", "b", "")); g.addParameter(GetoptParameter("b:", "a", "")); g.addParameter(GetoptParameter("p:", "=", "", true));
  bool strict = sx_choose(2, "strict"), extra = sx_choose(2, "extra"), clean = sx_choose(2, "clean"), pos = sx_choose(2, "positional"); if (extra) g.activateExtraCmdParams(); if (pos) g.addParameter(GetoptPositionalParameter("pos", "", true));
  Expect x = expect(n, arg, strict, extra, pos); bool ok = g.initialize(argc, argv, clean ? Getopt::eCLC_Cleanup : Getopt::eCLC_None, strict ? Getopt::ePRC_Strict : Getopt::ePRC_Relaxed);
  sx_assert(ok == x.ok, "a command line is accepted exactly if every option is known and has its value"); if (!ok) { sx_assert(argc == n + 1, "a rejected command line is not changed"); return; }
  sx_assert(g.isInitialized(), "the parser is initialized afterwards");
  sx_assert(g.paramOptPresent("a") == x.a && g.paramOpt("a") == (x.a ? "yes" : ""), "a flag is present exactly if given"); sx_assert(g.paramOptPresent("b") == x.b && g.paramOpt("b") == x.bv, "an option has its last value"); sx_assert(g.paramOptPresent("pos") == x.haspos && g.paramOpt("pos") == x.pos, "positional parameters take their arguments");
  Getopt::KeyValueList l = g.paramPrefixOpt("p"); sx_assert((int)l.size() == x.np && g.paramPrefixOptPresent("p") == (x.np > 0), "each prefix option is reported"); int i = 0; for (Getopt::KeyValueList::iterator it = l.begin(); it != l.end() && i < x.np; ++it, ++i) sx_assert(it->m_key == x.pk[i] && it->m_value == x.pv[i], "prefix options have their keys and values in order");
  sx_assert((int)g.paramNonOptCount() == x.nn, "other parameters are counted"); for (i = 0; i < x.nn; ++i) sx_assert(g.paramNonOpt(i) == x.non[i], "other parameters in order"); sx_assert(g.paramNonOpt(x.nn) == "", "no parameter behind the last"); sx_assert((int)g.extraCmdParamCount() == x.nx, "extra parameters are counted"); for (i = 0; i < x.nx; ++i) sx_assert(g.extraCmdParam(i) == x.extra[i], "extra parameters in order");
  if (clean) { sx_assert(argc == 1 + x.nn && argv[0] == prog, "cleaning keeps exactly the other parameters"); for (i = 0; i < x.nn; ++i) sx_assert(argv[1 + i] == text[x.keep[i]], "cleaning keeps exactly the other parameters"); }
  else { sx_assert(argc == n + 1, "without cleaning nothing changes"); for (i = 0; i < n; ++i) sx_assert(argv[1 + i] == text[i], "without cleaning nothing changes"); }
  sx_assert(g.programName() == "prog", "the name of the program"); bool again = g.initialize(argc, argv); sx_assert(again && (int)g.paramNonOptCount() == x.nn, "the command line is parsed once");
}
static void parse(unsigned lo, unsigned hi) { S arg[4]; for (int i = 0; i < NARG; ++i) { char b[8]; unsigned n = i ? sx_choose(ALEN + 1, "len") : lo + sx_choose(hi - lo + 1, "len"); sx_chars(b, n, "c", "-abp="); b[n] = 0; arg[i] = b; } check(NARG, arg); }
ENTRY cmd_parse() { parse(0, 2); }
ENTRY cmd_parse3() { parse(3, 3); }
ENTRY cmd_parse4() { parse(4, 4); }
ENTRY cmd_short() { S arg[4]; int n = 3 + sx_choose(2, "n"); for (int i = 0; i < n; ++i) switch (sx_choose(5, "form")) { case 0: arg[i] = "-a"; break; case 1: arg[i] = "-=x"; break; case 2: arg[i] = "--"; break; case 3: arg[i] = "v"; break; default: { char b[2]; sx_chars(b, 1, "v", "vw-"); arg[i] = b; } } check(n, arg); }
ENTRY cmd_any() { S arg[2]; char b[8]; unsigned n = 1 + sx_choose(3, "len"); for (unsigned i = 0; i < n; ++i) { b[i] = (char)sx_u8("c"); sx_assume(b[i] != 0); } b[n] = 0; arg[0] = S(sx_choose(2, "long") ? "--b=" : "") + b; check(1, arg); }
