#include "util.h"
#include "quietlog.h"
#include <icl_core_config/Config.h>
#include <icl_core_config/ConfigObserver.h>
#include <icl_core_config/ConfigList.h>
#include <icl_core_config/ConfigValues.h>
using namespace icl_core; namespace icc = icl_core::config;
#ifdef VF_THOROUGH
static const int NOPS = 4, NUM = 5;
#else
static const int NOPS = 3, NUM = 4;
#endif
typedef std::string S;
static icl_core::logging::LogStream &L() { static icl_core::logging::LogStream l("x", icl_core::logging::eLL_MUTE); return l; }
static S chars(unsigned n, const char *nm) { S s; for (unsigned i = 0; i < n; ++i) { char c = (char)sx_u8(nm); sx_assume(c != 0); s += c; } return s; }
static const char *const K[4] = {"/a", "/a/b", "/ab", "/c"};
static bool listed(const char *q, const bool *has, const bool *match) { // the iterator visits exactly the matching keys, in order, and can be reset
  icc::ConfigIterator it = icc::find(q); for (int round = 0; round < 2; ++round) { static const int order[4] = {0, 1, 2, 3}; for (int i = 0; i < 4; ++i) { int k = order[i]; if (!has[k] || !match[k]) continue; if (!it.next() || it.key() != K[k]) return false; S v; if (!icc::get<S>(K[k], v) || it.value() != v) return false; } if (it.next()) return false; it.reset(); } return true; }
ENTRY conf_store() {
  bool has[4] = {false, false, false, false}; S val[4]; icc::ConfigManager &m = icc::ConfigManager::instance();
  for (int i = 0; i < NOPS; ++i) { int k = sx_choose(4, "key"); S v = chars(1, "v"); bool r = sx_choose(2, "how") ? m.insert(K[k], v) : m.setValue<S>(K[k], v); sx_assert(r == !has[k], "setting reports whether the key is new"); has[k] = true; val[k] = v; }
  for (int k = 0; k < 4; ++k) { S g = "old"; bool r = icc::get<S>(K[k], g); sx_assert(r == has[k] && g == (has[k] ? val[k] : "old"), "a key has the value last set"); sx_assert(m.hasKey(K[k]) == has[k], "a key is there exactly if set"); sx_assert(icc::getDefault<S>(K[k], "d") == (has[k] ? val[k] : "d"), "the default is used exactly if there is no value"); }
  static const bool all[4] = {true, true, true, true}, sub[4] = {false, true, false, false}, pre[4] = {true, true, true, false}, exact[4] = {true, false, false, false};
  sx_assert(listed(".*", has, all) && listed("/a/.*", has, sub) && listed("/a.*", has, pre) && listed("/a", has, exact), "a search finds exactly the matching keys"); icc::ConfigIterator g = icc::find("/(.)(/(.*))?"); while (g.next()) { sx_assert(g.matchGroup(0) == g.key() && g.matchGroup(1) == g.key().substr(1, 1) && g.matchGroup(3) == (g.key().size() > 2 ? g.key().substr(3) : "") && g.matchGroup(9) == "", "groups of a match"); }
}
// a number as written in C, with white space before; trailing characters are not looked at
static bool number(const S &s, long &v) { size_t i = 0; while (i < s.size() && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) ++i; bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-'; int base = 10; bool any = false; if (i < s.size() && s[i] == '0') { base = 8; any = true; ++i; if (i < s.size() && (s[i] == 'x' || s[i] == 'X')) { base = 16; any = false; ++i; } }
  v = 0; for (; i < s.size(); ++i) { int d = s[i] >= '0' && s[i] <= '9' ? s[i] - '0' : s[i] >= 'a' && s[i] <= 'f' ? s[i] - 'a' + 10 : s[i] >= 'A' && s[i] <= 'F' ? s[i] - 'A' + 10 : 99; if (d >= base) break; v = v * base + d; any = true; } if (neg) v = -v; return any; }
ENTRY conf_numbers() {
  char b[8]; unsigned n = sx_choose(NUM + 1, "len"); sx_chars(b, n, "c", "0179xa- "); S s(b, n); icc::setValue("/n", s); long v; bool ok = number(s, v);
  int32_t x = 77; bool r = icc::get<int32_t>("/n", x); sx_assert(r == ok, "reading a number succeeds exactly if there is one"); sx_assert(x == (ok ? v : 77), "a number is read as written, failing leaves the variable alone"); sx_assert(icc::getDefault<int32_t>("/n", 5) == (ok ? v : 5), "the default is used exactly if there is no number"); sx_assert(icc::getDefault<int32_t>("/none", 6) == 6, "no key, no value");
  uint64_t u = 1; if (v >= 0) sx_assert(icc::get<uint64_t>("/n", u) == ok && u == (ok ? (uint64_t)v : 1), "unsigned numbers likewise");
}
static S lower(S s) { for (size_t i = 0; i < s.size(); ++i) if (s[i] >= 'A' && s[i] <= 'Z') s[i] += 32; return s; }
static int boolean(const S &s) { S t = lower(s); return t == "0" || t == "no" || t == "false" ? 0 : t == "1" || t == "yes" || t == "true" ? 1 : -1; }
ENTRY conf_bool() {
  static const char *const w[6] = {"no", "false", "yes", "true", "0", "1"}; S s; if (sx_choose(2, "word")) { s = w[sx_choose(6, "which")]; for (size_t i = 0; i < s.size(); ++i) if (s[i] >= 'a' && sx_choose(2, "upper")) s[i] -= 32; if (sx_choose(2, "more")) s += (char)sx_u8("c") | 1; } else s = chars(sx_choose(3, "len"), "c");
  icc::setValue("/b", s); int e = boolean(s); bool v = sx_choose(2, "before"), o = v; bool r = icc::get<bool>("/b", v); sx_assert(r == (e >= 0) && v == (e >= 0 ? e == 1 : o), "truth values are read exactly from their names");
  bool white = false; for (size_t i = 0; i < s.size(); ++i) white |= s[i] == ' ' || (s[i] >= 9 && s[i] <= 13); if (!white) { bool q = o; icc::ConfigValue<bool> c("/b", q); r = c.get("", L()); sx_assert(r == (e >= 0) && q == (e >= 0 ? e == 1 : o), "batch reading agrees"); }
}
enum Color { RED, GREEN, BLUE }; static const char *const NAMES[] = {"red", "green", "blue", NULL};
ENTRY conf_batch() { // several values at once, below a prefix, with and without defaults
  S s = chars(sx_choose(4, "slen"), "s"); bool hs = sx_choose(2, "has"), hi = sx_choose(2, "has"), he = sx_choose(2, "has"); char ib[4]; unsigned il = 1 + sx_choose(2, "ilen"); sx_chars(ib, il, "i", "07xq"); S is(ib, il); int ei = sx_choose(4, "enum"); S es = ei < 3 ? NAMES[ei] : "purple";
  if (hs) icc::setValue("/p/s", s); if (hi) icc::setValue("/p/i", is); if (he) icc::setValue("/p/e", es); long iv; bool iok = hi && number(is, iv), eok = he && ei < 3;
  S vs = "vs"; int32_t vi = 41; Color ve = GREEN; S prefix = sx_choose(2, "slash") ? "/p/" : "/p"; bool def = sx_choose(2, "default"), result;
  if (def) { S ds = "dflt"; int32_t di = 99; Color de = BLUE; result = icc::get(prefix, CONFIG_VALUES((CONFIG_VALUE_DEFAULT("s", vs, ds))(CONFIG_VALUE_DEFAULT("i", vi, di))(CONFIG_ENUM_DEFAULT("e", ve, de, NAMES))), L()); sx_assert(result, "reading with defaults succeeds"); sx_assert(vs == (hs ? s : "dflt"), "text or its default"); sx_assert(vi == (iok ? iv : 99), "number or its default"); sx_assert(ve == (eok ? ei : BLUE), "name or its default"); }
  else { result = icc::get(prefix, CONFIG_VALUES((CONFIG_VALUE("s", vs))(CONFIG_VALUE("i", vi))(CONFIG_ENUM("e", ve, NAMES))), L()); sx_assert(result == (hs && iok && eok), "reading succeeds exactly if every value is there and valid"); sx_assert(vs == (hs ? s : "vs"), "text is read completely or not at all"); sx_assert(vi == (iok ? iv : 41), "a number is read or left alone"); sx_assert(ve == (eok ? ei : GREEN), "a name is read or left alone"); }
}
struct Item { int32_t x; S n; bool f; Item() : x(-1), f(false) {} };
ENTRY conf_list() { // elements below a prefix
  char e[2][2]; for (int i = 0; i < 2; ++i) { e[i][0] = "aZ0q"[sx_choose(4, "e")]; e[i][1] = 0; } bool two = sx_choose(2, "two"), dup = two && e[0][0] == e[1][0]; S xv; xv = (char)('0' + sx_choose(10, "x")); S nv = chars(1 + sx_choose(2, "nlen"), "n"); bool other = sx_choose(2, "other");
  icc::setValue(S("/l/") + e[0] + "/x", xv); icc::setValue(S("/l/") + e[0] + "/n", nv); if (two) icc::setValue(S("/l/") + e[1] + "/x", "7"); if (other) { icc::setValue("/lx/a/x", "1"); icc::setValue("/l/q", "1"); icc::setValue("/m/l/a/x", "1"); }
  if (other) sx_assume(e[0][0] != 'q' && e[1][0] != 'q');
  std::vector<Item> v; bool r = icc::get("", CONFIG_VALUES((CONFIG_LIST(Item, "/l", MEMBER_MAPPING(Item, (MEMBER_VALUE_1("x", Item, x))(MEMBER_VALUE_1("n", Item, n))), std::back_inserter(v)))), L());
  sx_assert(r, "a list is read"); sx_assert(v.size() == (size_t)(two && !dup ? 2 : 1), "each element is read once"); bool first = !two || dup || e[0][0] < e[1][0]; Item &a = v[first ? 0 : v.size() - 1]; sx_assert(a.n == nv, "elements have their texts"); sx_assert(a.x == (dup ? 7 : xv[0] - '0'), "elements have their numbers"); if (two && !dup) sx_assert(v[first ? 1 : 0].x == 7 && v[first ? 1 : 0].n == "", "elements in order of their names");
}
struct Deep { int32_t y; Color c; Deep() : y(-1), c(GREEN) {} }; struct Mid { Deep deep; int32_t y; Mid() : y(-2) {} }; struct Item2 { Mid mid; Color c; Item2() : c(GREEN) {} };
ENTRY conf_list_members() { // members of members, names of values, and what happens if one of them is wrong
  static const char *const W[] = {"red", "green", "blue", "purple"}; int c = sx_choose(4, "c"), d = sx_choose(4, "d"); char yb[3]; unsigned yl = 1 + sx_choose(2, "ylen"); sx_chars(yb, yl, "y", "07xq"); S y(yb, yl); long yv; bool yok = number(y, yv); bool hc = sx_choose(2, "hc"), hd = sx_choose(2, "hd"), hy = sx_choose(2, "hy"), hz = sx_choose(2, "hz"); S p = sx_choose(2, "prefix") ? "/p" : "";
  if (hc) icc::setValue(p + "/l/a/c", W[c]); if (hd) icc::setValue(p + "/l/a/mid/deep/c", W[d]); if (hy) icc::setValue(p + "/l/a/mid/y", y); if (hz) icc::setValue(p + "/l/b/mid/deep/y", "12"); icc::setValue(p + "/l/a/other", "1"); if (sx_choose(2, "longer")) { icc::setValue(p + "/l/a/c2", "blue"); icc::setValue(p + "/l/b/mid/y/z", "9"); icc::setValue(p + "/l/a/mid", "3"); }
  std::vector<Item2> v; bool r = icc::get(p, CONFIG_VALUES((CONFIG_LIST(Item2, p.empty() ? "/l" : "l", MEMBER_MAPPING(Item2, (MEMBER_ENUM_1("c", Item2, c, NAMES))(MEMBER_ENUM_3("mid/deep/c", Item2, mid, deep, c, NAMES))(MEMBER_VALUE_2("mid/y", Item2, mid, y))(MEMBER_VALUE_3("mid/deep/y", Item2, mid, deep, y))), std::back_inserter(v)))), L());
  bool wrong = (hc && c == 3) || (hd && d == 3) || (hy && !yok), a = hc || hd || hy; sx_assert(r == (!wrong && (a || hz)), "a list is read exactly if it has elements and all their values are valid"); sx_assert(v.size() == (r ? size_t(a) + size_t(hz) : 0), "all elements are read, or none"); if (!r) return; sx_reach("read"); sx_must_reach("read");
  if (a) { const Item2 &e = v[0]; sx_assert(e.c == (hc ? c : GREEN) && e.mid.deep.c == (hd ? d : GREEN) && e.mid.y == (hy ? yv : -2) && e.mid.deep.y == -1, "a member has its value or is left alone"); } if (hz) { const Item2 &e = v.back(); sx_assert(e.mid.deep.y == 12 && e.c == GREEN && e.mid.deep.c == GREEN && e.mid.y == -2, "elements do not mix"); } }
struct Obs : icc::ConfigObserver { S log; char id; S *all; Obs(char i, S *a) : id(i), all(a) {} void valueChanged(const icl_core::String &k) { S v; icc::get<S>(k, v); S r = S("[") + k + "=" + v + "]"; log += r; *all += id; } };
ENTRY conf_observers() { // observers see every change of their key with the new value
  S all; char v1[2] = {(char)sx_u8("v"), 0}, v2[2] = {(char)sx_u8("v"), 0}; sx_assume(v1[0] && v2[0]); bool early = sx_choose(2, "early"); if (early) icc::setValue("/a", v1); S e1, e2, e3; if (early) { e1 = e3 = S("[/a=") + v1 + "]"; }
  { Obs o1('1', &all), o2('2', &all), o3('3', &all); icc::ConfigManager &m = icc::ConfigManager::instance(); m.registerObserver(&o1, "/a"); m.registerObserver(&o2, "/b"); m.registerObserver(&o3); bool twice = sx_choose(2, "twice"); 
    for (int i = 0; i < 3; ++i) { switch (sx_choose(4, "op")) { case 0: icc::setValue("/a", v2); e1 += S("[/a=") + v2 + "]"; e3 += S("[/a=") + v2 + "]"; break; case 1: icc::setValue<int32_t>("/b", 12); e2 += "[/b=12]"; e3 += "[/b=12]"; break; case 2: icc::setValue("/c", v1); e3 += S("[/c=") + v1 + "]"; break; default: { icc::ConfigManager::instance().insert("/d", "1"); } } }
    if (twice) { m.unregisterObserver(&o1); icc::setValue("/a", "z"); e3 += "[/a=z]"; } sx_assert(o1.log == e1 && o2.log == e2 && o3.log == e3, "observers see exactly the changes of their keys"); }
  S before = all; icc::setValue("/a", "end"); sx_assert(all == before, "a destroyed observer is not called");
}
ENTRY conf_observer_keys() { // the key of an observer is a key, not a query
  char k[4] = "/..", e[4] = "/.."; sx_chars(k + 1, 2, "k", ".a*(x"); sx_chars(e + 1, 2, "e", ".a*(x"); icc::setValue(e, "v"); S all; Obs o('1', &all); icc::ConfigManager::instance().registerObserver(&o, k); bool same = !strcmp(k, e); sx_assert(o.log == (same ? S("[") + e + "=v]" : S()), "a new observer sees the value of its key, if there is one"); icc::setValue(k, "w"); sx_assert(o.log == (same ? S("[") + e + "=v][" + k + "=w]" : S("[") + k + "=w]"), "and every change of it"); }
ENTRY conf_precedence() { // command line over file over default, overrides over all
  char f[4], c[4], o[4]; sx_chars(f, 1, "f", 0); sx_chars(c, 1, "c", 0); sx_chars(o, 1, "o", 0); f[1] = c[1] = o[1] = 0; sx_assume(f[0] && f[0] != '\n' && f[0] != '\r' && c[0] && o[0] && o[0] != '='); bool infile = sx_choose(2, "infile"), cmd = sx_choose(2, "cmd"), def = sx_choose(2, "def"), over = sx_choose(2, "over"), pos = sx_choose(2, "pos"); bool lng = sx_choose(2, "long");
  S text = S("x:y\nk{\n") + (infile ? S("v:") + f + "\n" : S()) + "w:0\n}\n"; vf_write_file(vf_path("c.tree"), text.data(), text.size()); setenv("PWD", "/", 1);
  icc::ConfigManager &m = icc::ConfigManager::instance(); m.addParameter(icc::ConfigParameter("val:", "l", "/k/v", "help", def ? "D" : "")); m.addParameter(icc::ConfigPositionalParameter("pp", "/k/p", "help", true, def ? "P" : ""));
  S file = S(lng ? "--configfile=" : "") + vf_path("c.tree"), val = S(lng ? "--val=" : "") + c, ov = S(lng ? "--config-option/k/v=" : "-o/k/v"); S args[6]; int n = 0; if (!lng) args[n++] = "-c"; args[n++] = file; if (cmd) { if (!lng) args[n++] = "-l"; args[n++] = val; } if (over) { if (lng) ov += o; args[n++] = ov; }
  char *argv[12]; static char buf[12][400]; strcpy(buf[0], "prog"); argv[0] = buf[0]; int argc = 1; for (int i = 0; i < n; ++i) { strcpy(buf[argc], args[i].c_str()); argv[argc] = buf[argc]; ++argc; } if (over && !lng) { strcpy(buf[argc], o); argv[argc] = buf[argc]; ++argc; } if (pos) { strcpy(buf[argc], "positional"); argv[argc] = buf[argc]; ++argc; } argv[argc] = 0;
  Obs *w = new Obs('w', new S); m.registerObserver(w, "/k/v"); bool ok = icc::initialize(argc, argv, icc::Getopt::eCLC_None, icc::Getopt::ePRC_Strict); sx_assert(ok && m.isInitialized(), "initializing succeeds");
  S v; bool r = icc::get<S>("/k/v", v); bool any = over || cmd || infile || def; S want = over ? o : cmd ? c : infile ? f : "D"; sx_assert(r == any && (!any || v == want), "command line over file over default"); S g; sx_assert(icc::get<S>("/x", g) && g == "y" && icc::get<S>("/k/w", g) && g == "0", "the file is read"); sx_assert(icc::get<S>("/configfile", g) && g == vf_path("c.tree"), "the file name is known"); r = icc::get<S>("/k/p", g); sx_assert(r == (pos || def) && (!r || g == (pos ? "positional" : "P")), "positional parameters are stored");
  S last = S("[/k/v=") + want + "]"; sx_assert(any ? w->log.size() >= last.size() && w->log.substr(w->log.size() - last.size()) == last : w->log == "", "observers see the value which counts last"); delete w;
  int argc2 = 1; sx_assert(icc::initialize(argc2, argv), "initializing again is harmless"); sx_assert(icc::get<S>("/k/v", g) == any && (!any || g == want), "initializing again is harmless");
}
ENTRY conf_missing_file() { icc::ConfigManager &m = icc::ConfigManager::instance(); char a0[] = "p", a1[] = "-c"; S p = vf_path("none.tree"); char *argv[4] = {a0, a1, (char *)p.c_str(), 0}; int argc = 3; setenv("PWD", "/", 1); sx_assert(!icc::initialize(argc, argv), "a missing configuration file is an error"); sx_assert(!m.isInitialized(), "a failed initialization leaves the configuration uninitialized"); }
