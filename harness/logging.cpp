#include "mt.h"
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LoggingManager.h>
#include <icl_core_logging/LogOutputStream.h>
#include <icl_core_logging/ThreadStream.h>
#include <icl_core_config/Config.h>
#include <vector>
using namespace icl_core; using namespace icl_core::logging;
using icl_core::logging::Thread;
typedef std::string S; typedef std::vector<S> V;
#ifdef VF_THOROUGH
static const int PIECES = 3, PRE = 3, ANYN = 5;
#else
static const int PIECES = 2, PRE = 2, ANYN = 4;
#endif
// no default output: the outputs of the checks are the only ones
static void init() { icl_core::config::setValue("/IclCore/Logging/OutputStreamNone/OutputStreamName", S("None")); LoggingManager::instance().initialize(); }
struct Out : LogOutputStream { V got; int open;
  explicit Out(icl_core::logging::LogLevel l = eLL_TRACE, bool worker = false, const S &name = "out") : LogOutputStream(name, "/IclCore/Logging/" + name, l, worker), open(0) {}
  virtual void pushImpl(const S &s) { ++open; sx_assert(open == 1, "an output writes one line at a time"); S c(s.data(), s.size()); sched(); got.push_back(c); --open; }
  static void sched(); };
static bool g_yield; void Out::sched() { if (g_yield) sched_yield(); }
struct Raw : LogOutputStream { struct M { icl_core::logging::LogLevel l; S stream, file, cls, obj, fun, text; size_t line; }; std::vector<M> got;
  explicit Raw(icl_core::logging::LogLevel l) : LogOutputStream("raw", "/IclCore/Logging/raw", l, false) {}
  virtual void pushImpl(const LogMessage &m) { M r; r.l = m.log_level; r.stream = m.log_stream; r.file = m.filename; r.cls = m.class_name; r.obj = m.object_name; r.fun = m.function_name; r.text = m.message_text; r.line = m.line; got.push_back(r); } };
static S sym(unsigned n, const char *nm) { S s; for (unsigned i = 0; i < n; ++i) { char c = (char)sx_u8(nm); sx_assume(c != 0); s += c; } return s; }
static S dec(unsigned long v) { S r; do r.insert(r.begin(), char('0' + v % 10)); while (v /= 10); return r; }
static const char *const LV[6] = {"Trace", "Debug", "Info", "Warning", "Error", "Mute"};
static bool same(const S &a, const S &b) { if (a.size() != b.size()) return false; int ok = 1; for (size_t i = 0; i < a.size(); ++i) ok &= a[i] == b[i]; return ok; }
// ---- C24: the format of a line ----
ENTRY log_format() { init();  sx_must_reach("line");
  Out o; long ns = (long)sx_range("ns", 0, 999999999); vf_clock(1500000000, ns); unsigned ms = (unsigned)(ns / 1000000);
  S cls = sym(sx_choose(2, "cls"), "c"), obj = sym(sx_choose(2, "obj"), "o"), fun = sym(sx_choose(2, "fun"), "f"), text = sym(1 + sx_choose(2, "text"), "t"), f, want;
  int lv = 2 * sx_choose(3, "level") + 1, line = 1234;
  bool wastext = false;
  for (int i = 0; i < PIECES; ++i) {
    int k = sx_choose(i ? 11 : 10, "what"); if (k == 10) break;
    if (k == 9) { if (wastext) { sx_done(); return; } S t = sym(1, "x"); sx_assume(t[0] != '~'); f += t; want += t; wastext = true; continue; }
    wastext = false; static const char D[] = "CODEFGLSM"; S pre; int w = 0; f += '~';
    if (k <= 2) { static const char *const P[] = {"", "::", "(", "[", "{"}; pre = P[sx_choose(k == 1 ? 5 : 2, "pre")]; } else if (k == 8 && sx_choose(2, "wide")) { w = 3; f += '3'; }
    f += pre; f += D[k];
    switch (D[k]) {
    case 'C': if (!cls.empty()) want += pre + cls; break; case 'O': if (!obj.empty()) want += pre + obj + (pre == "(" ? ")" : pre == "[" ? "]" : pre == "{" ? "}" : ""); break;
    case 'D': if (!fun.empty()) want += pre + fun; break; case 'E': want += text; break; case 'F': want += "file.c"; break; case 'G': want += dec(line); break;
    case 'L': want += LV[lv]; break; case 'S': want += "strm"; break; case 'M': { S n = dec(ms); while ((int)n.size() < w) n = "0" + n; want += n; } }
  }
  if (f.empty()) { sx_done(); return; }
  o.changeLogFormat(f.c_str()); o.push(LogLevel(lv), "strm", "file.c", line, cls.c_str(), obj.c_str(), fun.c_str(), text.c_str());
  sx_assert(o.got.size() == 1 && same(o.got[0], want), "a line is what the format says"); sx_reach("line");
}
ENTRY log_format_time() { init(); Out o; vf_clock(1500000000 + (long)sx_range("s", 0, 3), 7000000); bool own = sx_choose(2, "own"); if (own) o.changeTimeFormat("%S|%Y"); o.changeLogFormat("<~T.~3M>~E"); TimeStamp t = TimeStamp::now();
  o.push(eLL_INFO, "s", "f", 1, "", "", "", "x"); char b[100]; t.strfLocaltime(b, 100, own ? "%S|%Y" : "%Y-%m-%d %H:%M:%S"); sx_assert(o.got.size() == 1 && o.got[0] == "<" + S(b) + ".007>x", "the time of a message is its time of logging"); }
ENTRY log_format_default() { init(); Out o; vf_clock(1500000000, 42000000); char b[100]; TimeStamp::now().strfLocaltime(b, 100, "%Y-%m-%d %H:%M:%S"); S cls = sym(sx_choose(2, "cls"), "c"), obj = sym(sx_choose(2, "obj"), "o"), fun = sym(sx_choose(2, "fun"), "f"), t = sym(2, "t");
  o.push(eLL_WARNING, "strm", "f", 1, cls.c_str(), obj.c_str(), fun.c_str(), t.c_str()); S w = "<" + S(b) + ".042> strm(Warning)"; w += cls.empty() ? "" : " " + cls; w += obj.empty() ? "" : "(" + obj + ")"; (void)w;
  S h = "<" + S(b) + ".042> strm(Warning)"; sx_assert(o.got.size() == 1 && o.got[0].compare(0, h.size(), h) == 0, "the default format starts with time, stream and level");
  S rest = o.got[0].substr(h.size()); sx_assert(same(rest, (cls.empty() ? S() : " " + cls) + S("") + (obj.empty() ? S() : "(" + obj + ")") + (fun.empty() ? S() : "::" + fun) + ": " + t) || same(rest, (cls.empty() ? S() : " " + cls) + " " + (obj.empty() ? S() : "(" + obj + ")") + (fun.empty() ? S() : "::" + fun) + ": " + t), "then come class, object, function and text"); }
// any text is accepted as a format; text without a field is kept
ENTRY log_format_any() { init(); Out o; unsigned n = 1 + sx_choose(ANYN, "len"); char b[16]; sx_chars(b, n, "c", "~C(1x"); o.changeLogFormat(b); o.push(eLL_INFO, "s", "f", 1, "c", "o", "m", "t"); S w; size_t i = 0, len = n;
  while (i < len) { if (b[i] != '~') { w += b[i++]; continue; } size_t j = i + 1; S p; while (j < len && b[j] == '1') ++j; while (j < len && b[j] != 'C') p += b[j++]; if (j < len) w += p + "c"; i = j + 1; }
  sx_assert(o.got.size() == 1 && same(o.got[0], w), "fields and text come out in order, an unfinished field is left out"); }
ENTRY log_format_bytes() { init(); Out o; unsigned n = 1 + sx_choose(2, "len"); char b[8]; sx_chars(b, n, "c", 0); o.changeLogFormat(b); o.push(eLL_INFO, "s", "f", 1, "c", "o", "m", "t"); sx_assert(o.got.size() == 1, "every message gives one line"); bool plain = true; for (unsigned i = 0; i < n; ++i) plain &= b[i] != '~'; if (plain) sx_assert(same(o.got[0], S(b, n)), "text stays as it is"); }
ENTRY log_format_long() { init(); Out o; static const int N[] = {98, 99, 100, 101, 150, 250}; int n = N[sx_choose(6, "len")], k = sx_choose(3, "where"); S x(n, 'x'), f = k == 0 ? x : k == 1 ? "~" + x + "C" : "a~C" + x + "~C"; o.changeLogFormat(f.c_str()); o.push(eLL_INFO, "s", "f", 1, "c", "o", "m", "t");
  sx_assert(o.got.size() == 1 && o.got[0] == (k == 0 ? x : k == 1 ? x + "c" : "ac" + x + "c"), "text of any length is kept"); }
ENTRY log_format_change() { init(); Out o; o.changeLogFormat("~E;"); o.push(eLL_INFO, "s", "f", 1, "c", "o", "m", "a"); o.changeLogFormat("[~E"); o.push(eLL_INFO, "s", "f", 1, "c", "o", "m", "b"); o.changeLogFormat(""); o.push(eLL_INFO, "s", "f", 1, "c", "o", "m", "c"); sx_assert(o.got.size() == 3 && o.got[0] == "a;" && o.got[1] == "[b" && o.got[2] == "[c", "a new format replaces the old one, an empty one does not"); }
ENTRY log_format_config() { icl_core::config::setValue("/IclCore/Logging/out/Format", S("<~E>")); init(); Out o; S t = sym(1, "t"); o.push(eLL_INFO, "s", "f", 1, "c", "o", "m", t.c_str()); sx_assert(o.got.size() == 1 && same(o.got[0], "<" + t + ">"), "the configured format is used"); }
// ---- C25: which messages reach which output, and whole ----
static size_t cut(size_t n, size_t m) { return n < m ? n : m; }
ENTRY log_levels() { init();
  int a = sx_choose(6, "a"), b = sx_choose(6, "b"), s = sx_choose(6, "s"), l = sx_choose(6, "l"); Raw x((LogLevel)a), y(eLL_TRACE); y.setLogLevel((LogLevel)b); sx_assert(x.getLogLevel() == a && y.getLogLevel() == b, "an output keeps its level");
  LogStream st("strm", (LogLevel)s); st.addOutputStream(&x); st.addOutputStream(&y); bool act = sx_choose(2, "active"); if (!act) st.setActive(false); bool evaluated = false; S t = sym(2, "t");
  SLOGGING_LOG_FLCO(st, (LogLevel)l, "fi", 77, "cl", "ob", (evaluated = true, t) << flush);
  bool on = act && s <= l; sx_assert(evaluated == on, "a muted message is not even put together"); sx_assert(x.got.size() == (on && a <= l) && y.got.size() == (on && b <= l), "a message reaches an output exactly if stream and output let its level pass");
  for (int i = 0; i < 2; ++i) for (Raw::M &m : (i ? y : x).got) sx_assert(m.l == l && m.stream == "strm" && m.file == "fi" && m.line == 77 && m.cls == "cl" && m.obj == "ob" && m.fun == "log_levels" && same(m.text, t), "a message arrives with all its fields");
}
ENTRY log_outputs() { init(); // any history of attaching and detaching
  Raw r[2] = {Raw(eLL_TRACE), Raw(eLL_TRACE)}; bool on[2] = {false, false}; size_t n[2] = {0, 0}; LogStream st("strm", eLL_TRACE);
  for (int i = 0; i < 3 + (PIECES > 2); ++i) { int op = sx_choose(5, "op"), k = op & 1; if (op < 2) { st.addOutputStream(&r[k]); on[k] = true; } else if (op < 4) { st.removeOutputStream(&r[k]); on[k] = false; } else { S t = sym(1, "t"); SLOGGING_INFO(st, t << endl); for (int j = 0; j < 2; ++j) { if (on[j]) ++n[j]; sx_assert(r[j].got.size() == n[j], "exactly the attached outputs get a message, once"); if (on[j]) sx_assert(same(r[j].got.back().text, t + "\n"), "with its text"); } } } }
// messages of one thread do not leak into each other
ENTRY log_fresh() { init(); Raw r(eLL_TRACE); LogStream st("strm", eLL_TRACE); st.addOutputStream(&r); S t = sym(1, "t");
  SLOGGING_LOG_FLCO(st, eLL_ERROR, "fi", 77, "class", "object", "abc" << endl);
  int how = sx_choose(2, "how"); if (how) st.threadStream(eLL_INFO) << t << endl; else SLOGGING_INFO(st, t << endl);
  sx_assert(r.got.size() == 2 && r.got[0].text == "abc\n" && same(r.got[1].text, t + "\n"), "each message has its own text"); sx_assert(r.got[1].cls.empty() && r.got[1].obj.empty(), "class and object are those of the message"); if (how) sx_assert(r.got[1].fun.empty() && r.got[1].file.empty() && r.got[1].line == 0, "a message without a place has none"); }
// two messages in the making at the same time, one per level
ENTRY log_nested() { init(); Raw r(eLL_TRACE); LogStream st("strm", eLL_TRACE); st.addOutputStream(&r); S t = sym(1, "t"), u = sym(1, "u"); ThreadStream &a = st.threadStream(eLL_INFO); a << t; ThreadStream &b = st.threadStream(eLL_ERROR); b << u; ThreadStream &c = st.threadStream(eLL_INFO); sx_assert(&a != &b && &a == &c, "an open message is found again by thread and level"); c << "2" << endl; b << "3" << endl;
  sx_assert(r.got.size() == 2 && same(r.got[0].text, t + "2\n") && same(r.got[1].text, u + "3\n"), "open messages do not mix"); }
ENTRY log_pool() { init(); Raw r(eLL_TRACE); LogStream st("strm", eLL_TRACE); st.addOutputStream(&r); static const int N[] = {1, 31, 32, 33, 40}; int n = N[sx_choose(5, "n")]; std::vector<ThreadStream*> v; for (int i = 0; i < n; ++i) { ThreadStream &t = st.threadStream((LogLevel)(100 + i)); for (ThreadStream *o : v) sx_assert(o != &t, "every open message has a buffer of its own"); v.push_back(&t); t << i; } for (int i = n - 1; i >= 0; --i) *v[i] << endl; sx_assert((int)r.got.size() == n, "every open message is kept"); for (int i = 0; i < n; ++i) sx_assert(r.got[i].text == dec(n - 1 - i) + "\n", "and comes out whole"); }
ENTRY log_long_fields() { init(); static const int N[] = {0, 100, 255, 256, 257, 300, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 2500}; int k = sx_choose(6, "which"); size_t n = N[sx_choose(14, "len")]; Raw r(eLL_TRACE); S x(n, 'x'), f[6]; for (int i = 0; i < 6; ++i) f[i] = "q"; f[k] = x; if (n) f[k][n - 1] = 'e';
  r.push(eLL_INFO, f[0].c_str(), f[1].c_str(), 9, f[2].c_str(), f[3].c_str(), f[4].c_str(), f[5].c_str()); sx_assert(r.got.size() == 1, "the message arrives"); Raw::M &m = r.got[0]; const S g[6] = {m.stream, m.file, m.cls, m.obj, m.fun, m.text};
  for (int i = 0; i < 6; ++i) sx_assert(f[i].compare(0, g[i].size(), g[i]) == 0 && g[i].size() >= cut(f[i].size(), i == 5 ? 2048 : i == 1 || i == 3 ? 1024 : 256), "a field is cut only beyond its documented size"); }
ENTRY log_long_fields_stream() { init(); static const int N[] = {2047, 2048, 2049, 2500}; int k = sx_choose(4, "which"); S x(N[sx_choose(4, "len")], 'x'), q = "q"; Raw r(eLL_TRACE); LogStream st("strm", eLL_TRACE); st.addOutputStream(&r); ThreadStream &t = st.threadStream(eLL_INFO);
  t.setClassname((k == 0 ? x : q).c_str()); t.setObjectname((k == 1 ? x : q).c_str()); t.setFilename((k == 2 ? x : q).c_str()); t.setFunction((k == 3 ? x : q).c_str()); t << "t" << endl; sx_assert(r.got.size() == 1 && r.got[0].text == "t\n", "the message arrives"); Raw::M &m = r.got[0]; const S g[4] = {m.cls, m.obj, m.file, m.fun}; for (int i = 0; i < 4; ++i) { const S &w = i == k ? x : q; sx_assert(w.compare(0, g[i].size(), g[i]) == 0 && g[i].size() >= cut(w.size(), 256), "a field is cut only beyond its size"); } }
ENTRY log_level_text() { LogLevel l = eLL_MUTE; int i = sx_choose(7, "i"); if (i < 6) { S d = logLevelDescription((LogLevel)i); sx_assert(d == LV[i], "every level has its name"); sx_assert(stringToLogLevel(d, l) && l == i, "a name gives its level back"); } else { int32_t v = sx_i32("v"); sx_assume(v < 0 || v > 5); sx_assert(logLevelDescription((LogLevel)v)[0] == 0, "other levels have no name"); }
  char b[8]; unsigned n = 3 + sx_choose(5, "len"); sx_chars(b, n, "c", 0); S s(b, n); bool known = false; int w = 0; for (int k = 0; k < 6; ++k) if (same(s, LV[k])) { known = true; w = k; } l = eLL_DEBUG; bool r = stringToLogLevel(s, l); sx_assert(r == known && l == (known ? w : (int)eLL_DEBUG), "exactly the names are levels"); }
// ---- C26: what is streamed is what is written ----
static S text_of(Raw &r) { sx_assert(r.got.size() == 1, "one message"); return r.got[0].text; }
template <class T> static S streamed(const T &v) { Raw r(eLL_TRACE); LogStream st("strm", eLL_TRACE); st.addOutputStream(&r); SLOGGING_INFO(st, v << endl); return text_of(r); }
static bool is_dec(const S &s, bool neg, uint64_t m) { size_t i = 0; if (neg) { if (s.empty() || s[0] != '-') return false; i = 1; } if (s.size() < i + 2 || s[s.size() - 1] != '\n') return false; uint64_t v = 0; int ok = 1; size_t n = s.size() - 1; ok &= n == i + 1 || s[i] != '0'; for (; i < n; ++i) { ok &= s[i] >= '0' && s[i] <= '9'; v = v * 10 + (unsigned char)(s[i] - '0'); } return ok && v == m; }
ENTRY log_int() { init();
  switch (sx_choose(5, "type")) {
  case 0: { uint8_t v = sx_u8("v"); sx_assert(is_dec(streamed(v), false, v), "a number is written in decimal"); break; }
  case 1: { int8_t v = sx_i8("v"); sx_assert(is_dec(streamed(v), v < 0, v < 0 ? -(int64_t)v : v), "a number is written in decimal"); break; }
  case 2: { uint16_t v = sx_u16("v"); sx_assert(is_dec(streamed(v), false, v), "a number is written in decimal"); break; }
  case 3: { int16_t v = sx_i16("v"); sx_assert(is_dec(streamed(v), v < 0, v < 0 ? -(int64_t)v : v), "a number is written in decimal"); break; }
  case 4: { bool v = sx_bool("v"); sx_assert(streamed(v) == (v ? "True\n" : "False\n"), "a truth value is written as a word"); } } }
ENTRY log_int_wide() { init(); static const uint64_t B[] = {0, 10, 99, 4294967290ull, 4294967300ull, 9223372036854775800ull, 18446744073709551600ull}; uint64_t d = sx_range("d", 0, 15);
  switch (sx_choose(4, "type")) {
  case 0: { uint32_t v = (uint32_t)(B[sx_choose(4, "base")] + (d & 5)); sx_assert(is_dec(streamed(v), false, v), "a number is written in decimal"); break; }
  case 1: { int32_t v = (int32_t)(sx_choose(2, "min") ? 2147483640u + d : (uint32_t)(sx_choose(2, "neg") ? -99 - (int)d : d)); sx_assert(is_dec(streamed(v), v < 0, v < 0 ? -(int64_t)v : v), "a number is written in decimal"); break; }
  case 2: { uint64_t v = B[sx_choose(7, "base")] + d; sx_assert(is_dec(streamed(v), false, v), "a number is written in decimal"); break; }
  case 3: { int64_t v = (int64_t)(B[sx_choose(7, "base")] + d); sx_assert(is_dec(streamed(v), v < 0, v < 0 ? 0 - (uint64_t)v : v), "a number is written in decimal"); } } }
ENTRY log_double() { init(); static const double D[] = {0, 1.5, -2.25, 1e15, 123456789.125, 1e40, 1e99, 1e100, -1e200, 1.7976931348623157e308}; double v = D[sx_choose(10, "v")]; char b[400]; snprintf(b, sizeof b, "%f\n", v); sx_assert(streamed(v) == b, "a real number is written in full"); }
ENTRY log_text() { init(); unsigned n = sx_choose(4, "len"); S t = sym(n, "t"), u = sym(1, "u"); Raw r(eLL_TRACE); LogStream st("strm", eLL_TRACE); st.addOutputStream(&r); if (sx_choose(2, "kind")) SLOGGING_INFO(st, t << u.c_str() << endl); else SLOGGING_INFO(st, t.c_str() << u << "\n" << flush); sx_assert(same(text_of(r), t + u + "\n"), "pieces are joined in order"); }
ENTRY log_printf() { init(); Raw r(eLL_TRACE); LogStream st("strm", eLL_TRACE); st.addOutputStream(&r); S t = sym(2, "t"); SLOGGING_FMT_INFO(st, "%s-%d|", t.c_str(), 42); sx_assert(same(text_of(r), t + "-42|"), "a formatted message is written as formatted"); }
ENTRY log_printf_long() { init(); Raw r(eLL_TRACE); LogStream st("strm", eLL_TRACE); st.addOutputStream(&r); static const int N[] = {10, 2045, 2046, 2047, 2048, 2100, 5000}; int n = N[sx_choose(7, "len")], p = sx_choose(3, "before"); S x(n, 'x'), h(p == 2 ? 2100 : p, 'h'); ThreadStream &ts = st.threadStream(eLL_INFO); ts << h; ts.printf("%s", x.c_str()); S w = h + x, g = text_of(r); sx_assert(w.compare(0, g.size(), g) == 0 && g.size() >= cut(w.size(), 2046), "a message is cut only when the buffer is full"); SLOGGING_INFO(st, "n" << endl); sx_assert(r.got.size() == 2 && r.got[1].text == "n\n", "the next message is not affected"); }
// the buffer: cut at its end, with room for the end of line
ENTRY log_full() { init(); Raw r(eLL_TRACE); LogStream st("strm", eLL_TRACE); st.addOutputStream(&r); static const int N[] = {0, 1, 2044, 2045, 2046, 2047, 2048, 2049, 4096}; int a = N[sx_choose(9, "a")], b = N[sx_choose(9, "b")]; S x(a, 'x'), y(b, 'y'); uint8_t v = sx_u8("v"); sx_assume(v < 10); ThreadStream &ts = st.threadStream(eLL_INFO); ts << x << y; bool num = sx_choose(2, "num"); if (num) ts << v; ts << endl; S w = x + y; if (num) w += char('0' + v); S g = text_of(r);
  sx_assert(!g.empty() && g[g.size() - 1] == '\n', "a full line still ends with an end of line"); size_t n = g.size() - 1; sx_assert(n <= w.size() && same(g.substr(0, n), w.substr(0, n)) && n == cut(w.size(), 2046), "and has as much text as fits"); SLOGGING_INFO(st, "n" << endl); sx_assert(r.got.size() == 2 && r.got[1].text == "n\n", "the next message is not affected"); }
// ---- C27: outputs with a thread of their own ----
static void put(Out &o, const char *t) { o.push(eLL_INFO, "s", "f", 1, "", "", "", t); }
static bool is_merge(const V &g, const V &a, const V &b) { size_t i = 0, j = 0; for (size_t k = 0; k < g.size(); ++k) { if (i < a.size() && g[k] == a[i]) ++i; else if (j < b.size() && g[k] == b[j]) ++j; else return false; } return i == a.size() && j == b.size(); }
ENTRY log_async() { init(); sx_must_reach("end"); vf_threads(PRE); { Out o(eLL_TRACE, true); o.changeLogFormat("~E"); bool before = sx_choose(2, "before"); if (before) put(o, "0"); o.start(); int n = 1 + sx_choose(2, "n"); V w; if (before) w.push_back("0"); for (int i = 0; i < n; ++i) { put(o, i ? "b" : "a"); w.push_back(i ? "b" : "a"); } if (sx_choose(2, "idle")) usleep(1000); o.shutdown(); sx_assert(o.got == w, "every message is written once, in order, before shutdown returns"); sx_assert(vf_running() == 0, "the thread is over after shutdown"); o.shutdown(); } sx_assert(vf_unjoined() == 0, "the thread of an output is released"); sx_reach("end"); }
// what an output has for its thread is shared with the threads that log: an unsynchronized access is an error (the flags of the thread itself apart)
ENTRY log_async_race() { init(); vf_threads(PRE); sx_track_new(1); Out *o = new Out(eLL_TRACE, true); sx_track_new(0); size_t t = sizeof(icl_core::logging::Thread); for (int i = 0; sx_tracked(i); ++i) { size_t n = sx_tracked_size(i); char *p = (char *)sx_tracked(i); if (n <= 1024 && p != (char *)o && n > t) vf_shared(p + t, n - t, 3); } o->changeLogFormat("~E"); o->start(); auto f = [&] { put(*o, "a"); }; Worker w(f); put(*o, "x"); w.join(); o->shutdown(); sx_assert(o->got.size() == 2, "every message is written once"); delete o; }
ENTRY log_async_two() { init(); vf_threads(PRE); { Out o(eLL_TRACE, true); o.changeLogFormat("~E"); o.start(); auto f = [&] { put(o, "a"); put(o, "b"); }; Worker w(f); put(o, "x"); w.join(); o.shutdown(); V A, B; A.push_back("a"); A.push_back("b"); B.push_back("x"); sx_assert(is_merge(o.got, A, B), "every message is written once, those of one thread in order"); } sx_assert(vf_unjoined() == 0, "the thread of an output is released"); }
ENTRY log_sync_two() { init(); g_yield = true; vf_threads(PRE); Out o; o.changeLogFormat("~E"); auto f = [&] { put(o, "a"); put(o, "b"); }; Worker w(f); put(o, "x"); w.join(); V A, B; A.push_back("a"); A.push_back("b"); B.push_back("x"); sx_assert(is_merge(o.got, A, B), "every message is written once, those of one thread in order"); }
// ---- C28: threads logging into one stream ----
// what a stream allocates for itself, apart from its text buffers, is shared by all threads: an unsynchronized access is an error
ENTRY log_threads_pool() { init(); vf_threads(PRE); Out o; o.changeLogFormat("~E"); sx_track_new(1); LogStream st("strm", eLL_TRACE); st.addOutputStream(&o); sx_track_new(0); for (int i = 0; sx_tracked(i); ++i) if (sx_tracked_size(i) <= 1024) vf_shared(sx_tracked(i), sx_tracked_size(i), 3); vf_shared(&st, sizeof st, 3); bool detach = sx_choose(2, "attach"); Out p(eLL_TRACE, false, "p"); auto f = [&] { SLOGGING_INFO(st, "a" << flush); }; Worker w(f); SLOGGING_INFO(st, "x" << flush); SLOGGING_ERROR(st, "z" << flush); if (detach) { st.addOutputStream(&p); st.removeOutputStream(&p); } w.join(); vf_unshared(&st); sx_assert(o.got.size() == 3, "every message arrives once"); }
ENTRY log_threads() { init(); vf_threads(PRE); Out o; o.changeLogFormat("~E"); LogStream st("strm", eLL_TRACE); st.addOutputStream(&o); auto f = [&] { SLOGGING_INFO(st, "a" << "b" << flush); if (PRE > 2) SLOGGING_INFO(st, "c" << flush); }; Worker w(f); SLOGGING_INFO(st, "x" << "y" << flush); SLOGGING_ERROR(st, "z" << flush); w.join(); V A, B; A.push_back("ab"); if (PRE > 2) A.push_back("c"); B.push_back("xy"); B.push_back("z"); sx_assert(is_merge(o.got, A, B), "messages of different threads never mix"); }
ENTRY log_threads_fields() { init(); vf_threads(PRE); Raw o(eLL_TRACE); LogStream st("strm", eLL_TRACE); st.addOutputStream(&o); auto f = [&] { SLOGGING_LOG_FLCO(st, eLL_ERROR, "fa", 1, "ca", "oa", "a" << flush); }; Worker w(f); SLOGGING_LOG_FLCO(st, eLL_INFO, "fb", 2, "cb", "ob", "b" << flush); SLOGGING_LOG_FLCO(st, eLL_INFO, "fc", 3, "cc", "oc", "c" << flush); w.join(); sx_assert(o.got.size() == 3, "every message arrives once"); int seen = 0; for (Raw::M &m : o.got) { S k = m.text; sx_assert(k.size() == 1, "one text each"); int i = k[0] - 'a'; seen |= 1 << i; sx_assert(i >= 0 && i < 3 && m.file == "f" + k && m.cls == "c" + k && m.obj == "o" + k && (int)m.line == i + 1 && m.l == (i ? eLL_INFO : eLL_ERROR), "the fields of a message stay together"); } sx_assert(seen == 7, "no message is lost"); }
// attaching and detaching while another thread logs
ENTRY log_threads_detach() { init(); vf_threads(PRE); Out o, p(eLL_TRACE, false, "p"); o.changeLogFormat("~E"); p.changeLogFormat("~E"); LogStream st("strm", eLL_TRACE); st.addOutputStream(&o); auto f = [&] { SLOGGING_INFO(st, "a" << flush); SLOGGING_INFO(st, "b" << flush); }; Worker w(f); st.addOutputStream(&p); st.removeOutputStream(&p); size_t n = p.got.size(); w.join(); sx_assert(p.got.size() == n, "a detached output gets no more messages"); sx_assert(o.got.size() == 2 && o.got[0] == "a" && o.got[1] == "b", "other outputs are not affected"); }
ENTRY log_signal() { init(); g_yield = true; vf_threads(1); vf_sem_interrupted(1); bool wk = sx_choose(2, "worker"); { Out o(eLL_TRACE, wk); o.changeLogFormat("~E"); o.start(); LogStream st("strm", eLL_TRACE); st.addOutputStream(&o); auto f = [&] { SLOGGING_INFO(st, "a" << flush); }; Worker w(f); SLOGGING_INFO(st, "x" << flush); w.join(); o.shutdown(); sx_assert(o.got.size() == 2 && (o.got[0] == "a" || o.got[1] == "a") && (o.got[0] == "x" || o.got[1] == "x"), "a signal does not make a message vanish"); } }
struct LOnce : Thread { int n; LOnce() : Thread(0), n(0) {} virtual void run() { ++n; } };
struct LLoop : Thread { int n; LLoop() : Thread(0), n(0) {} virtual void run() { while (execute()) usleep(1000); ++n; } };
ENTRY log_thread() { init(); vf_threads(PRE); { LOnce a; bool r = a.start(); sx_assert(r || a.n, "a thread starts"); int how = sx_choose(3, "how"); if (how == 0) { a.join(); sx_assert(a.n == 1 && !a.running(), "waiting for a thread waits for its end"); r = a.start(); a.join(); sx_assert(a.n == 2, "a thread can be started again"); } else if (how == 1) { a.stop(); a.join(); sx_assert(a.n == 1, "the body runs once"); }
    LLoop b; r = b.start(); sx_assert(r && b.running(), "a running thread is running"); if (sx_choose(2, "join")) { b.stop(); b.join(); sx_assert(b.n == 1, "a stopped thread ends"); } else b.stop(); a.join(); b.join(); }
  sx_assert(vf_running() == 0, "no thread is left running"); sx_assert(vf_unjoined() == 0, "every system thread is released"); }
// ---- C31: the configuration of streams and outputs ----
static std::vector<Out*> g_outs; static LogStream *g_st[2];
struct Mem : Out { static int live; Mem(const S &n, icl_core::logging::LogLevel l) : Out(l, false, n) { ++live; } ~Mem() { --live; } };
int Mem::live;
static LogOutputStream *make(const S &n, const S &prefix, icl_core::logging::LogLevel l) { sx_assert(prefix.compare(0, 17, "/IclCore/Logging/") == 0, "an output knows its place in the configuration"); Mem *m = new Mem(n, l); m->changeLogFormat("~E"); g_outs.push_back(m); return m; }
static LogStream *mkx() { return g_st[0] = new LogStream("X"); } static LogStream *mky() { return g_st[1] = new LogStream("Y"); }
static void conf(const S &k, const S &v) { icl_core::config::setValue("/IclCore/Logging/" + k, v); }
static Out *find(const S &n) { for (Out *o : g_outs) if (o->name() == n) return o; return 0; }
static void setup() { LoggingManager &m = LoggingManager::instance(); m.registerLogOutputStream("Mem", &make); m.registerLogStream("X", &mkx); m.registerLogStream("Y", &mky); }
static int level(const char *nm, bool &set, S &text) { int i = sx_choose(4, nm); set = i != 0; static const int L[] = {0, 2, 4, 0}; text = i == 3 ? "Loud" : LV[L[i]]; return i == 1 || i == 2 ? L[i] : 0; } // unset and unknown mean the lowest
static void matrix(Out *o, bool cx, bool cy, int ol, int xl, int yl) { static const int M[] = {0, 2, 4}; for (int s = 0; s < 2; ++s) for (int k = 0; k < 3; ++k) { size_t n = o->got.size(); SLOGGING_LOG_FLCO((*g_st[s]), (LogLevel)M[k], "f", 1, "", "", "m" << flush); bool want = (s ? cy : cx) && M[k] >= ol && M[k] >= (s ? yl : xl); sx_assert(o->got.size() == n + want, "a message reaches the outputs the configuration connects to its stream"); } }
ENTRY mgr_config() { setup(); bool s; S t; conf("OutputStreamA/OutputStreamName", "Mem"); bool named = sx_choose(2, "named"); if (named) conf("OutputStreamA/Name", "mine"); int ol = level("ol", s, t); if (s) conf("OutputStreamA/LogLevel", t);
  int which = sx_choose(4, "streams"); if (which & 1) conf("OutputStreamA/LogStream1", "X"); if (which & 2) conf("OutputStreamA/LogStream2", "Y"); int unk = sx_choose(4, "unknown"); static const char *UK[] = {"", "0", "1b", "3"}, *UC[] = {"", "A", "Xa", "Z"}; if (unk) { conf(S("OutputStreamA/LogStream") + UK[unk], "Z"); conf(S("OutputStream") + (unk == 1 ? "0" : "B") + "/OutputStreamName", "Nowhere"); conf(S("LogStream") + UC[unk] + "/Name", "Z"); }
  int xl = level("xl", s, t); conf("LogStreamX/Name", "X"); if (s) conf("LogStreamX/LogLevel", t); LoggingManager &m = LoggingManager::instance(); m.initialize();
  sx_assert(m.initialized() && g_outs.size() == 1 && g_st[0] && g_st[1], "outputs and streams are made once"); Out *o = g_outs[0]; sx_assert(o->name() == (named ? "mine" : "Mem"), "an output has its configured name"); bool all = which == 0 && !unk; matrix(o, all || (which & 1), all || (which & 2), ol, xl, 2);
  m.configure(); sx_assert(g_outs.size() == 1, "configuring again makes nothing twice"); m.shutdown(); sx_assert(Mem::live == 0 && !m.initialized(), "shutting down removes the outputs"); sx_reach("end"); sx_must_reach("end"); }
ENTRY mgr_two() { setup(); conf("OutputStreamA/OutputStreamName", "Mem"); conf("OutputStreamA/Name", "a"); conf("OutputStreamA/LogStream1", "X"); conf("OutputStreamA/LogLevel", "Trace"); conf("OutputStreamB/OutputStreamName", "Mem"); conf("OutputStreamB/Name", "b"); conf("OutputStreamB/LogLevel", "Error"); LoggingManager &m = LoggingManager::instance(); m.initialize(); Out *a = find("a"), *b = find("b"); sx_assert(g_outs.size() == 2 && a && b, "each configured output is made");
  int g = sx_choose(3, "global"); static const int G[] = {0, 0, 4}; if (g) m.setLogLevel((LogLevel)G[g]); matrix(a, true, false, g ? G[g] : 0, g ? G[g] : 2, g ? G[g] : 2); matrix(b, true, true, g ? G[g] : 4, g ? G[g] : 2, g ? G[g] : 2); m.changeLogFormat("a", "<~E>"); a->got.clear(); b->got.clear(); SLOGGING_ERROR((*g_st[0]), "m" << flush); sx_assert(a->got.size() == 1 && a->got[0] == "<m>" && b->got.size() == 1 && b->got[0] == "m", "a format is changed for one output"); m.removeLogOutputStream(b); SLOGGING_ERROR((*g_st[1]), "m" << flush); sx_assert(b->got.size() == 1, "a removed output gets no more messages"); delete b; m.shutdown(); sx_assert(Mem::live == 0, "shutting down removes the outputs"); }
ENTRY mgr_option() { setup(); conf("OutputStreamA/OutputStreamName", "Mem"); int i = sx_choose(6, "level"); bool bad = i == 5; char a0[] = "p", a1[] = "--log-level=Warning"; S arg = S("--log-level=") + (bad ? "Noisy" : LV[i]); char a2[64]; strcpy(a2, arg.c_str()); char *av[] = {a0, a2, 0}; int ac = 2; (void)a1; icl_core::config::initialize(ac, av, icl_core::config::Getopt::eCLC_Cleanup, icl_core::config::Getopt::ePRC_Relaxed); vf_threads(0); LoggingManager &m = LoggingManager::instance(); m.initialize(); int l = bad ? 2 : i; matrix(g_outs[0], true, true, l, l, l); m.shutdown(); sx_assert(Mem::live == 0 && vf_running() == 0, "shutting down removes the outputs"); }
ENTRY mgr_default() { setup(); vf_threads(1); LoggingManager &m = LoggingManager::instance(); m.initialize(); sx_assert(g_outs.empty() && g_st[0] && g_st[1], "streams are made without a configuration"); SLOGGING_INFO((*g_st[0]), "hello" << endl); m.shutdown(); sx_assert(vf_running() == 0 && vf_unjoined() == 0, "shutting down ends the default output"); bool again = sx_choose(2, "again"); if (again) { m.initialize(); m.shutdown(); sx_assert(vf_unjoined() == 0, "and again"); } }
struct Chars : std::streambuf { S s; int overflow(int c) { s += (char)c; return c; } std::streamsize xsputn(const char *p, std::streamsize n) { s.append(p, n); return n; } };
ENTRY mgr_global() { setup(); vf_threads(0); LoggingManager &m = LoggingManager::instance(); m.initialize(); Chars c; std::streambuf *old = std::cout.rdbuf(&c); int l = sx_choose(3, "level"), s = sx_choose(2, "stream"); static const int L[] = {0, 2, 4}; icl_core::logging::setLogLevel((LogLevel)L[l]); S want; int n = 0;
  for (int k = 0; k < 5; ++k) { SLOGGING_LOG_FLCO((*g_st[s]), (LogLevel)k, "f", 1, "", "", "<" << k << ">" << flush); if (k >= L[l]) ++n; } m.shutdown(); std::cout.rdbuf(old); int got = 0; for (int k = 0; k < 5; ++k) { S t = S("<") + (char)('0' + k) + ">"; bool in = c.s.find(t) != S::npos; got += in; sx_assert(in == (k >= L[l]), "the global log level holds for every stream and output"); } sx_assert(got == n, "every message is written"); sx_reach("end"); sx_must_reach("end"); }
