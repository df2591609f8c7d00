#include "mt.h"
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LoggingManager.h>
#include <icl_core_logging/LogOutputStream.h>
#include <icl_core_performance_monitor/PerformanceMonitor.h>
#include <icl_core_config/Config.h>
#include <vector>
using namespace icl_core; using namespace icl_core::logging; using icl_core::perf_mon::PerformanceMonitor;
typedef std::string S; typedef std::vector<S> V;
#ifdef VF_THOROUGH
static const int MAXN = 4, HIST = 4;
#else
static const int MAXN = 3, HIST = 3;
#endif
struct Out : LogOutputStream { V got; Out() : LogOutputStream("out", "/IclCore/Logging/out", eLL_TRACE, false) { changeLogFormat("~E"); }
  virtual void pushImpl(const S &s) { got.push_back(S(s.data(), s.size())); } };
struct Raw : LogOutputStream { std::vector<icl_core::logging::LogLevel> lv; V got; Raw() : LogOutputStream("raw", "/IclCore/Logging/raw", eLL_TRACE, false) {}
  virtual void pushImpl(const LogMessage &m) { lv.push_back(m.log_level); got.push_back(m.message_text); } };
static Raw *g_out;
static void init() { icl_core::config::setValue("/IclCore/Logging/LogStreamP/Name", S("Performance")); icl_core::config::setValue("/IclCore/Logging/LogStreamP/LogLevel", S("Trace")); icl_core::config::setValue("/IclCore/Logging/OutputStreamNone/OutputStreamName", S("None")); LoggingManager::instance().initialize(); g_out = new Raw; Performance::instance().addOutputStream(g_out); }
static S last() { S r = g_out->got.empty() ? S("(none)") : g_out->got.back(); g_out->got.clear(); g_out->lv.clear(); return r; }
static bool has(const S &t, const S &p) { return t.find(p) != S::npos; }
static unsigned count(const S &t, const S &p) { unsigned n = 0; for (size_t i = 0; (i = t.find(p, i)) != S::npos; i += p.size()) ++n; return n; }
static S dec(unsigned long v) { S r; do r.insert(r.begin(), char('0' + v % 10)); while (v /= 10); return r; }
static S num(double v) { std::stringstream ss; ss << v; return ss.str(); }
// the statistics, seen by a derived monitor
struct PM : PerformanceMonitor { static PerformanceMonitor &i() { return *getInstance(); }
  static double avg(const S &n, bool t) { return t ? (i().*&PM::getAverage)(n) : (i().*&PM::getAverageNonTime)(n); }
  static void med(const S &n, bool t, double &a, double &b, double &c) { if (t) (i().*&PM::getMedian)(n, a, b, c); else (i().*&PM::getMedianNonTime)(n, a, b, c); } };
static void add(bool t, const S &n, double v, const S &p) { if (t) PerformanceMonitor::addData(n, v, p); else PerformanceMonitor::addNonTimeData(n, v, p); }
ENTRY perf_stats() { bool t = sx_choose(2, "time"); int n = 1 + sx_choose(MAXN, "n"), pre = sx_choose(3, "pre"); PerformanceMonitor::initialize(pre, 2); S p = sx_choose(2, "prefix") ? "pp" : ""; PerformanceMonitor::enablePrefix(p);
  double v[8]; for (int i = 0; i < n; ++i) { v[i] = sx_f64("v"); sx_assume(v[i] == v[i]); add(t, "x", v[i], p); add(!t, "x", 1e9, p); add(t, "y", -1e9, p); add(t, "x", 5, "off"); }
  double m, lo, hi; PM::med(p + "::x", t, m, lo, hi); int isl = 0, ish = 0, ism = 0, le = 0, ge = 0, bl = 1, bh = 1; for (int i = 0; i < n; ++i) { isl |= lo == v[i]; ish |= hi == v[i]; ism |= m == v[i]; bl &= lo <= v[i]; bh &= v[i] <= hi; le += v[i] <= m; ge += v[i] >= m; }
  sx_assert(isl && bl, "the minimum is the least value"); sx_assert(ish && bh, "the maximum is the greatest value"); sx_assert(ism && 2 * le >= n && 2 * ge >= n, "half the values are on each side of the median"); sx_reach("end"); sx_must_reach("end"); }
ENTRY perf_average() { bool t = sx_choose(2, "time"); int n = 1 + sx_choose(MAXN, "n"); PerformanceMonitor::initialize(sx_choose(2, "pre"), 2); double s = 0; for (int i = 0; i < n; ++i) { double k = sx_i8("k"); s += k; add(t, "x", k, ""); add(!t, "x", 1e9, ""); add(t, "y", -1e9, ""); }
  double a = PM::avg("::x", t), w = s / (double)n; uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &w, 8); sx_assert(sx_same(x, y) || (x << 1 == 0 && y << 1 == 0), "the average is the sum by the number"); }
// what a summary says
ENTRY perf_summary() { init(); bool t = sx_choose(2, "time"); static const double C[] = {3, -1.5, 20, 0}; PerformanceMonitor::initialize(sx_choose(2, "pre"), 1); int n = sx_choose(MAXN + 1, "n"); double v[8], s = 0, lo = 0, hi = 0; for (int i = 0; i < n; ++i) { v[i] = C[sx_choose(4, "v")]; s += v[i]; if (!i || v[i] < lo) lo = v[i]; if (!i || v[i] > hi) hi = v[i]; add(t, "x", v[i], ""); }
  S u = t ? " ms\n" : "\n", o; if (t && sx_choose(2, "one")) { PerformanceMonitor::printSummary("", "x"); sx_assert(g_out->lv.size() == 1 && g_out->lv[0] == eLL_INFO, "a summary is printed with its level"); o = last(); sx_assert(has(o, "Summary for ::x\n"), "a summary names its data"); }
  else { PerformanceMonitor::printSummaryFromPrefix("", eLL_INFO); sx_assert(g_out->lv.size() == 1 && g_out->lv[0] == eLL_INFO, "a summary is printed with its level"); o = last(); sx_assert(count(o, "Summary for ::x\n") == (n > 0), "data is in the summary once"); sx_assert(has(o, "Time data") == (t && n) && has(o, "Non-time data") == (!t && n) && !has(o, "Static"), "data is summarised by kind"); if (!n) return; }
  sx_assert(has(o, t ? "Called " + dec(n) + " times\n" : "num entries: " + dec(n) + "\n"), "a summary says how many values there are"); sx_assert(!n || has(o, "x_avg: " + num(s / n) + u), "a summary has the average"); sx_assert(!n || (has(o, "x_min: " + num(lo) + u) && has(o, "x_max: " + num(hi) + u)), "a summary has least and greatest value"); sx_reach("end"); sx_must_reach("end"); }
// what is collected depends on the enabled prefixes only
ENTRY perf_enable() { init(); PerformanceMonitor::initialize(0, 0); static const char *const P[] = {"", "a", "b"}; bool on[3] = {true, false, false}, all = false, master = true; int n[3] = {0, 0, 0}; for (int i = 0; i < HIST; ++i) { int op = sx_choose(4, "op"); if (op < 2) { int k = sx_choose(3, "which"); if (op) PerformanceMonitor::disablePrefix(P[k]); else PerformanceMonitor::enablePrefix(P[k]); on[k] = !op; } else { bool b = sx_choose(2, "on"); if (op == 2) PerformanceMonitor::enableAll(all = b); else PerformanceMonitor::getInstance()->m_enabled = master = b; }
    for (int k = 0; k < 3; ++k) { bool e = master && (all || on[k]); PerformanceMonitor::addData("d", i, P[k]); PerformanceMonitor::addNonTimeData("e", i, P[k]); PerformanceMonitor::addStaticData("s" + dec(i), i, P[k]); double r = 0; vf_clock(1000 + 2 * i, 0); PerformanceMonitor::start("t"); vf_clock(1001 + 2 * i, 0); g_out->got.clear(); r = PerformanceMonitor::measurement("t", "m", P[k]); n[k] += e; sx_assert(r == (e ? 1000. : 0.) && g_out->got.size() == (size_t)e, "a measurement is taken exactly if it is enabled"); } }
  for (int k = 0; k < 3; ++k) { PerformanceMonitor::printSummaryFromPrefix(P[k]); S o = last(), q = S(P[k]) + "::", c = "Called " + dec(n[k]) + " times\n"; sx_assert(has(o, "Summary for " + q + "d\n" + c) == (n[k] > 0) && has(o, "Summary for " + q + "m\n" + c) == (n[k] > 0) && has(o, "Summary for " + q + "e\nnum entries: " + dec(n[k]) + "\n") == (n[k] > 0), "exactly the values of enabled prefixes are collected"); sx_assert(count(o, "Summary for") == (n[k] ? 4u : 1u), "and no others"); }
  g_out->got.clear(); PerformanceMonitor::printSummaryAll(); unsigned m = on[0] + on[1] + on[2], j = 0; sx_assert(g_out->got.size() == m, "every enabled prefix has its summary"); for (int k = 0; k < 3; ++k) if (on[k]) sx_assert(has(g_out->got[j++], "Summary for prefix " + S(P[k]) + " "), "sorted by prefix"); }
// timers
static const long D[] = {0, 1, 1500, 999999, 1000000, 2000001, 86400000000};
static void at(long a, long d) { long s = 1000 + d / 1000000, u = a + d % 1000000; if (u >= 1000000) { ++s; u -= 1000000; } vf_clock_at_us(s, u); }
static void same(double r, long us, const char *msg) { double w = (double)(us * 1000) / 1000000.0; uint64_t x, y; memcpy(&x, &r, 8); memcpy(&y, &w, 8); sx_assert(sx_same(x, y), msg); }
ENTRY perf_timer() { init(); PerformanceMonitor::initialize(0, 0); static const long A[] = {0, 1, 499999, 999999}; long a = A[sx_choose(4, "a")]; long d = D[sx_choose(7, "d")], e = D[sx_choose(7, "e")]; bool quiet = sx_choose(2, "quiet"), ss = sx_choose(2, "startstop"); PerformanceMonitor::getInstance()->m_print_stop = !quiet;
  at(a, 0); if (ss) { double z = PerformanceMonitor::startStop("t", "d"); sx_assert(z == 0, "the first call only starts the timer"); } else PerformanceMonitor::start("t"); sx_assert(g_out->got.empty(), "starting prints nothing");
  vf_clock(1002, 500000000); PerformanceMonitor::start("other"); at(a, d);
  double r = ss ? PerformanceMonitor::startStop("t", "d", "", eLL_INFO) : PerformanceMonitor::measurement("t", "d", "", eLL_INFO); same(r, d, "a measurement is the time since the start"); sx_assert(g_out->got.size() == !quiet, "a measurement is printed exactly if printing is on"); if (!quiet) { sx_assert(g_out->lv[0] == eLL_INFO && g_out->got[0] == "::d: " + num((double)(d * 1000) / 1000000.0) + " ms\n", "with name, value and level"); }
  double m, lo, hi; PM::med("::d", true, m, lo, hi); same(lo, d, "and collected"); g_out->got.clear();
  at(a, d + e); double q = ss ? PerformanceMonitor::startStop("t", "d") : PerformanceMonitor::measurement("t", "d"); same(q, ss ? e : d + e, ss ? "a stopped timer is reset" : "a measured timer keeps running"); sx_reach("end"); sx_must_reach("end"); }
// time goes on while a measurement is taken: consecutive measurements leave nothing out and count nothing twice
ENTRY perf_chain() { init(); PerformanceMonitor::initialize(0, 0); bool quiet = sx_choose(2, "quiet"); PerformanceMonitor::getInstance()->m_print_stop = !quiet; static const long ST[] = {1000, 250000, 3000}; vf_clock(5000, 0); long st = ST[sx_choose(3, "step")]; vf_clock_step_us(st); PerformanceMonitor::startStop("t", "d"); long a = vf_now_s() * 1000 + vf_now_n() / 1000000; double sum = 0; long b = a; for (int i = 0; i < 6; ++i) { long c = vf_now_s() * 1000 + vf_now_n() / 1000000; sum += PerformanceMonitor::startStop("t", "d"); b = vf_now_s() * 1000 + vf_now_n() / 1000000; if (!i) sx_assert(c == a && sum > 0, "a measurement takes the time since the start"); }
  sx_assert(sum <= (double)(b - a) && sum >= (double)(b - a - (quiet ? 3 : 6) * st / 1000), "consecutive measurements add up to the whole time"); sx_reach("end"); sx_must_reach("end"); }
// static data and the order of a summary
ENTRY perf_static() { init(); PerformanceMonitor::initialize(0, 0); PerformanceMonitor::enablePrefix("p"); static const char *const N[] = {"k", "l"}; double v[2]; bool set[2] = {false, false}; for (int i = 0; i < 2; ++i) { int k = sx_choose(2, "k"); double d = sx_choose(2, "v") ? 2.5 : -7; PerformanceMonitor::addStaticData(N[k], d, "p"); v[k] = d; set[k] = true; } PerformanceMonitor::addStaticData("k", 99, ""); bool data = sx_choose(2, "data"); if (data) { PerformanceMonitor::addData("d", 1, "p"); PerformanceMonitor::addNonTimeData("e", 1, "p"); }
  PerformanceMonitor::printSummaryFromPrefix("p"); S o = last(); sx_assert(count(o, "Static data") == 1, "static data is in the summary"); for (int k = 0; k < 2; ++k) sx_assert(has(o, "\n" + S(N[k]) + ": ") == set[k] && (!set[k] || has(o, "\n" + S(N[k]) + ": " + num(v[k]) + "\n")), "the last value of static data is kept"); sx_assert(!has(o, "99"), "other prefixes are kept apart"); size_t a = o.find("Static"), b = o.find("Time data"), c = o.find("Non-time"); if (data) sx_assert(a < b && b < c && c != S::npos, "static data comes first"); else sx_assert(b == S::npos && c == S::npos, "nothing else is in it");
  PerformanceMonitor::initialize(1, 1); PerformanceMonitor::printSummaryFromPrefix("p"); o = last(); sx_assert(!has(o, "Time data") && !has(o, "Non-time"), "initialising drops collected data"); }
