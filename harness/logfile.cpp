#include "mt.h"
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LoggingManager.h>
#include <icl_core_logging/FileLogOutput.h>
#include <icl_core_logging/UdpLogOutput.h>
#include <icl_core/os_fs.h>
#include <icl_core_config/Config.h>
#include <boost/filesystem.hpp>
#include <zlib.h>
#include <wordexp.h>
#include <netdb.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <vector>
using namespace icl_core; using namespace icl_core::logging;
typedef std::string S;
#ifdef VF_THOROUGH
static const int DAYS = 3, FAULTS = 2;
#else
static const int DAYS = 2, FAULTS = 1;
#endif
// ---- stand-ins for the file system, zlib and sockets ----
static const char *P(const char *n) { static S a = vf_path("log.txt"); return n[0] == 'l' ? a.c_str() : 0; }
static S slurp(const S &n) { static char b[16384]; long k = vf_read_file(n.c_str(), b, sizeof b); return k < 0 ? S() : S(b, k); }
struct Gz { S name, data; size_t pos; bool wr, open, none; }; static Gz *g_gz[32]; static int g_ngz, g_faults, g_failed; static long g_mtime;
static bool fault(const char *w) { if (g_faults <= 0 || !sx_choose(2, w)) return false; g_faults--; g_failed++; return true; }
static Gz *archive(const S &n) { for (int i = g_ngz - 1; i >= 0; --i) if (g_gz[i]->wr && g_gz[i]->name == n) return g_gz[i]; return 0; }
extern "C" {
gzFile gzopen(const char *n, const char *m) { if (strchr(m, '+')) return 0; /* zlib: a compressed file cannot be read and written at the same time */ if (fault("open")) return 0; Gz *g = new Gz; g->name = n; g->pos = 0; g->wr = m[0] != 'r'; g->open = true; if (!g->wr) { if (vf_file_exists(n)) g->data = slurp(n); else { Gz *o = archive(n); if (!o) { delete g; return 0; } g->data = o->data; } } else { Gz *o = archive(n); if (o) { if (m[0] == 'a') g->data = o->data; o->name = ""; } } g_gz[g_ngz++] = g; return (gzFile)g; }
int gzread(gzFile f, voidp b, unsigned n) { Gz *g = (Gz *)f; sx_assert(g->open && !g->wr, "reading an open archive"); if (fault("read")) return -1; size_t k = g->data.size() - g->pos; if (k > n) k = n; memcpy(b, g->data.data() + g->pos, k); g->pos += k; return (int)k; }
int gzwrite(gzFile f, voidpc b, unsigned n) { Gz *g = (Gz *)f; sx_assert(g->open && g->wr, "writing an open archive"); if (fault("write")) return 0; g->data.append((const char *)b, n); return (int)n; }
int gzflush(gzFile f, int) { sx_assert(((Gz *)f)->open, "flushing an open archive"); return Z_OK; }
int gzclose(gzFile f) { Gz *g = (Gz *)f; sx_assert(g->open, "an archive is closed once"); g->open = false; if (g->wr && fault("close")) { g->data = ""; return Z_ERRNO; } return Z_OK; }
int rename(const char *a, const char *b) noexcept { Gz *g = archive(a); if (!g || fault("rename")) return -1; Gz *o = archive(b); if (o) o->name = ""; g->name = b; return 0; }
int unlink(const char *n) noexcept { if (vf_file_exists(n)) { S d; vf_remove_file(n); return 0; } return -1; }
int wordexp(const char *, wordexp_t *, int) { return WRDE_NOSPACE; }
}
namespace boost { namespace filesystem { namespace detail {
file_status status(path const &p, system::error_code *) { return file_status(vf_file_exists(p.c_str()) || archive(p.native()) ? regular_file : file_not_found, all_all); }
std::time_t last_write_time(path const &, system::error_code *) { return g_mtime; } } } }
static int count(const S &t, const S &x) { int n = 0; for (size_t p = t.find(x); p != S::npos; p = t.find(x, p + 1)) ++n; return n; }
static void init() { icl_core::config::setValue("/IclCore/Logging/OutputStreamNone/OutputStreamName", S("None")); LoggingManager::instance().initialize(); }
static void conf(const char *k, const S &v) { icl_core::config::setValue(S("/L/") + k, v); }
static void put(LogOutputStream &o, const S &t) { o.push(eLL_INFO, "s", "f", 1, "", "", "", t.c_str()); usleep(10); }
static const char *const HEAD = "\n\n-------------FILE (RE-)OPENED------------------\n";
// ---- C29: log files ----
ENTRY file_plain() { init(); vf_threads(0); S t; char c = (char)sx_u8("t"); sx_assume(c != 0); t += c; conf("FileName", P("l")); conf("Format", "~E"); bool old = sx_choose(2, "old"), fl = sx_choose(2, "flush"); if (old) vf_write_file(P("l"), "old\n", 4); if (!fl) conf("Flush", "false");
  LogOutputStream *o = FileLogOutput::create("out", "/L", eLL_TRACE); o->start(); put(*o, t); put(*o, "second\n"); if (fl) { usleep(1000); sx_assert(slurp(P("l")) == (old ? "old\n" : "") + S(HEAD) + t + "second\n", "a flushed message is in the file at once"); } o->shutdown(); delete o;
  S g = slurp(P("l")), w = (old ? "old\n" : "") + S(HEAD) + t + "second\n"; sx_assert(g.size() == w.size() && g == w, "messages are appended to what the file had"); }
// after any number of days, with any failing step, every message is in the file or in the archive of its day
ENTRY file_rotate() { init(); vf_threads(0); bool zip = sx_choose(2, "online"); conf("FileName", P("l")); conf("Format", "~E"); conf("Rotate", "true"); if (zip) conf("Zip", "true"); long day = 17400 * 86400l + (long)sx_range("s", 0, 80000); vf_clock(day, 0); bool old = !zip && sx_choose(2, "old");
  if (old) { vf_write_file(P("l"), "old\n", 4); g_mtime = day - 86400; } g_faults = zip ? 0 : FAULTS;
  LogOutputStream *o = FileLogOutput::create("out", "/L", eLL_TRACE); if (zip) o->changeLogFormat("~E"); o->start(); static const char *const M[] = {"<a>", "<b>", "<c>", "<d>"}; int n = 0, on[4]; for (int d = 0; d < DAYS; ++d) { vf_clock(day + d * 86400l, 0); on[n] = d; put(*o, M[n++]); if (d == 0 && sx_choose(2, "two")) { on[n] = d; put(*o, M[n++]); } } o->shutdown(); delete o;
  S all; for (int i = 0; i < g_ngz; ++i) { sx_assert(!g_gz[i]->open, "every archive is closed"); if (g_gz[i]->wr && !g_gz[i]->name.empty()) all += g_gz[i]->data; } S cur = slurp(P("l")), every = cur + all;
  if (old) sx_assert(count(every, "old\n") >= 1, "no earlier text is lost"); for (int i = 0; i < n; ++i) sx_assert(count(every, M[i]) >= 1, "no message is lost");
  if (!g_failed) { for (int i = 0; i < n; ++i) { sx_assert(count(every, M[i]) == 1, "no message is doubled"); char date[32]; TimeStamp(day + on[i] * 86400l).strfTime(date, 32, ".%Y-%m-%d"); S where; if (on[i] == DAYS - 1) where = zip ? (archive(P("l")) ? archive(P("l"))->data : S()) : cur; else { Gz *g = archive(S(P("l")) + date + (zip ? "" : ".gz")); sx_assert(g != 0, "a past day has an archive"); where = g->data; } sx_assert(count(where, M[i]) == 1, "a message is in the file of its day"); } if (old) { char date[32]; TimeStamp(day - 86400).strfTime(date, 32, ".%Y-%m-%d"); Gz *g = archive(S(P("l")) + date + ".gz"); sx_assert(g && count(g->data, "old\n") == 1, "what was written on an earlier day goes to the archive of that day"); } } }
// a compressed log file is continued by the next run
ENTRY file_online() { init(); vf_threads(0); S t; char c = (char)sx_u8("t"); sx_assume(c != 0); t += c; conf("FileName", P("l")); conf("Format", "~E"); conf("Zip", "true"); int runs = 1 + sx_choose(2, "runs"); S w; for (int i = 0; i < runs; ++i) { LogOutputStream *o = FileLogOutput::create("out", "/L", eLL_TRACE); o->changeLogFormat("~E"); o->start(); S m = i ? S("<second>\n") : t; put(*o, m); w += HEAD + m; o->shutdown(); delete o; } S g; for (int i = 0; i < g_ngz; ++i) { sx_assert(!g_gz[i]->open, "every archive is closed"); if (g_gz[i]->name == P("l")) g += g_gz[i]->data; } sx_assert(g.size() == w.size() && g == w, "messages are appended to what the compressed file had"); sx_must_reach("t"); sx_reach("t"); }
ENTRY file_zip() { static const int N[] = {0, 1, 4095, 4096, 4097, 9000}; int n = N[sx_choose(6, "n")]; S d(n, 'x'); if (n) d[n - 1] = 'e'; uint8_t c = sx_u8("c"); if (n) d[n / 2] = (char)c; bool there = sx_choose(2, "there"); if (there) vf_write_file(P("l"), d.data(), d.size()); g_faults = FAULTS; bool r = os::zipFile(P("l"), ".x"); Gz *g = archive(S(P("l")) + ".x.gz"); bool ok = there && g && g->data == d; sx_assert(!r || ok, "success means that the archive has everything"); sx_assert(r || g_failed || !there, "without a failure it succeeds"); for (int i = 0; i < g_ngz; ++i) sx_assert(!g_gz[i]->open, "every file is closed"); sx_assert(!there || slurp(P("l")) == d, "the file itself stays as it is"); }
// ---- C30: log messages over the network ----
static S g_sent; static int g_sends, g_socks, g_conn; enum { SOCK = 200 };
extern "C" {
int getaddrinfo(const char *h, const char *p, const struct addrinfo *hints, struct addrinfo **r) { sx_assert(S(h) == "host" && S(p) == "60000", "the configured server is looked up"); if (fault("lookup")) return -2; static struct addrinfo a[2]; static struct sockaddr s; memset(a, 0, sizeof a); for (int i = 0; i < 2; ++i) { a[i].ai_family = hints->ai_family; a[i].ai_socktype = hints->ai_socktype; a[i].ai_addr = &s; a[i].ai_addrlen = sizeof s; } a[0].ai_next = &a[1]; *r = a; return 0; }
void freeaddrinfo(struct addrinfo *) noexcept {}
int socket(int, int t, int) noexcept { sx_assert(t == SOCK_DGRAM, "a datagram socket"); if (fault("socket")) return -1; ++g_socks; return SOCK; }
int connect(int f, const struct sockaddr *, socklen_t) { sx_assert(f == SOCK, "the socket is connected"); if (fault("connect")) return -1; g_conn = 1; return 0; }
}
static ssize_t net(int fd, const void *b, size_t n) { sx_assert(fd == SOCK && g_socks > 0, "the socket is open"); if (!b) { --g_socks; return 0; } if (fault("send")) return -1; ++g_sends; g_sent.assign((const char *)b, n); return (ssize_t)n; }
// reads one value of a list of quoted texts and numbers, as SQLite does
static bool value(const S &s, size_t &i, S &v) { v = ""; if (i < s.size() && s[i] == '\'') { ++i; for (;;) { if (i >= s.size()) return false; char c = s[i++]; if (c == '\'') { if (i < s.size() && s[i] == '\'') { v += c; ++i; } else break; } else v += c; } } else while (i < s.size() && s[i] >= '0' && s[i] <= '9') v += s[i++]; if (i < s.size()) { if (s[i] != ',') return false; ++i; } return true; }
ENTRY udp_message() { init(); vf_threads(0); vf_net = net; vf_clock(1500000000, 123456789); conf("Host", "host"); conf("SystemName", "sys"); g_faults = FAULTS; LogOutputStream *o = UdpLogOutput::create("out", "/L", eLL_TRACE); bool up = g_conn; o->start(); S obj, text; unsigned n = 1 + sx_choose(2, "len"); for (unsigned i = 0; i < n; ++i) { char c = (char)sx_u8("t"); sx_assume(c != 0); text += c; } char c = (char)sx_u8("o"); sx_assume(c != 0); obj += c; int f0 = g_failed; o->push(eLL_INFO, "strm", "f.c", 12, "cls", obj.c_str(), "fun", text.c_str()); usleep(10); bool lost = g_failed > f0; o->shutdown(); delete o;
  sx_assert(g_socks == 0, "every socket is closed"); sx_assert(g_sends == (up && !lost ? 1 : 0), "a message is sent once"); if (!g_sends) return; size_t i = 0; S v[11]; for (int k = 0; k < 11; ++k) sx_assert(value(g_sent, i, v[k]), "a sent message is a well formed list"); sx_assert(i == g_sent.size(), "of eleven values");
  sx_assert(v[0] == "sys" && v[3] == "Info" && v[4] == "strm" && v[5] == "f.c" && v[6] == "12" && v[7] == "cls" && v[9] == "fun", "a message is sent with its fields"); sx_assert(v[8] == obj && v[10] == text, "object and text arrive as they were"); }
