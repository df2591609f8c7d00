#include "util.h"
#include "quietlog.h"
#include <dlfcn.h>
extern "C" { void *vf_dlopen(const char *f, int fl); void *vf_dlsym(void *h, const char *n); int vf_dlclose(void *h); char *vf_dlerror(void); }
#define dlopen vf_dlopen
#define dlsym vf_dlsym
#define dlclose vf_dlclose
#define dlerror vf_dlerror
#include <string.h>
#include <icl_core_plugin/Plugin.h>
#include <vector>
#include <set>
using namespace icl_core::plugin; typedef std::string S; typedef std::vector<S> V;
struct Face { static int live; Face() { ++live; } virtual ~Face() { --live; } ICL_CORE_PLUGIN_DECLARE_PLUGIN_INTERFACE(Face) };
int Face::live; extern const char DIR[] = "plug";
struct Impl : Face { S id; int lib; Impl(const S &s, int l) : id(s), lib(l) {} virtual S Identifier() const { return id; } };
typedef PluginManager<Face, DIR> PM;
// ---- the dynamic loader ----
enum Kind { NOLIB, GOOD, OTHERTYPE, NOID, NOLOAD, NULLLOAD, NOBASE, KINDS }; struct Lib { Kind k; const char *id; int open; }; static Lib g_lib[3] = {{NOLIB, "alpha", 0}, {NOLIB, "beta", 0}, {NOLIB, "gamma", 0}}; static bool g_own; static const char *g_err;
template <int I> struct L { static const char *id() { return g_lib[I].id; } static Face *load() { sx_assert(g_lib[I].open > 0, "code of a closed library is not run"); return g_lib[I].k == NULLLOAD ? 0 : new Impl(g_lib[I].id, I); } };
static const char *base() { return typeid(Face).name(); } static const char *badbase() { return "other"; } static const char *ownid() { return "own"; }
void *vf_dlopen(const char *f, int) { size_t n = strlen(f); int i = n ? f[n - 1] - '0' : -1; sx_assert(i >= 0 && i < 3, "only files of the plugin directories are opened"); if (g_lib[i].k == NOLIB) { g_err = "not a library"; return 0; } ++g_lib[i].open; return &g_lib[i]; }
void *vf_dlsym(void *h, const char *n) { bool id = !strcmp(n, "identifier"), b = !strcmp(n, "basetype"), l = !strcmp(n, "load_plugin"); if (!h) { if (g_own && id) return (void *)&ownid; if (g_own && b) return (void *)&base; g_err = "undefined symbol"; return 0; }
  int i = (int)((Lib *)h - g_lib); sx_assert(i >= 0 && i < 3 && g_lib[i].open > 0, "symbols are looked up in open libraries"); Kind k = g_lib[i].k; void *r = 0;
  if (id && k != NOID) r = i == 0 ? (void *)&L<0>::id : i == 1 ? (void *)&L<1>::id : (void *)&L<2>::id; else if (b && k != NOBASE) r = k == OTHERTYPE ? (void *)&badbase : (void *)&base; else if (l && k != NOLOAD) r = i == 0 ? (void *)&L<0>::load : i == 1 ? (void *)&L<1>::load : (void *)&L<2>::load;
  if (!r) g_err = "undefined symbol"; return r; }
int vf_dlclose(void *h) { int i = (int)((Lib *)h - g_lib); sx_assert(h && i >= 0 && i < 3 && g_lib[i].open > 0, "only open libraries are closed"); --g_lib[i].open; return 0; }
char *vf_dlerror(void) { const char *e = g_err; g_err = 0; return (char *)e; }
static bool usable(int i) { return g_lib[i].k == GOOD; } static bool bad(int i) { return g_lib[i].k == NOLIB || g_lib[i].k == NOID || g_lib[i].k == NOBASE || g_lib[i].k == NOLOAD || g_lib[i].k == NULLLOAD; }
static V lst(const StringList &l) { return V(l.begin(), l.end()); } static int cnt(const V &v, const S &s) { int n = 0; for (const S &x : v) n += x == s; return n; }
static std::vector<Face*> insts(PM *m) { std::list<Face*> l = m->plugins(); return std::vector<Face*>(l.begin(), l.end()); }
static Kind kind(const char *n) { return (Kind)sx_choose(KINDS, n); }
static void file(int i, const S &d) { fakefs::tree().push_back(fakefs::Entry(S("lib.so.") + char('0' + i), d)); }
// which plugins are found
ENTRY plugin_load() { fakefs::tree().push_back(fakefs::Entry("plug", "", true)); bool sub = sx_choose(2, "sub"), rec = sx_choose(2, "recursive"), lazy = sx_choose(2, "lazy"); g_own = sx_choose(2, "own"); if (sub) fakefs::tree().push_back(fakefs::Entry("sub", "plug", true)); int n = 2; bool in[3] = {true, !sub || rec, false}; g_lib[0].k = kind("k0"); g_lib[1].k = kind("k1"); file(0, "plug"); file(1, sub ? "plug/sub" : "plug");
  PM *m = PM::instance(); sx_assert(m == PM::instance() && !m->isInitialized(), "there is one manager"); int how = sx_choose(3, "how"); if (how == 0) { bool r = m->initialize(lazy, rec); sx_assert(r && m->isInitialized() && m->loadLazy() == lazy && (!lazy || Face::live == 0), "plugins are instantiated at once or at first use"); if (sx_choose(2, "twice")) { r = m->initialize(false, !rec); sx_assert(r && !m->loadLazy(), "initializing again only instantiates"); } } else in[1] = !sub;
  if (how == 2) { Face *p = m->plugin("beta"); sx_assert(!p == !(in[1] && usable(1)), "a plugin is found by its name"); }
  for (int pass = 0; pass < 2; ++pass) {
    V a = lst(m->availablePlugins()); size_t want = 0, maybe = 0; for (int i = 0; i < n; ++i) { Kind k = g_lib[i].k; if (in[i] && k == GOOD) { ++want; sx_assert(cnt(a, g_lib[i].id) == 1, "every plugin is available under its name"); } else if (in[i] && (k == NOLOAD || k == NULLLOAD)) maybe += cnt(a, g_lib[i].id); else sx_assert(cnt(a, g_lib[i].id) == 0, "files which are no plugins are not available"); } sx_assert(a.size() == want + maybe, "nothing else is available");
    std::vector<Face*> v = insts(m); sx_assert(v.size() == want && Face::live == (int)want, "every plugin has one instance"); for (Face *f : v) sx_assert(f != 0 && m->plugin(f->Identifier()) == f, "an instance is found by its name");
    Face *u = m->plugin("nothing"); Face *c = m->createPluginInstance("nothing"); Face *o = m->plugin("own"); sx_assert(!u && !c && !o, "an unknown name gives no plugin"); }
  if (in[0] && usable(0)) { Face *x = m->plugin("alpha"), *y = m->createPluginInstance("alpha"); sx_assert(x && y && x != y && ((Impl *)y)->lib == 0 && y->Identifier() == "alpha" && m->plugin("alpha") == x, "a further instance is made on request"); delete y; }
  size_t e = m->errorMessages().size(), failed = 0; for (int i = 0; i < n; ++i) failed += in[i] && bad(i); sx_assert((e >= failed) && (failed || !e), "there is a message for every plugin that failed to load, and none else"); if (failed == 1) for (const S &s : m->errorMessages()) sx_assert(s.find(in[0] && bad(0) ? (g_lib[0].k == NOLOAD || g_lib[0].k == NULLLOAD ? "alpha" : "plug/lib.so.0") : (g_lib[1].k == NOLOAD || g_lib[1].k == NULLLOAD ? "beta" : "lib.so.1")) != S::npos, "a message names its plugin");
  delete m; sx_assert(Face::live == 0, "deleting the manager deletes the instances"); sx_assert(!g_lib[0].open && !g_lib[1].open, "and closes the libraries"); m = PM::instance(); sx_assert(!m->isInitialized(), "a new manager starts afresh"); if (how == 0) m->initialize(false, rec); std::vector<Face*> v = insts(m); size_t w = 0; for (int i = 0; i < n; ++i) w += in[i] && usable(i); sx_assert(v.size() == w, "and finds the same plugins"); delete m; sx_assert(Face::live == 0 && !g_lib[0].open && !g_lib[1].open, "again"); sx_reach("end"); sx_must_reach("end"); }
// two files with one name
ENTRY plugin_same_name() { fakefs::tree().push_back(fakefs::Entry("plug", "", true)); for (int i = 0; i < 2; ++i) { g_lib[i].k = GOOD; file(i, "plug"); } g_lib[1].id = "alpha"; PM *m = PM::instance(); bool lazy = sx_choose(2, "lazy"); m->initialize(lazy); V a = lst(m->availablePlugins()); sx_assert(a.size() == 1 && a[0] == "alpha" && insts(m).size() == 1 && m->plugin("alpha"), "one plugin per name"); delete m; sx_assert(!Face::live && !g_lib[0].open && !g_lib[1].open, "everything is released"); }
// where plugins are searched
ENTRY plugin_paths() { PM *m = PM::instance(); V p = lst(m->pluginPaths()); sx_assert(p.size() == 1 && p[0] == "plug", "the directory of the manager is searched"); S e; int n = 1; V want(1, "plug"); for (int i = 0; i < 3; ++i) { static const char *const P[] = {"", "more", "gone", "plug"}; int k = sx_choose(4, "path"); m->addPluginPath(P[k]); if (k) { want.push_back(P[k]); ++n; } } p = lst(m->pluginPaths()); sx_assert(p == want, "paths are searched in the order of adding, empty ones are ignored");
  bool more = false; for (const S &s : want) more |= s == "more"; fakefs::broken() = sx_choose(2, "broken"); if (sx_choose(2, "plug")) { fakefs::tree().push_back(fakefs::Entry("plug", "", true)); file(0, "plug"); } else g_lib[0].id = "none"; fakefs::tree().push_back(fakefs::Entry("more", "", true)); file(1, "more"); g_lib[0].k = g_lib[1].k = GOOD; bool has0 = g_lib[0].id[0] == 'a'; m->initialize(false); bool ok = !fakefs::broken(); V a = lst(m->availablePlugins()); sx_assert(cnt(a, "alpha") == (has0 && ok) && cnt(a, "beta") == (more && ok) && a.size() == (size_t)((has0 && ok) + (more && ok)), "exactly the existing directories are searched"); sx_assert(m->errorMessages().empty(), "missing directories are no errors"); delete m; sx_assert(!Face::live && !g_lib[0].open && !g_lib[1].open, "everything is released"); }
// plugins added by the program
ENTRY plugin_static() { fakefs::tree().push_back(fakefs::Entry("plug", "", true)); g_lib[0].k = GOOD; file(0, "plug"); Impl a("s1", -1), b("s2", -1), c("s1", -1); Impl *o[3] = {&a, &b, &c}; PM *m = PM::instance(); bool early = sx_choose(2, "early"); if (early) m->initialize(sx_choose(2, "lazy")); Impl *now[2] = {0, 0};
  for (int i = 0; i < 3; ++i) { int op = sx_choose(5, "op"); if (op < 3) { m->addStaticPlugin(o[op]); now[op == 1] = o[op]; } else { m->removeStaticPlugin(op == 3 ? "s1" : "s2"); now[op == 4] = 0; }
    for (int k = 0; k < 2; ++k) { S id = k ? "s2" : "s1"; sx_assert(m->isStaticPlugin(id) == (now[k] != 0), "a plugin is static between adding and removing"); if (sx_choose(2, "ask")) sx_assert(m->plugin(id) == now[k], "the latest one added under a name is found"); } sx_assert(!m->isStaticPlugin("alpha") && !m->isStaticPlugin("s3"), "others are not static"); }
  V l = lst(m->availablePlugins()); size_t n = (now[0] != 0) + (now[1] != 0); sx_assert(l.size() == n + 1 && cnt(l, "alpha") == 1 && cnt(l, "s1") == (now[0] != 0) && cnt(l, "s2") == (now[1] != 0), "static and loaded plugins are available"); std::vector<Face*> v = insts(m); int hit = 0; for (Face *f : v) hit += f == now[0] || f == now[1]; sx_assert(v.size() == n + 1 && hit == (int)n, "with their instances"); sx_assert(m->createPluginInstance("s1") == 0, "static plugins are not instantiated"); delete m; sx_assert(Face::live == 3, "static plugins belong to the program"); sx_assert(!g_lib[0].open, "libraries are closed"); }
// any names
ENTRY plugin_names() { fakefs::tree().push_back(fakefs::Entry("plug", "", true)); char n[2][3]; unsigned len = 1 + sx_choose(2, "len"); for (int i = 0; i < 2; ++i) { g_lib[i].k = GOOD; file(i, "plug"); unsigned l = i ? len : 1; sx_chars(n[i], l, "c", 0); for (unsigned k = 0; k < l; ++k) sx_assume(n[i][k] != 0); n[i][l] = 0; g_lib[i].id = n[i]; } PM *m = PM::instance(); m->initialize(sx_choose(2, "lazy")); bool eq = !strcmp(n[0], n[1]); char q[3]; sx_chars(q, len, "q", 0); for (unsigned k = 0; k < len; ++k) sx_assume(q[k] != 0); q[len] = 0; bool h0 = !strcmp(q, n[0]), h1 = !strcmp(q, n[1]); Face *f = m->plugin(q); sx_assert((f != 0) == (h0 || h1), "exactly the names of the plugins are known"); if (f) { int l = ((Impl *)f)->lib; sx_assert((l == 0 && h0) || (l == 1 && h1), "a name gives its plugin"); } sx_assert(m->availablePlugins().size() == 2 - eq && insts(m).size() == 2 - eq, "every name is available once"); delete m; sx_assert(!Face::live && !g_lib[0].open && !g_lib[1].open, "everything is released"); sx_reach("end"); sx_must_reach("end"); }
