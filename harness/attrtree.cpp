#include "util.h"
#include "quietlog.h"
#include <icl_core_config/AttributeTree.h>
#include <sstream>
using namespace icl_core::config;
#ifdef VF_THOROUGH
static const int NOPS = 4, TXT = 8, NSET = 3;
#else
static const int NOPS = 3, TXT = 7, NSET = 3;
#endif
typedef AttributeTree AT;
static bool eqz(const char *a, const char *b) { if (!a || !b) return !a && !b; unsigned n = strlen(a); if (n != strlen(b)) return false; int ok = 1; for (unsigned i = 0; i < n; ++i) ok &= a[i] == b[i]; return ok; }
// ---- histories of set, get, create, remove and copy against a table of paths ----
static const char *const P[6] = {"a", "b", "a.a", "a.b", "b.a", "b.b"};
struct Tab { bool ex[6]; const char *val[6]; Tab() { for (int i = 0; i < 6; ++i) { ex[i] = false; val[i] = 0; } }
  void make(int p) { ex[p] = true; if (p > 1) ex[(p - 2) / 2] = true; }
  void set(int p, const char *v) { make(p); val[p] = v; }
  void del(int p) { ex[p] = false; val[p] = 0; if (p < 2) { for (int k = 0; k < 2; ++k) { ex[2 + 2 * p + k] = false; val[2 + 2 * p + k] = 0; } } } };
static AT *sub(AT *r, const char *p) { char f[2] = {p[0], 0}; AT *t = r->getSubTree(f); return t && p[1] ? t->getSubTree(p + 2) : t; }
static void compare(AT *r, const Tab &t) {
  int n = 0; for (int i = 0; i < 6; ++i) { AT *s = sub(r, P[i]); sx_assert((s != 0) == t.ex[i], "exactly the created nodes exist"); if (t.val[i]) ++n; AT *found = (AT *)&n; char *g = r->getAttribute(P[i], 0, &found); sx_assert(eqz(g, t.val[i]), "a path has the value last set"); sx_assert(found == (t.val[i] ? s : 0), "the node of the value is reported"); const char *d = r->getAttribute(P[i], "dflt"); sx_assert(eqz(d, t.val[i] ? t.val[i] : "dflt"), "the default is used exactly if there is no value"); sx_assert(r->isAttribute(P[i]) == (t.val[i] != 0), "a value is there or not"); if (t.val[i]) sx_assert(r->isAttribute(P[i], t.val[i]) && !r->isAttribute(P[i], "other"), "a value is compared");
    if (s) { sx_assert(s->root() == r && s->parent() != 0, "a node knows its root"); } }
  sx_assert(r->contains() == n, "the number of values is counted");
  for (AT *s = r->firstSubTree(); s; s = r->nextSubTree(s)) { sx_assert(s->parent() == r, "a node knows its parent"); --n; if (n < -8) break; }
  int kids = 0; for (AT *s = r->firstSubTree(); s && kids < 9; s = r->nextSubTree(s)) ++kids; sx_assert(kids == t.ex[0] + t.ex[1], "walking the children visits each once"); sx_assert(!r->getAttribute("c") && !r->getAttribute("a.c") && !r->getAttribute("c.a", 0), "an unknown path has no value");
}
ENTRY tree_history() {
  char v[NOPS][2]; { AT warm; warm.getAttribute("a"); } uint64_t base = sx_heap_live(); AT *r = new AT; Tab t; compare(r, t);
  for (int k = 0; k < NOPS; ++k) { int p = sx_choose(6, "path"); v[k][0] = (char)sx_u8("v"); sx_assume(v[k][0] != 0); v[k][1] = 0;
    switch (sx_choose(6, "op")) {
    case 0: { AT *s = r->setAttribute(P[p], v[k]); t.set(p, v[k]); sx_assert(s == sub(r, P[p]), "setting returns the node"); break; }
    case 1: { r->setAttribute(P[p], (const char *)0); t.set(p, 0); break; }
    case 2: { AT *s = sub(r, P[p]); if (s) delete s; t.del(p); break; }
    case 3: { char *g = r->getOrSetDefault(P[p], v[k]); if (!t.val[p]) t.set(p, v[k]); sx_assert(eqz(g, t.val[p]), "the value or the new default is returned"); break; }
    case 4: { AT *c = new AT(*r); compare(c, t); delete r; r = c; break; }
    default: { char f[2] = {P[p][0], 0}; AT *s = r->subTree(f); if (P[p][1]) s->subTree(P[p] + 2); t.make(p); break; } }
    compare(r, t); }
  delete r; sx_assert(sx_heap_live() == base, "all memory is released");
}
// ---- arbitrary names ----
static void name(char *b, unsigned n, const char *nm) { for (unsigned i = 0; i < n; ++i) { b[i] = (char)sx_u8(nm); sx_assume(b[i] != 0 && b[i] != '.'); } b[n] = 0; }
ENTRY tree_names() {
  char x[8], y[8], z[8]; name(x, 1 + sx_choose(2, "lx"), "x"); name(y, 1 + sx_choose(2, "ly"), "y"); name(z, 1 + sx_choose(2, "lz"), "z"); AT r; bool deep = sx_choose(2, "deep"); std::string px = deep ? std::string("k.") + x : std::string(x), py = deep ? std::string("k.") + y : std::string(y), pz = deep ? std::string("k.") + z : std::string(z);
  r.setAttribute(px.c_str(), "1"); r.setAttribute(py.c_str(), "22"); const char *e = eqz(z, y) ? "22" : eqz(z, x) ? "1" : 0; sx_assert(eqz(r.getAttribute(pz.c_str()), e), "a value belongs to exactly its name"); AT *f = r.search(z, 0); sx_assert((f != 0) == (e != 0 || (deep && eqz(z, "k"))), "search finds a name");
}
ENTRY tree_changed() { // a change is noticed until it is marked as handled
  AT r; r.setAttribute("a.b", "1"); sx_assert(r.changed(), "a new value is a change"); r.unmarkChanges(); sx_assert(!r.changed(), "no change since then"); char v[3]; sx_chars(v, 1, "v", 0); bool same = v[0] == '1'; int how = sx_choose(4, "how");
  switch (how) { case 0: r.setAttribute("a.b", v); sx_assert(r.changed() == !same, "a change is another value"); break; case 1: { r.getAttribute("a.b"); r.getAttribute("x.y"); r.getOrSetDefault("a.b", v); sx_assert(!r.changed(), "reading is no change"); break; } case 2: { AT c(r); sx_assert(!c.changed(), "a copy is unchanged"); break; } default: delete r.getSubTree("a"); sx_assert(r.changed(), "removing is a change"); } }
ENTRY tree_subnodes() { // attaching trees never produces two children of one name
  AT r; char n[8]; sx_chars(n, 1 + sx_choose(2, "len"), "n", "a019"); int k = 2 + sx_choose(2, "count"); AT *s[3]; for (int i = 0; i < k; ++i) { if (sx_choose(2, "new")) s[i] = r.addNewSubTree(); else { s[i] = new AT(n); int nx = i ? sx_choose(i + 1, "next") : 0; AT *was = nx ? r.nextSubTree(s[nx - 1]) : 0; AT *q = nx ? s[nx - 1]->addNextTree(s[i]) : r.addSubTree(s[i]); sx_assert(q == s[i], "attaching returns the tree");  if (nx) sx_assert(r.nextSubTree(s[nx - 1]) == s[i] && r.nextSubTree(s[i]) == was, "a tree added as the next one follows directly"); } sx_assert(s[i]->parent() == &r, "an attached tree knows its parent"); }
  for (int i = 0; i < k; ++i) { for (int j = 0; j < i; ++j) sx_assert(!eqz(s[i]->getDescription(), s[j]->getDescription()), "names of children differ"); sx_assert(r.getSubTree(s[i]->getDescription()) == s[i], "a child is found by its name"); }
  int kids = 0; for (AT *c = r.firstSubTree(); c && kids < 9; c = r.nextSubTree(c)) ++kids; sx_assert(kids == k, "walking the children visits each once");
  s[0]->unlink(); sx_assert(s[0]->parent() == 0 && r.getSubTree(s[0]->getDescription()) == 0, "an unlinked tree is no child"); for (int i = 1; i < k; ++i) sx_assert(r.getSubTree(s[i]->getDescription()) == s[i], "the others stay"); delete s[0];
}
// ---- saving and loading ----
static void same(AT *a, AT *b, int depth) { // b has every value of a
  sx_assert(eqz(a->attribute(), b->attribute()), "a loaded value is the saved one"); for (AT *s = a->firstSubTree(); s && depth < 5; s = a->nextSubTree(s)) { if (!s->contains()) continue; AT *q = b->getSubTree(s->getDescription()); sx_assert(q != 0, "a loaded tree has the saved nodes"); if (q) same(s, q, depth + 1); } }
static void sameOrder(AT *a, AT *b, int d) { AT *q = b->firstSubTree(); for (AT *s = a->firstSubTree(); s && d < 5; s = a->nextSubTree(s)) { if (!s->contains()) continue; sx_assert(q && eqz(s->getDescription(), q->getDescription()), "the order is preserved if asked for"); if (!q) return; sameOrder(s, q, d + 1); q = b->nextSubTree(q); } }
static char g_n[2][4], g_v[3][4];
static void symbols() { for (int i = 0; i < 2; ++i) { sx_chars(g_n[i], 1, "n", 0); char c = g_n[i][0]; sx_assume((unsigned char)c > ' ' && (unsigned char)c < 0x80 && c != '.' && c != ':' && c != '{' && c != '}' && c != '#'); } for (int i = 0; i < 3; ++i) { unsigned l = i < 2 ? 1 : 1 + sx_choose(2, "vlen"); sx_chars(g_v[i], l, "v", 0); for (unsigned k = 0; k < l; ++k) sx_assume(g_v[i][k] != '\n' && g_v[i][k] != '\r'); } }
static AT *build(int shape) {
  AT *r = new AT; std::string x(g_n[0]), y(g_n[1]);
  switch (shape) {
  case 0: r->setAttribute(x.c_str(), g_v[0]); break;
  case 1: r->setAttribute(x.c_str(), g_v[0]); r->setAttribute(y.c_str(), g_v[1]); break;
  case 2: r->setAttribute((x + "." + y).c_str(), g_v[0]); r->setAttribute(x.c_str(), g_v[1]); break;
  case 3: r->setAttribute((x + "." + y).c_str(), g_v[0]); r->setAttribute((y + "." + x + ".k").c_str(), g_v[1]); r->setAttribute((y + "." + x).c_str(), g_v[2]); break;
  case 4: r->setAttribute("k.a", g_v[0]); r->setAttribute(("k." + x).c_str(), g_v[1]); r->setAttribute("k.a.b", g_v[2]); r->setAttribute(("k.a.b." + y).c_str(), "q"); break;
  case 5: r->setAttribute(x.c_str(), g_v[2]); r->setAttribute("", "root"); break;
  default: r->setAttribute("a.b.c.d.e", g_v[0]); r->setAttribute(("a.b.c.d." + x).c_str(), g_v[1]); r->setAttribute("a.b", g_v[2]); break; }
  return r; }
ENTRY tree_save_load() {
  symbols(); int shape = sx_choose(7, "shape"), style = sx_choose(5, "style"); AT *r = build(shape); std::string f = std::string(vf_path("t.conf")); int e = r->save(f.c_str(), style, sx_choose(2, "unmark")); sx_assert(e == AT::eOK, "saving succeeds");
  AT *l = new AT; bool order = sx_choose(2, "order"); e = l->load(f.c_str(), true, true, false, order); sx_assert(e == AT::eOK, "a saved tree loads"); sx_assert(!l->changed(), "a loaded tree is unchanged"); char *fn = l->getAttribute("_ATTRIBUTE_TREE_FILE_NAME_"); sx_assert(eqz(fn, "t.conf"), "the file name is known");
  delete l->getSubTree("_ATTRIBUTE_TREE_FILE_NAME_"); delete l->getSubTree("_ATTRIBUTE_TREE_FILE_PATH_"); same(r, l, 0); if (order) sameOrder(r, l, 0); sx_assert(r->contains() == l->contains(), "a loaded tree has no other values"); delete r; delete l;
}
ENTRY tree_comments() { // comments survive if asked for and are skipped otherwise
  AT r; r.setAttribute("a.b", "1"); r.setAttribute("c", "2"); char m[8]; unsigned n = 1 + sx_choose(3, "len"); for (unsigned i = 0; i < n; ++i) { m[i] = (char)sx_u8("m"); sx_assume(m[i] > ' ' || m[i] == '\n'); if (i == 0 || i == n - 1) sx_assume(m[i] != '\n'); if (i == 1) sx_assume(n != 4); } m[n] = 0; int deep = sx_choose(3, "deep"); AT *at = deep ? r.getSubTree("a") : &r; if (deep == 2) at = at->getSubTree("b"); at->setComment(m); sx_assert(eqz(at->comment(), m), "the comment is kept");
  std::string f = std::string(vf_path("t.conf")); r.save(f.c_str(), sx_choose(5, "style")); bool keep = sx_choose(2, "keep"); AT l; int e = l.load(f.c_str(), true, true, keep); sx_assert(e == AT::eOK, "a saved tree loads"); sx_assert(eqz(l.getAttribute("a.b"), "1") && eqz(l.getAttribute("c"), "2"), "values beside comments are loaded"); AT *q = deep ? l.getSubTree("a") : &l; if (q && deep == 2) q = q->getSubTree("b"); sx_assert(q && eqz(q->comment(), keep ? m : ""), "comments are loaded exactly if asked for"); sx_assert(l.contains() == 2 + 2 + keep, "nothing else is loaded");
}
// ---- reading ----
ENTRY tree_lines() { // forms of writing the same settings
  char x[4], v[4]; sx_chars(x, 1, "x", 0); sx_assume((unsigned char)x[0] > ' ' && (unsigned char)x[0] < 0x80 && x[0] != '.' && x[0] != ':' && x[0] != '{' && x[0] != '}' && x[0] != '#'); unsigned l = sx_choose(3, "len"); sx_chars(v, l, "v", 0); for (unsigned i = 0; i < l; ++i) sx_assume(v[i] != '\n' && v[i] != '\r'); sx_assume(x[0] != 'k' && x[0] != 'z' && x[0] != 'm'); std::string X(x), V(v, l), nl = sx_choose(2, "crlf") ? "\r\n" : "\n", in = sx_choose(2, "indent") ? " \t" : "", t, key;
  switch (sx_choose(6, "form")) { case 0: t = in + X + ":" + V + nl; key = X; break; case 1: t = in + "k." + X + ":" + V + nl; key = "k." + X; break; case 2: t = in + "k{" + nl + in + X + ":" + V + nl + in + "}k" + nl; key = "k." + X; break; case 3: t = "k.m{" + nl + "z{" + nl + "}z" + nl + X + ":" + V + nl + "}" + nl; key = "k." + X; break; case 4: t = in + "#" + X + nl + nl + X + "{" + nl + in + ":" + V + nl + "}" + nl; key = X; break; default: t = "_COMMENT_{" + nl + X + nl + "}_COMMENT_" + nl + "_COMMENT_:c" + nl + X + ":" + V + nl; key = X; }
  bool more = sx_choose(2, "more"); if (more) t += "z:9" + nl; bool cut = sx_choose(2, "cut"); if (cut) t = t.substr(0, t.size() - nl.size()); std::istringstream s(t); AT r; int e = r.get(s); sx_assert(e == -1, "well-formed text is accepted"); if (key == "k." + X && t.find("k.m{") == 0) { AT *q = r.getSubTree("k"); sx_assert(q && !q->getSubTree(x), "not beside"); key = "k.m." + X; }
  sx_assert(eqz(r.getAttribute(key.c_str()), V.c_str()), "every line counts"); if (more) sx_assert(eqz(r.getAttribute("z"), "9"), "every line counts");
}
static void walk(AT *a, AT *parent, int d) { sx_assert(a->parent() == parent, "a node knows its parent"); if (a->getDescription()) strlen(a->getDescription()); if (a->attribute()) strlen(a->attribute()); for (AT *s = a->firstSubTree(); s; s = a->nextSubTree(s)) walk(s, a, d + 1); }
static void parse(const std::string &t) { std::istringstream s(t); AT *r = new AT; bool c = sx_choose(2, "comments"); int e = r->get(s, true, c); sx_observe("result", e); sx_assert(e == -1 || e >= 1, "the result is success or a line"); walk(r, 0, 0); delete r; }
ENTRY tree_any_text() { unsigned n = 1 + sx_choose(TXT, "n"); std::string t; char b[16]; sx_chars(b, n, "t", "ab.:{}#\n _"); parse(std::string(b, n)); }
ENTRY tree_any_bytes() { unsigned n = 1 + sx_choose(TXT - 1, "n"); std::string t; for (unsigned i = 0; i < n; ++i) t += (char)sx_u8("t"); if (sx_choose(2, "block")) t = "k{\n" + t + "\n:1"; parse(t); }
ENTRY tree_hostile() { int k = sx_choose(5, "k"); std::string t; unsigned len = sx_choose(2, "len") ? 1997 : 1998 + 500 * sx_choose(2, "more"); switch (k) { case 0: t = std::string(len, 'a') + ":1\nb:2\n"; break; case 1: t = "b:" + std::string(len, 'v') + "\n"; break; case 2: t = "_COMMENT_{\nabc"; break; case 3: t = "_COMMENT_{\n" + std::string(len, 'c') + "\n}_COMMENT_\n"; break; default: t = std::string(len, ' ') + "b:2"; } parse(t); }
