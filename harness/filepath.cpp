#include "util.h"
#include "quietlog.h"
#include <icl_core_config/AttributeTree.h>
using namespace icl_core::config;
#ifdef VF_THOROUGH
static const int LEN = 9, ANY = 4;
#else
static const int LEN = 7, ANY = 3;
#endif
typedef std::string S;
// what a path names, independent of the implementation: components after resolving "." and ".."
struct Where { bool abs; int n; S c[12]; Where() : abs(false), n(0) {} };
static Where resolve(const char *p, unsigned len) {
  Where w; unsigned i = 0; w.abs = len && (p[0] == '/' || p[0] == '\\');
  while (i < len) { unsigned j = i; while (j < len && p[j] != '/' && p[j] != '\\') ++j; S c(p + i, j - i); i = j + 1;
    if (c.empty() || c == ".") continue;
    if (c == ".." && w.n && w.c[w.n - 1] != "..") { --w.n; continue; }
    if (c == ".." && w.abs && !w.n) continue;
    if (w.n < 12) w.c[w.n++] = c; }
  return w; }
static bool same(const Where &a, const Where &b) { if (a.abs != b.abs || a.n != b.n) return false; for (int i = 0; i < a.n; ++i) if (a.c[i] != b.c[i]) return false; return true; }
static unsigned text(char *b, const char *alphabet, unsigned max) { unsigned n = sx_choose(max + 1, "len"); sx_chars(b, n, "p", alphabet); return n; }
static bool left(const S &s) { // does the text still contain "something/../" ?
  for (unsigned i = 0; i + 3 < s.size(); ++i) if (s[i] == '/' && s[i + 1] == '.' && s[i + 2] == '.' && s[i + 3] == '/' && i) { unsigned j = i; while (j && s[j - 1] != '/') --j; S c(s, j, i - j); if (!c.empty() && c != "..") return true; } return false; }
ENTRY path_normal() {
  char b[16]; unsigned n = text(b, "/.a\\", LEN); S in(b, n), out = FilePath::normalizePath(in);
  sx_assert(same(resolve(b, n), resolve(out.data(), out.size())), "a normalized path names the same place");
  sx_assert(out.find('\\') == S::npos, "only the separator of the system is used"); sx_assert(out.find("/./") == S::npos && out.find("./") != 0, "single dots are removed"); sx_assert(!left(out), "something/../ is reduced");
  sx_assert(FilePath::normalizePath(out) == out, "normalizing again changes nothing"); sx_assert(FilePath::isRelativePath(in) == (n == 0 || b[0] != '/'), "relative paths do not begin with a slash");
}
ENTRY path_any() { char b[8]; unsigned n = sx_choose(ANY + 1, "len"); for (unsigned i = 0; i < n; ++i) b[i] = (char)sx_u8("p"); S in(b, n), out = FilePath::normalizePath(in); sx_assert(same(resolve(b, n), resolve(out.data(), out.size())), "a normalized path names the same place"); S e = FilePath::exchangeSeparators(in); sx_assert(e.size() == n, "exchanging separators keeps the length"); for (unsigned i = 0; i < n; ++i) sx_assert(e[i] == (b[i] == '\\' ? '/' : b[i]), "exactly the other separators are exchanged"); }
ENTRY path_parts() {
  char b[16]; unsigned n = text(b, "/.a", LEN - 1); sx_assume(n > 0); setenv("PWD", sx_choose(2, "pwd") ? "/w/x.y" : "/", 1); S in(b, n); FilePath f(in.c_str()); S a = f.absoluteName(), p = f.path(), m = f.name(), x = f.extension();
  sx_assert(p + m == a, "a name consists of path and name"); sx_assert(!p.empty() && p[p.size() - 1] == '/', "the path ends with a separator"); sx_assert(m.find('/') == S::npos, "the name has no separator"); sx_assert(a[0] == '/', "the name is absolute"); sx_assert(!f.isRelativePath(), "an absolute path is not relative");
  S whole = b[0] == '/' ? in : S(getenv("PWD")) + "/" + in; sx_assert(same(resolve(whole.data(), whole.size()), resolve(a.data(), a.size())), "relative names start from the current directory");
  S::size_type d = m.rfind('.'); sx_assert(x == (d == S::npos ? S() : m.substr(d)), "the extension is the last part of the name"); sx_assert(f.absolutePath(in) == a, "the absolute path of a name");
}
ENTRY path_env() {
  char v[8]; unsigned n = sx_choose(LEN - 2, "len"); sx_chars(v, n, "v", "${}A"); char t[8]; unsigned l = sx_choose(LEN - 1, "text"); sx_chars(t, l, "t", "${}A"); v[n] = 0; setenv("A", v, 1); S in = S(t, l), out = FilePath::replaceEnvironment(in);
  // every ${NAME} is replaced by the value of NAME, an unknown NAME by itself; text without a matching bracket is not changed
  S exp; unsigned i = 0; bool bad = false; while (i < l) { if (t[i] == '$' && i + 1 < l && t[i + 1] == '{') { unsigned j = i + 2; while (j < l && t[j] != '}') ++j; if (j == l) { bad = true; break; } S k(t + i + 2, j - i - 2); exp += k == "A" ? S(v) : k; i = j + 1; } else exp += t[i++]; }
  sx_assert(out == (bad ? in : exp), "environment variables are replaced by their values");
}
