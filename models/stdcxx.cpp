// Model of the compiled part of libstdc++ (symbolic execution only).  Class templates are explicitly
// instantiated from the real headers; number formatting/parsing, locales and the file layer are modelled.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <ios>
#include <ostream>
#include <istream>
#include <sstream>
#include <fstream>
#include <iostream>
#include <locale>
#include <string>
#include <list>
#include <map>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <functional>
#include <exception>
#include <system_error>
#include <cstring>
#include <cstdarg>
#include <unordered_map>
#include <bits/basic_file.h>
extern "C" { void sx_error(const char *, const char *); void sx_incomplete(const char *); int sx_host_fmt_double(char *, size_t, const char *, double); double sx_host_strtod(const char *, char **); void sx_print(const char *); int vsnprintf(char *, size_t, const char *, va_list); }

// ---------------- exceptions ----------------
namespace std {
void terminate() noexcept;
exception::~exception() noexcept {} const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
// __cow_string: one pointer to a private heap copy
static char *dupstr(const char *s, size_t n) { char *p = new char[n + 1]; memcpy(p, s, n); p[n] = 0; return p; }
struct __cs { char *p; };
#define CS(x) (reinterpret_cast<__cs *>(&(x))->p)
__cow_string::__cow_string() { CS(*this) = dupstr("", 0); }
__cow_string::__cow_string(const std::string &s) { CS(*this) = dupstr(s.data(), s.size()); }
__cow_string::__cow_string(const char *s, size_t n) { CS(*this) = dupstr(s, n); }
__cow_string::__cow_string(const __cow_string &o) noexcept { const char *q = CS(const_cast<__cow_string &>(o)); CS(*this) = dupstr(q, strlen(q)); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { const char *q = CS(const_cast<__cow_string &>(o)); char *n = dupstr(q, strlen(q)); delete[] CS(*this); CS(*this) = n; return *this; }
__cow_string::~__cow_string() { delete[] CS(*this); }
__cow_string::__cow_string(__cow_string &&o) noexcept { CS(*this) = CS(o); CS(o) = dupstr("", 0); }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { char *t = CS(*this); CS(*this) = CS(o); CS(o) = t; return *this; }
logic_error::logic_error(const string &s) : _M_msg(s) {} logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {} logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(logic_error &&o) noexcept = default; logic_error &logic_error::operator=(logic_error &&) noexcept = default;
logic_error::~logic_error() noexcept {} const char *logic_error::what() const noexcept { return CS(const_cast<__cow_string &>(_M_msg)); }
runtime_error::runtime_error(const string &s) : _M_msg(s) {} runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {} runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error &&o) noexcept = default; runtime_error &runtime_error::operator=(runtime_error &&) noexcept = default;
runtime_error::~runtime_error() noexcept {} const char *runtime_error::what() const noexcept { return CS(const_cast<__cow_string &>(_M_msg)); }
#define EX(N, B) N::N(const string &s) : B(s) {} N::N(const char *s) : B(s) {} N::~N() noexcept {}
EX(domain_error, logic_error) EX(invalid_argument, logic_error) EX(length_error, logic_error) EX(out_of_range, logic_error) EX(range_error, runtime_error) EX(overflow_error, runtime_error) EX(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); } void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); } void __throw_domain_error(const char *s) { throw domain_error(s); } void __throw_invalid_argument(const char *s) { throw invalid_argument(s); } void __throw_length_error(const char *s) { throw length_error(s); } void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *f, ...) { throw out_of_range(f); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); } void __throw_range_error(const char *s) { throw range_error(s); } void __throw_overflow_error(const char *s) { throw overflow_error(s); } void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_ios_failure(const char *s) { throw runtime_error(s); } void __throw_ios_failure(const char *s, int) { throw runtime_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __glibcxx_assert_fail(const char *f, int l, const char *fn, const char *c) noexcept { sx_error("glibcxx-assertion", c); __builtin_trap(); }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; }
const nothrow_t nothrow = nothrow_t();
void __detail::_List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void __detail::_List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void __detail::_List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void __detail::_List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void __detail::_List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
// ordered trees without rebalancing (depth only; iteration order is unaffected)
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black; h._M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *&root = h._M_parent;
  auto repl = [&](_Rb_tree_node_base *o, _Rb_tree_node_base *n) { if (root == o) root = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if (n) n->_M_parent = o->_M_parent; };
  if (!z->_M_left) repl(z, z->_M_right); else if (!z->_M_right) repl(z, z->_M_left);
  else { _Rb_tree_node_base *y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  if (root) { _Rb_tree_node_base *l = root; while (l->_M_left) l = l->_M_left; h._M_left = l; l = root; while (l->_M_right) l = l->_M_right; h._M_right = l; } else { h._M_left = &h; h._M_right = &h; }
  return z; }
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 31 + ((const unsigned char *)p)[i]; return h; }
size_t __detail::_Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t r = 13; while (r < n) r = r * 2 + 1; _M_next_resize = (size_t)((float)r * _M_max_load_factor); return r; }
pair<bool, size_t> __detail::_Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const { if (e + i > _M_next_resize || b == 1) { size_t nb = e + i > b ? _M_next_bkt(e + i > 2 * b ? e + i : 2 * b) : (b == 1 ? _M_next_bkt(13) : 0); if (nb) return {true, nb}; _M_next_resize = (size_t)-1; } return {false, 0}; }
}
extern "C" void vf_throw_bad_alloc() { throw std::bad_alloc(); }
extern "C" char __libc_single_threaded; char __libc_single_threaded = 0;

// ---------------- locale ----------------
namespace std {
locale::facet::~facet() {}
const char locale::facet::_S_c_name[2] = "C";
__c_locale locale::facet::_S_get_c_locale() { return 0; }
__c_locale locale::facet::_S_clone_c_locale(__c_locale &) throw() { return 0; }
void locale::facet::_S_destroy_c_locale(__c_locale &) {}
void locale::facet::_S_create_c_locale(__c_locale &, const char *, __c_locale) {}
locale::locale() throw() : _M_impl(0) {} locale::locale(const locale &o) throw() : _M_impl(0) {} locale::~locale() throw() {} const locale &locale::operator=(const locale &) throw() { return *this; }
locale::locale(const char *) : _M_impl(0) {}
bool locale::operator==(const locale &) const throw() { return true; }
string locale::name() const { return "C"; }
static locale *theLocale; 
const locale &locale::classic() { if (!theLocale) theLocale = new locale; return *theLocale; }
locale locale::global(const locale &) { return locale(); }
static ctype_base::mask gTable[256]; static bool gTableInit;
const ctype_base::mask *ctype<char>::classic_table() throw() {
  if (!gTableInit) { gTableInit = true; for (int c = 0; c < 256; c++) { unsigned m = 0; bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', di = c >= '0' && c <= '9', gr = c > 32 && c < 127; if (up) m |= upper; if (lo) m |= lower; if (up || lo) m |= alpha; if (di) m |= digit; if (di || ((c | 32) >= 'a' && (c | 32) <= 'f')) m |= xdigit; if (c == 32 || (c >= 9 && c <= 13)) m |= space; if (c >= 32 && c < 127) m |= print; if (c < 32 || c == 127) m |= cntrl; if (gr && !(up || lo || di)) m |= punct; if (c == 32 || c == 9) m |= blank; gTable[c] = (mask)m; } }
  return gTable; }
locale::id ctype<char>::id; locale::id codecvt<char, char, mbstate_t>::id;
size_t locale::id::_M_id() const throw() { return 0; }
ctype<char>::ctype(const mask *t, bool d, size_t r) : facet(r), _M_c_locale_ctype(0), _M_del(false), _M_toupper(0), _M_tolower(0), _M_table(t ? t : classic_table()), _M_widen_ok(0), _M_narrow_ok(0) { memset(_M_widen, 0, sizeof _M_widen); memset(_M_narrow, 0, sizeof _M_narrow); }
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return (c >= 'a' && c <= 'z') ? c - 32 : c; } char ctype<char>::do_tolower(char c) const { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
const char *ctype<char>::do_toupper(char *b, const char *e) const { for (; b < e; ++b) *b = do_toupper(*b); return e; } const char *ctype<char>::do_tolower(char *b, const char *e) const { for (; b < e; ++b) *b = do_tolower(*b); return e; }
void ctype<char>::_M_widen_init() const { for (int i = 0; i < 256; i++) _M_widen[i] = (char)i; _M_widen_ok = 1; }
void ctype<char>::_M_narrow_init() const { for (int i = 0; i < 256; i++) _M_narrow[i] = (char)i; _M_narrow_ok = 1; }
static ctype<char> *gCtype; static ctype<char> &theCtype() { if (!gCtype) gCtype = new ctype<char>(0, false, 1); return *gCtype; }
template <> const ctype<char> &use_facet<ctype<char>>(const locale &) { return theCtype(); }
template <> bool has_facet<ctype<char>>(const locale &) throw() { return true; }
codecvt<char, char, mbstate_t>::codecvt(size_t r) : __codecvt_abstract_base<char, char, mbstate_t>(r), _M_c_locale_codecvt(0) {} codecvt<char, char, mbstate_t>::~codecvt() {}
codecvt_base::result codecvt<char, char, mbstate_t>::do_out(state_type &, const intern_type *f, const intern_type *, const intern_type *&fn, extern_type *t, extern_type *, extern_type *&tn) const { fn = f; tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_unshift(state_type &, extern_type *t, extern_type *, extern_type *&tn) const { tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_in(state_type &, const extern_type *f, const extern_type *, const extern_type *&fn, intern_type *t, intern_type *, intern_type *&tn) const { fn = f; tn = t; return noconv; }
int codecvt<char, char, mbstate_t>::do_encoding() const throw() { return 1; } bool codecvt<char, char, mbstate_t>::do_always_noconv() const throw() { return true; }
int codecvt<char, char, mbstate_t>::do_length(state_type &, const extern_type *f, const extern_type *e, size_t m) const { size_t n = e - f; return (int)(n < m ? n : m); } int codecvt<char, char, mbstate_t>::do_max_length() const throw() { return 1; }
static codecvt<char, char, mbstate_t> *gCvt;
template <> const codecvt<char, char, mbstate_t> &use_facet<codecvt<char, char, mbstate_t>>(const locale &) { if (!gCvt) gCvt = new codecvt<char, char, mbstate_t>(1); return *gCvt; }
template <> bool has_facet<codecvt<char, char, mbstate_t>>(const locale &) throw() { return true; }
template <> const ctype<char> *__try_use_facet<ctype<char>>(const locale &) noexcept { return &theCtype(); }
template <> const codecvt<char, char, mbstate_t> *__try_use_facet<codecvt<char, char, mbstate_t>>(const locale &l) noexcept { return &use_facet<codecvt<char, char, mbstate_t>>(l); }
// ---------------- ios_base ----------------
ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
locale ios_base::imbue(const locale &) throw() { return locale(); }
void ios_base::_M_call_callbacks(event) throw() {} void ios_base::_M_dispose_callbacks() throw() {}
bool ios_base::sync_with_stdio(bool b) { return true; }
void ios_base_library_init() {}
int ios_base::Init::_S_refcount; bool ios_base::Init::_S_synced_with_stdio = true;
ios_base::failure::~failure() {}
const char *ios_base::failure::what() const noexcept { return "ios_base::failure"; }
template <> void basic_ios<char>::_M_cache_locale(const locale &) { _M_ctype = &theCtype(); _M_num_put = 0; _M_num_get = 0; }
// ---------------- number output ----------------
static ostream &padOut(ostream &os, const char *pre, int np, const char *body, int nb) {
  ostream::sentry ok(os);
  if (ok) {
    streamsize w = os.width(); int pad = w > np + nb ? (int)(w - np - nb) : 0; char fc = pad ? os.fill() : ' ';
    ios_base::fmtflags adj = os.flags() & ios_base::adjustfield; streambuf *sb = os.rdbuf(); bool good = true;
    if (adj != ios_base::left && adj != ios_base::internal) for (int i = 0; i < pad; i++) sb->sputc(fc);
    if (np) good &= sb->sputn(pre, np) == np;
    if (adj == ios_base::internal) for (int i = 0; i < pad; i++) sb->sputc(fc);
    if (nb) good &= sb->sputn(body, nb) == nb;
    if (adj == ios_base::left) for (int i = 0; i < pad; i++) sb->sputc(fc);
    os.width(0);
    if (!good) os.setstate(ios_base::badbit);
  }
  return os; }
static ostream &insInt(ostream &os, unsigned long long u, bool neg, bool isSigned, int bits) {
  char t[72]; int n = 72; ios_base::fmtflags f = os.flags(), b = f & ios_base::basefield; unsigned base = b == ios_base::hex ? 16 : b == ios_base::oct ? 8 : 10; bool up = f & ios_base::uppercase;
  if (base != 10 && neg) { u = 0 - u; neg = false; if (bits < 64) u &= (1ull << bits) - 1; }
  unsigned long long v = u; do { unsigned d = (unsigned)(v % base); t[--n] = d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10; v /= base; } while (v);
  char pre[3]; int np = 0;
  if (base == 10 && isSigned) { if (neg) pre[np++] = '-'; else if (f & ios_base::showpos) pre[np++] = '+'; }
  else if ((f & ios_base::showbase) && u) { if (base == 16) { pre[np++] = '0'; pre[np++] = up ? 'X' : 'x'; } else if (base == 8) pre[np++] = '0'; }
  return padOut(os, pre, np, t + n, 72 - n); }
template <> template <> ostream &ostream::_M_insert<long>(long v) { return insInt(*this, v < 0 ? 0 - (unsigned long long)v : v, v < 0, true, 64); }
template <> template <> ostream &ostream::_M_insert<unsigned long>(unsigned long v) { return insInt(*this, v, false, false, 64); }
template <> template <> ostream &ostream::_M_insert<long long>(long long v) { return insInt(*this, v < 0 ? 0 - (unsigned long long)v : v, v < 0, true, 64); }
template <> template <> ostream &ostream::_M_insert<unsigned long long>(unsigned long long v) { return insInt(*this, v, false, false, 64); }
template <> template <> ostream &ostream::_M_insert<bool>(bool v) { if (flags() & boolalpha) return padOut(*this, "", 0, v ? "true" : "false", v ? 4 : 5); return insInt(*this, v, false, true, 64); }
template <> template <> ostream &ostream::_M_insert<const void *>(const void *v) { ios_base::fmtflags f = flags(); flags((f & ~(basefield | uppercase)) | (hex | showbase)); insInt(*this, (unsigned long)v, false, false, 64); flags(f); return *this; }
template <> template <> ostream &ostream::_M_insert<double>(double d) {
  char f[16]; int k = 0; f[k++] = '%'; ios_base::fmtflags fl = flags(), ff = fl & floatfield; if (fl & showpos) f[k++] = '+'; if (fl & showpoint) f[k++] = '#';
  if (ff == (fixed | scientific)) sx_incomplete("hexfloat output");
  int pr = (int)precision(); if (pr < 0) pr = 6; f[k++] = '.'; if (pr >= 100) f[k++] = '0' + pr / 100; if (pr >= 10) f[k++] = '0' + pr / 10 % 10; f[k++] = '0' + pr % 10;
  bool up = fl & uppercase; f[k++] = ff == fixed ? 'f' : ff == scientific ? (up ? 'E' : 'e') : (up ? 'G' : 'g'); f[k] = 0;
  char b[512]; int n = sx_host_fmt_double(b, sizeof b, f, d); int np = (b[0] == '-' || b[0] == '+') ? 1 : 0; return padOut(*this, b, np, b + np, n - np); }
// ---------------- number input ----------------
struct NumIn { bool any, ovf, neg; unsigned long long v; ios_base::iostate err; };
static NumIn inInt(istream &is, unsigned long long maxPos, unsigned long long maxNeg) {
  NumIn r = {false, false, false, 0, ios_base::goodbit}; streambuf *sb = is.rdbuf(); int c = sb->sgetc();
  ios_base::fmtflags b = is.flags() & ios_base::basefield; unsigned base = b == ios_base::hex ? 16 : b == ios_base::oct ? 8 : b == 0 ? 0 : 10; 
  if (c == '+' || c == '-') { r.neg = c == '-'; c = sb->snextc(); }
  bool zero = false;
  if (c == '0') { zero = true; r.any = true; if (base == 0) base = 8, b = (ios_base::fmtflags)0; c = sb->snextc();
    if ((c == 'x' || c == 'X') && (base == 16 || (is.flags() & ios_base::basefield) == 0)) { base = 16; r.any = false; c = sb->snextc(); } }
  if (base == 0) base = 10;
  unsigned long long lim = r.neg ? maxNeg : maxPos;
  for (;; c = sb->snextc()) {
    if (c == -1) { r.err |= ios_base::eofbit; break; }
    int d = (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : 99;
    if (d >= (int)base) break;
    r.any = true; if (r.ovf) continue;
    unsigned __int128 t = (unsigned __int128)r.v * base + d; if (t > lim) r.ovf = true; else r.v = (unsigned long long)t; }
  if (!r.any) { r.err |= ios_base::failbit; r.v = 0; } else if (r.ovf) { r.err |= ios_base::failbit; r.v = lim; }
  return r; }
template <class T> static istream &exSigned(istream &is, T &v, long long mn, unsigned long long mx) { istream::sentry ok(is, false); if (ok) { NumIn r = inInt(is, mx, (unsigned long long)(-(mn + 1)) + 1); v = (T)(r.neg ? 0 - r.v : r.v); if (r.err) is.setstate(r.err); } return is; }
template <class T> static istream &exUnsigned(istream &is, T &v) { istream::sentry ok(is, false); if (ok) { NumIn r = inInt(is, (T)-1, (T)-1); v = r.ovf ? (T)-1 : (T)(r.neg ? 0 - r.v : r.v); if (r.err) is.setstate(r.err); } return is; }
template <> istream &istream::operator>>(int &v) { return exSigned(*this, v, -2147483648LL, 2147483647); }
template <> istream &istream::operator>>(short &v) { return exSigned(*this, v, -32768, 32767); }
template <> template <> istream &istream::_M_extract<long>(long &v) { return exSigned(*this, v, -9223372036854775807LL - 1, 9223372036854775807LL); }
template <> template <> istream &istream::_M_extract<long long>(long long &v) { return exSigned(*this, v, -9223372036854775807LL - 1, 9223372036854775807LL); }
template <> template <> istream &istream::_M_extract<unsigned int>(unsigned int &v) { return exUnsigned(*this, v); }
template <> template <> istream &istream::_M_extract<unsigned short>(unsigned short &v) { return exUnsigned(*this, v); }
template <> template <> istream &istream::_M_extract<unsigned long>(unsigned long &v) { return exUnsigned(*this, v); }
template <> template <> istream &istream::_M_extract<unsigned long long>(unsigned long long &v) { return exUnsigned(*this, v); }
template <> template <> istream &istream::_M_extract<bool>(bool &v) {
  istream::sentry ok(*this, false);
  if (ok) {
    if (!(flags() & boolalpha)) { NumIn r = inInt(*this, 9223372036854775807ULL, 9223372036854775808ULL); if (r.v == 0 && r.any) v = false; else if (r.v == 1 && !r.neg) v = true; else { v = r.any; r.err |= failbit; } if (!r.any) v = false; if (r.err) setstate(r.err); }
    else { string s; streambuf *sb = rdbuf(); int c = sb->sgetc(); const char *T = "true", *F = "false"; size_t n = 0; iostate e = goodbit; bool t = true, f = true;
      for (;; c = sb->snextc()) { if (c == -1) { e |= eofbit; break; } bool t2 = t && n < 4 && T[n] == c, f2 = f && n < 5 && F[n] == c; if (!t2 && !f2) break; t = t2; f = f2; n++; if ((t && n == 4) || (f && n == 5)) { c = sb->snextc(); if (c == -1) e |= eofbit; break; } }
      if (t && n == 4) v = true; else if (f && n == 5) v = false; else { v = false; e |= failbit; } if (e) setstate(e); } }
  return *this; }
template <class T> static istream &exFloat(istream &is, T &v) {
  istream::sentry ok(is, false);
  if (ok) { char b[400]; int n = 0; streambuf *sb = is.rdbuf(); int c = sb->sgetc(); ios_base::iostate e = ios_base::goodbit; bool dig = false, dot = false, ex = false;
    if (c == '+' || c == '-') { b[n++] = c; c = sb->snextc(); }
    for (; n < 390; c = sb->snextc()) { if (c == -1) { e |= ios_base::eofbit; break; }
      if (c >= '0' && c <= '9') { dig = true; b[n++] = c; } else if (c == '.' && !dot && !ex) { dot = true; b[n++] = c; }
      else if ((c == 'e' || c == 'E') && dig && !ex) { ex = true; b[n++] = 'e'; int c2 = sb->snextc(); if (c2 == '+' || c2 == '-') b[n++] = c2; else { if (c2 == -1) { e |= ios_base::eofbit; break; } if (c2 >= '0' && c2 <= '9') b[n++] = c2; else break; } }
      else break; }
    b[n] = 0; char *end; double d = sx_host_strtod(b, &end);
    if (!dig || *end) { v = 0; e |= ios_base::failbit; } else { v = (T)d; if (d > (double)__builtin_huge_val() / 2) {} if (d == __builtin_huge_val() || -d == __builtin_huge_val()) { e |= ios_base::failbit; v = d > 0 ? (T)1.7976931348623157e308 : (T)-1.7976931348623157e308; } }
    if (e) is.setstate(e); }
  return is; }
template <> template <> istream &istream::_M_extract<double>(double &v) { return exFloat(*this, v); }
template <> template <> istream &istream::_M_extract<float>(float &v) { return exFloat(*this, v); }
}
namespace std {
template <> istream &istream::getline(char *s, streamsize n, char delim) {
  _M_gcount = 0; ios_base::iostate err = ios_base::goodbit; sentry ok(*this, true);
  if (ok) { streambuf *sb = rdbuf(); int c = sb->sgetc();
    while (_M_gcount + 1 < n && c != -1 && c != (int)(unsigned char)delim) { *s++ = (char)c; ++_M_gcount; c = sb->snextc(); }
    if (c == -1) err |= ios_base::eofbit;
    else if (c == (int)(unsigned char)delim) { ++_M_gcount; sb->sbumpc(); }
    else err |= ios_base::failbit; }
  if (n > 0) *s = 0;
  if (!_M_gcount) err |= ios_base::failbit;
  if (err) setstate(err);
  return *this; }
template <> istream &istream::ignore(streamsize n) { _M_gcount = 0; sentry ok(*this, true); if (ok && n > 0) { streambuf *sb = rdbuf(); while (_M_gcount < n) { if (sb->sbumpc() == -1) { setstate(ios_base::eofbit); break; } ++_M_gcount; } } return *this; }
template <> istream &istream::ignore(streamsize n, int d) { _M_gcount = 0; sentry ok(*this, true); if (ok && n > 0) { streambuf *sb = rdbuf(); while (_M_gcount < n) { int c = sb->sbumpc(); if (c == -1) { setstate(ios_base::eofbit); break; } ++_M_gcount; if (c == d) break; } } return *this; }
template <> istream &getline(istream &in, string &str, char delim) {
  size_t ex = 0; ios_base::iostate err = ios_base::goodbit; istream::sentry ok(in, true);
  if (ok) { str.erase(); streambuf *sb = in.rdbuf(); int c = sb->sgetc();
    while (c != -1 && c != (int)(unsigned char)delim) { str += (char)c; ++ex; c = sb->snextc(); }
    if (c == -1) err |= ios_base::eofbit; else { ++ex; sb->sbumpc(); } }
  if (!ex) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in; }
template <> istream &operator>>(istream &in, string &str) {
  size_t ex = 0; ios_base::iostate err = ios_base::goodbit; istream::sentry ok(in, false);
  if (ok) { str.erase(); streamsize w = in.width(); size_t n = w > 0 ? w : (size_t)-1; streambuf *sb = in.rdbuf(); int c = sb->sgetc();
    while (ex < n && c != -1 && !(c == 32 | (c >= 9 & c <= 13))) { str += (char)c; ++ex; c = sb->snextc(); }
    if (ex < n && c == -1) err |= ios_base::eofbit; in.width(0); }
  if (!ex) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in; }
}
// ---------------- in-memory files ----------------
extern "C" {
struct VfFile { char name[64]; char *data; size_t size, cap; int used; };
struct VfFd { int file; size_t pos; int app, used; };
static VfFile vfFiles[16]; static VfFd vfFds[32]; int vf_fs_writable = 1;
static int vfFind(const char *n) { for (int i = 0; i < 16; i++) if (vfFiles[i].used && !strcmp(vfFiles[i].name, n)) return i; return -1; }
static int vfCreate(const char *n) { int i = vfFind(n); if (i >= 0) return i; for (i = 0; i < 16; i++) if (!vfFiles[i].used) { vfFiles[i].used = 1; strncpy(vfFiles[i].name, n, 63); vfFiles[i].size = 0; return i; } sx_incomplete("too many model files"); return -1; }
static void vfGrow(VfFile *f, size_t n) { if (n > f->cap) { size_t c = n * 2 + 64; char *d = (char *)__builtin_malloc(c); if (f->size) memcpy(d, f->data, f->size); __builtin_free(f->data); f->data = d; f->cap = c; } }
void vf_write_file(const char *n, const char *d, size_t len) { int i = vfCreate(n); vfGrow(&vfFiles[i], len); memcpy(vfFiles[i].data, d, len); vfFiles[i].size = len; }
long vf_read_file(const char *n, char *d, size_t max) { int i = vfFind(n); if (i < 0) return -1; size_t l = vfFiles[i].size < max ? vfFiles[i].size : max; memcpy(d, vfFiles[i].data, l); return (long)l; }
int vf_file_exists(const char *n) { return vfFind(n) >= 0; }
void vf_remove_file(const char *n) { int i = vfFind(n); if (i >= 0) vfFiles[i].used = 0; }
const char *vf_path(const char *n) { static char b[8][64]; static int k = 0; char *r = b[k++ & 7]; strcpy(r, "/vf/"); strncat(r, n, 58); return r; }
int vf_open_count() { int n = 0; for (int i = 0; i < 32; i++) n += vfFds[i].used; return n; }
}
namespace std {
__basic_file<char>::__basic_file(__c_lock *) throw() : _M_cfile(0), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() { close(); }
__basic_file<char> *__basic_file<char>::open(const char *n, ios_base::openmode m, int) {
  if (_M_cfile) return 0; int i;
  if (m & (ios_base::out | ios_base::app)) { if (!vf_fs_writable) return 0; i = vfFind(n); if (i < 0) { if ((m & ios_base::in) && !(m & (ios_base::trunc | ios_base::app))) return 0; i = vfCreate(n); } else if ((m & ios_base::trunc) || !(m & (ios_base::app | ios_base::in))) vfFiles[i].size = 0; }
  else { i = vfFind(n); if (i < 0) return 0; }
  for (int k = 0; k < 32; k++) if (!vfFds[k].used) { vfFds[k].used = 1; vfFds[k].file = i; vfFds[k].pos = 0; vfFds[k].app = (m & ios_base::app) != 0; _M_cfile = (__c_file *)&vfFds[k]; return this; }
  sx_incomplete("too many open model files"); return 0; }
__basic_file<char> *__basic_file<char>::close() { if (!_M_cfile) return 0; ((VfFd *)_M_cfile)->used = 0; _M_cfile = 0; return this; }
bool __basic_file<char>::is_open() const throw() { return _M_cfile != 0; }
streamsize __basic_file<char>::xsputn(const char *s, streamsize n) { VfFd *f = (VfFd *)_M_cfile; VfFile *x = &vfFiles[f->file]; if (f->app) f->pos = x->size; vfGrow(x, f->pos + n); memcpy(x->data + f->pos, s, n); f->pos += n; if (f->pos > x->size) x->size = f->pos; return n; }
streamsize __basic_file<char>::xsputn_2(const char *s, streamsize n, const char *s2, streamsize n2) { if (n) xsputn(s, n); if (n2) xsputn(s2, n2); return n + n2; }
streamsize __basic_file<char>::xsgetn(char *s, streamsize n) { VfFd *f = (VfFd *)_M_cfile; VfFile *x = &vfFiles[f->file]; size_t a = x->size > f->pos ? x->size - f->pos : 0; if (a > (size_t)n) a = n; if (a) memcpy(s, x->data + f->pos, a); f->pos += a; return a; }
streamoff __basic_file<char>::seekoff(streamoff o, ios_base::seekdir w) throw() { VfFd *f = (VfFd *)_M_cfile; VfFile *x = &vfFiles[f->file]; long b = w == ios_base::beg ? 0 : w == ios_base::cur ? (long)f->pos : (long)x->size; if (b + o < 0) return -1; f->pos = b + o; return f->pos; }
int __basic_file<char>::sync() { return 0; } streamsize __basic_file<char>::showmanyc() { VfFd *f = (VfFd *)_M_cfile; VfFile *x = &vfFiles[f->file]; return x->size > f->pos ? x->size - f->pos : 0; }
template class basic_string<char>;
template class basic_streambuf<char>; template class basic_stringbuf<char>; template class basic_ios<char>; template class basic_ostream<char>; template class basic_istream<char>; template class basic_iostream<char>;
template class basic_stringstream<char>; template class basic_ostringstream<char>; template class basic_istringstream<char>; template class basic_filebuf<char>; template class basic_ifstream<char>; template class basic_ofstream<char>; template class basic_fstream<char>;
template istream &getline(istream &, string &); template ostream &operator<<(ostream &, const string &);
template istream &operator>>(istream &, char &); template istream &operator>>(istream &, unsigned char &); template istream &operator>>(istream &, signed char &); template istream &ws(istream &);
template ostream &operator<<(ostream &, char); template ostream &operator<<(ostream &, const char *); template ostream &operator<<(ostream &, unsigned char); template ostream &operator<<(ostream &, const unsigned char *); template ostream &operator<<(ostream &, signed char); template ostream &endl(ostream &); template ostream &flush(ostream &); template ostream &ends(ostream &);
template ostream &__ostream_insert(ostream &, const char *, streamsize); template void __ostream_fill(ostream &, streamsize); template void __ostream_write(ostream &, const char *, streamsize);
template <> istream &operator>>(istream &is, char *s) { streamsize w = is.width(); sx_incomplete("operator>>(char*)"); return is; }
// standard streams discard their output; standard input is empty
struct NullBuf : streambuf { int overflow(int c) override { return c == -1 ? 0 : c; } streamsize xsputn(const char *, streamsize n) override { return n; } };
static char nullbuf[sizeof(NullBuf)] __attribute__((aligned(16)));
}
// raw storage for the standard stream objects: the real objects are constructed in place below
asm("");
namespace { struct alignas(16) Raw { char b[sizeof(std::ostream) + 64]; }; }
extern "C" {
Raw vf_cout asm("_ZSt4cout"); Raw vf_cerr asm("_ZSt4cerr"); Raw vf_clog asm("_ZSt4clog"); Raw vf_cin asm("_ZSt3cin");
}
static void initStd() { static int done; if (done++) return; std::streambuf *sb = new (std::nullbuf) std::NullBuf; new (&vf_cout) std::ostream(sb); new (&vf_cerr) std::ostream(sb); new (&vf_clog) std::ostream(sb); new (&vf_cin) std::istream(sb); }
namespace std { ios_base::Init::Init() { initStd(); } ios_base::Init::~Init() {} }
namespace { struct AtStart { AtStart() { initStd(); } }; __attribute__((init_priority(101))) AtStart atStart; }
