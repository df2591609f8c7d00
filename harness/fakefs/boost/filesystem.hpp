// a file system of the harness in place of boost::filesystem: nothing on disk is touched
#ifndef FAKE_BOOST_FILESYSTEM
#define FAKE_BOOST_FILESYSTEM
#define BOOST_FILESYSTEM_VERSION 3
#include <string>
#include <vector>
#include <stdexcept>
namespace fakefs { struct Entry { std::string name, dir; bool directory; int unreadable; Entry(const std::string &n, const std::string &d, bool dr = false) : name(n), dir(d), directory(dr), unreadable(0) {} std::string full() const { return dir.empty() ? name : dir + "/" + name; } };
inline std::vector<Entry> &tree() { static std::vector<Entry> t; return t; } inline bool &broken() { static bool b; return b; } }
namespace boost { namespace system { struct error_code { int v; error_code() : v(0) {} operator bool() const { return v; } std::string message() const { return "error"; } }; }
namespace filesystem {
struct path { std::string s; path() {} path(const std::string &p) : s(p) {} path(const char *p) : s(p) {} const std::string &string() const { return s; } const std::string &native() const { return s; } const char *c_str() const { return s.c_str(); } bool empty() const { return s.empty(); } path filename() const { size_t i = s.rfind('/'); return i == std::string::npos ? s : s.substr(i + 1); } path extension() const { std::string f = filename().s; size_t i = f.rfind('.'); return i == std::string::npos ? "" : f.substr(i); } path operator/(const path &o) const { return s + "/" + o.s; } bool operator==(const path &o) const { return s == o.s; } bool operator<(const path &o) const { return s < o.s; } };
enum file_type { file_not_found, regular_file, directory_file }; struct file_status { file_type t; file_status(file_type x = file_not_found) : t(x) {} file_type type() const { return t; } };
struct filesystem_error : std::runtime_error { filesystem_error() : std::runtime_error("filesystem error") {} };
inline file_status status(const path &p) { for (size_t i = 0; i < fakefs::tree().size(); ++i) if (fakefs::tree()[i].full() == p.s) return fakefs::tree()[i].directory ? directory_file : regular_file; return file_not_found; }
inline file_status status(const path &p, system::error_code &) { return status(p); }
inline bool exists(const file_status &s) { return s.t != file_not_found; } inline bool is_regular_file(const file_status &s) { return s.t == regular_file; } inline bool is_directory(const file_status &s) { return s.t == directory_file; }
inline bool exists(const path &p) { if (fakefs::broken()) throw filesystem_error(); return exists(status(p)); } inline bool exists(const path &p, system::error_code &e) { if (fakefs::broken()) { e.v = 1; return false; } return exists(status(p)); } inline bool is_regular_file(const path &p) { return is_regular_file(status(p)); } inline bool is_directory(const path &p) { return is_directory(status(p)); } inline bool is_regular_file(const path &p, system::error_code &) { return is_regular_file(p); } inline bool is_directory(const path &p, system::error_code &) { return is_directory(p); }
struct directory_entry { path p; const filesystem::path &path() const { return p; } file_status status() const { return filesystem::status(p); } file_status symlink_status() const { return filesystem::status(p); } operator const filesystem::path &() const { return p; } std::string string() const { return p.s; } };
struct dir_base { std::vector<directory_entry> e; size_t i; dir_base() : i(0) {} void add(const std::string &d, bool deep) { for (size_t k = 0; k < fakefs::tree().size(); ++k) { fakefs::Entry &x = fakefs::tree()[k]; if (x.dir != d) continue; directory_entry n; n.p = x.full(); e.push_back(n); if (deep && x.directory) add(x.full(), true); } }
  void open(const path &p, bool deep) { if (!is_directory(status(p))) throw filesystem_error(); add(p.s, deep); } bool done() const { return i >= e.size(); } const directory_entry &operator*() const { return e[i]; } const directory_entry *operator->() const { return &e[i]; } bool operator==(const dir_base &o) const { return done() == o.done() && (done() || i == o.i); } bool operator!=(const dir_base &o) const { return !(*this == o); } };
struct directory_iterator : dir_base { directory_iterator() {} explicit directory_iterator(const path &p) { open(p, false); } directory_iterator(const path &p, system::error_code &e) { if (is_directory(p)) open(p, false); else e.v = 1; } directory_iterator &operator++() { ++i; return *this; } directory_iterator &increment(system::error_code &) { ++i; return *this; } };
struct recursive_directory_iterator : dir_base { recursive_directory_iterator() {} explicit recursive_directory_iterator(const path &p) { open(p, true); } recursive_directory_iterator(const path &p, system::error_code &e) { if (is_directory(p)) open(p, true); else e.v = 1; } recursive_directory_iterator &operator++() { ++i; return *this; } recursive_directory_iterator &increment(system::error_code &) { ++i; return *this; } };
inline directory_iterator begin(const directory_iterator &d) { return d; } inline directory_iterator end(const directory_iterator &) { return directory_iterator(); } inline recursive_directory_iterator begin(const recursive_directory_iterator &d) { return d; } inline recursive_directory_iterator end(const recursive_directory_iterator &) { return recursive_directory_iterator(); }
} }
#endif
