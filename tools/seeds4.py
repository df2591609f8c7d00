SEEDS = []
def S(**k): SEEDS.append(k)
CK = '#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <string>\n#include <vector>\n#define REQ(c) do { if (!(c)) { std::printf("wrong: %s\\n", #c); return 1; } } while (0)\n'
# a clock which the demonstration controls
CLOCK = '''#include <time.h>
#include <sys/time.h>
static long long vt = 1700000000000000000LL;
extern "C" int clock_gettime(clockid_t, struct timespec *t) noexcept { t->tv_sec = vt / 1000000000; t->tv_nsec = vt % 1000000000; return 0; }
extern "C" int gettimeofday(struct timeval *t, void *) noexcept { t->tv_sec = vt / 1000000000; t->tv_usec = vt % 1000000000 / 1000; return 0; }
extern "C" time_t time(time_t *t) noexcept { if (t) *t = vt / 1000000000; return vt / 1000000000; }
'''

S(id='seqnum-half-range', prop='C08', needs='comparing numbers across the wrap-around of a range that does not start at zero', breaks='numbers across the wrap-around are ordered the wrong way round',
  edits=[('icl_core/SequenceNumber.h', """      return (m_value - other.m_value) > (max_value - min_value) / 2;""", """      return (m_value - other.m_value) > max_value / 2;""")],
  demo=CK + """#include <icl_core/BaseTypes.h>
#include <icl_core/SequenceNumber.h>
typedef icl_core::SequenceNumber<uint32_t, 110, 100> N;
int main() { N a(109), b(109); ++b; REQ((uint32_t)b == 100); REQ(a < b); REQ(!(b < a)); REQ(b > a); return 0; }
""")
S(id='header-dsin-copy', prop='C15', needs='a header made with a sequence number', breaks='the DSIN of a header is its sequence number instead of zero',
  edits=[('icl_core/DataHeader.h', """             uint32_t sequence_number = 0)
    : coordinate_system(coordinate_system),
      timestamp(timestamp),
      sequence_number(sequence_number),
      dsin(0)""", """             uint32_t sequence_number = 0)
    : coordinate_system(coordinate_system),
      timestamp(timestamp),
      sequence_number(sequence_number),
      dsin(sequence_number)""")],
  demo=CK + """#include <icl_core/DataHeader.h>
int main() { icl_core::DataHeader h("base", boost::posix_time::ptime(), 7); REQ(h.sequence_number == 7); REQ(h.dsin == 0); return 0; }
""")
S(id='udp-first-quote', prop='C30', needs='a message with two apostrophes', breaks='only the first apostrophe of a message is escaped, the rest of the record is malformed',
  edits=[('icl_core_logging/UdpLogOutput.cpp', """  str = boost::regex_replace(str, boost::regex("'"), "''");""", """  str = boost::regex_replace(str, boost::regex("'"), "''", boost::format_first_only);""")],
  demo=CK + """#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
#include <icl_core_config/Config.h>
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LogStream.h>
#include <icl_core_logging/UdpLogOutput.h>
using namespace icl_core::logging;
int main(int argc, char **argv) { initialize(argc, argv, false); int s = socket(AF_INET, SOCK_DGRAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); REQ(bind(s, (sockaddr *)&a, sizeof a) == 0); socklen_t l = sizeof a; getsockname(s, (sockaddr *)&a, &l);
  icl_core::config::setValue("/u/Host", "127.0.0.1"); icl_core::config::setValue("/u/Port", std::to_string(ntohs(a.sin_port))); icl_core::config::setValue("/u/SystemName", "sys"); LogOutputStream *o = UdpLogOutput::create("u", "/u", icl_core::logging::eLL_INFO); o->start(); LogStream st("s"); st.addOutputStream(o);
  st.threadStream(icl_core::logging::eLL_INFO) << "it's Bob's" << flush; char b[4096]; timeval tv = {5, 0}; setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); ssize_t n = recv(s, b, sizeof b - 1, 0); REQ(n > 0); b[n] = 0; bool ok = strstr(b, "it''s Bob''s") != 0; st.removeOutputStream(o); o->shutdown(); delete o; close(s); REQ(ok); return 0; }
""")
S(id='logfile-gz-truncate', libs='-licl_core_logging -licl_core_config -licl_core_thread -licl_core -lz', prop='C29', needs='opening a compressed log file that already exists', breaks='the messages that were already in the file are gone',
  edits=[('icl_core_logging/FileLogOutput.cpp', """    m_zipped_log_file = gzopen(m_filename.c_str(), "ab");""", """    m_zipped_log_file = gzopen(m_filename.c_str(), "wb");""")],
  demo=CK + """#include <zlib.h>
#include <unistd.h>
#include <icl_core_config/Config.h>
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LogStream.h>
#include <icl_core_logging/FileLogOutput.h>
using namespace icl_core::logging;
int main(int argc, char **argv) { initialize(argc, argv, false); char d[] = "/tmp/demoXXXXXX"; REQ(mkdtemp(d)); std::string f = std::string(d) + "/log.gz"; icl_core::config::setValue("/f/FileName", f); icl_core::config::setValue("/f/Zip", "true");
  for (int i = 0; i < 2; ++i) { LogOutputStream *o = FileLogOutput::create("f", "/f", icl_core::logging::eLL_INFO); o->changeLogFormat("~E"); o->start(); LogStream st("s"); st.addOutputStream(o); st.threadStream(icl_core::logging::eLL_INFO) << "message" << i << flush; st.removeOutputStream(o); o->shutdown(); delete o; }
  gzFile g = gzopen(f.c_str(), "rb"); std::string all; char b[512]; int n; while (g && (n = gzread(g, b, sizeof b)) > 0) all.append(b, n); if (g) gzclose(g); unlink(f.c_str()); rmdir(d); REQ(all.find("message0") != std::string::npos); REQ(all.find("message1") != std::string::npos); return 0; }
""")
S(id='sha-length-32bit', prop='C18', needs='a message of more than 512 MiB', breaks='the length in the padding is cut to 32 bits, so the digest of a long message is wrong',
  edits=[('icl_core_crypt/Sha2.hpp', """  uint64_t message_size_bits = m_message_size*8;""", """  uint64_t message_size_bits = static_cast<uint32_t>(m_message_size*8);""")],
  demo=CK + """#include <icl_core/BaseTypes.h>
#include <icl_core_crypt/Sha2.h>
#include <icl_core_crypt/Sha2.hpp>
int main() { std::vector<char> b(1 << 24); icl_core::crypt::Sha256 h; for (int i = 0; i < 32; ++i) h.process(b.data(), b.size()); h.process("x"); h.finalize(); std::string d = h.getHexDigest(); std::printf("%s\\n", d.c_str()); REQ(d == "edf6fdfe2c9fa2b01e299925008ee053ee2e54bf0666aa623f52de1757b23910"); return 0; }
""")
S(id='active-drop-on-stop', prop='C16', needs='stopping an active object while operations are pending', breaks='operations that are still pending when the object stops are never deleted',
  edits=[('icl_core_thread/ActiveObject.cpp', """    delete op;
  }

  onThreadStop();""", """    if (execute())
    {
      delete op;
    }
  }

  onThreadStop();""")],
  demo=CK + """#include <unistd.h>
#include <icl_core_thread/ActiveObject.h>
static int deleted = 0;
struct Op : icl_core::thread::ActiveOperation { bool slow; Op(bool s) : slow(s) {} virtual ~Op() { __sync_fetch_and_add(&deleted, 1); } virtual void invoke() { if (slow) usleep(300000); } };
struct AO : icl_core::thread::ActiveObject { AO() : ActiveObject("ao") {} void put(bool s) { queue(new Op(s)); } virtual void onThreadStart() { usleep(200000); } };
int main() { AO a; REQ(a.start()); a.put(false); a.put(false); a.stop(); a.join(); REQ(deleted == 2); return 0; }
""")
S(id='threadstream-early-release', prop='C28', needs='two threads that take a buffer of the pool at the same time', breaks='two threads may write their messages into the same buffer',
  edits=[('icl_core_logging/LogStream.cpp', """  // Take a thread stream from the pool, if one is available.
  if (thread_stream == NULL)
  {
    for""", """  // Take a thread stream from the pool, if one is available.
  if (thread_stream == NULL)
  {
    m_mutex.post();
    for"""), ('icl_core_logging/LogStream.cpp', """        thread_stream = find_it->thread_stream;
        break;
      }
    }
  }

  // There are no more""", """        thread_stream = find_it->thread_stream;
        break;
      }
    }
    while (!m_mutex.wait())
    { }
  }

  // There are no more""")],
  demo=CK + """#include <thread>
#include <mutex>
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LogOutputStream.h>
#include <icl_core_logging/LogStream.h>
using namespace icl_core::logging;
static int bad = 0, count = 0; static std::mutex mx;
struct Out : LogOutputStream { Out() : LogOutputStream("o", icl_core::logging::eLL_TRACE, false) {} virtual void pushImpl(const icl_core::String& l) { std::lock_guard<std::mutex> g(mx); ++count; bool ok = l.size() == 32; for (size_t i = 1; i < l.size(); ++i) ok = ok && l[i] == l[0]; if (!ok) ++bad; } };
int main(int argc, char **argv) { initialize(argc, argv, false); Out o; o.changeLogFormat("~E"); LogStream s("s", icl_core::logging::eLL_TRACE); s.addOutputStream(&o); std::vector<std::thread> v; for (int t = 0; t < 6; ++t) v.push_back(std::thread([&s, t] { std::string x(16, (char)('a' + t)); for (int i = 0; i < 150000; ++i) s.threadStream(icl_core::logging::eLL_INFO) << x << x << flush; })); for (size_t i = 0; i < v.size(); ++i) v[i].join(); s.removeOutputStream(&o); REQ(bad == 0); REQ(count == 6 * 150000); return 0; }
""")
S(id='vecwrap-insert-alias', prop='C38', needs='inserting several copies of an element of the wrapped vector itself', breaks='other elements are inserted than those asked for',
  edits=[('icl_core/VectorWrapper.h', """  { wrapped.insert(pos, count, value); }                                \\""", """  { for (; count > 0; --count) { pos = wrapped.insert(pos, value); } }  \\""")],
  demo=CK + """#include <icl_core/VectorWrapper.h>
struct W { ICL_CORE_WRAP_VECTOR(W, std::vector<int>, public, v); };
int main() { W w; w.reserve(20); w.push_back(1); w.push_back(2); w.push_back(3); w.insert(w.begin(), (std::vector<int>::size_type)2, w[1]); int e[] = {2, 2, 1, 2, 3}; REQ(w.size() == 5); for (int i = 0; i < 5; ++i) REQ(w[i] == e[i]); return 0; }
""")
S(id='padleft-cut', prop='C06', needs='padding a text whose length is above the width', breaks='a text longer than the width is cut to the width instead of being kept',
  edits=[('icl_core/StringHelper.h', """    return str + String(width - str_len, pad_chr);
  }
  else
  {
    return str;
  }""", """    return str + String(width - str_len, pad_chr);
  }
  else
  {
    return width > 0 ? String(str, 0, width) : str;
  }""")],
  demo=CK + """#include <icl_core/StringHelper.h>
int main() { REQ(icl_core::padRight<icl_core::String>("abcdef", 3) == "abcdef"); REQ(icl_core::padRight<icl_core::String>("abc", 5, '.') == "abc.."); return 0; }
""")
S(id='scopedrw-mode', prop='C12', needs='a forced scoped write lock', breaks='a forced write lock only locks for reading, so two threads may hold it',
  edits=[('icl_core_thread/ScopedRWLock.cpp', """    do { m_is_locked = m_lock.writeLock(); } while (force && !m_is_locked);""", """    do { m_is_locked = force ? m_lock.readLock() : m_lock.writeLock(); } while (force && !m_is_locked);""")],
  demo=CK + """#include <icl_core_thread/ScopedRWLock.h>
#include <icl_core_thread/RWLock.h>
#include <thread>
using namespace icl_core::thread;
int main() { RWLock l; bool got = true; { ScopedRWLock s(l, ScopedRWLock::eLM_WRITE_LOCK, true); REQ(s.isLocked()); std::thread t([&] { got = l.tryReadLock(); if (got) l.unlock(); }); t.join(); REQ(!got); } std::thread t([&] { got = l.tryWriteLock(); if (got) l.unlock(); }); t.join(); REQ(got); return 0; }
""")
S(id='observer-global-missed', prop='C23', needs='an observer of all changes next to an observer of a key', breaks='an observer of all changes misses the changes of keys that have an observer of their own',
  edits=[('icl_core_config/ConfigManager.cpp', """  find_it = m_observers.find("");
  if (find_it != m_observers.end())""", """  find_it = m_observers.find("");
  if (find_it != m_observers.end() && observers.empty())""")],
  demo=CK + """#include <icl_core_config/Config.h>
#include <icl_core_config/ConfigManager.h>
#include <icl_core_config/ConfigObserver.h>
using namespace icl_core::config;
struct O : ConfigObserver { int n; O() : n(0) {} virtual void valueChanged(const icl_core::String &) { ++n; } };
int main() { O a, b; ConfigManager::instance().registerObserver(&a, "/a"); ConfigManager::instance().registerObserver(&b); setValue("/a", "1"); setValue("/b", "1"); REQ(a.n == 1); REQ(b.n == 2); return 0; }
""")
S(id='searchstack-bottom', prop='C05', needs='searching for the element at the bottom of a stack', breaks='the bottom element of a stack of more than one element is not found',
  edits=[('icl_core/SearchableStack.h', """    for (const_iterator it = begin(); it != end(); ++it)""", """    for (const_iterator it = begin() + (size() > 1 ? 1 : 0); it != end(); ++it)""")],
  demo=CK + """#include <icl_core/SearchableStack.h>
int main() { icl_core::SearchableStack<int> s; s.push(3); s.push(4); REQ(s.find(4) != s.end()); REQ(s.find(3) != s.end() && *s.find(3) == 3); REQ(s.find(5) == s.end()); return 0; }
""")
