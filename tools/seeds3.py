SEEDS = []
def S(**k): SEEDS.append(k)
CK = '#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <string>\n#include <vector>\n#define REQ(c) do { if (!(c)) { std::printf("wrong: %s\\n", #c); return 1; } } while (0)\n'
# a clock which the demonstration controls
CLOCK = '''#include <time.h>
#include <sys/time.h>
static long long vt = 1700000000000000000LL;
extern "C" int clock_gettime(clockid_t, struct timespec *t) noexcept { t->tv_sec = vt / 1000000000; t->tv_nsec = vt % 1000000000; return 0; }
extern "C" int gettimeofday(struct timeval *t, void *) noexcept { t->tv_sec = vt / 1000000000; t->tv_usec = vt % 1000000000 / 1000; return 0; }
extern "C" time_t time(time_t *t) noexcept { if (t) *t = vt / 1000000000; return vt / 1000000000; }
'''

S(id='array2d-swap-height', prop='C03', needs='swapping two arrays of different heights', breaks='the arrays keep their old heights while everything else is exchanged',
  edits=[('icl_core/Array2D.h', """    std::swap(m_width, other.m_width);
    std::swap(m_height, other.m_height);""", """    std::swap(m_width, other.m_width);
    if (m_container.size() != other.m_container.size())
    {
      std::swap(m_height, other.m_height);
    }""")],
  demo=CK + """#include <icl_core/Array2D.h>
int main() { icl_core::Array2D<int> a(2, 6, 1), b(3, 4, 2), c(1, 1, 3); a.swap(b); REQ(a.width() == 3 && a.height() == 4); REQ(b.width() == 2 && b.height() == 6); a.swap(c); REQ(a.height() == 1 && c.height() == 4); return 0; }
""")
S(id='unionfind-grow-merged', prop='C04', needs='growing a union-find structure after its first element was merged into another set', breaks='the elements added by grow() start in the set of element zero instead of being sets of their own',
  edits=[('icl_core/UnionFind.h', """    for (std::size_t i = old_size; i < m_parent.size(); ++i)""", """    for (std::size_t i = old_size + (n > 2 ? 1 : 0); i < m_parent.size(); ++i)""")],
  demo=CK + """#include <icl_core/UnionFind.h>
int main() { icl_core::UnionFind u(3); u.merge(0, 1); u.grow(3); for (size_t i = 3; i < 6; ++i) for (size_t j = 0; j < i; ++j) REQ(u.find(i) != u.find(j)); return 0; }
""")
S(id='setrelation-tail', prop='C05', needs='two sets where one is the other plus only greater elements', breaks='a set is reported as equal to its proper superset',
  edits=[('icl_core/SetHelper.h', """  if (i2 != s2.end())
  {
    equal = false;
""", """  if (i2 != s2.end())
  {
    equal = equal && inter;
""")],
  demo=CK + """#include <icl_core/Deprecate.h>
#include <icl_core/SetHelper.h>
int main() { std::set<int> a, b; a.insert(1); b.insert(1); b.insert(2); REQ(icl_core::setRelation(a, b) == icl_core::eSR_PROPER_SUBSET); REQ(icl_core::setRelation(b, a) == icl_core::eSR_PROPER_SUPERSET); return 0; }
""")
S(id='enum-prefix', prop='C07', needs='a name in a list of descriptions of which an earlier description is a prefix', breaks='a text that only starts with a description is taken for it',
  edits=[('icl_core/EnumHelper.cpp', """    if (str == descriptions[std::size_t(index)])""", """    if (!descriptions[std::size_t(index)].empty() ? str.compare(0, descriptions[std::size_t(index)].size(), descriptions[std::size_t(index)]) == 0 : str.empty())""")],
  demo=CK + """#include <icl_core/EnumHelper.h>
int main() { std::vector<std::string> d; d.push_back("ab"); d.push_back("a"); int32_t v = 9; REQ(icl_core::string2Enum("ab", v, d)); REQ(v == 0); REQ(!icl_core::string2Enum("abc", v, d)); return 0; }
""")
S(id='timespan-usec-range', prop='C10', needs='converting a span of more than 292 years to microseconds', breaks='the number of microseconds overflows although it fits into its type',
  edits=[('icl_core/TimeSpan.cpp', """  return secs * 1000000 + nsecs / 1000;""", """  return (secs * 1000000000 + nsecs) / 1000;""")],
  demo=CK + """#include <icl_core/TimeSpan.h>
int main() { icl_core::TimeSpan t(10000000000LL, 5000); REQ(t.toUSec() == 10000000000000005LL); return 0; }
""")
S(id='iso-one-digit', prop='C11', needs='a time text with exactly one digit after the comma', breaks='a single fractional digit is ignored',
  edits=[('icl_core/TimeStamp.cpp', """  if (str.size() > 16)""", """  if (str.size() > 17)""")],
  demo=CK + """#include <icl_core/TimeStamp.h>
using icl_core::TimeStamp;
int main() { TimeStamp t = TimeStamp::fromIso8601BasicUTC("20200101T000000,5"); REQ(t.tsNSec() == 500000000); REQ(TimeStamp::fromIso8601BasicUTC("20200101T000000,25").tsNSec() == 250000000); return 0; }
""")
S(id='logstream-level-mixup', prop='C25', needs='starting a message of one level while a message of another level of the same thread is not finished', breaks='both messages share one buffer and are written as one',
  edits=[('icl_core_logging/LogStream.cpp', """    if (find_it->thread_id == thread_id && find_it->log_level == log_level)""", """    if (find_it->thread_id == thread_id && find_it->log_level <= log_level)""")],
  demo=CK + """#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LogOutputStream.h>
#include <icl_core_logging/LoggingManager.h>
#include <icl_core_logging/LogStream.h>
using namespace icl_core::logging;
static std::vector<std::string> got;
struct Out : LogOutputStream { Out() : LogOutputStream("o", icl_core::logging::eLL_TRACE, false) {} virtual void pushImpl(const icl_core::String& l) { got.push_back(l); } };
int main(int argc, char **argv) { initialize(argc, argv, false); Out o; o.changeLogFormat("~E"); LogStream s("s", icl_core::logging::eLL_TRACE); s.addOutputStream(&o); s.threadStream(icl_core::logging::eLL_INFO) << "a"; s.threadStream(icl_core::logging::eLL_ERROR) << "b" << endl; s.threadStream(icl_core::logging::eLL_INFO) << "c" << endl; REQ(got.size() == 2); REQ(got[0] == "b\\n"); REQ(got[1] == "ac\\n"); s.removeOutputStream(&o); return 0; }
""")
S(id='singleton-no-recheck', prop='C37', needs='two threads asking for a singleton for the first time at the same time', breaks='both threads create an instance, and the first one is lost',
  edits=[('icl_core/Singleton.hpp', """    typename TThreadingModel<T>::Guard guard(m_lock);
    temp = m_instance;
""", """    typename TThreadingModel<T>::Guard guard(m_lock);
""")],
  demo=CK + """#include <thread>
#include <unistd.h>
#include <icl_core/Singleton.hpp>
#include <icl_core_thread/SingletonThreadingModels.h>
static int made = 0;
struct X { X() { usleep(200000); ++made; } };
typedef icl_core::Singleton<X, icl_core::SCPCreateUsingNew, icl_core::SLPDefaultLifetime, icl_core::thread::STMMultiThreadedWithMutex> SX;
int main() { std::thread a([] { SX::instance(); }), b([] { SX::instance(); }); a.join(); b.join(); REQ(made == 1); return 0; }
""")
S(id='threadstream-eol-lost', prop='C26', needs='a message which fills the buffer of its thread completely', breaks='a message that was cut does not end with its end of line',
  edits=[('icl_core_logging/ThreadStream.cpp', """    if (writable_length > protected_buffer_size)
    {
      number_of_bytes = writable_length - protected_buffer_size;
    }""", """    if (writable_length > protected_buffer_size)
    {
      number_of_bytes = number_of_bytes > writable_length ? writable_length : number_of_bytes;
    }""")],
  demo=CK + """#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LogOutputStream.h>
#include <icl_core_logging/LogStream.h>
using namespace icl_core::logging;
static std::vector<std::string> got;
struct Out : LogOutputStream { Out() : LogOutputStream("o", icl_core::logging::eLL_TRACE, false) {} virtual void pushImpl(const icl_core::String& l) { got.push_back(l); } };
int main(int argc, char **argv) { initialize(argc, argv, false); Out o; o.changeLogFormat("~E"); LogStream s("s", icl_core::logging::eLL_TRACE); s.addOutputStream(&o); for (int n = 2000; n < 2100; ++n) { got.clear(); s.threadStream(icl_core::logging::eLL_INFO) << std::string(n, 'x') << endl; REQ(got.size() == 1); REQ(got[0][got[0].size() - 1] == '\\n'); } s.removeOutputStream(&o); return 0; }
""")
S(id='attrtree-comment-value', prop='C20', needs='saving a node which has a value, only a few children and a comment of several lines', breaks='the value of such a node is not saved',
  edits=[('icl_core_config/AttributeTree.cpp', """    if (m_this_attribute && strcmp(m_this_attribute, ""))
    {
      out << the_upper_description << ':'""", """    if (m_this_attribute && strcmp(m_this_attribute, "") && contents >= change_style_depth)
    {
      out << the_upper_description << ':'""")],
  demo=CK + """#include <sstream>
#include <icl_core_config/AttributeTree.h>
using icl_core::config::AttributeTree;
int main() { AttributeTree t; AttributeTree *k = t.setAttribute("k", "7"); k->setComment("one\\ntwo"); std::stringstream s; t.printSubTree(s, 3, ""); std::printf("%s", s.str().c_str()); REQ(s.str().find("7") != std::string::npos); return 0; }
""")
S(id='ring-window-const', prop='C02', needs='asking a constant ring buffer for its second window when its contents wrap around', breaks='the constant view of a wrapped buffer leaves out its last element',
  edits=[('icl_core/RingBuffer.hpp', """    return const_array_range(&m_buffer[0], m_write);""", """    return const_array_range(&m_buffer[0], m_write > 1 ? m_write - 1 : m_write);""")],
  demo=CK + """#include <icl_core/RingBuffer.h>
int main() { icl_core::RingBuffer<int> r(5); for (int i = 0; i < 5; ++i) r.write(i); for (int i = 0; i < 4; ++i) { r.read(); r.write(5 + i); const icl_core::RingBuffer<int> &c = r; REQ(c.arrayOne().second + c.arrayTwo().second == 5); } return 0; }
""")
S(id='sem-big-count', prop='C13', needs='a semaphore created with a count of more than 255', breaks='the count is cut to eight bits',
  edits=[('icl_core_thread/SemaphoreImplPosix.cpp', """  sem_init(m_semaphore, PTHREAD_PROCESS_PRIVATE, initial_value);""", """  sem_init(m_semaphore, PTHREAD_PROCESS_PRIVATE, static_cast<unsigned char>(initial_value));""")],
  demo=CK + """#include <icl_core_thread/Sem.h>
int main() { icl_core::thread::Semaphore s(256); REQ(s.tryWait()); return 0; }
""")
