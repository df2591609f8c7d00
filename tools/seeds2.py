SEEDS = []
def S(**k): SEEDS.append(k)
CK = '#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <string>\n#include <vector>\n#define REQ(c) do { if (!(c)) { std::printf("wrong: %s\\n", #c); return 1; } } while (0)\n'
# a clock which the demonstration controls
CLOCK = '''#include <time.h>
#include <sys/time.h>
static long long vt = 1700000000000000000LL;
extern "C" int clock_gettime(clockid_t, struct timespec *t) noexcept { t->tv_sec = vt / 1000000000; t->tv_nsec = vt % 1000000000; return 0; }
extern "C" int gettimeofday(struct timeval *t, void *) noexcept { t->tv_sec = vt / 1000000000; t->tv_usec = vt % 1000000000 / 1000; return 0; }
extern "C" time_t time(time_t *t) noexcept { if (t) *t = vt / 1000000000; return vt / 1000000000; }
'''
S(id='log-ms-100', prop='C24', needs='a message stamped exactly one tenth of a second after a full second, and a format with a padded milliseconds field',
  breaks='the milliseconds field of such a line has one digit too many (0100 instead of 100)',
  edits=[('icl_core_logging/LogOutputStream.cpp', 'if (msec >= 100)', 'if (msec > 100)')],
  demo=CK + CLOCK + '''#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LogOutputStream.h>
#include <icl_core_logging/LoggingManager.h>
using namespace icl_core::logging;
static std::string got;
struct Out : LogOutputStream { Out() : LogOutputStream("o", eLL_TRACE, false) {} virtual void pushImpl(const icl_core::String& l) { got = l; } };
int main(int argc, char **argv) { initialize(argc, argv, false); Out o; o.changeLogFormat("[~3M]");
  for (int ms = 95; ms < 105; ++ms) { vt = 1700000000000000000LL + ms * 1000000LL; o.push(eLL_INFO, "s", "f", 1, "c", "o", "d", "t"); char w[20]; std::snprintf(w, 20, "[%03d]", ms); REQ(got == w); } return 0; }
''')
S(id='thread-start-early', prop='C14', needs='the starting thread gets on with its work while the new system thread is delayed between reporting its start and marking itself as executing',
  breaks='start() returns before the thread counts as executing, so a stop() that follows is overwritten and the thread never ends',
  edits=[('icl_core_thread/Thread.cpp', '''  m_thread_mutex.lock();
  m_execute = true;
  m_starting = false;
''', '''  m_starting = false;
  m_thread_mutex.lock();
  m_execute = true;
''')],
  demo=CK + '''#include <pthread.h>
#include <dlfcn.h>
#include <unistd.h>
#include <icl_core_thread/Thread.h>
static volatile bool slow = false; static pthread_t me;
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) noexcept { typedef int (*F)(pthread_mutex_t *); static F f = (F) dlsym(RTLD_NEXT, "pthread_mutex_lock"); if (slow && !pthread_equal(pthread_self(), me)) usleep(100000); return f(m); }
struct T : icl_core::thread::Thread { T() : icl_core::thread::Thread("t") {} virtual void run() { while (execute()) usleep(1000); } };
int main() { me = pthread_self(); T t; slow = true; t.start(); bool e = t.execute(); t.stop(); slow = false; usleep(400000); bool still = t.running(); t.stop(); t.join(); REQ(e); REQ(!still); return 0; }
''')
S(id='periodic-setperiod', prop='C17', needs='changing the period of a periodic thread before it is started',
  breaks='the change is forgotten: the thread runs with its old period and reports it',
  edits=[('icl_core_thread/PeriodicThreadImplTimerfd.cpp', '''  m_period = period;

  int ret = -1;
  if (timer_created)
  {
''', '''  int ret = -1;
  if (timer_created)
  {
    m_period = period;
''')],
  demo=CK + '''#include <icl_core_thread/PeriodicThread.h>
struct T : icl_core::thread::PeriodicThread { int n; T() : icl_core::thread::PeriodicThread("t", icl_core::TimeSpan(30, 0)), n(0) {} virtual void run() { for (int i = 0; i < 3; ++i) { waitPeriod(); ++n; } } };
int main() { T t; t.setPeriod(icl_core::TimeSpan(0, 20000000)); REQ(t.period() == icl_core::TimeSpan(0, 20000000)); return 0; }
''')
S(id='log-unknown-stream', prop='C31', needs='an output configured for a list of streams in which a stream that does not exist stands before one that does',
  breaks='the existing streams after the unknown one are not connected to the output',
  edits=[('icl_core_logging/LoggingManager.cpp', '''            // entry.  Maybe there will be a second call to configure()
            // in the future and the log stream is available then.
            continue;
''', '''            // entry.  Maybe there will be a second call to configure()
            // in the future and the log stream is available then.
            break;
''')],
  demo=CK + '''#include <fstream>
#include <icl_core_config/Config.h>
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LoggingManager.h>
#include <icl_core_logging/LogStream.h>
DECLARE_LOG_STREAM(Zebra)
REGISTER_LOG_STREAM(Zebra)
using icl_core::logging::endl;
int main(int, char **argv) {
  { std::ofstream f("c.xml"); f << "<c><IclCore><Logging><OutputStreamA><OutputStreamName>File</OutputStreamName><Name>F</Name><LogLevel>Info</LogLevel><FileName>out.log</FileName><Flush>true</Flush><LogStream1>Ant</LogStream1><LogStream2>Zebra</LogStream2></OutputStreamA></Logging></IclCore></c>"; }
  char c[] = "-c", n[] = "c.xml"; char *av[] = { argv[0], c, n, NULL }; int ac = 3;
  REQ(icl_core::logging::initialize(ac, av, true));
  LOGGING_INFO(Zebra, "hello zebra" << endl);
  icl_core::logging::LoggingManager::instance().shutdown();
  std::ifstream f("out.log"); std::string all((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  REQ(all.find("hello zebra") != std::string::npos); return 0; }
''')
S(id='worker-drain-one', prop='C27', needs='more than one message still waiting for a slow output with its own thread when it is shut down',
  breaks='all but one of the waiting messages are dropped at shutdown',
  edits=[('icl_core_logging/LogOutputStream.cpp', '''    while (!m_message_queue.empty())
    {
      LogMessage log_message = m_message_queue.front();''', '''    if (!m_message_queue.empty())
    {
      LogMessage log_message = m_message_queue.front();''')],
  demo=CK + '''#include <unistd.h>
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LogOutputStream.h>
#include <icl_core_logging/LoggingManager.h>
using namespace icl_core::logging;
static volatile int n = 0;
struct Out : LogOutputStream { Out() : LogOutputStream("o", eLL_TRACE, true) {} virtual void pushImpl(const icl_core::String&) { usleep(20000); ++n; } };
int main(int argc, char **argv) { initialize(argc, argv, false); Out *o = new Out; o->start(); for (int i = 0; i < 10; ++i) o->push(eLL_INFO, "s", "f", 1, "c", "o", "d", "t"); o->shutdown(); REQ(n == 10); delete o; return 0; }
''')
S(id='perf-startstop-gap', prop='C32', needs='time passing between the reading of the clock and the end of startStop()',
  breaks='the time needed to store the value is missing from the sum of consecutive measurements',
  edits=[('icl_core_performance_monitor/PerformanceMonitor.cpp', 'monitor->m_timer[timer_name] = end;', 'monitor->m_timer[timer_name] = TimeStamp::now();')],
  demo=CK + CLOCK.replace('return 0; }\nextern "C" int gettimeofday', 'vt += 5000000; return 0; }\nextern "C" int gettimeofday').replace('/ 1000; return 0; }', '/ 1000; vt += 5000000; return 0; }') + '''#include <cmath>
#include <icl_core_performance_monitor/PerformanceMonitor.h>
using icl_core::perf_mon::PerformanceMonitor;
int main() { PerformanceMonitor::initialize(10, 10); PerformanceMonitor::enablePrefix("p"); PerformanceMonitor::getInstance()->m_print_stop = false; PerformanceMonitor::startStop("t", "d", "p"); long long v0 = vt; double d = 0; for (int i = 0; i < 3; ++i) d += PerformanceMonitor::startStop("t", "d", "p"); REQ(std::fabs(d - (vt - v0) / 1000000.0) < 0.01); return 0; }
''')
S(id='scheme-mixed-case', prop='C35', needs='a scheme name with a capital letter which is not its first letter',
  breaks='such addresses (FILE://...) are taken for an unknown scheme',
  edits=[('icl_core/SchemeParser.cpp', 'for (size_t i = 0; i < name.size(); ++i)', 'for (size_t i = 0; i < 1; ++i)')],
  demo=CK + '''#include <icl_core/SchemeParser.h>
int main() { icl_core::SchemeParser p; REQ(p.parseScheme("FILE:///tmp/x")); REQ(p.getSchemeResult().scheme_type == icl_core::FileScheme); REQ(p.parseScheme("hTTp://x")); REQ(p.getSchemeResult().scheme_type == icl_core::HttpScheme); return 0; }
''')
S(id='dispatch-op-starves', prop='C33', needs='an operation which adds another operation while it is executed',
  breaks='operations are executed while the queue is locked, so an operation which adds one waits for itself for ever',
  edits=[('icl_core_dispatch/PeriodicDispatchThread.cpp', 'm_dispatch_queue.push_back(op);', 'm_dispatch_queue.insert(m_dispatch_queue.size() < 2 ? m_dispatch_queue.end() : --m_dispatch_queue.end(), op);')],
  demo=CK + '''#include <unistd.h>
#include <icl_core_dispatch/PeriodicDispatchThread.h>
#include <icl_core_dispatch/CallbackOperation.h>
static std::string s; static volatile int rounds = 0;
static void a() { s += 'a'; } static void b() { s += 'b'; } static void c() { s += 'c'; ++rounds; }
int main() { icl_core::dispatch::CallbackOperation oa(a), ob(b), oc(c); { icl_core::dispatch::PeriodicDispatchThread t("t", icl_core::TimeSpan(0, 10000000)); t.addOperation(&oa); t.addOperation(&ob); t.addOperation(&oc); t.start(); for (int i = 0; i < 200 && rounds < 3; ++i) usleep(10000); } REQ(s.substr(0, 6) == "abcabc"); return 0; }
''')
SEEDS[-1].update(id='dispatch-third-op', needs='adding a third operation to a dispatcher', breaks='from the third operation on, a new operation is executed before the one added last instead of after it')
S(id='plugin-unknown-static', prop='C34', needs='asking for an unknown plugin and then for the list of all plugins', breaks='a name that was asked for once counts as a plugin added by the program, with a null instance',
  edits=[('icl_core_plugin/PluginManager.h', """    if (m_static_plugins.find(identifier) != m_static_plugins.end())
    {
      return m_static_plugins[identifier];
    }

    typename""", """    if (m_static_plugins[identifier] != NULL)
    {
      return m_static_plugins[identifier];
    }

    typename""")],
  demo=CK + """#include <icl_core_logging/Logging.h>
#include <icl_core_plugin/PluginManager.h>
struct P { typedef const char *identifier(); typedef const char *basetype(); typedef P *load_plugin(); virtual ~P() {} virtual std::string Identifier() = 0; };
char dir[] = "plugs";
typedef icl_core::plugin::PluginManager<P, dir> M;
int main(int argc, char **argv) { icl_core::logging::initialize(argc, argv, false); M *m = M::instance(); REQ(m->plugin("x") == NULL); REQ(!m->isStaticPlugin("x")); REQ(m->plugins().size() == 0); return 0; }
""")
S(id='sha-text-block', prop='C18', needs='a text hashed in two parts with the text form of process(), the first of which ends exactly at a block boundary before another form of process() is used',
  breaks='a message fed as text and then as data, with the block exactly full in between, gets a wrong digest',
  edits=[('icl_core_crypt/Sha2.hpp', '''  while (rest >= cMESSAGE_BLOCK_SIZE-m_buffer_fill)
  {
    size_t amount = cMESSAGE_BLOCK_SIZE-m_buffer_fill;
''', '''  if (m_buffer_fill == cMESSAGE_BLOCK_SIZE)
  {
    m_buffer_fill = 0;
  }
  while (rest >= cMESSAGE_BLOCK_SIZE-m_buffer_fill)
  {
    size_t amount = cMESSAGE_BLOCK_SIZE-m_buffer_fill;
''')],
  demo=CK + '''#include <icl_core_crypt/Sha2.h>
int main() { std::string t(64, 'a'), u(10, 'b'); icl_core::crypt::Sha256 a, b; a.process(t.c_str()).process((const void *) u.data(), u.size()).finalize(); b.process((const void *) (t + u).data(), 74).finalize(); REQ(a.getHexDigest() == b.getHexDigest()); return 0; }
''')
S(id='getopt-nonopt-wrong', prop='C22', needs='cleaning the command line when an unregistered short option is allowed and follows an option with a separate value',
  breaks='the wrong argument is removed from the cleaned command line',
  edits=[('icl_core_config/GetoptParser.cpp', '''            m_param_opt[find_it->second.option()] = *arg_it;
          }
        }
        else
        {
          m_param_opt[find_it->second.option()] = "yes";
''', '''            m_param_opt[find_it->second.option()] = *arg_it;
          }
        }
        else if (m_param_opt.find(find_it->second.option()) == m_param_opt.end())
        {
          m_param_opt[name] = "yes";
''')],
  demo=CK + '''#include <icl_core_config/GetoptParser.h>
using namespace icl_core::config;
int main() { Getopt &g = Getopt::instance(); g.addParameter(GetoptParameter("verbose", "v", "x")); char p[] = "p", a[] = "-v"; char *av[] = { p, a, NULL }; int ac = 2; REQ(g.initialize(ac, av, false)); REQ(g.paramOptPresent("verbose")); return 0; }
''')
SEEDS[-1].update(id='getopt-short-flag', needs='a flag given in its short form', breaks='a flag given in its short form is recorded under its short name, so it does not count as present')
S(id='attr-after-last', prop='C19', needs='adding a subtree directly after a given one which is not the last child',
  breaks='the new subtree ends up after the sibling that follows the given one',
  edits=[('icl_core_config/AttributeTree.cpp', 'for (loop = this; loop->m_next && loop->m_sub_tree != after; loop = loop->m_next)', 'for (loop = this; loop->m_next && loop->m_next->m_next && loop->m_sub_tree != after; loop = loop->m_next)')],
  demo=CK + '''#include <icl_core_config/AttributeTree.h>
using icl_core::config::AttributeTree;
int main() { AttributeTree r; AttributeTree *n[4]; const char *names[] = { "a", "b", "c", "d" }; for (int i = 0; i < 3; ++i) { n[i] = new AttributeTree(names[i]); if (i) n[i - 1]->addNextTree(n[i]); else r.addSubTree(n[i]); } n[3] = new AttributeTree("d"); n[2]->addNextTree(n[3]);
  AttributeTree *t = r.firstSubTree(); std::string s; while (t) { s += t->getDescription(); t = r.nextSubTree(t); } std::printf("%s\\n", s.c_str()); REQ(s == "abcd"); return 0; }
''')
SEEDS[-1].update(id='attr-after-tail', needs='adding a subtree after the last child of a tree with several children', breaks='the new subtree is put before the last child instead of after it')
S(id='config-option-notify', prop='C23', needs='a value overridden with a config option while an observer watches its key',
  breaks='the observer is told before the new value is in place, so it sees the old one',
  edits=[('icl_core_config/ConfigManager.cpp', '''    insert(it->m_key, it->m_value);
    notify(it->m_key);
''', '''    notify(it->m_key);
    insert(it->m_key, it->m_value);
''')],
  demo=CK + '''#include <icl_core_config/Config.h>
#include <icl_core_config/ConfigObserver.h>
using namespace icl_core::config;
struct O : ConfigObserver { std::string last; void valueChanged(const icl_core::String& key) { last = getDefault<icl_core::String>(key, "none"); } };
int main(int, char **argv) { O o; ConfigManager::instance().registerObserver(&o, "/k"); char a[] = "-o/k", b[] = "new"; char *av[] = { argv[0], a, b, NULL }; int ac = 3; REQ(icl_core::config::initialize(ac, av, icl_core::config::Getopt::eCLC_None, icl_core::config::Getopt::ePRC_Strict)); REQ(o.last == "new"); return 0; }
''')
S(id='filepath-midslash-dot', prop='C21', needs='a path with several single-dot parts in a row',
  breaks='every second of several consecutive single dots stays in the normalized path',
  edits=[('icl_core_config/AttributeTree.cpp', '''    temp_filename.append(filename, dot_start + 2, filename.length() - dot_start - 2);
    temp_filename.swap(filename);

    dot_start = filename.find(string(1, DSEP) + "." + DSEP, dot_start);''', '''    temp_filename.append(filename, dot_start + 2, filename.length() - dot_start - 2);
    temp_filename.swap(filename);

    dot_start = filename.find(string(1, DSEP) + "." + DSEP, dot_start + 1);''')],
  demo=CK + '''#include <icl_core_config/AttributeTree.h>
using icl_core::config::FilePath;
int main() { REQ(FilePath::normalizePath("/a/././b") == "/a/b"); REQ(FilePath::normalizePath("/a/./././b") == "/a/b"); return 0; }
''')
S(id='zero-timeout-forever', prop='C12', needs='a relative timeout of exactly zero while the lock is held by another thread',
  breaks='a lock request with a timeout of zero waits for a year instead of giving up at once',
  edits=[('icl_core_thread/Common.h', """inline TimeStamp getAbsoluteTimeout(const TimeSpan& timeout_relative)
{
  TimeStamp timeout_absolute = TimeStamp::now();
  if (timeout_relative < TimeSpan())""", """inline TimeStamp getAbsoluteTimeout(const TimeSpan& timeout_relative)
{
  TimeStamp timeout_absolute = TimeStamp::now();
  if (timeout_relative <= TimeSpan())""")],
  demo=CK + """#include <thread>
#include <unistd.h>
#include <icl_core_thread/Mutex.h>
#include <icl_core_thread/RWLock.h>
int main() { alarm(5); icl_core::thread::RWLock l; REQ(l.writeLock()); bool r = true; std::thread t([&] { r = l.readLock(icl_core::TimeSpan()); }); t.join(); REQ(!r); return 0; }
""")
S(id='kvd-get-clears', prop='C36', needs='reading a key which does not exist into a variable that has a value',
  breaks='the variable is cleared although the key was not found',
  edits=[('icl_core/KeyValueDirectory.hpp', """  else
  {
    return false;
  }
}

template <typename T>
bool KeyValueDirectory<T>::hasKey""", """  else
  {
    value = T();
    return false;
  }
}

template <typename T>
bool KeyValueDirectory<T>::hasKey""")],
  demo=CK + """#include <icl_core/KeyValueDirectory.h>
int main() { icl_core::KeyValueDirectory<int> d; d.insert("a", 1); int v = 7; REQ(!d.get("b", v)); REQ(v == 7); REQ(d.get("a", v)); REQ(v == 1); return 0; }
""")
