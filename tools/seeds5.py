exec(open('/verif/tools/seeds4.py').read().split("S(id=")[0])
S(id='worker-push-unlocked', prop='C27', needs='two threads logging to an output with a worker thread at the same time', breaks='the message queue is changed without holding its mutex, messages are lost or the program crashes',
  edits=[('icl_core_logging/LogOutputStream.cpp', """        m_worker_thread->m_message_queue.push(new_entry);
#endif
        m_worker_thread->m_mutex->post();""", """#endif
        m_worker_thread->m_mutex->post();
        m_worker_thread->m_message_queue.push(new_entry);""")],
  demo=CK + """#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LogOutputStream.h>
#include <thread>
#include <unistd.h>
using namespace icl_core::logging;
static size_t written; struct Out : LogOutputStream { Out() : LogOutputStream("o", "/o", icl_core::logging::eLL_TRACE, true) {} virtual void pushImpl(const icl_core::String &) { ++written; } };
int main() { alarm(50); Out *o = new Out; o->start(); const int T = 6, N = 20000; std::vector<std::thread> v; for (int t = 0; t < T; ++t) v.emplace_back([&] { for (int i = 0; i < N; ++i) o->push(icl_core::logging::eLL_INFO, "s", "f", 1, "", "", "", "m"); }); for (auto &t : v) t.join(); o->shutdown(); REQ(written == (size_t)T * N); return 0; }
""")
S(id='conf-list-partial', prop='C23', needs='a list of elements one of which has an invalid value', breaks='a list with an invalid value is accepted as if it were complete',
  edits=[('icl_core_config/ConfigList.h', """    if (error)
    {
      result = false;
    }""", """    if (error && m_element_map.empty())
    {
      result = false;
    }""")],
  demo=CK + """#include <icl_core_config/Config.h>
#include <icl_core_config/ConfigList.h>
#include <icl_core_config/ConfigValues.h>
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LogStream.h>
struct I { int32_t x, y; I() : x(0), y(0) {} };
int main(int argc, char **argv) { icl_core::logging::initialize(argc, argv, false); icl_core::logging::LogStream l("l"); icl_core::config::setValue("/l/a/x", "1"); icl_core::config::setValue("/l/a/y", "zz"); std::vector<I> v;
  bool r = icl_core::config::get("", CONFIG_VALUES((CONFIG_LIST(I, "/l", MEMBER_MAPPING(I, (MEMBER_VALUE_1("x", I, x))(MEMBER_VALUE_1("y", I, y))), std::back_inserter(v)))), l); REQ(!r); REQ(v.empty()); return 0; }
""")
S(id='conflist-suffix-prefix', prop='C23', needs='a key below a list element whose name begins with that of a member', breaks='a foreign key is read as the member whose name it begins with',
  edits=[('icl_core_config/ConfigList.h', """        if (suffix == (*it)->getSuffix())""", """        if (suffix.compare(0, (*it)->getSuffix().size(), (*it)->getSuffix()) == 0)""")],
  demo=CK + """#include <icl_core_config/Config.h>
#include <icl_core_config/ConfigList.h>
#include <icl_core_config/ConfigValues.h>
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/LogStream.h>
struct I { int32_t x; I() : x(0) {} };
int main(int argc, char **argv) { icl_core::logging::initialize(argc, argv, false); icl_core::logging::LogStream l("l"); icl_core::config::setValue("/l/a/x", "1"); icl_core::config::setValue("/l/a/x2", "5"); std::vector<I> v;
  bool r = icl_core::config::get("", CONFIG_VALUES((CONFIG_LIST(I, "/l", MEMBER_MAPPING(I, (MEMBER_VALUE_1("x", I, x))), std::back_inserter(v)))), l); REQ(r); REQ(v.size() == 1); REQ(v[0].x == 1); return 0; }
""")
