# Property texts and manifest data; gen.py writes properties.jsonl and MANIFEST.json from this.
P = []
def prop(id, title, statement, over, text, why, files, mech, level_note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=['src/icl_core/src/' + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech]), _note=level_note, _na=na))

prop('C01', 'Ring buffer is a bounded FIFO',
 'For every sequence of write, read, skip, clear, refill, fill and resize operations, a ring buffer returns the elements in the order they were written, never holds more than its capacity and never loses, duplicates or invents an element. Its size, remaining space, empty and full queries always agree with its contents, and copies and assignments are equal and independent. A write to a full or a read from an empty buffer is refused without side effects or, where documented, overwrites or waits exactly as documented.',
 ['inputs', 'histories'], 'every operation history up to the stated length, every capacity up to the bound, every element value and every skip or fill count',
 'Tests run a few fixed fill and drain sequences on one capacity; wrap-around defects depend on the combination of capacity, read and write position and operation order.',
 ['icl_core/RingBuffer.h'], [('read and write indices modulo capacity, fill count', 'RingBuffer')])
prop('C02', 'Ring buffer windows and iterators describe exactly its contents',
 'The contiguous ranges and iterators offered by a ring buffer, taken in order, enumerate exactly its current elements from oldest to newest and its free slots, without touching memory outside the buffer. Iterator arithmetic, comparison, distance and indexing agree with the positions of the elements they designate.',
 ['inputs', 'histories'], 'every reachable read position, fill level and capacity up to the bound, every element value, every pair of iterator positions and offsets',
 'The wrapped layouts form a product of capacity, start and length of which tests visit a handful.',
 ['icl_core/RingBuffer.h'], [('arrayOne/arrayTwo style windows and the iterator index arithmetic', 'RingBuffer, RingBufferIteratorBase')])
prop('C03', 'Two-dimensional arrays keep every element at its own place',
 'For every shape and every in-range coordinate a two-dimensional array gives each coordinate its own element: a value written at one coordinate is read back there and nowhere else, through every access path. Resizing, filling, copying, assignment, swapping and clearing give exactly the documented shape and element values.',
 ['inputs', 'histories'], 'every shape up to the bound, every coordinate pair, every element value',
 'Index mixing errors are invisible on the square or constant-filled arrays used in tests.',
 ['icl_core/Array2D.h'], [('row-major index computation', 'Array2D')])
prop('C04', 'Union-find computes connected components',
 'After any sequence of merges two elements are reported connected exactly when a chain of merges links them. Every element has a unique representative within the element range, and the partition never depends on the order of queries.',
 ['inputs', 'histories'], 'every merge sequence up to the stated number of merges over every element set up to the bound',
 'The number of merge and query interleavings is exponential; tests check one.',
 ['icl_core/UnionFind.h'], [('path compression and union by rank', 'UnionFind')])
prop('C05', 'Core containers and bit helpers follow their specification',
 'A searchable stack behaves as a stack whose search returns the lowest matching element, the relation of two sets is the set-theoretic one, bit helpers change and test exactly the requested bits of every integer width, and scope guards and finalizable objects run exactly once. A distance buffer keeps, per cell, the nearest (or farthest) value ever entered and the key that produced it. A checked result converts to and from its success state without changing it.',
 ['inputs', 'histories'], 'every operation history up to the bound, every integer value of every width, every pair of sets up to the bound',
 'Tests use tiny constants: a 64-bit mask, a colliding key or an unusual operation order is not exercised.',
 ['icl_core/SearchableStack.h', 'icl_core/SetHelper.h', 'icl_core/Bitfield.h', 'icl_core/BitfieldHelper.h', 'icl_core/ZBuffer.h', 'icl_core/AtScopeEnd.h', 'icl_core/Finalizable.h', 'icl_core/ExpectedType.h'], [('individual helper templates', 'icl_core')])
prop('C06', 'String helpers are exact on every input',
 'Splitting a text and joining the parts gives the text back (up to one trailing delimiter), trimming removes exactly the leading and trailing white space, case conversion maps each character, padding yields the requested length, and numbers convert to their decimal text and back. All of them terminate and stay within their arguments for every text, including empty ones and ones that contain only delimiters or white space. The portable C-string wrappers behave as their standard counterparts.',
 ['inputs'], 'every text and delimiter of the stated lengths over all byte values',
 'Tests use a few readable words; empty texts, repeated delimiters and non-ASCII bytes are not sampled.',
 ['icl_core/StringHelper.h', 'icl_core/StringHelper.cpp', 'icl_core/os_posix_string.cpp'], [('scan loops over std::string', 'StringHelper.cpp')])
prop('C07', 'Enumeration names map to their own value',
 'Looking up a name in an enumeration table yields the index of the first entry with exactly that name (or, when the end of the table is reached, reports failure and leaves the result alone). Nothing after the end marker of the table is read.',
 ['inputs'], 'every name and every table of the stated sizes over all byte values',
 'Prefix names and absent names form a product of table and query that tests sample once.',
 ['icl_core/EnumHelper.h', 'icl_core/EnumHelper.cpp'], [('table scan', 'EnumHelper.cpp')])
prop('C08', 'Sequence numbers wrap correctly in their range',
 'Incrementing a sequence number, before or after use, walks its configured range cyclically and never leaves it. Of two numbers less than half the range apart, the one reached by incrementing is the greater, including across the wrap-around and for ranges which do not start at zero.',
 ['inputs'], 'every pair of values in the range for 8, 16 and 32 bit number types and several ranges',
 'The wrap-around comparison has 2^64 operand pairs; tests compare a handful.',
 ['icl_core/SequenceNumber.h'], [('modular distance comparison', 'SequenceNumber')])
prop('C09', 'Time arithmetic is exact and ordered',
 'Every time stamp and time span denotes a whole number of nanoseconds in a normalized form; constructing, adding, subtracting and negating them is exact for all representable operands. The six comparison operators agree with the order of the denoted values.',
 ['inputs'], 'all pairs of values with |seconds| < 2^60 and every sub-second part, including ones outside one second where accepted',
 'Carry and borrow across seconds and signs depend on both operands; tests use about a dozen pairs.',
 ['icl_core/TimeBase.h', 'icl_core/TimeBase.cpp', 'icl_core/TimeSpan.h', 'icl_core/TimeSpan.cpp', 'icl_core/TimeStamp.h', 'icl_core/TimeStamp.cpp'], [('normalization of seconds and nanoseconds', 'TimeBase::normalizeTime')])
prop('C10', 'Time units, fields and printed spans agree with the value',
 'Conversions between a time value and seconds, milli-, micro- and nanoseconds are exact up to truncation toward zero. The day, hour, minute, second and sub-second fields of a value are in range and recombine to it. The printed form of a span is a signed sum of unit items equal to the span.',
 ['inputs'], 'all values in the stated second ranges, every nanosecond value',
 'Division and remainder defects show only for particular digits and signs.',
 ['icl_core/TimeBase.cpp', 'icl_core/TimeSpan.cpp', 'icl_core/TimeBase.h'], [('unit conversion and field extraction', 'TimeBase, TimeSpan')])
prop('C11', 'Calendar texts and conversions denote the same instant',
 'The ISO 8601 texts of a time stamp contain the calendar date, time of day and nanoseconds of that instant in UTC, the basic text reads back as the same time stamp, and missing trailing fields denote the start of the period. Formatting stays within its buffer and terminates the text for every time stamp; reading any date text stays within its tables. Conversion from a boost time and scaling of a span are exact to the nanosecond.',
 ['inputs'], 'every day of the sampled years, every second of a day, every nanosecond, every digit in a field',
 'Month tables, leap years, carries between fields and odd numbers of fraction digits are only exercised for the current time in tests.',
 ['icl_core/TimeStamp.cpp', 'icl_core/TimeStamp.h', 'icl_core/TimeSpan.h', 'icl_core/os_posix_time.cpp'], [('calendar arithmetic and fixed-size text buffers', 'TimeStamp')])
prop('C12', 'Locks exclude, answer truthfully and are released',
 'A mutex, spin lock or write lock admits one thread at a time, read locks share, and every lock call reports success exactly if the caller now holds the lock. A bounded attempt gives up only after its time has passed (to the clock resolution) and not later, a held mutex can be locked again by its holder, and scoped locks hold for their scope and release at its end. No lock is lost or left held and no waiting thread is left behind when the lock becomes free.',
 ['schedules', 'inputs'], 'every interleaving of the stated threads up to the stated number of preemptions, every choice of lock call, every time limit',
 'Exclusion and truthful answers depend on the schedule; tests observe one.',
 ['icl_core_thread/Mutex.cpp', 'icl_core_thread/MutexImplPosix.cpp', 'icl_core_thread/RWLock.cpp', 'icl_core_thread/RWLockImplPosix.cpp', 'icl_core_thread/SpinLock.h', 'icl_core_thread/ScopedMutexLock.cpp', 'icl_core_thread/ScopedRWLock.cpp', 'icl_core_thread/Common.h'], [('wrappers over the system primitives, deadline computation', 'icl_core_thread')])
prop('C13', 'Semaphores count exactly',
 'A semaphore grants exactly as many permits as its initial value plus the number of posts, and every wait call reports success exactly if it took a permit. A bounded wait gives up only after its time has passed, an unbounded wait does not give up, and what was written before a post is seen after the matching wait.',
 ['schedules', 'histories', 'inputs'], 'every history of operations and every interleaving within the bounds, every time limit',
 'Lost permits show only in particular histories or schedules.',
 ['icl_core_thread/Sem.cpp', 'icl_core_thread/SemaphoreImplPosix.cpp', 'icl_core_thread/Common.h'], [('permit counting', 'Semaphore')])
prop('C14', 'Threads run once and are waited for',
 'Each successful start runs the thread body exactly once, and waiting for the thread (joining it, waiting without limit, or destroying it) returns only after the body is over, while a limited wait reports failure only after its time has passed. A stop request reaches the body, a thread which could not be created is reported as not started, and once a thread object is destroyed its system thread is gone and released.',
 ['schedules', 'histories', 'inputs'], 'every interleaving within the preemption bound, every way of starting, stopping and waiting, every time limit',
 'The windows between the end of the body and the bookkeeping around it are a few instructions wide.',
 ['icl_core_thread/Thread.cpp', 'icl_core_thread/Thread.h', 'icl_core_thread/ThreadImplPosix.cpp'], [('start, stop, wait and join handshake', 'Thread')])
prop('C16', 'Active objects run each operation once, in order',
 'Operations queued to a running active object by one client are executed exactly once, in the order they were queued, in the thread of the object; two operations never run at the same time. Every operation is deleted exactly once, whether it was executed, was pending when the object stopped or was queued to a stopped object, and the internal queue is never accessed by two threads at once.',
 ['schedules', 'histories'], 'every interleaving of the clients, the stop request and the object within the preemption bound',
 'Lost or doubly freed operations need the stop request to fall between two steps of a client.',
 ['icl_core_thread/ActiveObject.cpp', 'icl_core_thread/ActiveObject.h', 'icl_core_thread/ActiveOperation.h'], [('operation queue hand-over and drain', 'ActiveObject')])
prop('C17', 'Periodic threads keep their period',
 'Each wait of a periodic thread ends one period after the previous one (at once if that time has already passed), for every period, and a changed period applies from the next cycle. The period which was set is reported, and a periodic thread which ran any number of times releases its timer.',
 ['inputs', 'histories'], 'every period and start time in the stated ranges',
 'Tests use one period of a few milliseconds and observe it coarsely.',
 ['icl_core_thread/PeriodicThread.cpp', 'icl_core_thread/PeriodicThreadImplTimerfd.cpp', 'icl_core_thread/PeriodicThreadImplEmulate.cpp'], [('timer programming and emulation', 'PeriodicThreadImpl')])
prop('C18', 'SHA-2 digests are the ones of the standard',
 'For every message, the SHA-224, SHA-256, SHA-384 and SHA-512 objects compute the digest of FIPS 180-3, and the hexadecimal text denotes that digest with every leading zero. The digest depends only on the bytes of the message, not on the pieces or the overload by which it was handed over, and a cleared object starts anew.',
 ['inputs'], 'every message content and chaining state of the stated lengths, every split at block boundaries',
 'Published vectors fix a few messages; boundary lengths, buffered remainders and rare digest words are not among them.',
 ['icl_core_crypt/Sha2.h', 'icl_core_crypt/Sha2.hpp', 'icl_core_crypt/Sha2Impl.h', 'icl_core_crypt/Sha2Impl.hpp'], [('block buffering, padding and compression function', 'Sha2, Sha2Impl')])
prop('C19', 'Attribute trees hold what was set',
 'Getting a dotted path of a configuration tree returns the value last set for exactly that path (or the default if there is none), and setting, creating or removing one node leaves all other paths alone, on any tree including an empty one. A copy has the same contents, attached trees get distinct names, walking a tree visits each child once (a tree added as next one directly after its sibling), changes are reported until marked as handled, and a destroyed tree releases its memory.',
 ['histories', 'inputs'], 'every history of the stated number of operations on a set of paths, every name and value of the stated lengths',
 'Tests set a few paths once; removal, empty trees and names which are prefixes of each other are not combined.',
 ['icl_core_config/AttributeTree.cpp', 'icl_core_config/AttributeTree.h'], [('pointer-linked tree with dotted path lookup', 'AttributeTree, SubTreeList')])
prop('C20', 'Configuration texts load completely and round-trip',
 'Loading a saved tree gives back every path, value and (if asked for) comment, in every printing style, and nothing else. Every setting of a well-formed text takes effect in each form of writing it, with either line ending and also in an unterminated last line. Reading any text whatever terminates, stays within its buffers and leaves a well-formed tree or reports an error.',
 ['inputs'], 'every name and value character in the stated tree shapes and line forms, every text of the stated length',
 'Tests load hand-written files; small trees, odd characters, missing line ends and malformed input are not among them.',
 ['icl_core_config/AttributeTree.cpp'], [('line-oriented reader with a fixed buffer, printer with two styles', 'AttributeTree')])
prop('C21', 'File names are resolved without changing their meaning',
 'Normalizing a path gives a path which names the same place, has no single dots and no "something/.." left and stays the same when normalized again. A file name splits into an absolute path ending with a separator, a name and an extension (empty if the name has none), relative names starting at the current directory. Every ${NAME} in a text is replaced by the value of NAME, whatever that value contains.',
 ['inputs'], 'every path over the separators, dots and letters up to the stated length, every environment value of the stated length',
 'Tests do not cover file names; leading "..", double slashes and values containing variables are the cases that fail.',
 ['icl_core_config/AttributeTree.cpp', 'icl_core_config/AttributeTree.h'], [('index arithmetic on path strings', 'FilePath')])
prop('C22', 'Command lines are parsed as documented',
 'A command line is accepted exactly if every option is known (or unknown ones are allowed) and each option which needs a value has one; afterwards every flag, option value, prefix option, positional, extra and remaining parameter is reported exactly as given, in order. Cleaning removes exactly the consumed arguments, and parsing happens only once.',
 ['inputs'], 'every command line of the stated number and length of arguments over the characters the parser distinguishes',
 'Tests parse a few fixed command lines; missing values, equal texts in different roles and odd dashes are not among them.',
 ['icl_core_config/GetoptParser.cpp', 'icl_core_config/GetoptParser.h', 'icl_core_config/GetoptParameter.cpp'], [('regular expressions over arguments and removal by shifting', 'Getopt')])
prop('C23', 'Configuration values are read back exactly',
 'A configuration key has the value last set, searching finds exactly the matching keys, and typed or batch reading (numbers, truth values, names, texts, lists, below a prefix) succeeds exactly if the value is there and valid; otherwise it leaves the variable alone or uses the default. On initialization the command line wins over the file and the file over the default, with overrides above all. Observers see every change of their keys with the new value, and none after they are destroyed.',
 ['inputs', 'histories'], 'every value text of the stated length, every combination of sources, every order of changes',
 'Tests read valid values; invalid text, empty values, white space and conflicting sources are not combined.',
 ['icl_core_config/Config.h', 'icl_core_config/ConfigManager.cpp', 'icl_core_config/ConfigManager.h', 'icl_core_config/ConfigValue.h', 'icl_core_config/ConfigList.h', 'icl_core_config/Util.h', 'icl_core/KeyValueDirectory.hpp'], [('string map with typed views and notification lists', 'ConfigManager, KeyValueDirectory, ConfigValue')])
L_ = lambda *f: ['icl_core_logging/' + x for x in f]
prop('C24', 'A log line is what the format says',
 'Every message handed to a log output is written as exactly one line made of the fields and texts of the log format in order: an empty class, object or function is left out with its prefix, brackets are closed, milliseconds are padded to their width, and the time is the time of logging. Any text is accepted as a format; texts of any length are kept, an unfinished field is ignored, and a new or configured format replaces the old one.',
 ['inputs'], 'every format of the stated number of pieces or characters, every content of the fields, every time',
 'Tests print with the default format and nobody compares the lines.', L_('LogOutputStream.cpp', 'LogOutputStream.h'), [('format parser and field list', 'LogOutputStream::parseLogFormat, pushImpl')])
prop('C25', 'A message reaches exactly the right outputs, with its fields',
 'A message reaches an output exactly if the stream is active, the output is attached, and the level of the message is at least those of the stream and of the output; a muted message is not even put together. It arrives once, with its own level, stream, file, line, class, object, function and text, which are cut only beyond their documented sizes and never leak into other messages. Level names and levels correspond one to one.',
 ['inputs', 'histories'], 'every combination of levels, every history of attaching and detaching, every number of open messages and field length up to the bounds',
 'Tests log at a few levels and look at nothing which arrives; long names and reused buffers do not occur.', L_('LogStream.cpp', 'LogStream.h', 'LogOutputStream.cpp', 'ThreadStream.cpp', 'LogLevel.cpp', 'LoggingMacros_SLOGGING.h'), [('two level thresholds', 'SLOGGING_LOG_FLCO, LogOutputStream::push'), ('pool of message buffers per thread and level', 'LogStream::threadStream')])
prop('C26', 'What is streamed into a message is what is written',
 'Numbers, truth values, texts and formatted texts streamed into a log message appear in it in order and in full decimal or text form. A message which does not fit into the buffer is cut at its end, still ends with its end of line, and does not affect memory or the next message.',
 ['inputs'], 'every number of the small types and around the limits of the wide ones, every short text, every combination of lengths around the buffer limit',
 'Tests stream a few small values; the limits of types and of the buffer are never reached.', L_('ThreadStream.cpp', 'ThreadStream.h'), [('fixed message buffer with protected end', 'ThreadStream::write, printf')])
prop('C27', 'Log outputs write every message once, also with their own thread',
 'Messages pushed to an output by any number of threads are each written exactly once, one at a time, those of one thread in their order, whether the output writes itself or through its worker thread. Every message pushed before shutdown() is written when it returns, signals do not make messages vanish, and the worker thread is over and released.',
 ['schedules', 'faults'], 'every interleaving up to the preemption bound, every interrupted wait',
 'A lost message needs a switch at one particular point, or a signal during one particular wait.', L_('LogOutputStream.cpp', 'Semaphore.cpp', 'SemaphoreImplPosix.cpp', 'Thread.cpp', 'ThreadImplPosix.cpp'), [('queue with mutex and fill count, drained at the end', 'LogOutputStream::WorkerThread')])
prop('C28', 'Messages of concurrent threads never mix',
 'When several threads log into one stream at the same time, and outputs are attached and detached meanwhile, each message arrives once with exactly the text and the fields its thread gave it. A detached output gets no more messages; others are not affected.',
 ['schedules'], 'every interleaving up to the preemption bound',
 'Mixing needs a switch between releasing a message buffer and its last use.', L_('LogStream.cpp', 'ThreadStream.cpp'), [('message buffers owned by one thread until flushed', 'LogStream::threadStream, ThreadStream::flush')])
prop('C29', 'Log files never lose messages',
 'A log file keeps what it had and gets every message appended, at once if flushing is on. With rotation, everything written on a past day is in exactly one archive of that day; if any step of archiving fails, everything is still in the file or an archive. zipFile() reports success only if the archive is complete and leaves the file as it is.',
 ['inputs', 'faults'], 'every time of day, existing file or not, one failure at any file operation (thorough two)',
 'Tests never let a day pass and no file operation ever fails.', L_('FileLogOutput.cpp', 'FileLogOutput.h') + ['icl_core/os_fs.cpp'], [('rename or zip and unlink on a new day', 'FileLogOutput::rotateLogFile')])
prop('C30', 'Log messages sent over the network are well formed',
 'A message sent to the logging server is one well formed list of eleven SQL values, and object name and text arrive as they were whatever characters they have. Failing lookups, sockets, connections and sends lose at most messages, and every socket is closed.',
 ['inputs', 'faults'], 'every text of the stated length, one failure of any network call (thorough two)',
 'No test sends anything.', L_('UdpLogOutput.cpp'), [('quoting of text in an SQL value list', 'UdpLogOutput::escape')])
prop('C31', 'Streams and outputs are connected as configured',
 'After initialization each configured output exists once with its name and level, and receives messages exactly from the streams listed for it, or from all if none is listed; levels of streams and outputs are the configured ones unless the command line or setLogLevel() overrides them. Unknown outputs, streams and levels are skipped, and shutting down removes everything so that logging can be initialized again.',
 ['inputs', 'histories'], 'every combination of the stated configuration entries, every level given on the command line',
 'Tests run with the default configuration.', L_('LoggingManager.cpp', 'LoggingManager.h', 'Logging.h'), [('factories, configuration maps and connections', 'LoggingManager::configure')])
prop('C32', 'The performance monitor reports the right times and statistics',
 'For every name the number of values, the average, a median (a value with at least half the values on each side), the least and the greatest value in a summary are those of exactly the values added under that name and prefix while the prefix was enabled (or all were) and the monitor switched on. A measurement is the time since its timer was started; startStop() also restarts the timer, so that consecutive measurements add up to the whole time. Summaries are printed per enabled prefix, sorted by prefix with static data first; data without values is summarized without reading outside it.',
 ['inputs', 'histories'], 'every value of type double but NaN for median and extremes, every history of enabling operations of the stated length',
 'No test uses the performance monitor.', ['icl_core_performance_monitor/PerformanceMonitor.cpp', 'icl_core_performance_monitor/PerformanceMonitor.h'], [('statistics of named values', 'PerformanceMonitor::getMedian'), ('enabling', 'PerformanceMonitor::isEnabled')])
prop('C33', 'A periodic dispatcher runs every operation once per period',
 'From the period after its adding on, every operation added to a PeriodicDispatchThread is executed once per period, in the order of adding, until the dispatcher is stopped; operations may be added at any time, by other threads or by operations, without a data race. Destroying the dispatcher ends its thread and releases it, and a CallbackOperation calls its callback once per execution.',
 ['inputs', 'schedules'], 'every period, start time and schedule within the stated number of preemptions',
 'No test uses the dispatcher.', ['icl_core_dispatch/PeriodicDispatchThread.cpp', 'icl_core_dispatch/PeriodicDispatchThread.h', 'icl_core_dispatch/CallbackOperation.cpp'], [('queue of operations and its execution', 'PeriodicDispatchThread::run')])
prop('C34', 'A plugin manager offers exactly the usable plugins, and releases them',
 'After initialization exactly the plugins of the right type in the search paths (with subdirectories only if asked for) and those added by the program are available under their names, with one instance each that is never NULL; unknown names give NULL and change nothing, and every plugin that fails to load gives an error message and is skipped. Deleting the manager deletes its instances and closes every library exactly once after the last use of its code, and the manager can then be created anew.',
 ['inputs', 'faults', 'histories'], 'every combination of the stated kinds of files and ways of initializing, every name of the stated length',
 'No test loads a plugin.', ['icl_core_plugin/PluginManager.h', 'icl_core_plugin/PluginManagerBase.cpp', 'icl_core_plugin/PluginManagerBase.h', 'icl_core_plugin/Plugin.h'], [('loading, instantiation and release', 'PluginManager::loadHandle, loadPlugins, closePluginHandle')])
C_ = lambda *f: ['icl_core/' + x for x in f]
prop('C15', 'Stamped data keeps its value and its header',
 'A default header has an empty coordinate system, an invalid time stamp, sequence number zero and DSIN zero, and every other header is what it was made from. Stamped data gives back data and header through every way of access, copies are independent and complete, and printing shows number, time, DSIN, frame and the data (or its size if it cannot be printed).',
 ['inputs'], 'every value, sequence number and coordinate system of the stated length, time stamps of every kind',
 'Tests use a few values.', C_('DataHeader.h', 'DataHeader.cpp'), [('header and data of a stamped value', 'Stamped')])
prop('C35', 'Resource names are split into exactly their parts',
 'Exactly the texts [scheme://]specifier[#anchor][?key=value[&key=value...]] (with the words the grammar allows) are accepted, and an accepted text is split into scheme type and lower-case name, specifier, anchor and queries in order, which print as the parts they are. Nothing is left over from a text parsed before.',
 ['inputs', 'histories'], 'every text of the stated characters and length',
 'Tests parse a dozen fixed names.', C_('SchemeParser.cpp', 'SchemeParser.h'), [('grammar and actions', 'SchemeParser::parseScheme')])
prop('C36', 'A key-value directory finds exactly what was inserted',
 'insert() tells new keys from replaced ones, get() and hasKey() find the last value of exactly the inserted keys and leave the result alone otherwise. A query gives every entry whose whole key matches the regular expression exactly once, sorted by key and with its match groups, then none; after a reset it does so again.',
 ['inputs', 'histories'], 'every history of insertions and every subset of entries of the stated size',
 'No test iterates over a directory.', C_('KeyValueDirectory.h', 'KeyValueDirectory.hpp'), [('iteration over matching entries', 'KeyValueDirectoryIterator::next')])
prop('C37', 'A singleton is constructed once and destroyed once',
 'The first use of a singleton constructs its instance, every use (from any thread, with a locking threading model) gives that one completely constructed instance, and its destruction is scheduled once and destroys it. After that, use is refused by the default lifetime policy and makes a new instance if the policy allows it; this holds for each creation policy.',
 ['schedules', 'histories'], 'every schedule of three threads within the stated preemptions',
 'Tests use one policy in one thread.', C_('Singleton.h', 'Singleton.hpp', 'SingletonCreationPolicies.h', 'SingletonLifetimePolicies.h', 'SingletonThreadingModels.h'), [('double-checked creation', 'Singleton::instance')])
prop('C38', 'Container wrappers behave as the containers they wrap',
 'A class made with the vector-wrapper macros gives the same elements, positions and exceptions as the std::vector it wraps, for every operation, without touching other wrappers; List, Vector, Map, Multimap, Set and Queue hold what they are made from and copies are independent. Conversions cast unless specialized, and memset/memcpy write exactly the given bytes.',
 ['inputs', 'histories'], 'every element value and every sequence of operations of the stated length',
 'Tests call each function once.', C_('VectorWrapper.h', 'List.h', 'Vector.h', 'Map.h', 'Multimap.h', 'Set.h', 'Queue.h', 'Convert.h', 'os_posix_mem.cpp', 'RemoveMemberPointer.h'), [('forwarding of every operation', 'ICL_CORE_WRAP_VECTOR_BODY')])
