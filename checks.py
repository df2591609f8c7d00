import os
COMMON_ASSUMPTIONS = [
 'memory allocation does not fail', 'integers wrap as two\'s complement machine words (the build uses no overflow traps); every load, store and free is checked for being inside a live object',
 'the C and C++ run-time library is executed from models (models/libc.c, models/stdcxx.cpp: C locale, iostreams of the narrow character type) or from its real header templates', 'encoding is taken from clang 18 -O1 front-end IR with the definitions of the real build plus libstdc++ assertions; the shipped binary is built by gcc -O2']
CHECKS = {}
CHECKS['C01'] = dict(harnesses=[dict(file='ring.cpp', entries=['ring_ops', 'ring_huge_skip', 'ring_capacity', 'ring_copy', 'ring_default'])],
  bounds='capacity 1..4 (resize to 0..5), every rotation and fill level, 2 (thorough 3) further arbitrary operations, all 32-bit elements, all 64-bit counts and positions')
CHECKS['C02'] = dict(harnesses=[dict(file='ring.cpp', entries=['ring_ranges', 'ring_iter'])],
  bounds='capacity 1..4, every rotation and fill level, all 32-bit elements, every pair of iterator positions, all 64-bit publish counts')

CHECKS['C03'] = dict(harnesses=[dict(file='util_containers.cpp', entries=['array2d_index', 'array2d_shape'])], bounds='width and height 1..4 (thorough 6) for indexing, 0..3 for reshaping, all 32-bit elements')
CHECKS['C04'] = dict(harnesses=[dict(file='util_containers.cpp', entries=['unionfind_eq', 'unionfind_forest', 'unionfind_range', 'unionfind_chain'])], bounds='up to 4 (thorough 5) initial elements, 3 (thorough 4) operations (merge, query, grow), all 64-bit out-of-range arguments, every sequence of 5 (thorough 6) effective merges over 6 (7) elements up to renaming, one 16-element chain family')
CHECKS['C05'] = dict(harnesses=[dict(file='util_containers.cpp', entries=['stack_ops', 'set_relation', 'set_relation_desc', 'bits_u8', 'bits_u16', 'bits_u32', 'bits_i32', 'bits_u64', 'finalizable', 'scope_end', 'expected_type']), dict(file='zbuf.cpp', entries=['zbuf_less','zbuf_greater'])], bounds='4 stack operations, sets over 3 (thorough 4) symbolic ordered values, all values of each integer width, 4 buffer updates over 3 cells, 3 guard operations')
STRL = ['icl_core/StringHelper.cpp', 'icl_core/EnumHelper.cpp', 'icl_core/os_string.cpp', 'icl_core/os_posix_string.cpp']
CHECKS['C06'] = dict(harnesses=[dict(file='strings.cpp', libs=STRL, entries=['str_split', 'str_split_any', 'str_split_empty_delim', 'str_join', 'str_trim', 'str_case', 'str_pad', 'str_stringify', 'os_strings'])], bounds='split: texts up to 5 (thorough 6) bytes over a 3-letter alphabet with 1..2 byte delimiters and up to 3 arbitrary bytes with 1 arbitrary delimiter; trim: up to 5 (thorough 6) arbitrary bytes; case/pad/join: up to 3 bytes; numbers: |x| < 10000')
CHECKS['C07'] = dict(harnesses=[dict(file='strings.cpp', libs=STRL, entries=['enum_lookup'])], bounds='names up to 3 arbitrary bytes against one 5-entry table with shared prefixes and an empty name')
CHECKS['C08'] = dict(harnesses=[dict(file='strings.cpp', libs=STRL, entries=['seq_u8','seq_u8_odd','seq_u16','seq_u16_small','seq_u32','seq_min','seq_min32'])], bounds='all pairs of values; number types of 8, 16 and 32 bits with 7 ranges including ranges with a non-zero minimum')
TIMEL = ['icl_core/TimeBase.cpp', 'icl_core/TimeSpan.cpp', 'icl_core/TimeStamp.cpp', 'icl_core/os_string.cpp', 'icl_core/os_posix_string.cpp', 'icl_core/os_posix_time.cpp']
CHECKS['C09'] = dict(harnesses=[dict(file='times.cpp', libs=TIMEL, entries=['time_ctor','time_stamp_ctor','time_span_arith','time_abs','time_stamp_arith','time_stamp_diff','time_span_order','time_stamp_order'])], bounds='|seconds| < 2^60, all 32-bit nanosecond values for construction, all normalized values for arithmetic and ordering')
CHECKS['C10'] = dict(harnesses=[dict(file='times.cpp', libs=TIMEL, entries=['time_units','time_to_units','time_to_units_wide','time_fields','time_print_sec','time_print_ms','time_print_us','time_print_ns'])], bounds='units: |v| < 2^50; reading back: |seconds| <= 9000000; fields: 0 <= seconds <= 2^40; printing: |seconds| <= 20000 (thorough 400000) and, with a sub-second part, |seconds| <= 9 (thorough 75) with one non-zero sub-second unit')
CHECKS['C11'] = dict(harnesses=[dict(file='isotime.cpp', libs=TIMEL, entries=['iso_date', 'iso_time', 'iso_nsec', 'iso_parse', 'iso_frac', 'iso_any', 'ptime_conv', 'span_scale'])],
  bounds='every day of 2 years (thorough 12, between 1970 and 2400), every second of one day, every nanosecond of one second; parsing of every cut of a date text with any two digits in one field, fractions of 0..10 arbitrary digits; formatting for 7 windows of 3601 seconds spread over the 64-bit range; ptime up to 2^52 microseconds; scaling by powers of two for few seconds and 32 (all paths of) sub-second values')
LOCKL = ['icl_core_thread/%s.cpp' % f for f in ('Mutex', 'MutexImplPosix', 'RWLock', 'RWLockImplPosix', 'Sem', 'SemaphoreImplPosix', 'ScopedMutexLock', 'ScopedRWLock')] + ['icl_core']
CHECKS['C12'] = dict(harnesses=[dict(file='locks.cpp', mt=True, libs=LOCKL, entries=['mutex_excl', 'scoped_mutex_excl', 'mutex_held', 'mutex_timed_race', 'rwlock_excl', 'scoped_rw_excl', 'rwlock_held', 'spin_excl'])],
  bounds='2 threads (3 for scoped locks) of one critical section each with up to 3 (thorough 4) preemptions, at synchronization calls and shared accesses, every choice of locking call; one holder and one contender with every time in a 2^30 s range and every time span below 2^20 s')
CHECKS['C13'] = dict(harnesses=[dict(file='locks.cpp', mt=True, libs=LOCKL, entries=['sem_count', 'sem_large', 'sem_handover', 'sem_limit'])],
  bounds='initial count 0..2 and every history of 3 (thorough 4) operations with one symbolic time limit below 2^20 s; 2..3 threads with up to 3 (thorough 4) preemptions')
THRL = ['icl_core_thread', 'icl_core']
CHECKS['C14'] = dict(harnesses=[dict(file='threads.cpp', mt=True, libs=THRL, entries=['thread_once', 'thread_stop', 'thread_stop_other', 'thread_destroyed', 'thread_not_created', 'thread_limit'])], bounds='1..2 runs of a thread with up to 2 (thorough 3) preemptions at synchronization calls and accesses to the thread object; every way of waiting; body time and time limit symbolic below 2^20 s')
CHECKS['C16'] = dict(harnesses=[dict(file='threads.cpp', mt=True, libs=THRL, entries=['active_order', 'active_two'])], bounds='1..2 (thorough 3) operations of one client, 3 operations of two clients, one stop request, up to 2 (thorough 3) preemptions at synchronization calls and queue accesses')
CHECKS['C17'] = dict(harnesses=[dict(file='threads.cpp', mt=True, libs=THRL, entries=['periodic_beat', 'periodic_change', 'periodic_emulated'])], bounds='2 runs of 2 (thorough 3) cycles, one change of period, every period from 1 ms below 2^20 s, every start time; bodies which take no time (timer) or a symbolic whole number of microseconds (emulation)')
CHECKS['C18'] = dict(harnesses=[dict(file='sha2.cpp', opts=dict(time=120), entries=['sha224_standard', 'sha256_standard', 'sha384_standard', 'sha512_standard', 'sha256_padding', 'sha512_padding', 'sha256_long', 'sha512_long', 'sha256_pieces', 'sha512_pieces', 'sha224_hex', 'sha256_hex', 'sha384_hex', 'sha512_hex'])],
  bounds='every message of the sampled lengths around the block and padding boundaries up to 2 blocks; every split into two pieces at block boundaries +-1; every value of each digest word')
CFGL = ['icl_core_config', 'icl_core']
CHECKS['C19'] = dict(harnesses=[dict(file='attrtree.cpp', libs=CFGL, ldlibs=['-ltinyxml', '-lz'], entries=['tree_history', 'tree_names', 'tree_changed', 'tree_subnodes'])], bounds='3 (thorough 4) operations (set, clear, remove, default, copy, create) on 6 paths over 2 names and 2 levels with arbitrary one-byte values; names of 1..2 arbitrary bytes; up to 3 attached trees named by 1..2 characters of {a,0,1,9}')
CHECKS['C20'] = dict(harnesses=[dict(file='attrtree.cpp', libs=CFGL, ldlibs=['-ltinyxml', '-lz'], entries=['tree_save_load', 'tree_comments', 'tree_lines', 'tree_any_text', 'tree_any_bytes', 'tree_hostile'])], bounds='7 tree shapes up to depth 5 with 2 symbolic one-byte names and values of 1..2 arbitrary bytes, 5 block styles; comments of 1..3 arbitrary bytes; 6 forms of text; every text of up to 7 (thorough 8) characters of the syntax alphabet and up to 6 (7) arbitrary bytes; lines around the 1998 byte limit')
CHECKS['C21'] = dict(harnesses=[dict(file='filepath.cpp', libs=CFGL, ldlibs=['-ltinyxml', '-lz'], entries=['path_normal', 'path_any', 'path_parts', 'path_env'])], bounds='every text of up to 7 (thorough 9) characters of {/ . a \\\\} and of up to 3 (4) arbitrary bytes; names of up to 6 (8) characters below two current directories; texts of up to 5 (7) and values of up to 4 (6) characters of {$ { } A}')
CHECKS['C22'] = dict(harnesses=[dict(file='cmdline.cpp', libs=CFGL, ldlibs=['-ltinyxml', '-lz'], entries=['cmd_parse', 'cmd_parse3', 'cmd_parse4', 'cmd_short', 'cmd_any'])], bounds='every command line of 2 (thorough 3) arguments of up to 4 characters of {- a b p =}, of 3..4 arguments of 7 forms, of one argument of up to 3 arbitrary bytes; strict and relaxed checking, with and without cleaning, extra and positional parameters')
CHECKS['C23'] = dict(harnesses=[dict(file='configvals.cpp', libs=CFGL, ldlibs=['-ltinyxml', '-lz'], entries=['conf_store', 'conf_numbers', 'conf_bool', 'conf_batch', 'conf_list', 'conf_list_members', 'conf_observers', 'conf_observer_keys', 'conf_precedence', 'conf_missing_file'])], bounds='3 (thorough 4) assignments to 4 keys with arbitrary one-byte values and 5 search patterns; numbers of up to 4 (5) characters of {0 1 7 9 x a - space}; truth values of up to 2 arbitrary bytes and every capitalization of the 6 names; texts of up to 3 arbitrary bytes; lists of up to 2 elements; 3 changes seen by 3 observers, keys with the characters of search patterns; every combination of file, command line, override and default')
LOGL = ['icl_core_logging', 'icl_core_config', 'icl_core']
LOGLD = ['-ltinyxml', '-lz', '-lboost_filesystem', '-lboost_system']
LOGH = lambda *e: dict(file='logging.cpp', mt=True, libs=LOGL, ldlibs=LOGLD, entries=list(e))
CHECKS['C24'] = dict(harnesses=[LOGH('log_format', 'log_format_time', 'log_format_default', 'log_format_any', 'log_format_bytes', 'log_format_long', 'log_format_change', 'log_format_config')], bounds='formats of 2 (thorough 3) pieces: the 9 fields with each prefix or bracket and width, and arbitrary one-byte texts; formats of up to 4 (5) characters of {~ C ( 1 x} and 2 arbitrary bytes; texts of up to 250 bytes; fields of 0..1 and texts of 0..2 arbitrary bytes; every nanosecond of one second')
CHECKS['C25'] = dict(harnesses=[LOGH('log_levels', 'log_outputs', 'log_fresh', 'log_nested', 'log_pool', 'log_long_fields', 'log_long_fields_stream', 'log_level_text')], bounds='every combination of the levels of two outputs, the stream and the message; 3 (thorough 4) operations on two outputs; up to 40 open messages; fields of 14 sizes around the buffer limits; level names of up to 7 arbitrary bytes')
CHECKS['C26'] = dict(harnesses=[LOGH('log_int', 'log_int_wide', 'log_double', 'log_text', 'log_printf', 'log_printf_long', 'log_full')], bounds='every 8 and 16 bit number, windows of 16 around the limits of the wider types, 10 real numbers; texts of 0..4 arbitrary bytes; 2 texts of 9 sizes around the buffer limit')
CHECKS['C27'] = dict(harnesses=[LOGH('log_async', 'log_async_race', 'log_async_two', 'log_sync_two', 'log_signal', 'log_thread')], bounds='1..2 threads, 3 messages, up to 2 (thorough 3) preemptions at synchronization calls')
CHECKS['C28'] = dict(harnesses=[LOGH('log_threads', 'log_threads_pool', 'log_threads_fields', 'log_threads_detach')], bounds='2 threads, 3 (thorough 4) messages, up to 2 (thorough 3) preemptions at synchronization calls')
LOGF = lambda *e: dict(file='logfile.cpp', mt=True, libs=LOGL, ldlibs=LOGLD, entries=list(e))
CHECKS['C29'] = dict(harnesses=[LOGF('file_plain', 'file_rotate', 'file_zip', 'file_online')], bounds='every second of a day, 2 (thorough 3) days, old file or none, plain or online zip, 1 (thorough 2) failing file operations; files of 6 sizes around the copy buffer')
CHECKS['C30'] = dict(harnesses=[LOGF('udp_message')], bounds='texts of 1..2 arbitrary bytes, object names of 1; 1 (thorough 2) failing network calls')
CHECKS['C31'] = dict(harnesses=[LOGH('mgr_config', 'mgr_two', 'mgr_option', 'mgr_default', 'mgr_global')], bounds='one output with every choice of name, level and streams, two outputs with different levels, 6 command line levels, 2 streams, 3 message levels')
CHECKS['C32'] = dict(harnesses=[dict(file='perfmon.cpp', mt=True, libs=['icl_core_performance_monitor'] + LOGL, ldlibs=LOGLD, entries=['perf_stats', 'perf_average', 'perf_summary', 'perf_enable', 'perf_timer', 'perf_chain', 'perf_static'])], bounds='up to 3 (thorough 4) values: any double but NaN for median and extremes, 8-bit integers for the average; 3 (4) enabling operations over 3 prefixes; timers: 4 starting offsets, 7 durations each (a finite case analysis)')
CHECKS['C33'] = dict(harnesses=[dict(file='dispatch.cpp', mt=True, libs=['icl_core_dispatch/Operation.cpp', 'icl_core_dispatch/CallbackOperation.cpp', 'icl_core_dispatch/PeriodicDispatchThread.cpp', 'icl_core_thread', 'icl_core'], entries=['dispatch_order', 'dispatch_add', 'dispatch_add_inside', 'dispatch_destroy', 'dispatch_callback'])], bounds='1..3 operations, 2 (thorough 3) periods of every length from 1 ms, every start time; adding while the thread runs with up to 2 (thorough 3) preemptions at synchronization calls and accesses to the queue')
CHECKS['C34'] = dict(harnesses=[dict(file='plugin.cpp', defs=['-I' + os.path.dirname(os.path.abspath(__file__)) + '/harness/fakefs'], libs=['icl_core_plugin/PluginManagerBase.cpp', 'icl_core_plugin/Logging.cpp', 'icl_core'], ldlibs=LOGLD, entries=['plugin_load', 'plugin_same_name', 'plugin_paths', 'plugin_static', 'plugin_names'])], bounds='2 files of 7 kinds in a directory or its subdirectory, with every way of initializing; 3 search paths out of 4; 3 operations on 2 names of static plugins; names of 1..2 arbitrary bytes')
CHECKS['C35'] = dict(harnesses=[dict(file='scheme.cpp', libs=['icl_core/SchemeParser.cpp'], entries=['scheme_any', 'scheme_name', 'scheme_query', 'scheme_key', 'scheme_anchor', 'scheme_bytes', 'scheme_again'])], bounds='every text of up to 7 (thorough 9) characters of {a : / ? # = & -}; queries, keys and anchors of up to 6 (7) of their own 5..7 characters behind valid parts; 1..2 arbitrary bytes at each place; every two of 7 texts one after the other')
MISC = lambda *e: dict(file='misc.cpp', libs=['icl_core/DataHeader.cpp'], ldlibs=['-lboost_date_time', '-lboost_regex'], entries=list(e))
CHECKS['C15'] = dict(harnesses=[MISC('header_values', 'header_stamped', 'header_print')], bounds='all 32-bit values and sequence numbers, coordinate systems of up to 2 arbitrary bytes, 4 time stamps including invalid and infinite ones')
CHECKS['C36'] = dict(harnesses=[MISC('kv_map', 'kv_find')], bounds='3 (thorough 4) insertions of every 32-bit value under 3 keys, asked keys of up to 2 arbitrary bytes; every subset of 5 keys with 7 queries')
CHECKS['C37'] = dict(harnesses=[MISC('singleton_new', 'singleton_malloc', 'singleton_static', 'singleton_keep', 'singleton_lock', 'singleton_again')], bounds='each policy, three uses')
CHECKS['C37']['harnesses'].append(dict(file='singleton_mt.cpp', mt=True, libs=[], entries=['singleton_threads', 'singleton_threads_malloc'])); CHECKS['C37']['bounds'] += '; three threads with up to 3 (thorough 4) preemptions at locks, barriers and during construction'
CHECKS['C38'] = dict(harnesses=[dict(file='containers.cpp', libs=['icl_core/os_posix_mem.cpp'], entries=['wrap_ops', 'wrap_alias', 'wrap_make', 'cont_seq', 'cont_assoc', 'cont_queue', 'conv', 'mem_ops'])], bounds='wrapped vectors of up to 3 arbitrary 64-bit elements and 2 (thorough 3) of 12 operations at every position; other containers with 3 elements; memory blocks of up to 4 bytes')
