"""What is run for each property."""
ASSUMPTIONS = [
    'GLib 2.80, the C library, the kernel and the sanitizer runtimes behave as documented',
    'the reference models in /verif/drivers say what the property statement says',
]
# Functions of the C library (and of this library) redirected to the monitors
WRAPS = {}
PROPS = {}

# Those which take longer than the rest
FACTOR = dict(C10=1.5, C13=2, C14=1, C27=1.5, C28=2, C29=1.5, C34=2, C09=3, C01=3, C03=3)
def P(pid, driver, rule, need, dbg, rel, extra=None, enumerated=False, **kw):
    """dbg, rel: (quick, thorough) numbers of cases"""
    runs = [dict(driver=driver, prop=pid, variant='dbg', quick=dbg[0], thorough=dbg[1]),
            dict(driver=driver, prop=pid, variant='rel', quick=rel[0], thorough=rel[1],
                 base=0 if enumerated or kw.get('compare') else 1 << 40)]
    # Not sanitized: memory is reused at once
    if driver != 'solib': runs.append(dict(driver=driver, prop=pid, variant='o3', quick=dbg[0], thorough=dbg[1], base=1 << 42))
    runs += extra or []
    if 'large' in need: rule += ' A few of the cases involve sizes from 32K to 128K.'
    for r in runs: r['quick'] = int(r['quick'] * FACTOR.get(pid, 4))
    PROPS[pid] = dict(runs=runs, rule=rule, need=need, **kw)

P('C01', 'datapack', 'Each case encodes 24 values as signed and as unsigned with every size from the minimal one to 10. '
  'The first 1024 cases are all powers of two +-12, the rest small values in sequence and random bit patterns. '
  'Every case is non-trivial; distinct by the values.',
  ['signed_roundtrips', 'unsigned_roundtrips', 'ssize_1', 'ssize_9', 'ssize_10'], (16000, 800000), (32000, 1600000), enumerated=True)
P('C02', 'datapack', 'The first 513 cases decode all one and two byte sequences and 8..11 byte sequences with every first byte; '
  'the rest are 24 random, extreme, truncated, extended or mutated sequences each. Distinct by the decoded bytes.',
  ['signed_ok', 'signed_ok_9_10', 'signed_rejected', 'unsigned_ok', 'unsigned_ok_9_10', 'unsigned_rejected'], (60000, 4000000), (120000, 8000000), enumerated=True)
P('C03', 'datapack', 'Each case round trips 4 entries and decodes 10 generated (valid, hostile or random) buffers. Distinct by tags, sizes and bytes.',
  ['tlv_roundtrips', 'tlv_roundtrips_large', 'tlv_decoded', 'tlv_rejected'], (8000, 500000), (16000, 1000000))
P('C04', 'datapack', 'Each case decodes 6 generated buffers against generated tag lists. Non-trivial if at least one of them had a known tag; distinct by tag count, data and flags.',
  ['decoded', 'error', 'duplicate', 'unknown', 'more_than_31_tags', 'bit_30'], (80000, 6000000), (160000, 12000000))
ring_rule = ('Each case is a sequence of 20..400 random operations on one ring buffer with random capacity, maximum and free function '
  '(15% of the cases build up a large wrapped-around ring first), checked against a double-ended queue after every operation. Distinct by the operation sequence.')
P('C05', 'ring', ring_rule, ['large', 'put_again', 'put_ok', 'put_full', 'get', 'get_empty', 'flatten', 'compact', 'reserve', 'can_put', 'dropped', 'dropped_by_max'], (60000, 4000000), (120000, 8000000))
P('C06', 'ring', ring_rule, ['large', 'put_again', 'freed', 'dropped', 'dropped_by_max', 'clear', 'set_free_func', 'left_at_last_unref', 'put_full'], (60000, 4000000), (120000, 8000000))
hist_rule = ('Each case is a sequence of 30..700 operations (add, query, clear, clock movement) on one history with random limits and one of 7 classes of values, '
  'checked against an explicit list of samples. Non-trivial if there was more than one live sample; distinct by the operation sequence.')
P('C07', 'history', hist_rule, ['large', 'negative_time', 'forever', 'add', 'expired', 'evicted', 'replaced', 'clear', 'clock_behind_newest', 'ticking_clock', 'real_clock'], (60000, 4000000), (120000, 8000000))
P('C08', 'history', hist_rule, ['large', 'negative_time', 'forever', 'median_multi', 'median_single', 'median_default'], (80000, 6000000), (160000, 12000000))
iq_rule = ('Each case is a history of 10..60 operations on one queue (add in all forms, cancel, query, reference counting, main loop iterations); '
  'the callbacks and free functions carry scripts operating on the same queue, up to 3 levels deep. An online checker follows every callback. '
  'Non-trivial if more than one item was added; distinct by the sequence of operations and events.')
P('C11', 'idlequeue', iq_rule, ['add', 'two_queues', 'nested', 'iterate_large', 'add_other_context', 'add_from_callback', 'run', 'freed', 'iterations', 'contains', 'cancel_from_callback'], (60000, 4000000), (120000, 8000000))
P('C12', 'idlequeue', iq_rule, ['two_queues', 'nested', 'large', 'cancel_first', 'cancel_middle', 'cancel_last', 'cancel_nothing', 'cancel_from_callback', 'cancel_all', 'cancel_all_from_callback',
  'last_unref', 'last_unref_from_callback', 'freed_by_death_in_callback', 'contains'], (60000, 4000000), (120000, 8000000))
ip_rule = ('Each case is a history of 10..70 operations on up to 6 pools (own, default, shared) with items of all 10 kinds, release functions with scripts of their own, '
  'up to 4 main contexts and 64 event sources belonging to somebody else; ')
P('C09', 'idlepool', ip_rule + 'every 4th case uses several contexts. Non-trivial if more than one item was added; distinct by the sequence of operations and releases.',
  ['add', 'busy_context', 'repeated', 'null_pointer', 'nested_loop', 'long_list', 'add_from_release', 'add_shared_item', 'released', 'iterations', 'drain', 'destroy', 'last_unref', 'last_unref_from_release', 'ref_unref_from_release', 'nested_drain', 'add_nothing', 'contents_checked'],
  (30000, 2000000), (60000, 4000000))
P('C10', 'idlepool', ip_rule + 'every 8th case runs 1..3 threads with or without their own contexts next to the main loop, every 16th one destroys a shared pool which has items left. Non-trivial if more than one item was added; distinct by the sequence of operations and releases.',
  ['shared_new', 'shared_get', 'shared_gone', 'add_own_context', 'iterations_own_context', 'drain_own_context', 'context_died_with_items', 'foreign_checks', 'thread_cases',
   'thread_released_own_ctx', 'thread_released_at_exit', 'dying', 'get_while_dying', 'kept'], (24000, 1500000), (48000, 3000000))
WRAPS['inotify'] = ['inotify_init', 'inotify_init1', 'inotify_add_watch', 'inotify_rm_watch']
in_rule = ('Each case is a history of 8..32 steps: watches (on directories and files, random masks) and handlers come and go, also from inside of handlers, '
  'and batches of 1..200 file operations are made in between. Every event reported by the kernel to an independent inotify descriptor is matched with the handler calls. ')
P('C13', 'inotify', in_rule + 'Non-trivial if there was a handler; distinct by the sequence of operations.',
  ['kernel_events', 'large_watch_descriptors', 'delivered', 'file_op_in_handler', 'queue_overflow', 'mask_with_flags', 'oneshot', 'symlink', 'watch_refused_by_kernel', 'delivered_with_cookie', 'delivered_longest_name', 'remove_in_handler', 'destroy_in_handler', 'unref_in_handler', 'destroy_all_in_handler', 'large_batches', 'watched_dir_removed', 'callback_new', 'descriptor_0', 'high_descriptor'],
  (4800, 160000), (4800, 160000), assumptions=['the kernel reports the same events to both inotify descriptors'])
P('C14', 'inotify', in_rule + 'Kernel calls fail at random (inotify_init, inotify_add_watch, read), open descriptors are counted after each step. Non-trivial if there was a handler; distinct by the sequence of operations.',
  ['fault_injected', 'watch_failed', 'watch_refused_by_kernel', 'read_error_injected', 'fd_checks', 'dropped_everything', 'watch_freed', 'callback_free', 'delivered', 'descriptor_0', 'high_descriptor'],
  (4800, 160000), (4800, 160000), level='fault_enumeration')
P('C15', 'intarray', 'Each case is a sequence of 20..220 operations on one or two int arrays with values from one of 4 alphabets (few values, extreme values, all), '
  'checked against an ideal vector after each of them. Non-trivial if an array had more than one element; distinct by the operation sequence.',
  ['equal_values', 'large', 'large_vals', 'append_vals', 'prepend_vals', 'insert', 'insert_vals', 'insert_beyond', 'grow', 'shrink', 'found', 'not_found', 'removed', 'removed_fast', 'removed_several', 'removed_several_fast',
   'out_of_range', 'clipped_range', 'sort_ascending', 'sort_descending', 'keep_data', 'free_to_ints', 'free_shared', 'non_last_unref'], (20000, 1200000), (40000, 2400000))
ints_rule = ('Each case creates arrays in 7 different ways, derives sub-ranges (of sub-ranges), takes and drops references in any order and compares triples of arrays; '
  'contents of all arrays and the calls of free functions are checked after each step. Non-trivial if there was more than one array; distinct by values and operations.')
P('C16', 'ints', ints_rule, ['large', 'long_chain', 'huge', 'sub_range', 'sub_sub_range', 'clipped', 'empty_sub_range', 'equal_pairs', 'different_pairs', 'prefixes', 'relations', 'found', 'not_found', 'hash_tables', 'empty_not_owned'],
  (60000, 4000000), (120000, 8000000))
P('C17', 'ints', ints_rule, ['large', 'long_chain', 'static', 'custom', 'custom_null_data', 'taken', 'copied', 'inside_of_block', 'from_array', 'freed', 'unref_to_data', 'unref_to_data_last', 'empty_not_taken', 'empty_not_owned', 'sub_sub_range'],
  (60000, 4000000), (120000, 8000000))
WRAPS['log'] = ['syslog', 'vsyslog', 'openlog', 'closelog', 'time', 'clock_gettime', 'gettimeofday', 'g_get_real_time', 'g_date_time_new_now_local']
P('C18', 'log', 'Each case builds a tree of up to 6 modules (or a chain of up to 80) and sends 20..60 messages through all functions and macros while levels, flags and back ends of the modules change; a handler may send another message before it looks at its own. '
  'Non-trivial if at least one message was delivered; distinct by the configuration and level of each message.',
  ['odd_levels', 'inherited', 'disabled_on_the_path', 'delivered_legacy', 'delivered_global', 'delivered_own', 'hidden_name', 'not_delivered', 'gutil_log', 'gutil_logv', 'macros', 'asserts', 'deep', 'nested', 'errno_text', 'positional_arguments', 'text_in_format', 'many_arguments'], (16000, 1000000), (32000, 2000000))
P('C19', 'log', 'Each case prints 10..25 messages of 0..70000 bytes to stdout or stderr, syslog and GLib with random names, levels, timestamp formats and times; the output is captured and compared (the syslog and GLib handlers may print something else before they look at their arguments); every 23rd case compares the thread ids of the process and its child. '
  'Every case is non-trivial; distinct by the sequence of operations.',
  ['stdout', 'stderr', 'syslog', 'glib', 'with_timestamp', 'with_tid', 'long_messages', 'format_set', 'format_reset', 'format_overflow', 'unconvertible', 'child_process', 'nested', 'errno_text', 'positional_arguments', 'text_in_format', 'many_arguments'], (8000, 400000), (16000, 800000))
P('C20', 'log', 'Each case applies 10..30 options and types (valid, nearly valid and invalid) to up to 6 (sometimes 60) modules with similar names, every 61st one starts a process with a random environment. '
  'Every case is non-trivial; distinct by the sequence of operations.',
  ['module_option', 'default_option', 'refused_option', 'type_selected', 'refused_type', 'routed', 'custom', 'descriptions', 'many_modules', 'env_processes', 'env_valid', 'env_invalid'], (16000, 600000), (24000, 1000000))
P('C21', 'log', 'Each case dumps 3 lines of 0..39 bytes and 3 blocks of up to 70000 bytes, every 400th one a block around 64K, every 256th one a block of 4G. Every case is non-trivial; distinct by the dumped bytes and settings.',
  ['lines', 'short_lines', 'dumps', 'disabled_dumps', 'large_dumps', 'huge_dumps', 'lines_of_large_blocks', 'macros'], (16000, 1000000), (32000, 2000000))
P('C34', 'log', 'Each case runs 2..8 threads which print 50..250 messages each, the captured output is matched with what was sent. Non-trivial if the output of the threads was interleaved; distinct by the configuration and the number of switches.',
  ['lines', 'thread_switches', 'interleaved_cases', 'with_tid', 'stdout', 'stderr', 'syslog', 'glib', 'dumps'], (400, 20000), (800, 40000),
  extra=[dict(driver='log', prop='C34', variant='tsan', quick=100, thorough=5000)])
P('C22', 'misc', 'The first 8192 cases decode all 65536 pairs of characters; the rest are 8 blocks of random bytes each, converted to hex and back, with the case of digits mixed and with one mutation. Every case is non-trivial; distinct by the bytes.',
  ['large', 'pairs', 'encoded', 'accepted', 'rejected', 'whole_strings'], (24000, 1500000), (48000, 3000000), enumerated=True)
P('C23', 'misc', 'Each case parses 16 strings in bases 0 and 2..36 with each of the four functions: numbers around all boundaries, with signs, prefixes, leading zeros and white space, mutated and random ones. Every case is non-trivial; distinct by strings and bases.',
  ['long_spaces', 'gutil_parse_int', 'gutil_parse_uint', 'gutil_parse_int64', 'gutil_parse_uint64', 'gutil_parse_int_out_of_range', 'gutil_parse_uint_out_of_range', 'gutil_parse_int64_out_of_range', 'gutil_parse_uint64_out_of_range', 'not_a_number'],
  (40000, 2500000), (80000, 5000000))
P('C24', 'misc', 'Each case makes 10 groups of operations on related blocks (prefixes, suffixes, one bit different) with exact bounds at random alignments, NULL and empty ones included; every 199th one compares blocks of 4G, four of them (o3) copy such blocks. Every case is non-trivial; distinct by the contents of the blocks.',
  ['large', 'data', 'copies', 'variants', 'conversions', 'gbytes', 'xor', 'xor_long', 'concat', 'concat_many', 'concat_ref', 'ranges', 'skipped', 'huge', 'huge_copies', 'true_results', 'false_results'], (40000, 2500000), (80000, 5000000))
P('C25', 'objv', 'Each case is a sequence of 20..140 operations on up to 5 object vectors sharing a few objects; contents of all vectors and the reference count of every object are checked after each of them. Non-trivial if a vector had more than one element; distinct by the operation sequence.',
  ['large', 'new', 'new_many', 'add', 'insert', 'insert_beyond', 'append', 'copy', 'free', 'removed', 'remove_all_several', 'remove_first_of_several', 'nothing_to_remove', 'removed_at', 'out_of_range', 'found', 'not_found', 'found_several', 'equal_vectors', 'different_vectors', 'null_object'],
  (24000, 1500000), (48000, 3000000))
strv_rule = 'Each case is a sequence of 20..120 operations on up to 4 string vectors with strings from one of 4 alphabets, arguments often being strings of the vector itself; contents of all vectors are checked after each of them. Non-trivial if a vector had more than one element; distinct by the operation sequence.'
P('C26', 'strv', strv_rule, ['large', 'add', 'addv', 'addv_many', 'addv_300', 'own_string', 'kept', 'removed_at', 'out_of_range', 'removed', 'remove_all_several', 'remove_first_of_several', 'nothing_to_remove', 'null_string', 'found', 'not_found', 'found_several', 'equal_vectors', 'different_vectors'],
  (40000, 2500000), (80000, 5000000))
P('C27', 'strv', strv_rule, ['large', 'far_duplicates', 'sort', 'bsearch_found', 'bsearch_not_found', 'remove_dups', 'duplicates_removed', 'strip', 'stripped', 'stripped_blank'], (24000, 1500000), (48000, 3000000))
P('C32', 'misc', 'Each case disconnects random subsets of up to 20 signal handlers, removes and clears random ones of up to 16 event sources of several kinds (also from inside of their callbacks), references and releases an object and frees a vector. Every case is non-trivial; distinct by the sequence of operations.',
  ['large', 'large_arrays', 'disconnected', 'disconnect_calls', 'disconnected_in_handler', 'blocked_handlers', 'source_removed', 'source_cleared', 'source_zero', 'source_run', 'source_removes_itself', 'objects', 'vectors', 'vector_elements'], (40000, 2500000), (80000, 5000000))
WRAPS['timenotify'] = ['timerfd_create', 'timerfd_settime']
P('C30', 'timenotify', 'Each case is a history of 10..90 steps (new, ref, unref, handlers added and removed, also from inside of handlers, clock change indications, main loop iterations, failing timerfd calls, hang ups) with a simulated timer. '
  'Non-trivial if a handler was called; distinct by the sequence of operations and calls.',
  ['instances', 'same_instance', 'gone', 'armed', 'create_failed', 'settime_failed', 'indications', 'coalesced', 'dispatched', 'handler_calls', 'handlers', 'removed', 'removed_in_handler', 'last_unref_in_handler', 'hangups', 'null', 'descriptor_0', 'high_descriptor'],
  (16000, 1000000), (32000, 2000000), assumptions=['a cancelled timer descriptor is readable and read() fails with ECANCELED, as documented in timerfd_create(2)'])

WRAPS['weakref'] = []
P('C28', 'weakref', 'Most cases are histories of 20..120 operations on weak references and objects (including what is done while objects are being disposed), checked after each operation; the rest run 2..4 threads with delays injected '
  'in the library, one of which changes and drops the objects, or all of which change it. Non-trivial if an object was obtained from a weak reference; distinct by the sequence of operations.',
  ['objects', 'target_died', 'several_references_cleared', 'new', 'got_null', 'got_object', 'retargeted', 'set', 'ref', 'unref', 'reference_died_first', 'used_from_dispose', 'thread_cases', 'thread_got_object', 'thread_got_null', 'thread_got_previous', 'thread_got_null_while_changing', 'setter_cases', 'set_by_others', 'delay_points'],
  (24000, 1500000), (48000, 3000000),
  extra=[dict(driver='weakref', prop='C28', variant='dly', base=1 << 41, quick=16000, thorough=1000000, shards=4), dict(driver='weakref', prop='C28', variant='tsan', base=1 << 41, quick=4000, thorough=200000, shards=4)])
P('C29', 'threads', 'Each case shares 4..15 objects of all reference counted types between 2..4 threads which take and release up to 60 references each, look at the objects and derive others from them, and finally release the last references at the same time. '
  'Delays are injected into the library (dly, tsan). Every case is non-trivial; distinct by objects and operations.',
  ['objects', 'contents_destroyed', 'unref', 'unref_to_data', 'sub_ranges', 'delay_points', 'type_ring', 'type_history', 'type_pool', 'type_queue', 'type_int_array', 'type_ints', 'type_sub_ints', 'type_weakref', 'type_time_notify', 'type_watch'],
  (1000, 50000), (1000, 50000),
  extra=[dict(driver='threads', prop='C29', variant='dly', base=1 << 41, quick=3000, thorough=200000, shards=4), dict(driver='threads', prop='C29', variant='tsan', base=1 << 41, quick=3000, thorough=200000, shards=4)])
WRAPS['null'] = []
P('C31', 'null', 'Each case makes 30..90 calls with NULL in place of one or more arguments, picked from a table of nearly 250, next to live objects of all types which are checked after every call. Every entry of the table comes first in some case. '
  'Every case is non-trivial; distinct by the sequence of calls.',
  ['calls', 'with_watch'], (24000, 1500000), (48000, 3000000))
WRAPS['solib'] = []
P('C36', 'solib', 'Each case combines 200 version triplets into words and takes them apart, compares the version of the shared library with the headers and makes 30..90 calls through the shared library (see C31); one case of 8 resolves every function and variable declared in the headers. '
  'The debug and the release library built by the Makefile are used. Every case is non-trivial; distinct by triplets and calls.',
  ['symbols', 'specific_versions', 'triplets', 'calls'], (8000, 300000), (8000, 300000))

WRAPS['macros'] = ['g_slice_free1']
P('C37', 'macros', 'Each case uses the macros of the public headers 20..80 times in one of 8 translation units compiled with different configurations, with random levels, flags and back ends of the modules and random operands; calls, evaluations of the arguments and what is delivered are counted. '
  'Every case is non-trivial; distinct by the configuration, macros and operands.',
  ['delivered', 'not_delivered', 'not_compiled_in', 'dumps', 'assert_failed', 'assert_passed', 'assert_not_compiled_in', 'verify', 'aligned', 'cast', 'slice_free', 'not_taken', 'definitions'] + ['unit%d' % i for i in range(1, 9)],
  (30000, 2000000), (60000, 4000000))

# Everything that does not depend on timing
COMPARED = [('datapack', p) for p in ('C01', 'C02', 'C03', 'C04')] + [('ring', 'C05'), ('ring', 'C06'), ('history', 'C07'), ('history', 'C08'), ('idlepool', 'C09'),
    ('idlequeue', 'C11'), ('idlequeue', 'C12'), ('inotify', 'C13'), ('inotify', 'C14'), ('intarray', 'C15'), ('ints', 'C16'), ('ints', 'C17')] + [('log', p) for p in ('C18', 'C19', 'C20', 'C21')] + \
    [('misc', p) for p in ('C22', 'C23', 'C24', 'C32')] + [('objv', 'C25'), ('strv', 'C26'), ('strv', 'C27'), ('weakref', 'C28'), ('timenotify', 'C30'), ('null', 'C31'), ('macros', 'C37')]
PROPS['C35'] = dict(compare=True, technique='runtime monitoring: digests of operations, callbacks and results of the same workloads compared across six builds', need=['asserts', 'library_messages'], rule='Cases of all workloads which do not depend on timing (see the rules of their properties) are run in six builds: with clang, assertions and -O1, without and with all log statements enabled; with clang -O2; '
    'all under sanitizers, and with what the Makefile does for debug and release (gcc -O0 -DDEBUG, gcc -O2) and clang -O3 without sanitizers. Digests of operations, callbacks and results are compared case by case. Non-trivial as defined by the workload.',
    runs=[dict(driver=d, prop=p, variant=v, quick=400 if d == 'inotify' else 3000, thorough=10000 if d == 'inotify' else 200000, shards=2, base=1 << 43)
    for d, p in COMPARED for v in ('dbg', 'rel', 'dbgl', 'gccd', 'gcc', 'o3') if not (v == 'dbgl' and d in ('log', 'null'))])

# Memory errors, undefined behaviour, leaks, diagnostics: everything again with other seeds and all log statements enabled, and under valgrind
EVERYTHING = COMPARED + [('idlepool', 'C10'), ('log', 'C34'), ('threads', 'C29')]
SLOW = dict(inotify=(480, 24), threads=(120, 10), log=(800, 40), timenotify=(3000, 90), idlepool=(2400, 90))
PROPS['C33'] = dict(technique='runtime monitoring: ASan, UBSan, valgrind memcheck, assertion, diagnostics, leak and freed memory monitors over all workloads', need=['library_messages', 'freed_words_checked'], rule='Cases of all workloads (see the rules of their properties) with all log statements of the library enabled, under AddressSanitizer, UndefinedBehaviourSanitizer, the assertion, diagnostics, leak and freed memory monitors, and under valgrind. Non-trivial as defined by the workload.',
    runs=[dict(driver=d, prop=p, variant='dbgl' if d not in ('log', 'null') else 'dbg', quick=SLOW.get(d, (6000, 120))[0], thorough=100 * SLOW.get(d, (6000, 120))[0], shards=2, base=1 << 44) for d, p in EVERYTHING] +
         [dict(driver=d, prop=p, variant='vgl' if d not in ('log', 'null') else 'vg', quick=SLOW.get(d, (6000, 120))[1], thorough=100 * SLOW.get(d, (6000, 120))[1], shards=2, base=1 << 45, order=-1) for d, p in EVERYTHING])
