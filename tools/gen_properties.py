#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the property statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

DP = 'src/gutil_datapack.c'
prop('C01', 'MBN encoding is minimal, canonical and reversible for every 64-bit value',
 'Encoding any signed or unsigned 64-bit integer as a multi-byte number writes exactly as many bytes as the size query reports, that size is the smallest one able to hold the value (including the sign bit for signed numbers), and no other byte is written. All bytes but the last carry the continuation flag and the unused leading bits repeat the sign (signed) or are zero (unsigned). Decoding the encoding, also when it was padded to a larger explicitly requested size of up to 10 bytes, yields the original value and consumes exactly the encoded bytes.',
 ['inputs'], 'every signed and unsigned 64-bit value x every requested size from the minimal one to 10',
 'Tests encode a table of a few dozen values; the claim is about all 2^64 values, and padding is hardly tested at all.',
 [DP, 'include/gutil_datapack.h'],
 [('gutil_signed_mbn_size/encode/encode2', DP), ('gutil_unsigned_mbn_size/encode/encode2', DP), ('*_mbn_decode', DP)],
 ['return values and the bytes of a guarded output buffer'])
prop('C02', 'MBN decoding is total, exact, in-bounds and atomic on arbitrary bytes',
 'For any byte sequence, decoding a multi-byte number succeeds if and only if the input starts with a complete well-formed number (of no more than 10 bytes) whose value is representable in the 64-bit result type; the value is then exactly the one denoted by the bytes and exactly the bytes of that number are consumed. Otherwise decoding fails and changes neither the input position nor the output. Bytes beyond the end of the input are never read, the output pointer is optional, and the whole-buffer variant succeeds only if the number occupies the entire buffer.',
 ['inputs'], 'all byte strings of any length, with and without output pointer',
 'Tests feed about twenty hand-written sequences; truncated, over-long, overflowing and garbage inputs form an unbounded space, and out-of-bounds reads are invisible without instrumentation.',
 [DP], [('gutil_signed_mbn_decode(2)', DP), ('gutil_unsigned_mbn_decode(2)', DP)],
 ['return value, output value, position of the input range, sanitizer red zones around an exactly sized input'])
prop('C03', 'TLV entries round trip, and decoding never leaves the input',
 'A tag (1..INT_MAX) and value encoded as a TLV entry occupies exactly the predicted number of bytes and decodes back to the same tag and the same value bytes, located inside the input, with the input position moved right past the entry. For arbitrary bytes the decoder either pulls out a complete entry that lies entirely within the input, or returns zero leaving the input position and the output untouched. Entries with zero or too large tags, or with a length that does not fit in the remaining input (whatever the length is, up to 2^64-1), are rejected.',
 ['inputs'], 'all tags, value sizes and contents; all byte strings as decoder input',
 'Tests round trip a few small entries; hostile lengths and tags (huge, wrapping, truncated) need every input.',
 [DP], [('gutil_tlv_size/encode', DP), ('gutil_tlv_decode', DP)],
 ['returned tag, value pointer and size relative to the input buffer, input position'])
prop('C04', 'TLV sequence decoding classifies every input correctly',
 'Decoding a whole buffer of TLV entries against a list of expected tags returns a bit mask with exactly the bits of the tags present, each corresponding output describing exactly the bytes of that entry and every other output zeroed. Only the first 31 expected tags are considered; a repeated expected tag, an unexpected tag (unless skipping was requested) and malformed or trailing bytes are each reported with their own negative error code, in order of appearance, and the input outside of the buffer is never touched.',
 ['inputs', 'configurations'], 'all buffers (valid, mutated and random entry sequences), all tag lists including more than 31 tags and repeated tags, both flag settings',
 'Tests cover a handful of literal buffers with 1..3 tags; combinations of order, duplicates, unknown entries, tag list length and malformed tails are not enumerable by hand.',
 [DP], [('gutil_tlvs_decode', DP)], ['returned mask or error and the array of outputs'])

RG = 'src/gutil_ring.c'
prop('C05', 'The ring buffer behaves as a bounded double-ended queue',
 'Under any sequence of operations the ring buffer is indistinguishable from an ideal double-ended queue: puts append or prepend, gets and drops remove from the respective end, positional access and the flattened array list the elements in order, and the size is the number of elements. Capacity management (reserving, compacting, flattening, growing) never loses, duplicates or reorders elements. The number of elements never exceeds the maximum size, a put fails (changing nothing) exactly when the buffer is full, the can-put query predicts that for any count, and lowering the maximum drops the oldest elements.',
 ['histories'], 'all sequences of public ring operations with any reserved and maximum sizes',
 'Tests replay about ten fixed sequences; wrap-around position, allocation size and pending operations interact in far more ways.',
 [RG], [('index arithmetic modulo allocation size', RG), ('gutil_ring_reserve/compact/flatten', RG), ('gutil_ring_can_put/set_max_size', RG)],
 ['all return values, positional access after each operation'],
 [('start/end/alloc', 'window of used slots in a circular allocation', RG)])
prop('C06', 'The ring buffer frees exactly the elements it drops, exactly once',
 'The free function is invoked exactly once for every element which the ring buffer itself discards (drop, drop last, clear, lowering the maximum size, releasing the last reference), oldest first (newest first when only a part is dropped from the end), and never for elements handed to the caller by a get, rejected by a failed put or still stored. Changing the free function affects subsequent removals only, and with no free function elements are just forgotten. The elements stay alive until the last reference to the ring is gone.',
 ['histories'], 'all sequences of operations with reference counting and free function changes',
 'Tests count the free calls in single scenarios; conservation must hold over every history.',
 [RG, 'include/gutil_ring.h'], [('free_func calls in clear/drop/drop_last/unref', RG)],
 ['invocations of the free function with unique element identities'])

HI = 'src/gutil_history.c'
prop('C07', 'History keeps the newest samples within the size and time limits',
 'At any moment the history consists of exactly the most recent samples, no more than the maximum number, whose age does not exceed the maximum interval; its size and interval queries report exactly that set (the interval being the age of the oldest one). A sample added when the time has not advanced replaces the newest sample, time going backwards is treated as no advance, and clearing empties the history. As long as the clock does not go backwards, expiry only depends on the current time, not on which calls were made in between.',
 ['histories', 'inputs'], 'all sequences of add/query/clear calls and clock movements, all limits',
 'Tests use a few scripted clocks with sizes up to a handful of entries; expiry, wrap-around, and same-time replacement combine in unbounded ways.',
 [HI], [('gutil_int_history_flush', HI), ('gutil_int_history_add', HI)],
 ['size, interval and median results under a controlled time function'],
 [('first/last/entry', 'circular window of live samples', HI)])
prop('C08', 'History median is the time-weighted average of the live samples',
 'The median reported for a history, both by the query and when adding a sample, is the time-weighted (piecewise linear) average of the live samples up to integer rounding: it never lies outside of the range spanned by the live samples and equals the value if there is just one. An empty or fully expired history yields the default value supplied by the caller. This holds for the full range of int values and long time spans.',
 ['inputs', 'histories'], 'all sample values, all time gaps, all histories',
 'Tests check a few literal averages of small numbers; overflow and rounding need the full value and time range.',
 [HI], [('gutil_int_history_median_at', HI)], ['values returned by add and median'])

IP = 'src/gutil_idlepool.c'
prop('C09', 'Idle pool releases everything added exactly once, in order, not too early',
 'Everything added to an idle pool is released exactly once, in the order of adding: by the time the next idle callback of the main context which was current when the first of the pending things was added has run, or when the pool is drained or its last reference is dropped, whichever comes first, and never before that or synchronously from the add call. Items added by release functions are released too, in the same go. The typed variants hold exactly the reference given to them, the reference-taking variants take exactly one of their own, and all of them return the pointer they were given and ignore NULL.',
 ['histories'], 'all sequences of add (all types)/drain/ref/unref/iterate operations, including re-entrant ones from release functions',
 'Tests add one or two items of each kind; exactly-once and ordering are claims about all interleavings of adds, drains, iterations and re-entrant calls.',
 [IP], [('gutil_idle_pool_add', IP), ('gutil_idle_pool_drain', IP), ('gutil_idle_pool_idle', IP)],
 ['release function calls, reference counts of objects/bytes/arrays/variants'])
prop('C10', 'Idle pool lifetime: sharing, per-thread defaults and own main contexts',
 'A shared pool pointer yields the same pool until it is destroyed, is cleared exactly when the pool goes away, and the pool goes away by itself on the next idle iteration unless somebody references it. Every thread has its own default pool. The items of a thread which has its own main context are released by that very thread: from that context, or when the thread exits after the context is gone. The items of a thread without a context of its own are never released by another thread while it is running, and they are released once it has exited and the main loop has run. Pools never disturb event sources belonging to anybody else, no matter which main contexts are in use.',
 ['schedules', 'histories', 'configurations'], 'all interleavings of pool users on several threads, with and without thread-default main contexts',
 'Tests use the default main context of one thread nearly everywhere; contexts, thread exits and source ids collide only in particular configurations.',
 [IP], [('gutil_idle_pool_get', IP), ('gutil_idle_pool_get_default', IP), ('gutil_idle_pool_drain', IP)],
 ['shared pointer, thread identity recorded by release functions, foreign sources still being dispatched, GLib diagnostics'])

IQ = 'src/gutil_idlequeue.c'
prop('C11', 'Idle queue runs each pending callback once, in order, from the main loop',
 'Each callback added to an idle queue and not cancelled is run exactly once from the main loop, in the order of adding and never synchronously, followed by exactly one call of its free function. All callbacks pending at the beginning of an idle iteration run in that iteration, those added by callbacks or free functions being run wait for the next one, and nothing that is pending is ever left behind without being scheduled.',
 ['histories'], 'all sequences of add/iterate operations including re-entrant adds and cancels from callbacks',
 'Tests run one or two callbacks; ordering and no-loss must hold for every history, particularly the re-entrant ones.',
 [IQ], [('gutil_idle_queue_run', IQ), ('gutil_idle_queue_add_tag_full', IQ)],
 ['sequence of callback and free function calls against the iteration number'])
prop('C12', 'Idle queue cancellation is precise, and the queue can die at any time',
 'Cancelling a tag removes only the oldest pending callback with that tag and reports whether there was one; tag queries are true exactly while such a callback is pending; cancelling all or freeing the queue removes all that are pending. A removed callback never runs, and its free function is called exactly once before the cancelling call returns. All these operations are safe from inside of the callbacks and free functions of the same queue, dropping the last reference is safe from those which are being run by the main loop, and nothing runs after the queue is gone.',
 ['histories'], 'all sequences of add/cancel/query/free/unref/iterate, issued both from outside and from running callbacks',
 'Tests cancel in a few fixed situations; positions in the list (first, middle, last), re-entrancy and destruction points multiply.',
 [IQ], [('gutil_idle_queue_cancel_tag/cancel_all', IQ), ('gutil_idle_queue_unref/free', IQ)],
 ['callback and free function calls, return values, pending sources'])

IN = 'src/gutil_inotify.c'
prop('C13', 'Inotify handlers see exactly the events of their own watch, in order',
 'Every handler attached to a file system watch is called once for each event reported by the kernel for that watch (the requested events of the watched file or directory), in order, with the right mask, cookie and name, and events of other watches are never delivered to it. Any number of events, including ones with the longest possible file names, may arrive between main loop iterations. A handler which has been removed, also from inside of a handler, is not called any more, those of a destroyed watch are not called for any further event, and all the others continue to work.',
 ['histories', 'inputs'], 'all sequences of file system operations in watched directories mixed with adding/removing watches and handlers',
 'Tests create and modify one file; event batches, names of all lengths, multiple watches and re-entrant removal are not covered.',
 [IN], [('gutil_inotify_read', IN), ('wd to watch hash table', IN)],
 ['handler calls compared with an independent inotify descriptor observing the same directories'])
prop('C14', 'Inotify watches release kernel resources exactly once, also on failures',
 'All watches share one inotify descriptor which exists exactly as long as there are watches; when the last one goes away (in any order, by any means, even from a handler) it is closed exactly once and nothing else is ever closed. Creating a watch fails cleanly with NULL if the path is missing or the kernel refuses, without leaking a descriptor or memory and without affecting the other watches. After everything is released, watching can be started again.',
 ['histories', 'fault_sequences'], 'all create/ref/unref/destroy/free sequences, with failures injected into the kernel calls',
 'Tests never inject kernel failures and do not count descriptors; a double close only hurts unrelated descriptors.',
 [IN], [('gutil_inotify_new/unref', IN), ('gutil_inotify_watch_new/stop/finalize', IN)],
 ['open descriptors of the process, inotify calls, failed close calls'])

IA = 'src/gutil_intarray.c'
prop('C15', 'Int array behaves as a vector under any sequence of edits',
 'Under any sequence of operations the int array holds exactly the values an ideal vector would: appends, prepends, inserts, count changes, removals (by index, value, all values or range, where the fast variants may move the last element to the place of the removed one), search and conversion results all agree with it, and out-of-range removals change nothing. Sorting yields the same values in ascending or descending numeric order over the full int range. The data and the array are released exactly once, unless the data is handed over to the caller.',
 ['histories', 'inputs'], 'all operation sequences, positions, counts and values including the extreme ones',
 'Tests use short arrays with small values; boundary positions, counts near the type limits and far apart values are not tried.',
 [IA], [('wrappers around GArray', IA), ('comparison functions', IA)], ['array contents after each operation, allocation balance'])
NT = 'src/gutil_ints.c'
prop('C16', 'Immutable int arrays: contents, sub-ranges, equality, hash and ordering',
 'An immutable int array always exposes exactly the values it was created from, and no array object exists for an empty set of values. A sub-range shows exactly the part of the requested range which lies inside of the parent, for any offset and count. Search agrees with the contents, equality is equality of contents with equal arrays having equal hashes, and comparison is a total order consistent with equality in which NULL is the smallest and a proper prefix precedes the longer array.',
 ['inputs', 'histories'], 'all contents, offsets and counts (whole unsigned range), all pairs and triples of arrays',
 'Tests compare a few literals; order axioms and range arithmetic are universally quantified.',
 [NT], [('gutil_ints_new*', NT), ('gutil_ints_equal/hash/compare', NT)], ['contents and results of queries'])
prop('C17', 'Immutable int arrays own their data: freed exactly once, never too early',
 'The data behind an immutable int array is released exactly once, by the free function given for it, when the last reference to the array and to all arrays derived from it is gone, and not a moment earlier. Turning a reference into a caller-owned buffer always yields a heap copy or the original heap block with the right contents that the caller can free, regardless of how the array was created and who else references it. Creating an empty array never takes ownership of anything.',
 ['histories'], 'all sequences of create/derive/ref/unref/unref-to-data over graphs of derived arrays',
 'Tests free single arrays; ownership must be conserved over arbitrary derivation graphs.',
 [NT], [('gutil_ints_unref', NT), ('gutil_ints_unref_to_data', NT), ('gutil_ints_new_from_ints', NT)],
 ['free function calls, allocation balance, contents while alive'])

LG = 'src/gutil_log.c'
prop('C18', 'A log message is delivered if and only if its level is enabled',
 'A message reaches the log back end exactly when the enabled query says so: when its level is positive and does not exceed the effective level of the module (its own, else the nearest ancestor\'s, else the default one), or is the always level, and no module on that path is disabled. It is delivered exactly once, to the module\'s own back end or else the global one, with the module, level and text intact, or not at all if no back end is set. The name is withheld from the legacy back end when the module asks to hide it.',
 ['configurations', 'inputs'], 'all module trees, levels, flags, back end assignments and message levels',
 'Tests set up a few fixed modules; the configuration space (levels x inheritance chains x flags x back ends) is multiplicative.',
 [LG], [('gutil_logv', LG), ('gutil_log_enabled', LG), ('gutil_log_default_proc', LG)], ['calls received by recording back ends'])
prop('C19', 'Log back ends write complete, correctly prefixed messages of any length',
 'Each message sent to stdout or stderr becomes exactly one line consisting of the optional thread id, the optional timestamp in the configured format, the module name in brackets (if there is one), a prefix for errors and warnings, and the complete formatted text no matter how long it is. The syslog and GLib back ends receive the same complete text with the corresponding priority. Replacing, resetting or overflowing the timestamp format never corrupts the output.',
 ['inputs', 'configurations'], 'all texts and lengths (around and far beyond internal buffer sizes), names, levels, timestamp formats and settings',
 'Tests print short messages and mostly do not look at the output; buffer boundaries and setting combinations are not explored.',
 [LG], [('gutil_log_format', LG), ('gutil_log_stdio', LG), ('gutil_log_syslog/glib', LG)], ['captured stdout/stderr, recorded syslog and GLib log calls'])
prop('C20', 'Log options, types and descriptions parse and report consistently',
 'A log option changes the level of exactly the module it names (case-insensitively, by full name), or the default level if it names none, accepting a digit from 0 to 5 or any non-empty prefix of a level name; anything else is refused with an error set and nothing changed. The log type selected by its case-insensitive name is the one reported back and the one that receives messages, unknown types are refused, and a given default name is applied. The description lists all levels and all modules, and the environment only affects the startup defaults when it contains valid numbers.',
 ['inputs', 'configurations'], 'all option strings, module lists, type names and environment values',
 'Tests parse about a dozen literal strings.',
 [LG], [('gutil_log_parse_option/parse_level', LG), ('gutil_log_set_type/get_type', LG), ('gutil_log_description', LG), ('gutil_log_init', LG)],
 ['levels of all modules, return values, errors, log type'])
MI = 'src/gutil_misc.c'
prop('C21', 'Hex dumps show every byte exactly once at the right offset',
 'A hex dump line describes up to 16 bytes as hex digits in fixed columns followed by their printable representation, fits into the documented buffer size, and reports how many bytes it consumed. Dumping a block of any size to the log produces lines which cover every byte exactly once, in order, each with the right offset and prefix, or nothing if the level is not enabled. No byte outside of the block is read.',
 ['inputs'], 'all block sizes and contents, prefixes, and log configurations',
 'Tests dump a few blocks of up to 17 bytes or so.',
 [MI, LG], [('gutil_hexdump', MI), ('gutil_log_dump/gutil_log_dump_bytes', LG)], ['produced text, recorded log calls'])
prop('C22', 'Hex conversions are exact inverses, and malformed hex is rejected',
 'Converting any block of bytes to hex, in either case, yields two digits per byte which convert back to the same bytes. A string converts to bytes exactly if it has a positive even number of characters (the explicitly given count, or the whole string) all of which are hex digits of either case; everything else is refused without leaking. Only the given characters are read and only the corresponding output bytes are written.',
 ['inputs'], 'all byte blocks, all strings (including non-ASCII characters) and lengths',
 'Tests convert a handful of literals.',
 [MI], [('gutil_hex2bin/hex2bytes', MI), ('gutil_bin2hex/data2hex', MI)], ['results and guarded buffers'])
prop('C23', 'Integer parsing accepts exactly the in-range numbers and stores them exactly',
 'A string is parsed as a signed or unsigned 32 or 64-bit integer in the given base if and only if, ignoring surrounding white space, it is entirely one number in that base which fits the type, with no minus sign for the unsigned types; the stored value is then exactly that number. Otherwise parsing fails and the output is left unchanged. NULL and blank strings are never numbers, and the output pointer is optional.',
 ['inputs'], 'all strings, bases 0 and 2..36, all four types',
 'Tests parse a few literals per type; range limits, bases, spaces and garbage placement combine without bound.',
 [MI], [('gutil_parse_int/uint/int64/uint64', MI), ('gutil_strstrip', MI)], ['return value and output value'])
prop('C24', 'Data block, bytes and range helpers agree with byte-wise reference semantics',
 'Equality, prefix and suffix tests, prefix skipping, concatenation, XOR and copying of data blocks, ranges and GBytes give exactly the byte-wise result for any contents, sizes and alignments, with the documented treatment of NULL and empty arguments. Copies are independent of the original and freed with a single free, returned GBytes are new references which the caller can release, and arguments are never modified. Nothing outside of the given blocks is accessed.',
 ['inputs'], 'all contents, sizes, alignments, NULL/empty combinations, argument aliasing',
 'Tests use short literals; alignment, sharing and sizes around word boundaries are not covered.',
 [MI], [('gutil_data_*', MI), ('gutil_bytes_*', MI), ('gutil_range_*', MI)], ['results compared with byte-wise models, reference/allocation balance'])
OV = 'src/gutil_objv.c'
prop('C25', 'Object vectors behave as sequences and hold one reference per element',
 'Under any sequence of operations a NULL-terminated object vector holds exactly the objects an ideal sequence would, at the same positions, and queries (at, first, last, find, find last, contains, equal) agree with it. The vector holds exactly one reference per occurrence of an object: an object is released as many times as its occurrences are removed and all of them when the vector is freed. NULL and empty vectors are interchangeable, and adding NULL or removing something that is not there changes nothing.',
 ['histories'], 'all operation sequences over object pools with repeated objects',
 'Tests use two or three objects; positions, duplicates and remove-all combinations need histories.',
 [OV], [('gutil_objv_add/insert/append/remove/remove_at/copy/free', OV)], ['contents and GObject reference counts and finalizations'])
SV = 'src/gutil_strv.c'
prop('C26', 'String vectors behave as sequences owning their strings',
 'Under any sequence of add, add-many, remove-at and remove (one or all) operations a string vector holds exactly the strings an ideal sequence would, and length, positional, first/last occurrence, last element, containment and equality queries agree with it (NULL and empty vectors being equal). Added strings are copied, removed ones are freed unless the caller asked to keep the string, and arguments may point to the strings of the vector itself.',
 ['histories', 'inputs'], 'all operation sequences and strings, including arguments aliasing the vector',
 'Tests use up to four strings and never alias.',
 [SV], [('gutil_strv_add/addv/remove/remove_at', SV)], ['contents after each operation, allocation balance'])
prop('C27', 'String vector sorting, searching, de-duplication and stripping are exact',
 'Sorting permutes the strings into ascending or descending byte order; binary search in a vector sorted the same way finds a string if and only if it is there, returning an index at which it is. Removing duplicates leaves the first occurrence of each distinct string, in the original order. Stripping removes exactly the leading and trailing ASCII white space of each string.',
 ['inputs'], 'all string vectors (any length, duplicates, empty and non-ASCII strings)',
 'Tests sort and search a few fixed vectors.',
 [SV], [('gutil_strv_sort/bsearch', SV), ('gutil_strv_remove_dups', SV), ('gutil_strv_strip', SV)], ['contents and results'])
WR = 'src/gutil_weakref.c'
prop('C28', 'Weak references return a live object or NULL, under any schedule',
 'Getting the object of a weak reference returns a new strong reference to the object most recently set if it is still alive, or NULL if it is not or nothing is set, even while other threads are dropping the last reference, changing the target or sharing the weak reference. Weak references never keep the object alive and never touch it once it is gone. The weak reference itself lives until its own last reference is released.',
 ['schedules', 'histories'], 'all interleavings of get/set/ref/unref with object destruction on several threads',
 'Tests are single threaded; the races with finalization are the reason for the type to exist.',
 [WR], [('gutil_weakref_get/set', WR), ('gutil_weakref_ref/unref', WR)], ['object identity and reference counts, finalizations, race detector'])
prop('C29', 'Reference counting of shared types is thread-safe',
 'References to idle pools, idle queues, rings, histories, int arrays, immutable int arrays, weak references, inotify watches and time notifiers can be taken and released from any number of threads concurrently. The object and its contents are destroyed exactly once, by whoever releases the last reference, and never while a reference is held.',
 ['schedules'], 'all interleavings of ref/unref on several threads',
 'Tests never share objects between threads.',
 [RG, HI, IP, IQ, IA, NT, WR], [('g_atomic_int_inc / g_atomic_int_dec_and_test', 'all *_ref and *_unref functions')],
 ['destruction notifications, race detector and address sanitizer reports, allocation balance'])
TN = 'src/gutil_timenotify.c'
prop('C30', 'Time change notifier: one instance, every change delivered, no leaks',
 'All users of the time change notifier share one instance which goes away with its last reference and can then be created again. It asks the kernel to be told about discontinuous changes of the real-time clock, never about regular passage of time, and every such indication results in each attached handler being called once, until the handler is removed or the notifier is gone, including from inside of a handler. Failure to obtain the kernel timer leaves a working (silent) object, and all descriptors are closed exactly once.',
 ['histories', 'fault_sequences'], 'all sequences of new/ref/unref/handler operations and clock change indications, with injected kernel failures',
 'There are no tests for it at all (the clock cannot be changed in a test).',
 [TN], [('gutil_time_notify_new', TN), ('gutil_time_notify_init', TN), ('gutil_time_notify_callback', TN)],
 ['timerfd calls at the libc boundary with simulated cancellations, handler calls, descriptors'])
prop('C31', 'NULL arguments are tolerated throughout the public interface',
 'Functions operating on an object, vector, array or data block accept NULL in place of it: queries report an empty, false, zero or not-found result, modifications do nothing, and releases are no-ops. What an object was to take over is released instead of being lost (idle queue) or goes to the default one (idle pool). Callbacks, output pointers and other documented optional arguments can be omitted likewise. None of this ever crashes, leaks, changes anything or produces GLib diagnostics.',
 ['inputs'], 'all NULL-tolerant arguments in all combinations and states',
 'Tests check NULL for many functions individually but not in all combinations, and cannot see silent misbehaviour.',
 ['src'], [('G_LIKELY(self) guards', 'all functions')], ['return values, diagnostics, state before and after'])
prop('C32', 'Handler, source and pointer-vector helpers act on exactly what they are given',
 'Disconnecting an array of signal handlers disconnects each non-zero one exactly once and zeroes it, leaving other handlers connected; removing or clearing an event source removes exactly that source, zeroes the variable and reports whether there was something to remove. NULL-tolerant object reference helpers change the count by exactly one. Pointer vector helpers count, test and free exactly the elements before the terminator.',
 ['histories', 'inputs'], 'all handler/source/vector populations and id arrays with arbitrary zero entries',
 'Tests use two or three ids.',
 [MI], [('gutil_disconnect_handlers', MI), ('gutil_source_remove/clear', MI), ('gutil_ptrv_*', MI)], ['callbacks that still fire, variables, counts'])
prop('C33', 'No memory error, undefined behaviour, leak or diagnostic in valid use',
 'No valid sequence of public API calls, however unusual the values, sizes, order and re-entrancy, makes the library access memory out of bounds, after free or uninitialised, execute undefined behaviour, fail an internal assertion or trigger a GLib diagnostic. Once all references are released all memory, descriptors and event sources are gone.',
 ['programs', 'inputs', 'histories'], 'all valid client programs over all modules',
 'Tests run without sanitizers and cannot observe silent corruption.',
 ['src'], [('all modules', 'src')], ['sanitizer and valgrind reports, assertion hook, GLib log handler, allocation/descriptor/source balance'])
prop('C34', 'Concurrent logging never mixes, loses or duplicates lines',
 'When several threads log at the same time, every message sent by each thread appears in the output exactly once, as one intact line, and messages of the same thread appear in the order in which they were sent. The thread id printed with a message, if enabled, is that of the thread which sent it.',
 ['schedules'], 'all interleavings of logging threads and message lengths',
 'Tests log from one thread.',
 [LG], [('single stdio call per message', LG)], ['captured output parsed back into messages'])
prop('C35', 'Debug and release builds behave identically',
 'For any valid sequence of API calls the results, contents, callbacks and their order are the same whether the library is built with or without debug assertions and log statements, and with or without optimisation. Assertions only check and never do.',
 ['configurations', 'programs'], 'all valid client programs x build configurations',
 'The tests are only ever built against the debug library.',
 ['src', 'include/gutil_log.h'], [('GASSERT/GVERIFY macros', 'include/gutil_log.h')], ['digests of complete API traces in both builds'])
prop('C36', 'The shared library exports the documented interface and matching version',
 'Every function and variable declared in the public headers can be resolved and used through the shared library built from the same tree. The version known at run time equals the version of the headers, version numbers combine into a single word from which they can be extracted unchanged, and the macros of specific versions are usable, increasing, and none is newer than the current version.',
 ['configurations'], 'all public declarations, all version triplets',
 'Tests link the static library and never look at the dynamic symbol table or the version.',
 ['libglibutil.ver', 'include', 'src/gutil_version.c', 'include/gutil_version.h'], [('version script', 'libglibutil.ver'), ('gutil_version_* variables', 'src/gutil_version.c')],
 ['dynamic symbol resolution in a running process, values of the version variables'])
prop('C37', 'The macros of the public headers do what they say in every configuration',
 'Whatever maximum log level, assert level, debug mode and log module (with or without parent) a source file is compiled with, each log macro delivers its message to the module of that file at its own level if that level is compiled in and enabled at run time (the variants ending with an underscore prefix it with the name of the function), evaluating its arguments exactly once if it is compiled in and never otherwise. GASSERT reports the expression and its location exactly if the expression is false in builds with asserts and evaluates nothing in builds without; the GVERIFY family checks what its name says in builds with asserts and evaluates its expression exactly once in every build. Module definitions have the given name, parent and compiled-in maximum level and initially inherit their level. Alignment macros round up to the next multiple for every integer type without truncation, and G_CAST finds the container of any field.',
 ['configurations', 'inputs'], 'all compile time configurations, module states and operand values and types',
 'Tests are compiled in one configuration (debug), and evaluation counts and other configurations are invisible to them.',
 ['include/gutil_log.h', 'include/gutil_macros.h'], [('GERR..GVERBOSE, GASSERT, GVERIFY*, GLOG_MODULE_DEFINE*', 'include/gutil_log.h'), ('G_ALIGN*, G_CAST, gutil_slice_free', 'include/gutil_macros.h')],
 ['messages delivered to the back end, evaluations of the arguments, values of the macros'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
