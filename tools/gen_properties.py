#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
            **({"observe_at": observe} if observe else {}),
            "hook_needed": None}})

DP = ["src/gutil_datapack.c", "include/gutil_datapack.h"]
MI = ["src/gutil_misc.c", "include/gutil_misc.h"]

prop("C01", "Signed compact integers round-trip at their minimal size",
 "Encoding any signed 64-bit integer in the compact 7-bits-per-byte form writes exactly the announced number of bytes, that number is the smallest that can hold the value with its sign, and decoding those bytes gives the same integer back and consumes all of them. Encoding into any larger explicitly requested size of up to ten bytes also decodes to the same integer.",
 ["inputs"], "all 2^64 signed integers; every explicit size from the minimum to ten bytes; arbitrary trailing bytes",
 "Tests sample about a dozen values; sign-extension and the 9/10-byte cases depend on single bits of a 64-bit value.",
 DP, [("gutil_signed_mbn_size/encode/encode2/decode", "src/gutil_datapack.c")])
prop("C02", "Unsigned compact integers round-trip at their minimal size",
 "Encoding any unsigned 64-bit integer in the compact form writes exactly the announced number of bytes, that number is the smallest possible, and decoding gives the same integer back and consumes exactly those bytes. Encoding into any larger explicitly requested size of up to ten bytes also decodes to the same integer.",
 ["inputs"], "all 2^64 unsigned integers; every explicit size from the minimum to ten bytes; arbitrary trailing bytes",
 "Tests sample a handful of values around byte boundaries.",
 DP, [("gutil_unsigned_mbn_size/encode/encode2/decode", "src/gutil_datapack.c")])
prop("C03", "Compact integer decoders accept exactly the well-formed encodings",
 "Given arbitrary bytes, the signed and unsigned compact decoders never read outside the input, succeed exactly when the input starts with a terminated sequence of at most ten bytes whose value fits the 64-bit result (unused leading bits being zero, or copies of the sign), and then deliver precisely the value the bytes denote and advance past exactly those bytes. On failure neither the input position nor the output is changed, the output pointer may be omitted, and the whole-block variants succeed only if nothing is left over.",
 ["inputs"], "all byte strings up to 12 bytes (the longest encoding is 10), empty and truncated included",
 "There are 2^80 ten-byte inputs; tests use about twenty hand-written ones.",
 DP, [("gutil_signed_mbn_decode, gutil_signed_mbn_decode2, gutil_unsigned_mbn_decode, gutil_unsigned_mbn_decode2", "src/gutil_datapack.c")])
prop("C04", "Tag-length-value entries round-trip and match their announced size",
 "Encoding a tag with a data block writes exactly the announced number of bytes and nothing beyond them, and decoding returns the same tag and a view of identical data inside the encoded bytes, leaving the input positioned right after the entry. A missing data block is encoded like an empty one, and consecutive entries decode one after another in order.",
 ["inputs"], "every non-zero tag up to INT_MAX, all payload contents and lengths within the bound, two consecutive entries; sizes announced for every length",
 "Tests encode a few tags; the tag/length byte boundaries multiply with positions.",
 DP, [("gutil_tlv_size, gutil_tlv_encode, gutil_tlv_decode", "src/gutil_datapack.c")])
prop("C05", "Decoding an arbitrary tag-length-value entry is memory-safe and exact",
 "For arbitrary input bytes the entry decoder succeeds exactly when they start with a well-formed non-zero tag not above INT_MAX, a well-formed length and at least that many further bytes; the value it reports then lies entirely within the input and the input advances to the end of that value, so decoding always makes progress. Otherwise it returns zero and leaves both the input and the output as they were.",
 ["inputs"], "all byte strings up to the bound, including lengths near 2^63 and 2^64",
 "Lengths that wrap signed or pointer arithmetic are never used by tests.",
 DP, [("gutil_tlv_decode", "src/gutil_datapack.c")])
prop("C06", "A sequence of tagged values is decoded completely or rejected",
 "Decoding a block of tagged values reports, for each of the first 31 expected tags, whether it was present and a view of its value, with absent values empty; a repeated expected tag, an unexpected tag (unless skipping is requested) and malformed or leftover bytes are each reported by their own error code, whichever comes first in the block. A successful result means that every byte of the block belonged to a well-formed entry.",
 ["inputs", "configurations"], "all blocks up to the bound, tag lists of 0 to 3 tags and of more than 31 tags, with and without skipping, with and without an output array",
 "The cross product of entry order, duplicates, unknown tags and truncation points is sampled with fixed vectors only.",
 DP, [("gutil_tlvs_decode", "src/gutil_datapack.c")])
prop("C07", "Bytes survive conversion to hexadecimal text and back",
 "Converting bytes to hexadecimal yields exactly two digits of the requested case per byte and a terminator, and converting that text back yields the same bytes. Converting text to bytes succeeds exactly for non-empty text of even length made only of hexadecimal digits of either case, yields the value the digits denote, never reads beyond the given length or writes beyond half of it, and otherwise yields nothing.",
 ["inputs"], "all byte strings and all texts up to the bound, explicit and implicit lengths",
 "Every one of 256 characters in each position matters (the table covers 0x30..0x66); tests use fixed strings.",
 MI, [("gutil_bin2hex, gutil_data2hex, gutil_hex2bin, gutil_hex2bytes", "src/gutil_misc.c")])
prop("C08", "A hex dump line is faithful and never overruns its buffer",
 "A hex dump line of any data shows the first min(length, 16) bytes as lower-case hexadecimal in fixed columns followed by the same bytes as printable characters with dots for the rest, is terminated, and never touches more than the documented 70-byte buffer or reads beyond the data. The call returns the number of bytes shown.",
 ["inputs"], "all contents and all lengths 0..17 and larger lengths",
 "Tests compare a few fixed dumps.",
 MI, [("gutil_hexdump", "src/gutil_misc.c")])
prop("C09", "Integer parsing accepts exactly in-range numbers",
 "Parsing text as an integer succeeds exactly when, apart from surrounding whitespace, the whole text is one number in the given base (with the usual sign and prefix rules, and no minus for unsigned results) that fits the requested type, and then delivers that number. On failure the destination is untouched, and absent text, an omitted destination and whitespace-only text are handled without harm, the latter being rejected.",
 ["inputs"], "all strings up to the bound, all bases in use (0, 2, 8, 10, 16, 36), all values around the limits of the four result types",
 "Tests try about thirty strings; overflow limits, whitespace, prefixes and trailing garbage interact.",
 MI, [("gutil_parse_int, gutil_parse_uint, gutil_parse_int64, gutil_parse_uint64, gutil_strstrip", "src/gutil_misc.c")])
prop("C10", "Equality, prefix and suffix tests on byte blocks agree with their definition",
 "Two byte blocks compare equal exactly when both are absent or both have the same length and contents, and a block has another one as prefix (suffix) exactly when it is at least as long and begins (ends) with those bytes, with the documented rules for absent and empty blocks; this holds alike for data blocks, byte objects and ranges. Skipping a prefix advances the range by exactly the prefix length when it is there and changes nothing otherwise, and no test reads outside its arguments.",
 ["inputs"], "all pairs of blocks up to the bound, absent and empty ones included",
 "Length/content combinations and the absent/empty corner cases are only sampled.",
 MI, [("gutil_data_equal, gutil_data_has_prefix, gutil_data_has_suffix, gutil_bytes_equal, gutil_bytes_equal_data, gutil_bytes_has_prefix, gutil_bytes_has_suffix, gutil_range_has_prefix, gutil_range_skip_prefix", "src/gutil_misc.c")])
prop("C11", "Concatenation and exclusive-or of byte objects are exact",
 "Concatenating any number of byte objects gives an object whose contents are theirs in order, and exclusive-or gives the bytewise result over the shorter length, with an absent operand giving an absent result. The inputs are never modified, and each call hands the caller exactly one new reference and leaks nothing.",
 ["inputs"], "up to three operands with all lengths and contents within the bound, including the word/tail split of the xor loop",
 "Empty operands in each position and lengths around the machine word are only sampled.",
 MI, [("gutil_bytes_concat, gutil_bytes_xor", "src/gutil_misc.c")])
prop("C12", "Data blocks, views and copies have the documented contents and ownership",
 "A newly created or copied data block holds an independent copy of the given bytes and is released by freeing that one block; duplicating memory gives an independent equal copy or nothing for empty input. Views made from strings, byte objects and ranges denote exactly the underlying bytes, absent sources give empty views, and a variant made from a data block holds a copy of the same bytes of its own.",
 ["inputs"], "all contents and lengths within the bound; every absent/empty combination",
 "Aliasing and single-block ownership for all lengths are not observed by tests.",
 MI, [("gutil_data_new, gutil_data_copy, gutil_data_copy_as_variant, gutil_data_from_string, gutil_data_from_bytes, gutil_range_init_with_bytes, gutil_memdup, gutil_strlen0", "src/gutil_misc.c")])
prop("C13", "Reading a pointer or string vector agrees with the list it represents",
 "For every null-terminated vector, length, emptiness, element access, last element, first and last index of an element, membership and equality give the answers of the plain list of its elements, an absent vector behaves like an empty one, and an index beyond the end gives nothing. These calls neither modify the vector nor read past its terminator.",
 ["inputs"], "all string vectors within the bound (element count and string contents symbolic, duplicates included), every index",
 "Tests use a few fixed vectors.",
 ["src/gutil_strv.c", "src/gutil_misc.c"], [("gutil_strv_length/at/last/find/find_last/contains/equal", "src/gutil_strv.c"), ("gutil_ptrv_length, gutil_ptrv_is_empty, gutil_ptrv_free", "src/gutil_misc.c")])
prop("C14", "Changing a string vector changes exactly the requested elements",
 "Appending one or several strings, removing by position, removing the first or all equal strings and removing duplicates give exactly the list those operations define, with remaining elements in their original order, copies rather than the caller's strings stored, and the vector still terminated. Every removed string is freed exactly once (unless the caller asked to keep it), nothing leaks, and an operation with nothing to do leaves the vector unchanged.",
 ["inputs", "histories"], "every starting vector within the bound (contents symbolic, duplicates included) followed by any one operation with any arguments, and short operation sequences",
 "Removal patterns (adjacent, trailing and repeated duplicates) grow exponentially; tests use a few.",
 ["src/gutil_strv.c"], [("gutil_strv_add/addv/remove/remove_at/remove_dups", "src/gutil_strv.c")])
prop("C15", "Sorting, searching and stripping string vectors is correct",
 "Sorting yields a permutation of the same strings in the requested lexicographic order, and binary search in a vector sorted the same way finds an index holding the wanted string exactly when there is one. Stripping removes exactly the leading and trailing whitespace of every string in place.",
 ["inputs"], "all vectors within the bound, both directions, all searched strings within the bound",
 "Comparison sign errors and boundary positions need specific inputs.",
 ["src/gutil_strv.c"], [("gutil_strv_sort, gutil_strv_bsearch, gutil_strv_strip", "src/gutil_strv.c")])
prop("C16", "Object vectors behave as lists and account for every reference",
 "Creating, copying, adding, inserting, appending and removing elements of an object vector give exactly the corresponding list, and queries agree with it; an absent vector acts as an empty one. At every moment the vector owns exactly one reference per occurrence of each object, so after it is freed every object is back at the reference count it had before.",
 ["inputs", "histories"], "every starting vector within the bound over up to three objects (repetitions included), any one operation with any position, and short operation sequences",
 "Reference leaks and off-by-one moves appear only for particular duplicate patterns and positions.",
 ["src/gutil_objv.c"], [("gutil_objv_new/copy/add/insert/append/remove/remove_at/free/at/equal/first/last/find/find_last/contains", "src/gutil_objv.c")])
prop("C17", "The ring buffer is a faithful bounded double-ended queue",
 "Whatever sequence of puts and gets at either end, drops, clears, reservations, compactions, flattenings and limit changes is applied, the ring contains exactly what the corresponding double-ended queue contains, in order, and every query agrees with it. It never holds more than its maximum size: an insertion is refused exactly when the ring is full, the capacity query predicts this, and lowering the limit discards the oldest elements.",
 ["histories", "inputs"], "every reachable internal layout (allocated size, start, wrap) up to the bound, then any operations with any arguments, then full observation",
 "Wrap-around layouts combined with resizing, flattening and limits are too many; tests visit a few.",
 ["src/gutil_ring.c"], [("gutil_ring_put/put_front/get/get_last/drop/drop_last/clear/compact/reserve/flatten/set_max_size/can_put/data_at/size", "src/gutil_ring.c")],
 [("layout", "allocation, start and end positions", "src/gutil_ring.c")])
prop("C18", "The ring buffer frees exactly the elements it discards, once, oldest first",
 "With a free function set, every element that the ring itself discards (dropping, clearing, lowering the limit, or releasing the last reference) is passed to it exactly once, in queue order from the discarded end, while elements handed back to the caller, refused or still inside are not. The ring stays alive until its last reference is released and its own memory is then returned.",
 ["histories"], "every reachable layout up to the bound, then any discarding operation with any count, then release",
 "Tests count frees in a few layouts.",
 ["src/gutil_ring.c"], [("gutil_ring_unref, gutil_ring_clear, gutil_ring_drop, gutil_ring_drop_last, gutil_ring_set_max_size, gutil_ring_set_free_func", "src/gutil_ring.c")])
prop("C19", "A value history keeps exactly the recent samples",
 "At any time a history holds the most recent samples, at most the configured number and none older than the configured interval (a sample exactly that old still counts); a sample arriving no later than the newest one replaces its value instead of adding an entry. The reported size and covered interval agree with that set, clearing empties it, and an invalid configuration creates nothing.",
 ["histories", "inputs"], "all sequences of operations within the bound with arbitrary clock readings between them, including a clock that stands still or goes back",
 "Expiry, wrap-around and clock steps interact; tests follow one clock script.",
 ["src/gutil_history.c"], [("gutil_int_history_new_full/add/size/interval/clear/flush", "src/gutil_history.c")],
 [("clock", "time function supplied by the caller", "gutil_int_history_new_full")])
prop("C20", "The history median is the time-weighted average of the held samples",
 "The reported value of a history is the trapezoidal time-weighted average of the held samples, rounded toward zero, so it always lies between the smallest and the largest of them for any integer values; a single sample is reported as is, and an empty or expired history reports the caller's default. Adding a sample returns that same value.",
 ["histories", "inputs"], "all sample values of the full integer range and clock readings within the bound",
 "Overflow and rounding need extreme values with particular time steps.",
 ["src/gutil_history.c"], [("gutil_int_history_median_at, gutil_int_history_median, gutil_int_history_add", "src/gutil_history.c")])
prop("C21", "Immutable integer arrays keep their data alive and release it exactly once",
 "An immutable integer array always shows the numbers it was created with, and a slice of it shows exactly the numbers from the offset up to the count or the end of its parent, or does not exist if that is empty. The data stays valid while any array or slice refers to it, the owner's release function runs exactly once after the last reference is gone, and converting to a plain array gives the caller its own copy whatever the kind of ownership.",
 ["inputs", "histories"], "all contents, offsets and counts of the full unsigned range, all kinds of ownership, all orders of releasing parent and slices",
 "Offset/count arithmetic near the type limit and release orders are not enumerated by tests.",
 ["src/gutil_ints.c"], [("gutil_ints_new, gutil_ints_new_take, gutil_ints_new_static, gutil_ints_new_with_free_func, gutil_ints_new_from_ints, gutil_ints_ref, gutil_ints_unref, gutil_ints_unref_to_data, gutil_ints_get_data", "src/gutil_ints.c")])
prop("C22", "Comparing integer arrays is a consistent total order",
 "Equality of integer arrays holds exactly when they have the same length and elements (or both are absent); equal arrays have equal hashes; comparison gives zero exactly for equal arrays, is antisymmetric and transitive, and orders an absent array first and a proper prefix before the longer array. Searching finds the first position of a number exactly when it is contained.",
 ["inputs"], "all triples of arrays within the bound",
 "Order laws quantify over pairs and triples; tests compare a few arrays.",
 ["src/gutil_ints.c"], [("gutil_ints_equal, gutil_ints_hash, gutil_ints_compare, gutil_ints_find, gutil_ints_contains", "src/gutil_ints.c")])
prop("C23", "The growable integer array behaves as a list",
 "Appending, prepending, inserting, setting the size, removing a value, all its occurrences, a position or a range give exactly the corresponding list; the order-preserving removals keep the order of the rest and the fast ones keep the multiset of the rest. Ranges are clipped at the end whatever the count, searching finds the first occurrence, and handing over the contents gives exactly the listed numbers.",
 ["inputs", "histories"], "every starting array within the bound, any one operation with arguments of the full unsigned range, and short sequences",
 "Clipping arithmetic near the type limit and duplicate patterns are not covered.",
 ["src/gutil_intarray.c"], [("gutil_int_array_* mutators and queries", "src/gutil_intarray.c")])
prop("C24", "Sorting an integer array is correct for all integers",
 "Sorting yields a permutation of the same numbers in ascending (or descending) numeric order, for every combination of integer values including the extremes.",
 ["inputs"], "all arrays within the bound over the full 32-bit range",
 "Comparisons of values more than 2^31 apart are never tried.",
 ["src/gutil_intarray.c"], [("gutil_int_array_sort_ascending, gutil_int_array_sort_descending", "src/gutil_intarray.c")])
prop("C25", "Everything put into an idle pool is destroyed exactly once, later, in order",
 "Each item added to an idle pool is destroyed exactly once: never before control returns to the event loop or the pool is drained or released, in the order of addition, including items added by destroy callbacks, and at the latest when the pool goes away. Convenience adders release precisely the reference they were given or took, and nothing in the pool leaks or keeps the event loop busy once it is empty. Draining a pool disturbs no other source of any event loop.",
 ["histories", "schedules"], "all sequences of add, drain, event-loop iteration, reference and release operations within the bound, with destroy callbacks that add further items",
 "Re-entrant additions and drains in every position are not enumerated by tests.",
 ["src/gutil_idlepool.c"], [("gutil_idle_pool_add, gutil_idle_pool_drain, gutil_idle_pool_idle, gutil_idle_pool_unref", "src/gutil_idlepool.c")])
prop("C26", "A shared idle pool has one live instance and leaves no dangling pointer",
 "Asking for a shared idle pool returns the existing instance while it is alive and creates one otherwise, an unreferenced shared pool disappears by itself after the event loop runs, and the shared variable is cleared exactly when the pool is gone. The default pool is one per thread, and items are destroyed only on the thread the pool belongs to, staying queued if the event loop runs on another one.",
 ["histories", "schedules"], "all sequences of get, reference, release, drain and event-loop iteration within the bound; idle callbacks running on the right or the wrong thread",
 "Self-destruction combined with outside references and draining is sampled once.",
 ["src/gutil_idlepool.c"], [("gutil_idle_pool_get, gutil_idle_pool_get_default, gutil_idle_pool_idle", "src/gutil_idlepool.c")])
prop("C27", "Idle queue callbacks run exactly once, in order, in the iteration they belong to",
 "Every callback in an idle queue that is not cancelled runs exactly once, in order of addition, during the next event-loop iteration, and its destroy notification follows right after it. A callback added while the queue is running waits for the following iteration, and the queue may be used, cancelled or released from inside a callback without harm.",
 ["histories", "schedules"], "all sequences of additions, cancellations and iterations within the bound, with callbacks that themselves add, cancel or release",
 "Re-entrant use multiplies with positions in the queue.",
 ["src/gutil_idlequeue.c"], [("gutil_idle_queue_run, gutil_idle_queue_add_tag_full", "src/gutil_idlequeue.c")])
prop("C28", "Cancelling idle queue items is precise and always notifies",
 "Cancelling by tag removes exactly the first pending item with that tag and reports whether there was one; cancelling everything, freeing the queue or releasing its last reference removes all pending items. A cancelled item never runs but its destroy notification happens exactly once, the tag query reflects exactly the pending items, and an empty queue leaves nothing scheduled in the event loop.",
 ["histories"], "all sequences within the bound over repeated tags, cancelling the first, middle, last and only item, followed by further additions",
 "List-unlink cases times follow-up operations are only sampled.",
 ["src/gutil_idlequeue.c"], [("gutil_idle_queue_cancel_tag, gutil_idle_queue_cancel_all, gutil_idle_queue_contains_tag, gutil_idle_queue_free, gutil_idle_queue_unref", "src/gutil_idlequeue.c")])
prop("C29", "A shared weak reference yields a live object or nothing",
 "A weak reference returns its current object with a new reference while that object is alive and nothing after it is gone or replaced, without itself keeping the object alive. The weak reference stays usable until its last own reference is released and then leaves no trace on the object.",
 ["histories"], "all sequences of set, get, reference, release and object disposal within the bound over two objects",
 "Tests follow one fixed sequence.",
 ["src/gutil_weakref.c"], [("gutil_weakref_new/ref/unref/get/set", "src/gutil_weakref.c")])
LG = ["src/gutil_log.c", "include/gutil_log.h"]
prop("C30", "A log message is delivered exactly when logging is reported enabled",
 "For every module configuration, a message is delivered to the log function exactly when the enabled query says so for that module and level, which is: the level is real, no module on the inheritance path is disabled, and the level does not exceed the effective level found along the parents (or the default), messages marked as unconditional passing any level. Delivered messages go exactly once to the module's own log procedure, or else the global one, with the module, level and text of the call.",
 ["configurations", "inputs"], "all levels, flags, own procedures and parent chains up to depth three, the absent module and a disabled default included",
 "The product of levels, flags and inheritance is sampled only.",
 LG, [("gutil_logv, gutil_logv_r, gutil_log_enabled, gutil_log_enabled_r", "src/gutil_log.c")])
prop("C31", "Log output carries the complete message in the documented form",
 "Each message written to a stream is one line consisting of the optional thread id, the optional timestamp, the module name in brackets unless it is absent or empty, the severity prefix for warnings and errors, and the complete formatted text of any length. The system log and the GLib destinations receive the same text with the severity that corresponds to the level.",
 ["inputs", "configurations"], "all levels, name present/empty/absent, thread id and timestamp switches, formatted lengths on both sides of the internal buffer size",
 "Messages around the internal buffer limit and all switch combinations are not compared by tests.",
 LG, [("gutil_log_stdio, gutil_log_format, gutil_log_syslog, gutil_log_glib", "src/gutil_log.c")])
prop("C32", "Log level options select exactly the named module and level",
 "A level option is accepted exactly when its level part is a digit from 0 to 5 or a non-empty prefix of a level name and its module part, if any, names a known module in full regardless of case; it then sets that module's level (or the default level) and nothing else. A rejected option changes no level and reports an error exactly when the caller asked for one.",
 ["inputs"], "all option strings within the bound against up to two modules with symbolic names",
 "Prefix ambiguity and partial module names are only sampled.",
 LG, [("gutil_log_parse_option, gutil_log_parse_level", "src/gutil_log.c")])
prop("C33", "Log configuration calls and environment settings take effect exactly as asked",
 "Selecting a log type by name, in any case, makes exactly that destination current and the type query report it, while an unknown name is refused and keeps the destination; an absent default name keeps the current one. A timestamp format is used until replaced, the absent format restores the default, and valid environment settings for level, timestamps and thread ids take effect at start-up while invalid ones are ignored.",
 ["configurations", "inputs", "histories"], "all type strings within the bound in every current state, all short sequences of timestamp formats, all short environment values",
 "Tests exercise one sequence of settings.",
 LG, [("gutil_log_set_type, gutil_log_get_type, gutil_log_set_timestamp_format, gutil_log_description, gutil_log_init", "src/gutil_log.c")])
prop("C34", "A hex log dump covers every byte once",
 "Dumping data to the log produces, when the level is enabled, consecutive lines each showing the caller's prefix, the offset and the next up to 16 bytes, so that every byte appears once and in order, and produces nothing otherwise. It terminates for every size and reads nothing outside the data.",
 ["inputs"], "all contents and sizes within the bound and all 64-bit sizes for the first lines; enabled and disabled levels",
 "Sizes around multiples of the line length and beyond 32 bits are not tried.",
 LG, [("gutil_log_dump, gutil_log_dump_bytes, gutil_log_dump2", "src/gutil_log.c")])
IN = ["src/gutil_inotify.c", "include/gutil_inotify.h"]
prop("C35", "File change events reach exactly the watch they belong to, once and in order",
 "Every event delivered by the kernel for a live watch is passed to each handler of that watch exactly once, in order, with its mask, cookie and file name; events for watches that are gone are ignored, and a batch is never read past its end. Handlers may remove themselves or destroy their watch during delivery.",
 ["inputs", "histories"], "all batches of events within the bound for up to two watches, with arbitrary masks, cookies and names, and handlers that destroy watches",
 "Real kernel batches in tests hold one event at a time.",
 IN, [("gutil_inotify_read, gutil_inotify_callback, gutil_inotify_watch_add_handler", "src/gutil_inotify.c")])
prop("C36", "File watches share one kernel channel and release everything exactly once",
 "All watches share a single kernel notification channel that is opened by the first and closed exactly once after the last one is gone, each watch removes its own kernel watch exactly once, and a failure at any step of creating a watch yields nothing and leaks nothing. After everything is released a new watch starts afresh.",
 ["histories", "fault_sequences"], "all sequences of creating, destroying and releasing up to two watches within the bound with every kernel call allowed to fail",
 "Kernel failures and interleaved lifetimes are not provoked by tests.",
 IN, [("gutil_inotify_watch_new, gutil_inotify_watch_stop, gutil_inotify_unref", "src/gutil_inotify.c")])
prop("C37", "Clock change notification has one instance and one notification per change",
 "All users share one notifier while any of them holds it and get a fresh one afterwards; each time the kernel reports a clock change every registered handler is called exactly once and removed handlers are not. The timer channel is closed exactly once when the last reference goes, and failure to open it leaves a working notifier that simply never fires.",
 ["histories", "fault_sequences"], "all sequences of get, release, handler changes and kernel reports within the bound, with every kernel call allowed to fail",
 "Tests cannot change the system clock or make the kernel calls fail.",
 ["src/gutil_timenotify.c"], [("gutil_time_notify_new/init/callback/finalize", "src/gutil_timenotify.c")])
prop("C38", "Handler, object and event source helpers act exactly once and tolerate absence",
 "Disconnecting a list of handlers disconnects exactly the non-zero ones and zeroes them, removing or clearing an event source removes exactly that source and reports whether there was one, and taking or dropping an object reference changes the count by exactly one. Absent objects, lists and sources are harmless and change nothing.",
 ["inputs"], "all handler lists within the bound, all counts, zero and non-zero source ids, present and absent arguments",
 "Combinations of zero and non-zero entries are only sampled.",
 MI, [("gutil_disconnect_handlers, gutil_object_ref, gutil_object_unref, gutil_source_remove, gutil_source_clear", "src/gutil_misc.c")])
prop("C39", "Version words and alignment helpers are arithmetically correct",
 "Every published version constant is a usable expression equal to the packed form of its number, packing keeps the order of versions and unpacking returns the packed parts, and the run-time version equals the compile-time one. Aligning a size gives the smallest multiple of 2, 4 or 8 not below it.",
 ["inputs"], "all versions within the field widths; all sizes that do not overflow",
 "Constants are never expanded by tests; arithmetic is over all integers.",
 ["include/gutil_version.h", "src/gutil_version.c", "include/gutil_macros.h"], [("GUTIL_VERSION_*, gutil_version, G_ALIGN2/4/8", "include/gutil_version.h, include/gutil_macros.h")])
prop("C40", "Reference counting is safe under concurrent use",
 "When several threads take and release references to the same ring, history, integer array, idle pool, idle queue or weak reference, the object stays usable by every holder and is destroyed exactly once, by the release of the last reference, in every interleaving. Giving up a reference to an integer array in exchange for its data yields all of the data, whatever the other holders do meanwhile.",
 ["schedules"], "all interleavings of two threads each taking and releasing references",
 "Tests never run two threads on one object, and lost updates need a particular interleaving.",
 ["src/gutil_ring.c", "src/gutil_history.c", "src/gutil_ints.c", "src/gutil_idlepool.c", "src/gutil_idlequeue.c", "src/gutil_weakref.c"],
 [("atomic reference counters", "gutil_*_ref, gutil_*_unref")])
prop("C41", "Absent arguments are harmless wherever the API tolerates them",
 "Every call of the library that tolerates an absent object returns its documented neutral result (nothing, zero, false, -1 or the caller's default) without reading memory, changing any state or failing. A destroy notification supplied together with data that cannot be queued is still honoured.",
 ["inputs"], "all NULL-tolerant calls with arbitrary values of their remaining arguments",
 "Tests pass NULL with one set of remaining arguments, and not to every call.",
 ["src/gutil_ring.c", "src/gutil_ints.c", "src/gutil_intarray.c", "src/gutil_history.c", "src/gutil_idlequeue.c", "src/gutil_idlepool.c", "src/gutil_weakref.c", "src/gutil_strv.c", "src/gutil_objv.c", "src/gutil_misc.c", "src/gutil_inotify.c", "src/gutil_timenotify.c"],
 [("argument checks at the head of each public function", "src/*.c")])
prop("C42", "The debug build behaves like the release build",
 "In legal use no internal consistency assertion of the debug build ever fires, and results are the same whether the assertions are compiled in or not.",
 ["histories", "configurations"], "the operation histories of the ring, history, idle pool, idle queue, inotify and weak reference harnesses, compiled with assertions",
 "Assertion failures only log, so tests pass even when one fires; they also run one configuration only.",
 ["src/gutil_ring.c", "src/gutil_history.c", "src/gutil_idlepool.c", "src/gutil_idlequeue.c", "src/gutil_weakref.c", "src/gutil_inotify.c", "include/gutil_log.h"],
 [("GASSERT, GVERIFY", "include/gutil_log.h")])

prop("C43", "The help text on log options lists exactly what the options accept",
 "The description of log options lists every level once, in order, under a number and a name which a level option accepts for exactly that level, and marks precisely the level which is in effect by default. It is followed by one line with the full name of each given module in order, or by nothing if there is no module list; describing changes no level and the caller owns the text.",
 ["inputs", "configurations"], "no list and all lists of up to two modules with arbitrary names of up to four characters",
 "No test looks at the text; its agreement with the parser is a relation between two functions over every level and name.",
 LG, [("gutil_log_description, gutil_log_levels, gutil_log_parse_level", "src/gutil_log.c")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
