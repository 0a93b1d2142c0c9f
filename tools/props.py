# Single source for properties.jsonl and MANIFEST.json.  python3 tools/props.py rewrites both.
import json, os, sys

PBT = "property-based testing"
P = []

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, tech=None,
         level="exploration", note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, state=state or [], observe=observe or [], tech=tech, level=level, note=note, na=na))

D = "src/c/data.c"
prop("C01", "A map is an ordered dictionary over any keys and operation sequence",
 "For every sequence of map operations (add, add-if-unused, remove, merge, empty, look-up, iterator replace, base64-entry conversion) over any key type, including mixed key types, size, look-ups and first and last entry are those of a dictionary holding one entry per distinct key whose value is the last one added, and the map equals (and hashes as) one built directly from those entries. "
 "Iterating forwards or backwards from any position visits the entries in ascending or descending key order, each exactly once, and 'has next' is true exactly when the next forward step yields an entry. "
 "Typed getters return the stored value only when it has the requested type (number getters: when it is convertible) and the default or nothing otherwise.",
 ["histories", "inputs"], "every finite history of map operations with keys and values of every type, in maps from empty to hundreds of entries",
 "The tests use a few fixed maps of a handful of entries; the red-black rebalancing cases on insertion and removal, and iteration after mixed forward/backward steps, depend on the history.",
 [D, "include/iot/data.h"],
 [("red-black tree insert/remove/rebalance", "src/c/data.c iot_node_add, iot_node_remove, iot_node_insert_balance, iot_node_remove_balance"),
  ("in-order successor/predecessor", "src/c/data.c iot_node_next, iot_node_prev")],
 [("tree", "entries ordered by key comparison", "struct iot_data_map_t"), ("size", "entry count", "struct iot_data_map_t")],
 ["iot_data_map_get*", "iot_data_map_size", "iot_data_map_iter_*", "iot_data_map_start/end"],
 tech="stateful model-based PBT: generated operation histories against a std::map reference, invariant after each step, shrinking")

prop("C02", "A vector is a resizable sequence of optional elements",
 "For every sequence of vector operations (set, resize, compact, iterate, iterator replace, find, typed access) the vector's size and the element (or absence) at each index are those of a sequence model in which setting replaces, growing appends empty slots, shrinking discards from the end and compacting removes exactly the empty slots while keeping order; the vector equals one built directly from those elements. "
 "Iteration visits every index exactly once in ascending (forward) or descending (backward) order, and 'has next' is true exactly when the next forward step yields an element.",
 ["histories", "inputs"], "every finite history of vector operations, sizes from zero to hundreds, with empty slots anywhere",
 "Tests compact and resize a few fixed vectors; which slots are empty and which iterator positions are reached depends on the history.",
 [D], [("bounds and slot bookkeeping", "src/c/data.c iot_data_vector_add, iot_data_vector_resize, iot_data_vector_compact, iot_data_vector_iter_*")],
 [("values,size", "slot array and its length", "struct iot_data_vector_t")], ["iot_data_vector_get", "iot_data_vector_size", "iot_data_vector_iter_*", "iot_data_vector_find"],
 tech="stateful model-based PBT against a sequence model")

prop("C03", "A list is a double-ended queue with in-place edit through iterators",
 "For every sequence of list operations (push and pop at head or tail, find, remove-first-match, empty, iterator remove and replace), the list's length and its contents from tail to head are those of a double-ended queue, and it equals a list built directly from them. "
 "Iteration visits every element exactly once from tail to head (forward) or head to tail (backward); removing through an iterator removes exactly the current element and a following forward step yields the element after it; 'has next' is true exactly when the next forward step yields an element. "
 "Find and remove act on the matching element nearest the tail and report whether one existed.",
 ["histories", "inputs"], "every finite history of list operations",
 "Tests exercise fixed short sequences; length bookkeeping lives in whichever element is currently the head, so correctness depends on the whole history.",
 [D], [("doubly linked elements; head element carries length", "src/c/data.c iot_data_list_*")],
 [("head,tail,length", "ends of the list and element count", "struct iot_data_list_t / iot_element_t")], ["iot_data_list_length", "iot_data_list_iter_*", "iot_data_list_head_pop", "iot_data_list_tail_pop"],
 tech="stateful model-based PBT against a deque model")

prop("C04", "Comparison is a total order consistent with equality and hashing",
 "Over all data values not containing NaN, however they were built or mutated, comparison is reflexive, antisymmetric and transitive, is zero exactly when the two values have the same type and the same contents, agrees with equality, and equal values have equal hashes. "
 "Scalars of the same type order by value and strings by byte order. "
 "Value-based comparison and equality additionally treat integers of any width and signedness, and floats of either width, by their mathematical value, also as elements inside vectors, lists and map values.",
 ["inputs", "histories"], "all pairs and triples of generated values of every type, nested containers, and values reached through mutation histories (replace, increment, resize, remove, compact)",
 "Tests compare a few dozen hand-written pairs; order laws quantify over triples, and hashes are cached and invalidated by mutation history.",
 [D, "src/c/hash.c"], [("recursive compare with cached hash and rehash flag", "src/c/data.c iot_data_cmp, iot_data_hash"), ("string/byte hash", "src/c/hash.c")],
 [("hash,rehash", "cached hash and its invalidation flag", "struct iot_data_t")], ["iot_data_compare", "iot_data_compare_value", "iot_data_equal", "iot_data_equal_value", "iot_data_hash"],
 tech="PBT: algebraic laws over generated value triples, differential against a reference comparator, mutate-then-compare with freshly built twin")

prop("C05", "Copies are equal and independent; shallow copies share elements",
 "A copy of any value equals the original, has the same type, element type and key type and carries the same metadata, and no later change to either one (at any nesting depth, or to its metadata) is visible in the other. "
 "A shallow copy of a map, vector or list is a distinct container of the same type holding the very same element objects, and of any other value it is the value itself with one more reference. "
 "Pointer values are shared, not duplicated, by a copy, and the originals are unchanged by copying.",
 ["inputs", "histories"], "all generated nested values, followed by generated mutation sequences on one side",
 "Tests copy a few fixed values; independence must hold for every value and every later mutation.",
 [D], [("recursive copy", "src/c/data.c iot_data_copy"), ("reference-sharing copy", "src/c/data.c iot_data_shallow_copy")], [], ["iot_data_copy", "iot_data_shallow_copy"],
 tech="PBT: metamorphic copy/mutate relation with structural snapshot oracle under ASan")

prop("C06", "Values and buffers are released exactly once, when the last reference goes",
 "For every program of data operations that follows the documented ownership rules, a value stays usable until its last reference is freed, a caller-supplied release function runs exactly once and only then, and when all references held by the program are freed no memory remains allocated and nothing is freed twice or used after free. "
 "A copied buffer is independent of the caller's buffer, a taken buffer is released by the value (or handed back by the take operation), and a referenced buffer is never written or released; the reported reference count always equals the number of references held.",
 ["histories", "programs"], "generated programs over the whole value API: allocation in every ownership mode, containers, metadata, tags, copies, conversions, path edits, compression, both heap and block allocation policy",
 "Tests each use one short life cycle; leaks and double frees depend on combinations of sharing, replacement, metadata and ownership mode.",
 [D], [("atomic reference count and recursive free", "src/c/data.c iot_data_free, iot_data_add_ref"), ("ownership flags", "src/c/data.c release, release_block, heap")],
 [("refs", "reference count", "struct iot_data_t")], ["iot_data_ref_count", "free function calls", "live heap allocation count"],
 tech="stateful PBT: generated ownership programs against a reference-count model, ASan plus exact live-allocation balance per case")

prop("C07", "Compression shares equal parts without changing the value",
 "Compressing any map, vector or list leaves it equal to its value before compression (same contents, order, sizes and JSON text), and afterwards equal keys and equal element values reachable in it are the same object. "
 "With a shared cache the same holds across all values compressed with that cache, and freeing the values and the cache in any order releases everything.",
 ["inputs", "histories"], "all generated nested values with repeated sub-values, with one or several values sharing a cache",
 "Tests compress two small maps; sharing depends on which sub-values happen to be equal.",
 [D], [("value cache keyed by the value itself", "src/c/data.c iot_data_cache_add, iot_data_compress_with_cache")], [], ["iot_data_compress", "iot_data_compress_with_cache"],
 tech="PBT: value preserved (snapshot before/after) and pointer-identity of equal sub-values")

J = "src/c/data-json.c"
prop("C08", "Writing a value as JSON and reading it back preserves the value",
 "For every value built from null, booleans, strings, integers, finite floats and string-keyed maps, vectors and lists of these, the JSON text written for it parses back to a value with the same structure, map keys, sequence order, strings byte for byte, and integers exactly; floats read back equal to the precision written, and infinities read back as infinities of the same sign. "
 "Writing the parsed value again gives the same text (32-bit floats aside, which are read as 64-bit ones), and parsing with ordering enabled and writing again reproduces the object member order of the source text.",
 ["inputs"], "all generated value trees, with strings over all non-zero bytes that form valid UTF-8 and integers over the full 64-bit signed and unsigned range",
 "Tests round-trip three documents; escape sequences, number ranges and nesting are combinatorial.",
 [J, "src/c/json.c", D], [("escaping writer", "src/c/data-json.c iot_data_dump, src/c/data.c iot_data_strcat_escape"), ("tokeniser and value builder", "src/c/json.c, src/c/data-json.c")], [], ["iot_data_to_json", "iot_data_from_json", "iot_data_from_json_with_ordering"],
 tech="PBT round-trip with an independent reference JSON reader")

prop("C09", "JSON text is read correctly or rejected, never mis-read or memory-unsafe",
 "For any text, reading JSON terminates without touching memory outside the text and leaks nothing: every document valid under RFC 8259 (within documented limits) is read as exactly the value it denotes, including all escape sequences and Unicode code points (an unpaired surrogate as U+FFFD), and with or without ordering or a shared key cache; text with a malformed escape sequence in a string, or with brackets that do not match, is rejected. "
 "The tokeniser never writes more tokens than it is given, reports the same token count with and without a token array, gives each token a range inside the text and a parent-consistent size, and resumes correctly after reporting that it needs more tokens or more text.",
 ["inputs"], "arbitrary byte strings, mutated valid documents and generated valid documents, with every token-array size",
 "Tests parse a few valid documents; malformed and adversarial text is unbounded.",
 ["src/c/json.c", J], [("jsmn-style tokeniser", "src/c/json.c iot_json_parse"), ("token to value conversion", "src/c/data-json.c iot_data_value_from_json")], [], ["iot_json_parse", "iot_data_from_json*"],
 tech="grammar-based and mutational fuzzing with ASan, differential against a reference RFC 8259 reader; libFuzzer in the thorough tier")

prop("C10", "JSON output is valid and independent of the output buffer given",
 "For every value, the text written is syntactically valid JSON that an independent reader maps back to that value (arrays as number lists, binary as base64 strings, non-string keys as strings, empty slots as null), whatever initial size or caller buffer is supplied. "
 "A caller buffer is never written beyond its size, and is returned exactly when the text was written into it; when ordering metadata is present the members written are exactly the ordered keys that exist, in that order.",
 ["inputs", "configurations"], "all generated values of all types times all initial sizes and caller buffer sizes around the needed length",
 "Tests use two buffer sizes on small values; growth happens at many different points in the writer.",
 [J, D], [("growable string holder", "src/c/data.c iot_data_holder_realloc, iot_data_strcat_escape; src/c/data-json.c iot_data_dump*")], [], ["iot_data_to_json_with_size", "iot_data_to_json_with_buffer"],
 tech="PBT: differential across buffer sizes plus independent reader, guard bytes around caller buffers under ASan")

prop("C11", "CBOR output decodes to the value, whatever the buffer size",
 "For every value, the CBOR produced is a single well-formed data item that an independent decoder maps back to that value: unsigned integers, floats of both widths including zero, subnormal and infinite values, strings, byte strings, booleans, null, typed arrays, vectors, lists and maps with any key type. "
 "The output is the same for every initial buffer size and uses the shortest length and integer encodings.",
 ["inputs", "configurations"], "all generated values of all types times initial sizes",
 "Tests compare the hash of three outputs.",
 ["src/c/data-cbor.c"], [("recursive encoder with growable buffer", "src/c/data-cbor.c")], [], ["iot_data_to_cbor", "iot_data_to_cbor_with_size"],
 tech="PBT: independent CBOR decoder as oracle, differential across buffer sizes under ASan/UBSan")

prop("C12", "XML documents are converted faithfully; other text is rejected cleanly",
 "For every well-formed XML document the result is the element tree with each element's name, all its attributes with entity-decoded values, its child elements in document order, and its character data following the documented layout. "
 "For any other text conversion returns nothing or a value, without memory errors, leaks or hanging, and text that is not a complete element is rejected.",
 ["inputs"], "generated element trees rendered to XML with varied quoting, entities, comments, CDATA and whitespace, plus arbitrary and truncated text",
 "One document is tested.",
 ["src/c/data-xml.c", "src/c/yxml.c"], [("streaming parser driving a stack of element maps", "src/c/data-xml.c, src/c/yxml.c")], [], ["iot_data_from_xml"],
 tech="generate-render-parse PBT against the generated tree; mutational fuzzing under ASan")

prop("C13", "YAML documents are converted faithfully; errors are reported",
 "For every YAML document built from block and flow mappings, sequences and plain or quoted scalars, the result is the map, vector or scalar the document denotes: key order irrelevant, sequence order kept, quoted scalars always strings, plain scalars typed as booleans, integers over the full 64-bit range, floats, null or strings. "
 "For any text conversion terminates without memory errors or leaks, and a document with a syntax error yields nothing together with an exception description.",
 ["inputs"], "generated documents in block and flow style, plus arbitrary and mutated text",
 "One document is tested.",
 ["src/c/data-yaml.c"], [("event-driven builder over libyaml", "src/c/data-yaml.c")], [], ["iot_data_from_yaml"],
 tech="generate-render-parse PBT; mutational fuzzing under ASan")

prop("C14", "Numeric conversion is exact or refused",
 "Converting any integer, float or boolean value to any other of these types succeeds exactly when the value lies within the target type's range, and then yields the mathematical value truncated toward zero for integer targets, nearest representable for float targets, and non-zero-ness for boolean. "
 "When it does not fit (including infinities and NaN to integers) conversion reports failure; converting a value to its own type returns the same object with one more reference, and non-numeric values are refused.",
 ["inputs"], "every source type, target type and value, concentrated on type boundaries and the neighbours of powers of two",
 "Tests probe a handful of boundary values; the range checks go through double arithmetic where boundaries round.",
 [D], [("range check through doubles then C cast", "src/c/data.c iot_data_cast_val, iot_data_transform")], [], ["iot_data_cast", "iot_data_transform", "iot_data_map_get_number"],
 tech="PBT against an exact 128-bit reference, boundary-biased generation under UBSan")

prop("C15", "Text is converted to scalars within range, and type names round-trip",
 "A numeric value created from the decimal text of any number in the type's range has exactly that value (nearest representable for floats), text of a number outside an integer type's range is refused, and text that does not start with a number is refused; booleans and strings are taken as documented. "
 "Every type's name maps back to that type ignoring case, unknown names map to the invalid type, and typecodes describe a value exactly: a value matches a typecode if and only if type, element type and key type agree where they apply.",
 ["inputs"], "all types, decimal renderings of values over and around each type's range, arbitrary text",
 "Tests try the two extreme values of each type.",
 [D], [("scanf-based conversion", "src/c/data.c iot_data_alloc_from_string"), ("name table", "src/c/data.c iot_data_name_type, iot_data_type_string")], [], ["iot_data_alloc_from_string", "iot_data_alloc_from_strings", "iot_data_name_type", "iot_data_matches"],
 tech="PBT: render/parse round-trip with exact reference, boundary-biased")

prop("C16", "Arrays, binaries and their conversions keep every element",
 "An array or binary holds exactly the elements it was created from: length, byte size, indexed access and iteration in both directions agree with them, and conversion between string, binary and byte array and back preserves every byte. "
 "Taking the buffer of a binary or array returns all its bytes whether or not it is shared or borrowed, and leaves other holders' contents intact; transforming an array to another element type yields exactly the convertible elements, converted, in order.",
 ["inputs", "histories"], "all element types, lengths from zero to thousands, all ownership modes, shared and unshared",
 "Tests take one unshared byte buffer and transform small arrays.",
 [D], [("array buffer ownership and element size arithmetic", "src/c/data.c iot_data_alloc_array, iot_data_binary_take, iot_data_array_transform, iot_data_array_iter_*")], [], ["iot_data_array_*", "iot_data_binary_*"],
 tech="PBT against a byte/element vector model under ASan")

prop("C17", "Base64 encoding and decoding are exact inverses and reject bad input safely",
 "Decoding the encoding of any byte string yields that byte string, encoded text is the standard padded base64 text of exactly the announced size, and nothing beyond the announced sizes is ever written. "
 "Decoding any text terminates within the output space given, returns exactly the bytes a standard decoder does for well-formed text, and reports failure when the output space is too small or the text has characters outside the alphabet.",
 ["inputs"], "all byte strings by length class, all output sizes, arbitrary and mutated text",
 "Tests use a few fixed strings.",
 ["src/c/base64.c"], [("table-driven codec and size functions", "src/c/base64.c")], [], ["iot_b64_encode", "iot_b64_decode", "iot_b64_encodesize", "iot_b64_maxdecodesize"],
 tech="PBT round-trip and differential against a reference codec with exact-size guarded buffers under ASan")

prop("C18", "Path operations edit one place in a new structure; the original is intact",
 "Reading at a path returns the object found by following the keys and indexes, or nothing when the path does not match the data. "
 "Adding, updating or removing at a path returns a new structure that differs from the original only at that path (new map keys may be added, the removed entry is gone and later vector elements move down), sharing every untouched part with the original, and the original's contents never change. Updating or removing at a path that does not match the data changes nothing. ",
 ["inputs", "histories"], "generated nested maps and vectors with matching and mismatching paths of every depth",
 "Tests follow one three-step path.",
 [D], [("shallow copy along the path", "src/c/data.c iot_data_get_at, iot_data_add_at, iot_data_remove_at, iot_data_update_at")], [], ["iot_data_get_at", "iot_data_add_at", "iot_data_remove_at", "iot_data_update_at"],
 tech="PBT against a persistent-tree model, snapshot of the original, pointer-identity of shared parts")

prop("C19", "Vector flattening, counting and dimensions are exact",
 "Flattening a vector to an array or typed vector yields exactly the elements convertible to the target type, converted, in order, descending into nested vectors exactly when asked, and element counts equal the number of matching elements. "
 "Dimensions are reported exactly for rectangular nests of vectors, with their product as the total, where a vector holding anything but vectors counts as a row of its size, and every nest whose vectors at one level differ in size or depth is reported as invalid.",
 ["inputs"], "generated nested vectors, rectangular, near-rectangular and ragged, with empty slots and mixed element types",
 "Tests use a few fixed rectangular nests.",
 [D], [("recursive count, copy and dimension walk", "src/c/data.c iot_data_vector_elements, iot_data_vector_copy_to_array, iot_data_vector_depth, iot_data_vector_dims")], [], ["iot_data_vector_to_array", "iot_data_vector_to_vector", "iot_data_vector_dimensions", "iot_data_vector_element_count"],
 tech="PBT against a recursive reference under ASan")

prop("C20", "The blocking queue is a bounded FIFO under every schedule",
 "Under every interleaving of producers and consumers, each element accepted by the queue is delivered to exactly one consumer, elements of one producer are delivered in the order it added them, and the queue never holds more than its limit. "
 "A producer blocked by a full queue and a consumer blocked by an empty one proceed once space or an element is available or the queue is stopped, non-blocking operations return promptly with a truthful result, and no schedule deadlocks or loses a wake-up. Stopping does not discard queued elements; only an element whose blocking add meets a full queue that is being stopped is dropped, without being leaked.",
 ["schedules", "histories"], "generated thread programs of enqueue, dequeue, try, resize, size and stop operations under generated interleavings and clock advances",
 "Tests run a producer and a consumer with real timing, one schedule per run.",
 ["src/c/queue.c"], [("mutex plus condition variables", "src/c/queue.c")], [("list,running", "queued elements and run flag", "struct iot_queue_t")], ["iot_queue_*"],
 tech="schedule-controlled stateful PBT: deterministic cooperative scheduler interposed under the real code, history oracle")

prop("C21", "A thread pool runs every accepted job exactly once, respecting order and limits",
 "Under every schedule each job accepted by a pool runs exactly once on a pool thread with its own argument (unless the pool is freed while the job is still queued), the pool's threads take waiting jobs in priority order (then submission order), each job that has a priority runs with its thread set to that priority, never more jobs run at once than there are pool threads, never more wait than the configured limit, and a refused or blocked submission behaves as documented. "
 "Waiting on the pool returns only when no job is queued or running and always returns then, for any number of waiters; a waiting job starts whenever the pool runs and has a free thread; a stopped pool takes no more jobs until started again (a job already taken still runs) and stop, start and free complete without deadlock.",
 ["schedules", "histories"], "generated programs of submissions, waits, stops and starts from several threads under generated interleavings",
 "Tests use real threads and sleeps and see one schedule per run.",
 ["src/c/threadpool.c", "src/c/thread.c"], [("priority queue under a mutex, work/job/queue conditions", "src/c/threadpool.c")], [("jobs,working", "queued jobs and active job count", "struct iot_threadpool_t")], ["iot_threadpool_*"],
 tech="schedule-controlled stateful PBT with deadlock detection and history oracle")

prop("C22", "Schedules fire on time, the right number of times, and never after removal",
 "Under every schedule of threads and clock, a scheduled function never runs before its start time nor two consecutive runs closer than its period allows, uses up exactly its repeat count (or runs for ever when unlimited) while the scheduler is running, where a due time skipped because the previous run goes on, or dropped by a full pool, counts as used, and runs promptly once due. "
 "After removal, deletion, or scheduler stop no new run starts until it is added or started again (a run already under way completes); a schedule added again after using up its count gets its full count, a reset moves its next run to one period plus the delay from then; a non-concurrent schedule never overlaps itself, and a synchronous one runs on the scheduler thread. "
 "Each schedule's release function runs exactly once, and delete, stop and free complete without deadlock.",
 ["schedules", "histories"], "generated programs of create/add/remove/reset/delete/start/stop over several schedules, with generated interleavings and a virtual clock",
 "Tests count runs under real sleeps with tolerances.",
 ["src/c/scheduler.c", "src/c/threadpool.c"], [("time-ordered map of schedules and a condition timed-wait", "src/c/scheduler.c iot_scheduler_thread")], [("queue,idle,schd_time", "armed schedules, unarmed schedules and next wake-up", "struct iot_scheduler_t")], ["iot_schedule_*", "iot_scheduler_*"],
 tech="schedule-controlled stateful PBT on a virtual clock with a timing oracle")

prop("C23", "A logger delivers exactly the messages its level and chain admit",
 "For every configuration and history of level changes, stop, start and chaining, a message logged at a logger reaches that logger's sink if and only if the message level is at or below the level in force, exactly once and with the text the format denotes, and likewise the sink of each next logger along the chain under that logger's own level and with the same time stamp; the logging macros send nothing along the chain that the first logger does not admit. "
 "A stopped logger emits nothing, even when its level is set while it is stopped; starting restores the level it was last given; messages from several threads are not mixed up; and messages of any length are delivered or cut cleanly, each record still a line of its own, without touching memory outside their buffers. Loggers and their contexts are released exactly once, when nothing refers to them any more.",
 ["histories", "configurations", "inputs"], "generated logger chains, levels, message formats and lengths, and start/stop histories, for custom, console, file and UDP sinks, also from several threads under generated schedules",
 "Tests log a few short messages at fixed levels.",
 ["src/c/logger.c"], [("level compare and chain walk", "src/c/logger.c iot_log__log")], [("level,save,running", "effective and saved level", "struct iot_logger_t")], ["iot_log_*", "iot_logger_*"],
 tech="stateful PBT against a logger-chain model; console, file and loopback UDP sinks under ASan; schedule-controlled logging from several threads")

prop("C24", "Stored files are replaced atomically and results are truthful",
 "Writing a file or a stored configuration leaves, at every crash or failure point, either the complete previous contents or the complete new contents at that path, and success is reported exactly when the new contents are in place. "
 "Reading returns exactly the bytes last stored, deleting removes exactly the named file and reports whether it did, and listing returns exactly the matching names. ",
 ["crash_points", "fault_sequences", "histories"], "every injected failure or crash at each file-system call of generated save/load/delete/list histories",
 "Tests write and read one file with no faults.",
 ["src/c/file.c", "src/c/store.c"], [("write to temporary file then rename", "src/c/file.c iot_file_write_binary")], [], ["iot_file_*", "iot_store_config_*"],
 tech="fault-injection PBT: enumerated failure/crash at each interposed file-system call of generated histories, against a file model", level="fault_enumeration")

prop("C25", "Environment substitution replaces every reference and nothing else",
 "For every input string and environment, substitution returns the string with each well-formed variable reference replaced by that variable's value and all other text unchanged, or nothing when a reference names an unset variable, has no name or has a name of more than 63 characters, without touching memory outside its strings. A reference without its closing brace is ordinary text, and substituted values are not scanned again. "
 "The input string and the environment are never changed, and the result is always a string of its own.",
 ["inputs", "configurations"], "generated strings with references in every position and nesting, generated environments with empty, long and reference-like values",
 "Tests substitute one variable.",
 ["src/c/config.c"], [("reference scanner", "src/c/config.c iot_config_substitute_env")], [], ["iot_config_substitute_env"],
 tech="PBT against a reference substitution under ASan")

prop("C26", "Typed configuration getters return the value or a truthful failure",
 "For every configuration map, a typed getter succeeds exactly when the key is present with a value convertible to the requested type, yields that value, and otherwise reports failure leaving the caller's variable unchanged; default variants yield the default instead. "
 "Text getters return the stored text (a copy when asked) and container getters the stored container only when the type matches.",
 ["inputs"], "generated configuration maps with values of every type, for every getter and key",
 "Tests read a few well-typed entries.",
 ["src/c/config.c"], [("map look-up plus numeric conversion", "src/c/config.c")], [], ["iot_config_*"],
 tech="PBT against a model of the configuration map")

prop("C27", "A container builds, starts, stops and frees components in dependency order",
 "For every configuration graph of components, initialisation creates each configured component exactly once, with components it looks up created before it, and a dependency cycle or unknown component yields nothing for that look-up rather than recursion without end. "
 "Starting starts every component in creation order, stopping stops them in reverse order, freeing stops each component that is not stopped and frees each exactly once, and running, starting and stopping callbacks are made once per transition. "
 "Listing, look-up, deletion and reconfiguration at run time act on exactly the named component and report its true name, type and state.",
 ["configurations", "histories"], "generated dependency graphs of mock components (including cycles, missing types, disabled factories) and generated life-cycle histories",
 "Tests start one fixed container.",
 ["src/c/container.c", "src/c/component.c"], [("component list ordered by creation", "src/c/container.c iot_container_*")], [("components", "list of live components", "struct iot_container_t")], ["iot_container_*"],
 tech="stateful PBT with mock component factories against a container model")

prop("C28", "Component states follow the life cycle and waiters are never lost",
 "Under every interleaving of state changes and waiting threads, a component's state only changes along permitted transitions (a deleted component never becomes active again, a running component is stopped before deletion), each request reports truthfully whether it took effect, and waiting for a set of states returns a state in that set. "
 "A waiter always returns once the component enters a state it waits for, including when it is deleted, and reference-counted components are freed exactly once.",
 ["schedules", "histories"], "generated programs of transitions and waits from several threads under generated interleavings",
 "Tests change states from one thread.",
 ["src/c/component.c"], [("mutex, condition broadcast", "src/c/component.c iot_component_set_state, iot_component_wait*")], [("state", "life-cycle state", "struct iot_component_t")], ["iot_component_*"],
 tech="schedule-controlled PBT with state-machine oracle")

prop("C29", "Times never repeat or go backwards; identifiers are unique and well formed",
 "Successive nanosecond time stamps, taken by any number of threads and whatever the system clock does, are strictly increasing and unique, and the coarser time functions agree with the clock to their unit. "
 "Every generated identifier is a well-formed version 4 (random) UUID, each of its other bits random, whose text form is accepted by the UUID check and denotes the same bytes, no two are equal, and the check accepts exactly the 36-character UUID syntax.",
 ["schedules", "inputs"], "generated clock behaviours (stalls, jumps backwards and forwards) and interleavings; arbitrary strings near the UUID syntax",
 "Tests take two time stamps.",
 ["src/c/time.c", "src/c/uuid.c", "src/c/util.c"], [("compare-and-swap on the last time", "src/c/time.c iot_time_nsecs"), ("random bits and version stamping", "src/c/uuid.c")], [], ["iot_time_*", "iot_uuid_*", "iot_util_string_is_uuid"],
 tech="schedule- and clock-controlled PBT; grammar-based generation for UUID strings")

prop("C30", "Sharing values between threads is safe",
 "Under every interleaving of threads that take and drop references to shared values, read them, and allocate and free values, each value is released exactly once after its last reference is dropped, no two live values ever share memory, and a value created by a thread keeps its contents until it is released: all threads that read, compare, hash, copy or encode a shared value at once see those contents. ",
 ["schedules"], "generated thread programs of add-reference, free, allocate and look-up under generated interleavings, in the debug build and the block-cache build",
 "No test shares values between threads; the release-build block allocator is never tested.",
 [D], [("atomic reference counting", "src/c/data.c iot_data_add_ref, iot_data_free"), ("mutex-protected block free list", "src/c/data.c iot_data_alloc_block, iot_data_block_free")], [("refs, block free list", "reference count and free blocks", "struct iot_data_t, iot_data_cache")], ["iot_data_free", "iot_data_block_alloc"],
 tech="schedule-controlled PBT with yield points at atomics and locks, in both build variants")

prop("C31", "Threads are created as asked for, priorities and mutexes are truthful",
 "Creating a thread runs the given function exactly once with the given argument in a detached thread and stores its id; it returns true exactly when a thread was created. "
 "The thread runs with FIFO scheduling at the requested priority exactly when that priority is valid and the process is privileged, otherwise with default scheduling, and is bound to the requested CPU exactly when that names an online CPU. If the platform refuses such attributes the thread is still created, detached, with default ones, whatever system call fails. "
 "A priority is valid exactly if it is in the platform's FIFO range, setting a priority reports success exactly when it took effect and reading returns it, and an initialised mutex excludes other threads until unlocked.",
 ["inputs", "fault_sequences"], "all priorities and CPU numbers near their limits, privileged and unprivileged processes, injected refusals of thread attributes and creation",
 "Tests create threads with a few valid priorities as one user, and no attribute call ever fails.",
 ["src/c/thread.c"], [("thread attributes, fallback creation", "src/c/thread.c iot_thread_create"), ("FIFO range", "src/c/thread.c iot_thread_priority_valid")], [], ["iot_thread_*", "iot_mutex_init"],
 tech="property-based testing with fault injection at the wrapped pthread calls and a model of the attributes the thread must get")

prop("C32", "Pools, schedulers and loggers configured by name behave as configured",
 "A thread pool, scheduler or logger that a container builds from a named configuration has exactly the configured behaviour under every interleaving: a pool runs at most Threads jobs at a time, accepts at most MaxJobs queued jobs (no limit if zero or absent), runs its threads at the configured Priority, a scheduler runs its schedules on the named pool, and each logs through the named logger. "
 "That holds in whatever order the components are named in the configuration; they start and stop with the container, references taken on them outlive it, and each is released exactly once.",
 ["configurations", "schedules"], "generated container configurations of the built-in component types, driven under generated interleavings",
 "Tests build each built-in component once from one fixed configuration.",
 ["src/c/threadpool.c", "src/c/scheduler.c", "src/c/logger.c", "src/c/container.c"], [("configuration to constructor arguments", "src/c/threadpool.c iot_threadpool_config, src/c/scheduler.c iot_scheduler_config, src/c/logger.c iot_logger_config")], [], ["iot_threadpool_factory", "iot_scheduler_factory", "iot_logger_factory"],
 tech="schedule-controlled PBT over generated configurations against a behavioural model")

prop("C33", "Caller-storage constants, tags and helper functions are faithful",
 "A constant built in caller-provided storage lives at that address, equals, orders, hashes, converts, prints, encodes and compresses like an ordinary value with the same contents, can be a key or element of any container, is never freed, and remains usable after any number of references are dropped; the predefined constants denote their documented values. "
 "User tags of a value are independent booleans: setting one returns its previous setting, changes no other tag, and changes neither equality nor hash. "
 "The string hash function is the documented djb2 form, type sizes are those of the C types, and the not-a-number check is true exactly for not-a-number floats.",
 ["inputs", "histories"], "arbitrary strings and values in constants, mixed with ordinary values in containers; tag operation histories",
 "Tests build one or two constants and never mix them with ordinary values.",
 [D], [("constant flag, caller storage", "src/c/data.c iot_data_alloc_const_*, iot_data_free")], [("constant, tag1, tag2", "constant flag and user tags", "struct iot_data_t")], ["iot_data_alloc_const_*", "iot_data_set_tag*", "iot_hash_data"],
 tech="property-based testing against ordinary values (differential) and a tag model")

prop("C34", "Component types are loaded from libraries exactly as configured",
 "If a component's configuration names a library and a factory function and its type is not known, initialising the container loads that library, calls the function once for the type and uses the factory it returns; a type already known is not loaded again, and libraries that define functions of the same name each use their own. "
 "A library or function that does not exist, a function that returns no factory, or a configuration that gives only one of the two, is reported and leaves only that component absent while all others are created as if it was not configured; the factory remains usable by later containers.",
 ["configurations", "fault_sequences"], "generated container configurations with libraries and factory names that do or do not exist, in any order",
 "Tests load one library that exists.",
 ["src/c/container.c"], [("dlopen, dlsym", "src/c/container.c iot_container_try_load_component")], [("factory list", "known component types", "src/c/container.c iot_component_factories")], ["iot_container_init", "iot_component_factory_find"],
 tech="property-based testing with generated configurations and libraries against a container model")

CLAIMED = None   # set by claimed.txt

def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    claimed = open(os.path.join(root, "tools", "claimed.txt")).read().split()
    notes = json.load(open(os.path.join(root, "tools", "notes.json"))) if os.path.exists(os.path.join(root, "tools", "notes.json")) else {}
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            o = dict(id=p["id"], title=p["title"], statement=p["statement"].strip(),
                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                                  mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                  observe_at=p["observe"], hook_needed=None))
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(o) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in claimed:
            checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"],
                               thorough_cmd="python3 run.py %s thorough" % p["id"],
                               technique=p["tech"], level=p["level"],
                               level_note=notes.get(p["id"]) or p["note"] or "Bounded random exploration: a pass means no counterexample among the generated cases; trusts the reference model in the harness and the sanitizers."))
        else:
            na.append(dict(property=p["id"], reason=p["na"] or "check not built yet"))
    m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(root, "MANIFEST.json"), "a").write("\n")

if __name__ == "__main__":
    main()
