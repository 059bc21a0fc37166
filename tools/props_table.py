prop("C01", "String view queries answer like the plain character sequence they view",
 "For every character type, contents and in-range arguments, each read-only string view operation (element access, forward and backward search for a character, substring, character set or predicate, comparison, ordering (by the character type's own <) and equality, prefix and suffix tests, containment, sub-view extraction, copying out, hashing, stream output) gives exactly the answer that the equal std::basic_string_view (or a naive scan for the operations std lacks) gives. The position find_last_of reports is a known exception (recorded as a finding). No query reads a character outside the viewed range or changes the view.",
 ["inputs"], "all contents, needles, positions and counts within the documented preconditions, for char, char16_t, char32_t and wchar_t",
 "The tests use a few literal strings of char; start positions other than zero, needles not found, bytes above 127, embedded NULs, empty views and wider character types are hardly touched.",
 [I+"daw_string_view.h"], [("find/rfind/find_*_of/compare/substr", I+"daw_string_view.h")])
prop("C02", "Consuming string view operations split exactly at the documented point",
 "Every consuming string view operation (pop, remove, trim, resize; from the front or the back; until/while a character, substring or predicate; keeping or discarding the delimiter) returns and leaves exactly the sub-ranges its documentation defines, so that the pieces plus the discarded delimiter rebuild the original text. A try_ variant leaves the view untouched and returns an empty view when the delimiter is absent, and repeated splitting visits every field once, in order, and ends.",
 ["inputs", "histories"], "all contents and delimiters, and all sequences of consuming operations on one view",
 "Tests check single calls on a handful of literals; sequences, absent or repeated delimiters, delimiters at the ends and multi-character delimiters are a combinatorial space.",
 [I+"daw_string_view.h", "string_view2.md"], [("pop_*/remove_*/trim*/try_pop_*", I+"daw_string_view.h")])
prop("C03", "A string view's C string always ends where the view ends",
 "After any sequence of constructions and modifications of string views, the C string obtained from a view is terminated by a NUL directly after the view's characters and its contents equal the view. A view reports itself as zero terminated only if a NUL really follows its last character.",
 ["histories"], "all sequences of constructors, assignments, prefix/suffix removals, expansions, resizes and sub-view extractions over any buffer",
 "The flag travels through every mutator; tests look at it for a few fresh views, not after histories of operations.",
 [I+"daw_string_view.h"], [("zero-terminated flag kept in the size word", I+"daw_string_view.h"), ("c_str_proxy copies when not terminated", I+"daw_string_view.h")])
prop("C04", "vector behaves as a plain sequence and keeps element lifetimes balanced",
 "After any history of construction, assignment, insertion, emplacement, erasure, resizing, reserving, swapping, copying and moving, a vector holds exactly the elements the same history gives in a reference sequence, with size, capacity, iterators, comparisons and returned positions agreeing. Every element constructed is destroyed exactly once and no memory is leaked or touched out of bounds; when an element operation or allocation throws, the vector stays valid, nothing leaks, and appending one element leaves the contents unchanged.",
 ["histories", "fault_sequences"], "all operation histories, element types with observable lifetimes and all points at which an element copy or an allocation fails",
 "Unit tests exercise a few fixed sequences with int; reallocation boundaries, aliasing and throwing element operations are not reached.",
 [I+"vector.h", I+"split_buffer.h", I+"wrap_iter.h", I+"vector_algorithm.h"], [("split_buffer growth and swap-out", I+"split_buffer.h"), ("exception guards", I+"vector.h")])
prop("C05", "Fixed-capacity and array-like containers follow a sequence model",
 "For any history of operations within capacity, the bounded vector, bounded array, simple array, unique array, and the deprecated fixed array, heap array and carray hold exactly the elements a reference sequence would hold, in order, with matching size, capacity, iteration and bounds-checked access. Every element is constructed and destroyed exactly once, and accesses never leave the storage.",
 ["histories"], "all operation histories that respect the documented capacity limits",
 "Each container has a test with one short fixed history, if any.",
 [I+"daw_bounded_vector.h", I+"daw_unique_array.h", I+"daw_simple_array.h", I+"daw_array.h", I+"deprecated/daw_fixed_array.h", I+"deprecated/daw_heap_array.h", I+"deprecated/daw_carray.h"],
 [("element storage and shifting", I+"daw_bounded_vector.h")])
prop("C06", "Keyed containers behave as maps and sets under any history",
 "After any history of inserts, updates, erases, lookups and clears within capacity, every keyed container (hash set, ordered map, bounded hash map and set, fixed lookup; not the deprecated hash_table) contains exactly the keys and values that a reference map or set holds after the same history: nothing is lost, duplicated or resurrected, including among colliding keys. Iteration visits each stored entry exactly once.",
 ["histories"], "all histories of insert/erase/lookup/clear, including colliding hashes and a full table",
 "Tests insert a few keys once; deletions inside collision chains and near-full tables need long histories.",
 [I+"daw_hash_set.h", I+"deprecated/daw_ordered_map.h", I+"deprecated/daw_bounded_hash_map.h", I+"deprecated/daw_bounded_hash_set.h", I+"deprecated/daw_fixed_lookup.h"],
 [("probing and erase", I+"deprecated/daw_bounded_hash_map.h")])
prop("C07", "Prebuilt lookup tables find every key they were built from and no other",
 "A static hash table or minimal perfect hash built from any set of keys with pairwise different full hashes, within its capacity, maps every one of those keys to its own value, assigns distinct slots to distinct keys, and reports any other key as absent (or fails as documented); operator[] is only for keys known to be present.",
 ["inputs"], "all sets of distinct keys, hit and miss lookups",
 "The tests build one or two tables from literal keys.",
 [I+"static_hash_table.h", I+"daw_min_perfect_hash.h"], [("seed search and slot assignment", I+"daw_min_perfect_hash.h")])
prop("C08", "Owning smart pointers destroy what they own exactly once",
 "For any history of construct, copy, move, reset, release, swap and assignment (self-assignment included), the unique, maybe-unique, value, copiable-unique, property-const, unique-array and heap value holders own at most one live object each, copies are deep and independent, and every owned object is destroyed exactly once. Comparison, truth value and access reflect the model after every step.",
 ["histories"], "all histories of ownership operations over several holders",
 "Tests check single operations; ownership bugs (double destroy, leak, aliasing) appear in sequences such as self move or assignment from empty.",
 [I+"daw_unique_ptr.h", I+"daw_maybe_unique_ptr.h", I+"daw_value_ptr.h", I+"deprecated/daw_copiable_unique_ptr.h", I+"daw_prop_const_ptr.h", I+"daw_unique_array.h", I+"deprecated/daw_heap_value.h"],
 [("move/reset/release", I+"daw_unique_ptr.h")])
prop("C09", "Reference counted pointers destroy the object with its last owner",
 "For any history of construction, copy, move, reset, swap and assignment (self-assignment and empty holders included) over several reference counted holders, the pointed-to object or array is destroyed exactly once, when its last holder lets go and never before; the count reported equals the number of holders, a reset holder is empty, and comparison, truth value and access reflect the model after every step. An observer pointer always yields the pointer last stored, never owns, and its conversions and monadic operations act on exactly that pointer.",
 ["histories"], "all histories of owner and observer operations over several holders",
 "Tests make one or two handles; count errors show only in longer histories.",
 [I+"daw_ref_counted_pointer.h", I+"daw_observer_ptr.h"], [("reset of a shared holder", I+"daw_ref_counted_pointer.h")])
prop("C10", "Optional, expected and tagged-union values track their state exactly",
 "After any history of construction, emplacement, assignment, copy, move, swap and reset, an optional, expected, checked expected, union pair or uninitialized storage holds exactly the alternative and value a reference model holds; accessing the wrong alternative is reported as documented, monadic and visiting operations call exactly the matching function, and exceptions captured are the ones rethrown. Held values are destroyed exactly once. (optional_poly copies as the static type.)",
 ["histories"], "all histories over values, errors and empty states",
 "Tests check fixed transitions; the state space of transition pairs with non-trivial members is not covered.",
 [I+"daw_optional.h", I+"daw_expected.h", I+"deprecated/daw_checked_expected.h", I+"daw_union_pair.h", I+"daw_uninitialized_storage.h", I+"deprecated/daw_optional_poly.h"],
 [("engaged flag and storage", I+"daw_optional.h"), ("expected state index", I+"daw_expected.h")])
prop("C11", "Type-erased callables call exactly the stored target",
 "Any function wrapper (owning, inline-stored, shared, reference, view, function table) built from any target, and copied, moved, swapped, reassigned or emptied in any order, invokes exactly the target it currently holds with the arguments forwarded unchanged, returns its result and propagates its exceptions; an empty wrapper reports empty and throws or aborts as documented. Stored targets are copied and destroyed exactly as often as constructed.",
 ["histories"], "all histories of assignment, copy, move, swap and call over targets of many sizes",
 "Tests call a few lambdas; buffer-size boundaries, self assignment and lifetime balance of targets need histories.",
 [I+"daw_function.h", I+"daw_stack_function.h", I+"daw_function_ref.h", I+"daw_function_view.h", I+"daw_shared_function.h", I+"daw_function_table.h"],
 [("inline storage and vtable", I+"daw_stack_function.h"), ("shared target", I+"daw_shared_function.h")])
prop("C12", "Polymorphic value holders keep value semantics",
 "A polymorphic value, polymorphic variant, vector of heap values and small-buffer storage hold exactly the object last stored, whatever its size or dynamic type: copies are deep and equal, moves transfer it, access through the base reaches the most derived object, and each stored object is destroyed exactly once.",
 ["histories"], "all histories of store, copy, move, swap and reset over objects of several sizes and dynamic types",
 "Tests store one small object; inline versus heap storage, transitions between them and lifetime balance are not explored.",
 [I+"daw_poly_value.h", I+"daw_poly_var.h", I+"daw_sbo.h", I+"daw_aligned_storage.h", I+"deprecated/daw_poly_vector.h"], [("inline versus allocated storage", I+"daw_sbo.h")])
prop("C13", "Number text converts to exactly the number written, or is rejected",
 "For every integral type and every text, the integer, unsigned and string-to-number parsers return exactly the value the text denotes when it denotes a representable value in the documented format, and otherwise report the documented error instead of a wrong value. The string-to-number functions take the longest numeric prefix, as std::from_chars does. Formatting a number and parsing it back returns the same number.",
 ["inputs"], "all texts up to the widths of the types, all integer types, including boundary values, signs and invalid characters",
 "Tests parse a few literals; overflow boundaries, signs and junk characters are unbounded.",
 [I+"daw_parser_helper_sv.h", I+"daw_parser_helper.h", I+"daw_parse_to.h", I+"daw_from_string.h"], [("digit accumulation and overflow checks", I+"daw_parse_to.h")])
prop("C14", "Text splitting and argument parsing recover every field",
 "Splitting a text on delimiters and parsing its fields to typed values yields exactly the fields between delimiters, in order, converted as each field's own parser converts it, with missing, extra or malformed fields reported as documented. Joining fields with the delimiter and splitting again gives the fields back, through every splitter of the argument parsers. Quoted fields are non-empty; the split iterators (which do not build) are out of scope.",
 ["inputs"], "all texts, delimiters and field type lists",
 "Tests parse one or two literal lines.",
 [I+"daw_parse_to.h", I+"daw_parse_args.h", I+"daw_parser_helper.h"], [("splitters", I+"daw_parse_to.h")])
prop("C15", "Constant-expression math agrees with exact and libm results",
 "For all finite arguments in the documented domain, the math functions (square root, powers of two and ten, integer powers, sine and cosine for arguments within one turn, rounding, absolute value, sign, exponent and bit access, factorials, minimum and maximum) return the exact result where exactness is promised and otherwise a result within a small stated error of the correctly rounded one (3e-6 for sine and cosine), with documented results for zero, infinities and NaN.",
 ["inputs"], "the whole float and double range the functions accept, plus boundary values",
 "Tests sample small numbers of arguments; errors sit near powers of two, subnormals, large magnitudes and range-reduction boundaries.",
 [I+"daw_cxmath.h", I+"daw_math.h", I+"impl/daw_math_impl.h", I+"daw_arith_traits.h"], [("exponent extraction and range reduction", I+"daw_cxmath.h")])
prop("C16", "Bit manipulation and byte order helpers are exact for every value",
 "For every value and every integer width, bit counting, masking, bit setting, clearing, testing, integer reversal, byte-order conversion, bit casting and bitset operations give the mathematically defined result, inverses undo each other, and bitsets agree with a reference array of booleans after any history.",
 ["inputs", "histories"], "all values of 8 to 64 bit integers and all bitset sizes and operation histories",
 "Tests use a few constants per function.",
 [I+"daw_bit.h", I+"daw_integer_reverse.h", I+"daw_endian.h", I+"daw_bit_cast.h", I+"daw_bitset.h", I+"daw_bitset_helper.h", I+"daw_static_bitset.h", I+"daw_bit_count.h"], [("shifts and masks", I+"daw_bit.h")])
prop("C17", "Checked and mixed-sign integer arithmetic never gives a wrong number",
 "For all operands, mixed-sign integer comparison, in-range tests, natural numbers, narrowing and alias casts, and the fixed-width integer types compute the mathematically correct result or signal the documented error; none silently wraps where the documentation promises it does not. Fixed-width unsigned types compute modulo their width, and the size literals use the powers of 1024 and 1000 the header defines.",
 ["inputs"], "all operand pairs and operators over the integer widths, concentrating on boundaries",
 "Tests use a few operand pairs; wrong results hide at sign and width boundaries.",
 [I+"daw_int_cmp.h", I+"daw_natural.h", I+"daw_uint_buffer.h", I+"daw_uint_types.h", I+"daw_utility.h", I+"daw_size_literals.h"], [("comparison and conversion operators", I+"daw_int_cmp.h")])
prop("C18", "Hash functions match their published definitions for every input",
 "For every byte string and key, FNV-1a, SipHash and Metro hash return the value their published reference algorithms define, independent of alignment and of surrounding memory, and never read outside the input. Generic and combined hashes are equal for equal inputs and agree across the ways of supplying the same data; a character array hashes as all of its elements.",
 ["inputs"], "all byte strings (all lengths and alignments) and keys",
 "Tests compare a handful of vectors; tail lengths and alignments are not swept.",
 [I+"daw_fnv1a_hash.h", I+"daw_sip_hash.h", I+"daw_metro_hash.h", I+"daw_generic_hash.h"], [("block and tail processing", I+"daw_metro_hash.h")])
prop("C19", "Algorithms return what their std counterparts or definitions return",
 "For every input range and callable, each algorithm in the algorithm and container-algorithm headers returns the same result, leaves the same range contents, and (where the standard fixes it) makes the same calls as the std algorithm of that name or its documented definition. algorithm::find_last_of gives the last element of the leading run satisfying its predicate and find_unsorted the last element before the first descent, as their tests fix. Elements outside the given range are neither read nor written.",
 ["inputs"], "all ranges (empty, single, long), predicates and positions",
 "Tests run each algorithm on one literal range.",
 [I+"daw_algorithm.h", I+"daw_container_algorithm.h", I+"daw_algorithm_cx.h", I+"algorithms/daw_algorithm_accumulate.h", I+"algorithms/daw_algorithm_find.h", I+"daw_take.h", I+"daw_keep_n.h", I+"daw_do_n.h"], [("algorithm loops", I+"daw_algorithm.h")])
prop("C20", "Sorting gives the sorted permutation of its input",
 "Every sorting routine (fixed-size sorting networks, general sort, quick sort, insertion sort, sorted insertion) turns any input under any strict weak order into a permutation of that input which is ordered. Comparators do not throw; none of the routines promises stability.",
 ["inputs"], "all inputs of all supported sizes, with duplicates and custom orders",
 "Fixed networks for n up to 64 have more inputs than tests can list; a single wrong comparator pair fails only for rare permutations.",
 [I+"daw_sort_n.h", I+"daw_algorithm.h", I+"iterator/daw_sorted_insert_iterator.h"], [("compare-exchange networks", I+"daw_sort_n.h")])
prop("C21", "Pipelines produce what the composed list functions produce",
 "For any source range and any composition of pipeline stages (map, filter, take, skip, drop, chunk, slide, zip, enumerate, flatten, concat, unique, split, elements, swizzle, reverse, find, fold and the other terminal stages), iterating the pipeline yields exactly the sequence the corresponding list functions give, in order, for every traversal of it; stages never read past the source. Sources are containers that outlive the pipeline, or views; a container that an earlier stage of the pipeline made lives until the last stage returned, and the views of map, split, chunk and slide over a container handed over keep it, through copies and moves; splitting yields no piece after a final delimiter, zipping stops at the shortest source, and a sliding window longer than the source gives the whole source once.",
 ["inputs", "programs"], "all source sequences, stage parameters and compositions of stages",
 "Tests run one composition per stage on a literal; boundary counts (0, exact size, beyond) and nested compositions are not covered.",
 [I+"daw_pipelines.h", I+"pipelines/pipeline.h", I+"pipelines/map.h", I+"pipelines/filter.h", I+"pipelines/take.h", I+"pipelines/zip.h", I+"pipelines/chunk.h"], [("stage iterators", I+"pipelines/filter.h")])
prop("C22", "Iterator adaptors obey iterator laws and visit the adapted elements",
 "Every iterator adaptor (indexed, circular, chunk, zip, counting, iota, integer, reverse, find, repeat, checked, function, random, output and inserter adaptors; not the split and bit iterators, which do not build) visits exactly the elements its definition gives, in order; increments and decrements cancel, n single steps equal a jump by n, distances and orderings are consistent with positions, and dereference is stable.",
 ["inputs", "histories"], "all base ranges and all sequences of iterator movements inside the range",
 "Tests walk each adaptor once forwards.",
 [I+"iterator/daw_indexed_iterator.h", I+"iterator/daw_circular_iterator.h", I+"iterator/daw_chunk_iterator.h", I+"iterator/daw_zipiter.h", I+"iterator/daw_counting_iterators.h", I+"iterator/daw_iota_iterator.h", I+"iterator/daw_reverse_iterator.h"], [("position arithmetic", I+"iterator/daw_indexed_iterator.h")])
prop("C23", "A graph always mirrors the edits made to it",
 "After any history of adding and removing nodes and directed or undirected edges, a graph reports exactly the nodes, values, incoming and outgoing edges, roots and leaves of a reference graph; incoming and outgoing sets are mutually consistent and ids of live nodes stay valid and distinct.",
 ["histories"], "all edit histories",
 "Tests build two small fixed graphs.",
 [I+"daw_graph.h", I+"deprecated/daw_bounded_graph.h"], [("edge sets on both endpoints", I+"daw_graph.h")])
prop("C24", "Graph walks visit each node once in a valid order",
 "On every directed graph, breadth-first and depth-first walks visit each node reachable from the start (for breadth-first, the first visits; that it reports some nodes again is a recorded finding), in an order those traversals allow (children in the requested order); a topological walk of an acyclic graph visits every node exactly once, after all its predecessors, and its range and reverse forms give the same and the reversed order; nodes behind cycles are never visited topologically; reduction to a spanning tree keeps every node reachable from the roots, with at most one path from each root.",
 ["inputs"], "all directed graphs, with diamonds, shared descendants, self loops and cycles where allowed",
 "Tests use one fixed graph per walk.",
 [I+"daw_graph_algorithm.h"], [("visited sets", I+"daw_graph_algorithm.h")])
prop("C25", "Files are read back byte for byte",
 "Reading or memory mapping any file returns exactly its bytes, whatever its size or content, mapping an empty file fails, mapping for write changes exactly the bytes written, and a missing or unreadable file is reported as documented without leaking descriptors or mappings.",
 ["inputs", "fault_sequences"], "all file sizes (empty, page boundaries) and contents, missing files",
 "Tests read one file.",
 [I+"daw_read_file.h", I+"daw_memory_mapped_file.h"], [("size query and mapping", I+"daw_memory_mapped_file.h")])
prop("C26", "Atomic cells and waits never lose an update or a wake-up",
 "For any interleaving of threads, the atomic wrapper's operations behave as single indivisible steps with the std::atomic results, so no increment or exchange is lost; a wait returns found only when the value really changed (or the predicate held) and returns timeout only when the time ran out.",
 ["schedules", "histories"], "all single-threaded histories against std::atomic and sampled interleavings of concurrent ones",
 "Tests run each operation once on one thread.",
 [I+"daw_cx_atomic.h", I+"daw_atomic_wait.h"], [("std::atomic_ref forwarding", I+"daw_cx_atomic.h")])
prop("C27", "Scope guards and once-only helpers run exactly once",
 "A scope-exit action runs exactly once on every way of leaving its scope unless dismissed, success and failure guards run exactly on their own kind of exit, moved-from guards do not run, unique resources release exactly once, move assignment of a guard first runs the action it replaces, and once-only gates let exactly one caller through (allow_once::check() returns false to that caller only).",
 ["histories"], "all sequences of guard creation, move, dismissal and normal or exceptional exit, nested arbitrarily",
 "Tests leave one scope once.",
 [I+"daw_scope_guard.h", I+"daw_unique_resource.h", I+"daw_allow_once.h", I+"daw_exchange.h", I+"daw_move_only.h"], [("active flag", I+"daw_scope_guard.h")])
prop("C28", "Visiting reaches exactly the alternative held",
 "For every variant-like value of any number of alternatives, (single) visitation, typed visitation, variant cast and overload sets invoke exactly the handler for the alternative held, with its value, return that handler's result, and report a valueless (visit) or inconvertible value as documented.",
 ["inputs"], "all alternative indices of variants of up to dozens of alternatives, single visitation",
 "Tests visit a few alternatives.",
 [I+"daw_visit.h", I+"daw_visit_as.h", I+"daw_variant_cast.h", I+"daw_overload.h"], [("index dispatch", I+"daw_visit.h")])
prop("C29", "Tuple and argument-pack helpers preserve every element in place",
 "For all tuples and argument packs, the tuple types and helpers (element access, apply, concatenation, transformation, comparison, iteration by index, argument binding, packed forwarding, piecewise construction) deliver every element exactly once, in its own position, with value and reference category preserved; a piecewise factory builds from the arguments last set, once all are set; any_if holds when all of its predicates do (its name notwithstanding: its test has it so) and calls none after one that does not, nsc_and and nsc_or are the plain and and or of all.",
 ["inputs", "programs"], "all element values and index choices over a range of tuple shapes",
 "Tests use single literal tuples.",
 [I+"daw_tuple.h", I+"daw_tuple2.h", I+"daw_tuple_helper.h", I+"daw_apply.h", I+"daw_bind_args_at.h", I+"daw_bind_front.h", I+"daw_fwd_pack_apply.h", I+"daw_piecewise_factory.h", I+"daw_zipcontainer.h", I+"daw_named_params.h", I+"daw_any_if.h", I+"daw_logic.h"], [("index sequences", I+"daw_tuple_helper.h")])
prop("C30", "Spans and views expose exactly the viewed elements",
 "For every buffer and every sequence of narrowing, slicing, popping and writing operations within range, spans, contiguous views, range views and span writers expose exactly the elements that the same operations on a reference index range give; writes land at exactly the addressed element, out-of-range requests are handled as documented (views clip them, spans leave them to the caller) and nothing outside the view is touched.",
 ["histories"], "all buffers and operation histories within preconditions",
 "Tests narrow a view once or twice.",
 [I+"daw_span.h", I+"daw_contiguous_view.h", I+"daw_view.h", I+"daw_iter_view.h", I+"daw_span_writer.h"], [("pointer pair bookkeeping", I+"daw_span.h")])
prop("C31", "Ring buffers and bit queues are first-in first-out",
 "For any history of pushes and pops within capacity, a ring buffer and the bit and nibble queues return elements (or bit groups) in exactly the order the queue's documentation fixes (for the bit queues push_back and pop_back are first-in first-out, and pop_front takes the newest bits), with size, fullness, emptiness and indexed access agreeing with a reference queue after wrap-around as well.",
 ["histories"], "all push/pop histories within capacity, including wrap-around",
 "Tests never wrap the buffer.",
 [I+"daw_ring_adaptor.h", I+"daw_bit_queues.h"], [("head/tail arithmetic", I+"daw_ring_adaptor.h")])
prop("C32", "Text formatting writes exactly the documented characters",
 "String concatenation, range and tuple formatters, printing helpers, ASCII classification and case conversion and the deprecated string utilities (trim, split, join, replace, find, case conversion, fmt) produce exactly the text their definition gives for every input, and formatting then parsing returns the input where a parser exists.",
 ["inputs"], "all argument values, separators, widths and character codes",
 "Tests format single literals.",
 [I+"daw_string_concat.h", I+"daw_format_range.h", I+"daw_format_tuple.h", I+"daw_ascii.h", I+"daw_print.h", I+"deprecated/daw_string.h"], [("formatters", I+"daw_format_range.h")])
prop("C33", "Random helpers stay in range, shuffle faithfully and repeat by seed",
 "Random integers always lie inside the inclusive bounds asked for (lower below upper) and the values of a small range come up about equally often, as do the arrangements of a short shuffled input; shuffling is a permutation of its input; random ranges have the length asked for; and a seeded generator repeats the same sequence.",
 ["inputs"], "all bounds (negative, single-value, extreme) and seeds",
 "Tests draw from one or two ranges.",
 [I+"daw_random.h", I+"iterator/daw_random_iterator.h"], [("distribution and shuffle", I+"daw_random.h")])
prop("C34", "Compile-time evaluation agrees with run-time evaluation",
 "Every function the library offers for constant evaluation returns at compile time exactly the value it returns at run time for the same arguments.",
 ["programs", "inputs"], "generated programs evaluating the constexpr surface at both times on generated arguments",
 "Separate code paths for constant evaluation exist in search, atomics, bit counting and math; tests exercise each at one of the two times.",
 [I+"daw_string_view.h", I+"daw_cxmath.h", I+"daw_is_constant_evaluated.h", I+"daw_cx_atomic.h", I+"daw_bit.h"], [("consteval branches", I+"daw_is_constant_evaluated.h")])
prop("C35", "Checked wrappers admit only valid values",
 "A validated value, not-null pointer, named precondition check, contract or ensure clause accepts exactly the values satisfying its condition and reports every other as documented, at construction and after every later assignment; read-only and reference wrappers always show the current referent, and a safe pointer never reaches outside its range; the tracked allocator gives back each block once, and refuses pointers already freed or into the middle of a block; a safe string hands out its text only through its sanitising function, except where unsafe is in the name. (A default-constructed validated value holds T{} unchecked.)",
 ["histories", "inputs"], "all values and assignment histories",
 "Tests try one good and one bad value.",
 [I+"daw_validated.h", I+"daw_not_null.h", I+"daw_ensure.h", I+"daw_contract.h", I+"daw_exception.h", I+"daw_read_only.h", I+"daw_rw_ref.h", I+"daw_safe_pointer.h", I+"daw_tracked_allocator.h"], [("check on construction", I+"daw_validated.h")])
prop("C36", "Timing and test helpers run what they are given and hide no failure",
 "A benchmark helper calls the function it is given exactly the documented number of times (once; N; or N and once more for the result it returns), each time with the arguments the caller passed, returns the last call's value or exception, and reports a duration no shorter than the call took; a result the validator refuses, an expectation that does not hold and an exception that is missing, of another type or not accepted by the predicate are always reported by an exception, and ones that hold never are; integer expectations compare by mathematical value whatever the two types; and times and byte rates are written in the right unit with the digits asked for.",
 ["inputs", "histories"], "all argument values and categories, run counts, calls that throw and values that are refused, integer type pairs, magnitudes and precisions",
 "The whole test suite reports through these helpers but none of the tests checks that a failure is reported, or that arguments survive a repeated call.",
 [I+"daw_benchmark.h", I+"daw_expected.h"], [("repeated call with the caller's arguments", I+"daw_benchmark.h"), ("comparison by cmp_equal", I+"daw_benchmark.h")])
prop("C37", "The legacy string view answers like the characters it views",
 "For every text, and whichever way it keeps its bounds, the legacy string view (namespace sv1) answers searches, comparisons, prefix and suffix tests, element access, sub-views, copies, concatenation and output exactly as std::basic_string_view does (characters ordered by their own <; search and search_last never find an empty text; the meaning of find_last_not_of is not stated); its consuming operations remove and return exactly the stated pieces; splitting gives the fields between delimiters in order, a final empty field not reported; and nothing outside the view is read.",
 ["inputs", "histories"], "all texts, needles, positions and counts, past the end included, over four character types and both bounds representations, and all histories of consuming operations",
 "Tests use short literals with matches in the middle and positions inside the view.",
 [I+"deprecated/daw_string_view1.h", I+"impl/daw_string_impl.h"], [("search and pop operations", I+"deprecated/daw_string_view1.h")])
prop("C38", "Legacy ranges do what the algorithms of the same name do",
 "For every sequence, predicate and order, range collections, reference ranges and iterator ranges give the elements, in the order, that the std algorithm of that name gives (sort, stable sort, unique, partition, erase, where, transform, accumulate, find, contains, slice, shrink); reference ranges refer to the original elements and leave them alone, constant forms do not change their object, a chain of range operators gives what the calls give one after another, and no result of a chain refers to an intermediate collection. A range is written as its elements between braces.",
 ["inputs", "histories"], "all element sequences, predicates, orders and histories of edits",
 "The test builds one collection and looks at nothing.",
 [I+"deprecated/daw_range_collection.h", I+"deprecated/daw_range_reference.h", I+"deprecated/daw_range_type.h", I+"deprecated/daw_range_operators.h", I+"daw_reference.h"], [("edits of the held references", I+"deprecated/daw_range_reference.h")])
