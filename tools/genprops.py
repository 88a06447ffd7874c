#!/usr/bin/env python3
"""writes /verif/properties.jsonl"""
import json, os
P = []
I = 'include/daw/'


def p(id, title, stmt, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[f if f.startswith('tests') else I + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    P.append(d)


p('P01', 'String-view windows stay inside the viewed text',
  "For every text and every argument, taking a sub-view, dropping or keeping a prefix or suffix, popping characters, indexing and copying out of a string view yields exactly the documented window of the original characters. No operation reads outside the viewed range, and an out-of-range position is reported by an exception or clamped as documented, never turned into a wider view.",
  ['inputs'], 'all texts of any length, all positions and counts',
  'tests use a few short literals; the guarantee is about every length, every offset up to the maximum size, and about memory that must not be read',
  ['daw_string_view.h'], [('substr, remove_prefix, remove_suffix, pop_front, pop_back, copy, at', 'basic_string_view members'), ('size / zero-terminated packing', 'length field of the view')], ['size()', 'data()', 'exceptions'])
p('P02', 'String-view searches return the first or last match',
  "Searching a string view for a character, a text, one of a set of characters or a predicate returns the smallest (or, for reverse searches, the largest) matching position, and the not-found value exactly when there is none; the prefix, suffix and containment tests agree with it. This holds for every text and pattern, including empty ones, and the search never reads outside either text.",
  ['inputs'], 'all haystacks, needles and start positions of any length',
  'a test samples a handful of haystacks; first/last/none is a statement about every index of every text',
  ['daw_string_view.h', 'daw_algorithm.h'], [('find, rfind, find_first_of, find_last_of, find_first_not_of', 'string view searches'), ('starts_with, ends_with, contains', 'string view tests')])
p('P03', 'String-view comparison is a total order consistent with equality and hash',
  "Comparing two string views gives the sign of the lexicographic comparison of their characters with the shorter one first on a tie; equality and the six relational operators agree with it. Equal views always hash equally.",
  ['inputs'], 'all pairs of texts',
  'the order laws quantify over all pairs; tests check a few',
  ['daw_string_view.h', 'daw_fnv1a_hash.h'], [('compare', 'basic_string_view'), ('relational operators', 'basic_string_view'), ('hash', 'fnv1a over the view')])
p('P04', 'Splitting, popping and trimming text loses and duplicates nothing',
  "Popping from a string view up to a delimiter, removing a prefix or suffix while or until a condition holds, and trimming divide the text exactly at the first (or last) delimiter: the returned part and the remaining view are adjacent windows of the original, the delimiter is consumed or kept as documented, and no other character is removed. When the delimiter is absent the whole text is returned and nothing remains (or, for the try variants, nothing changes).",
  ['inputs'], 'all texts and delimiters',
  'edge positions (delimiter first, last, absent, repeated, empty text) multiply beyond sampled tests',
  ['daw_string_view.h', 'daw_parser_helper_sv.h'], [('pop_front_until, pop_back_until, remove_prefix_while', 'basic_string_view'), ('trim_left, trim_right, find_first_of', 'daw::parser')])
p('P05', 'Spans never reach outside the sequence they view',
  "A span or contiguous view of n elements exposes exactly those n elements: element access, iteration in both directions, first/last/sub-spans and prefix/suffix removal give the documented window, checked access rejects every out-of-range index by an exception, and writing through a span changes exactly the addressed element.",
  ['inputs'], 'all lengths, indices and counts',
  'off-by-one errors at arbitrary lengths cannot be excluded by samples',
  ['daw_span.h'], [('span constructors, subspan, at, iterators', 'daw::span')])
p('P06', 'Bit helpers, bit sets and bit queues equal their bit-level definition',
  "Setting, clearing, masking, testing, shifting and reversing bits, and pushing and popping bits in bit queues and bit sets give the result defined bit by bit, for every value and every legal bit position. Bits that an operation does not name are unchanged, and bits leave a bit queue in the documented order.",
  ['inputs'], 'all operand values and bit positions of every width',
  'there are 2^64 operands per function; a test samples a few',
  ['daw_bit.h', 'daw_bit_count.h', 'daw_bitset.h', 'daw_static_bitset.h', 'daw_bit_queues.h', 'daw_integer_reverse.h'], [('bit helpers', 'daw_bit.h'), ('bit queues', 'daw_bit_queues.h'), ('bitset', 'daw_bitset.h')])
p('P07', 'Byte-order conversion is exact and invertible',
  "Converting an integer between host order and little- or big-endian (network) order gives the integer whose bytes are in the requested order; converting there and back returns the original value, and a conversion to the order already in use changes nothing.",
  ['inputs'], 'all integers of every width',
  'round trips must hold for all 2^64 values',
  ['daw_endian.h'], [('to_little_endian, to_big_endian, host_to_network_endian and inverses', 'daw_endian.h')])
p('P08', 'Mixed-type integer comparison and range tests match mathematics',
  "Comparing integers of different signedness or width, and asking whether a value fits into another integer type, gives the mathematically correct answer for every pair of values.",
  ['inputs'], 'all pairs of values of every pair of integer types',
  'mixed-sign comparison errors only show at specific values',
  ['daw_int_cmp.h', 'cpp_20.h'], [('cmp_equal, cmp_less, cmp_greater, in_range', 'daw_int_cmp.h')])
p('P09', 'Fixed-width unsigned integers behave as modular arithmetic',
  "The strongly typed unsigned integers compute addition, subtraction, multiplication, division, shifts, rotations and bitwise operations modulo their width, never invoke undefined behaviour through integer promotion, and convert to and from the built-in types without changing the value when it fits.",
  ['inputs'], 'all operand values of every width',
  'promotion overflow only occurs for particular large operands',
  ['daw_uint_types.h'], [('operators', 'daw_uint_types.h')])
p('P10', 'Compile-time math agrees with integer and IEEE-754 definitions',
  "The constant-evaluation friendly math helpers (powers of two and ten, integer powers, factorials, digit counts, absolute value, exponent and significand access, sign copying, floating-point classification, counting of set, leading and trailing bits, minimum and maximum, and rounding to an integer) return the mathematically defined result for every argument in their documented domain.",
  ['inputs'], 'all integers and all bit patterns of floating-point numbers in the domain',
  'special values and boundaries of 2^64 patterns are not enumerable by tests',
  ['daw_cxmath.h', 'daw_math.h'], [('intxp, copy_sign, pow2, is_odd, count_leading_zeroes', 'daw_cxmath.h'), ('floor, ceil, abs, fast integer helpers', 'daw_math.h')])
p('P11', 'Parsing integers from text is exact',
  "Parsing an integer from text (parse_to, parse_int, parse_unsigned_int) yields exactly the number its digits denote, for every sequence of digits whose value fits the result type, including a leading minus sign for signed types. A text that is empty, contains anything but digits or denotes a value that does not fit is rejected with an exception, and no parser reads past the end of the text.",
  ['inputs'], 'all texts and all values of every width',
  'boundary values, long digit strings and malformed texts are unbounded in number',
  ['daw_parse_to.h', 'daw_parser_addons.h', 'daw_parser_helper_sv.h', 'daw_from_string.h'], [('parse_to_value, parse_int, parse_unsigned_int', 'daw_parse_to.h, daw_parser_addons.h, daw_parser_helper_sv.h')])
p('P12', 'Character classification and conversion match ASCII',
  "The ASCII predicates and case conversions and the parser predicates accept exactly the characters of their class and map exactly those characters, for every character value including negative and non-ASCII ones.",
  ['inputs'], 'all character values of every character type',
  'a test lists some characters; exactness is about all values',
  ['daw_ascii.h', 'daw_parser_helper.h'], [('is_* predicates, to_lower, to_upper', 'daw_ascii.h'), ('is_a, in_range, is_digit ...', 'daw_parser_helper.h')])
p('P13', 'Optional values are engaged exactly when documented',
  "After any sequence of construction, assignment, emplace, reset, swap and move, an optional holds a value exactly when the history says so, and that value is the last one stored; every contained object is destroyed exactly once, and reading an empty optional through the checked accessor is reported, not undefined. An empty optional compares less than every value.",
  ['histories', 'inputs'], 'all values and all short histories, inductively via the state after each operation',
  'lifetime errors appear only in specific state combinations',
  ['daw_optional.h'], [('optional storage and assignment', 'daw_optional.h')])
p('P14', 'Result holders keep exactly one alternative alive',
  "An expected or union-pair result holds exactly one of a value, an error or nothing; every construction, copy, move, assignment and access observes the alternative last stored with its value, wrong-alternative access is reported, and each stored object is destroyed exactly once.",
  ['histories', 'inputs'], 'all values, all pairs of states of source and target',
  'the state matrix of source times target times operation is larger than tests cover',
  ['daw_expected.h', 'daw_union_pair.h', 'daw_validated.h'], [('expected_t', 'daw_expected.h'), ('union_pair_t', 'daw_union_pair.h'), ('validated', 'daw_validated.h')])
p('P15', 'Owning pointers release each object exactly once',
  "For every sequence of construction, move, assignment, reset, release and swap, the owning smart pointers and value pointers destroy each owned object exactly once, never use it after destruction, never leak it, and copies of value-semantic pointers are independent objects with equal contents.",
  ['histories'], 'all states of both operands of every operation',
  'double free and leak need particular state combinations (empty, self, moved-from)',
  ['daw_unique_ptr.h', 'daw_value_ptr.h', 'daw_unique_array.h', 'daw_ref_counted_pointer.h', 'daw_maybe_unique_ptr.h', 'daw_observer_ptr.h'], [('reset, release, move, swap', 'smart pointer headers')])
p('P16', 'Vector keeps contents, order and memory through every operation',
  "After push, pop, insert, erase, resize, reserve, assign, copy, move and swap the vector holds exactly the sequence a mathematical list would, size and capacity stay consistent, elements not addressed are unchanged, no element is accessed outside the allocation, and all memory is released once.",
  ['histories', 'inputs'], 'all contents, sizes and positions',
  'reallocation and shifting paths depend on size/capacity/position combinations beyond sampled tests',
  ['vector.h', 'split_buffer.h'], [('insert, erase, emplace_back, reserve', 'daw::vector'), ('split_buffer', 'split_buffer.h')])
p('P17', 'Fixed-capacity containers behave as bounded sequences',
  "Fixed-capacity vectors, arrays and ring buffers hold exactly the sequence of values pushed, inserted and removed, in order, for every legal position and fill level; they never write outside their storage and report or refuse operations that would exceed the capacity as documented.",
  ['histories', 'inputs'], 'all fill levels, positions and values',
  'wrap-around and full/empty boundary states are rarely sampled',
  ['daw_bounded_vector.h', 'daw_bounded_array.h', 'daw_array.h', 'daw_simple_array.h', 'daw_ring_adaptor.h'], [('push_back, insert, erase', 'daw_bounded_vector.h'), ('ring_adaptor', 'daw_ring_adaptor.h')])
p('P18', 'Hash containers find exactly the keys stored',
  "A hash_set_t reports a key as present exactly when it was inserted and not erased, and its size is the number of such keys. A static_hash_t returns the value stored last for a key (keys are told apart by their 64-bit hash) and default values for keys not stored. Both hold under every pattern of slot collisions and up to a full table, where storing one more key is reported instead of corrupting another.",
  ['histories', 'inputs'], 'all keys, including colliding ones, and all fill levels',
  'collision chains depend on hash values tests do not control',
  ['static_hash_table.h', 'daw_hash_set.h'], [('find', 'static_hash_table.h'), ('insert, erase, exists', 'daw_hash_set.h')])
p('P19', 'Search and query algorithms return exactly the defined result',
  "The searching and querying algorithms (find, find-last, lower and upper bound, binary search, min/max element, equality, lexicographic comparison, is-sorted, counting, all/any/none, containment, range search) return the result their definition gives for every range, including empty ranges, and never dereference the end.",
  ['inputs'], 'all ranges of any length and contents',
  'universally quantified over positions; tests pick a few arrays',
  ['daw_algorithm.h', 'algorithms/daw_algorithm_find.h', 'algorithms/daw_algorithm_adjacent_find.h', 'algorithms/daw_array_compare.h', 'daw_container_algorithm.h'], [('find_if, find_last_of, lower_bound, max_element ...', 'daw::algorithm')])
p('P20', 'Transforming algorithms write exactly the defined output',
  "Copying, filling, transforming, moving, reversing, removing, accumulating, mapping and reducing algorithms write exactly the elements their definition gives, return the documented end position or value, leave every other element unchanged and never access outside the given ranges.",
  ['inputs'], 'all ranges of any length and contents',
  'frame conditions (what must not change) and arbitrary lengths are beyond samples',
  ['daw_algorithm.h', 'algorithms/daw_algorithm_copy.h', 'algorithms/daw_algorithm_copy_n.h', 'algorithms/daw_algorithm_accumulate.h', 'algorithms/daw_algorithm_partial_sum.h'], [('transform, copy_if, fill, reverse, remove', 'daw::algorithm')])
p('P21', 'Fixed-size sorting networks sort every input',
  "Sorting a range of a compile-time size with the sorting networks leaves it ordered according to the comparison and holding a permutation of the original elements, for every input.",
  ['inputs'], 'all element values, each supported size',
  'a network can fail on a single one of n! orders',
  ['daw_sort_n.h'], [('sort_n networks', 'daw_sort_n.h')])
p('P22', 'Iterator adaptors visit exactly their defined sequence',
  "Counting, integer, indexed, reverse, circular, chunk, repeat, find, checked, pointer, zip and inserting iterators visit exactly the sequence they define: dereferencing after any number of increments, decrements and jumps gives the defined element, distances and comparisons agree with positions, and inserters append or assign exactly the elements written.",
  ['inputs', 'histories'], 'all positions, offsets and lengths',
  'random access arithmetic must be consistent for all offsets',
  ['iterator/daw_counting_iterators.h', 'iterator/daw_indexed_iterator.h', 'iterator/daw_circular_iterator.h', 'iterator/daw_reverse_iterator.h', 'iterator/daw_integer_iterator.h', 'iterator/daw_iota_iterator.h', 'iterator/daw_chunk_iterator.h', 'iterator/daw_zipiter.h', 'iterator/daw_checked_iterator_proxy.h', 'iterator/daw_find_iterator.h', 'iterator/daw_pointer_iterator.h', 'iterator/daw_back_inserter.h', 'iterator/daw_repeat_n_char_iterator.h'], [('operator++, operator+=, operator-', 'iterator/*.h')])
p('P23', 'Hash functions compute their published definition',
  "The FNV-1a, SipHash and Metro hash functions return, for every byte sequence and seed or key, the value their published algorithms define, the same at run time and compile time and independent of what lies around the data.",
  ['inputs'], 'all byte sequences and keys',
  'a changed constant or tail case can agree on test vectors',
  ['daw_fnv1a_hash.h', 'daw_sip_hash.h', 'daw_metro_hash.h', 'daw_generic_hash.h'], [('fnv1a_hash_t', 'daw_fnv1a_hash.h'), ('sip_hash', 'daw_sip_hash.h'), ('metro::hash64', 'daw_metro_hash.h')])
p('P24', 'Callable wrappers and dispatchers invoke the right target',
  "Function wrappers, references, bound-argument callables, overload sets, function tables and visitors call exactly the stored or selected target, once, with the arguments in the documented positions and unchanged values, and return its result; invoking an empty wrapper is reported.",
  ['inputs', 'histories'], 'all argument values, all alternatives',
  'argument permutation and selection errors depend on index and value',
  ['daw_function.h', 'daw_function_ref.h', 'daw_function_view.h', 'daw_stack_function.h', 'daw_bind_front.h', 'daw_bind_args_at.h', 'daw_function_table.h', 'daw_overload.h', 'daw_visit.h'], [('operator()', 'callable headers'), ('visit dispatch', 'daw_visit.h')])
p('P25', 'Lazy pipelines produce exactly the composed sequence',
  "A lazy range stage (map, filter, take, take-while, take-until, drop, skip, enumerate, zip, iota, chunk, slide, unique, reverse, clamp), or a composition of them, over a source that outlives it yields, element by element, the sequence its definition gives for the source, for every count and every source contents, and never reads outside the source.",
  ['inputs', 'programs'], 'all source contents and stage parameters',
  'combinations of stages, counts and lengths are unbounded',
  ['pipelines/map.h', 'pipelines/filter.h', 'pipelines/take.h', 'pipelines/skip.h', 'pipelines/enumerate.h', 'pipelines/zip.h', 'pipelines/iota.h', 'pipelines/chunk.h', 'pipelines/slide.h', 'pipelines/unique.h', 'pipelines/reverse.h'], [('stage iterators', 'pipelines/*.h')])
p('P26', 'Scope guards and unique resources run their cleanup exactly once',
  "A scope guard, success/exit action or unique resource runs its cleanup exactly once when it goes out of scope by any path, with the resource it owns, and not at all after it has been dismissed, released or moved from.",
  ['histories', 'fault_sequences'], 'all exit paths including exceptions',
  'exceptional and moved-from paths are rarely exercised',
  ['daw_scope_guard.h', 'daw_unique_resource.h', 'daw_countable_resource.h'], [('scope_guard', 'daw_scope_guard.h'), ('unique_resource', 'daw_unique_resource.h')])
p('P27', 'Graph operations keep nodes and edges consistent',
  "After adding and removing nodes and edges, the graph contains exactly the nodes and edges of the history, edges appear consistently in both directions, removing a node removes its edges, and a topological ordering lists every node after its predecessors exactly when the graph has no cycle.",
  ['histories'], 'all sequences of graph operations',
  'consistency depends on operation order',
  ['daw_graph.h', 'daw_graph_algorithm.h'], [('add_node, remove_node, add_edge', 'daw_graph.h'), ('topological_sorted_walk', 'daw_graph_algorithm.h')])
p('P28', 'Values restricted by a predicate or a null check stay valid',
  "Types that promise a restricted value (positive integers, non-null pointers, values accepted by a validator, read-only values and keep-n accumulators) hold that promise after every construction and operation whose preconditions are met, and report a violating value instead of keeping it.",
  ['inputs', 'histories'], 'all values and operations',
  'the violating values are isolated points',
  ['daw_natural.h', 'daw_not_null.h', 'daw_keep_n.h', 'daw_validated.h', 'daw_read_only.h', 'daw_size_literals.h'], [('ensure checks', 'daw_natural.h, daw_not_null.h'), ('keep_n', 'daw_keep_n.h')])
p('P29', 'Latches, semaphores and atomic waits lose no wake-up',
  "A thread waiting on an atomic value or shared counter resumes whenever the awaited change happens, under every interleaving of waiters and notifiers, and never resumes before it.",
  ['schedules'], 'all interleavings of waiting and notifying threads',
  'wake-up races need particular schedules',
  ['daw_atomic_wait.h'], [('atomic_wait, atomic_wait_value, waiter tables', 'daw_atomic_wait.h')])
p('P30', 'Memory-mapped files expose exactly the file contents',
  "Opening a file as a memory map exposes exactly its bytes, reports failure for files that cannot be mapped, and releases the mapping exactly once.",
  ['inputs', 'fault_sequences'], 'all files and operating system failures',
  'needs the operating system in specific failing states',
  ['daw_memory_mapped_file.h', 'daw_read_file.h'], [('memory_mapped_file_t', 'daw_memory_mapped_file.h')])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
