#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
H = 'include/stdx/'
P = []


def prop(id, title, statement, over, text, why, files, mech, **kw):
    a = {'files': [H + f for f in files], 'mechanism': [{'name': n, 'where': H + w} for n, w in mech]}
    a.update(kw)
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


prop('C01', 'bitset behaves as a set of positions below its size',
     'For every size and storage type, a bitset is indistinguishable from the set of bit positions that its history of set, reset, flip (single bit, bit range, or all bits), and, or, xor, difference and complement operations defines: indexing, equality, count, all, any and none agree with that set, and bits outside the addressed range are never changed. '
     'No sequence of operations makes a position at or beyond the size observable through any query, and no operation within its documented preconditions has undefined behaviour.',
     ['inputs', 'histories', 'configurations'],
     'every content of the bitset (arbitrary reachable pre-state), every index/range argument within the size, every operand, for sizes that do and do not fill the storage elements and for every storage element type',
     'Tests use a few fixed 8/17/64-bit patterns; 2^N contents times index pairs cannot be sampled, and padding bits beyond the size only matter for sizes that do not fill a storage element.',
     ['bitset.hpp', 'detail/bitset_common.hpp', 'bit.hpp'],
     [('last-element mask applied in queries', 'bitset.hpp'), ('word/bit index split of positions', 'bitset.hpp'), ('range set via per-word masks', 'bitset.hpp')],
     observe_at=['operator[]', 'count/all/any/none', 'operator==', 'to<T>'])

prop('C02', 'bitset shifts move every bit by exactly the shift amount',
     'Shifting a bitset left (right) by n places bit i at position i+n (i-n) for every i that stays inside the bitset and clears every vacated position; bits shifted out are lost and can never come back. '
     'A shift by the size or more yields the empty bitset.',
     ['inputs', 'configurations'],
     'every content, every shift amount (including zero, whole-word multiples, amounts just below, equal to and above the size), for single- and multi-word storage of every element type',
     'Tests shift a handful of constants; word-boundary carries, zero residual shifts and shift amounts at or past the size form a large product space.',
     ['bitset.hpp'],
     [('word-wise shift with carry between elements', 'bitset.hpp')])

prop('C03', 'bitset iteration and reduction visit exactly the requested bits in order',
     'for_each over a bitset calls the function exactly once for every set position below the size (or, on request, every unset position, or every position together with its value), in increasing order; lowest_unset returns the smallest unset position (or the size when every bit is set). '
     'transform_reduce folds the transformed positions of exactly the set bits, in increasing order, into the initial value.',
     ['inputs', 'configurations'],
     'every content of bitsets of sizes around storage-element boundaries, for every element type and the empty bitset',
     'Tests check a few sparse patterns; full last words, all-ones contents, and padding bits need exhaustive contents.',
     ['bitset.hpp'],
     [('iteration by repeatedly clearing the lowest set bit', 'bitset.hpp'), ('lowest_unset via trailing ones', 'bitset.hpp')])

prop('C04', 'bitset construction and conversion preserve exactly the low bits',
     'Constructing a bitset from an integer keeps exactly the bits below its size; construction from a string (with position, count and set-character), a list of positions, or all-bits yields exactly the positions described; converting to an integer or enumeration returns exactly the value with those bits. '
     'to_natural and to<T> round-trip every value that fits.',
     ['inputs', 'configurations'],
     'every 64-bit value, every short string with every substring window and set character, every position list, for sizes below, at and above the storage and the integer width',
     'Tests convert a few literals; string windows longer than the bitset and values with bits beyond the size are barely sampled.',
     ['bitset.hpp', 'ct_string.hpp'],
     [('masking of the highest element', 'bitset.hpp'), ('string parsing from the right end of the window', 'bitset.hpp')])

prop('C05', 'type_bitset tracks exactly the types given to it',
     'A type_bitset behaves as a set of types: set, reset and flip of given types affect the membership of exactly those types, indexing a type reports its membership, and construction from a type list contains exactly the listed types. '
     'Iteration calls the function exactly once per member type with the matching index, and the remaining operations (complement, and, or, xor, difference, count, all, any, none, conversion to an integer) agree with that set of types, whether or not the list of types contains duplicates.',
     ['inputs', 'programs', 'configurations'],
     'every membership pre-state and every operation, for type lists of several lengths with and without repeated types',
     'Tests use one or two three-element lists of distinct types and fixed contents.',
     ['bitset.hpp'],
     [('type to index lookup', 'bitset.hpp')])

prop('C06', 'atomic_bitset operations are single indivisible accesses',
     'Every atomic_bitset operation performs exactly one atomic access with the requested memory order: modifying operations atomically change exactly the addressed bits of the value present at that moment and return exactly that previous value, and queries report one consistent loaded value. '
     'This holds whatever other threads write between any two accesses, and positions at or beyond the size are never observable.',
     ['schedules', 'inputs', 'configurations'],
     'every interleaving of interfering writes before each atomic access, every content, index and range, every memory order, with natural and widened underlying atomic types',
     'The repository builds no test for this header here; concurrent tests sample a few schedules on strongly ordered hardware and cannot observe a wrong memory order or a split read-modify-write.',
     ['atomic_bitset.hpp', 'bitset.hpp'],
     [('fetch_or/fetch_and/fetch_xor with a bit mask', 'atomic_bitset.hpp')],
     hook_needed=None)

prop('C07', 'atomic<T> operations are single indivisible accesses',
     'Every operation of the atomic wrapper performs exactly one atomic access with the requested (default: sequentially consistent) memory order; read-modify-write operations return the value present immediately before the access (fetch_*, exchange, postfix) or the value they stored (compound assignment, prefix). '
     'This holds for every interference between accesses, for every value type including booleans, enumerations and types whose underlying atomic type is wider.',
     ['schedules', 'inputs', 'configurations'],
     'every interfering write before each access, every operand value, all memory orders, several value types and widened underlying types',
     'The repository builds no test for this header here, and stress tests cannot see a lost update that needs an exact interleaving.',
     ['atomic.hpp'],
     [('delegation of each operation to one access of the atomic API', 'atomic.hpp')])

prop('C08', 'bit packing, unpacking and byte order conversions are exact inverses',
     'bit_pack places its arguments from most to least significant, bit_unpack returns the pieces in the same order, and each undoes the other for every value and every supported width combination. '
     'byteswap reverses the byte order of every unsigned value, and to_be/from_be/to_le/from_le are the matching byte-order conversions and self-inverse.',
     ['inputs', 'configurations'],
     'all argument values for every documented width combination',
     'Tests check one constant per overload; sign extension or promotion errors only show for pieces with the top bit set.',
     ['bit.hpp'],
     [('shift-and-or packing', 'bit.hpp'), ('byteswap', 'bit.hpp')])

prop('C09', 'bit masks, bit destructuring and bit queries match their definitions',
     'bit_mask yields exactly the bits between the given least and most significant positions inclusive, for unsigned integers and for arrays of them; bit_destructure splits a value at the given boundaries so that the pieces reassemble to the value. '
     'The bit queries and rotations (population count, leading/trailing zeros and ones, width, floor, ceil, single-bit test, rotate) agree with their mathematical definitions for every value of every unsigned type, and bit_size, smallest_uint agree with the number of bits asked for.',
     ['inputs', 'configurations'],
     'all Msb/Lsb pairs for every unsigned type and array shape, all values',
     'Tests check a few constants per function; full-width masks, Msb at the type width, and word-crossing array masks are corner cases.',
     ['bit.hpp'],
     [('mask as difference of two powers of two', 'bit.hpp')])

prop('C10', 'byterator reads and writes exactly the bytes it points at',
     'A byterator over a buffer reads and writes values of any trivially copyable type at its current byte position, touching exactly the bytes of that type, and advances by exactly that size (peek does not advance). '
     'Its arithmetic, comparison and difference agree with byte offsets, and advancing to an alignment moves to the nearest boundary at or after the position plus the requested number of further units.',
     ['inputs', 'histories', 'configurations'],
     'every buffer content, every start offset, every short sequence of read/write/peek/advance operations of every width, and every alignment request within the buffer',
     'Tests walk one small array from its start; unaligned positions, mixed widths and negative alignment steps are mostly unsampled.',
     ['byterator.hpp'],
     [('memcpy based access', 'byterator.hpp'), ('alignment by rounding the address', 'byterator.hpp')])

prop('C11', 'cx_vector behaves as a bounded sequence',
     'For every history of operations within capacity, a cx_vector equals the sequence those operations define: size, empty, full, indexing, get, front/back access, iteration in both directions, equality, push, pop, clear and resize_and_overwrite all agree with that sequence. '
     'Elements other than those addressed never change.',
     ['histories', 'inputs', 'configurations'],
     'every sequence content and length up to capacity as pre-state, one arbitrary operation with arbitrary arguments, plus operation sequences, several capacities and element types',
     'Tests run one or two fixed sequences; empty/full boundaries combined with stale storage need arbitrary pre-states.',
     ['cx_vector.hpp'],
     [('size counter over fixed storage', 'cx_vector.hpp')])

prop('C12', 'cx_map behaves as a bounded associative map with unique keys',
     'For every history of insert_or_assign/put, erase, pop_back, clear and lookup within capacity, a cx_map equals the mathematical map the history defines: each key is present at most once, lookups return the last value assigned, contains/size/empty/full agree, and the return values report exactly whether something was inserted or how many entries were erased. '
     'Iteration visits every entry exactly once.',
     ['histories', 'inputs', 'configurations'],
     'every map content up to capacity as pre-state with symbolic keys and values and every operation, plus short operation sequences',
     'Tests use a few literal keys in insertion order; erase of first/middle/last entries with arbitrary key collisions is a large space.',
     ['cx_map.hpp'],
     [('linear key search, erase by moving the last entry', 'cx_map.hpp')])

prop('C13', 'cx_set behaves as a bounded set with unique members',
     'For every history of construction, insert, erase, merge, pop_back and clear within capacity, a cx_set equals the mathematical set the history defines: each member is present at most once, contains/size/empty agree, and insert/erase report exactly whether membership changed. '
     'Iteration visits every member exactly once and merge is set union.',
     ['histories', 'inputs', 'configurations'],
     'every set content up to capacity as pre-state with symbolic members and every operation, plus short operation sequences',
     'Tests use a few literal members; duplicates at construction and merge with overlapping sets are barely sampled.',
     ['cx_set.hpp'],
     [('linear search, erase by moving the last entry', 'cx_set.hpp')])

prop('C14', 'cx_multimap behaves as a bounded map from keys to sets of values',
     'For every history of insert/put (with or without value), erase (key or key and value) and clear within capacity, a cx_multimap equals the mathematical map from keys to sets of values the history defines. '
     'contains (key, or key and value), get, size, empty and iteration agree with it, erase reports what it removed, and a key disappears when its last value is erased.',
     ['histories', 'inputs', 'configurations'],
     'every content up to capacity as pre-state with symbolic keys and values and every operation, plus short operation sequences',
     'Tests use a few literal keys and values; erasing absent values and keys with empty value sets is unsampled.',
     ['cx_multimap.hpp', 'cx_map.hpp', 'cx_set.hpp'],
     [('map of sets', 'cx_multimap.hpp')])

prop('C15', 'cx_queue is first-in first-out under every history',
     'For every history of push, pop, front, back and clear that respects capacity, values leave a cx_queue in exactly the order and with exactly the values they entered, however often the underlying buffer has wrapped around. '
     'front and back are the oldest and newest element, push returns a reference to the element just pushed, and size, empty, full and capacity agree with the number of elements held.',
     ['histories', 'inputs', 'configurations'],
     'every reachable internal position (arbitrary wrap-around), every content and every operation, for several capacities (including one) and element types',
     'Tests wrap at most once with a fixed capacity; the interplay of wrap position and fill level needs arbitrary histories.',
     ['cx_queue.hpp'],
     [('circular indices modulo capacity', 'cx_queue.hpp')])

prop('C16', 'cx_queue overflow policy is consulted exactly on overflow and underflow',
     'With the default policy, pushing to a full queue and popping or peeking an empty queue raise exactly one panic, and no operation within bounds ever panics. '
     'A custom policy is consulted exactly once, before the queue is changed or read, with the current size (and capacity for push).',
     ['histories', 'inputs', 'configurations'],
     'every reachable queue state and every operation, for several capacities, default and custom policies',
     'Tests trigger one overflow and one underflow from a fixed state.',
     ['cx_queue.hpp', 'panic.hpp'],
     [('policy check before each access', 'cx_queue.hpp')])

prop('C17', 'intrusive_list keeps a consistent doubly linked sequence',
     'For every history of push_front, push_back, insert, remove, pop_front, pop_back and clear, an intrusive_list holds exactly the nodes of the sequence the history defines, in order: forward iteration, front, back, empty and the nodes\' own links (in both directions) agree with it. '
     'This holds for both node policies, whatever the link fields of nodes handed to the unchecked policy contained before, and nodes not in the list are never modified.',
     ['histories', 'inputs', 'configurations'],
     'every list of up to several nodes in arbitrary order as pre-state, one arbitrary operation with an arbitrary position, plus operation sequences, for the checked and unchecked policies',
     'Tests run short fixed scenarios with freshly initialised nodes; stale links and insert/remove at every position are not covered together.',
     ['intrusive_list.hpp', 'detail/list_common.hpp'],
     [('relinking of neighbours and head/tail', 'intrusive_list.hpp')])

prop('C18', 'intrusive_forward_list keeps a consistent singly linked sequence',
     'For every history of push_front, push_back, pop_front and clear, an intrusive_forward_list holds exactly the nodes of the sequence the history defines, in order: iteration, front, back, empty and the nodes\' links agree with it. '
     'This holds for both node policies whatever the link fields of nodes handed to the unchecked policy contained before, and nodes not in the list are never modified.',
     ['histories', 'inputs', 'configurations'],
     'every list of up to several nodes as pre-state, one arbitrary operation, plus operation sequences, for both policies',
     'Tests run short fixed scenarios with freshly initialised nodes.',
     ['intrusive_forward_list.hpp', 'detail/list_common.hpp'],
     [('relinking of head/tail', 'intrusive_forward_list.hpp')])

prop('C19', 'checked node policy detects reuse and detaches nodes',
     'With the checked node policy, inserting or pushing a node raises a panic exactly when any of its link pointers is non-null at the call, for every insertion function and position of both list types. '
     'Removing, popping or clearing always resets the link pointers of exactly the nodes taken out, so that they can be inserted again without a panic; the unchecked policy never panics.',
     ['histories', 'inputs', 'configurations'],
     'every list state, every combination of link pointers of the inserted node, every insertion and removal function',
     'Tests panic once per function with one particular stale pointer.',
     ['detail/list_common.hpp', 'intrusive_list.hpp', 'intrusive_forward_list.hpp', 'panic.hpp'],
     [('validity test before linking and reset on removal', 'detail/list_common.hpp')])

prop('C20', 'optional is engaged exactly when it holds a non-tombstone value',
     'An optional is engaged exactly when its contained value differs from the tombstone, under every history of construction, assignment, emplace, reset, swap, copy and move; value, dereference, value_or and the boolean test agree, and a disengaged optional yields the tombstone value. '
     'This holds for tombstones given as traits, as values, as the floating-point default, and as synthesised for tuple-like types. Every value it holds is destroyed exactly once, and lvalues given to it are left unchanged.',
     ['histories', 'inputs', 'configurations'],
     'every value of the contained type (including the tombstone itself), every short history, several tombstone sources',
     'Tests use a few values; assigning or emplacing the tombstone value and move/copy mixes are not all covered.',
     ['optional.hpp'],
     [('comparison with the tombstone', 'optional.hpp')])

prop('C21', 'optional monadic operations and comparisons follow std::optional',
     'transform, and_then, or_else and the multi-argument transform call their function exactly when the operand(s) are engaged (or_else: disengaged), exactly once, with exactly the contained values, and return what std::optional would. '
     'Equality and ordering between optionals of totally ordered values agree with std::optional: two disengaged ones are equal, and a disengaged one compares less than every engaged one.',
     ['inputs', 'configurations'],
     'all values (engaged and not) of one to three operands, all value categories, all six comparison operators, tuple-like values unpacked into several arguments',
     'Tests compare a few constants; the mixed comparisons of engaged and disengaged operands in every operator are not all covered.',
     ['optional.hpp'],
     [('guarded invocation and comparison', 'optional.hpp')])

prop('C22', 'span views exactly the requested elements',
     'A span constructed from a pointer and size, iterator pair, array, or container refers to exactly those elements in order; first, last and subspan (static and dynamic) and as_bytes/as_writable_bytes denote exactly the corresponding sub-ranges, for static and dynamic extents. '
     'size, size_bytes, empty, indexing, front, back and forward and reverse iteration agree, and nothing outside the view is accessed.',
     ['inputs', 'configurations'],
     'every length, every in-range offset/count, every element value, static and dynamic extents, const and mutable element types',
     'Tests take a few fixed sub-ranges; offset/count combinations at the ends (including empty ranges) are a product space.',
     ['span.hpp'],
     [('pointer and extent arithmetic', 'span.hpp')])

prop('C23', 'rollover arithmetic is exact modular arithmetic without overflow',
     'Every arithmetic operation on rollover values (+, -, *, /, %, increment, decrement, unary, compound forms) equals the operation on the underlying unsigned type modulo two to its width, for every pair of values of every unsigned type. '
     'None of them has undefined behaviour for any operands other than division by zero, and equality and conversion to the underlying type are exact.',
     ['inputs', 'configurations'],
     'all operand pairs for 8, 16, 32 and 64 bit underlying types',
     'Tests use small constants; integer promotion overflow for 16-bit operands only appears for large products.',
     ['rollover.hpp'],
     [('conversion back to the underlying type after each operation', 'rollover.hpp')])

prop('C24', 'rollover comparison splits the cycle in two exact halves',
     'For every rollover value, exactly the half of the value range that lies immediately after it (distances 1 up to half the range) compares greater, and exactly the half immediately before compares less; a value never compares less than itself. '
     'The comparison depends only on the modular distance, so it is invariant under adding the same amount to both sides.',
     ['inputs', 'configurations'],
     'all operand pairs for 8, 16, 32 and 64 bit underlying types',
     'Tests check a few pairs; the exact half-range boundary and wrap-around pairs are rarely sampled.',
     ['rollover.hpp'],
     [('sign of the modular difference', 'rollover.hpp')])

prop('C25', 'saturate_cast clamps to the nearest representable value',
     'Casting any integral value to any integral type with saturate_cast yields the value itself when the target can represent it and otherwise the nearest representable limit of the target, for every combination of width and signedness.',
     ['inputs', 'configurations'],
     'all values of all source types for all pairs of 8, 16, 32 and 64 bit signed and unsigned types',
     'Tests check limits for a few type pairs; mixed-sign, mixed-width conversions form 64 pairs of types.',
     ['numeric.hpp'],
     [('comparison against target limits', 'numeric.hpp')])

prop('C26', 'transform and for_each process every element once, in order',
     'stdx::transform, transform_n, for_each and for_each_n call the operation exactly once per position, in order, with the corresponding elements of all input ranges, write exactly the results to the output, and return the operation and iterators advanced by exactly the number of elements processed. '
     'This holds for any number of input ranges, any length including zero, and any iterator category.',
     ['inputs', 'configurations'],
     'every length up to a bound, every element value, one to three input ranges, forward and random access iterators',
     'Tests use a couple of fixed three-element ranges; zero length and returned iterators are not all checked.',
     ['algorithm.hpp'],
     [('lock-step iteration over all ranges', 'algorithm.hpp')])

prop('C27', 'for_each_butlast and initial_medial_final split ranges correctly',
     'for_each_butlast and for_each_butlastn call the operation for exactly all but the last one (n) elements in order, none when the range is not longer than that, and return iterators advanced by exactly the number processed. '
     'initial_medial_final calls the initial operation for the first element only, the final one for the last element of a range of two or more, and the medial one in order for the elements between, for every length including zero, one and two and every iterator category.',
     ['inputs', 'configurations'],
     'every length up to a bound, every n, every element value, one to three ranges, forward, bidirectional and random access iterators',
     'Tests use a few lengths; n equal to or beyond the length on forward iterators is a corner case.',
     ['algorithm.hpp'],
     [('separate random-access and forward implementations', 'algorithm.hpp')])

prop('C28', 'transform_reduce folds exactly the transformed elements',
     'stdx::transform_reduce and transform_reduce_n equal the left-to-right reduction of the initial value with the transformed elements of all input ranges, computed in the requested result type, for every length including zero and any number of ranges. '
     'Each element is transformed exactly once.',
     ['inputs', 'configurations'],
     'every length up to a bound, every element value, non-commutative reductions, one to three ranges',
     'Tests sum a few constants with commutative operations.',
     ['numeric.hpp'],
     [('accumulation loop', 'numeric.hpp')])

prop('C29', 'counting_iterator satisfies the random access iterator laws',
     'A counting_iterator denotes its counter value: dereference, increment, decrement, addition, subtraction and distance agree with integer arithmetic, and comparisons agree with the order of the counters. '
     'These hold for every start value and offset of every integral type that do not overflow it.',
     ['inputs', 'configurations'],
     'all start values and offsets for several integral types',
     'Tests start at 0 or 17 and step a few times.',
     ['iterator.hpp'],
     [('arithmetic on the stored counter', 'iterator.hpp')])

prop('C30', 'latched and cached compute on first use, once, and remember the result',
     'A latched value calls its function at most once, exactly at the first dereference, and every dereference returns that result. '
     'A cached value calls its function exactly when dereferenced without a current value or when refreshed, reset discards the current value without calling it, has_value reports whether a value is currently held, and every dereference returns the result of the most recent call.',
     ['histories', 'inputs'],
     'every sequence of has_value, dereference, value, reset and refresh up to a bound, with a function returning arbitrary different results on each call',
     'Tests run one sequence with a counter; interleavings of reset and refresh before and after use are not enumerated.',
     ['latched.hpp', 'cached.hpp'],
     [('optional storage filled on demand', 'latched.hpp')])

prop('C31', 'tuple stores and returns every element unchanged',
     'A tuple holds exactly the elements it was constructed from: access by index, by type, by index literal, by structured binding and through apply yields each element with its value and value category, and writing one element changes no other, including through tuples of references and indexed tuples. '
     'tuple_size, tuple_element and contains_type agree with the elements, and make_tuple, forward_as_tuple, tuple construction and apply_indices preserve order and values.',
     ['inputs', 'programs', 'configurations'],
     'all element values for tuples of several lengths and type mixes (repeated types, references, move-only and empty types), for both compile-time element lookup implementations',
     'Tests use literal values on one compiler, so only one of the two element lookup implementations is ever built.',
     ['tuple.hpp'],
     [('element storage by indexed base classes', 'tuple.hpp')])

prop('C32', 'tuple comparison is lexicographic',
     'Equality of tuples is element-wise and ordering is lexicographic, first differing element first, agreeing with std::tuple in every comparison operator, for every combination of element values, including comparison of tuples with different but comparable element types and the empty tuple. '
     'one_of compares equal exactly to the values it lists.',
     ['inputs', 'programs'],
     'all element values for tuples of length zero to four with mixed element types, all comparison operators and all one_of membership values',
     'Tests compare a few literals; ties in leading elements with mixed signedness are rarely sampled.',
     ['tuple.hpp'],
     [('fold over elements stopping at the first difference', 'tuple.hpp')])

prop('C33', 'tuple folds and joins combine elements in the documented order',
     'fold_left computes op(...op(op(init, x0), x1)..., xn), fold_right computes op(x0, op(x1, ... op(xn, init))), and join computes the left fold of the elements without an initial value (or returns the given default for an empty tuple). '
     'Each element is used exactly once, for every length and value.',
     ['inputs', 'programs'],
     'all element values, a non-commutative and non-associative operation, lengths zero to six',
     'Tests use addition or a few literals, which hide order mistakes.',
     ['tuple.hpp'],
     [('fold expressions over element wrappers', 'tuple.hpp')])

prop('C34', 'tuple restructuring keeps every element value exactly once in place',
     'tuple_cat, tuple_cons, tuple_snoc, filter, chunk_by, gather_by, sort, unique, to_sorted_set, to_unsorted_set and tail return tuples whose elements are exactly the documented elements of the inputs in the documented order, each with its original value. '
     'sort and gather_by lose and duplicate nothing and group by the type function; unique and the set functions keep the first element (or, for the sorted set, some element) of each type.',
     ['inputs', 'programs'],
     'all element values for a family of tuple shapes (empty, single, repeated and interleaved types, several tuples at once)',
     'Tests use literal values in a few shapes, so a permutation of equal-typed elements can go unnoticed.',
     ['tuple_algorithms.hpp', 'tuple.hpp'],
     [('compile-time index tables driving element moves', 'tuple_algorithms.hpp')])

prop('C35', 'tuple element-wise algorithms visit all elements in order',
     'transform, for_each and enumerate over one or more tuples (and their unrolled forms over arrays) call the function exactly once per index with the corresponding elements (for_each and enumerate in increasing order), stopping at the shortest tuple, and transform collects the results in order; all_of, any_of and none_of agree with the logical combination. '
     'cartesian_product(_copy) contains every combination exactly once in lexicographic order, and multi-tuple apply passes all elements in order.',
     ['inputs', 'programs'],
     'all element values for tuples of different lengths, one to three tuples',
     'Tests use literal values with commutative functions in a few shapes.',
     ['tuple_algorithms.hpp'],
     [('index-sequence expansion', 'tuple_algorithms.hpp')])

prop('C36', 'call_by_need calls each function once with the documented arguments',
     'call_by_need calls every given function exactly once with the arguments its documented search order selects (longest run of arguments first, then later starting points), and returns the non-void results in function order followed by the unused arguments in their original order and with unchanged values. '
     'The result is the same whether the tuples are passed as lvalues or rvalues, for element types that copying and moving treat alike.',
     ['inputs', 'programs', 'configurations'],
     'all argument values for a family of function/argument shapes (overlaps, defaults, conversions, void results, unused arguments), lvalue and rvalue tuples',
     'Tests pass literals as rvalues in a few shapes.',
     ['call_by_need.hpp'],
     [('compile-time search for invocable argument windows', 'call_by_need.hpp')])

prop('C37', 'function adaptors forward arguments exactly once and in order',
     'bind_front and bind_back call the bound function once with the bound arguments before (after) the call arguments in order; with_result_of calls its function once per conversion and yields its result; for_each_n_args calls the function once per consecutive batch of arguments in order; safe_identity, dereference and unary_plus return the documented value. '
     'All values pass through unchanged.',
     ['inputs', 'programs'],
     'all argument values for one to six arguments, batch sizes one to three, const and rvalue callables',
     'Tests use literals and commutative functions.',
     ['functional.hpp', 'for_each_n_args.hpp'],
     [('stored argument tuple and pack expansion', 'functional.hpp'), ('batch index computation', 'for_each_n_args.hpp')])

prop('C38', 'compile-time strings concatenate, split and compare exactly',
     'A ct_string holds exactly the characters it was built from plus a terminator; concatenation yields all characters of the left then of the right operand, splitting at a character yields the parts before and after its first occurrence (the whole string and an empty one if absent), and equality compares length and all characters. '
     'size, empty, iteration and string_view conversion agree.',
     ['inputs', 'configurations'],
     'all character contents for strings of several lengths, every split character',
     'Tests use a few literals; embedded separators at the ends and non-ASCII bytes are rarely sampled.',
     ['ct_string.hpp'],
     [('fixed array with terminator', 'ct_string.hpp')])

prop('C39', 'freestanding formatting renders every integer exactly',
     'Formatting an integer or string argument on freestanding targets produces the surrounding text unchanged with the placeholder replaced by the exact decimal (or hexadecimal, as the specifier asks) representation, for every value of every integral type including the minimum values. '
     'The computed size equals the number of characters written, and argument placeholders of a format string are counted and split correctly, with doubled braces treated as literal text.',
     ['inputs', 'configurations'],
     'all values of each integral type, all short format strings',
     'Tests format a few literals; INT_MIN, type limits and brace placement corner cases are not all covered.',
     ['detail/fmt.hpp', 'ct_format.hpp'],
     [('digit generation and size computation', 'detail/fmt.hpp'), ('format string scanner', 'ct_format.hpp')])

prop('C40', 'size conversion, alignment and scaling helpers are exact',
     'sized<T>{n}.in<U>() is the least number of U objects whose storage holds n objects of T, for every n that does not overflow and every pair of types. '
     'is_aligned_with reports exactly whether a value or address is a multiple of the type\'s alignment, as_signed/as_unsigned preserve the bit pattern, to_underlying preserves the value, and the size and scaling literals multiply by their exact factor.',
     ['inputs', 'configurations'],
     'all n below overflow for many type pairs including sizes that do not divide each other; all values and addresses',
     'Tests check a handful of sizes, mostly powers of two.',
     ['utility.hpp', 'udls.hpp', 'type_traits.hpp'],
     [('ceiling division', 'utility.hpp')])

prop('C41', 'panic reaches the customised handler exactly once with its arguments',
     'Calling panic (with or without a compile-time message) invokes the customised panic handler exactly once, choosing the overload with the compile-time message exactly when one is given, and passes all runtime arguments in order and unchanged; the default handler has no effect.',
     ['inputs', 'programs'],
     'all runtime argument values, calls with and without compile-time message, with zero to three arguments',
     'Tests call with one literal.',
     ['panic.hpp'],
     [('dispatch to the handler variable template', 'panic.hpp')])

prop('C42', 'environments answer queries with the most recently given value',
     'Querying an environment returns the value given for that query: extending an environment overrides earlier values for the same query and keeps all others, appending environments lets later ones win, and a query with a default returns the default exactly when neither the environment nor the query itself has an answer.',
     ['programs'],
     'all combinations of environments and queries',
     'Tests build a few fixed environments.',
     ['env.hpp'],
     [('first matching property in a type list', 'env.hpp')])

prop('C43', 'type-level traits describe functions and types exactly',
     'The traits of a function, function pointer, member function or function object report exactly its return type, its argument types in order (as written and decayed), its number of arguments and the type of its object argument, whatever its qualifiers and whether or not it can throw; the arity of a generic function object is the least number of arguments it accepts. '
     'The type predicates and concepts (callable, specialisation of a template, same ignoring qualifiers, structural, complete, tuple and array protocol, ...) hold for exactly the described types.',
     ['programs'],
     'every member of a family of function types over all qualifier combinations and of a family of class, scalar and tuple types',
     'Tests list a fixed set of types and leave out qualifier combinations.',
     ['function_traits.hpp', 'type_traits.hpp', 'concepts.hpp', 'ranges.hpp'],
     [('template specialisations', 'function_traits.hpp'), ('type predicates', 'type_traits.hpp'), ('own concepts for libraries without them', 'concepts.hpp')])

prop('C44', 'a failing formatted static assertion shows exactly its message',
     'A failing formatted static assertion shows exactly the formatted message in the compiler diagnostics.',
     ['programs'],
     'all messages a program can name',
     'Compile-fail tests grep for one message each.',
     ['static_assert.hpp'],
     [('message carried in a constraint', 'static_assert.hpp')])

prop('C45', 'make_array holds exactly the given or computed elements in order',
     'make_array of values holds exactly those values in order, converted to the named or common type, moving from values that were given up and leaving variables unchanged. '
     'make_array from a function calls it exactly once per index, in increasing order, and element i is its result for index i (for an integer sequence: for the i-th integer).',
     ['inputs', 'configurations'],
     'all element values, element types and numbers of elements',
     'Tests use a few literals and do not look at the variables passed or at the number and order of calls.',
     ['array.hpp'],
     [('pack expansion into the array', 'array.hpp')])

prop('C46', 'lists of types and values are walked and looked up completely and in order',
     'Walking a list of types, values or integers calls the function once per element in list order, and applying a list passes all its elements in order; in both cases the function object itself is called, not a copy of it. '
     'Element n of a pack is its n-th type or value, and looking up a key (or value) in a type map gives what it was paired with, or the default exactly when it is not there.',
     ['programs', 'inputs'],
     'lists of every kind with up to nine elements, every position, every key',
     'Tests use lists of two or three elements and functions without state.',
     ['type_traits.hpp', 'utility.hpp'],
     [('fold over the list', 'type_traits.hpp'), ('overload resolution over pairs', 'utility.hpp')])

prop('C47', 'wrapping, forwarding and dispatching helpers pass values through unchanged',
     'Wrapping an expression as a possibly compile-time value gives back exactly the value of the expression, evaluated once; forwarding helpers keep identity and give the documented value category and constness; expanding something that was never shrunk gives the very same object. '
     'Overload sets call the best matching function with the same arguments, and priority tags pick the viable function of highest priority.',
     ['inputs', 'programs'],
     'all values of integers, enumerations, classes and pointers; all combinations of value categories',
     'Tests wrap literals and check few category combinations.',
     ['utility.hpp', 'priority.hpp', 'type_traits.hpp'],
     [('value wrapping macros', 'utility.hpp'), ('category computation', 'utility.hpp'), ('tag inheritance', 'priority.hpp')])

prop('C48', 'names of types, templates and enumerators are exactly their spelled names',
     'The name of a type is its spelling by the compiler, complete and without anything around it; the name of a template is that spelling up to the template arguments. '
     'The name of an enumerator is its identifier without any scope, and a value that has no enumerator is shown as a cast of its number.',
     ['programs'],
     'types, templates and enumerations in every kind of scope and with every printable character as template argument; every value of an eight-bit enumeration',
     'Tests name a handful of simple types and enumerators.',
     ['ct_conversions.hpp'],
     [('compiler-provided function name parsing', 'ct_conversions.hpp')])

prop('C49', 'compile-time formatting keeps run-time arguments and composes',
     'Formatting with compile-time and run-time arguments gives the format string with every compile-time argument replaced by its text and every run-time placeholder kept, together with exactly the run-time arguments in order and with their own values. '
     'Formatting a previous result splices in its text and its arguments at that place, and argument names refer to the right run-time argument or the right characters of the text. '
     'Mapping a macro over arguments applies it to each of them once, in order.',
     ['inputs', 'programs'],
     'all values of the run-time arguments over a family of format strings and nestings',
     'Tests use fixed arguments and shallow nesting.',
     ['ct_format.hpp', 'pp_map.hpp', 'static_assert.hpp'],
     [('splitting of the format string and folding of the pieces', 'ct_format.hpp'), ('recursive macro expansion', 'pp_map.hpp')])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
