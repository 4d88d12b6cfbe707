"""Writes DESIGN.md from the texts here, properties.jsonl, the last evidence and seeded/*/meta.json."""
import glob
import json
import os
import textwrap

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = {
'C01': ('a word-valued model of the set of positions (bit i of an integer) kept next to the bitset; after each operation every query (index, count, all, any, none, equality, to-integer) is compared',
 'two arbitrary operations with arbitrary arguments from an arbitrary content, sizes 1 to 64 over 8- to 64-bit storage (thorough: three operations, 70 to 128 bits); one operation on many-element sets of 40 to 128 bits; count and equality to 64 bits; counting and whole-set operations on 257 to 300 bits'),
'C02': ('shift of the model word, bits at or beyond the size removed; a second shift back checks that lost bits stay lost',
 'all contents and all shift amounts (any std::size_t): 17 sizes from 0 to 70 bits over every storage type, up to five storage elements (thorough: 64 to 128 bits, up to eight elements); 260 and 300 bits for positions beyond 255'),
'C03': ('record of the calls of the function (positions, order, number) against the model set; the fold is a rotate-xor that depends on order',
 'all contents for sizes 1 to 19; at most two or three set (or unset) positions anywhere for 27 to 64 bits (thorough: four); lowest_unset to 128 bits, for_each to 70; enumeration indices and the empty set; sizes of 260 and 300 bits'),
'C04': ('the described positions computed directly from the integer, string or position arguments',
 'all integer values into 15 sizes from 0 to 90 bits; strings of up to 12 arbitrary characters with any start, count and set character; compile-time strings of 4, 9 and 18 characters; three positions in 7 to 100 bits; 40 conversions to integers and enumerations'),
'C05': ('the model set over the distinct types of the list',
 'lists of 1 to 10 types with and without repetitions, arbitrary membership, two operations, iteration with index; 40 and 70 types (iteration over 70 with fixed members)'),
'C06': ('a replacement `std::atomic` whose value is havocked before each access (any interference) and which logs number, kind and memory order of accesses; one access, old value returned, only addressed bits changed',
 'all contents, all interferences, all positions; sizes to 40, enumerations, compile-time strings; a configuration where the underlying atomic type is wider (`VP_WIDE`)'),
'C07': ('the same replacement atomic',
 'all values and interferences of integers of every width, booleans, enumerations, floating point through bit patterns, pointers, and wider underlying types'),
'C08': ('shift-and-or of the parts; composition of pack and unpack is the identity; byte order by indexing bytes',
 'every value of 8 to 64 bits, every width combination; standard library and the header\'s own implementation'),
'C09': ('definition of the mask bit by bit; reassembly of the pieces; counting loops for the queries',
 'every value, every pair of positions; arrays to five elements; up to ten pieces; the header\'s own fallbacks too (`FALLBACK=1/2`)'),
'C10': ('a byte array and an offset; every byte outside the accessed range must be unchanged',
 'all contents of a small buffer (8 to 24 bytes), all positions and all offsets within it; element types of 1 to 8 bytes, three-byte structures, enumerations; places up to 640 bytes from the start; subscripts in both directions'),
'C11': ('a fixed array and a length', 'from empty: four operations with capacity 3, five with capacity 2 (thorough: seven and six); one arbitrary operation from an arbitrary content with capacities 1 to 5; 8-, 32-, 64-bit and two-part elements; one vector of 300 elements'),
'C12': ('an association list with unique keys', 'from empty: three operations with capacities 2 and 3 (thorough: five); each operation from an arbitrary content of 0 to 6 distinct keys, capacities 1 to 7 (thorough: 12, and three operations); 8-, 16-, 32-bit and two-part keys and values; lookups of an arbitrary key among 60 entries'),
'C13': ('a list of distinct members', 'from empty: three operations with capacities 2 and 3 (thorough: five); each operation from an arbitrary content of 0 to 6 members, capacities 1 to 7 (thorough: 10); merges of up to 3+4 members (thorough: 4+5); construction from up to five possibly equal values; lookups of an arbitrary key among 60 members'),
'C14': ('a list of keys with lists of distinct values', 'each operation from an arbitrary content, up to 3 keys x 3 values (thorough: 1 x 4, 2 x 2 with two-part values, two operations on 3 x 3, and four operations from empty with 2 x 2); arguments that refer into the map'),
'C15': ('the list of everything pushed since the last clear and not yet popped', 'from empty: four operations with capacity 1, six with 2, five with 3 (thorough: twelve with 3 and 4); an operation from every internal position and fill level for capacities 1 to 5 (thorough: 8); one queue of 300 elements'),
'C16': ('a policy and a panic handler that record calls, sizes and the queue\'s state at the time', 'every operation at every fill level and internal position, capacities 1 to 4; asking, panicking, unsafe and outside-writing policies'),
'C17': ('an array of node pointers; forward walk, backward links, front, back, empty, and unchanged nodes outside', 'each operation with solver-chosen node and position on lists of 0 to 4 nodes (thorough: 5); from empty: three operations on three nodes (thorough: six on four); both policies, link fields of fresh nodes arbitrary under the unchecked one; lists of nine nodes changed at every place'),
'C18': ('the same with single links', 'each operation on lists of 0 to 4 nodes (thorough: 6); from empty: four operations on three nodes (thorough: seven on four); both policies'),
'C19': ('the panic handler counts; expected exactly when a link field of the node is non-null', 'every adding function and position, lists of 0 to 3 nodes, arbitrary link fields of the added node; reuse after pop, remove and clear; a node that is already in the list'),
'C20': ('a flag and a value', 'integers, booleans, enumerations, floating point (all bit patterns, NaN included), pointers, std::pair and std::tuple, classes that can only be moved, classes that count their living objects; histories of three or four operations'),
'C21': ('std::optional itself, run on the same symbolic values; call counters', 'all values, all four value categories, one to five operands'),
'C22': ('pointer arithmetic on the underlying array', 'arrays of up to 5 elements of 1 to 8 bytes; all sizes, offsets and counts; arrays of 300 elements'),
'C23': ('128-bit (or shifted-add) modular arithmetic', 'all pairs of values of every unsigned type'),
'C24': ('the modular distance', 'all pairs (and a common offset) of every unsigned type'),
'C25': ('128-bit clamping', 'all values, all 64 pairs of the eight standard integer types'),
'C26': ('record of the calls (addresses of the arguments) and of the written results', 'lengths 0 to 4, one to three ranges, input, forward and random access iterators, signed and unsigned counts; six ranges; one range of 300 elements'),
'C27': ('the same record', 'lengths 0 to 4, every count of every integer type used; five ranges; ranges of 300 elements'),
'C28': ('the left fold written out with a fold that is neither commutative nor associative', 'lengths 0 to 4, one to three ranges, all iterator categories; five ranges; ranges of 300 elements'),
'C29': ('128-bit integer arithmetic', 'all counters and offsets that do not overflow, every integer type'),
'C30': ('call counter and last result', 'histories of four operations with any results (thorough: eight), classes, references and constant functions'),
'C31': ('the values the tuple was built from, compared by address and value; `tracked` and move-only elements record moves', 'tuples of 0 to 6 elements with equal, empty, reference, move-only and nested types; three compiler views; one tuple of twelve elements'),
'C32': ('std::tuple comparison on the same values', 'tuples of 0 to 4 elements, mixed types, nested, floating point with NaN; thirteen elements, nine alternatives in one_of'),
'C33': ('the fold written out', 'lengths 0 to 6 with an order-dependent operation, growing result types, moved accumulators; eighteen elements'),
'C34': ('the documented element list written out', 'families of tuples with repeated types, references, move-only elements, long type names; all element values; tuples of 10 to 14 elements; eleven tuples joined at once; lvalues keep their elements'),
'C35': ('records of calls and written-out results', 'one to three tuples of 0 to 4 elements, arrays and std types; long tuples; five tuples side by side and in a product; lvalues keep their elements'),
'C36': ('the documented search order worked out by hand for each family member; values symbolic', '13 families of functions and arguments; ten arguments, calls with six and ten of them, ten functions'),
'C37': ('records of calls', 'zero to four bound and call arguments, all value categories; up to twelve arguments'),
'C38': ('character arrays', 'all contents of strings of 0 to 9 characters (thorough 24); splitting over a family of strings (template arguments cannot be symbolic); splitting and joining strings longer than 255 characters'),
'C39': ('repeated division by ten / sixteen; size computed independently', 'every value of 8-, 16-bit types; 32-bit split by number of digits (full in thorough); 64-bit in windows around zero, the limits and the powers of ten; texts of up to 6 arbitrary characters'),
'C40': ('division with rounding on 128 bits; multiples', 'all counts that do not overflow, object sizes 1, 2, 3, 4, 5, 7, 8, 16; all values and addresses'),
'C41': ('a recording handler', 'all argument values, 0 to 3 arguments, every form of panic, histories of three panics'),
'C42': ('a model that replays the history of gives and overrides; the solver picks history, query and default', 'all histories of two (thorough three) extensions and appends over three queries, starting from an empty and a given environment; the family is enumerated, the choice among it and the defaults are symbolic; fourteen queries in one environment, five environments appended'),
'C43': ('tables of the expected facts written by hand; concepts are also compared with the standard ones', 'all qualifier combinations of member functions (cv, reference, noexcept), 0 to 5 parameters; families of class, scalar, array, tuple and function types; the entry compared is symbolic; the own concepts for standard libraries without them are a separate configuration'),
'C45': ('the values and calls written out', 'zero to six elements, every overload, move-only and converting element types; 256 elements'),
'C46': ('an order-dependent hash of the visited elements; tables for lookups', 'lists of 0 to 9 types and values of every list kind; positions and keys symbolic over the whole table; lists of 20, maps of 17 pairs'),
'C47': ('identity of values and addresses, call counters', 'all values of integers, enumerations, classes and pointers; all 36 combinations of value categories for forward_like'),
'C48': ('the spelling by clang written out, with a constexpr table over the family', 'types with each of 92 printable characters as template argument, in namespaces, classes, functions and templates; every value of an eight-bit enumeration; position in name and family member symbolic; names of 300 characters'),
'C49': ('the expected text and tuple written out; run-time arguments compared by value and address', 'about 60 format strings with 0 to 5 arguments nested up to three deep, all values of the run-time arguments; macro mapping with 0 to 100 arguments; freestanding formatter, C++20 and C++23; ten and more arguments; names after more than 255 characters'),
}

STRENGTHENED = {
 'B62': 'first missed (calls had at most three arguments); longer argument lists and calls added',
 'B63': 'first missed (products of at most three tuples); a product of five tuples added',
 'B64': 'first missed; texts of more than 255 characters with names added',
 'B65': 'first missed (at most three optionals); four and five added',
 'B66': 'first missed (few answers at once); environments of ten answers added',
 'B67': 'first missed (the subscript was not checked); both subscripts in both directions added',
 'B50': 'first missed (ranges had at most four elements); a range of 300 elements added',
 'B51': 'first missed; lvalue tuples are now checked to keep their elements',
 'B52': 'first missed; lvalue tuples are now checked to keep their elements',
 'B53': 'first missed; byte views of three-byte elements added',
 'B54': 'first missed (ranges had at most four elements); a long range added',
 'B55': 'first missed (capacities had been at most 5); a vector of 300 elements added',
 'B56': 'first missed (capacities had been at most 8); a queue of 300 elements added',
 'B60': 'needs more groups than the families had; longer argument lists were added',
 'B57': 'first missed; strings longer than 255 characters added',
 'B58': 'first missed; rvalue references and qualified function types added to the table',
 'B59': 'first missed; sets of 300 bits added',
 'B18': 'first missed (stale tail); `lists::outside()` added',
 'B28': 'first ended undecided (the typed reduction did not compile any more); the reduction is generic now',
 'B31': 'first missed; harnesses on kept and given-up sources added',
 'B34': 'long type names were added after an earlier planted bug here was missed',
 'B43': 'first missed; parameters that are references to arrays and functions were added',
 'B46': 'sequences of integers with a stateful function were added for it',
 'B47': 'first ended undecided (taking the address of a copy does not compile); all address comparisons now take temporaries',
 'B49': 'first missed; inserted results with arguments of both kinds were added',
 'B37': 'first ended undecided because one harness did not compile; the others are now still decided',
}
MISSED = {}

def wrap(t):
    return textwrap.fill(t, 98, break_on_hyphens=False, break_long_words=False)

def item(name, t):
    return textwrap.fill(f'- {name}: {t}', 98, subsequent_indent='  ', break_on_hyphens=False, break_long_words=False)

def main():
    props = [json.loads(l) for l in open(f'{ROOT}/properties.jsonl')]
    costs = f'{ROOT}/tools/design/costs.json'
    cost = json.load(open(costs)) if os.path.exists(costs) else {}
    for p in props:
        f = f"{ROOT}/evidence/{p['id']}.json"
        if os.path.exists(f):
            e = json.load(open(f))
            if e.get('tier') == 'quick' and 'obligations' in e['coverage']:
                c = e['coverage']
                cost[p['id']] = {'wall': round(e.get('wall_s', e.get('duration_s', 0)) or 0), 'harnesses': c['harnesses'],
                                 'obligations': c['obligations'], 'queries': c['solver_queries'], 'solver': round(c['solver_time_s'])}
    json.dump(cost, open(costs, 'w'), indent=1, sort_keys=True)
    out = [open(f'{ROOT}/tools/design/head.md').read(), '## Per property\n']
    for p in props:
        i = p['id']
        if i not in S:
            continue
        oracle, bounds = S[i]
        out.append(f"### {i}: {p['title']}\n")
        out.append(item('Oracle', oracle + '.'))
        out.append(item('Bounds (quick unless said)', bounds + '.'))
        if i in cost:
            c = cost[i]
            out.append(item('Cost', f"{c['harnesses']} harnesses, {c['obligations']} obligations, {c['queries']} solver queries, {c['solver']} s of solving spread over the cores (quick)."))
        out.append(item('Why tests do not reach it', p['why_tests_cant']))
        out.append('')
    out.append(open(f'{ROOT}/tools/design/tail.md').read())
    out.append('## Planted bugs and the checks that catch them\n')
    out.append(wrap('Each planted bug was written from the property text, passes the repository\'s tests, and was run against the check of its property (quick tier).  All are caught unless the last column says otherwise.') + '\n')
    out.append('| bug | check | what it breaks | needs | remark |\n|---|---|---|---|---|')
    for d in sorted(glob.glob(f'{ROOT}/seeded/*')):
        b = os.path.basename(d)
        m = json.load(open(f'{d}/meta.json'))
        note = MISSED.get(b) or STRENGTHENED.get(b, '')
        out.append('| ' + ' | '.join(x.replace('|', '\\|') for x in (b, m['property'], m['what_it_breaks'], m['needs'], note)) + ' |')
    open(f'{ROOT}/DESIGN.md', 'w').write('\n'.join(out) + '\n')

main()
