#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script only for readable editing)"""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=['include/cista/' + f for f in files],
                          mechanism=[dict(name=n, where='include/cista/' + w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where='include/cista/' + c) for a, b, c in state]
    if observe:
        d['anchors']['observe_at'] = observe
    P.append(d)


p('P01', 'Serialising and deserialising gives back an equal value',
  'For every value built from the serialisable building blocks (scalars, enums, arrays, nested structs, pairs and tuples, vectors, strings, cstrings, owned and intra-object pointers, optionals, variants, bitsets, bit vectors, hash maps and sets, vecvecs), deserialising what was serialised with the same mode yields an equal value whose pointers denote the corresponding objects inside the buffer. This holds in the raw and in the offset flavour and for every combination of version header, integrity header and big-endian encoding. An offset-mode buffer means the same after being copied byte for byte to another suitably aligned address.',
  ['inputs', 'configurations'], 'all values of the type grammar, both pointer flavours, every mode combination, every suitably aligned address',
  'the tests round-trip a fixed set of literals, mostly in one or two modes; element counts, string lengths, pointer graphs and mode combinations are unbounded',
  ['serialization.h', 'reflection/for_each_field.h', 'targets/buf.h', 'containers/offset_ptr.h', 'endian/conversion.h'],
  [('serialize overloads write member offsets relative to the member position', 'serialization.h'),
   ('pending offsets resolved after traversal', 'serialization.h'),
   ('deserialize converts endianness and pointers, then checks', 'serialization.h')])
p('P02', 'Checked deserialisation never accepts a pointer or range outside the buffer',
  'For every byte string, deserialising it in a checking mode either throws or returns an object in which every pointer and every pointer-plus-length range that belongs to a vector, string, owned pointer, plain pointer or hash container is null/empty or lies completely inside the given buffer with the alignment its type needs. The check itself reads no byte outside the buffer and performs no undefined arithmetic, whatever lengths and offsets the bytes encode. Valid buffers are not rejected.',
  ['inputs'], 'all byte strings of every length, both pointer flavours',
  'the tests corrupt a handful of offsets by hand; an attacker chooses any of 2^(8n) byte strings, including those that overflow size arithmetic',
  ['serialization.h', 'containers/vector.h', 'containers/string.h', 'containers/hash_storage.h'],
  [('check_ptr with null/min/max/alignment tests', 'serialization.h'),
   ('checked_multiplication / checked_addition', 'serialization.h'),
   ('check_state overloads per container', 'serialization.h')])
p('P03', 'Version and integrity headers accept exactly what was written',
  'A buffer written with a version header is accepted only when the stored type hash equals the hash of the requested type, and a buffer written with an integrity header only when the stored checksum equals the checksum of the payload bytes; otherwise cista_exception is thrown before the payload is interpreted. Buffers shorter than their header or type are rejected, and the payload always starts directly behind exactly the headers the mode asks for. Types that differ in the size or kind of a member type, member order, arity, or container kind have different type hashes (up to how equal member lists are grouped into nested structs).',
  ['inputs', 'configurations', 'programs'], 'all buffers, all mode combinations; for the type hash all types of a fixed catalogue',
  'tests flip one byte or swap one type; the claim is over all payloads, header values and lengths',
  ['serialization.h', 'type_hash/type_hash.h', 'type_hash/static_type_hash.h', 'mode.h'],
  [('integrity_start/data_start', 'serialization.h'), ('check()', 'serialization.h'), ('type_hash recursion', 'type_hash/type_hash.h')])
p('P04', 'An offset pointer denotes the same object as the raw pointer it stands for',
  'Reading an offset pointer returns exactly the pointer (null included) it was last given, after construction, assignment, copy, move, increment, addition and subtraction, wherever the offset pointer object itself is located. Comparisons and differences of offset pointers agree with those of the raw pointers. Moving the bytes of an offset pointer together with its target by the same distance keeps the relation.',
  ['inputs'], 'all addresses of pointer and target, all element distances',
  'tests use a few neighbouring stack objects; the relation is arithmetic over all 2^64 address pairs, including a pointer to itself and null',
  ['containers/offset_ptr.h', 'containers/ptr.h', 'offset_t.h'],
  [('ptr_to_offset', 'containers/offset_ptr.h'), ('NULLPTR_OFFSET sentinel', 'offset_t.h'), ('offset_ptr::get', 'containers/offset_ptr.h')])
p('P05', 'Serialisation targets place every block aligned, behind the data, and intact',
  'Writing a block to a buffer or file target returns a position that is a multiple of the requested alignment, is not before the end of the data written so far, and leaves exactly the given bytes there; bytes between are padding and earlier blocks are unchanged. Writing a value at an existing position changes exactly the bytes of that value. The checksum a target reports is the hash of exactly the requested range, and a memory-mapped, file and buffer target given the same calls hold the same bytes.',
  ['inputs', 'histories'], 'all sequences of write calls, all sizes and alignments',
  'tests only see targets through a few complete serialisations; alignment and offset arithmetic must hold for all size/alignment histories',
  ['targets/buf.h', 'targets/file.h', 'buffer.h', 'memory_holder.h', 'chunk.h'],
  [('buf::write / resize', 'targets/buf.h'), ('file::write', 'targets/file.h'), ('chunk()', 'chunk.h')])
p('P06', 'A vector behaves as the sequence its operations describe',
  'After every operation (construction, copy, move, assignment, push, emplace, pop, insert, erase, resize, reserve, clear, swap, set) the vector holds exactly the elements the same operation on a mathematical sequence would give, its size never exceeds its capacity, and accesses stay inside memory it owns. Elements are constructed and destroyed consistently and owned memory is released exactly once. Comparisons are lexicographic over the elements, and a vector indexed by keys behaves the same way.',
  ['inputs', 'histories'], 'all sizes, capacities, element values and operation sequences',
  'tests exercise short literal sequences; growth boundaries, aliasing and arbitrary lengths are not sampled',
  ['containers/vector.h', 'next_power_of_2.h', 'aligned_alloc.h', 'allocator.h', 'indexed.h'],
  [('reserve with power-of-two growth', 'containers/vector.h'), ('self_allocated flag', 'containers/vector.h')])
p('P07', 'A string holds exactly the text it was given, short or long',
  'For every text, a string constructed from, assigned or appended with it has that content, length and ordering, no matter whether it fits the in-place representation, and views, comparisons and concatenations agree with those of the same std::string_view. Copying gives an independent string, moving leaves the source valid, and owned memory is released exactly once. Borrowed strings never free or write the memory they refer to.',
  ['inputs', 'histories'], 'all byte strings without embedded zero for the short form, all lengths, both ownership modes, all operation sequences',
  'tests use a handful of literals around one length boundary',
  ['containers/string.h'],
  [('15-byte in-place representation with is_short flag', 'containers/string.h'), ('set_owning / set_non_owning / move_from', 'containers/string.h')])
p('P08', 'A C string keeps content, length and terminator for every length',
  'For every text the cstring holds exactly that text, reports its length, and is terminated by a zero byte, in both the in-place and the heap representation and for the borrowed one as given. Copies are independent, moves transfer the text, owned memory is released exactly once, and comparisons agree with std::string_view.',
  ['inputs', 'histories'], 'all byte strings, all lengths, all ownership transitions',
  'tests sample few lengths; the length is packed with flag bits in one field so every length near the boundary matters',
  ['containers/cstring.h'],
  [('tagged last byte encodes length/ownership', 'containers/cstring.h')])
p('P09', 'Hash maps and sets behave as finite maps and sets',
  'After every sequence of insertions, emplacements, assignments, lookups and erasures the container holds exactly the keys (and values) a mathematical map or set would, lookups find exactly the present keys, iteration yields each element exactly once, and the size is exact. This holds for every hash function, including ones that collide everywhere, through growth, tombstones and rehashing. Elements and memory are released exactly once.',
  ['inputs', 'histories'], 'all keys, all hash functions, all operation histories, all capacities',
  'tests insert sequential or random integers; colliding probe chains, tombstone patterns and group wrap-around are combinatorial',
  ['containers/hash_storage.h', 'containers/hash_map.h', 'containers/hash_set.h', 'bit_counting.h'],
  [('group::match / match_empty bit tricks', 'containers/hash_storage.h'), ('probe sequence', 'containers/hash_storage.h'),
   ('set_ctrl mirrors the first group', 'containers/hash_storage.h'), ('growth_left accounting', 'containers/hash_storage.h')],
  [('ctrl_', 'one control byte per slot plus sentinel and mirror', 'containers/hash_storage.h'),
   ('growth_left_', 'free slots before rehash', 'containers/hash_storage.h')])
p('P10', 'Equal values have equal hashes and reflection sees every member once',
  'Values that compare equal have equal hashes, also across the representations that may be mixed for lookup (string, view, literal), and hashing depends only on the value, never on addresses, padding or capacity. Member-wise operations (hashing, comparison, iteration over fields) visit every member of an aggregate exactly once and in declaration order; comparison is equality respectively lexicographic order of the members.',
  ['inputs', 'programs'], 'all values of the hashable types; all aggregates up to the supported member count',
  'tests compare few literals; a collision of representation only shows for specific pairs of representations',
  ['hashing.h', 'hash.h', 'equal_to.h', 'reflection/to_tuple.h', 'reflection/comparable.h', 'reflection/for_each_field.h'],
  [('hashing<T> dispatch', 'hashing.h'), ('fnv1a / hash_combine', 'hash.h'), ('to_tuple', 'reflection/to_tuple.h')])
p('P11', 'A fixed-size bit set behaves as a sequence of bits',
  'For every size, every operation on a bit set (set, reset, flip, shifts, and/or/xor/not, construction from text or number, comparison) changes exactly the bits the same operation on a sequence of that many bits would. Bits beyond the size are never observable: count, any, none, all, equality, ordering, conversion and iteration over set bits agree with the bit sequence.',
  ['inputs', 'configurations'], 'all bit patterns, indices and shift distances; the sizes covered are listed in the evidence',
  'there are 2^size states; tests sample a few patterns and sizes, block boundaries are easy to miss',
  ['containers/bitset.h', 'bit_counting.h'],
  [('block array plus sanitize()', 'containers/bitset.h')])
p('P12', 'A dynamic bit vector behaves as a sequence of bits of its length',
  'For every length, every operation on a bit vector (resize, set, reset, flip, shifts, and/or/xor/not, whole-range set, comparison, search for the next set bit, iteration over set bits) yields exactly what it yields on a sequence of that many bits; bits beyond the length are never observable and no access leaves the allocated blocks.',
  ['inputs', 'histories'], 'all lengths, bit patterns, indices and shift distances',
  'lengths are unbounded and the partial last block interacts with every operation; tests sample few lengths',
  ['containers/bitvec.h', 'bit_counting.h'],
  [('blocks_ with size_ and sanitize()', 'containers/bitvec.h'), ('num_blocks', 'containers/bitvec.h')])
p('P13', 'Bit counting, powers of two and byte order conversion are exact for every value',
  'Population count, leading and trailing zero counts, and next power of two return the mathematical result for every input of every supported width (next power of two: whenever the result is representable). Byte order conversion reverses the bytes of every supported scalar, is its own inverse, and converting to and from a mode that matches the machine changes nothing. Strong index types compute exactly what their underlying integers compute.',
  ['inputs'], 'all values of all supported integer, enum and floating-point widths',
  'the domains have up to 2^64 values; tests sample a dozen',
  ['bit_counting.h', 'next_power_of_2.h', 'endian/conversion.h', 'endian/detection.h', 'strong.h'],
  [('builtin and constexpr variants', 'bit_counting.h'), ('endian_swap', 'endian/conversion.h')])
p('P14', 'A vector of vectors keeps every bucket as its own sequence',
  'After every operation (appending or emplacing buckets, appending to the last bucket, adding and resizing buckets, clearing, element writes) every bucket holds exactly the elements given to it, in order, and bucket count and sizes are exact. Checked access rejects every index that is not in range, and iteration over buckets and elements visits exactly the stored ones in order.',
  ['inputs', 'histories'], 'all bucket counts, bucket sizes, values and operation histories',
  'tests use two or three buckets; off-by-one errors in the shared start table need specific shapes (empty buckets, first and last bucket)',
  ['containers/vecvec.h'],
  [('bucket_starts_ with a trailing end entry', 'containers/vecvec.h')])
p('P15', 'A nested vector keeps its shape at every depth',
  'After every sequence of appended entries, a nested vector of any depth reports for each index path exactly the sizes and elements that were appended, in order, and iteration yields the same. Checked access rejects every out-of-range index path.',
  ['inputs', 'histories'], 'all nesting shapes and values; depths covered are listed in the evidence',
  'tests build one or two literal shapes; empty inner levels and uneven shapes are unsampled',
  ['containers/nvec.h'],
  [('index arrays per level', 'containers/nvec.h')])
p('P16', 'A fixed multimap built by key returns exactly the values pushed for each key',
  'After pushing values and finishing keys in order, looking up a key returns exactly the values pushed before that key was finished and after the previous one was, in order; the number of keys and values is exact and iteration agrees with indexing. Reserving never changes content.',
  ['inputs', 'histories'], 'all numbers of keys, values per key and operation orders',
  'tests use a few literal keys; empty keys at the start, middle and end interact with the index table',
  ['containers/fws_multimap.h'],
  [('index_ / finish_key / finish_map', 'containers/fws_multimap.h')])
p('P17', 'A mutable multimap keeps every bucket intact while others grow, shrink and move',
  'After every sequence of bucket appends, inserts, removals, resizes, reserves and clears, each bucket holds exactly the elements a list per bucket would, the total element count is exact, and buckets never overlap in storage even when freed space is reused. Iteration and checked access agree with indexing.',
  ['inputs', 'histories'], 'all operation histories and values',
  'reuse of released space needs particular sequences of growth across several buckets',
  ['containers/mutable_fws_multimap.h'],
  [('free_buckets_ per power-of-two capacity', 'containers/mutable_fws_multimap.h'), ('get_insert_bucket / move_entries / release_bucket', 'containers/mutable_fws_multimap.h')])
p('P18', 'Paged storage never lets pages overlap and keeps their content',
  'Pages handed out while live occupy disjoint ranges inside the data, have at least the requested capacity, and keep their content when other pages are created, resized or freed; a page freed is reused only after it was freed. A paged vector of vectors on top of it behaves as a list per bucket under append, resize, and whole-bucket replacement.',
  ['inputs', 'histories'], 'all sequences of create, resize and free with all sizes',
  'the free list is threaded through the data; overlap shows only after particular free and reuse orders',
  ['containers/paged.h', 'containers/paged_vecvec.h'],
  [('free list per power-of-two page size', 'containers/paged.h')])
p('P19', 'A flat matrix addresses each cell exactly once',
  'For every shape, writing a cell changes exactly that cell and reading returns the last value written, through every access form (row then column, two indices, row iteration); distinct cells never share storage and every valid cell lies inside the allocated entries. Checked row access rejects every row index that is not in range, and resizing yields the requested shape.',
  ['inputs', 'configurations'], 'all shapes and all pairs of cells',
  'an index formula wrong for non-square shapes survives tests on small square ones',
  ['containers/flat_matrix.h'],
  [('row-major index computation', 'containers/flat_matrix.h')])
p('P20', 'A variant holds exactly the alternative last stored',
  'After every sequence of construction, assignment, emplacement, copy, move and swap the variant reports the alternative last stored and returns its value; the previous alternative is destroyed exactly once and no other is ever destroyed or read. Visiting calls the function with the held alternative only, and comparison and hashing follow the index first and then the value.',
  ['inputs', 'histories'], 'all alternatives, values and transitions between them',
  'transitions between each pair of alternatives, self-assignment and non-trivial destructors are not all sampled',
  ['containers/variant.h'],
  [('idx_ plus aligned storage, apply by index', 'containers/variant.h')])
p('P21', 'Optionals, unique pointers and tuples keep value and ownership',
  'An optional is engaged exactly when a value was stored and returns that value; a unique pointer owns at most one object, releases it exactly once, and transfers ownership on move; both keep the source of a move safely destructible. A tuple returns for each position the value stored at that position, elements do not share storage, and tuple comparison is lexicographic.',
  ['inputs', 'histories'], 'all values and ownership transitions',
  'ownership bugs need specific transition sequences; tuple layouts depend on member types',
  ['containers/optional.h', 'containers/unique_ptr.h', 'containers/tuple.h'],
  [('valid_ flag', 'containers/optional.h'), ('self_allocated flag', 'containers/unique_ptr.h'), ('element offsets', 'containers/tuple.h')])
p('P22', 'A spatial index finds exactly the stored boxes that intersect a query',
  'After every sequence of insertions and deletions a search visits each stored entry whose box intersects the query box exactly once and no other; the entry count is exact, and every inner box covers the boxes below it.',
  ['inputs', 'histories'], 'all finite boxes and all insertion and deletion histories',
  'node splits and root growth depend on insertion order and geometry; tests use few fixed data sets',
  ['containers/rtree.h'],
  [('node split, rectangle expansion', 'containers/rtree.h')])
p('P23', 'Memory-mapped storage and vectors persist exactly their content',
  'What was written through a memory-mapped file or vector is exactly what is read back after closing and reopening it: the file has the length of the content, and growing, shrinking and appending keep the earlier content. A mapped vector behaves as the sequence its operations describe.',
  ['inputs', 'histories'], 'all operation sequences and content sizes, including page boundaries',
  'page-boundary and truncate-on-close behaviour needs sizes tests do not use',
  ['mmap.h', 'containers/mmap_vec.h'],
  [('size_ versus used_size_, truncation on sync/close', 'mmap.h')])
p('P24', 'Concurrent atomic updates lose nothing',
  'Concurrent atomic bit updates of a bit vector, concurrent claims of the next free block, and concurrent minimum and maximum updates have the effect of some sequential order of the same operations.',
  ['schedules'], 'all interleavings of any number of threads',
  'a lost update needs a particular interleaving that tests do not force',
  ['atomic.h', 'containers/bitvec.h'],
  [('compare-exchange loops', 'atomic.h')])
with open('/verif/properties.jsonl', 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
