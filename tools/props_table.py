NB = 'not built yet'
DIGNOTE = ('All obligations are generated from the current tree on every run and discharged for all message lengths (symbolic, below 2^63 bytes in total), all contents and all chunkings; '
           'the block function is proved against the standard once and used by contract. Trusted: clang front end, the IR extractor, the VC generator and its rewriting (self-tested each run), z3.')
DQ = 'every message (any length and content), every way of cutting it into chunks, every point at which a digest is read out'
DW = ('The tests pin a handful of published vectors and a few chunk lengths; equality for every length, every content and every chunking is a statement over an unbounded set of inputs and call histories '
      '(padding boundaries, carries in the length counter and partial-buffer bookkeeping show only at particular lengths and splits).')
def dig(id, title, names, files, mech, extra='', na=None):
    prop(id, title, 'For every byte string, the digest computed by %s is exactly the one its published standard defines. It is the same whether the bytes are given at once or streamed in any sequence of chunks (empty ones included) through the raw streaming calls or the streaming wrapper, and reading the digest does not change the stream, which can be read again or extended.%s' % (names, extra),
         ['inputs', 'histories'], DQ, DW, files, mech, na=na, observe=['digest bytes', 'streaming state'], note=DIGNOTE)
ST_ = [('streaming wrapper', 'mbo/digest/digest.h')]
dig('P01', 'SHA-256 and SHA-224 equal FIPS 180-4, one-shot and streamed', 'SHA-256 and SHA-224', ['mbo/digest/digest_sha256.h', 'mbo/digest/digest.h'],
    [('message schedule and compression', 'mbo/digest/digest_sha256.h ProcessBlock'), ('partial-block buffering and padding', 'mbo/digest/digest_sha256.h Update/Finalize')] + ST_)
dig('P02', 'SHA-512, SHA-384 and SHA-512/t equal FIPS 180-4, one-shot and streamed', 'SHA-512, SHA-384, SHA-512/256 and SHA-512/224', ['mbo/digest/digest_sha512.h', 'mbo/digest/digest.h'],
    [('message schedule and compression', 'mbo/digest/digest_sha512.h'), ('partial-block buffering and padding', 'mbo/digest/digest_sha512.h')] + ST_)
dig('P03', 'SHA-1 and MD5 equal FIPS 180-4 / RFC 1321, one-shot and streamed', 'SHA-1 and MD5', ['mbo/digest/digest_sha1.h', 'mbo/digest/digest_md5.h', 'mbo/digest/digest.h'],
    [('compression', 'mbo/digest/digest_sha1.h, mbo/digest/digest_md5.h'), ('partial-block buffering and padding', 'mbo/digest/digest_sha1.h, mbo/digest/digest_md5.h')] + ST_)
dig('P04', 'SHA-3 and SHAKE equal FIPS 202, one-shot and streamed', 'SHA3-224/256/384/512 and by SHAKE128/256', ['mbo/digest/digest_sha3.h', 'mbo/digest/digest.h'],
    [('Keccak-f[1600]', 'mbo/digest/digest_sha3.h'), ('lane-wise absorption, domain padding, squeezing', 'mbo/digest/digest_sha3.h')] + ST_)
dig('P05', 'BLAKE2b equals RFC 7693, plain and keyed, one-shot and streamed', 'BLAKE2b with 64- and 32-byte output', ['mbo/digest/digest_blake2b.h', 'mbo/digest/digest.h'],
    [('compression F', 'mbo/digest/digest_blake2b.h'), ('lazy last block, byte counter', 'mbo/digest/digest_blake2b.h Update/Finalize'), ('keyed mode', 'mbo/digest/digest_blake2b.h KeyedInit/DigestKeyed')] + ST_,
    extra=' The same holds for the keyed mode with keys of 0 to 64 bytes (one-shot and started by StreamInitKeyed): the key length enters the parameter block and the zero-padded key is the first block; an empty key gives the unkeyed digest and only the first 64 bytes of a longer key count.')
dig('P06', 'BLAKE3 hash, keyed hash, key derivation and XOF equal the specification', 'BLAKE3', ['mbo/digest/digest_blake3.h', 'mbo/digest/digest.h'],
    [('compression', 'mbo/digest/digest_blake3.h'), ('chunk chaining and subtree merging', 'mbo/digest/digest_blake3.h PushChunk/Update/Finalize'), ('root output, extendable output', 'mbo/digest/digest_blake3.h Finalize<N>'), ('keyed and derive-key modes', 'mbo/digest/digest_blake3.h DigestKeyed/DeriveKey')] + ST_,
    extra=' The same holds for the keyed mode (32-byte key), for key derivation from a context string and key material, and for extended output of any requested length, of which shorter outputs are a prefix.')

prop('P07', 'HMAC equals RFC 2104 over every digest algorithm, one-shot and streamed',
     'For every digest algorithm of the library, every key (any length, the empty one, exactly one block and longer than a block included) and every message, HMAC computed in one call equals RFC 2104: digest(key xor opad || digest(key xor ipad || message)), the key zero-padded to the block size and replaced by its digest when longer than a block. Streaming the message in any sequence of chunks, through the raw calls or the streaming wrapper, gives the same value, and reading the value does not change the stream.',
     ['inputs', 'histories'], 'every algorithm, key, message, chunking and point of readout', DW, ['mbo/digest/digest_hmac.h'],
     [('key preparation', 'mbo/digest/digest_hmac.h'), ('inner/outer streams', 'mbo/digest/digest_hmac.h'), ('algorithm block/digest sizes', 'mbo/digest/digest*.h')],
     observe=['MAC bytes', 'streaming state'], note='Hmac is verified against an abstract algorithm that only has the streaming contract proved in P01-P06, once per (block size, digest size) pair. Trusted: clang front end, IR extractor, VC generator, z3.')
prop('P09', 'Checksum lines are parsed exactly and digests rendered as lower-case hex',
     'For every line and every expected hex length h, ParseChecksumLine accepts the line exactly when it has at least h+3 bytes, the first h are hexadecimal digits (either case), the next is a space and the one after it a space or an asterisk; the result is then those h digits and everything after the two separator bytes as the file name, and no byte outside the line is read. ToHexString renders every N-byte digest as its 2N lower-case hexadecimal digits.',
     ['inputs'], 'every line, every hex length, every digest', 'The tests try a few lines; acceptance is a predicate over all byte strings of all lengths (and huge expected lengths).',
     ['mbo/digest/checksum.h', 'mbo/digest/checksum.cc', 'mbo/digest/digest.h'], [('parser', 'mbo/digest/checksum.cc ParseChecksumLine'), ('hex rendering', 'mbo/digest/digest.h ToHexString')],
     observe=['parse result', 'hex string'], note='Line length and hex length symbolic, the digit loop cut by an inferred invariant; hex rendering for every digest size the library has. Trusted: isxdigit as in the C locale, clang front end, IR extractor, VC generator, z3.')

HN = ('All obligations are generated from the current tree on every run. Lengths up to the point where the loop over blocks starts are executed one by one with symbolic bytes and seed; all longer messages are covered by '
      'inferred loop invariants over a symbolic length. Trusted: clang front end, the IR extractor, the VC generator and its rewriting (self-tested each run), z3.')
HW = ('The tests pin some vectors and check quality statistically; equality with the published function for every length, every content and every seed is a statement over an unbounded set of inputs '
      '(errors hide at one tail length, one block boundary or one seed value).')
def hsh(id, title, st, files, mech, inputs='every message (any length and content), every seed, every chunking where streaming exists', na=None, over=['inputs', 'histories'], level=None):
    prop(id, title, st, over, inputs, HW, files, mech, na=na, observe=['hash values', 'streaming state'], note=HN)
SM = ' Where a seed is optional, leaving it out means the documented default. No byte outside the given data is read.'
hsh('P10', 'XXH64 equals the published xxHash algorithm, one-shot and streamed',
    'For every byte string and every 64-bit seed, the 64-bit value computed by xxh64 is exactly the one the published XXH64 algorithm defines, whether through the algorithm itself, the free functions or the generic GetHash64. Streaming the bytes in any sequence of chunks (empty ones included), through the raw calls or Streamer, gives the same value, and reading the value neither changes nor disturbs the stream.' + SM,
    ['mbo/hash/hash_xxh64.h', 'mbo/hash/hash_internal_util.h', 'mbo/hash/hash.h'], [('stripe loop, tail, avalanche', 'mbo/hash/hash_xxh64.h GetHash64'), ('streaming state', 'mbo/hash/hash_xxh64.h StreamInit/StreamUpdate/StreamFinalize'), ('wrapper', 'mbo/hash/hash.h Streamer')])
hsh('P11', 'XXH3 64- and 128-bit equal the published algorithm for every length and seed',
    'For every byte string and every 64-bit seed, the 64-bit and the 128-bit value computed by xxh3 are exactly the ones the published XXH3 algorithm defines, in every length class (0, 1-3, 4-8, 9-16, 17-128, 129-240 and longer, with any number of stripes and blocks), with the default secret for seed zero and the derived one otherwise.' + SM,
    ['mbo/hash/hash_xxh3.h', 'mbo/hash/hash_internal_util.h'], [('short and medium inputs', 'mbo/hash/hash_xxh3.h'), ('stripe accumulation, scrambling, merging', 'mbo/hash/hash_xxh3.h HashLong'), ('seeded secret', 'mbo/hash/hash_xxh3.h InitCustomSecret')], inputs='every message (any length and content), every seed', over=['inputs'])
hsh('P12', 'SipHash-2-4 and SipHash-1-3 equal the published algorithm',
    'For every byte string and every 128-bit key, the SipHash-2-4 and SipHash-1-3 functions return exactly the value the published algorithm defines; the seeded form of the algorithm uses the key (seed, Fmix64(seed)). Streaming the bytes in any sequence of chunks (empty ones included) gives the same value, and reading it does not change the stream.' + SM,
    ['mbo/hash/hash_siphash.h', 'mbo/hash/hash.h'], [('rounds, length byte, finalization', 'mbo/hash/hash_siphash.h SipHash'), ('streaming state', 'mbo/hash/hash_siphash.h Stream*')])
hsh('P13', 'MurmurHash3 x64-128 equals the published algorithm',
    'For every byte string and every seed, murmur3 returns exactly the 128-bit value of MurmurHash3_x64_128 with both lanes started from the 64-bit seed, and its 64-bit form is the first half of that value.' + SM,
    ['mbo/hash/hash_murmur3.h', 'mbo/hash/hash_internal_util.h'], [('block loop, tail, finalization', 'mbo/hash/hash_murmur3.h')], inputs='every message (any length and content), every seed', over=['inputs'])
hsh('P14', 'FNV-1a and rapidhash V3 equal their published definitions',
    'For every byte string and every seed, fnv1a returns exactly the 64-bit FNV-1a value folded with the seed as the code documents, and rapidhash exactly the value of rapidhash V3 for that seed, in every length class.' + SM,
    ['mbo/hash/hash_fnv1a.h', 'mbo/hash/hash_rapidhash.h', 'mbo/hash/hash_internal_util.h'], [('byte fold', 'mbo/hash/hash_fnv1a.h'), ('length classes, lanes, finalization', 'mbo/hash/hash_rapidhash.h')], inputs='every message (any length and content), every seed', over=['inputs'])
hsh('P15', 'In-house hashes keep their values for every input, one-shot and streamed',
    'For every byte string and every seed, each hash of the library\'s own family (mumbo and jumbo with their 64- and 128-bit values, dumbo, fambo and tembo in sixteen configurations from 2 to 16 lanes) returns the value its definition at the pinned release gives: values are stable across versions, so stored hashes stay valid. Streaming mumbo or jumbo in any sequence of chunks (empty ones included), through the raw calls or Streamer, gives the one-shot 64-bit value, and reading it does not change the stream.' + SM,
    ['mbo/hash/hash_mumbo.h', 'mbo/hash/hash_dumbo.h', 'mbo/hash/hash_fambo.h', 'mbo/hash/hash_tembo.h', 'mbo/hash/hash_internal_util.h'],
    [('lane schedule', 'mbo/hash/hash_tembo.h'), ('64- and 128-bit forms, streaming', 'mbo/hash/hash_mumbo.h'), ('small and large inputs', 'mbo/hash/hash_dumbo.h, mbo/hash/hash_fambo.h')])
hsh('P17', 'Compile-time evaluation gives the run-time hash and digest values',
    'The code paths taken in constant evaluation (std::is_constant_evaluated) compute the same values as the run-time paths: for every byte string and seed every one-shot and streamed hash of P10 to P15 still meets its specification when those branches are taken, and so do the MD5, SHA-1, SHA-256, SHA-512, SHA3-256 and BLAKE2b digests.',
    ['mbo/hash/hash_internal_util.h', 'mbo/hash/hash_xxh3.h', 'mbo/hash/hash_rapidhash.h', 'mbo/digest/digest_sha256.h', 'mbo/digest/digest_blake2b.h'],
    [('byte-wise loads', 'mbo/hash/hash_internal_util.h Load64/Load32/LoadTail'), ('constant-evaluation branches', 'mbo/hash/*.h, mbo/digest/*.h')])
prop('P18', 'Generic hash layer: widths, synthesis, folds, mangling and order of Hash128',
     'For every algorithm type, byte string and seed: the generic GetHash64, GetHash128, GetHash32 and Hasher (default seed 5381, call operator included) return the algorithm\'s own form of that width when it has one. Otherwise 64 bits are the documented mix of the 128-bit value, 128 bits are the 64-bit hash of the data paired with the 64-bit hash of the data after its first eight bytes under a seed mixed from the seed, the flip constant and those bytes, and 32 bits are the xor fold of the 64-bit value. GetHash and MangledHasher return the 64-bit value xored with the non-zero build constant. CombineHashes is its documented mix. Hash128 values compare lexicographically and print as 0x plus 32 lower-case hex digits.',
     ['inputs'], 'every algorithm shape, message, seed and pair of values', 'Tests call the layer with a few algorithms and inputs; the selection and synthesis rules must hold for every algorithm a user plugs in, every length (below eight bytes included) and every seed.',
     ['mbo/hash/hash.h', 'mbo/hash/hash_mangle.h', 'mbo/hash/hash_types.h', 'mbo/hash/hash_internal_util.h'], [('width selection and synthesis', 'mbo/hash/hash.h Hasher'), ('mangling', 'mbo/hash/hash_mangle.h'), ('ordering and text', 'mbo/hash/hash_types.h Hash128')],
     observe=['hash values', 'ordering', 'text'], note='Verified over abstract algorithms (uninterpreted functions), one for each combination of 32-, 64- and 128-bit forms. Trusted: clang front end, IR extractor, VC generator, z3.')
prop('P19', 'Scalar comparison orders the mathematical values, across all type pairs',
     'For every pair of built-in arithmetic types and every pair of values, CompareScalar, CompareArithmetic and (for integers) CompareIntegral give the order of the mathematical values, whatever the widths and signedness; a bool compared with another integer type compares truth values; integers and floating-point numbers compare as extended precision values, which lose nothing. CompareFloat is a total order: -0 equals +0, every NaN equals every other NaN and is greater than every number. CompareLess is the less-than of its type and its Compare the three-way form, also against other types on either side. WeakToStrong keeps the order.',
     ['inputs'], 'every pair of arithmetic types and every pair of values', 'Tests compare a handful of values of a few type pairs; the sign and width traps sit at type-specific boundaries of 361 type pairs.',
     ['mbo/types/compare.h'], [('mixed signedness and float rules', 'mbo/types/compare.h CompareScalar'), ('NaN rule', 'mbo/types/compare.h CompareFloat'), ('less and three-way', 'mbo/types/compare.h CompareLess')],
     observe=['ordering result'], note='Int-to-float and float widening conversions are abstracted (the result holds for any conversion) and separately proved order-preserving in the solver\'s IEEE theory. Trusted: clang front end, IR extractor, VC generator, z3.')
CT = ' Requirement failures (MBO_CONFIG_REQUIRE) happen exactly when the operation cannot be done.'
prop('P20', 'Value wrappers keep, refer to or lack one value as documented and own it',
     'For every value and from every state, the wrappers of mbo/types behave as documented. OptionalDataOrRef is empty, owns a value or refers to an external object: construction, copy, move, assignment (also to itself and from std::nullopt), emplace, set_ref, reset, as_data, get, value and the state queries lead from each state to the documented one; a copied or moved reference keeps referring to the same object, a moved-from owner becomes empty. Assigning a value replaces what is held (an lvalue is assigned through a reference); assignment to an OptionalRef goes through to the object it refers to and never rebinds it. RefWrap always refers to an object and is rebound by assignment; Required and OpaqueValue always own a value (OpaqueValue copies deeply), also after emplace with their own value; NoDestruct owns a value that is never destroyed. Reading the value of an empty wrapper is a failed requirement and never a wrong access. Comparisons, hashes and formatting depend only on the values, and empty compares less than any value and equal to std::nullopt. No other object is changed, and every object a wrapper constructs is destroyed exactly once (never for NoDestruct), never used before its construction or after its destruction.',
     ['inputs', 'histories'], 'every value, every state of one or two wrappers (empty, owning, referring to either of two objects), every operation', 'Tests sample a few values of trivially destructible types; ownership, self-assignment and states of the source after a move are not visible in them.',
     ['mbo/types/optional_data_or_ref.h', 'mbo/types/optional_ref.h', 'mbo/types/ref_wrap.h', 'mbo/types/required.h', 'mbo/types/no_destruct.h', 'mbo/types/opaque.h', 'mbo/config/require.h'], [('owning or referring union', 'mbo/types/optional_data_or_ref.h'), ('assignment through or rebinding', 'mbo/types/optional_ref.h, mbo/types/ref_wrap.h'), ('in-place replacement', 'mbo/types/required.h'), ('deep copies', 'mbo/types/opaque.h')],
     observe=['state and value of the wrappers', 'external objects', 'requirement failures', 'constructions and destructions'], note='Wrapped types are instances (int and a class type that carries its lifetime as ghost state); all states are enumerated, the values are symbolic. HashOf and Format are stand-ins (any function of the value; a recorder), logging a stand-in that does not return. Trusted: clang front end, the IR extractor, the VC generator and its rewriting, z3.')
prop('P21', 'LimitedVector behaves as a bounded list and owns its elements',
     'Every LimitedVector operation behaves as on a list of at most capacity elements: construction (default, range, initializer list, converting, copy, move), assignment, swap, assign, push/emplace/insert (single, counted, range, list; also of values that are elements of the vector itself), erase, resize, pop, clear, element access, iteration, comparison and the Make/To helpers, for all contents and positions. An operation that would exceed the capacity, takes an invalid position or reads past the size fails a requirement and no other does. Every element is constructed once in raw storage, read and moved only while alive, and destroyed exactly once; sources are moved from only when the caller gave an rvalue.',
     ['inputs', 'histories'], 'every content, size up to the capacity, position and count, for each instantiated capacity and element type', 'Tests sample a few contents of trivially destructible types; lifetime, aliasing and boundary errors show only with particular sizes, positions and element types.',
     ['mbo/container/limited_vector.h', 'mbo/container/limited_options.h', 'mbo/config/require.h'], [('shifting of elements', 'mbo/container/limited_vector.h move_backward/move_forward'), ('requirements', 'mbo/container/limited_vector.h MBO_CONFIG_REQUIRE'), ('ownership', 'mbo/container/limited_vector.h constructors, clear, pop_back')],
     observe=['contents', 'returned positions and values', 'requirement failures', 'constructions and destructions of elements'], note='Capacities and element types are instances (0 to 6; 8 in thorough): for each, all sizes, positions and counts are enumerated and the element values are symbolic. Trusted: clang front end, IR extractor, VC generator, z3.')
prop('P22', 'LimitedSet and LimitedMap behave as bounded ordered sets and maps',
     'Every LimitedSet and LimitedMap operation behaves as on an ordered set or map with at most capacity elements under the container\'s comparator: construction (default, range, list, converting, copy, move), assignment, swap, emplace, insert, try_emplace, insert_or_assign, operator[], erase (key, iterator, range), find, contains, count, bounds, equal_range, index_of (every strategy), contains_all/any, at, at_index, iteration, comparison and the Make/To helpers, also with transparent lookup keys and stateful comparators. Elements stay strictly sorted; the first of equivalent keys stays; existing mapped values change only by assignment. What cannot be done (beyond capacity, missing key, invalid position, unsorted input under kRequireSortedInput) fails a requirement and nothing else does. Every element is constructed once in raw storage, used only while alive and destroyed exactly once; only rvalue sources are moved from.',
     ['inputs', 'histories'], 'every content, size up to the capacity and relative position of the keys, for each instantiated capacity, element type, option and comparator', 'Tests sample a few contents per option; the lookup strategies, the shifting and the lifetimes depend on size, position and the option.',
     ['mbo/container/internal/limited_ordered.h', 'mbo/container/limited_set.h', 'mbo/container/limited_map.h', 'mbo/container/limited_options.h', 'mbo/types/compare.h', 'mbo/config/require.h'], [('lookup strategies', 'mbo/container/internal/limited_ordered.h index_of, find, lower_bound'), ('insertion and removal', 'mbo/container/internal/limited_ordered.h emplace, try_emplace, erase'), ('requirements', 'MBO_CONFIG_REQUIRE')],
     observe=['contents', 'returned positions and values', 'requirement failures', 'constructions and destructions of elements'], note='Capacities (0 to 4, 16, 17), element types, options and comparators are instances: for each, all sizes and relative positions of keys are enumerated and the element values are symbolic; unordered inputs by all weak orders of up to 4. At capacities 16 and 17 only the lookups, emplace and erase by key. Trusted: clang front end, IR extractor, VC generator, z3.')
prop('P23', 'Grouped numbers, their length and splitting at the last separator are exact',
     'For every value of every signed and unsigned integer type of 8, 16, 32 and 64 bits, including the smallest and largest ones, BigNumber gives the decimal digits of the value in groups of three counted from the right and separated by apostrophes, after a minus sign for negative values, and BigNumberLen gives exactly the number of characters of that text. For every text, separator character and position within the text, AtLast(separator).Find(text, position) gives the one-character view of the last occurrence of the separator at or after the position, and the empty view at the end of the text if there is none.',
     ['inputs'], 'every value of every type; every text, separator and position', 'The tests sample a few values; a wrong entry of the length table or a wrong group boundary shows only for numbers of one length and sign, and 2^64 values cannot be sampled.',
     ['mbo/strings/numbers.h', 'mbo/strings/split.h'], [('length by search in a table', 'mbo/strings/numbers.h BigNumberLen (a LimitedMap)'), ('grouping', 'mbo/strings/numbers.h BigNumber'), ('search for the last separator', 'mbo/strings/split.h AtLast::Find')],
     observe=['text', 'length', 'view'], note='std::to_string is used by contract (decimal digits after an optional sign). Trusted: clang front end, IR extractor, VC generator, z3.')
