"""The properties, as data. tools/mkmeta.py writes properties.jsonl and MANIFEST.json from here and from checks.CHECKS."""
I = "include/boost/hash2/"
ALGF = [I + f for f in ("fnv1a.hpp", "xxhash.hpp", "siphash.hpp", "md5.hpp", "sha1.hpp", "sha2.hpp", "ripemd.hpp")]
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

prop("C01", "Every algorithm computes its published function on every message",
 "For every message, a freshly constructed FNV-1a, xxHash, SipHash/HalfSipHash, MD5, SHA-1, SHA-2 (224/256/384/512/512-224/512-256) or RIPEMD (128/160) object fed that message yields, as its first result, exactly the value the algorithm's published specification defines for it (for xxHash with its seed, for SipHash with its key), in the published byte order.",
 ["inputs"], "all messages of all lengths and contents, at every alignment, through either update overload; all xxHash seeds of the native width and all full-size SipHash keys",
 "The tests hold a few dozen fixed vectors (short strings and a handful of lengths). A wrong constant, rotation or padding branch reached only by a particular length modulo the block size, a particular byte value (sign extension, carries) or a particular seed/key passes them all.",
 ALGF + [I + "detail/read.hpp", I + "detail/write.hpp", I + "detail/rot.hpp"],
 [("block compression functions", "md5.hpp, sha1.hpp, sha2.hpp, ripemd.hpp: transform"), ("padding and length encoding", "result() of each algorithm"), ("tail handling of lengths not divisible by the stripe", "xxhash.hpp, siphash.hpp: result")],
 ["result() of the object", "EVP_Digest of OpenSSL and XXH32/XXH64 of libxxhash as anchors of the references"])

prop("C02", "The result depends on the message, not on how it was split into updates",
 "Feeding a message to any hash algorithm of the library in one update or in any number of consecutive updates of any sizes, including zero, from any buffers at any alignment and through any update overload, leaves the object in a state with identical observable behaviour. An update of zero bytes, even with a null pointer, changes nothing.",
 ["histories", "inputs"], "all sequences of update calls whose arguments concatenate to the same message, for all constructions (default, seed, byte-sequence key)",
 "Tests split a few fixed messages at a few points; buffering mistakes appear only at particular (pending bytes, update size) pairs such as exactly filling the buffer, or only when a split follows another split, and their number grows exponentially with the message.",
 ALGF + [I + "hmac.hpp", I + "legacy/murmur3.hpp", I + "legacy/spooky2.hpp"],
 [("partial block buffer", "update() of each block algorithm"), ("null/empty guard", "update() of each algorithm")],
 ["result() after the last update, and again after further operations"],
 [("pending bytes", "bytes not yet compressed and their number", "the buffer and byte count members of each algorithm")])

prop("C03", "HMAC equals RFC 2104 for every key and message",
 "For every hash algorithm of the library, every key and every message, the HMAC object keyed with the byte sequence yields the value RFC 2104 defines: keys longer than the underlying block are replaced by their digest, shorter ones are padded with zeros, and the key bytes are those given. This holds for all named HMAC types, for HMAC over any conforming user algorithm, and for messages split arbitrarily.",
 ["inputs", "programs"], "all key lengths (0 to several blocks, the boundary block size, longer), key contents including trailing zeros, messages and splits, over all underlying algorithms",
 "The RFC vectors used by the tests have five key lengths; the boundary at exactly the block size, keys one byte longer, and interactions of key length with message buffering are untested for most algorithms.",
 [I + "hmac.hpp"] + ALGF, [("key block construction, inner and outer pads", "hmac.hpp: init"), ("outer hash", "hmac.hpp: result")], ["result() of the HMAC object"])

prop("C04", "Very long messages and very large single updates hash correctly",
 "All of the guarantees about results hold beyond 2^29, 2^31 and 2^32 bytes of message: bit and byte counters do not wrap early, and a single update call with a size above 2^32 consumes every byte of it, for every algorithm.",
 ["inputs", "histories"], "messages whose total length crosses 2^29 (bit counter carries into its high word), 2^31 and 2^32 bytes, and single updates larger than 2^32 bytes",
 "No test hashes more than a few kilobytes (one or two reach a million bytes), so length arithmetic in 32-bit types cannot be noticed.",
 ALGF + [I + "hmac.hpp", I + "legacy/murmur3.hpp", I + "legacy/spooky2.hpp"], [("length counters", "the byte/bit count members of each algorithm and their use in result()"), ("size parameters of internal block loops", "update() of each algorithm")], ["result() at checkpoints along a multi-gigabyte message"])

prop("C05", "Seeds and keys act as documented and separate the hash functions",
 "Constructing from the zero seed or from an empty byte sequence is the same as default construction; every construction from the same seed or bytes gives the same behaviour; the documented relation between seeds, keys and messages holds for each algorithm; and distinct 64-bit seeds or distinct byte-sequence keys give objects that hash differently wherever the algorithm's state can tell them apart, no part of the seed or key being ignored. HMAC keyed by an integer seed is keyed by its eight little-endian bytes.",
 ["inputs"], "all 64-bit seeds and all byte-sequence keys of every length, pairwise, for every documented algorithm",
 "Tests compare a few small seeds; a seed bit or key byte that is dropped, truncated or sign-extended shows only for pairs that differ exactly there.",
 ALGF + [I + "hmac.hpp"], [("seeding constructors", "each algorithm: constructors from uint64_t and from (pointer, size)")], ["result() of differently seeded objects on common messages"])

prop("C06", "Copies are exact and independent",
 "A copy of a hash object, made at any point of any history by construction or assignment (including self-assignment and assignment over an object in any other state), behaves from then on exactly as the original would have, and operations on either never affect the other, nor does destroying or overwriting the original's storage.",
 ["histories"], "all interleavings of constructions, updates, results, copies, assignments, moves of storage and destructions over several objects of one algorithm",
 "Tests copy an object once or twice at fixed points; a state member left out of a copy, or shared state behind it, shows only when the copied object was mid-block, keyed or already finalized and both continue.",
 ALGF + [I + "hmac.hpp", I + "legacy/murmur3.hpp", I + "legacy/spooky2.hpp"], [("value semantics", "implicit copy operations of each algorithm class")], ["result() sequences of original and copies"])

prop("C07", "Repeated results and later updates follow one deterministic state machine",
 "After the first result, further result and update calls follow the documented deterministic state machine of each algorithm: equal histories give equal sequences of results, consecutive results without updates differ from one another as a pseudorandom sequence would, and updates after a result still influence all later results.",
 ["histories"], "all sequences of updates and results, of any length, for every algorithm and construction",
 "Tests take two or three results of one short message per algorithm; forgetting to restore some member after finalization shows only in particular sequences (result right after a block boundary, update after result, many results).",
 ALGF + [I + "hmac.hpp", I + "legacy/murmur3.hpp", I + "legacy/spooky2.hpp"], [("state after finalization", "result() of each algorithm")], ["the sequence of result() values of a history, compared with an executable model of it"],
 [("finalization remnants", "what result() leaves in the buffer, counters and chaining values", "result() of each algorithm")])

prop("C08", "Message, key and seed bytes do not stay readable in the object",
 "Once a result has been taken from a cryptographic digest, HMAC, SipHash or legacy hash object, no byte of the message tail, key or seed it was given remains stored in the object; for keyed hashes and cryptographic digests the key and seed material does not remain there even before that, nor do message bytes of blocks that were already compressed. Assigning a fresh object over another one leaves nothing of what that one held.",
 ["histories", "inputs"], "all histories of updates and results; every byte of the object's storage",
 "No test looks at the object's storage at all.",
 [I + f for f in ("hmac.hpp", "md5.hpp", "sha1.hpp", "sha2.hpp", "ripemd.hpp", "siphash.hpp")] + [I + "detail/memset.hpp"], [("buffer clearing", "memset of the buffer in update()/result()")], ["the object representation, compared across runs with independent inputs"])

prop("C09", "No operation performs undefined behaviour or touches memory it was not given",
 "No sequence of documented operations on valid arguments (including null pointers with zero sizes, buffers at any alignment, buffers ending at an unmapped page, read-only buffers) reads outside the given ranges, writes outside the object, reads indeterminate values, leaks, fails an internal assertion or otherwise performs undefined behaviour.",
 ["histories", "inputs", "configurations"], "all operation sequences over all public operations of the algorithms, append functions, digest type and result reduction, observed under gcc and clang address, undefined-behaviour and memory sanitizers, valgrind and guard pages",
 "The tests run without sanitizers on a few vectors; an over-read of one byte, a misaligned load, a signed overflow or an uninitialized tail gives the right answers on them.",
 [I], [("unaligned loads through byte assembly", "detail/read.hpp, detail/write.hpp"), ("guarded copies", "detail/memcpy.hpp and every update()"), ("internal invariants", "BOOST_ASSERT in each algorithm")], ["sanitizer and valgrind reports", "faults on guard pages", "canaries around objects and output buffers", "assertion handler"])

prop("C10", "Distinct objects may be used concurrently, and shared ones read concurrently",
 "Threads working on distinct hash objects never interfere: whatever the interleaving, there is no data race and every result equals the one computed by a single thread; hashing the same constant value, or copying the same unmodified hash object or digest from many threads at once, is equally safe. There is no hidden mutable shared state.",
 ["schedules", "histories"], "all interleavings of operations of several threads, on distinct objects and on shared constant objects, for every algorithm and public operation",
 "All tests are single-threaded.",
 [I], [("no static mutable state", "constant tables and namespace-scope data of the headers")], ["ThreadSanitizer reports", "results compared with single-threaded ones"])

prop("C11", "Compile-time evaluation gives the run-time results",
 "Every operation documented as usable in constant expressions gives, when evaluated by the compiler, exactly the result it gives at run time for the same arguments, for all algorithms, constructions, update sequences, repeated results, digests and appended values; and such programs are accepted by the compiler.",
 ["programs", "inputs", "configurations"], "all constant-expression programs over the constexpr interface, on each supported compiler and language standard",
 "The constexpr tests evaluate one or two fixed short programs per algorithm; the library has separate code paths for constant evaluation whose differences (block boundaries, empty updates, sign of characters, copies) those do not reach.",
 [I + "detail/memcpy.hpp", I + "detail/memset.hpp", I + "detail/memcmp.hpp", I + "detail/is_constant_evaluated.hpp", I + "detail/bit_cast.hpp", I + "hash_append.hpp"] + ALGF, [("constant-evaluation branches", "detail/mem*.hpp, hash_append.hpp")], ["constexpr variables compared with run-time values computed from the same arguments"])

prop("C12", "Results are the same in every build configuration",
 "The results of all operations, given the same arguments and a fixed byte order, do not depend on the compiler, the language standard, optimization level, assertion settings, signedness of plain char, strict-aliasing or instruction-set options, nor on addresses, allocation contents, earlier use of the library in the process, the locale, the rounding mode or enabled floating-point traps.",
 ["configurations", "inputs"], "the installed gcc and clang, C++11 to C++23, O0 to O3, NDEBUG, char signedness, -march, -fno-builtin, sanitized builds, address-space layouts; all arguments",
 "Each test run exercises one configuration and compares only a few constants; divergence between preprocessor branches or optimization-dependent behaviour appears only when the same broad workload is compared across configurations.",
 [I], [("portable arithmetic and byte assembly", "detail/"), ("standard- and compiler-dependent branches", "detail/config.hpp, hash_append.hpp")], ["a transcript of thousands of results, compared across builds and runs"])

prop("C13", "Scalars contribute exactly their value in the requested byte order",
 "Hashing an integer, character, boolean, enumeration, pointer or null pointer appends exactly the bytes of its value, of its full width, in the byte order the flavor requests, each value being distinguished from every other of its type; sizes are appended as the flavor's size type.",
 ["inputs", "configurations"], "all values of all scalar types under all flavors, including user-defined ones",
 "Tests hash a few values per type; truncation, sign extension or a swapped byte for one width and order escapes them.",
 [I + "hash_append.hpp", I + "detail/write.hpp", I + "flavor.hpp", I + "endian.hpp", I + "is_endian_independent.hpp", I + "is_contiguously_hashable.hpp", I + "is_trivially_equality_comparable.hpp"], [("scalar serialization", "hash_append.hpp: do_hash_append; detail/write.hpp"), ("direct memory path", "is_contiguously_hashable.hpp")], ["the bytes passed to update() of a recording algorithm"])

prop("C14", "Floating-point values hash by value, with both zeros equal",
 "Hashing a float or double appends the IEEE representation of its value in the flavor's byte order, negative and positive zero giving the same message in every rounding mode and every other pair of distinct values giving different messages, alone and inside arrays, containers and structures.",
 ["inputs", "configurations"], "all 2^32 float bit patterns and sampled doubles, all rounding modes, all flavors, signalling NaNs excluded from value preservation guarantees",
 "Tests hash about three values in one rounding mode.",
 [I + "hash_append.hpp", I + "detail/bit_cast.hpp", I + "is_trivially_equality_comparable.hpp"], [("zero normalization", "hash_append.hpp: floating point overloads"), ("exclusion of floats from the memory path", "is_trivially_equality_comparable.hpp")], ["the bytes passed to update() of a recording algorithm"])

prop("C15", "Sequences contribute their elements in order and, when sized, their length",
 "Every string, vector, list, set, map, C array, fixed-size array, digest, view or user range, and every iterator range, contributes its elements' messages in iteration order, followed by the element count if and only if the type's size is not fixed; the container type, capacity, contiguity, iterator category and element fast paths make no difference, and an empty fixed-size sequence still contributes one null byte. This holds for ranges of any length, including more than 2^32 elements.",
 ["inputs", "programs"], "all element types, contents, lengths, container and iterator kinds, nesting and flavors",
 "Tests use containers of a few integers; the fast path taken depends on element type, flavor and iterator, and the combinations are far more than the tests list.",
 [I + "hash_append.hpp", I + "has_constant_size.hpp", I + "is_contiguously_hashable.hpp"], [("range overloads", "hash_append.hpp: hash_append_range, hash_append_sized_range"), ("container overloads", "hash_append.hpp: do_hash_append")], ["the bytes passed to update() of a recording algorithm"])

prop("C16", "Unordered containers hash by contents, independently of iteration order",
 "Two equal unordered containers give the same hash under every algorithm and flavor whatever their iteration order, bucket count, load factor or insertion history, also when the hash already absorbed other data; containers that differ in an element, a multiplicity, a mapped value or the count give different hashes, up to chance and the algorithm's quality. The element hashes start from the state of the hash at that point and are combined with the count as documented.",
 ["inputs", "histories"], "all unordered containers and ranges, element types, iteration orders, histories, algorithms and flavors",
 "Tests compare a couple of small containers under one or two algorithms.",
 [I + "hash_append.hpp", I + "get_integral_result.hpp"], [("order-independent combination", "hash_append.hpp: hash_append_unordered_range")], ["results under all algorithms for families of equal containers", "the recorded message"])

prop("C17", "Tuples, described classes and customized types contribute exactly their parts",
 "A pair, tuple or tuple-like type contributes its elements in index order; a described class its bases and then its members, private and inherited ones included, in declaration order; a type with a customization point exactly what that customization appends; a type with no parts one null byte. Padding and undescribed state never influence the hash, and customized behaviour is used wherever the type appears nested.",
 ["programs", "inputs"], "all compositions of such types, all values, all flavors",
 "Tests have one or two examples of each kind, none of them nested in the others.",
 [I + "hash_append.hpp", I + "detail/has_tag_invoke.hpp", I + "is_contiguously_hashable.hpp"], [("composition overloads", "hash_append.hpp: do_hash_append for tuple-likes, described classes, tag_invoke")], ["the bytes passed to update() of a recording algorithm"])

prop("C18", "Equal values give equal messages, unequal values different ones",
 "For every supported type, two equal values produce the same message to the hash algorithm, whatever their representation, capacity, padding, allocation or history, and two unequal values produce different messages, even when their variable-length parts have the same concatenation; the message of a value is never empty.",
 ["inputs", "programs"], "all pairs of values of each type, in particular nested variable-length ones whose parts could be confused; unordered containers up to chance collisions, under algorithms of better quality than FNV-1a",
 "A test can only compare chosen pairs; ambiguity between adjacent variable-length parts or dropped sizes concerns pairs nobody wrote down.",
 [I + "hash_append.hpp", I + "has_constant_size.hpp", I + "is_contiguously_hashable.hpp", I + "is_trivially_equality_comparable.hpp"], [("length suffixes", "hash_append.hpp: hash_append_size calls"), ("null byte for empty parts", "hash_append.hpp")], ["messages recorded for large pools of values, compared pairwise by grouping"])

prop("C19", "Reducing a result to an integer keeps its quality",
 "Reducing any hash result to any integer type is deterministic and never degenerate: when narrowing, every target value is produced by exactly the same number of results and no bit of the result is ignored; widening maps distinct results to distinct values with no constant bit, equal widths are preserved, digests give their first eight bytes in little-endian order converted to the target, and signed and unsigned targets of a width agree bit for bit.",
 ["inputs"], "all pairs of result type and target integer type, all result values",
 "Tests check a few sampled values per pair of types and a loose distribution criterion.",
 [I + "get_integral_result.hpp", I + "detail/read.hpp"], [("multiply-shift reduction", "get_integral_result.hpp")], ["the complete image of all 8, 16 and 32 bit results, sampled and structured 64 bit ones"])

prop("C20", "Digests are well-behaved values with exact, bounded text conversion",
 "A digest holds, compares, copies, iterates and exposes exactly its bytes, equality meaning all bytes equal; its textual forms are exactly two lowercase hexadecimal digits per byte in order, whatever the stream or locale, and conversion into a caller's buffer writes only those characters (plus the terminator where documented), returns the end of them, and writes nothing and says so when the buffer is too small.",
 ["inputs"], "all digest sizes, all contents, all buffer sizes and positions",
 "Tests print one digest per size; digits above 0x7F, buffers of exactly and nearly the required size, and inequality in a single byte at each position are not covered.",
 [I + "digest.hpp", I + "detail/memcmp.hpp", I + "detail/memcpy.hpp"], [("text conversion", "digest.hpp: to_chars, to_string, operator<<"), ("comparison", "digest.hpp: operator==")], ["returned text and pointers, guard bytes around the output buffer"])

prop("C21", "Hashing a value is independent of the algorithm, built-in or user-defined",
 "For every algorithm, including user-defined ones meeting the documented minimal requirements, hashing a value gives the same result as feeding that algorithm the value's message directly, so that all built-in and user algorithms receive the same message for the same value and flavor. The library requires no more of an algorithm than documented and uses nothing of it but construction, copying, updating and taking results.",
 ["programs", "inputs"], "all algorithms (built-in, keyed, user-defined, wrappers) and all value types",
 "Each test pairs one type with one or two algorithms.",
 [I + "hash_append.hpp", I + "hash_append_fwd.hpp"] + ALGF, [("algorithm-agnostic append", "hash_append.hpp")], ["results of each algorithm versus the recorded message fed to it"])

prop("C22", "The legacy hashes match their published definitions",
 "For every message and every documented seed, the 32-bit and 128-bit MurmurHash3 and the 128-bit SpookyHash V2 objects yield the published value of the message, in one update or many, and their byte-sequence seeding, copies and repeated results behave deterministically.",
 ["inputs", "histories"], "all messages of all lengths (in particular around the 192-byte short/long boundary of SpookyHash and its 96-byte blocks), all integer seeds, all splits",
 "Tests hold a few fixed vectors.",
 [I + "legacy/murmur3.hpp", I + "legacy/spooky2.hpp"], [("block mixing and tails", "legacy/murmur3.hpp, legacy/spooky2.hpp")], ["result() of the object"])

prop("C23", "The type traits tell the truth about every type",
 "For every type, is_trivially_equality_comparable, is_endian_independent, is_contiguously_hashable and has_constant_size report what the documentation says, the same for a type and its const version (and, for contiguous hashability, its arrays), and follow the user's specializations. Whenever is_contiguously_hashable<T, E> is true, the message of every value of T under byte order E is its storage bytes; whenever is_trivially_equality_comparable<T> is true for a type supported out of the box, equality of values is equality of their bytes; whenever has_constant_size<T> is true, all values of T have the same number of elements and the message does not include it, and otherwise it does.",
 ["programs", "inputs"], "all built-in types, containers, described types and user types, const or not, with and without specializations of the traits, in all byte orders; all values",
 "Tests assert the traits for about twenty types, and hardly any const or nested ones; a wrong answer is silently turned into a wrong message or a value-dependent fast path for types nobody tested.",
 [I + "is_contiguously_hashable.hpp", I + "is_trivially_equality_comparable.hpp", I + "is_endian_independent.hpp", I + "has_constant_size.hpp", I + "digest.hpp", I + "hash_append.hpp"],
 [("trait definitions", "is_*.hpp, has_constant_size.hpp"), ("fast paths chosen by them", "hash_append.hpp: do_hash_append, hash_append_range, hash_append_size")],
 ["the traits' values; messages recorded by a user algorithm; the storage of values"])

prop("C24", "Checksum programs built on the library print the right digest of every file",
 "For every file, of any size and contents and however it is read (in buffers of any size, mapped, through iterators, from a pipe with short reads, through copies of the hash object), a program that feeds the file to one of the cryptographic digest algorithms and prints the result as text prints the digest the published algorithm assigns to the file's contents; the repository's md5sum and hash2sum do so for every algorithm they offer and every list of files, in order, and report files they cannot read without losing the others. The programs that compute digests at compile time or extend a result print the values that the run-time algorithms give.",
 ["inputs", "histories"], "all files (empty, small, around buffer and block sizes, beyond 2^29 and 2^32 bytes), all read sizes, all ten digests, all lists of files",
 "No test runs these programs or hashes data of more than a few hundred bytes from a file; mistakes that need a large total, a particular remainder after full buffers or the combination of hashing and text conversion are never executed.",
 ["example/md5sum.cpp", "example/hash2sum.cpp", "example/compile_time.cpp", "example/compile_time_2.cpp", "example/xxh128_from_xxh64.cpp", I + "md5.hpp", I + "sha1.hpp", I + "sha2.hpp", I + "ripemd.hpp", I + "digest.hpp", I + "hash_append.hpp"],
 [("streaming loop", "example/hash2sum.cpp: hash2sum"), ("digest to text", "digest.hpp: to_string, operator<<, to_chars")],
 ["standard output, standard error and exit status of the programs"])

prop("C25", "Hash function objects built on the library are valid hash functions for unordered containers",
 "For every supported key type and every algorithm, seeded in any of the three ways, a function object that copies its seeded algorithm, appends the key and reduces the result to std::size_t, as the documentation shows, is a valid hash function: its value is that of the algorithm fed the key's message, never changes between calls, copies of the object or after other keys, is the same for equal keys however they were built (other capacity, insertion order or history, negative zero), and unordered containers using it find exactly the keys that were inserted. Values of different keys, and of the same key under different seeds, coincide no more often than chance, and with every algorithm but FNV-1a every byte of the values is balanced over ordinary families of keys.",
 ["inputs", "histories", "programs"], "all key types, keys, algorithms and constructions; all histories of insertions, erasures, copies and rehashing",
 "The examples insert two strings; no test uses the library with a container of more than that or checks that equal keys built in different ways agree.",
 ["example/hash_without_seed.cpp", "example/hash_with_any_seed.cpp", "example/hash_32_64.cpp", I + "hash_append.hpp", I + "get_integral_result.hpp", I + "flavor.hpp"] + ALGF,
 [("adaptor", "example/hash_with_any_seed.cpp: hash"), ("append and reduce", "hash_append.hpp, get_integral_result.hpp")],
 ["values of the function object", "find, insert, erase, size of std::unordered_map, boost::unordered_map and boost::unordered_flat_map keyed by it"])
