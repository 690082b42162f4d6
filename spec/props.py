"""The single table of properties: properties.jsonl and MANIFEST.json are generated from it
(python3 spec/gen.py), so the two cannot drift apart."""

P = []

def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None,
         na=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  over=over, text=" ".join(text.split()), why=" ".join(why.split()),
                  files=files, mech=mech, observe=observe, technique=technique,
                  note=" ".join(note.split()), state=state or [], na=na))

H, I, S, F, C, CP = "histories", "inputs", "schedules", "fault_sequences", "configurations", "crash_points"

prop("C01", "Fast integer-keyed hash table behaves as a map",
 """After any sequence of insert, probe, replace, find, remove and growth, the fast hash table holds exactly the
 keys a plain map would hold, each with its most recently stored value, and reports the right element count and
 the right found/not-found verdict for every call. Keys sharing a bucket or a fingerprint never hide, overwrite or
 delete each other, growth never loses or duplicates an entry, and memory stays proportional to the number of live keys
 (inserting and removing the same keys forever does not make it grow).""",
 [H, I], "every sequence of operations over non-zero 64-bit keys (including keys constructed to collide) and arbitrary values, for every initial size",
 "t_fast-ht inserts one fixed word list and probes it; it never interleaves deletes with growth, never builds colliding keys and never compares with a model.",
 ["src/hashtable/fast-ht.c", "inc/utils/fast-ht.h"],
 [("bag insert / find / remove", "src/hashtable/fast-ht.c"), ("resize", "src/hashtable/fast-ht.c")],
 ["return values of the API, node count, iteration over live bags"],
 "stateful model-based PBT vs std::unordered_map, coverage- and comparison-guided generation, ASan",
 "Exploration: thousands of shrunk-able operation histories against a map model with adversarially colliding keys; assumes the default allocator succeeds.")

prop("C02", "Policy-based hash table behaves as a map, with exact iteration",
 """Under every configuration of copy, hash, comparison, allocator, growth limit and ordering policies, the table's contents, lookup
 results, removal results and reported statistics equal those of a reference map after any history of operations. Every iterator
 and bulk operation visits each live entry exactly once (sorted ones in comparison order), and entries handed back or
 released are copied and freed exactly as the policy says, with nothing leaked and nothing freed twice.""",
 [H, I, C], "every sequence of insert, insert-or-fetch, replace, find, remove, conditional remove, iterate, re-hash over every policy combination and key set, including colliding hashes",
 "t_hashtab runs one fixed word list under one policy; it never covers colliding hashes, growth with iteration, or duplicate insertion.",
 ["src/hashtable/hashtab.c", "src/hashtable/hashtab_iter.c", "src/hashtable/hashtab_imp.h", "inc/utils/hashtab.h"],
 [("insert/find/remove", "src/hashtable/hashtab.c"), ("iterators", "src/hashtable/hashtab_iter.c"), ("memory policy", "src/memmgr.c")],
 ["return codes, iterator output, copy/free callbacks seen by the policy"],
 "stateful model-based PBT vs std::map over generated policies, ASan/LSan",
 "Exploration of generated histories and policy combinations against a map model.")

prop("C03", "Policy-based hash table stays usable after failures and across threads",
 """Every call on the policy-based hash table returns with all of its locks released, whatever its outcome (success,
 duplicate, not found, out of memory), and a call that fails leaves the contents exactly as they were before. When several
 threads use one table under a locking policy, every entry inserted and not removed is found, entry counts
 agree, and no operation blocks forever.""",
 [S, F, H], "every allocation-failure point in every history, and every interleaving of concurrent operations",
 "The tests use no allocator that fails and only one thread per table, so a lock kept on an error path or a half-done insertion is never seen.",
 ["src/hashtable/hashtab.c", "src/hashtable/hashtab_iter.c", "inc/utils/lockmgr.h", "src/memmgr.c"],
 [("table and bucket locking", "src/hashtable/hashtab.c"), ("lock manager policy", "inc/utils/lockmgr.h")],
 ["lock/unlock calls seen by an instrumented lock policy; return codes; contents afterwards"],
 "PBT with an instrumented lock policy (lock balance oracle), allocation-fault injection at every point, multi-thread histories",
 "Lock balance and failure atomicity are checked deterministically on each generated history; the multi-threaded part samples real schedules.")

prop("C04", "Bloom filters never forget and keep their error bound",
 """An element added to a standard, counting or scalable Bloom filter (and, for counting filters, not removed
 since as often as it was added) is always reported as present, at every fill level and whatever else was added or removed. A query never changes
 the filter, the filter reports its element count and configuration faithfully, and the measured false-positive rate stays within
 the configured bound up to the configured capacity.""",
 [H, I, C], "every sequence of add/remove/query over every filter type, capacity and error rate",
 "t_bloom adds one word list at one error rate and never checks counters at saturation, removal histories, nor capacity edges.",
 ["src/hashtable/bloom.c", "src/hashtable/bloom_internal.h", "inc/utils/bloom.h"],
 [("bit/counter arrays", "src/hashtable/bloom_internal.h"), ("scalable growth", "src/hashtable/bloom.c")],
 ["probe/find results, filter statistics"],
 "stateful PBT vs a multiset model plus a statistical false-positive bound (wide tolerance, fixed seeds)",
 "False negatives are decided exactly per history; the false-positive bound is statistical, with a tolerance chosen so that a correct filter cannot exceed it in practice.")

prop("C05", "Xor filters contain every key they were built from",
 """For every non-empty set of distinct 64-bit keys, of any size and however the keys are related, the 8-bit and 16-bit xor filter
 built from it reports every one of those keys as present. Foreign keys are reported present only with the
 probability the fingerprint width implies (about 1/256 and 1/65536).""",
 [I, C], "every set of distinct keys and both fingerprint widths",
 "t_xorfilter builds a filter from a few random sets of fixed size; tiny, huge and structured key sets are not covered.",
 ["src/hashtable/xorfilter.c", "src/hashtable/xorfilt_internal.h"],
 [("peeling construction", "src/hashtable/xorfilter.c")], ["membership query results"],
 "PBT over generated key sets (sizes 1..20000, structured and random) with exact membership oracle and statistical FP bound, ASan",
 "Exploration of generated key sets.")

prop("C06", "Saved Bloom and xor filters reload identically, or are rejected",
 """A Bloom or xor filter written to a file and read back, by copying or by memory mapping, answers every query as the
 original did, reports the same parameters and (when copied) can go on being updated. A file that was truncated, extended or altered in any
 protected byte is rejected with an error when integrity checking is on; reading one never crashes, reads out of bounds, or returns a filter. A reload without the memory for a bitmap fails with -ENOMEM and keeps nothing.""",
 [I, H, F], "every filter history saved, and every truncation or corruption of the resulting file",
 "The tests save and load one filter and never corrupt a file.",
 ["src/hashtable/bloom_marshal.c", "src/hashtable/xorfilter_marshal.c"],
 [("checksum and header", "src/hashtable/bloom_marshal.c"), ("checksum and header", "src/hashtable/xorfilter_marshal.c")],
 ["reload return code, queries on the reloaded filter"],
 "round-trip PBT plus mutation fuzzing of the saved image, ASan",
 "Exploration: generated filters, generated corruptions.")

prop("C07", "Saving a filter is all-or-nothing",
 """Saving a Bloom or xor filter over an existing file either completes, leaving exactly the new filter in place, or
 fails with an error leaving the previous file's bytes untouched and no stray temporary behind. This holds whichever system
 call fails or wherever the process dies during the save, when the target then holds the complete old or the complete new filter.""",
 [F, CP], "every system-call failure and every kill point during a save",
 "No test injects a failure into the save path or looks at the previous file.",
 ["src/hashtable/bloom_marshal.c", "src/hashtable/xorfilter_marshal.c"],
 [("temporary file, sync and rename", "src/hashtable/bloom_marshal.c"), ("temporary file, sync and rename", "src/hashtable/xorfilter_marshal.c")],
 ["bytes of the target file, directory listing, return code"],
 "fault-injection PBT: system-call wrappers fail or kill at each generated point; oracle is old-or-new file content",
 "Every system call made by the save is failed/killed at, for generated filters; power-loss reordering below the system-call level is outside.")

prop("C08", "Fixed-size pool allocator hands out disjoint, aligned, bounded blocks",
 """Blocks obtained from a pool never overlap one another, are at least the requested size, are aligned for any scalar, and lie in memory the pool owns, and data
 written to a live block is never changed by the pool. A freed block becomes available again, a pool with a block limit or caller-supplied memory hands out exactly
 the blocks it can and then refuses, and freeing or deleting releases everything exactly once.""",
 [H, C], "every sequence of allocations and frees, for every block size, limit, chunk size and backing allocator",
 "t_mempool exercises one size and pattern.",
 ["src/mempool.c", "inc/utils/mempool.h"],
 [("free list and chunks", "src/mempool.c")], ["returned addresses, block contents"],
 "stateful model-based PBT (address-interval and content-pattern oracle), recording backing allocator, ASan",
 "Exploration of generated histories and configurations.")

prop("C09", "Arena allocator: disjoint aligned blocks, all released together",
 """Every block from an arena is aligned, at least as large as requested, disjoint from all other blocks and keeps its content until the
 arena is deleted, for any mix of small and very large requests. String duplication returns an
 equal terminated copy, an impossible request fails cleanly, and deleting the arena returns all memory to the
 system.""",
 [H, I], "every sequence of request sizes, chunk sizes and deletions",
 "t_arena performs random allocations with no overlap or content oracle.",
 ["src/arena.c", "inc/utils/arena.h"], [("chunk carving", "src/arena.c")], ["returned addresses, contents, leak check"],
 "stateful PBT with interval/content oracle, ASan/LSan", "Exploration of generated histories.")

prop("C10", "Typed vectors behave as sequences",
 """After any history of append, push-front, insert, pop, reserve, reset, copy, swap-style transfer, sort, shuffle and sampling, a typed
 vector's length and elements equal those of a reference sequence, for elements of any size. Growing preserves every
 element and zero-fills what it exposes, and shuffling or sampling only rearranges or selects existing elements.""",
 [H, C], "every operation history and element type", "t_vect runs a short fixed script.",
 ["inc/fast/vect.h"], [("growth and element macros", "inc/fast/vect.h")], ["size, capacity and elements"],
 "stateful model-based PBT vs std::vector, ASan", "Exploration of generated histories over several element types.")

prop("C11", "Linked lists keep their order and links intact",
 """After any history of insertions at head, tail, before and after an element, removals from any
 position, and concatenation, singly, doubly and circular linked lists enumerate exactly the elements of a reference sequence in order, forwards and (where supported) backwards.
 Iterating while removing the current element visits every element exactly once, and head, tail and emptiness tests agree with the contents.""",
 [H], "every operation history", "t_list runs a short fixed script.",
 ["inc/fast/list.h", "inc/fast/llist.h"], [("link macros", "inc/fast/list.h"), ("link functions", "inc/fast/llist.h")],
 ["forward and backward enumeration"],
 "stateful model-based PBT vs std::list, ASan", "Exploration of generated histories.")

prop("C12", "Bit sets, heaps and growable byte buffers match their models",
 """A bit set of any size reports exactly the bits that were set and not cleared, and set operations (and, or, xor, and-not,
 complement, copies) are exact and touch nothing outside the sets. A heap always yields its minimum (by the caller's order) and keeps exactly
 the elements inserted and not yet removed, through removals at any position. A byte buffer returns exactly the bytes appended, in
 order, across growth and reset.""",
 [H, I, C], "every operation history and size", "t_bitvect covers a fixed size; the heap and the byte buffer have no tests at all.",
 ["inc/fast/bitset.h", "inc/utils/minheap.h", "inc/fast/buf.h"],
 [("word arithmetic", "inc/fast/bitset.h"), ("sift up/down", "inc/utils/minheap.h"), ("growth", "inc/fast/buf.h")],
 ["contents through the API"], "stateful model-based PBT vs std::vector<bool>/multiset/std::string, ASan", "Exploration of generated histories.")

prop("C13", "Bounded queues are exact FIFOs with exact full and empty verdicts",
 """Used from one thread, every bounded queue (plain, single-producer, multi-producer and ring buffer)
 delivers exactly the elements accepted, in order, accepts precisely until its capacity is reached, refuses without side effects after that, and reports length,
 free space, full and empty consistently at every step and after any number of wrap-arounds. Bulk operations transfer all or nothing and
 burst operations transfer as many as fit, and both report the number transferred.""",
 [H, C], "every operation history, capacity and wrap-around position, for every queue flavour",
 "The queue tests run fixed producer/consumer loops and do not check capacities, wrap of the index counters, or bulk partial fits.",
 ["inc/fast/queue.h", "inc/fast/spsc_bounded_queue.h", "inc/fast/mpmc_bounded_queue.h", "inc/fast/ringbuf.h", "inc/fast/syncq.h"],
 [("index arithmetic", "inc/fast/ringbuf.h"), ("sequence numbers", "inc/fast/mpmc_bounded_queue.h"), ("head/tail", "inc/fast/spsc_bounded_queue.h"), ("head/tail", "inc/fast/queue.h")],
 ["return values and dequeued elements"], "stateful model-based PBT vs std::deque, ASan", "Exploration of generated histories.")

prop("C14", "Concurrent queues lose, invent and reorder nothing",
 """With the permitted number of concurrent producers and consumers, every element accepted by a lock-free or blocking queue is delivered exactly once and
 completely written, elements of one producer are seen in order by each consumer, and
 nothing not enqueued is ever delivered. A blocking queue's consumers wake whenever an element is available and its producers whenever space is, even when signals interrupt the wait.""",
 [S, C], "every interleaving of producers and consumers, every capacity and batch size",
 "The tests run a few fixed producer/consumer loops on an idle machine, with weak checks and one element type.",
 ["inc/fast/spsc_bounded_queue.h", "inc/fast/mpmc_bounded_queue.h", "inc/fast/ringbuf.h", "inc/fast/syncq.h"],
 [("acquire/release publication", "inc/fast/spsc_bounded_queue.h"), ("CAS and sequence numbers", "inc/fast/mpmc_bounded_queue.h"), ("head/tail CAS", "inc/fast/ringbuf.h"), ("semaphores", "inc/fast/syncq.h")],
 ["elements delivered to each consumer"], "generated thread programs with schedule perturbation, exactly-once/per-producer-order oracle, plus ThreadSanitizer",
 "Samples real schedules with injected yields; a race needs to show up in a sampled schedule or in TSan's happens-before analysis.")

prop("C15", "Worker pools run every job exactly once and wait for all",
 """Every job accepted by a worker pool is run exactly once with the argument it was submitted with, by one of the pool's threads, and where a queue or thread is chosen
 by the caller, by that thread in submission order. Waiting for the pool returns only after every submitted
 job has finished, reports the number of failures faithfully, and shutting down never hangs, never drops queued jobs and leaves no thread behind.""",
 [S, H, C], "every mix of jobs, failures, thread counts and queue sizes, under every interleaving",
 "t_prodcons and the job code have no oracle for exactly-once execution or for shutdown with jobs queued.",
 ["src/posix/job.c", "src/posix/work.c", "inc/posix/job.h", "inc/posix/work.h"],
 [("job threads", "src/posix/job.c"), ("work threads", "src/posix/work.c")], ["per-job execution records, wait results"],
 "generated job programs with execution-record oracle under real schedules, ASan and TSan", "Samples real schedules.")

prop("C16", "Binary packing round-trips and respects its buffer",
 """Packing values under any valid format produces exactly the byte layout the format describes in the stated byte order, and
 unpacking those bytes with the same format returns equal values and the same length. When the buffer is too short, the format malformed or a count
 out of range, packing and unpacking return an error without touching memory beyond the buffer; without the memory for an array or string unpacking returns -ENOMEM.""",
 [I], "every format string, argument list, buffer size and content", "t_pack uses a few fixed formats, all single-digit counts, and buffers that fit.",
 ["src/pack.c", "inc/utils/pack.h"], [("format interpreter", "src/pack.c")], ["bytes written, return values, unpacked values"],
 "grammar-based PBT: generated formats with an independent layout model, round trip and short-buffer sweep, ASan", "Exploration of generated formats.")

prop("C17", "Byte-order encoding and bit arithmetic are exact",
 """Encoding any integer as big- or little-endian writes exactly its bytes in that order at any alignment, decoding returns the original value,
 and byte swapping is its own inverse. The alignment, power-of-two, bit-count, min/max and time-unit helpers return the mathematically defined result over their whole domain, and an array index clamped against speculation is unchanged in bounds and 0 out of bounds.""",
 [I], "every value of every width", "t_bits checks a handful of values.",
 ["inc/fast/encdec.h", "inc/fast/byteorder.h", "inc/fast/swab.h", "inc/fast/little-endian.h", "inc/fast/big-endian.h", "inc/utils/utils.h", "inc/utils/typeutils.h", "inc/utils/nospec.h", "src/bits.h"],
 [("encode/decode", "inc/fast/encdec.h"), ("swap", "inc/fast/swab.h"), ("arithmetic helpers", "inc/utils/utils.h")],
 ["bytes and return values"], "PBT against an independent byte-by-byte and arithmetic model, boundary-biased values", "Exploration of generated values; 16-bit domains exhaustively.")

prop("C18", "String tokenisers split exactly as documented",
 """Splitting a string by delimiters, as comma-separated values or as shell-like arguments yields exactly the fields the
 documented grammar defines, in order: quoted delimiters do not split, empty fields are kept or squeezed as asked, and every byte of a field is preserved. Too many fields or an unterminated quote
 is reported as such, and no input causes access outside the string or the result array.""",
 [I, C], "every string, delimiter set, result capacity and squeeze option", "The split tests use a small table of strings.",
 ["src/strsplit.c", "src/strsplit_csv.c", "src/splitargs.c"],
 [("splitter", "src/strsplit.c"), ("CSV splitter", "src/strsplit_csv.c"), ("argument splitter", "src/splitargs.c")],
 ["tokens and counts"], "differential PBT vs independent reference tokenisers, ASan with exact-size buffers", "Exploration of generated strings.")

prop("C19", "String trimming, unquoting, copying and path splitting are exact",
 """Bounded copy copies as much as fits, always terminates and tells truncation apart; trimming removes exactly the surrounding white space;
 unquoting removes exactly one matching pair of surrounding quotes and reports an unmatched one; the directory part of a path
 is the one POSIX defines; and the case-insensitive comparisons order strings as the ASCII-folded bytes do. None of them reads or writes outside the given buffers, whatever their sizes.""",
 [I], "every string and buffer size", "Table-driven tests over a few strings.",
 ["src/strcopy.c", "src/strtrim.c", "src/strunquote.c", "src/dirname.c", "src/strcasecmp.c", "src/strlcpy.c"],
 [("copy", "src/strcopy.c"), ("trim", "src/strtrim.c"), ("unquote", "src/strunquote.c"), ("path split", "src/dirname.c")],
 ["result strings, return values"], "PBT vs reference functions, exact-size guarded buffers, ASan", "Exploration of generated strings.")

prop("C20", "Number and size strings parse exactly, overflow is reported",
 """A number in any base from 2 to 36 (or auto-detected decimal, octal, hexadecimal) or a size with a binary unit suffix, in bytes or bits, parses to exactly its mathematical value when that fits in
 64 bits (for the typed C++ form: in the unsigned type), is reported as out of range when it does not, and is rejected when malformed, with the end position right. The human-readable form of a size denotes
 a value that agrees with the size to the precision shown, in the largest unit that suits it.""",
 [I], "every string and every 64-bit size", "Table-driven tests; overflow by suffix and boundary fractions are not covered.",
 ["src/strtosize.c", "src/humanize.c"], [("parser", "src/strtosize.c"), ("formatter", "src/humanize.c")],
 ["parsed values, error codes, formatted text"], "differential PBT vs 128-bit arithmetic reference", "Exploration of generated strings and values.")

prop("C21", "Escaping is reversible and bounded",
 """Unescaping an escaped string gives back the original text for every string, every set of characters to
 escape and every escape character that is not alphanumeric nor in the set, and the escaped form contains no unescaped occurrence of the set. Every escape sequence (letters, octal, decimal, hexadecimal) decodes to its byte, a malformed one
 is left as it stands, and the result is always terminated, with the right length, inside its buffer.""",
 [I], "every string, escape set and escape character", "t_esc checks a few strings.",
 ["src/escape.c", "src/unescape.c", "src/bits.h"], [("escape", "src/escape.c"), ("unescape", "src/unescape.c")],
 ["result strings, return values"], "round-trip and reference-decoder PBT, guarded buffers, ASan", "Exploration of generated strings.")

prop("C22", "Base64, hex decoding and hex dumps are faithful",
 """Base64 encoding matches the standard (with line breaks) and decoding it returns the original bytes for any input, in one call or in blocks of any size; decoding skips
 characters outside the alphabet; hex decoding returns exactly the bytes spelled, in either case, and rejects anything else; and a hex dump shows
 every byte of the buffer once, in order, with its offset or address and printable form, and passes on write errors. A destination too small is an error and is never overrun.""",
 [I], "every byte string and destination size", "Small tables; sizes near the limit and invalid characters are not covered.",
 ["src/b64_encode.c", "src/b64_decode.c", "src/str2hex.c", "src/hexdump.c"],
 [("encoder", "src/b64_encode.c"), ("decoder", "src/b64_decode.c"), ("hex", "src/str2hex.c"), ("dump", "src/hexdump.c")],
 ["encoded text, decoded bytes, return values"], "round-trip and differential PBT vs reference codecs, guarded buffers, ASan", "Exploration of generated inputs.")

prop("C23", "Growable strings behave as strings",
 """After any history of create, append, copy, duplicate, truncate, trim, chop, unquote, unbind and line-read operations a growable string holds
 exactly the text a reference string would, with the matching length, a terminator and enough capacity. Growing preserves the
 content, and operations whose source is the string itself behave as if it had been copied first. A line read that fails leaves a valid string.""",
 [H, I], "every operation history and argument", "Only variable expansion has a test.",
 ["src/gstring.c", "inc/utils/gstring.h"], [("growth and editing", "src/gstring.c")], ["contents, length, capacity"],
 "stateful model-based PBT vs std::string, ASan", "Exploration of generated histories.")

prop("C24", "Variable expansion substitutes every reference and nothing else",
 """Expanding a template replaces every plain or braced variable reference by the value the caller's lookup returns and
 every escape by its character, and copies all other text unchanged, whatever the lengths and positions. An unterminated
 reference or an unknown variable is reported with the documented error.""",
 [I], "every template and variable mapping", "t_gvarexp uses a handful of templates.",
 ["src/gstring_var.c"], [("expander", "src/gstring_var.c")], ["expanded text, return code"],
 "differential PBT vs reference expander, ASan", "Exploration of generated templates.")

prop("C25", "IPv4 parsing and formatting agree with the dotted-quad definition",
 """A string is accepted as an address exactly when it is four decimal octets in range separated by single dots, and as an address with a mask
 when the mask is a prefix length 0-32 or a dotted quad; the parsed numbers equal the text. Formatting and re-parsing an address gives it back,
 and prefix length and contiguous mask convert to each other exactly, any other mask being refused.""",
 [I], "every string and every 32-bit address", "t_ipaddr checks a table of strings.",
 ["src/parse-ip.c", "inc/utils/parse-ip.h"], [("parser", "src/parse-ip.c")], ["verdict, address, mask"],
 "differential PBT vs an independent parser, mutation of valid strings; all 33 masks exhaustively", "Exploration of generated strings.")

prop("C26", "Hash functions are pure functions of exactly the given bytes and seed",
 """Each hash function and checksum returns the same value for the same bytes and seed at any memory alignment and whatever surrounds them, agrees with its published
 algorithm, and reads nothing outside the input. Changing, adding or dropping any input byte, or (for all but FNV, which takes none) changing the seed, changes the result except
 with the probability of a collision, and incremental hashing in any split gives the one-shot value.""",
 [I], "every byte string, length, alignment, seed and split", "t_siphash24 checks the published vectors; the other functions are only timed or printed.",
 ["src/hashfunc/cityhash.c", "src/hashfunc/fasthash.c", "src/hashfunc/fnvhash.c", "src/hashfunc/hsieh_hash.c", "src/hashfunc/murmur3_hash.c", "src/hashfunc/siphash24.c", "src/hashfunc/xxhash.c", "src/fletcher-cksum.c", "src/hashfunc/yorrike.c"],
 [("block and tail mixing", "src/hashfunc")], ["digests"],
 "differential PBT vs independently written references, metamorphic alignment/surroundings/byte-flip relations, ASan", "Exploration of generated inputs of 0-6000 bytes.")

prop("C27", "Random generators follow their algorithms and stay in range",
 """Each seeded generator reproduces its published algorithm's sequence for a given seed and two generators never share state; floating-point
 output stays in the documented interval. The system-seeded generator fills exactly the requested bytes for any
 length, bounded draws are below their bound and unbiased, and no two threads or processes (including across fork) ever produce the same stream; fresh
 system entropy is mixed in at the latest after a fixed amount of output.""",
 [H, I, S], "every seed, request size, bound, fork and thread history", "t_xorrand and t_frand print numbers.",
 ["src/prng/xorshift.c", "src/prng/xoroshiro.c", "src/prng/romu-rand.c", "src/prng/frand.c", "inc/utils/splitmix.h", "src/arc4random.c"],
 [("state transition", "src/prng/xorshift.c"), ("rekey, stir, fork detection", "src/arc4random.c")], ["generated numbers"],
 "differential PBT vs reference generators; stateful PBT of the stream with fork and threads; statistical uniformity with wide tolerance", "Exploration; statistical parts use bounds far in the tails.")

prop("C28", "UUIDs and ULIDs round-trip through text and order correctly",
 """A UUID or ULID formatted as text has the standard form, and parsing the text gives back the same identifier; text that is not in that form, has the wrong length or is out of range is
 rejected without touching memory beyond the identifier. Generated UUIDs carry the right version and variant, generated ULIDs carry the current time
 so that their text sorts in time order, no two generated identifiers are equal, and generation fails when the system gives no entropy.""",
 [I, H], "every identifier, every string and every generation history", "The tests print or round-trip a few random identifiers.",
 ["src/uuid.c", "src/ulid.c"], [("codec", "src/uuid.c"), ("codec and generator", "src/ulid.c")], ["text, parsed bytes, verdicts"],
 "round-trip and differential PBT vs reference codecs, mutated strings in guarded buffers, ASan", "Exploration of generated identifiers and strings.")

prop("C29", "Directory traversal visits every entry exactly once, in order",
 """Walking any directory tree reports every file and symbolic link once and every directory once before and once after its contents, with the right type,
 path, level and metadata, in the order of the caller's comparison, and never follows a link or crosses a boundary it was told not to. Pruning, revisiting and link-following requests made during the walk,
 cycles, unreadable directories and very deep or long paths are handled as documented, and the working directory is unchanged
 at the end. The callback form reports each entry before what it holds, with its type, and stops with the callback's value when that is not zero.""",
 [I, H, C], "every directory tree, option set and instruction history", "t_fts walks one small tree.",
 ["src/fts.c", "inc/fts.h", "src/ftw.c"], [("build and advance", "src/fts.c"), ("callback form", "src/ftw.c")], ["sequence of entries"],
 "PBT over generated trees with a reference recursive walk and differential against the C library's implementation, in a scratch directory as an unprivileged user", "Exploration of generated trees.")

prop("C30", "Creating directories, rotating logs and mapping files do just that",
 """Creating a directory hierarchy makes every missing component with the requested mode, succeeds when it already exists, fails with the cause when a component is not a directory, and works when others create it at the same time. Rotating a file shifts its numbered saves by one, keeps
 the configured number with contents intact, drops only the oldest, and touches no other file. A mapped file shows exactly the file's bytes at the requested range, private writes never
 reach the file and shared ones do.""",
 [H, I, F], "every directory state, path, save count, size limit and range", "t_mkdirhier, t_rotatefile and mmaptest run one scenario each.",
 ["src/mkdirhier.c", "src/rotatefile.c", "src/posix/mmap.cpp"],
 [("mkdir loop", "src/mkdirhier.c"), ("rename chain", "src/rotatefile.c"), ("mapping", "src/posix/mmap.cpp")], ["file system state, return codes"],
 "stateful PBT vs an in-memory file-tree model, in a scratch directory", "Exploration of generated histories.")

prop("C31", "String search finds exactly the occurrences",
 """Each string-matching algorithm reports exactly the positions at which the pattern occurs in the text, overlapping ones
 included, for every text and non-empty pattern of any bytes and lengths, and all algorithms agree. A search with no occurrence
 reports none, and none reads outside the text or the pattern.""",
 [I], "every text and non-empty pattern", "strmatch.cpp searches one text.",
 ["inc/utils/strmatch.h"], [("search templates", "inc/utils/strmatch.h")], ["match offsets"],
 "differential PBT vs naive search, small alphabets and periodic patterns, ASan", "Exploration of generated text/pattern pairs.")

prop("C32", "Command-line option parsing agrees with GNU getopt_long",
 """For any option definitions and argument vector, the option parser returns the same sequence of options, arguments, errors and
 remaining operands as GNU getopt_long: short and long options, abbreviations, required and optional arguments, and the end-of-options marker. It never reads outside
 the argument vector, and permuting leaves every operand in order.""",
 [I, C], "every option specification and argument vector", "t_opt_test runs fixed vectors through generated code.",
 ["src/getopt_long.c", "inc/getopt_long.h"], [("parser", "src/getopt_long.c")], ["returned options, optarg, optind, permuted vector"],
 "differential PBT vs glibc getopt_long, ASan", "Exploration of generated specifications and vectors.")

prop("C33", "Buffered compression round-trips through any callbacks",
 """Data compressed through the buffered interface in any sequence of writes and buffer sizes, whatever part of each buffer the callback consumes, decompresses, through the buffered
 interface or the standard library, to exactly the same bytes, fed in pieces of any size. A corrupted or truncated stream, or an output
 callback that fails, is reported as an error, and everything is released at the end.""",
 [I, H, F], "every data stream, chunking, buffer size and callback failure", "The code is not built by the test suite.",
 ["src/zbuf_c.c", "src/zbuf_unc.c", "inc/zlib/zbuf.h"], [("compressor", "src/zbuf_c.c"), ("decompressor", "src/zbuf_unc.c")], ["callback output, return codes"],
 "stateful round-trip PBT, differential against zlib, fault injection in callbacks, ASan", "Exploration of generated streams.")

prop("C34", "Line reading returns every line, complete or truncated, of a stream",
 """Reading a stream line by line returns every line in order without its terminator (LF, CR or CR LF), including a last line without terminator; a line too
 long for the buffer is reported as such, its parts come out of consecutive calls and no character is lost; end of file and stream errors are told apart, and
 nothing is ever written beyond the caller's buffer whatever the line lengths.""",
 [I], "every stream content and buffer size", "No test covers it.",
 ["src/freadline.c", "src/gstring.c"], [("line reader", "src/freadline.c")], ["lines and return codes"],
 "differential PBT vs a reference line splitter, guarded buffers, ASan", "Exploration of generated streams.")

prop("C35", "Constant databases are read faithfully and corrupt ones rejected",
 """Looking up any key in a well-formed constant database returns exactly the value stored for it, and absent keys are reported absent, also when keys share a hash. A truncated or
 corrupted database file yields an error or a miss but never a read outside the file.""",
 [I, F], "every record set and every file corruption", "The reader is not built by the test suite.",
 ["src/cdb_read.c", "src/cdb_reader.h"], [("two-level table lookup", "src/cdb_read.c")], ["lookup results"],
 "PBT with an independently written database writer, mutation fuzzing of the file, ASan", "Exploration of generated databases.")

prop("C36", "Password reading never echoes and always restores the terminal",
 """For every typed input, terminal state and failure: the password returned is exactly the typed line without its terminator; it is
 returned only when the confirmation, where one is asked for, is identical; nothing typed is echoed or printed; the terminal settings are the original ones
 afterwards; and end of input, read errors, mismatches and lack of memory are reported as errors, never as a password.""",
 [I, F], "every input, terminal state and failure", "t_readpass is interactive.",
 ["src/readpass.c", "inc/utils/readpass.h"], [("terminal handling and comparison", "src/readpass.c")], ["the password, return code, terminal settings, echo"],
 "model-based PBT with a modelled terminal and injected failures, and real pseudo-terminals, ASan", "Exploration of generated inputs and failures.")

prop("C37", "The progress bar shows the true fraction and ends complete",
 """For any total, width and sequence of updates, including totals near the largest integer: the percentage and the bar drawn are the true
 fraction (rounded to their resolution); the bar keeps its width, is not wider than the terminal and never shrinks while progress grows, it is full exactly at 100%, the percentage never exceeds 100 and reaches it
 only at the end, the amounts shown are those reached, and nothing is written where there is no terminal.""",
 [I, H], "every total, width and update sequence", "t_progress prints one bar for a human to look at.",
 ["src/progbar.c", "src/humanize.c", "inc/utils/progbar.h"], [("bar drawing", "src/progbar.c")], ["the text written"],
 "model-based PBT: the text written to the terminal is parsed and compared with exact arithmetic", "Exploration of generated update sequences.")

prop("C38", "Interface and host addresses are reported completely and failures as failures",
 """For any set of interfaces and addresses the system reports: each interface appears once with exactly its addresses of the requested families and
 their flags; the addresses of one interface or the ones a name resolves to are exactly the system's; numeric addresses and the wildcard need no lookup; a failed
 query or lookup is reported as an error, never as success; address texts are correct and stay within the caller's buffer; and no memory, list or socket is lost.""",
 [I, F], "every host configuration, name and system failure", "t_cresolve prints the addresses of the machine it runs on.",
 ["src/c_resolve.c", "inc/utils/resolve.h"], [("interfaces and names", "src/c_resolve.c")], ["addresses and return codes"],
 "model-based PBT over modelled hosts with injected failures, differential against getifaddrs and inet_ntop, ASan", "Exploration of generated hosts.")

prop("C39", "Generated option parsers do what their specification says",
 """For any specification the manual of the option-parser generator allows, the generator accepts it and its code compiles and links; and for any command line the
 generated parser sets each member to the value given or its default, and its 'present' flag exactly when it was used, calls each callback with its argument,
 leaves the operands in order, and refuses unknown options, missing arguments and values the member's type cannot hold.""",
 [I, C], "every specification and command line", "No test runs the generator.",
 ["tools/mkgetopt.py", "tools/mkgetopt-manual.rst", "src/getopt_long.c"], [("generator", "tools/mkgetopt.py")], ["generated struct, return code, callbacks, help text"],
 "grammar-based PBT: generated specifications are translated, compiled and loaded, and generated command lines compared with a reference", "Exploration of generated specifications and command lines.")

prop("C40", "Error reports are complete and end the program only when asked",
 """For every message, error number, program name and status: error(), warn() and die() write to the error stream exactly the program name, the
 message with one newline at its end and, for an error number, its text and value; what was printed to standard output before comes first; a message too long for one report is shown as its own beginning,
 error text and newline included; and the program ends, with the status asked for, exactly when asked to.""",
 [I], "every message, error number and status", "No test looks at the error reports.",
 ["src/error.c", "inc/error.h"], [("reports", "src/error.c")], ["the text written, exit status"],
 "PBT: everything written is captured and compared with the reference text, endings in child processes, ASan", "Exploration of generated messages.")

prop("C41", "C++ system exceptions carry the failure's code and text",
 """For every message, prefix and error number, the C++ exceptions for failed system calls (and geterror) report exactly that error's number, and as text the formatted message,
 followed, where an error is given, by a colon and the prefix and text of the error; a text too long for the exception's buffer is shown as its own beginning, always terminated and never
 written beyond the object. A copy, or one caught by its base class, says the same.""",
 [I], "every message, prefix, error number and exception class", "No test constructs one of these exceptions with a long message.",
 ["src/sysexception.cpp", "src/posix/syserror.cpp", "inc/syserror.h"], [("exception texts", "src/sysexception.cpp"), ("error texts", "src/posix/syserror.cpp")],
 ["what(), errcode(), geterror()"], "PBT against formatted references, objects in guarded memory of exact size, ASan", "Exploration of generated messages and errors.")

prop("C42", "Configuration files are read as the indented tree they spell",
 """For every configuration file, reading it gives exactly the tree of named sections and entries its lines and indentation spell, blank lines and comments ignored, lines ended by a backslash continued and any
 line ending accepted; every section and entry is found by its path, from the root or from within a section, and nothing else is. An indented line below an entry and a file that cannot be opened are reported,
 with the file and line. Numbers are parsed exactly, with their unit, and what is no number or does not fit is refused. Closing releases everything.""",
 [I], "every file, path and value text", "No test reads a configuration file.",
 ["src/configfile.c", "inc/utils/configfile.h"], [("line reader and tree builder", "src/configfile.c"), ("lookup", "src/configfile.c")], ["the tree listed and looked up, error reports, parsed values"],
 "grammar-based PBT: generated trees are spelled as files (indentation, comments, continuations, line endings), read and compared; byte mutations for memory safety, ASan and leak check", "Exploration of generated files and values.")

prop("C43", "Becoming a daemon detaches completely, and only once",
 """For every state of the calling process, daemonize leaves one process going: in a session of its own which it does not lead, in the directory asked for (/tmp by default), with umask 022, its standard streams on the null
 device and no other descriptor opened or closed; the process that called it ends with status 0. Output waiting at the time is written exactly once and exit handlers run exactly once, when the daemon ends.
 A process that cannot be made, a directory that cannot be entered and a missing null device are reported as that error.""",
 [I, F], "every calling process, directory and failing call", "No test starts a daemon.",
 ["src/daemon.c"], [("detaching", "src/daemon.c")], ["state reported by the daemon, exit status, files written"],
 "PBT over generated process states with real processes that report through a pipe, and injected failures of fork and open", "Exploration of generated process states and failures.")

prop("C44", "Binding to a CPU binds exactly the thread it names",
 """For every sequence of bindings, a thread that was bound to a CPU that may be used is bound to that CPU alone and the caller already runs on it; no other thread's binding changes, threads made later inherit their creator's,
 and a CPU that does not exist or may not be used changes nothing and, for the process, is reported as -EINVAL. The number of CPUs is the number online.""",
 [I], "every sequence of bindings and CPU number", "No test looks at bindings.",
 ["src/posix/linux_cpu.c", "inc/utils/cpu.h"], [("affinity", "src/posix/linux_cpu.c")], ["affinity of every thread, return values"],
 "stateful PBT in child processes with two threads against one set of CPUs per thread as model", "Exploration of generated sequences; which CPUs may be used is asked of the kernel.")
