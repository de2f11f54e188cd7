# further properties; executed by meta.py
U = "src/paimon/common/utils/"

P("C18", "Delta-varint compression is lossless, canonical and rejects malformed input",
  "Compressing a list of 64-bit integers and decompressing the result gives back exactly that list, including the empty list and values of either sign up to the extremes. "
  "Each value is stored as the zigzag difference to its predecessor in little-endian 7-bit groups with a continuation bit and no superfluous group. "
  "Decompressing accepts exactly complete varints of at most ten bytes, reports truncated or overlong input as an error, and never reads outside the input.",
  ["inputs"], "every value of the (up to three) list elements, every content of inputs of up to twelve bytes",
  "tests round-trip a few lists; single groups at the 7-bit boundaries, ten-byte values and truncated or overlong inputs of every length are not enumerated",
  [U + "delta_varint_compressor.cpp"], [("encoder and decoder", U + "delta_varint_compressor.cpp")],
  "abstract interpretation in a bit-provenance (GF(2)-linear) domain with bounded trace partitioning of the group loops")

P("C20", "Statuses and results keep their outcome through copy, move and combination",
  "A status reports the kind, message and detail it was built with, and copying, moving or assigning it (in every combination of ok and error on either side) carries them over while a copied-from "
  "status keeps its own; combining two statuses keeps the first error, and statuses are equal exactly when kind, message and detail are. "
  "A result holds exactly the value or the error it was given, through copy, move and assignment, and reports ok exactly when it holds a value. "
  "The record behind an error has one owner: it is released once and never used after its release.",
  ["inputs", "histories"], "every kind, message, detail and value; every ok/error combination of source and target, including self copy-assignment",
  "tests copy and move a few error values; error-over-error assignment, detail comparison and ownership after moves are not covered, and a leak or a double release is silent",
  ["include/paimon/status.h", "include/paimon/result.h", U + "status.cpp"],
  [("status representation", "include/paimon/status.h"), ("value/error union", "include/paimon/result.h")], ABSINT)

P("C15", "Partition paths escape reserved characters and list every entry in order",
  "Escaping a name replaces exactly the reserved characters (control characters, DEL and \" # % ' * / : = ? \\ { } [ ] ^) by a percent sign and two uppercase hexadecimal digits, keeps all other "
  "bytes, and preserves order; an empty name is an error. A partition path is the escaped key=value of every entry in the given order, each followed by a slash, and is empty for an empty spec. "
  "The hierarchical paths are the paths of all non-empty prefixes, shortest first.",
  ["inputs"], "all 256 byte values alone and next to plain, reserved and non-ASCII neighbours; names of up to nine characters; specs of up to five entries",
  "tests escape a handful of names; a single character missing from the table makes two partitions share a directory or a path leave its table",
  ["src/paimon/core/utils/partition_path_utils.cpp", "src/paimon/core/utils/partition_path_utils.h"],
  [("escape table and path assembly", "src/paimon/core/utils/partition_path_utils.cpp")],
  "conditional constant propagation (value-set dataflow with string, stream and bit-set models) over every byte value and bounded neighbourhoods, compared with a frozen table")

P("C19", "Ordered map, queue and concurrent map behave as their abstract containers",
  "The insertion-ordered map holds each key once in order of first insertion with its latest assigned value; lookup, erase, indexing and iteration agree with that, a copy is equal to and independent of "
  "its source, and equality compares entries in order. The thread-safe queue delivers each pushed element exactly once in push order and nothing when empty. "
  "The concurrent map returns the value last inserted for a key until the key is erased.",
  ["inputs", "histories"], "every equality pattern of the keys and all values; containers of up to three entries before the operation",
  "tests insert a few literals; erasing through a reference to the stored key, assignment over a non-empty map and changes made to a copy are not covered",
  [U + "linked_hash_map.h", U + "threadsafe_queue.h", U + "concurrent_hash_map.h"],
  [("list plus index", U + "linked_hash_map.h"), ("locked queue", U + "threadsafe_queue.h"), ("accessor based map", U + "concurrent_hash_map.h")],
  "abstract interpretation over symbolic keys and values in containers of bounded shape, compared with a reference list on every path")

P("C12", "Bitmaps behave as sets of integers and own their storage",
  "After every sequence of insertions, removals, range operations, unions, intersections, differences and flips a bitmap contains exactly the integers of the corresponding set; membership, range membership, "
  "cardinality, emptiness, equality and iteration (ascending, also from a given lower bound) answer for that set, and operands that are not assigned to keep their content. "
  "Copies are independent, a moved-to bitmap or iterator takes over the content, and each underlying set is released exactly once. "
  "Serializing stores exactly the set, and reading it back replaces the former content.",
  ["inputs", "histories"], "all sets and all integers for the algebra and the queries; iteration over sets of up to three named elements",
  "tests use a few small sets; aliased operands, assignment over a non-empty bitmap, range edges and iterators copied or moved in the middle are not enumerated",
  [U + "roaring_bitmap32.cpp", U + "roaring_bitmap64.cpp", "include/paimon/utils/roaring_bitmap32.h", "include/paimon/utils/roaring_bitmap64.h"],
  [("wrappers of the bitmap library", U + "roaring_bitmap32.cpp"), ("64-bit wrapper", U + "roaring_bitmap64.cpp")],
  "abstract interpretation with a set-term domain: bitmap calls build uninterpreted set expressions whose point-wise membership formula is compared with the specification")

BSI = "src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap"
P("C14", "Bit-sliced index answers comparisons exactly",
  "Every comparison (equal, less, less or equal, greater, greater or equal) with any literal, inside or outside the value range, returns exactly the rows whose appended value satisfies it, "
  "and the non-null rows are exactly the appended ones. "
  "Appending accepts exactly values between the minimum and maximum for rows not present yet, and a rejected value changes nothing. "
  "An index can be created exactly for 0 <= minimum <= maximum; asking it leaves it unchanged.",
  ["inputs"], "all row sets and all values through their bits, for indexes of up to four slices and wide ones, with literals inside, at and around the range",
  "tests query a few literals on one data set; bit patterns of literals with several set bits, literals at the range ends and minimum above zero are not enumerated",
  [BSI + ".cpp", BSI + ".h"], [("slices and comparison", BSI + ".cpp")],
  "abstract interpretation with a set-term domain; the membership formula of every result over the row's slice bits is compared with the comparison of the encoded value (decision tables, no search)")

GI = "src/paimon/common/global_index/"
P("C13", "Global index results combine as sets of row ids and keep scores with rows",
  "The intersection, union and shift of index results hold exactly the row ids of the set operation whatever the kinds of the operands; iteration is ascending, ranges are maximal and cover exactly the ids, "
  "a result made from ranges holds exactly their ids, and operands are unchanged. "
  "A scored result keeps each row's own score when it is intersected with an unscored one, shifted, or united with a scored result of other rows (a common row is an error); all other combinations carry no scores. "
  "A lazy result computes its ids once, on demand, and an error of that computation is reported by every question asked, never as an empty result.",
  ["inputs"], "all row ids and scores, every interleaving with ties of operands of up to two ids (three for shifts and ranges), every pair of result kinds",
  "tests combine a few fixed results; a second question after an error, ties at particular positions and mixed kinds are not enumerated",
  [GI + "bitmap_global_index_result.cpp", GI + "bitmap_vector_search_global_index_result.cpp", GI + "global_index_result.cpp"],
  [("lazy bitmap result", GI + "bitmap_global_index_result.cpp"), ("scored result", GI + "bitmap_vector_search_global_index_result.cpp"), ("generic combination and ranges", GI + "global_index_result.cpp")],
  "abstract interpretation of the public interface through a parsed-only client, over unknown row ids with complete order partitioning; compared with reference lists")

FI = "src/paimon/common/file_index/"
P("C11", "File index results never skip rows that may match",
  "Intersecting or uniting two file index results stands for exactly the rows of the set operation, where \"remain\" stands for all rows of the file, \"skip\" for none and a bitmap result for its rows; "
  "a result asked whether the file remains says so whenever a row may match, and operands are unchanged. "
  "A reader keeps the file for every predicate it does not decide, answers a value list with the union (negated: intersection) of the answers for the single values, and the reader of an empty index skips exactly the predicates no absent value can satisfy. "
  "Rows of a lazy result are computed once on demand, and an error of that computation is reported by every question asked, never as a skip.",
  ["inputs"], "every pair of result kinds; bitmaps of up to two unknown rows in every order with ties; lists of up to three values",
  "tests combine a few fixed results; mixed kinds, errors of lazy results and value lists in the default reader are not enumerated, and a wrongly skipped row is silent",
  [FI + "file_index_result.cpp", FI + "file_index_reader.cpp", FI + "bitmap/bitmap_index_result.cpp", FI + "empty/empty_file_index_reader.h"],
  [("combination of results", FI + "file_index_result.cpp"), ("bitmap result", FI + "bitmap/bitmap_index_result.cpp"), ("default reader", FI + "file_index_reader.cpp")],
  "abstract interpretation of the public interface through a parsed-only client, over unknown rows with complete order partitioning; compared with reference row sets")

IO = "src/paimon/common/io/"
P("C04", "Data streams store and restore values byte for byte",
  "A number, boolean, string or byte array written through the data output stream or the segmented memory output stream is stored as the documented bytes: fixed width in the chosen byte order (big endian unless set), "
  "strings behind a 16-bit length, arrays unchanged, and the same bytes wherever segment boundaries fall. "
  "The data input stream returns from those bytes exactly the stored value and advances by exactly its size. "
  "A transfer that is short, fails or would pass the end of the stream is an error and never a value, and no access leaves a buffer.",
  ["inputs", "fault_sequences"], "all values of every supported type, both byte orders, every split over segments of a few sizes, every short transfer length, requests and positions around the integer widths",
  "tests round-trip a few literals; symmetric mistakes cancel in a round trip, and short transfers, boundary splits at every byte and requests beyond the end are not enumerated",
  [IO + "data_output_stream.cpp", IO + "data_input_stream.cpp", IO + "memory_segment_output_stream.cpp", IO + "memory_segment_output_stream.h"],
  [("writing", IO + "data_output_stream.cpp"), ("reading with bounds", IO + "data_input_stream.cpp"), ("segment crossing", IO + "memory_segment_output_stream.h")],
  "abstract interpretation with a byte-memory domain: buffers hold bytes whose bits are tracked to the bits of the unknown value; layouts are compared bit for bit with the documented ones")

M = "src/paimon/common/memory/"
D = "src/paimon/common/data/"
P("C23", "Segmented memory behaves as one contiguous byte range",
  "Reading and writing numbers, bits and byte ranges in memory split over segments, copying, comparing, searching and viewing parts of it give the result of the same operation on the concatenated bytes, wherever segment boundaries fall. "
  "Comparison orders byte-wise, unsigned; a write changes exactly the addressed bytes. "
  "No operation on a range inside the segments touches a byte outside them.",
  ["inputs"], "all byte contents and values; segments of one to twelve bytes, every offset and length in up to twelve bytes",
  "tests use a handful of offsets; each operation has separate one-segment and multi-segment code, so a slip needs a particular combination of segment size, offset and length",
  [M + "memory_segment.cpp", M + "memory_segment.h", M + "memory_segment_utils.cpp", M + "memory_segment_utils.h", D + "binary_section.cpp", D + "binary_section.h"],
  [("single segment", M + "memory_segment.cpp"), ("spanning segments", M + "memory_segment_utils.cpp"), ("sections", D + "binary_section.cpp")],
  "abstract interpretation with a byte-memory domain over unknown bytes in segments; results are compared byte for byte with the operation on the concatenation")

P("C27", "Binary strings behave as their bytes and UTF-8 characters",
  "A string answers questions about its bytes (copy, byte at, part, equality, order, prefix, suffix, containment) and its characters (count, substring, position) exactly as the contiguous bytes do, wherever segment boundaries fall. "
  "Order is byte-wise unsigned, then by length; a character is as long as its first byte announces and never reaches behind the string; case conversion changes exactly the ASCII letters. "
  "No byte outside the string influences an answer.",
  ["inputs"], "all contents where only positions matter, every first byte, complete and truncated characters of each length; segments of one to twelve bytes with several offsets",
  "tests use a few literals; truncated characters, non-ASCII order and boundaries inside characters for both operands are not enumerated",
  [D + "binary_string.cpp", D + "binary_string.h", M + "memory_segment_utils.cpp"],
  [("strings", D + "binary_string.cpp")],
  "abstract interpretation with a byte-memory domain over strings laid out in segments; answers are compared with those for the contiguous bytes")

P("C24", "Byte hashes are stable and independent of where the bytes lie",
  "The hash of a byte range is the documented 32-bit murmur hash: seed 42 unless given, little endian words, then every remaining byte on its own, sign-extended, then the length. "
  "It is the same number whether the bytes lie in an array, one segment or several segments, at any offset, and equal strings hash equally. "
  "No byte outside the range influences it.",
  ["inputs"], "unknown bytes for ranges of up to nine bytes through every entry point and split; given bytes of each residue of the word size with high and low values",
  "tests compare a few literals; hashes of bytes above 127 in the tail of multi-segment ranges and non-zero offsets are not enumerated, and a changed hash silently moves rows to other buckets",
  [U + "murmurhash_utils.h", M + "memory_segment_utils.cpp", D + "binary_section.cpp"],
  [("hash", U + "murmurhash_utils.h"), ("ranges over segments", M + "memory_segment_utils.cpp")],
  "abstract interpretation with a byte-memory domain: term equality of all entry points over unknown bytes, and constant propagation against an independent definition")

P("C26", "A bloom filter never forgets an added hash",
  "After a 64-bit hash was added, the filter reports it as possibly present, whatever was added before or after; a hash is reported absent exactly if one of its bits is not set. "
  "Adding sets exactly the documented bits (the two halves combined, flipped when negative, modulo the number of bits) and no other. "
  "A filter over a part of a buffer uses exactly that part, and the size and number of hash functions follow from the expected items and error rate.",
  ["inputs"], "all filter contents, hashes of every sign combination and the integer limits, filters of up to thirteen bytes with offsets; positions as terms for an unknown hash",
  "tests add random values to one filter; negative combinations, offsets and a missing last position are not enumerated, and a false negative silently drops rows",
  [U + "bloom_filter64.cpp", U + "bloom_filter64.h"],
  [("filter", U + "bloom_filter64.cpp")],
  "abstract interpretation with a byte-memory domain: bit provenance of the filter after adding, answers decided for all contents of the other bits")
P("C05", "Stored descriptors, indexes and results read back as written",
  "A blob descriptor, a bit-sliced index and a global index result are stored as the documented bytes (version, lengths, numbers in the documented byte order, bitmaps, scores) for every value. "
  "Reading such bytes returns exactly the stored value and ignores what follows. "
  "Bytes that are cut short, have an unsupported version, a negative or wrong length or count, or a bitmap that cannot be read give an error, as do values that cannot be stored (negative offset, length below -1).",
  ["inputs"], "unknown uri bytes, offsets, lengths and scores; every truncation; uris of up to 70000 bytes; indexes of up to 41 slices; results of up to three rows",
  "tests store a handful of values and read them back; they do not enumerate truncations, corrupted counts, long uris or unequal score counts, and a wrong layout breaks files written by other implementations",
  [D + "blob_descriptor.cpp", BSI + ".cpp", GI + "global_index_result.cpp"],
  [("blob descriptor", D + "blob_descriptor.cpp"), ("bit-sliced index", BSI + ".cpp"), ("result", GI + "global_index_result.cpp")],
  "abstract interpretation with a byte-memory domain (bit provenance) and set terms for bitmaps; stored bytes compared with a layout table for all values")
LF = "src/paimon/fs/local/"
P("C16", "Local files report what is on disk and every system failure",
  "Existence, kind, size, time, listing and parent of a local path are those on disk, and only deleting, creating a directory and writing change it; reads and writes transfer exactly the requested bytes in order, however the system splits them, and flushing forces them to disk. "
  "If any system call fails the operation returns an error, a file that vanished meanwhile counts as deleted, and directories are closed on every path. "
  "Operations on a file that is not open, or after it was closed, are errors without touching the system, closing twice is harmless, and the test hook is asked before the system and stops the operation when it refuses.",
  ["inputs", "fault_sequences"], "regular files, directories, pipes, sockets, missing and forbidden paths; reads at every offset with every split; each system call failing in turn; each hook refusal",
  "tests run on a healthy disk: short reads, failing readdir, close, flush or stat calls and refusals at every point never happen there",
  [LF + "local_file.cpp", LF + "local_file.h"],
  [("local file", LF + "local_file.cpp")],
  "abstract interpretation with an operating system model (tree of files, streams, directory handles) and one failing call at a time; typestate of handles")
P("C25", "Metrics counters are kept, merged and replaced exactly, also concurrently",
  "A counter holds the last value set, an unknown counter is an error, and all counters are listed. "
  "Merging adds the values of equal names, adopts the others and leaves the source unchanged; replacing makes the counters equal to the source's; with nothing or itself both change nothing. "
  "When other threads set, merge or replace at the same time no addition is lost and no thread waits for ever.",
  ["inputs", "schedules"], "every combination of present and absent counters with unknown values, with the operation of another thread at each lock acquisition, in both orders",
  "tests use metrics from one thread; lost updates and mutual waiting need a particular interleaving",
  ["src/paimon/common/metrics/metrics_impl.cpp", "src/paimon/common/metrics/metrics_impl.h"],
  [("metrics", "src/paimon/common/metrics/metrics_impl.cpp")],
  "abstract interpretation over map shapes and linear terms, with interference by another thread at every lock acquisition; lockset and lock-order analysis")
P("C21", "Factories are found by name and kind; the io hook fails at the asked point",
  "A name finds exactly the factory registered under it and any other name nothing, a typed lookup refuses a missing factory or one of another kind, a second registration of a name never replaces the first, and every shipped factory is registered under its persisted name. "
  "Everybody uses the same registry, a registration of another thread is never lost, and each factory is released exactly once. "
  "The io hook lets the attempts before the asked position pass, counts all attempts, afterwards fails in the asked mode, and clearing ends it.",
  ["inputs", "schedules"], "every subset of three registered names and each further name, every typed lookup, positions and attempts 0 to 4 in every mode, another thread registering at each lock acquisition",
  "tests register one or two names from one thread and use position 0 only",
  ["src/paimon/common/factories/factory_creator.cpp", "src/paimon/common/factories/io_hook.cpp", "src/paimon/common/factories/singleton.h"],
  [("registry", "src/paimon/common/factories/factory_creator.cpp"), ("hook", "src/paimon/common/factories/io_hook.cpp")],
  "abstract interpretation over map shapes with ownership of the factories and interference at lock acquisitions; lockset analysis")
P("C10", "The executor runs every accepted task exactly once and ends",
  "Every task accepted before destruction runs exactly once, and has run when destruction is complete; empty tasks and tasks submitted during destruction are ignored. "
  "Tasks start in the order of submission, a submission wakes a waiting worker, and no task waits for another while a worker is free. "
  "Destruction waits for all workers and always ends.",
  ["schedules", "histories"], "one to three workers, up to three tasks incl. tasks that submit tasks; workers moving at every lock acquisition, during every task and during destruction",
  "tests submit tasks and wait for all of them on a healthy schedule; lost wake-ups, dropped queues and ends during a task need particular interleavings",
  ["src/paimon/common/executor/executor.cpp"],
  [("executor", "src/paimon/common/executor/executor.cpp")],
  "abstract interpretation of client and worker bodies with wait/notify typestate and interference at lock acquisitions; lockset analysis")
P("C02", "Shared state is only touched under its lock; queue operations are atomic",
  "The state that the executor, metrics, factory registry, resolving file system and shared queue share between threads is read and written only while the object's lock is held, and the lock is released on every path. "
  "The shared queue gives out every element exactly once in the order it was put in, looking at it changes nothing, and an empty queue gives nothing. "
  "With another thread putting or taking at any moment each operation answers as in one of the two orders.",
  ["schedules"], "every public operation, thread body and destructor of the classes; every access path to a shared field; queues of up to three elements with another thread at each lock acquisition",
  "data races and check-then-act gaps do not show in single-threaded tests",
  [U + "threadsafe_queue.h", "src/paimon/common/executor/executor.cpp", "src/paimon/common/metrics/metrics_impl.cpp", "src/paimon/common/factories/factory_creator.cpp", "src/paimon/common/fs/resolving_file_system.cpp"],
  [("queue", U + "threadsafe_queue.h"), ("file system cache", "src/paimon/common/fs/resolving_file_system.cpp")],
  "lockset dataflow over every access path to fields that methods change; abstract interpretation with interference at lock acquisitions")
P("C07", "Timestamps, names, counters and deletion files keep and order their parts",
  "A timestamp keeps its milliseconds and nanoseconds, converts exactly to micro- and nanoseconds, is ordered by both parts, and reads as UTC date and time with a four-digit year and nine digits of fraction. "
  "Table names and deletion files are equal exactly if all parts are; a counter is the sum of what was added and merged since its reset, swapping reverses bytes, and a scope guard runs its action once unless released. "
  "A list of deletion files is stored as documented bytes, reading by stored version returns what was stored, and cut, malformed or unknown-version bytes are errors.",
  ["inputs"], "every millisecond/nanosecond pair for conversions and order, texts at every calendar boundary, every content of up to two stored files of each kind, every version and every truncation",
  "tests use a handful of dates and files; dates before 1970, short years, old versions, missing entries and truncations at each byte are not enumerated",
  ["include/paimon/data/timestamp.h", "src/paimon/common/data/timestamp.cpp", "src/paimon/core/table/source/deletion_file.h", "src/paimon/core/catalog/identifier.cpp", U + "long_counter.h", U + "math.h", U + "scope_guard.h", "src/paimon/core/table/source/plan_impl.cpp"],
  [("timestamp", "src/paimon/common/data/timestamp.cpp"), ("stored deletion files", "src/paimon/core/table/source/deletion_file.h"), ("byte swap", U + "math.h")],
  "abstract interpretation over terms and linear inequalities; byte-provenance for stored formats; conditional constant propagation at calendar boundaries")
P("C08", "Commit, scan, read and write contexts carry exactly what was set",
  "A finished context returns the last value given for every setting, and the documented default for every setting that was not given; adding an option keeps the others while setting all options replaces them. "
  "After finishing, the builder starts over with the defaults for the same path and user. "
  "Empty paths and settings that cannot work together are refused, and only those; the path loses repeated and trailing slashes.",
  ["histories", "configurations"], "for each of the four builders: no setting, each alone, each twice, every ordered pair, all in both orders, and every single setting after a finished context",
  "tests set a few values once; a setting that leaks into the next context, replaces another or is lost in one combination is not tried",
  ["src/paimon/core/operation/commit_context.cpp", "src/paimon/core/operation/scan_context.cpp", "src/paimon/core/operation/read_context.cpp", "src/paimon/core/operation/write_context.cpp",
   "include/paimon/commit_context.h", "include/paimon/scan_context.h", "include/paimon/read_context.h", "include/paimon/write_context.h", U + "path_util.cpp"],
  [("commit", "src/paimon/core/operation/commit_context.cpp"), ("scan", "src/paimon/core/operation/scan_context.cpp"), ("read", "src/paimon/core/operation/read_context.cpp"), ("write", "src/paimon/core/operation/write_context.cpp")],
  "value-flow analysis from every setter to every getter by abstract interpretation over enumerated builder histories")
P("C09", "Memory pools account every block; buffers own their memory once",
  "The usage of a pool is the sum of its live blocks and its peak the largest usage ever, also with several threads and after a failed request, which is reported and changes nothing. "
  "Reallocation keeps the content up to the smaller size. "
  "A buffer holds its bytes through copy, move and assignment, compares as unsigned bytes, and gives its memory back exactly once, to the pool it came from and with its size.",
  ["inputs", "histories", "schedules", "fault_sequences"], "every block size, sequences of requests with each system request failing, another thread at each access to the counters; buffers of up to four bytes in every combination of two pools",
  "tests allocate and free on one thread without failures; lost updates of the counters, leaks on moves and wrong sizes on release are silent",
  ["src/paimon/common/memory/memory_pool.cpp", "src/paimon/common/memory/bytes.cpp", "include/paimon/memory/memory_pool.h", "include/paimon/memory/bytes.h"],
  [("pool", "src/paimon/common/memory/memory_pool.cpp"), ("buffer", "src/paimon/common/memory/bytes.cpp"), ("deleter", "include/paimon/memory/memory_pool.h")],
  "ownership and effect analysis by abstract interpretation with a heap model, failing system requests and interference at atomic accesses")
P("C22", "Column statistics bound every collected value and count the nulls",
  "After any sequence of collected values the minimum is the smallest and the maximum the largest of the values and the initial bounds, and nothing if there was none. "
  "The null count is the initial count plus the nulls collected; a null never touches the bounds, and collecting a value makes an unknown count zero. "
  "Every kind of statistics reports the column type it was made for, times and decimals also their precision and scale.",
  ["inputs", "histories"], "every column type; every combination of present and absent initial bounds and count; sequences of up to three values and nulls in every order relation",
  "tests collect one ascending list for most types; a bound updated only in one order or lost after a null gives wrong pruning silently",
  ["src/paimon/common/format/column_stats.cpp", "include/paimon/format/column_stats.h"],
  [("statistics", "src/paimon/common/format/column_stats.cpp")],
  "abstract interpretation over linear terms with case enumeration of present values and order relations")
P("C28", "Paths are parsed, joined, split and named consistently; texts are cut exactly",
  "A location splits into scheme, authority and path by its first colon before any slash and the two slashes behind it; the path loses repeated and trailing slashes, and normalising again changes nothing. "
  "Joining puts exactly one slash between the parts; parent and name of a location joined again give the same location, and a temporary path lies beside its target, is hidden, and carries the name and a fresh unique part. "
  "Replacing, splitting, trimming, case change and prefix or suffix tests of texts follow their definition for every text, and end.",
  ["inputs"], "every text of up to five characters over slash, colon, blank and unknown others for paths; every text, pattern and replacement up to the stated lengths for the text functions",
  "tests use a handful of paths; repeated slashes at each place, colons in names, an authority without path, empty patterns and self-containing replacements are not enumerated",
  [U + "path_util.cpp", U + "string_utils.cpp", U + "path_util.h", U + "string_utils.h"],
  [("paths", U + "path_util.cpp"), ("texts", U + "string_utils.cpp")],
  "abstract interpretation over character sequences with symbolic other characters, against a grammar of locations")
P("C29", "The resolving file system sends every request unchanged to the right system",
  "The implementation for a location is the one configured for its scheme, plain paths use the one configured for files, and everything else the default. "
  "One file system is created per scheme and authority and used for all later requests, also when two threads ask at once; a failed creation is reported and tried again the next time. "
  "Every request reaches that file system once with its arguments unchanged, and its answer or error is returned.",
  ["inputs", "histories", "schedules", "fault_sequences"], "every operation, configurations with and without the scheme, sequences of up to three locations, creation and operation failing, another thread asking at each lock acquisition",
  "tests use one configured scheme; cache keys, failures between two uses and concurrent first uses are not tried",
  ["src/paimon/common/fs/resolving_file_system.cpp", "src/paimon/common/fs/resolving_file_system.h"],
  [("resolving", "src/paimon/common/fs/resolving_file_system.cpp")],
  "value-flow analysis of every request by abstract interpretation with stand-in file systems, interference at lock acquisitions, lockset analysis")
P("C30", "The local file system does exactly what was asked and stores atomically",
  "An atomic store leaves the complete content, forced to disk beforehand, or no file under the name at every crash point, refuses an existing name, and leaves no temporary file when it fails; of two threads storing or renaming to one name exactly one succeeds. "
  "Writing, reading, renaming, removing, making directories, listing and status change or tell exactly the named entries, replace or remove nothing that was not asked for, and accept a location with or without the file scheme but no other scheme. "
  "Every operation with a failing system call is an error, and all files and directories it opened are closed.",
  ["inputs", "crash_points", "fault_sequences", "schedules"], "a tree of thirteen entries with unknown bytes; some 150 calls with existing, missing, blocked, relative, root-level and schemed locations; without fault and with each system call failing; directories and listed entries appearing or vanishing between calls; a store or rename of another thread before any one system call",
  "tests run on a healthy disk: failing flush, close, stat or rename, a stop between write and rename, and entries vanishing during a listing cannot be produced there",
  [LF + "local_file_system.cpp", "src/paimon/common/fs/file_system.cpp", LF + "local_file_system.h"],
  [("local file system", LF + "local_file_system.cpp"), ("whole files and atomic store", "src/paimon/common/fs/file_system.cpp")],
  "abstract interpretation over an operating system model with fault enumeration at every modelled system call, resource typestate, destructor-following scopes, interference at system calls with locksets")
P("C31", "Binary rows and arrays hold what was written, byte for byte as documented",
  "A row or array written field by field, in any order, with growth, and by a writer used again, has exactly the documented bytes: count, null bits, little-endian slots, short text inline, longer values padded to eight bytes behind. "
  "Every field reads back as written and exactly the fields written as null are null, wherever the row lies and segment boundaries fall; setting a field changes this field alone, lists are refused for arrays with nulls, and a serialized row is read back the same while one cut short is an error. "
  "Rows are equal, and hash equal, exactly as their bytes are, a copy is independent, and no byte outside the memory is touched.",
  ["inputs", "histories"], "rows of 0 to 121 fields and arrays of 0 to 65 elements with unknown values; text of 0 to 40 unknown bytes around the inline limit; timestamps, nested rows and arrays; every earlier use of the writer by kind; segments of 8 and 16 bytes and one segment, with offset",
  "the test suite that runs here contains no row or array test, and stale bytes of a writer used again, fields across segment boundaries or null bits past the first word need exact sizes",
  ["src/paimon/common/data/abstract_binary_writer.cpp", "src/paimon/common/data/binary_row.cpp", "src/paimon/common/data/binary_array.cpp"],
  [("writing variable length fields", "src/paimon/common/data/abstract_binary_writer.cpp"), ("rows", "src/paimon/common/data/binary_row.cpp"), ("arrays", "src/paimon/common/data/binary_array.cpp"), ("serialized rows", "src/paimon/common/data/serializer/binary_row_serializer.cpp")],
  "abstract interpretation with byte-precise memory of unknown contents and bit provenance; comparison with a reference layout; memory bounds on every access")
