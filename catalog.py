"""The properties (source of properties.jsonl and MANIFEST.json; see tools/gen.py)."""

C = {}


def P(pid, title, statement, over, text, why, files, mech, observe=(), tech="", note=""):
    assert len(title) <= 80, (pid, len(title))
    C[pid] = dict(title=title, statement=" ".join(statement.split()), over=over.split(), text=" ".join(text.split()),
                  why=" ".join(why.split()), files=files.split(), mech=mech, observe=list(observe), tech=tech, note=note)


ENUM = "stateless bounded-exhaustive model checking: "

# ---------------------------------------------------------------- digest
P("D01", "Every digest equals its published definition for every message",
  """Each message digest the library offers (MD5, SHA-1, the SHA-2 and SHA-3 families, SHAKE, BLAKE2b, BLAKE3) returns, for
  every message of every length, exactly the value its published specification defines. The hexadecimal rendering is the
  lowercase two-digits-per-byte form of that value, and nothing outside the message is ever read.""",
  "inputs", "All messages: every length (across all padding, block, chunk and counter boundaries) and every content.",
  "The tests pin a handful of vectors per algorithm; padding, block-count and counter mistakes show only at particular lengths.",
  "mbo/digest/digest.h mbo/digest/digest_md5.h mbo/digest/digest_sha1.h mbo/digest/digest_sha256.h mbo/digest/digest_sha512.h mbo/digest/digest_sha3.h mbo/digest/digest_shake.h mbo/digest/digest_blake2b.h mbo/digest/digest_blake3.h",
  [("padding and length encoding", "StreamFinalize of each digest_*.h"), ("compression / permutation", "digest_*.h internals")],
  ["Digest(), ToHexString()"],
  ENUM + "every length in the bound x byte patterns, single-bit messages and alignments run against independent references; counter boundaries at 512 MiB and 4 GiB")
P("D02", "Streaming digests equal the one-shot digest for every chunking",
  """Feeding a message to a digest stream in any sequence of pieces, including empty ones, gives at every point exactly the
  digest of the bytes fed so far. Finalizing only peeks: it may be repeated, and updating may continue afterwards, and
  copies of a stream evolve independently.""",
  "histories inputs", "All sequences of updates, finalizations and copies; all ways of cutting a message into pieces.",
  "Tests cut a few messages at a few places; buffering errors need particular buffered/remaining combinations.",
  "mbo/digest/digest.h mbo/digest/digest_md5.h mbo/digest/digest_sha1.h mbo/digest/digest_sha256.h mbo/digest/digest_sha512.h mbo/digest/digest_sha3.h mbo/digest/digest_shake.h mbo/digest/digest_blake2b.h mbo/digest/digest_blake3.h",
  [("buffering", "StreamUpdate of each digest_*.h"), ("peeking finalizer", "StreamFinalize (state by value)")],
  ["Streamer::Update/Finalize"],
  ENUM + "the tree of all update sequences over a boundary alphabet of piece sizes to a fixed depth, and all two-cut splittings, each state finalized twice")
P("D03", "HMAC equals RFC 2104 for every key and message, one-shot and streamed",
  """The keyed message authentication code over any offered digest equals the HMAC of RFC 2104 for every key length (shorter,
  equal and longer than a block) and every message, however the message is split.""",
  "inputs histories", "All keys and messages, all chunkings.",
  "Tests use the RFC vectors only; key-length and chunking boundaries per digest are not covered.",
  "mbo/digest/digest_hmac.h", [("key block", "Hmac::StreamInit"), ("inner/outer", "Hmac::StreamFinalize")], ["Hmac::Digest, HmacStreamer"],
  ENUM + "all key lengths x message lengths over block boundaries x chunkings against a direct RFC 2104 transcription")
P("D04", "Keyed, extendable and derive-key modes equal their specifications",
  """The keyed BLAKE modes, BLAKE3 key derivation and extendable outputs of every length equal their specifications for every
  key, context and message. A shorter output is a prefix of a longer one where the specification says so, and outputs of
  different modes never coincide.""",
  "inputs", "All keys, contexts, messages and output lengths.",
  "Tests pin a few vectors; output-block boundaries and key lengths are not enumerated.",
  "mbo/digest/digest_blake2b.h mbo/digest/digest_blake3.h mbo/digest/digest_shake.h",
  [("keyed initialisation", "digest_blake2b.h, digest_blake3.h"), ("squeezing / root output", "digest_shake.h, digest_blake3.h")], ["Keyed*/Xof/DeriveKey entry points"],
  ENUM + "every key length, output length and boundary message length against independent transcriptions")
P("D05", "Checksum lines parse exactly when well formed and round-trip",
  """A line of a checksum file is accepted exactly when it has a documented form, and then yields exactly the digest, mode and
  file name that were written, including names with spaces, stars, escapes or leading blanks. Everything else is rejected
  without a crash, whatever bytes it contains.""",
  "inputs", "All lines over an alphabet of structural characters up to a length, and all digests x names.",
  "Tests and fuzzing sample; acceptance boundaries (lengths, separators, case) must hold for every line.",
  "mbo/digest/checksum.h mbo/digest/checksum.cc", [("parser", "checksum.cc")], ["parse result"],
  ENUM + "all strings over a structural alphabet to a length plus grammar-directed lines, against a reference grammar")
P("D06", "The digest tool reports failure unless every file really matches",
  """The digest command prints for each named file the digest of the file's entire content, and in check mode succeeds exactly
  when every listed file could be read completely and has the listed digest. A file that is missing, is a directory, cannot
  be read to its end, or differs always shows in the output and in the exit code.""",
  "inputs fault_sequences configurations", "All argument lists over flags x file kinds up to a length; a read error or short read at every read call.",
  "The shell test covers one happy path and one mismatch; read failures part way through a file are never exercised.",
  "mbo/digest/digest_main.cc mbo/digest/checksum.cc", [("file digesting", "digest_main.cc"), ("check mode", "digest_main.cc")], ["stdout, exit code"],
  ENUM + "all argument sequences in-process against a model, with every read call failing or short in turn")
P("D07", "Digests computed by the compiler equal those computed at run time",
  """Evaluating a digest, a digest stream or an HMAC in a constant expression is always possible and gives the same value as
  evaluating it at run time, which is the specified one.""",
  "inputs", "All algorithms and all messages.",
  "Compile-time and run-time paths differ in the code; tests compare single vectors.",
  "mbo/digest/digest.h mbo/digest/digest_sha256.h mbo/digest/digest_blake3.h mbo/digest/digest_hmac.h mbo/digest/digest_sha3.h", [("constant-evaluated paths", "digest_*.h")], ["constexpr tables"],
  ENUM + "compiler-evaluated tables over all boundary lengths and chunkings compared with the reference")

# ---------------------------------------------------------------- hash
P("H01", "Canonical hashes equal their published reference for every input",
  """The hashes published elsewhere under the same name (FNV-1a, MurmurHash3, SipHash, XXH64, XXH3 in 64 and 128 bits,
  rapidhash) return the reference value for every input of every length and every seed or key.""",
  "inputs", "All inputs and seeds.", "Tests use pinned vectors of selected lengths.",
  "mbo/hash/hash_fnv1a.h mbo/hash/hash_murmur3.h mbo/hash/hash_siphash.h mbo/hash/hash_xxh64.h mbo/hash/hash_xxh3.h mbo/hash/hash_rapidhash.h mbo/hash/hash_internal_util.h",
  [("per-length-class code paths", "hash_*.h")], ["GetHash64/GetHash128/GetHash32"],
  ENUM + "every length through all length classes x patterns x seeds against libxxhash and direct transcriptions")
P("H02", "Build-time hashes equal the C++ hashes for every input",
  """Each hash offered to build files returns, for every byte list or printable string and every seed, exactly the value of its
  C++ counterpart, also with default seeds. Input that cannot be represented is refused, never hashed to something else.""",
  "inputs", "All inputs, lengths and seeds.", "The comparison test runs only under Bazel and only for 33 strings with the default seed.",
  "mbo/hash/hash.bzl mbo/hash/hash_dumbo.h mbo/hash/hash_mumbo.h mbo/hash/hash_fnv1a.h", [("ports", "hash.bzl"), ("prime implementation", "hash_dumbo.h, hash_mumbo.h, hash_fnv1a.h")], ["values"],
  ENUM + "every length in the bound x five contents x six seeds: the executed build file against the executed C++ code")
P("H03", "Streaming hashes equal the one-shot hash for every chunking",
  """Feeding a hash stream any sequence of pieces gives at every point the one-shot hash of the bytes fed so far with the same
  seed. Reading the value only peeks, and copies of a stream are independent.""",
  "histories inputs", "All sequences of updates and peeks; all chunkings.", "Tests chunk a few messages in a few ways.",
  "mbo/hash/hash.h mbo/hash/hash_mumbo.h mbo/hash/hash_siphash.h mbo/hash/hash_xxh64.h", [("buffering", "StreamUpdate"), ("tail handling", "StreamFinalize")], ["Streamer"],
  ENUM + "the tree of all update sequences over a boundary alphabet to a fixed depth, and all two-cut splittings")
P("H04", "Every input byte, the length and the seed influence every hash",
  """For every offered hash, changing any single byte at any position, the length, or the seed changes the value, in each half
  of a 128-bit value. The value depends on nothing but the bytes and the seed: not on alignment, neighbouring memory, or
  earlier calls.""",
  "inputs", "All positions of all lengths, all single-byte changes, all seeds.",
  "An ignored byte shows only for particular lengths and positions (it happened once); tests check one length.",
  "mbo/hash/hash_tembo.h mbo/hash/hash_fambo.h mbo/hash/hash_mumbo.h mbo/hash/hash_dumbo.h mbo/hash/hash_internal_util.h mbo/hash/hash_xxh3.h mbo/hash/hash_rapidhash.h",
  [("tail loads", "hash_internal_util.h LoadTail/LoadSmall"), ("length ladders", "hash_tembo.h, hash_fambo.h")], ["values"],
  ENUM + "every position of every length x byte changes, all short strings, runs and two-bit seeds: no two values coincide; sanitizers watch exact-size buffers",
  "Quality beyond single-byte sensitivity (avalanche statistics) is not decided. The collision families leave out the configurations the README documents as weak.")
P("H05", "Derived hash widths, combination and rendering keep every input",
  """A hash of one width derived from an algorithm that offers only another follows the documented derivation for every input
  and seed, an offered width is used as is, and default seeds agree across all entry points. Combining hashes depends on
  both values and their order, and 128-bit values order and render by high half first.""",
  "inputs configurations", "All algorithm shapes (32/64/128 native or not) x all inputs and seeds.",
  "Tests cover one fake algorithm and a few strings.",
  "mbo/hash/hash.h mbo/hash/hash_types.h mbo/hash/hash_mangle.h", [("width fallbacks", "hash.h Hasher"), ("combine and fold", "hash.h"), ("rendering", "hash_types.h")], ["Hasher, GetHash*, CombineHashes"],
  ENUM + "all algorithm shapes x every length x seeds against the documented derivation; all single-bit changes of both combined words")
P("H06", "Hashes computed by the compiler equal those computed at run time",
  """Every offered hash, hash stream and derived width can be evaluated in a constant expression for every input and then gives
  the value it has at run time.""",
  "inputs", "All algorithms, lengths and seeds.", "The two evaluations take different code paths for loads; tests compare single strings.",
  "mbo/hash/hash_internal_util.h mbo/hash/hash.h mbo/hash/hash_mumbo.h mbo/hash/hash_xxh3.h mbo/hash/hash_tembo.h", [("constant-evaluated loads", "hash_internal_util.h")], ["constexpr tables"],
  ENUM + "compiler-evaluated tables of every length to 160 x seeds for every algorithm compared with run-time values")
P("H07", "Build-seeded hashes differ by one constant chosen only by version and flags",
  """The build-seeded hash is the deterministic hash combined reversibly with one constant per build. That constant is zero
  exactly when disabled, one fixed value when pinned, and otherwise one of at most the configured number of values, chosen
  by version and seed alone.""",
  "configurations inputs", "All versions, seed strings and bucket counts; all hashed inputs.",
  "The C++ tests see the single constant of their own build; the generator is not run by them.",
  "mbo/hash/hash_mangle.h mbo/hash/internal/hash_mangle_seed.bzl mbo/hash/hash.bzl", [("constant selection", "hash_mangle_seed.bzl"), ("masking", "hash_mangle.h")], ["generated header, GetHash"],
  ENUM + "the executed generator over a grid of versions x seeds x bucket counts against the documented selection; the mask over all lengths")
P("H08", "The hash command prints the canonical hash of exactly the data it was given",
  """For each algorithm it knows, the hash command prints one 64-bit canonical hash as 16 uppercase hex digits per datum: the
  second argument taken as it is, or else each line of standard input without its line end. Anything else, such as an unknown
  algorithm or a wrong number of arguments, exits 2 with a message and prints no hash.""",
  "inputs", "All arguments and all standard input.", "There is no test; the build's comparison covers 33 strings of three algorithms.",
  "mbo/hash/hash_tool.cc", [("command line", "hash_tool.cc")], ["standard output, standard error, exit code"],
  ENUM + "all argument vectors and line sequences of the bound, run in-process against the library's hashes")

# ---------------------------------------------------------------- types (basics)
P("T01", "Mixed-type comparisons order by numeric value, NaN included",
  """Comparing two scalars of any two arithmetic types orders them by their mathematical values, never by what a conversion
  would make of them; NaN equals NaN and has one fixed place in the order. The ordering object's less-than and three-way
  forms agree with each other and with the operands' own operators for every pair of values.""",
  "inputs", "All pairs of values of all pairs of scalar types.", "Conversions lose value only for particular pairs (sign, width, rounding); tests sample a few.",
  "mbo/types/compare.h", [("integral, float and mixed comparison", "CompareScalar and helpers"), ("ordering object", "CompareLess")], ["orderings"],
  ENUM + "all boundary values (every power of two with neighbours, all 8-bit values, float exponent/mantissa grid) for all 361 type pairs against exact arithmetic",
  "A bool compared with an integer compares as two bools, as documented.")
P("T02", "Reference and required wrappers behave as the object they wrap",
  """A reference wrapper always designates the object it was last bound to: assigning rebinds and never writes through, and
  comparison, hashing and conversion act on that object's value. A required wrapper always holds exactly one live object,
  whatever sequence of replacements it goes through, and compares and hashes as that object.""",
  "histories", "All sequences of binding, assignment, replacement and write-through.", "Lifetime and aliasing mistakes need particular sequences.",
  "mbo/types/ref_wrap.h mbo/types/required.h", [("rebinding and access", "RefWrap"), ("replacement", "Required::emplace")], ["values, addresses, live objects"],
  ENUM + "all operation sequences to depth 4-6 against a model, with every constructor and destructor call tracked",
  "Comparison is stated for totally ordered values; a wrapper treats an object as equal to itself even when it holds NaN.")
P("T03", "Compile-time searches and case selection give the documented answer",
  """For every predicate and range the linear search finds the first, the reverse search the last, the run search the end of
  the initial run of true values, the binary search the last true value of a monotone predicate, and each the given default
  when there is none. Case selection picks the first true case and reports its position.""",
  "inputs", "All predicates, ranges, defaults and case lists.", "Boundary ranges and non-monotone tables are not enumerated by tests.",
  "mbo/types/template_search.h mbo/types/cases.h mbo/types/internal/cases.h", [("searches", "template_search.h"), ("selection", "internal/cases.h")], ["constants"],
  ENUM + "all truth tables of five bits x all ranges, all thresholds to 40, all condition lists to length 7, evaluated by the compiler")
P("T04", "A struct becomes a tuple of exactly its own fields, in order",
  """For every supported aggregate the number of fields is counted exactly and the tuple made from it holds exactly those fields
  in declaration order: the same objects for an existing struct, moved values for a temporary. Empty bases do not take part,
  and types that cannot be taken apart are refused.""",
  "inputs configurations", "All aggregates of supported shape, on both compilers.", "Miscounts depend on the sequence of field types; tests name a few structs.",
  "mbo/types/tuple_extras.h mbo/types/internal/decompose_count.h mbo/types/internal/is_braces_constructible.h", [("field counting", "decompose_count.h"), ("binding", "DecomposeHelper::ToTuple")], ["tuple types and addresses"],
  ENUM + "all structs of up to two fields over 17 field kinds, three/four over reduced kinds, all field counts to 40, all empty-base combinations; by g++ and clang++",
  "Bases with fields and reference members are outside of what is offered. The size of a struct is limited by the compiler's template depth.")
P("T05", "Type predicates, overload sets and typed views say what is so",
  """Each type predicate is true for exactly the types its documentation names, a visitor built from alternatives calls the one
  that matches, and a typed view yields the same elements in the same order as the view it wraps.""",
  "inputs configurations", "All types (grid), all variants to a size, all view pipelines and contents to a size.", "Tests assert a handful of types per predicate; one predicate was never true.",
  "mbo/types/traits.h mbo/types/variant.h mbo/types/typed_view.h mbo/types/tuple.h", [("predicates", "traits.h"), ("visitor", "variant.h Overloaded"), ("wrapping view", "typed_view.h")], ["constants, elements"],
  ENUM + "a grid of 107 types x 24 predicates, all small variants, all contents of up to five elements x 14 pipelines; by g++ and clang++")

# ---------------------------------------------------------------- log
P("L01", "Log statements print exactly their line, and failing checks end the process",
  """A scoped log statement writes, when it ends, exactly one record: place, function, message and streamed text, to its target
  and nowhere else. A failed check always does so and then ends the process with status 1; a check that holds prints nothing,
  and no operand of the check macro's text is evaluated.""",
  "histories configurations", "All statement kinds, texts and sequences of statements.", "The tests run in one process and can assert neither exit status nor most configurations.",
  "mbo/log/scoped_stream.h mbo/log/scoped_log_check.h", [("record and exit", "~ScopedStream"), ("lazy check", "MBO_LOG_CHECK"), ("variant streamer", "ScopedLogCheck")], ["stdout, stderr, exit code of a child process"],
  ENUM + "every configuration x pieces x targets and all sequences of three statements, each run in a child process and compared byte for byte")
P("L02", "Demangling returns the readable name, or the name itself on failure",
  """Demangling gives the readable form of every name the runtime can demangle and the unchanged name otherwise, whatever way
  the runtime fails, without leaking or losing anything. Demangling a value names its dynamic type.""",
  "inputs fault_sequences", "All names; all ways the runtime demangler fails.", "Tests use five names and no failure other than an invalid name.",
  "mbo/log/demangle.cc mbo/log/demangle.h", [("fallback", "Demangle")], ["string"],
  ENUM + "all names over a mangling alphabet to a length x injected runtime failures, with allocation accounting")

P("L03", "A timing scope logs at most one right line, however it is moved or left",
  """A timing scope logs exactly one line when its last holder ends, if it lasted at least the minimum (its own or the flag's) or its severity reaches the flag's,
  and otherwise none, however often it is moved and however the scope is left. The line has the severity, file and line of the caller,
  the duration, the message, and the plain qualified name of the function, for any kind of function.""",
  "histories", "All combinations of limits and histories of moves; all shapes of function names.", "Tests log a few lines from one kind of function.",
  "mbo/log/log_timing.h mbo/log/log_timing.cc", [("logging", "Log"), ("names", "StripFunctionName")],
  ["log lines under a controlled clock"],
  ENUM + "all combinations of flag and own limits, severities and durations around the limits; all histories of 5-6 creations, moves and destructions over three holders; function names from a grammar of return types, scopes, names, parameters and suffixes, and real functions, with both compilers",
  "Not specified: names of functions returning function pointers, and of lambdas as GCC writes them.")
# ---------------------------------------------------------------- strings
P("S01", "Containment tests say yes exactly when the needle occurs",
  """A string contains a needle exactly when the needle occurs in it as a run of consecutive bytes, with the empty needle in every
  string, for strings with any bytes including zero, for single characters, at compile time and at run time.""",
  "inputs", "All haystacks and needles.", "Tests list examples.",
  "mbo/strings/contains.h", [("search", "Contains")], ["bool"],
  ENUM + "all haystacks to length 6-8 x all needles to length 4 over alphabets with NUL and 0xff, every byte at every position, compile-time tables")

# ---------------------------------------------------------------- container
P("C01", "A bounded vector behaves as the standard vector, element lifetimes included",
  """Below its capacity a bounded vector does what the standard vector does for every sequence of operations: the same elements,
  results, comparisons, and positions returned. Every element ever made is destroyed exactly once, no slot is read before it
  holds an element, and sources that are only to be copied stay unchanged.""",
  "histories", "All operation sequences.", "Lifetime and shifting mistakes need particular sequences, sizes and aliasing; tests use plain values.",
  "mbo/container/limited_vector.h", [("insertion and removal", "LimitedVector::insert, erase"), ("copies and moves", "operator=, swap, assign")], ["elements, positions, live objects"],
  ENUM + "all operation sequences to a depth from all small states, against std::vector, with every element's construction, move and destruction tracked")
P("C02", "Bounded sets and maps behave as the standard ordered ones for every history",
  """Below its capacity a bounded set or map does what the standard ordered container does for every sequence of operations: the
  same sorted unique elements, results, positions and lookups, for every order and every search strategy. Inserting a present
  key changes nothing, and every element made is destroyed exactly once.""",
  "histories configurations", "All operation sequences, orders, lookups and option combinations.",
  "Lookup has size-dependent search code, and erase/insert have aliasing and lifetime cases that tests sample.",
  "mbo/container/limited_set.h mbo/container/limited_map.h mbo/container/internal/limited_ordered.h mbo/container/limited_options.h",
  [("lookup", "limited_ordered.h index_of, lower_bound"), ("insertion, removal", "emplace, insert, erase, try_emplace"), ("construction", "sorted input options")],
  ["elements, positions, live objects"],
  ENUM + "all operation sequences to a depth against std::set/std::map with lifetimes tracked; all key subsets x all keys to capacity 40 for each search strategy, at compile time too",
  "Input that is declared sorted must be sorted and without duplicates, as its documentation asks.")
P("C03", "No use of a bounded container reaches outside of its elements or capacity",
  """Any use that would need more than the capacity or an element that is not there is refused before anything is written: by
  an exception where they are enabled, by ending the process otherwise. A container is unchanged and usable after an exception,
  and uses within the limits are never refused.""",
  "fault_sequences histories", "All over-limit uses from all sizes.", "A refusal ends the process, so tests cover a few by death tests and cannot see overwritten memory.",
  "mbo/container/limited_vector.h mbo/container/limited_set.h mbo/container/limited_map.h mbo/container/internal/limited_ordered.h mbo/config/require.h",
  [("capacity and access checks", "MBO_CONFIG_REQUIRE uses"), ("refusal", "require.h")], ["exit state, container content, guard bytes"],
  ENUM + "every operation at every size and position up to and past the limit, each in a child process, in the throwing and in the ending configuration",
  "A function that is declared not to throw ends the process in both configurations.")
P("C04", "A scan visits the elements of any container it wraps, once each, in order",
  """A type-erased scan over any container, lent or handed over, shows exactly that container's elements in its order, as often as it
  is iterated: the elements themselves, or their conversions. Iterators advance independently, are equal exactly when they
  stand at the same element, and a postfix increment yields the old position; nothing past the end can be read.""",
  "histories configurations", "All container kinds, contents, ownerships and iterator step sequences.", "Tests only loop once over each container and never compare two iterators.",
  "mbo/container/any_scan.h", [("ownership", "MakeAnyScanData"), ("iteration and comparison", "AnyScanImpl::iterator_impl")], ["elements, addresses, live objects"],
  ENUM + "all sequences of iterator steps, scan copies and drops to a depth over 14 container kinds x 8 scan/ownership kinds x sizes 0..3, element lifetimes tracked",
  "Copies of one iterator share their position, as input iterators may. Conversions have no identity, so two different converting iterators are only compared with the end.")
P("C05", "Converting a container copies every element and leaves a lent source as it was",
  """Converting one container into another passes every element, through the conversion function if there is one, exactly once and in
  order, by whatever insertion the target has. A source that was not handed over holds the same values afterwards; elements of
  one that was handed over may be moved but never lost.""",
  "inputs configurations", "All container pairs, contents and ways to pass source and function.", "Tests only use const or temporary sources.",
  "mbo/container/convert_container.h", [("conversion", "operator ContainerOut")], ["elements of source and target, live objects"],
  ENUM + "all contents to a length x 6 source kinds x 12 target kinds x 9 ways of passing, element lifetimes tracked")

# ---------------------------------------------------------------- strings (continued)
P("S02", "Quoted and escaped text parses to exactly what it denotes",
  """Parsing text yields what its quotes and C++ escape sequences denote up to the first unquoted stop, and leaves exactly the rest
  unread; malformed escapes and unterminated quotes are errors. A list has one element more than separators read, and stops
  wherever a single string stops other than at a separator.""",
  "inputs configurations", "All inputs under all option combinations.", "Tests use two dozen inputs and mostly default options.",
  "mbo/strings/parse.cc mbo/strings/parse.h", [("single string", "ParseString"), ("list", "ParseStringList"), ("escapes", "ParseOctal, ParseHex")], ["value, rest, error"],
  ENUM + "all inputs to length 4-6 over the significant characters under 864 option combinations, all escape bodies, all byte pairs, against a reference parser",
  "A numeric escape above 255 does not fit into a character; its value is not specified.")
P("S03", "Text is unindented, split and stripped of affixes and comments as documented",
  """Removing indent, prefixes, suffixes or comments, and splitting at the last separator, change exactly what the documentation says for
  any text, and keep every other character and every line break.""",
  "inputs", "All texts.", "Tests list examples.",
  "mbo/strings/indent.cc mbo/strings/split.h mbo/strings/strip.h mbo/strings/strip.cc", [("indent", "DropIndentAndSplit"), ("splitting", "AtLast"), ("comments", "StripComments, StripParsedComments")],
  ["text"], ENUM + "all texts to length 5-9 over the significant characters for every option, against reference implementations",
  "The plain comment form trims trailing space only where it removed a comment.")
P("S04", "Numbers are grouped in thousands and their length is predicted exactly",
  """For every value of every integer type the grouped representation has the right sign, digits and separators, and the predicted
  length is the length of that representation.""",
  "inputs", "All integers of all types.", "Tests sample.",
  "mbo/strings/numbers.h", [("length", "BigNumberLen"), ("representation", "BigNumber")], ["text, length"],
  ENUM + "all 8- and 16-bit values; for wider types all neighbours of powers of two and of all multiples of powers of ten")

# ---------------------------------------------------------------- mope
P("M01", "Templates expand to what their data and tags denote",
  """Expanding a template replaces every value, section, loop, list, comment and setting by what the documentation says for its data and
  keeps all other text as it is; inserted text is never expanded again. Expansion either succeeds with that text or is an error, and
  expanding again with the same template gives the same result.""",
  "inputs", "All templates and data.", "Tests expand about forty templates.",
  "mbo/mope/mope.cc mbo/mope/mope.h", [("expansion", "Template::ExpandInternal"), ("sections, loops and lists", "ExpandSectionTag"), ("tags", "FindAndConsumeTag")],
  ["expanded text, status"], ENUM + "all sequences of template pieces to length 4-5, all nestings, all short strings over the tag characters, all loop bounds near the limits, against a reference interpreter",
  "Value tags with an option or an empty setting are not documented; they are only checked not to crash.")
P("M02", "Template data is a tree that accepts exactly valid names and consistent kinds",
  """Values and sections can be added to any part of the template data in any order; each part handed out stays valid and separate. A name
  is accepted exactly if it is an identifier, is either a value or a list of sections, and a value changes only if that was asked
  for; refused calls change nothing.""",
  "histories", "All sequences of calls.", "Tests add a handful of values and never use an earlier section after adding another.",
  "mbo/mope/mope.h mbo/mope/mope.cc", [("sections", "AddSection"), ("values", "SetValue"), ("names", "IsValidName")], ["status, expansion, addresses"],
  ENUM + "all sequences of 4-5 calls on all parts handed out so far, followed by all probing templates; all names of up to two bytes")
P("M03", "The mope command fills templates from flags and INI groups",
  """The command's output is the template expanded with exactly the data its flags and INI groups describe: group names spell the path of
  sections, labels repeat a level, and flag values reach the section they name or are global. Whatever cannot be read, set, expanded
  or written is reported with exit code 1 and leaves the output unwritten.""",
  "inputs configurations", "All flag and INI combinations.", "Tests run a handful of files.",
  "mbo/mope/mope_main.cc mbo/mope/ini.cc mbo/file/ini/ini_file.cc", [("flags", "ApplySetFlag"), ("groups", "ReadIniToTemlate"), ("command", "Process")], ["output, generated file, exit code"],
  ENUM + "all sequences of INI groups and of flag values to length 3-4, all template and output files, run in-process against a model of the data")

# ---------------------------------------------------------------- file
P("F01", "Paths are normalized and joined without changing what they name",
  """Normalizing a path removes duplicate and trailing separators and dot components and nothing else, and does so once and for all. Joining
  puts the parts behind one another, where an absolute part is either just one more part or replaces everything before it.""",
  "inputs", "All paths and lists of parts.", "Tests use thirty examples without dot components.",
  "mbo/file/file.h mbo/file/file.cc", [("normalizing", "NormalizePath"), ("joining", "JoinPaths, JoinPathsRespectAbsolute")], ["path text"],
  ENUM + "all paths to length 8-9 over the significant characters, all lists of up to 4-5 parts, against a character-level reference",
  "Going up from an absolute part that is taken as relative is not specified.")
P("F02", "Reading and writing files is complete or an error",
  """A successful read returns every byte of the file, or exactly its first lines, and its time; a successful write leaves exactly the
  new content. Everything that prevents this, including errors and interruptions half way and paths that are no files, is reported
  as an error and never ends the process.""",
  "faults histories", "All outcomes of the system calls and all kinds of paths.", "Tests see one read error and no write error.",
  "mbo/file/file.cc mbo/file/artefact.cc", [("reading", "GetContents, GetMaxLines"), ("writing", "SetContents"), ("time", "GetMTime")], ["status, bytes, time"],
  "stateless enumeration of all answers of the environment: every sequence of short, interrupted, failing and ending transfers per call at every buffer boundary size; all histories of writes to two files; all kinds of paths; all short texts x line counts")
P("F03", "INI data is parsed as documented and survives being written",
  """Parsing text yields exactly the groups, keys and values it contains without comments and outer blanks, whatever the line endings.
  Setting a value changes that value only, every way to look at the data agrees, and writing and reading back yields the same
  data.""",
  "inputs histories", "All texts and sequences of changes.", "Tests parse one text.",
  "mbo/file/ini/ini_file.cc mbo/file/ini/ini_file.h", [("parser", "IniFile::Parse"), ("data", "SetKey, GetKeyOrStatus"), ("writing", "IniFile::Write")], ["groups, keys, values"],
  ENUM + "all texts to length 6-7 over the significant characters, all sequences of line forms, all sequences of changes, against a reference parser")
P("F04", "A glob expression matches exactly the paths the documented syntax describes",
  """Stars, recursive stars, question marks, ranges, character classes and escapes match what the syntax says and all other characters
  match themselves; an expression that is not valid is rejected. A single star and a question mark never match a
  slash. Splitting an expression gives its literal directory and an expression that matches the same paths below it.""",
  "inputs", "All expressions and all paths.", "Tests list some expressions.",
  "mbo/file/glob.cc mbo/file/glob.h", [("matcher", "Glob2Re2"), ("split", "GlobSplit")], ["which paths match"],
  ENUM + "all expressions to length 5-6 over the syntax characters, all sequences of larger parts, all ranges, each with hundreds of paths against a backtracking reference matcher")
P("F05", "Walking a directory visits exactly the matching entries, once each",
  """Whatever the tree, the way its root is spelled and the options, the callback gets each entry that matches once, with its depth,
  size and path (absolute or relative as asked for), and directories before their contents. Stop, do-not-recurse and errors of the
  callback act at that entry, and an error while reading a directory is returned and never lost or thrown.""",
  "trees, options, faults", "All trees, roots, actions and failures.", "Tests use one tree.",
  "mbo/file/glob.cc mbo/file/glob.h", [("walk", "Glob, GlobRe2"), ("entry", "GlobEntry")], ["visited entries and status"],
  ENUM + "all small trees of files, directories and links, with all root spellings and options, all actions at all entries, and all single failures of directory reads, against a model of the tree")
P("F06", "The glob command lists and sums up exactly the entries it is asked for",
  """For every tree, pattern and set of flags the command shows each matching entry once with the right size, type and depth, aligned
  and ordered unless it is asked to be fast; hidden files and all that is below hidden directories are left out on request. Summaries
  count what was found; errors are reported with a failing exit code.""",
  "trees, flags", "All trees, patterns and sets of flags.", "The command has no tests.",
  "mbo/file/glob_main.cc", [("filter and sums", "Entries::Add"), ("main", "main")], ["output, exit code"],
  ENUM + "the command run in-process over all small trees with 14 flag sets and 4 patterns, and over one rich tree with all 3000 flag sets and 6 ways to search, against a model")

# ---------------------------------------------------------------- diff
P("G01", "Every diff turns the left text into the right one, and the default is minimal",
  """For any two texts and every algorithm the difference is empty exactly when they are equal; applied to the left text it gives the right
  one, unchanged lines and positions included. The default algorithm finds as few changed lines as possible unless inputs
  are so big that its cost limit applies, and no text or size makes any algorithm fail or run without end.""",
  "inputs", "All pairs of texts, algorithms and context sizes.", "Tests and the fuzz test sample; a script that is valid but not minimal goes unnoticed.",
  "mbo/diff/impl/diff_myers.cc mbo/diff/impl/diff_naive.cc mbo/diff/impl/diff_direct.cc mbo/diff/internal/chunk.cc mbo/diff/base_diff.cc",
  [("shortest script", "DiffMyers"), ("resynchronizing", "DiffNaive"), ("chunks", "Chunk")], ["changed, kept and shown lines"],
  ENUM + "all pairs of texts to 5-6 lines over small line alphabets x algorithm x context, with an LCS reference for minimality; families of long inputs around the cost limit")
P("G02", "All output formats show the same changes in their standard form",
  """Unified, context, normal and side-by-side output of one comparison show exactly the same changes with the same line numbers, and each is
  byte for byte what its standard form is for these changes, the given context, headers and width, a missing last
  newline included.""",
  "inputs configurations", "All pairs of texts, contexts and widths.", "Tests list a few outputs.",
  "mbo/diff/internal/output.cc mbo/diff/internal/chunk.cc mbo/diff/internal/context.h", [("formats", "output.cc"), ("merging of changes", "Chunk::MoveDiffs, context")], ["output text"],
  ENUM + "all pairs of texts to 4-5 lines x every context to 5 x formats x widths, against reference formatters fed with the change script")
P("G03", "Ignore options hide exactly the differences they name",
  """Two lines are the same for a comparison exactly when they are equal after what the options ignore (case, kinds of space, comments, replaced
  patterns) is removed; hidden blank or matching changes are hidden exactly when whole changes consist of them. All other
  changes are still shown with the original lines.""",
  "inputs configurations", "All pairs of texts under all option sets.", "Tests use a few texts per option and no combinations.",
  "mbo/diff/internal/data.cc mbo/diff/base_diff.cc mbo/diff/internal/chunk.cc mbo/diff/diff_options.cc",
  [("line comparison", "Data"), ("hidden changes", "Chunk::OutputChunk")], ["shown changes"],
  ENUM + "all pairs of texts to 3 lines over lines that differ in the ignored aspects x all option pairs, against a reference that applies the documented rules")
P("G04", "The diff command does what its flags say and exits as diff does",
  """For every set of flags the command shows exactly the differences of the two files, or their first lines, under the options the flags name,
  with the documented defaults and file headers. It exits with 0 exactly for equal files, with 1 exactly for different ones, with 2
  unless it was given two files it can read, and with 2 or more for anything else that kept it from comparing.""",
  "inputs configurations", "All combinations of flags, files and failures.", "A script runs each algorithm and format once and few flags.",
  "mbo/diff/diff_main.cc mbo/diff/diff_options.cc mbo/diff/base_diff.cc", [("flags", "MakeDiffOptions"), ("exit codes", "Diff"), ("headers", "BaseDiff::FileHeaders")], ["output, exit code"],
  ENUM + "the command run in-process for all pairs (triples) of flag settings x algorithms x formats x text pairs against the library under independently composed options; all failures in child processes; all header settings against a reference")

# ---------------------------------------------------------------- stringify
P("T06", "Stringified values are valid JSON that denotes the value",
  """In the JSON modes the text for any struct, map or nesting of the supported kinds of field is valid JSON, and parsed back it has exactly the
  members, names, texts, numbers and structure of the value, without those that are null. Every string survives byte for byte and every
  number without loss.""",
  "inputs", "All values of a range of types, all short byte strings, all exponents.", "Tests list some outputs with plain text.",
  "mbo/types/stringify.h mbo/types/stringify.cc mbo/types/internal/struct_names_clang.h", [("fields", "StreamFieldsImpl"), ("values", "StreamValue"), ("escapes", "JsonEscape")],
  ["text"], ENUM + "all values in bounds of 24 types x 3 modes, all byte strings to length 2, all float exponents, through an independent strict parser; both compilers",
  "Containers of values whose output is disabled, and repeated keys, are not specified.")
P("T07", "Every option formats exactly the part it names, in every mode",
  """The text for a value is the one that follows from its structure and the options: each prefix, suffix, separator, indent, name, escape, length
  limit, replacement and suppression applies everywhere it names and nowhere else. ToString, Stream and options given by value or by
  reference agree.""",
  "inputs configurations", "All values of a range of types under all settings of each group of options.", "Tests list outputs for single options.",
  "mbo/types/stringify.h mbo/types/extender.h", [("options", "StringifyOptions"), ("formatting", "Stringify::StreamValue")],
  ["text"], ENUM + "all values in bounds of 24 types x (6 modes x root options; each of 20 pieces of punctuation; all field, key and value controls in combination; all byte pairs x escapes) against a reference formatter over plain trees; both compilers")
P("T08", "Options chosen for one field apply to that field alone",
  """Options a type chooses for a field format that field, and those chosen for what it holds format only that, however they are returned - complete
  or partial, by value or reference. Groups left open keep the surrounding options, and no other field or nested type is affected.""",
  "inputs configurations", "All pairs of changes on all fields in all return forms.", "Tests show some customized types.",
  "mbo/types/stringify.h mbo/types/optional_data_or_ref.h", [("choice", "StreamFieldCustom"), ("names", "StringifyWithFieldNames"), ("defaults", "WithAllRefs")],
  ["text"], ENUM + "8 fields x all pairs of 14 changes (outer, inner) x partial or complete x 4 return forms x 3 modes, and pairs of fields, against a reference formatter; both compilers",
  "Which of two differing options the keys of a container follow is not specified.")
P("T09", "Streaming with process wide options is safe under every schedule",
  """A value streamed is written completely in the options set last, in the default ones before any are set. When threads set options and stream at
  the same time, each output is whole and in options that some order of the calls explains, without unordered access to shared data or deadlock.""",
  "schedules histories", "All thread interleavings up to a preemption bound.", "Tests use one thread.",
  "mbo/types/stringify_ostream.cc mbo/types/stringify_ostream.h", [("current options", "GetStringifyForOstream"), ("setting", "SetStringifyOstreamOptions")],
  ["outputs, data races"], "stateless model checking of the real code under a controlled scheduler: all schedules of up to 3 threads to 2 (thorough 3) preemptions with switches at locks, allocations and writes; linearizability check and ThreadSanitizer as monitor on each; all histories of 4-5 calls")

P("T10", "Optional references hold what was given and order nothing first",
  """After any history of assigning, referring, emplacing, copying, moving and resetting, an optional reference or optional data-or-reference holds exactly
  the value, reference or nothing those operations describe; writes reach exactly the own or the referenced value, and every owned value is destroyed once.
  Nothing equals only nothing and orders before every value, values compare as themselves, and reading nothing ends the program.""",
  "histories", "All short histories over two objects and two foreign values.", "Tests walk one history with integers.",
  "mbo/types/optional_ref.h mbo/types/optional_data_or_ref.h", [("data or reference", "emplace"), ("references", "set_ref")],
  ["kind held, address and value through every accessor, live objects, comparisons"],
  ENUM + "all histories of 3 (thorough 4) steps over 21 operations on two objects in all starting states with tracked, const, move-only, string and integer values against a plain model, under AddressSanitizer; all pairs of states and values with every comparison operator",
  "An object made to refer to a value that another operation destroys is not specified; hashing is not claimed (it needs Abseil to hash nullopt).")
P("T11", "Compile time strings behave as the strings they spell",
  """For all contents, including zero and high bytes, a compile time string's size, iteration, substrings, prefix, suffix, search, comparison and concatenation
  results equal those of the run time string, and out of range positions give empty results. Equal contents are one type with one hash, however written.""",
  "inputs", "All strings over a small alphabet, all pairs.", "Tests instantiate a few strings.",
  "mbo/types/tstring.h", [("search", "rfind"), ("substrings", "substr")],
  ["every accessor, at compile and at run time, with both compilers"],
  ENUM + "all strings to length 4 against all strings to length 3 over two alphabets (one with the zero byte), all positions and counts to past the end, a string of all 256 bytes, against std::string")
P("T12", "Opaque values, container proxies and constants pass everything through",
  """Opaque pointers, values and containers, and proxies of containers, behave as the plain value or container in every operation they offer, for any history,
  also for types declared before their definition, destroying each element once; copies are independent and an opaque value is never empty.
  A never-destroyed constant holds exactly the value its arguments construct, in place, for ever.""",
  "histories", "All short histories on two objects.", "Tests push and pop a few elements.",
  "mbo/types/opaque.h mbo/types/container_proxy.h mbo/types/no_destruct.h", [("opaque value", "OpaqueValue"), ("proxy", "ContainerProxy"), ("constant", "NoDestruct")],
  ["elements by every accessor, live objects, comparisons, hashes"],
  ENUM + "all histories of 3-5 steps over 18 operations on two vectors, lists and deques as opaque container, held and uniquely held proxy, and over 12 operations on three opaque values, against plain containers under AddressSanitizer; all ways to construct constants",
  "Known finding: moved-from opaque values are empty. Opaque values (not containers or pointers) of incomplete types do not compile and are not covered.")
P("T13", "Extended types behave as the tuple of their fields",
  """Every value of an extended struct compares, in all operators and with plain structs and tuples of the same fields, exactly as the tuple of
  its fields does; equal values hash equal; and all ways to construct it or to print it give the same value and the same text. Each set of extenders offers exactly what it names.""",
  "inputs", "All pairs of field values and all sets of extenders.", "Tests compare a few pairs.",
  "mbo/types/extend.h mbo/types/extender.h mbo/types/internal/extend.h mbo/types/internal/extender.h", [("extension", "Extend"), ("comparison", "Comparable_")],
  ["results of all comparisons, hashes, texts"],
  ENUM + "all pairs of values from small domains for structs of 1, 2, 3, 5 and 6 fields, nested and with containers, compared with std::tuple; all subsets of the extenders; both compilers")
# ---------------------------------------------------------------- status and test support
P("U01", "Status builders extend exactly the message and keep everything else",
  """Whatever is streamed into a status builder in whatever order of calls, the resulting error has the original code and payloads, plus those
  set, and the original message with the streamed text behind it, in front of it or around it as chosen. A good status stays good, and moving a builder changes nothing.""",
  "histories", "All short sequences of builder operations.", "Tests write a few fixed expressions.",
  "mbo/status/status_builder.h mbo/status/status_builder.cc mbo/status/status.h", [("building", "operator Status")],
  ["code, message, payloads after every operation"],
  ENUM + "all sequences of up to 5 (thorough 6) of 8 builder operations in lvalue and rvalue form from 6 kinds of sources and all codes, against a plain model, reading the status after every operation",
  "What becomes of text streamed before its place is chosen is not specified.")
P("U02", "Error macros return the first error, once, from the right place",
  """The return-if-error, assign-or-return and move-to-or-return macros evaluate their expression exactly once, go on (with the value moved, not copied)
  exactly when it is good, and otherwise return exactly that error, extended by what is streamed, which is evaluated only then. They work in every surrounding:
  several in a scope, unbraced conditions, loops, switches, lambdas and around any names.""",
  "inputs", "All combinations of good and bad results at every site.", "Tests use one site at a time.",
  "mbo/status/status_macros.h mbo/status/status_builder.h", [("macros", "MBO_RETURN_IF_ERROR")],
  ["evaluation order and counts, returned status, values, copies"],
  ENUM + "all combinations of three results at up to four sites in each kind of surrounding, with both compilers, against the order of evaluation the text implies")
P("U03", "Test matchers and assertions accept exactly what they name",
  """The matchers for statuses, payloads, held values, element, key and value membership, transformed containers, texts and capacities match exactly the values
  described, alike when negated, kept, composed or explained. The status assertions fail - fatally or not, as named - exactly for errors, and give the value otherwise.""",
  "inputs", "All small subjects against all small expectations.", "Tests check a few matching and not matching values.",
  "mbo/testing/status.h mbo/testing/matchers.h", [("status matchers", "StatusIs"), ("transform", "WhenTransformedBy"), ("membership", "IsElementOf")],
  ["match result direct, negated, explained; reported failures"],
  ENUM + "all statuses over 4 codes, 3 messages and 4 payload sets against all expectations; all containers of up to 3 elements over 3 values against all expectations of the same size; all texts to length 5; assertions under a recording reporter; AddressSanitizer")

# ---------------------------------------------------------------- json
P("J01", "JSON values behave as trees under every sequence of operations",
  """After any sequence of assigning, copying, moving, adding, erasing, resizing and clearing, between values and their own parts, every
  JSON value is the tree those operations describe, and all ways to look at it agree. Copies are independent, moved-from values are
  null and usable, and nothing is ever written to standard output.""",
  "histories", "All short operation sequences on all nodes of small trees.", "Tests run a handful of straight sequences without aliasing.",
  "mbo/json/json.h", [("assignment", "CopyFrom"), ("copy", "CopyObject"), ("erasing", "erase"), ("views", "values_view")],
  ["kind, size, content through every accessor, order, serialized form"],
  ENUM + "all operation sequences to length 2 (thorough 3) over 27 operations x targets x sources from 9 starting trees, against a plain tree model, under AddressSanitizer",
  "Moving a value into its own part, and whether an unused source of emplace is moved from, are not specified.")
P("J02", "JSON values are totally ordered by content and keep the C++ values given",
  """A JSON value made from any supported C++ value, however passed, has its kind and exact value. Values of the same kind order by
  content - numbers mathematically across integer and floating point, objects by sorted properties whatever their history - and kinds
  order as null, array, bool, number, object, string.""",
  "inputs", "All pairs of a universe of values and C++ values.", "Tests compare some pairs of a kind and one object shape.",
  "mbo/json/json.h", [("order", "Json::Compare"), ("object order", "kJsonComparator"), ("conversion", "CopyFrom")],
  ["all comparison operators"], ENUM + "all pairs of 360 values with four histories each, all values against C++ values of 19 types, against exact arithmetic and lexicographic order")
P("J03", "Serialized JSON is valid and denotes the value",
  """In each mode the text of any object is valid JSON that parses back to the same properties, strings, numbers and structure, with no
  precision lost; a null root is an empty object. Compact and line modes stay on one line, pretty mode orders by name and indents.""",
  "inputs", "All trees, byte strings and numbers in bounds.", "Tests serialize two small documents with plain words.",
  "mbo/json/json.h mbo/types/stringify.h mbo/types/stringify.cc", [("serialize", "Json::Stream"), ("escape", "JsonEscape"), ("numbers", "JsonNumber")],
  ["text"], ENUM + "all trees to a size, all byte strings to length 2 as values and keys, all 16 bit integers, powers, 49k double patterns and 410k decimals x 3 modes, through an independent strict parser",
  "Numbers that JSON cannot express (infinity, NaN) become null; invalid UTF-8 is kept as is.")
P("J04", "Misusing a JSON value is refused without changing it",
  """Asking a value for something its kind does not have - elements, properties, iteration, a position out of range, another kind, or
  serialization of a non object - raises an error where errors are raised, and leaves the value as it was; what the kind has is not refused.""",
  "inputs", "All kinds under all accessors.", "Tests do not misuse values.",
  "mbo/json/json.h", [("kind change", "MakeType"), ("access", "operator[]")], ["error or not, value"],
  ENUM + "every kind of value under each of 45 accessors and positions, in the mode where failed requirements raise exceptions")

# ---------------------------------------------------------------- tools
P("P01", "Aligning markdown tables changes nothing but padding and settles",
  """Aligning the tables of a document leaves every line outside tables and every cell's text as they were and gives every table
  rows of equal width with its columns' pipes below each other and each column's alignment kept. Doing it again changes nothing, and
  the check mode fails exactly for files that alignment would change.""",
  "inputs", "All small documents: escaped pipes, code fences, indentation, line endings, alignment marks, uneven rows.", "Tests align a handful of documents.",
  "tools/align_markdown_tables.py", [("tables", "tools/align_markdown_tables.py")], ["text, exit status, files"],
  ENUM + "all header/delimiter pairs, all bodies of up to 3 rows over an alphabet of cells, all documents of up to 5 (thorough 6) lines over an alphabet of lines, all combinations of files and modes, through a reader of its own",
  "Header rows with another number of cells than the delimiter row and mixed indentation are not specified.")
P("P02", "Coverage gates count exactly the lines, functions and branches that count",
  """The coverage gate merges the records of a file, drops what markers and policy exclude, and fails exactly if a selected metric is below its
  limit, overall or for a category. For a change only the added lines count, whatever the change looks like. Grouping the
  sources by category keeps exactly the records selected.""",
  "inputs", "All small reports, policies, markers and changes.", "Tests use a few written reports and one change.",
  "tools/coverage.py tools/coverage_sources.py", [("gate", "tools/coverage.py"), ("categories", "tools/coverage_sources.py")], ["exit status, summary, output files"],
  ENUM + "all pairs of records of one or two files, all small policies, all marker placements in small sources and all small edits in a real git repository, against a direct count")
P("P03", "The source lints report exactly the rule they state",
  """The lints report every library without a test beside it, every target with a name other than the rules demand, every header no
  library claims, and every value that is asserted good and then read directly - with its position - and nothing else, in every package that is not generated or vendored.""",
  "inputs", "All small packages and sources.", "Tests lint a few written packages.",
  "tools/build_rules.py tools/check_cc_library_tested.py tools/check_cc_target_naming.py tools/check_headers_claimed.py tools/check_status_assert.py",
  [("rules", "tools/build_rules.py"), ("asserts", "tools/check_status_assert.py")], ["exit status, reports"],
  ENUM + "all packages of up to 3 rules over kinds, names, sources, dependencies and comments, all small directory trees, all sources of a few lines over an alphabet of statements, against the rule read from the model")
P("P04", "Old caches and reports are replaced by newer ones only, and pages show them",
  """Cache cleanup deletes every cache with the prefix but the newest, oldest first, and nothing else. A coverage report replaces
  another exactly if its event is not older. The overview lists the newest report of every target in order with its numbers and links, and a report page shows every category against its floor and target.""",
  "histories inputs", "All small sets of caches and reports in all orders.", "Tests use one set each.",
  "tools/cache_cleanup.py tools/coverage_index.py", [("caches", "tools/cache_cleanup.py"), ("pages", "tools/coverage_index.py")], ["ids deleted, exit status, pages"],
  ENUM + "all lists of up to 5 (thorough 6) caches over keys, times and ids, all pairs of reports over times, runs and attempts, all subsets of targets, all combinations of measured values and limits, pages read by a parser of their own")

# ---------------------------------------------------------------- build rules
P("B01", "A generated diff test passes exactly if its two files agree under its options",
  """A test declared with the diff rule passes exactly when the diff command reports no difference between the two files under
  the options the declaration gives; otherwise it fails, prints that diff and the declared failure message. Every attribute
  reaches the command with its value, whatever characters it has. It holds wherever the files are, source or generated, in
  this or another repository, whatever they are called, and however the test environment hands out its files; a file that
  cannot be found fails the test.""".replace("declaration gives; otherwise it fails, prints", "declaration gives, and else fails with"),
  "inputs", "All attribute values, file places and ways of finding files.", "The rule's own uses pass a handful of attributes over files of one package, in one way of finding them.",
  "mbo/diff/diff.bzl", [("rule and its generated script", "diff_test, _diff_test_impl"), ("options", "diff_main.cc")], ["exit code and output of the generated test"],
  ENUM + "all declarations of the bound, the rule's code evaluated from the tree by a small Bazel stand-in, its generated script run against the real diff command")
P("B02", "A generated digest test passes exactly if every file has its saved digest",
  """A test declared with the digest rule passes exactly when every mapped file exists and has its saved digest under the
  declared algorithm, whether saved in a companion file or inline, in any letter case. A changed or missing file, a digest of
  another algorithm, a damaged or empty digest, or a missing companion file fails it, whichever of several entries it is. A
  declaration with nothing to verify is refused.""",
  "inputs", "All sets of entries in all states of damage.", "A test of a test that should fail does not exist in the build; only passing uses do.",
  "mbo/digest/digest.bzl", [("rule and its generated script", "_verify_digest_test_impl"), ("verification", "digest_main.cc RunCheck, CheckStream")], ["exit code of the generated test"],
  ENUM + "all combinations of entries, algorithms and damage of the bound, the rule's code evaluated from the tree by a small Bazel stand-in, its script run against the real digest command")
P("B03", "The template rules expand each template with its own data into its own output",
  """Built with the template rule, each output is what the template command makes of the template of the same base name with
  the data file of that base name and the declared arguments, then formatted by the selected formatter if asked for; if the
  command or the formatter fails, so does the build. The test form passes exactly when every golden file equals that.
  Templates and outputs whose base names do not match up are refused.""",
  "inputs", "All sets of templates, data files, goldens and formatter places.", "The rules' own uses are five templates of one directory, none formatted.",
  "mbo/mope/mope.bzl", [("rule", "_mope_rule_impl"), ("test", "mope_test"), ("formatting", "_clang_format_impl")], ["generated files", "exit code of the generated tests"],
  ENUM + "all declarations of the bound, the rules' code evaluated from the tree by a small Bazel stand-in and their actions carried out with the real commands")
P("B04", "Build settings for exceptions and unrolling reach the code that is compiled",
  """For every combination of the two build settings, code compiled against the generated configuration header sees exactly
  the set values: whether violated requirements throw, and up to which capacity ordered containers unroll. Compiled without
  exception support, violated requirements never throw, whatever is set.""",
  "inputs", "All values of both settings.", "Tests run in one configuration.",
  "mbo/config/internal/config.bzl", [("generator", "config.bzl, config.h.in"), ("use", "config.h")], ["constants as compiled"],
  ENUM + "all settings of the bound, the generator's code evaluated from the tree and its header compiled with both compilers, with and without exceptions")
P("B05", "The build fails if its own hash of any compared input is not the library's",
  """The tests generated to compare the build-time hashes with the compiled ones pass on agreement, and a difference in any one
  hash digit of any one input, on either side, or a missing result, fails the test of that algorithm and no other. The compared inputs
  include every length from zero to nine bytes.""",
  "inputs", "All single differences of all compared inputs.", "That a comparison would fail is never tested.",
  "mbo/hash/internal/hash_bzl_verify.bzl", [("generated comparison", "hash_bzl_verify"), ("ports", "hash.bzl"), ("command", "hash_tool.cc")], ["exit codes of the generated tests"],
  ENUM + "all single differences of the bound, the rule's code evaluated from the tree, its tests run against the real commands")
P("P06", "A release is tagged only if all is in order and holds exactly the released tree",
  """The release script tags and pushes the given version, signed and with its changelog, and proposes the bump to the next patch version
  exactly if the work tree is the clean, current main branch, the version is numeric, equal to the declared and documented one and not yet used, and
  the release patch applies; otherwise no branch, tag or file changes anywhere. The archive is made only for the declared version and has every file
  of the patched tree but the development files, nothing else but its version, and leaves index and history alone.""",
  "states", "All states of repository, arguments and tools.", "There is no test; a release is tried once per version.",
  "tools/trigger_release.sh .github/workflows/release_prep.sh .github/workflows/bazelmod.patch", [("tagging and version bump", "trigger_release.sh"), ("archive", "release_prep.sh")], ["refs of work tree and origin", "tag and bump contents", "archive contents"],
  ENUM + "all repository states of the bound that deviate in up to two respects from one ready for release (three in thorough), the real scripts and git run in scratch repositories, and the archive of the tree itself")
P("P05", "The commit gates accept exactly what their rules allow",
  """A header passes if and only if its guard is the one its path demands, defined and named at its end; a workflow, if its
  final job needs every other job; the versions, if the declared one is the documented one; a test file, if it has no comparison macro and no matcher
  qualified in place; the lint target list, if it is exactly the tagged targets. Every offender is reported, and nothing else is.""",
  "inputs", "All small files.", "The gates have no tests of their own.",
  ".pre-commit/check_header_guards.py .pre-commit/check_done_gate.py .pre-commit/check_version.sh .pre-commit/check_clang_tidy_targets.sh tools/check_test_matchers.sh",
  [("gates", ".pre-commit/*, tools/check_test_matchers.sh")], ["exit status", "reports"],
  ENUM + "all headers, workflows, version pairs, test files and target lists over small alphabets of lines, the real scripts run on them")
P("P07", "The lint gate passes only files it could check with a fit tool and found clean",
  """The clang-tidy gate passes if and only if there is a compile database that has every given source, a tool that is new enough, and no finding and no
  file that fails to parse; then each given file but the excluded ones has been checked exactly once, tests apart with their own checks. The first
  usable tool in the documented order is used, and the format launcher hands all arguments and the result through.""",
  "inputs", "All sets of files, findings and installed tools.", "There is no test; it depends on what is installed.",
  "tools/clang_tidy.sh tools/clang_format.sh", [("gate", "clang_tidy.sh"), ("launcher", "clang_format.sh")], ["exit status", "calls of the tool", "output"],
  ENUM + "all sets of files with findings and parse errors, and all sets of installed tools and versions of the bound, with stand-ins for the tools that record their calls")
