"""The properties, in the order of properties.jsonl. Edited by hand; tools/catalog.py writes the files."""
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, quant, why, files, mech, observe, bounds, outside, over=("inputs",), state=(), assume=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), quant=quant, why=why, files=list(files),
                      mech=list(mech), observe=list(observe), bounds=bounds, outside=outside, state=list(state), assume=list(assume)))



P("P01", "Fixed-width numbers are big-endian two's complement of exactly their width",
  "Every 8- to 64-bit integer, signed or not, and every IEEE double is encoded as exactly its width in bytes, most significant first; decoding reads exactly that many bytes, succeeds on every input that has them, and yields the number spelled. "
  "Encoding then decoding and decoding then re-encoding are both the identity, bit for bit (NaN payloads included). Encodings of unsigned numbers order like the numbers.",
  "every value of every scalar type and every input",
  "The tests convert a few literals per type; byte order, sign extension and width have to be right for all of them.",
  ["src/prim.rs", "src/int.rs", "src/parse/mod.rs", "src/conv/target.rs"],
  [("scalar encoders and decoders", "src/prim.rs"), ("fixed-width reads", "src/parse/mod.rs (take_u8 .. take_f64)")],
  ["bytes written, value decoded, bytes left unread"],
  "u8 i8 u16 i16 u32 i32 u64 i64 f64 and (), through the types and the parsers' own readers: every value; inputs of 0..=width+2 arbitrary bytes on all three parsers.",
  "inputs longer than width+2 (a scalar reader looks at nothing but its own bytes; checked as bytes left).")

P("P02", "A range-restricted integer never decodes, holds or emits a number out of range",
  "Decoding a range-restricted integer accepts a carrier value exactly when the number it stands for lies within the declared range (ranges with a positive minimum store the offset from it), consumes exactly the carrier's width and re-encodes to the same bytes. Construction from a carrier value succeeds under exactly the same condition, and a value forced out of range is never written: encoding it panics instead. A range whose minimum exceeds its maximum holds no value at all; with invalid-range checking, handling one that also lies outside 31 bits panics.",
  "every carrier value, every input, a representative of every kind of range (whole, partial, single point, negative, positive minimum, 30/31-bit)",
  "Tests try a few values around one or two ranges; the accept/reject boundary is a statement over all carrier values.",
  ["src/int.rs", "src/error.rs"],
  [("range check and carrier encoding", "src/int.rs")],
  ["results of decoding, try_from_underlying and encoding"],
  "23 instantiations over u8, i8, u16, i16, u32, i32 carriers including u30 and i31, whole carriers, single points and both ends of the 31-bit range; every carrier value; inputs of 0..=width+1 arbitrary bytes on all three parsers; 8 instantiations for forced out-of-range values; 4 empty ranges; with and without overflow checks; 5 valid and 5 invalid ranges with invalid-range checking.",
  "other range bounds (const generic parameters: only the listed ones are compiled).",
  over=("inputs", "configurations"))

P("P03", "Conversions of range-restricted integers go by numeric value",
  "Converting any machine integer into a range-restricted integer succeeds exactly when the number lies in the declared range, and then reports that same number; converting back yields that number, or an error exactly when the target type cannot hold it. "
  "The minimum, maximum and default are the numbers declared (default: the number in range closest to zero), and comparison is comparison of the numbers.",
  "every value of every machine integer type, for every kind of range",
  "Tests convert a few numbers; ranges whose minimum is positive are stored as offsets, and every conversion has to account for it at every value.",
  ["src/int.rs", "src/error.rs"],
  [("conversions between stored and numeric value", "src/int.rs")],
  ["results of TryFrom/From conversions, try_from_i32, to_i32, MIN/MAX/default, comparisons"],
  "26 ranges over six carriers (10 with positive minimum, 7 single points, whole carriers, both ends of the 31-bit range), conversions from u8..u64, i8..i64, usize, isize, i32 over their whole ranges; conversions into the same types for 6 ranges; one known finding (plain-integer conversion of a range with positive minimum).",
  "other range bounds.",
  over=("inputs", "configurations"))

P("P04", "A range-restricted float is exactly a double within bounds, bit for bit",
  "Decoding a range-restricted float, and constructing one, succeeds exactly when the number is not NaN and lies between the bounds (inclusive); its 64 bits are then preserved in value and encoding. A value forced out of range is never reported as valid.",
  "all 2^64 bit patterns, several bound pairs (including infinities, signed zero and an empty interior)",
  "Tests try a few finite doubles; NaN payloads, infinities, signed zeros, denormals and boundary neighbours are what a comparison gets wrong.",
  ["src/float.rs", "src/error.rs"],
  [("float range check", "src/float.rs, src/error.rs")],
  ["results of decoding, conversions, validation and encoding"],
  "8 bound pairs, every 64-bit pattern, inputs of 0..=9 arbitrary bytes on all three parsers; conversion from every 32-bit float for 2 bound pairs.",
  "other bound pairs.")

P("P05", "Booleans, options and discriminants accept only their documented bytes",
  "A boolean is 0xff for true and 0x00 for false, an option is 0x00 for nothing or 0xff followed by its payload, and any other first byte is refused with an error naming that byte. A discriminant is accepted exactly when it is among the valid ones, of any supported width. What is accepted re-encodes to the bytes read.",
  "every input, every tag value, every set of valid tags within the bound",
  "Tests try the legal bytes and one illegal one; all 254 others, and longer tag types, must be refused and reported faithfully.",
  ["src/prim.rs", "src/parse/mod.rs", "src/adt.rs"],
  [("boolean and option codecs", "src/prim.rs"), ("tag validation", "src/parse/mod.rs (take_tagword), src/adt.rs")],
  ["decoding results, error contents, bytes left unread"],
  "booleans on 0..=2 bytes; options of u8, u16, bool, option and length-prefixed bytes on 0..=4 bytes; u8/u16/u32 discriminants on 0..=width+1 bytes against any set of up to 3 valid tags, in each form a set can be given; three parsers.",
  "sets given as hash sets (randomised hashing is outside the engine), larger tag sets.")

P("P06", "A parser never reads past its input or window, and a failed read is clean",
  "A read of n bytes succeeds exactly when n bytes remain before the innermost open window's end (or the end of the input), and then returns exactly the next n bytes of the input and advances by n. "
  "A refused read reports an error and leaves position and remaining count unchanged. Walked byte by byte (in any of an iterator's ways), a parser yields exactly the bytes that remain. No request size, however large, makes a parser panic, overflow or return bytes that are not there.",
  "every input, every reachable parser state (position and open windows), every request kind and every 64-bit request size",
  "The tests read a handful of literal inputs with sizes that fit; overflow of position + n and reads at window edges depend on all combinations of position, windows and size.",
  ["src/parse/mod.rs", "src/parse/buffer.rs", "src/internal/offset.rs", "src/internal/view.rs", "src/internal/stack.rs"],
  [("parsers consume through a bounded cursor", "src/parse/mod.rs"), ("index and frame arithmetic", "src/internal/offset.rs, src/internal/view.rs")],
  ["results of Parser::consume, consume_byte, take_*, skip and their effect on remainder() and offset()"],
  "inputs of 0..=4 bytes with up to 2 already open windows at any position (0..=9 bytes for the typed reads), then any single request, or any two requests from inputs of 0..=3 bytes; byte contents and request sizes are free over their whole range; all three parsers; with and without overflow checks. Thorough: 8 bytes, 3 windows, 2 requests.",
  "inputs longer than the bound (the code has no length-dependent branches other than comparisons with remainder and request size), request sequences longer than the bound from a state that shorter histories cannot reach.",
  over=("inputs", "histories"))

P("P07", "Context windows nest, bound every read, and close only when fully consumed",
  "A window of n bytes opens exactly when n bytes remain in the enclosing scope; while it is open nothing beyond it can be read. It closes exactly when all its bytes have been consumed, after which the enclosing bound is back in force; a refused open or close changes nothing.",
  "every history of opening, reading, skipping and closing; every window size; every input",
  "The tests open one or two well-formed windows; mis-sized, nested, early-closed or unopened windows are a space of histories.",
  ["src/parse/mod.rs", "src/internal/stack.rs", "src/internal/view.rs", "src/internal/offset.rs"],
  [("window stack with monotone targets", "src/internal/stack.rs"), ("slice frames", "src/internal/view.rs")],
  ["set_fit, enforce_target, remainder, consume"],
  "any state with up to 3 open windows over inputs of 0..=4 bytes followed by one operation; up to 2 windows and 2 operations over 0..=3 bytes; up to 1 window and 3 operations over 0..=2 bytes; arguments free over 64 bits; three parsers; a nesting scenario over 0..=6 bytes. Thorough: 6 bytes x 3 windows x 2 operations, 4 operations over 3 bytes.",
  "deeper nesting than 4 and longer histories not covered by the inductive single step.",
  over=("inputs", "histories"),
  state=[("window ends", "absolute ends of the open windows, innermost last", "src/internal/stack.rs, src/internal/view.rs")])

P("P08", "The three parsers are interchangeable",
  "Given the same input and the same sequence of operations, the cloning, memoizing and slicing parsers return the same results (values, success or failure) and leave the same bytes to be read, with the same windows open.",
  "every input and every sequence of parser operations",
  "Tests run one parser per literal; nothing compares them.",
  ["src/parse/mod.rs", "src/parse/buffer.rs", "src/internal/splitvec.rs", "src/internal/view.rs"],
  [("three implementations of the parser interface", "src/parse/mod.rs")],
  ["every Parser method on ByteParser, MemoParser and SliceParser in lock step"],
  "lock-step runs from the start of inputs of 0..=4 bytes for 1, 0..=3 for 2, 0..=1 for 3 operations, and from any common state with up to 3 windows over 0..=4 bytes for one operation (2 bytes for two); arguments free over 64 bits. Thorough: 3 operations over 3 bytes, 4 over 1 byte, two operations from states over 4 bytes.",
  "longer inputs and histories than the bound.",
  over=("inputs", "histories"))

P("P09", "A length prefix is the exact payload length and confines decoding to it",
  "A length-prefixed value is encoded as the exact byte length of its payload (8-bit, 16-bit or 30-bit, big-endian) followed by the payload; a payload whose length the prefix cannot express is refused, never truncated or wrapped. Decoding reads the prefix, lets the payload use exactly that many bytes, and fails if the payload needs more, leaves some unread, or the prefix claims more than there is.",
  "every payload length up to 2^64-1, every input, nested prefixes included",
  "Tests use short payloads under one prefix type; the limits of each prefix and mismatching claims are boundary conditions over all lengths.",
  ["src/dynamic.rs", "src/parse/mod.rs", "src/int.rs"],
  [("length prefix computation", "src/dynamic.rs (LenPref)"), ("window for the payload", "src/parse/mod.rs (set_fit, enforce_target)")],
  ["bytes written, results of decoding, bytes left unread"],
  "emission: a payload of any 64-bit length (ghost payload) for the three prefix types, three build configurations; real payloads of 0..=3 and of 127/128/255/256/257/65535/65536/70000-ish bytes with symbolic content at both ends; decoding: inputs of 0..=6/7/9 arbitrary bytes, six payload types, up to three nested prefixes, three parsers. Thorough: 40-byte inputs, 1 MiB payload.",
  "payload contents between the sampled big sizes (no content-dependent branch there).")

P("P10", "A value ahead of reserved bytes leaves exactly those bytes unread",
  "A value declared to be followed by K bytes of other fields takes everything in its scope except the last K bytes, fails when fewer than K bytes are there, and leaves exactly those K bytes to be read next. Encoding emits only the value itself.",
  "every input, every K within the bound, windows of any size",
  "Tests use one K and one input; remaining length below, at and just above K, inside a window, are the cases that matter.",
  ["src/dynamic.rs", "src/parse/mod.rs"],
  [("reservation window", "src/dynamic.rs (VPadded)")],
  ["decoding results and bytes left unread"],
  "K in {0,1,2,3,4,8}, inputs of 0..=6 arbitrary bytes, optionally inside a window of any 64-bit size, payloads: bytes, u8, u16, sequence, nullable, length-prefixed; three parsers.",
  "other K and longer inputs.")

P("P11", "Padding is exactly K zero bytes after the value",
  "A padded value is encoded as the value followed by exactly K zero bytes, and its reported length counts them. Decoding takes the value and then K bytes; under strict checking it refuses nonzero padding, otherwise it skips it, and it always fails if fewer than K bytes follow.",
  "every value, every input, strict and lenient configurations",
  "Tests cover one K with well-formed input.",
  ["src/schema.rs", "src/parse/mod.rs", "src/conv/target.rs"],
  [("padding codec", "src/schema.rs (Padded)")],
  ["bytes written, decoding results, bytes left unread"],
  "K in {0,1,2,3,8} over u8, u16, bool, nested padding and length-prefixed bytes; inputs of up to 10 arbitrary bytes, three parsers; build configurations default, strict padding, relaxed lengths, optimised length.",
  "other K and payload types; a payload that takes everything to the end of its scope cannot be followed by padding (documented upstream).",
  over=("inputs", "configurations"))

P("P12", "Natural numbers of any size round-trip in the shortest 7-bit groups",
  "A natural number is written as little-endian groups of 7 bits, every group but the last with its top bit set, in the least number of groups (one for zero); its estimated length is that number. Decoding reads groups up to and including the first without the top bit, yields the number they spell, and fails exactly when the input ends first.",
  "every natural number and every input within the bounds",
  "Tests try a few numbers; group boundaries (every multiple of 7 bits, every machine word size) and unterminated inputs are where this breaks.",
  ["src/zarith.rs", "src/parse/mod.rs"],
  [("zarith natural codec", "src/zarith.rs (N)"), ("self-terminating read", "src/parse/mod.rs (take_self_terminating)")],
  ["bytes written, estimate, value decoded, bytes left unread"],
  "encoding: every number up to 127 bits, and numbers around 128, 192, 256, 448 and 1024 bits with symbolic top and bottom; decoding: every input of 0..=17 bytes on all three parsers. Thorough: 150 to 400 bits.",
  "larger numbers; canonical form is not demanded of inputs (upstream accepts superfluous zero groups).")

P("P13", "Integers of any size and sign round-trip in the shortest signed groups",
  "An integer is written with its sign and 6 bits in the first byte and then little-endian 7-bit groups, every byte but the last with its top bit set, in the least number of bytes; its estimated length is that number. Decoding reads up to and including the first byte without the top bit, yields the signed number spelled, and fails exactly when the input ends first.",
  "every integer and every input within the bounds",
  "Tests try a few numbers; negative numbers at group boundaries and around powers of two are the hard cases.",
  ["src/zarith.rs", "src/parse/mod.rs"],
  [("zarith integer codec", "src/zarith.rs (Z)")],
  ["bytes written, estimate, value decoded, bytes left unread"],
  "encoding: every number of magnitude up to 127 bits and either sign, and magnitudes around 128, 192, 256, 448 and 1024 bits; decoding: every input of 0..=17 bytes on all three parsers. Thorough: 150 to 400 bits.",
  "larger numbers; negative zero and superfluous zero groups are accepted on input (upstream behaviour).")

P("P14", "Declared, estimated, counted and written lengths agree",
  "For every value of every encodable type, the length estimated beforehand, the length counted without storing, the count returned by writing and the number of bytes actually written are the same; a type's statically declared length, where there is one, is that number for every value. All ways of obtaining the bytes give the same bytes.",
  "every value of every family of encodable types, including generated records and enumerations",
  "Tests compare lengths for single literals; a wrong estimate corrupts length prefixes for exactly the values whose length it misjudges.",
  ["src/conv/len.rs", "src/conv/mod.rs", "src/conv/target.rs", "src/dynamic.rs", "src/schema.rs", "src/zarith.rs", "src/seq", "estimable_derive/src/lib.rs", "encode_derive/src/lib.rs"],
  [("static and dynamic length estimation", "src/conv/len.rs, estimable_derive"), ("writers return counts", "src/conv/mod.rs")],
  ["estimate, known and dynamic length, counting target, returned count, bytes"],
  "about 60 types: scalars, restricted numbers, options, nullable, fixed, length-prefixed (3 prefixes), padded, reserved, sequences (up to 3 elements, 3 kinds), boxed, zarith (up to 64 bits), derived structs (named, tuple, unit, generic) and enums; four build configurations.",
  "more than 3 elements or nested deeper than 3; types declared outside the library.",
  over=("inputs", "configurations"))

P("P15", "Every target receives the same bytes, appended in order",
  "Whatever is written through the writing interface, byte vectors, the strict builder, the memoizing builder and the hexadecimal target end up with exactly the bytes pushed, in order, after anything they already held, and the counting target counts exactly those. Finalizing, combining and converting builders changes no byte, and size announcements have no effect on content.",
  "every history of pushes, every target, every family of encodable values",
  "Tests write a few literals into vectors; divergence between targets shows only in particular sequences of pushes.",
  ["src/conv/target.rs", "src/builder/mod.rs", "src/builder/strict.rs", "src/builder/memo.rs", "src/hexstring.rs", "src/conv/mod.rs"],
  [("target implementations", "src/conv/target.rs, src/builder")],
  ["bytes held after a history of pushes; returned counts"],
  "any 3 pushes of any kind (single byte, array, slice of up to 3 bytes, resolve, announcement); all families of encodable values appended after 0..=2 bytes to each target; every builder constructor and conversion on up to 3 bytes. Thorough: 4 pushes.",
  "longer histories (state is the bytes already held).",
  over=("inputs", "histories"))

P("P16", "Counted sequences hold, decode and emit only a legal number of elements",
  "A sequence of exactly K elements decodes exactly K well-formed elements and leaves the rest unread; a sequence of at most K decodes until its scope ends and fails if more than K follow; an unbounded one decodes until its scope ends. A value that holds an illegal number of elements is never emitted, however it was built.",
  "every input, every construction history, within the bounds",
  "Tests decode one legal sequence; under- and over-filled sequences and elements cut at the edge are not exercised.",
  ["src/seq/mod.rs", "src/seq/fix.rs", "src/seq/lim.rs", "src/seq/boundedseq_impl.rs", "src/error.rs"],
  [("length limits", "src/seq/boundedseq_impl.rs, src/error.rs"), ("sequence codecs", "src/seq")],
  ["decoding results, elements, bytes left unread, refusal to encode"],
  "K in 0..=3, five element shapes (u8, u16, bool, option, length-prefixed), inputs of 0..=8 arbitrary bytes, three parsers; emission after each construction route with 0..=5 elements; dynamic and array-backed configurations. Thorough: inputs up to 14 bytes, K up to 8.",
  "element types of zero width (sequences of them never terminate or need a byte to start; excluded and noted in DESIGN.md).",
  over=("inputs", "histories", "configurations"))

P("P17", "Building, converting and walking a sequence keeps every element in order",
  "Collecting, extending, pushing, converting and iterating (forwards, backwards, by index, owned or borrowed) yield exactly the elements put in, in order. A bounded sequence never takes more elements than its capacity, however it is built.",
  "every history of collection operations and every element content within the bounds",
  "Tests collect one short iterator; capacity edges, misleading size hints and partial extension need all combinations.",
  ["src/seq/mod.rs", "src/seq/fix.rs", "src/seq/lim.rs", "src/seq/boundedseq_impl.rs", "src/prim.rs"],
  [("collection traits of the sequence types", "src/seq")],
  ["contents after each operation, results of pushes and conversions"],
  "up to 5 elements into capacity 0, 1 and 3, up to 4 into unbounded sequences, from vectors, arrays, slices and iterators with arbitrary size hints; both storage configurations. Thorough: 12 into 8.",
  "longer sequences.",
  over=("inputs", "histories", "configurations"))

P("P18", "Decoding untrusted bytes never panics, hangs or allocates out of proportion",
  "Decoding any type from any bytes with any parser, or asking a parser for any number of bytes, ends, and ends in a value or an error: no panic, no arithmetic overflow, no access out of bounds. Memory requested is bounded by the size of the input, not by lengths the input claims.",
  "every input within the bounds, for every family of decodable types",
  "Tests decode well-formed literals; hostile prefixes, truncated values and impossible lengths are exactly what they leave out.",
  ["src/parse/mod.rs", "src/dynamic.rs", "src/zarith.rs", "src/schema.rs", "src/seq", "src/prim.rs", "src/fixed.rs", "src/int.rs", "decode_derive/src/lib.rs"],
  [("all decoders", "src"), ("checked reads", "src/parse/mod.rs")],
  ["absence of panics, undefined behaviour and non-termination (found by the engine itself); allocation sizes"],
  "every two parser operations in a row with any 64-bit length; 53 type/configuration instances on inputs of 0..=3 to 0..=18 arbitrary bytes, three parsers and the one-call entry point; prefixes claiming any size in front of up to 4 bytes; single allocations above 16 KiB count as violations; overflow checks on and off. Thorough: records to 11 bytes.",
  "recursive types nested deeper than the inputs allow (stack depth); longer inputs.")

P("P19", "Hexadecimal text is read and printed faithfully",
  "A text is accepted as hexadecimal exactly when it has even length and consists of hexadecimal digits in either case; it then stands for the bytes spelled, and otherwise an error is reported, never a panic. Printing gives two lower-case digits per byte, in the layout asked for, and reads back to the same bytes, and decoding a value from hexadecimal text is decoding from those bytes.",
  "every text and every byte string within the bounds, through every conversion",
  "Tests read a few well-formed literals; multi-byte characters, signs, spaces and odd lengths are the failing inputs.",
  ["src/hexstring.rs", "src/parse/mod.rs"],
  [("hexadecimal reader and printers", "src/hexstring.rs")],
  ["results of every reading and printing conversion"],
  "ASCII texts of 0..=5 characters, texts of 0..=3 characters of any width, byte strings of 0..=3 bytes through every conversion; 6 layouts of 1..=2 bytes. Thorough: 8 ASCII characters, 4 general, 6 bytes.",
  "longer texts (processed pair by pair).",
  over=("inputs", "configurations"))

P("P20", "Comparing bytes with hexadecimal text agrees with reading the text",
  "Bytes equal a hexadecimal text exactly when the text reads as those bytes, whatever the case of its letters; a text that is not hexadecimal equals no bytes, and comparing never panics.",
  "every pair of bytes and text within the bounds",
  "Tests compare equal pairs; near misses of length, case and non-digits are not covered.",
  ["src/hexstring.rs"],
  [("comparison without conversion", "src/hexstring.rs (eq_hex)")],
  ["comparison results"],
  "byte strings of 0..=2 against ASCII texts of 0..=5 and general texts of 0..=3 characters. Thorough: 4 bytes against 9 / 5 characters.",
  "longer pairs.")

P("P21", "An enumeration without payload is exactly its declared tags",
  "Decoding reads a tag of the declared width and succeeds exactly for declared tags, giving the constructor declared with that tag; encoding writes that tag. Conversions between constructors, tags and their names agree with the declaration for every tag value, and undeclared tags are always refused.",
  "every tag value of the declared width, every input, several declarations",
  "Tests decode the declared tags of one enumeration; undeclared ones, gaps, extremes and declaration order are open.",
  ["src/adt.rs", "src/parse/mod.rs"],
  [("enumeration macro", "src/adt.rs (cstyle!)")],
  ["decoding results, tags, conversions, bytes written"],
  "6 enumerations (u8, u16, u32 tags; single, sparse, unsorted, extreme tags), every tag value, inputs of 0..=width+1 bytes, three parsers, overflow checks on and off.",
  "other declarations.",
  over=("inputs", "programs"))

P("P22", "A tagged union is its tag followed by exactly that constructor's payload",
  "Encoding writes the constructor's tag and then its payload; decoding reads the tag and then the payload declared for it, refuses undeclared tags, and re-encodes to the bytes read. Values are equal exactly when constructor and payload are, and equal values hash alike.",
  "every input and every value of several unions",
  "Tests decode one or two constructors; crossing a tag with another constructor's payload shape needs all of them.",
  ["src/adt.rs", "src/parse/mod.rs"],
  [("data enumeration macro", "src/adt.rs (data!)")],
  ["decoding results, bytes written, tags, equality and hash"],
  "3 unions with u8/u16 tags covering unit, tuple, record and nested payloads; inputs of 0..=5 arbitrary bytes, all tag values, three parsers. Thorough: 9 bytes.",
  "other declarations and longer payloads.",
  over=("inputs", "programs"))

P("P23", "A derived record is its fields in declaration order and nothing else",
  "Decoding a generated record gives exactly what decoding its fields one after the other gives on the same input: the same values, the same failures, the same bytes left unread. Encoding concatenates the fields' encodings in declaration order, and the declared length is the sum of theirs.",
  "every input, every shape of record within the bounds",
  "Tests derive two or three records; field order mix-ups are invisible unless fields of equal type differ in value.",
  ["decode_derive/src/lib.rs", "encode_derive/src/lib.rs", "estimable_derive/src/lib.rs"],
  [("derive macros", "decode_derive, encode_derive, estimable_derive")],
  ["decoding results, bytes written, bytes left unread, lengths"],
  "14 record shapes (named, tuple, unit, empty, wrapper, nested, reserved tail, 12 and 24 fields, field names that mean something elsewhere) on inputs of 0..=3 to 0..=25 arbitrary bytes, three parsers. Thorough: 12 bytes for the variable ones.",
  "other shapes of declarations.",
  over=("inputs", "programs"))

P("P24", "Finishing a parse reports exactly the unread input, window by window",
  "Finishing a parser always succeeds and reports exactly the unread suffix of the input, byte for byte; if windows are still open it is marked off by window, innermost first. What is left over counts as empty exactly when that suffix is empty, and its length is the suffix's. Appending leftovers moves them and keeps their order.",
  "every input, every parser state at the end of a parse",
  "Tests finish only parses that consumed everything or nothing.",
  ["src/parse/mod.rs", "src/parse/buffer.rs"],
  [("cleanup of each parser", "src/parse/mod.rs"), ("leftover state", "src/parse/mod.rs (cleanup)")],
  ["Parser::cleanup, LeftoverState::is_empty/append and the error it reports"],
  "every state with up to 2 windows over inputs of 0..=4 bytes, three parsers; all 64-bit and byte-sequence leftovers of up to 3 bytes for append. Thorough: 6 bytes, 3 windows.",
  "longer inputs.",
  over=("inputs", "histories"))

P("P25", "Opening, skipping and decoding a length prefix agree on what it spans",
  "Opening the window a length prefix announces succeeds exactly when the prefix is readable, legal and no longer than what follows; the window then spans exactly the announced bytes. Skipping a prefixed value succeeds exactly then too and moves past exactly prefix and payload, and skipping and decoding a prefixed value of arbitrary payload accept the same inputs and leave the same bytes.",
  "every input, parser state and prefix type within the bounds",
  "No test skips a value inside windows, at their edges or with an overlong claim.",
  ["src/parse/mod.rs", "src/dynamic.rs"],
  [("prefix processing combinators", "src/parse/mod.rs (process_prefix, skip_dynamic)")],
  ["results, position, remaining length and open windows"],
  "8-, 16- and 30-bit prefixes from any position with up to 2 open windows (1 for 30-bit) over 0..=4/4/6 bytes; skip against decode on 0..=6/8 bytes; chains of 3 values skipped or decoded inside an outer prefix; three parsers. Thorough: 7 bytes, 3 windows, chains in 6 bytes.",
  "longer inputs.",
  over=("inputs", "histories"))

P("P26", "Searching an encoded association list finds the first matching key",
  "Searching a list of fixed-width pairs for a key returns the value of the first pair with that key and leaves the position just after that pair; if no pair in scope matches, it reports so without having read beyond the scope. It agrees with decoding the whole list and searching that.",
  "every list content, key and scope within the bounds",
  "The tests search one literal list; duplicates, truncated last pairs and windows are not covered.",
  ["src/parse/mod.rs"],
  [("key-value search", "src/parse/mod.rs (fast_kv_search)")],
  ["result, position and bytes left unread"],
  "key/value widths (1,1), (2,1), (1,2), (1,0), (3,4) on inputs of 0..=3 to 0..=14 arbitrary bytes with up to one window; lists of up to 3 pairs compared with the decoded list. Thorough: 9 and 16 bytes, 2 windows.",
  "other widths, longer lists.",
  over=("inputs", "histories"))

P("P27", "Fixed-width byte strings and texts hold exactly their width, unchanged",
  "A fixed-width byte string or text decodes from exactly its width in bytes, holds those bytes unchanged and encodes to them; it can be made from a slice, vector, array or hexadecimal text exactly when that has the right length (and, for text, is well-formed). Comparison is comparison of the bytes.",
  "every content and every length around the declared width",
  "Tests use one width and one literal.",
  ["src/fixed.rs", "src/parse/mod.rs"],
  [("fixed-width codecs", "src/fixed.rs")],
  ["results of decoding and conversions, bytes, comparison"],
  "widths 0, 1, 3, 4, 20, 32 (byte strings and texts), inputs and arguments of 0..=width+2 bytes (texts: up to width+1), three parsers. Thorough: width 64.",
  "other widths; validation of long arbitrary texts.")

P("P28", "A nullable value is absent exactly when its scope is empty",
  "An absent value is encoded as no bytes and a present one as its own bytes. Decoding yields absence exactly when no bytes are left in scope, and otherwise exactly what decoding the content there yields.",
  "every input, scope and content within the bounds",
  "Tests decode one present and one absent value.",
  ["src/schema.rs"],
  [("nullable codec", "src/schema.rs (Nullable)")],
  ["decoding results, bytes written, bytes left unread, conversions"],
  "payloads u8, u16, bool, bytes, length-prefixed; inputs of 0..=4 arbitrary bytes, optionally in a window; under 8-bit prefixes; every conversion in and out; three parsers. Thorough: 8 bytes.",
  "longer inputs; a present value of zero width reads back as absent (inherent in the format).")

P("P29", "Unprefixed bytes and text take everything up to the end of their scope",
  "A byte string or text without a length of its own decodes to exactly the bytes from the current position to the end of the innermost scope, and leaves nothing of it unread. It is emitted as exactly those bytes; well-formed text comes back unchanged, and of ill-formed text only the malformed sequences are replaced.",
  "every input, position and scope within the bounds",
  "Tests decode from whole inputs only.",
  ["src/prim.rs", "src/parse/mod.rs"],
  [("remainder readers", "src/prim.rs")],
  ["decoded value, bytes left unread, bytes written"],
  "inputs of 0..=5 arbitrary bytes (text: 4) from any position with up to 2 windows, three parsers; texts of up to 4 characters. Thorough: 9 bytes, 3 windows.",
  "what a malformed sequence is replaced with (compared with what the standard library makes of it, not with a text of ours).",
  over=("inputs", "histories"))

P("P30", "The memoizing builder keeps bytes and segment boundaries",
  "Whatever is pushed, marked off, appended and finalized, the memoizing builder's bytes are exactly those pushed in order, and its segments are exactly those marked off; segments, concatenated, are the bytes. What it displays are those segments in order, before and after finalizing.",
  "every history of builder operations within the bounds",
  "Tests write one literal and look at one rendering.",
  ["src/builder/memo.rs", "src/builder/mod.rs", "src/internal/splitvec.rs"],
  [("segmenting builder", "src/builder/memo.rs")],
  ["bytes, segments and rendered text after each history"],
  "any starting builder and any 3 operations with symbolic bytes; rendered segments of any 4 operations; records of derived types. Thorough: 4 and 6 operations.",
  "longer histories.",
  over=("inputs", "histories"))

P("P31", "Wrapping values does not change how they compare, order and hash",
  "Two wrapped values (length-prefixed, padded, boxed, nullable, range-restricted, arbitrary-precision, byte string, hexadecimal, sequence) are equal exactly when their contents are, and order as their contents do, whichever comparison is used; equal values hash equally, and a value that lends its contents compares and hashes as they do. Enumeration members compare by declaration, and values of a tagged union are equal exactly when their encodings are, ordered by the declaration of their members and then by contents. A clone equals the original.",
  "every pair of contents within the bounds",
  "Tests compare a few equal pairs; a map or set keyed by these types needs the laws for all pairs.",
  ["src/adt.rs", "src/autobox.rs", "src/dynamic.rs", "src/fixed.rs", "src/int.rs", "src/schema.rs", "src/prim.rs"],
  [("comparison and hashing of wrappers", "src/*.rs (derived and hand-written PartialEq, Ord, Hash, Borrow)")],
  ["==, !=, <, >=, partial_cmp, cmp, the bytes fed to a hasher, borrow()"],
  "all pairs of 16-bit contents (8 wrappers), of doubles (4), of 30/31-bit and offset integers, of 16-bit naturals and integers, of byte strings and sequences of 0..=3 elements, of the members of an enumeration and a union.",
  "longer contents.")

P("P32", "A boxed value is its contents in every respect",
  "Encoding, decoding, the size estimate, the error on bad input and the amount consumed are those of the contents, so that self-referential types built with it decode back from their nested encoding. Every way in and out (construction, conversion from values and boxes, shared and mutable access, extraction) reaches the same contents, a clone has its own, and a box is shown as its contents are, whatever the format.",
  "every content and every input within the bounds",
  "Tests decode one list.",
  ["src/autobox.rs"],
  [("box codec and accessors", "src/autobox.rs")],
  ["bytes written, decoding results, accessors"],
  "lists of up to 3 and trees of up to 2x1 nodes with symbolic contents; every 32-bit content through every accessor; 7 content types on 0..=2 to 0..=5 arbitrary bytes, three parsers; 15 format specifications and sinks that give up after 0..=24 bytes.",
  "deeper recursion.")

P("P33", "A buffer hands out exactly the bytes asked for, or panics",
  "A request for a byte or a range within a buffer yields exactly those bytes; any other request, however large its numbers, panics and yields nothing. Cutting and splitting partition the buffer without losing, moving or changing a byte. A buffer made from bytes, hexadecimal or text holds exactly those bytes.",
  "every index and length (all 64-bit values), every content within the bounds",
  "Tests index within range; overflowing ranges are where a bounds check breaks, and an unchecked read past the end is undefined behaviour.",
  ["src/parse/buffer.rs"],
  [("checked and unchecked accessors", "src/parse/buffer.rs")],
  ["get_byte, get_slice, cut_first, split, take and their unchecked forms"],
  "buffers of 0..=5 symbolic bytes, every 64-bit index and length; with and without overflow checks. Thorough: 16 bytes.",
  "longer buffers; calling an unchecked form out of range (its contract forbids it).",
  over=("inputs", "configurations"))

P("P34", "Whole-input decoding treats leftovers as configured, and panics where it fails",
  "By default, decoding a whole input succeeds exactly when parsing it does, whatever is left unread, in windows or outside. With the complete-parse feature it additionally fails exactly when bytes are left unread, and then reports how many; a parse failure is still reported as one. The panicking forms return the same value where the fallible form succeeds and panic everywhere else.",
  "every input within the bounds, both configurations",
  "The feature is off in the tests; leftovers inside open windows are never tested.",
  ["src/conv/mod.rs", "src/parse/mod.rs", "src/conv/error.rs"],
  [("try_decode, decode, decode_memo", "src/conv/mod.rs"), ("cleanup and leftover report", "src/parse/mod.rs")],
  ["result of try_decode with each parser, decode, decode_memo"],
  "10 types (one of which leaves windows open) on inputs of 0..=2 to 0..=5 arbitrary bytes, three parsers, both configurations. Thorough: 8 bytes.",
  "longer inputs; a custom Decode implementation that closes windows it did not open.",
  over=("inputs", "configurations"))

P("P35", "A bounds check classifies every value by its position, for every pair of bounds",
  "For any value and any bounds, the check accepts exactly the values within the bounds (shifted to start at zero if the minimum is positive) and returns them unchanged; otherwise it says on which side they lie, whether the bounds themselves are contradictory, or whether the value does not fit the working type, and the numbers it reports are the ones given. NaN is within no bounds.",
  "all values and all pairs of bounds (symbolic, not only those some type declares)",
  "Types fix their bounds at compile time, so tests see a handful of pairs.",
  ["src/error.rs"],
  [("BoundsError::restrict, restrict_float", "src/error.rs")],
  ["the result and the numbers in the error"],
  "all values and bounds of i8 u8 i32 u32 i64 u64 values with i32/i64 bounds working in i64/i32; all doubles and floats with all pairs of double bounds.",
  "128-bit types.")

P("P36", "Decoding depends on nothing but the bytes it consumes",
  "If a self-delimiting type decodes from some input, it decodes to the same value from the consumed bytes alone and from the consumed bytes followed by anything else, consuming the same number; and from no proper prefix of them. Two values written one after the other are therefore read back one after the other.",
  "every input, every tail, every prefix within the bounds",
  "Tests decode one complete message at a time.",
  ["src/parse/mod.rs", "src/dynamic.rs", "src/adt.rs", "src/prim.rs", "src/int.rs", "src/zarith.rs", "src/schema.rs", "src/seq/mod.rs", "src/fixed.rs"],
  [("self-delimiting decoders", "src/*.rs")],
  ["value decoded and bytes left unread"],
  "24 types (records, unions and nested prefixes among them) on inputs of 0..=2 to 0..=9 arbitrary bytes, tails of 0..=2 arbitrary bytes, every proper prefix; pairs of 6 types in a row. Thorough: 6 to 8 bytes.",
  "longer inputs.")

P("P37", "What bytes decode to does not depend on the form they are handed over in",
  "A byte slice, vector, array, hexadecimal value or buffer with the same bytes decodes, with any parser, fallibly or not, to the same value. Text stands for its own bytes by default; with the implicit-hexadecimal feature it stands for the bytes it spells, and text that spells none is refused as such, never parsed.",
  "every content within the bounds, three configurations",
  "The features are off in the tests, which hand over literals in one form each.",
  ["src/conv/mod.rs", "src/parse/buffer.rs", "src/parse/mod.rs", "src/hexstring.rs"],
  [("input conversions", "src/parse/buffer.rs, src/conv/mod.rs")],
  ["result of try_decode, decode, decode_memo"],
  "5 types on 0..=4 arbitrary bytes in 9 forms; ASCII text of 0..=3 characters in 8 forms, with and without the implicit-hexadecimal feature. Thorough: 8 bytes, 6 and 5 characters.",
  "longer inputs; non-ASCII text.",
  over=("inputs", "configurations"))

P("P38", "A split vector is a list of segments",
  "Whatever is pushed, extended, split, cleft, concatenated and collected, a split vector's bytes are the segments' bytes in order, its length is their number, and iterating over its segments from the front, the back or both ends yields exactly the segments made, empty ones included. What was emptied by concatenation is empty and can be used again. Its text shows the segments; two are equal, ordered and hashed as equal exactly when bytes and segments are.",
  "every history of operations within the bounds",
  "Tests run a handful of fixed histories, forwards only.",
  ["src/internal/splitvec.rs"],
  [("segment bookkeeping", "src/internal/splitvec.rs")],
  ["bytes, length, spans (forwards, backwards, both, copied half way), parts, clone, text, comparison, hash"],
  "3 starts and any 2 operations (11 kinds, payloads of 0..=2 symbolic bytes). Thorough: 3 operations.",
  "longer histories.",
  over=("inputs", "histories"))

P("P39", "Whole messages are read, sized and rewritten as the format prescribes",
  "A message of types nested in types (records of unions of optional, prefixed, bounded, padded and restricted parts) decodes from exactly the inputs the documented format allows and ends where the format says; it is rewritten in canonical form, whose length is the one predicted and which decodes to the same message. A message built from values comes back unchanged through every builder and every parser.",
  "every input and every message within the bounds",
  "Tests decode one literal of each type; what breaks is the composition: windows within windows, prefixes of prefixes, ends that meet.",
  ["src/dynamic.rs", "src/adt.rs", "src/schema.rs", "src/seq/mod.rs", "src/seq/lim.rs", "src/seq/fix.rs", "src/zarith.rs", "src/int.rs", "src/parse/mod.rs",
   "encode_derive/src/lib.rs", "decode_derive/src/lib.rs", "estimable_derive/src/lib.rs"],
  [("composition of codecs", "src/*.rs"), ("reference reader", "/verif/harness/src/p39.rs")],
  ["decoding results, bytes left unread, bytes written, predicted lengths"],
  "two message types (12 codecs, nesting depth 6): all inputs of 0..=8 and 0..=10 bytes; inputs around well-formed messages of about 25 bytes with symbolic contents and misplaced lengths; messages of up to 2 operations and 2 actions; three parsers, three builders; with and without overflow checks and complete parsing. Thorough: 12 and 15 bytes, 3 actions.",
  "other message types, longer messages.",
  over=("inputs", "configurations"))

P("P40", "Errors report the true numbers and bytes",
  "When input runs out, the error names the amount asked for and, as the difference of limit and offset, the amount left in scope; when a window does not fit, the width asked for and the room there was; when one is closed early, the bytes unread. An illegal boolean, tag, padding or unending number is reported with exactly the bytes read (tags with the legal ones); a number, length or width out of bounds with itself and the bound it violates. The text of an error spells these numbers and bytes, and its chain of causes leads to the original error unchanged.",
  "every failing operation in every parser state, every offending input within the bounds",
  "Tests check that something fails, hardly ever what the error says; users debug malformed messages by these numbers.",
  ["src/parse/error.rs", "src/error.rs", "src/parse/mod.rs", "src/internal/offset.rs", "src/internal/view.rs", "src/adt.rs", "src/fixed.rs", "src/seq/fix.rs", "src/seq/lim.rs", "src/dynamic.rs", "src/int.rs", "src/schema.rs"],
  [("error construction", "src/parse/mod.rs, src/internal/offset.rs"), ("error types and their text", "src/parse/error.rs, src/error.rs")],
  ["fields of ParseError, WidthError, LengthError, BoundsError, TagError; their Display; causes (Error::source)"],
  "9 failing operations with any 64-bit amount in every state with up to 2 windows over inputs of 0..=4 bytes, three parsers; all bytes for tokens and tags of 1, 2 and 4 bytes; unending numbers of 0..=4 bytes; ranges of i16, u8 and doubles; sizes 0..=6 against 3, payloads around 255; texts with numbers of up to 3 digits and up to 3 symbolic bytes; causes up to 3 levels up, any numbers. Thorough: 7 bytes, 3 windows.",
  "the wording of messages; which of `exceeds window` and `exceeds buffer` is reported where both are true; errors of a conversion into an offset range when decoding (relative to the minimum).",
  over=("inputs", "histories"))

P("P41", "Numbers convert and print by value",
  "Converting a natural number or integer of arbitrary size into a machine type succeeds exactly when the value fits, and keeps it; what is put in is what is borrowed, taken out or converted back. Text forms of arbitrary-size and range-restricted numbers spell their value: in decimal, with a minus sign exactly when negative, no superfluous zeros, honouring width, sign and radix flags.",
  "every value within the bounds, into every machine integer type",
  "Conversions fail at the edges of 12 types; tests use a few small values.",
  ["src/zarith.rs", "src/int.rs"],
  [("conversions", "src/zarith.rs (try_from)"), ("text", "src/zarith.rs, src/int.rs (Display, Debug, radix formats)")],
  ["the converted value or refusal; printed text"],
  "numbers of 0..=4 32-bit digits (any contents) into u8..u64 and i8..i64; text of all 8-bit values in decimal and of one number of many digits; range-restricted numbers of one byte in 4 radices.",
  "the decimal text of larger symbolic values (decided for literals only); the digits num-bigint computes are its own.",
  over=("inputs",))

P("P42", "Containers hold exactly what they were given",
  "A byte string, hex string, builder, padded, prefixed or sequence value holds one content: every constructor takes it unchanged, every accessor, iterator, conversion, clone and encoder gives it back, a change through any mutable view is the only change seen through all others, and writing to a builder as to a file appends all of it.",
  "every content, constructor, mutable view and accessor within the bounds",
  "Dozens of small conversions that tests exercise one pair of at a time; what must hold is every pairing.",
  ["src/schema.rs", "src/hexstring.rs", "src/builder/strict.rs", "src/builder/memo.rs", "src/dynamic.rs", "src/adt.rs", "src/seq/mod.rs"],
  [("constructors, accessors, conversions", "src/schema.rs, src/hexstring.rs, src/builder/*.rs, src/dynamic.rs, src/seq/mod.rs")],
  ["contents through every accessor; bytes written"],
  "contents of 0..=3 symbolic bytes, and of 17, 300 and 8193 with symbolic ends; writes of 0, 2, 300 and 8193; each way in and out on 65573; one change at the start, middle or end, through each of 3 to 6 views; a read at any 64-bit index; 16-bit payloads and elements.",
  "other lengths; sequences of several changes.",
  over=("inputs",))

P("P43", "A byte string handed to a serializer is exactly its bytes",
  "With serde support on, serializing a byte string of either kind hands the serializer one byte string with exactly its content, and returns the serializer's own result or error.",
  "every content and every outcome of the serializer within the bounds",
  "No test serializes anything; the feature is off by default.",
  ["src/schema.rs", "src/fixed.rs"],
  [("Serialize", "src/schema.rs, src/fixed.rs (feature serde_impls)")],
  ["calls the serializer receives; result returned"],
  "contents of 0..=5 bytes and of 15 to 65573 with symbolic ends; fixed byte strings of 0, 1, 4, 20, 32, 65 and 300; any 32-bit result or error.",
  "what a particular serializer makes of it.",
  over=("inputs", "configurations"))

P("P44", "Showing a value shows its content",
  "Displaying a prefixed value or debug-printing a virtually padded one is displaying its content, formatting options included; debug-printing a prefixed value shows its payload with the payload's encoded length and the kind of prefix; sequences, padded values, union and enumeration members, byte strings, builders and parsers show what they hold; fixed-width text displays as its characters, undecodable bytes replaced, in the layout asked for.",
  "every content within the bounds, under every formatting option listed",
  "What users see when they debug a message; tests never look at it.",
  ["src/dynamic.rs", "src/fixed.rs", "src/adt.rs", "src/schema.rs", "src/seq/mod.rs", "src/builder/memo.rs", "src/parse/buffer.rs", "src/internal/view.rs", "src/internal/splitvec.rs"],
  [("Display, Debug", "src/dynamic.rs, src/fixed.rs, src/adt.rs, src/builder/memo.rs, src/parse/buffer.rs")],
  ["text produced"],
  "payloads of any 7-bit value under 6 formats; payload lengths 1, 8 and 261; texts of 4 bytes, two of them symbolic, in 4 layouts; builders, buffers and parsers of a few given contents.",
  "the wording around the content.",
  over=("inputs",))

P("P45", "An offset moves by exactly the step asked for, or not at all",
  "An offset tracker starts at 0, moves by exactly the step asked for when that stays within its limit and not at all otherwise, and reports the offset it had before. Its limit is the end of the innermost open window, or the absolute limit; a window opens exactly when it fits what is left, closes exactly when it is used up, and refusals report the true numbers. An index is the number it was made from.",
  "every limit, step and width of 64 bits, in every order of operations within the bound",
  "Tests walk a few small offsets; an overflow or a comparison the wrong way round shows only at the edges of the number range and in particular orders.",
  ["src/internal/offset.rs", "src/internal/stack.rs"],
  [("offset and window bookkeeping", "src/internal/offset.rs")],
  ["index, limit, remainder; results of advance, set_fit, test_target, enforce_target"],
  "every 64-bit absolute limit, step and width; any 5 operations (thorough: 6); exposed internals.",
  "longer histories (P06 and P07 take them through the parsers).",
  over=("inputs", "histories", "configurations"))

P("P46", "Whatever was encoded or decoded before leaves nothing behind",
  "What a value encodes to, what an input decodes to, and what a builder or parser made afresh does depend only on the value, the input and the operations on it: never on earlier encodings, decodings, searches or conversions, how many there were, how large, with which parser, whether they succeeded, were refused, or were given up with windows open.",
  "every history of uses within the bounds, every content of the last ones",
  "Each test starts afresh and makes a few calls; what is left over in a static, thread-local or reused buffer shows only after particular sequences.",
  ["src/parse/mod.rs", "src/conv/mod.rs", "src/dynamic.rs", "src/adt.rs", "src/autobox.rs", "src/zarith.rs", "src/hexstring.rs", "src/builder/memo.rs", "src/seq/lim.rs"],
  [("state shared between uses", "src/*.rs")],
  ["encodings, decoded values, lengths, refusals and parser positions after each history"],
  "20 uses with symbolic contents after 17 kinds of other uses (refused in the payload, at a tag, at the end of a window or of the input; given up; succeeding) 1, 2, 9, 70 or 300 times over, or in turn up to 140 times; after uses of 15 to 65573 bytes; any 2 uses in a row; the same use 5, 40 and 300 times; all three parsers, four configurations. Thorough: any 3 in a row, 5000 times over.",
  "several threads at once; histories through a panic.",
  over=("inputs", "histories", "configurations"))

P("P47", "The memoizing parser shows exactly the pieces it consumed",
  "After any history of consuming, skipping, windows and refusals, what a memoizing parser shows of itself are the bytes consumed so far, all of them, in order, one piece per operation that consumed any; nothing refused and nothing ahead of the position is shown.",
  "every history of operations within the bounds",
  "The record is printed to standard error, which no test reads.",
  ["src/parse/mod.rs", "src/internal/splitvec.rs"],
  [("memoizing parser", "src/parse/mod.rs")],
  ["the text printed to standard error, captured in the solver's run and in the native replay"],
  "inputs of 4 bytes (one symbolic), any 2 or 3 operations out of 9, refused ones among them; 6 derived readers on 17 bytes; up to 300 pieces, pieces of up to 2049 bytes. Thorough: any 4 operations on 5 bytes.",
  "whether and what is printed when a request is refused.",
  over=("histories",))

# what the far/long/deep harnesses add to each property's bounds
W = "15, 17, 32, 65, 128, 256, 257, 1025 and 8192"
L = "15, 17, 32, 65, 128, 256, 257, 1025, 8192 and 65573"
FAR = {
"P05": "Also: sets of 40 tags (u8) and 20 (u16, u32), every discriminant; an option far into a long input.",
"P06": f"Also: long inputs of {L} symbolic bytes with one open window at the edges, one request; a byte-by-byte walk through long inputs, and the ways of an iterator over 17, 260 and 1025; requests ending at, one past and far past the end; walks and terminated runs of up to 8192.",
"P07": f"Also: up to 70 nested windows over 150 bytes and one operation; rows of windows opened and closed; one window over {L} bytes.",
"P08": f"Also: one or two requests far into inputs of {L} bytes; 8 to 70 nested windows over 150 bytes; two reads of 13 widths from 0..=9 bytes.",
"P09": f"Also: decoding of payloads up to 65573 bytes under each prefix with the prefix right, short and past the end; 20 nested prefixes.",
"P10": "Also: K of 16, 64, 256, 300 on inputs of 0, K-1, K, K+1, K+17 and K+300 bytes; records with reserved tails of 40 and 300 bytes.",
"P11": "Also: padding of 16, 33, 64, 67, 257, 300 and 1031 bytes, default, strict and relaxed, with two bytes of it free.",
"P12": f"Also: decoding of up to 300 groups with symbolic ends; endless numbers over inputs of {L} bytes.",
"P13": f"Also: decoding of up to 300 groups with symbolic ends; endless numbers over inputs of {L} bytes.",
"P14": f"Also: byte strings of {L} bytes, sequences of up to 8192 elements and a long record; fixed widths of 17 to 1025 in 8 wrappers, arrays of up to 1025 elements of 14 types; default, optimised-length and array-backed.",
"P15": f"Also: pushes, conversions and writers on {W} bytes, each target on 65573; 40 pushes in a row. Text of up to 310 characters that begins or ends with a byte-order mark, NUL, space, line end, combining or 4-byte character, finalized as text.",
"P16": "Also: limits of 17, 256 and 300 with 0 to 600 elements on the wire, decoded and emitted, both storage configurations.",
"P17": f"Also: capacities 17 and 300 at, below and above the limit; unbounded sequences and byte strings of {L} elements; conversions from any number of elements around limits of 17, 300 and 1100; both storage configurations.",
"P18": f"Also: 9 types on inputs of {L} bytes; endless numbers, options and prefixes of up to 65573 bytes.",
"P19": f"Also: texts of {L} characters (symbolic at the ends and in the middle), with a stray digit, in every form; fixed byte strings of 65 and 300 printed.",
"P20": f"Also: byte strings of {W} bytes against their own text and one-character neighbours.",
"P21": "Also: declarations of 40 (u8) and 20 (u16) members, every tag.",
"P22": "Also: declarations of 20, 28 (16-bit tags) and 14 (32-bit tags) members, every tag; payloads of up to 8192 bytes.",
"P24": f"Also: long inputs ({L}) and 3 to 33 nested windows; appended leftovers of those lengths.",
"P25": f"Also: prefixes over {L} bytes, right, short and too long, widest prefixes over 65573; chains of 9, 17 and 70 values.",
"P26": "Also: lists of up to 300 entries; keys and values of (20,33) and (65,2).",
"P27": "Also: widths 20, 64, 256, 300 (constructors 33, 256, 300) at half, just below, at, just above and 256 above their size; texts of 17 and 65 bytes.",
"P28": f"Also: payloads of {L} bytes.",
"P29": f"Also: inputs and values of {L} bytes (text: ASCII beyond the first characters). Text with the same beginnings and ends, by every parser.",
"P30": "Also: 9, 17, 40 and 260 operations in a row; up to 40 segments, or segments of 40 bytes. One segment of 15 to 65573 bytes, marked off twice; 34 segments of which a third, half or all are empty; 17 to 8192 bytes added to an open segment at once.",
"P31": f"Also: contents of {W} bytes differing at the ends or in the middle, or in length; fixed byte strings of 20 and 64.",
"P32": f"Also: lists of 9, 17, 33 and 70 nodes and trees of 9, 17 and 80; contents of {L} bytes.",
"P33": f"Also: buffers of {W} bytes with any 64-bit index and length (single bytes: up to 1025); at and around the edges of 65573.",
"P34": f"Also: inputs of {L} bytes and deep windows left open, both configurations.",
"P40": "Also: operations at the far end and in 9 nested windows of inputs of 40, 300 and 70000 bytes; 11 to 2050 bytes of a number without an end; 12, 67, 300 bytes of padding; 20 and 12 legal tags.",
"P47": "Also: histories of up to 300 pieces, pieces of up to 2049 bytes, single bytes among them.",
"P36": "Also: 8 types whose encodings have 2 to 262 bytes, followed by long tails, and their long prefixes.",
"P37": f"Also: inputs of {L} bytes and their hexadecimal text in every form. Text that begins or ends with a byte-order mark, NUL, space, line end, combining or 4-byte character, in every form.",
"P38": "Also: 9, 17, 33 and 70 operations in a row; segments of 8192 bytes; buffers of 65573.",
}
for _p in PROPS:
    if _p["id"] in FAR:
        _p["bounds"] += " " + FAR[_p["id"]]
