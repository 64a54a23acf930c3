"""What each property is decided against (for DESIGN.md)."""
ORACLE = {
"P01": "shifts and masks over the value (`to_be`, `be` in harness/src/util.rs); the order statement compares the encodings of two symbolic values byte by byte.",
"P02": "the declared bounds as literals and 128-bit arithmetic on the decoded offset; a value out of bounds must be refused, one within bounds must come back.",
"P03": "comparison of i128/i64 images of the symbolic number with the literal bounds; every `From`/`TryFrom` pair the crate offers, all ten integer types.",
"P04": "IEEE comparison of the symbolic 64-bit pattern with the bounds, written over the bits (sign, magnitude, NaN test), not with the code's own operators; the engine encodes comparisons and arithmetic on doubles as bit-vector circuits (engine/src/fp.rs).",
"P05": "the documented byte values as literals: every one of the 256 bytes is one symbolic byte.",
"P06": "an array model of a parser (harness/src/model.rs: buffer, position, stack of window ends) driven through the same sequence of symbolic operations.",
"P07": "the same array model, restricted to opening and closing windows of symbolic 64-bit widths.",
"P08": "the three parsers against each other on the same symbolic operations, and the memoizing parser's record against the calls made.",
"P09": "the length of the payload counted independently (a ghost payload of symbolic 64-bit length for emission, so that prefix overflow is decided for all lengths), and the payload parsed from exactly that slice.",
"P10": "slicing the input by hand at `len - K`.",
"P11": "the value's own encoding followed by literal zeros; decoding compared with the value decoded from the front and a test of the next K bytes.",
"P12": "a reference writer/reader of 7-bit groups over `BigUint`'s own bytes; minimality is decided by the last group being nonzero.",
"P13": "the same with the sign bit and a six-bit first group.",
"P14": "four ways of asking for a length (declared, estimated, counted, written) compared with the number of bytes produced.",
"P15": "the bytes a `Vec<u8>` receives; every other target, and every anticipated length, must give the same bytes; the strict builder must panic exactly when more or fewer bytes come than promised.",
"P16": "the number of elements that fit counted by hand, element by element.",
"P17": "a plain `Vec` put through the same operations.",
"P18": "no oracle: the engine reports panics, overflow, out-of-bounds access, reaching `unreachable`, runaway loops (a step bound) and allocations above 16 KiB by a symbolic length. The same harnesses check that no more input is left than was given.",
"P19": "a digit table and pair-by-pair reading of the text; printing compared with the table.",
"P20": "comparison with the result of reading the text, P19's subject.",
"P21": "a `match` on the number read as a literal table of the tags declared.",
"P22": "tag and payload read one after the other by the scalar decoders, dispatch by a literal table.",
"P23": "the fields decoded one by one from the same input by a hand-written sequence, for values, failures and bytes left.",
"P24": "the array model's position and stack of window ends.",
"P25": "prefix read by hand, followed by skipping, opening a window, or decoding.",
"P26": "decoding the whole list and taking the first entry whose key matches.",
"P27": "arrays: width, order, and `from_utf8` of the standard library for the text.",
"P28": "the scope's length being zero, and the payload decoded on its own.",
"P29": "the scope's bytes, and for text `String::from_utf8`/`from_utf8_lossy` of the standard library on a concrete shape.",
"P30": "a list of segments recorded as they are written.",
"P31": "comparison, ordering and hashing of the contents themselves; hashing through a spy hasher that records every byte fed to it.",
"P32": "the contents' own codec, accessors and formatting; a spy value prints every setting of the formatter it is given.",
"P33": "an array and an index.",
"P34": "the parser driven by hand to the same point, and the number of bytes left.",
"P35": "comparison in 128 bits by the position of the value relative to both bounds.",
"P36": "two decodings of inputs that agree on the bytes consumed and differ arbitrarily behind them, or in front of them.",
"P37": "decoding the same bytes from every form of input the crate accepts.",
"P38": "a `Vec<Vec<u8>>` put through the same operations. The shapes are concrete on each path and the contents symbolic; as both sides move the same terms around, most comparisons are decided when the terms are built and few reach Z3.",
"P39": "a reader and a writer of the whole message format written from the format's description only (harness/src/p39.rs), using no decoder of the crate.",
"P40": "the numbers the situation determines: bytes asked for, bytes there, tags, bounds, widths, lengths.",
"P41": "the digits the number was made of; decimal text read back digit by digit.",
"P42": "the plain `Vec` the value was made from, changed in the same place.",
"P43": "a serializer that records the bytes it is handed and answers with a symbolic result.",
"P44": "the text of the content itself, from a payload that prints the formatting options it receives.",
"P45": "a list of targets and an offset, compared after every operation, all numbers symbolic.",
"P46": "for each use, its encoding written out byte by byte with symbolic contents; the same whatever came before.",
"P47": "the list of widths consumed, rendered from the input; pieces of nothing may or may not be shown.",
}
