#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the JSON stays well formed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

I = ["inputs"]
IH = ["inputs", "histories"]

p("C01", "Lead bytes are classified as RFC 8949 assigns them",
  "For every buffer and every reader position, peeking the type of the next element reports exactly the type RFC 8949 assigns to the byte at that position (including which of 0xe0..0xff are simple bytes, constants, floats or the break). The lead bytes that have no meaning (additional information 28 to 30 in every major type) and indefinite lengths on integers and tags are rejected with an error that carries that lead byte, an exhausted buffer is reported as missing data, and peeking consumes nothing.",
  I, "all 256 lead bytes at every reader position of every buffer",
  "the tests look at about a dozen lead bytes; the classification is a function of all 256 and is split over several tables",
  ["src/lowlevel/lead.rs", "src/types/mod.rs", "src/reader.rs"],
  [("major type / additional information tables", "src/lowlevel/lead.rs"), ("lead to Type", "src/types/mod.rs")],
  ["Reader::peek_type"])
p("C02", "Element headers are decoded exactly, with their encoding width",
  "For every buffer, a successful read of a positive, negative, scalar, byte, float, constant, boolean, null, undefined or tag returns precisely the number or bit pattern stored in the header bytes (immediate, or 1, 2, 4 or 8 bytes big endian) together with the encoding width used. The element is accepted exactly when the lead byte is of the requested type and the header bytes are all present.",
  I, "every header of every width and value, at every reader position",
  "tests read a handful of values, mostly of one width; there are 2^64 values per width and five widths",
  ["src/reader.rs", "src/lowlevel/header.rs", "src/lowlevel/lead.rs", "src/context.rs"],
  [("header assembly", "src/lowlevel/header.rs"), ("indirect value decoding", "src/reader.rs")],
  ["Reader::positive", "Reader::negative", "Reader::scalar", "Reader::byte", "Reader::float", "Reader::constant", "Reader::bool", "Reader::null", "Reader::undefined", "Reader::tag"])
p("C03", "Typed reads consume one element, and nothing when they refuse the type",
  "A successful read of a positive, negative, scalar, byte, float, constant, bool, null or undefined advances the reader by exactly the size of that element's header. When any typed read (these and bytes, text, array, map, tag) finds an element of another type it returns an error naming the type found, and the reader's position has not moved, so that the caller can read the element as something else.",
  IH, "every typed read at every position, on every lead byte",
  "tests never look at the position after a refused read, and check the position after a successful one for a few widths only",
  ["src/reader.rs", "src/context.rs"],
  [("peek header, check type, then advance", "src/reader.rs")],
  ["Reader::consumed_bytes", "Reader::remaining_bytes", "ReaderError::WrongExpectedType", "ReaderError::WrongExpectedTypes"])
p("C04", "Writer emits each header with exactly the encoding its value carries",
  "For every value that a reader or a constructor can produce, writing a positive, negative, scalar, byte, constant, bool, float or tag header, or the start of an array or map, appends exactly the RFC 8949 bytes: the major type with the immediate value, or with the 1, 2, 4 or 8 byte big endian argument of the width the value carries. It appends nothing else, and never re-encodes a non canonical width into a shorter one.",
  I, "every value of every width of every element type",
  "tests write a few canonical values; the exact 1-1 guarantee is about every width, in particular the non canonical ones",
  ["src/writer.rs", "src/lowlevel/header.rs", "src/lowlevel/lead.rs"],
  [("header emission", "src/writer.rs")],
  ["Writer::positive", "Writer::negative", "Writer::scalar", "Writer::byte", "Writer::constant", "Writer::bool", "Writer::float", "Writer::tag_build", "Writer::array_build", "Writer::map_build"])
p("C05", "Canonical constructors use the shortest form and keep the value",
  "For every number, the canonical constructors of positives, negatives, scalars, tags, simple bytes and structure lengths, and the constructors of bytes and text from slices, strings and vectors, choose the shortest header that can hold the number, and reading the number back from the constructed value gives the same number. The canonicity predicates are true exactly for values in that shortest form.",
  I, "all u64 numbers, all u8 bytes, all five widths",
  "tests do not touch the width boundaries (23/24, 255/256, 65535/65536, 2^32) or the immediate/constant boundary of simple bytes",
  ["src/lowlevel/header.rs", "src/types/scalar.rs", "src/types/structure.rs", "src/types/streamable.rs"],
  [("canonical width selection", "src/lowlevel/header.rs")],
  ["Positive::canonical", "Negative::canonical", "Scalar::canonical_positive", "Scalar::canonical_negative", "TagValue::from_u64", "Byte::canonical", "StructureLength::from", "Bytes::from_slice", "Text::from_str", "is_canonical"])
p("C06", "Byte and text strings are read exactly, chunk by chunk",
  "For every buffer on which reading bytes or text succeeds, the value returned holds, in order, each chunk's header width and each chunk's content as found in the buffer, so that re-emitting headers and contents (with the indefinite start and the break when chunked) gives back exactly the bytes the reader advanced over. Declared lengths equal content lengths, only definite chunks of the same type are accepted inside an indefinite string, and the break ends it.",
  I, "every buffer, any number of chunks of any length, every header width",
  "tests read a few strings with one or two chunks; the claim is about any number of chunks and all widths",
  ["src/reader.rs", "src/types/streamable.rs", "src/context.rs"],
  [("Reader::bytes / Reader::text chunk loops", "src/reader.rs")],
  ["Reader::bytes", "Reader::text"])
p("C07", "Text is always valid UTF-8, checked chunk by chunk",
  "Every text value obtained from untrusted bytes, including each chunk of an indefinite text separately, has passed UTF-8 validation of exactly its own bytes; a chunk that is not valid UTF-8 makes the read fail with a UTF-8 error. No safe entry point can turn unvalidated bytes into text.",
  I, "every buffer and every chunk",
  "no test reads invalid UTF-8; one unchecked conversion on one path would be undefined behaviour for some inputs only",
  ["src/reader.rs", "src/types/streamable.rs"],
  [("from_utf8 before a text chunk is built", "src/reader.rs")],
  ["Reader::text", "ReaderError::TextUTF8Error"])
p("C08", "Writer emits byte and text strings exactly as represented",
  "For every bytes or text value, writing it appends exactly its own header width followed by the content for an immediate string, and the indefinite start, each chunk's own header and content in order, then one break, for a chunked one. Nothing is merged, split, re-encoded or dropped, whatever the number of chunks.",
  I, "every value, any number of chunks",
  "tests write a couple of short strings",
  ["src/writer.rs"], [("Writer::bytes / Writer::text", "src/writer.rs")],
  ["Writer::bytes", "Writer::text"])
p("C09", "Arrays, maps and tags are split into slices that tile the input",
  "For every buffer on which reading an array, a map or a tag succeeds, the element slices (keys and values alternating) are consecutive sub-slices of the buffer that start right after the header and end where the reader now stands (just before the break when indefinite), with nothing skipped, repeated or overlapping. Their number equals the declared length, or for an indefinite structure extends to the first break at that level, and the length encoding found is kept.",
  I, "every buffer, any nesting, any number of elements, all header widths",
  "tests use a few small arrays; tiling must hold for any number of elements of any shape",
  ["src/reader.rs", "src/context.rs", "src/types/structure.rs"],
  [("item skipping and slice_from", "src/reader.rs")],
  ["Reader::array", "Reader::map", "Reader::tag"])
p("C10", "Writer emits arrays, maps and tags exactly as represented",
  "For every array, map or tag value, and for the closure based builders, the writer appends the structure's own header, then every element (key then value) unchanged and in order, then one break exactly when the length is indefinite. Nothing else is appended.",
  I, "every structure value, any number of elements",
  "tests write small definite arrays",
  ["src/writer.rs"], [("Writer::array/map/tag and *_build", "src/writer.rs")],
  ["Writer::array", "Writer::map", "Writer::tag", "Writer::array_build", "Writer::map_build", "Writer::tag_build"])
p("C11", "The validator accepts exactly the well-formed CBOR items",
  "For every buffer, asking the validator for the next item succeeds exactly when a well-formed CBOR item (RFC 8949 appendix C, with chunks limited to definite strings of the same type, complete key/value pairs in maps, and any value in the two byte form of a simple value, which is this library's byte) starts at the current position, and then returns precisely the bytes of that item and its length, whatever earlier calls answered. It fails on everything else: misplaced breaks, wrong or nested chunks, odd indefinite maps, unfinished structures, reserved lead bytes, truncated headers or contents.",
  I, "every buffer, any nesting depth",
  "tests validate about ten inputs; the language is infinite and the pushdown automaton has unbounded state",
  ["src/validate.rs", "src/state.rs", "src/lowlevel/lead.rs", "src/lowlevel/header.rs"],
  [("pushdown automaton", "src/state.rs"), ("Validator::next", "src/validate.rs")],
  ["Validator::next"],
  [("State.ctx", "stack of open structures", "src/state.rs")])
p("C12", "The reader's notion of one element is the validator's",
  "Each element slice that reading an array, map or tag produces, and each slice taken as exactly decodable, is exactly one well-formed CBOR item in the same sense as the validator's: the reader and the validator agree on where every item ends and on which items are rejected. A definite count of n is never satisfied by fewer or more items.",
  I, "every buffer, any nesting depth",
  "two implementations must agree on all inputs; tests compare none",
  ["src/reader.rs", "src/validate.rs", "src/state.rs"],
  [("cbor_slice_neutral", "src/reader.rs"), ("Validator::next", "src/validate.rs")],
  ["Reader::array", "Reader::map", "Reader::tag", "Reader::exact_decodable_slice"])
p("C13", "Reading untrusted bytes never panics",
  "For every buffer (empty included) and every sequence of calls of reader operations, whether earlier calls succeeded or failed, no operation panics, overflows, or indexes out of bounds.",
  IH, "every buffer, every declared length up to 2^64-1, every sequence of reader calls",
  "tests only read valid inputs; the panics are behind extreme lengths, truncated inputs and calls made after an error",
  ["src/reader.rs", "src/context.rs", "src/state.rs", "src/lowlevel/header.rs", "src/lowlevel/lead.rs"],
  [("bounds checks before indexing", "src/context.rs"), ("non-reducible stack invariant", "src/state.rs")],
  ["Reader (all public methods)"])
p("C14", "The validator and the CBOR state machine never panic",
  "For every buffer and every sequence of validator calls, and for every sequence of events and declared lengths given to the public state machine, also after it has returned an error, no call panics or overflows.",
  IH, "every buffer; every sequence of state machine events with any lengths",
  "tests drive nine fixed event sequences; the internal assertions depend on the whole history",
  ["src/validate.rs", "src/state.rs"],
  [("assert_ne! guarded by check_reduce", "src/state.rs")],
  ["Validator::next", "State (all public methods)"])
p("C15", "Decoding into the provided types never panics",
  "For every buffer, decoding it into any of the types the library provides (integers, bool, strings, byte vectors and arrays, scalars, generic data, tagged types, typed handles, vectors of decodable elements) returns a value or an error and never panics or overflows.",
  I, "every buffer, every provided Decode implementation",
  "tests decode valid inputs only",
  ["src/decode.rs", "src/tagged.rs", "src/prim.rs", "src/lib.rs"],
  [("Decode implementations", "src/decode.rs")],
  ["decode_from_bytes", "Decode::decode"])
p("C16", "Writing any value the library built never panics",
  "For every value obtained from a reader, a decoder, or a constructor of the library, and for every state of the writer, encoding the value does not panic; in particular the immediate forms a reader or constructor produces are always ones the writer can emit, and the length recorded in a rational number is always one it can write.",
  I, "every library-built value",
  "tests write a few values; the writer's assertions depend on how the value was constructed elsewhere",
  ["src/writer.rs", "src/lowlevel/lead.rs", "src/tagged.rs"],
  [("assertions on immediates", "src/lowlevel/lead.rs")],
  ["Writer (all public methods)", "Encode::encode"])
p("C17", "Reading always progresses and never recurses",
  "Every loop that processes untrusted bytes consumes at least one byte of the buffer per iteration (or removes one already consumed element), so reading, validating and decoding end for every buffer. The stack depth used does not depend on the buffer: no function of the reading, validating or writing paths is recursive.",
  I, "every buffer, any declared length and nesting depth",
  "non termination and stack overflow show only on adversarial buffers (huge counts of empty elements, deep nesting)",
  ["src/reader.rs", "src/validate.rs", "src/state.rs"],
  [("loops over the input", "src/reader.rs")],
  ["Reader", "Validator::next", "decode_vec"])
p("C18", "Memory is never reserved from an unverified declared length",
  "For every buffer, no allocation made while reading, validating or decoding is sized by a number declared in the buffer: everything reserved or pushed is bounded by elements or bytes actually present in the buffer.",
  I, "every declared length, up to 2^64-1",
  "an 9 byte input declaring 2^60 elements aborts the process; tests declare only true lengths",
  ["src/reader.rs", "src/decode.rs", "src/types/structure.rs"],
  [("vectors grown by push", "src/reader.rs")],
  ["Reader::array", "Reader::map", "Reader::bytes", "Reader::text", "decode_vec"])
p("C19", "Missing data is reported with exact byte counts",
  "For every truncated buffer, the missing data error of a reader or validator states how many bytes were expected for the part being read (lead byte, header argument, content) and how many of these are present; the error is given only when fewer are present than expected, and never claims more present than there are.",
  I, "every truncation of every element",
  "tests check three truncations",
  ["src/context.rs", "src/reader.rs", "src/validate.rs"],
  [("CborDataReader::peek", "src/context.rs")],
  ["ReaderError::DataMissing", "ValidateError::DataMissing"])
p("C20", "Reader position accounting is exact and monotonic",
  "At every moment of every sequence of reads, consumed bytes plus remaining bytes equals the buffer length, the consumed count never decreases, and being finished means exactly that nothing remains. Expecting the end succeeds exactly then, and otherwise reports the true position, the true number of remaining bytes and the byte at that position.",
  IH, "every buffer and every sequence of reader calls, including failed ones",
  "tests look at the position only after complete successful reads",
  ["src/reader.rs", "src/context.rs"],
  [("index into the buffer", "src/context.rs")],
  ["Reader::consumed_bytes", "Reader::remaining_bytes", "Reader::is_finished", "Reader::expect_finished"])
p("C21", "Whole-input decoders refuse trailing data",
  "For every decodable type and every buffer, the entry points that decode a complete input (from bytes, one value from a reader, from a validated slice or owned data, retyping a validated slice or data, and reading or decoding a tag's content) return a value only if decoding succeeded and consumed the whole input; otherwise they return an error.",
  ["inputs", "programs"], "every decodable type, every buffer, every amount of trailing data",
  "tests decode exact inputs only; each entry point has its own copy of the check",
  ["src/lib.rs", "src/reader.rs", "src/prim.rs", "src/types/structure.rs"],
  [("expect_finished after decode", "src/lib.rs")],
  ["decode_from_bytes", "Reader::decode_one", "CborSlice::decode", "CborSlice::validate_as", "CborData::decode", "CborData::validate_as", "Tag::read_data", "Tag::decode_data"])
p("C22", "Native integers decode only in range and encode canonically",
  "Decoding u8, u16, u32 or u64 accepts exactly the positive elements (in any width) whose number fits the type and returns that number, and reports out of range, with the number, otherwise; booleans accept exactly the two boolean constants. Encoding them appends the shortest positive element of the number, or the constant.",
  I, "all numbers up to 2^64-1 in all widths",
  "tests do not decode at the range boundaries",
  ["src/decode.rs", "src/encode.rs"],
  [("assert_range!", "src/decode.rs")],
  ["Decode for u8/u16/u32/u64/bool", "Encode for u8/u16/u32/u64/bool"])
p("C23", "Native strings and byte arrays decode and encode their exact content",
  "Decoding a String or a byte vector returns the concatenation, in order, of all the chunks of the element read, and a fixed size byte array is returned exactly when that concatenation has that size, an unexpected length error with the true lengths otherwise. Encoding any of them appends one definite string with the shortest header and exactly the same content.",
  I, "every content, any chunking, any array size",
  "tests decode short, unchunked strings",
  ["src/decode.rs", "src/encode.rs", "src/types/streamable.rs"],
  [("to_vec / to_string over chunks", "src/types/streamable.rs")],
  ["Decode for String/Vec<u8>/[u8;N]", "Encode for String/str/Vec<u8>/[u8]/[u8;N]", "Bytes::to_vec", "Bytes::len", "Text::to_string", "Text::to_str_chunks"])
p("C24", "Conversion to signed integers is exact or refused",
  "For every positive, negative or scalar element, converting to a signed 64 bit integer gives n for a positive n and -1-n for a negative one exactly when that number is representable, and nothing otherwise; the unsigned accessors give the stored number.",
  I, "all 2^64 values of both signs",
  "tests do not look at the limits (2^63-1, 2^63)",
  ["src/types/scalar.rs"],
  [("Negative::to_i64, Scalar::to_i64", "src/types/scalar.rs")],
  ["Negative::to_i64", "Scalar::to_i64", "Positive::to_u64", "Negative::negative_u64", "Byte::to_u8"])
p("C25", "Half floats convert exactly to single and double precision",
  "For every one of the 65536 half precision patterns, conversion to single (and double) precision gives the same number: signed zeros, subnormals, normals and infinities exactly, NaN to a NaN. For single and double precision patterns the conversions to their own precision return the number with the same bits.",
  I, "all half precision bit patterns, all single and double patterns",
  "no test converts a half float; subnormals and infinities take separate paths",
  ["src/types/float.rs"],
  [("ieee754_u16_to_u32", "src/types/float.rs")],
  ["Float::to_f32", "Float::to_f64"])
p("C26", "Generic data reads and writes agree with the typed operations",
  "Reading generic data yields the variant of the element's type with the same content, and the same advance, as the corresponding typed read, and fails (as a break or with the typed error) when no element is there. Writing generic data, borrowed or owned, appends exactly what the corresponding typed write appends.",
  I, "every element of every type",
  "13 variants times their encodings; tests use few",
  ["src/reader.rs", "src/writer.rs", "src/decode.rs", "src/encode.rs"],
  [("Reader::data, Writer::data dispatch", "src/reader.rs")],
  ["Reader::data", "Writer::data", "Decode for DataOwned", "Encode for Data/DataOwned"])
p("C27", "Owned and borrowed forms convert without loss",
  "For every bytes, text, array, map, tag and generic data value, converting to the owned form and borrowing it back gives an equal value: same variant, same length encoding, same header widths, same chunks or elements with the same content in the same order.",
  I, "every value, any number of chunks or elements",
  "tests do not use the owned forms of chunked or indefinite values",
  ["src/types/streamable.rs", "src/types/structure.rs", "src/types/mod.rs", "src/prim.rs"],
  [("owned() / borrow()", "src/types/structure.rs")],
  ["owned", "borrow"])
p("C28", "Containers expose their elements faithfully",
  "For every array and map, borrowed or owned, the length, the length encoding, indexing and the iterators over elements, keys, values and pairs give exactly the stored elements, in order, each with a fresh reader positioned at the start of its own element; converting to a vector calls the function once per element in order and stops at the first error. An array builder yields its elements in insertion order, with the definite length equal to their number or with an indefinite length.",
  I, "every container, any number of elements",
  "tests index small arrays",
  ["src/types/structure.rs"],
  [("accessors and iterators", "src/types/structure.rs")],
  ["Array", "ArrayOwned", "Map", "MapOwned", "Tag", "TagOwned", "ArrayBuilder"])
p("C29", "Tagged standard types accept only their shape and re-encode exactly",
  "The date/time, bignum, encoded CBOR and rational types decode exactly from their own tag number (in any width) with content of their own shape (text; bytes; bytes; array of exactly two numbers each an integer or a bignum of the permitted sign, with a positive denominator), refusing everything else. Writing such a value appends the tag with its original width and the content with its original encoding, so that a decoded value re-encodes to the bytes it was read from.",
  I, "every buffer, every tag width, both length encodings, all numerator and denominator forms",
  "tests cover no negative bignum, no indefinite array, no non canonical tag",
  ["src/tagged.rs"],
  [("read / write of each tagged type", "src/tagged.rs")],
  ["StandardDateTime", "PositiveBignum", "NegativeBignum", "EncodedCBOR", "RationalNumber"])
p("C30", "Validated and typed handles cannot be forged",
  "A validated slice or data handle, and a handle typed as holding a T, can be created by safe code outside the library only by reading, validating, encoding, or by a successful decode of the very bytes as T; untyping, cloning, borrowing and owning keep the bytes unchanged. The in-place conversions between byte slices and handles are between types of identical layout.",
  ["programs"], "every safe program that uses the library",
  "a test can only exercise programs that compile; that others do not compile, and that no other construction site exists, is about all programs",
  ["src/prim.rs", "src/context.rs", "src/reader.rs"],
  [("private fields, repr(transparent)", "src/prim.rs")],
  ["CborSlice", "CborData", "CborSliceOf", "CborDataOf"])
p("C31", "Vectors of elements encode and decode element by element",
  "Encoding a slice of elements appends a definite array header with the shortest form of their number followed by each element's own encoding in order. Decoding a vector reads one array, in either length encoding, and decodes each element from its own slice in order, returning as many values as there are elements, or the first element's error.",
  ["inputs", "programs"], "every element type, any number of elements",
  "tests use one or two element types with few elements",
  ["src/encode.rs", "src/decode.rs"],
  [("encode_vec / decode_vec", "src/encode.rs")],
  ["encode_vec", "decode_vec"])
p("C32", "Derived array structures agree on their layout in both directions",
  "A structure derived as an array encodes as a definite array with one element per field in declaration order, inside the declared tag if any, and decodes only from an array (under that tag) with exactly that number of elements, each field from its own element. With the optional last field variant, the last element is absent exactly when the field is none, and both lengths are accepted.",
  ["inputs", "programs"], "all field types, any number of fields, with and without tag, for every input",
  "the crate's tests derive nothing; the generated code is different for every definition",
  ["cbored-derive/src/product.rs"],
  [("derive_struct_se / derive_struct_de", "cbored-derive/src/product.rs")],
  ["derive(CborRepr) structure = array, array_lastopt"])
p("C33", "Derived flat structures agree on their layout in both directions",
  "A structure derived as flat encodes its fields one after the other in declaration order, inside the declared tag if any, and decodes them in the same order from the same reader (the tag's content when tagged), refusing another tag number.",
  ["inputs", "programs"], "all field types, with and without tag, for every input",
  "the crate's tests derive nothing",
  ["cbored-derive/src/product.rs"],
  [("derive_struct_se / derive_struct_de", "cbored-derive/src/product.rs")],
  ["derive(CborRepr) structure = flat"])
p("C34", "Derived integer-keyed maps agree on keys and presence",
  "A structure derived as an integer keyed map encodes as a definite map whose keys are the field positions counted from the declared start, with the declared keys skipped, leaving out exactly the optional fields that are none, and with a length equal to the number of pairs. Decoding accepts exactly these keys in any order, puts each value in its own field, and refuses unknown keys, duplicated keys, and missing mandatory fields.",
  ["inputs", "programs"], "all definitions (start, skips, mandatory or optional fields, tag), every input, any order of keys up to 2^64-1",
  "the crate's tests derive nothing; key numbering is computed separately for encoding and decoding",
  ["cbored-derive/src/product.rs"],
  [("MapInt key numbering", "cbored-derive/src/product.rs")],
  ["derive(CborRepr) structure = mapint"])
p("C35", "Derived variant enumerations agree on numbers and layout",
  "An enumeration derived as tagged variants encodes as a definite array of the variant number followed by its fields in order, where numbers count up from the declared start with the declared keys skipped; decoding accepts exactly these numbers with exactly the variant's number of fields, each field from its own element. Unknown numbers, empty arrays and wrong lengths are refused, and distinct variants have distinct numbers.",
  ["inputs", "programs"], "all definitions (start, skips, unit, tuple, record and vector fields), every input",
  "the crate's tests derive nothing; numbering is computed separately for encoding and decoding",
  ["cbored-derive/src/sum.rs"],
  [("enumerate_variant_indices", "cbored-derive/src/sum.rs")],
  ["derive(CborRepr) enumtype = tagvariant"])
p("C36", "Derived integer enumerations agree on their numbers",
  "An enumeration derived as integers encodes each variant as the shortest positive element of its number, counting up from the declared start with the declared keys skipped, and decodes exactly these numbers, in any width, to the same variants, refusing all others.",
  ["inputs", "programs"], "all definitions (start, skips), all numbers up to 2^64-1",
  "the crate's tests derive nothing",
  ["cbored-derive/src/sum.rs"],
  [("enumerate_variant_indices", "cbored-derive/src/sum.rs")],
  ["derive(CborRepr) enumtype = enumint"])
p("C37", "Derived type-discriminated enumerations dispatch on the element type",
  "An enumeration derived by element type encodes each variant as its single field alone (or as null for the null variant), and decodes by the type of the next element: each declared type selects its own variant, which decodes from the same element, and any other type is refused.",
  ["inputs", "programs"], "all declared type sets, every input",
  "the crate's tests derive nothing",
  ["cbored-derive/src/sum.rs"],
  [("EnumType branches", "cbored-derive/src/sum.rs")],
  ["derive(CborRepr) enumtype = enumtype"])
p("C38", "Derived decoders never panic",
  "For every derived definition of every kind and every buffer, decoding with the derived code returns a value or an error, and does not panic or overflow, provided that the fields' own decoders do not.",
  ["inputs", "programs"], "all kinds of definitions, every input",
  "the crate's tests derive nothing; indexing and numbering in generated code depend on attacker chosen lengths and keys",
  ["cbored-derive/src/product.rs", "cbored-derive/src/sum.rs"],
  [("generated indexing and key handling", "cbored-derive/src/product.rs")],
  ["derive(CborRepr)"])
p("C39", "The documented derive definitions all compile",
  "Every derive form that the documentation lists (array, optional last, flat, integer map with mandatory and optional fields, tagged variants, integer and type discriminated enumerations including the null variant, tags, starting numbers and skipped keys) expands to code that compiles, in a crate that depends on the library under its normal name and without any import beyond the macro.",
  ["programs"], "all documented forms",
  "the examples crate compiles three of the forms only; a broken expansion shows only when a user writes that form",
  ["cbored-derive/src/product.rs", "cbored-derive/src/sum.rs", "cbored-derive/src/attr.rs"],
  [("quote! expansions", "cbored-derive/src")],
  ["derive(CborRepr)"])
p("C40", "The writer only ever appends",
  "Whatever sequence of writer operations is performed on a writer created empty or over an existing vector, the bytes already in it are never changed, removed or reordered, and finalizing returns exactly the initial bytes followed by what the operations appended.",
  IH, "every sequence of writer operations on every initial vector",
  "tests start from empty writers and perform one or two writes",
  ["src/writer.rs"],
  [("append_byte / append_slice", "src/writer.rs")],
  ["Writer::new_from_vec", "Writer::finalize"])
p("C41", "Reading and writing are pure computations",
  "The library performs no input or output, starts no thread or process, reads no clock, environment or randomness, and keeps no global mutable state: results depend on the arguments only.",
  ["inputs", "programs"], "all calls of all functions",
  "a test cannot show the absence of an effect on unexplored paths",
  ["src", "cbored-derive/src"],
  [("no std::io/net/fs/env/time/thread use, no statics", "src")],
  ["all public functions"])
p("C42", "Borrowed values cannot outlive or alias mutable data",
  "Values read in borrowed form (bytes, text, arrays, maps, tags, slices) stay usable after the reader is gone but not after the buffer is, and the buffer cannot be modified while they are alive; programs that would do otherwise do not compile.",
  ["programs"], "every safe program",
  "tests contain only programs that compile",
  ["src/reader.rs", "src/context.rs", "src/types/structure.rs", "src/types/streamable.rs"],
  [("lifetime parameters", "src/reader.rs")],
  ["Reader::new", "Reader::bytes", "Reader::text", "Reader::array", "Array::index"])
p("C43", "Decode errors carry their path from innermost to outermost",
  "A decode error keeps its original cause unchanged through every added context; the contexts are listed from the innermost to the outermost in the order they were added, and the textual path lists them from outermost to innermost separated by arrows (no context name being empty).",
  IH, "any number of nested contexts",
  "tests do not look at contexts",
  ["src/decode.rs"],
  [("DecodeError push / context_as_path", "src/decode.rs")],
  ["DecodeError::context", "DecodeError::context_as_path", "DecodeError::error"])
p("C44", "Values with different encodings are different values",
  "Two elements compare equal exactly when they have the same type, the same content and the same encoding (header widths, chunking, length encoding), so equality of read values means equality of their bytes.",
  I, "every pair of values",
  "tests compare few values, in one encoding",
  ["src/types", "src/lowlevel/header.rs", "src/prim.rs"],
  [("structural equality", "src/types")],
  ["PartialEq of Positive, Negative, Scalar, Byte, Float, Constant, Bytes, Text, Array, Map, Tag, Data, StructureLength, TagValue and owned forms"])
p("C45", "Work per input is proportional to its size",
  "Reading, validating or decoding a buffer takes time and memory bounded by a small constant times its size per nesting level that the caller descends into.",
  I, "every buffer",
  "tests do not measure time",
  ["src/reader.rs"], [("single pass skipping", "src/reader.rs")], ["Reader", "Validator"])
p("C46", "Encoded output is understood identically by other CBOR implementations",
  "Every byte sequence the library writes is decoded by any conforming CBOR implementation into the same data model value.",
  ["inputs", "configurations"], "every value, every conforming implementation",
  "the tests use no other implementation",
  ["src/writer.rs"], [("RFC 8949 encoding", "src/writer.rs")], ["Writer"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
