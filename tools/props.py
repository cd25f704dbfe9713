"""Which entry programs and rules decide which property."""

import rules


class Ctx:
    def __init__(self, scratch, dumps, dump, results, facts):
        self.scratch = scratch
        self.dumps = dumps
        self.dump = dump
        self.results = results
        self._make = facts
        self._facts = None

    def facts(self):
        if self._facts is None:
            self._facts = self._make(self.scratch)
        return self._facts


HEADERS = r"reading::(positive|negative|scalar|byte|float|constant|bool_|null|undefined)"
REFUSE = r"reading::refuse_.*"

NUM = r"numbers::"
WRITE = r"writing::(positive|negative|scalar|byte_imm|byte_ext|byte_read|constant|bool_|float|tag|(array|map)_(in)?definite)"

DERIVE = (
    "For each definition of a set of %s, with fields whose encoders append anything, the encoding is compared with the "
    "layout that the documentation gives. Decoding, for a reader at any position of any buffer, is interpreted with reads "
    "of structures and of fields that answer anything: every field is decoded from its own element and nothing is "
    "forgotten, and a value is returned exactly when nothing was refused and lengths, keys and tag are the declared ones."
)

PROPS = {
    "C01": dict(
        roots={"harness": ["reading::peek_type"]},
        explanation="For a reader at any position of any buffer, the result of peek_type is compared in every abstract "
        "state with a table of RFC 8949 written in the entry program (all 256 lead bytes), including the errors.",
    ),
    "C02": dict(
        roots={"harness": [HEADERS]},
        explanation="For a reader at any position of any buffer, each typed header read is compared in every abstract "
        "state with a reference decoder of RFC 8949 headers: accepted exactly when the lead byte has the type and the "
        "argument is complete, same number, and same bytes (hence width) when written again.",
    ),
    "C03": dict(
        roots={"harness": [HEADERS, REFUSE]},
        explanation="For a reader at any position of any buffer, the position after each typed read is proved to be the "
        "end of the header on success and unchanged on refusal, and the error of a refusal to name the type found.",
    ),
    "C04": dict(
        roots={"harness": [WRITE]},
        explanation="For every value with a header that reading or a constructor can make, and every content already in "
        "the writer, the bytes after the write are proved equal to the content followed by the RFC 8949 bytes of the value.",
    ),
    "C05": dict(
        roots={"harness": [NUM + r"(canonical_.*|length_of_stream|byte_predicate|bytes_from_.*|text_from_.*)"]},
        explanation="For every number (and every slice, str, vector and string), the header made by each canonical "
        "constructor is proved equal to the shortest one of a reference table, the number read back equal to the "
        "original, and each canonicity predicate equal to that table's.",
    ),
    "C06": dict(
        roots={"harness": [r"writing::(bytes|text)_(back|parts|imm)"]},
        explanation="For a reader at any position of any buffer, what reading bytes or text returns is taken apart by "
        "its public accessors, and header and content of every chunk are proved to lie in the buffer where RFC 8949 has "
        "them, one after the other from the first byte read to the position reached; definite strings are in addition "
        "compared with a reference decoder (acceptance, header width, content, errors).",
    ),
    "C07": dict(
        roots={
            "harness": [r"writing::text_(imm|any)", NUM + r"text_from_.*", r"strings::text_to_.*"],
            "harness+strings": [r"strings::decode::string"],
            "harness+loose": [r"decoders::any_string"],
        },
        kinds=("utf8",),
        floor=False,
        rules=[rules.no_forged_text],
        technique="abstract interpretation of the MIR and an inventory of unsafe conversions to text",
        explanation="str and String are valid by type unless unsafe code makes one: every cast, transmute and unchecked "
        "conversion of the crate is listed, and an unchecked conversion must be proved to follow a validation of the same "
        "bytes. For a reader at any position of any buffer, reading text fails with the UTF-8 error exactly when the "
        "validation of a content fails (definite) or of any chunk does (any number of chunks); that the contents are the "
        "bytes of the buffer is C06.",
    ),
    "C08": dict(
        roots={"harness": [r"writing::(bytes|text)_(made|read)"]},
        explanation="For every bytes and text value that reading or a constructor can make, and every content already in "
        "the writer, the bytes after the write are proved equal to the content followed by the RFC 8949 bytes of the value.",
    ),
    "C23": dict(
        roots={
            "harness": [r"strings::(bytes_to_vec|bytes_len|text_to_string|text_to_chunks|encode_(string|str|vec|slice|array_\d+))"],
            "harness+strings": [r"strings::decode::(vec|string|array_\d+)"],
        },
        explanation="For every bytes or text value a read can return (the reads themselves are C06), decoding a vector, a "
        "String and arrays of 0, 1, 4 and 32 bytes is proved to give the concatenation of its chunks, or the unexpected "
        "length error with the true lengths exactly when the size differs; encoding is proved to append the shortest "
        "header and the content.",
    ),
    "C11": dict(
        roots={"harness": [r"machine::(step|deep)_.*"], "harness+ghost": [r"items::validator"]},
        rules=[rules.only_top],
        panics=True,
        technique="abstract interpretation of the MIR (product with a reference grammar), and a query on what the state "
        "machine looks at",
        explanation="The state machine: for every event with every argument, on a stack of no, one or two open structures of "
        "every kind with any number of elements to come (on the bottom of the stack, and on any stack below an indefinite "
        "array), acceptance, completeness and the state afterwards are proved to be those of a reference grammar; it is "
        "shown to look at the innermost structure only, so that this is every stack. The validator: over every buffer and "
        "any number of calls with any results, each event is proved to be about the next element of the buffer with its "
        "argument, the machine to be asked after each, and the answer to be the bytes from the start to the first complete "
        "place, or an error exactly when the machine refuses or the next element is not there.",
    ),
    "C12": dict(
        roots={
            "harness": [r"machine::(step|deep)_.*"],
            "harness+ghost": [r"items::((array|map)_.*|tag|exact_slice|exact_data)"],
        },
        rules=[rules.only_top],
        panics=True,
        technique="abstract interpretation of the MIR (product with a reference grammar), and a query on what the state "
        "machine looks at",
        explanation="The reader drives the same state machine as the validator (shown to be the grammar, as for C11). For "
        "arrays, maps, tags and exactly decodable slices, from a reader at any position of any buffer: each event is proved "
        "to be about the next element of the buffer with its argument, the machine to be asked after each, the elements "
        "returned to be, at an arbitrary index, the items that the machine completed, as many as declared or up to the "
        "break, and a structure to be refused exactly when the machine refuses or the next element is not there.",
    ),
    "C13": dict(
        roots={"harness+loose": [r"panics::(?!validator|accounts).*"]},
        panics=True,
        explanation="Every reader operation, from every reader state, is interpreted over all buffers: every overflow "
        "check, bounds check, assertion, unwrap and unreachable arm it reaches is proved not to fail, and it leaves the "
        "reader in a state of the same invariant (position within the buffer), whatever it returned. The state machine "
        "of structures is replaced by one that answers anything (its own panics are C14), a caller's decoder by one "
        "that consumes and answers anything.",
    ),
    "C14": dict(
        roots={"harness": [r"machine::events"], "harness+loose": [r"panics::validator"]},
        panics=True,
        explanation="Any number of any events with any declared lengths, also after errors, on the state machine: every "
        "assertion, overflow check and unwrap is proved not to fail, with an invariant inferred for the elements of the "
        "stack. The validator, over all buffers and any number of calls, likewise, with a state machine that answers "
        "anything.",
    ),
    "C17": dict(
        roots={
            "harness+loose": [r"panics::(?!accounts).*", r"decoders::any_.*"],
            "harness+strings": [r"strings::decode::(vec|string|array_\d+)"],
            "harness": [r"machine::events"],
        },
        kinds=("progress",),
        floor=False,
        rules=[rules.no_recursion],
        technique="ranking argument on the abstract interpretation of every loop, and cycles of the call graph",
        explanation="Every loop that a reader operation, the validator or a provided decoder reaches, over every buffer and "
        "from every reader state, is given a measure: one position or length that every iteration is proved to move in one "
        "direction, towards a bound that is the length of data in memory and that the loop does not change. The call "
        "graph of the crate, as written and as instantiated, is proved to have no cycle.",
    ),
    "C18": dict(
        roots={
            "harness+loose": [r"panics::(?!accounts).*", r"decoders::any_.*", r"structs::(vec|view)_.*"],
            "harness+strings": [r"strings::decode::(vec|string|array_\d+)"],
            "harness": [r"machine::events", r"strings::(bytes_to_vec|text_to_string|text_to_chunks)"],
            "harness+vec": [r"decoders::vec_decode"],
        },
        kinds=("alloc",),
        floor=False,
        rules=[rules.reservations],
        explanation="At every reservation that reading, validating and decoding reach, over every buffer and from every "
        "reader state, the size is proved to be at most the length of data in memory (or a small constant).",
    ),
    "C19": dict(
        roots={"harness": [HEADERS, REFUSE, r"writing::(bytes|text)_imm"]},
        explanation="For a reader at any position of any buffer, whenever a header or a definite content is incomplete, "
        "the missing data error is proved to name the part, the bytes expected for it and the bytes present, and to be "
        "given only when fewer are present.",
    ),
    "C09": dict(
        roots={"harness+loose": [r"structs::(array|map|tag)_shape"]},
        explanation="For a reader at any position of any buffer and a state machine that ends elements anywhere, what "
        "reading an array, map or tag returns is proved to have the length encoding and the number of elements of the "
        "header, and header, elements and break, written one after the other, to be the bytes the reader moved over. "
        "That the elements end where items end is C12.",
    ),
    "C10": dict(
        roots={
            "harness": [r"structs::(builder_(finite|indefinite)|(array|map|tag)_closure)"],
            "harness+loose": [r"structs::(array|map|tag)_read"],
        },
        explanation="For every array, map and tag that a read can return or the builder can make, and for the closure "
        "forms with any content and any length, the bytes after the write are proved equal to the bytes before, followed "
        "by the header, the elements in order, and the break of an indefinite one.",
    ),
    "C20": dict(
        roots={"harness+loose": [r"panics::(?!validator|accounts).*"]},
        explanation="In every reader state over every buffer, and after every reader operation from every such state, "
        "whatever it returned: the consumed count is within the buffer and not smaller than before, remaining is the "
        "rest, finished is remaining zero, and expecting the end is refused exactly otherwise, with the true numbers.",
    ),
    "C27": dict(
        roots={"harness": [r"structs::(bytes|text)_owned"], "harness+loose": [r"structs::(array|map|tag|data)_owned"]},
        explanation="For every value a read can return, the owned form borrowed back is compared with it: variant, length "
        "encoding, header widths, chunks and elements at every index, and the bytes it is written as.",
    ),
    "C28": dict(
        roots={
            "harness": [r"structs::builder_(finite|indefinite|index|encodable)"],
            "harness+loose": [r"structs::(view|vec)_.*"],
        },
        explanation="For every array and map a read can return, and its owned form, each iterator is stepped through: "
        "it yields as many readers as the length, the k-th at the start of exactly the k-th element; to_vec is run with "
        "functions that answer anything: called once per element in order, stopping at the first error, which is "
        "returned. Builders are filled with any number of elements.",
    ),
    "C15": dict(
        roots={
            "harness+loose": [r"decoders::any_.*"],
            "harness+strings": [r"strings::decode::(vec|string|array_\d+)"],
            "harness+rational": [r"decoders::rational"],
        },
        panics=(r".", r"spec::written|^writing::"),
        explanation="Decoding into each provided type, from every reader state over every buffer, is interpreted with "
        "every overflow check, bounds check, assertion and unwrap it reaches proved not to fail. Arrays of bytes for the "
        "sizes 0, 1, 4 and 32 (from any string a read can return); vectors and typed handles with an element decoder that consumes and answers anything.",
    ),
    "C16": dict(
        roots={
            "harness": [
                WRITE,
                HEADERS,
                r"writing::(bytes|text)_(made|read)",
                NUM + r"encode_.*",
                r"strings::encode_(string|str|vec|slice|array_\d+)",
                r"structs::(builder_(finite|indefinite)|(array|map|tag)_closure)",
                r"decoders::(vec_encode|encoded_made)",
            ],
            "harness+loose": [r"structs::(array|map|tag)_read", r"decoders::data_write_.*"],
            "harness+typed": [r"decoders::tagged_.*"],
            "harness+rational": [r"decoders::rational"],
        },
        panics=(r"Writer::|::[Ee]ncode|spec::written|::write$", None),
        explanation="Every value that a reader, a decoder or a constructor returns is written, with every content already "
        "in the writer: every assertion, overflow check and unwrap that writing reaches is proved not to fail, from what "
        "reading established of the value.",
    ),
    "C21": dict(
        roots={"harness+whole": [r"decoders::whole_.*"]},
        explanation="Each entry point that decodes a complete input is interpreted, over every buffer, with a decoder "
        "that consumes anything and answers anything: a value is returned exactly when the decoder returned it and left "
        "nothing, and a handle holds exactly the bytes that were decoded.",
    ),
    "C25": dict(
        roots={"harness": [r"floats::(half_to_single|half_to_double|single|double)"]},
        explanation="Sixteen unknown binary digits make the half precision pattern, so each path of the conversion (and of the "
        "definition it is compared with) stands for all the patterns with the same leading digit; shifts and masks are "
        "followed digit by digit, and the bits of the result are proved to be those of the same number.",
    ),
    "C26": dict(
        roots={
            "harness+typed": [r"decoders::data_(bytes|text|array|map|tag|short|decoded_.*)"],
            "harness": [r"decoders::data_write_constant"],
            "harness+loose": [r"decoders::data_write_(?!constant).*"],
        },
        explanation="For a reader at any position of any buffer, with typed reads of strings, arrays, maps and tags that "
        "answer anything: generic data calls the one of the element's type at that position and returns its value or "
        "error; the short elements are compared with the reference decoder. Every value a read can return, as generic "
        "data, borrowed and owned, is proved to be written as the bytes it was read from.",
    ),
    "C29": dict(
        roots={
            "harness": [r"decoders::encoded_made"],
            "harness+typed": [r"decoders::tagged_.*"],
            "harness+rational": [r"decoders::rational"],
        },
        explanation="Each tagged type is read from every buffer, with reads of tags, strings, arrays and numbers that "
        "answer anything: it is accepted exactly when the tag has the number, and the content (each element of the "
        "rational) is wholly one value of a permitted type, read from its own slice; writing it is proved to give the "
        "tag header as read followed by the content as read. That these reads and their writes are inverse is C06, "
        "C08, C09 and C10.",
    ),
    "C30": dict(
        roots={"harness": [r"decoders::handles"], "harness+whole": [r"decoders::whole_.*"]},
        rules=[rules.handle_makers],
        floor=False,
        technique="reachability of construction sites in the call graph by visibility, and abstract interpretation of the MIR",
        explanation="Every place of the crate that builds a handle or casts to one is followed up the call graph to the "
        "exported safe functions that reach it, which have to be the reading, validating, encoding, decoding, untyping, "
        "cloning, borrowing and owning operations; fields, layout of the cast types and operations on mutable references "
        "are inspected. Of those operations, the decoding ones are proved to answer a handle of exactly the bytes that a "
        "decoder consumed wholly, and the others to keep the bytes.",
    ),
    "C31": dict(
        roots={"harness": [r"decoders::vec_encode"], "harness+vec": [r"decoders::vec_decode"]},
        explanation="A slice of any number of elements is encoded with an element encoder that appends anything: header "
        "and the encodings in order. A vector is decoded from any array with an element decoder that answers anything: "
        "the k-th call is on exactly the k-th element, all are called unless one is refused, whose error is returned.",
    ),
    "C32": dict(
        roots={
            "harness-derive": [r"derived::(array|lastopt)_.*_encode"],
            "harness-derive+derive": [r"derived::(array|lastopt)_.*_decode"],
        },
        explanation=DERIVE % "array structures (1 to 5 fields, named and tuple, with and without tag, last optional, a vector)",
    ),
    "C33": dict(
        roots={"harness-derive": [r"derived::flat_.*_encode"], "harness-derive+derive": [r"derived::flat_.*_decode"]},
        explanation=DERIVE % "flat structures (1 to 4 fields, named and tuple, with and without tag)",
    ),
    "C34": dict(
        roots={"harness-derive": [r"derived::map_.*_encode"], "harness-derive+derive": [r"derived::map_.*_decode"]},
        explanation=DERIVE % "integer keyed maps (mandatory and optional fields in different places, starts, skipped keys "
        "before, at, after and between the fields, with and without tag)",
    ),
    "C35": dict(
        roots={"harness-derive": [r"derived::variant_.*_encode"], "harness-derive+derive": [r"derived::variant_.*_decode"]},
        explanation=DERIVE % "variant enumerations (unit, tuple, record and vector fields, starts, skipped numbers)",
    ),
    "C36": dict(
        roots={"harness-derive": [r"derived::int_.*"]},
        explanation="For each definition of a set of integer enumerations (starts, skipped numbers, up to 30 variants), the "
        "encoding of every variant is compared with the bytes of its number as the documentation counts it, and "
        "decoding, for a reader at any position of any buffer, with the reference decoder: the variant exactly when the "
        "element there is its number, in any width.",
    ),
    "C37": dict(
        roots={"harness-derive": [r"derived::type_.*_encode"], "harness-derive+derive": [r"derived::type_.*_decode"]},
        explanation=DERIVE % "enumerations by type (all eight types, subsets of them, tuple and record variants)",
    ),
    "C38": dict(
        roots={
            "harness-derive": [r"derived::int_.*_decode"],
            "harness-derive+derive": [r"derived::(?!int_).*_decode"],
        },
        panics=True,
        explanation="The derived decoder of each definition of a set with every form is interpreted for a reader at any "
        "position of any buffer, with field decoders and structure reads that answer anything: every overflow check, "
        "bounds check, assertion and unwrap that it reaches is proved not to fail.",
    ),
    "C39": dict(
        rules=[rules.derive_forms],
        technique="compile witnesses: the derived code of every form is type checked by rustc",
        level_note="Decides the listed definitions (all documented forms and their combinations with tags, starts and "
        "skipped keys) and no others; trusts rustc's type checker.",
        floor=False,
        explanation="A crate with every documented form of derive, in modules that import nothing but the macro, is type "
        "checked against the current source; an error at a definition is the violation.",
    ),
    "C40": dict(
        roots={
            "harness": [WRITE, r"writing::(bytes|text)_(made|read)", r"structs::(builder_(finite|indefinite)|(array|map|tag)_closure)"],
            "harness+loose": [r"structs::(array|map|tag)_read"],
        },
        explanation="For every content already in the writer and every writer operation on every value, the content "
        "after it is proved to be the content before followed by the bytes of the value.",
    ),
    "C41": dict(
        rules=[rules.pure],
        technique="effect analysis: inventory of the calls, statics and casts of every function as lowered to MIR",
        level_note="Decides every function, closure and static of the two crates; the functions of core and alloc are "
        "taken to depend on their arguments only (but for addresses and hash seeds, which are looked for).",
        floor=False,
        explanation="Every call, mention of a function, static and cast in every function and closure of cbored and of the "
        "derive crate is classified: input and output, operating system, threads, clocks, randomness, hash order, foreign "
        "code, assembly and state that outlives a call are violations.",
    ),
    "C42": dict(
        rules=[rules.borrows],
        technique="compile-fail witnesses with compiling twins, and a query on the lifetimes of every exported signature",
        level_note="Decides the listed programs (every kind of borrowed value, and of view of an owner) and, for the "
        "lifetimes of returned values, every exported signature; trusts rustc's borrow checker.",
        floor=False,
        explanation="For each kind of value that borrows from a buffer or an owner, programs that would keep it past the "
        "buffer, or drop, replace or change the buffer under it, have to be refused by the borrow checker in that very "
        "function, while the same programs without the offence, and ones that keep the value past the reader, compile.",
    ),
    "C43": dict(
        roots={"harness": [r"errors::(push|new)_.*"], "harness+path": [r"errors::path"]},
        explanation="For every decode error, after each operation that adds a context the earlier contexts are proved to "
        "be at the same places, the new one to be last and the cause to be unchanged. The path is followed as it is "
        "appended: for any number of contexts, each is proved to be written once, from the last to the first, with one "
        "arrow between two of them.",
    ),
    "C44": dict(
        roots={
            "harness+equal": [
                r"equal::(header_value|positive|negative|tag_value|scalar|structure_length|byte|float|constant|slice|slice_owned)",
                r"equal::.*_(equal|differ|copy)",
                r"equal::(date|positive_bignum|negative_bignum|encoded_cbor)",
            ]
        },
        explanation="For every two values of each element type, borrowed and owned, each outcome of comparing them is "
        "followed through their equality: equal, and not different, is proved to imply the same variant, header widths "
        "and numbers, length encoding, number of chunks or elements, and content at an arbitrary index; a copy is proved "
        "to be equal; for elements that are only a header, equal and different are proved to be exactly this.",
    ),
    "C22": dict(
        roots={"harness": [NUM + r"(en|de)code_(u8|u16|u32|u64|bool)"]},
        explanation="For a reader at any position of any buffer, decoding each native integer and bool is compared in "
        "every abstract state with the element that the bytes hold: acceptance, number, consumption and the out of range "
        "error; encoding is proved to append the shortest header.",
    ),
    "C24": dict(
        roots={"harness": [NUM + r"(signed_negative|signed_scalar|unsigned_accessors|canonical_positive|canonical_header_predicate)"]},
        explanation="For every header value, the conversion is proved to be defined exactly when the number fits, and "
        "to be n or -1-n.",
    ),
}

LEVEL_NOTE = (
    "Sound for all inputs under the stated assumptions: the abstract interpretation over-approximates every "
    "execution of the entry programs, loops by fixpoints, and no path is cut off. A construct the engine cannot "
    "analyse is printed as UNDECIDED and listed in the evidence, and is not reported as a violation. Trusts the "
    "rustc front end, the abstract models of the standard library and the engine itself."
)
NOT_APPLICABLE = {
    "C45": "a bound on time and memory per input byte quantifies over run-time costs (allocator growth, library "
    "internals) that no static argument in reach bounds; the structural part, progress of every loop and no "
    "reservation from declared lengths, is decided as C17 and C18",
    "C46": "the decoders of other implementations are not part of this source; the part that is, conformity of the "
    "emitted bytes with RFC 8949, is decided as C04, C08 and C10",
}
