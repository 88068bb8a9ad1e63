#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

DEC = ["codecs/src/aper/mod.rs", "codecs/src/aper/decode/mod.rs", "codecs/src/aper/decode/decode_internal.rs", "codecs/src/aper/decode/decode_charstrings.rs"]
ENC = ["codecs/src/aper/mod.rs", "codecs/src/aper/encode/mod.rs", "codecs/src/aper/encode/encode_internal.rs"]
DER = ["codecs_derive/src/aper/mod.rs", "codecs_derive/src/aper/seq.rs", "codecs_derive/src/aper/choice.rs", "codecs_derive/src/aper/open.rs", "codecs_derive/src/aper/seqof.rs"]

p("C01", "Decoding arbitrary bytes never panics",
  "Whatever bytes are supplied, and whatever legal constraint the type carries (lower bound not above upper bound, bounds within 64 bits, sizes not negative), every APER decode entry point returns a value or an error. It never panics: no out-of-range slice or index, no arithmetic overflow or underflow, no failed unwrap, no explicit panic or 'not implemented' stop.",
  ["inputs", "configurations"], "all byte strings, all read positions inside the buffer, all legal bound/extensibility parameters of the decode API",
  "The tests decode about thirty well-formed messages; panics sit on malformed lengths, truncated buffers and extreme bounds that no test supplies.",
  DEC, [("remaining-bits guards before every read", "codecs/src/aper/mod.rs"), ("length-determinant decoding", "codecs/src/aper/decode/decode_internal.rs")],
  ["public functions of asn1_codecs::aper::decode"])
p("C02", "Reading bits advances the cursor by exactly what was read, inside the buffer",
  "Every primitive read (one bit, an n-bit integer, an n-bit string, n octets, skip, byte alignment) that succeeds has read exactly the bits starting at the old cursor and moves the cursor forward by exactly that count (alignment: to the next octet boundary, having checked that the skipped bits are zero). It never moves past the end of the data, and when fewer bits remain than requested it returns an error.",
  ["inputs", "histories"], "every buffer length, every cursor position not beyond the end, every requested count",
  "Tests read at a handful of offsets; an off-by-one in one guard or one advance shows only at a particular offset/length relation.",
  ["codecs/src/aper/mod.rs"], [("cursor and guards of the codec buffer", "codecs/src/aper/mod.rs: AperCodecData")])
p("C03", "Integer encoder and decoder use the same field layout, the one APER prescribes",
  "For every constraint range and every value in it, the number of bits or octets the encoder writes for an integer (fixed bit-field up to 255 values, one aligned octet for 256, two aligned octets up to 64K, length plus minimal octets above, length plus octets when semi- or unconstrained, preceded by the extension bit iff extensible) and the places where it pads to an octet boundary equal what the decoder reads for the same constraint, and both equal the aligned-PER table. The value transmitted is the offset from the lower bound and the decoder adds the lower bound back.",
  ["inputs", "configurations"], "all (lower bound, upper bound, value) with 64-bit bounds, all buffer alignments",
  "The tests sample six ranges on one side only; a wrong bucket edge or a missing alignment affects one range class and only unaligned positions.",
  ENC[1:] + DEC[2:3], [("constrained / semi-constrained / unconstrained whole number pairs", "codecs/src/aper/{encode/encode_internal,decode/decode_internal}.rs")])
p("C04", "Length and string layout agree between encoder and decoder",
  "For every size constraint and every permitted length below the fragmentation threshold, encoder and decoder of BIT STRING, OCTET STRING and character strings agree on the layout: extension bit iff extensible, no length field when the size is fixed, a constrained integer when the maximum is below 64K, otherwise an aligned 8- or 16-bit length; and both align the contents exactly when they exceed 16 bits. Payload bits written equal payload bits read (length times unit size), and the presence bitmap of a sequence is written and read with the same number of bits.",
  ["inputs", "configurations"], "all (size lower bound, size upper bound, length, extensibility) and buffer alignments",
  "The alignment and length-form decisions have thresholds (1, 2 octets, 16 bits, 127/128, 16383/16384, 65535/65536) tests do not straddle.",
  ENC[1:] + DEC[1:], [("length determinants", "codecs/src/aper/{encode,decode}"), ("alignment thresholds", "codecs/src/aper/{encode,decode}/mod.rs, decode_charstrings.rs")])
p("C05", "The encoder refuses values and lengths outside their constraint",
  "Encoding an integer below its lower bound or above its upper bound, or a string, list or choice index whose size or index lies outside its (non-extended) bounds, returns an error on every path, for every kind of type and every bound; no field for the out-of-range value is written.",
  ["inputs", "configurations"], "all out-of-constraint (bound, value/length) combinations",
  "Eleven unit tests try one out-of-range value each; the guards are spread over constrained, semi-constrained and length paths.",
  ENC[1:], [("bound checks before writing", "codecs/src/aper/encode/encode_internal.rs, encode/mod.rs")])
p("C06", "The decoder never returns a constrained value outside its bounds",
  "When a type has both bounds, a successfully decoded, non-extended integer, enumeration index, choice index or constrained length lies between the lower and the upper bound inclusive; a bit pattern denoting anything else gives an error.",
  ["inputs", "configurations"], "all byte strings, all (lower, upper) bounds within 64 bits",
  "Only ranges that are not powers of two have invalid patterns, and no test decodes one.",
  DEC[1:3], [("range check after reading the offset", "codecs/src/aper/decode/decode_internal.rs")])
p("C07", "A failing step makes the whole encode or decode fail",
  "If any nested read, write or component codec inside an encode or decode operation reports an error, the operation itself reports an error; no error result is dropped, replaced by a default or turned into success, in the library and in every derived implementation.",
  ["inputs", "fault_sequences"], "all failing positions inside all codec operations and all derived shapes",
  "Dropping a result compiles and passes every test on well-formed values; it only shows when the inner step fails.",
  DEC + ENC[1:] + DER, [("? propagation", "codecs/src/aper, codecs_derive/src/aper")])
p("C08", "What the codec cannot represent is refused, never mis-encoded",
  "Requests the codec does not implement - encoding any value flagged as extended, encoding a length that needs fragmentation, decoding a choice alternative from the extension additions or an unknown choice index or open-type key - return an error without writing (encode) or without producing a value (decode).",
  ["inputs", "configurations"], "all encode entry points with the extended flag set, all lengths from 16384 up, all choice indices and keys outside the declared set",
  "No test passes extended = true or a length of 16384 or more.",
  ENC[1:2] + DER, [("refusals at the top of encode functions", "codecs/src/aper/encode/mod.rs"), ("derived choice and open types", "codecs_derive/src/aper/{choice,open}.rs")])
p("C09", "Derived encoder and derived decoder mirror each other",
  "For every supported shape the derived encoder visits the same header, components, presence bits, keys and length prefixes as the derived decoder, in declaration order, with the same parameters: a component is encoded iff its presence bit is set, and presence bit i, choice index k or open-type key k denotes the same component on both sides.",
  ["programs"], "all structs and enums the derive accepts, represented by a witness crate with every type kind and attribute combination",
  "The derive tests check decode only on a few messages; encode/decode asymmetry needs a shape with several optional fields or variants.",
  DER, [("quoted decode/encode bodies", "codecs_derive/src/aper/*.rs")])
p("C10", "Every declared attribute reaches the codec in its own role",
  "A derived codec for a type calls the library operation for exactly that ASN.1 type, in both directions, with the declared lower bound, upper bound and extensibility (or size bounds and size extensibility for sized types) each in its own position, absent attributes meaning 'no bound' and 'not extensible'.",
  ["programs", "configurations"], "all type kinds x presence/absence and value of each attribute, by witness types",
  "Tests use symmetric or single attributes; swapped or defaulted parameters change the wire format only for particular attribute sets.",
  ["codecs_derive/src/attrs.rs", "codecs_derive/src/utils.rs", "codecs_derive/src/symbol.rs"] + DER,
  [("attribute parsing", "codecs_derive/src/attrs.rs"), ("bounds to tokens", "codecs_derive/src/utils.rs")])
p("C11", "Malformed or unsupported codec attributes are compile errors",
  "A derive on a type with an unknown attribute key, a value of the wrong literal kind, a missing type, an unsupported ASN.1 type name, a variant without a key, an optional component without a presence index, or a shape that does not fit the ASN.1 type fails to compile; it never silently yields a codec.",
  ["programs"], "all attribute errors of each class, on types, fields and variants",
  "Two compile-fail tests exist; each attribute has its own parsing arm that can start accepting silently.",
  ["codecs_derive/src/attrs.rs", "codecs_derive/src/lib.rs"] + DER, [("error accumulation in attribute parsing", "codecs_derive/src/attrs.rs")])
p("C12", "Compiler output is a deterministic function of its input",
  "Compiling the same ASN.1 sources in the same order always yields byte-identical Rust code and the same accept/reject decision: no hash-map iteration order, randomness, time, address or thread schedule influences what is generated, resolved or reported.",
  ["inputs", "schedules"], "all inputs; all hash seeds",
  "A test run sees one hash seed; order dependence shows only with several entries and an unlucky seed.",
  ["asn-compiler/src/compiler.rs", "asn-compiler/src/resolver", "asn-compiler/src/generator/int.rs", "asn-compiler/src/parser"], [("sorted maps for definitions, insertion-ordered vectors", "asn-compiler/src/parser/asn/structs, resolver/int.rs")])
p("C13", "The ASN.1 front end never panics on any input text",
  "For every input text, tokenizing it and parsing the tokens into modules ends with a result or an error; no out-of-range index or slice, arithmetic overflow, failed unwrap or explicit panic occurs anywhere in the tokenizer or the parser.",
  ["inputs"], "all strings and all token sequences",
  "Tests parse well-formed snippets and a few simple malformed ones; a truncated construct after each token of each production is a different panic site.",
  ["asn-compiler/src/tokenizer/mod.rs", "asn-compiler/src/parser"], [("length checks before indexing", "asn-compiler/src/parser/utils.rs and every parse function")])
p("C14", "The ASN.1 front end always terminates",
  "Tokenizing and parsing any input text ends: every loop iteration consumes at least one character or token or leaves the loop, every parse step reports at least one and at most the available number of tokens consumed, and recursive parsing only descends into a strictly shorter remainder or a finitely ranked sub-grammar.",
  ["inputs"], "all strings and token sequences",
  "Non-termination needs a malformed construct in the one place where a loop makes no progress; tests only contain constructs that parse.",
  ["asn-compiler/src/tokenizer/mod.rs", "asn-compiler/src/parser"], [("consumed-token accounting", "asn-compiler/src/parser")])
p("C15", "Libraries stay silent; only generated code goes to standard output",
  "The codec library and the code it derives write nothing to standard output or standard error and touch no file, process, environment or network; the compiler writes to standard output only the generated code, and diagnostics only to standard error.",
  ["inputs"], "all executions of all library functions and of the compiler",
  "Tests do not look at the output streams; stray prints sit in rare branches.",
  ["codecs/src/aper", "codecs_derive/src/aper", "asn-compiler/src"], [("output sinks", "asn-compiler/src/compiler.rs")])
p("C16", "No module or definition is silently lost",
  "Every definition of every accepted module is resolved and generated, or compilation fails with an error: cyclic definitions, cyclic module imports, a repeated definition name and an import of a symbol or module that does not exist are reported, never skipped or overwritten.",
  ["inputs"], "all sets of modules, all dependency graphs",
  "Tests compile acyclic, consistent modules only.",
  ["asn-compiler/src/compiler.rs", "asn-compiler/src/parser/asn/structs/module.rs", "asn-compiler/src/parser/asn/module.rs", "asn-compiler/src/resolver/int.rs"],
  [("topological sorting", "asn-compiler/src/parser/asn/structs/module.rs, compiler.rs"), ("import resolution", "asn-compiler/src/compiler.rs")])
p("C17", "Code is emitted only after every stage succeeded; failures reach the exit status",
  "The compiler emits generated code only when tokenizing, parsing, import resolution, definition resolution and generation of all modules have succeeded; when any stage fails nothing is emitted and the program reports the error with a non-zero exit status.",
  ["inputs", "fault_sequences"], "all failing inputs, at every stage",
  "No test runs the compiler binary on failing input.",
  ["asn-compiler/src/compiler.rs", "asn-compiler/src/bin/hampi-asn1c.rs", "asn-compiler/src/generator/int.rs", "asn-compiler/src/resolver/int.rs"],
  [("stage sequencing with ?", "asn-compiler/src/compiler.rs, bin/hampi-asn1c.rs")])
p("C18", "Every reference a definition uses counts as its dependency",
  "For each kind of ASN.1 construct, the set of dependencies computed for a definition includes every type, value, class, object and object-set reference that occurs anywhere inside it (components, additions, constraints, sizes, parameters, field specifications), so that whatever is resolved earlier is everything resolution will look up.",
  ["inputs"], "all syntactic shapes of definitions",
  "A missing edge only fails when alphabetical/hash order happens to put the user before the used.",
  ["asn-compiler/src/parser/asn/structs/defs.rs", "asn-compiler/src/parser/asn/structs/types", "asn-compiler/src/resolver/asn/types/constraints.rs"],
  [("dependent-reference visitors", "asn-compiler/src/parser/asn/structs/**")])
p("C19", "A generated integer field can hold every value its constraint permits",
  "For every INTEGER constraint with both bounds inside the signed or unsigned 64-bit range, the machine integer type chosen for the generated field represents every value between the bounds; with a negative lower bound a signed type is chosen.",
  ["inputs", "configurations"], "all pairs of bounds in the 64-bit ranges",
  "Tests use non-negative ranges well inside the type; the width decision has boundaries at every power of 2^8.",
  ["asn-compiler/src/resolver/asn/types/base/integer.rs", "asn-compiler/src/generator/asn/types/base/integer.rs", "asn-compiler/src/generator/int.rs"],
  [("bit width and signedness selection", "asn-compiler/src/resolver/asn/types/base/integer.rs")])
p("C20", "The effective bounds cover exactly what the constraint text says",
  "The lower and upper bound derived from a constraint are the smallest and the largest value of its root element set (minimum over all ranges and single values, maximum over all of them, open ends when MIN or MAX occurs, one less or one more for an excluded end point), and the extension marker is carried over; the same bounds are used for the generated attributes.",
  ["inputs"], "all unions of values and ranges",
  "Tests use a single range; a wrong comparison shows only for unions in a particular order.",
  ["asn-compiler/src/resolver/asn/structs/types/constraints.rs", "asn-compiler/src/resolver/asn/types/constraints.rs"],
  [("bound extraction and merging", "asn-compiler/src/resolver/asn/structs/types/constraints.rs")])
p("C21", "Every emitted name is a legal Rust identifier of its own kind",
  "Every type, variant, field and constant name the compiler emits is a legal Rust identifier for every legal ASN.1 name: hyphens are mapped away, a name that collides with a Rust keyword is altered, and references and declarations of the same ASN.1 name are mapped identically.",
  ["inputs"], "all legal ASN.1 identifiers and references",
  "Tests use the names of three specifications, which contain one keyword.",
  ["asn-compiler/src/generator/int.rs", "asn-compiler/src/generator"], [("identifier mapping", "asn-compiler/src/generator/int.rs")])
p("C22", "Generated attributes speak the derive macro's language, each with its own value",
  "Every attribute key, ASN.1 type name and literal kind the compiler can emit is one the derive macro accepts, and each attribute carries the value of its own role: lower bound under the lower-bound key, upper bound under the upper-bound key, extensibility from the extension marker, presence indices numbered consecutively from zero within the declared count, variant keys numbered consecutively within each group.",
  ["inputs", "programs"], "all generated type kinds and constraint shapes",
  "The three generated specifications exercise only some kinds; a mis-spelt key or swapped bound in a rare kind is never compiled.",
  ["asn-compiler/src/generator", "codecs_derive/src/attrs.rs", "codecs_derive/src/symbol.rs"], [("attribute emission", "asn-compiler/src/generator/asn/types/**"), ("attribute names", "codecs_derive/src/symbol.rs")])
p("C23", "The parser accounts for every token it passes",
  "When parsing a construct succeeds and reports n tokens consumed, every one of those n tokens was examined and accepted by some rule; no token of the input is skipped unread or counted twice, and nothing is accepted as a module that leaves trailing tokens unexamined.",
  ["inputs"], "all token sequences",
  "Skipping an unexamined token is invisible on well-formed input.",
  ["asn-compiler/src/parser"], [("consumed-token accounting", "asn-compiler/src/parser/**")])
p("C24", "The resolver and generator never panic on an accepted module",
  "For every module set the parser accepts, import resolution, definition resolution and code generation end with a result or an error; an unsupported, inconsistent or unresolvable construct gives an error, not a failed unwrap, index or arithmetic panic.",
  ["inputs"], "all parsed modules",
  "Tests only compile supported constructs; each unsupported combination is its own panic site.",
  ["asn-compiler/src/resolver", "asn-compiler/src/generator", "asn-compiler/src/compiler.rs"], [("error macros", "asn-compiler/src/error.rs"), ("resolution functions", "asn-compiler/src/resolver/**")])
p("C25", "Stage errors are never dropped in the compiler",
  "Whenever reading, tokenizing, parsing, resolving or generating a part of the input fails, that failure is returned to the caller or decides an explicit alternative; no failing result is discarded or replaced by an empty or default value so that compilation continues without the part.",
  ["inputs", "fault_sequences"], "all error sources in the compiler",
  "A dropped error yields smaller output for bad input only, which no test feeds.",
  ["asn-compiler/src/compiler.rs", "asn-compiler/src/resolver", "asn-compiler/src/generator", "asn-compiler/src/parser"], [("Result propagation", "asn-compiler/src/**")])

# properties the family cannot decide here
p("N01", "decode(encode(v)) == v for every value of every type",
  "For every value of every generated type, encoding it and decoding the result gives back an equal value.",
  ["inputs", "programs"], "all values of all types",
  "Round trips are tested for three specifications only.", DEC + ENC[1:] + DER, [("codec pairs", "codecs/src/aper")])
p("N02", "Encodings interoperate with other APER implementations bit for bit",
  "For every supported ASN.1 type and value the encoding equals the one any conforming aligned-PER implementation produces.",
  ["inputs", "programs"], "all types and values", "Only a few captured messages are compared.", ENC[1:], [("encoders", "codecs/src/aper/encode")])
p("N03", "Deeply nested input does not exhaust the stack",
  "Decoding or compiling arbitrarily deeply nested input ends with a result or an error instead of exhausting the stack or memory.",
  ["inputs"], "all nesting depths", "No test nests deeply.", ["asn-compiler/src/parser", "codecs_derive/src/aper"], [("recursion", "asn-compiler/src/parser/asn/types/int.rs")])
p("N04", "The generated code has the meaning of the ASN.1 specification",
  "The Rust types generated for an accepted specification describe exactly the abstract values the specification denotes, including inheritance of constraints through parameterization, table constraints and value references.",
  ["inputs", "programs"], "all specifications", "Only three specifications are compiled.", ["asn-compiler/src/resolver", "asn-compiler/src/generator"], [("resolution", "asn-compiler/src/resolver")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
