#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D, N, K, X, CM, Q, A = ("protospec-build/src/" + x for x in ("compiler/decoder.rs", "compiler/encoder.rs", "coder", "compiler/expr.rs", "compiler/mod.rs", "prelude", "asg"))
def P(id, title, st, over, qt, why, files, mech, technique=None, level="translation_validation", note=None, hook=None):
    return dict(id=id, title=title, statement=st, quantifier={"over": over, "text": qt}, why_tests_cant=why, anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "hook_needed": hook}, _t=technique, _l=level, _n=note)
T = "the tests compile a handful of specs and round-trip one or two hand-written values through each; "
VT = "contract-based deductive verification (Verus) of the code the compiler emits, function by function; failed obligations replayed on the compiled code"
VN = "Proved for all inputs of every corpus program (each emitted function against a contract computed from the program alone, callers against callee contracts, loops by invariants); the step from corpus to all programs is by example and by further random programs. Trusts: the emitted-Rust-to-Verus translation, the assumed contracts of std streams, Verus and Z3. A program outside the verifier's reach is run on generated inputs instead and reported as bounded."
DT = "contract-based deductive verification (Verus) of the functions of /repo, extracted from the source on every run; failed obligations replayed on the compiled functions"
DN = "Proved for all inputs: each function of the source file against its contract, callers against callee contracts, loops by invariants and decreases. Trusts: the rewrites of the extraction, the assumed contracts of std functions, Verus and Z3; the same definitions, written again in Python, are compared with the compiled functions on generated inputs."
ps = [
P("P01", "Scalars have exactly the declared width, byte order and interpretation",
  "Decoding a declared integer, float or bool consumes exactly the bytes of its declared width and yields the value those bytes denote in the declared byte order (big endian unless marked little endian; two's complement when signed; any nonzero byte is true). Encoding writes exactly those bytes, and input that ends early is an error that produces no value.",
  ["inputs", "programs"], "every scalar type and byte order, in every position a scalar can occupy, and every byte string and value", T + "they never vary width, sign and byte order independently, and a swapped byte order round-trips.",
  [D, N, CM, "protospec-build/src/ast/types/scalar.rs"], [("scalar read", D), ("scalar write", N), ("scalar widths and names", "protospec-build/src/ast/types/scalar.rs")], VT),
P("P02", "Enums map to exactly their declared values and reject or keep all others",
  "Each enum variant encodes to its declared representation value (a variant without an explicit value takes the previous one plus one) in the declared width and byte order, and decoding that value yields that variant. A value no variant declares is a decode error, or, when the enum declares a default variant, is kept in it unchanged so that it encodes back to the same value.",
  ["inputs", "programs"], "every enum declaration (any representation, explicit and implicit values, with and without default) and every representation value", T + "the value space of a representation is never covered, nor gaps, order and implicit values after explicit ones.",
  [CM, "protospec-build/src/semantics/convert/type_/enum_.rs", D, N], [("variant values", "protospec-build/src/semantics/convert/type_/enum_.rs"), ("from_repr / to_repr of the emitted enum", CM)], VT),
P("P03", "Bitfields assign each flag its declared bit and reject undeclared bits",
  "Each bitfield flag has its declared mask (a flag without an explicit mask takes the previous one shifted left by one), its getter tells whether any of the bits of the mask are set, and its setter sets exactly them. Decoding accepts exactly the values whose set bits are all declared, and encoding writes the value in the declared width and byte order; union, intersection, difference and complement act bitwise.",
  ["inputs", "programs"], "every bitfield declaration and every representation value", T + "one bitfield with a couple of values is used.",
  [CM, "protospec-build/src/semantics/convert/type_/bitfield.rs", D, N], [("flag masks", "protospec-build/src/semantics/convert/type_/bitfield.rs"), ("from_repr, getters, setters and operators of the emitted type", CM)], VT),
P("P04", "Container fields are read and written in declared order, at any nesting",
  "The encoding of a container is the concatenation of the encodings of its fields in declaration order, with nested containers and references to named types in place, and decoding consumes the same layout and assigns every field the value found at its place. The order of declarations in the file and the names of the fields do not matter.",
  ["inputs", "programs"], "every nesting of containers and named types, every value and byte string", T + "a permutation applied by both directions round-trips.",
  ["protospec-build/src/coder/decode/container.rs", "protospec-build/src/coder/encode/container.rs", CM, D, N], [("field sequence", K), ("flattened struct fields", CM)], VT),
P("P05", "A conditional field is present exactly when its condition holds",
  "When decoding, a field or inline container with a condition is read exactly when the condition, evaluated on the values decoded so far and the type's arguments, is true, and is absent otherwise without consuming anything. When encoding it is written exactly when the condition holds; a missing value the condition requires is an error, and a value the condition excludes is not written.",
  ["inputs", "programs"], "every condition over earlier fields and arguments, on every kind of field and inline container, and every combination of truth values", T + "conditions are tried with one value each, mostly in one direction.",
  [K + "/decode/field.rs", K + "/encode/field.rs", D, N, X], [("conditional instructions", K + "/decode/field.rs"), ("presence of optional values when encoding", K + "/encode/container.rs")], VT),
P("P06", "Arrays hold exactly the declared elements and consume exactly their bytes",
  "Decoding an array with a length reads exactly that many elements; an unbounded array reads elements to the end of the enclosing data; a terminated array reads elements until the terminator, which is consumed and not part of the value. Encoding writes the elements in order (followed by the terminator, if any), and an array whose number of elements differs from its declared length is an encode error.",
  ["inputs", "programs"], "every element type (scalars, bools, enums, bitfields, named types, nested arrays, strings), every length expression and length, and every byte string, including truncated ones", T + "lengths other than the ones in the test values, partial trailing elements and terminators inside elements are never tried.",
  [K + "/decode/array.rs", K + "/encode/array.rs", D, N], [("array loops and bulk reads", D), ("array writes and length check", K + "/encode/array.rs")], VT),
P("P07", "A length-limited container never reads past its declared length",
  "Fields of a container with a declared byte length see only that many bytes: an unbounded array or string inside it ends where the container ends, and a field that would need more is a decode error even when the surrounding data continues. What follows the container is decoded from where its fields stopped reading, and nested limits apply together.",
  ["inputs", "programs"], "every length expression, nesting and content, every byte string", T + "the limit is never reached or exceeded by a field in a test.",
  [K + "/decode/container.rs", K + "/encode/container.rs", D, N], [("limited reader", D), ("buffered encoding of limited containers", K + "/encode/container.rs")], VT),
P("P08", "Calculated fields are computed from the value being encoded",
  "Encoding writes, for a field declared as calculated, the value of its expression over the other fields of the value being encoded: the number of elements of an array, the exact number of bytes the encoding of another field takes, or any other expression, whatever the value stored in memory. Decoding a calculated field reads it from the data like any other field.",
  ["inputs", "programs"], "every calculated expression, every order of calculated field and target, every value", T + "only two calculated shapes are tried, with one value each.",
  [K + "/encode/container.rs", K + "/encode/field.rs", Q + "/len.rs", Q + "/blen.rs", X], [("order of evaluation and buffers for byte lengths", K + "/encode/container.rs"), ("len and blen", Q)], VT),
P("P09", "Tagged enums pick the first variant whose condition holds",
  "Decoding a tagged enum yields the first variant, in declaration order, whose condition over the type's arguments is true (a variant without a condition always applies), with that variant's content, and is an error when none applies. Encoding writes exactly the content of the value's variant when that is the variant the arguments select, and is an error when the arguments select another one.",
  ["inputs", "programs"], "every list of variants and conditions, including overlapping ones, variants with inline containers, arrays and named types, and every argument and byte string", T + "overlapping conditions and mismatched variants are never tried.",
  [K + "/decode/container.rs", K + "/encode/container.rs", D, N, CM], [("variant selection", K + "/decode/container.rs"), ("variant check when encoding", K + "/encode/container.rs")], VT),
P("P10", "Variable-length integers round-trip and have their LEB128 encoding",
  "A variable-length integer of any width encodes to the little-endian base-128 form of its two's complement bits: seven bits per byte, continuation bit on all but the last byte, no more bytes than its bits need. Decoding reads such a form of any allowed length and yields the same value, consuming exactly its bytes; input that ends in the middle is an error.",
  ["inputs"], "every value of all five widths, every byte string", T + "two values of one width are tried; the longest forms, where the shift meets the width, are not.",
  [Q + "/var.rs"], [("emitted decoder and encoder", Q + "/var.rs")], VT),
P("P11", "Strings have exactly their declared encoding and length",
  "A UTF-8 string with a declared length occupies exactly that many bytes, one without ends at (and consumes) a zero byte or the end of the data; a UTF-16 string occupies exactly the declared number of two-byte big-endian units. Decoding yields the text those bytes spell and is an error for malformed text or early end of input; encoding writes the same form and is an error when the text does not have the declared length.",
  ["inputs"], "every text and declared length, every byte string", T + "one ASCII string is tried.",
  [Q + "/utf8.rs", Q + "/utf16.rs"], [("emitted decoder and encoder", Q + "/utf8.rs"), ("emitted decoder and encoder", Q + "/utf16.rs")], VT),
P("P12", "Transforms apply to exactly their field, in order, and undo each other",
  "The bytes of a field with transforms are its plain encoding passed through the transforms in declaration order when encoding, and decoding applies their inverses in the opposite order, so that fields before and after are untouched. A transform's arguments are the values of its argument expressions, and a transform with a condition takes part exactly when the condition holds, in both directions.",
  ["inputs", "programs"], "every chain of transforms with arguments and conditions, on every kind of field and on named types, and every value", T + "single transforms are tried; a chain applied in the same order both ways, or an argument taken from the wrong field, is not.",
  [K + "/decode/field.rs", K + "/encode/field.rs", D, N, Q + "/gzip.rs", Q + "/base64.rs"], [("wrapping of streams", K)], VT),
P("P13", "Type arguments reach the referenced type unchanged, defaults when omitted",
  "Inside a type with arguments each argument has exactly the value of the corresponding expression at the reference, evaluated there, in decode and in encode, through any number of nested references and for every element of an array. An omitted optional argument has its declared default.",
  ["inputs", "programs"], "every argument list, nesting and value", T + "no more than two arguments of different types are ever passed.",
  [CM, D, N, K + "/decode/mod.rs", K + "/encode/mod.rs", "protospec-build/src/semantics/convert/type_/type_ref.rs"], [("argument passing", D), ("argument passing", N), ("defaults", CM)], VT),
P("P14", "Padding and prelude functions count exactly",
  "Padding of n bytes is skipped exactly when decoding, whatever its content, and written as n zero bytes when encoding. The padding function yields the least number that brings its second argument to a multiple of the first, the bit-count function the number of one bits, and the sum function the sum of the elements modulo 2^64.",
  ["inputs", "programs"], "every padding expression, function argument and byte string", T + "only aligned or constant paddings are tried.",
  [Q + "/pad.rs", Q + "/bits.rs", Q + "/sum.rs", D, N], [("pad", Q + "/pad.rs"), ("bits and sum", Q)], VT),
P("P15", "Expressions evaluate with the documented precedence and typed arithmetic",
  "An expression in a length, condition, calculated value or argument evaluates as its fully parenthesised form under the documented precedence and left associativity, with fixed-width wrapping arithmetic of the operands' types, casts that truncate or extend as in two's complement, and short-circuit logic, no matter how it is parenthesised or where it occurs. Constants stand for their values; an index out of range or a division by zero is an error.",
  ["inputs", "programs"], "every expression over the operators of the language, every operand value", T + "operators are tried one at a time on constants, so that precedence and associativity mistakes agree with the expected text.",
  [X, "protospec-build/src/parser/expression", "protospec-build/src/semantics/convert/expression"], [("emission of expressions", X), ("grammar", "protospec-build/src/parser/expression")], VT),
P("P16", "Imported declarations mean what they mean in their own file",
  "A type, constant, foreign type or transform that a file imports, under its own name or an alias, behaves exactly as it does in the file that declares it, whatever that file imports itself: spreading the declarations of a specification over files does not change what any of its types decodes or encodes. Code is generated for the imported files. An import of a file or name that does not exist, or of a file that imports itself, is an error.",
  ["programs", "inputs"], "every way of spreading declarations over files, of importing (order, aliases, repeated and indirect imports) and every input of the types", "the tests import one type of one file once.",
  ["protospec-build/src/semantics/convert/program/import.rs", "protospec-build/src/semantics/convert/program/resolve.rs", "protospec-build/src/semantics/convert/program/mod.rs", CM], [("imported names", "protospec-build/src/semantics/convert/program/import.rs"), ("loading of imported files", "protospec-build/src/semantics/convert/program/resolve.rs"), ("types of imported files", CM)], VT),
P("P17", "Decoding untrusted bytes always ends, in a value or an error",
  "Whatever the bytes, decoding any type returns a value or an error: it does not panic (no index, length, divisor, conversion or alignment taken from the data can make it), it comes to an end, and what it allocates stays in proportion to the bytes it was given, however large the lengths in the data are. In particular a decoded array never has more elements than bytes were consumed for it. (Types that contain themselves, elements that occupy no bytes and decompression are not covered: what they cost is not bounded by the input.)",
  ["inputs", "programs"], "every byte string, including extreme lengths and truncation at every point", T + "no test decodes malformed or hostile data.",
  [D, X, Q, CM], [("reads, allocation and loops of decoders", D), ("index, division and conversion of values from the data", X), ("foreign types", Q)], VT),
P("P18", "The text of a specification is read as the tokens the language defines",
  "Every text is either divided into tokens or refused with an error, and this always ends without a panic. A token is the longest symbol that fits, a keyword or identifier, a decimal or hexadecimal integer, or a string with its escapes replaced; white space and comments separate tokens and are otherwise ignored. A character no token starts with and a string that is not closed are errors. Every token is reported with the line and column where it starts and where it ends.",
  ["inputs"], "every text", "two texts are tokenised and printed back, without looking at positions, malformed input or the borders between tokens.",
  ["protospec-build/src/tokenizer.rs"], [("one token", "protospec-build/src/tokenizer.rs"), ("positions", "protospec-build/src/tokenizer.rs")], DT, "proof", DN),
P("P19", "Every sequence of tokens is parsed as the grammar says, or refused",
  "A specification is accepted exactly when its tokens form declarations of the grammar, and the tree is the one the grammar gives: operators bind by their precedence and group to the left, prefix operators apply from the inside out, casts, indexing and members follow their operand, fields have their type, calculated value, flags, condition and transforms in this order, lists may end with a comma where the grammar allows it, and nothing that was read is lost or read twice. Anything else is refused with an error. Parsing always ends and does not panic.",
  ["inputs"], "every sequence of tokens", "two specifications are parsed; no precedence, no optional part and no malformed input is looked at one by one.",
  ["protospec-build/src/parser", "protospec-build/src/ast"], [("expressions", "protospec-build/src/parser/expression"), ("types and fields", "protospec-build/src/parser/types"), ("declarations", "protospec-build/src/parser/declaration")], DT, "proof", DN),
P("P20", "Constants and enum and bitfield items have the value of their expression",
  "A constant expression, used as the value of an enum variant or a bitfield flag or through the constants they name, has exactly the value its operators give it in the integer type it has there: arithmetic that leaves the type, a division by zero, a shift by the width or more, the negation of an unsigned number and a literal that does not fit are refused and never wrap; casts truncate or extend as in two's complement, division rounds towards zero. A variant without a value is the last one given plus its distance to it, a flag without a value the last one given shifted by its distance to it; a name is given only once.",
  ["inputs", "programs"], "every constant expression over all integer types, every literal, every list of items", "the tests give literal values only, and no expression that overflows.",
  ["protospec-build/src/asg/expression/const_int.rs", X, "protospec-build/src/semantics/convert/type_/enum_.rs", "protospec-build/src/semantics/convert/type_/bitfield.rs", "protospec-build/src/semantics/convert/expression/int.rs", "protospec-build/src/ast/types/scalar.rs"], [("arithmetic", "protospec-build/src/asg/expression/const_int.rs"), ("evaluation", X), ("implicit items", "protospec-build/src/semantics/convert/type_")], DT, "proof", DN),
P("P21", "The asynchronous code decodes and encodes exactly what the synchronous code does",
  "For every type, the asynchronous decoder and encoder accept the same inputs, produce the same values and bytes, consume the same number of bytes and fail in the same cases as the synchronous ones.",
  ["inputs", "programs"], "every type and every byte string and value", "the tests never run the asynchronous code of most constructs; the two are emitted from separate templates.",
  [D, N, Q, K], [("asynchronous variants of the templates", D), ("asynchronous variants of the templates", N)], VT),
]
NA = []
HOOKS = None
if __name__ == "__main__":
    with open(R + "/properties.jsonl", "w") as f:
        for p in ps: f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    m = {"version": 1, "setup_cmd": "bin/setup", "checks": [dict(property=p["id"], quick_cmd=f"bin/check {p['id']} quick", thorough_cmd=f"bin/check {p['id']} thorough", technique=p["_t"], level=p["_l"], level_note=p["_n"] or VN) for p in ps if p["_t"]],
         "not_applicable": NA, "notes": "See DESIGN.md."}
    if HOOKS: m["hooks"] = HOOKS
    json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1); open(R + "/MANIFEST.json", "a").write("\n")
