#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one source of truth for ids, titles and statements).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Integer codecs: standard wire form, lossless, out-of-range rejected",
  "Every zserio integer (fixed width, bit fields of 1..64 bits, varint16/32/64/varint, varuint16/32/64/varuint, varsize) is written in the bit pattern the zserio format prescribes for it, and reading those bits at the same stream position yields the same value and consumes exactly those bits. A value the type cannot represent is refused with an error instead of being truncated or wrapped, and the named limits (ztype.Min*, ztype.Max*) are the ends of the ranges that can be written.",
  ["inputs"], "every integer type and width, every value, every starting bit offset",
  "The tests list a few dozen byte-aligned values per type; the claim is over 2^64 values x 64 widths x 8 start offsets, in particular at the length boundaries of the variable-size forms.",
  ["ztype/bits_encode.go", "ztype/bits_decode.go", "ztype/varint_encode.go", "ztype/varint_decode.go", "ztype/varuint_encode.go", "ztype/varuint_decode.go", "ztype/limits.go"],
  [("range checks and bit emission", "ztype/bits_encode.go, ztype/varint_encode.go, ztype/varuint_encode.go"), ("sign extension and continuation bits", "ztype/bits_decode.go, ztype/varint_decode.go, ztype/varuint_decode.go")],
  ["ztype.Write*/Read* on a zstream writer/reader"])
p("C02", "Bool, float, string, bytes and extern codecs are lossless and standard",
  "A bool, float16/32/64, string, bytes or extern value is written in the zserio bit layout (a length prefix counted in bytes, or in bits for extern, followed by exactly that many bits of content) at any bit position, and reading it back yields the same value, including NaN, infinities, signed zero, subnormals, empty content and extern contents that do not fill their last byte. A float16 holds the nearest representable value.",
  ["inputs"], "all 65536 half floats, all boundary floats, all short strings/byte blobs/bit blobs, every start offset",
  "Tests check a handful of aligned values; extern with a partial last byte at an unaligned position is never tried.",
  ["ztype/float_encode.go", "ztype/float_decode.go", "ztype/string_encode.go", "ztype/string_decode.go", "ztype/bytes_encode.go", "ztype/bytes_decode.go", "ztype/extern_encode.go", "ztype/extern_decode.go", "ztype/bool_encode.go", "ztype/bool_decode.go"],
  [("length prefix and content", "ztype/*_encode.go, ztype/*_decode.go")], ["ztype.Write*/Read*"])
p("C03", "Bit streams: any operation sequence equals appending or consuming bits",
  "For every sequence of writer operations (bits, unsafe bits, bool, byte, byte slices, align, close) the bytes produced are the concatenation, most significant bit first, of what each operation wrote, zero padded to a byte at close, and the reported position is the number of bits written. For every sequence of reader operations over a byte string the values are the corresponding consecutive bits, alignment skips to the next multiple of the boundary counted from the stream start, and reading past the end is an error.",
  ["histories", "inputs"], "every operation sequence up to a depth, from every bit offset",
  "Tests exercise single operations; the claim is about arbitrary interleavings of unaligned and aligned operations sharing one cursor.",
  ["zstream/reader.go", "zstream/writer.go"], [("bit cursor and alignment", "zstream/reader.go, zstream/writer.go")], ["zstream.NewReader/NewWriter"])
p("C04", "Unpacked arrays: length, order and every element survive, in the zserio layout",
  "An unpacked array of any element type is encoded as its length (only for auto-length arrays, in the variable-size length form) followed by every element in order in the element type's own encoding, and decoding returns the same elements in the same order. An array whose number of elements differs from its declared fixed length is refused with an error.",
  ["inputs", "programs"], "every element type, every length 0..n and elements from its boundary domain, fixed and auto length, optional arrays",
  "Unit tests sample fixed arrays per trait; generated code for arrays of subtypes, enums, bitmasks, strings and structs is not run at all by the test suite.",
  ["ztype/array_encode.go", "ztype/array_decode.go", "ztype/object_array_encode.go", "ztype/object_array_decode.go", "ztype/array_traits.go", "internal/generator/templates/encode.go.tmpl", "internal/generator/templates/decode.go.tmpl", "internal/generator/templates/array_init.go.tmpl"],
  [("array loop and element traits", "ztype/array_*.go, ztype/array_traits.go")], ["generated MarshalZserio/UnmarshalZserio", "ztype.Array"])
p("C05", "Packed arrays of integers, enums and bitmasks are lossless and standard",
  "A packed array decodes to exactly the elements that were encoded, in order, for every element type, whatever the differences between consecutive elements (zero, sign crossing, full range). Its bits follow the zserio packing scheme: a descriptor bit, a 6-bit delta width when packed, the first element plain, then fixed-width signed deltas, with packing chosen exactly when it is smaller.",
  ["inputs", "programs"], "every packable element type, every sequence of elements over a boundary domain up to a length",
  "Two packed arrays are in the (never run) reference tests; delta width and the packed/unpacked decision depend on all elements at once.",
  ["ztype/delta_context.go", "ztype/packed_array_traits.go", "ztype/array_encode.go", "ztype/array_decode.go"],
  [("delta width, packing decision, previous-element state", "ztype/delta_context.go")], ["generated code with packed arrays", "ztype.Array"],
  [dict(name="DeltaContext", meaning="previous element, widest delta, whether packing pays", where="ztype/delta_context.go")])
p("C06", "Structs encode their present fields in declaration order and decode to equals",
  "A struct is encoded as its fields in declaration order, each in its own type's zserio encoding, with padding to the declared alignment, one presence bit for an optional field, and nothing for a field whose condition is false. Decoding those bits yields an equal object, leaves absent fields absent, and consumes exactly those bits, at whatever bit position it starts.",
  ["inputs", "programs"], "every struct shape up to a number of fields over an alphabet of field kinds and modifiers, every combination of small values",
  "Generated marshalling code is run by the test suite for two tiny schemas; order, presence and alignment interact pairwise across field kinds.",
  ["internal/generator/templates/struct.go.tmpl", "internal/generator/templates/encode.go.tmpl", "internal/generator/templates/decode.go.tmpl", "internal/ast/struct.go", "internal/ast/field.go", "marshal.go"],
  [("field-by-field code", "internal/generator/templates/encode.go.tmpl, decode.go.tmpl")], ["zserio.Marshal/Unmarshal on generated types"])
p("C07", "Choices encode exactly the branch their selector names",
  "A choice is encoded as exactly the field of the case whose labels contain the selector value, or the default field when no label matches, or nothing when that case has no field; no tag is written. Decoding with the same selector restores the same branch and value.",
  ["inputs", "programs"], "every selector type (integer, bool, enum, bitmask), every assignment of labels to branches up to a size, every selector value",
  "No test runs a generated choice; label matching is over all selector values including those no label names.",
  ["internal/generator/templates/choice.go.tmpl", "internal/ast/choice.go"],
  [("selector switch", "internal/generator/templates/choice.go.tmpl")], ["generated choice types nested in structs"])
p("C08", "Unions encode their choice tag and only the chosen field",
  "A union is encoded as the zserio choice tag of the selected field (its zero-based position in the declaration, in the variable-size form) followed by that field only, and decoding restores the same selection and value. A union with no field selected, or a tag that names no field, is refused with an error.",
  ["inputs", "programs"], "every union shape up to a number of fields, every selection, every tag value read",
  "No test runs a generated union; unknown tags only arise from foreign or corrupted input.",
  ["internal/generator/templates/union.go.tmpl", "internal/ast/union.go"],
  [("tag dispatch", "internal/generator/templates/union.go.tmpl")], ["generated union types"])
p("C09", "Parameters, dynamic widths, lengths and conditions use the values in scope",
  "A parameterised type sees exactly the argument values its use site computes from the enclosing object, including literals, sibling fields, the caller's own parameters and the element index inside arrays, when encoding, sizing and decoding. Dynamic bit widths, array lengths and field conditions computed from them therefore select the same bits in both directions.",
  ["inputs", "programs"], "every argument form and consumer form combined, all small values, arrays of parameterised elements",
  "Argument passing differs per template site (plain, optional, array, packed) and no executed test passes a parameter at all.",
  ["internal/generator/templates/encode_compound_parameters.go.tmpl", "internal/generator/templates/decode_compound_parameters.go.tmpl", "internal/generator/expression.go", "internal/generator/templates/array_init.go.tmpl"],
  [("argument expressions emitted at each use site", "internal/generator/templates/*_compound_parameters.go.tmpl")], ["generated code"])
p("C10", "Packed arrays of compound types are lossless and standard",
  "A packed array of structs, choices, unions or nested compounds decodes to exactly the objects that were encoded: every packable leaf field is delta-coded against the same field of the previous element that had it, every other field is written plainly, and absent optional, conditional or unselected fields take no part. The bits follow the zserio packing scheme.",
  ["inputs", "programs"], "every element shape up to a size over the field alphabet, every sequence of up to n elements over small values",
  "Packing state is kept per field path across elements; only never-run reference tests touch it.",
  ["internal/generator/templates/packing_context_create.go.tmpl", "internal/generator/templates/packing_context_init.go.tmpl", "internal/generator/templates/packing_context_encode.go.tmpl", "internal/generator/templates/packing_context_decode.go.tmpl", "ztype/object_array_encode.go", "ztype/object_array_decode.go", "ztype/object_array_traits.go", "packing_context_node.go"],
  [("tree of packing contexts parallel to the fields", "internal/generator/templates/packing_context_*.go.tmpl")], ["generated code"])
p("C11", "The reported bit size equals the number of bits written",
  "For every object of a generated type and every starting bit position, the bit size it reports equals the number of bits its encoding occupies when written at that position.",
  ["inputs", "programs"], "every type of the struct, choice, union, array and parameter families, every small value, start positions 0..15",
  "No test calls the size functions of generated types; the size code is a second implementation of the layout that must agree everywhere.",
  ["internal/generator/templates/bitsizeof.go.tmpl", "internal/generator/templates/builtin_bitsizeof.go.tmpl", "ztype/array.go", "ztype/object_array.go", "ztype/array_traits.go", "ztype/bit_alignment.go"],
  [("size computation parallel to encoding", "internal/generator/templates/bitsizeof.go.tmpl")], ["generated ZserioBitSize vs MarshalZserio"])
p("C12", "Marshalling never reports success for data it did not write",
  "If any part of an object cannot be encoded (a value out of its declared range at any depth or array position, an array of the wrong length) or the underlying writer fails at any point, marshalling returns an error. When it returns no error, everything has been written.",
  ["inputs", "fault_sequences"], "every leaf position made unrepresentable, every write call made to fail, in every type of the families",
  "Tests never inject a failing writer and never nest an out-of-range value.",
  ["marshal.go", "ztype/array_encode.go", "ztype/object_array_encode.go", "ztype/packed_array_traits.go", "ztype/object_array_traits.go", "internal/generator/templates/encode.go.tmpl"],
  [("error returns along the encode path", "ztype/*_encode.go, templates")], ["zserio.Marshal", "MarshalZserio on a failing writer"])
p("C13", "Decoding arbitrary bytes ends in a value or an error, never a panic",
  "Decoding any byte string as any type terminates with an error or an object, without panicking. A proper prefix of a valid encoding that lacks needed bits is always an error, and an object decoded without error can be re-encoded and decodes again to an equal object.",
  ["inputs"], "all byte strings up to a length plus all prefixes and single-byte corruptions of valid encodings, for every type of the families",
  "Tests never feed malformed input to generated code.",
  ["marshal.go", "ztype/array_decode.go", "ztype/object_array_decode.go", "ztype/delta_context.go", "ztype/string_decode.go", "internal/generator/templates/decode.go.tmpl"],
  [("error checks along the decode path", "ztype/*_decode.go, templates")], ["zserio.Unmarshal"])
p("C14", "Read faults and short reads: same value or an error, nothing invented",
  "When the underlying reader delivers its bytes in arbitrarily small pieces the decoded object is the same as when it delivers them at once. When the reader fails at any point before the last needed byte, decoding returns an error.",
  ["fault_sequences"], "every read call answered short, and every read call made to fail, for encodings of every type of the families",
  "Tests use in-memory readers that never return short counts or errors.",
  ["zstream/reader.go", "ztype/string_decode.go", "ztype/bytes_decode.go", "ztype/extern_decode.go", "ztype/delta_context.go", "ztype/array_decode.go"],
  [("io.ReadFull and error returns", "ztype/*_decode.go")], ["zstream.NewReader over a scripted io.Reader"])
p("C15", "Concurrent use of distinct objects never interferes",
  "Encoding, sizing and decoding distinct objects from several goroutines gives each the result it would have had alone, in every interleaving, with no data race, whatever types they share and whichever is used first in the process. Likewise encoding an object changes none of its declared fields, and two encodings of an unchanged object are identical.",
  ["schedules", "histories"], "all interleavings of two or three operations at stream-operation granularity up to a preemption bound, every first-use order, and a race-detector pass",
  "The tests are single threaded and each process warms shared state in one order only.",
  ["ztype/array_traits.go", "internal/generator/templates/instantiate_array_traits.go.tmpl", "ztype/array_encode.go", "ztype/delta_context.go"],
  [("per-call packing contexts and stateless traits", "ztype/array_traits.go")], ["generated code driven by a controlled scheduler"],
  [dict(name="array traits singletons and caches", meaning="process-wide state shared by all arrays", where="ztype/array_traits.go")])
p("C16", "Schema expressions mean in generated code what they mean in zserio",
  "Every expression accepted in a schema (constants, enum and bitmask values, array lengths, conditions, function results, arguments) evaluates to the value given by zserio's operators and precedence, whether it is folded at generation time or computed by generated code at run time. The two never disagree. (What zserio leaves open is not covered: results beyond 64 bits, division by zero, shifts by a negative or too large amount.)",
  ["inputs", "programs"], "every expression tree up to a depth over all operators, operands that are literals, constants, enum items, bitmask values, fields and parameters, all small operand values",
  "The 20-odd expression tests evaluate hand-picked constant expressions and never run the emitted Go.",
  ["internal/ast/expression.go", "internal/generator/expression.go", "internal/visitor/visitor.go"],
  [("constant folding", "internal/ast/expression.go"), ("translation to Go source", "internal/generator/expression.go")], ["generated constants and functions"])
p("C17", "Generation is deterministic and independent of file and map order",
  "Running the generator on the same set of schemas produces byte-identical output every time, independent of the order in which schema files are given and of any unordered iteration inside the generator.",
  ["schedules", "configurations"], "every order of the input files, every order of internal map iteration up to a deviation bound",
  "A test runs the generator once with one random map order.",
  ["internal/model/model.go", "internal/model/transform.go", "internal/ast/package.go", "internal/ast/scope.go", "internal/generator/gen.go"],
  [("sorted emission and order-free resolution", "internal/model/transform.go, internal/generator/gen.go")], ["files written by go-zserio generate"])
p("C18", "Every accepted schema yields Go code that compiles",
  "If the generator exits successfully, the files it wrote form Go packages that compile, for every combination of types, modifiers, comments, names, imports and packages it accepts.",
  ["programs"], "every schema of the enumerated grammar fragments: declarations x modifiers x comments x names x imports",
  "Tests compile about twenty fixed schemas.",
  ["internal/generator/gen.go", "internal/generator/strip_imports.go", "internal/generator/funcs.go", "internal/generator/templates/preamble.go.tmpl", "internal/ast/mixing_native_types.go"],
  [("import stripping, identifier casing, templates", "internal/generator")], ["go build of generated files"])
p("C19", "Invalid schemas are refused with an error and no crash",
  "A schema with a syntax error, an unresolvable type, symbol, import or template, or an ill-typed construct makes the generator exit with an error message; it neither crashes nor reports success with a partial or empty output.",
  ["inputs"], "every single-token deletion, duplication, replacement and truncation of seed schemas, and every unresolved-reference variant",
  "No test gives the generator an invalid schema.",
  ["internal/ast/package.go", "internal/visitor/visitor.go", "internal/model/model.go", "internal/model/transform.go", "internal/cli/generate.go"],
  [("parser error handling and reference resolution", "internal/ast/package.go, internal/model/transform.go")], ["exit status and output of go-zserio generate"])
p("C20", "Subtypes, templates, imports and packages do not change the encoding",
  "Using a subtype instead of its base type, a template instantiation instead of the hand-expanded type, a constant instead of its literal, or an imported definition instead of a local one changes neither the encoded bits nor the decoded values. References resolve to the definition that the zserio scoping rules name, in every package layout.",
  ["programs", "configurations"], "each field kind wrapped in each form of indirection (subtype chain, template argument, imported package, nested template), all small values",
  "Tests only check that some indirections generate; equality of behaviour across forms is never compared.",
  ["internal/model/transform.go", "internal/ast/scope.go", "internal/ast/package.go", "internal/ast/mixing_native_types.go", "internal/generator/types.go"],
  [("name resolution, template instantiation, native-type lookup", "internal/model/transform.go, internal/ast/scope.go")], ["generated code of the plain and the indirect schema"])
p("C21", "Enums and bitmasks carry the declared values and convert both ways",
  "Each enum item and bitmask value has the value the schema gives it (explicit, or following its predecessor: plus one for enums, next free bit for bitmasks). For enums, name and value convert to each other without loss, unknown names and values are reported as such, and the SQL value and scan operations are inverse; encoding uses the declared underlying type.",
  ["inputs", "programs"], "every explicit/implicit value pattern up to n items over every underlying type; every name, near-miss name and value",
  "One enum is tested.",
  ["internal/ast/enum.go", "internal/ast/bitmask.go", "internal/generator/templates/enum.go.tmpl", "internal/generator/templates/bitmask.go.tmpl"],
  [("value numbering and conversion tables", "internal/ast/enum.go, internal/generator/templates/enum.go.tmpl")], ["generated enum and bitmask types"])
p("C22", "Output files: one per definition, unique, placed by package, within limits",
  "Each definition of the selected packages is written to exactly one file in the directory of its package, no two definitions share or overwrite a file however their names collide after case folding or shortening, and no file path exceeds the configured maximum length. Writing again, or over an older output, yields the same files, and a write that fails is reported as an error.",
  ["programs", "configurations", "fault_sequences"], "every small multiset of colliding type and package names, every path limit in a range, repeated runs, every output-file failure",
  "One test generates one directory once.",
  ["internal/generator/gen.go", "internal/cli/generate.go"],
  [("path assembly and uniqueness table", "internal/generator/gen.go")], ["output tree of go-zserio generate"])
p("C23", "Default values: loading defaults sets each field's declared default",
  "Loading the default values of a generated object sets every non-optional field that declares a default to that value, whatever its type and the form of the default expression, leaves optional fields, arrays and fields without a default unchanged, and does so for nested objects as well; the initialised object encodes like one with those values assigned by hand.",
  ["programs", "inputs"], "every field type with every form of default expression, alone and nested",
  "One struct with defaults is tested.",
  ["internal/generator/templates/default_values.go.tmpl", "internal/visitor/visitor.go", "internal/ast/struct.go"],
  [("default initialisers", "internal/generator/templates/default_values.go.tmpl")], ["generated LoadDefaultValues"])
p("C24", "Layout, comments, spelling of numbers and order of definitions do not matter",
  "The code generated for a schema depends only on its tokens and their meaning: white space and line ends of every kind, comments of every kind (line, block, documentation, markdown) at any place between tokens, the notation of an integer literal in an expression (decimal, hexadecimal, octal, binary) and the order of the definitions in a file change nothing but comments and the order of declarations in the generated Go code; the schema stays accepted.",
  ["programs"], "every gap between two tokens with every filler, every integer literal in every notation, orders of the definitions of a file",
  "The tests generate code from a fixed set of schemas laid out one way.",
  ["internal/parser/ZserioLexer.g4", "internal/visitor/visitor.go", "internal/ast/expression.go", "internal/ast/scope.go", "internal/ast/package.go"],
  [("literals", "internal/ast/expression.go"), ("comments", "internal/visitor/visitor.go")], ["go-zserio generate"])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
