#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
T = {}
def check(i, tech, note): T[i] = (tech, note)

check("C01", "explicit enumeration of integer codec values and positions against a bit-vector model", "All 145 integer codecs; every 16-bit (thorough 17-bit) value and every structured wider value, in and out of range, at all start bits; every 1-2 byte input and structured longer ones for the variable-size readers; widths 65..255")
check("C02", "explicit enumeration of float, string, bytes and extern values and positions against a bit-vector model", "Every half-precision pattern and every rounding boundary (thorough: all 2^32 float32), every exponent of float32/64 with structured mantissas, strings and bytes up to length 3 over an alphabet and at every header size, every extern content up to 14 (thorough 18) bits, inconsistent buffers")
check("C03", "exhaustive operation sequences up to a depth against a bit-vector model", "Every sequence of 31 writer and 28 reader operations up to length 3 (thorough 4) over streams of 0..24 bytes, every alignment boundary 1..255 at every position up to 768 (thorough 2304), checked after each step")
GEN = "generated by the working tree's generator from every schema of the family, compiled, and every value up to the bound encoded at several start bits by the real code and by an independent executable model of the zserio format; bits must be equal and decode back"
check("C04", "explicit enumeration of the value space of array types, real code compared with a reference model of the format", "All element types x array forms (auto, fixed, computed length, optional, conditional), lengths 0..4, boundary element values; " + GEN)
check("C05", "explicit enumeration of element sequences, real code compared with a reference model of delta packing", "Every packable type; all sequences of boundary values up to length 3-4 and patterned long arrays; " + GEN)
check("C06", "explicit enumeration of struct shapes and values, real code compared with a reference model of the format", "All structs of one field, two fields over the leaf x modifier alphabet and selected deeper ones, all small values; " + GEN)
check("C07", "explicit enumeration of choice shapes, selectors and values against a reference model", "14 selector types x label layouts x default forms x all branch kinds; " + GEN)
check("C08", "explicit enumeration of union shapes, selections and values against a reference model", "All leaf kinds and array forms as union fields, 1..130 fields, nesting; " + GEN)
check("C09", "explicit enumeration of argument x consumer x use-site programs and values against a reference model", "14 argument forms x 14 consumers x 10 use sites, parameter types, struct parameters, all widths 1..64; nested parameters hold leftovers from elsewhere; " + GEN)
check("C10", "explicit enumeration of packed compound arrays against a reference model of the packing scheme", "All leaf kinds x modifiers as element fields, pairs, nested arrays, choices, unions, parameters; element sequences up to 3 and long patterns; " + GEN)
check("C11", "explicit enumeration of objects and start positions, size compared with the bits of the reference model and of the real writer", "All types of the families of C04-C10, every start bit 0..15, before and after encoding")
check("C12", "exhaustive fault injection: every write call made to fail and every leaf made unrepresentable, judged against the reference model", "For every type (quick: one per combination of field kinds and modifiers; thorough: all types of C04-C10) and its values: every write call of the underlying writer fails once (also partial writes), every leaf and array length is replaced by each unrepresentable value; success is only accepted when the model encodes the value and every bit was written")
check("C13", "explicit enumeration of input byte strings, real decoder compared with a decoder of the reference model", "For every type: all byte strings up to 1 byte (thorough 2), every truncation, single-bit flip and byte substitution of the encodings of its values; the verdict (value or error), the value, the bits consumed and the re-encoding must agree with the model")
check("C14", "exhaustive fault injection: every read call short or failing, judged against the reference model", "For every type and encoding: one byte at a time, every read call split, every read call failing (before or with data); result must be the same object or an error, and an error when the fault precedes the last needed byte")
check("C15", "exhaustive exploration of interleavings of the real code under a controlled scheduler, and of operation histories, judged against the reference model", "450 types; scheduling points before every statement of the runtime library and the generated code: all schedules of two threads (marshal, size, unmarshal; same type and neighbouring types) with 1 preemption at statements and 2 at I/O calls, of three threads and 2 statement preemptions for representatives, all pairs of 99 representatives; all histories of 8 operations (incl. failed writes, truncated reads) up to length 3 (thorough 4) on two objects; every type as the first one used in a new process; free runs under the race detector as a supplement")
check("C16", "exhaustive enumeration of expression trees up to a depth, run through the real generator, compiled and executed on all small operand values, against an arbitrary-precision reference evaluator", "all operators over 40 kinds of operand (fields of every integer type, constants and literals in all notations, enum items, bitmask values, members, array elements, lengthof, valueof, numbits, functions, optional fields, floats, booleans, imported constants): all depth-1 trees over all operand pairs, all pairs of operators at depth 2, one operator per precedence class at depth 3 (thorough: more triples), with minimal and full parentheses; folded (constants, enum items, bitmask values) and at run time (functions, conditions, lengths, bit widths, arguments); results the language leaves open (overflow of 64 bits, division by zero, shifts outside 0..63, signed mixed with values above int64) are not judged")
check("C21", "exhaustive enumeration of numbering patterns and underlying types, generated code compiled and every name, near-miss name and value tried, wire form compared with the reference model", "every assignment of explicit or implied values to up to 3 (thorough 4) items of enums over uint8 and int8 and bitmasks over uint8, bounds of all 41 integer types and 6 subtypes (also imported), 17 notations of a value, item names of every casing, 300-item enums, 63-value bitmasks; all names one edit away, all neighbouring values; fields, arrays, packed arrays, packed structs and optional fields of each type")
check("C20", "explicit enumeration of forms of indirection in every package layout, real code compared with a reference model that resolves names by itself", "every kind of definition through every import style (package, one symbol, qualified, transitive, cyclic) with homonymous definitions of other widths in neighbouring packages, subtype chains of length 1-3 over every base, every template form x argument form in the own and a far package, names of instantiations that collide or are taken, fields and parameters named like constants and types; " + GEN)
check("C23", "exhaustive enumeration of field types, forms of default expression, modifiers and nestings, and of the values objects hold before, the result compared with the reference model", "all 41 integer types with their bounds and 11 forms of expression (notations, constants, imported constants, enum items, operators), subtypes, booleans, floats, strings, enums, bitmasks (also imported and through subtypes); alone, aligned, optional, conditional; nested in structs, unions, choices, arrays, optionals, templates, imported structs; every small value before; loading twice")

check("C17", "exhaustive exploration of map iteration orders and file orders of the real generator under a controlled scheduler, all outputs compared byte for byte", "Every map range of the generator's packages is rewritten (overlay) to take its order from the explorer; every order of a range of up to 4 keys, every rotation and reversal of larger ones, every pair of sites jointly, and every order of the schema files, over 13 sets of schemas that use every construct; the maps inside the antlr runtime and the template library are not controlled (they do not feed the order of anything that is written).")
check("C18", "exhaustive enumeration of schemas (every one-token mutation, comment position, name, type in every use, import form), what the real generator writes is type-checked", "68 000 one-token mutants of the seed schemas, 4 800 comments, 25 000 names in 30 positions, 6 300 type x use combinations, 10 800 import forms; schemas valid by construction must be accepted. Thorough: mutants of the repository's own schemas and all comment positions too.")
check("C19", "exhaustive enumeration of token deletions, insertions, duplications, swaps and truncations of schemas judged by a recogniser of the grammar, and of ill-typed constructs", "68 700 schemas of which every one that the grammar does not derive, and each of 760 semantically invalid ones, must be refused with a message, without a crash, a hang or any output file.")
check("C22", "exhaustive enumeration of colliding names, path limits, packages and outputs written before, and exhaustive fault and crash injection into every file operation of the real generator", "All pairs of 32 names x kinds of definitions, triples, up to 102 names shortened to the same, limits from the shortest; every operation on a file fails, writes half, or is the last one before a crash, followed by a run without the fault; every directory, link or file in the way; every way to name the schemas.")
check("C24", "exhaustive enumeration of fillers, notations and orders of definitions, the tokens of what the real generator writes compared with those for the original schema", "15 seed schemas with every construct and the repository's own: each of 23 fillers (white space, line ends, comments of every kind) in the gap of every pair of kinds of tokens (thorough: in every gap of the seeds), two of them in every gap, each filler in all gaps at once, as little white space as possible, 6 notations of every integer literal, all orders of up to 4 (6) definitions of a file and orders that put every two of more definitions both ways around")
NOT = {}
props = [json.loads(l) for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in T:
        tech, note = T[i]
        m["checks"].append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT.get(i, "check not built yet")})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
