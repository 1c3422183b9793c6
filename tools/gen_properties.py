#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "The parser accepts exactly the schema language and loses nothing",
 "For every text, parsing succeeds exactly when the text is a sequence of comments, enum declarations, struct declarations and export statements in the documented syntax, where a declared name (type, field or variant) consists of letters, digits and underscores, does not start with a digit and is not equal to a keyword (a base type, `enum` or `struct`). The result contains exactly the declarations, variants, fields, type names, array markers and optional markers which the text spells, with their exact spelling and in the order of the text.",
 ["inputs"], "All texts: every string over the characters of the language, and scaled-up schemas (long names, many fields, many variants, many declarations).",
 "17 parser tests each try one text; acceptance, rejection and the parsed tree have to be right for every text, in every combination of constructs, separators and name shapes.",
 ["src/lib/parser.rs", "src/lib/ast.rs", "format.md"],
 [("peg grammar pkt", "src/lib/parser.rs:5")], ["packetc_lib::parser::pkt::schema"])

prop("C02", "Whitespace, line breaks, comments and commas never change the meaning",
 "Wherever the schema language allows them, adding, removing or changing spaces, tabs, blank lines, LF or CRLF line ends, comments (with any content) and optional or trailing commas turns an accepted schema into an accepted schema with the same generated module.",
 ["inputs"], "All accepted schemas and all ways to lay them out.",
 "The tests strip indentation from their inputs and use one layout per construct; a layout bug needs a particular separator at a particular gap, or a particular pair of them.",
 ["src/lib/parser.rs"], [("whitespace and comment rules", "src/lib/parser.rs:6-15"), ("separators inside enum, struct, decl, line", "src/lib/parser.rs:40-88")],
 ["packetc_lib::compile"])

prop("C03", "Any text yields a module or a well-placed diagnostic, never a crash",
 "For every input text the compiler returns a module or an error and never panics; the error is a syntax error exactly when the text is outside the schema language. The line, column, token, echoed line and caret of a syntax error all designate the same place of the text, also when the text contains non-ASCII characters, and it is the first token at which the text stops being the beginning of any valid schema.",
 ["inputs"], "All texts, including non-ASCII ones, and all syntax errors.",
 "No test calls the function which formats syntax errors, and totality is a statement about all inputs.",
 ["src/lib/lib.rs", "src/lib/parser.rs", "src/lib/check.rs"],
 [("pretty_error", "src/lib/lib.rs:27"), ("compile", "src/lib/lib.rs:46")], ["packetc_lib::compile"])

prop("C04", "Type checking accepts exactly the well-formed schemas",
 "A parsed schema is accepted exactly when it has one export which names a declared struct, all declared names are distinct, every enum has 1 to 32 distinct variants, every struct has distinct field names, every field type is built in or declared, no field is both optional and an array, and no struct contains itself directly or through other structs. This holds for unused declarations too, and does not depend on the order of the declarations.",
 ["inputs", "programs"], "All schemas: every reference graph between declarations, every placement of every defect, every iteration order of internal hash maps.",
 "The 15 checker tests each contain one defect in one place; combinations of defects with reference graphs (a defect behind an unresolved type, cycles reached from outside, diamonds) are not tested, and internal iteration order is random.",
 ["src/lib/check.rs"],
 [("get_export, collect_types", "src/lib/check.rs:15-43"), ("resolve_enum", "src/lib/check.rs:168"), ("first pass", "src/lib/check.rs:197"), ("second pass", "src/lib/check.rs:262"), ("resolve_export", "src/lib/check.rs:380")],
 ["packetc_lib::check::type_check"], state=[("cache", "types resolved so far", "src/lib/check.rs"), ("visited", "types being or having been resolved, for cycle detection", "src/lib/check.rs")],
 hook="--cfg packetc_mc: chosen hash iteration order")

prop("C05", "Every type error names a defect that the schema really has",
 "When a schema is rejected by the type checker, the error describes a defect which is present in that schema and names the declarations, fields or variants which have it: a type reported missing is not declared, a type reported in a cycle contains itself, and likewise for duplicates, variant counts, optional arrays and exports.",
 ["inputs", "programs"], "All ill-formed schemas, also with several defects, and all iteration orders of internal hash maps.",
 "Tests check messages for one-defect schemas only; which of several code paths reports a defect depends on the reference graph and on random iteration order.",
 ["src/lib/check.rs"], [("error construction in both passes", "src/lib/check.rs:15-395")],
 ["packetc_lib::check::type_check"], hook="--cfg packetc_mc: chosen hash iteration order")

prop("C06", "Resolution keeps every field, type, flag and order of the schema",
 "For every accepted schema, the resolved schema has for each struct exactly its fields in declaration order, each with its declared type and its array and optional markers, and for each enum exactly its variants in order, the i-th one (from 0) being bit i, in the smallest of 8, 16 and 32 bits that has a bit for each. Exactly the types which the exported struct reaches, directly or through other structs, are kept.",
 ["inputs", "programs"], "All accepted schemas and all iteration orders of internal hash maps.",
 "One test looks at a resolved schema at all, and only for the absence of one unused type; the rest assert that checking succeeds.",
 ["src/lib/check.rs"], [("resolve_struct_field", "src/lib/check.rs:143"), ("field order in the second pass", "src/lib/check.rs:262-345"), ("collect_used_types, remove_unused", "src/lib/check.rs:362-378")],
 ["packetc_lib::check::type_check"], hook="--cfg packetc_mc: chosen hash iteration order")

prop("C07", "One schema always compiles to one protocol",
 "Compiling the same schema any number of times gives modules which agree in everything except the timestamp and the order of the declarations in the namespace, in particular in the order in which fields are serialized. Reordering the declarations of a schema does not change the module in any other respect either.",
 ["inputs", "schedules", "histories"], "All schemas, all iteration orders of internal hash maps, all permutations of the declarations.",
 "Hash map iteration order is random per run; a test run samples one order, so an order-dependent result passes or fails by chance.",
 ["src/lib/check.rs", "src/lib/gen/mod.rs", "src/lib/gen/ts.rs"], [("second pass over a hash map", "src/lib/check.rs:349"), ("gen_decls over a hash map", "src/lib/gen/ts.rs:330")],
 ["packetc_lib::compile"], hook="--cfg packetc_mc: chosen hash iteration order")

prop("C08", "Whatever is written is read back unchanged",
 "For every accepted schema and every value of the exported struct, reading the bytes that the generated write method produces gives the same value (absent optional fields read as undefined), consumes exactly these bytes, and writing the result again gives the same bytes. Writing neither changes the value nor depends on earlier writes or on whether a buffer was passed.",
 ["programs", "inputs"], "All schemas (nesting of arrays, optionals, structs, enums and base types) and all values.",
 "The generator tests compare generated text with expected text; no test runs generated code.",
 ["src/lib/gen/ts.rs", "src/lib/gen/gen_ctx.rs"], [("gen_write_impl_*", "src/lib/gen/ts.rs:24-114"), ("gen_read_impl_*", "src/lib/gen/ts.rs:116-235")],
 ["generated module: read, write"])

prop("C09", "The bytes on the wire follow the declared layout exactly",
 "For every accepted schema and value, the written bytes are the fields in declaration order with nothing in between: a number in its declared width, an enum in 1, 2 or 4 bytes (up to 8, 16 or 32 variants), an optional field as one presence byte (0 or 1) followed by the value if present, an array or string as a 32-bit count followed by its items, a struct as its own fields. The reader decodes exactly this layout, independently of the writer.",
 ["programs", "inputs"], "All schemas and all values.",
 "Two peers interoperate only if each side alone follows the layout; a matching error in reader and writer survives every round-trip test, and no test runs generated code at all.",
 ["src/lib/gen/ts.rs", "format.md"], [("gen_write_impl_*", "src/lib/gen/ts.rs:24-114"), ("gen_read_impl_*", "src/lib/gen/ts.rs:116-235")],
 ["generated module: read, write"])

prop("C10", "A malformed packet is rejected and never crashes the receiver",
 "For every accepted schema and every byte sequence, reading returns and does not throw: it returns null when the packet ends early or contains a value which no variant of the enum has at any depth, and otherwise the decoded value with every field set and of the declared kind. The work done is bounded by the size of the packet.",
 ["programs", "inputs", "fault_sequences"], "All schemas and all byte sequences: all truncations and corruptions of valid packets, and all short byte strings.",
 "No test runs generated code, let alone on hostile input.",
 ["src/lib/gen/ts.rs", "format.md"], [("range check of enum values", "src/lib/gen/ts.rs:171"), ("final check of reader.failed", "src/lib/gen/ts.rs:277"), ("array loop", "src/lib/gen/ts.rs:130")],
 ["generated module: read"])

prop("C11", "Enum values agree between declaration, writer, reader and wire",
 "For every enum of 1 to 32 variants and at every position (plain, optional, array item, nested), the i-th variant has the declared value 2^i, is written as exactly that unsigned number in the smallest of 1, 2 and 4 bytes that fits, and is read back as that value. Every wire value which is not the value of a declared variant is rejected.",
 ["programs", "inputs"], "All variant counts, variants, positions and wire values.",
 "Tests use 2-variant enums only; width boundaries (8/9, 16/17), the sign bit (variant 32) and undeclared values are not tested.",
 ["src/lib/check.rs", "src/lib/gen/ts.rs"], [("resolve_enum", "src/lib/check.rs:168"), ("gen_write_impl_enum", "src/lib/gen/ts.rs:82"), ("gen_read_impl_enum", "src/lib/gen/ts.rs:171"), ("gen_enum_decl", "src/lib/gen/ts.rs:317")],
 ["generated module: namespace, read, write"])

prop("C12", "Every accepted schema yields valid TypeScript with the declared types",
 "For every accepted schema, the generated module passes the TypeScript compiler in strict mode. It exports one class named after the exported struct, whose constructor takes the fields in declaration order with their types, and a namespace of that name with one interface per struct and one const enum per enum which the exported struct reaches, with the declared members, optional markers, array types and references.",
 ["programs"], "All accepted schemas.",
 "Tests compare text of seven hand-made trees with expected text; none is given to a TypeScript compiler, and none goes through all stages.",
 ["src/lib/gen/ts.rs", "src/lib/gen/mod.rs"], [("gen_impl", "src/lib/gen/ts.rs:255"), ("gen_decls", "src/lib/gen/ts.rs:330"), ("field_ctor_type", "src/lib/gen/ts.rs:237")],
 ["generated module: types"])

prop("C13", "Each schema file goes to its own output path and nothing else changes",
 "Compiling a directory writes, for each file in it with extension pkt at any depth, the module to the same relative path under the output directory with the extension replaced by ts; compiling a single file writes the module into the output directory under the file's name with its last extension replaced by ts. Missing output directories are created, an existing output file is replaced completely, and no other file or directory is created, changed or removed. Links to files and directories are followed.",
 ["inputs", "configurations"], "All directory trees, file names, path spellings (relative, absolute, trailing slash, dots) and earlier contents of the output directory.",
 "src/main.rs has no tests.",
 ["src/main.rs"], [("visit_files", "src/main.rs:49"), ("format_path", "src/main.rs:101"), ("save_one", "src/main.rs:92")],
 ["packetc binary: file system"])

prop("C14", "Success is reported only if everything compiled; errors write nothing",
 "The command exits with status 0 exactly when the input exists, is readable and every schema file it covers compiles. Otherwise it exits with a non-zero status, explains why on standard error, and leaves the output directory untouched, even if other schema files in the same directory are valid.",
 ["inputs", "configurations"], "All directory trees, all subsets and positions of invalid, unreadable or missing schema files, and all argument errors.",
 "src/main.rs has no tests.",
 ["src/main.rs", "src/lib/lib.rs"], [("run_all before the first save_one", "src/main.rs:118"), ("error propagation from main", "src/main.rs:114")],
 ["packetc binary: exit status, standard error, file system"])

prop("C15", "An I/O fault or crash never passes for success and a rerun repairs it",
 "If any system call on the input or output fails, is cut short or is interrupted, the command either still exits with status 0 and leaves every output complete, or exits with a non-zero status. However it ends, also by being killed at any point, input files and unrelated files stay unchanged, no output is touched before all schemas have compiled, and running the command again produces all outputs in full.",
 ["crash_points", "fault_sequences"], "All system calls of a run, all error codes and short transfers at each, and a kill before each.",
 "src/main.rs has no tests, and faults do not happen in a test run unless injected.",
 ["src/main.rs"], [("run_one, run_all, save_one", "src/main.rs:70-100")],
 ["packetc binary: exit status, file system"])

prop("C16", "A compilation does not depend on what was compiled before",
 "In any sequence of compilations in one process, of valid and invalid schemas and in any order, each one gives the result it gives on its own. In any sequence of runs of the command on changing inputs, the output of every current input after a successful run is exactly what a first run on it would write.",
 ["histories"], "All sequences of compilations and of runs with edits in between.",
 "Every test compiles once, in a process or thread of its own.",
 ["src/lib/lib.rs", "src/lib/gen/mod.rs", "src/lib/gen/gen_ctx.rs", "src/main.rs"], [("no shared state in compile", "src/lib/lib.rs:46"), ("truncating write", "src/main.rs:97")],
 ["packetc_lib::compile", "packetc binary"])

prop("C17", "Names are only names: no choice of identifiers changes behaviour",
 "For every accepted schema, consistently renaming its types, fields, variants and export to any other distinct identifiers that the schema language allows gives a module that still compiles, writes the same bytes for the corresponding values and reads them back. In particular no name collides with a variable, type, property or keyword of the generated code.",
 ["programs", "inputs"], "All schemas and all assignments of identifiers, including keywords and built-in names of TypeScript, names used by the generated code and names which join to equal paths.",
 "Tests use a handful of harmless names.",
 ["src/lib/gen/ts.rs", "src/lib/gen/gen_ctx.rs", "src/lib/parser.rs"], [("varname, bindname, declare", "src/lib/gen/ts.rs:20"), ("reserved words", "src/lib/parser.rs:21")],
 ["generated module"])

prop("C18", "Rust and TypeScript modules of one schema interoperate",
 "For every accepted schema, the generated Rust module and the generated TypeScript module read each other's packets.",
 ["programs", "inputs"], "All schemas and values.",
 "The Rust back end is not compiled at this commit.",
 ["src/lib/gen/rust.rs"], [("Rust back end (commented out)", "src/lib/gen/mod.rs:2")], [])

prop("C19", "Strings outside ASCII survive a round trip through the real runtime",
 "For every string value, including ones outside ASCII, the count written in front of it is the count that the packet runtime library needs to read it back.",
 ["inputs"], "All strings.",
 "The runtime library is a separate repository.",
 ["src/lib/gen/ts.rs"], [("gen_write_impl_builtin", "src/lib/gen/ts.rs:71")], [])

prop("C20", "Runs which overlap in time do not disturb each other",
 "When several runs of the command overlap in time, whether they compile the same schema files into the same output directory or different ones whose output files are all different, each of them ends as it would alone: with status 0 if its schemas are valid and with a non-zero status otherwise. When all have ended, every output of every successful run is complete, and nothing else has been created, changed or removed. A run which is killed does not disturb a run which writes other output files, even in the same directories.",
 ["schedules", "crash_points"], "All interleavings of the file system calls of the runs, and a kill of one of them before each of its calls.",
 "src/main.rs has no tests, and overlapping runs (a watcher and a build, or a parallel build) meet in a harmful order only by chance.",
 ["src/main.rs"], [("create_dir_all and write in save_one", "src/main.rs:92")],
 ["packetc binary: exit status, file system"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
