#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here)."""
import json, os
R = "crates/planus/src/"
G = "crates/planus-codegen/src/"
T = "crates/planus-translation/src/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

p("C01", "Writing any value and reading it back yields the same value",
  "For every accepted schema and every value of its types, serializing the value through any of the generated writing styles (owned value, create function, chained builder, pre-serialized offsets, arrays, slices and vectors) and reading the bytes back yields exactly the same value, both field by field through the reference type and through conversion to the owned type. Optional fields that were absent stay absent, required and defaulted fields always have a value, and deprecated fields never appear.",
  ["inputs", "programs"], "every accepted schema x every value of it x every writing style offered by the generated API",
  "The tests round-trip a few dozen hand-written values of about forty hand-written schemas; field orders, nesting, sharing, and value combinations are unbounded.",
  [G+"rust/mod.rs", G+"backend_translation.rs", G+"templates/rust/table.template", G+"templates/rust/union.template", G+"templates/rust/struct.template", R+"impls/mod.rs", R+"table_writer.rs", R+"table_reader.rs"],
  [("table writer/reader", R+"table_writer.rs"), ("write/read trait impls", R+"impls/")],
  ["<Table>::create/builder/owned values + Builder::finish", "<Table>Ref::read_as_root and accessors", "TryFrom<Ref> for owned"])

p("C02", "Reading untrusted bytes is memory safe, total and never invents values",
  "For every byte string, taking it as the root of any table type and then calling every accessor, iterator and conversion on what is reachable either returns a value or an error: it never panics, never touches memory outside the bytes given, and never yields more elements than it announced. Whatever it returns successfully is what the format's rules say those bytes contain, and bytes that the rules give no valid reading of produce an error.",
  ["inputs"], "every byte string (of any length and memory alignment) x every table type of every accepted schema x every accessor",
  "The space of byte strings is astronomically large; the tests read only buffers that planus itself produced, plus a handful of truncated or corrupted ones.",
  [R+"table_reader.rs", R+"slice_helpers.rs", R+"vectors/vector.rs", R+"union_vectors/union_vector.rs", R+"impls/str.rs", R+"impls/byte_slice.rs", R+"impls/primitives.rs", G+"templates/rust/union.template"],
  [("bounds checks in from_buffer", R+"table_reader.rs"), ("checked advance", R+"slice_helpers.rs")],
  ["ReadAsRoot::read_as_root", "generated accessors", "Vector/UnionVector iteration", "Debug and TryFrom"])

p("C03", "Every finished buffer is a well-formed FlatBuffers message",
  "For every accepted schema and value, the finished buffer obeys the FlatBuffers wire format: every scalar, offset, vector element, struct and table field is aligned relative to the buffer start (force_align included), every offset stays in bounds and points at an object of the right kind, vtables and table sizes describe exactly the fields present, strings are null terminated valid UTF-8, union tags and values agree, padding bytes are zero, and a requested file identifier occupies bytes 4 to 8. Fields equal to their default are omitted, and an independent decoder that knows only the wire format and the schema recovers exactly the value written.",
  ["inputs", "programs"], "every accepted schema x every value x with or without a file identifier",
  "A misaligned or misdescribed field reads back fine through planus itself on x86; only an independent checker over many field combinations reveals it, and flatc is not exercised on generated values.",
  [R+"builder.rs", R+"backvec.rs", R+"table_writer.rs", R+"impls/slice.rs", R+"impls/array.rs", R+"impls/str.rs", R+"impls/byte_slice.rs", G+"rust/mod.rs", G+"backend_translation.rs"],
  [("delayed alignment promise", R+"builder.rs Builder::prepare_write"), ("alignment-descending field order", "crates/planus-types/src/intermediate.rs alignment_order"), ("vtable construction", R+"table_writer.rs")],
  ["Builder::finish result bytes"])

p("C04", "Any conforming FlatBuffers message is read the same, whatever wrote it",
  "A buffer that follows the FlatBuffers wire format is read to exactly the value it encodes no matter which layout choices its writer made: field order inside tables, placement order of objects, padding, shared or duplicated vtables, strings, vectors and sub-tables, explicitly stored defaults, trailing zero vtable entries, absent union members, and the alignment in memory at which the buffer happens to sit.",
  ["inputs", "programs"], "every conforming encoding of every value of every accepted schema",
  "Tests only read planus-written (or flatc-written, not available here) buffers, which all use one canonical layout.",
  [R+"table_reader.rs", R+"vectors/vector.rs", R+"union_vectors/union_vector.rs", R+"impls/", G+"templates/rust/table.template", G+"templates/rust/union.template"],
  [("vtable lookup", R+"table_reader.rs Table::access"), ("union decoding", R+"table_reader.rs access_union")],
  ["ReadAsRoot::read_as_root", "generated accessors", "TryFrom<Ref>"])

p("C05", "Vector views and their iterators behave like the sequence they represent",
  "For every serialized vector, including vectors of unions, every query of the read view (length, indexing, first and last, iteration from both ends, skipping, counting, sub-ranges, splitting, chunks, windows and their reverse variants, conversion to a Vec, comparison where offered) gives exactly what the same query on the decoded sequence gives, for all arguments and all interleavings of front and back steps. Arguments for which slices return nothing return nothing, and remaining-length reports are exact at every step.",
  ["inputs", "histories"], "every element type x every vector length x every query and argument x every interleaving of iterator steps",
  "The tests exercise fixed vectors with few arguments; off-by-one behaviour at chunk boundaries and mixed front/back stepping needs a search over call histories.",
  [R+"vectors/vector.rs", R+"vectors/iterators.rs", R+"union_vectors/union_vector.rs", R+"union_vectors/iterators.rs"],
  [("vector view", R+"vectors/vector.rs"), ("iterators", R+"vectors/iterators.rs"), ("union vector view", R+"union_vectors/union_vector.rs")],
  ["planus::Vector", "planus::UnionVector"])

p("C06", "A builder gives right results after any history, with or without caches",
  "For every history of creating strings, vectors, tables and unions on one builder, finishing and clearing it, each finished buffer contains exactly the value that was last finished, objects created earlier and shared between several parents read back correctly from each, and a cleared builder behaves like a fresh one. Enabling or disabling the deduplication caches, or the initial capacity, never changes the value read back, and never makes a builder reuse bytes that differ from the ones requested.",
  ["histories", "configurations"], "every sequence of builder operations x cache feature combinations x initial capacities",
  "Cache collisions, reuse after clear and buffer growth at particular fill levels depend on the whole history; the tests use each builder for one small value.",
  [R+"builder.rs", R+"builder_cache.rs", R+"backvec.rs", R+"impls/str.rs", R+"impls/byte_slice.rs", R+"impls/offset.rs"],
  [("caches", R+"builder_cache.rs"), ("clear", R+"builder.rs Builder::clear"), ("growth", R+"backvec.rs")],
  ["Builder::{create_*,finish,clear,as_slice,len,with_capacity}"])

p("C07", "Data written under one schema version reads correctly under a compatible one",
  "When a schema evolves compatibly (tables gain fields at the end or by id, fields become deprecated, unions and enums gain variants, declarations are reordered or renamed), a buffer written with either version is read with the other so that all common fields keep their values and fields unknown to the writer take their declared default or are absent. An enum value or union variant the reader does not know is reported as an unknown-tag error for that field or element alone, and all other data stays readable.",
  ["inputs", "programs", "configurations"], "every compatible pair of schemas x every value x both directions",
  "The tests never read a buffer with a different schema than the one it was written with.",
  [R+"table_reader.rs", R+"errors.rs", G+"templates/rust/enum.template", G+"templates/rust/union.template", T+"intermediate_language/translation.rs"],
  [("missing vtable slots read as default", R+"table_reader.rs Table::access"), ("unknown tags", R+"errors.rs UnknownEnumTag")],
  ["generated accessors of two schema versions"])

p("C08", "The schema front end answers with a result or a diagnostic, never a crash",
  "For every set of input files, well-formed or not, checking, formatting and generating code for them ends without a panic: either it succeeds, or it fails and prints at least one diagnostic explaining why. A run that prints an error diagnostic never reports success.",
  ["inputs"], "every text (and every non-text file content, missing file and include graph) given as a schema",
  "The test corpus has a few dozen bad schemas; crashes hide in rare token combinations, extreme literals and odd attribute placements.",
  [T+"lib.rs", T+"ctx.rs", T+"ast_convert.rs", T+"intermediate_language/translation.rs", T+"pretty_print.rs", "crates/planus-lexer/src/full_lexer.rs", "crates/planus-lexer/src/text_lexer.rs", T+"parser/grammar.lalrpop"],
  [("error collection", T+"ctx.rs"), ("grammar error recovery", T+"parser/grammar.lalrpop")],
  ["translate_files", "format_file", "generate_rust", "process stderr"])

p("C09", "Formatting a schema changes only its layout and is idempotent",
  "For every schema that parses, formatting it succeeds, the formatted text means the same (it produces the same declarations, and every declaration, attribute, literal and doc comment of the input is still there, in order), every comment of the input survives with its text, and formatting the result again reproduces it byte for byte.",
  ["inputs", "programs"], "every parseable schema text, with comments and blank lines in arbitrary places",
  "Few examples of formatting are tested; comments can sit between any two tokens.",
  [T+"pretty_print.rs", "crates/planus-types/src/cst.rs", "crates/planus-lexer/src/full_lexer.rs"],
  [("pretty printer", T+"pretty_print.rs")], ["format_file", "planus format"])

p("C10", "Struct, table, enum and union layout follow the FlatBuffers rules",
  "For every accepted schema, the computed layout is the one the FlatBuffers specification prescribes: struct fields sit in declaration order at the smallest aligned offsets with size padded to the struct alignment, forced alignments are honoured, table fields get vtable slots in declaration order or by their explicit ids with unions taking two adjacent slots, enum variants get their explicit or successive values, and union variants get tags from one upwards in declaration order.",
  ["programs", "inputs"], "every accepted schema",
  "The tests pin the layout of a handful of structs; layout depends on every combination and order of field types and attributes.",
  [T+"intermediate_language/translation.rs", "crates/planus-types/src/intermediate.rs", G+"backend_translation.rs"],
  [("struct layout", T+"intermediate_language/translation.rs translate_struct"), ("vtable slots", T+"intermediate_language/translation.rs translate_table")],
  ["translated declarations", "generated constants", "bytes of serialized structs"])

p("C11", "Rust code generated from an accepted schema compiles",
  "For every schema the front end accepts without an error, the generated Rust module compiles as part of a crate depending only on the documented dependencies, without errors, whatever names (including Rust keywords), namespaces, recursion, doc comments, defaults and type combinations it uses.",
  ["programs"], "every accepted schema",
  "Compilation of generated code is tested on a fixed list of schemas; identifier clashes and rare type/default combinations are unbounded.",
  [G+"rust/mod.rs", G+"rust/analysis.rs", G+"backend_translation.rs", G+"templates/rust/"],
  [("name reservation", G+"rust/mod.rs"), ("default/derive analyses", G+"rust/analysis.rs")],
  ["generate_rust output compiled with rustc"])

p("C12", "Names resolve to the right declaration across namespaces and included files",
  "In every set of schema files, a type name refers to the declaration found by searching the enclosing namespaces from the innermost outwards, including declarations of directly and transitively included files, each of which is loaded once however often and in whatever cycles it is included. The result does not depend on the order of declarations or files, names that match nothing or not a suitable type are reported as errors, and duplicate declarations are reported as errors.",
  ["programs", "configurations"], "every set of files, namespaces, includes and references",
  "Tests have a few namespace and include cases; shadowing at several depths and diamond or cyclic includes combine freely.",
  [T+"ctx.rs", T+"intermediate_language/ast_map.rs", T+"intermediate_language/translation.rs", "crates/planus-types/src/intermediate.rs"],
  [("namespace search", T+"intermediate_language/translation.rs"), ("include traversal", T+"intermediate_language/ast_map.rs")],
  ["translated declarations"])

p("C13", "Valid schemas are accepted and invalid ones rejected",
  "Every schema that obeys the supported FlatBuffers rules is accepted, and every schema that breaks one of them is rejected with an error: duplicate names, ids or variants, missing or repeated ids, out-of-range or ill-typed defaults and enum values, recursive structs, non-struct types in structs, misplaced or conflicting attributes, bad alignments, and references to unknown types. No invalid construct is silently accepted or dropped.",
  ["programs", "inputs"], "every schema, and every single-rule violation injected into a valid one at any place",
  "The suite has one example per error kind; each rule must hold in every context and combination.",
  [T+"ast_convert.rs", T+"intermediate_language/translation.rs", T+"intermediate_language/ast_map.rs"],
  [("attribute validation", T+"ast_convert.rs"), ("semantic validation", T+"intermediate_language/translation.rs")],
  ["translate_files result and diagnostics"])

p("C14", "The buffer inspector shows what the buffer actually contains",
  "For every valid buffer and its schema, the inspector's object tree names exactly the objects and fields present with their true values and byte ranges, every listed range lies inside the buffer and covers the bytes that encode it, and every byte looked up reports exactly the objects that contain it. Inspecting a valid buffer never panics.",
  ["inputs", "programs"], "every accepted schema x every conforming buffer x every byte position",
  "The inspector has almost no tests; the mapping must hold for every combination of types and layouts.",
  ["crates/planus-buffer-inspection/src/lib.rs", "crates/planus-buffer-inspection/src/children.rs", "crates/planus-buffer-inspection/src/object_info.rs", "crates/planus-buffer-inspection/src/object_mapping.rs"],
  [("object mapping", "crates/planus-buffer-inspection/src/object_mapping.rs"), ("field enumeration", "crates/planus-buffer-inspection/src/children.rs")],
  ["InspectableFlatbuffer::calculate_object_mapping", "ObjectMapping::get_interpretations"])

p("C15", "Generated code depends only on the meaning of the schema",
  "Generating code twice from the same files gives byte-identical output, and rewriting the schema without changing its meaning (whitespace, ordinary comments, literal spelling, attribute order, formatting, unrelated declarations elsewhere) leaves the generated code for the unchanged declarations the same up to the source locations quoted in comments. Doc comments appear on exactly the declaration, field or variant they were written for.",
  ["programs", "configurations"], "every accepted schema x every meaning-preserving rewrite",
  "The tests compare generated files for fixed inputs on one run only.",
  [G+"rust/mod.rs", G+"backend_translation.rs", G+"lib.rs", T+"ast_convert.rs", "crates/planus-types/src/ast.rs"],
  [("ordered maps", T+"util/sorted_map.rs"), ("doc strings", "crates/planus-types/src/ast.rs Docstrings")],
  ["generate_rust", "generate_dot"])

p("C16", "The command line reports its outcome truthfully and writes only on success",
  "For every set of input files and options, the command line exits with success exactly when its operation succeeded, leaves the output path as it was when the schemas were rejected or the code could not be generated or formatted, writes to the output path (or standard output, for formatting) exactly the generated text when it succeeded, and checking a schema succeeds exactly when generating code from it does. No other file is changed; formatting never modifies its input. A failing command says so in a message.",
  ["inputs", "configurations"], "every set of input files x subcommand x options",
  "There are no tests of the command line's exit status or output files on failing inputs.",
  ["crates/planus-cli/src/app/mod.rs", "crates/planus-cli/src/app/rust.rs", "crates/planus-cli/src/app/check.rs", "crates/planus-cli/src/app/format.rs", "crates/planus-cli/src/app/dot.rs", T+"lib.rs"],
  [("error propagation", "crates/planus-cli/src/main.rs")], ["exit status, stdout, stderr and files of the planus binary"])

p("C17", "Literals in a schema mean exactly the value written",
  "Every integer, float, boolean and string literal used as a default, enum value, id or alignment denotes exactly its mathematical value in every accepted spelling (sign, base, digit separators, exponents, escapes), is rejected when it does not fit its type, and reaches readers and writers of the generated code unchanged. Floating point defaults are the nearest representable value, with the sign and special values preserved.",
  ["inputs"], "every literal in every accepted spelling for every scalar type",
  "Tests use small literals; boundary values of every width, rounding and escapes are not sampled.",
  ["crates/planus-lexer/src/full_lexer.rs", "crates/planus-lexer/src/text_lexer.rs", T+"ast_convert.rs", T+"intermediate_language/translation.rs", G+"rust/mod.rs"],
  [("literal conversion", T+"ast_convert.rs"), ("default translation", T+"intermediate_language/translation.rs translate_literal")],
  ["translated declarations", "generated default values"])

p("C18", "The array initialisation cursor initialises exactly what it says",
  "For every way of splitting and filling an array cursor, the finished array holds every element at the position where it was written, no element is dropped, lost or duplicated by the cursor itself, and a cursor that is dropped while part of its range is still unfilled panics instead of letting the array pass as initialised. Sizes that do not add up are refused. All of this happens without undefined behaviour.",
  ["histories", "inputs"], "every element type x array length x split/write/finish/abandon history",
  "The unit tests fill arrays of at most four elements in one way each; the unsafe code must be right for every split history and element layout.",
  ["crates/array-init-cursor/src/lib.rs", "crates/array-init-cursor/src/util.rs"],
  [("cursor", "crates/array-init-cursor/src/lib.rs"), ("splitting", "crates/array-init-cursor/src/util.rs split_mut")], ["array_init_cursor::Cursor"])

p("C19", "Generated owned types obey their schema and the usual trait laws",
  "For every accepted schema, the default of a generated type is the value a reader sees for an empty table, each owned type implements Default, Eq, Ord, Hash and Copy whenever everything it contains allows it (recursive types included), computing a default terminates, enum conversions from and to integers accept exactly the declared values, equality, ordering and hashing of generated types agree with each other and with comparing the fields in declaration order, and converting a generated value to JSON and back through serde gives the same value.",
  ["inputs", "programs"], "every accepted schema x every pair of values",
  "Tests check defaults and conversions on a few types only.",
  [G+"rust/mod.rs", G+"rust/analysis.rs", G+"templates/rust/enum.template", G+"templates/rust/table.template", G+"templates/rust/struct.template"],
  [("derived traits", G+"templates/rust/"), ("default analysis", G+"rust/analysis.rs")],
  ["Default, TryFrom, PartialEq/PartialOrd/Hash, serde impls of generated types"])

p("C20", "Read errors identify what failed and where",
  "Whenever reading fails, the error names the kind of problem that the bytes really have and locates it at the generated type and accessor that was called, with the position in the whole buffer of the object it was called on (for an enum field of a struct, of that field; for an element met while iterating over a vector, of that element), at every nesting depth, and its printed text and chain of causes say the same. Reading something else in the same buffer is unaffected by an error elsewhere.",
  ["inputs", "programs"], "every damaged buffer x every accessor",
  "Tests check that errors occur, not which or where, for a few hand-made buffers.",
  [R+"errors.rs", R+"table_reader.rs", R+"slice_helpers.rs", R+"vectors/vector.rs", R+"union_vectors/union_vector.rs"],
  [("error location", R+"errors.rs ErrorLocation")], ["planus::Error"])

p("C21", "An inspector session survives every key and shows where the cursor is",
  "In an interactive inspection of any valid buffer, no sequence of keys and no terminal size makes the inspector panic, and at every moment the cursor lies inside the buffer, the marked line belongs to an object that contains the cursor's byte, and the interpretations offered are exactly the objects that contain it. Each movement key moves by exactly what it says, going to a byte, following an offset and picking an interpretation arrive at exactly that byte, target or interpretation, keys typed into a dialogue act on the dialogue only, and going back restores the exact view that was left. What is drawn is the state: the hex view shows the buffer's own bytes at their addresses with the cursor, the current line and its object marked, and the object view and the info view show the current lines, ranges and interpretation, with the cursor always on the screen. On a terminal every key and every resize leads to that screen, and ending the session leaves the terminal as it was.",
  ["histories", "inputs"], "every valid buffer x every sequence of keys and screen sizes",
  "There are no tests of the inspector at all; its state depends on the whole key history.",
  ["crates/planus-inspector/src/lib.rs", "crates/planus-inspector/src/ui.rs", "crates/planus-buffer-inspection/src/object_mapping.rs"],
  [("key handling", "crates/planus-inspector/src/lib.rs on_key"), ("drawing", "crates/planus-inspector/src/ui.rs draw")],
  ["planus_inspector::Inspector", "planus_inspector::ui::draw"])

p("C22", "The dot graph shows every declaration, its layout and its references",
  "For every accepted schema, the output of the dot backend is a well-formed graphviz graph, whatever names and default values the schema uses. It has exactly one node per declaration, whose rows are the fields (other than deprecated ones) or variants in declaration order with their vtable slot, offset or value, their type, the size they take inline, whether they are required, optional or what their default is, and the padding of structs. There is exactly one edge from each field or variant to the declaration its type refers to, and the same declarations always give the same graph.",
  ["programs"], "every accepted schema",
  "The tests compare the graph of one example schema; names, defaults, layouts and references combine freely.",
  [G+"dot/mod.rs", G+"templates/dot/", G+"backend_translation.rs", G+"lib.rs"],
  [("dot backend", G+"dot/mod.rs"), ("dot templates", G+"templates/dot/")],
  ["planus_codegen::generate_dot output", "planus dot"])

p("C23", "Errors in a schema point at what is wrong",
  "For every schema that breaks a rule, the diagnostics are about that: the file, line and column they give exist, the source lines they quote are those lines, and at least one error points into the field, variant, attribute or declaration that breaks the rule (where two places contradict each other, both are marked; of structs that contain themselves, not the ones that only lead there; a syntax error is at a token at or behind the place where the text stops being valid). No error is reported about, and no other place marked in, a declaration that has nothing to do with the wrong one (does not refer to it, directly or through others, and is not what the wrong one repeats or refers to).",
  ["programs", "inputs"], "every invalid schema, however its text is laid out and split into files",
  "The tests compare the messages of a few hand-made invalid schemas; positions depend on everything in front of and around the mistake.",
  ["crates/planus-translation/src/ctx.rs", "crates/planus-translation/src/ast_convert.rs", "crates/planus-translation/src/intermediate_language/translation.rs", "crates/planus-lexer/src/"],
  [("emission of diagnostics", "crates/planus-translation/src/ctx.rs"), ("spans of the syntax tree", "crates/planus-translation/src/ast_convert.rs")],
  ["diagnostics of planus check, rust, dot", "planus_translation::translate_files_with_options"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
