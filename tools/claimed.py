GENRT = 'property-based testing: generated schemas compiled with planus, generated values/bytes, shrinking to a replay file; '
CLAIMED = {
 'C01': (GENRT + 'oracle: value round-trip through every builder style against a reference value model', 'random values of the generated and hand-made schema suite; not exhaustive'),
 'C02': (GENRT + 'oracle: independent lenient reader of the same bytes, guard pages around the buffer, poisoned memory', 'mutated and random buffers for the schema suite'),
 'C03': (GENRT + 'oracle: independent strict verifier of the FlatBuffers wire format over the written bytes', 'random values of the schema suite'),
 'C04': (GENRT + 'oracle: independent encoder with free layout choices, then differential reading', 'random layouts of random values of the schema suite'),
 'C05': (GENRT + 'oracle: reference vector model for every accessor and iterator operation, both directions', 'random vectors and operation sequences'),
 'C06': (GENRT + 'stateful model-based histories of one builder; oracle: fresh-builder equivalence, strict verifier', 'random histories, with and without the caches'),
 'C07': (GENRT + 'oracle: schema-evolution projection between versions of the same schema', 'random evolutions of the schema suite'),
 'C19': (GENRT + 'algebraic laws of the generated and runtime trait implementations; generated programs that require the expected implementations are compiled and run', 'random values of the schema suite, random recursive schemas'),
 'C20': (GENRT + 'oracle: reference error kind and location computed from the bytes', 'corrupted buffers of the schema suite'),

 'C08': ('grammar- and token-level fuzzing of the front end; oracle: no panic, and a result exactly when no error diagnostic was printed', 'random and mutated schema texts, file contents and include graphs; nesting up to 3000'),
 'C09': ('property-based testing over generated and token-level schemas; oracle: independent lexer (token and comment sequence), translation equality, idempotence', 'random schema texts with comments and layout noise between any two tokens'),
 'C10': ('property-based testing over generated schemas; oracle: independent FlatBuffers layout rules', 'random schemas'),
 'C11': ('property-based testing: generated schemas with adversarial names compiled by rustc in editions 2018, 2021 and 2024, with and without std; oracle: the compiler accepts the code', 'random schemas; not exhaustive'),
 'C22': ('property-based testing over generated schemas; oracle: a strict parser of the graph language, compared with the schema model; a sample is read by graphviz where installed', 'random schemas'),
 'C12': ('property-based testing over generated file sets; oracle: reference name resolver, metamorphic reordering', 'random file sets with shadowing, diamond and cyclic includes'),
 'C15': ('metamorphic testing: generated schemas x meaning-preserving rewrites; oracle: equality of the generated code, expected doc comments', 'random schemas and rewrites'),
 'C17': ('property-based testing over generated literals; oracle: exact arithmetic reference, on the translated declarations and in compiled and executed generated code', 'random literals of every scalar type and spelling'),
 'C16': ('property-based testing of the planus binary over generated files (valid, broken, unreadable), subcommands, options, output states and rustfmt behaviours (fault injection through PATH, /dev/full); oracle: the library called in-process and a snapshot of the directory', 'random files, commands and faults'),
 'C18': ('model-based testing of generated cursor histories over twelve element layouts, natively and in miri, and generated programs with sizes that do not add up; oracle: a model of which position holds which element, drop log', 'random histories of arrays of up to 8, 13 and 21 elements'),
 'C14': ('property-based testing over generated schemas and buffers; oracle: an independent walk over the same bytes (objects, ranges, values, labels, byte lookups)', 'random buffers of random schemas and later schema versions'),
 'C21': ('stateful model-based testing: random key and screen-size histories over generated buffers; oracle: a model of cursor, history and view, and the screen contents', 'random sessions of up to 40 keys'),
 'C13': ('mutation-based property testing: generated valid projects, each with exactly one of 41 rules broken at a random place; oracle: accepted before, rejected with a diagnostic after, under every option', 'random projects and single violations'),
 'C23': ('mutation-based property testing: generated projects with exactly one of 41 rules (or the syntax) broken at a random place; oracle: the place of the change, against the positions, quotes and marks parsed from the printed diagnostics', 'random projects and single violations'),
}
