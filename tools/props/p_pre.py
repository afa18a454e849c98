T="property-based testing: generated source trees against an independent model, with shrinking"
prop("P01","Macros expand to exactly what their definitions say",
"""For every valid source, each use of a macro is replaced by its definition with its arguments in place: nested calls, arguments that are calls, stringizing, joining, built-in macros, redefinition and removal included.
Text that is not a macro use (strings, longer words, comments, undefined names) is left as it is.
A macro is never expanded within its own expansion, so expansion always ends.""",
["inputs"],"all valid sources: any set of definitions, any nesting of calls, strings, comments and layout",
"""The tests hold some forty sources with one feature each; the interaction of nesting, shadowed names, quotes, joins and redefinition is not sampled.""",
["libs/preprocessor/src/processor/defines.rs","libs/preprocessor/src/processor/mod.rs","libs/preprocessor/src/defines.rs","libs/preprocessor/src/definition.rs","libs/preprocessor/src/parse"],
[("use of a macro","libs/preprocessor/src/processor/defines.rs"),("walk over the tokens","libs/preprocessor/src/processor/mod.rs"),("definitions in scope and built-in macros","libs/preprocessor/src/defines.rs")],T,
"Program trees, evaluated by a reference evaluator; white space is compared loosely.",
"""Random programs are built as trees (definitions with and without parameters, calls nested in arguments and bodies, stringizing, joins, strings, comments, built-ins, line continuations), printed with LF or CRLF line ends, and preprocessed. Oracle: a reference evaluator that works on the tree, not on text; programs whose meaning is disputed between preprocessors are not generated.""",
["Processor::run","Processed::as_str"])
prop("P02","Conditions and includes select exactly the right text",
"""For every nesting of conditions, exactly the branches whose condition holds take effect, and nothing in the other branches does: no text, definition, include, or report.
Every include contributes the text of the file it names with the definitions in force there, and its definitions stay in force after it, however often and from wherever it is included.""",
["inputs"],"all valid trees of conditions and includes, with definitions changing in between",
"""Tests have fixed nestings and one or two included files; deep nesting, repeated includes and the effect of skipped text are not sampled.""",
["libs/preprocessor/src/processor/directives.rs","libs/preprocessor/src/ifstate.rs","libs/preprocessor/src/processor/mod.rs","libs/workspace/src/path.rs"],
[("directives","libs/preprocessor/src/processor/directives.rs"),("nested conditions","libs/preprocessor/src/ifstate.rs"),("lookup of included files","libs/workspace/src/path.rs")],T,
"Same reference evaluator as P01, with conditions and several files.",
"""The generator of P01 with conditions of every kind (defined or not, compared values, comparison of numbers), skipped branches full of misleading text, and up to several files that are included again. Oracle: the reference evaluator.""",
["Processor::run","Processed::as_str"])
prop("P03","Every piece of preprocessed text leads back to its source",
"""For every character of the preprocessed text, the place in the sources it came from is known: the right file, line, column and word, through includes and any nesting of macros (where it is the outermost use of a macro).
The pieces cover the text in order without gaps, also with non-ASCII text, and text taken out by position is the text at that position.
A report about any part of the text starts where that part came from and ends in the same file, not before it.""",
["inputs"],"all valid sources with macros and includes, every marked word in the result",
"""Tests check a few mappings by hand; reports of every later stage depend on all of them.""",
["libs/workspace/src/reporting/processed.rs","libs/workspace/src/reporting/output.rs","libs/workspace/src/position.rs","libs/preprocessor/src/processor"],
[("map from text to sources","libs/workspace/src/reporting/processed.rs"),("positions of tokens","libs/preprocessor/src/parse/mod.rs")],T,
"Unique marker words are planted and looked up.",
"""The programs of P01 and P02 carry unique marker words with known file, line and enclosing macro use. Oracle: every marker in the result must map to exactly that place; all mappings together must cover the text. Reports from each marker to its end, a random end and beyond the end of the text are rendered and located.""",
["Diagnostic::from_code_processed","Processed::mapping","Processed::raw_mappings","Processed::extract","Processed::get_byte_offset"])
prop("P04","Preprocessor mistakes are reported at the right place, and only them",
"""When one mistake is added to a valid source, the report has the code of that mistake and marks exactly the text at fault, in the right file and line; in a branch that is skipped it is not reported.
Redefined macros, padded macro arguments and a wrongly named config give exactly one warning each, unless a suppression or flag in force at that place covers it, for the lines, files and includes its scope covers.""",
["inputs"],"eighty kinds of mistakes at any place of a source, in main and included files; all sequences of calls, definitions, suppressions and includes",
"""Each report has one fixture; the place marked after other text, the effect of skipped branches, and scopes of suppressions are not sampled.""",
["libs/preprocessor/src/codes","libs/preprocessor/src/processor/directives.rs","libs/preprocessor/src/processor/pragma.rs","libs/preprocessor/src/processor/defines.rs"],
[("reports","libs/preprocessor/src/codes/pe1_unexpected_token.rs"),("scopes of suppressions and flags","libs/preprocessor/src/processor/pragma.rs"),("padded arguments","libs/preprocessor/src/processor/defines.rs")],
"mutation of generated sources with a known mistake; model of suppression scopes",
"The mistakes are templates with the wrong part marked; the surroundings are generated.",
"""Two facets. `faults`: one of 80 templates (every error code) is placed among random text, in nested conditions, in the main or an included file; the code and the marked text must match, or nothing may be reported if the place is skipped. `warnings`: random sequences of calls with and without padding, definitions, removals, suppressions and flags of every scope, and includes; the set of warnings must equal the one of a model of the documented scopes.""",
["Processor::run","Code::diagnostic","Processed::warnings"])
prop("P05","Any text given to the preprocessor ends in a result or a located report",
"""For every set of files, including files that include each other or themselves and broken or truncated directives, preprocessing ends without a crash or hang.
It yields either a result in which every character has a source, or a report that can be displayed and marks text that exists.""",
["inputs"],"all texts in one to three files: tokens in any order, damaged valid sources, character noise",
"""Tests contain some thirty malformed files.""",
["libs/preprocessor/src/processor","libs/preprocessor/src/parse","libs/preprocessor/src/codes","libs/workspace/src/reporting"],
[("directives","libs/preprocessor/src/processor/directives.rs"),("tokens","libs/preprocessor/src/parse/mod.rs")],
"fuzzing with tokens, damaged valid sources and noise; crash and well-formedness oracle",
"Crashes, hangs, reports without a place and gaps in the mapping are detected; meaning is checked by P01 to P04.",
"""Token sequences (directives, macro names, quotes, comments, escapes, non-ASCII), valid sources and mistakes with a few characters changed, and noise, in up to three files that may include each other. Oracle: no panic, abort or hang; a result is mapped completely; a report has a diagnostic whose labels lie within the files.""",
["Processor::run","Code::diagnostic"])
