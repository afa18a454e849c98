T="property-based testing: generated configs against an independent model, with shrinking"
prop("C01","A config's binary says exactly what its text says",
"""For every valid config text, in any layout and with comments, the binary form holds exactly the classes, parents, external and deleted classes, values, arrays and array additions of the text, with their names and in their order.
The announced length is the length written, and an output that fails at any byte is reported.
A config with nothing wrong produces no report.""",
["inputs"],"all valid configs: nesting, inheritance, every value kind, strings with any characters, long arrays, any layout",
"""The tests compile a few dozen fixtures and compare with stored output; combinations of nesting, sizes, layout and string content are not sampled.""",
["libs/config/src/parse","libs/config/src/rapify","libs/config/src/model","libs/config/src/lib.rs","libs/preprocessor/src/parse"],
[("parser","libs/config/src/parse/mod.rs"),("binary writer and its lengths","libs/config/src/rapify/class.rs"),("array writer","libs/config/src/rapify/array.rs")],T,
"Random configs, an independent reader of the binary format.",
"""A random config model is printed in a random layout (white space, comments, trailing commas, multi-line strings), preprocessed, parsed and compiled. Oracle: an independent decoder of the binary format, which also checks every offset, must yield the model; no report may be produced; the output is also made to fail at a random byte.""",
["parse","Config::rapify","Config::rapified_length"])
prop("C02","Config numbers, expressions and addon requirements mean what they say",
"""Every number, hexadecimal number and arithmetic expression in a config is stored with the value arithmetic gives it: as an integer when it is written without a decimal point and fits, as a 32-bit float otherwise.
The addons declared in CfgPatches and the highest required version among them are reported exactly, regardless of upper and lower case.""",
["inputs"],"all number spellings, expression trees with every operator and parenthesis, all sets of declared addons",
"""Tests use a handful of numbers and four expressions; precedence, signs, exponents, overflow and white space are not sampled.""",
["libs/config/src/parse/value.rs","libs/config/src/model/number.rs","libs/config/src/rapify/number.rs","libs/common/src/math.rs","libs/config/src/analyze/cfgpatch.rs","libs/config/src/lib.rs"],
[("number parser","libs/config/src/parse/value.rs"),("integer or float decision","libs/config/src/model/number.rs"),("expression evaluation","libs/common/src/math.rs")],T,
"Values are computed from the generated tree, not from the text.",
"""Numbers are generated as a value plus a spelling, expressions as trees with their own evaluator, printed with the fewest parentheses the usual precedence needs plus random ones. Oracle: the value of the tree against the value decoded from the binary, bit for bit. CfgPatches classes are generated with known versions and compared with the report.""",
["parse","ConfigReport::patches","ConfigReport::required_version"])
prop("C03","Every mistake in a config is reported, at the right place",
"""When one mistake is added to a correct config (an invalid value, a duplicate property or class, an unknown or misspelled parent, an array where a value belongs or the reverse, a missing semicolon or missing braces, a magazine that is not there), that mistake is reported and nothing else, and it prevents the build unless it is only a warning.
The report names the file and the lines of the mistake, also after macros, comments, non-ASCII text and inside included files.""",
["inputs"],"all valid configs, every kind of mistake, every place in the class tree, any text in front, main and included files",
"""Each lint has one or two fixtures in a flat file; nested places, interaction with inheritance, and positions behind macros or non-ASCII text are not sampled.""",
["libs/config/src/analyze/lints","libs/config/src/parse","libs/workspace/src/reporting"],
[("lints","libs/config/src/analyze/lints/c02_duplicate_property.rs"),("positions of reports","libs/workspace/src/reporting/diagnostic/mod.rs"),("mapping to the original text","libs/workspace/src/reporting/processed.rs")],T,
"Mutation of valid configs; one mistake per case.",
"""One mistake is inserted into a random valid config at a random place, with text in front of it. Oracle: the set of reported codes must be exactly the expected one, the config must not be accepted, and the annotations must lie on the lines of the statements at fault; (facet `magwells`: magazine wells name magazines in any case, with and without the prefix of the project, of which some are not defined: exactly those are marked); for duplicate names and parents the marked text must be the name.""",
["parse","ConfigReport::codes","Diagnostic::to_annotations"])
prop("C04","Any text given as a config ends in a report or a well-formed binary",
"""For every text, preprocessing and compiling it as a config ends, without a crash, in either a readable report or a binary form that can be read back completely.
Every report can be displayed, and if it quotes a line that is the line of the error.""",
["inputs"],"all texts: damaged configs, token soup, and random characters including non-ASCII ones",
"""Tests contain a few dozen malformed inputs.""",
["libs/config/src/parse","libs/config/src/analyze","libs/workspace/src/reporting"],
[("error recovery of the parser","libs/config/src/parse/mod.rs"),("reports","libs/config/src/analyze/chumsky.rs")],
"fuzzing with mutated valid inputs, tokens and noise; crash and well-formedness oracle",
"Crashes, hangs and malformed binaries are detected; the meaning is checked by C01 to C03.",
"""Printed valid configs with a few characters changed, token sequences and character noise. Oracle: no panic or hang, errors come with at least one report, every report is rendered, and an accepted text compiles to a binary the independent decoder reads completely.""",
["parse","Config::rapify","Diagnostic::to_string"])
