T="property-based testing: generated scripts against a reference parser and code generator, with shrinking"
prop("Q01","Scripts are parsed as the game's operator precedence demands",
"""Every script made of valid tokens is accepted exactly if the grammar accepts it, whatever its layout, comments and includes.
The tree groups every operator by its precedence and from the left, keeps every literal's value, and ignores only empty statements.
Every node is located at its own token, and every rejected script gets at least one report.""",
["inputs"],"all scripts over literals, variables, nular, unary and binary commands and operators, laid out over several files",
"""Ten scripts are compiled in tests and two are rejected; no test compares the grouping of mixed operators or the locations.""",
["libs/sqf/src/parser/mod.rs","libs/sqf/src/parser/lexer.rs","libs/sqf/src/parser/database/mod.rs"],
[("grammar","libs/sqf/src/parser/mod.rs"),("tokens","libs/sqf/src/parser/lexer.rs"),("commands","libs/sqf/src/parser/database/mod.rs")],T,
"Differential against a precedence-climbing parser; the commands come from a stand-in for the wiki.",
"""A program is generated as tokens from a grammar (`parse`), or such a program is damaged by removing, inserting, replacing and swapping tokens (`soup`). A reference parser of the harness, written by precedence climbing over the tokens, decides if the program is valid and how it groups. The tokens are written with random white space, line breaks, comments and CRLF, and parts are moved to included files; the text goes through the real preprocessor. Statements, operators, values and their positions are compared with the tree HEMTT returns. The list of commands is downloaded by the real build; here the crate is replaced by one with about 700 commands, which the reference uses too.""",
["hemtt_sqf::parser::run"])
prop("Q02","Compiled scripts do what the script says",
"""For every accepted script, the compiled file is well formed and running its instructions computes exactly the statements of the script, with the source text of the script and of each code block, and the file, line and offset of each command.
Optimizing only evaluates constant arithmetic and ASCII strings as the game does, and never changes the order or the meaning of anything else.
No array that is part of the compiled file can be reached and modified by a script.""",
["inputs"],"all scripts over literals, variables, commands and operators in several files, compiled as written and optimized",
"""The tests compare ten compiled scripts and four optimized ones with stored results; folding across operators, strings and arrays of other commands is not in them.""",
["libs/sqf/src/compiler/mod.rs","libs/sqf/src/compiler/optimizer/mod.rs","libs/sqf/src/compiler/serializer/mod.rs"],
[("code generation","libs/sqf/src/compiler/mod.rs"),("optimizer","libs/sqf/src/compiler/optimizer/mod.rs"),("file format","libs/sqf/src/compiler/serializer/mod.rs")],T,
"Differential against a decoder and stack machine of the harness; single precision arithmetic.",
"""The programs of Q01 are compiled. A decoder of the harness (with its own LZO) reads the file strictly, and a stack machine turns the instructions back into expressions. Facet `compile`: they must be the reference tree, with lower-case names, the offset, line and file of every command, and the source text of every code block. Facet `optimize`: both sides are brought to a normal form by folding everything that may be folded (in single precision, finite results only), `_this call x`, and copies of literal arrays, then must be equal; before that, every array stored as one constant must be the argument of a command that cannot hand it out: the ones that only read it, and `param`, `params`, `getVariable`, `setVariable`, `getOrDefault` unless a default value is an array. Facet `limits`: arrays around 65536 elements are compiled or refused.""",
["Statements::compile_to_writer","Statements::optimize"])
prop("Q03","Lints report exactly the mistakes they are about, at the right place",
"""For every script and every lint setting, each enabled lint reports every instance of its mistake once, at the place of the mistake and with the configured severity, and nothing else is reported.
Every replacement that is suggested is a script that means the same as what it replaces.
The name of a variable, command or event matters only as far as the game distinguishes letter case.""",
["inputs"],"all scripts built of the mistakes of nineteen lints and of similar code that is right, in several files, with all settings of the lints",
"""The tests compare the reports of one sample file per lint with default settings; operands in another order, nested code, other letter case, quotes and other settings are not in them.""",
["libs/sqf/src/analyze/mod.rs","libs/sqf/src/analyze/lints/s01_command_required_version.rs","libs/sqf/src/analyze/lints/s21_invalid_comparisons.rs","libs/sqf/src/analyze/lints/s24_marker_spam.rs","libs/workspace/src/reporting/diagnostic/mod.rs","libs/common/src/config/project/lint.rs"],
[("lints","libs/sqf/src/analyze/mod.rs"),("settings","libs/common/src/config/project/lint.rs")],T,
"Generated scripts know which reports they deserve; suggestions are compared by the meaning a reference parser finds.",
"""A script is generated from templates of mistakes and near misses (negated conditions, constants that need quoting, comparisons in both orders, several limits for a variable, saved and restored reserved variables, series of marker commands, event handlers of seven kinds, too new, broken or oddly written commands), nested in code, calls and operators, and laid out over several files as for Q01. Each template records the expected code and the tokens that are marked; lints about single words (required version, command case, banned commands, capital variables) come from a scan over all tokens. A generated project.toml switches lints off and on and sets severity, ignore lists and banned commands. The reports of the analyzer must equal the expected ones, with their severities, the start of every label, and its end where a whole expression or word is marked; the text of each suggestion must parse to the same tree as what it is expected to mean. Every report is also rendered.""",
["hemtt_sqf::analyze::analyze"])
