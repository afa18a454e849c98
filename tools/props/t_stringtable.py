T="property-based testing: generated tables against an independent model and XML reader, with shrinking"
prop("T01","Sorting a stringtable changes the order and nothing else",
"""For every valid stringtable, reading and writing it keeps every package, container, key, string and comment exactly once with its meaning and at its element; the result is valid XML, with languages in their documented order, and writing it again changes nothing.
Sorting puts packages, containers and keys in alphabetical order, keeps equal names in their order, and is stable under repetition.
The totals of a package count its keys, and for every language the keys that have it, through all containers.""",
["inputs"],"all valid stringtables: any formatting, entities, CDATA, comments between elements, languages in any order and spelling, nested containers",
"""Three fixed files are sorted in tests; comments next to blank lines or on the line of an element, entities in names, CDATA and containers are in none of them.""",
["libs/stringtable/src/lib.rs","libs/stringtable/src/comments.rs","libs/stringtable/src/package.rs","libs/stringtable/src/key.rs","libs/stringtable/src/totals.rs"],
[("reading and writing","libs/stringtable/src/lib.rs"),("comments","libs/stringtable/src/comments.rs"),("sorting and totals of packages","libs/stringtable/src/package.rs"),("languages and escaping","libs/stringtable/src/key.rs"),("sums","libs/stringtable/src/totals.rs")],T,
"Round trip against a model of the table, its comments included.",
"""A table is generated as a model (names, strings and comments by meaning) and written in a random way: indentation, blank lines or none, CRLF, both quotes, self-closing tags, named and numeric entities, CDATA, languages in any order and in lower or upper case, comments in every gap. The API must return the model; the written text is read by a strict XML reader of the harness, and must be the model with its order changed as documented, comments attached to the same elements. Reading and writing that text again must return the same bytes. Totals are counted on the model. Names that differ only in how characters are escaped are not used to check the order, and strings have no white space at their border.""",
["Project::from_reader","Project::to_writer","Project::sort","Package::totals"])
prop("T02","Unsorted stringtables are reported as the settings ask",
"""For every set of stringtables and every setting of the lint, a table is reported exactly if its text is not what sorting it writes (or, on request, what ordering only its languages writes).
Up to three tables are reported one by one with their path, more as one report with their number; severity and being disabled are as configured, and a severity below the minimum is refused.""",
["inputs"],"all sets of tables, sorted or with one order or the formatting broken, and all settings",
"""No test runs this lint.""",
["libs/stringtable/src/analyze/lints/01_sorted.rs","libs/stringtable/src/analyze/mod.rs","libs/workspace/src/lint/mod.rs"],
[("comparison and reports","libs/stringtable/src/analyze/lints/01_sorted.rs"),("lint settings","libs/workspace/src/lint/mod.rs")],T,
"Tables with known disorder, checked against the reports.",
"""Up to six tables are written in the right order, some are then damaged in one place (two languages, keys, containers or packages swapped, one indentation) or only padded at their ends, which has to stay quiet. The setting is written to a lints.toml and read back through the project configuration. The reports must name exactly the damaged tables.""",
["lint_all"])
