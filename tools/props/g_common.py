T="property-based testing: generated cases against an independent model, with shrinking"
prop("G01","Versions are read, printed, stored and ordered exactly",
"""Every version of three or four numbers with an optional build hash is read, printed and stored in settings without change, and versions are ordered by their numbers, one without a build number before those with one; a decimal like 2.04 stands for the two numbers around its point.
A version file yields the numbers of the macros that have exactly the names of the parts, in any order and among any other lines, and is refused when one of the three required parts is missing.
Text that is not a version is refused, never misread.""",
["inputs"],"all numbers of 32 bits, all hashes, all script version files",
"""Tests parse a handful of versions and one script version file; nothing compares, stores or mixes in other macros.""",
["libs/common/src/version.rs"],[("versions","libs/common/src/version.rs")],T,
"Tuples of numbers as the model.",
"""Pairs of versions, half of them neighbours of each other, are printed by the check and read back, compared in both directions and put through a settings file; every decimal with two places is read; a script version file with comments, other macros, indentation and either line ending is generated for the same numbers, and again with one part left out. Malformed text is generated from digits, dots and near misses, and judged by the grammar.""",
["Version"])
prop("G02","Prefix files name the folder a PBO is mounted at",
"""From every prefix file, bare or with keys, with any surrounding space, line ending, other keys and letter case of the key, exactly the path after the prefix is taken, split at backslashes.
A prefix that is empty, starts with a backslash or has forward slashes is refused, as is a file with keys and none named prefix.""",
["inputs"],"all prefix files",
"""Four fixed files are read.""",
["libs/common/src/prefix.rs"],[("prefix files","libs/common/src/prefix.rs")],T,
"The parts the file was written from.",
"""Random parts (spaces, dots, non-ASCII) are written as a bare line or among other keys; the parts, the printed prefix and its path must be the ones written. A damaged form of each file must be refused.""",
["Prefix::new"])
prop("G03","Project settings mean what the files say",
"""For every valid project, addon, launch and lint settings file, every setting has the value written, or its documented default when it is not, whichever of the equivalent forms and places it is written in; launch configurations add the lists and inherit the values of what they extend, nearest first, and one laid over another wins.
The project version is the one written or the one of the version file, followed by as much of the commit as asked for.
A project with a mistake (missing or mistyped values, unknown names, the same settings in two places, launch configurations that extend nothing or themselves in a circle) is refused.""",
["inputs"],"all settings files, chains and circles of launch configurations, repositories",
"""Tests read a few fixed files; circles longer than one, defaults and precedence along chains are not tested.""",
["libs/common/src/config/project/mod.rs","libs/common/src/config/project/hemtt/mod.rs","libs/common/src/config/project/hemtt/launch.rs","libs/common/src/config/project/version.rs","libs/common/src/config/project/lint.rs","libs/common/src/config/project/files.rs","libs/common/src/config/project/signing.rs","libs/common/src/config/addon/mod.rs","libs/common/src/arma/dlc.rs"],
[("project settings","libs/common/src/config/project/mod.rs"),("launch settings","libs/common/src/config/project/hemtt/launch.rs"),("version of the project","libs/common/src/config/project/version.rs"),("addon settings","libs/common/src/config/addon/mod.rs")],T,
"Settings compared field by field with what was written.",
"""A random project is written as TOML in a random form (inline and normal tables, orders, quotes, comments, launch.toml and lints.toml apart or not) to a scratch folder and read; every accessor is compared with the model, launch chains are resolved independently. One of sixteen kinds of mistake is introduced and the project must be refused, with a limit on time. Addon settings likewise, with the deprecated forms. Git hashes of all lengths are taken in scratch repositories.""",
["ProjectConfig::from_file","AddonConfig::from_file","VersionConfig::get","LaunchOptions"])
prop("G04","Lints run exactly as configured",
"""For every set of lints and settings, exactly the enabled lints run on a target, each once, only those for that kind of target, with the default severity, state and options overridden by those of the settings, in the order they were added.
A lint added twice, one set below its least severity, or one that cannot be disabled and is, is refused with one message for each problem, and then does not run.""",
["inputs","histories"],"all sets of lints, groups and settings, in any order of adding",
"""Tests check that a few lints can be disabled.""",
["libs/workspace/src/lint/mod.rs","libs/common/src/config/project/lint.rs"],
[("lint manager","libs/workspace/src/lint/mod.rs"),("overrides","libs/common/src/config/project/lint.rs")],T,
"Reference model of the manager.",
"""Lints that report the configuration they were given are added singly, in batches and in groups to the real manager with random overrides; the refusals and the reports of a run on two kinds of target are compared with a model.""",
["LintManager::push","LintManager::extend","LintManager::push_group","LintManager::run"])
prop("G05","Packed numbers, names and arithmetic are exact",
"""Every packed number and every text is written in the documented form, read back unchanged in short reads and ends in an error when the output fails; bytes that are no packed number are an error or the number they spell.
A prefix is taken off a text without regard to ASCII case exactly when it is there, for any text.
Arithmetic in settings has the value of its expression, with the usual precedence, and anything else is not taken for a number; a stored setting of the P drive is read back.""",
["inputs","faults"],"all numbers, texts, expressions, outputs failing at any byte",
"""Tests cover small packed numbers, ASCII prefixes and two dozen sums.""",
["libs/common/src/io.rs","libs/common/src/strip.rs","libs/common/src/math.rs","libs/common/src/config/pdrive.rs"],
[("packed values","libs/common/src/io.rs"),("prefixes of text","libs/common/src/strip.rs"),("arithmetic","libs/common/src/math.rs")],T+"; fault injection",
"Independent encodings and evaluation.",
"""Random sequences of numbers and texts are encoded independently and compared in both directions; random expression trees are printed with as few or more parentheses than needed and evaluated from the tree; each also with a mistake.""",
["ReadExt","WriteExt","StripInsensitive","math::eval"])

prop("G06","Suggestions for misspelt names are the closest known ones",
"""For every name that is not known, what is suggested instead are the up to three known names within three edits that are closest, closest first and without regard to case where the names have none.
The preprocessor suggests those among the macros with a value that are defined at that place, among its pragma commands, flags or codes, and a test for a macro if there is none.""",
["inputs"],"all names, all sets of known names and definitions",
"""Snapshots of three mistakes with one close name each.""",
["libs/common/src/lib.rs","libs/preprocessor/src/defines.rs","libs/preprocessor/src/codes/pe8_if_undefined.rs","libs/preprocessor/src/codes/pe7_if_unit_or_function.rs","libs/preprocessor/src/codes/pe19_pragma_unknown.rs","libs/preprocessor/src/codes/pe21_pragma_invalid_suppress.rs","libs/preprocessor/src/codes/pe22_pragma_invalid_flag.rs"],
[("closest names","libs/common/src/lib.rs"),("closest macros","libs/preprocessor/src/defines.rs")],T,
"Own edit distance; any order among equals.",
"""Random names and edits of them are given as known names and as what is asked for; the distances of what is suggested must be the smallest ones, in order. For the preprocessor, programs define macros with a value, units and functions of such names, undefine some, and then test, or give to a pragma, a name close to them.""",
["similar_values","help of preprocessor codes"])
