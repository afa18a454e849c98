T="property-based testing: generated projects run through the whole program against a model of what each command must produce, with shrinking"
prop("E01","A build holds exactly what the project says, and leaves the sources alone",
"""For every project, a build produces one PBO per addon at its documented place, with its prefix, version and properties, and in it exactly the files that are not excluded, configs rapified unless they are left out, every other file byte for byte; files to include are copied next to it.
A development build holds exactly the addons asked for, and links to their folders.
Scripts that change the virtual files change what is built and nothing else; the sources are never changed, and a second build gives the same.""",
["inputs","histories"],"all projects over addons, optionals, prefixes, files, exclusions, inclusions, properties, hooks and options of the command line",
"""The tests build three stored projects once and only look if that works, not at what is in the PBOs.""",
["bin/src/commands/build.rs","bin/src/commands/dev.rs","bin/src/modules/pbo.rs","bin/src/modules/rapifier.rs","bin/src/modules/files.rs","bin/src/context.rs","bin/src/modules/hook/mod.rs"],
[("packing","bin/src/modules/pbo.rs"),("rapifying","bin/src/modules/rapifier.rs"),("hooks","bin/src/modules/hook/mod.rs"),("development build","bin/src/commands/dev.rs")],T,
"Model based; the program is run as a process in a scratch folder; binarizing needs tools that are not there.",
"""A project is generated: one to three addons (optional or not, names with dots, several spellings of the prefix file and of the prefix), commands of the project's own that scripts use, files of many kinds in nested folders with names that look like each other, `addon.toml` with excludes, properties and rapify exceptions, project excludes and includes, version with or without a build number. The model of the harness says which files each PBO must hold (own glob matcher) and with what bytes: configs are decoded with the harness's rap decoder and compared with the value tree they were generated from, all else byte for byte. The command line program is linked into a wrapper, run as a process, and its whole output folder is compared with the model; sources are compared before and after. Facet `hooks`: one to three steps of scripts in `pre_build` create, overwrite, delete, copy and move virtual files; the model does the same. Facet `dev`: `-o`, `-O`, `--just`, `dev.exclude`, and left-over PBOs.""",
["output folder of hemtt build, hemtt dev"])
prop("E02","A release is signed for its keys and archived completely",
"""For every project, a release holds the files of a build, a signature for each PBO that verifies with the public key published for it, in the version and for the authority the project sets, and no private key anywhere.
The archives hold exactly the files of the release folder under the name of the mod.""",
["inputs"],"all projects and the signing, archive, optional folder and version settings",
"""The tests make a release of one stored project without looking at what is in it.""",
["bin/src/commands/release.rs","bin/src/modules/sign.rs","bin/src/modules/archive.rs","bin/src/modules/files.rs"],
[("signing","bin/src/modules/sign.rs"),("archive","bin/src/modules/archive.rs"),("command","bin/src/commands/release.rs")],T,
"Model based; signatures are verified with the signing library (S01 and S02 check that against a reference).",
"""The projects of E01 with the settings `sign`, `archive`, `folder` and the folders of optionals, signing authority and version, `--no-sign` and `--no-archive`. The release folder must hold exactly the files of the model; every PBO is decoded and every signature verified against the key published beside it; optionals released as mods of their own must have keys of their own; both archives are read back and compared with the folder, file by file.""",
["output folder and archives of hemtt release"])
prop("E03","A project with an error is refused, and the report names the file",
"""For every project with one thing wrong (a config, a script, a directive, a missing include, a byte order mark, settings, a definition of a command, a pattern, prefixes or names used twice, a failing hook), every command that needs it ends with an error that names the file, without crashing and without changing the sources.
A check of a project without errors succeeds and builds nothing; the values of a project are printed as they are set.""",
["inputs","faults"],"all projects with one mistake of fourteen kinds, and the commands build, release, check, dev and value",
"""A handful of single errors are tested inside the libraries; nothing tests that the program ends with an error for them.""",
["bin/src/lib.rs","bin/src/context.rs","bin/src/report.rs","bin/src/modules/sqf.rs","bin/src/modules/rapifier.rs","bin/src/modules/hook/mod.rs","bin/src/commands/value.rs"],
[("reports","bin/src/report.rs"),("exit code","bin/src/lib.rs"),("hooks","bin/src/modules/hook/mod.rs"),("values","bin/src/commands/value.rs")],T,
"Model based with one injected mistake; exit code, report, and sources.",
"""A project of E01 is given one mistake in one addon, at one of three depths: config syntax and meaning, script syntax, directives, includes that are not there (in a config and in a script), a byte order mark, settings of the addon, glob patterns, a prefix used twice, an addon that is in both places, no prefix, definitions of commands that are damaged, and hooks that fail in four ways. The command must end with 1 (a panic ends the wrapper with 101), and say the name of the file that is wrong. Facet `check` is the opposite on projects without mistakes, where nothing may be written but logs; facet `values` compares `hemtt value` with the settings that were generated.""",
["exit code and output of hemtt build, release, check, dev, value"])
prop("E04","A PBO is unpacked to its files, inside the folder asked for",
"""For every PBO, unpacking it writes exactly its files and properties into the folder asked for, and changes nothing outside of it whatever the names in the PBO are; a PBO that is cut off is refused.
One file is extracted byte for byte however its path is written, nothing that exists is overwritten, and the list of a PBO gives the name, sizes, time and hash of all that it holds.""",
["inputs","faults"],"all PBOs over names, sizes, properties and order, names that lead outside, and PBOs that are cut off",
"""Nothing tests these commands, and a PBO can be made by anyone.""",
["bin/src/utils/pbo/unpack.rs","bin/src/utils/pbo/extract.rs","bin/src/utils/inspect.rs","libs/pbo/src/read.rs"],
[("unpacking","bin/src/utils/pbo/unpack.rs"),("one file","bin/src/utils/pbo/extract.rs"),("list","bin/src/utils/inspect.rs")],T,
"Model based; the whole scratch folder is compared before and after.",
"""PBOs are encoded by the harness: with and without a version header, properties in any order, names in folders with both kinds of slashes, with `.` as a part, and (sometimes) names with `..`, absolute names and their backslash forms, which point back into the scratch folder so that even an escaped write is harmless. The tree of the scratch folder after `utils pbo unpack` must be that before plus exactly the files of the model below the output folder; if a name leads outside, or the PBO is cut at a random byte, the command must fail. Then `extract` to the terminal and to a file, names that are not there and outputs that exist, and `inspect` as JSON against the model. Names that differ only in case are not generated.""",
["files written by hemtt utils pbo unpack and extract, output of inspect"])
prop("E05","Fixing the letter case of commands changes nothing else",
"""For every script, fixing the case gives each command in code its official spelling and leaves every other byte as it was: strings in either kind of quotes, comments, variables that contain the name of a command, and files that are no scripts.
Only arguments of macros may keep the case they have; a second run changes nothing.""",
["inputs"],"all sequences of commands, names, strings, comments, macro calls and operators, in folders of files",
"""The tests do not run the tool, which rewrites the sources of its user in place.""",
["bin/src/utils/sqf/case.rs"],
[("scanner of the script","bin/src/utils/sqf/case.rs")],T,
"Metamorphic: the text is generated in pieces whose result is known.",
"""Scripts are generated as sequences of pieces, each of which comes with what it must become: commands in a random case (their official name), words that only contain or resemble one, both kinds of strings with doubled quotes, the other quotes and marks of comments in them, both kinds of comments with quotes, stars and slashes in them, macro calls (whose arguments may stay), operators. `utils sqf case` runs on the folder or one file; every file is compared piece by piece, and a second run must leave all as it is. A file that is not UTF-8 must make the command fail and leave files whole.""",
["files rewritten by hemtt utils sqf case"])
prop("E06","Stringtables of a project are sorted in place and counted correctly",
"""For every project, sorting its stringtables puts packages, containers, keys and languages in order (or only the languages), loses no text, and changes no other file; a second run changes nothing.
The report of the coverage gives for each language the exact share of the texts that are translated and each addon that lacks some once, in every format, without writing anything.""",
["inputs"],"all projects over addons, optionals, stringtables in nested folders, packages, containers, keys and languages",
"""The tests sort and count single stored files inside the library; the commands, which rewrite sources in place, are not tested.""",
["bin/src/commands/localization/sort.rs","bin/src/commands/localization/coverage.rs","libs/stringtable/src/totals.rs","libs/stringtable/src/package.rs"],
[("sorting","bin/src/commands/localization/sort.rs"),("coverage","bin/src/commands/localization/coverage.rs"),("totals","libs/stringtable/src/totals.rs")],T,
"Model based; T01 covers comments, escapes and layout of one file.",
"""Projects of one to six addons with a stringtable in the root of each and sometimes below; packages with nested containers, keys in random order, a common set of languages with gaps and strays. `localization coverage` as JSON (parsed and compared exactly: languages in documented order, percentages, addons) and as a table; then `localization sort`, with and without `--only-lang`: every stringtable must be what the sorted model is written as, up to layout, and all else as before.""",
["stringtables rewritten by hemtt localization sort, output of hemtt localization coverage"])
prop("E07","Launching starts the game with exactly what the configuration says",
"""For every project and launch configuration, the game is started as often as asked, with each mod, DLC, preset, parameter, mission and argument that the named configurations, those they extend and the command line ask for, each mod once, the own build among them, and nothing else.
The build holds the addons asked for and is linked into the game; if anything named is not there, the command fails and nothing is started.""",
["inputs","faults"],"all launch configurations over mods, DLCs, presets, optionals, parameters, missions and instances, options of the command line, and installations of Steam",
"""The tests only read launch settings; the command was never run by one, and did not work at all on Linux.""",
["bin/src/commands/launch/mod.rs","bin/src/commands/launch/launcher.rs","bin/src/commands/launch/preset.rs","bin/src/commands/launch/platforms.rs","bin/src/link.rs","libs/common/src/config/project/hemtt/launch.rs","libs/common/src/arma/dlc.rs","libs/common/src/steam.rs"],
[("arguments","bin/src/commands/launch/launcher.rs"),("presets","bin/src/commands/launch/preset.rs"),("configurations","libs/common/src/config/project/hemtt/launch.rs"),("DLCs","libs/common/src/arma/dlc.rs")],T,
"Model based; Steam, flatpak and the game are stand-ins in a scratch home folder that record their arguments. The way the game is started on Windows can not be run here.",
"""A Steam installation is laid out in a scratch home folder (the game in the main or another library, or missing; three subscribed mods, or none), with scripts named `steam` and `flatpak` (absent, without Steam, with Steam) that record their arguments. The project has two addons and two optionals; up to three launch configurations in `project.toml` or `launch.toml`, some extending another, name mods, DLCs in any of their spellings, presets (HTML with links in both schemes, duplicates, unknown DLCs, names with dots), optionals, missions in three forms, parameters, instances, file patching and rapify; the command line adds names of configurations, `-i`, `-F`, `-o`, `-Q` and arguments behind `--`; one in four projects has a `meta.cpp`. The model says which arguments each instance gets, which PBOs are built and where the link leads, or what is missing; then the command must fail without starting anything. Links left over that lead nowhere must be replaced.""",
["arguments of the started processes, development build, link in the folder of the game, exit code"])
prop("E08","The tools tell the truth about files, and convert them whole",
"""For every texture, PBO, key, signature and config, inspecting it shows exactly what it holds, also when only its content tells what it is, and converting a texture keeps every pixel of its first image; nothing that exists is overwritten.
A PBO is called verified exactly if the signature that lies next to it under the name of the key was made for it with that key, and its real hash is shown.
A config is called valid exactly if it has no mistake, and a damaged, empty or missing file ends in an error or in what is left of it, never in a crash.""",
["inputs"],"all textures, signed PBOs and configs, in any place and of any name, whole, changed or cut off, and all formats of the output",
"""The tests do not run these tools.""",
["bin/src/utils/paa/inspect.rs","bin/src/utils/paa/convert.rs","bin/src/utils/inspect.rs","bin/src/utils/verify.rs","bin/src/utils/config/inspect.rs","libs/paa/src/mipmap.rs"],
[("textures","bin/src/utils/paa/convert.rs"),("verification","bin/src/utils/verify.rs"),("kinds of files","bin/src/utils/inspect.rs"),("configs","bin/src/utils/config/inspect.rs")],T+"; mutation fuzzing",
"Model based; independent decoders of textures and keys.",
"""Textures of the independent encoder of A01: the tables in all four formats are parsed and compared, and the PNG, BMP or TGA that `utils paa convert` writes is compared pixel by pixel with an independent block decoder; targets that exist, in folders that do not, or of an unknown kind, and damaged textures. PBOs signed in version 2 or 3 with one of three keys, and nine ways in which the PBO, the key or the signature is not the right one (also with the stored hash made to fit); names with dots, spaces and folders; the hashes that are shown are computed separately, keys and signatures are parsed separately. Configs with or without one of four mistakes, with includes, patches and required versions, under relative, absolute and bare names. Any bytes, mutated or not, under any name for every tool: no crash and nothing written.""",
["output, exit code and files of hemtt utils paa, verify, inspect and config"])

prop("E09","Scripts see the project as it is, and change exactly what they say",
"""For every history of file operations in scripts and hooks, each operation has the documented result; scripts change the real files exactly as they say, and changes of the virtual files appear in what is built and never in the sources.
Scripts know the name, prefixes, version, mode and folders of the project and the time, also after a hook changed the version, and the hooks of the phases a command has are run in order of their names, with the value of a called script handed to its caller.
A script or hook that is missing, throws, breaks or signals fatal, itself or called by another, fails the command, is named in the report, and no later phase is run.""",
["histories","inputs"],"all histories of file operations over one or more scripts and hooks, project settings, phases and commands, and ways to fail",
"""The tests build stored projects with a few fixed hooks; none runs a script, or checks the result of an operation, an order, or a failure.""",
["bin/src/modules/hook/mod.rs","bin/src/modules/hook/libraries/rfs/path.rs","bin/src/modules/hook/libraries/rfs/file.rs","bin/src/modules/hook/libraries/vfs/path.rs","bin/src/modules/hook/libraries/vfs/file.rs","bin/src/modules/hook/libraries/hemtt.rs","bin/src/commands/script.rs"],
[("running","bin/src/modules/hook/mod.rs"),("real files","bin/src/modules/hook/libraries/rfs/path.rs"),("virtual files","bin/src/modules/hook/libraries/vfs/path.rs"),("called scripts","bin/src/modules/hook/libraries/hemtt.rs")],T+"; model-based histories of file operations",
"Model based; stateful histories against a model of the file tree.",
"""Random trees of folders and files, and random histories of all documented operations on them (paths built in one or several joins and over detours, files written in pieces, folders copied and moved, operations that must fail) are spread over scripts that call each other (`real`) or over hooks before and after the build, in an addon or outside (`virtual`). Each operation prints its result, which is compared with that of a model of the tree; then the tree on disk, a listing of the virtual one, the PBO (state before the build) and the copied files (state after it) are compared with the model, and all other files with what they were. `knows` compares everything scripts can ask with the generated settings in every phase and command, over versions that hooks rewrite and times between the start and end of the run, and the order of all prints. `fails` makes one script or hook throw, break, not parse, signal fatal, call a missing or failing one, or destroy the version, and checks exit code, report, what has run and what was built, and that a caught failure is none. Uses of the file system the docs say nothing about are left out (see assumptions).""",
["prints, exit code and files of hemtt script, build, dev and release"])
prop("E10","A new project is what was answered",
"""For all answers to the questions asked, the new folder holds exactly an empty folder for addons, a repository, a list of ignored files, the chosen license with the year and the author, and project settings that read back as exactly what was answered.
A name that is taken, and a missing terminal, are refused, and then nothing is changed; nothing outside of the new folder ever is.""",
["inputs"],"all answers, including quotes, backslashes and letters of several bytes, corrected while typing, and all licenses",
"""The one test uses fixed answers, and no license is filled in.""",
["bin/src/commands/new/mod.rs","bin/src/modules/new/license.rs"],
[("questions and files","bin/src/commands/new/mod.rs"),("licenses","bin/src/modules/new/license.rs")],T,
"Random answers typed on a pseudo-terminal.",
"""The command line program is run on a pseudo-terminal of its own and gets the keys of random answers, with corrections, empty answers and the license chosen with arrow keys; the tree that results is compared with what was there and what was answered, read with an independent reader and with the reader of projects. In other runs the name is a folder or file that exists, or there is no terminal.""",
["files and exit code of hemtt new"])

prop("E11","Models are binarized exactly as configured",
"""Exactly the models, animations and maps of the addons built that are not excluded, disabled or binarized already are handed to the game's tool, each once and with every file of the project visible to it under its prefix, and what the tool makes of a file takes its place in the PBO while all others are unchanged.
Exactly the textures and materials that an unbinarized model uses and the project lacks are reported for it, as an error unless configured otherwise; a damaged model, a required P drive that is missing and a file for which the tool fails are refused with an error that says so.
The sources are never changed.""",
["inputs","faults"],"all folders, prefixes, exclusions, models, tool locations and tool failures",
"""No test runs the tool, and the textures of one model are looked at.""",
["bin/src/modules/binarize/mod.rs","libs/p3d/src/functions/missing.rs"],
[("selection and the tool","bin/src/modules/binarize/mod.rs"),("textures and materials","libs/p3d/src/functions/missing.rs")],T,
"Random projects with models, and a stand-in for the game's tool.",
"""The command line program builds, develops or checks random projects with models, animations and maps in nested folders, with prefixes below one another, exclusions and damaged files. A script takes the place of Wine or Proton: it notes what it is asked for and which files of the project it can see, and writes marked output, nothing, or fails. What it was asked for, what is reported missing, the content of each PBO, the end of the run and the sources afterwards are compared with a model of the project.""",
["files and output of hemtt build, dev and check","calls of the binarization tool"])
