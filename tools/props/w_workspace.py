T="property-based testing: generated cases against an independent model, with shrinking"
prop("W01","Every path leads to the one file it names",
"""In every project, a path relative to a file names what lies there, an absolute path names what lies at it in the project or its include folder, and otherwise what lies at the rest of it in the folder mounted under the longest matching prefix; a path that only differs in letter case is found and said to, and any other path is not found.
Reading shows the topmost layer without carriage returns, writing never touches the disk, and what is written is what is read.
The name of a file in the game is its path in the deepest mounted folder and leads back to it; every addon, mission and file is discovered exactly once, and the same prefix twice is refused.""",
["inputs","histories"],"all project trees, layers and prefixes, all paths, files written while working",
"""Tests locate a few paths in a fixed folder; nested prefixes, layers and letter case are not tested.""",
["libs/workspace/src/path.rs","libs/workspace/src/lib.rs"],[("paths","libs/workspace/src/path.rs"),("discovery and layers","libs/workspace/src/lib.rs")],T,
"Reference model of the layers and prefixes.",
"""Random trees with an include folder and up to three mounted folders (nested prefixes and folders, every name of prefix file) are written to a scratch folder, opened as HEMTT does and overlaid with files in memory. Random relative, absolute and virtual paths, exact, in another case and wrong, are looked up from random files and compared by content and by reported case with a model; virtual names are followed back; the disk is compared afterwards. Not promised: what only a shorter prefix has.""",
["WorkspacePath::locate","WorkspacePath::as_virtual_str","Workspace::create"])
prop("W02","Every addon is found, with its prefix and settings",
"""For every project, exactly the folders in addons and optionals are addons, each with the prefix of its prefix file, whatever form, name or letter case that has, and the settings of its addon file.
A folder without a prefix, with an invalid prefix or settings, or with a name that is taken, in any letter case or place, is refused.""",
["inputs"],"all folders of addons",
"""No test scans addons but those of complete builds.""",
["libs/workspace/src/addons.rs"],[("scan","libs/workspace/src/addons.rs")],T,
"The list the folder was written from.",
"""Random folders with up to six addons are written to a scratch folder and scanned; the set of names, places, prefixes and settings must be the one written, or the scan must fail when one of the mistakes was made.""",
["Addon::scan","Addon::new"])
prop("W03","Reports show the place they are about",
"""For every report with labels anywhere in any files, including empty files, ends of files and characters of several bytes, the rendered text names the severity, code, message, notes, file, line and column, and shows the line.
Its annotations hold exactly the primary labels with a message, with their exact first and last line and column; what editors are given holds all labels, with lines and columns in their units.""",
["inputs"],"all reports, all files and places",
"""Snapshots of a few reports in ASCII files.""",
["libs/workspace/src/reporting/files.rs","libs/workspace/src/reporting/diagnostic/mod.rs","libs/workspace/src/reporting/diagnostic/annotation.rs","libs/workspace/src/reporting/diagnostic/label.rs"],
[("lines of files","libs/workspace/src/reporting/files.rs"),("rendering","libs/workspace/src/reporting/diagnostic/mod.rs"),("annotations","libs/workspace/src/reporting/diagnostic/annotation.rs")],T,
"Lines and columns counted from the text.",
"""Random files (empty, without last line break, with carriage returns and characters of up to four bytes) and labels on any characters; the text without colours is searched for the parts, annotations are compared field by field. The very end of a file that ends with a line break may be told on either line.""",
["Diagnostic::to_string","Diagnostic::to_annotations","Diagnostic::to_lsp","WorkspaceFiles"])
prop("W04","Lints run as their settings say",
"""For every set of lints and lint groups and every setting, exactly the enabled lints run, once for each of their runners that fits what is checked, with their defaults overridden by the setting, options merged; a group runs if any of its lints is enabled and sees only those.
A setting below the minimum severity, disabling a lint that must be an error, and a lint given twice are refused with one error each, and what is refused does not run.""",
["inputs","histories"],"all lints, groups and settings, registered in any order",
"""One test runs two lints without any setting.""",
["libs/workspace/src/lint/mod.rs","libs/common/src/config/project/lint.rs"],
[("manager","libs/workspace/src/lint/mod.rs"),("merging settings","libs/common/src/config/project/lint.rs")],
"property-based testing: generated registration histories against a model, with shrinking",
"Recording lints under random settings against a model.",
"""Lints of the harness record every run with the settings they were given. They are registered one by one, in lists and as groups, some twice, under settings read from TOML; then targets of two kinds are checked. Runs, their order, settings and reports must be those of a model.""",
["LintManager::push","LintManager::extend","LintManager::push_group","LintManager::run"])
prop("W05","Files of the game are found, whole, and only when asked for",
"""When a project requires the P drive, every path into the game leads to the bytes the installed game has there, in any letter case, also relative from one file of the game to another, and a path to nothing is not found; without that, no file of the game is ever used.
This holds whichever expansions, tools and folders are installed, however many lookups happen at the same time or one after the other, and after an extraction failed or was killed at any point.
Nothing is written but below the folder of extracted files.""",
["inputs","histories","faults"],"all installations, sequences of lookups in several processes and threads, limits at which writing a file fails or the process is killed",
"""No test uses a P drive; the lookup in an installed game cannot run in them.""",
["libs/workspace/src/pdrive.rs","libs/workspace/src/path.rs","libs/common/src/steam.rs"],
[("P drive","libs/workspace/src/pdrive.rs"),("lookup","libs/workspace/src/path.rs")],
"property-based testing: generated histories of lookups with injected faults against a model, with shrinking",
"A made-up Steam library with packed addons; write limits and kills as faults.",
"""A home folder with a Steam library, the game with some of its expansions, addons packed by the harness, sometimes Arma 3 Tools, a folder of documents or an unpacked P drive is written to a scratch folder. Up to three workspaces with random settings look up paths in random letter case, existing and not, also from up to eight threads at once and relative to a file found before; between them, processes of their own look for the same files while no file may grow beyond a random limit, where they get an error or are killed. Every byte read must be the one packed. Strange paths (empty parts, parents beyond the root, folders) must not crash or reach files outside. A P drive that is a folder is only asked in the right case, as its file system decides about that. Not covered: extracted files of an older version of the game stay in use.""",
["WorkspacePath::locate","PDrive::path_to","pdrive::search"])
