T="property-based testing: generated histories against a model, with shrinking"
prop("H01","Editors are shown exactly the mistakes that configs have",
"""At every point of an editing session, once the language server is at rest, the mistakes shown for each file are exactly those that the configs of the open folders have as they were last saved, in configs and in every file they include, at the place of the mistake counted as editors count.
Mistakes that were put right, and those of folders that were closed, are no longer shown.
Nothing an editor does ends the server.""",
["histories","inputs"],"all folders, configs and included files; all orders of opening and closing folders, editing, saving and opening files",
"""The language server has no tests.""",
["hls/src/config/mod.rs","hls/src/diag_manager.rs","hls/src/workspace.rs","libs/workspace/src/reporting/processed.rs","libs/workspace/src/reporting/diagnostic/mod.rs"],
[("configs and what they include","hls/src/config/mod.rs"),("what is shown","hls/src/diag_manager.rs"),("open folders","hls/src/workspace.rs")],T,
"An editor of the harness talks to the server.",
"""The server is built from its sources and started as editors start it; the harness speaks the protocol over a loopback connection. Up to three folders, some with equal addon paths, common name beginnings or spaces, hold configs that include each other's headers; mistakes of four kinds are put in and put right, files saved, folders opened and closed, and files outside of every folder saved. After each step what is shown must become, and stay, what a model of the folders says: file, line, columns in UTF-16 code units, code and severity. Not covered: stringtables and scripts, for which the server shows no mistakes.""",
["textDocument/publishDiagnostics"])
prop("H02","Editors are told about the command under the cursor",
"""For every script that can be read, pointing at any letter of a command shows the documentation of that command, wherever it is: in nested code, arrays, arguments, after comments and letters of any size.
Pointing at any other word of the script shows nothing.
After saving, the answers are about the text that was saved, and questions are answered while files are being read.""",
["inputs","histories"],"all scripts and places in them, saved again and again",
"""The language server has no tests.""",
["hls/src/sqf/locate.rs","hls/src/sqf/hover.rs","hls/src/sqf/mod.rs"],
[("what is at a place","hls/src/sqf/locate.rs"),("documentation","hls/src/sqf/hover.rs"),("scripts that were read","hls/src/sqf/mod.rs")],T,
"The words of generated scripts, each with its place and whether it is a command.",
"""Random scripts are written together with the place of every word; the harness then points at the first, the last and another letter of every word and compares the name in the answer. Scripts have nested conditions, arrays, all kinds of commands in any letter case, commands in strings and comments, includes, and letters of several bytes before words; they are changed and saved again, and some are asked about while saves are under way.""",
["textDocument/hover"])
prop("H03","Editors show the documentation of commands as it was written",
"""For every command that a project defines, in every combination of calls, arguments, notes and examples, pointing at it shows its name, origin, version and locality, then its description, every way to call it with every argument, and every example, in that order and complete.
The wiki's markup is shown as what it stands for: links lead to the page or section that they name, boxes and code are set apart, and all other text and everything in code stays as it is.
Commands defined by a project can be used in its scripts in each of the ways defined, and what is shown follows the definitions when they change and the script is saved.""",
["inputs","histories"],"all definitions of commands",
"""The tests compare four fixed pieces of markup; none starts the server or defines a command.""",
["hls/src/sqf/hover.rs","libs/sqf/src/parser/database/mod.rs"],
[("what is shown","hls/src/sqf/hover.rs"),("commands of a project","libs/sqf/src/parser/database/mod.rs")],T,
"Definitions are written together with what they must look like.",
"""Every piece of a generated definition (words, links of all forms, code of all forms with nested arrays in it, boxes, arguments in nested arrays, versions, localities) is added at once to the definition and to the expected text, so that the expectation does not depend on reading markup. The project has up to four such commands, one of which replaces a command of the game; the script uses each in every way defined, in several letter cases; the parts of the answers are compared exactly, and again after the commands were defined anew. Not covered: aliases, return values and notes, which are not shown.""",
["textDocument/hover"])
