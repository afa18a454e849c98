T="property-based testing: generated cases against an independent model, with shrinking"
prop("M01","Models survive reading and writing unchanged",
"""For every well-formed editable model file, the reader reports every level of detail with its points, normals, faces, named data (also when a name is used more than once) and resolution exactly, and writing it yields the same model again, byte for byte up to unused fields.
A file that is cut short, of another kind, or with a face that is neither a triangle nor a quad is refused; any other damage ends in an error or a model that is no larger than the file, never in a crash.
An output that fails after any number of bytes is reported.""",
["inputs","faults"],"all models within the limits of the format, all damaged files, outputs failing at any byte",
"""One fixture is read and its textures are counted; nothing is written.""",
["libs/p3d/src/lib.rs","libs/p3d/src/lod.rs","libs/p3d/src/face.rs","libs/p3d/src/point.rs","libs/p3d/src/vertex.rs"],
[("model","libs/p3d/src/lib.rs"),("level of detail","libs/p3d/src/lod.rs"),("faces","libs/p3d/src/face.rs")],T+"; mutation fuzzing; fault injection",
"Independent encoder, both directions.",
"""Generated models (any bit pattern for numbers, repeated and empty names, inactive data, triangles with leftover vertices) are encoded independently, read in short reads, compared with the model and written again; the same model built in memory is written too. Cut at a random byte the file must be refused; the writer is stopped at a random byte. Mutated files must be refused or read as something that survives a round trip.""",
["P3D::read","P3D::write"])
prop("M02","Exactly the missing files of a model are reported",
"""For every model and workspace, the textures and materials reported as missing are exactly those that are named by a face, are not procedural or empty, and do not exist in the workspace, where a texture may also exist in its source or packed form.
The answer for a model does not depend on which models were checked before it.""",
["inputs","histories"],"all sets of references and files, sequences of models that share a cache",
"""No test calls it.""",
["libs/p3d/src/functions/missing.rs"],[("search and cache","libs/p3d/src/functions/missing.rs")],T,
"Sets compared with a model of the workspace.",
"""Random workspaces in memory and sequences of one to three models with references to present and absent files, with and without leading backslash, with several extensions and folders that look like extensions. Oracle: sets computed from the list of files; each model is checked alone and after the others with a shared cache.""",
["P3D::missing"])
