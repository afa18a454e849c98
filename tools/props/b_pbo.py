T="property-based testing: generated cases against an independent model, with shrinking"
prop("B01","Writing a PBO stores exactly its files and properties",
"""A PBO written from any set of files and properties has the documented layout: the prefix property first, the other properties in the order they were added, the entries sorted by case-folded name, the file contents in that order, and a trailing SHA-1 of everything before it that is also the returned checksum.
Reading it back yields the same properties, names, sizes and contents (looked up in any case and with either slash), and regenerating the checksum yields the stored one.
The bytes depend only on the properties and the set of files: not on the order the files were added in, nor on how often the PBO is written.""",
["inputs","histories"],"all file sets (names unique under case folding, any contents including empty ones and ones over 1 MB), all property lists, all insertion orders, repeated writes",
"""The unit tests write one or two small PBOs and compare with a snapshot; ordering, case folding, the threaded path over 1 MB, overwritten entries and repeated writes are not sampled.""",
["libs/pbo/src/write.rs","libs/pbo/src/read.rs","libs/pbo/src/model/header.rs","libs/common/src/io.rs"],
[("sorted headers, prefix first, hashing while writing","libs/pbo/src/write.rs"),("lookup and checksum regeneration","libs/pbo/src/read.rs")],T,
"Generated PBOs compared byte for byte with an independent encoder, SHA-1 included; trusts only the harness's own encoder.",
"""Generator: up to 12 files (mixed case, Unicode, nested folders, both slashes, contents empty to 5 KB, sometimes a file around the 1 MB threading threshold), up to 5 properties, random insertion order, overwritten entries. Oracle: `vpc::pbo::encode`, an independent encoder with its own SHA-1; then a read back through a reader that returns short reads, and lookups with changed case and slashes. A second facet writes names that differ only by case and demands the same bytes every time.""",
["WritablePbo::write","ReadablePbo::from"])
prop("B02","Reading a PBO reports exactly what the file contains",
"""For every well-formed PBO, whatever tool wrote it, the reader reports its properties, entry headers, offsets, contents, sortedness, content checksum and the hashes that signatures use as the file defines them.
Truncated files and files with trailing data are rejected.
Reading a damaged file ends in an error or in an answer consistent with the bytes, never in a crash, a hang or contents taken from the wrong place.""",
["inputs"],"all well-formed PBOs (any order, timestamps, compression marks, with or without properties, legacy text encodings in names and properties) and arbitrary damage to them",
"""The tests read two or three fixture PBOs; neither foreign orderings and header fields nor damaged files are sampled.""",
["libs/pbo/src/read.rs","libs/pbo/src/file.rs","libs/pbo/src/model/header.rs","libs/pbo/src/model/mime.rs","libs/common/src/io.rs","libs/common/src/sign_version.rs"],
[("header loop, trailing data check, lookups, hashes","libs/pbo/src/read.rs"),("bounded file view","libs/pbo/src/file.rs"),("extensions covered per signature version","libs/common/src/sign_version.rs")],T,
"Generated and mutated PBOs against an independent decoder; names are assumed to be valid UTF-8.",
"""Three generators: foreign PBOs from an independent encoder (unsorted, odd header fields, no property entry), damaged ones (truncation, extension, bit flips, extreme integers, block moves), and strings in a legacy encoding, which read as Latin-1 and are hashed as they are stored. Oracle: an independent decoder, an independent SHA-1 and the published lists of hashed extensions; every lookup, offset, partial read and hash is compared. A panic, abort or endless loop fails the case.""",
["ReadablePbo"])
prop("B03","A failing output device never yields a PBO reported as written",
"""If the output device fails after any number of bytes, writing a PBO reports an error instead of success and does not crash, and what reached the device is a prefix of the PBO.
A device that accepts only part of each write still receives exactly the right bytes.""",
["fault_sequences"],"every failure point inside the output, devices with short writes, files below and above the threaded-write threshold",
"""No test injects a write fault.""",
["libs/pbo/src/write.rs"],[("buffered output, final flush, scoped threads for large files","libs/pbo/src/write.rs")],
"property-based testing with injected write faults",
"Random failure points and short-write sizes over generated PBOs.",
"""Generated PBOs are written to a device that accepts a chosen number of bytes (in pieces of a chosen size) and then fails. Oracle: success if and only if every byte of the independently encoded PBO arrived.""",
["WritablePbo::write"],level="fault_enumeration")
