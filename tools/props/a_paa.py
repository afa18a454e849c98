T="property-based testing: generated cases against an independent model, with shrinking"
prop("A01","Reading a texture yields the images and data of the file",
"""For every well-formed texture file of the supported kinds, the reader reports its kind, its named data and its images in order, with their sizes and contents, and decoding an image (stored plain or compressed, of any size) yields the pixels the block format defines.
A damaged file, or one of an unsupported kind, ends in an error or in images that are part of the file, never in a crash or a hang.""",
["inputs"],"all texture files: kinds, tables, image sizes, plain and compressed blocks; all damaged files",
"""The tests read two fixture files and look at their header only.""",
["libs/paa/src/paa.rs","libs/paa/src/mipmap.rs","libs/paa/src/pax.rs"],
[("file structure","libs/paa/src/paa.rs"),("image decoding","libs/paa/src/mipmap.rs"),("kinds","libs/paa/src/pax.rs")],T+"; mutation fuzzing",
"Independent encoder and block decoder.",
"""An independent encoder writes DXT1, DXT3 and DXT5 files with named data in any order, images in any file order with gaps and empty table slots, sizes that are not multiples of four, and LZO-compressed images; the reader gets them in short reads. Oracle: the model, and an independent decoder of the three block formats for every pixel (one unit of rounding is allowed). Damaged files are mutations, truncations and other kinds; every image that is reported must be a part of the file.""",
["Paa::read","MipMap::get_image"])
prop("A02","Writing a texture stores the image",
"""Any image that fits the format is written as a file that reads back with the same size and, within the precision of the block format, the same pixels, and with its true average and maximum colours under their names.
An image that does not fit the format is refused with an error, and so is an output that fails after any number of bytes.""",
["inputs","faults"],"all images up to the limits of the format; outputs failing at any byte",
"""No test writes a texture.""",
["libs/paa/src/paa.rs"],[("writer","libs/paa/src/paa.rs")],T+"; fault injection",
"Round trip of generated images.",
"""Images of 1 to 24 pixels a side, either noise or flat blocks of colours that the format holds exactly, and uniform images at the limits of the size fields. Oracle: the written blocks decoded by the reader and by an independent decoder; flat blocks must come back exactly, noise within a bound on alpha; averages and maxima are computed separately. The output fails at a random byte.""",
["Paa::write"])
