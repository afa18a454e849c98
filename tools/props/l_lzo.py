T="property-based testing: generated cases against an independent model, with shrinking"
prop("L01","LZO compression is lossless, bounded and memory safe",
"""For every input, compressing yields a stream that any LZO1X decoder, including the bundled one, expands to exactly the input, and that is no longer than the announced worst case.
Neither direction touches memory outside the buffers it was given: an output buffer that is too small leads to an error.
A stream that is cut short is rejected.""",
["inputs"],"all inputs up to several windows of data, matches at every distance class, all output buffer sizes",
"""The test compresses a fixed text and random (incompressible) data once; long matches, distances around the encoding limits, several windows and small buffers are not sampled.""",
["libs/lzo/src/lib.rs","libs/lzo/src/compress.rs","libs/lzo/src/decompress.rs"],
[("LZO1X-1 compressor","libs/lzo/src/compress.rs"),("LZO1X decompressor","libs/lzo/src/decompress.rs"),("buffer size rules","libs/lzo/src/lib.rs")],T+"; guard pages",
"Independent decoder plus guard pages around every buffer.",
"""Generators aim at the boundaries of the encoding (match distances 2048, 16384, 32768, 49152, run lengths around the extension bytes). Every buffer ends or begins at an inaccessible page, so an out-of-bounds access kills the worker. Oracle: an independent LZO1X decoder written from the format description, and equality with the input.""",
["compress","compress_to_slice","decompress_to_slice"])
prop("L02","LZO decompression is safe and exact on every stream",
"""For every byte string and every output size, decompression either yields exactly the bytes the stream encodes or an error; a stream is accepted only if it is valid, complete and fits.
It never reads or writes outside its buffers and always ends.""",
["inputs"],"all byte strings as input (valid instruction sequences, damaged compressor output, noise) and all output sizes",
"""Only output of the bundled compressor is decompressed in tests.""",
["libs/lzo/src/decompress.rs","libs/lzo/src/lib.rs"],[("bounds checks of the decompressor","libs/lzo/src/decompress.rs")],
"grammar-based fuzzing, differential against an independent decoder, guard pages",
"Random streams; guard pages make out-of-bounds accesses fatal.",
"""Streams assembled from the instruction set (including long runs, far matches, missing end marks), mutated compressor output and noise. Oracle: differential against the independent decoder, guard pages on both buffers.""",
["decompress_to_slice"])
