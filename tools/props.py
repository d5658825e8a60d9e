def P(id, title, statement, over, text, why, files, mech, observe=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or ["public library API"], hook_needed=None))


L = "lib/src/"
CM, CPN, CJ = "cli/src/main.rs", "cli/src/image/png.rs", "cli/src/image/jpeg.rs"
CLI = ["the texpresso command line tool"]
SAMPLE = "The tests decode one hand-made grey block per format and a single-colour conversion; the block space has 2^64 (or 2^128) members and each index, endpoint order and pixel position is its own case."
PROPS = [
    P("C01", "Colour of BC1/BC2/BC3 blocks decodes exactly as the format defines",
      "For every block, each decoded pixel's red, green and blue equal the palette entry its 2-bit index selects: an endpoint expanded from 5:6:5 by bit replication, or the 1/3-2/3 blend of the two (rounded down). In BC1, when the first endpoint is not greater than the second as a 16-bit number, index 2 is their average and index 3 is black; BC2 and BC3 never use that mode.",
      ["inputs"], "every 8- or 16-byte block, every pixel position", SAMPLE,
      [L + "colourblock.rs", L + "lib.rs"], [("palette expansion and index unpacking", "colourblock::decompress"), ("format dispatch", "Format::decompress_block")]),
    P("C02", "BC2 alpha decodes exactly as the format defines",
      "For every BC2 block, the alpha of each decoded pixel is 17 times that pixel's own 4-bit field, with pixels in row order and the low nibble first.",
      ["inputs"], "every 16-byte block, every pixel", SAMPLE, [L + "alpha.rs"], [("nibble expansion", "alpha::decompress_bc2")]),
    P("C03", "Interpolated channels of BC3/BC4/BC5 decode exactly as the format defines",
      "For every BC3, BC4 and BC5 block, each interpolated value equals the codebook entry that the pixel's 3-bit index selects: eight-step interpolation when the first endpoint is greater than the second, otherwise six-step interpolation plus the constants 0 and 255.",
      ["inputs"], "every block, every pixel, all eight codes, both endpoint orders", SAMPLE, [L + "alpha.rs"], [("codebook and 3-bit index unpacking", "alpha::decompress_bc3")]),
    P("C04", "Decoded channels come from the right half of the block and nothing else",
      "A BC4 block decodes to opaque grey and a BC5 block to opaque pixels with zero blue; BC1 alpha is 0 exactly for index 3 of the three-colour mode and 255 otherwise. Alpha of BC2/BC3 and red of BC5 depend only on the first eight bytes of the block, their colour and the green of BC5 only on the last eight, and no output depends on bytes after the block.",
      ["inputs"], "every block content and every slice length of at least one block", "Tests use equal data in all channels and exactly sized slices, so that a channel read from the wrong half, or a stray dependence, is invisible to them.",
      [L + "lib.rs", L + "colourblock.rs", L + "alpha.rs"], [("channel assembly per format", "Format::decompress_block")]),
    P("C05", "Decoding a block never panics and always terminates",
      "For every format, decoding any slice of at least one block's length returns a result: there is no content for which it panics, overflows or loops.",
      ["inputs"], "every slice content and length", "Only a handful of well-formed blocks are decoded by the tests; untrusted files contain arbitrary bytes.",
      [L + "lib.rs", L + "colourblock.rs", L + "alpha.rs"], [("fixed-size arrays and masks", "Format::decompress_block")]),
    P("C06", "Decoding an image puts every pixel of every block in its place",
      "For every format, width and height, each pixel (x, y) of a decoded image is pixel (x mod 4, y mod 4) of the decode of block x/4 + (y/4)*ceil(width/4), stored at bytes 4*(x + y*width). Pixels of edge blocks outside the image are dropped and no other byte of the output changes; this is so with and without parallel decoding.",
      ["inputs"], "every width and height below 2^30, every block content, output buffers of any sufficient length", "Tests use one fixed image of one block; edge blocks in both directions, single-row images, longer buffers and the parallel build have their own index arithmetic.",
      [L + "lib.rs"], [("row chunks, block index and edge conditions", "Format::decompress")]),
    P("C07", "Compressing an image hands every block its own pixels and place",
      "For every format, width and height, block (X, Y) is compressed from image pixels (4X+i, 4Y+j), with exactly the pixels inside the image enabled and the caller's parameters, into bytes starting at block_size*(X + Y*ceil(width/4)). Every block is compressed, nothing else in the output changes, with and without parallel compression.",
      ["inputs"], "every width and height below 2^30, every pixel content, every parameter set, output buffers of any sufficient length", "Tests compress single 4x4 blocks; widths and heights that are not multiples of four, several block rows and longer buffers are not sampled.",
      [L + "lib.rs"], [("gathering loop, pixel mask and output chunks", "Format::compress")]),
    P("C08", "Image functions never panic on sufficient buffers",
      "For every format and every width and height (zero included), decoding and compressing an image with buffers at least as long as the image needs does not panic outside the block codec: no overflow, no index or slice out of range, no zero chunk size.",
      ["inputs"], "every width and height below 2^30, every buffer length that suffices", "A panic needs a particular size (zero, one, a multiple of four plus one, a longer buffer); tests use one size.",
      [L + "lib.rs"], [("slicing and index arithmetic", "Format::decompress, Format::compress")]),
    P("C09", "Size formulas are exact and an undersized output is refused",
      "num_blocks(n) is n/4 rounded up, block_size is 8 for BC1 and BC4 and 16 for the others, and compressed_size is the product of both block counts and the block size, for all dimensions. Compressing into an output shorter than that panics before anything is stored.",
      ["inputs"], "all dimensions below 2^30, all formats, all output lengths", "The tests check a handful of sizes.",
      [L + "lib.rs"], [("size arithmetic and the size assertion", "num_blocks, Format::block_size, Format::compressed_size, Format::compress")]),
    P("C10", "The codec's results depend on its arguments alone",
      "Every library function computes its result and its output bytes from its arguments only: no hidden state kept between calls, no clock, randomness, environment, thread identity, memory address or input/output. So results repeat exactly, in any call order and from any number of threads, and parallel builds cannot depend on scheduling.",
      ["inputs", "histories", "schedules"], "every sequence and interleaving of calls, with and without rayon", "Hidden state shows only for particular call histories or thread schedules; tests make isolated calls on one thread.",
      [L + "lib.rs", L + "alpha.rs", L + "colourset.rs", L + "colourblock.rs", L + "colourfit.rs", L + "colourfit/cluster.rs"], [("no statics with interior mutability; rayon used for disjoint chunks only", "whole library crate")]),
    P("C11", "The library cannot corrupt memory or race on it",
      "No call of the library, with any arguments and any contents of the buffers, reads or writes memory outside the slices and values it was given or causes a data race, in debug and release builds. The library gets this from the language: it contains no unsafe operation.",
      ["inputs", "schedules"], "every argument, buffer and thread schedule, with and without rayon", "An out-of-bounds access or race in unchecked code needs a particular size or schedule and often goes unnoticed by a test.",
      [L + "lib.rs"], [("safe Rust throughout", "whole library crate")]),
    P("C12", "Interpolated channels are encoded with the nearest code",
      "For every block of pixels and every mask, in BC3's alpha, BC4 and both halves of BC5, each enabled pixel's 3-bit index selects an entry of the codebook the decoder builds from the written endpoints that is nearest to the pixel's value. The written endpoints enclose every enabled value, except 0 and 255 in a six-step block.",
      ["inputs"], "every block of pixels, every mask", "Tests compress one grey block per format; a wrong code needs particular extremes, such as a narrow range, values 0 or 255 only, or a range near the ends of the scale.",
      [L + "alpha.rs"], [("range selection, codebooks, index fitting and remapping", "alpha::compress_bc3")]),
    P("C13", "Disabled pixels have no influence on the compressed block",
      "For every format, mask, parameter set and block of pixels, the bytes written by masked block compression do not depend on the colour or alpha given for pixels whose mask bit is off.",
      ["inputs"], "every block of pixels, every 16-bit mask, every algorithm, weight and flag", "The tests only ever enable all pixels, so a stray read of a padding pixel is invisible to them; it needs a mask and a pixel pattern to show.",
      [L + "lib.rs", L + "alpha.rs", L + "colourset.rs"], [("mask tests in the alpha encoders and the colour set", "Format::compress_block_masked")]),
    P("C14", "Each half of a compressed block is made from its own channels",
      "The alpha half of BC2 and BC3 depends on alpha and mask only, a BC4 block on red and mask only, the halves of BC5 on red resp. green and mask only, none of them on the parameters. Unless colour is weighed by alpha, the colour half of BC2 and BC3 does not depend on alpha, and a BC1 block depends on alpha only through whether each is below 128.",
      ["inputs"], "every block of pixels, every mask, algorithm and weight", "Tests compress grey or fully opaque blocks, where reading the wrong channel gives the same bytes.",
      [L + "lib.rs", L + "alpha.rs", L + "colourset.rs"], [("channel selection per format", "Format::compress_block_masked")]),
    P("C15", "Block compression never panics, terminates and writes exactly one block",
      "For every block of pixels, mask and parameter set (channel weights of any value, including NaN and infinity), and any output of at least one block's length, masked block compression returns, having overwritten every byte of the block and no byte after it.",
      ["inputs"], "every block of pixels, mask, algorithm, weight and output length", "A panic or a stale byte needs a degenerate pixel set or weight; tests compress three blocks with default parameters.",
      [L + "lib.rs", L + "alpha.rs", L + "colourset.rs", L + "colourblock.rs", L + "colourfit.rs", L + "colourfit/cluster.rs", L + "colourfit/range.rs", L + "colourfit/single.rs", L + "math.rs"], [("all loops and index arithmetic of the encoder", "Format::compress_block_masked")]),
    P("C16", "The compress command passes the selected options on to the encoder",
      "Whenever `compress` succeeds, the image was compressed by exactly one encoder call with the format given by -f, the algorithm of the profile given by -p (speed: RangeFit, balanced, the default: ClusterFit, quality: IterativeClusterFit), the alpha-weighing flag as given, and the three -w weights in the order given, or the perceptual weights when none is given; any other number of weights ends in failure. The output buffer has exactly the compressed size of the image. The commands, option names, short names, values and defaults are those documented by --help.",
      ["inputs"], "every command line and every image content", "There is no test of the tool besides clap's self-check; each combination of format, profile, weights and flag is a case of its own.",
      [CM], [("option handling and conversions", "main, compress_file, Into impls")], CLI),
    P("C17", "DDS files are labelled with, and decoded by, the codec of their data",
      "A DDS file written by `compress` holds exactly the encoder's output under a DX10 header with the image's width and height, a single 2D texture without depth, mipmaps, array or cube map, and the DXGI format of the selected format (BC1-BC3 UNorm_sRGB, BC4 and BC5 UNorm). `decompress` decodes a file with the codec its DX10 header names or, without one, its legacy pixel format (DXT1, DXT3, DXT5), and fails for every other format. So every file written is read back with the codec that wrote it.",
      ["inputs"], "every format, image and DDS header", "A wrong label still makes a well-formed file, and nothing in the tests reads or writes one.",
      [CM], [("header construction and format tables", "compress_file, decompress_file, format_to_dxgiformat, dxgiformat_to_format, d3dformat_to_format")], CLI),
    P("C18", "The decompress command writes the decoded image as an equivalent PNG",
      "Whenever `decompress` succeeds, the file's data was decoded with the width and height of its header, and the PNG written has that width and height, colour type RGBA with 8 bits per channel, and exactly the decoded bytes as pixels. A file whose DX10 header is not a 2D texture is refused.",
      ["inputs"], "every DDS file", "No test decompresses a file.",
      [CM, CPN], [("decoding and PNG set-up", "decompress_file, image::png::write")], CLI),
    P("C19", "Input images reach the encoder with the right pixels and dimensions",
      "The extension of the input's name, in any case, selects the reader: png for PNG, jpg or jpeg for JPEG, anything else is refused. The encoder gets the decoded image's width and height and RGBA pixels in order: grey is replicated to red, green and blue, grey with alpha keeps its alpha, RGB gets alpha 255, RGBA is unchanged, palettes and 16-bit channels are expanded or reduced by the decoder; JPEGs other than 8-bit grey and RGB are refused.",
      ["inputs"], "every input file name and image of each colour type", "Each colour type has its own expansion; no test reads an image file.",
      [CM, CPN, CJ], [("reader dispatch and pixel expansion", "compress_file, image::png::read, image::jpeg::read")], CLI),
    P("C20", "The tool reports every failure and refuses bad input before writing",
      "Whenever a command ends successfully, every operation it used that can fail has succeeded, including writing, finishing and flushing the output. A run that fails because the input cannot be opened, read, decoded or is of an unsupported kind has not created or emptied the output file.",
      ["inputs", "fault_sequences"], "every failure of every file, decoding and encoding operation, at every point of a run", "Failures such as a full disk at the last flush do not occur in tests; ignoring their report is invisible until then.",
      [CM, CPN, CJ], [("unwrap/expect on results, order of creation", "compress_file, decompress_file, image::png::write")], CLI),
    P("C21", "The tool touches only the named input and output files",
      "A command opens its input file for reading and creates exactly one file, replacing its old content: the one given by -o or, without it, the input's file name with its extension replaced by dds or png in the current directory (`output.dds` or `output.png` if the input has no file name). The result is written to that file; no other file, directory, process or environment variable is touched.",
      ["inputs"], "every command line", "No test runs a command; a wrong directory or a lost extension needs a particular input path to show.",
      [CM, CPN], [("output name and file creation", "compress_file, decompress_file, image::png::write")], CLI),
    P("C22", "BC1 keeps each pixel's opacity",
      "For every block of pixels, mask, algorithm and alpha-weighing flag, and channel weights between 0 and a million, every enabled pixel of a BC1 block decodes to alpha 0 if its alpha was below 128, and to alpha 255 otherwise.",
      ["inputs"], "every block of pixels, every mask, algorithm, flag and weight in the range", "Tests compress opaque or uniform blocks only; a mixture of opaque and transparent pixels, repeated colours or equal endpoints is needed to reach the other paths.",
      [L + "colourset.rs", L + "colourblock.rs", L + "colourfit.rs", L + "colourfit/cluster.rs", L + "colourfit/range.rs", L + "colourfit/single.rs", L + "lib.rs"], [("transparency flag, three-colour mode, index remapping and endpoint order", "Format::compress_block_masked, ColourSet::remap_indices, colourblock::write3")]),
    P("C23", "BC2 alpha is rounded to the nearest of its sixteen levels",
      "For every block of pixels, mask and parameter set, every enabled pixel of a BC2 block decodes to the multiple of 17 that is nearest to its alpha, and the alpha of every disabled pixel decodes to 0.",
      ["inputs"], "every block of pixels, mask and parameter set", "Tests compress one alpha level; rounding goes wrong at particular levels, and positions can be mixed up without a uniform block showing it.",
      [L + "alpha.rs", L + "lib.rs"], [("quantisation and packing of explicit alpha", "alpha::compress_bc2")]),
    P("C24", "A block of one colour decodes to that colour within one unit per channel",
      "For every mask, parameter set and alpha, if all visible pixels of a BC1, BC2 or BC3 block (the enabled ones, in BC1 those with alpha of at least 128) have one colour, each of them decodes to it within 1 in red, green and blue; in a BC1 block that also has an enabled pixel with alpha below 128, within 2 in red and blue and 1 in green. If all enabled pixels of a block share one alpha (BC3), one red (BC4, BC5) or one green (BC5), that value decodes exactly.",
      ["inputs"], "every colour, mask, parameter set and alpha", "Tests compress a few colours; an entry of the 1024-entry lookup tables, the choice between its two columns or between three and four colours, or the order of equal endpoints can be wrong for single colours out of 16 million.",
      [L + "colourfit/single.rs", L + "colourfit/single_lut.rs", L + "colourset.rs", L + "colourblock.rs", L + "alpha.rs", L + "lib.rs"], [("choice of endpoints and index for a single colour", "SingleColourFit::compute_endpoints, single_lut"), ("endpoint order and index remapping", "colourblock::write3, write4"), ("range widening of equal endpoints", "alpha::compress_bc3")]),
    P("C25", "The library needs no standard library, no heap and bounded stack",
      "Built without the rayon feature, no function of the library reaches code of the standard library or of an allocator, so it runs on targets that have neither. No library function can, through any chain of calls, call itself again while it runs, so the stack a call needs is bounded by a constant of the build, whatever its arguments.",
      ["inputs", "configurations"], "every call of every library function with any arguments", "Tests run on a hosted target where the standard library and the heap are always there; a call that allocates or recurses returns the same result.",
      [L + "lib.rs", L + "alpha.rs", L + "colourset.rs", L + "colourblock.rs", L + "colourfit.rs", L + "math.rs", "README.md"], [("no_std attribute, roadmap entry no_std", "lib.rs, README.md"), ("all functions", "the whole crate")]),
    P("C26", "Formats that share a half encode it alike",
      "For the same pixels, mask and parameters, the colour halves of a BC2 and a BC3 block are equal. The alpha half of a BC3 block is the BC4 block of its alpha channel, and the two halves of a BC5 block are the BC4 blocks of its red and its green channel.",
      ["inputs"], "every block of pixels, mask and parameter set", "Tests compare each format with its own expected bytes for a few blocks; a difference between two formats needs a block that reaches it.",
      [L + "lib.rs", L + "alpha.rs", L + "colourset.rs", L + "colourfit.rs", L + "colourfit/cluster.rs", L + "colourfit/range.rs", L + "colourfit/single.rs", L + "colourblock.rs"], [("choice of the codec of each half", "Format::compress_block_masked"), ("uses of the format inside the colour codec", "ColourSet::new, ColourFit::compress, is_bc1")]),
    P("C27", "Fully transparent and fully opaque values survive exactly",
      "For every block of pixels, mask and parameter set, every enabled value of 0 decodes to 0 and every enabled value of 255 decodes to 255 in the alpha of BC2 and BC3, in BC4 and in both channels of BC5, whatever the other pixels are.",
      ["inputs"], "every block of pixels, mask and parameter set", "Tests check uniform values and a few ramps; a lost extreme needs a particular mixture of values in the block.",
      [L + "alpha.rs", L + "lib.rs"], [("choice of endpoints and codes", "alpha::compress_bc3, fit_codes, fix_range"), ("quantisation of explicit alpha", "alpha::compress_bc2")]),
]
NA = {}
