"""Which analyses decide which property."""
ENGINE_TRUST = [
    "the nightly rustc front end (the analysed program is its MIR of /repo's crates and of the standard library)",
    "the engine in /verif/engine: MIR semantics, the value-graph domain, the linear-arithmetic entailment procedure and the rules",
    "the models of non-inlinable library calls in engine/src/models.rs (intrinsics, rayon's parallel iterator, libm's sqrt/cbrt)",
]
NOFEAT = []
RAYON = ["--features", "rayon"]


def lib(tasks, feat=NOFEAT, **kw):
    return dict(pkg="texpresso", crate="texpresso", feat=feat, tasks=tasks, **kw)


def each(t):
    return ["%s%s%d" % (t, "" if t.endswith("_") else ":", i) for i in range(5)]


def cli(tasks, feat=NOFEAT, **kw):
    return dict(pkg="texpresso_cli", crate="bin:texpresso", feat=feat, tasks=tasks, **kw)


TERMS = "path-sensitive symbolic term evaluation of main's type-checked MIR (all paths enumerated, loops summarised, library calls uninterpreted), typestate and provenance rules over the resulting call sequences"
CLI_ASM = [
    "the libraries the tool calls (clap, png, jpeg-decoder, ddsfile, std) do what their documentation says: a call is a term over its arguments, reports its failure in its Result, and keeps no other reference to what it was lent",
    "code generated by clap's derive for Parser::parse returns the value that from_arg_matches_mut builds",
]


def blocks(t, fmts="01234"):
    """one task per format, and for formats with a colour half per case of the number of colours"""
    return [x for f in fmts for x in (["%s:%s_%d" % (t, f, i) for i in range(17)] if f in "012" else ["%s:%s" % (t, f)])]


PLAN = {
    "C01": dict(
        level="proof",
        rule="For each of the 16 pixels, each of the four palette indices and both endpoint orders, the value graph of the block decoder's colour output must equal the palette formula of the format (2/3-1/3 blends, the half blend and black of the three-colour mode, the bit-replicated endpoints), as a function of the unconstrained block bytes.",
        runs=[lib(["decode_colour"], floor={"decode_colour": 800})],
    ),
    "C02": dict(
        level="proof",
        rule="The alpha output of every pixel of an explicit-alpha block must equal 17 times its own 4-bit field.",
        runs=[lib(["decode_bc2_alpha"], floor={"decode_bc2_alpha": 16})],
    ),
    "C03": dict(
        level="proof",
        rule="For each pixel, each 3-bit index and both endpoint orders the interpolated channel of BC3, BC4 and BC5 must equal the ramp formula of the format.",
        runs=[lib(["decode_gradient"], floor={"decode_gradient": 900})],
    ),
    "C04": dict(
        level="proof",
        rule="Channel layout of the decoded pixels: which channels are constant, equal or read from which half of the block (value graph and dependence masks of every output byte).",
        runs=[lib(["decode_layout"], floor={"decode_layout": 150})],
    ),
    "C05": dict(
        level="proof",
        rule="Every panic edge (bounds, overflow, slicing, unwrap, division, unreachable) reachable from the block decoder must be infeasible, and all loops finite, for every block content and every slice of at least one block.",
        runs=[lib(["decode_total"], floor={"decode_total": 1000})],
    ),
    "C06": dict(
        level="proof",
        rule="Every store the image decoder makes is a byte of a pixel inside the image and equals that pixel of the decode of block X + Y*blocks_wide; every byte of every pixel is stored, on every path, for symbolic width, height and buffer contents (loop iterations are analysed generically, with inferred invariants).",
        runs=[lib(each("img_decode"), feat=f, floor={"img_decode:%d" % i: 65 for i in range(5)}) for f in (NOFEAT, RAYON)],
        assumptions=["width and height below 2^30"],
    ),
    "C07": dict(
        level="proof",
        rule="Every call of the block compressor made by the image encoder receives, for symbolic image dimensions, the pixels (4X+i, 4Y+j) of the image, a mask of exactly the pixels inside it, the caller's format and parameters, and the place BS*(X + Y*blocks_wide) of the output; every block is compressed and nothing else is stored.",
        runs=[lib(each("img_encode"), feat=f, floor={"img_encode:%d" % i: 400 for i in range(5)}) for f in (NOFEAT, RAYON)],
        assumptions=["width and height below 2^30"],
    ),
    "C08": dict(
        level="proof",
        rule="Every panic edge reachable from the image functions (arithmetic overflow, indexing, slicing, chunking by zero, copy length mismatch) must be infeasible when the buffers are at least as large as the image needs, for symbolic dimensions, including zero.",
        runs=[lib(each("img_total:decode_") + each("img_total:encode_"), feat=f, floor={"img_total:encode_0": 10, "img_total:decode_0": 50}) for f in (NOFEAT, RAYON)],
        assumptions=["width and height below 2^30"],
    ),
    "C09": dict(
        level="proof",
        rule="Value graphs of num_blocks, block_size and compressed_size against their closed forms, and absence of any non-panicking path or store in the image encoder when the output is too small.",
        runs=[lib(["sizes"] + each("img_refuse"), feat=f, floor={"sizes": 11, "img_refuse:0": 2}) for f in (NOFEAT, RAYON)],
        assumptions=["width and height below 2^30"],
    ),
    "C10": dict(
        level="proof",
        technique="effect analysis: closed call-graph walk over the monomorphised MIR (every instance reachable from every function of the crate)",
        rule="No function reachable from any function of the library may read or write a static with interior mutability or a mutable static, use atomics, thread-locals, volatile or foreign functions, expose an address as a number, or make a virtual call; calls that leave the analysed code are limited to core, libm's float routines and the order-preserving operations of rayon's parallel iterators.",
        runs=[lib(["effects"], feat=f, floor={"effects": 250}) for f in (NOFEAT, RAYON)],
    ),
    "C11": dict(
        level="proof",
        technique="unsafe-operation lint over the type-checked MIR of every body of the crate, including closures, constants and generated impls",
        rule="No body of the library dereferences a raw pointer, calls an unsafe function or intrinsic, transmutes, reads a union, uses inline assembly, declares foreign items or implements Send or Sync by hand; with that, the language guarantees in-bounds, race-free access.",
        runs=[lib(["nounsafe"], feat=f, floor={"nounsafe": 120}) for f in (NOFEAT, RAYON)],
    ),
    "C12": dict(
        level="proof",
        rule="For each pixel, index value and feasible way of writing the block (endpoint order, swapped or not): if the pixel is enabled and has the index, no entry of the codebook of the written endpoints is nearer to its value; and its value lies between the endpoints. The alpha half of BC3 is the same function in every case of the colour half.",
        runs=[lib(["enc_nearest:%d@%d" % (f, g) for f in (2, 3, 4) for g in range(8)] + blocks("enc_alpha", "2"), floor={"enc_nearest:2@0": 16, "enc_nearest:3@0": 16, "enc_nearest:4@0": 32})],
    ),
    "C13": dict(
        level="proof",
        technique="information-flow (dependence) analysis over the abstract interpretation of the type-checked MIR, value-sensitive in the pixel mask",
        rule="No byte of the compressed block may depend on the value given for a disabled pixel, for symbolic pixels, masks and parameters (weights of any value); control dependences count.",
        runs=[lib(blocks("enc_masked"), floor={"enc_masked:0_5": 8, "enc_masked:3": 8, "enc_masked:4": 16})],
    ),
    "C14": dict(
        level="proof",
        technique="information-flow (dependence) analysis over the abstract interpretation of the type-checked MIR",
        rule="Dependence of every byte of the compressed block on each channel of the input and on the parameters, control dependences included, against what the format allows; the alpha half must be the same function of alpha in every case.",
        runs=[lib(blocks("enc_sep") + blocks("enc_alpha", "12"), floor={"enc_sep:0_5": 8, "enc_sep:3": 8, "enc_sep:4": 16, "enc_alpha:2_5": 16})],
    ),
    "C15": dict(
        level="proof",
        rule="Every panic edge reachable from the block compressor must be infeasible and every loop bounded, for every pixel, mask, parameter set (weights of any value, NaN included) and output length of at least a block; every byte of the block must be overwritten and no byte after it.",
        runs=[lib(blocks("enc_total"), floor={"enc_total:0_5": 100, "enc_total:3": 100, "enc_total:4": 100})],
    ),
    "C16": dict(
        level="proof",
        technique=TERMS,
        rule="On every path of main that ends successfully after the compress command: one call of the encoder, made with the format, algorithm and flag that the parsed options select, with the weights given or the perceptual ones, into a buffer of compressed_size bytes. The argument parser is evaluated too: commands, option names, short names, values, defaults and multiplicity.",
        runs=[cli(["cli_options"], floor={"cli_options": 100})],
        assumptions=CLI_ASM,
    ),
    "C17": dict(
        level="proof",
        technique=TERMS,
        rule="On every path: the header written is built once, with the encoder's width and height, a 2D texture without depth, mipmaps, arrays or cube map and the DXGI format of the format compressed, and the data written is the encoder's output; the decoder gets the format that the header's DXGI value, or without one its legacy value, names; any other value ends the run.",
        runs=[cli(["cli_dds"], floor={"cli_dds": 100})],
        assumptions=CLI_ASM,
    ),
    "C18": dict(
        level="proof",
        technique=TERMS,
        rule="On every successful path of the decompress command: the decoder gets the file's data and its header's dimensions and fills a buffer of 4*width*height bytes, and exactly that buffer is written, unmodified, to a PNG encoder of those dimensions, colour type RGBA and bit depth 8; with a DX10 header the dimension is known to be Texture2D.",
        runs=[cli(["cli_decompress"], floor={"cli_decompress": 20})],
        assumptions=CLI_ASM,
    ),
    "C19": dict(
        level="proof",
        technique=TERMS,
        rule="On every successful path of the compress command: the file name's extension (compared without case) selects the reader; the encoder gets the decoder's dimensions and pixels, each pixel being (as a term over one generic step of the expansion loop or iterator) grey, grey, grey, alpha or 255 for grey images, r, g, b, 255 for RGB and the bytes themselves for RGBA; PNG decoding expands palettes and strips 16 bits.",
        runs=[cli(["cli_images"], floor={"cli_images": 60})],
        assumptions=CLI_ASM,
    ),
    "C20": dict(
        level="proof",
        technique=TERMS,
        rule="On every path of main that ends successfully, the path's conditions include success of every call that returned a Result (also in loops and function values), and every buffered or PNG output is finished or flushed, after its last use, by such a call. No path opens, reads or decodes the input after the output file is created, and none is refused after that unless writing failed.",
        runs=[cli(["cli_errors"], floor={"cli_errors": 60})],
        assumptions=CLI_ASM,
    ),
    "C21": dict(
        level="proof",
        technique=TERMS,
        rule="On every path: the only file opened for reading is the input, at most one file is created (exactly one on success, emptied if it exists), under the name given by --output or the input's file name with the extension replaced; the result is written to it, and no other file, directory, process, thread or environment operation occurs.",
        runs=[cli(["cli_paths"], floor={"cli_paths": 60})],
        assumptions=CLI_ASM,
    ),
    "C22": dict(
        level="proof",
        rule="For every pixel and each of its two opacities, the value graph of the block compressor's output, put through the value graph of the block decoder, must give alpha 0 resp. 255 in every case, for symbolic pixels, masks and parameters. Cases on the choice of codebook, the order of the endpoints and the pixel's index are split until the alpha is a constant.",
        runs=[lib(blocks("enc_punch", "0"), floor={"enc_punch:0_5": 32})],
    ),
    "C23": dict(
        level="proof",
        rule="For every pixel and each of the 256 values of its alpha, the alpha decoded from the bytes compressed must be within 8 of it and (as C02 shows) a multiple of 17; for a disabled pixel it must be 0.",
        runs=[lib(blocks("enc_bc2", "1") + ["decode_bc2_alpha"], floor={"enc_bc2:1_5": 32, "decode_bc2_alpha": 16})],
    ),
    "C24": dict(
        level="proof",
        rule="For every position of the first visible pixel, the value graph of the block compressor's output (float operations on one channel kept as tables over its 256 values), put through the value graph of the block decoder, must stay within the bound for every value of the channel. Cases on the choice of table column, of the number of colours and of the order of the endpoints are split; single alpha, red and green values are decided with one-coloured blocks (C14 shows that nothing else matters).",
        runs=[lib(["enc_flat:%d_%d%s" % (f, k, s) for f, s in ((0, ""), (0, "_s"), (1, ""), (2, ""), (2, "_s"), (3, "_s"), (4, "_s")) for k in range(16)], floor={"enc_flat:0_0": 16, "enc_flat:0_0_s": 16, "enc_flat:1_0": 16, "enc_flat:2_0_s": 8})],
    ),
    "C25": dict(
        level="proof",
        technique="effect analysis: closed call-graph walk over the monomorphised MIR, with a search for cycles through library functions, and the list of linked crates",
        rule="Built without features, the crate links neither std nor alloc; every function reachable from a library function belongs to the library, core or libm and has an analysable body; no library function reaches itself in the graph of calls, function references and constants.",
        runs=[lib(["footprint"], floor={"footprint": 200})],
    ),
    "C26": dict(
        level="proof",
        technique="global value numbering across two abstract interpretations of the type-checked MIR (congruence of integer and float operations), equality of the output terms",
        rule="The block compressor is interpreted for both formats on the same symbolic pixels, mask and parameters, equal operations on equal operands being one value; each byte of the shared half must be the same value in both, in every case of the number of colours.",
        runs=[lib(blocks("enc_shared", "1") + ["enc_shared:2", "enc_shared:4"], floor={"enc_shared:1_5": 8, "enc_shared:2": 8, "enc_shared:4": 16})],
    ),
    "C27": dict(
        level="proof",
        rule="For each pixel, its value being 0 resp. 255, and each way of writing the block: the value must be in the codebook of the written endpoints, and for every index the pixel can have, that code must be at distance 0 from it. BC2: the decoded alpha must be the value.",
        runs=[lib(["enc_extreme:%d@%d" % (f, g) for f in (2, 3, 4) for g in range(8)] + blocks("enc_alpha", "2") + blocks("enc_ends", "1"), floor={"enc_extreme:2@0": 20, "enc_extreme:3@0": 20, "enc_extreme:4@0": 40, "enc_ends:1_5": 32})],
    ),
}
