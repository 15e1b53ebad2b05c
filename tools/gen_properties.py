#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

L = "lib/src/lib.rs"
prop("C01", "BC1/BC2/BC3 colour blocks decode exactly per the format",
 "For every compressed block, whatever follows it in the slice, pixel i (row-major) decodes to the palette entry chosen by bits 2i..2i+1 of the little-endian index word; the palette is the two little-endian 5:6:5 endpoints widened by bit replication plus their interpolations, rounded down. A BC1 colour block with endpoint0 <= endpoint1 (as 16-bit numbers) uses (c0+c1)/2 and transparent black; every other BC1 block, and every BC2/BC3 colour block whatever its endpoint order, uses (2c0+c1)/3 and (c0+2c1)/3. Colour is taken from the second half of BC2/BC3 blocks, and a BC1 pixel is fully opaque unless it is the transparent-black entry (0,0,0,0).",
 ["inputs"], "every 64-bit colour block in each of the three formats",
 "The unit tests decode two blocks per format; there are 2^64 colour blocks and two palette modes per format.",
 ["lib/src/colourblock.rs", L], [("palette construction and index unpacking", "lib/src/colourblock.rs: decompress, unpack_565"), ("format dispatch", "lib/src/lib.rs: Format::decompress_block")],
 ["Format::decompress_block", "Format::decompress"])
prop("C02", "Alpha and BC4/BC5 channel blocks decode exactly, in the right channels",
 "A BC2 block's alpha for pixel i is its 4-bit field times 17; a BC3 alpha half, a BC4 block and each BC5 half decode pixel i to the entry chosen by its 3-bit little-endian field among the two stored endpoints plus either six interpolations (endpoint0 > endpoint1) or four interpolations, 0 and 255 (otherwise), rounded down. BC4 yields the value in R, G and B with alpha 255; BC5 yields its first half in R, its second in G, with B 0 and alpha 255; BC2/BC3 alpha never alters the colour channels, and what follows a block in the slice alters nothing.",
 ["inputs"], "every alpha/channel block: 2^16 endpoint pairs x all index fields, all channels and formats",
 "The unit tests decode one grey and one colour pattern per format, so most endpoint pairs, index values and both interpolation modes are never seen in every position.",
 ["lib/src/alpha.rs", L], [("alpha decoding", "lib/src/alpha.rs: decompress_bc2, decompress_bc3"), ("channel placement and splat", "lib/src/lib.rs: Format::decompress_block")],
 ["Format::decompress_block", "Format::decompress"])
prop("C03", "Decompressing an image places every pixel, and only image pixels",
 "For any width and height (including 0 and non-multiples of 4), decompressing sets output pixel (x,y) to pixel (x mod 4, y mod 4) of the block at column x/4, row y/4 of the data, with blocks stored row by row. Padding pixels of edge blocks are never visible, compressed bytes beyond the image are ignored, and output bytes beyond width*height*4 are left untouched.",
 ["inputs", "configurations"], "all formats, image sizes, surplus data/output lengths, with and without the parallel feature",
 "The tests decompress 4x4 images and a single 4x6 one; an indexing slip at other widths, heights, strides or buffer lengths is invisible to them.",
 [L], [("row/column walk with bounds test", "lib/src/lib.rs: Format::decompress"), ("block count", "lib/src/lib.rs: num_blocks")],
 ["Format::decompress", "num_blocks"])
prop("C04", "Compressing an image is compressing each of its 4x4 blocks independently",
 "For any width and height (including 0 and non-multiples of 4), compressing writes exactly compressed_size = ceil(width/4)*ceil(height/4)*block_size bytes: the concatenation, row by row, of the result of compressing each 4x4 block on its own with out-of-image pixels masked out. Bytes of a larger output buffer beyond that size are left untouched, and no block depends on any other block or on bytes beyond the image.",
 ["inputs", "configurations"], "all formats, algorithms, image sizes, surplus input/output lengths, with and without the parallel feature",
 "The tests compress single 4x4 blocks only; no test compresses an image with more than one block, a partial block or a surplus buffer.",
 [L], [("block gathering and masks", "lib/src/lib.rs: Format::compress"), ("size accounting", "lib/src/lib.rs: num_blocks, Format::block_size, Format::compressed_size")],
 ["Format::compress", "Format::compress_block_masked", "Format::compressed_size", "Format::block_size"], state=[("source_rgba", "block buffer reused along a row of blocks", "lib/src/lib.rs: Format::compress")])
prop("C05", "Results do not depend on threads, schedules or concurrent calls",
 "Compressing or decompressing the same input with the same parameters always yields the same bytes: with or without the parallel feature, for any thread-pool size and schedule, on repeated calls, after calls that were refused, inside other parallel work, and while other calls with other inputs, formats and parameters run concurrently. No execution has a data race.",
 ["schedules", "configurations", "histories"], "all thread-pool sizes, interleavings of block rows, and mixes of concurrent calls",
 "The tests make one call at a time on one block, so there is never more than one row of blocks in flight; they are never run without the parallel feature.",
 [L], [("disjoint mutable row chunks", "lib/src/lib.rs: Format::compress, Format::decompress (par_chunks_mut)"), ("no shared mutable state", "lib/src")],
 ["Format::compress", "Format::decompress"], hook="row events and delays at the start of each block row (feature verif-hooks)")
prop("C06", "Masked-out pixels never influence a compressed block",
 "The bytes compress_block_masked writes depend only on the pixels whose bit among the low 16 bits of the mask is set: changing any channel of any masked-out pixel, or any higher mask bit, changes nothing. It writes exactly block_size bytes, at the start of the output slice, whatever they held before, and every algorithm and format obeys this for all 65536 masks.",
 ["inputs"], "all masks x formats x algorithms x pixel contents",
 "Every test uses the full mask, so masking is never exercised.",
 [L, "lib/src/alpha.rs", "lib/src/colourset.rs"], [("mask tests", "lib/src/alpha.rs: compress_bc2, compress_bc3, fit_codes; lib/src/colourset.rs: ColourSet::new")],
 ["Format::compress_block_masked"])
prop("C07", "The codec is total and memory safe",
 "No pixel data, mask, compressed bytes or parameters - including zero, negative, NaN or infinite channel weights - make compression or decompression of adequately sized buffers panic, overflow, loop forever or touch memory out of bounds, under any optimisation or debug setting. Compressed data shorter than the image needs, pixel data shorter than width*height*4, or a compression output shorter than compressed_size is rejected by a panic, never silently accepted.",
 ["inputs", "configurations"], "all inputs and parameters, including non-finite floats and hostile block bytes; short buffers",
 "The tests use a handful of well-formed inputs with uniform weights, and never the sanitizers, debug interpreters or short buffers.",
 [L, "lib/src/colourfit/cluster.rs", "lib/src/colourfit/range.rs", "lib/src/math.rs", "lib/src/alpha.rs"], [("float clamping before integer conversion", "lib/src/math.rs: f32_to_i32_clamped"), ("NaN-tolerant ordering", "lib/src/colourfit/cluster.rs: construct_ordering"), ("size assertion", "lib/src/lib.rs: Format::compress")],
 ["all public functions of the texpresso crate"])
prop("C08", "BC1 keeps exactly the alpha test: alpha < 128 is transparent, else opaque",
 "In BC1, every unmasked pixel with alpha below 128 decodes to (0,0,0,0) and every unmasked pixel with alpha of 128 or more decodes with alpha 255, for every algorithm, every mix of colours and alphas and any finite weights in 0..=1000. The colour of transparent pixels has no influence on the compressed bytes.",
 ["inputs"], "all BC1 blocks: alpha patterns x colours x algorithms x weights x masks",
 "All BC1 tests use opaque pixels; the transparent path is never executed.",
 ["lib/src/colourset.rs", "lib/src/colourfit.rs", "lib/src/colourblock.rs"], [("transparent remap to index 3", "lib/src/colourset.rs: ColourSet::new, remap_indices"), ("3-colour mode only when transparent", "lib/src/colourfit.rs: ColourFit::compress; lib/src/colourblock.rs: write3")],
 ["Format::compress_block_masked followed by Format::decompress_block"])
prop("C09", "BC2 alpha is the nearest of the 16 levels for every pixel",
 "After BC2 compression every unmasked pixel decodes to the multiple of 17 nearest to its source alpha (so within 8), and a masked-out pixel's alpha decodes to 0. Each pixel's alpha is independent of every other pixel, of colour, of the algorithm and of the weights.",
 ["inputs"], "all alpha values, positions, masks, colours, algorithms",
 "One BC2 alpha ramp is tested, whose values are all exact multiples of 17, so rounding is never exercised.",
 ["lib/src/alpha.rs"], [("quantisation and packing", "lib/src/alpha.rs: compress_bc2")], ["Format::compress_block_masked followed by Format::decompress_block"])
prop("C10", "BC3 alpha, BC4 and BC5 channels are fitted no worse than both range fits",
 "After compression every unmasked pixel of an interpolated channel decodes to the value closest to its source among the 8 palette values its block defines. The block's summed squared channel error never exceeds the smaller of what two reference encodings reach: eight levels spanning min..max, and 0, 255 and six levels spanning the remaining values (ranges widened to at least 7 and 5).",
 ["inputs"], "all channel contents x masks x the four channel uses (BC3 alpha, BC4 red, BC5 red, BC5 green)",
 "Three grey patterns are tested; the choice between the two codebooks, endpoint swapping and range widening have untested combinations for almost all inputs.",
 ["lib/src/alpha.rs"], [("two codebooks, nearest entry, least error", "lib/src/alpha.rs: compress_bc3, fit_codes, fix_range"), ("endpoint order selects the mode", "lib/src/alpha.rs: write_alpha_block5, write_alpha_block7")],
 ["Format::compress_block_masked followed by Format::decompress_block"])
prop("C11", "Single-colour blocks get the best colour the lookup can express",
 "A block whose unmasked (and for BC1 opaque) pixels all share one colour decodes to one colour in all those pixels, for every algorithm and weights. Its summed squared RGB error is the minimum over: both endpoints chosen freely, all pixels on endpoint 0 or all on the first interpolated entry, in any palette mode the format allows (BC1: the 3-colour mode, and the 4-colour mode if no pixel is transparent; BC2/BC3: the 4-colour mode).",
 ["inputs"], "all 2^24 colours x three formats x mask/transparency patterns",
 "No test compresses a single-colour block, and the four 256-entry lookup tables are never checked against the decoder.",
 ["lib/src/colourfit/single.rs", "lib/src/colourfit/single_lut.rs"], [("lookup tables", "lib/src/colourfit/single_lut.rs"), ("mode and index selection", "lib/src/colourfit/single.rs")],
 ["Format::compress_block_masked followed by Format::decompress_block"])
prop("C12", "Blocks of two colours keep both colours, in place",
 "With uniform channel weights and no alpha weighting, a block whose unmasked (and for BC1 opaque) pixels have exactly two distinct colours decodes with every channel of every such pixel within 16 levels of its source, for every algorithm, format, pair of colours and arrangement. Two colours that are exactly representable in 5:6:5, their greens equal or at least two steps apart, are reproduced exactly by the range fit, whatever the weights (each from 0.001 to 1000, none over a hundred times another).",
 ["inputs"], "all pairs of colours x arrangements x formats x algorithms",
 "Two and three-colour patterns along the grey axis or a fixed ramp are the only ones tested; e.g. red next to blue was lost entirely without any test noticing.",
 ["lib/src/math.rs", "lib/src/colourfit/range.rs", "lib/src/colourfit/cluster.rs", "lib/src/colourblock.rs"], [("principal axis", "lib/src/math.rs: Sym3x3::principle_component"), ("endpoint rounding", "lib/src/colourfit"), ("endpoint swap with index remap", "lib/src/colourblock.rs: write3, write4")],
 ["Format::compress_block_masked followed by Format::decompress_block"])
prop("C13", "Cluster fit reaches the quality of the reference cluster-fit search",
 "For blocks of two or more colours, the fitting error (squared error to the assigned ideal palette colour, weighted per channel by the given weights and per distinct colour by the square root of its accumulated pixel or alpha weight) of ClusterFit and of IterativeClusterFit is at most 1% above that of a reference search: least-squares endpoints rounded to 5:6:5 for every ordered partition along the principal axis, over the palette modes the format allows, with up to 8 re-projections for the iterative one. This holds with and without alpha weighting.",
 ["inputs"], "all blocks, masks, formats, finite weights in 0..=1000, alpha weighting on and off",
 "The tests expect identical output from all algorithms on patterns of at most three collinear colours, so neither the partition search, the iteration nor the weighting is constrained.",
 ["lib/src/colourfit/cluster.rs", "lib/src/colourset.rs", "lib/src/math.rs"], [("partition search", "lib/src/colourfit/cluster.rs: compress3, compress4, construct_ordering"), ("point set and weights", "lib/src/colourset.rs: ColourSet::new")],
 ["Format::compress_block_masked"])
prop("C14", "Range fit spans the colours' extremes and assigns the nearest entries",
 "For blocks of two or more colours RangeFit assigns every unmasked opaque pixel an entry of its block's own (unrounded) palette that is nearest under squared weighted channel differences, (weight*difference)^2. The sum of those over the distinct colours is at most 1% above that of a reference fit whose endpoints are the colours extreme along the principal axis, rounded to 5:6:5, in the best palette mode the format allows.",
 ["inputs"], "all blocks, masks, formats, finite weights in 0..=1000, alpha weighting on and off",
 "The tests' patterns have at most three collinear colours that fall on the palette exactly, so index assignment and endpoint choice are barely constrained.",
 ["lib/src/colourfit/range.rs", "lib/src/math.rs"], [("extremes and nearest code", "lib/src/colourfit/range.rs")],
 ["Format::compress_block_masked"])
prop("C15", "Parameters mean what they say: weights, alpha weighting, iteration, defaults",
 "ClusterFit's output under weights W has a fitting error, measured under W, no larger than its output under any other weights has when measured under W, so raising one channel's weight never raises that channel's error; scaling all weights by a power of two changes nothing for any algorithm. IterativeClusterFit's fitting error is never above ClusterFit's on blocks with a single palette mode (BC2, BC3, or BC1 with a transparent pixel). Alpha weighting changes nothing when all considered pixels have alpha 255, and default parameters equal ClusterFit with perceptual weights and no alpha weighting.",
 ["inputs", "configurations"], "all blocks x pairs of weight settings x options",
 "The tests only use uniform weights without alpha weighting, and never compare two settings.",
 [L, "lib/src/colourfit/cluster.rs", "lib/src/colourset.rs"], [("error metric", "lib/src/colourfit/cluster.rs"), ("iteration keeps the best", "lib/src/colourfit/cluster.rs"), ("defaults", "lib/src/lib.rs: Params::default, Algorithm::default")],
 ["Format::compress_block_masked", "Params::default"])
prop("C16", "Formats share their parts and channels do not leak into each other",
 "For the same pixels, mask and parameters BC2 and BC3 have identical colour halves; the BC3 alpha half is the BC4 block of those values placed in red; a BC5 block is the BC4 blocks of red and of green; a BC1 block that range or cluster fit writes in the four-colour mode equals that colour half when all its pixels are opaque. Alpha halves and BC4/BC5 blocks do not depend on any other channel, the algorithm, the weights or alpha weighting, and the BC2/BC3 colour half does not depend on alpha unless alpha weighting is on.",
 ["inputs"], "all pixels x masks x parameters x pairs of formats",
 "Each test checks one format in isolation with fixed data; no test relates two formats or perturbs an unrelated channel.",
 [L, "lib/src/alpha.rs", "lib/src/colourset.rs"], [("channel dispatch", "lib/src/lib.rs: Format::compress_block_masked"), ("binary alpha only for BC1", "lib/src/colourset.rs: ColourSet::new")],
 ["Format::compress_block_masked"])
prop("C17", "Compressed bytes and decoded pixels are the same on every platform",
 "The same inputs produce the same compressed bytes and the same decoded pixels on little- and big-endian and on 32- and 64-bit targets, and whatever optimisation level, debug settings and CPU features the library is built for.",
 ["inputs", "configurations"], "all inputs on targets of either endianness and pointer width, in every build profile",
 "The tests only ever run on the little-endian 64-bit host.",
 ["lib/src/colourblock.rs", "lib/src/alpha.rs", "lib/src/math.rs"], [("explicit little-endian packing", "lib/src/colourblock.rs: write_block, unpack_565; lib/src/alpha.rs"), ("software float functions", "lib/src/math.rs (libm)")],
 ["Format::compress, Format::decompress and the block functions, executed natively in other build profiles and by an interpreter for other targets"])
prop("C18", "Without the parallel feature the library never allocates",
 "Built without its optional parallel feature, no library call allocates, reallocates or frees heap memory or starts a thread, whatever the input, image size, format, algorithm or parameters; it works entirely in the caller's buffers and on the stack, as a no_std library without alloc must.",
 ["inputs", "configurations"], "all calls in the serial configuration",
 "The tests run with std and the parallel feature, where an allocation is invisible.",
 [L], [("no_std, fixed-size arrays", "lib/src/lib.rs: #![no_std]")], ["every public function, under an instrumented global allocator"])
prop("C19", "The compress command writes a correct DDS file",
 "For every decodable input image and option combination, 'texpresso compress' exits 0 and writes one DDS file with a DX10 header whose width, height, Texture2D dimension, single array slice, DXGI format (BC1-3 sRGB, BC4/BC5 UNORM) and alpha mode (BC1 premultiplied, others straight) match the request, followed by exactly the bytes the library produces for the image with the chosen profile (speed, balanced, quality = range, cluster, iterative; default balanced), weights (default perceptual) and alpha option. Format names are accepted in either case. Without -o the file is named after the input with extension dds, in the current directory, and the input is left unchanged. The input may also be a pipe or a symbolic link, and the output a pipe. Images of more than 2^32 bytes are no exception, given the memory.",
 ["inputs", "configurations"], "image sizes x formats x profiles x weights x flags x paths",
 "The only CLI test checks that the argument parser is well formed; no file is ever written.",
 ["cli/src/main.rs"], [("command", "cli/src/main.rs: compress_file, format_to_dxgiformat, main")], ["the texpresso executable and the files it writes"])
prop("C20", "The decompress command writes the right pixels as PNG",
 "For every DDS file with a DX10 header (BC1-3 sRGB, BC4/BC5 UNORM, Texture2D) or a legacy DXT1/DXT3/DXT5 header and at least the payload its dimensions need, 'texpresso decompress' exits 0 and writes a complete 8-bit RGBA PNG of the header's dimensions whose pixels are the library's decoding of the payload in the corresponding format; further payload (mipmaps) is ignored. Without -o the file is named after the input with extension png, in the current directory, and the input is left unchanged unless it is itself the output. The input may also be a pipe or a symbolic link, and the output a pipe. Images of more than 2^32 bytes are no exception, given the memory.",
 ["inputs", "configurations"], "payloads x sizes x header kinds x formats x surplus data x paths",
 "No test runs the command; header parsing, format mapping, stride and PNG writing are untested.",
 ["cli/src/main.rs", "cli/src/image/png.rs"], [("command", "cli/src/main.rs: decompress_file, dxgiformat_to_format, d3dformat_to_format"), ("PNG writer", "cli/src/image/png.rs: write")], ["the texpresso executable and the files it writes"])
prop("C21", "PNG and JPEG inputs are expanded to RGBA faithfully",
 "Whatever the PNG's colour type (grey, grey+alpha, RGB, RGBA, palette), bit depth, interlacing or transparency chunk, and for grey and colour JPEGs, baseline or progressive, 'texpresso compress' compresses exactly the image's pixels: grey is replicated to R, G and B, missing alpha is 255, a transparency chunk becomes alpha, 16-bit samples are reduced to their high byte, low bit depths are scaled to 0..255, and of an animated PNG the default image counts. File name extensions are matched without regard to case.",
 ["inputs"], "all PNG colour types, depths, interlacings, transparency chunks, and JPEG pixel formats, at all sizes",
 "No test reads any image file.",
 ["cli/src/image/png.rs", "cli/src/image/jpeg.rs", "cli/src/main.rs"], [("PNG expansion", "cli/src/image/png.rs: read"), ("JPEG expansion", "cli/src/image/jpeg.rs: read"), ("type by extension", "cli/src/main.rs: compress_file")], ["the texpresso executable and the payload of the DDS it writes"])
prop("C22", "The commands never report success without a complete, correct output",
 "Whenever 'texpresso' exits 0 its output file is complete and correct for the whole input image. Inputs that are truncated within the image, damaged (as far as their format can tell), unsupported, zero-sized or mistyped, and bad options, make it exit non-zero without creating the output or altering an existing one; a failed or refused read or write at any point (I/O error, full disk) makes it exit non-zero, while short reads and short or interrupted writes do not affect the result. An input that is not itself the output is never modified.",
 ["fault_sequences", "inputs"], "every truncation point, header corruption, unsupported variant and every read/write call failing, short or interrupted",
 "No test runs the executable, let alone with failing I/O or corrupt files.",
 ["cli/src/main.rs", "cli/src/image/png.rs", "cli/src/image/jpeg.rs"], [("errors abort before the output is created", "cli/src/main.rs: compress_file, decompress_file"), ("writer finished and checked", "cli/src/image/png.rs: write")], ["exit status and output files of the texpresso executable under an I/O fault-injection shim"])
prop("C23", "The library works in bare-metal programs: no std, no alloc, little stack",
 "Without its optional parallel feature the library needs neither std nor alloc nor an operating system: it can be linked into a program for a target that has none of them, also a 32-bit one without 64-bit atomics, and every call made there returns the same bytes as in an ordinary program. No call uses more than 64 KiB of stack, whatever the image size.",
 ["configurations", "inputs"], "all no_std targets, every call",
 "The tests always link std and run on the host with a large stack; no bare-metal target is ever built.",
 [L], [("no_std", "lib/src/lib.rs: #![no_std]")], ["output and stack use of a freestanding process without C library or std; whether such a program can be linked for small targets"])
prop("C24", "Colour halves of BC2 and BC3 blocks do not rely on the endpoint order",
 "The colour half of every BC2 or BC3 block the library compresses decodes to the same colours whether a decoder ignores the order of the endpoints there, as the format says, or treats them as in BC1: endpoint0 is above endpoint1, or every pixel uses an entry that both readings give the same opaque colour. This holds for every algorithm, mask and finite weights in 0..=1000.",
 ["inputs"], "all BC2/BC3 blocks x algorithms x weights x masks",
 "The tests decode BC2 and BC3 blocks with the library's own decoder only, which ignores the order.",
 ["lib/src/colourblock.rs"], [("endpoint swap and index remapping", "lib/src/colourblock.rs: write4")],
 ["Format::compress_block_masked in Format::Bc2 and Format::Bc3"])
prop("C25", "Cost is proportional to the image, and bounded whatever a block holds",
 "Compressing or decompressing an image takes time proportional to its number of blocks, whatever its width, height and surplus buffer space: at most ten times as long as that many ordinary blocks (sixteen different opaque colours, no mask) compressed one by one with the same algorithm. No content, mask or finite weights in 0..=1000 make a single block cost more than ten times an ordinary one.",
 ["inputs"], "all image sizes and shapes, block contents, masks, weights, algorithms and formats",
 "The tests run single blocks and measure nothing; quadratic work or a slow path for some content passes them.",
 [L, "lib/src/colourfit/cluster.rs"], [("one pass over rows and columns of blocks", "lib/src/lib.rs: Format::compress, Format::decompress"), ("bounded iterations", "lib/src/colourfit/cluster.rs: MAX_ITERATIONS")],
 ["CPU time of the calling thread in library calls"])
prop("C26", "Size queries are exact, and refuse what no address can express",
 "For every width, height and format, num_blocks(n) is n/4 rounded up, block_size is 8 for BC1 and BC4 and 16 for the others, and compressed_size is num_blocks(width)*num_blocks(height)*block_size whenever that fits in a usize, up to the largest lengths. Where it does not fit, compressed_size and compress panic instead of going on with a wrapped number, on 32- and 64-bit targets and under any optimisation or debug setting.",
 ["inputs", "configurations"], "all lengths of a usize x formats x targets x build profiles",
 "The tests ask for ten sizes of two small images; lengths whose rounding or product overflows never occur.",
 [L], [("size arithmetic", "lib/src/lib.rs: num_blocks, Format::compressed_size"), ("size check", "lib/src/lib.rs: Format::compress")],
 ["num_blocks, Format::block_size, Format::compressed_size, Format::compress"])
prop("C27", "The commands depend on, and touch, nothing but their input and output",
 "Exit status, output bytes and the files touched by either command do not depend on environment variables (locale, time zone, home and temporary directories, terminal, thread count), the working directory (even a deleted one, given absolute paths), closed or full standard streams or what standard input holds, whether they are terminals, umask, user, a low limit of open files, the CPUs it may use, the time of day, the names (but for extensions), places and times of its files, an older output, other files beside it, or other runs of the commands in the same directory at the same time. A run reads no file of the user's but its input, changes none but its output, leaves nothing else behind, starts no other program and uses no network.",
 ["inputs", "schedules", "histories", "configurations"], "all circumstances a command can be started in x all inputs and options, alone or among concurrent runs",
 "No test runs the commands at all.",
 ["cli/src/main.rs", "cli/src/image/png.rs", "cli/src/image/jpeg.rs"], [("file handling", "cli/src/main.rs: compress_file, decompress_file"), ("decoders", "cli/src/image/png.rs: read; cli/src/image/jpeg.rs: read")],
 ["texpresso compress", "texpresso decompress"])
prop("C28", "The commands' memory and time are proportional to the image",
 "Peak memory of either command is at most 64 MiB plus 64 bytes per pixel (padded to blocks), and its CPU time at most half a second plus ten times that of a square image of as many blocks, for images of any shape; a DDS or PNG whose header promises more than the file holds is refused within 64 MiB and two seconds.",
 ["inputs"], "all image sizes and shapes, and all headers, honest or not",
 "No test runs the commands or measures anything.",
 ["cli/src/main.rs", "cli/src/image/png.rs", "cli/src/image/jpeg.rs"], [("allocation and refusal", "cli/src/main.rs: compress_file, decompress_file"), ("decoders", "cli/src/image/png.rs: read; cli/src/image/jpeg.rs: read")],
 ["texpresso compress", "texpresso decompress"])
prop("C29", "Equal pixels decode equally, and their place in the block does not matter",
 "In every compressed block, unmasked pixels of the same colour (in BC1: on the same side of the alpha test) decode to the same colour, and unmasked pixels of the same alpha or channel value decode to the same alpha or value. Moving the pixels of a block, with their mask bits, to other places moves the decoded alphas and channel values with them and leaves the channel range stored unchanged; of a block of one colour it moves all that is decoded. This holds for every algorithm and any finite weights in 0..=1000.",
 ["inputs"], "all blocks x masks x formats x parameters x arrangements",
 "The tests compare a few blocks with stored results; none relates pixels within a block or a block to its rearrangement.",
 ["lib/src/colourset.rs", "lib/src/alpha.rs"], [("equal colours merged", "lib/src/colourset.rs: ColourSet::new"), ("index per value", "lib/src/alpha.rs: fit_codes")],
 ["Format::compress_block_masked, Format::compress"])
prop("C30", "Channel values keep their extremes and their order",
 "In BC3 alpha, BC4 and BC5 the least and the greatest unmasked value survive compression exactly, as do 0 and 255, all values that lie within a spread of 7, and all values where at most two besides 0 and 255 occur; in BC2 alpha 0 and 255 survive. In all of them a larger value never decodes to less than a smaller one of the same block.",
 ["inputs"], "all channel blocks x masks x formats",
 "The tests try a handful of alpha blocks.",
 ["lib/src/alpha.rs"], [("choice between the two codings, and range fixing", "lib/src/alpha.rs: compress_bc3, fix_range, fit_codes")],
 ["Format::compress_block_masked, Format::compress for BC2, BC3, BC4 and BC5"])
prop("C31", "The parallel feature uses all threads of the pool it is called in, and no others",
 "With the parallel feature, compressing and decompressing an image of many rows of blocks is shared out over the threads of the thread pool the call is made in (the global one outside any pool): each thread does part of it and none most of it, as far as the machine lets that pool work at all. No thread outside that pool takes part.",
 ["schedules", "inputs"], "all images of many rows x formats x algorithms x pool sizes x ways of calling",
 "No test looks at who does the work: a serial or lopsided build passes them all.",
 [L], [("parallel rows", "lib/src/lib.rs: Format::compress, Format::decompress")],
 ["CPU clocks of all threads around Format::compress and Format::decompress"])
prop("C32", "Runs that end early leave nothing that passes for a result",
 "However a run of either command ends early - killed at any point, by any signal, by a limit on file size, memory or CPU time, by a refused write, or because the pipe it writes to is closed - it does not report success, other files stay as they were, and under the output's name there is nothing, what was there before, all of the right output, or a part of it that neither the commands nor a strict reader take for a complete image. Running a command again after any sequence of such ends gives the right output. Being stopped and continued changes nothing.",
 ["crash_points", "histories", "inputs"], "all points at which a run can end x ways of ending x inputs x sequences of such runs",
 "No test runs the commands, or ends one.",
 ["cli/src/main.rs", "cli/src/image/png.rs"], [("output written", "cli/src/main.rs: compress_file; cli/src/image/png.rs: write"), ("refusal of partial input", "cli/src/main.rs: decompress_file")],
 ["texpresso compress", "texpresso decompress"])
prop("C33", "Compressing again loses no more of alphas, channels and single colours",
 "Decompressing an image and compressing it again in the same format, any number of times and with any algorithms and finite weights in 0..=1000, leaves every alpha (BC1-BC3) and every channel value (BC4, BC5) as it was decoded the first time; in BC1-BC3 so it does the colours of blocks that decoded to one colour. Editing pixels in between affects only the blocks they lie in.",
 ["histories", "inputs"], "all images x formats x sequences of parameters and edits",
 "The tests compress and decompress in separate cases, each once.",
 [L, "lib/src/alpha.rs", "lib/src/colourfit/single.rs"], [("channel coding of values that were decoded before", "lib/src/alpha.rs: compress_bc3"), ("exact single colours", "lib/src/colourfit/single.rs")],
 ["Format::compress, Format::decompress"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
