#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the statements are reviewable in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

T = "The shipped tests encode BGRA images through the plain path into ample buffers and look only at the number of tiles and that some bytes came out. "

prop("C01", "Encoding never writes outside the caller's output buffer",
 "Whatever capacity the caller announces in *cdata_bytes (including zero and capacities too small for a header, a region list, a tile or an end block), an encode call writes only inside the first that many bytes of the output buffer, on success and on failure alike. The size it reports back on success never exceeds that capacity.",
 ["inputs", "configurations"], "every capacity 0..2^31-1, region/tile/quant count, pixel content, pixel format, entropy mode, alpha flag, progressive or plain handle",
 T + "No test uses a capacity near a block boundary, alpha or the progressive path, so no overrun can show.",
 ["src/rfxencode.c", "src/rfxencode_compose.c", "src/rfxencode_tile.c", "src/rfxencode_alpha.c"],
 [("space check before each block", "src/rfxencode_compose.c"), ("size of the tile still available passed to each coder", "src/rfxencode_tile.c"), ("6 bytes reserved for the end block", "src/rfxencode_compose.c rfx_pro_compose_message_data")],
 ["rfxcodec_encode_ex"])

prop("C02", "Encoding modifies nothing but the output, its size, and the handle",
 "An encode call never modifies the pixel buffer, region list, tile list or quantisation tables it is given, nor any other memory of the caller: the only memory it changes is the announced output buffer, the *cdata_bytes cell and memory owned by the handle. Create stores a handle only on success, and no call ever writes outside the bounds of a library-owned buffer.",
 ["inputs", "configurations", "histories"], "every call, format, path and accelerated variant (including the assembly kernels)",
 T + "They never compare the inputs before and after, and never run the progressive or alpha paths.",
 ["src/rfxencode.c", "src/rfxencode_compose.c", "src/rfxencode_tile.c", "src/rfxencode_rgb_to_yuv.c", "src/amd64", "src/x86"],
 [("scratch planes and coefficient buffers live in the handle", "src/rfxencode.h"), ("const-qualified inputs", "include/rfxcodec_encode.h")],
 ["rfxcodec_encode_ex", "rfxcodec_encode_create_ex"])

prop("C03", "Handles share no mutable state",
 "The library keeps no mutable data outside the handles it hands out: calls on different handles, in any interleaving on any threads, cannot influence each other's output. No call changes process-wide state (locale, signal, environment, working directory, files, random state), other than writing diagnostics to standard output.",
 ["schedules", "histories"], "every interleaving of calls on distinct handles",
 "The tests are single-threaded and use one handle at a time; an added static cache would pass all of them.",
 ["src", "src/amd64", "src/x86"], [("all state in struct rfxencode", "src/rfxencode.h"), ("only constant tables at file scope", "src/rfxencode_compose.c, src/*/*.asm")],
 ["rfxcodec_encode_ex"])

prop("C04", "Every block in a frame is well formed and its lengths are exact",
 "A frame returned by a successful encode is exactly a concatenation of protocol blocks in the fixed order of its path (plain: optional header, frame begin, region, tileset with its tiles, frame end; progressive: optional sync and context, frame begin, region with its tiles, frame end). Every block carries the protocol's type code and constant fields, and every length and count field (block length, tile data size, number of rectangles, quant tables, and tiles, per-plane lengths including alpha) equals the actual extent of what follows, so a decoder that walks the lengths lands exactly on each block and on the reported end of the data. The region block lists exactly the caller's rectangles in order. Every byte of the returned frame has been written by the call.",
 ["inputs", "configurations", "histories"], "every number of regions, quants and tiles, every encoded plane length, every format and flag",
 T + "They never parse the output.",
 ["src/rfxencode_compose.c", "src/rfxencode_tile.c", "src/rfxencode_alpha.c", "src/rfxconstants.h"],
 [("deferred length fields patched from stream positions", "src/rfxencode_compose.c"), ("plane sizes returned by the coders", "src/rfxencode_tile.c")],
 ["rfxcodec_encode_ex"])

prop("C05", "The stream header is sent exactly once, with the first delivered frame",
 "For every history of calls on a handle, the first successful encode after creation carries the stream header and no later one does, except that a progressive key-frame request makes that frame carry it again. A call that fails delivers nothing and leaves the header still to be sent, and frame numbers count up by one per delivered frame from zero (from zero again after a key frame).",
 ["histories", "inputs"], "every sequence of successful, failed and key-frame calls on a handle",
 T + "They do not look at the header, never let a call fail and continue, and never request a key frame.",
 ["src/rfxencode.c", "src/rfxencode_compose.c"],
 [("header_processed / frame_idx", "src/rfxencode.c rfxcodec_encode_ex"), ("key frame reset", "src/rfxencode.c rfxencode_reset_encoder")],
 ["rfxcodec_encode_ex"], [("header_processed", "header already composed", "src/rfxencode.h"), ("frame_idx", "next frame number", "src/rfxencode.h")])

prop("C06", "The announced entropy mode is the one used",
 "Whatever combination of creation flags and CPU features selects the code path, every colour plane of every tile is compressed with the entropy coder variant (RLGR1 or RLGR3) that the stream's context and tileset properties announce; progressive streams always use RLGR1. The announced mode is RLGR1 exactly when the caller asked for it, and otherwise RLGR3.",
 ["configurations", "inputs"], "every creation flag set, CPU feature set, build architecture (amd64, x86, other) and pixel format",
 T + "A mismatch between announced and used coder changes neither tile count nor success.",
 ["src/rfxencode.c", "src/rfxencode_compose.c", "src/rfxencode_tile.c", "src/amd64/rfxencode_tile_amd64.c", "src/x86/rfxencode_tile_x86.c"],
 [("dispatch table in create", "src/rfxencode.c rfxcodec_encode_create_ex"), ("properties words", "src/rfxencode_compose.c rfx_compose_message_context")],
 ["rfxcodec_encode_ex"])

prop("C07", "The return value is the number of complete tiles delivered, in order",
 "A successful encode returns the number of tiles the frame really contains: the tile count in the frame equals the return value, the tiles present are complete, and they are the first that many entries of the caller's tile list in order. A tile that does not fit is dropped entirely together with all later ones; no part of it is inside the reported output.",
 ["inputs", "configurations"], "every capacity, tile list and content",
 "The tests request tiles that always fit, so the cut-off path never runs in the progressive or alpha cases and its bytes are never inspected.",
 ["src/rfxencode_compose.c"],
 [("checkpoint of the end of the last complete tile", "src/rfxencode_compose.c rfx_compose_message_tileset"), ("tile_end_pos rewind", "src/rfxencode_compose.c rfx_pro_compose_message_region")],
 ["rfxcodec_encode_ex"])

prop("C08", "Each tile is encoded from its own pixels, position and quant tables",
 "For every entry of the tile list, the tile in the frame carries that entry's grid position (x/64, y/64) and its three quant indexes, its planes are computed from that entry's pixels only (the rectangle at x,y of the given image and stride, or the x,y planar block of YUV input), and plane Y, Cb, Cr each use the quant table their own index names. When no quant tables are given, the frame carries the single default table and that table is the one applied.",
 ["inputs", "configurations"], "every tile list, stride, image base, quant list, format and path",
 T + "Positions, quant indexes and coefficient values in the output are never checked.",
 ["src/rfxencode_compose.c", "src/rfxencode_tile.c"],
 [("tile address arithmetic", "src/rfxencode_compose.c"), ("quantVals + idx * 5", "src/rfxencode_compose.c")], ["rfxcodec_encode_ex"])

prop("C09", "Partial tiles are padded by repeating the edge, independent of the past",
 "A tile smaller than 64x64 encodes exactly as the full 64x64 tile obtained by repeating its last column to the right and then its last row downwards. What is encoded for a tile never depends on pixels outside its rectangle or on tiles encoded earlier by the handle (progressive differencing excepted).",
 ["inputs", "histories"], "every tile size 1..64 x 1..64, format and preceding history",
 T + "Content of partial tiles is not checked, and stale scratch data would go unnoticed.",
 ["src/rfxencode_rgb_to_yuv.c"], [("row and column replication", "src/rfxencode_rgb_to_yuv.c rfx_encode_format_rgb / rfx_encode_format_argb")], ["rfxcodec_encode_ex"])

prop("C10", "All RGB pixel formats encode the same picture identically",
 "BGRA, RGBA, BGR and RGB inputs that hold the same picture produce the same encoded colour planes, with or without the alpha flag: only the byte layout differs. The alpha byte of a four-byte pixel never influences the colour planes, and with the alpha flag it is exactly what fills the alpha plane of four-byte formats.",
 ["inputs", "configurations"], "every picture and every pair of formats",
 "The tests use BGRA only.", ["src/rfxencode_rgb_to_yuv.c", "src/rfxencode.c", "src/rfxencode_compose.c"],
 [("per-format unpacking", "src/rfxencode_rgb_to_yuv.c"), ("bits_per_pixel", "src/rfxencode.c")], ["rfxcodec_encode_ex"])

prop("C11", "RGB input is converted with the protocol's colour transform",
 "For every RGB pixel, the plane values that enter the transform are Y = (19595 R + 38470 G + 7471 B) >> 16, Cb = 128 + ((-11071 R - 21736 G + 32807 B) >> 16), Cr = 128 + ((32756 R - 27429 G - 5327 B) >> 16), each within 0..255. YUV input enters the transform unchanged.",
 ["inputs"], "every R, G, B value at every pixel position",
 T + "Values are never compared.", ["src/rfxencode_rgb_to_yuv.c", "src/rfxencode_tile.c"], [("rfx_encode_rgb_to_yuv_tile", "src/rfxencode_rgb_to_yuv.c")], ["rfxcodec_encode_ex"])

prop("C12", "Plain coefficients follow the RemoteFX transform and quantiser exactly",
 "For every 64x64 plane and every quant table with values 6..15, the 4096 coefficients the portable path hands to the entropy coder are exactly those of the RemoteFX definition: level shift by 128 and scale by 32, three levels of the 5/3 lifting transform with the protocol's boundary rule, rounding quantisation of each of the ten sub-bands by its own table entry, sub-band order HL1 LH1 HH1 HL2 LH2 HH2 HL3 LH3 HH3 LL3, and differencing of the 64 LL3 coefficients. The same holds for the public transform, quantiser and differential entry points.",
 ["inputs"], "every plane content and every quant table with entries 6..15",
 T + "No coefficient is ever compared to a reference.", ["src/rfxencode_dwt.c", "src/rfxencode_quantization.c", "src/rfxencode_differential.c", "src/rfxencode_tile.c"],
 [("rfx_dwt_2d_encode", "src/rfxencode_dwt.c"), ("rfx_quantization_encode", "src/rfxencode_quantization.c"), ("rfx_differential_encode", "src/rfxencode_differential.c")], ["rfxcodec_encode_ex", "rfxcodec_encode_get_internals"])

prop("C13", "Accelerated code paths encode identically to the portable one",
 "For every plane and every quant table with values 6..15, the SSE2 and SSE4.1 kernels of both x86 architectures hand the entropy coder bit-for-bit the coefficients the portable path does, with the same differencing. Choosing NOACCEL, or running on a CPU without these features, never changes the coefficients that are encoded.",
 ["inputs", "configurations"], "every plane content, quant table, CPU feature set and both assembly architectures",
 T + "Accelerated and portable output are never compared; the x86 kernels are not even built here.",
 ["src/amd64/rfxcodec_encode_dwt_shift_amd64_sse2.asm", "src/amd64/rfxcodec_encode_dwt_shift_amd64_sse41.asm", "src/x86/rfxcodec_encode_dwt_shift_x86_sse2.asm", "src/x86/rfxcodec_encode_dwt_shift_x86_sse41.asm", "src/amd64/rfxencode_tile_amd64.c", "src/x86/rfxencode_tile_x86.c"],
 [("assembly kernels", "src/amd64, src/x86"), ("component wrappers", "src/amd64/rfxencode_tile_amd64.c")], ["rfxcodec_encode_ex", "rfxcodec_encode_get_internals"])

prop("C14", "Progressive coefficients follow the reduce-extrapolate transform exactly",
 "For every 64x64 plane and every quant table with values 6..15, a non-difference progressive tile hands the entropy coder exactly the coefficients of the reduce-extrapolate definition, in 16-bit arithmetic: level shift and scale, three lifting levels with 33/31, 17/16 and 9/8 splits and linear extrapolation at the far edge, rounding quantisation per sub-band, sub-bands at the protocol's order and sizes, and differencing of the 81 LL3 coefficients. A difference tile hands over those coefficients minus the tile's history, differenced in the same way.",
 ["inputs"], "every plane content and quant table with entries 6..15", "The progressive path is never run by a test.",
 ["src/rfxencode_dwt_shift_rem.c", "src/rfxencode_compose.c", "src/rfxencode_diff_rlgr1.c"], [("rfx_rem_dwt_shift_encode", "src/rfxencode_dwt_shift_rem.c"), ("COEF_DIFF_COUNT", "src/rfxencode_compose.c")], ["rfxcodec_encode_ex"])

prop("C15", "Progressive history always equals what the decoder has reconstructed",
 "After every successful progressive encode, the history the handle keeps for each tile position equals what a decoder reconstructs from all frames delivered since the last key frame: it is updated for exactly the tiles delivered, from what was delivered for them, and nothing else; a failed call (apart from the key-frame restart it asked for), or a tile that did not fit, leaves it unchanged. Each grid position has its own history, and a key-frame request restarts all of them from zero.",
 ["histories", "inputs", "fault_sequences"], "every sequence of progressive calls, tile positions, capacities and allocation failures", "The progressive path is never run by a test.",
 ["src/rfxencode_compose.c", "src/rfxencode.c"], [("history copied only after the tile is complete", "src/rfxencode_compose.c rfx_pro_compose_message_region"), ("undo of the in-place difference", "src/rfxencode_compose.c"), ("key frame reset", "src/rfxencode.c")],
 ["rfxcodec_encode_ex"], [("rbs[x][y]", "per-position coefficient history", "src/rfxencode.h")])

prop("C16", "Entropy coders stay in bounds, consume the whole tile and lose no bits",
 "For every 4096 coefficient values and every buffer size, each RLGR coder reads only its 4096 coefficients and writes only inside the buffer size it was given, and returns either failure or the exact number of bytes it produced, having consumed every coefficient. Its adaptation parameters stay within the protocol's range, no shift amount leaves the operand's width, and no pending output bit is ever pushed out of its accumulator before it is written.",
 ["inputs"], "every coefficient array of 16-bit values and every buffer size", T + "Extreme coefficients and tiny buffers never occur in them.",
 ["src/rfxencode_rlgr1.c", "src/rfxencode_rlgr3.c", "src/rfxencode_diff_rlgr1.c", "src/rfxencode_diff_rlgr3.c", "src/rfx_bitstream.h"],
 [("CheckWrite / CodeGR size checks", "src/rfxencode_diff_rlgr1.c"), ("bit stream bound", "src/rfx_bitstream.h"), ("clamped parameters", "src/rfxencode_rlgr1.c UpdateParam")], ["rfxcodec_encode_get_internals"])

prop("C17", "The entropy coders implement the protocol's RLGR code exactly",
 "For every 4096 coefficients, decoding a coder's output with the protocol's RLGR1 or RLGR3 decoder yields the same coefficients, and the plain and combined (differencing) coders of a variant produce identical bytes.",
 ["inputs"], "every coefficient array of 16-bit values", "The tests never decode.",
 ["src/rfxencode_rlgr1.c", "src/rfxencode_rlgr3.c", "src/rfxencode_diff_rlgr1.c", "src/rfxencode_diff_rlgr3.c"], [("run-length and Golomb-Rice modes", "src/rfxencode_rlgr1.c")], ["rfxcodec_encode_get_internals"])

prop("C18", "Handle memory is neither leaked nor used or freed twice",
 "For every history of create, encode (including failures, key frames and allocation failures) and destroy, all memory the library allocates is reachable from a live handle and released exactly once, by the key-frame reset or by destroy. A failed create leaves nothing allocated, nothing is used after release, an allocation failure is reported and never dereferenced, and destroying a null handle does nothing.",
 ["histories", "fault_sequences"], "every call history and every allocation failing or not", "The tests run no leak checker, never fail an allocation and never allocate history.",
 ["src/rfxencode.c", "src/rfxencode_compose.c"], [("clear_encoder_rbs", "src/rfxencode.c"), ("xnew null check", "src/rfxencode_compose.c")], ["rfxcodec_encode_create_ex", "rfxcodec_encode_ex", "rfxcodec_encode_destroy"])

prop("C19", "Accelerated code runs only where the CPU supports it and obeys the ABI",
 "A kernel is selected only if the CPU reports every instruction-set extension its instructions need, never for NOACCEL or progressive handles, and every CPU has a working coder. Each assembly routine preserves all callee-saved registers and the stack pointer, uses no memory below the stack pointer beyond what the ABI allows, issues aligned accesses only to addresses that are aligned, and touches only its argument buffers, its constants and its stack.",
 ["configurations", "inputs"], "every CPU feature set, both assembly architectures, every input", "The tests run on one CPU with all features; a wrong guard or a clobbered register can go unseen.",
 ["src/rfxencode.c", "src/amd64", "src/x86"], [("cpuid feature bits", "src/rfxencode.c rfxcodec_encode_create_ex"), ("16-byte aligned coefficient buffers", "src/rfxencode.h, src/rfxencode.c"), ("register save/restore", "src/amd64/*.asm, src/x86/*.asm")], ["rfxcodec_encode_create_ex", "rfxcodec_encode_ex"])

prop("C20", "The encoded stream is the same on every target architecture",
 "For the same calls, builds for little- or big-endian machines, for 32 or 64 bits and for signed or unsigned plain char produce the same stream: every multi-byte field is little-endian at the same offset and the portable coefficients are the same. No target-specific preprocessor branch changes what is encoded.",
 ["configurations"], "amd64, i386, and non-x86 targets of either byte order and char signedness", "The tests run on one architecture.",
 ["src/rfxcommon.h", "src/rfxencode_compose.c", "src/rfxencode_alpha.c", "src/rfxencode_quantization.c"], [("stream_write_uint* macros per target", "src/rfxcommon.h"), ("plain char quant tables and alpha planes", "src/rfxencode_quantization.c, src/rfxencode_alpha.c")], ["rfxcodec_encode_ex"])

prop("C21", "Alpha planes carry the tile's alpha exactly",
 "With the alpha flag every tile carries an alpha plane: either the marker 0x00, the 4096 alpha bytes of the tile in row order and one pad byte, or the marker 0x10 and a run-length coding that decodes to exactly those bytes.",
 ["inputs"], "every alpha plane", "No test sets the alpha flag.", ["src/rfxencode_alpha.c", "src/rfxencode_tile.c"], [("fdelta / fpack / fout", "src/rfxencode_alpha.c")], ["rfxcodec_encode_ex"])

prop("C22", "Encoding reads only what the caller described",
 "An encode call reads only the num_regions rectangles, num_tiles tile entries, num_quants*5 quant bytes and, for each tile, the pixels of its own rectangle; a tile whose quant index does not name one of the supplied tables makes the call fail (or is not delivered) rather than being encoded from memory beyond them. A progressive tile position outside the supported 64x64 grid is refused in the same way, and no call reads beyond the bounds of the library's own buffers.",
 ["inputs", "configurations"], "every count, tile entry (including invalid quant indexes and positions), stride and format", T + "Invalid indexes never occur in them and over-reads go unnoticed.",
 ["src/rfxencode_compose.c", "src/rfxencode_rgb_to_yuv.c", "src/rfxencode_tile.c"], [("quant index check", "src/rfxencode_compose.c"), ("grid check", "src/rfxencode_compose.c rfx_pro_compose_message_region")], ["rfxcodec_encode_ex"])

prop("C23", "Creation validates its format and reports failure cleanly",
 "For every format value, creation succeeds exactly for the five documented formats (given memory), with bytes per pixel that match the format; any other value fails with an error and no handle, and an allocation failure is reported as an error. The width and height announced in the stream are those given at creation, the same for every path and flag set.",
 ["inputs", "configurations", "fault_sequences"], "every 32-bit format, flags, width and height, allocation failing or not", "The tests create handles for one format only.",
 ["src/rfxencode.c"], [("format switch", "src/rfxencode.c rfxcodec_encode_create_ex")], ["rfxcodec_encode_create_ex", "rfxcodec_encode_create"])

prop("C24", "A tile always fits in the space the encoder requires before coding a plane",
 "No plane of 4096 coefficients, whatever their values, ever compresses to more bytes than the fixed upper limit the encoder demands to be free before it starts a plane, so a coder never runs out of space part-way.",
 ["inputs"], "every coefficient array", "Only smooth and random pictures are encoded by the tests.", ["src/rfxencode_tile.c"], [("TILE_SIZE_UPPER_LIMIT", "src/rfxencode_tile.c")], ["rfxcodec_encode_ex"])

prop("C25", "What is encoded never depends on uninitialised memory",
 "No decision, address, coefficient or output byte of any call ever depends on memory the program has not initialised: equal call histories on fresh handles give equal output.",
 ["inputs", "histories", "configurations"], "every call history and configuration", "The tests do not compare two runs, and uninitialised scratch usually reads as zero.",
 ["src"], [("calloc of the handle and history", "src/rfxencode.c, src/rfxencode_compose.c")], ["rfxcodec_encode_ex"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
