C = "src/rfxencode_compose.c"; E = "src/rfxencode.c"; T = "src/rfxencode_tile.c"; R = "src/rfxencode_rgb_to_yuv.c"
MUTANTS = [
 ("m-tilecount8", ["C04"], 1, [(C, "stream_set_pos(s, start_pos + 16);\n    stream_write_uint16(s, tiles_written);", "stream_set_pos(s, start_pos + 16);\n    stream_write_uint16(s, (uint8) tiles_written);")]),
 ("m-idx-reset", ["C05"], 1, [(E, "enc->frame_idx = frame_idx;\n        enc->header_processed = header_processed;\n    }\n    *cdata_bytes", "enc->frame_idx = frame_idx;\n    }\n    *cdata_bytes")]),
 ("m-key-header", ["C05"], 1, [(E, "    enc->header_processed = 0;\n", "")]),
 ("m-mode-sse2", ["C06"], 1, [(E, "enc->rfx_encode = rfx_encode_component_rlgr1_amd64_sse2;", "enc->rfx_encode = rfx_encode_component_rlgr3_amd64_sse2;")]),
 ("m-mode-x86", ["C06"], 1, [("src/x86/rfxencode_tile_x86.c", "rfx_encode_diff_rlgr1", "rfx_encode_diff_rlgr3", 1)]),
 ("m-checkpoint", ["C07"], 1, [(C, "tiles_end_checkpoint = stream_get_pos(s);\n                tiles_written += 1;", "tiles_written += 1;\n                tiles_end_checkpoint = stream_get_pos(s) - 1;", 3)]),
 ("m-count-first", ["C07"], 1, [(C, "        ++tiles_written;\n", ""), (C, "        tile_start_pos = stream_get_pos(s);\n", "        tile_start_pos = stream_get_pos(s);\n        ++tiles_written;\n")]),
 ("m-quant-cb-cr", ["C08"], 1, [(C, "v_quants = quants + quantIdxCr * 5;", "v_quants = quants + quantIdxCb * 5;")]),
 ("m-argb-quant", ["C08"], 1, [(T, "if (check_and_rfx_encode(enc, v_quants, v_b_buffer,", "if (check_and_rfx_encode(enc, u_quants, v_b_buffer,", 1)]),
 ("m-yuva-xy", ["C08"], 1, [(C, "x / 64, y / 64", "y / 64, x / 64", 0)]),
 ("m-bpp-rgb", ["C23", "C08"], 1, [(E, "case RFX_FORMAT_RGB:\n            enc->bits_per_pixel = 24;", "case RFX_FORMAT_RGB:\n            enc->bits_per_pixel = 32;")]),
 ("m-format-default", ["C23"], 1, [(E, "        default:\n            free(enc);\n            return 2;", "        default:\n            if (format < 8)\n            {\n                enc->bits_per_pixel = 32;\n                break;\n            }\n            free(enc);\n            return 2;")]),
 ("m-width-swap", ["C23"], 1, [(C, "stream_write_uint16(s, enc->height);", "stream_write_uint16(s, enc->width);")]),
 ("m-alen", ["C04"], 1, [(C, "stream_write_uint32(s, 21 + YLen + CbLen + CrLen + ALen);", "stream_write_uint32(s, 19 + YLen + CbLen + CrLen + ALen);", 0)]),
 ("m-region-len", ["C04"], 1, [(C, "size = 15 + num_regions * 8;", "size = 15 + (uint8) num_regions * 8;")]),
 ("m-factor1", ["C07"], 1, [(T, "#define RLGR_WORST_CASE_SIZE_FACTOR 2", "#define RLGR_WORST_CASE_SIZE_FACTOR 1")]),
 ("m-pro-tail", ["C04"], 1, [(C, "stream_write_uint16(s, 0); /* tailLen */", "")]),
 ("m-pro-rgb-fallback", ["C08"], 1, [(C, "u_buffer = (const uint8 *) (tile_data + RFX_YUV_BTES);", "u_buffer = (const uint8 *) (tile_data + RFX_YUV_BTES * 2);")]),
]
