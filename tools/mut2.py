C = "src/rfxencode_compose.c"; E = "src/rfxencode.c"; T = "src/rfxencode_tile.c"; R = "src/rfxencode_rgb_to_yuv.c"; D = "src/rfxencode_dwt.c"; Q = "src/rfxencode_quantization.c"; P = "src/rfxencode_dwt_shift_rem.c"; A = "src/amd64/rfxcodec_encode_dwt_shift_amd64_sse2.asm"
MUTANTS = [
 # padding and history independence
 ("r-pad-right", ["C09"], 1, [(R, "                while (x < 64)\n                {\n                    *lb_buf++ = b;\n                    *lg_buf++ = g;\n                    *lr_buf++ = r;\n                    x++;\n                }", "                while (x < 63)\n                {\n                    *lb_buf++ = b;\n                    *lg_buf++ = g;\n                    *lr_buf++ = r;\n                    x++;\n                }", 0)]),
 ("r-pad-down", ["C09"], 1, [(R, "memcpy(lg_buf, lg_buf - 64, 64);", "memcpy(lg_buf, g_buf, 64);", 6)]),
 ("r-pad-row0", ["C09"], 1, [(R, "            while (y < 64)\n", "            while (y < 64 && height != 40)\n", 5)]),
 ("r-pad-alpha", ["C09"], 1, [(R, "                    *la_buf++ = a;\n                    x++;", "                    *la_buf++ = 0;\n                    x++;", 1)]),
 # formats
 ("r-rgba-swap", ["C10"], 1, [(R, "                    r = *src++;\n                    *lr_buf++ = r;\n                    g = *src++;\n                    *lg_buf++ = g;\n                    b = *src++;\n                    *lb_buf++ = b;\n                    a = *src++;", "                    b = *src++;\n                    *lb_buf++ = b;\n                    g = *src++;\n                    *lg_buf++ = g;\n                    r = *src++;\n                    *lr_buf++ = r;\n                    a = *src++;")]),
 ("r-alpha-premul", ["C10"], 1, [(R, "                    a = *src++;\n                    *la_buf++ = a;", "                    a = *src++;\n                    *la_buf++ = a;\n                    if (a == 0)\n                    {\n                        lr_buf[-1] = 0;\n                    }", 0)]),
 # colour
 ("r-colour-const", ["C11"], 1, [(R, "b *  -5327) >> 16", "b *  -5326) >> 16")]),
 ("r-colour-clamp", ["C11"], 1, [(R, "u_g_buf[i] = MINMAX(u + 128, 0, 255);", "u_g_buf[i] = MINMAX(u + 128, 0, 254);")]),
 ("r-colour-div", ["C11"], 1, [(R, "u = (r * -11071 + g * -21736 + b *  32807) >> 16;", "u = (r * -11071 + g * -21736 + b *  32807) / 65536;")]),
 # transform
 ("r-dwt-edge", ["C12"], 1, [(D, "hl[n] = (l_src[x + 1] - ((l_src[x] + l_src[x]) >> 1)) >> 1;", "hl[n] = (l_src[x + 1] - ((l_src[x] + l_src[x - 2]) >> 1)) >> 1;")]),
 ("r-dwt-round", ["C12"], 1, [(D, "*l = src[0] + ((*(h - total_width) + *h) >> 1);", "*l = src[0] + ((*(h - total_width) + *h + 1) >> 1);", 1)]),
 ("r-quant-nib", ["C12"], 1, [(Q, "factor = ((qtable[1] >> 0) & 0xf) - 6;\n    rfx_quantization_encode_block(buffer + 3840, 64, factor); /* HL3 */", "factor = ((qtable[1] >> 4) & 0xf) - 6;\n    rfx_quantization_encode_block(buffer + 3840, 64, factor); /* HL3 */", 0)]),
 ("r-quant-count", ["C12"], 1, [(Q, "rfx_quantization_encode_block(buffer + 4032, 64, factor); /* LL3 */", "rfx_quantization_encode_block(buffer + 4032, 63, factor); /* LL3 */")]),
 ("r-diff-count", ["C12"], 1, [(T, "rfx_differential_encode(enc->dwt_buffer1 + 4032, 64)", "rfx_differential_encode(enc->dwt_buffer1 + 4032, 63)", 1)]),
 ("r-half16", ["C12"], 1, [(Q, "    sint16 half;\n\n    factor += DWT_FACTOR;", "    sint8 half;\n\n    factor += DWT_FACTOR;")]),
 # kernels
 ("r-asm-sra", ["C13"], 1, [(A, "    psraw xmm5, 1\n    paddw xmm5, xmm1", "    psrlw xmm5, 1\n    paddw xmm5, xmm1", 2)]),
 ("r-asm-off", ["C13"], 1, [(A, "psubw xmm5, xmm4", "paddw xmm5, xmm4", 7)]),
 ("r-acc-diff", ["C13"], 1, [("src/amd64/rfxencode_tile_amd64.c", "64)", "63)", 1)]),
 # progressive
 ("r-pro-ext", ["C14"], 1, [(P, "x2n2 = 2 * x2n1 - x2n; /* ic[64] = 2 * ic[63] - ic[62] */", "x2n2 = x2n1;", 1)]),
 ("r-pro-band", ["C14"], 1, [(P, "SETUPHIQ(3, 0); /* HH2 */", "SETUPHIQ(2, 0); /* HH2 */")]),
 ("r-pro-diffn", ["C14"], 1, [(C, "stream_get_left(s), 81);", "stream_get_left(s), 80);", 2)]),
 ("r-hist-undo", ["C15"], 1, [(C, "for (jndex = 4096 - 80; jndex < 4096; jndex++)", "for (jndex = 4096 - 79; jndex < 4096; jndex++)")]),
 ("r-hist-v", ["C15"], 1, [(C, "memcpy(rb->v, enc->dwt_buffer3, 64 * 64 * 2);", "memcpy(rb->v, enc->dwt_buffer3, 64 * 64);")]),
 ("r-hist-early", ["C15"], 1, [(C, "        memcpy(rb->y, enc->dwt_buffer1, 64 * 64 * 2);\n", ""), (C, "        y_bytes = rfx_encode_diff_rlgr1(dwt_buffer_y,", "        memcpy(rb->y, enc->dwt_buffer1, 64 * 64 * 2);\n        y_bytes = rfx_encode_diff_rlgr1(dwt_buffer_y,")]),
 ("r-hist-slot", ["C15"], 1, [(C, "rb = enc->rbs[xIdx][yIdx];", "rb = enc->rbs[xIdx][yIdx & 31];"), (C, "enc->rbs[xIdx][yIdx] = rb;", "enc->rbs[xIdx][yIdx & 31] = rb;")]),
 ("r-key-partial", ["C15"], 1, [(E, "for (jndex = 0; jndex < RFX_MAX_RB_X; ++jndex)", "for (jndex = 1; jndex < RFX_MAX_RB_X; ++jndex)")]),
 ("r-hist-cond", ["C15"], 1, [(C, "        if (tile_flags == 0)\n        {\n            /* undo", "        if (tile_flags == 0 && ot_y_zeros < 4000)\n        {\n            /* undo")]),
 # the same behaviour written differently
 ("b-colour", ["C11", "C10", "C09"], 0, [(R, "y = (r *  19595 + g *  38470 + b *   7471) >> 16;", "y = ((r << 14) + r * 3211 + (g * 19235) * 2 + b * 7471) >> 16;")]),
 ("b-memset", ["C09"], 0, [(R, "                while (x < 64)\n                {\n                    *lb_buf++ = b;\n                    *lg_buf++ = g;\n                    *lr_buf++ = r;\n                    x++;\n                }", "                memset(lb_buf, b, 64 - x);\n                memset(lg_buf, g, 64 - x);\n                memset(lr_buf, r, 64 - x);", 0)]),
 ("b-diff-back", ["C12", "C13"], 0, [("src/rfxencode_differential.c", "    sint16 n1, n2;\n    sint16 *dst;\n\n    for (n1 = *buffer, dst = buffer + 1; buffer_size > 1; dst++, buffer_size--)\n    {\n        n2 = *dst;\n        *dst -= n1;\n        n1 = n2;\n    }", "    int k;\n\n    for (k = buffer_size - 1; k > 0; k--)\n    {\n        buffer[k] = (sint16) (buffer[k] - buffer[k - 1]);\n    }")]),
 ("b-dwt-order", ["C12"], 0, [(D, "        hl[0] = (l_src[1] - ((l_src[0] + l_src[2]) >> 1)) >> 1;\n        ll[0] = l_src[0] + hl[0];\n", "        n = (l_src[0] + l_src[2]) >> 1;\n        n = (l_src[1] - n) >> 1;\n        ll[0] = l_src[0] + n;\n        hl[0] = n;\n")]),
 ("b-quant-div", ["C12"], 0, [(Q, "    half = (1 << (factor - 1));\n    for (dst = buffer; buffer_size > 0; dst++, buffer_size--)\n    {\n        *dst = (*dst + half) >> factor;\n    }\n    return 0;\n}\n#endif\n\n/*", "    {\n        int i;\n        int v;\n        for (i = 0; i < buffer_size; i++)\n        {\n            v = buffer[i];\n            v += 1 << (factor - 1);\n            buffer[i] = (sint16) (v >> factor);\n        }\n    }\n    (void) dst;\n    (void) half;\n    return 0;\n}\n#endif\n\n/*", 0)]),
 ("b-hist-loop", ["C15", "C14"], 0, [(C, "memcpy(rb->y, enc->dwt_buffer1, 64 * 64 * 2);", "for (jndex = 0; jndex < 4096; jndex++)\n        {\n            rb->y[jndex] = enc->dwt_buffer1[jndex];\n        }")]),
 ("b-key", ["C15", "C05", "C18"], 0, [(E, "            free(enc->rbs[index][jndex]);\n            enc->rbs[index][jndex] = NULL;", "            struct rfx_rb *old = enc->rbs[index][jndex];\n            if (old != NULL)\n            {\n                enc->rbs[index][jndex] = NULL;\n                free(old);\n            }")]),
]
