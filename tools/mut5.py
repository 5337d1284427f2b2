A = "src/rfxencode_alpha.c"
C = "src/rfxcommon.h"
Q = "src/rfxencode_quantization.c"
K = "src/rfxencode_compose.c"
R = "src/rfxencode_rlgr3.c"
P = ["C20"]
W32 = "((uint8 *) ((_s)->p))[2] = (uint8) ((_v) >> 16);"
MUTANTS = [
 ("t-w32", P, 1, [(C, W32, "((uint8 *) ((_s)->p))[2] = (uint8) ((_v) >> 24);")]),
 ("t-w16", P, 1, [(C, "((uint8 *) ((_s)->p))[1] = (uint8) ((_v) >> 8); \\\n    (_s)->p += 2;", "((uint8 *) ((_s)->p))[1] = (uint8) ((_v)) >> 8; \\\n    (_s)->p += 2;")]),
 ("t-native16", P, 1, [(C, "    ((uint8 *) ((_s)->p))[0] = (uint8) (_v); \\\n    ((uint8 *) ((_s)->p))[1] = (uint8) ((_v) >> 8); \\\n    (_s)->p += 2;", "    ((uint16 *) ((_s)->p))[0] = (uint16) (_v); \\\n    (_s)->p += 2;")]),
 ("t-sign", P, 1, [(A, "if (delta & 0x80)", "if (delta < 0)")]),
 ("t-quant", P, 1, [(Q, "factor = ((qtable[4] >> 4) & 0xf) - 6;", "factor = (qtable[4] >> 4) - 6;", 0)]),
 ("t-b-same", P, 0, [(C, "((uint8 *) ((_s)->p))[0] = (uint8) (_v); \\\n    ((uint8 *) ((_s)->p))[1] = (uint8) ((_v) >> 8); \\\n    (_s)->p += 2;", "uint32 _w = (uint32) (_v); \\\n    (_s)->p[0] = _w & 255; \\\n    (_s)->p[1] = (_w >> 8) & 255; \\\n    (_s)->p += 2;")]),
 ("t-b-both", P, 0, [(K, "size = 15 + num_regions * 8;", "size = 15 + (uint8) num_regions * 8;")]),
 ("t-coder", P, 1, [(R, "#include \"rfxencode_rlgr3.h\"\n", "#include \"rfxencode_rlgr3.h\"\n#if defined(__BYTE_ORDER__) && (__BYTE_ORDER__ == __ORDER_BIG_ENDIAN__)\n#define KPMAXX 72\n#else\n#define KPMAXX 80\n#endif\n"), (R, "#define KPMAX   (80)", "#define KPMAX   KPMAXX")]),
]
