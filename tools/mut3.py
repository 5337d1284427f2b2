D1="src/rfxencode_diff_rlgr1.c"; D3="src/rfxencode_diff_rlgr3.c"; R1="src/rfxencode_rlgr1.c"; R3="src/rfxencode_rlgr3.c"; BS="src/rfx_bitstream.h"
MUTANTS=[
 ("c-chk-neg", "C16".split(","), 1, [(D1, "if (cdata_size < 1) \\\n", "if (cdata_size < 0) \\\n")]),
 ("c-llvk16", "C16".split(","), 1, [(D1, "cdata_size < llvk / 8", "cdata_size < llvk / 16")]),
 ("c-llvk8p", "C16".split(","), 1, [(D3, "cdata_size < llvk / 8", "cdata_size < llvk / 8 - 1")]),
 ("c-kpmax", "C16".split(","), 1, [(D1, "kp = MIN(KPMAX, kp + UP_GR);", "kp = kp + UP_GR;")]),
 ("c-krpmax", "C16".split(","), 1, [(D3, "_krp = MIN(KPMAX, _krp + lvk); ", "_krp = _krp + lvk; ")]),
 ("c-kpneg", "C16".split(","), 0, [(D1, "kp = MAX(0, kp - DN_GR);", "kp = kp - DN_GR;")]),
 ("c-final", "C16".split(","), 1, [(D1, "        if (cdata_size < 1)\n        {\n            return -1;\n        }\n", "")]),
 ("c-final3", "C16".split(","), 1, [(D3, "        if (cdata_size < 1)\n        {\n            return -1;\n        }\n", "")]),
 ("c-nocw", "C16".split(","), 1, [(D3, "            CodeGR(krp, sum2Ms);\n\n            CheckWrite;", "            CodeGR(krp, sum2Ms);\n")]),
 ("c-r3odd", "C16".split(","), 1, [(D3, "if (coef_size > 0)\n            {\n                GetNextInput;\n            }\n            else\n            {\n                input = 0;\n            }", "GetNextInput;")]),
 ("c-sizeM1", "C16".split(","), 1, [(D1, "while (coef_size > 0)", "while (coef_size > 1)")]),
 ("c-plain-eos", "C16".split(","), 1, [(BS, "while (bs.byte_pos < bs.nbytes && nbits > 0) \\\n    { \\\n        b = nbits; \\\n        if (b > bs.bits_left) \\\n            b = bs.bits_left; \\\n        bs.buffer", "while (bs.byte_pos <= bs.nbytes && nbits > 0) \\\n    { \\\n        b = nbits; \\\n        if (b > bs.bits_left) \\\n            b = bs.bits_left; \\\n        bs.buffer")]),
 ("c-plain-ret", "C16".split(","), 1, [(BS, "((_bs).bits_left < 8 ? (_bs).byte_pos + 1 : (_bs).byte_pos)", "((_bs).bits_left <= 8 ? (_bs).byte_pos + 1 : (_bs).byte_pos)")]),
 ("c-plain-next", "C16".split(","), 1, [(R3, "if (data_size > 0) \\", "if (data_size >= 0) \\")]),
 ("c-plain-clamp", "C16".split(","), 1, [(R1, "    if (_param > KPMAX) \\\n    { \\\n        _param = KPMAX; \\\n    } \\\n", "")]),
 ("c-acc16", "C16".split(","), 1, [(D1, "unsigned int bits;", "uint16 bits;")]),
 ("c-diff-ge", "C13,C14,C15".split(","), 1, [(D1, "k > PIXELS_IN_TILE - diff_bytes; k--", "k >= PIXELS_IN_TILE - diff_bytes; k--")]),
 ("c-diff3", "C13".split(","), 1, [(D3, "k > PIXELS_IN_TILE - diff_bytes; k--", "k > PIXELS_IN_TILE - diff_bytes + 1; k--")]),
 # behaviour kept
 ("b-c-for", "C16,C13".split(","), 0, [(D1, "    while (coef_size > 0)\n", "    for (; coef_size > 0; )\n")]),
 ("b-c-acc64", "C16".split(","), 0, [(D1, "unsigned int bits;", "unsigned long long bits;")]),
 ("b-c-ptrend", "C16".split(","), 0, [(D1, "        if (cdata_size < 1)\n        {\n            return -1;\n        }\n", "        if (cdata_size <= 0)\n        {\n            return -1;\n        }\n")]),
 ("b-c-cw", "C16".split(","), 0, [(D3, "    while (bit_count >= 8) \\\n    { \\\n        if (cdata_size < 1) \\\n        { \\\n            return -1; \\\n        } \\\n", "    for (;;) \\\n    { \\\n        if (bit_count < 8) break; \\\n        if (cdata_size <= 0) \\\n        { \\\n            return -1; \\\n        } \\\n")]),
 ("b-c-size", "C16".split(","), 0, [(D3, "processed_size = cdata - cdata_org;", "processed_size = (int) (cdata - cdata_org);")]),
 ("b-c-upd", "C16".split(","), 0, [(R1, "    _param += _deltaP; \\\n", "    _param = _param + (_deltaP); \\\n")]),
]
