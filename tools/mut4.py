A = "src/rfxencode_alpha.c"
P = ["C21"]
MUTANTS = [
 ("a-run48", P, 1, [(A, "if (lreplen > 47)", "if (lreplen > 48)"), (A, "lreplen = 47;", "lreplen = 48;")]),
 ("a-short2", P, 1, [(A, "if (lreplen < 3)\n            {\n                collen += lreplen;", "if (lreplen < 2)\n            {\n                collen += lreplen;")]),
 ("a-col14", P, 1, [(A, "cont = collen > 13;\n    while (cont)", "cont = collen > 14;\n    while (cont)")]),
 ("a-lend", P, 1, [(A, "lend = ptr8 + (cx - 1);", "lend = ptr8 + (cx - 2);")]),
 ("b-colptr", P, 0, [(A, "colptr += collen + lreplen;", "colptr += collen;")]),
 ("b-bigptr", P, 0, [(A, "            stream_write_uint8(s, code);\n            colptr += lreplen;", "            stream_write_uint8(s, code);")]),
 ("a-zero", P, 1, [(A, "if (colptr[0] == 0)", "if (colptr[0] == 1)")]),
 ("a-sign", P, 1, [(A, "if (delta & 0x80)", "if (delta < 0 && delta != -128)")]),
 ("a-dzz", P, 1, [(A, "delta = (((~delta) + 1) << 1) - 1;", "delta = ((~delta) << 1) - 1;")]),
 ("a-ret", P, 1, [(A, "bytes = cx * cy + 2;", "bytes = cx * cy + 1;")]),
 ("a-rawmark", P, 1, [(A, "stream_write_uint8(s, 0); /* flags */", "stream_write_uint8(s, 0x10); /* flags */")]),
 ("a-rawplane", P, 1, [(A, "memcpy(s->p, plane, cx * cy);", "memcpy(s->p, delta_plane, cx * cy);")]),
 ("a-rawpos", P, 1, [(A, "        s->p = holdp;\n        stream", "        stream")]),
 ("a-short3", P, 1, [(A, "if (lreplen < 3)\n            {\n                collen += lreplen;", "if (lreplen < 4 && collen < 12)\n            {\n                collen += lreplen;")]),
 ("a-short33", P, 1, [(A, "if (lreplen < 3)\n            {\n                collen += lreplen;", "if (lreplen < 4)\n            {\n                collen += lreplen;")]),
 ("b-short3", P, 0, [(A, "if (lreplen < 3)\n            {\n                collen += lreplen;", "if (lreplen < 3 || (lreplen < 4 && collen < 12))\n            {\n                collen += lreplen;")]),
 ("b-thresh", P, 0, [(A, "if (bytes > cx * cy)", "if (bytes >= cx * cy)")]),
 ("b-local", P, 0, [(A, "        code = lcollen << 4;\n        stream_write_uint8(s, code);\n        memcpy(s->p, colptr, lcollen);\n        s->p += lcollen;", "        {\n            uint8 *q = s->p;\n            int k;\n            *(q++) = (uint8) (lcollen * 16);\n            for (k = 0; k < lcollen; k++)\n            {\n                *(q++) = (uint8) colptr[k];\n            }\n            s->p = q;\n        }")]),
 ("b-late", P, 0, [(A, "    stream_write_uint8(s, 0x10); /* flags, RLE */\n", "    s->p++;\n"), (A, "        bytes += 1; /* flags */", "        holdp[0] = 0x10;\n        bytes += 1; /* flags */")]),
 ("b-code", P, 0, [(A, "code = ((lreplen & 0xF) << 4) | ((lreplen & 0xF0) >> 4);", "code = lreplen > 31 ? (((lreplen - 32) << 4) | 2) : (((lreplen - 16) << 4) | 1);")]),
 ("b-dzz", P, 0, [(A, "            if (delta & 0x80)\n            {\n                delta = (((~delta) + 1) << 1) - 1;\n            }\n            else\n            {\n                delta = delta << 1;\n            }", "            delta = (char) ((delta << 1) ^ -((delta >> 7) & 1));")]),
 ("b-rows", P, 0, [(A, "    for (jndex = 0; jndex < cy; jndex++)\n    {\n        LLOGLN(10, (\"line start", "    for (jndex = cy; jndex > 0; jndex--, plane += cx)\n    {\n        LLOGLN(10, (\"line start"), (A, "ptr8 = (char *) (plane + jndex * cx);", "ptr8 = plane;")]),
 ("b-same", P, 0, [(A, "            if (ptr8[0] == ptr8[1])\n            {\n                replen++;\n            }\n            else\n            {\n                if (replen > 0)", "            int same = ptr8[1] == ptr8[0];\n            replen += same;\n            if (!same)\n            {\n                if (replen > 0)")]),
 ("b-buf2", P, 0, [(A, "(char *) (enc->dwt_buffer1)", "(char *) (enc->dwt_buffer2)")]),
]
