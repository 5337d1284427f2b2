PRE = '#include "t.h"\n'
ENC = r'''
static char img[4 * 128 * 128];
static int enc1(void *h, unsigned char *out, int cap, struct rfx_tile *t, int nt, char *q, int nq, int flags, int stride) { struct rfx_rect r = {0, 0, 64, 64}; int n = cap; int rv = rfxcodec_encode_ex(h, (char *) out, &n, img, 128, 128, stride, &r, 1, t, nt, q, nq, flags); return rv < 0 ? -1 : n; }
static void *mk(int fmt, int flags) { void *h; CHECK(rfxcodec_encode_create_ex(128, 128, fmt, flags, &h) == 0); return h; }
'''
SEEDS = [
dict(id="s05-region-length", property="C04", needs="a frame with more than 255 region rectangles", breaks="the region block's length covers only the rectangles modulo 256",
  edits=[("src/rfxencode_compose.c", "size = 15 + num_regions * 8;", "size = 15 + (uint8) num_regions * 8;")],
  demo=PRE + r'''
static char img[4 * 64 * 64]; static unsigned char out[100000]; static struct rfx_rect r[300];
int main(void) { void *h; struct pframe f; struct rfx_tile t = {0, 0, 64, 64, 0, 0, 0}; int n = sizeof(out);
 CHECK(rfxcodec_encode_create_ex(64, 64, RFX_FORMAT_BGRA, RFX_FLAGS_NOACCEL, &h) == 0);
 CHECK(rfxcodec_encode(h, (char *) out, &n, img, 64, 64, 256, r, 300, &t, 1, 0, 0) == 1);
 CHECK(parse_plain(out, n, &f, 0) == 0); CHECK(f.nrect == 300); return 0; }
'''),
dict(id="s06-key-header", property="C05", needs="a progressive key-frame request after earlier frames", breaks="the key frame does not carry the stream header again",
  edits=[("src/rfxencode.c", "    enc->frame_idx = 0;\n    enc->header_processed = 0;\n\n    memset", "    enc->frame_idx = 0;\n\n    memset")],
  demo=PRE + ENC + r'''
static unsigned char out[100000];
int main(void) { void *h = mk(RFX_FORMAT_YUV, RFX_FLAGS_PRO1); struct pframe f; struct rfx_tile t = {0, 0, 64, 64, 0, 0, 0}; int n;
 n = enc1(h, out, sizeof(out), &t, 1, 0, 0, 0, 512); CHECK(n > 0 && parse_pro(out, n, &f) == 0 && f.header == 1);
 n = enc1(h, out, sizeof(out), &t, 1, 0, 0, 0, 512); CHECK(n > 0 && parse_pro(out, n, &f) == 0 && f.header == 0);
 n = enc1(h, out, sizeof(out), &t, 1, 0, 0, RFX_FLAGS_PRO_KEY, 512); CHECK(n > 0 && parse_pro(out, n, &f) == 0 && f.header == 1 && f.idx == 0);
 return 0; }
'''),
dict(id="s07-mode-dispatch", property="C06", needs="RLGR1 requested on a CPU with SSE2 but without SSE4.1", breaks="planes are coded with RLGR3 although the stream announces RLGR1",
  edits=[("src/rfxencode.c", "enc->rfx_encode = rfx_encode_component_rlgr1_amd64_sse2;", "enc->rfx_encode = rfx_encode_component_rlgr3_amd64_sse2;")],
  script='''for f in src/amd64/rfx*.asm; do nasm -f elf64 -DASM_ARCH_AMD64 -DPIC -Isrc/ "$f" -o "$W/$(basename "$f").o"; done
gcc -w -g -O1 -DSIMD_USE_ACCEL=1 -DRFX_USE_ACCEL_AMD64=1 -Iinclude -Isrc -I"$D" -o "$W/demo" "$D/demo.c" src/*.c src/amd64/*.c "$W"/*.o
"$W/demo" > /dev/null''',
  demo=PRE + ENC + r'''
int cpuid_amd64(int eax, int ecx, int *ax, int *bx, int *cx, int *dx) { *ax = *bx = *cx = 0; *dx = eax == 1 ? 1 << 26 : 0; return 0; }
static unsigned char a[100000], b[100000];
int main(void) { struct rfx_tile t = {0, 0, 64, 64, 0, 0, 0}; int i, n, m; for (i = 0; i < (int) sizeof(img); i++) img[i] = rnd();
 n = enc1(mk(RFX_FORMAT_BGRA, RFX_FLAGS_RLGR1), a, sizeof(a), &t, 1, 0, 0, 0, 512); m = enc1(mk(RFX_FORMAT_BGRA, RFX_FLAGS_RLGR1 | RFX_FLAGS_NOACCEL), b, sizeof(b), &t, 1, 0, 0, 0, 512);
 CHECK(n > 0 && n == m && memcmp(a, b, n) == 0); return 0; }
'''),
dict(id="s08-argb-quant", property="C08", needs="alpha tiles whose Cb and Cr quant indexes differ", breaks="the Cr plane of an alpha tile is quantised with the Cb table",
  edits=[("src/rfxencode_tile.c", "if (check_and_rfx_encode(enc, v_quants, v_b_buffer,", "if (check_and_rfx_encode(enc, u_quants, v_b_buffer,")],
  nth={"if (check_and_rfx_encode(enc, v_quants, v_b_buffer,": 1},
  demo=PRE + ENC + r'''
static unsigned char a[200000], b[200000];
int main(void) { struct rfx_tile t = {0, 0, 64, 64, 0, 1, 2}; struct pframe f, g; int i, n, m; char q[15] = {0x66,0x66,0x66,0x66,0x66, 0x77,0x77,0x77,0x77,0x77, (char) 0x99,(char) 0x99,(char) 0x99,(char) 0x99,(char) 0x99};
 for (i = 0; i < (int) sizeof(img); i++) img[i] = rnd();
 n = enc1(mk(RFX_FORMAT_BGRA, RFX_FLAGS_NOACCEL), a, sizeof(a), &t, 1, q, 3, 0, 512); CHECK(n > 0 && parse_plain(a, n, &f, 0) == 0);
 m = enc1(mk(RFX_FORMAT_BGRA, RFX_FLAGS_NOACCEL), b, sizeof(b), &t, 1, q, 3, RFX_FLAGS_ALPHAV1, 512); CHECK(m > 0);
 { unsigned char *p = b; int k; while (u16(p) != 0xDDD7) p += u32(p + 2); p += 22 + 15; { unsigned o = 21; for (k = 0; k < 3; k++) { unsigned l = u16(p + 13 + 2 * k); CHECK(l == f.t[0].len[k] && memcmp(p + o, f.t[0].d[k], l) == 0); o += l; } } }
 (void) g; return 0; }
'''),
dict(id="s09-pad-height", property="C09", needs="a partial tile of exactly 40 rows after another tile", breaks="the rows below a 40-row tile keep what an earlier tile left in the buffers",
  edits=[("src/rfxencode_rgb_to_yuv.c", "            while (y < 64)\n", "            while ((y < 64) && (height != 40))\n")],
  nth={"            while (y < 64)\n": 2},
  demo=PRE + ENC + r'''
static unsigned char a[200000], b[200000];
int main(void) { int fmt, fl, hh; static int fs[4] = {RFX_FORMAT_BGRA, RFX_FORMAT_RGBA, RFX_FORMAT_BGR, RFX_FORMAT_RGB};
 for (fmt = 0; fmt < 4; fmt++) for (fl = 0; fl < 2; fl++) for (hh = 1; hh < 64; hh++) { struct rfx_tile full = {64, 64, 64, 64, 0, 0, 0}, t = {0, 0, 64, 64, 0, 0, 0}; int i, n, m; void *h, *g; t.cy = hh;
  for (i = 0; i < (int) sizeof(img); i++) img[i] = rnd();
  h = mk(fs[fmt], RFX_FLAGS_NOACCEL); enc1(h, a, sizeof(a), &full, 1, 0, 0, fl, 512); n = enc1(h, a, sizeof(a), &t, 1, 0, 0, fl, 512);
  for (i = hh; i < 64; i++) memcpy(img + i * 512, img + (hh - 1) * 512, 512);
  t.cy = 64; g = mk(fs[fmt], RFX_FLAGS_NOACCEL); enc1(g, b, sizeof(b), &full, 1, 0, 0, fl, 512); m = enc1(g, b, sizeof(b), &t, 1, 0, 0, fl, 512);
  CHECK(n > 0 && n == m && memcmp(a, b, n) == 0); rfxcodec_encode_destroy(h); rfxcodec_encode_destroy(g); }
 return 0; }
'''),
dict(id="s10-transparent-black", property="C10", needs="a fully transparent pixel that is not black, with the alpha flag", breaks="the alpha value changes the colour planes",
  edits=[("src/rfxencode_rgb_to_yuv.c", "                    a = *src++;\n                    *la_buf++ = a;", "                    a = *src++;\n                    if (a == 0)\n                    {\n                        lr_buf[-1] = 0;\n                        lg_buf[-1] = 0;\n                        lb_buf[-1] = 0;\n                    }\n                    *la_buf++ = a;")],
  nth={"                    a = *src++;\n                    *la_buf++ = a;": 0},
  demo=PRE + ENC + r'''
static unsigned char a[200000], b[200000];
int main(void) { static int fs[2] = {RFX_FORMAT_BGRA, RFX_FORMAT_RGBA}; int k; for (k = 0; k < 2; k++) { struct rfx_tile t = {0, 0, 64, 64, 0, 0, 0}; int i, n, m; for (i = 0; i < (int) sizeof(img); i++) img[i] = i % 4 == 3 ? 255 : rnd();
 n = enc1(mk(fs[k], RFX_FLAGS_NOACCEL), a, sizeof(a), &t, 1, 0, 0, RFX_FLAGS_ALPHAV1, 512);
 for (i = 3; i < (int) sizeof(img); i += 4) img[i] = i % 64 == 3 ? 0 : 255;
 m = enc1(mk(fs[k], RFX_FLAGS_NOACCEL), b, sizeof(b), &t, 1, 0, 0, RFX_FLAGS_ALPHAV1, 512); CHECK(n > 0 && m > 0);
 { unsigned char *p = a, *q = b; unsigned l; while (u16(p) != 0xDDD7) p += u32(p + 2); while (u16(q) != 0xDDD7) q += u32(q + 2); p += 27; q += 27; l = u16(p + 13) + u16(p + 15) + u16(p + 17);
   CHECK(memcmp(p + 13, q + 13, 6) == 0 && memcmp(p + 21, q + 21, l) == 0); } }
 return 0; }
'''),
dict(id="s11-rlgr1-diff", property="C12", needs="the portable RLGR1 path and a last LL3 coefficient that differs from its neighbour", breaks="the last LL3 coefficient is sent without being differenced",
  edits=[("src/rfxencode_tile.c", "rfx_differential_encode(enc->dwt_buffer1 + 4032, 64)", "rfx_differential_encode(enc->dwt_buffer1 + 4032, 63)")],
  nth={"rfx_differential_encode(enc->dwt_buffer1 + 4032, 64)": 0},
  script='''for f in src/amd64/*.asm; do nasm -f elf64 -DASM_ARCH_AMD64 -DPIC -Isrc/ "$f" -o "$W/$(basename "$f").o"; done
gcc -w -g -O1 -DSIMD_USE_ACCEL=1 -DRFX_USE_ACCEL_AMD64=1 -Iinclude -Isrc -I"$D" -o "$W/demo" "$D/demo.c" src/*.c src/amd64/*.c "$W"/*.o
"$W/demo" > /dev/null''',
  demo=PRE + ENC + r'''
static unsigned char a[200000], b[200000];
int main(void) { int m, k; static int fs[2] = {RFX_FLAGS_RLGR1, RFX_FLAGS_RLGR3}; for (k = 0; k < 2; k++) { struct rfx_tile t = {0, 0, 64, 64, 0, 0, 0}; int i, n; for (i = 0; i < (int) sizeof(img); i++) img[i] = rnd();
 n = enc1(mk(RFX_FORMAT_BGRA, fs[k]), a, sizeof(a), &t, 1, 0, 0, 0, 512); m = enc1(mk(RFX_FORMAT_BGRA, fs[k] | RFX_FLAGS_NOACCEL), b, sizeof(b), &t, 1, 0, 0, 0, 512);
 CHECK(n > 0 && n == m && memcmp(a, b, n) == 0); } return 0; }
'''),
dict(id="s12-asm-logical-shift", property="C13", needs="SSE2 without SSE4.1 and a negative intermediate sum in the vertical pass", breaks="the SSE2 kernel shifts a negative sum logically",
  edits=[("src/amd64/rfxcodec_encode_dwt_shift_amd64_sse2.asm", "    psraw xmm5, 1\n    paddw xmm5, xmm1", "    psrlw xmm5, 1\n    paddw xmm5, xmm1")],
  nth={"    psraw xmm5, 1\n    paddw xmm5, xmm1": 0},
  script='''for f in src/amd64/rfx*.asm; do nasm -f elf64 -DASM_ARCH_AMD64 -DPIC -Isrc/ "$f" -o "$W/$(basename "$f").o"; done
gcc -w -g -O1 -DSIMD_USE_ACCEL=1 -DRFX_USE_ACCEL_AMD64=1 -Iinclude -Isrc -I"$D" -o "$W/demo" "$D/demo.c" src/*.c src/amd64/*.c "$W"/*.o
"$W/demo" > /dev/null''',
  demo=PRE + ENC + r'''
int cpuid_amd64(int eax, int ecx, int *ax, int *bx, int *cx, int *dx) { *ax = *bx = *cx = 0; *dx = eax == 1 ? 1 << 26 : 0; return 0; }
static unsigned char a[200000], b[200000];
int main(void) { int m, k; static int fs[2] = {RFX_FLAGS_RLGR1, RFX_FLAGS_RLGR3}; for (k = 0; k < 2; k++) { struct rfx_tile t = {0, 0, 64, 64, 0, 0, 0}; int i, n; for (i = 0; i < (int) sizeof(img); i++) img[i] = rnd();
 n = enc1(mk(RFX_FORMAT_BGRA, fs[k]), a, sizeof(a), &t, 1, 0, 0, 0, 512); m = enc1(mk(RFX_FORMAT_BGRA, fs[k] | RFX_FLAGS_NOACCEL), b, sizeof(b), &t, 1, 0, 0, 0, 512);
 CHECK(n > 0 && n == m && memcmp(a, b, n) == 0); } return 0; }
'''),
dict(id="s13-history-alias", property="C15", needs="two progressive tiles whose rows differ by 32 tiles", breaks="tiles 32 rows apart share one history",
  edits=[("src/rfxencode_compose.c", "rb = enc->rbs[xIdx][yIdx];", "rb = enc->rbs[xIdx][yIdx & 31];"), ("src/rfxencode_compose.c", "enc->rbs[xIdx][yIdx] = rb;", "enc->rbs[xIdx][yIdx & 31] = rb;")],
  demo=PRE + r'''
static unsigned char out[200000]; static char *img;
static int go(void *h, struct rfx_tile *t) { struct rfx_rect r = {0, 0, 64, 64}; int n = sizeof(out); int rv = rfxcodec_encode_ex(h, (char *) out, &n, img, 64, 4096, 256, &r, 1, t, 1, 0, 0, 0); return rv == 1 ? n : -1; }
int main(void) { void *h; struct pframe f; struct rfx_tile a = {0, 0, 64, 64, 0, 0, 0}, b = {0, 32 * 64, 64, 64, 0, 0, 0}; int n, i; img = malloc(64 * 64 * 256 + 65536); memset(img, 0, 64 * 64 * 256 + 65536);
 for (i = 0; i < 12288; i++) img[i] = img[i + 32 * 64 * 256] = rnd();
 CHECK(rfxcodec_encode_create_ex(64, 4096, RFX_FORMAT_YUV, RFX_FLAGS_PRO1, &h) == 0);
 n = go(h, &a); CHECK(n > 0);
 n = go(h, &b); CHECK(n > 0 && parse_pro(out, n, &f) == 0);
 /* nothing was ever sent for this position: the tile must carry its content */
 CHECK(f.t[0].len[0] > 500); return 0; }
'''),
dict(id="s14-coder-room", property="C16", needs="a long unary code near the end of a small buffer", breaks="the combined RLGR1 coder writes past its buffer",
  edits=[("src/rfxencode_diff_rlgr1.c", "cdata_size < llvk / 8", "cdata_size < llvk / 16")],
  demo=PRE + r'''
#include "rfxcommon.h"
#include "rfxencode_diff_rlgr1.h"
static sint16 c[4096]; static unsigned char out[40000];
int main(void) { int s, i; for (s = 0; s < 3000; s++) { for (i = 0; i < 4096; i++) c[i] = i % 7 == 0 ? -30000 : 0; memset(out, 0x5a, sizeof(out)); rfx_encode_diff_rlgr1(c, out, s, 0); for (i = s; i < (int) sizeof(out); i++) CHECK(out[i] == 0x5a); } return 0; }
'''),
dict(id="s15-alpha-run", property="C21", needs="a row of alpha with 48 or more equal differences", breaks="a run of 48 is written with a control byte that means three raw samples",
  edits=[("src/rfxencode_alpha.c", "            if (lreplen > 47)\n            {\n                lreplen = 47;", "            if (lreplen > 48)\n            {\n                lreplen = 48;")],
  demo=PRE + ENC + r'''
static unsigned char a[200000];
int main(void) { int v; for (v = 0; v < 40; v++) { struct rfx_tile t = {0, 0, 64, 64, 0, 0, 0}; unsigned char pl[4096], *p = a, *q, *e; int x, y, n, last, pos; unsigned al, o;
 for (y = 0; y < 64; y++) { int c = rnd() % 4, l = rnd() % 64; for (x = 0; x < 64; x++) { if (x == l) c = rnd(); img[y * 512 + x * 4 + 3] = v % 2 ? c : (v % 4 ? c + x % 2 : 9); } }
 n = enc1(mk(RFX_FORMAT_BGRA, RFX_FLAGS_NOACCEL), a, sizeof(a), &t, 1, 0, 0, RFX_FLAGS_ALPHAV1, 512); CHECK(n > 0);
 while (u16(p) != 0xDDD7) p += u32(p + 2); p += 27; al = u16(p + 19); o = 21 + u16(p + 13) + u16(p + 15) + u16(p + 17); q = p + o; e = q + al;
 if (*q == 0) { CHECK(al == 4098); memcpy(pl, q + 1, 4096); }
 else { CHECK(*q == 0x10); q++; for (pos = 0; pos < 4096;) { int raw, run, c; if (pos % 64 == 0) last = 0; CHECK(q < e); c = *q++; raw = c >> 4; run = c & 15; if (run == 1) { run = raw + 16; raw = 0; } else if (run == 2) { run = raw + 32; raw = 0; }
   CHECK(pos % 64 + raw + run <= 64 && raw + run > 0); while (raw--) { CHECK(q < e); last = pl[pos++] = *q++; } while (run--) pl[pos++] = last; }
   CHECK(q == e); for (pos = 64; pos < 4096; pos++) { int z = pl[pos]; pl[pos] = pl[pos - 64] + (z & 1 ? ~(z >> 1) : z >> 1); } }
 for (y = 0; y < 64; y++) for (x = 0; x < 64; x++) CHECK(pl[y * 64 + x] == (unsigned char) img[y * 512 + x * 4 + 3]); }
 return 0; }
'''),
dict(id="s16-format-range", property="C23", needs="a format value of 5, 6 or 7", breaks="creation succeeds for formats that do not exist",
  edits=[("src/rfxencode.c", "        default:\n            free(enc);\n            return 2;", "        default:\n            if ((format > 0) && (format < 8))\n            {\n                enc->bits_per_pixel = 32;\n                break;\n            }\n            free(enc);\n            return 2;")],
  demo=PRE + r'''
int main(void) { int f; for (f = -3; f < 40; f++) { void *h = (void *) 1; int rv = rfxcodec_encode_create_ex(64, 64, f, 0, &h); if (f >= 0 && f <= 4) { CHECK(rv == 0); rfxcodec_encode_destroy(h); } else CHECK(rv != 0 && h == (void *) 1); } return 0; }
'''),
dict(id="s17-shared-frame-index", property="C03", needs="two handles used alternately", breaks="all handles count their frames with one counter",
  edits=[("src/rfxencode_compose.c", "    stream_write_uint32(s, enc->frame_idx); /* frameIdx */", "    static int frame_no = 0;\n    if (enc->frame_idx == 0)\n    {\n        frame_no = 0;\n    }\n    stream_write_uint32(s, frame_no++); /* frameIdx */")],
  demo=PRE + ENC + r'''
static unsigned char a[200000];
int main(void) { void *h = mk(RFX_FORMAT_BGRA, RFX_FLAGS_NOACCEL), *g = mk(RFX_FORMAT_BGRA, RFX_FLAGS_NOACCEL); struct pframe f; struct rfx_tile t = {0, 0, 64, 64, 0, 0, 0}; int i, n;
 for (i = 0; i < 4; i++) { n = enc1(h, a, sizeof(a), &t, 1, 0, 0, 0, 512); CHECK(n > 0 && parse_plain(a, n, &f, 0) == 0 && f.idx == (unsigned) i); if (i < 3) { n = enc1(g, a, sizeof(a), &t, 1, 0, 0, 0, 512); CHECK(n > 0 && parse_plain(a, n, &f, 0) == 0 && f.idx == (unsigned) i); } }
 return 0; }
'''),
dict(id="s18-cpuid-bit", property="C19", needs="a CPU with SSE3 but without SSE4.1", breaks="the SSE4.1 kernel is chosen on a CPU that only has SSSE3",
  edits=[("src/rfxencode.c", "    if (cx & (1 << 19)) /* SSE 4.1 */", "    if (cx & (1 << 9)) /* SSE 4.1 */")],
  script='''for f in src/amd64/rfx*.asm; do nasm -f elf64 -DASM_ARCH_AMD64 -DPIC -Isrc/ "$f" -o "$W/$(basename "$f").o"; done
gcc -w -g -O1 -DSIMD_USE_ACCEL=1 -DRFX_USE_ACCEL_AMD64=1 -Iinclude -Isrc -I"$D" -o "$W/demo" "$D/demo.c" src/*.c src/amd64/*.c "$W"/*.o
"$W/demo" > /dev/null''',
  demo=PRE + ENC + r'''
#include "rfxcommon.h"
#include "rfxencode.h"
#include "amd64/funcs_amd64.h"
#include "rfxencode_tile.h"
static int bits;
int cpuid_amd64(int eax, int ecx, int *ax, int *bx, int *cx, int *dx) { *ax = *bx = 0; *cx = eax == 1 ? bits : 0; *dx = eax == 1 ? 1 << 26 : 0; return 0; }
int main(void) { int k; for (k = 0; k < 32; k++) { struct rfxencode *a, *b; bits = 0; a = mk(RFX_FORMAT_BGRA, 0); if (k == 19) continue; bits = 1u << k; b = mk(RFX_FORMAT_BGRA, 0); CHECK(a->rfx_encode == b->rfx_encode); } return 0; }
'''),
dict(id="s19-checkpoint", property="C07", needs="a capacity that the tile list does not fit in", breaks="the frame ends inside the header of the tile that did not fit",
  edits=[], demo=""),
]
SEEDS = [s for s in SEEDS if s["edits"]]
