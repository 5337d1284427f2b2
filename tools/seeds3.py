PRE = '#include "t.h"\n'
ENC = r'''
static char img[4 * 128 * 128];
static int enc1(void *h, unsigned char *out, int cap, struct rfx_tile *t, int nt, char *q, int nq, int flags, int stride) { struct rfx_rect r = {0, 0, 64, 64}; int n = cap; int rv = rfxcodec_encode_ex(h, (char *) out, &n, img, 128, 128, stride, &r, 1, t, nt, q, nq, flags); return rv < 0 ? -1 : n; }
static void *mk(int fmt, int flags) { void *h; CHECK(rfxcodec_encode_create_ex(128, 128, fmt, flags, &h) == 0); return h; }
'''
# two builds whose output has to be the same: this machine, and one with other predefined macros and char signedness
TWICE = '''cat > "$W/other.h" <<'H'
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#undef __x86_64__
#undef __AMD64__
#undef __x86__
#undef __i386__
H
gcc -w -O1 -fsigned-char -Iinclude -Isrc -I"$D" -o "$W/a" "$D/demo.c" src/*.c
gcc -w -O1 -funsigned-char -include "$W/other.h" -Iinclude -Isrc -I"$D" -o "$W/b" "$D/demo.c" src/*.c
"$W/a" > "$W/a.out"; "$W/b" > "$W/b.out"; test -s "$W/a.out"; cmp -s "$W/a.out" "$W/b.out"'''
DUMP = PRE + ENC + r'''
static unsigned char out[400000];
int main(void) { struct rfx_tile t[4] = {{0, 0, 64, 64, 0, 1, 2}, {64, 0, 64, 64, 1, 2, 0}, {0, 64, 64, 64, 2, 0, 1}, {64, 64, 64, 64, 0, 0, 0}}; int i, k, n; char q[15] = {0x66,0x66,0x77,(char) 0x88,(char) 0x98, 0x77,0x66,0x77,0x77,0x77, (char) 0x99,(char) 0xa9,(char) 0x99,(char) 0xc9,(char) 0x99};
 for (k = 0; k < 4; k++) { void *h = mk(k < 3 ? RFX_FORMAT_BGRA : RFX_FORMAT_YUV, k == 0 ? RFX_FLAGS_NOACCEL : k == 1 ? RFX_FLAGS_RLGR1 | RFX_FLAGS_NOACCEL : k == 2 ? RFX_FLAGS_NOACCEL : RFX_FLAGS_PRO1);
  for (i = 0; i < (int) sizeof(img); i++) img[i] = i % 4 == 3 && i % 512 > 100 ? (i >> 9) * 3 : rnd();
  n = enc1(h, out, sizeof(out), t, 4, q, 3, k == 2 ? RFX_FLAGS_ALPHAV1 : 0, 512); CHECK(n > 0); fwrite(out, 1, n, stdout);
  t[1].cx = 21; t[2].cy = 40; if (k < 3) { n = enc1(h, out, sizeof(out), t, 4, q, 3, k == 2 ? RFX_FLAGS_ALPHAV1 : 0, 512); CHECK(n > 0); fwrite(out, 1, n, stdout); } t[1].cx = t[2].cy = 64; }
 return 0; }
'''
SEEDS = [
dict(id="s19-other-u32", property="C20", needs="a build for a machine that is not x86 and a frame or block longer than 65535 bytes", breaks="the third byte of 32-bit fields is wrong on every machine but x86",
  edits=[("src/rfxcommon.h", "((uint8 *) ((_s)->p))[2] = (uint8) ((_v) >> 16);", "((uint8 *) ((_s)->p))[2] = (uint8) ((_v) >> 24);")], script=TWICE, demo=DUMP),
dict(id="s20-char-sign", property="C20", needs="an alpha plane, on a machine whose plain char is unsigned", breaks="falling alpha values are coded as rising ones where char is unsigned",
  edits=[("src/rfxencode_alpha.c", "            if (delta & 0x80)\n            {\n                delta = (((~delta) + 1) << 1) - 1;\n            }\n            else\n            {\n                delta = delta << 1;\n            }\n            dst8[cx] = delta;\n            src8++;", "            if (delta < 0)\n            {\n                delta = (((~delta) + 1) << 1) - 1;\n            }\n            else\n            {\n                delta = delta << 1;\n            }\n            dst8[cx] = delta;\n            src8++;")], script=TWICE, demo=DUMP),
dict(id="s21-tiles-returned", property="C07", needs="an alpha frame whose last tiles do not fit", breaks="the value returned is the number of tiles asked for although fewer were delivered",
  edits=[("src/rfxencode_compose.c", "    stream_write_uint32(s, tilesDataSize);\n    stream_set_pos(s, end_pos);\n    return tiles_written;", "    stream_write_uint32(s, tilesDataSize);\n    stream_set_pos(s, end_pos);\n    if (flags & RFX_FLAGS_ALPHAV1)\n    {\n        return numTiles;\n    }\n    return tiles_written;")],
  demo=PRE + ENC + r'''
static unsigned char out[400000];
int main(void) { struct rfx_tile t[4] = {{0, 0, 64, 64, 0, 0, 0}, {64, 0, 64, 64, 0, 0, 0}, {0, 64, 64, 64, 0, 0, 0}, {64, 64, 64, 64, 0, 0, 0}}; struct rfx_rect r = {0, 0, 128, 128}; int i, n, fl, rv;
 for (i = 0; i < (int) sizeof(img); i++) img[i] = rnd();
 for (fl = 0; fl < 2; fl++) { void *h = mk(RFX_FORMAT_BGRA, RFX_FLAGS_NOACCEL); unsigned char *p = out; n = 44000; rv = rfxcodec_encode_ex(h, (char *) out, &n, img, 128, 128, 512, &r, 1, t, 4, 0, 0, fl ? RFX_FLAGS_ALPHAV1 : 0); CHECK(rv >= 0);
  while (p < out + n && u16(p) != 0xCCC7 && u16(p) != 0xDDD7) p += u32(p + 2); CHECK(p < out + n); CHECK((int) u16(p + 16) == rv && rv < 4); }
 return 0; }
'''),
dict(id="s22-rem-bands", property="C14", needs="a progressive frame whose table has different values for the two level-3 edge bands", breaks="HL3 and LH3 of a progressive tile are quantised with each other's value",
  edits=[("src/rfxencode_dwt_shift_rem.c", "SETUPHIQ(1, 0); /* HL3 */", "SETUPHIQ(0, 4); /* HL3 */"), ("src/rfxencode_dwt_shift_rem.c", "SETUPLOQ(0, 4); /* LH3 */", "SETUPLOQ(1, 0); /* LH3 */")],
  demo=PRE + ENC + r'''
/* a picture that varies in one direction only has nothing in one of the two bands: that band's value must not matter, the other's must */
static unsigned char a[100000], b[100000];
static int same(char *q, char *p) { struct rfx_tile t = {0, 0, 64, 64, 0, 0, 0}; int n = enc1(mk(RFX_FORMAT_YUV, RFX_FLAGS_PRO1), a, sizeof(a), &t, 1, q, 1, 0, 256), m = enc1(mk(RFX_FORMAT_YUV, RFX_FLAGS_PRO1), b, sizeof(b), &t, 1, p, 1, 0, 256); struct pframe f, g; int k;
 CHECK(n > 0 && m > 0 && parse_pro(a, n, &f) == 0 && parse_pro(b, m, &g) == 0); for (k = 0; k < 3; k++) if (f.t[0].len[k] != g.t[0].len[k] || memcmp(f.t[0].d[k], g.t[0].d[k], f.t[0].len[k])) return 0; return 1; }
int main(void) { int i; char q[5] = {0x66,0x66,0x66,0x66,0x66}, hl[5] = {0x66,0x6a,0x66,0x66,0x66}, lh[5] = {(char) 0xa6,0x66,0x66,0x66,0x66};
 for (i = 0; i < 12288; i++) img[i] = i < 4096 ? ((i / 64) * 37 + (i / 64) * (i / 64) * 5) & 255 : 128; /* varies downwards */
 CHECK(same(q, hl)); CHECK(!same(q, lh));
 for (i = 0; i < 4096; i++) img[i] = ((i % 64) * 37 + (i % 64) * (i % 64) * 5) & 255;
 CHECK(!same(q, hl)); CHECK(same(q, lh)); return 0; }
'''),
dict(id="s23-four-bytes", property="C22", needs="a BGR image whose last pixel ends the caller's buffer", breaks="one byte beyond the last pixel of a BGR row is read",
  edits=[("src/rfxencode_rgb_to_yuv.c", "                    b = *src++;\n                    *lb_buf++ = b;\n                    g = *src++;\n                    *lg_buf++ = g;\n                    r = *src++;\n                    *lr_buf++ = r;\n                }\n", "                    uint8 px[4];\n                    memcpy(px, src, 4);\n                    src += 3;\n                    b = px[0];\n                    *lb_buf++ = b;\n                    g = px[1];\n                    *lg_buf++ = g;\n                    r = px[2];\n                    *lr_buf++ = r;\n                }\n")],
  nth={"                    b = *src++;\n                    *lb_buf++ = b;\n                    g = *src++;\n                    *lg_buf++ = g;\n                    r = *src++;\n                    *lr_buf++ = r;\n                }\n": 0},
  demo=PRE + r'''
#include <sys/mman.h>
static unsigned char out[100000];
int main(void) { void *h; int n = sizeof(out); struct rfx_rect r = {0, 0, 64, 64}; struct rfx_tile t = {0, 0, 64, 64, 0, 0, 0}; char *m = mmap(0, 8 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
 CHECK(m != MAP_FAILED); CHECK(mprotect(m + 4 * 4096, 4 * 4096, PROT_NONE) == 0); m += 4096;
 CHECK(rfxcodec_encode_create_ex(64, 64, RFX_FORMAT_BGR, RFX_FLAGS_NOACCEL, &h) == 0);
 CHECK(rfxcodec_encode(h, (char *) out, &n, m, 64, 64, 192, &r, 1, &t, 1, 0, 0) == 1); return 0; }
'''),
dict(id="s24-history-size", property="C02", needs="a progressive tile", breaks="storing a tile's history writes beyond its heap block",
  edits=[("src/rfxencode_compose.c", "memcpy(rb->v, enc->dwt_buffer3, 64 * 64 * 2);", "memcpy(rb->v, enc->dwt_buffer3, sizeof(enc->dwt_buffer3_a) + 32);")],
  demo=PRE + ENC + r'''
#include <malloc.h>
static unsigned char out[100000];
int main(void) { struct rfx_tile t = {0, 0, 64, 64, 0, 0, 0}; void *h = mk(RFX_FORMAT_YUV, RFX_FLAGS_PRO1); CHECK(enc1(h, out, sizeof(out), &t, 1, 0, 0, 0, 256) > 0); return 0; }
''', script='gcc -w -g -O1 -fsanitize=address -Iinclude -Isrc -I"$D" -o "$W/demo" "$D/demo.c" src/*.c\nASAN_OPTIONS=detect_leaks=0 "$W/demo" > /dev/null 2>&1'),
dict(id="s25-chroma-end", property="C11", needs="a pixel at the lowest end of the Cb range (saturated yellow)", breaks="Cb 0 is sent as 1",
  edits=[("src/rfxencode_rgb_to_yuv.c", "u_g_buf[i] = MINMAX(u + 128, 0, 255);", "u_g_buf[i] = MINMAX(u, -127, 127) + 128;")],
  demo=PRE + ENC + r'''
static unsigned char a[100000], b[100000];
/* a flat yellow tile is the flat planar tile with the values the colour transform gives */
int main(void) { struct rfx_tile t = {0, 0, 64, 64, 0, 0, 0}; struct pframe f, g; int i, n, m, k, c; static const int col[3][3] = {{0, 255, 255}, {255, 255, 0}, {0, 0, 255}};
 for (c = 0; c < 3; c++) { int B = col[c][0], G = col[c][1], R = col[c][2]; int y = (R * 19595 + G * 38470 + B * 7471) >> 16, u = (R * -11071 + G * -21736 + B * 32807) >> 16, v = (R * 32756 + G * -27429 + B * -5327) >> 16; char q[5] = {0x66,0x66,0x66,0x66,0x66};
  for (i = 0; i < 4096 * 4; i += 4) { img[i] = B; img[i + 1] = G; img[i + 2] = R; img[i + 3] = 0; }
  n = enc1(mk(RFX_FORMAT_BGRA, RFX_FLAGS_NOACCEL), a, sizeof(a), &t, 1, q, 1, 0, 256);
  for (i = 0; i < 4096; i++) { img[i] = y; img[4096 + i] = u + 128; img[8192 + i] = v + 128; }
  m = enc1(mk(RFX_FORMAT_YUV, RFX_FLAGS_NOACCEL), b, sizeof(b), &t, 1, q, 1, 0, 256);
  CHECK(n > 0 && m > 0 && parse_plain(a, n, &f, 0) == 0 && parse_plain(b, m, &g, 0) == 0);
  for (k = 0; k < 3; k++) CHECK(f.t[0].len[k] == g.t[0].len[k] && memcmp(f.t[0].d[k], g.t[0].d[k], f.t[0].len[k]) == 0); }
 return 0; }
'''),
]
