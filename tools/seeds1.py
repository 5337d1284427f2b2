PRE = '#include "t.h"\n'
SEEDS = [
dict(id="s01-frame-end-room", property="C01", needs="a capacity that leaves 6 or 7 bytes after the last tile that fits", breaks="the end block is written past the announced capacity",
  edits=[("src/rfxencode_compose.c", """    if (stream_get_left(s) < 8)
    {
        return 1;
    }
    stream_write_uint16(s, WBT_FRAME_END)""", """    if (stream_get_left(s) < 6)
    {
        return 1;
    }
    stream_write_uint16(s, WBT_FRAME_END)""")],
  demo=PRE + r'''
static char img[64 * 64 * 4];
int main(void) { int cap; struct rfx_rect r = {0, 0, 64, 64}; struct rfx_tile t = {0, 0, 64, 64, 0, 0, 0};
 for (cap = 0; cap < 200; cap++) { void *h; unsigned char out[400]; int i, n = cap, rv; memset(out, 0xA5, sizeof(out));
  CHECK(rfxcodec_encode_create_ex(64, 64, RFX_FORMAT_BGRA, RFX_FLAGS_NOACCEL, &h) == 0);
  rv = rfxcodec_encode(h, (char *) out, &n, img, 64, 64, 256, &r, 1, &t, 0, 0, 0);
  for (i = cap; i < 400; i++) CHECK(out[i] == 0xA5);
  (void) rv; rfxcodec_encode_destroy(h); }
 return 0; }
'''),
dict(id="s02-history-corner-leak", property="C18", needs="a progressive tile in the last grid column", breaks="the history of tiles in the last column is never released",
  edits=[("src/rfxencode.c", "jndex < RFX_MAX_RB_X; ++jndex", "jndex < RFX_MAX_RB_X - 1; ++jndex")],
  cflags='-Dcalloc=my_calloc -Dfree=my_free',
  demo=r'''
#include <stdlib.h>
#undef calloc
#undef free
static int live;
void *my_calloc(size_t a, size_t b) { live++; return calloc(a, b); }
void my_free(void *p) { if (p) live--; free(p); }
''' + PRE + r'''
int main(void) { void *h; static char out[65536]; int n = sizeof(out); struct rfx_rect r = {0, 0, 64, 64}; struct rfx_tile t = {0, 63 * 64, 64, 64, 0, 0, 0};
 char *img = malloc(64 * 16384 + 16384); memset(img, 7, 64 * 16384 + 16384);
 CHECK(rfxcodec_encode_create_ex(64, 4096, RFX_FORMAT_YUV, RFX_FLAGS_PRO1, &h) == 0);
 CHECK(rfxcodec_encode_ex(h, out, &n, img, 64, 4096, 256, &r, 1, &t, 1, 0, 0, 0) == 1);
 rfxcodec_encode_destroy(h);
 CHECK(live == 0);
 return 0; }
'''),
dict(id="s03-malloc-handle", property="C25", needs="a heap block with old contents and a reader of a field create does not set", breaks="header_processed and the frame number start with whatever the heap held",
  edits=[("src/rfxencode.c", "enc = (struct rfxencode *) calloc(1, sizeof(struct rfxencode));\n    if (enc == NULL)\n    {\n        return 1;\n    }\n", "enc = (struct rfxencode *) malloc(sizeof(struct rfxencode));\n    if (enc == NULL)\n    {\n        return 1;\n    }\n    memset(enc, 0, sizeof(struct rfxencode) - sizeof(enc->rbs));\n")],
  cflags='-Dmalloc=my_malloc',
  demo=r'''
#include <stdlib.h>
#undef malloc
#include <string.h>
void *my_malloc(size_t n) { void *p = malloc(n); memset(p, 0, n); ((char *) p)[n - 1] = 0; memset((char *) p + n - 64, 0, 64); if (n > 100000) memset((char *) p + n - 4096 * sizeof(void *), 1, 64); return p; }
''' + PRE + r'''
#include "rfxcommon.h"
#include "rfxencode.h"
int main(void) { void *h; struct rfxencode *e; int i, j; CHECK(rfxcodec_encode_create_ex(64, 64, RFX_FORMAT_YUV, RFX_FLAGS_PRO1, &h) == 0); e = h;
 for (i = 0; i < RFX_MAX_RB_X; i++) for (j = 0; j < RFX_MAX_RB_Y; j++) CHECK(e->rbs[i][j] == 0);
 return 0; }
'''),
dict(id="s04-stride-row-read", property="C22", needs="a partial tile narrower than 64 at the right edge of the image", breaks="one pixel beyond the tile's rectangle is read for every row",
  edits=[],
  demo=""),
]
SEEDS = [s for s in SEEDS if s["edits"]]
