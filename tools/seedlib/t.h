/* helpers for the demonstrations: encode with guards, parse frames */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <rfxcodec_encode.h>
#include <rfxcodec_common.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED %s:%d: %s\n", __FILE__, __LINE__, #c); exit(1); } } while (0)
static unsigned rnd_s = 1;
static unsigned rnd(void) { rnd_s = rnd_s * 1103515245u + 12345u; return rnd_s >> 16; }
static unsigned u16(const unsigned char *p) { return p[0] | p[1] << 8; }
static unsigned u32(const unsigned char *p) { return u16(p) | (unsigned) u16(p + 2) << 16; }
struct ptile { unsigned q[3], x, y, flags, len[4]; const unsigned char *d[4]; unsigned blen; };
struct pframe { int header; unsigned width, height, ctxprop, idx, nrect, nq, ntiles, tsprop; const unsigned char *quants, *rects; struct ptile t[64]; };
/* returns 0 if the bytes are exactly one well-formed plain frame */
static int parse_plain(const unsigned char *p, int n, struct pframe *f, int alpha)
{
    const unsigned char *e = p + n; unsigned i, k; memset(f, 0, sizeof(*f));
    if (e - p >= 47 && u16(p) == 0xCCC0) {
        if (u32(p + 2) != 12 || u32(p + 6) != 0xCACCACCA || u16(p + 10) != 0x0100) return 1;
        p += 12; if (u16(p) != 0xCCC3 || u32(p + 2) != 13) return 2;
        f->ctxprop = u16(p + 11); p += 13;
        if (u16(p) != 0xCCC1 || u32(p + 2) != 10) return 3; p += 10;
        if (u16(p) != 0xCCC2 || u32(p + 2) != 12) return 4; f->width = u16(p + 8); f->height = u16(p + 10); p += 12; f->header = 1;
    }
    if (e - p < 14 || u16(p) != 0xCCC4 || u32(p + 2) != 14) return 5; f->idx = u32(p + 8); p += 14;
    if (e - p < 15 || u16(p) != 0xCCC6) return 6; f->nrect = u16(p + 9); f->rects = p + 11;
    if (u32(p + 2) != 15 + 8 * f->nrect || u32(p + 2) > (unsigned) (e - p)) return 7; p += u32(p + 2);
    if (e - p < 22 || u16(p) != 0xCCC7) return 8;
    { const unsigned char *ts = p, *te = p + u32(p + 2); unsigned size;
      if (te > e) return 9; f->tsprop = u16(p + 12); f->nq = p[14]; if (p[15] != 64) return 10; f->ntiles = u16(p + 16); size = u32(p + 18); f->quants = p + 22; p += 22 + 5 * f->nq;
      if (te - p != size) return 11; if (f->ntiles > 64) return 12;
      for (i = 0; i < f->ntiles; i++) { struct ptile *t = f->t + i; unsigned o;
        if (te - p < 19 || u16(p) != 0xCAC3) return 13; t->blen = u32(p + 2); if (t->blen > (unsigned) (te - p)) return 14;
        t->q[0] = p[6]; t->q[1] = p[7]; t->q[2] = p[8]; t->x = u16(p + 9); t->y = u16(p + 11);
        o = alpha ? 21 : 19; for (k = 0; k < (alpha ? 4u : 3u); k++) { t->len[k] = u16(p + 13 + 2 * k); t->d[k] = p + o; o += t->len[k]; }
        if (o != t->blen) return 15; p += o; }
      if (p != te) return 16; (void) ts; }
    if (e - p != 8 || u16(p) != 0xCCC5 || u32(p + 2) != 8) return 17;
    return 0;
}
static int parse_pro(const unsigned char *p, int n, struct pframe *f)
{
    const unsigned char *e = p + n, *re; unsigned i, k, size; memset(f, 0, sizeof(*f));
    if (e - p >= 22 && u16(p) == 0xCCC0) { if (u32(p + 2) != 12) return 1; p += 12; if (u16(p) != 0xCCC3 || u32(p + 2) != 10) return 2; p += 10; f->header = 1; }
    if (e - p < 12 || u16(p) != 0xCCC1 || u32(p + 2) != 12) return 3; f->idx = u32(p + 6); p += 12;
    if (e - p < 18 || u16(p) != 0xCCC4) return 4; re = p + u32(p + 2); if (re > e) return 5;
    f->nrect = u16(p + 7); f->nq = p[9]; f->ntiles = u16(p + 12); size = u32(p + 14); f->rects = p + 18; f->quants = f->rects + 8 * f->nrect; p = f->quants + 5 * f->nq;
    if (re - p != size || f->ntiles > 64) return 6;
    for (i = 0; i < f->ntiles; i++) { struct ptile *t = f->t + i; unsigned o = 22;
        if (re - p < 22 || u16(p) != 0xCCC5) return 7; t->blen = u32(p + 2); if (t->blen > (unsigned) (re - p)) return 8;
        t->q[0] = p[6]; t->q[1] = p[7]; t->q[2] = p[8]; t->x = u16(p + 9); t->y = u16(p + 11); t->flags = p[13];
        for (k = 0; k < 3; k++) { t->len[k] = u16(p + 14 + 2 * k); t->d[k] = p + o; o += t->len[k]; } if (u16(p + 20) != 0 || o != t->blen) return 9; p += o; }
    if (p != re) return 10;
    if (e - p != 6 || u16(p) != 0xCCC2 || u32(p + 2) != 6) return 11;
    return 0;
}
