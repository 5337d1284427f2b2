From a94aa6613cd103196c0b6f2feaf3ed75a6e3d959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:59 +0000
Subject: [PATCH 1/7] fix: check the space left before writing the tileset and
 tile headers

rfx_compose_message_tileset() and the four tile composers wrote their
headers without looking at the space left in the output buffer, so a
small output buffer was overrun.
---
 src/rfxencode_compose.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 94236bd..2b9535d 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -228,6 +228,10 @@ rfx_compose_message_tile_yuv(struct rfxencode *enc, STREAM *s,
     int start_pos;
     int end_pos;
 
+    if (stream_get_left(s) < 19)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -275,6 +279,10 @@ rfx_compose_message_tile_yuva(struct rfxencode *enc, STREAM *s,
     int start_pos;
     int end_pos;
 
+    if (stream_get_left(s) < 21)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -320,6 +328,10 @@ rfx_compose_message_tile_rgb(struct rfxencode *enc, STREAM *s,
     int start_pos;
     int end_pos;
 
+    if (stream_get_left(s) < 19)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -366,6 +378,10 @@ rfx_compose_message_tile_argb(struct rfxencode *enc, STREAM *s,
     int end_pos;
 
     LLOGLN(10, ("rfx_compose_message_tile_argb:"));
+    if (stream_get_left(s) < 21)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -438,6 +454,10 @@ rfx_compose_message_tileset(struct rfxencode *enc, STREAM *s,
     }
     numTiles = num_tiles;
     size = 22 + numQuants * 5;
+    if (stream_get_left(s) < size)
+    {
+        return -1;
+    }
     start_pos = stream_get_pos(s);
     if (flags & RFX_FLAGS_ALPHAV1)
     {
@@ -614,6 +634,10 @@ rfx_compose_message_data(struct rfxencode *enc, STREAM *s,
     }
     tiles_written = rfx_compose_message_tileset(enc, s, buf, width, height, stride_bytes,
                    tiles, num_tiles, quants, num_quants, flags);
+    if (tiles_written < 0)
+    {
+        return -1;
+    }
     if (rfx_compose_message_frame_end(enc, s) != 0)
     {
         return -1;
-- 
2.43.0


From d42fc85e38cdedf04fa30868915cce820585861e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:13 +0000
Subject: [PATCH 2/7] fix: count the whole alpha plane and the ALen field in
 alpha tiles

blockLen of an alpha tile left out the two bytes of the ALen field, and
ALen left out the flags byte when the plane was RLE encoded, so the
lengths did not lead to the next tile.
---
 src/rfxencode_alpha.c   | 1 +
 src/rfxencode_compose.c | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rfxencode_alpha.c b/src/rfxencode_alpha.c
index 065a6c7..8a892e0 100644
--- a/src/rfxencode_alpha.c
+++ b/src/rfxencode_alpha.c
@@ -279,6 +279,7 @@ rfx_encode_plane(struct rfxencode *enc, const uint8 *plane, int cx, int cy,
     else
     {
         LLOGLN(10, ("rfx_encode_plane: ok bytes %d", bytes));
+        bytes += 1; /* flags */
     }
     return bytes;
 }
diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 2b9535d..7730a6f 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -303,7 +303,7 @@ rfx_compose_message_tile_yuva(struct rfxencode *enc, STREAM *s,
     }
     end_pos = stream_get_pos(s);
     stream_set_pos(s, start_pos + 2);
-    stream_write_uint32(s, 19 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
+    stream_write_uint32(s, 21 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
     stream_set_pos(s, start_pos + 13);
     stream_write_uint16(s, YLen);
     stream_write_uint16(s, CbLen);
@@ -403,7 +403,7 @@ rfx_compose_message_tile_argb(struct rfxencode *enc, STREAM *s,
     }
     end_pos = stream_get_pos(s);
     stream_set_pos(s, start_pos + 2);
-    stream_write_uint32(s, 19 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
+    stream_write_uint32(s, 21 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
     stream_set_pos(s, start_pos + 13);
     stream_write_uint16(s, YLen);
     stream_write_uint16(s, CbLen);
-- 
2.43.0


From 22110b3490da60a6c5819876454b917c58fa013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:15 +0000
Subject: [PATCH 3/7] fix: refuse tiles whose quantization table does not exist

The non-progressive path used the index unchecked and read outside the
quantization tables; the progressive path cut it down to 8 bits before
the check, and then failed the whole call even when earlier tiles had
already updated the history.  Stop at such a tile, as for a tile that
does not fit.
---
 src/rfxencode_compose.c | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 7730a6f..a300177 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -413,6 +413,20 @@ rfx_compose_message_tile_argb(struct rfxencode *enc, STREAM *s,
     return 0;
 }
 
+/******************************************************************************/
+/* return 0 if the quantization tables the tile uses exist */
+static int
+rfx_check_tile_quants(const struct rfx_tile *tile, int num_quants)
+{
+    if ((tile->quant_y < 0) || (tile->quant_y >= num_quants) ||
+        (tile->quant_cb < 0) || (tile->quant_cb >= num_quants) ||
+        (tile->quant_cr < 0) || (tile->quant_cr >= num_quants))
+    {
+        return 1;
+    }
+    return 0;
+}
+
 /******************************************************************************/
 static int
 rfx_compose_message_tileset(struct rfxencode *enc, STREAM *s,
@@ -490,6 +504,10 @@ rfx_compose_message_tileset(struct rfxencode *enc, STREAM *s,
         {
             for (index = 0; index < numTiles; index++)
             {
+                if (rfx_check_tile_quants(tiles + index, numQuants) != 0)
+                {
+                    break;
+                }
                 x = tiles[index].x;
                 y = tiles[index].y;
                 cx = tiles[index].cx;
@@ -514,6 +532,10 @@ rfx_compose_message_tileset(struct rfxencode *enc, STREAM *s,
         {
             for (index = 0; index < numTiles; index++)
             {
+                if (rfx_check_tile_quants(tiles + index, numQuants) != 0)
+                {
+                    break;
+                }
                 x = tiles[index].x;
                 y = tiles[index].y;
                 cx = tiles[index].cx;
@@ -541,6 +563,10 @@ rfx_compose_message_tileset(struct rfxencode *enc, STREAM *s,
         {
             for (index = 0; index < numTiles; index++)
             {
+                if (rfx_check_tile_quants(tiles + index, numQuants) != 0)
+                {
+                    break;
+                }
                 x = tiles[index].x;
                 y = tiles[index].y;
                 cx = tiles[index].cx;
@@ -565,6 +591,10 @@ rfx_compose_message_tileset(struct rfxencode *enc, STREAM *s,
         {
             for (index = 0; index < numTiles; index++)
             {
+                if (rfx_check_tile_quants(tiles + index, numQuants) != 0)
+                {
+                    break;
+                }
                 x = tiles[index].x;
                 y = tiles[index].y;
                 cx = tiles[index].cx;
@@ -827,16 +857,15 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
         {
             break;
         }
+        if (rfx_check_tile_quants(tiles + index, num_quants) != 0)
+        {
+            break;
+        }
         x = tiles[index].x;
         y = tiles[index].y;
         quantIdxY = tiles[index].quant_y;
         quantIdxCb = tiles[index].quant_cb;
         quantIdxCr = tiles[index].quant_cr;
-        if ((quantIdxY >= num_quants) || (quantIdxCb >= num_quants) ||
-            (quantIdxCr >= num_quants))
-        {
-            return -1;
-        }
         tile_data = buf + (y << 8) * (stride_bytes >> 8) + (x << 8);
         xIdx = x / 64;
         yIdx = y / 64;
-- 
2.43.0


From 1580d12d6de6096dbf59daf41bd3fd635f31d448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:17 +0000
Subject: [PATCH 4/7] fix: make room for the default quantization table in the
 region block

The space check in rfx_pro_compose_message_region() was done before the
default table was chosen, and so left out its 5 bytes.
---
 src/rfxencode_compose.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index a300177..86a48bd 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -821,15 +821,15 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
     sint16 *dwt_buffer_u;
     sint16 *dwt_buffer_v;
 
-    if (stream_get_left(s) < 18 + num_regions * 8 + num_quants * 5)
-    {
-        return -1;
-    }
     if (quants == NULL)
     {
         num_quants = 1;
         quants = (const char *) g_rfx_default_quantization_values;
     }
+    if (stream_get_left(s) < 18 + num_regions * 8 + num_quants * 5)
+    {
+        return -1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, PRO_WBT_REGION);
     stream_seek_uint32(s); /* blockLen, set later */
-- 
2.43.0


From e873b767651846451c2d8cb2102002f93314ed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:32 +0000
Subject: [PATCH 5/7] fix: do not drop tiles that already updated the
 progressive history

A tile outside of the history grid, or a failed allocation, made the
whole call fail after the history of the earlier tiles was updated, so
the history no longer matched what the decoder has seen.  Stop at such
a tile, as for a tile that does not fit.
---
 src/rfxencode_compose.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 86a48bd..bb01025 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -866,13 +866,14 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
         quantIdxY = tiles[index].quant_y;
         quantIdxCb = tiles[index].quant_cb;
         quantIdxCr = tiles[index].quant_cr;
+        if ((x < 0) || (x / 64 >= RFX_MAX_RB_X) ||
+            (y < 0) || (y / 64 >= RFX_MAX_RB_Y))
+        {
+            break;
+        }
         tile_data = buf + (y << 8) * (stride_bytes >> 8) + (x << 8);
         xIdx = x / 64;
         yIdx = y / 64;
-        if ((xIdx >= RFX_MAX_RB_X) || (yIdx >= RFX_MAX_RB_Y))
-        {
-            return -1;
-        }
         tile_start_pos = stream_get_pos(s);
         stream_write_uint16(s, PRO_WBT_TILE_SIMPLE);
         stream_seek_uint32(s); /* set later */
@@ -895,7 +896,7 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
             rb = xnew(struct rfx_rb);
             if (rb == NULL)
             {
-                return -1;
+                break;
             }
             enc->rbs[xIdx][yIdx] = rb;
         }
-- 
2.43.0


From 4eeb8c614cbe62bb74ecee4447641581e2ae764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:51 +0000
Subject: [PATCH 6/7] fix: do not read past the last coefficient in
 rfx_encode_diff_rlgr3

When only one coefficient is left in Golomb-Rice mode the second of the
pair was read from beyond the buffer.  Code it as zero, as
rfx_rlgr3_encode does.
---
 src/rfxencode_diff_rlgr3.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rfxencode_diff_rlgr3.c b/src/rfxencode_diff_rlgr3.c
index 1bb435e..e848890 100644
--- a/src/rfxencode_diff_rlgr3.c
+++ b/src/rfxencode_diff_rlgr3.c
@@ -249,7 +249,14 @@ rfx_encode_diff_rlgr3(sint16 *coef, uint8 *cdata, int cdata_size,
             y = input >> 15;
             twoMs1 = (((input ^ y) - y) << 1) + y;
 
-            GetNextInput;
+            if (coef_size > 0)
+            {
+                GetNextInput;
+            }
+            else
+            {
+                input = 0;
+            }
 
             y = input >> 15;
             twoMs2 = (((input ^ y) - y) << 1) + y;
-- 
2.43.0


From 23e4dfc0a1c8db793d0236b27e0fa097335c7bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:06 +0000
Subject: [PATCH 7/7] fix: a failed encode does not use up the stream header or
 a frame number

header_processed and frame_idx were updated while the frame was being
composed, so when the call failed later on, the header was never sent.
---
 src/rfxencode.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/rfxencode.c b/src/rfxencode.c
index 5e0e59d..807ff67 100644
--- a/src/rfxencode.c
+++ b/src/rfxencode.c
@@ -378,6 +378,8 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
 {
     struct rfxencode *enc;
     int tiles_written;
+    int frame_idx;
+    int header_processed;
     STREAM s;
 
     enc = (struct rfxencode *) handle;
@@ -392,6 +394,8 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
         {
             rfxencode_reset_encoder(handle);
         }
+        frame_idx = enc->frame_idx;
+        header_processed = enc->header_processed;
         /* Only the first frame should send the RemoteFX header */
         if ((enc->frame_idx == 0) && (enc->header_processed == 0))
         {
@@ -406,12 +410,17 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
                                          flags);
         if (tiles_written <= 0)
         {
+            /* nothing is sent, the next frame takes its place */
+            enc->frame_idx = frame_idx;
+            enc->header_processed = header_processed;
             return -1;
         }
         *cdata_bytes = (int) (s.p - s.data);
         return tiles_written;
     }
 
+    frame_idx = enc->frame_idx;
+    header_processed = enc->header_processed;
     /* Only the first frame should send the RemoteFX header */
     if ((enc->frame_idx == 0) && (enc->header_processed == 0))
     {
@@ -424,6 +433,12 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
                                             buf, width, height, stride_bytes,
                                             tiles, num_tiles,
                                             quants, num_quants, flags);
+    if (tiles_written < 0)
+    {
+        /* nothing is sent, the next frame takes its place */
+        enc->frame_idx = frame_idx;
+        enc->header_processed = header_processed;
+    }
     *cdata_bytes = (int) (s.p - s.data);
     return tiles_written;
 }
-- 
2.43.0

