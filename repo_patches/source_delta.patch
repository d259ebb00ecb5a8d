From 81092dfc1c6b31a8b4927d7e4a4b6aa91c965877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 01/26] fix: mbus_frame_verify reported valid acknowledge
 frames as invalid and vice versa

---
 mbus/mbus-protocol.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 697d1a8..a5bf68a 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -352,7 +352,14 @@ mbus_frame_verify(mbus_frame *frame)
         switch (frame->type)
         {
             case MBUS_FRAME_TYPE_ACK:
-                return frame->start1 == MBUS_FRAME_ACK_START;
+                if (frame->start1 != MBUS_FRAME_ACK_START)
+                {
+                    snprintf(error_str, sizeof(error_str), "No frame start");
+
+                    return -1;
+                }
+
+                return 0;
 
             case MBUS_FRAME_TYPE_SHORT:
                 if(frame->start1 != MBUS_FRAME_SHORT_START)
-- 
2.43.0


From 4297d46bbb36318ec210cef6eb2aa20586b1f25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 02/26] fix: mbus_data_bcd_encode wrote the bytes in the
 opposite order of mbus_data_bcd_decode and put the sign into the wrong digit

---
 mbus/mbus-protocol.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index a5bf68a..301124c 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -465,23 +465,23 @@ mbus_frame_verify(mbus_frame *frame)
 int
 mbus_data_bcd_encode(unsigned char *bcd_data, size_t bcd_data_size, int value)
 {
-    int v0, v1, v2, x1, x2;
+    unsigned int v0, v1, v2, x1, x2;
     size_t i;
 
     if (bcd_data && bcd_data_size)
     {
-        v2 = abs(value);
+        v2 = (value < 0) ? 0u - (unsigned int) value : (unsigned int) value;
 
         for (i = 0; i < bcd_data_size; i++)
         {
             v0 = v2;
-            v1 = (int)(v0 / 10);
-            v2 = (int)(v1 / 10);
+            v1 = v0 / 10;
+            v2 = v1 / 10;
 
             x1 = v0 - v1 * 10;
             x2 = v1 - v2 * 10;
 
-            bcd_data[bcd_data_size-1-i] = (x2 << 4) | x1;
+            bcd_data[i] = (x2 << 4) | x1;
         }
 
         if (value < 0)
-- 
2.43.0


From 19f887a69933e93397cc32f98531ddb50f3b945c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 03/26] fix: mbus_data_bcd_decode read the byte before an empty
 buffer

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 301124c..88e51e7 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -521,7 +521,7 @@ mbus_data_bcd_decode(unsigned char *bcd_data, size_t bcd_data_size)
         }
 
         // hex code Fh in the MSD position signals a negative BCD number
-        if (bcd_data[bcd_data_size-1]>>4 == 0xF)
+        if (bcd_data_size > 0 && bcd_data[bcd_data_size-1]>>4 == 0xF)
         {
             val *= -1;
         }
-- 
2.43.0


From a88e5cb8fce8b338de139a22786fbcd7a3a78fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 04/26] fix: mbus_hex2bin accepted signs, blanks and other
 characters inside a hex pair

---
 mbus/mbus-protocol-aux.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index ccf4798..b4924d8 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2559,6 +2559,10 @@ mbus_hex2bin(unsigned char * dst, size_t dst_len, const unsigned char * src, siz
         if (isspace(src[i]))
             continue;
 
+        // abort at non hex value
+        if (!isxdigit(src[i]) || !isxdigit(src[i+1]))
+            break;
+
         buf[0] = src[i];
         buf[1] = src[++i];
 
-- 
2.43.0


From 38d59b5bc8a09d0aad34f7582608763b38fe8394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 05/26] fix: storage numbers of records with eight or more
 DIFEs were shifted out of an int

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 88e51e7..b13d84b 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3472,7 +3472,7 @@ long mbus_data_record_storage_number(mbus_data_record *record)
 
         for (i=0; i<record->drh.dib.ndife; i++)
         {
-            result |= (record->drh.dib.dife[i] & MBUS_DATA_RECORD_DIFE_MASK_STORAGE_NO) << bit_index;
+            result |= (long) (record->drh.dib.dife[i] & MBUS_DATA_RECORD_DIFE_MASK_STORAGE_NO) << bit_index;
             bit_index += 4;
         }
 
-- 
2.43.0


From 04644c91da94df2ba4b2be33aa591b2ab4ed6b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:30 +0000
Subject: [PATCH 06/26] fix: packing or verifying a long frame with more data
 than a frame holds read beyond its data

---
 mbus/mbus-protocol.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index b13d84b..97780fb 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -247,6 +247,11 @@ mbus_frame_calc_checksum(mbus_frame *frame)
 {
     if (frame)
     {
+        if (frame->type == MBUS_FRAME_TYPE_LONG && frame->data_size > MBUS_FRAME_DATA_LENGTH)
+        {
+            return -1;
+        }
+
         switch (frame->type)
         {
             case MBUS_FRAME_TYPE_ACK:
@@ -404,6 +409,13 @@ mbus_frame_verify(mbus_frame *frame)
                     return -1;
                 }
 
+                if (frame->type == MBUS_FRAME_TYPE_LONG && frame->data_size > MBUS_FRAME_DATA_LENGTH)
+                {
+                    snprintf(error_str, sizeof(error_str), "Frame data too long");
+
+                    return -1;
+                }
+
                 if (frame->length1 != frame->length2)
                 {
                     snprintf(error_str, sizeof(error_str), "Frame length 1 != 2");
-- 
2.43.0


From d7ebdf8f199027df7a9ed2d6da8d1c813f36a6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 07/26] fix: a plain-text VIF of 128 characters was terminated
 outside its buffer

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 97780fb..9fb7cba 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3928,7 +3928,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                 // variable length VIF in ASCII format
                 int var_vif_len;
                 var_vif_len = frame->data[i++];
-                if (var_vif_len > MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE)
+                if (var_vif_len >= MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE)
                 {
                     mbus_data_record_free(record);
                     snprintf(error_str, sizeof(error_str), "Too long variable length VIF.");
-- 
2.43.0


From 2201e3e2188a91a73cc0697ea939a66c8daf9fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 08/26] fix: manufacturer specific data of a long telegram
 overran the data of its record

---
 mbus/mbus-protocol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.h b/mbus/mbus-protocol.h
index 5933381..432525a 100755
--- a/mbus/mbus-protocol.h
+++ b/mbus/mbus-protocol.h
@@ -168,7 +168,7 @@ typedef struct _mbus_data_record {
 
     mbus_data_record_header drh;
 
-    unsigned char data[234];
+    unsigned char data[240];
     size_t data_len;
 
     time_t timestamp;
-- 
2.43.0


From 700f36ede4bee1f0b939ce3c5098a6be679984ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:36 +0000
Subject: [PATCH 09/26] fix: variable data parser read beyond the payload of a
 record cut short

---
 mbus/mbus-protocol.c | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 9fb7cba..8e34ce0 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3903,6 +3903,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                     return -1;
                 }
 
+                if (i + 1 >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at DIF.");
+                    return -1;
+                }
+
                 dife = frame->data[i+1];
                 record->drh.dib.dife[record->drh.dib.ndife] = dife;
 
@@ -3911,7 +3918,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             }
             i++;
 
-            if (i > frame->data_size)
+            if (i >= frame->data_size)
             {
                 mbus_data_record_free(record);
                 snprintf(error_str, sizeof(error_str), "Premature end of record at DIF.");
@@ -3927,6 +3934,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             {
                 // variable length VIF in ASCII format
                 int var_vif_len;
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at variable length VIF.");
+                    return -1;
+                }
+
                 var_vif_len = frame->data[i++];
                 if (var_vif_len >= MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE)
                 {
@@ -3950,6 +3964,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
 
             if (record->drh.vib.vif & MBUS_DIB_VIF_EXTENSION_BIT)
             {
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at VIF.");
+                    return -1;
+                }
+
                 record->drh.vib.vife[0] = frame->data[i];
                 record->drh.vib.nvife++;
 
@@ -3965,6 +3986,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                         return -1;
                     }
 
+                    if (i + 1 >= frame->data_size)
+                    {
+                        mbus_data_record_free(record);
+                        snprintf(error_str, sizeof(error_str), "Premature end of record at VIF.");
+                        return -1;
+                    }
+
                     vife = frame->data[i+1];
                     record->drh.vib.vife[record->drh.vib.nvife] = vife;
 
@@ -3984,6 +4012,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             // re-calculate data length, if of variable length type
             if ((record->drh.dib.dif & MBUS_DATA_RECORD_DIF_MASK_DATA) == 0x0D) // flag for variable length data
             {
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at data.");
+                    return -1;
+                }
+
                 if(frame->data[i] <= 0xBF)
                     record->data_len = frame->data[i];
                 else if(frame->data[i] >= 0xC0 && frame->data[i] <= 0xC9)
-- 
2.43.0


From 8b133b65a7f24d930519292f12eaead354440b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 10/26] fix: FBh VIF table: unit of the energy and power codes,
 scale of 79h

---
 mbus/mbus-protocol-aux.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index b4924d8..6a3e85c 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -491,8 +491,8 @@ mbus_variable_vif vif_table[] = {
     { 0x207, 1.0e0,  "Reserved", "Reserved" },
 
     /* E000 100n Energy 10(n-1) GJ 0.1GJ to 1GJ */
-    { 0x208, 1.0e8,  "Reserved", "Energy" },
-    { 0x209, 1.0e9,  "Reserved", "Energy" },
+    { 0x208, 1.0e8,  "J", "Energy" },
+    { 0x209, 1.0e9,  "J", "Energy" },
 
     /* E000 101n Reserved */
     { 0x20A, 1.0e0,  "Reserved", "Reserved" },
@@ -565,8 +565,8 @@ mbus_variable_vif vif_table[] = {
     { 0x22F, 1.0e0, "Reserved", "Reserved" },
 
     /* E011 000n Power 10(n-1) GJ/h 0.1GJ/h to 1GJ/h */
-    { 0x230, 1.0e8, "J", "Power" },
-    { 0x231, 1.0e9, "J", "Power" },
+    { 0x230, 1.0e8, "J/h", "Power" },
+    { 0x231, 1.0e9, "J/h", "Power" },
 
     /* E011 0010 to E101 0111 Reserved */
     { 0x232, 1.0e0, "Reserved", "Reserved" },
@@ -656,7 +656,7 @@ mbus_variable_vif vif_table[] = {
 
     /* E111 1nnn cumul. count max power § 10(nnn-3) W 0.001W to 10000W */
     { 0x278, 1.0e-3, "W", "Cumul count max power" },
-    { 0x279, 1.0e-3, "W", "Cumul count max power" },
+    { 0x279, 1.0e-2, "W", "Cumul count max power" },
     { 0x27A, 1.0e-1, "W", "Cumul count max power" },
     { 0x27B, 1.0e0,  "W", "Cumul count max power" },
     { 0x27C, 1.0e1,  "W", "Cumul count max power" },
-- 
2.43.0


From 4157dfaa54f53ecb49c9992bedf78f8b6907b80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 11/26] fix: fixed data: factors of the W units, missing m^3/h
 unit, quantity of J/h

---
 mbus/mbus-protocol-aux.c | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 6a3e85c..1f5df73 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -692,24 +692,24 @@ mbus_variable_vif fixed_table[] = {
     { 0x13, 1.0e11,"J", "Energy" },
 
     { 0x14, 1.0e0, "W", "Power" },
-    { 0x15, 1.0e0, "W", "Power" },
-    { 0x16, 1.0e0, "W", "Power" },
-    { 0x17, 1.0e0, "W", "Power" },
-    { 0x18, 1.0e0, "W", "Power" },
-    { 0x19, 1.0e0, "W", "Power" },
-    { 0x1A, 1.0e0, "W", "Power" },
-    { 0x1B, 1.0e0, "W", "Power" },
-    { 0x1C, 1.0e0, "W", "Power" },
-
-    { 0x1D, 1.0e3, "J/h", "Energy" },
-    { 0x1E, 1.0e4, "J/h", "Energy" },
-    { 0x1F, 1.0e5, "J/h", "Energy" },
-    { 0x20, 1.0e6, "J/h", "Energy" },
-    { 0x21, 1.0e7, "J/h", "Energy" },
-    { 0x22, 1.0e8, "J/h", "Energy" },
-    { 0x23, 1.0e9, "J/h", "Energy" },
-    { 0x24, 1.0e10,"J/h", "Energy" },
-    { 0x25, 1.0e11,"J/h", "Energy" },
+    { 0x15, 1.0e1, "W", "Power" },
+    { 0x16, 1.0e2, "W", "Power" },
+    { 0x17, 1.0e3, "W", "Power" },
+    { 0x18, 1.0e4, "W", "Power" },
+    { 0x19, 1.0e5, "W", "Power" },
+    { 0x1A, 1.0e6, "W", "Power" },
+    { 0x1B, 1.0e7, "W", "Power" },
+    { 0x1C, 1.0e8, "W", "Power" },
+
+    { 0x1D, 1.0e3, "J/h", "Power" },
+    { 0x1E, 1.0e4, "J/h", "Power" },
+    { 0x1F, 1.0e5, "J/h", "Power" },
+    { 0x20, 1.0e6, "J/h", "Power" },
+    { 0x21, 1.0e7, "J/h", "Power" },
+    { 0x22, 1.0e8, "J/h", "Power" },
+    { 0x23, 1.0e9, "J/h", "Power" },
+    { 0x24, 1.0e10,"J/h", "Power" },
+    { 0x25, 1.0e11,"J/h", "Power" },
 
     { 0x26, 1.0e-6,"m^3", "Volume" },
     { 0x27, 1.0e-5,"m^3", "Volume" },
@@ -721,7 +721,8 @@ mbus_variable_vif fixed_table[] = {
     { 0x2D, 1.0e1, "m^3", "Volume" },
     { 0x2E, 1.0e2, "m^3", "Volume" },
 
-    { 0x2F, 1.0e-5,"m^3/h", "Volume flow" },
+    { 0x2F, 1.0e-6,"m^3/h", "Volume flow" },
+    { 0x30, 1.0e-5,"m^3/h", "Volume flow" },
     { 0x31, 1.0e-4,"m^3/h", "Volume flow" },
     { 0x32, 1.0e-3,"m^3/h", "Volume flow" },
     { 0x33, 1.0e-2,"m^3/h", "Volume flow" },
-- 
2.43.0


From 348d658933e94391ed32c74ba26410e53be60ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 12/26] fix: fixed data: texts of the units 0Dh and 0Eh were
 swapped

---
 mbus/mbus-protocol.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 8e34ce0..69f5b7f 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -1574,10 +1574,10 @@ mbus_data_fixed_unit(int medium_unit_byte)
         case 0x0C:
             snprintf(buff, sizeof(buff), "10 kJ");
             break;
-        case 0x0E:
+        case 0x0D:
             snprintf(buff, sizeof(buff), "100 kJ");
             break;
-        case 0x0D:
+        case 0x0E:
             snprintf(buff, sizeof(buff), "MJ");
             break;
         case 0x0F:
-- 
2.43.0


From c8559023915b1b8d47b36a76bfed6b006bd0644d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:27 +0000
Subject: [PATCH 13/26] fix: sending a frame that cannot be packed wrote memory
 beyond the packet buffer

---
 mbus/mbus-serial.c | 2 +-
 mbus/mbus-tcp.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-serial.c b/mbus/mbus-serial.c
index 5a2a3f3..64b662e 100755
--- a/mbus/mbus-serial.c
+++ b/mbus/mbus-serial.c
@@ -242,7 +242,7 @@ mbus_serial_send_frame(mbus_handle *handle, mbus_frame *frame)
         return -1;
     }
 
-    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) == -1)
+    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) < 0)
     {
         fprintf(stderr, "%s: mbus_frame_pack failed\n", __PRETTY_FUNCTION__);
         return -1;
diff --git a/mbus/mbus-tcp.c b/mbus/mbus-tcp.c
index da7e475..bfc84b8 100755
--- a/mbus/mbus-tcp.c
+++ b/mbus/mbus-tcp.c
@@ -159,7 +159,7 @@ mbus_tcp_send_frame(mbus_handle *handle, mbus_frame *frame)
         return -1;
     }
 
-    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) == -1)
+    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) < 0)
     {
         snprintf(error_str, sizeof(error_str), "%s: mbus_frame_pack failed\n", __PRETTY_FUNCTION__);
         mbus_error_str_set(error_str);
-- 
2.43.0


From 8e6d15e0c8ad988679631d3e902022dcaf414233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:27 +0000
Subject: [PATCH 14/26] fix: sending without a handle was reported as success

---
 mbus/mbus-protocol-aux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 1f5df73..ae72110 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1739,7 +1739,7 @@ mbus_send_frame(mbus_handle * handle, mbus_frame *frame)
     if (handle == NULL)
     {
         MBUS_ERROR("%s: Invalid M-Bus handle for send.\n", __PRETTY_FUNCTION__);
-        return 0;
+        return -1;
     }
 
     return handle->send(handle, frame);
-- 
2.43.0


From 24be45d286bb9c045e5fa965064c6f0bb819311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:27 +0000
Subject: [PATCH 15/26] fix: mbus_serial_connect ignored that the line could
 not be configured

---
 mbus/mbus-serial.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-serial.c b/mbus/mbus-serial.c
index 64b662e..4061dcf 100755
--- a/mbus/mbus-serial.c
+++ b/mbus/mbus-serial.c
@@ -90,7 +90,13 @@ mbus_serial_connect(mbus_handle *handle)
     printf("%s: t.c_lflag = %x\n", __PRETTY_FUNCTION__, term->c_lflag);
 #endif
 
-    tcsetattr(handle->fd, TCSANOW, term);
+    if (tcsetattr(handle->fd, TCSANOW, term) != 0)
+    {
+        fprintf(stderr, "%s: failed to configure tty.", __PRETTY_FUNCTION__);
+        close(handle->fd);
+        handle->fd = -1;
+        return -1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 03d9ba75f2efeefd5842a1332bfcff15f0271a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:27 +0000
Subject: [PATCH 16/26] fix: handles that are not connected referred to
 descriptors they do not own

---
 mbus/mbus-protocol-aux.c | 2 ++
 mbus/mbus-tcp.c          | 1 +
 2 files changed, 3 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index ae72110..be211f8 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1523,6 +1523,7 @@ mbus_context_serial(const char *device)
         return NULL;
     }
 
+    handle->fd = -1;
     handle->max_data_retry = 3;
     handle->max_search_retry = 1;
     handle->is_serial = 1;
@@ -1571,6 +1572,7 @@ mbus_context_tcp(const char *host, uint16_t port)
         return NULL;
     }
 
+    handle->fd = -1;
     handle->max_data_retry = 3;
     handle->max_search_retry = 1;
     handle->is_serial = 0;
diff --git a/mbus/mbus-tcp.c b/mbus/mbus-tcp.c
index bfc84b8..c6473c4 100755
--- a/mbus/mbus-tcp.c
+++ b/mbus/mbus-tcp.c
@@ -74,6 +74,7 @@ mbus_tcp_connect(mbus_handle *handle)
         if (connect(handle->fd, p->ai_addr, p->ai_addrlen) == -1)
         {
             close(handle->fd);
+            handle->fd = -1;
             continue;
         }
 
-- 
2.43.0


From 439065e74c9473b3763446e4f656621419ad893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 17/26] fix: hexadecimal identification digits of a selection
 were encoded as decimal ones

---
 mbus/mbus-protocol.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 69f5b7f..a792198 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -5335,7 +5335,9 @@ mbus_frame_select_secondary_pack(mbus_frame *frame, char *address)
         }
         else
         {
-            frame->data[j] |= (0x0F & (address[i] - '0')) << (4 * k--);
+            char digit[2] = { address[i], 0 };
+
+            frame->data[j] |= (0x0F & strtol(digit, NULL, 16)) << (4 * k--);
         }
 
         if (k < 0)
-- 
2.43.0


From e36f1ed6ab049293bbe2a5b510416c28b73b5949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 18/26] fix: a failing line while selecting or probing was
 judged as a missing slave

---
 mbus/mbus-protocol-aux.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index be211f8..a59fd9c 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2263,6 +2263,12 @@ mbus_select_secondary_address(mbus_handle * handle, const char *mask)
         return MBUS_PROBE_COLLISION;
     }
 
+    if (ret != MBUS_RECV_RESULT_OK)
+    {
+        MBUS_ERROR("%s: Failed to receive reply to the selection frame.\n", __PRETTY_FUNCTION__);
+        return MBUS_PROBE_ERROR;
+    }
+
     if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
     {
         /* check for more data (collision) */
@@ -2326,6 +2332,13 @@ mbus_probe_secondary_address(mbus_handle *handle, const char *mask, char *matchi
                 return MBUS_PROBE_COLLISION;
             }
 
+            if (ret != MBUS_RECV_RESULT_OK)
+            {
+                MBUS_ERROR("%s: Failed to receive reply of the selected secondary device [mask %s].\n",
+                           __PRETTY_FUNCTION__, mask);
+                return MBUS_PROBE_ERROR;
+            }
+
             /* check for more data (collision) */
             if (mbus_purge_frames(handle))
             {
-- 
2.43.0


From 1e23d0e9de5a6066388aafffa0b90691b99bdefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 19/26] fix: collecting a reply freed the records of an earlier
 telegram again, leaked or ignored failures, and stopped after one telegram
 without a limit

---
 mbus/mbus-protocol-aux.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index a59fd9c..d48e79c 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2118,7 +2118,17 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
         // We need to parse the data in the received frame to be able to tell
         // if more records are available or not.
         //
-        if (mbus_frame_data_parse(next_frame, &reply_data) == -1)
+        result = mbus_frame_data_parse(next_frame, &reply_data);
+
+        // only the type and the flag that more records follow are of interest
+        if (reply_data.data_var.record)
+        {
+            // free's up the whole list
+            mbus_data_record_free(reply_data.data_var.record);
+            reply_data.data_var.record = NULL;
+        }
+
+        if (result != 0)
         {
             MBUS_ERROR("%s: M-bus data parse error.\n", __PRETTY_FUNCTION__);
             retval = 1;
@@ -2141,7 +2151,7 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
             more_frames = 0;
 
             if (reply_data.data_var.more_records_follow &&
-                ((max_frames > 0) && (frame_count < max_frames))) // only readout max_frames
+                ((max_frames <= 0) || (frame_count < max_frames))) // only readout max_frames
             {
                 if (debug)
                     printf("%s: debug: expecting more frames\n", __PRETTY_FUNCTION__);
@@ -2169,12 +2179,6 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
                     printf("%s: debug: no more frames\n", __PRETTY_FUNCTION__);
             }
         }
-
-        if (reply_data.data_var.record)
-        {
-            // free's up the whole list
-            mbus_data_record_free(reply_data.data_var.record);
-        }
     }
 
     mbus_frame_free(frame);
-- 
2.43.0


From 9052af3bd96d4f4ff20af614a619919b5c526921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 20/26] fix: the scan for secondary addresses leaked its mask
 on failure and ignored failures of a narrowed scan

---
 mbus/mbus-protocol-aux.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index d48e79c..4f31e3a 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2466,7 +2466,7 @@ int mbus_read_slave(mbus_handle * handle, mbus_address *address, mbus_frame * re
 int
 mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
 {
-    int i, i_start, i_end, probe_ret;
+    int i, i_start, i_end, probe_ret, ret = 0;
     char *mask, matching_mask[17];
 
     if (handle == NULL || addr_mask == NULL)
@@ -2503,7 +2503,7 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
         if (pos < 15)
         {
             // mask[pos] is not a wildcard -> don't iterate, recursively check pos+1
-            mbus_scan_2nd_address_range(handle, pos+1, mask);
+            ret = mbus_scan_2nd_address_range(handle, pos+1, mask);
         }
         else
         {
@@ -2535,7 +2535,11 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
             else if (probe_ret == MBUS_PROBE_COLLISION)
             {
                 // collision, more than one device matching, restrict the search mask further
-                mbus_scan_2nd_address_range(handle, pos+1, mask);
+                ret = mbus_scan_2nd_address_range(handle, pos+1, mask);
+                if (ret != 0)
+                {
+                    break;
+                }
             }
             else if (probe_ret == MBUS_PROBE_NOTHING)
             {
@@ -2544,13 +2548,14 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
             else // MBUS_PROBE_ERROR
             {
                 MBUS_ERROR("%s: Failed to probe secondary address [%s].\n", __PRETTY_FUNCTION__, mask);
-                return -1;
+                ret = -1;
+                break;
             }
         }
     }
 
     free(mask);
-    return 0;
+    return ret;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From a4724303a4c5db24955fcb97826db460ca029f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:33 +0000
Subject: [PATCH 21/26] fix: the missing frame of a secondary address was
 reported with an uninitialised pointer

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index a792198..6afe125 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -5238,7 +5238,7 @@ char *
 mbus_frame_get_secondary_address(mbus_frame *frame)
 {
     static char addr[32];
-    mbus_frame_data *data;
+    mbus_frame_data *data = NULL;
     unsigned long id;
 
     if (frame == NULL || (data = mbus_frame_data_new()) == NULL)
-- 
2.43.0


From 1ebec71d08e05b055bc0101078938dcadb9f8558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:06 +0000
Subject: [PATCH 22/26] fix: the XML of a record could be longer than the space
 kept for it

---
 mbus/mbus-protocol-aux.c | 2 +-
 mbus/mbus-protocol.c     | 6 +++---
 mbus/mbus-protocol.h     | 3 +++
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 4f31e3a..168a6c8 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1415,7 +1415,7 @@ mbus_data_variable_xml_normalized(mbus_data_variable *data)
         {
             norm_record = mbus_parse_variable_record(record);
 
-            if ((buff_size - len) < 1024)
+            if ((buff_size - len) < MBUS_XML_RECORD_SIZE)
             {
                 buff_size *= 2;
                 new_buff = (char*) realloc(buff,buff_size);
diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 6afe125..7504107 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4818,7 +4818,7 @@ mbus_data_variable_xml(mbus_data_variable *data)
 
         for (record = data->record, i = 0; record; record = record->next, i++)
         {
-            if ((buff_size - len) < 1024)
+            if ((buff_size - len) < MBUS_XML_RECORD_SIZE)
             {
                 buff_size *= 2;
                 new_buff = (char*) realloc(buff,buff_size);
@@ -5052,7 +5052,7 @@ mbus_frame_xml(mbus_frame *frame)
             // record count as record ID in the XML output
             for (record = frame_data.data_var.record; record; record = record->next, record_cnt++)
             {
-                if ((buff_size - len) < 1024)
+                if ((buff_size - len) < MBUS_XML_RECORD_SIZE)
                 {
                     buff_size *= 2;
                     new_buff = (char*) realloc(buff,buff_size);
@@ -5091,7 +5091,7 @@ mbus_frame_xml(mbus_frame *frame)
                 // record count as record ID in the XML output
                 for (record = frame_data.data_var.record; record; record = record->next, record_cnt++)
                 {
-                    if ((buff_size - len) < 1024)
+                    if ((buff_size - len) < MBUS_XML_RECORD_SIZE)
                     {
                         buff_size *= 2;
                         new_buff = (char*) realloc(buff,buff_size);
diff --git a/mbus/mbus-protocol.h b/mbus/mbus-protocol.h
index 432525a..8d8e4aa 100755
--- a/mbus/mbus-protocol.h
+++ b/mbus/mbus-protocol.h
@@ -521,6 +521,9 @@ unsigned int mbus_manufacturer_id(char *manufacturer);
 
 // Since libmbus writes some special characters (ASCII > 0x7F) into the XML output (e.g. �C for centigrade == ASCII 0xB0)
 // it is useful to attach the appropriate code page for postprocessing.
+// upper limit of the XML text of one data record
+#define MBUS_XML_RECORD_SIZE 4096
+
 #define MBUS_XML_PROCESSING_INSTRUCTION         "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>\n"
 
 //
-- 
2.43.0


From c662b6420815ce43d6921d2e3f4f6474f8017a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:06 +0000
Subject: [PATCH 23/26] fix: rendering several telegrams used released records,
 and leaked what it had when a telegram could not be parsed

---
 mbus/mbus-protocol.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 7504107..c522729 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4998,9 +4998,10 @@ mbus_frame_xml(mbus_frame *frame)
     {
         memset((void *)&frame_data, 0, sizeof(mbus_frame_data));
 
-        if (mbus_frame_data_parse(frame, &frame_data) == -1)
+        if (mbus_frame_data_parse(frame, &frame_data) != 0)
         {
             mbus_error_str_set("M-bus data parse error.");
+            mbus_data_record_free(frame_data.data_var.record);
             return NULL;
         }
 
@@ -5075,15 +5076,18 @@ mbus_frame_xml(mbus_frame *frame)
             if (frame_data.data_var.record)
             {
                 mbus_data_record_free(frame_data.data_var.record);
+                frame_data.data_var.record = NULL;
             }
 
             frame_cnt++;
 
             for (iter = frame->next; iter; iter = iter->next, frame_cnt++)
             {
-                if (mbus_frame_data_parse(iter, &frame_data) == -1)
+                if (mbus_frame_data_parse(iter, &frame_data) != 0)
                 {
                     mbus_error_str_set("M-bus variable data parse error.");
+                    mbus_data_record_free(frame_data.data_var.record);
+                    free(buff);
                     return NULL;
                 }
 
@@ -5114,6 +5118,7 @@ mbus_frame_xml(mbus_frame *frame)
                 if (frame_data.data_var.record)
                 {
                     mbus_data_record_free(frame_data.data_var.record);
+                    frame_data.data_var.record = NULL;
                 }
             }
 
-- 
2.43.0


From f34dd844d2533bbdf5141ecf851cd81872b9e27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:06 +0000
Subject: [PATCH 24/26] fix: normalising a record leaked its text when its unit
 is unknown

---
 mbus/mbus-protocol-aux.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 168a6c8..803c91d 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1362,6 +1362,7 @@ mbus_parse_variable_record(mbus_data_record *data)
         if (mbus_vib_unit_normalize(&(data->drh.vib), value_out_real, &(record->unit), &real_val, &(record->quantity)) != 0)
         {
             MBUS_ERROR("%s: problem with mbus_vib_unit_normalize\n", __PRETTY_FUNCTION__);
+            free(value_out_str);
             mbus_record_free(record);
             record = NULL;
             return NULL;
-- 
2.43.0


From cc8b8a94660a5977e6487b446b1676f39ca28b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:53 +0000
Subject: [PATCH 25/26] fix: packing data wrote beyond the frame, invented VIFs
 for special records and dropped plain-text VIFs

---
 mbus/mbus-protocol.c | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index c522729..c773faf 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4313,11 +4313,28 @@ mbus_frame_internal_pack(mbus_frame *frame, mbus_frame_data *frame_data)
             //
             for (record = frame_data->data_var.record; record; record = record->next)
             {
+                int special = (record->drh.dib.dif == MBUS_DIB_DIF_MANUFACTURER_SPECIFIC) ||
+                              (record->drh.dib.dif == MBUS_DIB_DIF_MORE_RECORDS_FOLLOW);
+                int custom = !special &&
+                             ((record->drh.vib.vif & MBUS_DIB_VIF_WITHOUT_EXTENSION) == 0x7C);
+                size_t custom_len = custom ? strlen((char *) record->drh.vib.custom_vif) : 0;
+                size_t size = 1 + record->data_len;
+
+                // special records consist of their DIF and data only
+                if (!special)
+                    size += record->drh.dib.ndife + 1 + custom + custom_len + record->drh.vib.nvife;
+
+                if (size > sizeof(frame->data) - frame->data_size)
+                {
+                    snprintf(error_str, sizeof(error_str), "Data does not fit into a frame.");
+                    return -3;
+                }
+
                 // pack DIF
                 if (parse_debug)
                     printf("%s: packing DIF [%zu]", __PRETTY_FUNCTION__, frame->data_size);
                 frame->data[frame->data_size++] = record->drh.dib.dif;
-                for (j = 0; j < record->drh.dib.ndife; j++)
+                for (j = 0; !special && j < record->drh.dib.ndife; j++)
                 {
                     frame->data[frame->data_size++] = record->drh.dib.dife[j];
                 }
@@ -4325,8 +4342,16 @@ mbus_frame_internal_pack(mbus_frame *frame, mbus_frame_data *frame_data)
                 // pack VIF
                 if (parse_debug)
                     printf("%s: packing VIF [%zu]", __PRETTY_FUNCTION__, frame->data_size);
-                frame->data[frame->data_size++] = record->drh.vib.vif;
-                for (j = 0; j < record->drh.vib.nvife; j++)
+                if (!special)
+                    frame->data[frame->data_size++] = record->drh.vib.vif;
+                if (custom)
+                {
+                    // variable length VIF in ASCII format, in transmission order
+                    frame->data[frame->data_size++] = custom_len;
+                    while (custom_len > 0)
+                        frame->data[frame->data_size++] = record->drh.vib.custom_vif[--custom_len];
+                }
+                for (j = 0; !special && j < record->drh.vib.nvife; j++)
                 {
                     frame->data[frame->data_size++] = record->drh.vib.vife[j];
                 }
-- 
2.43.0


From 1b09c2ebd6be346696a794ddeb5eacca42749000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:20 +0000
Subject: [PATCH 26/26] fix: frames of more than 247 bytes, or that cannot be
 packed, were printed as nothing and reported as success

---
 mbus/mbus-protocol.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index c773faf..b42c271 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4396,7 +4396,7 @@ int
 mbus_frame_print(mbus_frame *frame)
 {
     mbus_frame *iter;
-    unsigned char data_buff[256];
+    unsigned char data_buff[sizeof(iter->data) + MBUS_FRAME_LONG_BASE_SIZE];
     int len, i;
 
     if (frame == NULL)
@@ -4404,7 +4404,7 @@ mbus_frame_print(mbus_frame *frame)
 
     for (iter = frame; iter; iter = iter->next)
     {
-        if ((len = mbus_frame_pack(iter, data_buff, sizeof(data_buff))) == -1)
+        if ((len = mbus_frame_pack(iter, data_buff, sizeof(data_buff))) < 0)
         {
             return -2;
         }
-- 
2.43.0

