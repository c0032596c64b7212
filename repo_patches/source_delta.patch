From 81e2b85abf866883d0e2ee7032a9c2865f5805ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 01/25] fix: mbus_frame_verify accepted invalid and rejected
 valid ACK frames

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 697d1a8..0d7cc4b 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -352,7 +352,7 @@ mbus_frame_verify(mbus_frame *frame)
         switch (frame->type)
         {
             case MBUS_FRAME_TYPE_ACK:
-                return frame->start1 == MBUS_FRAME_ACK_START;
+                return (frame->start1 == MBUS_FRAME_ACK_START) ? 0 : -1;
 
             case MBUS_FRAME_TYPE_SHORT:
                 if(frame->start1 != MBUS_FRAME_SHORT_START)
-- 
2.43.0


From c00385b21eb4a82b1e9fcd0498520308f7d59743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:15 +0000
Subject: [PATCH 02/25] fix: mbus_data_bcd_encode wrote the digits in the byte
 order opposite to mbus_data_bcd_decode, and overflowed for INT_MIN

---
 mbus/mbus-protocol.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 0d7cc4b..39b99ec 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -458,23 +458,24 @@ mbus_frame_verify(mbus_frame *frame)
 int
 mbus_data_bcd_encode(unsigned char *bcd_data, size_t bcd_data_size, int value)
 {
-    int v0, v1, v2, x1, x2;
+    unsigned int v0, v1, v2, x1, x2;
     size_t i;
 
     if (bcd_data && bcd_data_size)
     {
-        v2 = abs(value);
+        v2 = (value < 0) ? 0u - (unsigned int)value : (unsigned int)value;
 
         for (i = 0; i < bcd_data_size; i++)
         {
             v0 = v2;
-            v1 = (int)(v0 / 10);
-            v2 = (int)(v1 / 10);
+            v1 = v0 / 10;
+            v2 = v1 / 10;
 
             x1 = v0 - v1 * 10;
             x2 = v1 - v2 * 10;
 
-            bcd_data[bcd_data_size-1-i] = (x2 << 4) | x1;
+            // least significant byte first, as in mbus_data_bcd_decode()
+            bcd_data[i] = (x2 << 4) | x1;
         }
 
         if (value < 0)
-- 
2.43.0


From 657d5e6d70e5367b0839a816ffa8204c4ea474ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:24 +0000
Subject: [PATCH 03/25] fix: mbus_data_bcd_decode read before the data when
 given zero bytes

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 39b99ec..1b1d061 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -515,7 +515,7 @@ mbus_data_bcd_decode(unsigned char *bcd_data, size_t bcd_data_size)
         }
 
         // hex code Fh in the MSD position signals a negative BCD number
-        if (bcd_data[bcd_data_size-1]>>4 == 0xF)
+        if (bcd_data_size > 0 && bcd_data[bcd_data_size-1]>>4 == 0xF)
         {
             val *= -1;
         }
-- 
2.43.0


From 803ab8039c43414f7191bf67fd6c84edd5e4b178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:42 +0000
Subject: [PATCH 04/25] fix: mbus_frame_pack read past the frame's data when
 its data size is more than a frame can hold

---
 mbus/mbus-protocol.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 1b1d061..a61d87d 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4097,6 +4097,11 @@ mbus_frame_pack(mbus_frame *frame, unsigned char *data, size_t data_size)
 
     if (frame && data)
     {
+        if (frame->type == MBUS_FRAME_TYPE_LONG && frame->data_size > MBUS_FRAME_DATA_LENGTH)
+        {
+            return -4;
+        }
+
         if (mbus_frame_calc_length(frame) == -1)
         {
             return -2;
-- 
2.43.0


From f54e22c352ae4e46b950ea5b1b7a250db01e8b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:42 +0000
Subject: [PATCH 05/25] fix: a 128 character variable length VIF overflowed
 custom_vif by its terminator

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index a61d87d..5475c61 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3910,7 +3910,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                 // variable length VIF in ASCII format
                 int var_vif_len;
                 var_vif_len = frame->data[i++];
-                if (var_vif_len > MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE)
+                if (var_vif_len >= MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE)
                 {
                     mbus_data_record_free(record);
                     snprintf(error_str, sizeof(error_str), "Too long variable length VIF.");
-- 
2.43.0


From 0979d65c9b62eaa051ccfc9268e25fad38f6c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:50 +0000
Subject: [PATCH 06/25] fix: mbus_data_variable_parse read past the data of a
 frame truncated inside a record header

---
 mbus/mbus-protocol.c | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 5475c61..b88f777 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3885,6 +3885,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                     return -1;
                 }
 
+                if (i + 1 >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at DIF.");
+                    return -1;
+                }
+
                 dife = frame->data[i+1];
                 record->drh.dib.dife[record->drh.dib.ndife] = dife;
 
@@ -3893,7 +3900,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             }
             i++;
 
-            if (i > frame->data_size)
+            if (i >= frame->data_size)
             {
                 mbus_data_record_free(record);
                 snprintf(error_str, sizeof(error_str), "Premature end of record at DIF.");
@@ -3909,6 +3916,14 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             {
                 // variable length VIF in ASCII format
                 int var_vif_len;
+
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at variable length VIF.");
+                    return -1;
+                }
+
                 var_vif_len = frame->data[i++];
                 if (var_vif_len >= MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE)
                 {
@@ -3932,6 +3947,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
 
             if (record->drh.vib.vif & MBUS_DIB_VIF_EXTENSION_BIT)
             {
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at VIF.");
+                    return -1;
+                }
+
                 record->drh.vib.vife[0] = frame->data[i];
                 record->drh.vib.nvife++;
 
@@ -3947,6 +3969,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                         return -1;
                     }
 
+                    if (i + 1 >= frame->data_size)
+                    {
+                        mbus_data_record_free(record);
+                        snprintf(error_str, sizeof(error_str), "Premature end of record at VIF.");
+                        return -1;
+                    }
+
                     vife = frame->data[i+1];
                     record->drh.vib.vife[record->drh.vib.nvife] = vife;
 
@@ -3966,6 +3995,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             // re-calculate data length, if of variable length type
             if ((record->drh.dib.dif & MBUS_DATA_RECORD_DIF_MASK_DATA) == 0x0D) // flag for variable length data
             {
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at data.");
+                    return -1;
+                }
+
                 if(frame->data[i] <= 0xBF)
                     record->data_len = frame->data[i];
                 else if(frame->data[i] >= 0xC0 && frame->data[i] <= 0xC9)
-- 
2.43.0


From 87d26cb009d2aa80fd5f6b7f1a3e7e74db73e9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:06 +0000
Subject: [PATCH 07/25] fix: manufacturer specific data of a long frame
 overflowed the record's data field

---
 mbus/mbus-protocol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.h b/mbus/mbus-protocol.h
index 5933381..432525a 100755
--- a/mbus/mbus-protocol.h
+++ b/mbus/mbus-protocol.h
@@ -168,7 +168,7 @@ typedef struct _mbus_data_record {
 
     mbus_data_record_header drh;
 
-    unsigned char data[234];
+    unsigned char data[240];
     size_t data_len;
 
     time_t timestamp;
-- 
2.43.0


From 1c04b3da0c892b5f2d9e974d44576d312d38c1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:58 +0000
Subject: [PATCH 08/25] fix: storage numbers of records with eight or more DIF
 extensions were computed with an overflowing shift

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index b88f777..6b546c4 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3466,7 +3466,7 @@ long mbus_data_record_storage_number(mbus_data_record *record)
 
         for (i=0; i<record->drh.dib.ndife; i++)
         {
-            result |= (record->drh.dib.dife[i] & MBUS_DATA_RECORD_DIFE_MASK_STORAGE_NO) << bit_index;
+            result |= (long)(record->drh.dib.dife[i] & MBUS_DATA_RECORD_DIFE_MASK_STORAGE_NO) << bit_index;
             bit_index += 4;
         }
 
-- 
2.43.0


From b3fea0ba675de888072f70eaa1a66b6b2f728172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:49 +0000
Subject: [PATCH 09/25] fix: fixed data unit codes 0x0D (100 kJ) and 0x0E (MJ)
 were swapped

---
 mbus/mbus-protocol.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 6b546c4..da11870 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -1556,10 +1556,10 @@ mbus_data_fixed_unit(int medium_unit_byte)
         case 0x0C:
             snprintf(buff, sizeof(buff), "10 kJ");
             break;
-        case 0x0E:
+        case 0x0D:
             snprintf(buff, sizeof(buff), "100 kJ");
             break;
-        case 0x0D:
+        case 0x0E:
             snprintf(buff, sizeof(buff), "MJ");
             break;
         case 0x0F:
-- 
2.43.0


From 9b481948db4fc722d5f00906dc237eedaf3ec0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:58 +0000
Subject: [PATCH 10/25] fix: reserved VIF extensions 0x50 and 0x51 after 0xFB
 were reported as unrecognized

---
 mbus/mbus-protocol.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index da11870..bdeb906 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -2670,6 +2670,8 @@ mbus_vib_unit_lookup_fb(mbus_value_information_block *vib)
     case 0x4E:
     case 0x4F:
 
+    case 0x50:
+    case 0x51:
     case 0x52:
     case 0x53:
     case 0x54:
-- 
2.43.0


From 5e01d0cb3cfab92e527d2ca913c55ff33ac3fe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:07 +0000
Subject: [PATCH 11/25] fix: the text of a plain-text VIF was lost when it has
 other extensions than a multiplier

---
 mbus/mbus-protocol.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index bdeb906..125c660 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3118,6 +3118,12 @@ mbus_vib_unit_lookup(mbus_value_information_block *vib)
         snprintf(buff, sizeof(buff), "%s %s", mbus_unit_prefix(n-6), vib->custom_vif);
         return buff;
     }
+    else if (vib->vif == 0xFC)
+    {
+        // custom VIF with other extensions
+        snprintf(buff, sizeof(buff), "%s", vib->custom_vif);
+        return buff;
+    }
 
     return mbus_vif_unit_lookup(vib->vif); // no extention, use VIF
 }
-- 
2.43.0


From 99240106d24a27c367718e9904c83b08db85ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:39 +0000
Subject: [PATCH 12/25] fix: mbus_hex2bin accepted signs, blanks and single
 digits as a byte

---
 mbus/mbus-protocol-aux.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index ccf4798..409427d 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2562,6 +2562,10 @@ mbus_hex2bin(unsigned char * dst, size_t dst_len, const unsigned char * src, siz
         buf[0] = src[i];
         buf[1] = src[++i];
 
+        // abort at anything but two hex digits (strtoul also accepts signs, blanks and a single digit)
+        if (!isxdigit(buf[0]) || !isxdigit(buf[1]))
+            break;
+
         end = buf;
         ptr = end;
         val = strtoul(ptr, (char **)&end, 16);
-- 
2.43.0


From ea0622d29d9513cd86490d911cfee2ed4e5dc260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:15 +0000
Subject: [PATCH 13/25] fix: wrong units and exponent of some FB VIF extension
 codes in the normalization table

---
 mbus/mbus-protocol-aux.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 409427d..3996051 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -491,8 +491,8 @@ mbus_variable_vif vif_table[] = {
     { 0x207, 1.0e0,  "Reserved", "Reserved" },
 
     /* E000 100n Energy 10(n-1) GJ 0.1GJ to 1GJ */
-    { 0x208, 1.0e8,  "Reserved", "Energy" },
-    { 0x209, 1.0e9,  "Reserved", "Energy" },
+    { 0x208, 1.0e8,  "J", "Energy" },
+    { 0x209, 1.0e9,  "J", "Energy" },
 
     /* E000 101n Reserved */
     { 0x20A, 1.0e0,  "Reserved", "Reserved" },
@@ -565,8 +565,8 @@ mbus_variable_vif vif_table[] = {
     { 0x22F, 1.0e0, "Reserved", "Reserved" },
 
     /* E011 000n Power 10(n-1) GJ/h 0.1GJ/h to 1GJ/h */
-    { 0x230, 1.0e8, "J", "Power" },
-    { 0x231, 1.0e9, "J", "Power" },
+    { 0x230, 1.0e8, "J/h", "Power" },
+    { 0x231, 1.0e9, "J/h", "Power" },
 
     /* E011 0010 to E101 0111 Reserved */
     { 0x232, 1.0e0, "Reserved", "Reserved" },
@@ -656,7 +656,7 @@ mbus_variable_vif vif_table[] = {
 
     /* E111 1nnn cumul. count max power § 10(nnn-3) W 0.001W to 10000W */
     { 0x278, 1.0e-3, "W", "Cumul count max power" },
-    { 0x279, 1.0e-3, "W", "Cumul count max power" },
+    { 0x279, 1.0e-2, "W", "Cumul count max power" },
     { 0x27A, 1.0e-1, "W", "Cumul count max power" },
     { 0x27B, 1.0e0,  "W", "Cumul count max power" },
     { 0x27C, 1.0e1,  "W", "Cumul count max power" },
-- 
2.43.0


From abda75483fec8761d2157f3afecf2cea27cce576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:26 +0000
Subject: [PATCH 14/25] fix: wrong exponents and quantities of fixed data unit
 codes in the normalization table

---
 mbus/mbus-protocol-aux.c | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 3996051..4fabd89 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -692,24 +692,24 @@ mbus_variable_vif fixed_table[] = {
     { 0x13, 1.0e11,"J", "Energy" },
 
     { 0x14, 1.0e0, "W", "Power" },
-    { 0x15, 1.0e0, "W", "Power" },
-    { 0x16, 1.0e0, "W", "Power" },
-    { 0x17, 1.0e0, "W", "Power" },
-    { 0x18, 1.0e0, "W", "Power" },
-    { 0x19, 1.0e0, "W", "Power" },
-    { 0x1A, 1.0e0, "W", "Power" },
-    { 0x1B, 1.0e0, "W", "Power" },
-    { 0x1C, 1.0e0, "W", "Power" },
-
-    { 0x1D, 1.0e3, "J/h", "Energy" },
-    { 0x1E, 1.0e4, "J/h", "Energy" },
-    { 0x1F, 1.0e5, "J/h", "Energy" },
-    { 0x20, 1.0e6, "J/h", "Energy" },
-    { 0x21, 1.0e7, "J/h", "Energy" },
-    { 0x22, 1.0e8, "J/h", "Energy" },
-    { 0x23, 1.0e9, "J/h", "Energy" },
-    { 0x24, 1.0e10,"J/h", "Energy" },
-    { 0x25, 1.0e11,"J/h", "Energy" },
+    { 0x15, 1.0e1, "W", "Power" },
+    { 0x16, 1.0e2, "W", "Power" },
+    { 0x17, 1.0e3, "W", "Power" },
+    { 0x18, 1.0e4, "W", "Power" },
+    { 0x19, 1.0e5, "W", "Power" },
+    { 0x1A, 1.0e6, "W", "Power" },
+    { 0x1B, 1.0e7, "W", "Power" },
+    { 0x1C, 1.0e8, "W", "Power" },
+
+    { 0x1D, 1.0e3, "J/h", "Power" },
+    { 0x1E, 1.0e4, "J/h", "Power" },
+    { 0x1F, 1.0e5, "J/h", "Power" },
+    { 0x20, 1.0e6, "J/h", "Power" },
+    { 0x21, 1.0e7, "J/h", "Power" },
+    { 0x22, 1.0e8, "J/h", "Power" },
+    { 0x23, 1.0e9, "J/h", "Power" },
+    { 0x24, 1.0e10,"J/h", "Power" },
+    { 0x25, 1.0e11,"J/h", "Power" },
 
     { 0x26, 1.0e-6,"m^3", "Volume" },
     { 0x27, 1.0e-5,"m^3", "Volume" },
@@ -721,7 +721,8 @@ mbus_variable_vif fixed_table[] = {
     { 0x2D, 1.0e1, "m^3", "Volume" },
     { 0x2E, 1.0e2, "m^3", "Volume" },
 
-    { 0x2F, 1.0e-5,"m^3/h", "Volume flow" },
+    { 0x2F, 1.0e-6,"m^3/h", "Volume flow" },
+    { 0x30, 1.0e-5,"m^3/h", "Volume flow" },
     { 0x31, 1.0e-4,"m^3/h", "Volume flow" },
     { 0x32, 1.0e-3,"m^3/h", "Volume flow" },
     { 0x33, 1.0e-2,"m^3/h", "Volume flow" },
-- 
2.43.0


From 3834f70b91290f3824b5339e417b25eebc016db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:34 +0000
Subject: [PATCH 15/25] fix: the start of a tariff (FD VIF extension 0x30) was
 normalized as a reserved code

---
 mbus/mbus-protocol-aux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 4fabd89..0b72a15 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -353,7 +353,7 @@ mbus_variable_vif vif_table[] = {
     /* E011 0000 Start (date/time) of tariff  */
     /* The information about usage of data type F (date and time) or data type G (date) can */
     /* be derived from the datafield (0010b: type G / 0100: type F). */
-    { 0x130, 1.0e0,  "Reserved", "Reserved" }, /* ???? */
+    { 0x130, 1.0e0,  "", "Start (date/time) of tariff" },
 
     /* E011 00nn Duration of tariff (nn=01 ..11: min to days) */
     { 0x131,       60.0,  "s", "Duration of tariff" },   /* minute(s) */
-- 
2.43.0


From 727f0c786ae702dd16d466ff992b172bee8b8e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:21 +0000
Subject: [PATCH 16/25] fix: sending reports frames that cannot be packed and
 null handles

---
 mbus/mbus-protocol-aux.c | 2 +-
 mbus/mbus-serial.c       | 2 +-
 mbus/mbus-tcp.c          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 0b72a15..bd4b59f 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1739,7 +1739,7 @@ mbus_send_frame(mbus_handle * handle, mbus_frame *frame)
     if (handle == NULL)
     {
         MBUS_ERROR("%s: Invalid M-Bus handle for send.\n", __PRETTY_FUNCTION__);
-        return 0;
+        return -1;
     }
 
     return handle->send(handle, frame);
diff --git a/mbus/mbus-serial.c b/mbus/mbus-serial.c
index 5a2a3f3..64b662e 100755
--- a/mbus/mbus-serial.c
+++ b/mbus/mbus-serial.c
@@ -242,7 +242,7 @@ mbus_serial_send_frame(mbus_handle *handle, mbus_frame *frame)
         return -1;
     }
 
-    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) == -1)
+    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) < 0)
     {
         fprintf(stderr, "%s: mbus_frame_pack failed\n", __PRETTY_FUNCTION__);
         return -1;
diff --git a/mbus/mbus-tcp.c b/mbus/mbus-tcp.c
index da7e475..bfc84b8 100755
--- a/mbus/mbus-tcp.c
+++ b/mbus/mbus-tcp.c
@@ -159,7 +159,7 @@ mbus_tcp_send_frame(mbus_handle *handle, mbus_frame *frame)
         return -1;
     }
 
-    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) == -1)
+    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) < 0)
     {
         snprintf(error_str, sizeof(error_str), "%s: mbus_frame_pack failed\n", __PRETTY_FUNCTION__);
         mbus_error_str_set(error_str);
-- 
2.43.0


From 80088bdb7bfa65eb982ea6f624f536fa8c57b750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:21 +0000
Subject: [PATCH 17/25] fix: do not take a failed reception for an echo of the
 own frame

---
 mbus/mbus-protocol-aux.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index bd4b59f..b801ebd 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1691,7 +1691,8 @@ mbus_recv_frame(mbus_handle * handle, mbus_frame *frame)
 
     result = handle->recv(handle, frame);
 
-    switch (mbus_frame_direction(frame))
+    // without a received frame there is no direction to look at
+    switch (result == MBUS_RECV_RESULT_OK ? mbus_frame_direction(frame) : -1)
     {
         case MBUS_CONTROL_MASK_DIR_M2S:
             if (handle->purge_first_frame == MBUS_FRAME_PURGE_M2S)
-- 
2.43.0


From b76920edc156a4e41f0e6eac9578e33b216495f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:21 +0000
Subject: [PATCH 18/25] fix: handles hold no stale descriptor before and after
 a failed connect

---
 mbus/mbus-protocol-aux.c | 2 ++
 mbus/mbus-tcp.c          | 1 +
 2 files changed, 3 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index b801ebd..54d6bbb 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1523,6 +1523,7 @@ mbus_context_serial(const char *device)
         return NULL;
     }
 
+    handle->fd = -1;
     handle->max_data_retry = 3;
     handle->max_search_retry = 1;
     handle->is_serial = 1;
@@ -1571,6 +1572,7 @@ mbus_context_tcp(const char *host, uint16_t port)
         return NULL;
     }
 
+    handle->fd = -1;
     handle->max_data_retry = 3;
     handle->max_search_retry = 1;
     handle->is_serial = 0;
diff --git a/mbus/mbus-tcp.c b/mbus/mbus-tcp.c
index bfc84b8..c6473c4 100755
--- a/mbus/mbus-tcp.c
+++ b/mbus/mbus-tcp.c
@@ -74,6 +74,7 @@ mbus_tcp_connect(mbus_handle *handle)
         if (connect(handle->fd, p->ai_addr, p->ai_addrlen) == -1)
         {
             close(handle->fd);
+            handle->fd = -1;
             continue;
         }
 
-- 
2.43.0


From 0c17ef152fca06d3618415cb2df900dfd49fac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:44 +0000
Subject: [PATCH 19/25] fix: hexadecimal digits A to E of a secondary address
 id were packed wrongly

---
 mbus/mbus-protocol.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 125c660..14c00e0 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -5331,7 +5331,9 @@ mbus_frame_select_secondary_pack(mbus_frame *frame, char *address)
         }
         else
         {
-            frame->data[j] |= (0x0F & (address[i] - '0')) << (4 * k--);
+            tmp[0] = address[i]; tmp[1] = 0;
+            val = strtol(tmp, NULL, 16);
+            frame->data[j] |= (0x0F & val) << (4 * k--);
         }
 
         if (k < 0)
-- 
2.43.0


From fe24cd64210d6725349225f3e2fae53a48b836bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:44 +0000
Subject: [PATCH 20/25] fix: error text of mbus_frame_get_secondary_address
 read an uninitialised pointer

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 14c00e0..3d48c5f 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -5234,7 +5234,7 @@ char *
 mbus_frame_get_secondary_address(mbus_frame *frame)
 {
     static char addr[32];
-    mbus_frame_data *data;
+    mbus_frame_data *data = NULL;
     unsigned long id;
 
     if (frame == NULL || (data = mbus_frame_data_new()) == NULL)
-- 
2.43.0


From ceaac7a8c80b5f3308ea5e09b7717ad0c7e97a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:27 +0000
Subject: [PATCH 21/25] fix: primary addresses 251 and 252 could be assigned to
 a slave

---
 mbus/mbus-protocol-aux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 54d6bbb..c6a34fb 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1999,7 +1999,7 @@ mbus_set_primary_address(mbus_handle * handle, int old_address, int new_address)
     /* primary address record, see chapter 6.4.2 */
     unsigned char buffer[3] = { 0x01, 0x7A, new_address };
 
-    if (mbus_is_primary_address(new_address) == 0)
+    if ((mbus_is_primary_address(new_address) == 0) || (new_address > MBUS_MAX_PRIMARY_SLAVES))
     {
         MBUS_ERROR("%s: invalid address %d\n", __PRETTY_FUNCTION__, new_address);
         return -1;
-- 
2.43.0


From cd147418526b2b46b3e52e21f38b9af10a4e08a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:27 +0000
Subject: [PATCH 22/25] fix: report transport failures while selecting and
 probing secondary addresses

---
 mbus/mbus-protocol-aux.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index c6a34fb..315e22b 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2264,6 +2264,12 @@ mbus_select_secondary_address(mbus_handle * handle, const char *mask)
         return MBUS_PROBE_COLLISION;
     }
 
+    if (ret != MBUS_RECV_RESULT_OK)
+    {
+        MBUS_ERROR("%s: Failed to receive M-Bus response frame.\n", __PRETTY_FUNCTION__);
+        return MBUS_PROBE_ERROR;
+    }
+
     if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
     {
         /* check for more data (collision) */
@@ -2327,6 +2333,12 @@ mbus_probe_secondary_address(mbus_handle *handle, const char *mask, char *matchi
                 return MBUS_PROBE_COLLISION;
             }
 
+            if (ret != MBUS_RECV_RESULT_OK)
+            {
+                MBUS_ERROR("%s: Failed to receive M-Bus response frame.\n", __PRETTY_FUNCTION__);
+                return MBUS_PROBE_ERROR;
+            }
+
             /* check for more data (collision) */
             if (mbus_purge_frames(handle))
             {
-- 
2.43.0


From 928a4581317d4aa7e0f17985f5483a0d3593c018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:27 +0000
Subject: [PATCH 23/25] fix: secondary address scan ignored failed sub-scans
 and leaked its mask

---
 mbus/mbus-protocol-aux.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 315e22b..b95b793 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2499,7 +2499,11 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
         if (pos < 15)
         {
             // mask[pos] is not a wildcard -> don't iterate, recursively check pos+1
-            mbus_scan_2nd_address_range(handle, pos+1, mask);
+            if (mbus_scan_2nd_address_range(handle, pos+1, mask) != 0)
+            {
+                free(mask);
+                return -1;
+            }
         }
         else
         {
@@ -2531,7 +2535,11 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
             else if (probe_ret == MBUS_PROBE_COLLISION)
             {
                 // collision, more than one device matching, restrict the search mask further
-                mbus_scan_2nd_address_range(handle, pos+1, mask);
+                if (mbus_scan_2nd_address_range(handle, pos+1, mask) != 0)
+                {
+                    free(mask);
+                    return -1;
+                }
             }
             else if (probe_ret == MBUS_PROBE_NOTHING)
             {
@@ -2540,6 +2548,7 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
             else // MBUS_PROBE_ERROR
             {
                 MBUS_ERROR("%s: Failed to probe secondary address [%s].\n", __PRETTY_FUNCTION__, mask);
+                free(mask);
                 return -1;
             }
         }
-- 
2.43.0


From a63eaba8f87ac07b419280c8baf53e5b6cabce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:27 +0000
Subject: [PATCH 24/25] fix: multi telegram readout without limit, and double
 free of its records

---
 mbus/mbus-protocol-aux.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index b95b793..8aae92a 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2119,9 +2119,10 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
         // We need to parse the data in the received frame to be able to tell
         // if more records are available or not.
         //
-        if (mbus_frame_data_parse(next_frame, &reply_data) == -1)
+        if (mbus_frame_data_parse(next_frame, &reply_data) != 0)
         {
             MBUS_ERROR("%s: M-bus data parse error.\n", __PRETTY_FUNCTION__);
+            mbus_data_record_free(reply_data.data_var.record);
             retval = 1;
             break;
         }
@@ -2142,7 +2143,7 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
             more_frames = 0;
 
             if (reply_data.data_var.more_records_follow &&
-                ((max_frames > 0) && (frame_count < max_frames))) // only readout max_frames
+                ((max_frames == 0) || (frame_count < max_frames))) // only readout max_frames
             {
                 if (debug)
                     printf("%s: debug: expecting more frames\n", __PRETTY_FUNCTION__);
@@ -2175,6 +2176,7 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
         {
             // free's up the whole list
             mbus_data_record_free(reply_data.data_var.record);
+            reply_data.data_var.record = NULL;
         }
     }
 
-- 
2.43.0


From 398cfb4affcaf74f662794198352291704dadb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:00 +0000
Subject: [PATCH 25/25] fix: packing variable data dropped plain text VIFs,
 added VIFs to marker records and overran the frame

---
 mbus/mbus-protocol.c | 46 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 3d48c5f..941367e 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4247,7 +4247,8 @@ int
 mbus_frame_internal_pack(mbus_frame *frame, mbus_frame_data *frame_data)
 {
     mbus_data_record *record;
-    int j;
+    size_t len, custom_vif_len;
+    int j, special;
 
     if (frame == NULL || frame_data == NULL)
         return -1;
@@ -4309,11 +4310,36 @@ mbus_frame_internal_pack(mbus_frame *frame, mbus_frame_data *frame_data)
             //
             for (record = frame_data->data_var.record; record; record = record->next)
             {
+                // manufacturer specific data and the more records follow
+                // marker consist of the DIF and the data only
+                special = (record->drh.dib.dif == MBUS_DIB_DIF_MANUFACTURER_SPECIFIC) ||
+                          (record->drh.dib.dif == MBUS_DIB_DIF_MORE_RECORDS_FOLLOW);
+                custom_vif_len = 0;
+                len = 1 + record->data_len;
+
+                if (!special)
+                {
+                    len += record->drh.dib.ndife + 1 + record->drh.vib.nvife;
+
+                    if ((record->drh.vib.vif & MBUS_DIB_VIF_WITHOUT_EXTENSION) == 0x7C)
+                    {
+                        // variable length VIF in ASCII format
+                        custom_vif_len = strlen((const char *) record->drh.vib.custom_vif);
+                        len += 1 + custom_vif_len;
+                    }
+                }
+
+                if (len > MBUS_FRAME_DATA_LENGTH - frame->data_size)
+                {
+                    snprintf(error_str, sizeof(error_str), "Too many data records for one frame.");
+                    return -1;
+                }
+
                 // pack DIF
                 if (parse_debug)
                     printf("%s: packing DIF [%zu]", __PRETTY_FUNCTION__, frame->data_size);
                 frame->data[frame->data_size++] = record->drh.dib.dif;
-                for (j = 0; j < record->drh.dib.ndife; j++)
+                for (j = 0; !special && j < record->drh.dib.ndife; j++)
                 {
                     frame->data[frame->data_size++] = record->drh.dib.dife[j];
                 }
@@ -4321,8 +4347,20 @@ mbus_frame_internal_pack(mbus_frame *frame, mbus_frame_data *frame_data)
                 // pack VIF
                 if (parse_debug)
                     printf("%s: packing VIF [%zu]", __PRETTY_FUNCTION__, frame->data_size);
-                frame->data[frame->data_size++] = record->drh.vib.vif;
-                for (j = 0; j < record->drh.vib.nvife; j++)
+                if (!special)
+                {
+                    frame->data[frame->data_size++] = record->drh.vib.vif;
+                }
+                if (!special && (record->drh.vib.vif & MBUS_DIB_VIF_WITHOUT_EXTENSION) == 0x7C)
+                {
+                    // the text is transmitted in reverse order
+                    frame->data[frame->data_size++] = custom_vif_len;
+                    for (j = custom_vif_len; j > 0; j--)
+                    {
+                        frame->data[frame->data_size++] = record->drh.vib.custom_vif[j-1];
+                    }
+                }
+                for (j = 0; !special && j < record->drh.vib.nvife; j++)
                 {
                     frame->data[frame->data_size++] = record->drh.vib.vife[j];
                 }
-- 
2.43.0

