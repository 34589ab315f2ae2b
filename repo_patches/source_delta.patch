From b33ff49c021d83fbe9b101e2157ef36ec3abcb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 01/34] fix: keep padded numbers inside the buffer and never
 shorten wide ones

---
 BufferedOut.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index a66c68c..23ae7d8 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -43,6 +43,10 @@ namespace embedded
 void BufferedOut::addPadding(const char* p)
 {
     auto realSize = p - pos;
+    if (integerWidth > dataBuf.end() - pos)
+    {
+        return; // the padded number does not fit
+    }
     if (realSize < integerWidth)
     {
         memmove(pos + integerWidth - realSize, pos, realSize);
@@ -53,7 +57,7 @@ void BufferedOut::addPadding(const char* p)
             *(paddingPos++) = fillChar;
         }
     }
-    pos += integerWidth;
+    pos += realSize < integerWidth ? integerWidth : realSize;
 }
 
 BufferedOut &BufferedOut::operator<<(const char* str)
-- 
2.43.0


From be3e367fc1952955bec0ec83592b2c93d14316ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 02/34] fix: do not write a hexadecimal byte past the end of
 the buffer

---
 BufferedOut.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index 23ae7d8..1dea5df 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -159,6 +159,10 @@ BufferedOut &BufferedOut::operator<<(ConstBytesView span)
 
 BufferedOut &BufferedOut::operator<<(unsigned char b)
 {
+    if (dataBuf.end() - pos < 2)
+    {
+        return *this;
+    }
     char digits[] = "0123456789ABCDEF";
     *(pos++) = digits[(b & 0xF0u) >> 4];
     *(pos++) = digits[b & 0xFu];
-- 
2.43.0


From d53a806c42c6be559d92cf9ee6c379d72eae0b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 03/34] fix: BufferedOut::data() must not truncate sizes to 16
 bits

---
 BufferedOut.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BufferedOut.h b/BufferedOut.h
index f7d791b..fccea3b 100644
--- a/BufferedOut.h
+++ b/BufferedOut.h
@@ -58,8 +58,8 @@ public:
         return *this;
     }
 
-    BytesView data() { return { (unsigned char*)(dataBuf.begin()), static_cast<uint16_t>(size()) }; }
-    ConstBytesView data() const { return { (unsigned char*)(dataBuf.begin()), static_cast<uint16_t>(size()) }; }
+    BytesView data() { return { (unsigned char*)(dataBuf.begin()), size() }; }
+    ConstBytesView data() const { return { (unsigned char*)(dataBuf.begin()), size() }; }
     std::string_view asStringView() const { return { dataBuf.begin(), size() }; }
 
     decltype(dataBuf)::size_type size() const { return pos - dataBuf.begin(); }
-- 
2.43.0


From 54cb57f9994415a080dba4b67b3b72953daf692e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 04/34] fix: floats keep the sign of -0.x, and never print
 garbage when not finite, out of range or cut

---
 BufferedOut.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index 1dea5df..4ff19fe 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -1,4 +1,5 @@
 #include <charconv>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
 #include "BufferedOut.h"
@@ -6,11 +7,28 @@
 namespace
 {
 
+char* append(char* dst, const char* end, const char* str);
+
 char* toChars(char* first, char* last, float val, unsigned int precision) noexcept
 {
+    if (!(val >= -2147483648.0f && val < 2147483648.0f))
+    {
+        // no integer part to print: not a number, infinite or out of range
+        return last - first < 3 ? first : append(first, last, std::isnan(val) ? "nan" : std::isinf(val) ? "inf" : "ovf");
+    }
     int n = int(val);
-    auto [pos, ec] = std::to_chars(first, last, n);
-    if (ec == std::errc {} && precision > 0 && pos < last)
+    // the integer part of a number between -1 and 0 cannot carry the sign
+    const bool addSign = val < 0 && n == 0 && precision > 0;
+    if (addSign && first != last)
+    {
+        *first = '-';
+    }
+    auto [pos, ec] = std::to_chars(addSign && first != last ? first + 1 : first, last, n);
+    if (ec != std::errc {})
+    {
+        return first;
+    }
+    if (precision > 0 && pos < last)
     {
         float f = std::abs(val) - std::abs(float(n));
         *(pos++) = '.';
-- 
2.43.0


From 413da3c9151d0a6aa3ee68825cbc171f23c9bad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 05/34] fix: PersistentStorage refuses names and values its
 record format cannot hold

---
 PersistentStorage.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PersistentStorage.h b/PersistentStorage.h
index 886370b..01db71f 100644
--- a/PersistentStorage.h
+++ b/PersistentStorage.h
@@ -50,6 +50,11 @@ public:
     template<typename T>
     bool set(std::string_view idx, const T &object)
     {
+        if (idx.size() > sizeof(NodeDescriptor::idx) || sizeof(Node<T>) > std::numeric_limits<std::uint16_t>::max())
+        {
+            // the record format cannot represent the entry
+            return false;
+        }
         if (const auto pos = getIdx<T>(idx); pos != wrongPos)
         {
             auto &node = getNode<T>(pos);
-- 
2.43.0


From 8c66ae75589fba62308d476d9060c48508d924d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 06/34] fix: PersistentStorage ends the record chain at a size
 too small for a record

---
 PersistentStorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PersistentStorage.cpp b/PersistentStorage.cpp
index 6275db5..520f68e 100644
--- a/PersistentStorage.cpp
+++ b/PersistentStorage.cpp
@@ -10,7 +10,7 @@ embedded::PersistentStorage::PersistentStorage(BytesView storage, bool init)
     else
     {
         while(free_head_ + sizeof(NodeDescriptor) <= buffer_.size()
-              && reinterpret_cast<const NodeDescriptor&>(buffer_[free_head_]).size != 0
+              && reinterpret_cast<const NodeDescriptor&>(buffer_[free_head_]).size >= sizeof(NodeDescriptor)
               && free_head_ + getNodeDescriptor(free_head_).size <= buffer_.size())
         {
             free_head_ += getNodeDescriptor(free_head_).size;
-- 
2.43.0


From d4a6527ee68c19cdc1a1b7e216a711f59e7b179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 07/34] fix: define PersistentStorage::DescriptorSize

---
 PersistentStorage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PersistentStorage.cpp b/PersistentStorage.cpp
index 520f68e..390e321 100644
--- a/PersistentStorage.cpp
+++ b/PersistentStorage.cpp
@@ -1,5 +1,7 @@
 #include "PersistentStorage.h"
 
+const size_t embedded::PersistentStorage::DescriptorSize = sizeof(NodeDescriptor);
+
 embedded::PersistentStorage::PersistentStorage(BytesView storage, bool init)
 : buffer_(storage), free_head_(0)
 {
-- 
2.43.0


From bb1b981c26cf90bf0790c006273cc54b32ee24f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 08/34] fix: EmbeddedFont finds the glyphs of the codes above
 0x7F, and none for 0x7F to 0x9F

---
 graphics/EmbeddedFont.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index 5007c81..e3ce9f1 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -6,13 +6,18 @@ namespace embedded::fonts
 
 EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(const char symbol) const
 {
-    if (symbol < fontDescriptor.first || symbol > fontDescriptor.last)
+    const auto code = static_cast<unsigned char>(symbol);
+    if (code < fontDescriptor.first || code > fontDescriptor.last)
     {
         return getBitmap(fontDescriptor.first);
     }
-    auto pos = symbol - fontDescriptor.first;
-    if (symbol > '~')
+    auto pos = code - fontDescriptor.first;
+    if (code > '~' && fontDescriptor.first <= '~')
     {
+        if (code < 0xA0)
+        {
+            return getBitmap(fontDescriptor.first);
+        }
         pos -= (0xA0 - '~' - 1);
     }
 
-- 
2.43.0


From 1a20b563be0795a589425cd34ed40e1f7b0bd6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 09/34] fix: glyph bitmap ends at the next glyph, and does not
 read past the last descriptor

---
 graphics/EmbeddedFont.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index e3ce9f1..12e6963 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -28,7 +28,7 @@ EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(const char symbol) const
     const auto &glyph = fontDescriptor.glyph[pos];
     const auto bitmapBegin = fontDescriptor.bitmap.begin() + glyph.bitmapOffset;
     ++pos;
-    const auto bitmapEnd = (pos != fontDescriptor.glyph.size()) ?
+    const auto bitmapEnd = (pos == fontDescriptor.glyph.size()) ?
                            fontDescriptor.bitmap.end() :
                            fontDescriptor.bitmap.begin() + fontDescriptor.glyph[pos].bitmapOffset;
     return EmbeddedFont::CharacterBitmap { .bitmap { bitmapBegin, static_cast<uint16_t>(bitmapEnd - bitmapBegin) },
-- 
2.43.0


From a97fbb45eb13630612c48829cbf592ebbfedd517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 10/34] fix: text bounds contain the drawn text

---
 graphics/EmbeddedFont.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index 12e6963..bb5fd27 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -44,21 +44,22 @@ Rect<int> EmbeddedFont::getTextBounds(std::string_view view) const
     {
         int maxBottom = -255;
         int minTop = 0;
+        int minLeft = 0;
+        int maxRight = 0;
+        int pen = 0;
         for (std::size_t i = 0; i < view.size(); ++i)
         {
             const auto& bitmap = getBitmap(view[i]);
-            if (i == 0)
-            {
-                result.topLeft.x = - bitmap.offset.width;
-                result.size.width = bitmap.effectiveSize.width;
-            }
-            else
-            {
-                result.size.width += (i < view.size() - 1) ? bitmap.width : bitmap.effectiveSize.width;
-            }
+            const int left = pen + bitmap.offset.width;
+            const int right = left + bitmap.effectiveSize.width;
+            minLeft = (i == 0) ? left : std::min(minLeft, left);
+            maxRight = (i == 0) ? right : std::max(maxRight, right);
+            pen += bitmap.width;
             maxBottom = std::max(maxBottom, (int)bitmap.offset.height + bitmap.effectiveSize.height);
             minTop = std::min(minTop, (int)bitmap.offset.height);
         }
+        result.topLeft.x = - minLeft;
+        result.size.width = maxRight - minLeft;
         result.size.height = maxBottom - minTop;
         result.topLeft.y = - minTop;
     }
-- 
2.43.0


From 15249e91f8551f15d6a5df5bdd25f723bb2bf017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 11/34] fix: frame buffers deeper than one bit report their
 declared width

---
 graphics/SimpleFrameBuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphics/SimpleFrameBuffer.h b/graphics/SimpleFrameBuffer.h
index e56f72c..4896673 100644
--- a/graphics/SimpleFrameBuffer.h
+++ b/graphics/SimpleFrameBuffer.h
@@ -9,7 +9,7 @@ public:
     explicit SimpleFrameBuffer() noexcept
     {
         static_assert(colorDepth == 1 || colorDepth == 2 || colorDepth == 4 || colorDepth == 8 || colorDepth == 16 || colorDepth == 24 || colorDepth == 32, "Invalid color depth");
-        static_assert(width * (1 << (colorDepth - 1)) % 8 == 0, "Width must be byte-aligned");
+        static_assert(width * colorDepth % 8 == 0, "Width must be byte-aligned");
         selectedColor = (1 << colorDepth) - 1;
     }
     int getWidth() const override { return effectiveWidth; }
@@ -88,7 +88,7 @@ public:
     }
 private:
     static constexpr int bitsPerPixel = colorDepth;
-    static constexpr int effectiveWidth = (width * bitsPerPixel / 8) * 8;
+    static constexpr int effectiveWidth = width;
     static constexpr size_t bufferSize = effectiveWidth * height * bitsPerPixel / 8;
     std::array<uint8_t, bufferSize> buffer;
     uint32_t selectedColor;
-- 
2.43.0


From 40c85077f718c46ebd5e86cbec2d4968ee2ba71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 12/34] fix: colour masks of 32 bit frame buffers

---
 graphics/SimpleFrameBuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphics/SimpleFrameBuffer.h b/graphics/SimpleFrameBuffer.h
index 4896673..6d23ffd 100644
--- a/graphics/SimpleFrameBuffer.h
+++ b/graphics/SimpleFrameBuffer.h
@@ -10,7 +10,7 @@ public:
     {
         static_assert(colorDepth == 1 || colorDepth == 2 || colorDepth == 4 || colorDepth == 8 || colorDepth == 16 || colorDepth == 24 || colorDepth == 32, "Invalid color depth");
         static_assert(width * colorDepth % 8 == 0, "Width must be byte-aligned");
-        selectedColor = (1 << colorDepth) - 1;
+        selectedColor = (uint64_t(1) << colorDepth) - 1;
     }
     int getWidth() const override { return effectiveWidth; }
     int getHeight() const override { return height; }
@@ -33,7 +33,7 @@ public:
 
     void setColor(uint32_t color) override
     {
-        selectedColor = color & ((1 << colorDepth) - 1);
+        selectedColor = color & ((uint64_t(1) << colorDepth) - 1);
     }
 
     void drawPixel(int posX, int posY, uint32_t color)
-- 
2.43.0


From 78d70fb9f9ee9fbdc6edce29c670821a6c1f4875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 13/34] fix: position of the pixels in 2 bit frame buffers

---
 graphics/SimpleFrameBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphics/SimpleFrameBuffer.h b/graphics/SimpleFrameBuffer.h
index 6d23ffd..662cd0f 100644
--- a/graphics/SimpleFrameBuffer.h
+++ b/graphics/SimpleFrameBuffer.h
@@ -55,7 +55,7 @@ public:
         {
             const auto mask = 0xC0 >> (posX % 4) * 2;
             buffer[pixelOffset] &= ~mask;
-            buffer[pixelOffset] |= (color & 3) << (2 - (posX % 4) * 2);
+            buffer[pixelOffset] |= (color & 3) << (6 - (posX % 4) * 2);
         }
         else if constexpr (colorDepth == 4)
         {
-- 
2.43.0


From 856d92d46d6c12b8381dbffaccfc4690c626e53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 14/34] fix: the outline of an empty rectangle has no pixels

---
 graphics/Canvas.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphics/Canvas.cpp b/graphics/Canvas.cpp
index 7d9e604..a760b75 100644
--- a/graphics/Canvas.cpp
+++ b/graphics/Canvas.cpp
@@ -97,6 +97,10 @@ void Canvas::drawVerticalLine(Point startPos, const int line_height)
 
 void Canvas::drawRectangle(Rect rect)
 {
+    if (rect.size.width <= 0 || rect.size.height <= 0)
+    {
+        return;
+    }
     rect = transformCoords(rect);
     drawHorizontalLine(rect.topLeft, rect.size.width);
     drawHorizontalLine(rect.bottomLeft(), rect.size.width);
-- 
2.43.0


From 5b1f68875c398dbfd0cdfe8f849ae04a2a5a4b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 15/34] fix: EncodingConverter starts anew after each character
 and takes 4 byte characters

---
 gfx-font-converter/EncodingConverter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gfx-font-converter/EncodingConverter.cpp b/gfx-font-converter/EncodingConverter.cpp
index b3f435a..743356c 100644
--- a/gfx-font-converter/EncodingConverter.cpp
+++ b/gfx-font-converter/EncodingConverter.cpp
@@ -31,7 +31,7 @@ std::string EncodingConverter::convert(char symbol) {
     {
         if (errno == EINVAL)
         {
-            inSize = (inSize + 1) % 3;
+            inSize = (inSize + 1) % 4;
         }
         else
         {
@@ -39,6 +39,7 @@ std::string EncodingConverter::convert(char symbol) {
         }
         return {};
     }
+    inSize = 0;
     return {outBuf, sizeof(outBuf) - outBytesLeft};
 }
 
@@ -56,7 +57,7 @@ uint32_t EncodingConverter::convertRaw(char symbol) {
     {
         if (errno == EINVAL)
         {
-            inSize = (inSize + 1) % 3;
+            inSize = (inSize + 1) % 4;
         }
         else
         {
@@ -64,5 +65,6 @@ uint32_t EncodingConverter::convertRaw(char symbol) {
         }
         return {};
     }
+    inSize = 0;
     return outBuf.result;
 }
-- 
2.43.0


From 9edafb0cfb59a3f6252ee00fbaf33c7e66d7d340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 16/34] fix: EncodingConverter does not hold characters back

---
 gfx-font-converter/EncodingConverter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gfx-font-converter/EncodingConverter.cpp b/gfx-font-converter/EncodingConverter.cpp
index 743356c..00ea625 100644
--- a/gfx-font-converter/EncodingConverter.cpp
+++ b/gfx-font-converter/EncodingConverter.cpp
@@ -40,6 +40,8 @@ std::string EncodingConverter::convert(char symbol) {
         return {};
     }
     inSize = 0;
+    // some encodings hold a character back as it might combine with the next one
+    iconv(descriptor, nullptr, nullptr, &outptr, &outBytesLeft);
     return {outBuf, sizeof(outBuf) - outBytesLeft};
 }
 
@@ -66,5 +68,7 @@ uint32_t EncodingConverter::convertRaw(char symbol) {
         return {};
     }
     inSize = 0;
+    // some encodings hold a character back as it might combine with the next one
+    iconv(descriptor, nullptr, nullptr, &outptr, &outBytesLeft);
     return outBuf.result;
 }
-- 
2.43.0


From 4dea064360497d94e625b5bf5cc87ccfd4044e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 17/34] fix: font converter reports FreeType errors instead of
 crashing on them

---
 gfx-font-converter/FreeTypeError.h     | 11 +++++++++++
 gfx-font-converter/FreeTypeFace.cpp    |  7 ++++---
 gfx-font-converter/FreeTypeLibrary.cpp |  5 +++--
 3 files changed, 18 insertions(+), 5 deletions(-)
 create mode 100644 gfx-font-converter/FreeTypeError.h

diff --git a/gfx-font-converter/FreeTypeError.h b/gfx-font-converter/FreeTypeError.h
new file mode 100644
index 0000000..2e17658
--- /dev/null
+++ b/gfx-font-converter/FreeTypeError.h
@@ -0,0 +1,11 @@
+#pragma once
+
+#include <string>
+#include <freetype/freetype.h>
+
+// FreeType built without error strings has no text for any error
+inline std::string getFreeTypeErrorText(FT_Error errorCode)
+{
+    const auto text = FT_Error_String(errorCode);
+    return text ? std::string(text) : "error " + std::to_string(errorCode);
+}
diff --git a/gfx-font-converter/FreeTypeFace.cpp b/gfx-font-converter/FreeTypeFace.cpp
index 1095e75..b980705 100644
--- a/gfx-font-converter/FreeTypeFace.cpp
+++ b/gfx-font-converter/FreeTypeFace.cpp
@@ -1,6 +1,7 @@
 #include "FreeTypeFace.h"
 
 #include "FreeTypeGlyph.h"
+#include "FreeTypeError.h"
 
 #include <string>
 #include <stdexcept>
@@ -11,7 +12,7 @@ void FreeTypeFace::setCharSize(FT_F26Dot6 width, FT_F26Dot6 height, int horzReso
     if (const auto errorCode = FT_Set_Char_Size(ftFace.get(), width, height, horzResolution, vertResolution);
             errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to set FreeType face char size: ") + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to set FreeType face char size: ") + getFreeTypeErrorText(errorCode));
     }
 }
 
@@ -19,11 +20,11 @@ FreeTypeGlyph FreeTypeFace::renderGlyph(uint32_t symbol, int loadFlags, FT_Rende
 {
     if (const auto errorCode = FT_Load_Char(ftFace.get(), symbol, loadFlags); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to load FreeType face char code ") + std::to_string(symbol) + ": " + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to load FreeType face char code ") + std::to_string(symbol) + ": " + getFreeTypeErrorText(errorCode));
     }
     if (const auto errorCode = FT_Render_Glyph(ftFace->glyph, renderMode); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to render FreeType face char code ") + std::to_string(symbol) + ": " + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to render FreeType face char code ") + std::to_string(symbol) + ": " + getFreeTypeErrorText(errorCode));
     }
 
     if (FT_Glyph ftGlyph; FT_Get_Glyph(ftFace->glyph, &ftGlyph) != 0)
diff --git a/gfx-font-converter/FreeTypeLibrary.cpp b/gfx-font-converter/FreeTypeLibrary.cpp
index 5b144df..5d0e537 100644
--- a/gfx-font-converter/FreeTypeLibrary.cpp
+++ b/gfx-font-converter/FreeTypeLibrary.cpp
@@ -1,6 +1,7 @@
 #include "FreeTypeLibrary.h"
 
 #include "FreeTypeFace.h"
+#include "FreeTypeError.h"
 
 #include <freetype/ftdriver.h>
 #include <freetype/ftmodapi.h>
@@ -13,7 +14,7 @@ FreeTypeLibrary::FreeTypeLibrary()
     FT_Library ftLibraryRaw;
     if (const auto errorCode = FT_Init_FreeType(&ftLibraryRaw); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to initialize FreeType library: ") + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to initialize FreeType library: ") + getFreeTypeErrorText(errorCode));
     }
     ftLibrary.reset(ftLibraryRaw);
     FT_UInt interpreter_version = TT_INTERPRETER_VERSION_35;
@@ -26,7 +27,7 @@ FreeTypeFace FreeTypeLibrary::createFace(const std::string& fontPath, int faceIn
     FT_Face ftFaceRaw;
     if (const auto errorCode = FT_New_Face(ftLibrary.get(), fontPath.c_str(), faceIndex, &ftFaceRaw); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to create FreeType face: ") + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to create FreeType face: ") + getFreeTypeErrorText(errorCode));
     }
     return FreeTypeFace(ftFaceRaw);
 }
\ No newline at end of file
-- 
2.43.0


From 7c6a979621f52289869f007d94252f0173510f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 18/34] fix: font converter refuses glyphs its output format
 cannot hold

---
 gfx-font-converter/main.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index 195ff2c..86453be 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -289,6 +289,7 @@ int main(int argc, char* argv[])
             VectorStream vectorStream(bitmapData);
             BitStream bitStream(vectorStream);
             EncodingConverter iconvHolder(config.getEncoding().c_str(), "UCS-4LE");
+            size_t bitmapOffset = 0;
             for (auto i = first, j = 0; i <= last; i = (i == '~') ? 0xA0 : i + 1, ++j)
             {
                 auto glyph = ftFace.renderGlyph(iconvHolder.convertRaw(i), FT_LOAD_TARGET_MONO, FT_RENDER_MODE_MONO);
@@ -307,6 +308,15 @@ int main(int argc, char* argv[])
                 }
                 bitStream.flush();
                 const auto bitmapSize = bitmapData.size();
+                const auto advance = bitmapGlyphRec.root.advance.x >> 16;
+                const auto top = 1 - bitmapGlyphRec.top;
+                if (bitmap.width > 255 || bitmap.rows > 255 || advance < 0 || advance > 255
+                    || bitmapGlyphRec.left < -128 || bitmapGlyphRec.left > 127 || top < -128 || top > 127
+                    || bitmapOffset > 65535)
+                {
+                    throw std::runtime_error("glyph of the code " + std::to_string(i) + " does not fit the output format");
+                }
+                bitmapOffset += bitmapSize;
                 table.emplace_back(GlyphData { { static_cast<uint16_t>(bitmapSize), {
                         static_cast<unsigned char>(bitmap.width), static_cast<unsigned char>(bitmap.rows) }
                                             , static_cast<uint8_t>(bitmapGlyphRec.root.advance.x >> 16), {
@@ -357,6 +367,10 @@ int main(int argc, char* argv[])
         }
         else if (config.getFormat() == FontConverterConfig::Format::Header)
         {
+            if (const auto height = ftFace.getSizeMetricHeihgt(); height < 0 || height >= 256)
+            {
+                throw std::runtime_error("line height does not fit the output format");
+            }
             writeHeaderFile(fontName, outputDir, config.getEncoding(), table, first, last,
                             ftFace.getSizeMetricHeihgt());
         }
-- 
2.43.0


From 19ad6a8b2863070560a5043638002bf38e25662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 19/34] fix: font converter reports output files it could not
 write

---
 gfx-font-converter/main.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index 86453be..f3cbbb8 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -206,6 +206,15 @@ private:
     std::vector<uint8_t> &vector;
 };
 
+void closeOutputFile(std::ofstream &outputFile, const std::string &outputFileName)
+{
+    outputFile.close();
+    if (!outputFile)
+    {
+        throw std::runtime_error("output file " + outputFileName + " was not written");
+    }
+}
+
 void writeHeaderFile(const std::string &fontName, const std::filesystem::path &outputDir
                      , const std::string &encoding, const std::vector<GlyphData> &glyphData
                      , int first, int last, int sizeMetricsHeight)
@@ -250,6 +259,7 @@ void writeHeaderFile(const std::string &fontName, const std::filesystem::path &o
 
     const auto view = bufferedOut.asStringView();
     outputFile.write(view.data(), view.end() - view.begin());
+    closeOutputFile(outputFile, outputFileName);
 }
 
 int main(int argc, char* argv[])
@@ -340,6 +350,7 @@ int main(int argc, char* argv[])
                 {
                     outputFile.write(reinterpret_cast<const char*>(glyph.bitmapData.data()), glyph.bitmapData.size());
                 }
+                closeOutputFile(outputFile, bitmapsFileName);
             }
             {
                 std::ofstream outputFile;
@@ -363,6 +374,7 @@ int main(int argc, char* argv[])
                     offset += glyph.bitmapData.size();
                     outputFile.write(descriptor.bytes.cbegin(), descriptor.bytes.size());
                 }
+                closeOutputFile(outputFile, glyphsFileName);
             }
         }
         else if (config.getFormat() == FontConverterConfig::Format::Header)
-- 
2.43.0


From 9cf6aa4a5b721c5e92502feb831673f5c8c3f846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 20/34] fix: font header names are valid identifiers for every
 font file name

---
 gfx-font-converter/main.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index f3cbbb8..f214106 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -1,5 +1,6 @@
 #include "graphics/GFXFontsAdapter.h"
 
+#include <cctype>
 #include <filesystem>
 #include <fstream>
 #include <iomanip>
@@ -206,6 +207,18 @@ private:
     std::vector<uint8_t> &vector;
 };
 
+std::string toIdentifier(std::string name)
+{
+    for (auto &c : name)
+    {
+        if (!std::isalnum(static_cast<unsigned char>(c)))
+        {
+            c = '_';
+        }
+    }
+    return !name.empty() && std::isdigit(static_cast<unsigned char>(name.front())) ? "_" + name : name;
+}
+
 void closeOutputFile(std::ofstream &outputFile, const std::string &outputFileName)
 {
     outputFile.close();
@@ -215,12 +228,13 @@ void closeOutputFile(std::ofstream &outputFile, const std::string &outputFileNam
     }
 }
 
-void writeHeaderFile(const std::string &fontName, const std::filesystem::path &outputDir
+void writeHeaderFile(const std::string &fontFileName, const std::filesystem::path &outputDir
                      , const std::string &encoding, const std::vector<GlyphData> &glyphData
                      , int first, int last, int sizeMetricsHeight)
 {
     std::ofstream outputFile;
-    const auto outputFileName = (outputDir / (fontName + ".h")).string();
+    const auto fontName = toIdentifier(fontFileName);
+    const auto outputFileName = (outputDir / (fontFileName + ".h")).string();
     outputFile.open(outputFileName, std::ios::out);
     if (!outputFile.is_open())
     {
-- 
2.43.0


From f6d7661fb4ede0a204100f62df23413e226cac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 21/34] fix: font header of a font without any bitmap is valid
 C++

---
 gfx-font-converter/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index f214106..5e99dae 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -68,6 +68,10 @@ public:
 
     ~HexStringStream()
     {
+        if (totalBytesWritten == 0)
+        {
+            *this << uint8_t(0); // an array cannot be empty
+        }
         getBufferedOut() << " };\n\n";
     }
 
-- 
2.43.0


From 21779852da32e3eddfa0cbbd68295812d028b0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 22/34] fix: Arduino UART timeouts across the wrap of the
 millisecond counter

---
 arduino/PacketUart.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/arduino/PacketUart.cpp b/arduino/PacketUart.cpp
index 168ef20..6fe7c92 100644
--- a/arduino/PacketUart.cpp
+++ b/arduino/PacketUart.cpp
@@ -10,10 +10,9 @@ static_assert(std::is_convertible_v<PacketUart::UartDevice, HardwareSerial>);;
 
 uint16_t PacketUart::Receive(uint8_t* buffer, uint16_t bufferSize, uint16_t timeout)
 {
-    auto startTime = millis();
-    auto maxTime = startTime + timeout;
+    const uint32_t startTime = millis();
     uint16_t currentPos = 0;
-    while (millis() < maxTime && currentPos < bufferSize)
+    while (uint32_t(millis() - startTime) < timeout && currentPos < bufferSize)
     {
         int nextByte = uartDevice.read();
         if (nextByte >= 0)
@@ -67,9 +66,8 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
     {
         uartDevice.setTimeout(timeoutMilliseconds);
     }
-    auto startTime = millis();
-    auto maxTime = startTime + timeoutMilliseconds;
-    while (timeoutMilliseconds == 0 || millis() < maxTime)
+    const uint32_t startTime = millis();
+    while (timeoutMilliseconds == 0 || uint32_t(millis() - startTime) < timeoutMilliseconds)
     {
         int nextByte = uartDevice.read();
         if (nextByte == startByte)
-- 
2.43.0


From 95eaba4b350139a086c000409020ff5809c71b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 23/34] fix: Arduino UART does not invent an end byte, nor
 write past small buffers

---
 arduino/PacketUart.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/arduino/PacketUart.cpp b/arduino/PacketUart.cpp
index 6fe7c92..6a852db 100644
--- a/arduino/PacketUart.cpp
+++ b/arduino/PacketUart.cpp
@@ -48,8 +48,13 @@ uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t
     {
         uartDevice.setTimeout(timeoutMilliseconds);
     }
-    currentPos += uartDevice.readBytesUntil((char)endByte, buffer, bufferSize - 1);
-    buffer[currentPos++] = endByte;
+    while (currentPos < bufferSize && uartDevice.readBytes(buffer + currentPos, 1) == 1)
+    {
+        if (buffer[currentPos++] == endByte)
+        {
+            break;
+        }
+    }
     uartDevice.setTimeout(oldTimeout);
     return currentPos;
 }
@@ -60,6 +65,8 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
                                     uint8_t endByte,
                                     uint16_t timeoutMilliseconds)
 {
+    if (bufferSize < 2)
+        return 0;
     uint16_t currentPos = 0;
     auto oldTimeout = uartDevice.getTimeout();
     if (timeoutMilliseconds > 0)
@@ -73,8 +80,13 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
         if (nextByte == startByte)
         {
             buffer[currentPos++] = (uint8_t)nextByte;
-            currentPos += uartDevice.readBytesUntil((char)endByte, buffer + currentPos, bufferSize - currentPos - 1);
-            buffer[currentPos++] = endByte;
+            while (currentPos < bufferSize && uartDevice.readBytes(buffer + currentPos, 1) == 1)
+            {
+                if (buffer[currentPos++] == endByte)
+                {
+                    break;
+                }
+            }
             break;
         }
     }
-- 
2.43.0


From a6b81e77b7f42b99e4ebc58e11bb61c60627fe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 24/34] fix: ESP-IDF UART does not report driver errors as
 transferred bytes

---
 esp32-esp-idf/PacketUart.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esp32-esp-idf/PacketUart.cpp b/esp32-esp-idf/PacketUart.cpp
index ad71e6e..0d5f073 100644
--- a/esp32-esp-idf/PacketUart.cpp
+++ b/esp32-esp-idf/PacketUart.cpp
@@ -9,12 +9,12 @@ namespace embedded
 
 uint16_t PacketUart::Receive(uint8_t* buffer, uint16_t bufferSize, uint16_t timeout)
 {
-    return uartDevice.receiveBlocking(buffer, bufferSize, timeout);
+    return std::max(uartDevice.receiveBlocking(buffer, bufferSize, timeout), 0);
 }
 
 uint16_t PacketUart::Send(const uint8_t* buffer, uint16_t bufferSize, uint32_t /*timeoutMilliseconds*/) const
 {
-    return uartDevice.sendBlocking(buffer, bufferSize);
+    return std::max(uartDevice.sendBlocking(buffer, bufferSize), 0);
 }
 
 uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t endByte, uint16_t timeoutMilliseconds)
-- 
2.43.0


From 57d2704b244f2cae9ec79ee8841f700cc602f4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 25/34] fix: ESP-IDF UART timeouts across the counter wrap and
 while unrelated data arrives

---
 esp32-esp-idf/PacketUart.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/esp32-esp-idf/PacketUart.cpp b/esp32-esp-idf/PacketUart.cpp
index 0d5f073..6869269 100644
--- a/esp32-esp-idf/PacketUart.cpp
+++ b/esp32-esp-idf/PacketUart.cpp
@@ -20,12 +20,12 @@ uint16_t PacketUart::Send(const uint8_t* buffer, uint16_t bufferSize, uint32_t /
 uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t endByte, uint16_t timeoutMilliseconds)
 {
     uint16_t currentPos = 0;
-    auto startTime = embedded::getMillisecondTicks();
-    auto maxTime = startTime + timeoutMilliseconds;
+    const auto startTime = embedded::getMillisecondTicks();
+    uint32_t elapsed = 0;
     while ( currentPos < bufferSize
-            && (timeoutMilliseconds == 0 || (startTime = embedded::getMillisecondTicks()) < maxTime))
+            && (timeoutMilliseconds == 0 || (elapsed = embedded::getMillisecondTicks() - startTime) < timeoutMilliseconds))
     {
-        if (uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
+        if (uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)
         {
             if (buffer[currentPos++] == endByte)
             {
@@ -46,14 +46,19 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
     if (bufferSize < 2)
         return 0;
     uint16_t currentPos = 0;
-    auto startTime = embedded::getMillisecondTicks();
-    auto maxTime = startTime + timeoutMilliseconds;
-    while (startTime <= maxTime)
+    const auto startTime = embedded::getMillisecondTicks();
+    uint32_t elapsed = 0;
+    bool started = false;
+    while (!started)
     {
-        if(uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
+        elapsed = embedded::getMillisecondTicks() - startTime;
+        if (elapsed > timeoutMilliseconds)
         {
-            if (buffer[currentPos] == startByte)
-                break;
+            return 0;
+        }
+        if(uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)
+        {
+            started = buffer[currentPos] == startByte;
         }
         else
         {
@@ -61,11 +66,11 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
         }
     }
     ++currentPos;
-    while ((startTime = embedded::getMillisecondTicks()) <= maxTime)
+    while ((elapsed = embedded::getMillisecondTicks() - startTime) <= timeoutMilliseconds)
     {
         if (currentPos == bufferSize)
             break;
-        if(uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
+        if(uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)
         {
             if (buffer[currentPos++] == endByte)
                 break;
-- 
2.43.0


From df3ab38f37e9d80ed7e7abe53866186006890c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 26/34] fix: ESP-IDF SPI bus and device are released, also when
 the set-up fails half-way

---
 esp32-esp-idf/SpiBus.cpp | 24 +++++++++++++++++++-----
 esp32-esp-idf/SpiBus.h   |  1 +
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/esp32-esp-idf/SpiBus.cpp b/esp32-esp-idf/SpiBus.cpp
index 29a7a50..6e3e8e7 100644
--- a/esp32-esp-idf/SpiBus.cpp
+++ b/esp32-esp-idf/SpiBus.cpp
@@ -61,6 +61,7 @@ bool embedded::SpiBus::init(embedded::GpioPinDefinition &sck,
     {
         return false;
     }
+    busInitialized = true;
 
     spi_device_interface_config_t devcfg={};
     devcfg.mode=0;
@@ -72,19 +73,32 @@ bool embedded::SpiBus::init(embedded::GpioPinDefinition &sck,
         devcfg.flags |= SPI_DEVICE_HALFDUPLEX;
     }
 
-    return spi_bus_add_device(static_cast<spi_host_device_t>(spiBusNumber), &devcfg, &spiDevice) == ESP_OK;
+    if (spi_bus_add_device(static_cast<spi_host_device_t>(spiBusNumber), &devcfg, &spiDevice) != ESP_OK)
+    {
+        spiDevice = nullptr;
+        release();
+        return false;
+    }
+    return true;
 }
 
 bool embedded::SpiBus::release()
 {
     if (spiDevice != nullptr)
     {
-        if (spi_bus_remove_device(spiDevice))
+        if (spi_bus_remove_device(spiDevice) != ESP_OK)
         {
-            spiDevice = nullptr;
-            return spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) == ESP_OK;
+            return false;
         }
-        return false;
+        spiDevice = nullptr;
+    }
+    if (busInitialized)
+    {
+        if (spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) != ESP_OK)
+        {
+            return false;
+        }
+        busInitialized = false;
     }
     return true;
 }
diff --git a/esp32-esp-idf/SpiBus.h b/esp32-esp-idf/SpiBus.h
index ee9905e..a30ebfe 100644
--- a/esp32-esp-idf/SpiBus.h
+++ b/esp32-esp-idf/SpiBus.h
@@ -27,6 +27,7 @@ public:
 private:
     int spiBusNumber;
     spi_device_t* spiDevice = nullptr;
+    bool busInitialized = false;
     uint32_t maxTransferSize = 0;
 };
 
-- 
2.43.0


From 79a218ca0ad813f2dd2e9ba616df83f9e66e7d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 27/34] fix: ESP-IDF analog read releases the converter unit

---
 esp32-esp-idf/AnalogPin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp32-esp-idf/AnalogPin.cpp b/esp32-esp-idf/AnalogPin.cpp
index a3393e3..2d146b0 100644
--- a/esp32-esp-idf/AnalogPin.cpp
+++ b/esp32-esp-idf/AnalogPin.cpp
@@ -49,9 +49,10 @@ int singleReadADC(const adc_unit_t unit, adc_channel_t channel)
         {
             if (adc_oneshot_read(handle, channel, &result) != ESP_OK)
             {
-                return -1;
+                result = -1;
             }
         }
+        adc_oneshot_del_unit(handle);
     }
     return result;
 }
-- 
2.43.0


From 90ea821f24f606ef73cc069b118812599d8e3b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 28/34] fix: light sleep lasts as long as asked across the
 counter wrap

---
 esp32-esp-idf/SleepFunctions.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/esp32-esp-idf/SleepFunctions.h b/esp32-esp-idf/SleepFunctions.h
index 0612df6..1c92f3d 100644
--- a/esp32-esp-idf/SleepFunctions.h
+++ b/esp32-esp-idf/SleepFunctions.h
@@ -9,17 +9,17 @@ namespace embedded
 void ligntSleep(uint32_t milliseconds)
 {
     uint32_t tickstart = getMillisecondTicks();
-    uint32_t wait = tickstart + milliseconds;
+    uint32_t elapsed = 0;
 
-    while ((getMillisecondTicks() < wait))
+    while ((elapsed = getMillisecondTicks() - tickstart) < milliseconds)
     {
-        esp_sleep_enable_timer_wakeup((wait - getMillisecondTicks()) * 1000);
+        esp_sleep_enable_timer_wakeup((milliseconds - elapsed) * 1000ull);
         if (esp_light_sleep_start() != ESP_OK)
         {
-            auto current = getMillisecondTicks();
-            if (wait > current)
+            elapsed = getMillisecondTicks() - tickstart;
+            if (elapsed < milliseconds)
             {
-                delay(wait - current);
+                delay(milliseconds - elapsed);
             }
         }
     }
-- 
2.43.0


From bd47a75aacf364b9a8702988684941016c7bafbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 29/34] fix: EncodingConverter forgets characters the target
 encoding cannot represent

---
 gfx-font-converter/EncodingConverter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gfx-font-converter/EncodingConverter.cpp b/gfx-font-converter/EncodingConverter.cpp
index 00ea625..b97b475 100644
--- a/gfx-font-converter/EncodingConverter.cpp
+++ b/gfx-font-converter/EncodingConverter.cpp
@@ -36,12 +36,15 @@ std::string EncodingConverter::convert(char symbol) {
         else
         {
             inSize = 0;
+            iconv(descriptor, nullptr, nullptr, nullptr, nullptr);
         }
         return {};
     }
     inSize = 0;
     // some encodings hold a character back as it might combine with the next one
     iconv(descriptor, nullptr, nullptr, &outptr, &outBytesLeft);
+    // which the target encoding need not have
+    iconv(descriptor, nullptr, nullptr, nullptr, nullptr);
     return {outBuf, sizeof(outBuf) - outBytesLeft};
 }
 
@@ -64,11 +67,14 @@ uint32_t EncodingConverter::convertRaw(char symbol) {
         else
         {
             inSize = 0;
+            iconv(descriptor, nullptr, nullptr, nullptr, nullptr);
         }
         return {};
     }
     inSize = 0;
     // some encodings hold a character back as it might combine with the next one
     iconv(descriptor, nullptr, nullptr, &outptr, &outBytesLeft);
+    // which the target encoding need not have
+    iconv(descriptor, nullptr, nullptr, nullptr, nullptr);
     return outBuf.result;
 }
-- 
2.43.0


From 2266abacea1fd84008998f34139d37618ae0d785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:31 +0000
Subject: [PATCH 30/34] fix: the font converter accepts the documented long
 options

---
 gfx-font-converter/FontConverterConfig.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gfx-font-converter/FontConverterConfig.cpp b/gfx-font-converter/FontConverterConfig.cpp
index 0b5e7a3..7ad740d 100644
--- a/gfx-font-converter/FontConverterConfig.cpp
+++ b/gfx-font-converter/FontConverterConfig.cpp
@@ -8,7 +8,15 @@ FontConverterConfig::FontConverterConfig(int argc, char** argv)
 {
     int opt;
     encoding = "ASCII";
-    while ((opt = getopt(argc, argv, "f:o:d:s:e:bh")) != -1)
+    static const option longOptions[] = {
+            { "font", required_argument, nullptr, 'f' },
+            { "output", required_argument, nullptr, 'o' },
+            { "dpi", required_argument, nullptr, 'd' },
+            { "size", required_argument, nullptr, 's' },
+            { "encoding", required_argument, nullptr, 'e' },
+            { nullptr, 0, nullptr, 0 }
+    };
+    while ((opt = getopt_long(argc, argv, "f:o:d:s:e:bh", longOptions, nullptr)) != -1)
     {
         switch (opt)
         {
-- 
2.43.0


From 84225448c1610ab1aab8e74619fe13f0b0da0af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:31 +0000
Subject: [PATCH 31/34] fix: the font converter reports numbers it cannot parse
 instead of aborting

---
 gfx-font-converter/FontConverterConfig.cpp | 25 ++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/gfx-font-converter/FontConverterConfig.cpp b/gfx-font-converter/FontConverterConfig.cpp
index 7ad740d..2e0d3e4 100644
--- a/gfx-font-converter/FontConverterConfig.cpp
+++ b/gfx-font-converter/FontConverterConfig.cpp
@@ -3,6 +3,27 @@
 #include <getopt.h>
 #include <cctype>
 #include <algorithm>
+#include <iostream>
+#include <stdexcept>
+
+namespace
+{
+
+bool parseNumber(const char* text, int &number)
+{
+    try
+    {
+        number = std::stoi(text);
+        return true;
+    }
+    catch (const std::logic_error &)
+    {
+        std::cerr << "Not a number, or too big: " << text << std::endl;
+        return false;
+    }
+}
+
+} // namespace
 
 FontConverterConfig::FontConverterConfig(int argc, char** argv)
 {
@@ -27,10 +48,10 @@ FontConverterConfig::FontConverterConfig(int argc, char** argv)
                 outputDirectory = optarg;
                 break;
             case 'd':
-                DPI = std::stoi(optarg);
+                printHelp |= !parseNumber(optarg, DPI);
                 break;
             case 's':
-                fontSize = std::stoi(optarg);
+                printHelp |= !parseNumber(optarg, fontSize);
                 break;
             case 'e':
                 encoding = optarg;
-- 
2.43.0


From a5581c4938dc6ff1407cac7f1019d8975768774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:31 +0000
Subject: [PATCH 32/34] fix: big font sizes do not overflow

---
 gfx-font-converter/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index 5e99dae..e6bbbb9 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -303,7 +303,7 @@ int main(int argc, char* argv[])
                          std::filesystem::path(config.getOutputDirectory()) : std::filesystem::path(argv[0]).parent_path();
 
         const auto dpi = config.getDPI();
-        const FT_F26Dot6 fontSize = config.getFontSize() << 6;
+        const FT_F26Dot6 fontSize = config.getFontSize() * FT_F26Dot6(64);
         const auto first = config.getFirstChar();
         const auto last = config.getLastChar();
         std::vector<GlyphData> table;
-- 
2.43.0


From 8f457f96161807d75edbc0540170a56a191788dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:40 +0000
Subject: [PATCH 33/34] fix: usage of the font converter names the default
 encoding

---
 gfx-font-converter/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index e6bbbb9..92a3a7d 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -287,7 +287,7 @@ int main(int argc, char* argv[])
     if (config.getPrintHelp() || fontFileName.empty())
     {
         std::cout << "Usage: " << std::filesystem::path(argv[0]).filename().string()
-                  << " -f fontfile [-o outputfile] [-d DPI] [-s size] [-e 8-bit codepage, default ISO-8859-1] [-b] [-h]"
+                  << " -f fontfile [-o outputfile] [-d DPI] [-s size] [-e 8-bit codepage, default ASCII (7-bit)] [-b] [-h]"
                   << std::endl;
         return 1;
     }
-- 
2.43.0


From 96ea66b91374d969a1f5ec3f3297c05846d27708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:03 +0000
Subject: [PATCH 34/34] fix: stored values are loaded wherever they lie

get() read the value in place through a reference aligned for T, but records are packed:
types with an alignment above the natural one of the platform's loads crashed.
---
 PersistentStorage.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PersistentStorage.h b/PersistentStorage.h
index 01db71f..d234918 100644
--- a/PersistentStorage.h
+++ b/PersistentStorage.h
@@ -9,6 +9,7 @@
 #include <optional>
 #include <array>
 #include <memory>
+#include <type_traits>
 #include <cstdint>
 #include <array>
 #include "MemoryView.h"
@@ -85,7 +86,10 @@ public:
         {
             if (const auto &node = getNode<T>(pos); node.idx == idx && node.size == sizeof(Node<T>))
             {
-                return node.data;
+                // the record is not aligned for T
+                std::aligned_storage_t<sizeof(T), alignof(T)> copy;
+                std::memcpy(&copy, static_cast<const void*>(&node.data), sizeof(T));
+                return reinterpret_cast<const T&>(copy);
             }
         }
         return std::nullopt;
-- 
2.43.0

