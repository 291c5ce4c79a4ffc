From bf5ef8940e7921ed45686fbb1f6a598828f82c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 01/20] fix: csv command writes next to the input file instead
 of over it

---
 apps/cppsas7bdat-ci.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/apps/cppsas7bdat-ci.cpp b/apps/cppsas7bdat-ci.cpp
index edb0dce..29970b9 100644
--- a/apps/cppsas7bdat-ci.cpp
+++ b/apps/cppsas7bdat-ci.cpp
@@ -42,11 +42,15 @@ void process_print(const std::string& _filename, long _n)
 
 std::string get_csv_filename(const std::string& _filename)
 {
-  auto ipos = _filename.rfind('.');
-  if(ipos != _filename.npos) {
-    return _filename.substr(0, ipos+1) + "csv";
+  const auto idir = _filename.rfind('/');
+  const auto ipos = _filename.rfind('.');
+  // Replace the extension, only when there is one in the last path component
+  if(ipos != _filename.npos && (idir == _filename.npos || ipos > idir)) {
+    const auto csv_filename = _filename.substr(0, ipos+1) + "csv";
+    // Never write over the input file
+    if(csv_filename != _filename) return csv_filename;
   }
-  return _filename + "csv";
+  return _filename + ".csv";
 }
 
 void process_csv(const std::string& _filename)
@@ -54,7 +58,7 @@ void process_csv(const std::string& _filename)
   const auto csv_filename = get_csv_filename(_filename);
   //std::ofstream csv_os(csv_filename.c_str());
   //cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(csv_os));
-  cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(_filename.c_str()));
+  cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(csv_filename.c_str()));
   reader.read_all();
 }
 
-- 
2.43.0


From 32c5434bf066153d55c3f6639b27662276e18f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 02/20] fix: decompressors reject truncated commands, RLE
 honours a one-byte last command

---
 src/decompressors.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/decompressors.hpp b/src/decompressors.hpp
index a7d1502..eddbb78 100644
--- a/src/decompressors.hpp
+++ b/src/decompressors.hpp
@@ -25,14 +25,24 @@ struct SRC_VALUES {
   explicit SRC_VALUES(const BYTES &_values)
       : values(_values), n_src(values.size()) {}
 
-  auto pop() noexcept { return values[i_src++]; }
-  auto pop(const size_t _n) noexcept {
+  auto pop() {
+    assert_check(1);
+    return values[i_src++];
+  }
+  auto pop(const size_t _n) {
+    assert_check(_n);
     auto v = values.substr(i_src, _n);
     i_src += _n;
     return v;
   }
 
   bool check(const size_t _n) const noexcept { return i_src + _n <= n_src; }
+  void assert_check(const size_t _n) const {
+    if (!check(_n)) {
+      spdlog::critical("Invalid src length: {}+{}>{}\n", i_src, _n, n_src);
+      EXCEPTION::cannot_decompress();
+    }
+  }
   size_t remaining() const noexcept { return n_src - i_src; }
 };
 
@@ -204,7 +214,7 @@ struct RLE : public DST_VALUES<_endian, _format> {
       i_dst += n;
     };
 
-    while (src.check(2) && check()) {
+    while (src.check(1) && check()) {
       const auto val = src.pop();
       const uint8_t command = static_cast<uint8_t>(val >> FOUR);
       const size_t end_of_first_byte = static_cast<size_t>(val & 0x0F);
-- 
2.43.0


From 753f65bed7bfab14d03406e1599be9f4441985e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 03/20] fix: RDC patterns stay within the decoded row and may
 overlap their copy

---
 src/buffer.hpp        | 7 +++++--
 src/decompressors.hpp | 4 ++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/buffer.hpp b/src/buffer.hpp
index 0a6a9f6..a62ad7f 100644
--- a/src/buffer.hpp
+++ b/src/buffer.hpp
@@ -103,8 +103,11 @@ public:
   };
   void copy(const size_t _offset_dest, const size_t _offset_src,
             const size_t _length) noexcept {
-    std::memcpy(data(_offset_dest, _length), data(_offset_src, _length),
-                _length);
+    uint8_t *dest = data(_offset_dest, _length);
+    const uint8_t *src = data(_offset_src, _length);
+    // The areas may overlap: byte by byte, so that the pattern is repeated
+    for (size_t i = 0; i < _length; ++i)
+      dest[i] = src[i];
   }
   void copy(const size_t _offset, const BYTES &_src) noexcept {
     const size_t length = _src.size();
diff --git a/src/decompressors.hpp b/src/decompressors.hpp
index eddbb78..ec7b5f7 100644
--- a/src/decompressors.hpp
+++ b/src/decompressors.hpp
@@ -107,6 +107,10 @@ struct RDC : public DST_VALUES<_endian, _format> {
 
   void store_pattern(const size_t _offset, const size_t _n) {
     assert_check(_n);
+    if (_offset > i_dst) {
+      spdlog::critical("Invalid pattern offset: {}>{}\n", _offset, i_dst);
+      EXCEPTION::cannot_decompress();
+    }
     buf.copy(i_dst, i_dst - _offset, _n);
     i_dst += _n;
   }
-- 
2.43.0


From 77203fa5c5293385a06f93262cd99a107309faf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 04/20] fix: bounds checks of the page buffer cannot overflow
 or terminate the process

---
 src/buffer.hpp   | 49 ++++++++++++++++++++++++++++++++----------------
 src/metadata.hpp | 21 ++++++++++-----------
 2 files changed, 43 insertions(+), 27 deletions(-)

diff --git a/src/buffer.hpp b/src/buffer.hpp
index a62ad7f..384eeeb 100644
--- a/src/buffer.hpp
+++ b/src/buffer.hpp
@@ -60,26 +60,32 @@ public:
   size_t size() const noexcept { return m_size; }
 
   bool check(const size_t _offset, const size_t _length) const noexcept {
-    return _offset + _length <= size();
+    return _offset <= size() && _length <= size() - _offset;
   }
 
-  void assert_check(const size_t _offset, const size_t _length) const noexcept {
+  void assert_check(const size_t _offset, const size_t _length) const {
     if (!check(_offset, _length))
       EXCEPTION::invalid_buffer_access(_offset, _length, size());
   }
 
   template <ASSERT _assert = ASSERT::NO>
   const uint8_t *data(const size_t _offset,
-                      [[maybe_unused]] const size_t _length) const noexcept {
+                      [[maybe_unused]] const size_t _length) const
+      noexcept(_assert == ASSERT::NO) {
+    if constexpr (_assert == ASSERT::YES) {
+      assert_check(_offset, _length);
+    } else {
 #ifdef DEBUG
-    assert_check(_offset, _length);
+      assert_check(_offset, _length);
 #endif
+    }
     return m_buffer.get() + _offset;
   }
 
   template <ASSERT _assert = ASSERT::NO>
   uint8_t *data(const size_t _offset,
-                [[maybe_unused]] const size_t _length) noexcept {
+                [[maybe_unused]] const size_t _length) noexcept(_assert ==
+                                                                ASSERT::NO) {
     if constexpr (_assert == ASSERT::YES) {
       assert_check(_offset, _length);
     } else {
@@ -128,56 +134,65 @@ public:
   EBUFFER(MBUFFER &&_buffer) : MBUFFER(std::move(_buffer)) {}
 
   template <ASSERT _assert = ASSERT::NO>
-  uint8_t get_byte(const size_t _offset) const noexcept {
+  uint8_t get_byte(const size_t _offset) const
+      noexcept(_assert == ASSERT::NO) {
     return *(this->template data<_assert>(_offset, 1));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  BYTES get_bytes(const size_t _offset, const size_t _length) const noexcept {
+  BYTES get_bytes(const size_t _offset, const size_t _length) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_bytes(this->template data<_assert>(_offset, _length),
                                _length);
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  int16_t get_int16(const size_t _offset) const noexcept {
+  int16_t get_int16(const size_t _offset) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, int16_t>(
         this->template data<_assert>(_offset, sizeof(int16_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  uint16_t get_uint16(const size_t _offset) const noexcept {
+  uint16_t get_uint16(const size_t _offset) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, uint16_t>(
         this->template data<_assert>(_offset, sizeof(uint16_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  int32_t get_int32(const size_t _offset) const noexcept {
+  int32_t get_int32(const size_t _offset) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, int32_t>(
         this->template data<_assert>(_offset, sizeof(int32_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  uint32_t get_uint32(const size_t _offset) const noexcept {
+  uint32_t get_uint32(const size_t _offset) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, uint32_t>(
         this->template data<_assert>(_offset, sizeof(uint32_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  double get_double(const size_t _offset) const noexcept {
+  double get_double(const size_t _offset) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_double<_endian>(
         this->template data<_assert>(_offset, sizeof(double)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
   std::string_view get_string(const size_t _offset,
-                              const size_t _length) const noexcept {
+                              const size_t _length) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_string_trim(
         this->template data<_assert>(_offset, _length), _length);
   }
 
   template <ASSERT _assert = ASSERT::NO>
   std::string_view get_string_untrim(const size_t _offset,
-                                     const size_t _length) const noexcept {
+                                     const size_t _length) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_string(this->template data<_assert>(_offset, _length),
                                 _length);
   }
@@ -198,13 +213,15 @@ public:
   BUFFER(MBUFFER &&_buffer) : EBUFFER<_endian>(std::move(_buffer)) {}
 
   template <ASSERT _assert = ASSERT::NO>
-  integer_t get_integer(const size_t _offset) const noexcept {
+  integer_t get_integer(const size_t _offset) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, integer_t>(
         this->template data<_assert>(_offset, sizeof(integer_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  uinteger_t get_uinteger(const size_t _offset) const noexcept {
+  uinteger_t get_uinteger(const size_t _offset) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, uinteger_t>(
         this->template data<_assert>(_offset, sizeof(uinteger_t)));
   }
diff --git a/src/metadata.hpp b/src/metadata.hpp
index dbffda0..27ef17b 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -163,7 +163,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
                          Properties::Metadata *_metadata) {
     // Match the subheader signature to the correct processing function
     const auto subheader_signature =
-        buf.get_bytes(_subheader.offset, integer_size);
+        buf.template get_bytes<ASSERT::YES>(_subheader.offset, integer_size);
     if (match_signature(ROW_SIZE_SUBHEADER, subheader_signature)) {
       process_ROW_SIZE_SUBHEADER(_subheader, _metadata);
       return false;
@@ -218,7 +218,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void
   process_ROW_SIZE_SUBHEADER([[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-                             Properties::Metadata *_metadata) const noexcept {
+                             Properties::Metadata *_metadata) const {
     D(spdlog::info("READ_METADATA::process_ROW_SIZE_SUBHEADER: {}, {} : ",
                    _subheader.offset, _subheader.length));
     buf.assert_check(_subheader.offset + lcp_offset, 4);
@@ -243,7 +243,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_SIZE_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      Properties::Metadata *_metadata) const noexcept {
+      Properties::Metadata *_metadata) const {
     D(spdlog::info("READ_METADATA::process_COLUMN_SIZE_SUBHEADER: {}, {} : ",
                    _subheader.offset, _subheader.length));
     _metadata->column_count = buf.template get_uinteger<ASSERT::YES>(
@@ -266,7 +266,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_TEXT_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      Properties::Metadata *_metadata) noexcept {
+      Properties::Metadata *_metadata) {
     D(spdlog::info("READ_METADATA::process_COLUMN_TEXT_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
     const size_t length =
@@ -327,10 +327,9 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       [[maybe_unused]] Properties::Metadata *_metadata) noexcept {
     D(spdlog::info("READ_METADATA::process_COLUMN_NAME_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
-    const size_t offset_max =
-        _subheader.offset + _subheader.length - 12 - integer_size;
+    const size_t offset_max = _subheader.offset + _subheader.length;
     for (size_t offset = _subheader.offset + integer_size + 8;
-         offset <= offset_max; offset += 8) {
+         offset + 12 + integer_size <= offset_max; offset += 8) {
       const size_t idx = buf.get_uint16(offset + 0);
       const size_t name_offset = buf.get_uint16(offset + 2);
       const size_t name_length = buf.get_uint16(offset + 4);
@@ -348,10 +347,10 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
     D(spdlog::info(
         "READ_METADATA::process_COLUMN_ATTRIBUTES_SUBHEADER: {}, {}\n",
         _subheader.offset, _subheader.length));
-    const size_t offset_max =
-        _subheader.offset + _subheader.length - 12 - integer_size;
+    const size_t offset_max = _subheader.offset + _subheader.length;
     for (size_t offset = _subheader.offset + integer_size + 8;
-         offset <= offset_max; offset += integer_size + 8) {
+         offset + 12 + integer_size <= offset_max;
+         offset += integer_size + 8) {
       const size_t column_data_offset = buf.get_uinteger(offset + 0);
       const size_t column_data_length = buf.get_uint32(offset + integer_size);
       const uint8_t column_data_type = buf.get_byte(offset + integer_size + 6);
@@ -366,7 +365,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_FORMAT_AND_LABEL_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info(
         "READ_METADATA::process_FORMAT_AND_LABEL_SUBHEADER: {}, {}\n",
         _subheader.offset, _subheader.length));
-- 
2.43.0


From dca042ff74e92e7e6fd4ef1ed91406107e06134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:53 +0000
Subject: [PATCH 05/20] fix: impossible header and page lengths are rejected

---
 src/header.hpp | 4 ++--
 src/page.hpp   | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/header.hpp b/src/header.hpp
index 94cb3ef..8f9928e 100644
--- a/src/header.hpp
+++ b/src/header.hpp
@@ -92,8 +92,8 @@ struct READ_HEADER {
     }*/
 
     // Read the rest of the header
-    FMT_ASSERT(_header->header_length >= HEADER_CONSTANTS::HEADER_SIZE,
-               "Header is too big in set_header_length_and_read");
+    if (_header->header_length < HEADER_CONSTANTS::HEADER_SIZE + total_align)
+      EXCEPTION::header_too_short();
     if (!buf.read_stream(is,
                          _header->header_length - HEADER_CONSTANTS::HEADER_SIZE,
                          HEADER_CONSTANTS::HEADER_SIZE))
diff --git a/src/page.hpp b/src/page.hpp
index f829f7e..f1ac6f7 100644
--- a/src/page.hpp
+++ b/src/page.hpp
@@ -104,6 +104,7 @@ struct READ_PAGE : public PAGE_CONSTANT<_format> {
 
   bool _get_page_header() {
     D(spdlog::info("get_page_header: "));
+    buf.assert_check(page_bit_offset, 8);
     current_page_header.type = buf.get_uint16(page_bit_offset + 0);
     current_page_header.block_count = buf.get_uint16(page_bit_offset + 2);
     current_page_header.subheaders_count = buf.get_uint16(page_bit_offset + 4);
-- 
2.43.0


From b83474965a72f9c7bee9622deb8743581323c49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 06/20] fix: a file truncated within a page is reported

---
 include/cppsas7bdat/source/ifstream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cppsas7bdat/source/ifstream.hpp b/include/cppsas7bdat/source/ifstream.hpp
index 3913457..520a3c6 100644
--- a/include/cppsas7bdat/source/ifstream.hpp
+++ b/include/cppsas7bdat/source/ifstream.hpp
@@ -19,7 +19,9 @@ struct ifstream {
 
   explicit ifstream(const char *_pcszfilename);
 
-  bool eof() { return is.eof(); }
+  // Only a read that starts at the end of the file is a genuine end of file:
+  // a read cut short in the middle means that the file is truncated.
+  bool eof() { return is.eof() && is.gcount() == 0; }
   bool read_bytes(void *_p, const size_t _length) {
     is.read(reinterpret_cast<char *>(_p),
             static_cast<std::streamsize>(_length));
-- 
2.43.0


From 6f3d21bf342f8c66149dc55b8531e98c8eac16fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 07/20] fix: pages without rows are skipped instead of read
 past their end

---
 src/data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data.hpp b/src/data.hpp
index d381427..45f163e 100644
--- a/src/data.hpp
+++ b/src/data.hpp
@@ -235,7 +235,7 @@ struct READ_DATA : public READ_PAGE<_DataSource, _endian, _format> {
     while (true) {
       if (!read_page())
         return false;
-      if (build_page())
+      if (build_page() && !page->next())
         return true;
     }
   }
-- 
2.43.0


From 60020b09629a421f2c45b569b0592dd8d5719046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 08/20] fix: rows outside their page are rejected

---
 src/data.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/data.hpp b/src/data.hpp
index 45f163e..6c3fe2d 100644
--- a/src/data.hpp
+++ b/src/data.hpp
@@ -188,8 +188,7 @@ struct READ_DATA : public READ_PAGE<_DataSource, _endian, _format> {
   BYTES extract_row_values(const size_t _offset, const size_t _length) const {
     D(spdlog::info("READ_DATA::extract_row_values({}, {})\n", _offset,
                    _length));
-    FMT_ASSERT(_offset + _length <= header->page_length,
-               "Accessing data outside the page");
+    buf.assert_check(_offset, _length);
     const auto values = buf.get_bytes(_offset, _length);
     if (_length < metadata->row_length) {
       return decompressor(values);
-- 
2.43.0


From 93101018ed2cbca7da3c7caa1c7bc348b4dc8dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 09/20] fix: columns outside the row are rejected

---
 src/metadata.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index 27ef17b..c18f4bc 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -433,6 +433,11 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       const auto column_length =
           get_value("data_length", column_data_lengths, icol);
       const auto column_type = get_value("data_type", column_data_types, icol);
+      // Check that the column falls within the row
+      if (column_offset > _metadata->row_length ||
+          column_length > _metadata->row_length - column_offset)
+        EXCEPTION::invalid_buffer_access(column_offset, column_length,
+                                         _metadata->row_length);
 
       bool column_type_not_supported = true;
       auto add_column = [&](auto &&formatter) {
-- 
2.43.0


From 779b9ddc54f4e587b8f9bfacda2aedb986f92caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 10/20] fix: dates and times stored on less than 8 bytes are
 decoded

---
 src/formatters.hpp |  2 +-
 src/metadata.hpp   |  3 ++-
 src/types.hpp      | 19 +++++++++++++++++++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/formatters.hpp b/src/formatters.hpp
index 4833586..737e55c 100644
--- a/src/formatters.hpp
+++ b/src/formatters.hpp
@@ -109,7 +109,7 @@ template <Endian _endian> struct DoubleFormatter : public IFormatter {
   }
 
   NUMBER get_number([[maybe_unused]] const void *_p) const noexcept {
-    return INTERNAL::get_double<_endian>(data(_p));
+    return INTERNAL::get_double<_endian>(data(_p), length);
   }
 
   STRING to_string(const void *_p) const {
diff --git a/src/metadata.hpp b/src/metadata.hpp
index c18f4bc..88037b7 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -456,7 +456,8 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
       if (column_type == Type::string)
         add_column(FORMATTER::StringFormatter(column_offset, column_length));
-      else if (column_type == Type::number) {
+      else if (column_type == Type::number && column_length > 0 &&
+               column_length <= 8) {
         if (column_length == 1)
           add_column(
               FORMATTER::SmallIntegerFormatter(column_offset, column_length));
diff --git a/src/types.hpp b/src/types.hpp
index 5d39160..3dc22d7 100644
--- a/src/types.hpp
+++ b/src/types.hpp
@@ -140,6 +140,25 @@ inline double get_incomplete_double(const uint8_t *_buf) noexcept {
   return get_double<_endian>(buf);
 }
 
+// Number stored on its 3 to 8 most significant bytes
+template <Endian _endian>
+inline double get_double(const uint8_t *_buf, const size_t _length) noexcept {
+  switch (_length) {
+  case 3:
+    return get_incomplete_double<_endian, 3>(_buf);
+  case 4:
+    return get_incomplete_double<_endian, 4>(_buf);
+  case 5:
+    return get_incomplete_double<_endian, 5>(_buf);
+  case 6:
+    return get_incomplete_double<_endian, 6>(_buf);
+  case 7:
+    return get_incomplete_double<_endian, 7>(_buf);
+  default:
+    return get_double<_endian>(_buf);
+  }
+}
+
 inline DATETIME get_datetime_from_epoch(double _seconds) noexcept {
   using namespace boost::posix_time;
   using namespace boost::gregorian;
-- 
2.43.0


From 9a18e878b9171e3110480b56b04198405682bc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:10 +0000
Subject: [PATCH 11/20] fix: dates outside the calendar are not-a-date instead
 of terminating the process

---
 src/types.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/types.hpp b/src/types.hpp
index 3dc22d7..ed9ade7 100644
--- a/src/types.hpp
+++ b/src/types.hpp
@@ -168,11 +168,17 @@ inline DATETIME get_datetime_from_epoch(double _seconds) noexcept {
   // Increase accuracy by splitting in days/seconds/microseconds
   constexpr double seconds_in_a_day{24 * 60 * 60};
   const auto _days = std::round(_seconds / seconds_in_a_day);
+  if (!(std::abs(_days) < 3e6))
+    return not_a_date_time;
   _seconds -= _days * seconds_in_a_day;
   const auto _secs = std::round(_seconds);
   const auto _microseconds = std::round((_seconds - _secs) * 1e6);
-  return start + days(std::lround(_days)) + seconds(std::lround(_secs)) +
-         microseconds(std::lround(_microseconds));
+  const ptime x = start + days(std::lround(_days)) +
+                  seconds(std::lround(_secs)) +
+                  microseconds(std::lround(_microseconds));
+  if (x < ptime(min_date_time) || x > ptime(max_date_time))
+    return not_a_date_time;
+  return x;
 }
 
 inline TIME get_time_from_epoch(const double _seconds) noexcept {
@@ -186,18 +192,17 @@ inline DATE get_date_from_epoch_seconds(const double _seconds) noexcept {
 inline DATE get_date_from_epoch_days(const double _days) noexcept {
   using namespace boost::posix_time;
   using namespace boost::gregorian;
-  if (std::isnan(_days))
+  if (std::isnan(_days) || !(std::abs(_days) < 3e6))
     return DATE(not_a_date_time);
   ptime start(boost::gregorian::date(1960, 1, 1));
-  return (start + days(std::lround(_days))).date();
+  const ptime x = start + days(std::lround(_days));
+  if (x < ptime(min_date_time) || x > ptime(max_date_time))
+    return DATE(not_a_date_time);
+  return x.date();
 }
 
 inline DATE get_date_from_epoch(const double _t) noexcept {
-  const auto x = get_date_from_epoch_days(_t);
-  if (x.is_not_a_date())
-    return get_date_from_epoch_seconds(_t);
-  else
-    return x;
+  return get_date_from_epoch_days(_t);
 }
 
 template <Format _format> struct number_types {};
-- 
2.43.0


From 5264380de741f91e657dae44b359156d629fa3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:49 +0000
Subject: [PATCH 12/20] fix: names, labels and header texts keep their
 non-ASCII ends

---
 src/metadata.hpp | 14 ++++++++++----
 src/types.hpp    |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index 88037b7..eb25c8c 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -307,13 +307,19 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       const auto n = ct.size();
       _offset = std::min(_offset, n);
       _length = std::min(_length, n - _offset);
-      if (_length && std::isprint(ct[_offset])) {
-        while (_length && std::isspace(ct[_offset])) {
+      const auto is_cntrl = [](const unsigned char c) {
+        return std::iscntrl(c) != 0;
+      };
+      const auto is_space = [](const unsigned char c) {
+        return std::isspace(c) != 0;
+      };
+      if (_length && !is_cntrl(ct[_offset])) {
+        while (_length && is_space(ct[_offset])) {
           ++_offset;
           --_length;
         }
-        while (_length && (!std::isprint(ct[_offset + _length - 1]) ||
-                           std::isspace(ct[_offset + _length - 1]))) {
+        while (_length && (is_cntrl(ct[_offset + _length - 1]) ||
+                           is_space(ct[_offset + _length - 1]))) {
           --_length;
         }
         return ct.substr(_offset, _length);
diff --git a/src/types.hpp b/src/types.hpp
index ed9ade7..87044ec 100644
--- a/src/types.hpp
+++ b/src/types.hpp
@@ -40,7 +40,7 @@ inline std::string_view get_string_trim(const uint8_t *_buf,
     ++offset;
     --_length;
   }
-  while (_length && (!std::isprint(_buf[offset + _length - 1]) ||
+  while (_length && (std::iscntrl(_buf[offset + _length - 1]) ||
                      std::isspace(_buf[offset + _length - 1]))) {
     --_length;
   }
-- 
2.43.0


From db04517a11ef8feede7a279f846532032268d19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:30 +0000
Subject: [PATCH 13/20] fix: print sink writes column names verbatim

---
 include/cppsas7bdat/sink/print.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppsas7bdat/sink/print.hpp b/include/cppsas7bdat/sink/print.hpp
index 41f861d..5f13c7f 100644
--- a/include/cppsas7bdat/sink/print.hpp
+++ b/include/cppsas7bdat/sink/print.hpp
@@ -67,7 +67,7 @@ struct print {
     fmt::print(os, "#");
     for (const auto &column : columns) {
       fmt::print(os, ",");
-      fmt::print(os, column.name);
+      fmt::print(os, "{}", column.name);
     }
     fmt::print(os, "\n");
   }
-- 
2.43.0


From 793e96ba1c4cd23a4658cd967fda7ae6a4b324be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:16 +0000
Subject: [PATCH 14/20] fix: special, negative and long times render as text

---
 src/types.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/types.cpp b/src/types.cpp
index b77f595..e92ed1a 100644
--- a/src/types.cpp
+++ b/src/types.cpp
@@ -42,7 +42,11 @@ std::string to_string(DATE _x) {
 }
 
 std::string to_string(TIME _x) {
-  char szBuffer[16];
+  if (_x.is_special())
+    return boost::posix_time::to_simple_string(_x);
+  if (_x.is_negative())
+    return "-" + to_string(_x.invert_sign());
+  char szBuffer[32];
   size_t size{0};
   if (_x.fractional_seconds()) {
     auto r = fmt::format_to_n(
-- 
2.43.0


From c6f170f22e320724fa76ccebeec4eefa64dabb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 15/20] fix: missing dates and datetimes render as text instead
 of throwing

---
 src/formatters.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/formatters.hpp b/src/formatters.hpp
index 737e55c..0f568f8 100644
--- a/src/formatters.hpp
+++ b/src/formatters.hpp
@@ -154,6 +154,8 @@ struct DateTimeFormatter : public DoubleFormatter<_endian> {
   }
 
   STRING to_string(const void *_p) const {
+    if (get_datetime(_p).is_special())
+      return boost::posix_time::to_iso_extended_string(get_datetime(_p));
     return cppsas7bdat::to_string(get_datetime(
         _p)); // boost::posix_time::to_iso_extended_string(get_datetime(_p));
   }
@@ -178,6 +180,8 @@ struct DateFormatter : public DoubleFormatter<_endian> {
   TIME get_time([[maybe_unused]] const void *_p) const noexcept { return {}; }
 
   STRING to_string(const void *_p) const {
+    if (get_date(_p).is_special())
+      return boost::gregorian::to_iso_extended_string(get_date(_p));
     return cppsas7bdat::to_string(get_date(
         _p)); // boost::gregorian::to_iso_extended_string(get_date(_p));
   }
-- 
2.43.0


From 75dbb83e41dfcdf81577168989cfe5e8cfaf80b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 16/20] fix: Python chunks report their own first row and
 accept a repeated end of data

---
 python/pycppsas7bdat/cpp/sink.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index 2782f5d..550fe69 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -45,7 +45,11 @@ struct SinkBase : public boost::noncopyable {
     PyObject_SetAttrString(self, "_cpp", po);
   }
 
-  void del_cpp_attr() { PyObject_DelAttrString(self, "_cpp"); }
+  void del_cpp_attr() {
+    // The end of data may be signalled more than once
+    if (PyObject_HasAttrString(self, "_cpp"))
+      PyObject_DelAttrString(self, "_cpp");
+  }
 
   void set_properties([
       [maybe_unused]] const cppsas7bdat::Properties &_properties) {
@@ -262,6 +266,8 @@ struct SinkChunk : public SinkBase {
         [](const cppsas7bdat::Column &column, cppsas7bdat::Column::PBUF _p) {
           return to_str(column.get_string(_p));
         });
+    if (idata == 0)
+      istartrow = _irow; // Rows may have been skipped before this chunk
     iendrow = _irow;
     ++idata;
     if (idata == size)
-- 
2.43.0


From b883771f0f5f8c6710c97ef05053029b903bc4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 17/20] fix: rows and chunks handed to R are not overwritten by
 the next ones

---
 R/CPPSAS7BDAT/src/sink.hpp            | 3 +++
 R/CPPSAS7BDAT/src/sink_by_columns.hpp | 3 +++
 R/CPPSAS7BDAT/src/sink_chunk.hpp      | 6 +++---
 R/CPPSAS7BDAT/src/sink_data.hpp       | 1 +
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/R/CPPSAS7BDAT/src/sink.hpp b/R/CPPSAS7BDAT/src/sink.hpp
index 8e17e2e..78ad6d2 100644
--- a/R/CPPSAS7BDAT/src/sink.hpp
+++ b/R/CPPSAS7BDAT/src/sink.hpp
@@ -62,6 +62,9 @@ struct Sink : public SinkBase {
   void push_row([[maybe_unused]] const size_t _irow,
                 [[maybe_unused]] cppsas7bdat::Column::PBUF _p) {
     const size_t ncols = columns.size();
+    // The previous row may belong to R => use a new one
+    row = Rcpp::List(ncols);
+    row.names() = col_names;
     for (size_t icol = 0; icol < ncols; ++icol) {
       const auto &column = columns[icol];
       switch (column.type) {
diff --git a/R/CPPSAS7BDAT/src/sink_by_columns.hpp b/R/CPPSAS7BDAT/src/sink_by_columns.hpp
index 4b44bb4..fb83480 100644
--- a/R/CPPSAS7BDAT/src/sink_by_columns.hpp
+++ b/R/CPPSAS7BDAT/src/sink_by_columns.hpp
@@ -164,6 +164,9 @@ protected:
 
   void set_values() {
     size_t icol = {0};
+    // The previous list may belong to R => use a new one
+    rows = Rcpp::List(col_names.size());
+    rows.names() = col_names;
 
     auto set_values = [&](const auto &_columns) {
       for (const auto &column : _columns) {
diff --git a/R/CPPSAS7BDAT/src/sink_chunk.hpp b/R/CPPSAS7BDAT/src/sink_chunk.hpp
index e61652c..cd81656 100644
--- a/R/CPPSAS7BDAT/src/sink_chunk.hpp
+++ b/R/CPPSAS7BDAT/src/sink_chunk.hpp
@@ -26,9 +26,9 @@ struct SinkChunk : public SinkByColumns {
     iendrow = _irow;
     if (idata == size) {
       flush();
-      // Check if the were starting the last chunk => resize to a smaller chunk
-      if (istartrow + size > ilastrow && istartrow < ilastrow) {
-        prepare_values(ilastrow - istartrow);
+      // The vectors now belong to R => new ones, smaller for the last chunk
+      if (istartrow < ilastrow) {
+        prepare_values(std::min(size, ilastrow - istartrow));
       }
     }
   }
diff --git a/R/CPPSAS7BDAT/src/sink_data.hpp b/R/CPPSAS7BDAT/src/sink_data.hpp
index f33b6ad..48c0714 100644
--- a/R/CPPSAS7BDAT/src/sink_data.hpp
+++ b/R/CPPSAS7BDAT/src/sink_data.hpp
@@ -24,6 +24,7 @@ struct SinkData : public SinkByColumns {
       return;
     SinkByColumns::set_values();
     f_set_data(row_index, rows);
+    idata = 0;
   }
 
 protected:
-- 
2.43.0


From 0b7953af0d26236f95d4ffeddb1feac47b5d2037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 18/20] fix: csv sink on a file name writes to its own stream

---
 include/cppsas7bdat/sink/csv.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cppsas7bdat/sink/csv.hpp b/include/cppsas7bdat/sink/csv.hpp
index 91dfc2b..bfa61be 100644
--- a/include/cppsas7bdat/sink/csv.hpp
+++ b/include/cppsas7bdat/sink/csv.hpp
@@ -91,6 +91,12 @@ struct _ofstream {
 struct csv_ofstream : public _ofstream, public csv {
   explicit csv_ofstream(const char *_pcszfilename)
       : _ofstream(_pcszfilename), csv(ofs) {}
+
+  // The stream is moved, the csv sink must refer to the new one.
+  csv_ofstream(csv_ofstream &&_other)
+      : _ofstream(std::move(_other)), csv(ofs) {
+    columns = std::move(_other.columns);
+  }
 };
 
 } // namespace detail
-- 
2.43.0


From 70e35a1f320e3447bad6d810de2f583c5b1ba8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 19/20] fix: negative times convert to Python timedelta

---
 python/pycppsas7bdat/cpp/import_datetime.cpp | 29 ++++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/python/pycppsas7bdat/cpp/import_datetime.cpp b/python/pycppsas7bdat/cpp/import_datetime.cpp
index 85b55f4..cba0a41 100644
--- a/python/pycppsas7bdat/cpp/import_datetime.cpp
+++ b/python/pycppsas7bdat/cpp/import_datetime.cpp
@@ -89,20 +89,25 @@ struct tduration_to_python_delta {
   static PyObject *convert(boost::posix_time::time_duration d) {
     if (d.is_not_a_date_time())
       return Py_None;
-    long hours = d.hours();
-    long days = hours / 24;
-    if (days == 0) {
-      long minutes = d.minutes();
-      long seconds = d.seconds();
-      long usecs = get_usecs(d);
-      return PyTime_FromTime(hours, minutes, seconds, usecs);
+    static const long usecs_per_second = 1000000;
+    const long hours = d.hours();
+    if (!d.is_negative() && hours < 24) {
+      return PyTime_FromTime(hours, d.minutes(), d.seconds(), get_usecs(d));
     } else {
-      if (days < 0)
-        days--;
-      long seconds = d.total_seconds() - days * (24 * 3600);
+      // The parts of a negative duration are all negative, the seconds and the
+      // microseconds of a timedelta are positive
+      long days = hours / 24;
+      long seconds =
+          (hours % 24) * 3600 + d.minutes() * 60L + long(d.seconds());
       long usecs = get_usecs(d);
-      if (days < 0)
-        usecs = 1000000 - 1 - usecs;
+      if (usecs < 0) {
+        usecs += usecs_per_second;
+        --seconds;
+      }
+      if (seconds < 0) {
+        seconds += 24 * 3600;
+        --days;
+      }
       return PyDelta_FromDSU(days, seconds, usecs);
     }
   }
-- 
2.43.0


From 01a559be91826e883818356264681c895581f884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 20/20] fix: R chunks continue after an early end of data

---
 R/CPPSAS7BDAT/src/sink_chunk.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/R/CPPSAS7BDAT/src/sink_chunk.hpp b/R/CPPSAS7BDAT/src/sink_chunk.hpp
index cd81656..4cd6860 100644
--- a/R/CPPSAS7BDAT/src/sink_chunk.hpp
+++ b/R/CPPSAS7BDAT/src/sink_chunk.hpp
@@ -26,10 +26,6 @@ struct SinkChunk : public SinkByColumns {
     iendrow = _irow;
     if (idata == size) {
       flush();
-      // The vectors now belong to R => new ones, smaller for the last chunk
-      if (istartrow < ilastrow) {
-        prepare_values(std::min(size, ilastrow - istartrow));
-      }
     }
   }
 
@@ -42,6 +38,11 @@ struct SinkChunk : public SinkByColumns {
     f_push_rows(row_index, rows);
     idata = 0;
     istartrow = iendrow + 1;
+    // The vectors now belong to R => new ones, smaller for the last chunk
+    if (istartrow < ilastrow) {
+      const size_t nrows = ilastrow - istartrow;
+      prepare_values(size ? std::min(size, nrows) : nrows);
+    }
   }
 
 protected:
-- 
2.43.0

