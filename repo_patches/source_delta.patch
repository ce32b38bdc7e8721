From 4fdf7fdb88e47b9324da36460febccacfb5ca61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 01/35] fix: keep the non-ASCII bytes of names, labels and
 header texts when trimming

---
 src/metadata.hpp | 12 ++++++++----
 src/types.hpp    |  4 +++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index dbffda0..ae85cc8 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -307,13 +307,17 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       const auto n = ct.size();
       _offset = std::min(_offset, n);
       _length = std::min(_length, n - _offset);
-      if (_length && std::isprint(ct[_offset])) {
-        while (_length && std::isspace(ct[_offset])) {
+      // The bytes of the non-ASCII characters (>=0x80) are part of the text.
+      const auto byte = [&ct](const size_t _i) {
+        return static_cast<unsigned char>(ct[_i]);
+      };
+      if (_length && !std::iscntrl(byte(_offset))) {
+        while (_length && std::isspace(byte(_offset))) {
           ++_offset;
           --_length;
         }
-        while (_length && (!std::isprint(ct[_offset + _length - 1]) ||
-                           std::isspace(ct[_offset + _length - 1]))) {
+        while (_length && (std::iscntrl(byte(_offset + _length - 1)) ||
+                           std::isspace(byte(_offset + _length - 1)))) {
           --_length;
         }
         return ct.substr(_offset, _length);
diff --git a/src/types.hpp b/src/types.hpp
index 5d39160..09667b4 100644
--- a/src/types.hpp
+++ b/src/types.hpp
@@ -40,7 +40,9 @@ inline std::string_view get_string_trim(const uint8_t *_buf,
     ++offset;
     --_length;
   }
-  while (_length && (!std::isprint(_buf[offset + _length - 1]) ||
+  // Only trim control characters and spaces: the bytes of the non-ASCII
+  // characters (>=0x80) are part of the text.
+  while (_length && (std::iscntrl(_buf[offset + _length - 1]) ||
                      std::isspace(_buf[offset + _length - 1]))) {
     --_length;
   }
-- 
2.43.0


From 54a5bfb824303ce1d81b39a3c56c0adddc919e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 02/35] fix: decode the last byte of the RLE rows and never
 read past the compressed values

---
 src/decompressors.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/decompressors.hpp b/src/decompressors.hpp
index a7d1502..f59b1a9 100644
--- a/src/decompressors.hpp
+++ b/src/decompressors.hpp
@@ -25,7 +25,13 @@ struct SRC_VALUES {
   explicit SRC_VALUES(const BYTES &_values)
       : values(_values), n_src(values.size()) {}
 
-  auto pop() noexcept { return values[i_src++]; }
+  auto pop() {
+    if (!check(1)) {
+      spdlog::critical("Invalid src length: {}+1>{}\n", i_src, n_src);
+      EXCEPTION::cannot_decompress();
+    }
+    return values[i_src++];
+  }
   auto pop(const size_t _n) noexcept {
     auto v = values.substr(i_src, _n);
     i_src += _n;
@@ -204,7 +210,7 @@ struct RLE : public DST_VALUES<_endian, _format> {
       i_dst += n;
     };
 
-    while (src.check(2) && check()) {
+    while (src.check(1) && check()) {
       const auto val = src.pop();
       const uint8_t command = static_cast<uint8_t>(val >> FOUR);
       const size_t end_of_first_byte = static_cast<size_t>(val & 0x0F);
-- 
2.43.0


From cedc0ef75962e31627793c4f1c04ae952680f09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 03/35] fix: RDC patterns must start inside the row and may
 overlap their copy

---
 src/decompressors.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/decompressors.hpp b/src/decompressors.hpp
index f59b1a9..1a323ae 100644
--- a/src/decompressors.hpp
+++ b/src/decompressors.hpp
@@ -103,8 +103,13 @@ struct RDC : public DST_VALUES<_endian, _format> {
 
   void store_pattern(const size_t _offset, const size_t _n) {
     assert_check(_n);
-    buf.copy(i_dst, i_dst - _offset, _n);
-    i_dst += _n;
+    if (_offset > i_dst) {
+      spdlog::critical("Invalid pattern offset: {}>{}\n", _offset, i_dst);
+      EXCEPTION::cannot_decompress();
+    }
+    // The pattern may overlap with its copy: copy byte by byte.
+    for (size_t i = 0; i < _n; ++i, ++i_dst)
+      buf.set(i_dst, buf[i_dst - _offset]);
   }
 
   BYTES operator()(const BYTES &_values) {
-- 
2.43.0


From d16b11c0900ac77ba0bf7f5aec4a581ab0d4008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 04/35] fix: raise an exception instead of terminating when the
 metadata is invalid or memory is exhausted

---
 src/buffer.hpp   | 36 +++++++++++++++++++++---------------
 src/metadata.hpp | 16 ++++++++--------
 2 files changed, 29 insertions(+), 23 deletions(-)

diff --git a/src/buffer.hpp b/src/buffer.hpp
index 0a6a9f6..a81efe7 100644
--- a/src/buffer.hpp
+++ b/src/buffer.hpp
@@ -63,23 +63,29 @@ public:
     return _offset + _length <= size();
   }
 
-  void assert_check(const size_t _offset, const size_t _length) const noexcept {
+  void assert_check(const size_t _offset, const size_t _length) const {
     if (!check(_offset, _length))
       EXCEPTION::invalid_buffer_access(_offset, _length, size());
   }
 
   template <ASSERT _assert = ASSERT::NO>
   const uint8_t *data(const size_t _offset,
-                      [[maybe_unused]] const size_t _length) const noexcept {
+                      [[maybe_unused]] const size_t _length) const
+      noexcept(_assert == ASSERT::NO) {
+    if constexpr (_assert == ASSERT::YES) {
+      assert_check(_offset, _length);
+    } else {
 #ifdef DEBUG
-    assert_check(_offset, _length);
+      assert_check(_offset, _length);
 #endif
+    }
     return m_buffer.get() + _offset;
   }
 
   template <ASSERT _assert = ASSERT::NO>
   uint8_t *data(const size_t _offset,
-                [[maybe_unused]] const size_t _length) noexcept {
+                [[maybe_unused]] const size_t _length) noexcept(
+      _assert == ASSERT::NO) {
     if constexpr (_assert == ASSERT::YES) {
       assert_check(_offset, _length);
     } else {
@@ -125,56 +131,56 @@ public:
   EBUFFER(MBUFFER &&_buffer) : MBUFFER(std::move(_buffer)) {}
 
   template <ASSERT _assert = ASSERT::NO>
-  uint8_t get_byte(const size_t _offset) const noexcept {
+  uint8_t get_byte(const size_t _offset) const {
     return *(this->template data<_assert>(_offset, 1));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  BYTES get_bytes(const size_t _offset, const size_t _length) const noexcept {
+  BYTES get_bytes(const size_t _offset, const size_t _length) const {
     return INTERNAL::get_bytes(this->template data<_assert>(_offset, _length),
                                _length);
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  int16_t get_int16(const size_t _offset) const noexcept {
+  int16_t get_int16(const size_t _offset) const {
     return INTERNAL::get_val<_endian, int16_t>(
         this->template data<_assert>(_offset, sizeof(int16_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  uint16_t get_uint16(const size_t _offset) const noexcept {
+  uint16_t get_uint16(const size_t _offset) const {
     return INTERNAL::get_val<_endian, uint16_t>(
         this->template data<_assert>(_offset, sizeof(uint16_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  int32_t get_int32(const size_t _offset) const noexcept {
+  int32_t get_int32(const size_t _offset) const {
     return INTERNAL::get_val<_endian, int32_t>(
         this->template data<_assert>(_offset, sizeof(int32_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  uint32_t get_uint32(const size_t _offset) const noexcept {
+  uint32_t get_uint32(const size_t _offset) const {
     return INTERNAL::get_val<_endian, uint32_t>(
         this->template data<_assert>(_offset, sizeof(uint32_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  double get_double(const size_t _offset) const noexcept {
+  double get_double(const size_t _offset) const {
     return INTERNAL::get_double<_endian>(
         this->template data<_assert>(_offset, sizeof(double)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
   std::string_view get_string(const size_t _offset,
-                              const size_t _length) const noexcept {
+                              const size_t _length) const {
     return INTERNAL::get_string_trim(
         this->template data<_assert>(_offset, _length), _length);
   }
 
   template <ASSERT _assert = ASSERT::NO>
   std::string_view get_string_untrim(const size_t _offset,
-                                     const size_t _length) const noexcept {
+                                     const size_t _length) const {
     return INTERNAL::get_string(this->template data<_assert>(_offset, _length),
                                 _length);
   }
@@ -195,13 +201,13 @@ public:
   BUFFER(MBUFFER &&_buffer) : EBUFFER<_endian>(std::move(_buffer)) {}
 
   template <ASSERT _assert = ASSERT::NO>
-  integer_t get_integer(const size_t _offset) const noexcept {
+  integer_t get_integer(const size_t _offset) const {
     return INTERNAL::get_val<_endian, integer_t>(
         this->template data<_assert>(_offset, sizeof(integer_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  uinteger_t get_uinteger(const size_t _offset) const noexcept {
+  uinteger_t get_uinteger(const size_t _offset) const {
     return INTERNAL::get_val<_endian, uinteger_t>(
         this->template data<_assert>(_offset, sizeof(uinteger_t)));
   }
diff --git a/src/metadata.hpp b/src/metadata.hpp
index ae85cc8..130af70 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -218,7 +218,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void
   process_ROW_SIZE_SUBHEADER([[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-                             Properties::Metadata *_metadata) const noexcept {
+                             Properties::Metadata *_metadata) const {
     D(spdlog::info("READ_METADATA::process_ROW_SIZE_SUBHEADER: {}, {} : ",
                    _subheader.offset, _subheader.length));
     buf.assert_check(_subheader.offset + lcp_offset, 4);
@@ -243,7 +243,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_SIZE_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      Properties::Metadata *_metadata) const noexcept {
+      Properties::Metadata *_metadata) const {
     D(spdlog::info("READ_METADATA::process_COLUMN_SIZE_SUBHEADER: {}, {} : ",
                    _subheader.offset, _subheader.length));
     _metadata->column_count = buf.template get_uinteger<ASSERT::YES>(
@@ -266,7 +266,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_TEXT_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      Properties::Metadata *_metadata) noexcept {
+      Properties::Metadata *_metadata) {
     D(spdlog::info("READ_METADATA::process_COLUMN_TEXT_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
     const size_t length =
@@ -301,7 +301,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
   }
 
   std::string get_column_text_substr(const size_t _idx, size_t _offset,
-                                     size_t _length) const noexcept {
+                                     size_t _length) const {
     if (_idx < column_texts.size()) {
       const auto ct = column_texts[std::min(_idx, column_texts.size() - 1)];
       const auto n = ct.size();
@@ -328,7 +328,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_NAME_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info("READ_METADATA::process_COLUMN_NAME_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
     const size_t offset_max =
@@ -348,7 +348,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_ATTRIBUTES_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info(
         "READ_METADATA::process_COLUMN_ATTRIBUTES_SUBHEADER: {}, {}\n",
         _subheader.offset, _subheader.length));
@@ -370,7 +370,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_FORMAT_AND_LABEL_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info(
         "READ_METADATA::process_FORMAT_AND_LABEL_SUBHEADER: {}, {}\n",
         _subheader.offset, _subheader.length));
@@ -406,7 +406,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
   }
 
   void process_DATA_SUBHEADER([
-      [maybe_unused]] const PAGE_SUBHEADER &_subheader) noexcept {
+      [maybe_unused]] const PAGE_SUBHEADER &_subheader) {
     D(spdlog::info("READ_METADATA::process_DATA_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
     data_subheaders.emplace_back(_subheader);
-- 
2.43.0


From 74f1cc7b3d6dca093086e56d2296c7284cf14bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 05/35] fix: the buffer bounds check must not overflow

---
 src/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer.hpp b/src/buffer.hpp
index a81efe7..d6c16ff 100644
--- a/src/buffer.hpp
+++ b/src/buffer.hpp
@@ -60,7 +60,7 @@ public:
   size_t size() const noexcept { return m_size; }
 
   bool check(const size_t _offset, const size_t _length) const noexcept {
-    return _offset + _length <= size();
+    return _offset <= size() && _length <= size() - _offset; // No overflow
   }
 
   void assert_check(const size_t _offset, const size_t _length) const {
-- 
2.43.0


From f9d336fe8e347c7bd8dc7a4dab287ac78ca58eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 06/35] fix: stay inside the short metadata subheaders

---
 src/metadata.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index 130af70..58528ea 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -162,8 +162,8 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
   bool process_subheader(const PAGE_SUBHEADER &_subheader,
                          Properties::Metadata *_metadata) {
     // Match the subheader signature to the correct processing function
-    const auto subheader_signature =
-        buf.get_bytes(_subheader.offset, integer_size);
+    const auto subheader_signature = buf.get_bytes(
+        _subheader.offset, std::min(_subheader.length, integer_size));
     if (match_signature(ROW_SIZE_SUBHEADER, subheader_signature)) {
       process_ROW_SIZE_SUBHEADER(_subheader, _metadata);
       return false;
@@ -210,6 +210,9 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
   template <size_t n, size_t m>
   static bool match_signature(const BYTE (&_s)[n][m],
                               const BYTES _signature) noexcept {
+    // The subheader is too short to hold a signature.
+    if (_signature.size() < m)
+      return false;
     return std::any_of(std::begin(_s), std::end(_s),
                        [sig = _signature.data()](auto s) {
                          return std::memcmp(s, sig, m) == 0;
@@ -331,10 +334,9 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info("READ_METADATA::process_COLUMN_NAME_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
-    const size_t offset_max =
-        _subheader.offset + _subheader.length - 12 - integer_size;
+    const size_t offset_end = _subheader.offset + _subheader.length;
     for (size_t offset = _subheader.offset + integer_size + 8;
-         offset <= offset_max; offset += 8) {
+         offset + 12 + integer_size <= offset_end; offset += 8) {
       const size_t idx = buf.get_uint16(offset + 0);
       const size_t name_offset = buf.get_uint16(offset + 2);
       const size_t name_length = buf.get_uint16(offset + 4);
@@ -352,10 +354,10 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
     D(spdlog::info(
         "READ_METADATA::process_COLUMN_ATTRIBUTES_SUBHEADER: {}, {}\n",
         _subheader.offset, _subheader.length));
-    const size_t offset_max =
-        _subheader.offset + _subheader.length - 12 - integer_size;
+    const size_t offset_end = _subheader.offset + _subheader.length;
     for (size_t offset = _subheader.offset + integer_size + 8;
-         offset <= offset_max; offset += integer_size + 8) {
+         offset + 12 + integer_size <= offset_end;
+         offset += integer_size + 8) {
       const size_t column_data_offset = buf.get_uinteger(offset + 0);
       const size_t column_data_length = buf.get_uint32(offset + integer_size);
       const uint8_t column_data_type = buf.get_byte(offset + integer_size + 6);
-- 
2.43.0


From 06aeb478986f682fc23c3997a1b568e2c4f10778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 07/35] fix: reject the invalid header and page lengths with an
 exception

---
 src/header.hpp | 8 ++++----
 src/page.hpp   | 2 ++
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/header.hpp b/src/header.hpp
index 94cb3ef..8850f87 100644
--- a/src/header.hpp
+++ b/src/header.hpp
@@ -92,8 +92,8 @@ struct READ_HEADER {
     }*/
 
     // Read the rest of the header
-    FMT_ASSERT(_header->header_length >= HEADER_CONSTANTS::HEADER_SIZE,
-               "Header is too big in set_header_length_and_read");
+    if (_header->header_length < HEADER_CONSTANTS::HEADER_SIZE)
+      EXCEPTION::header_too_short();
     if (!buf.read_stream(is,
                          _header->header_length - HEADER_CONSTANTS::HEADER_SIZE,
                          HEADER_CONSTANTS::HEADER_SIZE))
@@ -103,8 +103,8 @@ struct READ_HEADER {
   }
 
   void set_header(Properties::Header *_header) const {
-    FMT_ASSERT(buf.size() >= 288 + total_align,
-               "Buffer is too small in set_header");
+    if (buf.size() < HEADER_CONSTANTS::HEADER_SIZE + total_align)
+      EXCEPTION::header_too_short();
 
     _header->platform = (buf[39] == '1' ? Platform::unix
                                         : buf[39] == '2' ? Platform::windows
diff --git a/src/page.hpp b/src/page.hpp
index f829f7e..f4a2215 100644
--- a/src/page.hpp
+++ b/src/page.hpp
@@ -104,6 +104,8 @@ struct READ_PAGE : public PAGE_CONSTANT<_format> {
 
   bool _get_page_header() {
     D(spdlog::info("get_page_header: "));
+    // Check that the page header falls within the buffer
+    buf.assert_check(page_bit_offset, 8);
     current_page_header.type = buf.get_uint16(page_bit_offset + 0);
     current_page_header.block_count = buf.get_uint16(page_bit_offset + 2);
     current_page_header.subheaders_count = buf.get_uint16(page_bit_offset + 4);
-- 
2.43.0


From c6d9ef43adf4e6f7743b5cd27bbeb8296030a690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 08/35] fix: reject the rows that fall outside of their page
 with an exception

---
 src/data.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data.hpp b/src/data.hpp
index d381427..aca6212 100644
--- a/src/data.hpp
+++ b/src/data.hpp
@@ -188,8 +188,8 @@ struct READ_DATA : public READ_PAGE<_DataSource, _endian, _format> {
   BYTES extract_row_values(const size_t _offset, const size_t _length) const {
     D(spdlog::info("READ_DATA::extract_row_values({}, {})\n", _offset,
                    _length));
-    FMT_ASSERT(_offset + _length <= header->page_length,
-               "Accessing data outside the page");
+    // Check that the row falls within the page
+    buf.assert_check(_offset, _length);
     const auto values = buf.get_bytes(_offset, _length);
     if (_length < metadata->row_length) {
       return decompressor(values);
-- 
2.43.0


From 594cd8d4426c8fe1ce0a84d239b8d8e142596466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 09/35] fix: reject the columns that fall outside of the row
 with an exception

---
 src/metadata.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index 58528ea..5973340 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -441,6 +441,12 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
           get_value("data_length", column_data_lengths, icol);
       const auto column_type = get_value("data_type", column_data_types, icol);
 
+      // Check that the column falls within the row
+      if (column_offset > _metadata->row_length ||
+          column_length > _metadata->row_length - column_offset)
+        EXCEPTION::invalid_buffer_access(column_offset, column_length,
+                                         _metadata->row_length);
+
       bool column_type_not_supported = true;
       auto add_column = [&](auto &&formatter) {
         D(spdlog::info("add_column: {}, {}, {}, {}, {}, {}\n", column_name,
-- 
2.43.0


From 0a7394d4849dd801d7b5e33921ef1eb305a65901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:10 +0000
Subject: [PATCH 10/35] fix: read the date, datetime and time columns stored on
 less than 8 bytes

---
 src/formatters.hpp |  4 +++-
 src/metadata.hpp   |  2 ++
 src/types.hpp      | 12 ++++++++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/formatters.hpp b/src/formatters.hpp
index 4833586..6fa8f53 100644
--- a/src/formatters.hpp
+++ b/src/formatters.hpp
@@ -109,7 +109,9 @@ template <Endian _endian> struct DoubleFormatter : public IFormatter {
   }
 
   NUMBER get_number([[maybe_unused]] const void *_p) const noexcept {
-    return INTERNAL::get_double<_endian>(data(_p));
+    return length < sizeof(NUMBER)
+               ? INTERNAL::get_incomplete_double<_endian>(data(_p), length)
+               : INTERNAL::get_double<_endian>(data(_p));
   }
 
   STRING to_string(const void *_p) const {
diff --git a/src/metadata.hpp b/src/metadata.hpp
index 5973340..2cd29fc 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -471,6 +471,8 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
         else if (column_length == 2)
           add_column(FORMATTER::IntegerFormatter<_endian, int16_t>(
               column_offset, column_length));
+        else if (column_length < 3 || column_length > 8)
+          ; // Not a valid length for a numeric value
         else if (is_datetime_format(column_format))
           add_column(FORMATTER::DateTimeFormatter<_endian>(column_offset,
                                                            column_length));
diff --git a/src/types.hpp b/src/types.hpp
index 09667b4..a6dd3bd 100644
--- a/src/types.hpp
+++ b/src/types.hpp
@@ -9,6 +9,7 @@
 #ifndef _CPP_SAS7BDAT_SRC_TYPES_HPP_
 #define _CPP_SAS7BDAT_SRC_TYPES_HPP_
 
+#include <algorithm>
 #include <boost/endian/conversion.hpp>
 #include <cctype>
 #include <cstdint>
@@ -142,6 +143,17 @@ inline double get_incomplete_double(const uint8_t *_buf) noexcept {
   return get_double<_endian>(buf);
 }
 
+template <Endian _endian>
+inline double get_incomplete_double(const uint8_t *_buf,
+                                    const size_t _length) noexcept {
+  constexpr size_t n = sizeof(double);
+  alignas(n) uint8_t buf[n] = {};
+  const size_t length = std::min(_length, n);
+  // The missing bytes are the least significant ones.
+  std::memcpy(_endian == Endian::big ? buf : buf + n - length, _buf, length);
+  return get_double<_endian>(buf);
+}
+
 inline DATETIME get_datetime_from_epoch(double _seconds) noexcept {
   using namespace boost::posix_time;
   using namespace boost::gregorian;
-- 
2.43.0


From 635b481be5ae72e9e7baedf3aecb23601538b55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:14 +0000
Subject: [PATCH 11/35] fix: missing and out of range dates, datetimes and
 times must not terminate the program nor throw when converted to a string

---
 src/formatters.hpp | 19 ++++++++++++++-----
 src/types.hpp      | 24 ++++++++++++++++++------
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/formatters.hpp b/src/formatters.hpp
index 6fa8f53..6cacb04 100644
--- a/src/formatters.hpp
+++ b/src/formatters.hpp
@@ -156,8 +156,11 @@ struct DateTimeFormatter : public DoubleFormatter<_endian> {
   }
 
   STRING to_string(const void *_p) const {
-    return cppsas7bdat::to_string(get_datetime(
-        _p)); // boost::posix_time::to_iso_extended_string(get_datetime(_p));
+    const auto x = get_datetime(_p);
+    if (x.is_special())
+      return {}; // missing value
+    return cppsas7bdat::to_string(
+        x); // boost::posix_time::to_iso_extended_string(get_datetime(_p));
   }
 };
 
@@ -180,8 +183,11 @@ struct DateFormatter : public DoubleFormatter<_endian> {
   TIME get_time([[maybe_unused]] const void *_p) const noexcept { return {}; }
 
   STRING to_string(const void *_p) const {
-    return cppsas7bdat::to_string(get_date(
-        _p)); // boost::gregorian::to_iso_extended_string(get_date(_p));
+    const auto x = get_date(_p);
+    if (x.is_special())
+      return {}; // missing value
+    return cppsas7bdat::to_string(
+        x); // boost::gregorian::to_iso_extended_string(get_date(_p));
   }
 };
 
@@ -202,8 +208,11 @@ struct TimeFormatter : public DoubleFormatter<_endian> {
   }
 
   STRING to_string(const void *_p) const {
+    const auto x = get_time(_p);
+    if (x.is_special())
+      return {}; // missing value
     return cppsas7bdat::to_string(
-        get_time(_p)); // boost::posix_time::to_simple_string(get_time(_p));
+        x); // boost::posix_time::to_simple_string(get_time(_p));
   }
 };
 
diff --git a/src/types.hpp b/src/types.hpp
index a6dd3bd..6c7770f 100644
--- a/src/types.hpp
+++ b/src/types.hpp
@@ -157,7 +157,9 @@ inline double get_incomplete_double(const uint8_t *_buf,
 inline DATETIME get_datetime_from_epoch(double _seconds) noexcept {
   using namespace boost::posix_time;
   using namespace boost::gregorian;
-  if (std::isnan(_seconds))
+  // Instants outside of the years supported by boost (1400-9999)
+  constexpr double max_seconds{24 * 60 * 60 * 3.7e6};
+  if (!(std::abs(_seconds) < max_seconds)) // Also true for NaN
     return not_a_date_time;
   ptime start(boost::gregorian::date(1960, 1, 1));
   // Increase accuracy by splitting in days/seconds/microseconds
@@ -166,8 +168,14 @@ inline DATETIME get_datetime_from_epoch(double _seconds) noexcept {
   _seconds -= _days * seconds_in_a_day;
   const auto _secs = std::round(_seconds);
   const auto _microseconds = std::round((_seconds - _secs) * 1e6);
-  return start + days(std::lround(_days)) + seconds(std::lround(_secs)) +
-         microseconds(std::lround(_microseconds));
+  const ptime min(boost::gregorian::date(1400, 1, 1));
+  const ptime end(boost::gregorian::date(9999, 12, 31), hours(24));
+  const auto offset = hours(24 * std::lround(_days)) +
+                      seconds(std::lround(_secs)) +
+                      microseconds(std::lround(_microseconds));
+  if (offset < min - start || offset >= end - start)
+    return not_a_date_time;
+  return start + offset;
 }
 
 inline TIME get_time_from_epoch(const double _seconds) noexcept {
@@ -181,10 +189,14 @@ inline DATE get_date_from_epoch_seconds(const double _seconds) noexcept {
 inline DATE get_date_from_epoch_days(const double _days) noexcept {
   using namespace boost::posix_time;
   using namespace boost::gregorian;
-  if (std::isnan(_days))
+  const DATE start(1960, 1, 1);
+  const auto min = (DATE(1400, 1, 1) - start).days();
+  const auto max = (DATE(9999, 12, 31) - start).days();
+  const auto n = std::round(_days);
+  // Days outside of the years supported by boost, also true for NaN
+  if (!(n >= static_cast<double>(min) && n <= static_cast<double>(max)))
     return DATE(not_a_date_time);
-  ptime start(boost::gregorian::date(1960, 1, 1));
-  return (start + days(std::lround(_days))).date();
+  return start + days(std::lround(n));
 }
 
 inline DATE get_date_from_epoch(const double _t) noexcept {
-- 
2.43.0


From 9fc03c6fd407ab421e793844324dbb0dbe5a5a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:11 +0000
Subject: [PATCH 12/35] fix: an empty data page must not yield a row

---
 src/data.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data.hpp b/src/data.hpp
index aca6212..42239e4 100644
--- a/src/data.hpp
+++ b/src/data.hpp
@@ -153,8 +153,8 @@ struct READ_DATA : public READ_PAGE<_DataSource, _endian, _format> {
       return false;
     if (!page)
       return false;
-    // Do we need to read a new page from the file?
-    if (page->next()) {
+    // Do we need to read a new page from the file?  Skip the empty pages.
+    while (page->next()) {
       if (!read_next_page())
         return false;
     }
-- 
2.43.0


From 8623218097774729d2775c4f1de7352ccbf1ab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 13/35] fix: a file that ends before its metadata is not an
 empty dataset

---
 src/metadata.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index 2cd29fc..0c62a2e 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -121,6 +121,8 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
   std::vector<size_t> column_data_offsets;
   std::vector<size_t> column_data_lengths;
   std::vector<Column::Type> column_data_types;
+  bool row_size_found{false};
+  bool column_size_found{false};
 
   using READ_PAGE<_DataSource, _endian, _format>::read_page;
   using READ_PAGE<_DataSource, _endian, _format>::process_page_subheaders;
@@ -138,6 +140,9 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       if (process_page(_metadata))
         break;
     }
+    // The file ends before its metadata
+    if (!row_size_found || !column_size_found)
+      EXCEPTION::cannot_read_page();
     create_columns(_metadata, _filter);
   }
 
@@ -166,10 +171,12 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
         _subheader.offset, std::min(_subheader.length, integer_size));
     if (match_signature(ROW_SIZE_SUBHEADER, subheader_signature)) {
       process_ROW_SIZE_SUBHEADER(_subheader, _metadata);
+      row_size_found = true;
       return false;
     }
     if (match_signature(COLUMN_SIZE_SUBHEADER, subheader_signature)) {
       process_COLUMN_SIZE_SUBHEADER(_subheader, _metadata);
+      column_size_found = true;
       return false;
     }
     if (match_signature(SUBHEADER_COUNTS_SUBHEADER, subheader_signature)) {
-- 
2.43.0


From 6d682df628cff96f463c173f8402a7297a234783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 14/35] fix: reject the endless mix pages of empty rows

---
 src/data.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/data.hpp b/src/data.hpp
index 42239e4..22d0ed4 100644
--- a/src/data.hpp
+++ b/src/data.hpp
@@ -220,7 +220,13 @@ struct READ_DATA : public READ_PAGE<_DataSource, _endian, _format> {
           page_bit_offset + 8 +
           current_page_header.subheaders_count * subheader_size;
       const size_t align_correction = offset % 8;
-      page.reset(new PAGE::mix_type(metadata, offset + align_correction));
+      auto mix_page = std::make_unique<PAGE::mix_type>(
+          metadata, offset + align_correction);
+      // Empty rows would never reach the end of the page
+      if (!mix_page->row_length && mix_page->row_count > header->page_length)
+        EXCEPTION::invalid_buffer_access(mix_page->offset, mix_page->row_count,
+                                         header->page_length);
+      page = std::move(mix_page);
       return true;
     } else {
       D(spdlog::warn("Unknown page type: {}\n", current_page_header.type));
-- 
2.43.0


From e09c52c169fa3e360812ab56a9ead1dc7a608708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 15/35] fix: recognize the row and column size subheaders of
 the big-endian 64 bits files

---
 src/metadata.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index 0c62a2e..767aa24 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -45,10 +45,12 @@ template <> struct METADATA_CONSTANT<Format::bit64> {
 
   static constexpr BYTE ROW_SIZE_SUBHEADER[][8] = {
       {0x00, 0x00, 0x00, 0x00, 0xF7, 0xF7, 0xF7, 0xF7},
-      {0xF7, 0xF7, 0xF7, 0xF7, 0x00, 0x00, 0x00, 0x00}};
+      {0xF7, 0xF7, 0xF7, 0xF7, 0x00, 0x00, 0x00, 0x00},
+      {0xF7, 0xF7, 0xF7, 0xF7, 0xFF, 0xFF, 0xFB, 0xFE}};
   static constexpr BYTE COLUMN_SIZE_SUBHEADER[][8] = {
       {0x00, 0x00, 0x00, 0x00, 0xF6, 0xF6, 0xF6, 0xF6},
-      {0xF6, 0xF6, 0xF6, 0xF6, 0x00, 0x00, 0x00, 0x00}};
+      {0xF6, 0xF6, 0xF6, 0xF6, 0x00, 0x00, 0x00, 0x00},
+      {0xF6, 0xF6, 0xF6, 0xF6, 0xFF, 0xFF, 0xFB, 0xFE}};
   static constexpr BYTE SUBHEADER_COUNTS_SUBHEADER[][8] = {
       {0x00, 0xFC, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF},
       {0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFC, 0x00}};
-- 
2.43.0


From 57448cb4aaf4f66bf618c4571f1ff106f32e4dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 16/35] fix: the csv file sink writes to its own stream after
 having been moved

---
 include/cppsas7bdat/sink/csv.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cppsas7bdat/sink/csv.hpp b/include/cppsas7bdat/sink/csv.hpp
index 91dfc2b..8a45c44 100644
--- a/include/cppsas7bdat/sink/csv.hpp
+++ b/include/cppsas7bdat/sink/csv.hpp
@@ -91,6 +91,10 @@ struct _ofstream {
 struct csv_ofstream : public _ofstream, public csv {
   explicit csv_ofstream(const char *_pcszfilename)
       : _ofstream(_pcszfilename), csv(ofs) {}
+  csv_ofstream(csv_ofstream &&_rhs)
+      : _ofstream(std::move(_rhs)), csv(ofs) { // its own stream
+    columns = std::move(_rhs.columns);
+  }
 };
 
 } // namespace detail
-- 
2.43.0


From 1b13c931e030eaf118b4d9f4008a718233922451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 17/35] fix: the csv file sink reports the failures of its
 output

---
 include/cppsas7bdat/sink/csv.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cppsas7bdat/sink/csv.hpp b/include/cppsas7bdat/sink/csv.hpp
index 8a45c44..3a05671 100644
--- a/include/cppsas7bdat/sink/csv.hpp
+++ b/include/cppsas7bdat/sink/csv.hpp
@@ -85,7 +85,10 @@ struct csv {
 struct _ofstream {
   std::ofstream ofs;
 
-  explicit _ofstream(const char *_pcszfilename) : ofs(_pcszfilename) {}
+  explicit _ofstream(const char *_pcszfilename) : ofs(_pcszfilename) {
+    // Nobody else can look at the state of this stream
+    ofs.exceptions(std::ios_base::failbit | std::ios_base::badbit);
+  }
 };
 
 struct csv_ofstream : public _ofstream, public csv {
@@ -95,6 +98,8 @@ struct csv_ofstream : public _ofstream, public csv {
       : _ofstream(std::move(_rhs)), csv(ofs) { // its own stream
     columns = std::move(_rhs.columns);
   }
+
+  void end_of_data() { ofs.flush(); }
 };
 
 } // namespace detail
-- 
2.43.0


From 7a0b2d1c7e987c8a26f460a49ca522200790bff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 18/35] fix: the print sink must not use the column names as
 format strings

---
 include/cppsas7bdat/sink/print.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppsas7bdat/sink/print.hpp b/include/cppsas7bdat/sink/print.hpp
index 41f861d..5f13c7f 100644
--- a/include/cppsas7bdat/sink/print.hpp
+++ b/include/cppsas7bdat/sink/print.hpp
@@ -67,7 +67,7 @@ struct print {
     fmt::print(os, "#");
     for (const auto &column : columns) {
       fmt::print(os, ",");
-      fmt::print(os, column.name);
+      fmt::print(os, "{}", column.name);
     }
     fmt::print(os, "\n");
   }
-- 
2.43.0


From 27543e4c01d4e89f121bf7643f60dfd8c8c0f268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 19/35] fix: the csv command must not overwrite the files it
 reads

---
 apps/cppsas7bdat-ci.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/apps/cppsas7bdat-ci.cpp b/apps/cppsas7bdat-ci.cpp
index edb0dce..9747059 100644
--- a/apps/cppsas7bdat-ci.cpp
+++ b/apps/cppsas7bdat-ci.cpp
@@ -13,6 +13,7 @@
 #include <cppsas7bdat/sink/csv.hpp>
 #include <cppsas7bdat/sink/null.hpp>
 #include <docopt/docopt.h>
+#include <filesystem>
 
 namespace {
   static constexpr auto USAGE =
@@ -42,11 +43,21 @@ void process_print(const std::string& _filename, long _n)
 
 std::string get_csv_filename(const std::string& _filename)
 {
-  auto ipos = _filename.rfind('.');
-  if(ipos != _filename.npos) {
-    return _filename.substr(0, ipos+1) + "csv";
+  return std::filesystem::path(_filename).replace_extension("csv").string();
+}
+
+// The csv files must not overwrite the files to be read
+void check_csv_filenames(const std::vector<std::string>& _filenames)
+{
+  for(const auto& filename: _filenames) {
+    const auto csv_filename = get_csv_filename(filename);
+    for(const auto& other: _filenames) {
+      std::error_code ec; // Not the same file when one of them does not exist
+      if(csv_filename == other || std::filesystem::equivalent(csv_filename, other, ec)) {
+        throw std::runtime_error(fmt::format("[{}] would be overwritten", other));
+      }
+    }
   }
-  return _filename + "csv";
 }
 
 void process_csv(const std::string& _filename)
@@ -54,7 +65,7 @@ void process_csv(const std::string& _filename)
   const auto csv_filename = get_csv_filename(_filename);
   //std::ofstream csv_os(csv_filename.c_str());
   //cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(csv_os));
-  cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(_filename.c_str()));
+  cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(csv_filename.c_str()));
   reader.read_all();
 }
 
@@ -83,6 +94,7 @@ int main(const int argc, char* argv[])
     }
   } else if(args["csv"].asBool()) {
     const auto files = args["<file>"].asStringList();
+    check_csv_filenames(files);
     for(const auto& file: files) {
       process_csv(file);
     }
-- 
2.43.0


From de6590273e6e7665fdb10ec1a57bcf7ed89bf2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 20/35] fix: the command line tool exits with a failure when
 its output is lost

---
 apps/cppsas7bdat-ci.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/apps/cppsas7bdat-ci.cpp b/apps/cppsas7bdat-ci.cpp
index 9747059..7b2d3e9 100644
--- a/apps/cppsas7bdat-ci.cpp
+++ b/apps/cppsas7bdat-ci.cpp
@@ -12,6 +12,7 @@
 #include <cppsas7bdat/sink/print.hpp>
 #include <cppsas7bdat/sink/csv.hpp>
 #include <cppsas7bdat/sink/null.hpp>
+#include <cstdlib>
 #include <docopt/docopt.h>
 #include <filesystem>
 
@@ -76,7 +77,7 @@ void process_null(const std::string& _filename)
 }
 
 int main(const int argc, char* argv[])
-{
+try {
   std::string version = fmt::format("CPP SAS7BDAT file reader {}", cppsas7bdat::getVersion());
   std::map<std::string, docopt::value> args = docopt::docopt(USAGE,
 							     { std::next(argv), std::next(argv, argc) },
@@ -104,5 +105,12 @@ int main(const int argc, char* argv[])
       process_null(file);
     }
   }
-  return 0;
+  if(!std::cout.flush()) {
+    throw std::runtime_error("cannot write to the standard output");
+  }
+  return EXIT_SUCCESS;
+}
+catch(const std::exception& e) {
+  std::cerr << e.what() << std::endl;
+  return EXIT_FAILURE;
 }
-- 
2.43.0


From ba22b64be4fe30dd096f08493e0600305ef7f2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:19 +0000
Subject: [PATCH 21/35] fix: a compressed row that starts like a metadata
 signature is a row

---
 src/metadata.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index 767aa24..1ff65b5 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -168,6 +168,13 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   bool process_subheader(const PAGE_SUBHEADER &_subheader,
                          Properties::Metadata *_metadata) {
+    // A compressed row may start with any bytes, even those of a signature
+    if (_subheader.compression == COMPRESSED_SUBHEADER_ID &&
+        DataSubHeader::check(_metadata, _subheader)) {
+      process_DATA_SUBHEADER(_subheader);
+      return true;
+    }
+
     // Match the subheader signature to the correct processing function
     const auto subheader_signature = buf.get_bytes(
         _subheader.offset, std::min(_subheader.length, integer_size));
-- 
2.43.0


From e26d2cdbde9273e701c2dbfa3688547979a04fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 22/35] fix: a Python sink's _cpp attribute outlives its reader

_cpp referred to the C++ sink, which is destroyed with the reader, was leaked
at every open, could not be refused by the sink, and a second end of data left
the error of its removal set.
---
 python/pycppsas7bdat/cpp/reader.cpp |  5 +--
 python/pycppsas7bdat/cpp/sink.hpp   | 49 ++++++++++++++++++++++++++---
 2 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/python/pycppsas7bdat/cpp/reader.cpp b/python/pycppsas7bdat/cpp/reader.cpp
index 2dc87a2..3c612df 100644
--- a/python/pycppsas7bdat/cpp/reader.cpp
+++ b/python/pycppsas7bdat/cpp/reader.cpp
@@ -86,8 +86,9 @@ boost::shared_ptr<Reader> create_reader(std::string _filename, PyObject *_sink,
 void bind_reader() {
   using namespace boost::python;
 
-  class_<SinkBase, boost::noncopyable>("SinkBase", no_init)
-      .def("flush_sink", &SinkBase::flush_sink);
+  class_<SinkLink, boost::shared_ptr<SinkLink>, boost::noncopyable>("SinkBase",
+                                                                    no_init)
+      .def("flush_sink", &SinkLink::flush_sink);
 
   class_<Reader, boost::noncopyable>("Reader", no_init)
       .def("__init__", make_constructor(&create_reader, default_call_policies(),
diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index 2782f5d..bef172c 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -27,25 +27,58 @@ static PyObject *to_python(const boost::python::object &_o) {
   return boost::python::incref(_o.ptr());
 }
 
+struct SinkBase;
+
+// What the `_cpp` attribute of a python sink holds: the python code may keep it
+// longer than the C++ sink it refers to, which is owned by the reader.
+struct SinkLink : public boost::noncopyable {
+  SinkBase *sink{nullptr};
+
+  void flush_sink();
+};
+
 struct SinkBase : public boost::noncopyable {
   // using STRING = boost::python::str;
   using STRING = boost::python::object;
 
   SinkBase(PyObject *_self) : self(_self) { Py_INCREF(self); }
   ~SinkBase() {
+    if (link)
+      link->sink = nullptr;
     if (self)
       Py_DECREF(self);
   }
-  SinkBase(SinkBase &&_rhs) noexcept : self(_rhs.self) { _rhs.self = nullptr; }
+  SinkBase(SinkBase &&_rhs) noexcept
+      : self(_rhs.self), link(std::move(_rhs.link)) {
+    _rhs.self = nullptr;
+    _rhs.link.reset();
+    if (link)
+      link->sink = this;
+  }
 
   void set_cpp_attr() {
     // std::cerr << "SinkBase:: set_cpp_attr(" << this << ")" << std::endl;
-    boost::python::object value(boost::ref(*this));
-    PyObject *po = boost::python::incref(value.ptr());
-    PyObject_SetAttrString(self, "_cpp", po);
+    if (!link) {
+      link.reset(new SinkLink);
+      link->sink = this;
+    }
+    boost::python::object value(link);
+    // The attribute is only a convenience: a sink may not accept it.
+    if (PyObject_SetAttrString(self, "_cpp", value.ptr()) < 0)
+      PyErr_Clear();
   }
 
-  void del_cpp_attr() { PyObject_DelAttrString(self, "_cpp"); }
+  void del_cpp_attr() {
+    PyObject *attr = PyObject_GetAttrString(self, "_cpp");
+    if (attr) {
+      // Another reader may have been given this python sink in the meantime.
+      boost::python::object value{boost::python::handle<>(attr)};
+      boost::python::extract<SinkLink &> current(value);
+      if (current.check() && &current() == link.get())
+        PyObject_DelAttrString(self, "_cpp");
+    }
+    PyErr_Clear();
+  }
 
   void set_properties([
       [maybe_unused]] const cppsas7bdat::Properties &_properties) {
@@ -75,8 +108,14 @@ struct SinkBase : public boost::noncopyable {
 
 protected:
   PyObject *self;
+  boost::shared_ptr<SinkLink> link;
 };
 
+inline void SinkLink::flush_sink() {
+  if (sink)
+    sink->flush_sink();
+}
+
 struct Sink : public SinkBase {
   Sink(PyObject *_self) : SinkBase(_self) {}
 
-- 
2.43.0


From 0a789a30825503bba1560b2c8858ac8ee674c1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 23/35] fix: index of the first row of a Python chunk after a
 skip

---
 python/pycppsas7bdat/cpp/sink.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index bef172c..9079c09 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -301,6 +301,8 @@ struct SinkChunk : public SinkBase {
         [](const cppsas7bdat::Column &column, cppsas7bdat::Column::PBUF _p) {
           return to_str(column.get_string(_p));
         });
+    if (!idata)
+      istartrow = _irow; // Rows may have been skipped since the last chunk
     iendrow = _irow;
     ++idata;
     if (idata == size)
@@ -417,7 +419,6 @@ struct SinkChunk : public SinkBase {
 
   void clear_values() {
     idata = 0;
-    istartrow = iendrow + 1;
     clear_values(col_numbers);
     clear_values(col_integers);
     clear_values(col_datetimes);
-- 
2.43.0


From 89bff9d793e47980270df2d6cf27ef5376f7c071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 24/35] fix: rows handed out again after an exception of a
 Python sink

---
 python/pycppsas7bdat/cpp/sink.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index 9079c09..4183ab9 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -412,8 +412,9 @@ struct SinkChunk : public SinkBase {
     if (idata) {
       boost::python::dict d;
       set_dict_values(d);
-      call_method<void>(self, "push_rows", istartrow, iendrow, d);
+      // The rows are handed out once, even when the call raises an exception
       clear_values();
+      call_method<void>(self, "push_rows", istartrow, iendrow, d);
     }
   }
 
@@ -449,8 +450,8 @@ public:
     if (idata) {
       boost::python::dict d;
       set_dict_values(d);
-      call_method<void>(self, "set_data", d);
       clear_values();
+      call_method<void>(self, "set_data", d);
     }
   }
 };
-- 
2.43.0


From f8019028ef753f6ee7a600004a62f0a83d496de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 25/35] fix: properties of a Python reader outlive the reader

---
 python/pycppsas7bdat/cpp/reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pycppsas7bdat/cpp/reader.cpp b/python/pycppsas7bdat/cpp/reader.cpp
index 3c612df..736b850 100644
--- a/python/pycppsas7bdat/cpp/reader.cpp
+++ b/python/pycppsas7bdat/cpp/reader.cpp
@@ -97,7 +97,7 @@ void bind_reader() {
                                          arg("exclude") = object())))
       .add_property("current_row_index", &Reader::current_row_index)
       .def("properties", &Reader::properties,
-           return_value_policy<reference_existing_object>())
+           return_internal_reference<>())
       .def("read_all", &Reader::read_all)
       .def("read_row", &Reader::read_row)
       .def("read_rows", &Reader::read_rows)
-- 
2.43.0


From 464a6850ff6d69b039648852a12010ec769cf132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 26/35] fix: missing reference to None for a missing date, time
 or datetime in Python

---
 python/pycppsas7bdat/cpp/import_datetime.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/pycppsas7bdat/cpp/import_datetime.cpp b/python/pycppsas7bdat/cpp/import_datetime.cpp
index 85b55f4..215c9f2 100644
--- a/python/pycppsas7bdat/cpp/import_datetime.cpp
+++ b/python/pycppsas7bdat/cpp/import_datetime.cpp
@@ -34,7 +34,7 @@ static long get_usecs(boost::posix_time::time_duration const &d) {
 struct ptime_to_python_datetime {
   static PyObject *convert(boost::posix_time::ptime const &pt) {
     if (pt.is_not_a_date_time())
-      return Py_None;
+      Py_RETURN_NONE;
     const boost::gregorian::date date = pt.date();
     const boost::posix_time::time_duration td = pt.time_of_day();
     return PyDateTime_FromDateAndTime((int)date.year(), (int)date.month(),
@@ -88,7 +88,7 @@ struct ptime_from_python_datetime {
 struct tduration_to_python_delta {
   static PyObject *convert(boost::posix_time::time_duration d) {
     if (d.is_not_a_date_time())
-      return Py_None;
+      Py_RETURN_NONE;
     long hours = d.hours();
     long days = hours / 24;
     if (days == 0) {
@@ -154,7 +154,7 @@ struct tduration_from_python_delta {
 struct gregorian_date_to_python_date {
   static PyObject *convert(boost::gregorian::date const &date) {
     if (date.is_not_a_date())
-      return Py_None;
+      Py_RETURN_NONE;
     return PyDate_FromDate((int)date.year(), (int)date.month(),
                            (int)date.day());
   }
-- 
2.43.0


From 0d7dc2f85c879d82f8aa550b0b68f2ebd6733b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 27/35] fix: a Python row has a value for every column, of
 unknown type too

---
 python/pycppsas7bdat/cpp/sink.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index 4183ab9..26c8477 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -150,6 +150,9 @@ struct Sink : public SinkBase {
       case cppsas7bdat::Column::Type::time:
         l.append(column.get_time(_p));
         break;
+      case cppsas7bdat::Column::Type::unknown:
+        l.append(object()); // One value for each column
+        break;
       }
     }
 
-- 
2.43.0


From 0c8bb173b062e43ec2cd432e70d77042c9585294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 28/35] fix: the R sinks look for the columns where the
 properties have them

---
 R/CPPSAS7BDAT/R/sink.R | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/R/CPPSAS7BDAT/R/sink.R b/R/CPPSAS7BDAT/R/sink.R
index 318b96c..dd45d46 100644
--- a/R/CPPSAS7BDAT/R/sink.R
+++ b/R/CPPSAS7BDAT/R/sink.R
@@ -13,8 +13,8 @@ SinkByRow <- R6Class("SinkByRow",
     initialize = function() {},
     set_properties = function(properties) {
 	    self$properties = properties;
-	    self$columns = names(properties$metadata$columns);
-	    self$df = data.frame(matrix(NA, nrow=properties$metadata$row_count, ncol=properties$metadata$column_count))
+	    self$columns = names(properties$columns);
+	    self$df = data.frame(matrix(NA, nrow=properties$row_count, ncol=properties$column_count))
 	    names(self$df) = self$columns
     },
     push_row = function(irow, row) {
@@ -36,7 +36,7 @@ SinkByChunk <- R6Class("SinkByChunk",
     },
     set_properties = function(properties) {
 	    self$properties = properties;
-	    self$columns = names(properties$metadata$columns);
+	    self$columns = names(properties$columns);
     },
     push_rows = function(row_index, rows) {
 	    rows <- as.data.frame(rows);
@@ -54,7 +54,7 @@ SinkWholeData <- R6Class("SinkWholeData",
     initialize = function() {},
     set_properties = function(properties) {
 	    self$properties = properties;
-	    self$columns = names(properties$metadata$columns);
+	    self$columns = names(properties$columns);
     },
     set_data = function(row_index, data) {
 	    self$df <- data;
-- 
2.43.0


From 294e7dfbbb440428b7279cae7229225dac00452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 29/35] fix: an R reader can open a file without creation or
 modification date

---
 R/CPPSAS7BDAT/src/wrap_properties.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/R/CPPSAS7BDAT/src/wrap_properties.hpp b/R/CPPSAS7BDAT/src/wrap_properties.hpp
index 36733f3..13e8806 100644
--- a/R/CPPSAS7BDAT/src/wrap_properties.hpp
+++ b/R/CPPSAS7BDAT/src/wrap_properties.hpp
@@ -75,12 +75,18 @@ SEXP wrap_properties(const cppsas7bdat::Properties &_properties) {
     return columns;
   }();
 
+  auto datetime = [](const DATETIME &_x) -> Rcpp::String {
+    if (_x.is_not_a_date_time())
+      return NA_STRING;
+    return to_string(_x);
+  };
+
   return Rcppsas7bdat::ListBuilder()
       .add("endianness",
            std::string(to_string(_properties /*.header*/.endianness)))
       .add("platform", std::string(to_string(_properties /*.header*/.platform)))
-      .add("date_created", to_string(_properties /*.header*/.date_created))
-      .add("date_modified", to_string(_properties /*.header*/.date_modified))
+      .add("date_created", datetime(_properties /*.header*/.date_created))
+      .add("date_modified", datetime(_properties /*.header*/.date_modified))
       .add("dataset_name", _properties /*.header*/.dataset_name)
       .add("encoding", _properties /*.header*/.encoding)
       .add("file_type", _properties /*.header*/.file_type)
-- 
2.43.0


From 4bb16b81ddaf695ad32824c74d99dc60a32e461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 30/35] fix: the rows kept by an R sink were overwritten by the
 next row

---
 R/CPPSAS7BDAT/src/sink.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/R/CPPSAS7BDAT/src/sink.hpp b/R/CPPSAS7BDAT/src/sink.hpp
index 8e17e2e..d7e624c 100644
--- a/R/CPPSAS7BDAT/src/sink.hpp
+++ b/R/CPPSAS7BDAT/src/sink.hpp
@@ -62,6 +62,9 @@ struct Sink : public SinkBase {
   void push_row([[maybe_unused]] const size_t _irow,
                 [[maybe_unused]] cppsas7bdat::Column::PBUF _p) {
     const size_t ncols = columns.size();
+    // A new list for each row: the callee may keep it
+    row = Rcpp::List(ncols);
+    row.names() = col_names;
     for (size_t icol = 0; icol < ncols; ++icol) {
       const auto &column = columns[icol];
       switch (column.type) {
@@ -97,8 +100,6 @@ protected:
     for (size_t icol = 0; icol < ncols; ++icol) {
       col_names[icol] = columns[icol].name;
     }
-    row = Rcpp::List(ncols);
-    row.names() = col_names;
   }
 
   cppsas7bdat::COLUMNS columns;
-- 
2.43.0


From 504dc04a9f7555bd10ef4af600c42cff319fb4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 31/35] fix: R chunks were overwritten by later rows, handed
 out again or overrun

The vectors given to push_rows and set_data were filled again with the next
rows; after a partial chunk, an error in the callback or a second end of data
the row count and the length of the vectors disagreed, so that rows were handed
out again or written beyond the end.
---
 R/CPPSAS7BDAT/src/sink_by_columns.hpp | 20 ++++++++++++++++----
 R/CPPSAS7BDAT/src/sink_chunk.hpp      | 17 +++--------------
 R/CPPSAS7BDAT/src/sink_data.hpp       |  3 +--
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/R/CPPSAS7BDAT/src/sink_by_columns.hpp b/R/CPPSAS7BDAT/src/sink_by_columns.hpp
index 4b44bb4..c9aea1e 100644
--- a/R/CPPSAS7BDAT/src/sink_by_columns.hpp
+++ b/R/CPPSAS7BDAT/src/sink_by_columns.hpp
@@ -61,7 +61,6 @@ struct SinkByColumns : public SinkBase {
     ilastrow = _properties /*.metadata*/.row_count;
     SinkBase::set_properties(_properties);
     columns = cppsas7bdat::Columns(_properties /*.metadata*/.columns);
-    prepare_values(size ? std::min(size, ilastrow) : ilastrow);
     setup_col_names();
   }
 
@@ -117,6 +116,12 @@ struct SinkByColumns : public SinkBase {
   void push_row([[maybe_unused]] const size_t _irow,
                 [[maybe_unused]] cppsas7bdat::Column::PBUF _p) {
 
+    if (!idata) {
+      // New vectors: the previous ones have been handed out
+      const size_t nrows = _irow < ilastrow ? ilastrow - _irow : 1;
+      prepare_values(size ? std::min(size, nrows) : nrows);
+    }
+
     row_index[idata] = _irow;
 
     push_values(
@@ -165,6 +170,9 @@ protected:
   void set_values() {
     size_t icol = {0};
 
+    rows = Rcpp::List(col_names.size());
+    rows.names() = col_names;
+
     auto set_values = [&](const auto &_columns) {
       for (const auto &column : _columns) {
         if (idata != column.size()) {
@@ -185,6 +193,13 @@ protected:
     set_values(col_strings);
   }
 
+  // The rows are handed out once, even when the call fails
+  void hand_out(Function &_f) {
+    set_values();
+    idata = 0;
+    _f(row_index, rows);
+  }
+
   void setup_col_names() {
     auto add_col_name = [&](const cppsas7bdat::COLUMNS &_columns) {
       for (const auto &column : _columns) {
@@ -197,9 +212,6 @@ protected:
     add_col_name(columns.dates);
     add_col_name(columns.times);
     add_col_name(columns.strings);
-
-    rows = Rcpp::List(col_names.size());
-    rows.names() = col_names;
   }
 
   cppsas7bdat::Columns columns;
diff --git a/R/CPPSAS7BDAT/src/sink_chunk.hpp b/R/CPPSAS7BDAT/src/sink_chunk.hpp
index e61652c..1747f7d 100644
--- a/R/CPPSAS7BDAT/src/sink_chunk.hpp
+++ b/R/CPPSAS7BDAT/src/sink_chunk.hpp
@@ -14,8 +14,6 @@
 namespace Rcppsas7bdat {
 
 struct SinkChunk : public SinkByColumns {
-  size_t istartrow{0}, iendrow{0};
-
   explicit SinkChunk(Environment _sink, const size_t _size)
       : SinkByColumns(_sink, _size), f_push_rows(sink["push_rows"]) {}
 
@@ -23,25 +21,16 @@ struct SinkChunk : public SinkByColumns {
                 [[maybe_unused]] cppsas7bdat::Column::PBUF _p) {
     SinkByColumns::push_row(_irow, _p);
 
-    iendrow = _irow;
-    if (idata == size) {
+    if (idata == size)
       flush();
-      // Check if the were starting the last chunk => resize to a smaller chunk
-      if (istartrow + size > ilastrow && istartrow < ilastrow) {
-        prepare_values(ilastrow - istartrow);
-      }
-    }
   }
 
   void end_of_data() { flush(); }
 
   void flush() {
-    if (istartrow > iendrow || idata == 0)
+    if (idata == 0)
       return;
-    SinkByColumns::set_values();
-    f_push_rows(row_index, rows);
-    idata = 0;
-    istartrow = iendrow + 1;
+    hand_out(f_push_rows);
   }
 
 protected:
diff --git a/R/CPPSAS7BDAT/src/sink_data.hpp b/R/CPPSAS7BDAT/src/sink_data.hpp
index f33b6ad..707abc2 100644
--- a/R/CPPSAS7BDAT/src/sink_data.hpp
+++ b/R/CPPSAS7BDAT/src/sink_data.hpp
@@ -22,8 +22,7 @@ struct SinkData : public SinkByColumns {
   void flush() {
     if (idata == 0)
       return;
-    SinkByColumns::set_values();
-    f_set_data(row_index, rows);
+    hand_out(f_set_data);
   }
 
 protected:
-- 
2.43.0


From f9d06254335f0623cf7f781ca3a1d5bd4f2dcc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 32/35] fix: make the data frame of R's SinkByRow as wide as
 the selected columns

---
 R/CPPSAS7BDAT/R/sink.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/CPPSAS7BDAT/R/sink.R b/R/CPPSAS7BDAT/R/sink.R
index dd45d46..05d9e4d 100644
--- a/R/CPPSAS7BDAT/R/sink.R
+++ b/R/CPPSAS7BDAT/R/sink.R
@@ -14,7 +14,7 @@ SinkByRow <- R6Class("SinkByRow",
     set_properties = function(properties) {
 	    self$properties = properties;
 	    self$columns = names(properties$columns);
-	    self$df = data.frame(matrix(NA, nrow=properties$row_count, ncol=properties$column_count))
+	    self$df = data.frame(matrix(NA, nrow=properties$row_count, ncol=length(self$columns)))
 	    names(self$df) = self$columns
     },
     push_row = function(irow, row) {
-- 
2.43.0


From e5ff0a3ba681fd46ac93ae9d5ab3761d19074443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:57 +0000
Subject: [PATCH 33/35] fix: the csv command refuses the files that have the
 same csv file

---
 apps/cppsas7bdat-ci.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/apps/cppsas7bdat-ci.cpp b/apps/cppsas7bdat-ci.cpp
index 7b2d3e9..da94178 100644
--- a/apps/cppsas7bdat-ci.cpp
+++ b/apps/cppsas7bdat-ci.cpp
@@ -47,16 +47,25 @@ std::string get_csv_filename(const std::string& _filename)
   return std::filesystem::path(_filename).replace_extension("csv").string();
 }
 
-// The csv files must not overwrite the files to be read
+bool is_same_path(const std::string& _a, const std::string& _b)
+{
+  std::error_code ec; // Not the same file when one of them does not exist
+  return std::filesystem::absolute(_a).lexically_normal() == std::filesystem::absolute(_b).lexically_normal()
+    || std::filesystem::equivalent(_a, _b, ec);
+}
+
+// The csv files must overwrite neither the files to be read nor each other
 void check_csv_filenames(const std::vector<std::string>& _filenames)
 {
   for(const auto& filename: _filenames) {
     const auto csv_filename = get_csv_filename(filename);
     for(const auto& other: _filenames) {
-      std::error_code ec; // Not the same file when one of them does not exist
-      if(csv_filename == other || std::filesystem::equivalent(csv_filename, other, ec)) {
+      if(is_same_path(csv_filename, other)) {
         throw std::runtime_error(fmt::format("[{}] would be overwritten", other));
       }
+      if(!is_same_path(filename, other) && is_same_path(csv_filename, get_csv_filename(other))) {
+        throw std::runtime_error(fmt::format("[{}] and [{}] have the same csv file", filename, other));
+      }
     }
   }
 }
-- 
2.43.0


From 752bb1db09258c83f72ff83773a55c65a9a056c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:16 +0000
Subject: [PATCH 34/35] fix: keep the columns of the Python chunk sink in step
 when a row or a flush fails

A row that fails halfway (no memory) left columns of different lengths, and
a chunk whose hand-over failed grew beyond its size.
---
 python/pycppsas7bdat/cpp/sink.hpp | 41 ++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index 26c8477..05a717f 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -271,6 +271,25 @@ struct SinkChunk : public SinkBase {
 
   void push_row([[maybe_unused]] const size_t _irow,
                 [[maybe_unused]] cppsas7bdat::Column::PBUF _p) {
+    // The rows of a full chunk are still there if handing them over failed
+    if (size && idata >= size)
+      flush();
+    try {
+      push_columns(_p);
+    } catch (...) {
+      // The row is incomplete: the columns must keep the same length
+      truncate_values();
+      throw;
+    }
+    if (!idata)
+      istartrow = _irow; // Rows may have been skipped since the last chunk
+    iendrow = _irow;
+    ++idata;
+    if (idata == size)
+      flush();
+  }
+
+  void push_columns(cppsas7bdat::Column::PBUF _p) {
     push_values(
         _p, columns.numbers, col_numbers,
         [](const cppsas7bdat::Column &column, cppsas7bdat::Column::PBUF _p) {
@@ -304,12 +323,6 @@ struct SinkChunk : public SinkBase {
         [](const cppsas7bdat::Column &column, cppsas7bdat::Column::PBUF _p) {
           return to_str(column.get_string(_p));
         });
-    if (!idata)
-      istartrow = _irow; // Rows may have been skipped since the last chunk
-    iendrow = _irow;
-    ++idata;
-    if (idata == size)
-      flush();
   }
 
   void end_of_data() override {
@@ -323,6 +336,22 @@ struct SinkChunk : public SinkBase {
       v.clear();
   }
 
+  template <typename _Values> void truncate_values(_Values &_values) {
+    for (auto &v : _values) {
+      if (v.size() > idata)
+        v.erase(v.begin() + static_cast<std::ptrdiff_t>(idata), v.end());
+    }
+  }
+
+  void truncate_values() {
+    truncate_values(col_numbers);
+    truncate_values(col_integers);
+    truncate_values(col_datetimes);
+    truncate_values(col_dates);
+    truncate_values(col_times);
+    truncate_values(col_strings);
+  }
+
   template <typename _Values>
   static auto to_nparray(_Values &_values /*, const int _type*/) {
     using T = typename _Values::value_type;
-- 
2.43.0


From ffbed80b56f38097ba8825cb4cd9de4215130c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:18 +0000
Subject: [PATCH 35/35] fix: the data frame of a Python chunk sink that got no
 chunk is empty

pd.concat refuses an empty list, so the data frame of an empty data set
could not be had.
---
 python/pycppsas7bdat/sink.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pycppsas7bdat/sink.py b/python/pycppsas7bdat/sink.py
index fce9c63..0f1dc2c 100644
--- a/python/pycppsas7bdat/sink.py
+++ b/python/pycppsas7bdat/sink.py
@@ -48,6 +48,8 @@ class SinkByChunk(SinkBase):
     def df(self):
         if self._df is None:
             self._cpp_flush_sink()
+            if not self._rows: # No chunk yet: pd.concat refuses an empty list
+                return pd.DataFrame(columns = self.columns)
             self._df = pd.concat(self._rows)
         return self._df
 
-- 
2.43.0

