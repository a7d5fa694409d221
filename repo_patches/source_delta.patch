From 81186b3bda1ab6fbcb8633e048fbdca226f50b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:05 +0000
Subject: [PATCH 01/27] fix: encode nullable int16 maximum value without
 wrapping to a negative entity

---
 src/mfast/coder/encoder/fast_ostream.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mfast/coder/encoder/fast_ostream.h b/src/mfast/coder/encoder/fast_ostream.h
index cd9aaba..4bdf3c4 100644
--- a/src/mfast/coder/encoder/fast_ostream.h
+++ b/src/mfast/coder/encoder/fast_ostream.h
@@ -106,7 +106,13 @@ inline bool encode_max_value(int32_t &value, fast_ostreambuf *buf) {
   return false;
 }
 
-inline bool encode_max_value(int16_t &, fast_ostreambuf *) { return false; }
+inline bool encode_max_value(int16_t &value, fast_ostreambuf *buf) {
+  if (value == (std::numeric_limits<int16_t>::max)()) {
+    buf->sputn("\x02\x00\x80", 3);
+    return true;
+  }
+  return false;
+}
 }
 
 template <typename IntType, typename Nullable>
-- 
2.43.0


From ae03bc615c08a24fbc1c79701bcb638bbcba967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:12 +0000
Subject: [PATCH 02/27] fix: do not read strings and byte vectors past the end
 of the input

---
 src/mfast/coder/decoder/fast_istreambuf.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mfast/coder/decoder/fast_istreambuf.h b/src/mfast/coder/decoder/fast_istreambuf.h
index 39c6425..38cec9e 100644
--- a/src/mfast/coder/decoder/fast_istreambuf.h
+++ b/src/mfast/coder/decoder/fast_istreambuf.h
@@ -38,14 +38,22 @@ protected:
   friend class fast_decoder;
   friend struct coder::fast_decoder_base;
 
-  void gbump(std::ptrdiff_t n) { gptr_ += n; }
+  void gbump(std::ptrdiff_t n) {
+    if (n > egptr_ - gptr_)
+      BOOST_THROW_EXCEPTION(fast_dynamic_error("Buffer underflow"));
+    gptr_ += n;
+  }
   unsigned char sbumpc() {
     if (in_avail() < 1)
       BOOST_THROW_EXCEPTION(fast_dynamic_error("Buffer underflow"));
     return *(gptr_++);
   }
 
-  char sgetc() const { return *gptr_; }
+  char sgetc() const {
+    if (in_avail() < 1)
+      BOOST_THROW_EXCEPTION(fast_dynamic_error("Buffer underflow"));
+    return *gptr_;
+  }
   const char *egptr() { return egptr_; }
   const char *gptr_, *egptr_;
 };
-- 
2.43.0


From f6ae9429e914f309f78af2c39852769a7be0134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:12 +0000
Subject: [PATCH 03/27] fix: do not read an unterminated presence map past the
 end of the input

---
 src/mfast/coder/decoder/decoder_presence_map.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfast/coder/decoder/decoder_presence_map.h b/src/mfast/coder/decoder/decoder_presence_map.h
index 48b04d4..422fa15 100644
--- a/src/mfast/coder/decoder/decoder_presence_map.h
+++ b/src/mfast/coder/decoder/decoder_presence_map.h
@@ -27,6 +27,7 @@ public:
   }
 
   bool load(fast_istreambuf &buf) {
+    buf.get_entity_length(); // throws if the presence map is not terminated
     const char *addr = buf.gptr();
     bool result = load(addr);
     buf.gbump(addr - buf.gptr());
-- 
2.43.0


From b3e3c606500795dec2dd619a21f94bb7d14ed575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 04/27] fix: encode an absent string or byte vector field as
 NULL, not as an empty value

---
 src/mfast/coder/encoder/fast_ostream_inserter.h    | 6 +++---
 src/mfast/coder/encoder_v2/fast_ostream_inserter.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_ostream_inserter.h b/src/mfast/coder/encoder/fast_ostream_inserter.h
index 77d2ce8..62cc983 100644
--- a/src/mfast/coder/encoder/fast_ostream_inserter.h
+++ b/src/mfast/coder/encoder/fast_ostream_inserter.h
@@ -24,21 +24,21 @@ inline fast_ostream &operator<<(fast_ostream &strm, const exponent_cref &cref) {
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const ascii_string_cref &cref) {
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
+  strm.encode(cref.absent() ? nullptr : cref.c_str(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), cref.instruction()->is_nullable());
   return strm;
 }
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const unicode_string_cref &cref) {
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
+  strm.encode(cref.absent() ? nullptr : cref.c_str(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), cref.instruction()->is_nullable());
   return strm;
 }
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const byte_vector_cref &cref) {
-  strm.encode(cref.begin(), static_cast<uint32_t>(cref.size()),
+  strm.encode(cref.absent() ? nullptr : cref.begin(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), cref.instruction()->is_nullable());
   return strm;
 }
diff --git a/src/mfast/coder/encoder_v2/fast_ostream_inserter.h b/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
index e99548a..0520054 100644
--- a/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
+++ b/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
@@ -19,7 +19,7 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<ascii_string_cref, Operator, Properties> &ext_ref) {
   ascii_string_cref cref = ext_ref.get();
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
+  strm.encode(cref.absent() ? nullptr : cref.c_str(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), ext_ref.nullable());
   return strm;
 }
@@ -29,7 +29,7 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<unicode_string_cref, Operator, Properties> &ext_ref) {
   unicode_string_cref cref = ext_ref.get();
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
+  strm.encode(cref.absent() ? nullptr : cref.c_str(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), ext_ref.nullable());
   return strm;
 }
@@ -39,7 +39,7 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<byte_vector_cref, Operator, Properties> &ext_ref) {
   byte_vector_cref cref = ext_ref.get();
-  strm.encode(cref.begin(), static_cast<uint32_t>(cref.size()),
+  strm.encode(cref.absent() ? nullptr : cref.begin(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), ext_ref.nullable());
   return strm;
 }
-- 
2.43.0


From e584c273b9bf2e4cef00717dc6c15cf9c0c381e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:26 +0000
Subject: [PATCH 05/27] fix: encode a byte vector field without content as
 empty, not as NULL

---
 src/mfast/coder/encoder/fast_ostream_inserter.h    | 5 ++++-
 src/mfast/coder/encoder_v2/fast_ostream_inserter.h | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_ostream_inserter.h b/src/mfast/coder/encoder/fast_ostream_inserter.h
index 62cc983..d9cc5cd 100644
--- a/src/mfast/coder/encoder/fast_ostream_inserter.h
+++ b/src/mfast/coder/encoder/fast_ostream_inserter.h
@@ -38,7 +38,10 @@ inline fast_ostream &operator<<(fast_ostream &strm,
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const byte_vector_cref &cref) {
-  strm.encode(cref.absent() ? nullptr : cref.begin(), static_cast<uint32_t>(cref.size()),
+  // an empty value must not be mistaken for an absent one
+  static const unsigned char empty_value[1] = {0};
+  strm.encode(cref.absent() ? nullptr
+                            : cref.size() == 0 ? empty_value : cref.begin(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), cref.instruction()->is_nullable());
   return strm;
 }
diff --git a/src/mfast/coder/encoder_v2/fast_ostream_inserter.h b/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
index 0520054..ea3e44e 100644
--- a/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
+++ b/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
@@ -39,7 +39,10 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<byte_vector_cref, Operator, Properties> &ext_ref) {
   byte_vector_cref cref = ext_ref.get();
-  strm.encode(cref.absent() ? nullptr : cref.begin(), static_cast<uint32_t>(cref.size()),
+  // an empty value must not be mistaken for an absent one
+  static const unsigned char empty_value[1] = {0};
+  strm.encode(cref.absent() ? nullptr
+                            : cref.size() == 0 ? empty_value : cref.begin(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), ext_ref.nullable());
   return strm;
 }
-- 
2.43.0


From 40db1a8b10b988db82f1d66c985342bfbaee5d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:13 +0000
Subject: [PATCH 06/27] fix: presence map compaction must not alter the bytes
 in front of the map

---
 src/mfast/coder/encoder/encoder_presence_map.h |  9 ++++++---
 src/mfast/coder/encoder/fast_ostream.h         |  8 +++++---
 src/mfast/coder/encoder/fast_ostreambuf.cpp    | 11 +++++------
 src/mfast/coder/encoder/fast_ostreambuf.h      |  3 ++-
 4 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_presence_map.h b/src/mfast/coder/encoder/encoder_presence_map.h
index ab8be89..423d110 100644
--- a/src/mfast/coder/encoder/encoder_presence_map.h
+++ b/src/mfast/coder/encoder/encoder_presence_map.h
@@ -33,11 +33,12 @@ private:
   std::size_t value_, mask_;
   fast_ostream *stream_;
   std::size_t offset_;
+  std::size_t start_;
   std::size_t maxbytes_;
 };
 
 inline encoder_presence_map::encoder_presence_map()
-    : stream_(nullptr), offset_(0), maxbytes_(0) {
+    : stream_(nullptr), offset_(0), start_(0), maxbytes_(0) {
   reset();
 }
 
@@ -45,6 +46,7 @@ inline void encoder_presence_map::init(fast_ostream *stream,
                                        std::size_t maxbits) {
   stream_ = stream;
   offset_ = stream->offset();
+  start_ = offset_;
   maxbytes_ = (maxbits + 6) / 7; // i.e. ceiling(maxbits/7)
   stream_->buf_->skip(maxbytes_);
 }
@@ -63,7 +65,7 @@ inline void encoder_presence_map::commit() {
 #endif
 
   value_ |= stop_bit_mask;
-  stream_->write_bytes_at(&value_, ++nbytes_, offset_, true);
+  stream_->write_bytes_at(&value_, ++nbytes_, offset_, true, start_);
 }
 
 inline BOOST_CONSTEXPR std::size_t get_next_bit_mask(std::size_t i) {
@@ -86,7 +88,8 @@ inline void encoder_presence_map::set_next_bit(bool v) {
 
   if (mask_ == 0) {
     // we need to commit the current pmap before preceed
-    stream_->write_bytes_at(&value_, sizeof(std::size_t), offset_, false);
+    stream_->write_bytes_at(&value_, sizeof(std::size_t), offset_, false,
+                            start_);
     offset_ += sizeof(std::size_t);
     maxbytes_ -= sizeof(std::size_t);
     reset();
diff --git a/src/mfast/coder/encoder/fast_ostream.h b/src/mfast/coder/encoder/fast_ostream.h
index 4bdf3c4..f217b59 100644
--- a/src/mfast/coder/encoder/fast_ostream.h
+++ b/src/mfast/coder/encoder/fast_ostream.h
@@ -46,7 +46,8 @@ private:
   friend class encoder_presence_map;
 
   void write_bytes_at(std::size_t *bytes, std::size_t nbytes,
-                      std::size_t offset, bool pmap_end);
+                      std::size_t offset, bool pmap_end,
+                      std::size_t pmap_start);
 
   std::size_t offset() const { return rdbuf()->length(); }
   fast_ostreambuf *buf_;
@@ -245,9 +246,10 @@ inline void fast_ostream::save_previous_value(const T &cref) const {
 }
 
 inline void fast_ostream::write_bytes_at(std::size_t *bytes, std::size_t nbytes,
-                                         std::size_t offset, bool pmap_end) {
+                                         std::size_t offset, bool pmap_end,
+                                         std::size_t pmap_start) {
   rdbuf()->write_bytes_at(reinterpret_cast<const char *>(bytes), nbytes, offset,
-                          pmap_end && !allow_overlong_pmap_);
+                          pmap_end && !allow_overlong_pmap_, pmap_start);
 }
 
 inline void fast_ostream::encode_null() { rdbuf()->sputc('\x80'); }
diff --git a/src/mfast/coder/encoder/fast_ostreambuf.cpp b/src/mfast/coder/encoder/fast_ostreambuf.cpp
index 5492f7f..331c67c 100644
--- a/src/mfast/coder/encoder/fast_ostreambuf.cpp
+++ b/src/mfast/coder/encoder/fast_ostreambuf.cpp
@@ -15,20 +15,19 @@ void fast_ostreambuf::overflow(std::size_t) { throw buffer_overflow_error(); }
 std::size_t fast_ostreambuf::length() const { return pptr_ - pbase_; }
 
 void fast_ostreambuf::write_bytes_at(const char *data, std::size_t n,
-                                     std::size_t offset, bool shrink) {
+                                     std::size_t offset, bool shrink,
+                                     std::size_t shrink_limit) {
   assert((pbase_ + offset + n) <= pptr_);
   std::copy(data, data + n, pbase_ + offset);
 
   if (shrink) {
     std::size_t index = offset + n - 1;
-    if (pbase_[index] == '\x80') {
+    if (index > shrink_limit && pbase_[index] == '\x80') {
       --index;
-      for (; index > 0 && pbase_[index] == 0; --index)
+      // never look at the bytes in front of the presence map
+      for (; index > shrink_limit && pbase_[index] == 0; --index)
         ;
 
-      if (pbase_[index] & '\x80') {
-        ++index;
-      }
       pbase_[index] |= '\x80';
       ++index;
       const char *src = pbase_ + offset + n;
diff --git a/src/mfast/coder/encoder/fast_ostreambuf.h b/src/mfast/coder/encoder/fast_ostreambuf.h
index 7d7b98f..0d1fd6b 100644
--- a/src/mfast/coder/encoder/fast_ostreambuf.h
+++ b/src/mfast/coder/encoder/fast_ostreambuf.h
@@ -28,7 +28,8 @@ public:
 
   virtual std::size_t length() const;
   virtual void write_bytes_at(const char *data, std::size_t n,
-                              std::size_t offset, bool shrink);
+                              std::size_t offset, bool shrink,
+                              std::size_t shrink_limit = 0);
 
   const char *pbase() const { return pbase_; }
 
-- 
2.43.0


From b4253249d788c1265f61d1ebd036ed554042e114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:13 +0000
Subject: [PATCH 07/27] fix: commit every reserved byte of a presence map that
 got fewer bits than announced

---
 src/mfast/coder/encoder/encoder_presence_map.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mfast/coder/encoder/encoder_presence_map.h b/src/mfast/coder/encoder/encoder_presence_map.h
index 423d110..a4b8616 100644
--- a/src/mfast/coder/encoder/encoder_presence_map.h
+++ b/src/mfast/coder/encoder/encoder_presence_map.h
@@ -58,6 +58,11 @@ inline void encoder_presence_map::reset() {
 }
 
 inline void encoder_presence_map::commit() {
+  // fill all the bytes reserved by init(), otherwise the unused ones would be
+  // left in the middle of the message
+  while (nbytes_ + 1 < maxbytes_)
+    set_next_bit(false);
+
 #ifdef BOOST_BIG_ENDIAN
   const std::size_t stop_bit_mask = (init_mask >> (nbytes_ * 8));
 #else
-- 
2.43.0


From 0cbc9281a0bb88b83321320a32a3947f8e76386f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:06 +0000
Subject: [PATCH 08/27] fix: count the presence map bits of both halves of a
 decimal with individual operators

---
 src/mfast/instructions/decimal_instruction.cpp | 5 +++++
 src/mfast/instructions/decimal_instruction.h   | 7 +++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mfast/instructions/decimal_instruction.cpp b/src/mfast/instructions/decimal_instruction.cpp
index 3cca7a7..0f5a7a6 100644
--- a/src/mfast/instructions/decimal_instruction.cpp
+++ b/src/mfast/instructions/decimal_instruction.cpp
@@ -22,6 +22,11 @@ void decimal_field_instruction::copy_construct_value(const value_storage &src,
   dest.of_decimal.exponent_ = src.of_decimal.exponent_;
 }
 
+std::size_t decimal_field_instruction::pmap_size() const {
+  return field_instruction::pmap_size() +
+         (mantissa_instruction_ ? mantissa_instruction_->pmap_size() : 0);
+}
+
 decimal_field_instruction *
 decimal_field_instruction::clone(arena_allocator &alloc) const {
   return new (alloc) decimal_field_instruction(*this);
diff --git a/src/mfast/instructions/decimal_instruction.h b/src/mfast/instructions/decimal_instruction.h
index fbeeb10..71a5a73 100644
--- a/src/mfast/instructions/decimal_instruction.h
+++ b/src/mfast/instructions/decimal_instruction.h
@@ -67,6 +67,9 @@ public:
   virtual decimal_field_instruction *
   clone(arena_allocator &alloc) const override;
 
+  // the exponent and the mantissa have a presence map bit each
+  virtual std::size_t pmap_size() const override;
+
   const mantissa_field_instruction *mantissa_instruction() const {
     return mantissa_instruction_;
   }
@@ -82,10 +85,6 @@ public:
     mantissa_instruction_ = v;
     this->initial_value_.of_decimal.mantissa_ =
         mantissa_instruction_->initial_value().get<int64_t>();
-
-    if (has_pmap_bit_ == 0) {
-      has_pmap_bit_ = (mantissa_instruction_->pmap_size() > 0);
-    }
   }
 
   static const decimal_field_instruction *default_instruction();
-- 
2.43.0


From 78cdf0bea7452dad704dcd41e1cb22e7182e0321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:06 +0000
Subject: [PATCH 09/27] fix: the absent form of a string exists for nullable
 fields only

---
 src/mfast/coder/encoder_v2/fast_ostream_inserter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mfast/coder/encoder_v2/fast_ostream_inserter.h b/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
index ea3e44e..9732e4c 100644
--- a/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
+++ b/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
@@ -19,7 +19,7 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<ascii_string_cref, Operator, Properties> &ext_ref) {
   ascii_string_cref cref = ext_ref.get();
-  strm.encode(cref.absent() ? nullptr : cref.c_str(), static_cast<uint32_t>(cref.size()),
+  strm.encode(ext_ref.nullable() && cref.absent() ? nullptr : cref.c_str(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), ext_ref.nullable());
   return strm;
 }
@@ -29,7 +29,7 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<unicode_string_cref, Operator, Properties> &ext_ref) {
   unicode_string_cref cref = ext_ref.get();
-  strm.encode(cref.absent() ? nullptr : cref.c_str(), static_cast<uint32_t>(cref.size()),
+  strm.encode(ext_ref.nullable() && cref.absent() ? nullptr : cref.c_str(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), ext_ref.nullable());
   return strm;
 }
@@ -41,7 +41,7 @@ operator<<(fast_ostream &strm,
   byte_vector_cref cref = ext_ref.get();
   // an empty value must not be mistaken for an absent one
   static const unsigned char empty_value[1] = {0};
-  strm.encode(cref.absent() ? nullptr
+  strm.encode(ext_ref.nullable() && cref.absent() ? nullptr
                             : cref.size() == 0 ? empty_value : cref.begin(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), ext_ref.nullable());
   return strm;
-- 
2.43.0


From 678c401072cb18c3002f0b30b1edc56c021b281a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:14 +0000
Subject: [PATCH 10/27] fix: setting a mantissa to its initial or previous
 value must not clear the exponent

---
 src/mfast/int_ref.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mfast/int_ref.h b/src/mfast/int_ref.h
index b3ed8e5..2264754 100644
--- a/src/mfast/int_ref.h
+++ b/src/mfast/int_ref.h
@@ -98,7 +98,7 @@ public:
   }
 
   void to_initial_value() const {
-    *this->storage() = this->instruction()->initial_value();
+    copy_from(this->instruction()->initial_value());
   }
   T value() const { return this->storage()->template get<T>(); }
 
@@ -117,7 +117,11 @@ protected:
 
   friend class mfast::detail::codec_helper;
 
-  void copy_from(value_storage v) const { *this->storage() = v; }
+  void copy_from(const value_storage &v) const {
+    // the storage of a mantissa holds the exponent as well; leave it alone
+    this->storage()->of_uint64.content_ = v.of_uint64.content_;
+    this->storage()->present(!v.is_empty());
+  }
 };
 
 typedef int_mref<int32_t> int32_mref;
-- 
2.43.0


From 42a14d8f64002cfedd5b2b2aac6fea56675337f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:29 +0000
Subject: [PATCH 11/27] fix: string delta whose base value shares the memory of
 the decoded field

Decoding a field keeps the dictionary entry as a reference to the memory of the
field. Prepending characters left the base value where it was, and growing the
field read the base value from the memory just given back.
---
 src/mfast/coder/common/codec_helper.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mfast/coder/common/codec_helper.h b/src/mfast/coder/common/codec_helper.h
index baca4c2..07cbe12 100644
--- a/src/mfast/coder/common/codec_helper.h
+++ b/src/mfast/coder/common/codec_helper.h
@@ -124,8 +124,17 @@ public:
       base_start_index = delta_len;
     }
 
+    // the base value may share its memory with the field itself, in which case
+    // resize() moves it
+    const bool shared = mref.storage()->of_array.capacity_in_bytes_ > 0 &&
+                        base_value.of_array.content_ == mref.data();
+    const std::size_t base_offset =
+        shared ? static_cast<std::size_t>(base_str - mref.data()) : 0;
+
     mref.resize(base_len + delta_len);
-    if (base_str != mref.data() && (base_len > 0)) {
+    if (shared)
+      base_str = mref.data() + base_offset;
+    if (base_str != mref.data() + base_start_index && (base_len > 0)) {
       std::memmove(mref.data() + base_start_index, base_str, base_len);
     }
     if (delta_len > 0) {
-- 
2.43.0


From 24809876d071ae6295d7d7afddcb9874b7d7ea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:58 +0000
Subject: [PATCH 12/27] fix: a string delta subtraction length outside int32 is
 dynamic error D7

It was truncated to int32 and applied.
---
 src/mfast/coder/decoder/decoder_field_operator.cpp | 12 +++++++-----
 src/mfast/coder/decoder_v2/fast_decoder_core.h     | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/mfast/coder/decoder/decoder_field_operator.cpp b/src/mfast/coder/decoder/decoder_field_operator.cpp
index 68baf40..0ead5e1 100644
--- a/src/mfast/coder/decoder/decoder_field_operator.cpp
+++ b/src/mfast/coder/decoder/decoder_field_operator.cpp
@@ -439,25 +439,27 @@ class delta_operator : public decoder_field_operator,
     // delta is represented as a
     // NULL subtraction length. The string part is present in the stream iff the
     // subtraction length is not NULL.
-    int32_t substraction_length;
+    int64_t substraction_length;
     if (stream.decode(substraction_length, mref.instruction()->is_nullable())) {
       // It is a dynamic error [ERR D7] if the subtraction length is larger than
       // the
       // number of characters in the base value, or if it does not fall in the
       // value range of an int32.
-      int32_t sub_len =
+      const int64_t sub_len =
           substraction_length >= 0 ? substraction_length : ~substraction_length;
       const value_storage &base_value = delta_base_value_of(mref);
 
-      if (sub_len > static_cast<int32_t>(base_value.array_length()))
+      if (sub_len > (std::numeric_limits<int32_t>::max)() ||
+          sub_len > static_cast<int64_t>(base_value.array_length()))
         BOOST_THROW_EXCEPTION(fast_dynamic_error("D7"));
 
       uint32_t delta_len;
       const typename T::value_type *delta_str = nullptr;
       stream.decode(delta_str, delta_len, mref.instruction(), false);
 
-      this->apply_string_delta(mref, base_value, substraction_length, delta_str,
-                               delta_len);
+      this->apply_string_delta(mref, base_value,
+                               static_cast<int32_t>(substraction_length),
+                               delta_str, delta_len);
       save_previous_value(mref);
     } else {
       mref.omit();
diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index e2ec220..710350a 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -493,26 +493,28 @@ void fast_decoder_base::decode_field(const T &ext_ref, delta_operator_tag,
   // NULL subtraction length. The string part is present in the stream iff the
   // subtraction length
   // is not NULL.
-  int32_t substraction_length;
+  int64_t substraction_length;
   if (stream.decode(substraction_length, ext_ref.nullable())) {
     // It is a dynamic error [ERR D7] if the subtraction length is larger than
     // the
     // number of characters in the base value, or if it does not fall in the
     // value range of an
     // int32.
-    int32_t sub_len =
+    const int64_t sub_len =
         substraction_length >= 0 ? substraction_length : ~substraction_length;
     const value_storage &base_value = delta_base_value_of(mref);
 
-    if (sub_len > static_cast<int32_t>(base_value.array_length()))
+    if (sub_len > (std::numeric_limits<int32_t>::max)() ||
+        sub_len > static_cast<int64_t>(base_value.array_length()))
       BOOST_THROW_EXCEPTION(fast_dynamic_error("D7"));
 
     uint32_t delta_len;
     const typename T::mref_type::value_type *delta_str = nullptr;
     stream.decode(delta_str, delta_len, mref.instruction(), false_type());
 
-    this->apply_string_delta(mref, base_value, substraction_length, delta_str,
-                             delta_len);
+    this->apply_string_delta(mref, base_value,
+                             static_cast<int32_t>(substraction_length),
+                             delta_str, delta_len);
     save_previous_value(mref);
   } else {
     mref.omit();
-- 
2.43.0


From 4c769774685c3be9cf5e7bd2cc14751f7b644688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:13 +0000
Subject: [PATCH 13/27] fix: an absent field is not the increment of its
 previous value

---
 src/mfast/coder/encoder/encoder_field_operator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index 2dfbbab..f3dde99 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -325,7 +325,8 @@ public:
 struct is_increment {
   template <typename T>
   bool operator()(const T &v, const value_storage &previous) const {
-    return v.value() == previous.get<const typename T::value_type>() + 1;
+    return v.present() &&
+           v.value() == previous.get<const typename T::value_type>() + 1;
   }
 };
 
-- 
2.43.0


From 2f3c0f8b1dac676ca243a544074c55ab3c65e703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:13 +0000
Subject: [PATCH 14/27] fix: an empty string or zero decimal is not the
 undefined initial value

---
 src/mfast/decimal_ref.h | 6 ++++--
 src/mfast/vector_ref.h  | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mfast/decimal_ref.h b/src/mfast/decimal_ref.h
index 1397d4b..b6fc667 100644
--- a/src/mfast/decimal_ref.h
+++ b/src/mfast/decimal_ref.h
@@ -178,8 +178,10 @@ inline bool operator!=(const decimal_cref &lhs, const decimal_cref &rhs) {
   return !(lhs == rhs);
 }
 inline bool decimal_cref::is_initial_value() const {
-  return *this == decimal_cref(&this->instruction()->initial_value(),
-                               this->instruction());
+  const value_storage &initial = this->instruction()->initial_value();
+  return this->absent() == initial.is_empty() &&
+         (this->absent() ||
+          *this == decimal_cref(&initial, this->instruction()));
 }
 
 class exponent_mref : public exponent_cref {
diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index c453bc4..ab6e1e2 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -61,8 +61,11 @@ public:
   size_t size() const { return storage_->array_length(); }
   size_t length() const { return size(); }
   bool is_initial_value() const {
-    return *this == vector_cref_base<T, InstructionType>(
-                        &this->instruction()->initial_value(), instruction());
+    const value_storage &initial = this->instruction()->initial_value();
+    return this->absent() == initial.is_empty() &&
+           (this->absent() ||
+            *this == vector_cref_base<T, InstructionType>(&initial,
+                                                          instruction()));
   }
 
   const_iterator begin() const { return data(); }
-- 
2.43.0


From da85f634453be95a4f8e8fb2fc1ec8d493785706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:04 +0000
Subject: [PATCH 15/27] fix: string delta encoding must not read beyond a
 shorter previous value

---
 src/mfast/coder/encoder/encoder_field_operator.cpp | 6 ++++--
 src/mfast/coder/encoder_v2/fast_encoder_core.h     | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index f3dde99..3b28f7d 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -473,11 +473,13 @@ class delta_operator : public encoder_field_operator,
         difference_type;
 
     std::pair<const_iterator, const_iterator> common_prefix_positions =
-        std::mismatch(cref.begin(), cref.end(), prev_cref.begin());
+        std::mismatch(cref.begin(), cref.end(), prev_cref.begin(),
+                      prev_cref.end());
 
     std::pair<const_reverse_iterator, const_reverse_iterator>
         common_suffix_positions =
-            std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin());
+            std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin(),
+                          prev_cref.rend());
 
     int32_t substraction_len;
     const_iterator delta_iterator;
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 5a00730..3a21549 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -542,11 +542,13 @@ void fast_encoder_core::encode_field(const T &ext_ref, delta_operator_tag,
       difference_type;
 
   std::pair<const_iterator, const_iterator> common_prefix_positions =
-      std::mismatch(cref.begin(), cref.end(), prev_cref.begin());
+      std::mismatch(cref.begin(), cref.end(), prev_cref.begin(),
+                    prev_cref.end());
 
   std::pair<const_reverse_iterator, const_reverse_iterator>
       common_suffix_positions =
-          std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin());
+          std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin(),
+                        prev_cref.rend());
 
   int32_t substraction_len;
   const_iterator delta_iterator;
-- 
2.43.0


From 782a6441918bf2d17caa9a3b808343dec19f9796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:40 +0000
Subject: [PATCH 16/27] fix: an absent field is not the increment of its
 previous value (v2 encoder)

---
 src/mfast/coder/encoder_v2/fast_encoder_core.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 3a21549..cae7ab3 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -446,8 +446,9 @@ void fast_encoder_core::encode_field(const T &ext_ref, increment_operator_tag,
       // modified by another instruction with the same key and that intruction
       // has optional presence.
     }
-  } else if (cref.value() ==
-             previous.get<const typename T::cref_type::value_type>() + 1) {
+  } else if (ext_ref.present() &&
+             cref.value() ==
+                 previous.get<const typename T::cref_type::value_type>() + 1) {
     pmap.set_next_bit(false);
     return;
   }
-- 
2.43.0


From 19110ebe08a772e05ebfc7934beb6d0890c5617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:40 +0000
Subject: [PATCH 17/27] fix: the tail operator must tell absent, empty and
 initial values apart

---
 .../coder/encoder/encoder_field_operator.cpp  | 21 +++++++++++--------
 .../coder/encoder_v2/fast_encoder_core.h      | 21 +++++++++++--------
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index 3b28f7d..347f090 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -269,8 +269,10 @@ struct is_same {
 
   template <typename T>
   bool operator()(const vector_cref<T> &v, const value_storage &prev) const {
-    return v.size() == prev.of_array.len_ - 1 &&
-           memcmp(v.data(), prev.of_array.content_, v.size() * sizeof(T)) == 0;
+    return v.absent() == prev.is_empty() &&
+           v.size() == prev.array_length() &&
+           (v.size() == 0 || memcmp(v.data(), prev.of_array.content_,
+                                    v.size() * sizeof(T)) == 0);
   }
 };
 
@@ -605,15 +607,16 @@ private:
     //   }
     // }
     // else
-    if (is_same()(cref, tail_base_value_of(cref))) {
+    // the value of the field when the tail value is not in the stream
+    const bool same = !prev.is_defined()
+                          ? cref.is_initial_value()
+                          : prev.is_empty() ? cref.absent()
+                                            : is_same()(cref, prev);
+    if (same) {
       pmap.set_next_bit(false);
     } else if (cref.absent()) {
-      if (prev.is_defined() && prev.is_empty()) {
-        pmap.set_next_bit(false);
-      } else {
-        pmap.set_next_bit(true);
-        stream.encode_null();
-      }
+      pmap.set_next_bit(true);
+      stream.encode_null();
     } else {
       pmap.set_next_bit(true);
 
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index cae7ab3..2030b73 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -36,8 +36,10 @@ inline bool equivalent(const enum_cref &v, const value_storage &prev) {
 
 template <typename T>
 inline bool equivalent(const vector_cref<T> &v, const value_storage &prev) {
-  return v.size() == prev.of_array.len_ - 1 &&
-         memcmp(v.data(), prev.of_array.content_, v.size() * sizeof(T)) == 0;
+  return v.absent() == prev.is_empty() &&
+         v.size() == prev.array_length() &&
+         (v.size() == 0 || memcmp(v.data(), prev.of_array.content_,
+                                  v.size() * sizeof(T)) == 0);
 }
 
 struct fast_encoder_core;
@@ -619,15 +621,16 @@ void fast_encoder_core::encode_field(const T &ext_ref, tail_operator_tag,
 
   value_storage &prev = previous_value_of(cref);
 
-  if (equivalent(cref, tail_base_value_of(cref))) {
+  // the value of the field when the tail value is not in the stream
+  const bool same =
+      !prev.is_defined()
+          ? cref.is_initial_value()
+          : prev.is_empty() ? cref.absent() : equivalent(cref, prev);
+  if (same) {
     pmap.set_next_bit(false);
   } else if (!ext_ref.present()) {
-    if (prev.is_defined() && prev.is_empty()) {
-      pmap.set_next_bit(false);
-    } else {
-      pmap.set_next_bit(true);
-      strm_.encode_null();
-    }
+    pmap.set_next_bit(true);
+    strm_.encode_null();
   } else {
     pmap.set_next_bit(true);
 
-- 
2.43.0


From ed53215163972c5af773d08896625af6c77d2c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:40 +0000
Subject: [PATCH 18/27] fix: report D5/D6 for mandatory fields without initial
 value in the v2 decoder

---
 src/mfast/ext_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/ext_ref.h b/src/mfast/ext_ref.h
index c4ef130..26f3e3e 100644
--- a/src/mfast/ext_ref.h
+++ b/src/mfast/ext_ref.h
@@ -58,7 +58,7 @@ struct ext_ref_properties : presence_checker<Properties> {
                                  (OperatorType::value != operator_constant &&
                                   IsOptional)> is_nullable_type;
   typedef std::integral_constant<
-      bool, ((OperatorType::value & field_has_initial_value) > 0 &&
+      bool, ((Properties::value & field_has_initial_value) == 0 &&
              !IsOptional)> mandatory_without_initial_value_type;
   typedef std::integral_constant<bool,
                                  (OperatorType::value > operator_delta ||
-- 
2.43.0


From 428c324431bdd9d74576bf30cf4b61404ad37045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:03 +0000
Subject: [PATCH 19/27] fix: reserve() must keep all elements of borrowed
 content and pass the allocator the size it returned

---
 src/mfast/vector_ref.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index ab6e1e2..407c9bf 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -432,24 +432,25 @@ void vector_mref_base<T>::reserve(
     typename vector_mref_base<T>::size_t n) const {
   if (capacity() > n)
     return;
-  std::size_t reserve_size = (n + 1) * sizeof(value_type);
+  // In the case when the this->capacity == 0 && this->size() > 0,
+  // reserve() could be invoked with n < this->size(); the new buffer has to
+  // hold all the elements nevertheless.
+  std::size_t reserve_size =
+      (std::max<size_t>(this->size(), n) + 1) * sizeof(value_type);
 
   if (capacity() > 0) {
     this->storage()->of_array.capacity_in_bytes_ = this->alloc_->reallocate(
-        this->storage()->of_array.content_, capacity(), reserve_size);
+        this->storage()->of_array.content_,
+        this->storage()->of_array.capacity_in_bytes_, reserve_size);
   } else {
     void *old_addr = this->storage()->of_array.content_;
     this->storage()->of_array.content_ = nullptr;
     this->storage()->of_array.capacity_in_bytes_ = this->alloc_->reallocate(
         this->storage()->of_array.content_, 0, reserve_size);
     // Copy the old content to the new buffer.
-    // In the case when the this->capacity == 0 && this->size() > 0,
-    // reserve() could be invoked with n < this->size(). Thus, we can
-    // only copy min(size(), n) elements to the new buffer.
     if (this->storage()->of_array.len_ > 1) {
-      if (n > 0)
-        std::memcpy(this->storage()->of_array.content_, old_addr,
-                    std::min<size_t>(this->size(), n) * sizeof(value_type));
+      std::memcpy(this->storage()->of_array.content_, old_addr,
+                  this->size() * sizeof(value_type));
     } else {
       // if this->storage()->of_array.len_ was 0, it needs to be set to 1 to
       // indicate
-- 
2.43.0


From d240f40f58665a240715ba3f5406d47aa73e9062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:03 +0000
Subject: [PATCH 20/27] fix: resize() must initialise every element it adds

---
 src/mfast/coder/common/codec_helper.h |  7 +++++--
 src/mfast/vector_ref.h                | 12 ++++--------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/mfast/coder/common/codec_helper.h b/src/mfast/coder/common/codec_helper.h
index 07cbe12..046ce93 100644
--- a/src/mfast/coder/common/codec_helper.h
+++ b/src/mfast/coder/common/codec_helper.h
@@ -125,13 +125,16 @@ public:
     }
 
     // the base value may share its memory with the field itself, in which case
-    // resize() moves it
+    // reserve() moves it
     const bool shared = mref.storage()->of_array.capacity_in_bytes_ > 0 &&
                         base_value.of_array.content_ == mref.data();
     const std::size_t base_offset =
         shared ? static_cast<std::size_t>(base_str - mref.data()) : 0;
 
-    mref.resize(base_len + delta_len);
+    // do not resize(); it would overwrite what the base value still refers to
+    mref.reserve(base_len + delta_len);
+    mref.storage()->array_length(
+        static_cast<uint32_t>(base_len + delta_len));
     if (shared)
       base_str = mref.data() + base_offset;
     if (base_str != mref.data() + base_start_index && (base_len > 0)) {
diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 407c9bf..ccce481 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -216,15 +216,11 @@ public:
     return data()[index];
   }
 
-  void resize(size_t n, char c = 0) const {
+  void resize(size_t n, value_type c = value_type()) const {
     assert(n < static_cast<size_t>((std::numeric_limits<int32_t>::max)()));
-    size_t len = n + 1;
-    if (len > this->capacity()) {
-      reserve(n);
-      std::make_signed<std::size_t>::type bytes_to_set = n - this->size();
-      if (bytes_to_set > 0)
-        std::memset(end(), c, static_cast<size_t>(bytes_to_set));
-    }
+    reserve(n);
+    if (n > this->size())
+      std::fill(end(), begin() + n, c);
     this->storage()->array_length(static_cast<uint32_t>(n));
   }
 
-- 
2.43.0


From 642cd4ec47001aae33e7dc55d7115934b942b1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:03 +0000
Subject: [PATCH 21/27] fix: inserting into a vector must not write out of its
 storage

---
 src/mfast/vector_ref.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index ccce481..a569c64 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -226,7 +226,7 @@ public:
 
   void reserve(size_t n) const;
 
-  void push_back(char c) const { insert(end(), c); }
+  void push_back(value_type c) const { insert(end(), c); }
   void pop_back() const {
     if (this->size())
       this->storage()->of_array.len_ -= 1;
@@ -463,17 +463,17 @@ vector_mref_base<T>::shift(typename vector_mref_base<T>::iterator position,
   assert(position >= begin() && position <= end());
   std::size_t offset = position - begin();
 
-  if (capacity() < this->size() + n)
-    reserve(this->size() + n);
+  std::size_t old_size = this->size();
+
+  reserve(old_size + n);
 
   iterator src = begin() + offset;
 
-  if (offset < this->size()) {
-    std::memmove(src + (n * sizeof(value_type)), src,
-                 (this->size() + 1 - offset) * sizeof(value_type));
+  if (offset < old_size) {
+    std::memmove(src + n, src, (old_size - offset) * sizeof(value_type));
   }
 
-  this->storage()->of_array.len_ += static_cast<uint32_t>(n);
+  this->storage()->array_length(static_cast<uint32_t>(old_size + n));
   return src;
 }
 
-- 
2.43.0


From 408105ec90fe0e78b7079724d5e2aef9b7637a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:03 +0000
Subject: [PATCH 22/27] fix: replace() must keep the elements after the
 replaced range

---
 src/mfast/vector_ref.h | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index a569c64..866fa61 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -480,19 +480,18 @@ vector_mref_base<T>::shift(typename vector_mref_base<T>::iterator position,
 template <typename T>
 void vector_mref_base<T>::replace(size_t pos, size_t count,
                                   const value_type *addr, size_t count2) const {
-  if (pos + count >= this->size()) {
+  std::size_t old_size = this->size();
+  if (pos >= old_size || count >= old_size - pos) {
     // all the elements starting from pos are to removed from the vector
     this->resize(pos + count2);
+  } else if (count2 > count) {
+    // the elements after the replaced ones have to be shifted back
+    this->shift(data() + pos + count, count2 - count);
   } else {
-    std::ptrdiff_t diff = count2 - count;
-    if (diff > 0) {
-      // some elements has to be shift back
-      this->shift(data() + pos, diff);
-    } else {
-      std::memmove(data() + pos + count2, data() + pos + count,
-                   -diff * sizeof(value_type));
-      this->resize(this->size() + diff);
-    }
+    this->reserve(old_size); // borrowed content must not be modified
+    std::memmove(data() + pos + count2, data() + pos + count,
+                 (old_size - pos - count) * sizeof(value_type));
+    this->resize(old_size - (count - count2));
   }
   std::memcpy(data() + pos, addr, count2 * sizeof(value_type));
 }
-- 
2.43.0


From 5249ff24775c5375e33eeb4a01357b8658c64790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:03 +0000
Subject: [PATCH 23/27] fix: compare all bytes of integer vectors

---
 src/mfast/vector_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 866fa61..1192712 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -114,7 +114,7 @@ bool operator==(const vector_cref_base<T, InstructionType> &lhs,
     return false;
   if (lhs.data() == rhs.data())
     return true;
-  return std::memcmp(lhs.data(), rhs.data(), lhs.size()) == 0;
+  return std::memcmp(lhs.data(), rhs.data(), lhs.size() * sizeof(T)) == 0;
 }
 
 template <typename T, typename InstructionType>
-- 
2.43.0


From d50b46f1159a1c2c01e49c8edb16cad9c944c34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:03 +0000
Subject: [PATCH 24/27] fix: copy the elements of an initial value, not its
 bytes

---
 src/mfast/vector_ref.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 1192712..8a8a0e9 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -293,7 +293,8 @@ protected:
 
   friend class mfast::detail::codec_helper;
   void copy_from(const value_storage &v) const {
-    const char *ptr = static_cast<const char *>(v.of_array.content_);
+    const value_type *ptr =
+        static_cast<const value_type *>(v.of_array.content_);
     this->assign(ptr, ptr + v.array_length());
   }
 
-- 
2.43.0


From 6758d48d663c379f744b4fd521c3c703bec71797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:03 +0000
Subject: [PATCH 25/27] fix: a string is not greater than an equal one

---
 src/mfast/string_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/string_ref.h b/src/mfast/string_ref.h
index 87d01fa..ec203dd 100644
--- a/src/mfast/string_ref.h
+++ b/src/mfast/string_ref.h
@@ -48,7 +48,7 @@ public:
   }
   template <typename OtherIntruction>
   bool operator>(const string_cref_base<OtherIntruction> &other) const {
-    return compare(other) >= 0;
+    return compare(other) > 0;
   }
 
   bool operator>=(const boost::string_ref &other) const {
-- 
2.43.0


From e73f8121b613ee30e9f418d7ffe95cac503f836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:11 +0000
Subject: [PATCH 26/27] fix: copying a string or vector value must not read or
 keep memory beyond the source elements

---
 src/mfast/instructions/string_instructions.cpp     | 5 +++--
 src/mfast/instructions/vector_instruction_base.cpp | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mfast/instructions/string_instructions.cpp b/src/mfast/instructions/string_instructions.cpp
index 334dfda..8d97f8b 100644
--- a/src/mfast/instructions/string_instructions.cpp
+++ b/src/mfast/instructions/string_instructions.cpp
@@ -49,10 +49,11 @@ void ascii_field_instruction::copy_construct_value(const value_storage &src,
     dest.of_array.content_ = nullptr;
     dest.of_array.capacity_in_bytes_ =
         alloc->reallocate(dest.of_array.content_, 0, len * element_size_);
+    // len is the number of characters plus one
     std::memcpy(dest.of_array.content_, src.of_array.content_,
-                len * element_size_);
+                (len - 1) * element_size_);
   } else {
-    dest.of_array.content_ = src.of_array.content_;
+    dest.of_array.content_ = initial_value_.of_array.content_;
     dest.of_array.capacity_in_bytes_ = 0;
   }
   dest.of_array.len_ = static_cast<uint32_t>(len);
diff --git a/src/mfast/instructions/vector_instruction_base.cpp b/src/mfast/instructions/vector_instruction_base.cpp
index 9c752ca..5b042a9 100644
--- a/src/mfast/instructions/vector_instruction_base.cpp
+++ b/src/mfast/instructions/vector_instruction_base.cpp
@@ -30,8 +30,9 @@ void vector_field_instruction_base::copy_construct_value(
     dest.of_array.content_ = nullptr;
     dest.of_array.capacity_in_bytes_ = alloc->reallocate(
         dest.of_array.content_, 0, src.of_array.len_ * element_size_);
+    // len_ is the number of elements plus one
     std::memcpy(dest.of_array.content_, src.of_array.content_,
-                src.of_array.len_ * element_size_);
+                src.array_length() * element_size_);
   } else {
     dest.of_array.capacity_in_bytes_ = 0;
     dest.of_array.content_ = nullptr;
-- 
2.43.0


From a513f6be7f5135d3deb2d11be2e4616a24e4eebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:11 +0000
Subject: [PATCH 27/27] fix: an absent string, vector or sequence does not
 equal an empty one

---
 src/mfast/field_comparator.h | 2 ++
 src/mfast/string_ref.h       | 4 ++--
 src/mfast/vector_ref.h       | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mfast/field_comparator.h b/src/mfast/field_comparator.h
index 3749125..904ebc5 100644
--- a/src/mfast/field_comparator.h
+++ b/src/mfast/field_comparator.h
@@ -43,6 +43,8 @@ public:
 
   bool visit(const sequence_cref &lhs, int) const {
     sequence_cref rhs = static_cast<sequence_cref>(rhs_);
+    if (lhs.present() != rhs.present())
+      return false;
     if (lhs.num_fields() == rhs.num_fields() && lhs.size() == rhs.size()) {
       for (std::size_t i = 0; i < lhs.size(); ++i) {
         if (!compare(lhs[i], rhs[i]))
diff --git a/src/mfast/string_ref.h b/src/mfast/string_ref.h
index ec203dd..1c50f1a 100644
--- a/src/mfast/string_ref.h
+++ b/src/mfast/string_ref.h
@@ -32,7 +32,7 @@ public:
   }
   template <typename OtherIntruction>
   bool operator==(const string_cref_base<OtherIntruction> &other) const {
-    return compare(other) == 0;
+    return this->absent() == other.absent() && compare(other) == 0;
   }
 
   bool operator!=(const boost::string_ref &other) const {
@@ -40,7 +40,7 @@ public:
   }
   template <typename OtherIntruction>
   bool operator!=(const string_cref_base<OtherIntruction> &other) const {
-    return compare(other) != 0;
+    return !(*this == other);
   }
 
   bool operator>(const boost::string_ref &other) const {
diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 8a8a0e9..ebcb0f1 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -110,9 +110,9 @@ private:
 template <typename T, typename InstructionType>
 bool operator==(const vector_cref_base<T, InstructionType> &lhs,
                 const vector_cref_base<T, InstructionType> &rhs) {
-  if (lhs.size() != rhs.size())
+  if (lhs.absent() != rhs.absent() || lhs.size() != rhs.size())
     return false;
-  if (lhs.data() == rhs.data())
+  if (lhs.absent() || lhs.data() == rhs.data())
     return true;
   return std::memcmp(lhs.data(), rhs.data(), lhs.size() * sizeof(T)) == 0;
 }
-- 
2.43.0

