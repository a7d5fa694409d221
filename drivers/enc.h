// Encoding a field and decoding the result.  In the verifier the writers fast_ostream::encode append typed entities to the wire (that an
// entity written denotes the value given: C02, C03, C04) and the readers take them off again (C01, C03, C04); natively real bytes.
#pragma once
#include "feed.h"
#include "mfast/malloc_allocator.h"
#include "mfast/coder/encoder/fast_ostream.h"
#include "mfast/coder/encoder/encoder_presence_map.h"
#include "mfast/coder/decoder/decoder_presence_map.h"
#ifdef IRV_NATIVE
#include "mfast/coder/encoder/resizable_fast_ostreambuf.h"
struct channel {
  std::vector<char> v; mfast::resizable_fast_ostreambuf ob; mfast::fast_ostream os; mfast::fast_istreambuf ib; mfast::fast_istream is; mfast::encoder_presence_map epm; mfast::decoder_presence_map dpm;
  channel(mfast::allocator *a) : v(64), ob(v), os(a), ib(nullptr, (size_t)0), is(&ib) { os.rdbuf(&ob); }
  void turn() { v.resize(ob.length()); ib = mfast::fast_istreambuf(v.data(), v.size()); is.reset(&ib); turn_pm(); }
  bool all_used() { return ib.gptr_ == v.data() + v.size() && dpm.mask_ == epm.mask_; }
#else
struct channel {
  char dummy; mfast::fast_ostreambuf ob; mfast::fast_ostream os; mfast::fast_istreambuf ib; mfast::fast_istream is; mfast::encoder_presence_map epm; mfast::decoder_presence_map dpm;
  channel(mfast::allocator *a) : ob(&dummy, (size_t)1), os(a), ib(&dummy, (size_t)0), is(&ib) { os.rdbuf(&ob); }
  void turn() { turn_pm(); }
  bool all_used() { return feed.i == feed.n && dpm.mask_ == epm.mask_; }
#endif
  void turn_pm() { dpm.cur_bitmap_ = epm.value_; dpm.mask_ = mfast::init_mask; dpm.continue_ = nullptr; }
};
#ifndef IRV_NATIVE
inline void put_value(int kind, int64_t v, bool null, bool nullable) { irv_assert(feed.n < 6, "writes no more than a few entities"); item &t = feed_add(kind, nullable, null, false); t.v = v; }
template <class C> inline void put_text(int kind, const C *p, uint32_t len, bool nullable) {
  irv_assert(feed.n < 6, "writes no more than a few entities"); irv_assert((p != nullptr) | nullable, "only a nullable field is written as NULL");
  item &t = feed_add(kind, nullable, p == nullptr, false); t.p = (const char *)p; t.len = len;
  if (p != nullptr && len > 0) { irv_assert((irv_objsize(p) >= len), "content is memory"); volatile char last = t.p[len - 1]; (void)last; if (kind == k_ascii) irv_assume(t.p[0] != 0); }
}
extern "C" {
void enc_i16(mfast::fast_ostream *, int16_t v, bool null, bool n) { put_value(k_signed, v, null, n); }
void enc_i32(mfast::fast_ostream *, int32_t v, bool null, bool n) { put_value(k_signed, v, null, n); }
void enc_u32(mfast::fast_ostream *, uint32_t v, bool null, bool n) { put_value(k_unsigned, v, null, n); }
void enc_i64(mfast::fast_ostream *, int64_t v, bool null, bool n) { put_value(k_signed, v, null, n); }
void enc_u64(mfast::fast_ostream *, uint64_t v, bool null, bool n) { put_value(k_unsigned, (int64_t)v, null, n); }
#define W(nm, type, n) \
void enc_i16_##nm(mfast::fast_ostream *, int16_t v, bool null, type) { put_value(k_signed, v, null, n); } \
void enc_i32_##nm(mfast::fast_ostream *, int32_t v, bool null, type) { put_value(k_signed, v, null, n); } \
void enc_u32_##nm(mfast::fast_ostream *, uint32_t v, bool null, type) { put_value(k_unsigned, v, null, n); } \
void enc_i64_##nm(mfast::fast_ostream *, int64_t v, bool null, type) { put_value(k_signed, v, null, n); } \
void enc_u64_##nm(mfast::fast_ostream *, uint64_t v, bool null, type) { put_value(k_unsigned, (int64_t)v, null, n); } \
void enc_ascii_##nm(mfast::fast_ostream *, const char *p, uint32_t len, const mfast::ascii_field_instruction *, type) { put_text(k_ascii, p, len, n); } \
void enc_unicode_##nm(mfast::fast_ostream *, const char *p, uint32_t len, const mfast::unicode_field_instruction *, type) { put_text(k_unicode, p, len, n); } \
void enc_bytevec_##nm(mfast::fast_ostream *, const unsigned char *p, uint32_t len, const mfast::byte_vector_field_instruction *, type) { put_text(k_bytes, p, len, n); }
W(true, std::true_type, true) W(false, std::false_type, false)
#undef W
void enc_ascii(mfast::fast_ostream *, const char *p, uint32_t len, const mfast::ascii_field_instruction *, bool n) { put_text(k_ascii, p, len, n); }
void enc_unicode(mfast::fast_ostream *, const char *p, uint32_t len, const mfast::unicode_field_instruction *, bool n) { put_text(k_unicode, p, len, n); }
void enc_bytevec(mfast::fast_ostream *, const unsigned char *p, uint32_t len, const mfast::byte_vector_field_instruction *, bool n) { put_text(k_bytes, p, len, n); }
void enc_null(mfast::fast_ostream *) { put_value(-1, 0, true, true); }
}
#endif
