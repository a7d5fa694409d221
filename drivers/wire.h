// Contracts of the wire level readers (discharged against their bodies by C01), used in place of the bodies.
#pragma once
#include "spec.h"
#include "mfast/coder/decoder/fast_istream.h"
#ifndef IRV_NATIVE
template <class T> inline bool wire_int(mfast::fast_istream *s, T &result, bool nullable) {
  mfast::fast_istreambuf *sb = s->buf_; const uint64_t left = sb->egptr_ - sb->gptr_;
  spec_int e; spec_scan_int(sb->gptr_, left, std::is_signed<T>::value, &e);
  if (!e.terminated) {
    uint64_t k = irv_u64("havoc"); irv_assume(k <= left); sb->gptr_ += k;
    throw mfast::fast_dynamic_error("Buffer underflow");
  }
  sb->gptr_ += e.len;
  i128 v = e.value; bool null = nullable & (v == 0); v -= nullable & (v > 0);
  const i128 lo = std::is_signed<T>::value ? -((i128)1 << (8 * sizeof(T) - 1)) : 0, hi = ((i128)1 << (8 * sizeof(T) - std::is_signed<T>::value)) - 1;
  bool fits = !e.big & (v >= lo) & (v <= hi);              // otherwise: no promise about value and NULL
  null ^= !fits & irv_bool("havoc_null");
  if (null) return false;
  result = (T)v ^ ((T)irv_u64("havoc_value") & (T) - (T)!fits);
  return true;
}
// ASCII strings (discharged by C03) and length prefixed strings (C04)
inline void wire_fail(mfast::fast_istreambuf *sb, const char *why) {
  uint64_t k = irv_u64("havoc"); irv_assume(k <= (uint64_t)(sb->egptr_ - sb->gptr_)); sb->gptr_ += k;
  throw mfast::fast_dynamic_error(why);
}
inline bool wire_ascii_entity(mfast::fast_istream *s, const char *&p, uint32_t &len, bool nullable) {
  mfast::fast_istreambuf *sb = s->buf_; const char *b = sb->gptr_; const uint64_t left = sb->egptr_ - b;
  const uint64_t e = spec_stop(b, left);
  if (e == 0) wire_fail(sb, "Buffer underflow");
  uint64_t want = e; bool null = false;
  if ((b[0] & 0x7f) == 0) {
    bool bad = false;
    if (e == 1) { null = nullable; want = 0; }
    else if (e == 2) { bad = (unsigned char)b[1] != 0x80; want = !nullable; }
    else { bad = !nullable; if (nullable) bad = (e != 3) | (b[1] != 0) | ((unsigned char)b[2] != 0x80); want = 1; }
    if (bad) wire_fail(sb, "D9");
  }
  sb->gptr_ += e; p = b; len = (uint32_t)want;
  return !null;
}
template <class C> inline bool wire_bytes_entity(mfast::fast_istream *s, const C *&p, uint32_t &len, bool nullable) {
  mfast::fast_istreambuf *sb = s->buf_; const char *b = sb->gptr_; const uint64_t left = sb->egptr_ - b;
  spec_int e; spec_scan_int(b, left, false, &e);
  if (!e.terminated) wire_fail(sb, "Buffer underflow");
  i128 v = e.value; bool null = nullable & (v == 0); v -= nullable & (v > 0);
  if (e.big | (v > 0xffffffffLL) | (v < 0) | (v > (i128)(left - e.len))) wire_fail(sb, "Buffer overflow");
  if (null) { sb->gptr_ += e.len; return false; }
  sb->gptr_ += e.len + (uint64_t)v; p = (const C *)(b + e.len); len = (uint32_t)v;
  return true;
}
extern "C" {
bool wire_ascii(mfast::fast_istream *s, const char *&p, uint32_t &len, const mfast::ascii_field_instruction *, bool n) { return wire_ascii_entity(s, p, len, n); }
bool wire_unicode(mfast::fast_istream *s, const char *&p, uint32_t &len, const mfast::unicode_field_instruction *, bool n) { return wire_bytes_entity(s, p, len, n); }
bool wire_bytevec(mfast::fast_istream *s, const unsigned char *&p, uint32_t &len, const mfast::byte_vector_field_instruction *, bool n) { return wire_bytes_entity(s, p, len, n); }
bool wire_i16(mfast::fast_istream *s, int16_t &r, bool n) { return wire_int(s, r, n); }
bool wire_i32(mfast::fast_istream *s, int32_t &r, bool n) { return wire_int(s, r, n); }
bool wire_u32(mfast::fast_istream *s, uint32_t &r, bool n) { return wire_int(s, r, n); }
bool wire_i64(mfast::fast_istream *s, int64_t &r, bool n) { return wire_int(s, r, n); }
bool wire_u64(mfast::fast_istream *s, uint64_t &r, bool n) { return wire_int(s, r, n); }
#define W(n, type, v) \
bool wire_i16_##n(mfast::fast_istream *s, int16_t &r, type) { return wire_int(s, r, v); } \
bool wire_i32_##n(mfast::fast_istream *s, int32_t &r, type) { return wire_int(s, r, v); } \
bool wire_u32_##n(mfast::fast_istream *s, uint32_t &r, type) { return wire_int(s, r, v); } \
bool wire_i64_##n(mfast::fast_istream *s, int64_t &r, type) { return wire_int(s, r, v); } \
bool wire_u64_##n(mfast::fast_istream *s, uint64_t &r, type) { return wire_int(s, r, v); }
W(true, std::true_type, true) W(false, std::false_type, false)
#undef W
}
#endif
