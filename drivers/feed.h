// The wire as a sequence of typed entities.  In the verifier the readers fast_istream::decode and the writers fast_ostream::encode are
// replaced by their contracts over this sequence (what an entity denotes: C01, C03, C04; that written entities denote their value: C02,
// C03, C04); natively the entities are real bytes.
#pragma once
#include "irv.h"
#include "mfast/coder/decoder/fast_istream.h"
#include "mfast/string_ref.h"
typedef __int128 i128;
enum { k_signed, k_unsigned, k_ascii, k_unicode, k_bytes };
struct item { int kind; bool nullable, null, cut; int64_t v; const char *p; uint64_t len; };
struct feed_t { item q[6]; int n, i; };
extern "C" feed_t feed; feed_t feed;
inline item &feed_add(int kind, bool nullable, bool null, bool cut) { item &t = feed.q[feed.n++]; t.kind = kind; t.nullable = nullable; t.null = null & nullable; t.cut = cut; t.v = 0; t.p = nullptr; t.len = 0; return t; }
#ifdef IRV_NATIVE
#include <vector>
// reference writer
inline void put_int(std::vector<char> &o, i128 v, bool sgn) {
  char g[12]; int k = 0; 
  for (;;) { g[k++] = (char)(v & 0x7f); v >>= 7; if (sgn ? ((v == 0 && !(g[k - 1] & 0x40)) || (v == -1 && (g[k - 1] & 0x40))) : v == 0) break; }
  for (int j = k - 1; j >= 0; --j) o.push_back((char)(g[j] | (j ? 0 : 0x80)));
}
inline void put_item(std::vector<char> &o, const item &t) {
  if (t.cut) { if (t.kind >= k_unicode) put_int(o, t.len + 1000 , false); else o.push_back(1); return; }
  if (t.null) { o.push_back((char)0x80); return; }
  if (t.kind <= k_unsigned) { put_int(o, (t.kind == k_signed ? (i128)t.v : (i128)(uint64_t)t.v) + (t.nullable && (t.kind == k_unsigned || t.v >= 0)), t.kind == k_signed); return; }
  if (t.kind == k_ascii) {
    if (t.len == 0) { if (t.nullable) o.push_back(0); o.push_back((char)0x80); return; }
    if (t.len == 1 && (t.p[0] & 0x7f) == 0) { o.push_back(0); if (t.nullable) o.push_back(0); o.push_back((char)0x80); return; }
    for (uint64_t k = 0; k < t.len; ++k) o.push_back((char)((t.p[k] & 0x7f) | (k == t.len - 1 ? 0x80 : 0)));
    return;
  }
  put_int(o, (i128)t.len + t.nullable, false); o.insert(o.end(), t.p, t.p + t.len);
}
struct wire_in {
  std::vector<char> b; size_t at[8]; mfast::fast_istreambuf sb; mfast::fast_istream s;
  wire_in() : sb(nullptr, (size_t)0), s(&sb) {}
  void start() { for (int k = 0; k < feed.n; ++k) { at[k] = b.size(); if (k == 0 || !feed.q[k - 1].cut) put_item(b, feed.q[k]); } at[feed.n] = b.size(); sb = mfast::fast_istreambuf(b.data(), b.size()); s.reset(&sb); }
  bool consumed(int n) { return (size_t)(sb.gptr_ - b.data()) == at[n]; }
};
#else
struct wire_in {
  char dummy; mfast::fast_istreambuf sb; mfast::fast_istream s;
  wire_in() : sb(&dummy, (size_t)0), s(&sb) {}
  void start() {}
  bool consumed(int n) { return feed.i == n; }
};
inline item *feed_next(int kind, bool nullable) {
  irv_assert(feed.i < feed.n, "reads no more than the prescribed wire values");
  item *t = &feed.q[feed.i];
  irv_assert((t->kind == kind) | (t->kind < 0), "reads the prescribed kind of wire value");
  irv_assert(t->nullable == nullable, "reads the prescribed form of wire value");
  if (t->cut) throw mfast::fast_dynamic_error("Buffer underflow");
  ++feed.i;
  return t;
}
template <class T> inline bool feed_int(T &r, bool nullable) {
  item *t = feed_next(std::is_signed<T>::value ? k_signed : k_unsigned, nullable);
  if (sizeof(T) < 8 && t->v != (int64_t)(T)t->v && irv_bool("havoc_fits")) { r = (T)irv_u64("havoc_value"); return !irv_bool("havoc_null"); }   // out of the type's range: anything
  if (t->null) return false;
  r = (T)t->v; return true;
}
template <class C> inline bool feed_str(int kind, const C *&p, uint32_t &len, bool nullable) {
  item *t = feed_next(kind, nullable);
  if (t->null) return false;
  p = (const C *)t->p; len = (uint32_t)t->len; return true;
}
extern "C" {
bool feed_i16(mfast::fast_istream *, int16_t &r, bool n) { return feed_int(r, n); }
bool feed_i32(mfast::fast_istream *, int32_t &r, bool n) { return feed_int(r, n); }
bool feed_u32(mfast::fast_istream *, uint32_t &r, bool n) { return feed_int(r, n); }
bool feed_i64(mfast::fast_istream *, int64_t &r, bool n) { return feed_int(r, n); }
bool feed_u64(mfast::fast_istream *, uint64_t &r, bool n) { return feed_int(r, n); }
#define W(n, type, v) \
bool feed_i16_##n(mfast::fast_istream *, int16_t &r, type) { return feed_int(r, v); } \
bool feed_i32_##n(mfast::fast_istream *, int32_t &r, type) { return feed_int(r, v); } \
bool feed_u32_##n(mfast::fast_istream *, uint32_t &r, type) { return feed_int(r, v); } \
bool feed_i64_##n(mfast::fast_istream *, int64_t &r, type) { return feed_int(r, v); } \
bool feed_u64_##n(mfast::fast_istream *, uint64_t &r, type) { return feed_int(r, v); } \
bool feed_ascii_##n(mfast::fast_istream *, const char *&p, uint32_t &len, const mfast::ascii_field_instruction *, type) { return feed_str(k_ascii, p, len, v); } \
bool feed_unicode_##n(mfast::fast_istream *, const char *&p, uint32_t &len, const mfast::unicode_field_instruction *, type) { return feed_str(k_unicode, p, len, v); } \
bool feed_bytevec_##n(mfast::fast_istream *, const unsigned char *&p, uint32_t &len, const mfast::byte_vector_field_instruction *, type) { return feed_str(k_bytes, p, len, v); }
W(true, std::true_type, true) W(false, std::false_type, false)
#undef W
bool feed_ascii(mfast::fast_istream *, const char *&p, uint32_t &len, const mfast::ascii_field_instruction *, bool n) { return feed_str(k_ascii, p, len, n); }
bool feed_unicode(mfast::fast_istream *, const char *&p, uint32_t &len, const mfast::unicode_field_instruction *, bool n) { return feed_str(k_unicode, p, len, n); }
bool feed_bytevec(mfast::fast_istream *, const unsigned char *&p, uint32_t &len, const mfast::byte_vector_field_instruction *, bool n) { return feed_str(k_bytes, p, len, n); }
}
#endif
