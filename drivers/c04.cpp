// C04: length-prefixed strings (Unicode, byte vector).
#include "spec.h"
#include "out.h"
#include "mfast/malloc_allocator.h"
#include "mfast/coder/decoder/fast_istream.h"
#include "mfast/coder/decoder/fast_istream_extractor.h"
using namespace mfast;
struct U { typedef char ch; typedef unicode_field_instruction inst; typedef unicode_string_mref mref; typedef unicode_string_cref cref; };
struct B { typedef unsigned char ch; typedef byte_vector_field_instruction inst; typedef byte_vector_mref mref; typedef byte_vector_cref cref; };

template <class K, class N> static void dec(N nullable) {
  uint64_t n = irv_u64("n");
  const char *b = irv_buf("in", n);
  fast_istreambuf sb(b, n); fast_istream s(&sb);
  spec_int e; spec_scan_int(b, n, false, &e);
  const typename K::ch *p = nullptr; uint32_t len = irv_u32("oldlen");
  bool ok = false, err = false;
  try { ok = s.decode(p, len, (const typename K::inst *)nullptr, nullable); } catch (fast_dynamic_error &) { err = true; }
  irv_assert(sb.gptr_ >= b && sb.gptr_ <= b + n, "read position stays inside the input");
  if (!e.terminated) { irv_assert(err, "unterminated length is an error"); irv_cover("unterminated"); return; }
  if (!err && ok) {
    irv_assert((const char *)p >= b && (uint64_t)((const char *)p - b) <= n && len <= n - (uint64_t)((const char *)p - b), "exposed bytes lie inside the input");
    irv_assert(sb.gptr_ == (const char *)p + len, "position is right behind the exposed bytes");
  }
  if (e.big) return;
  i128 v = e.value;
  if (nullable) {
    if (v == 0) { irv_assert(!err && !ok, "NULL"); irv_assert(sb.gptr_ == b + e.len, "NULL consumes its entity only"); irv_cover("null"); return; }
    v -= 1;
  }
  if (v > 0xffffffffLL) return;
  if (v > (i128)(n - e.len)) { irv_assert(err, "length beyond the input is an error"); irv_cover("too long"); return; }
  irv_assert(!err && ok, "well formed entity is accepted");
  irv_assert((i128)len == v, "length"); irv_assert((const char *)p == b + e.len, "content is what follows the length");
  irv_cover("content");
}
// encoding from a raw pointer
template <class K> static void enc(bool nullable) {
  out o; uint32_t len = irv_u32("len");
  const char *t = irv_buf("text", len);
  bool null = nullable && irv_bool("null");
  uint64_t j = irv_u64("j"); irv_assume((j < len) | (len == 0));
  bool over = false;
  try { o.s.encode(null ? nullptr : (const typename K::ch *)t, len, (const typename K::inst *)nullptr, nullable); } catch (buffer_overflow_error &) { over = true; }
  if (over) { irv_assert(o.cap - o.pos <= (uint64_t)len + 6, "overflow only when the entity may not fit"); o.prefix(); irv_cover("overflow"); return; }
  const char *p = o.b + o.pos; uint64_t L = o.len();
  irv_assert(o.sb.pptr_ <= o.b + o.cap, "write position stays inside the buffer");
  o.frame(L);
  if (null) { irv_assert(L == 1 && p[0] == '\x80', "NULL is 0x80"); irv_cover("null"); return; }
  uint64_t v = (uint64_t)len + (nullable ? 1 : 0), h = 1;
  for (int k = 1; k < 5; ++k) h += (v >> (7 * k)) != 0;
  irv_assert(L == h + len, "length prefix plus content");
  h = irv_concretize(h);
  bool ok = true;
  for (uint64_t k = 0; k < h; ++k) ok &= (unsigned char)p[k] == (unsigned char)(((v >> (7 * (h - 1 - k))) & 0x7f) | (k == h - 1 ? 0x80 : 0));
  irv_assert(ok, "length prefix denotes the length");
  if (len > 0) { irv_assert(p[h + j] == t[j], "content bytes in order"); irv_cover("content"); } else irv_cover("empty");
}
// through a field
template <class K> static void field_in(bool nullable) {
  uint32_t len = irv_u32("len"); irv_assume(len < (1u << 28));
  uint64_t n = (uint64_t)len + 5; char *w = irv_buf("wire", n);
  uint32_t v = len + (nullable ? 1 : 0);
  for (int k = 0; k < 5; ++k) w[k] = (char)(((v >> (7 * (4 - k))) & 0x7f) | (k == 4 ? 0x80 : 0));
  uint64_t j = irv_u64("j"); irv_assume((j < len) | (len == 0)); char want = len ? w[5 + j] : 0;
  typename K::inst inst(operator_none, nullable ? presence_optional : presence_mandatory, 1, "f", "", nullptr, string_value_storage(), 0, "", "");
  fast_istreambuf sb(w, n); fast_istream s(&sb);
  value_storage st; inst.construct_value(st, malloc_allocator::instance());
  typename K::mref m(malloc_allocator::instance(), &st, &inst);
  s >> m;
  typename K::cref c(&st, &inst);
  irv_assert(c.present(), "present"); irv_assert(c.size() == len, "size"); irv_assert(sb.gptr_ == w + n, "consumed");
  if (len) { irv_assert((char)c[j] == want, "field holds exactly the bytes"); irv_cover("content"); } else irv_cover("empty");
  inst.destruct_value(st, malloc_allocator::instance());
}
// a field in any state a user can put it into: content of any length, absent with or without capacity
template <class K> static void field_out(bool nullable) {
  out o; uint32_t len = irv_u32("len"); irv_assume(len < (1u << 28));
  const char *t = irv_buf("text", len);
  typename K::inst inst(operator_none, nullable ? presence_optional : presence_mandatory, 1, "f", "", nullptr, string_value_storage(), 0, "", "");
  value_storage st; inst.construct_value(st, malloc_allocator::instance());
  typename K::mref m(malloc_allocator::instance(), &st, &inst);
  uint64_t j = irv_u64("j"); irv_assume((j < len) | (len == 0));
  bool assign = irv_bool("assign");
  if (assign) m.assign((const typename K::ch *)t, (const typename K::ch *)t + len);
  bool null = nullable && irv_bool("null");
  if (null) m.omit();
  else if (!assign) { null = nullable; len = 0; irv_cover("never assigned"); }
  bool over = false;
  typename K::cref c(&st, &inst);
  try { o.s << c; } catch (buffer_overflow_error &) { over = true; }
  if (over) { irv_assert(o.cap - o.pos <= (uint64_t)len + 6, "overflow only when the entity may not fit"); o.prefix(); irv_cover("overflow"); }
  else {
    const char *p = o.b + o.pos; uint64_t L = o.len();
    o.frame(L);
    if (null) { irv_assert(L == 1 && p[0] == '\x80', "absent field is sent as NULL"); irv_cover("null"); }
    else {
      uint64_t v = (uint64_t)len + (nullable ? 1 : 0), h = 1;
      for (int k = 1; k < 5; ++k) h += (v >> (7 * k)) != 0;
      irv_assert(L == h + len, "length prefix plus content");
      irv_assert((unsigned char)p[h - 1] == (0x80 | (v & 0x7f)), "length prefix");
      if (len) { irv_assert(p[h + j] == t[j], "content bytes in order"); irv_cover("content"); } else irv_cover("empty");
    }
  }
  inst.destruct_value(st, malloc_allocator::instance());
}
#define H(nm, K) extern "C" void h_decode_##nm(void) { dec<K>(false); } extern "C" void h_decode_nullable_##nm(void) { dec<K>(true); } \
 extern "C" void h_decode_v2_##nm(void) { dec<K>(std::false_type()); } extern "C" void h_decode_v2_nullable_##nm(void) { dec<K>(std::true_type()); } \
 extern "C" void h_encode_##nm(void) { enc<K>(false); } extern "C" void h_encode_nullable_##nm(void) { enc<K>(true); } \
 extern "C" void h_field_in_##nm(void) { field_in<K>(false); } extern "C" void h_field_in_nullable_##nm(void) { field_in<K>(true); } \
 extern "C" void h_field_out_##nm(void) { field_out<K>(false); } extern "C" void h_field_out_nullable_##nm(void) { field_out<K>(true); }
H(unicode, U)
H(bytes, B)
