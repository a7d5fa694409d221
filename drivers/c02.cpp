// C02: integer encoding is minimal, denotes the value, and decodes back to it.
#include "spec.h"
#include "mfast/coder/encoder/fast_ostream.h"
#include "mfast/coder/encoder/fast_ostream_inserter.h"
#include "mfast/coder/decoder/fast_istream.h"
#include <limits>
using namespace mfast;

#include "out.h"
// the shortest stop-bit entity of v
template <bool S> static void check_entity(const char *p, uint64_t len, i128 v) {
  uint64_t L = 1;                                    // branch free on purpose
  for (int k = 1; k < 10; ++k) {
    i128 lim = (i128)1 << (S ? 7 * k - 1 : 7 * k);
    L += (uint64_t)((v >= lim) | (S & (v < -lim)));
  }
  irv_assert(len == L, "shortest entity");
  if (len > 10) return;
  len = irv_concretize(len);
  bool ok = true;
  for (uint64_t k = 0; k < len; ++k)
    ok &= (unsigned char)p[k] == (unsigned char)(((v >> (7 * (len - 1 - k))) & 0x7f) | (k == len - 1 ? 0x80 : 0));
  irv_assert(ok, "entity denotes the value, stop bit on the last byte only");
}

template <class T> static void encode_int(bool nullable) {
  out o;
  T value = (T)irv_u64("value");
  bool null = nullable && irv_bool("null");
  bool over = false;
  try { o.s.encode(value, null, nullable); }
  catch (buffer_overflow_error &) { over = true; }
  if (over) {
    irv_assert(o.cap - o.pos <= 10, "overflow only when the entity may not fit");
    irv_assert((o.i >= o.pos) | (o.b[o.i] == o.before), "bytes already written unchanged on overflow");
    irv_cover("overflow"); return;
  }
  irv_assert(o.sb.pptr_ >= o.b + o.pos && o.sb.pptr_ <= o.b + o.cap, "write position stays inside the buffer");
  const char *p = o.b + o.pos; uint64_t len = o.len();
  o.frame(len);
  if (null) { irv_assert(len == 1 && p[0] == '\x80', "NULL is one byte 0x80"); irv_cover("null"); return; }
  i128 v = value;
  if (nullable && v >= 0) ++v;
  irv_cover("value");
  check_entity<std::is_signed<T>::value>(p, len, v);
}
// composition with the real decoder
template <class T> static void roundtrip_int(bool nullable) {
  char mem[24];
  fast_ostreambuf sb(mem, sizeof(mem)); fast_ostream s(nullptr); s.rdbuf(&sb);
  T value = (T)irv_u64("value");
  bool null = nullable && irv_bool("null");
  if (nullable) s.encode(value, null, std::true_type()); else s.encode(value, false, std::false_type());
  fast_istreambuf ib(mem, sb.length()); fast_istream is(&ib);
  T back = (T)irv_u64("old"); bool ok = nullable ? is.decode(back, std::true_type()) : is.decode(back, std::false_type());
  irv_assert(ok == !null, "NULL round trip");
  if (!null) irv_assert(back == value, "value round trip");
  irv_assert(ib.in_avail() == 0, "whole entity consumed");
  irv_cover("end");
}
#define H(name, T) \
  extern "C" void h_encode_##name(void) { encode_int<T>(false); } extern "C" void h_encode_##name##_nullable(void) { encode_int<T>(true); } \
  extern "C" void h_roundtrip_##name(void) { roundtrip_int<T>(false); } extern "C" void h_roundtrip_##name##_nullable(void) { roundtrip_int<T>(true); }
H(i16, int16_t)
H(i32, int32_t)
H(u32, uint32_t)
H(i64, int64_t)
H(u64, uint64_t)
extern "C" void h_encode_null(void) {
  out o; bool over = false;
  try { o.s.encode_null(); } catch (buffer_overflow_error &) { over = true; }
  if (over) { irv_assert(o.cap == o.pos, "overflow only when full"); o.frame(0); return; }
  irv_assert(o.len() == 1 && o.b[o.pos] == '\x80', "NULL is one byte 0x80"); o.frame(1); irv_cover("null");
}
