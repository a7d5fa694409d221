#include "spec.h"
#include "mfast/coder/decoder/fast_istream.h"
#include <limits>
using namespace mfast;
template <class T> static void decode_int(bool nullable) {
  const bool sgn = std::is_signed<T>::value;
  uint64_t n = irv_u64("n");
  const char *b = irv_buf("in", n);
  fast_istreambuf sb(b, n);
  fast_istream s(&sb);
  T out = (T)irv_u64("old");
  spec_int e; spec_scan_int(b, n, sgn, &e);
  bool thrown = false, ok = false;
  try { ok = s.decode(out, nullable); }
  catch (fast_dynamic_error &) { thrown = true; }
  irv_assert(thrown == !e.terminated, "error exactly when the entity is unterminated");
  if (thrown) { irv_cover("unterminated"); return; }
  irv_assert(sb.gptr() == b + e.len, "consumes exactly the entity");
  if (e.big) return;
  irv_cover("terminated");
  i128 v = e.value;
  if (nullable) {
    if (v == 0) { irv_assert(!ok, "zero denotes NULL"); irv_cover("null"); return; }
    if (v > 0) v -= 1;
  }
  if (v < (i128)std::numeric_limits<T>::min() || v > (i128)std::numeric_limits<T>::max()) return;
  irv_cover("value");
  irv_assert(ok, "non-zero is not NULL");
  irv_assert((i128)out == v, "exact value");
}
#define H(name, T) extern "C" void h_##name(void) { decode_int<T>(false); } extern "C" void h_##name##_nullable(void) { decode_int<T>(true); }
H(decode_i16, int16_t)
H(decode_i32, int32_t)
H(decode_u32, uint32_t)
H(decode_i64, int64_t)
H(decode_u64, uint64_t)
