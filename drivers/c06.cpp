// C06: every decoder primitive, from any position of any input: reads stay inside, position stays inside.
// Out-of-range reads are obligations of the verifier itself (the block `in` is exactly the supplied input).
#include "spec.h"
inline uint64_t irv_size(const char *name) { uint64_t n = irv_u64(name); irv_assume(n < ((uint64_t)1 << 40)); return n; }   // objects are smaller than the address space
#include "mfast/malloc_allocator.h"
#include "mfast/coder/decoder/fast_istream.h"
#include "mfast/coder/decoder/fast_istream_extractor.h"
#include "mfast/coder/decoder_v2/fast_istream_extractor.h"
using namespace mfast;
typedef uint64_t u64;
struct in_state {
  u64 n, stop; static const u64 pos = 0;   // the block is what is left of the input: a backward read would be outside it, too
  const char *b; fast_istreambuf sb; fast_istream s;
  in_state() : n(irv_size("n")), stop(0), b(irv_buf("in", n)), sb(b, n), s(&sb) {
    sb.gptr_ = b + pos;
    stop = spec_stop(b + pos, n - pos);          // ghost: length of the entity that starts here
  }
  void check(bool err) {
    irv_assert((sb.gptr_ >= b + pos) & (sb.gptr_ <= b + n), "read position stays inside the input and never goes back");
    irv_assert(sb.egptr_ == b + n, "end of input unchanged");
    if (err) irv_cover("error"); else irv_cover("ok");
  }
  // a primitive that needs a whole stop bit entity: error exactly when there is none
  void entity(bool err) { irv_assert(err == (stop == 0), "running out of input is an error, and nothing else is"); check(err); }
};
#define TRY(x) bool err = false; try { x; } catch (fast_dynamic_error &) { err = true; }
template <class T, class N> static void integer(N nullable) { in_state i; T v = 0; TRY(i.s.decode(v, nullable)) i.entity(err); }
#define INT(nm, T) \
  extern "C" void h_##nm##_m(void) { integer<T>(false); } extern "C" void h_##nm##_n(void) { integer<T>(true); } \
  extern "C" void h_##nm##_v2m(void) { integer<T>(std::false_type()); } extern "C" void h_##nm##_v2n(void) { integer<T>(std::true_type()); }
INT(i16, int16_t) INT(i32, int32_t) INT(u32, uint32_t) INT(i64, int64_t) INT(u64, uint64_t)
// string-like: what is exposed to the caller lies inside the consumed input
template <class CH, class I, class N> static void str(N nullable) {
  in_state i; const CH *p = nullptr; uint32_t len = 0; bool ok = false;
  TRY(ok = i.s.decode(p, len, (const I *)nullptr, nullable))
  i.check(err);
  if (!err && ok && len > 0) {
    u64 o = (const char *)p - i.b;
    irv_assert((o >= i.pos) & (o <= i.n) & (len <= i.n - o), "exposed bytes lie inside the input");
    irv_assert(o + len <= (u64)(i.sb.gptr_ - i.b), "exposed bytes have been consumed");
  }
  if (i.pos == i.n) { irv_assert(err, "nothing left is an error"); irv_cover("empty input"); }
}
#define STR(nm, CH, I) \
  extern "C" void h_##nm##_m(void) { str<CH, I>(false); } extern "C" void h_##nm##_n(void) { str<CH, I>(true); } \
  extern "C" void h_##nm##_v2m(void) { str<CH, I>(std::false_type()); } extern "C" void h_##nm##_v2n(void) { str<CH, I>(std::true_type()); }
STR(ascii, char, ascii_field_instruction) STR(unicode, char, unicode_field_instruction) STR(bytes, unsigned char, byte_vector_field_instruction)
extern "C" void h_pmap(void) { in_state i; decoder_presence_map pm; TRY(i.s.decode(pm)) i.entity(err);
  if (!err) irv_assert((pm.continue_ == nullptr) | ((pm.continue_ > i.b + i.pos) & (pm.continue_ < i.sb.gptr_)), "the continuation lies inside the map");
}
extern "C" void h_pmap_load(void) { in_state i; decoder_presence_map pm; TRY(pm.load(i.sb)) i.entity(err); }
extern "C" void h_pmap_next(void) {       // reading on inside a map that is known to be terminated
  u64 n = irv_u64("n"); irv_assume(n > 0 && n < (u64)1 << 40); const char *b = irv_buf("in", n); irv_assume(spec_stop(b, n) == n);
  u64 c = irv_u64("c"); irv_assume(c < n);
  decoder_presence_map pm; pm.cur_bitmap_ = irv_u64("bits"); pm.mask_ = irv_u64("mask"); pm.continue_ = irv_bool("more") ? b + c : nullptr;
  pm.is_next_bit_set();
  irv_assert((pm.continue_ == nullptr) | ((pm.continue_ >= b) & (pm.continue_ < b + n)), "the continuation stays inside the map"); irv_cover("end");
}
extern "C" void h_getc(void) { in_state i; TRY(i.sb.sgetc()) irv_assert(err == (i.pos == i.n), "error exactly at the end"); irv_assert(i.sb.gptr_ == i.b + i.pos, "does not move"); i.check(err); }
extern "C" void h_bumpc(void) { in_state i; TRY(i.sb.sbumpc()) irv_assert(err == (i.pos == i.n), "error exactly at the end"); irv_assert(i.sb.gptr_ == i.b + i.pos + !err, "moves by one"); i.check(err); }
extern "C" void h_gbump(void) { in_state i; u64 k = irv_u64("k"); irv_assume(k >> 63 == 0); TRY(i.sb.gbump(k)) irv_assert(err == (k > i.n - i.pos), "error exactly beyond the end"); irv_assert(i.sb.gptr_ == i.b + i.pos + (err ? 0 : k), "moves by k"); i.check(err); }
extern "C" void h_avail(void) { in_state i; irv_assert(i.sb.in_avail() == i.n - i.pos && i.s.eof() == (i.n == i.pos), "what is left"); irv_cover("end"); }
extern "C" void h_entity_length(void) { in_state i; u64 l = 0; TRY(l = i.sb.get_entity_length()) irv_assert(i.sb.gptr_ == i.b + i.pos, "does not move"); irv_assert(l == i.stop, "length up to the stop bit"); i.entity(err); }
