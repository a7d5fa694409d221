// C09 (and C11) for ASCII strings, Unicode strings and byte vectors.
#include "str.h"
#include "vec.h"
#include "enc.h"
#include "mfast/coder/encoder/encoder_field_operator.h"
#include "mfast/coder/decoder/decoder_field_operator.h"
using namespace mfast;
#ifndef ENCODE
#define ENCODE(cref, s, pm, init) encoder_operators[op]->encode(cref, s, pm)
#endif
#ifndef IRV_NATIVE
// contract of std::mismatch over bytes: both ranges are readable; the result is the first difference or the end of the shorter range
template <class C> inline uint64_t first_difference(const C *a, uint64_t n, const C *b, uint64_t m, bool back) {
  const uint64_t lim = n < m ? n : m; if (lim == 0) return 0;
  const C *a0 = back ? a - lim : a, *b0 = back ? b - lim : b;
  irv_assert((irv_objsize(a0) >= lim) & (irv_objsize(b0) >= lim), "compares memory only");
  volatile C x = a0[lim - 1]; x = b0[lim - 1]; x = a0[0]; x = b0[0];
  uint64_t i = irv_u32("havoc_mismatch") & 0x3fffffffu; irv_assume(i <= lim);
  if (irv_concretize(i < lim)) { if (back) irv_assume(a[-(int64_t)i - 1] != b[-(int64_t)i - 1]); else irv_assume(a[i] != b[i]); }
  if (back) irv_assume_bytes_eq(a - i, b - i, i); else irv_assume_bytes_eq(a, b, i);
  return i;
}
#define MISMATCH(C, s) \
  std::pair<const C *, const C *> lib_mismatch4_##s(const C *a, const C *ae, const C *b, const C *be) { uint64_t i = first_difference(a, ae - a, b, be - b, false); return {a + i, b + i}; } \
  std::pair<const C *, const C *> lib_mismatch3_##s(const C *a, const C *ae, const C *b) { uint64_t i = first_difference(a, ae - a, b, ae - a, false); return {a + i, b + i}; } \
  typedef std::reverse_iterator<const C *> R##s; \
  std::pair<R##s, R##s> lib_rmismatch4_##s(R##s a, R##s ae, R##s b, R##s be) { uint64_t i = first_difference(a.base(), ae - a, b.base(), be - b, true); return {a + i, b + i}; } \
  std::pair<R##s, R##s> lib_rmismatch3_##s(R##s a, R##s ae, R##s b) { uint64_t i = first_difference(a.base(), ae - a, b.base(), ae - a, true); return {a + i, b + i}; }
extern "C" { MISMATCH(char, c) MISMATCH(unsigned char, u) }
#endif
// what: 0 not stated otherwise; own: the dictionary entry of the encoder owns memory
template <class K> static void str(operator_enum_t op, bool optional, int state, bool own) {
  typedef uint64_t u64; malloc_allocator al;
  const bool has_init = irv_concretize(irv_bool("hasinit")); u64 il = has_init ? irv_len("ilen") : 0; const char *ib = irv_buf("init", il + 1); irv_assume(ib[il] == 0);
  irv_assume(has_init | (op != operator_constant)); irv_assume(has_init | optional | (op != operator_default));
  typename K::inst einst = K::make(op, optional, has_init, ib, il), dinst = K::make(op, optional, has_init, ib, il);
  const u64 k = irv_u32("k") & 0x1fffffffu;
  // equal dictionary entries: the encoder's one owns its memory, the decoder's one refers to memory of somebody else
  const u64 pl = irv_len("plen"), cap = own ? irv_len("pcap") : 0; const char *pb = irv_buf("prev", own ? cap : pl); irv_assume(!own | (pl < cap));
  field<K> f(&al, false); value_storage eprev, dprev;
  eprev.of_array.content_ = const_cast<char *>("");
  if (own) { void *p = al.allocate(cap); memcpy(p, pb, cap); eprev.of_array.content_ = p; }
  dprev.of_array.content_ = const_cast<char *>(pb);
  eprev.of_array.capacity_in_bytes_ = (uint32_t)cap; dprev.of_array.capacity_in_bytes_ = 0;
  eprev.of_array.defined_bit_ = dprev.of_array.defined_bit_ = state != undefined_state; eprev.of_array.len_ = dprev.of_array.len_ = state == assigned_state ? (uint32_t)pl + 1 : 0;
  const bool present = !optional || irv_concretize(irv_bool("valpres"));
#ifdef V2
  if (op == operator_default && optional) irv_assume(!has_init | present);                              // known finding, see c09.cpp
#endif
  einst.prev_value_ = &eprev; dinst.prev_value_ = &dprev;
  // the value
  const u64 len = op == operator_constant ? il : irv_len("len"); const char *vb = op == operator_constant ? ib : irv_buf("value", len);
  value_storage src; src.of_array.content_ = const_cast<char *>(vb); src.of_array.capacity_in_bytes_ = 0; src.of_array.defined_bit_ = 1; src.of_array.len_ = present ? (uint32_t)len + 1 : 0;
  char at_k = 0; if (k < len) { at_k = vb[k]; if (K::kind == k_ascii) irv_assume(at_k >= 0); }
  if (K::kind == k_ascii) { if (k < pl) irv_assume(pb[k] >= 0); if (k < il) irv_assume(ib[k] >= 0); }
  if (op == operator_tail) { const u64 bl = state == assigned_state ? pl : il; irv_assume(!present | (len >= bl)); }   // a shorter value has no tail
  channel ch(&al); bool eerr = false, derr = false;
  { typename K::cref c(&src, &einst); try { ENCODE(c, ch.os, ch.epm, has_init); } catch (fast_dynamic_error &) { eerr = true; } }
  if (eerr) { irv_assert(state == empty_state && (op == operator_delta || (!optional && op == operator_copy)), "a representable value is encoded"); irv_cover("refused"); return; }
  if (op == operator_delta && state == empty_state) irv_assume(!present);
#ifndef IRV_NATIVE
  if (op == operator_tail && feed.n && present && k < len) irv_concretize(k < len - feed.q[0].len);     // case split
#endif
  ch.turn();
  typename K::mref mref(&al, &f.st, &dinst);
  try { decoder_operators[op]->decode(mref, ch.is, ch.dpm); } catch (fast_dynamic_error &) { derr = true; }
  irv_assert(!derr, "what was encoded can be decoded");
  irv_assert(ch.all_used(), "both sides use the same presence bits and wire values");
  typename K::cref c(&f.st, &dinst);
  irv_assert(c.present() == present, "presence");
  if (present) { irv_assert(c.size() == len, "length"); if (k < len) { irv_assert(((const char *)c.data())[k] == at_k, "content"); irv_cover("content"); } else irv_cover("present"); } else irv_cover("absent");
  if (op == operator_delta || op >= operator_copy) {
    irv_assert(str_state(eprev) == str_state(dprev), "same state of the dictionary entries");
    if (str_state(eprev) == assigned_state) { irv_assert(eprev.array_length() == dprev.array_length(), "same length of the dictionary entries"); if (k < eprev.array_length()) irv_assert(((const char *)eprev.of_array.content_)[k] == ((const char *)dprev.of_array.content_)[k], "same value of the dictionary entries"); }
  }
  einst.destruct_value(eprev, &al); f.done(dinst);
}
#define S1(nm, K, opn, op, sn, st, on, ow) extern "C" void h_##nm##_##opn##_m_##sn##on(void) { str<K>(op, false, st, ow); } extern "C" void h_##nm##_##opn##_o_##sn##on(void) { str<K>(op, true, st, ow); }
#define S(nm, K, opn, op) S1(nm, K, opn, op, undef, undefined_state, _own, true) S1(nm, K, opn, op, undef, undefined_state, , false) S1(nm, K, opn, op, empty, empty_state, _own, true) S1(nm, K, opn, op, empty, empty_state, , false) S1(nm, K, opn, op, prev, assigned_state, _own, true)
#define OPS(nm, K) S(nm, K, none, operator_none) S(nm, K, const, operator_constant) S(nm, K, delta, operator_delta) S(nm, K, default, operator_default) S(nm, K, copy, operator_copy) S(nm, K, tail, operator_tail)
OPS(ascii, A) OPS(uni, U) OPS(vec, B)
