// C05: presence maps.  Class invariants relate the objects to the abstract bit sequence; each operation
// is shown to establish / preserve its invariant from an arbitrary state, so the count is unbounded.
#include "spec.h"
#include "out.h"
#include "mfast/coder/decoder/fast_istream.h"
#include "mfast/coder/encoder/encoder_presence_map.h"
using namespace mfast;
typedef uint64_t u64;
static inline u64 min9(u64 v) { return v < 9 ? v : 9; }
// ---- reading ----------------------------------------------------------------------------------
// bit k of the map held by the entity b[0..e)
static inline bool spec_bit(const char *b, u64 c, u64 d) { return (((unsigned char)b[c + d / 7] >> (6 - d % 7)) & 1) != 0; }
// Inv(pm): bytes [c, c+m) are loaded, d of their bits have been delivered
static void assert_inv(decoder_presence_map &pm, const char *b, u64 e, u64 c, u64 m, u64 d) {
  irv_assert(pm.mask_ == (u64)1 << (7 * m - d), "next bit position");
  irv_assert(pm.continue_ == (c + m < e ? b + c + m : nullptr), "continuation");
  bool ok = true;
  for (u64 t = 0; t < m; ++t) ok &= ((pm.cur_bitmap_ >> (7 * (m - 1 - t))) & 0x7f) == (u64)((unsigned char)b[c + t] & 0x7f);
  irv_assert(ok, "loaded bits");
}
extern "C" void h_read_load(void) {
  u64 n = irv_size("n");
  const char *b = irv_buf("in", n);
  fast_istreambuf sb(b, n); fast_istream s(&sb);
  u64 e = spec_stop(b, n);
  decoder_presence_map pm; bool err = false;
  try { s.decode(pm); } catch (fast_dynamic_error &) { err = true; }
  irv_assert(sb.gptr_ >= b && sb.gptr_ <= b + n, "read position stays inside the input");
  irv_assert(err == (e == 0), "error exactly when unterminated");
  if (err) { irv_cover("unterminated"); return; }
  irv_assert(sb.gptr_ == b + e, "consumes exactly the map");
  assert_inv(pm, b, e, 0, irv_concretize(min9(e)), 0);
  irv_cover("loaded");
}
extern "C" void h_read_bit(void) {
  u64 e = irv_size("e"); irv_assume(e > 0);
  const char *b = irv_buf("in", e);                       // nothing behind the map is readable
  irv_assume(spec_stop(b, e) == e);
  u64 c = irv_u64("c"); irv_assume(c < e);
  u64 m = irv_concretize(min9(e - c));
  u64 d = irv_u64("d"); irv_assume(d <= 7 * m);
  decoder_presence_map pm;
  pm.cur_bitmap_ = irv_u64("bits"); pm.mask_ = (u64)1 << (7 * m - d); pm.continue_ = c + m < e ? b + c + m : nullptr;
  for (u64 t = 0; t < m; ++t) irv_assume(((pm.cur_bitmap_ >> (7 * (m - 1 - t))) & 0x7f) == (u64)((unsigned char)b[c + t] & 0x7f));
  bool more = c + m < e, want = false;
  if (d < 7 * m) want = spec_bit(b, c, d); else if (more) want = spec_bit(b, c + m, 0);
  bool got = pm.is_next_bit_set();
  irv_assert(got == want, "delivers the next bit of the map, zero behind its end");
  if (d < 7 * m) { assert_inv(pm, b, e, c, m, d + 1); irv_cover("inside"); }
  else if (more) { u64 m2 = irv_concretize(min9(e - c - m)); assert_inv(pm, b, e, c + m, m2, 1); irv_cover("next chunk"); }
  else { irv_assert(pm.mask_ == 0 && pm.continue_ == nullptr, "exhausted"); irv_cover("end"); }
}
extern "C" void h_read_exhausted(void) {                  // and zero for ever
  decoder_presence_map pm; pm.cur_bitmap_ = irv_u64("bits"); pm.mask_ = 0; pm.continue_ = nullptr;
  irv_assert(!pm.is_next_bit_set(), "zero behind the end");
  irv_assert(pm.mask_ == 0 && pm.continue_ == nullptr, "stays exhausted"); irv_cover("end");
}
// ---- writing ----------------------------------------------------------------------------------
// place of bit t (0..55) in a little endian word of eight 7-bit bytes
static inline u64 place(u64 t) { return (u64)1 << (8 * (t / 7) + 6 - t % 7); }
static inline u64 places(u64 j) { u64 m = 0; for (u64 t = 0; t < 56; ++t) m |= t < j ? place(t) : 0; return m; }
// Inv(pm): j bits (0..56) are pending in a word, the reserved space continues for r bytes from offset_
struct enc_state {
  out o; encoder_presence_map pm; u64 j, val, r, start;
  enc_state(u64 jmin, u64 jmax) {
    j = irv_u64("j"); irv_assume((j >= jmin) & (j <= jmax)); j = irv_concretize(j);
    val = irv_u64("val"); irv_assume((val & ~places(j)) == 0);
    r = irv_u64("reserved"); start = irv_u64("start"); u64 off = irv_u64("offset");
    irv_assume(o.pos >= 1 && o.pos < o.cap); irv_assume((r <= o.pos) & (off <= o.pos - r) & (start <= off));
    o.s.alloc_ = nullptr; o.s.allow_overlong_pmap_ = irv_bool("overlong");
    pm.stream_ = &o.s; pm.offset_ = off; pm.start_ = start; pm.maxbytes_ = r;
    pm.value_ = val; pm.nbytes_ = j == 0 ? 0 : (j - 1) / 7; pm.mask_ = j == 0 ? (u64)0x80 : place(j - 1);
  }
  void assert_inv(u64 j2, u64 v2, u64 off2, u64 r2) {
    irv_assert(pm.value_ == v2, "pending bits in order");
    irv_assert(pm.nbytes_ == (j2 - 1) / 7 && pm.mask_ == place(j2 - 1), "write position");
    irv_assert(pm.offset_ == off2 && pm.maxbytes_ == r2 && pm.start_ == start, "space accounting");
  }
};
extern "C" void h_write_init(void) {
  out o; u64 bits = irv_u64("bits"); irv_assume(bits <= (u64)1 << 40);
  encoder_presence_map pm; bool over = false;
  try { pm.init(&o.s, bits); } catch (buffer_overflow_error &) { over = true; }
  u64 r = (bits + 6) / 7;
  o.frame(r);
  if (over) { irv_assert(o.cap - o.pos <= r, "overflow only when full"); irv_cover("overflow"); return; }
  irv_assert(o.len() == r, "room for exactly the bits"); irv_assert(o.sb.pptr_ <= o.b + o.cap, "inside the buffer");
  irv_assert(pm.offset_ == o.pos && pm.start_ == o.pos && pm.maxbytes_ == r && pm.value_ == 0 && pm.nbytes_ == 0 && pm.mask_ == 0x80, "empty map");
  irv_cover("init");
}
extern "C" void h_write_bit(void) {
  enc_state e(0, 56); bool v = irv_bool("v");
  u64 off = e.pm.offset_;
  irv_assume(e.j / 7 + 1 <= e.r);                          // there is still a reserved byte for this bit
  e.pm.set_next_bit(v);
  irv_assert(e.o.len() == 0, "does not move the end of the message");
  if (e.j < 56) {
    e.assert_inv(e.j + 1, e.val | (v ? place(e.j) : 0), off, e.r);
    irv_assert(e.o.b[e.o.i] == e.o.before, "no byte changes"); irv_cover("pending");
  } else {
    e.assert_inv(1, v ? place(0) : 0, off + 8, e.r - 8);
    irv_assert((e.o.i >= off && e.o.i < off + 8) ? (unsigned char)e.o.b[e.o.i] == (unsigned char)(e.val >> (8 * (e.o.i - off))) : e.o.b[e.o.i] == e.o.before, "the full word is stored, nothing else changes");
    irv_cover("flushed");
  }
}
// committing a map whose bits fill the reserved space; any number of full words in front
static void commit_check(bool overlong, u64 k) {
  enc_state e(7 * k + 7, 7 * k + 7);                       // the last byte may hold fewer bits: the others are zero
  irv_assume(e.o.s.allow_overlong_pmap_ == overlong);
  u64 off = e.pm.offset_; irv_assume(e.r == k + 1);
  e.pm.mask_ = irv_u64("mask");
  u64 end = off + e.r, i = e.o.i, start = e.start;
  char *b = e.o.b;
  irv_assume(i < start || i >= off || !(b[i] & 0x80));     // words in front hold bits, no stop bit
  char tail = b[i];
  e.pm.commit();
  u64 cut = e.o.pos - (u64)(e.o.sb.pptr_ - b), nend = end - cut;
  irv_assert((cut == 0) | (!overlong & (cut < end - start)), "compaction only when asked for, and never the whole map");
  char now = b[i];
  irv_assert((i >= start) | (now == e.o.before), "bytes in front of the map are unchanged");
  unsigned char bits = i < off ? (unsigned char)e.o.before : (unsigned char)(e.val >> (8 * ((i - off) & 7)));
  if (i >= start && i < nend)
    irv_assert((unsigned char)now == (unsigned char)(bits | (i == nend - 1 ? 0x80 : 0)), "bits in order, stop bit on the last byte");
  if (i >= nend && i < end && i >= start) { irv_assert(bits == 0, "only zero bits are dropped"); irv_cover("compacted"); }
  if (i >= end && i < e.o.pos) irv_assert(b[i - cut] == tail, "following message bytes are moved unaltered");
  irv_assert((i < e.o.pos) | (now == e.o.before), "bytes behind the message are unchanged");
  irv_cover("committed");
}
// fewer bits than announced: the rest of the reserved space is filled with zero bits
static void padded_check(u64 k) {
  enc_state e(k ? 7 * k + 1 : 0, 7 * k + 7); irv_assume(e.o.s.allow_overlong_pmap_); irv_assume(e.r >= k + 1 && e.r <= k + 3);
  u64 off = e.pm.offset_, i = e.o.i; u64 r = irv_concretize(e.r);
  e.pm.commit();
  irv_assert(e.o.len() == 0, "does not move the end of the message");
  u64 w = i - off;
  if (i >= off && w < r) irv_assert((unsigned char)e.o.b[i] == (unsigned char)((w < 8 ? e.val >> (8 * w) : 0) | (w == r - 1 ? 0x80 : 0)), "bits, zero padding, stop bit on the last byte");
  else irv_assert(e.o.b[i] == e.o.before, "nothing else changes");
  irv_cover("end");
}
#define K(k) extern "C" void h_commit_##k(void) { commit_check(true, k); } extern "C" void h_compact_##k(void) { commit_check(false, k); } extern "C" void h_padded_##k(void) { padded_check(k); }
K(0) K(1) K(2) K(3) K(4) K(5) K(6) K(7)
// ---- the two layouts are the same map --------------------------------------------------------------
extern "C" void h_layout(void) {
  u64 k = irv_u64("k"); irv_assume(k < (u64)1 << 40);
  u64 w = k / 56, t = k % 56;
  u64 word = irv_u64("word");
  u64 byte = 8 * w + t / 7;                                 // where the writer puts bit k
  irv_assert(byte == k / 7, "same byte");
  irv_assert(((word & place(t)) != 0) == (((((word >> (8 * (t / 7))) & 0xff) >> (6 - k % 7)) & 1) != 0), "same bit");
  irv_assert((places(56) & 0x8080808080808080ull) == 0, "no stop bit inside"); irv_cover("end");
}
