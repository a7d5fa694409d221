// C07: output buffers.  Fixed: append inside the buffer or overflow.  Growable: always append, keep everything.
#include "out.h"
#include "mfast/coder/encoder/resizable_fast_ostreambuf.h"
using namespace mfast;
typedef uint64_t u64;
// ---- fixed ---------------------------------------------------------------------------------
#define TRY(x) bool over = false; try { x; } catch (buffer_overflow_error &) { over = true; }
extern "C" void h_putc(void) {
  out o; char c = (char)irv_u8("c"); TRY(o.sb.sputc(c))
  irv_assert(o.sb.pbase_ == o.b && o.sb.epptr_ == o.b + o.cap, "same buffer");
  if (over) { irv_assert(o.pos == o.cap, "overflow exactly when full"); irv_assert(o.len() == 0, "position unchanged"); irv_assert(o.b[o.i] == o.before, "nothing is written"); irv_cover("overflow"); return; }
  irv_assert(o.pos < o.cap, "never appends to a full buffer"); irv_assert(o.len() == 1 && o.b[o.pos] == c, "appended"); o.frame(1); irv_cover("appended");
}
extern "C" void h_putn(void) {
  out o; u64 n = irv_size("n"); const char *d = irv_buf("data", n); u64 j = irv_u64("j"); irv_assume((j < n) | (n == 0));
  TRY(o.sb.sputn(d, n))
  irv_assert(o.sb.pbase_ == o.b && o.sb.epptr_ == o.b + o.cap, "same buffer");
  if (over) { irv_assert(n >= o.cap - o.pos, "overflow only when it does not fit"); irv_assert(o.len() == 0, "position unchanged"); irv_assert(o.b[o.i] == o.before, "nothing is written"); irv_cover("overflow"); return; }
  irv_assert(o.len() == n && n <= o.cap - o.pos, "inside the buffer"); o.frame(n);
  if (n > 0) { irv_assert(o.b[o.pos + j] == d[j], "exactly the given bytes"); irv_cover("appended"); }
}
extern "C" void h_skip(void) {
  out o; u64 n = irv_size("n"); TRY(o.sb.skip(n))
  irv_assert(o.b[o.i] == o.before, "no byte changes");
  if (over) { irv_assert(n >= o.cap - o.pos, "overflow only when it does not fit"); irv_assert(o.len() == 0, "position unchanged"); irv_cover("overflow"); return; }
  irv_assert(o.len() == n && n <= o.cap - o.pos, "inside the buffer"); irv_cover("skipped");
}
extern "C" void h_length(void) { out o; irv_assert(o.sb.length() == o.pos, "length is what has been written"); irv_assert(o.s.offset() == o.pos, "offset is the length"); irv_cover("end"); }
extern "C" void h_ctor(void) { u64 n = irv_size("n"); char *b = irv_buf("out", n); fast_ostreambuf sb(b, n); irv_assert(sb.pbase_ == b && sb.pptr_ == b && sb.epptr_ == b + n && sb.length() == 0, "empty buffer"); irv_cover("end"); }
extern "C" void h_ctor_array(void) { char a[17]; fast_ostreambuf sb(a); irv_assert(sb.pbase_ == a && sb.pptr_ == a && sb.epptr_ == a + 17 && sb.length() == 0, "empty buffer"); irv_cover("end"); }
// overwriting reserved space (no compaction)
template <class O> static void write_at(O &o) {
  u64 n = irv_size("n"); const char *d = irv_buf("data", n); u64 off = irv_u64("off"), j = irv_u64("j");
  irv_assume(off <= o.pos && n <= o.pos - off); irv_assume((j < n) | (n == 0));
  o.buf().write_bytes_at(d, n, off, false, irv_u64("limit"));
  irv_assert(o.len() == 0, "position unchanged");
  irv_assert(((o.i >= off) & (o.i - off < n)) | (o.at(o.i) == o.before), "bytes outside the overwritten range unchanged");
  if (n > 0) { irv_assert(o.at(off + j) == d[j], "exactly the given bytes"); irv_cover("written"); }
}
struct fixed : out { fast_ostreambuf &buf() { return sb; } char at(u64 k) { return b[k]; } };
extern "C" void h_write_at(void) { fixed o; write_at(o); }
// compaction: overwritten range ends the map [limit, off+n); only zero bytes in front of the stop byte go away
template <class O> static void compact(O &o, u64 n) {
  const char *d = irv_buf("data", n); u64 off = irv_u64("off"), limit = irv_u64("limit");
  irv_assume((limit <= off) & (off <= o.pos)); irv_assume(n <= o.pos - off);
  u64 end = off + n, i = o.i;
  char tail = o.at(i);
  irv_assume(d[n - 1] & 0x80);
  o.buf().write_bytes_at(d, n, off, true, limit);
  u64 cut = 0 - o.len(), nend = end - cut;
  irv_assert(cut < end - limit, "never cuts the whole map");
  char now = o.at(i);
  if (i < limit) irv_assert(now == o.before, "bytes in front of the map are unchanged");
  char bits = i < off ? o.before : d[(i - off) % n];
  if (i >= limit && i < nend) irv_assert((cut == 0 && now == bits) || now == (char)(bits | (i == nend - 1 ? 0x80 : 0)), "map bytes in order");
  if (i >= nend && i < end - 1 && i >= limit) irv_assert(bits == 0, "only zero bytes are dropped");
  if (cut != 0) { irv_assert(d[n - 1] == '\x80', "compacts only an empty last byte"); irv_cover("compacted"); }
  if (i >= end && i < o.pos) irv_assert(o.at(i - cut) == tail, "following bytes are moved unaltered");
  irv_cover("end");
}
#define K(n) extern "C" void h_compact_##n(void) { fixed o; compact(o, n); }
K(1) K(4) K(8)
// ---- growable ------------------------------------------------------------------------------
struct grow {
  u64 size, pos, i; char before; std::vector<char> v; resizable_fast_ostreambuf sb;
  static u64 sz() { u64 s = irv_size("size"); irv_assume(s >= 1); return s; }
  // Inv: pbase_ = &v[0], epptr_ = pbase_ + v.size(), pbase_ <= pptr_ <= epptr_, and v is not empty
  grow() : size(sz()), pos(irv_u64("pos")), i(irv_u64("i")), sb(v) {
    irv_assume((pos <= size) & (i < size));
    u64 spare = irv_size("spare"); char *b = (char *)::operator new(size + spare); memcpy(b, irv_buf("content", size), size);
    v._M_impl._M_start = b; v._M_impl._M_finish = b + size; v._M_impl._M_end_of_storage = b + size + spare;
    sb.pbase_ = b; sb.pptr_ = b + pos; sb.epptr_ = b + size;
    before = b[i];
  }
  fast_ostreambuf &buf() { return sb; }
  char at(u64 k) { return v[k]; }
  u64 len() { return sb.length() - pos; }
  void inv() {
    irv_assert(v.size() >= 1 && sb.pbase_ == &v[0] && sb.epptr_ == sb.pbase_ + v.size(), "the stream writes into the vector");
    irv_assert(sb.pptr_ >= sb.pbase_ && sb.pptr_ <= sb.epptr_, "position inside the vector");
    irv_assert(irv_live(sb.pbase_), "not freed");
  }
  void kept() { if (i < pos) { irv_assert(at(i) == before, "everything written before is kept in order"); irv_cover("kept"); } }
};
extern "C" void h_grow_ctor(void) {
  u64 old = irv_size("old"), i = irv_u64("i"); irv_assume((i < old) | (old == 0));
  std::vector<char> v; char *b = (char *)::operator new(old); memcpy(b, irv_buf("content", old), old); v._M_impl._M_start = b; v._M_impl._M_finish = v._M_impl._M_end_of_storage = b + old;
  char before = old ? b[i] : 0;
  resizable_fast_ostreambuf sb(v);
  irv_assert(v.size() > old && sb.pbase_ == &v[0] && sb.epptr_ == sb.pbase_ + v.size() && sb.length() == old, "appends behind the content of the vector");
  if (old) { irv_assert(v[i] == before, "content is kept"); irv_cover("content"); }
  irv_cover("end");
}
extern "C" void h_grow_overflow(void) {
  grow g; u64 n = irv_size("n"); irv_assume(g.pos + n >= 1);
  g.sb.overflow(n); g.inv(); g.kept(); irv_assert(g.len() == 0, "position unchanged"); irv_assert(g.v.size() > g.pos + n, "makes room"); irv_cover("end");
}
extern "C" void h_grow_putc(void) { grow g; char c = (char)irv_u8("c"); g.sb.sputc(c); g.inv(); g.kept(); irv_assert(g.len() == 1 && g.at(g.pos) == c, "appended"); irv_cover("end"); }
extern "C" void h_grow_putn(void) {
  grow g; u64 n = irv_size("n"); const char *d = irv_buf("data", n); u64 j = irv_u64("j"); irv_assume((j < n) | (n == 0));
  g.sb.sputn(d, n); g.inv(); g.kept(); irv_assert(g.len() == n, "all appended");
  if (n > 0) { irv_assert(g.at(g.pos + j) == d[j], "exactly the given bytes"); irv_cover("appended"); }
}
extern "C" void h_grow_skip(void) { grow g; u64 n = irv_size("n"); g.sb.skip(n); g.inv(); g.kept(); irv_assert(g.len() == n, "reserved"); irv_cover("end"); }
extern "C" void h_grow_write_at(void) { grow g; write_at(g); g.inv(); }
extern "C" void h_grow_compact(void) { grow g; compact(g, 8); g.inv(); }
