// C03: ASCII string entities.
#include "spec.h"
#include "out.h"
#include "mfast/malloc_allocator.h"
#include "mfast/coder/decoder/fast_istream.h"
#include "mfast/coder/decoder/fast_istream_extractor.h"
using namespace mfast;
static const ascii_field_instruction *const ascii_tag = nullptr;

// decoding of arbitrary input
template <class Nullable> static void dec(Nullable nullable) {
  uint64_t n = irv_u64("n"); irv_assume(n <= 0xffffffffu);      // an entity longer than its uint32 length cannot be represented
  const char *b = irv_buf("in", n);
  fast_istreambuf sb(b, n); fast_istream s(&sb);
  uint64_t e = spec_stop(b, n);
  const char *p = nullptr; uint32_t len = irv_u32("oldlen");
  bool ok = false, err = false;
  try { ok = s.decode(p, len, ascii_tag, nullable); } catch (fast_dynamic_error &) { err = true; }
  irv_assert(sb.gptr_ >= b && sb.gptr_ <= b + n, "read position stays inside the input");
  if (e == 0) { irv_assert(err, "unterminated entity is an error"); irv_cover("unterminated"); return; }
  bool zero = (b[0] & 0x7f) == 0;
  bool isnull = false, bad = false; uint64_t want = e;
  if (zero) {
    if (e == 1) { isnull = nullable; want = 0; }
    else if (nullable) { if (e == 2) { bad = (unsigned char)b[1] != 0x80; want = 0; } else { bad = e != 3 || b[1] != 0 || (unsigned char)b[2] != 0x80; want = 1; } }
    else { bad = e != 2 || (unsigned char)b[1] != 0x80; want = 1; }
  }
  irv_assert(err == bad, "error exactly for a malformed preamble");
  if (err) { irv_cover("malformed"); return; }
  irv_assert(sb.gptr_ == b + e, "consumes exactly the entity");
  irv_assert(ok == !isnull, "NULL exactly for the NULL entity");
  if (isnull) { irv_cover("null"); return; }
  irv_assert(len == want, "string length");
  if (!zero) { irv_assert(p == b, "the characters are the entity's bytes"); irv_cover("string"); }
  else if (want == 1) { irv_assert(p == b, "the string is the leading NUL character"); irv_cover("nul"); }
  else irv_cover("empty");
}
extern "C" void h_decode(void) { dec(false); }
extern "C" void h_decode_nullable(void) { dec(true); }
extern "C" void h_decode_v2(void) { dec(std::false_type()); }
extern "C" void h_decode_v2_nullable(void) { dec(std::true_type()); }

// encoding of an arbitrary string: exactly the entity, frame, overflow
static void enc(bool nullable) {
  out o; uint64_t len = irv_u64("len"); irv_assume(len <= 0xffffffffu);
  const char *t = irv_buf("text", len);
  bool null = nullable && irv_bool("null");
  uint64_t j = irv_u64("j");                                     // an arbitrary character
  if (len > 0) { irv_assume(j < len); irv_assume(!(t[j] & 0x80)); irv_assume(!(t[len - 1] & 0x80)); irv_assume(len == 1 || t[0] != 0); }
  bool over = false;
  try { o.s.encode(null ? nullptr : t, (uint32_t)len, ascii_tag, nullable); } catch (buffer_overflow_error &) { over = true; }
  if (over) { irv_assert(o.cap - o.pos <= len + 3, "overflow only when the entity may not fit"); o.prefix(); irv_cover("overflow"); return; }
  const char *p = o.b + o.pos; uint64_t L = o.len();
  o.frame(L);
  if (null) { irv_assert(L == 1 && p[0] == '\x80', "NULL is 0x80"); irv_cover("null"); return; }
  if (len == 0) { irv_assert(nullable ? (L == 2 && p[0] == 0 && p[1] == '\x80') : (L == 1 && p[0] == '\x80'), "empty string"); irv_cover("empty"); return; }
  if (len == 1 && t[0] == 0) { irv_assert(nullable ? (L == 3 && p[0] == 0 && p[1] == 0 && p[2] == '\x80') : (L == 2 && p[0] == 0 && p[1] == '\x80'), "NUL string"); irv_cover("nul"); return; }
  irv_assert(L == len, "one byte per character");
  irv_assert((unsigned char)p[j] == (unsigned char)(t[j] | (j == len - 1 ? 0x80 : 0)), "characters in order, stop bit on the last only");
  irv_cover("string");
}
extern "C" void h_encode(void) { enc(false); }
extern "C" void h_encode_nullable(void) { enc(true); }

// the whole way into and out of a string field, any 7-bit string that is not NUL-leading
static void field(bool nullable) {
  uint64_t len = irv_u64("len"); irv_assume(len >= 1 && len <= ((uint64_t)1 << 28));
  char *w = irv_buf("wire", len);
  irv_assume((w[0] & 0x7f) != 0);
  uint64_t e = spec_stop(w, len); irv_assume(e == len);
  ascii_field_instruction inst(operator_none, nullable ? presence_optional : presence_mandatory, 1, "f", "", nullptr, string_value_storage());
  fast_istreambuf sb(w, len); fast_istream s(&sb);
  value_storage st; inst.construct_value(st, malloc_allocator::instance());
  ascii_string_mref m(malloc_allocator::instance(), &st, &inst);
  s >> m;
  ascii_string_cref c(&st, &inst);
  irv_assert(c.present(), "present"); irv_assert(c.size() == len, "size");
  uint64_t j = irv_u64("j"); irv_assume(j < len);
  irv_assert(c[j] == (w[j] & 0x7f), "field holds exactly the 7-bit characters");
  inst.destruct_value(st, malloc_allocator::instance());
  irv_cover("end");
}
extern "C" void h_field(void) { field(false); }
extern "C" void h_field_nullable(void) { field(true); }
