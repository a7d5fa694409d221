// an output stream positioned anywhere in a buffer of any capacity; one arbitrary byte is watched (ghost)
#pragma once
#include "irv.h"
inline uint64_t irv_size(const char *name) { uint64_t n = irv_u64(name); irv_assume(n < ((uint64_t)1 << 40)); return n; }
#include "mfast/coder/encoder/fast_ostream.h"
#include "mfast/coder/encoder/fast_ostream_inserter.h"
struct out {
  uint64_t cap, pos; char *b; uint64_t i; char before;
  mfast::fast_ostreambuf sb; mfast::fast_ostream s;
  out() : cap(irv_size("cap")), pos(irv_u64("pos")), b(irv_buf("out", cap + 1)), sb(b, cap), s(nullptr) {   // b[cap] is a guard byte
    irv_assume(pos <= cap);
    sb.pptr_ = b + pos; s.rdbuf(&sb);
    i = irv_u64("i"); irv_assume(i <= cap); before = b[i];
  }
  uint64_t len() { return (sb.pptr_ - b) - pos; }
  void frame(uint64_t n) { irv_assert(((i >= pos) & (i - pos < n)) | (b[i] == before), "bytes outside the entity unchanged"); }
  void prefix() { irv_assert((i >= pos) | (b[i] == before), "bytes already written unchanged on overflow"); }
};
