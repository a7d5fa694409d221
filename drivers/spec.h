// Specification functions, written from the FAST 1.1 rules.  Natively they are executable; in the
// verifier the scanning functions are *defined* recursively (uninterpreted + unfolding), see specs.py.
#pragma once
#include "irv.h"
typedef __int128 i128;
struct spec_int { bool terminated; bool big; uint64_t len; i128 value; };
#ifdef IRV_NATIVE
inline void spec_scan_int(const char *b, uint64_t n, bool sgn, spec_int *r) {
  r->terminated = false; r->big = false; r->len = 0; r->value = 0;
  const i128 lim = (i128)1 << 70;
  for (uint64_t i = 0; i < n; ++i) {
    unsigned g = (unsigned char)b[i] & 0x7f;
    if (i == 0) r->value = (sgn && (g & 0x40)) ? (i128)g - 128 : (i128)g;
    else { if (r->value >= lim || r->value < -lim) r->big = true; if (!r->big) r->value = r->value * 128 + g; }
    if ((unsigned char)b[i] & 0x80) { r->terminated = true; r->len = i + 1; return; }
  }
}
#else
extern "C" void spec_scan_int_(const char *b, uint64_t n, bool sgn, spec_int *r);
inline void spec_scan_int(const char *b, uint64_t n, bool sgn, spec_int *r) { spec_scan_int_(b, n, sgn, r); }
#endif

// length of the stop-bit terminated entity at b, 0 if it is not terminated within n bytes
#ifdef IRV_NATIVE
inline uint64_t spec_stop(const char *b, uint64_t n) {
  for (uint64_t i = 0; i < n; ++i) if ((unsigned char)b[i] & 0x80) return i + 1;
  return 0;
}
#else
extern "C" uint64_t spec_stop_(const char *b, uint64_t n);
inline uint64_t spec_stop(const char *b, uint64_t n) { return spec_stop_(b, n); }
#endif
