// FAST 1.1 operator rules for integer-like fields, written from the specification (oracle).
#pragma once
#include "spec.h"
#include "op2.h"
#include "mfast/malloc_allocator.h"
#include "mfast/int_ref.h"
#include "mfast/decimal_ref.h"
#include "mfast/coder/decoder/fast_istream.h"
using namespace mfast;
typedef uint64_t u64;
inline uint64_t irv_size(const char *name);
enum { undefined_state, empty_state, assigned_state };
template <class V> struct dict { int state; V v; };                 // a dictionary entry
// what one field instruction does with one presence bit / wire value
template <class V> struct result { int err; bool present; V v; bool bit_used, wire_used; bool dict_given; dict<V> d; };
template <class V> struct fieldspec { operator_enum_t op; bool optional, has_init; V init; };
template <class V> inline bool uses_bit(const fieldspec<V> &f) { return f.op > operator_delta || (f.op == operator_constant && f.optional); }
// presence bit `bit`, wire item: NULL or a value.  zero: default base value.  A(b, w): delta applied to a base value; inc(v)
template <class V, class W, class OPS> result<V> rules(const fieldspec<V> &f, const dict<V> &d, bool bit, bool null, const W &w) {
  result<V> r; r.err = 0; r.present = true; r.v = f.init; r.bit_used = uses_bit(f); r.wire_used = false; r.dict_given = true; r.d = d;
  switch (f.op) {
  case operator_none: r.wire_used = true; r.present = !null; r.v = OPS::full(w); r.dict_given = false; return r;
  case operator_constant: r.present = !f.optional || bit; r.v = f.init; r.dict_given = false; return r;
  case operator_default:
    if (bit) { r.wire_used = true; r.present = !null; r.v = OPS::full(w); }
    else { r.present = f.has_init; r.v = f.init; }
    r.dict_given = false; return r;
  case operator_copy: case operator_increment:
    if (bit) { r.wire_used = true; r.present = !null; r.v = OPS::full(w); }
    else if (d.state == undefined_state) { if (!f.optional && !f.has_init) { r.err = 5; return r; } r.present = f.has_init; r.v = f.init; }
    else if (d.state == empty_state) { if (!f.optional) { r.err = 6; return r; } r.present = false; }
    else r.v = f.op == operator_increment ? OPS::next(d.v) : d.v;
    break;
  case operator_delta:
    r.wire_used = true; r.present = !null;
    if (null) return r;                                             // absent; the previous value is unchanged
    if (d.state == empty_state) { r.err = 6; return r; }
    r.v = OPS::add(d.state == assigned_state ? d.v : f.has_init ? f.init : OPS::zero(), w);
    break;
  default: break;
  }
  r.d.state = r.present ? assigned_state : empty_state; r.d.v = r.v;
  return r;
}
template <class T> struct int_ops {
  static T full(i128 w) { return (T)w; }
  static T next(T v) { return (T)((u64)v + 1); }                    // the largest value is followed by the smallest
  static T zero() { return 0; }
  static T add(T b, i128 w) { return (T)((i128)b + w); }
};
template <class T> struct limits { static constexpr i128 lo = std::is_signed<T>::value ? -((i128)1 << (8 * sizeof(T) - 1)) : 0, hi = (((i128)1 << (8 * sizeof(T) - std::is_signed<T>::value)) - 1); };
template <class T> inline bool fits(i128 v) { return v >= limits<T>::lo && v <= limits<T>::hi; }
// value storage of an integer field or dictionary entry in an arbitrary state
inline void any_storage(value_storage &s, const char *c, const char *d, const char *p) { s.of_uint64.content_ = irv_u64(c); s.of_uint64.defined_bit_ = irv_bool(d); s.of_uint64.present_ = irv_bool(p); s.of_uint64.padding_ = 0; }
inline int state_of(const value_storage &s) { return !s.of_uint64.defined_bit_ ? undefined_state : s.of_uint64.present_ ? assigned_state : empty_state; }
// ---- decimals --------------------------------------------------------------------------------
struct dec { int64_t m; int16_t e; bool operator==(const dec &o) const { return (m == o.m) & (e == o.e); } };
struct wdec { i128 e, m; };
struct dec_ops {
  static dec full(const wdec &w) { return dec{(int64_t)w.m, (int16_t)w.e}; }
  static dec next(dec v) { return v; }
  static dec zero() { return dec{0, 0}; }
  static dec add(dec b, const wdec &w) { return dec{(int64_t)(b.m + w.m), (int16_t)(b.e + w.e)}; }
};
inline void any_decimal(value_storage &s, const char *m, const char *e, const char *d, const char *p) {
  s.of_decimal.mantissa_ = irv_u64(m); s.of_decimal.exponent_ = irv_u16(e); s.of_decimal.padding2_ = 0; s.of_decimal.defined_bit_ = irv_bool(d); s.of_decimal.present_ = irv_bool(p);
}
inline dec dec_of(const value_storage &s) { return dec{s.of_decimal.mantissa_, s.of_decimal.exponent_}; }
inline int16_t exp_of(const value_storage &s) { return s.of_decimal.exponent_; }
