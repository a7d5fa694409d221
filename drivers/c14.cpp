// C14: scalar field references read back exactly what was written, in any prior state of the field.
#include "irv.h"
#include "mfast/int_ref.h"
#include "mfast/decimal_ref.h"
#include "mfast/enum_ref.h"
#include "mfast/boolean_ref.h"
#include "mfast/set_ref.h"
using namespace mfast;
typedef uint64_t u64;
static const char *names[] = {"a", "b", "c"}; static const uint64_t vals[] = {7, 9, 0xffffffffffffffffull};
template <class T> struct I { typedef T val; typedef int_mref<T> mref; typedef int_cref<T> cref; typedef int_field_instruction<T> inst;
  static inst make(bool o, bool has, T v) { return inst(operator_none, o ? presence_optional : presence_mandatory, 1, "f", "", nullptr, has ? int_value_storage<T>(v) : int_value_storage<T>()); } };
struct E { typedef u64 val; typedef enum_mref mref; typedef enum_cref cref; typedef enum_field_instruction inst;
  static inst make(bool o, bool has, u64 v) { return inst(operator_none, o ? presence_optional : presence_mandatory, 1, "f", "", nullptr, has ? int_value_storage<uint64_t>(v) : int_value_storage<uint64_t>(), names, vals, 3, nullptr, ""); } };
struct S { typedef u64 val; typedef set_mref mref; typedef set_cref cref; typedef set_field_instruction inst;
  static inst make(bool o, bool has, u64 v) { return inst(operator_none, o ? presence_optional : presence_mandatory, 1, "f", "", nullptr, has ? int_value_storage<uint64_t>(v) : int_value_storage<uint64_t>(), names, 3, nullptr, ""); } };
static void any(value_storage &st) { st.of_uint64.present_ = irv_bool("was_present"); st.of_uint64.padding_ = irv_u32("was_padding"); st.of_uint64.defined_bit_ = irv_bool("was_defined"); st.of_uint64.content_ = irv_u64("was"); }
template <class K> struct fld { typedef typename K::val T; bool opt, has; T iv; typename K::inst in; value_storage st; bool was_present; T was;
  fld() : opt(irv_bool("optional")), has(irv_bool("has_initial")), iv((T)irv_u64("initial")), in(K::make(opt, has, iv)) { any(st); was_present = st.of_uint64.present_ || !opt; was = (T)st.of_uint64.content_; }
  typename K::mref ref() { return typename K::mref(nullptr, &st, &in); } typename K::cref cref() { return typename K::cref(&st, &in); }
  void is(T v) { irv_assert(ref().present() & cref().present(), "present"); irv_assert((T)ref().value() == v && (T)cref().value() == v, "reads back the value"); irv_cover("value"); }
  void gone() { if (opt) { irv_assert(ref().absent() & cref().absent(), "absent"); irv_cover("absent"); } else irv_assert(ref().present() & cref().present(), "a mandatory field is always present"); } };
template <class K> static void set() { typedef typename K::val T; fld<K> f; T v = (T)irv_u64("v"); f.ref().as(v); f.is(v); }
template <class K> static void omit() { fld<K> f; bool clear = irv_bool("clear"); if (clear) f.ref().clear(); else f.ref().omit(); f.gone(); if (!f.opt) f.is(f.was); }
template <class K> static void initial() { fld<K> f; f.ref().to_initial_value(); if (f.has) { f.is(f.iv); irv_assert(f.cref().is_initial_value(), "is the initial value"); } else f.gone(); }
template <class K> static void is_initial() { fld<K> f; if (!f.has || f.opt) { bool want = (f.was_present == f.has) && (!f.was_present || f.was == f.iv); if (f.has || f.opt) irv_assert(f.cref().is_initial_value() == want, "tells whether the field has its initial value"); irv_cover("end"); } }
template <class K> static void copy() { typedef typename K::val T; fld<K> f; bool o = irv_bool("o_optional"); auto in = K::make(o, false, 0); value_storage st; st.of_uint64.present_ = irv_bool("o_present"); st.of_uint64.defined_bit_ = 1; st.of_uint64.content_ = irv_u64("o");
  typename K::cref c(&st, &in); f.ref().as(c); if (c.present()) f.is((T)st.of_uint64.content_); else f.gone(); }
template <class K> static void compare() { typedef typename K::val T; fld<K> f; bool o = irv_bool("o_optional"); auto in = K::make(o, false, 0); value_storage st; st.of_uint64.present_ = irv_bool("o_present"); st.of_uint64.defined_bit_ = 1; st.of_uint64.content_ = irv_u64("o");
  typename K::cref c(&st, &in), d = f.cref(); bool same = (f.was_present == c.present()) && (!c.present() || f.was == (T)st.of_uint64.content_);
  irv_assert((d == c) == same && (c == d) == same, "equal exactly when both absent or equal values"); irv_assert((d != c) == !same, "unequal is the opposite"); if (same) irv_cover("equal"); else irv_cover("unequal"); }
#define ALL(K, n) extern "C" void h_set_##n() { set<K>(); } extern "C" void h_omit_##n() { omit<K>(); } extern "C" void h_initial_##n() { initial<K>(); } extern "C" void h_isinitial_##n() { is_initial<K>(); } extern "C" void h_copy_##n() { copy<K>(); } extern "C" void k_compare_##n() { compare<K>(); }
ALL(I<int32_t>, i32) ALL(I<uint32_t>, u32) ALL(I<int64_t>, i64) ALL(I<uint64_t>, u64) ALL(E, enum) ALL(S, set)
extern "C" void h_boolean() { value_storage st; any(st); bool v = irv_bool("v"), how = irv_bool("how"); boolean_mref m(nullptr, &st, boolean::instruction()); boolean_cref c(&st, boolean::instruction());
  if (how) m.as(v); else if (v) m.as_true(); else m.as_false(); irv_assert(m.present() && c.present() && m.value() == v && c.value() == v && c.is_true() == v && c.is_false() == !v, "reads back the value"); irv_assert(c.is_boolean(), "is boolean"); irv_cover("value"); }
extern "C" void h_enum_name() { fld<E> f; int i = irv_u8("i") % 3; bool other = irv_bool("other"); u64 v = irv_u64("v"); if (other) { irv_assume(v != 7 && v != 9 && v != ~(u64)0); } else v = vals[i]; f.ref().as(v); const char *n = f.cref().value_name(); if (other) irv_assert(n == nullptr, "no name for other values"); else { irv_assert(n == names[i], "the name of the value"); irv_cover("named"); } }
// ---- decimals: value is the pair (mantissa, exponent) ------------------------------------------
struct dec { bool opt, has; int64_t im; int16_t ie; decimal_field_instruction in; value_storage st; bool was_present; int64_t m; int16_t e;
  dec() : opt(irv_bool("optional")), has(irv_bool("has_initial")), im(irv_u64("im")), ie(irv_u16("ie")), in(operator_none, opt ? presence_optional : presence_mandatory, 1, "f", "", nullptr, has ? decimal_value_storage(im, ie) : decimal_value_storage()) {
    st.of_decimal.present_ = irv_bool("was_present"); st.of_decimal.padding2_ = irv_u16("was_padding"); st.of_decimal.defined_bit_ = irv_bool("was_defined"); m = st.of_decimal.mantissa_ = irv_u64("wm"); e = st.of_decimal.exponent_ = irv_u16("we"); was_present = st.of_decimal.present_ || !opt; }
  decimal_mref ref() { return decimal_mref(nullptr, &st, &in); } decimal_cref cref() { return decimal_cref(&st, &in); }
  void is(int64_t a, int16_t b) { irv_assert(ref().present() & cref().present(), "present"); irv_assert(ref().mantissa() == a && cref().mantissa() == a && ref().exponent() == b && cref().exponent() == b, "reads back the value"); irv_assert(cref().get_exponent().value() == b && cref().get_mantissa().value() == a, "and its parts"); irv_cover("value"); }
  void gone() { if (opt) { irv_assert(ref().absent() & cref().absent(), "absent"); irv_cover("absent"); } else irv_assert(ref().present() & cref().present(), "a mandatory field is always present"); } };
extern "C" void h_dec_set() { dec f; int64_t a = irv_u64("a"); int16_t b = (int16_t)(irv_u8("b") % 129) - 64; f.ref().as(a, b); f.is(a, b); }
extern "C" void h_dec_parts() { dec f; int64_t a = irv_u64("a"); int16_t b = irv_u16("b"); int how = irv_u8("how") & 7; bool viaref = how & 1;
  if (how & 2) { if (viaref) f.ref().set_mantissa().as(a); else f.ref().set_mantissa(a); f.is(a, f.e); }
  else { if (viaref) f.ref().set_exponent().as(b); else f.ref().set_exponent(b); f.is(f.m, b); } }
extern "C" void h_dec_omit() { dec f; bool clear = irv_bool("clear"); if (clear) f.ref().clear(); else f.ref().omit(); f.gone(); if (!f.opt) f.is(f.m, f.e); }
extern "C" void h_dec_initial() { dec f; f.ref().to_initial_value(); if (f.has) { f.is(f.im, f.ie); irv_assert(f.cref().is_initial_value(), "is the initial value"); } else f.gone(); }
extern "C" void h_dec_copy() { dec f; bool o = irv_bool("o_optional"); decimal_field_instruction in(operator_none, o ? presence_optional : presence_mandatory, 1, "f", "", nullptr, decimal_value_storage()); value_storage st = decimal_value_storage(irv_u64("a"), (int16_t)(irv_u8("b") % 129) - 64).storage_; st.of_decimal.present_ = irv_bool("o_present");
  decimal_cref c(&st, &in); f.ref().as(c); if (c.present()) f.is(st.of_decimal.mantissa_, st.of_decimal.exponent_); else f.gone(); }
extern "C" void k_compare_dec() { dec f; bool o = irv_bool("o_optional"); decimal_field_instruction in(operator_none, o ? presence_optional : presence_mandatory, 1, "f", "", nullptr, decimal_value_storage()); value_storage st = decimal_value_storage(irv_u64("a"), irv_u16("b")).storage_; st.of_decimal.present_ = irv_bool("o_present");
  decimal_cref c(&st, &in), d = f.cref(); bool same = f.was_present == c.present() && (!c.present() || (f.m == st.of_decimal.mantissa_ && f.e == st.of_decimal.exponent_));
  irv_assert((d == c) == same && (c == d) == same, "equal exactly when both absent or equal values"); irv_assert((d != c) == !same, "unequal is the opposite"); if (same) irv_cover("equal"); else irv_cover("unequal"); }
// normalising keeps the number: mantissa d * 10^k (bounded: |d| < 100, k <= 4)
extern "C" void h_dec_normalize() { dec f; irv_assume(!f.has); int d = (int)(irv_u8("d") % 199) - 99; int k = irv_concretize(irv_u8("k") % 5); int64_t p = 1; for (int i = 0; i < k; ++i) p *= 10; int16_t b = (int16_t)(irv_u8("b") % 100) - 50;
  f.ref().as(d * p, b); f.ref().normalize(); int64_t m = f.st.of_decimal.mantissa_; int e = f.st.of_decimal.exponent_;
  if (d == 0) { irv_assert(m == 0 && e == 0, "zero"); irv_cover("zero"); } else { irv_assert(m % 10 != 0, "no trailing zero"); bool ok = (m == d && e == b + k) || (m * 10 == d && e == b + k + 1); irv_assert(ok, "the same number"); irv_cover("value"); } }
