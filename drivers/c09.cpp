// C09 (and C11) for integers and decimals: encode a field, decode the result from an equal dictionary entry.
#include "op.h"
#include "enc.h"
#include "mfast/coder/encoder/encoder_field_operator.h"
#include "mfast/coder/decoder/decoder_field_operator.h"
#ifndef ENCODE
#define ENCODE_SPLIT(cref, s, pm, einit, minit) ENCODE(cref, s, pm, einit)
#define ENCODE(cref, s, pm, init) encoder_operators[op]->encode(cref, s, pm)
#endif
#ifdef V2
enum { is_v2 = true };
#else
enum { is_v2 = false };
#endif
static bool keyed(operator_enum_t op) { return op == operator_delta || op >= operator_copy; }   // the others have no dictionary entry
template <class T> static void integer(operator_enum_t op, bool optional, bool finding = false) {
  const bool has_init = irv_concretize(irv_bool("hasinit")); const T init = has_init ? (T)irv_u64("init") : 0;
  irv_assume(has_init | (op != operator_constant)); irv_assume(has_init | optional | (op != operator_default));   // static errors S3, S5
  malloc_allocator al;
  int_field_instruction<T> einst(op, optional ? presence_optional : presence_mandatory, 7, "f", "", nullptr, has_init ? int_value_storage<T>(init) : int_value_storage<T>()), dinst(einst);
  value_storage eprev, dprev, src, dst; any_storage(eprev, "prev", "prevdef", "prevpres"); any_storage(dprev, "prev2", "prevdef2", "prevpres2"); any_storage(dst, "old", "olddef", "oldpres"); any_storage(src, "value", "valuedef", "valuepres");
  irv_assume((state_of(eprev) == state_of(dprev)) & ((state_of(eprev) != assigned_state) | (eprev.get<T>() == dprev.get<T>())));
  irv_assume(optional | src.of_uint64.present_);
  const T v = src.get<T>(); const bool present = src.of_uint64.present_; const int state = state_of(eprev);
  if (op == operator_constant) irv_assume(!present | (v == init));
  if (is_v2 && op == operator_default && optional) irv_assume((has_init & !present) == finding);             // known finding
  einst.prev_value_ = &eprev; dinst.prev_value_ = &dprev;
  channel ch(&al);
  bool eerr = false, derr = false;
  try { ENCODE(int_cref<T>(&src, &einst), ch.os, ch.epm, has_init); } catch (fast_dynamic_error &) { eerr = true; }
  if (eerr) { irv_assert((!optional || op == operator_delta) && state == empty_state && keyed(op), "a representable value is encoded"); irv_cover("refused"); return; }
  if (op == operator_delta && state == empty_state) irv_assume(!present);   // D6 by both sides
  ch.turn();
  int_mref<T> mref(nullptr, &dst, &dinst);
  try { decoder_operators[op]->decode(mref, ch.is, ch.dpm); } catch (fast_dynamic_error &) { derr = true; }
  irv_assert(!derr, "what was encoded can be decoded");
  irv_assert(ch.all_used(), "both sides use the same presence bits and wire values");
  int_cref<T> c(&dst, &dinst);
  irv_assert(c.present() == present, "presence");
  irv_assert(!present | (c.value() == v), "value"); irv_cover(present ? "present" : "absent");
  if (keyed(op)) {
    irv_assert(state_of(eprev) == state_of(dprev), "same state of the dictionary entries");
    irv_assert((state_of(eprev) != assigned_state) | (eprev.get<T>() == dprev.get<T>()), "same value of the dictionary entries");
  }
}
#define I(nm, T, opn, op) extern "C" void h_##nm##_##opn##_m(void) { integer<T>(op, false); } extern "C" void h_##nm##_##opn##_o(void) { integer<T>(op, true); }
#define OPS(nm, T) I(nm, T, none, operator_none) I(nm, T, const, operator_constant) I(nm, T, delta, operator_delta) I(nm, T, default, operator_default) I(nm, T, copy, operator_copy) I(nm, T, inc, operator_increment)
OPS(i32, int32_t) OPS(u32, uint32_t) OPS(i64, int64_t) OPS(u64, uint64_t)
// ---- decimals ----------------------------------------------------------------------------------
static void dictionaries(value_storage &e, value_storage &d, bool is_exp) {
  irv_assume((state_of(e) == state_of(d)) & ((state_of(e) != assigned_state) | ((e.of_decimal.exponent_ == d.of_decimal.exponent_) & (is_exp | (e.of_decimal.mantissa_ == d.of_decimal.mantissa_)))));
}
static void same_dictionaries(value_storage &e, value_storage &d, bool is_exp) {
  irv_assert(state_of(e) == state_of(d), "same state of the dictionary entries");
  irv_assert((state_of(e) != assigned_state) | ((e.of_decimal.exponent_ == d.of_decimal.exponent_) & (is_exp | (e.of_decimal.mantissa_ == d.of_decimal.mantissa_))), "same value of the dictionary entries");
}
static bool sane(int16_t e) { return (e >= -63) & (e <= 63); }                // FAST 1.1: the range of exponents
static void one_dec(operator_enum_t op, bool optional, bool finding = false) {
  const bool has_init = irv_concretize(irv_bool("hasinit")); dec init{0, 0}; if (has_init) init = dec{(int64_t)irv_u64("initm"), (int16_t)irv_u16("inite")};
  irv_assume(has_init | (op != operator_constant)); irv_assume(has_init | optional | (op != operator_default));
  malloc_allocator al;
  decimal_field_instruction einst(op, optional ? presence_optional : presence_mandatory, 7, "f", "", nullptr, has_init ? decimal_value_storage(init.m, init.e) : decimal_value_storage()), dinst(einst);
  value_storage eprev, dprev, src, dst; any_decimal(eprev, "prevm", "preve", "prevdef", "prevpres"); any_decimal(dprev, "prevm2", "preve2", "prevdef2", "prevpres2"); any_decimal(src, "m", "e", "valdef", "valpres"); any_decimal(dst, "oldm", "olde", "olddef", "oldpres");
  dictionaries(eprev, dprev, false); irv_assume(optional | src.of_decimal.present_);
  const dec v = dec_of(src); const bool present = src.of_decimal.present_; const int state = state_of(eprev);
  irv_assume(sane(init.e) & (!present | sane(v.e)) & ((state != assigned_state) | sane(exp_of(eprev))));
  if (op == operator_constant) irv_assume(!present | (v == init));
  if (op == operator_delta) { const dec base = state == assigned_state ? dec_of(eprev) : init; irv_assume(!present | (fits<int16_t>((i128)v.e - base.e) & fits<int64_t>((i128)v.m - base.m))); }
  if (is_v2 && op == operator_default && optional) irv_assume((has_init & !present) == finding);
  einst.prev_value_ = &eprev; dinst.prev_value_ = &dprev;
  channel ch(&al); bool eerr = false, derr = false;
  try { ENCODE(decimal_cref(&src, &einst), ch.os, ch.epm, has_init); } catch (fast_dynamic_error &) { eerr = true; }
  if (eerr) { irv_assert((!optional || op == operator_delta) && state == empty_state && keyed(op), "a representable value is encoded"); irv_cover("refused"); return; }
  if (op == operator_delta && state == empty_state) irv_assume(!present);
  ch.turn();
  decimal_mref mref(nullptr, &dst, &dinst);
  try { decoder_operators[op]->decode(mref, ch.is, ch.dpm); } catch (fast_dynamic_error &) { derr = true; }
  irv_assert(!derr, "what was encoded can be decoded");
  irv_assert(ch.all_used(), "both sides use the same presence bits and wire values");
  decimal_cref c(&dst, &dinst);
  irv_assert(c.present() == present, "presence");
  irv_assert(!present | ((c.mantissa() == v.m) & (c.exponent() == v.e)), "value"); irv_cover(present ? "present" : "absent");
  if (keyed(op)) same_dictionaries(eprev, dprev, false);
}
#define D(opn, op) extern "C" void h_dec_##opn##_m(void) { one_dec(op, false); } extern "C" void h_dec_##opn##_o(void) { one_dec(op, true); }
D(none, operator_none) D(const, operator_constant) D(delta, operator_delta) D(default, operator_default) D(copy, operator_copy)
static void split(operator_enum_t eop, operator_enum_t mop, bool optional) {
  const operator_enum_t op = eop;
  const bool has_e = irv_concretize(irv_bool("hasinite")), has_m = irv_concretize(irv_bool("hasinitm")); const int16_t ei = has_e ? irv_u16("inite") : 0; const int64_t mi = has_m ? irv_u64("initm") : 0;
  irv_assume(has_e | (eop != operator_constant)); irv_assume(has_e | optional | (eop != operator_default)); irv_assume(has_m | ((mop != operator_constant) & (mop != operator_default)));
  malloc_allocator al;
  mantissa_field_instruction em(mop, nullptr, has_m ? int_value_storage<int64_t>(mi) : int_value_storage<int64_t>()), dm(mop, nullptr, has_m ? int_value_storage<int64_t>(mi) : int_value_storage<int64_t>());
  decimal_field_instruction einst(eop, optional ? presence_optional : presence_mandatory, 7, "f", "", nullptr, &em, has_e ? decimal_value_storage(0, ei) : decimal_value_storage());
  decimal_field_instruction dinst(eop, optional ? presence_optional : presence_mandatory, 7, "f", "", nullptr, &dm, has_e ? decimal_value_storage(0, ei) : decimal_value_storage());
  value_storage ee, de, me, md, src, dst;
  any_decimal(ee, "eprevm", "epreve", "eprevdef", "eprevpres"); any_decimal(de, "eprevm2", "epreve2", "eprevdef2", "eprevpres2"); any_storage(me, "mprev", "mprevdef", "mprevpres"); any_storage(md, "mprev2", "mprevdef2", "mprevpres2");
  any_decimal(src, "m", "e", "valdef", "valpres"); any_decimal(dst, "oldm", "olde", "olddef", "oldpres");
  dictionaries(ee, de, true); irv_assume((state_of(me) == state_of(md)) & ((state_of(me) != assigned_state) | (me.get<int64_t>() == md.get<int64_t>())));
  irv_assume(optional | src.of_decimal.present_);
  const dec v = dec_of(src); const bool present = src.of_decimal.present_; const int es = state_of(ee), ms = state_of(me);
  irv_assume(sane(ei) & (!present | sane(v.e)) & ((es != assigned_state) | sane(exp_of(ee))));
  if (eop == operator_constant) irv_assume(!present | (v.e == ei));
  if (mop == operator_constant) irv_assume(!present | (v.m == mi));
  if (is_v2 && eop == operator_default && optional) irv_assume(!has_e | present);
  einst.prev_value_ = &ee; em.prev_value_ = &me; dinst.prev_value_ = &de; dm.prev_value_ = &md;
  channel ch(&al); bool eerr = false, derr = false;
  try { ENCODE_SPLIT(decimal_cref(&src, &einst), ch.os, ch.epm, has_e, has_m); } catch (fast_dynamic_error &) { eerr = true; }
  if (eerr) { irv_assert(((!optional || eop == operator_delta) && es == empty_state && keyed(eop)) || (ms == empty_state && keyed(mop)), "a representable value is encoded"); irv_cover("refused"); return; }
  if (eop == operator_delta && es == empty_state) irv_assume(!present);
  if (mop == operator_delta && ms == empty_state) irv_assume(!present);
  ch.turn();
  decimal_mref mref(nullptr, &dst, &dinst);
  try { decoder_operators[op]->decode(mref, ch.is, ch.dpm); } catch (fast_dynamic_error &) { derr = true; }
  irv_assert(!derr, "what was encoded can be decoded");
  irv_assert(ch.all_used(), "both sides use the same presence bits and wire values");
  decimal_cref c(&dst, &dinst);
  irv_assert(c.present() == present, "presence");
  irv_assert(!present | ((c.mantissa() == v.m) & (c.exponent() == v.e)), "value"); irv_cover(present ? "present" : "absent");
  if (keyed(eop)) same_dictionaries(ee, de, true);
  if (keyed(mop)) { irv_assert(state_of(me) == state_of(md), "same state of the dictionary entries"); irv_assert((state_of(me) != assigned_state) | (me.get<int64_t>() == md.get<int64_t>()), "same value of the dictionary entries"); }
}
#define X1(en, eop, mn, mop) extern "C" void h_split_##en##_##mn##_m(void) { split(eop, mop, false); } extern "C" void h_split_##en##_##mn##_o(void) { split(eop, mop, true); }
#define X(en, eop) X1(en, eop, none, operator_none) X1(en, eop, const, operator_constant) X1(en, eop, delta, operator_delta) X1(en, eop, default, operator_default) X1(en, eop, copy, operator_copy) X1(en, eop, inc, operator_increment)
X(none, operator_none) X(const, operator_constant) X(delta, operator_delta) X(default, operator_default) X(copy, operator_copy)
#ifdef V2
extern "C" void h_known_default_int(void) { integer<int32_t>(operator_default, true, true); }
extern "C" void h_known_default_dec(void) { one_dec(operator_default, true, true); }
#endif
