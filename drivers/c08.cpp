// C08: every integer operator of the table-driven decoder against the FAST 1.1 rules, for all values, dictionary states and inputs.
#include "op.h"
#include "wire.h"
#include "mfast/coder/decoder/decoder_field_operator.h"
inline uint64_t irv_size(const char *name) { uint64_t n = irv_u64(name); irv_assume(n < ((uint64_t)1 << 40)); return n; }
#ifndef DECODE
#define DECODE_SPLIT(mref, s, pm, einit, minit) DECODE(mref, s, pm, einit)
#define DECODE(mref, s, pm, init) decoder_operators[op]->decode(mref, s, pm)
#endif
template <class T> static void integer(operator_enum_t op, bool optional) {
  fieldspec<T> f; f.op = op; f.optional = optional; f.has_init = irv_bool("hasinit"); f.init = f.has_init ? (T)irv_u64("init") : 0;
  irv_assume(f.has_init | (op != operator_constant)); irv_assume(f.has_init | optional | (op != operator_default));   // static errors S3, S5
  int_field_instruction<T> inst(op, optional ? presence_optional : presence_mandatory, 7, "f", "", nullptr, f.has_init ? int_value_storage<T>(f.init) : int_value_storage<T>());
  value_storage prev, storage; any_storage(prev, "prev", "prevdef", "prevpres"); any_storage(storage, "old", "olddef", "oldpres");
  inst.prev_value_ = &prev;
  dict<T> d; d.state = state_of(prev); d.v = prev.get<T>();
  u64 n = irv_size("n"); const char *b = irv_buf("in", n);
  fast_istreambuf sb(b, n); fast_istream s(&sb);
  bits pm;
  typedef typename std::conditional<std::is_signed<T>::value, T, T>::type W;
  spec_int e; bool is_delta = op == operator_delta; spec_scan_int(b, n, is_delta || std::is_signed<T>::value, &e);
  bool nullable = optional && op != operator_constant;
  bool null = nullable && e.value == 0; i128 w = e.value - (nullable && e.value > 0);
  result<T> r = rules<T, i128, int_ops<T>>(f, d, pm.bit(0), null, w);
  if (r.wire_used && e.terminated) {                        // values outside the type are outside the property (R4)
    irv_assume(!e.big);
    if (is_delta) irv_assume(fits<int64_t>(w)); else irv_assume(fits<T>(w));
    if (is_delta && !r.err && !null) irv_assume(fits<T>((i128)(d.state == assigned_state ? d.v : f.init) + w));
  }
  int_mref<T> mref(nullptr, &storage, &inst);
  bool err = false; u64 code = 0;
  try { DECODE(mref, s, pm.pm, f.has_init); } catch (fast_dynamic_error &x) { err = true; code = irv_error_code(&x); }
  irv_assert(pm.used(r.bit_used), "consumes a presence bit exactly when prescribed");
  if (r.wire_used && !e.terminated) { irv_assert(err, "missing wire value is an error"); irv_cover("unterminated"); return; }
  irv_assert(sb.gptr_ == b + (r.wire_used ? e.len : 0), "consumes a wire value exactly when prescribed");
  if (r.err) { irv_assert(err && code == IRV_CODE2('D', '0' + r.err), "reports the prescribed dynamic error"); irv_cover("dynamic error"); return; }
  irv_assert(!err, "no other error");
  int_cref<T> c(&storage, &inst);
  irv_assert(c.present() == r.present, "presence");
  if (r.present) { irv_assert(c.value() == r.v, "value"); irv_cover("present"); } else irv_cover("absent");
  if (r.dict_given) {
    irv_assert(state_of(prev) == r.d.state, "state of the dictionary entry");
    irv_assert((r.d.state != assigned_state) | (prev.get<T>() == r.d.v), "value of the dictionary entry");
  }
}
#define I(nm, T, opn, op) extern "C" void h_##nm##_##opn##_m(void) { integer<T>(op, false); } extern "C" void h_##nm##_##opn##_o(void) { integer<T>(op, true); }
#define OPS(nm, T) I(nm, T, none, operator_none) I(nm, T, const, operator_constant) I(nm, T, delta, operator_delta) I(nm, T, default, operator_default) I(nm, T, copy, operator_copy) I(nm, T, inc, operator_increment)
OPS(i32, int32_t) OPS(u32, uint32_t) OPS(i64, int64_t) OPS(u64, uint64_t)
// ---- decimals ----------------------------------------------------------------------------------
static void check_err(bool err, u64 code, int want) { irv_assert(err && code == IRV_CODE2('D', '0' + want), "reports the prescribed dynamic error"); irv_cover("dynamic error"); }
static void one_dec(operator_enum_t op, bool optional) {
  fieldspec<dec> f; f.op = op; f.optional = optional; f.has_init = irv_bool("hasinit"); f.init = dec{0, 0};
  if (f.has_init) f.init = dec{(int64_t)irv_u64("initm"), (int16_t)irv_u16("inite")};
  irv_assume(f.has_init | (op != operator_constant)); irv_assume(f.has_init | optional | (op != operator_default));
  decimal_field_instruction inst(op, optional ? presence_optional : presence_mandatory, 7, "f", "", nullptr, f.has_init ? decimal_value_storage(f.init.m, f.init.e) : decimal_value_storage());
  value_storage prev, storage; any_decimal(prev, "prevm", "preve", "prevdef", "prevpres"); any_decimal(storage, "oldm", "olde", "olddef", "oldpres");
  inst.prev_value_ = &prev;
  dict<dec> d; d.state = state_of(prev); d.v = dec_of(prev);
  u64 n = irv_size("n"); const char *b = irv_buf("in", n);
  fast_istreambuf sb(b, n); fast_istream s(&sb);
  bits pm;
  spec_int e, m; spec_scan_int(b, n, true, &e);
  bool nullable = optional && op != operator_constant, is_delta = op == operator_delta;
  bool null = nullable && e.value == 0;
  m.terminated = true; m.len = 0; m.value = 0; m.big = false;
  if (e.terminated && !null) spec_scan_int(b + e.len, n - e.len, true, &m);
  wdec w{e.value - (nullable && e.value > 0), m.value};
  result<dec> r = rules<dec, wdec, dec_ops>(f, d, pm.bit(0), null, w);
  bool cut = r.wire_used && (!e.terminated || !m.terminated);
  if (r.wire_used && e.terminated) { irv_assume(!e.big); irv_assume(fits<int16_t>(w.e)); }
  if (r.wire_used && !cut) {
    irv_assume(!m.big); irv_assume(fits<int64_t>(m.value));
    if (is_delta && !r.err && !null) { dec base = d.state == assigned_state ? d.v : f.init; irv_assume(fits<int16_t>(base.e + w.e)); irv_assume(fits<int64_t>((i128)base.m + w.m)); }
  }
  decimal_mref mref(nullptr, &storage, &inst);
  bool err = false; u64 code = 0;
  try { DECODE(mref, s, pm.pm, f.has_init); } catch (fast_dynamic_error &x) { err = true; code = irv_error_code(&x); }
  irv_assert(pm.used(r.bit_used), "consumes a presence bit exactly when prescribed");
  if (cut) { irv_assert(err, "missing wire value is an error"); irv_cover("unterminated"); return; }
  irv_assert(sb.gptr_ == b + (r.wire_used ? e.len + m.len : 0), "consumes a wire value exactly when prescribed");
  if (r.err) { check_err(err, code, r.err); return; }
  irv_assert(!err, "no other error");
  decimal_cref c(&storage, &inst);
  irv_assert(c.present() == r.present, "presence");
  if (r.present) { irv_assert((c.mantissa() == r.v.m) & (c.exponent() == r.v.e), "value"); irv_cover("present"); } else irv_cover("absent");
  if (r.dict_given) {
    irv_assert(state_of(prev) == r.d.state, "state of the dictionary entry");
    irv_assert((r.d.state != assigned_state) | (dec_of(prev) == r.d.v), "value of the dictionary entry");
  }
}
#define D(opn, op) extern "C" void h_dec_##opn##_m(void) { one_dec(op, false); } extern "C" void h_dec_##opn##_o(void) { one_dec(op, true); }
D(none, operator_none) D(const, operator_constant) D(delta, operator_delta) D(default, operator_default) D(copy, operator_copy)
// individual operators: the exponent is an integer field of its own, the mantissa a mandatory one that follows a present exponent
static void split(operator_enum_t eop, operator_enum_t mop, bool optional) {
  const operator_enum_t op = eop;
  fieldspec<int16_t> fe; fe.op = eop; fe.optional = optional; fe.has_init = irv_bool("hasinite"); fe.init = fe.has_init ? (int16_t)irv_u16("inite") : 0;
  irv_assume(fe.has_init | (eop != operator_constant)); irv_assume(fe.has_init | optional | (eop != operator_default));
  fieldspec<int64_t> fm; fm.op = mop; fm.optional = false; fm.has_init = irv_bool("hasinitm"); fm.init = fm.has_init ? (int64_t)irv_u64("initm") : 0;
  irv_assume(fm.has_init | ((mop != operator_constant) & (mop != operator_default)));
  mantissa_field_instruction minst(mop, nullptr, fm.has_init ? int_value_storage<int64_t>(fm.init) : int_value_storage<int64_t>());
  decimal_field_instruction inst(eop, optional ? presence_optional : presence_mandatory, 7, "f", "", nullptr, &minst, fe.has_init ? decimal_value_storage(0, fe.init) : decimal_value_storage());
  value_storage eprev, mprev, storage; any_decimal(eprev, "eprevm", "epreve", "eprevdef", "eprevpres"); any_storage(mprev, "mprev", "mprevdef", "mprevpres"); any_decimal(storage, "oldm", "olde", "olddef", "oldpres");
  inst.prev_value_ = &eprev; minst.prev_value_ = &mprev;
  dict<int16_t> de; de.state = state_of(eprev); de.v = exp_of(eprev);
  dict<int64_t> dm; dm.state = state_of(mprev); dm.v = mprev.get<int64_t>();
  u64 n = irv_size("n"); const char *b = irv_buf("in", n);
  fast_istreambuf sb(b, n); fast_istream s(&sb);
  bits pm;
  spec_int e, m; spec_scan_int(b, n, true, &e);
  bool nullable = optional && eop != operator_constant, null = nullable && e.value == 0;
  i128 we = e.value - (nullable && e.value > 0);
  result<int16_t> re = rules<int16_t, i128, int_ops<int16_t>>(fe, de, pm.bit(0), null, we);
  bool cut = re.wire_used && !e.terminated; int err_want = re.err; bool has_m = !cut && !re.err && re.present;
  if (re.wire_used && e.terminated) {
    irv_assume(!e.big); irv_assume(eop == operator_delta ? fits<int64_t>(we) : fits<int16_t>(we));
    if (eop == operator_delta && !re.err && !null) irv_assume(fits<int16_t>((de.state == assigned_state ? de.v : fe.init) + we));
  }
  u64 len = re.wire_used ? e.len : 0; int nbits = re.bit_used;
  result<int64_t> rm; rm.v = 0; rm.dict_given = false;
  if (has_m) {
    spec_scan_int(b + len, n - len, true, &m);
    rm = rules<int64_t, i128, int_ops<int64_t>>(fm, dm, pm.bit(nbits), false, m.value);
    nbits += rm.bit_used; err_want = rm.err;
    if (rm.wire_used) {
      if (!m.terminated) cut = true; else {
        irv_assume(!m.big); irv_assume(fits<int64_t>(m.value)); len += m.len;
        if (mop == operator_delta && !rm.err) irv_assume(fits<int64_t>((i128)(dm.state == assigned_state ? dm.v : fm.init) + m.value));
      }
    }
  }
  decimal_mref mref(nullptr, &storage, &inst);
  bool err = false; u64 code = 0;
  try { DECODE_SPLIT(mref, s, pm.pm, fe.has_init, fm.has_init); } catch (fast_dynamic_error &x) { err = true; code = irv_error_code(&x); }
  irv_assert(pm.used(nbits), "consumes a presence bit exactly when prescribed");
  if (cut) { irv_assert(err, "missing wire value is an error"); irv_cover("unterminated"); return; }
  irv_assert(sb.gptr_ == b + len, "consumes a wire value exactly when prescribed");
  if (err_want) { check_err(err, code, err_want); return; }
  irv_assert(!err, "no other error");
  decimal_cref c(&storage, &inst);
  irv_assert(c.present() == re.present, "presence");
  if (re.present) { irv_assert(c.exponent() == re.v, "exponent"); irv_assert(c.mantissa() == rm.v, "mantissa"); irv_cover("present"); } else irv_cover("absent");
  if (re.dict_given) irv_assert(state_of(eprev) == re.d.state, "state of the exponent's dictionary entry");
  if (re.dict_given) irv_assert((re.d.state != assigned_state) | (exp_of(eprev) == re.d.v), "value of the exponent's dictionary entry");
  if (!has_m) rm.dict_given = true, rm.d = dm;
  if (rm.dict_given) irv_assert(state_of(mprev) == rm.d.state, "state of the mantissa's dictionary entry");
  if (rm.dict_given) irv_assert((rm.d.state != assigned_state) | (mprev.get<int64_t>() == rm.d.v), "value of the mantissa's dictionary entry");
}
#define X1(en, eop, mn, mop) extern "C" void h_split_##en##_##mn##_m(void) { split(eop, mop, false); } extern "C" void h_split_##en##_##mn##_o(void) { split(eop, mop, true); }
#define X(en, eop) X1(en, eop, none, operator_none) X1(en, eop, const, operator_constant) X1(en, eop, delta, operator_delta) X1(en, eop, default, operator_default) X1(en, eop, copy, operator_copy) X1(en, eop, inc, operator_increment)
X(none, operator_none) X(const, operator_constant) X(delta, operator_delta) X(default, operator_default) X(copy, operator_copy)
