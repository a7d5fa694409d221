// C08 for ASCII strings, Unicode strings and byte vectors.
#include "str.h"
#include "vec.h"
#include "mfast/coder/decoder/decoder_presence_map.h"
#include "mfast/coder/decoder/decoder_field_operator.h"
#include "mfast/coder/common/codec_helper.h"
#include "op2.h"
#ifndef DECODE
#define DECODE(mref, s, pm, init) decoder_operators[op]->decode(mref, s, pm)
#endif
// mode: 0 storage without own memory, 1 storage with own memory; 2 (own) and 3 (borrowed): the previous value shares the field's memory
template <class K> static void str(operator_enum_t op, bool optional, int mode, int prevstate = -1, int front = -1) {
  typedef uint64_t u64; malloc_allocator alloc;
  const int dstate = prevstate >= 0 ? prevstate : (int)irv_concretize(irv_u8("prevstate") % 3u);
  const bool has_init = (op == operator_delta && dstate == assigned_state) || irv_concretize(irv_bool("hasinit"));  /* no influence there */ u64 il = has_init ? irv_len("ilen") : 0; const char *ib = irv_buf("init", il + 1);   // literals are NUL terminated
  irv_assume(has_init | (op != operator_constant)); irv_assume(has_init | optional | (op != operator_default));
  typename K::inst inst = K::make(op, optional, has_init, ib, il);
  field<K> f(&alloc, mode == 1 || mode == 2);
  value_storage prev; any_prev(prev, f.st, mode, dstate);
  inst.prev_value_ = &prev;
  const u64 pl = prev.array_length(); const char *pb = (const char *)prev.of_array.content_;
  bits pm; const bool bit = pm.bit(0);
  // oracle -------------------------------------------------------------------------------------
  const u64 k = irv_u32("k") & 0x3fffffffu;                                        // an arbitrary element of the result
  int want_err = 0, items = 0; bool cut = false, present = true, dict_given = true; u64 len = 0; const char *p1 = nullptr;
  // the result is: text[0, ta) then base[bs, bs + keep) then text again when the text goes last
  const char *text = nullptr, *base = ib; u64 tl = 0, keep = 0, bs = 0, ta = 0;
  int nstate = dstate; bool value_is_prev = false;
  const bool nullable = optional && op != operator_constant;
  const bool uses = op > operator_delta || (op == operator_constant && optional);
  const bool null = irv_bool("null") & nullable, lost = irv_bool("cut");
  auto prev_is_base = [&]() { base = pb; keep = pl; };
  auto initial = [&]() { present = has_init; base = ib; keep = il; };
  if (op == operator_delta) {
    item &d = feed_add(k_signed, nullable, null, lost); const bool neg = front >= 0 ? front : irv_concretize(irv_bool("front")), far = irv_concretize(irv_bool("far"));
    u64 cnt = irv_u32("sub") & 0x3fffffffu; if (far) { cnt = irv_u64("farsub"); irv_assume((cnt > 0x3fffffff) & (cnt < (u64)1 << 63)); }
    d.v = neg ? ~(int64_t)cnt : (int64_t)cnt;
    item &t = feed_string<K>("tlen", "text", false, false, irv_bool("cut2")); tl = t.len; text = t.p;
    cut = lost; items = 1 + !null;
    if (!cut && !null) {
      if (dstate == assigned_state) prev_is_base(); else initial();
      if (dstate == empty_state) { want_err = 6; irv_assume(cnt <= 0x7fffffff); } else if ((cnt > 0x7fffffff) | (cnt > keep)) want_err = 7;
      if (!want_err) { cut = t.cut; keep -= cnt; bs = neg ? cnt : 0; ta = neg ? 0 : keep; }
      nstate = assigned_state; present = true;
    } else present = false, value_is_prev = true;
  } else {
    item &t = feed_string<K>("tlen", "text", nullable, null, lost);
    if (op == operator_none || (bit && op != operator_constant)) {
      cut = lost; items = 1; present = !null; text = t.p; tl = t.len; dict_given = op > operator_default; nstate = present ? assigned_state : empty_state;
      if (op == operator_tail && !null) { if (dstate == assigned_state) prev_is_base(); else { initial(); present = true; } keep = keep > tl ? keep - tl : 0; ta = keep; }
    } else if (op == operator_constant) { initial(); present = !optional || bit; dict_given = false; }
    else if (op == operator_default) { initial(); dict_given = false; }
    else {
      if (dstate == undefined_state) { initial(); if (!optional && !has_init) want_err = op == operator_copy ? 5 : 6; }
      else if (dstate == empty_state) { present = false; if (!optional) want_err = op == operator_copy ? 6 : 7; }
      else prev_is_base();
      nstate = present ? assigned_state : empty_state;
    }
  }
  len = keep + tl; irv_assume(len < ((u64)1 << 30) - 64);
  char at_k = 0;
  if (present && !cut && !want_err && k < len) {
    if (irv_concretize(k < ta)) at_k = base[bs + k];
    else if (irv_concretize(k - ta < tl)) at_k = K::elem(text, tl, k - ta);
    else at_k = base[bs + k - tl];
  }
  const char old_prev_k = value_is_prev && dstate == assigned_state && k < pl ? pb[k] : 0;
  // ---------------------------------------------------------------------------------------------
  typename K::mref mref(&alloc, &f.st, &inst);
  wire_in w; w.start();
  bool err = false; u64 code = 0;
  try { DECODE(mref, w.s, pm.pm, has_init); } catch (fast_dynamic_error &x) { err = true; code = irv_error_code(&x); }
  irv_assert(pm.used(uses), "consumes a presence bit exactly when prescribed");
  if (cut) { irv_assert(err, "missing or malformed wire value is an error"); irv_cover("unterminated"); return; }
  if (want_err) { irv_assert(err && code == IRV_CODE2('D', '0' + want_err), "reports the prescribed dynamic error"); irv_cover("dynamic error"); return; }
  irv_assert(!err, "no other error");
  irv_assert(w.consumed(items), "consumes a wire value exactly when prescribed");
  typename K::cref c(&f.st, &inst);
  irv_assert(c.present() == present, "presence");
  if (present) {
    irv_assert(c.size() == len, "length");
    if (k < len) { irv_assert(((const char *)c.data())[k] == at_k, "content"); irv_cover("content"); } else irv_cover("present");
  } else irv_cover("absent");
  if (dict_given) {
    irv_assert(str_state(prev) == nstate, "state of the dictionary entry");
    if (nstate == assigned_state) {
      const u64 wl = value_is_prev ? pl : len; irv_assert(prev.array_length() == wl, "length of the dictionary entry");
      if (k < wl) irv_assert(((const char *)prev.of_array.content_)[k] == (value_is_prev ? old_prev_k : at_k), "value of the dictionary entry");
    }
  }
  f.done(inst);
}
#define S1(nm, K, opn, op, md) extern "C" void h_##nm##_##opn##_m##md(void) { str<K>(op, false, md); } extern "C" void h_##nm##_##opn##_o##md(void) { str<K>(op, true, md); }
#define D1(nm, K, md, ds) extern "C" void h_##nm##_delta_m##md##_p##ds(void) { str<K>(operator_delta, false, md, ds); } extern "C" void h_##nm##_delta_o##md##_p##ds(void) { str<K>(operator_delta, true, md, ds); }
#define D2(nm, K, md, fr) extern "C" void h_##nm##_delta_m##md##_p2_##fr(void) { str<K>(operator_delta, false, md, 2, fr); } extern "C" void h_##nm##_delta_o##md##_p2_##fr(void) { str<K>(operator_delta, true, md, 2, fr); }
#define D(nm, K, md) D1(nm, K, md, 0) D1(nm, K, md, 1) D2(nm, K, md, 0) D2(nm, K, md, 1)
#define S(nm, K, opn, op) S1(nm, K, opn, op, 0) S1(nm, K, opn, op, 1) S1(nm, K, opn, op, 2) S1(nm, K, opn, op, 3)
#define OPS(nm, K) S(nm, K, none, operator_none) S(nm, K, const, operator_constant) D(nm, K, 0) D(nm, K, 1) D(nm, K, 2) D(nm, K, 3) S(nm, K, default, operator_default) S(nm, K, copy, operator_copy) S(nm, K, tail, operator_tail)
OPS(ascii, A) OPS(uni, U) OPS(vec, B)
