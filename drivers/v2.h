// Calls of the statically typed (v2) coder for a field whose operator and properties are known at run time.
#pragma once
#include "mfast/coder/decoder_v2/fast_decoder_core.h"
#include "mfast/coder/encoder_v2/fast_encoder_core.h"
#include "mfast/int_ref.h"
#include "mfast/string_ref.h"
namespace v2 {
using namespace mfast; using namespace mfast::coder;
struct decoder : fast_decoder_base { using fast_decoder_base::visit; decoder(allocator *a) : fast_decoder_base(a) {} void visit(const nested_message_mref &) override {} };
template <int O> using op_tag = fast_operator_tag<O>;
// Use<operator tag, properties>::f(x): one call with static types
template <template <class, class> class Use, class OP, class X> void props(bool optional, bool init, X &x) {
  if (optional) { if (init) Use<OP, properties_type<3>>::f(x); else Use<OP, properties_type<1>>::f(x); } else { if (init) Use<OP, properties_type<2>>::f(x); else Use<OP, properties_type<0>>::f(x); }
}
template <template <class, class> class Use, class X> void ops(int op, bool optional, bool init, X &x, integer_type_tag) {
  switch (op) { case operator_none: props<Use, op_tag<operator_none>>(optional, init, x); break; case operator_constant: props<Use, op_tag<operator_constant>>(optional, init, x); break; case operator_delta: props<Use, op_tag<operator_delta>>(optional, init, x); break;
    case operator_default: props<Use, op_tag<operator_default>>(optional, init, x); break; case operator_copy: props<Use, op_tag<operator_copy>>(optional, init, x); break; case operator_increment: props<Use, op_tag<operator_increment>>(optional, init, x); break; }
}
template <template <class, class> class Use, class X> void ops(int op, bool optional, bool init, X &x, decimal_type_tag) {
  switch (op) { case operator_none: props<Use, op_tag<operator_none>>(optional, init, x); break; case operator_constant: props<Use, op_tag<operator_constant>>(optional, init, x); break; case operator_delta: props<Use, op_tag<operator_delta>>(optional, init, x); break;
    case operator_default: props<Use, op_tag<operator_default>>(optional, init, x); break; case operator_copy: props<Use, op_tag<operator_copy>>(optional, init, x); break; }
}
template <template <class, class> class Use, class X> void ops(int op, bool optional, bool init, X &x, string_type_tag) {
  switch (op) { case operator_none: props<Use, op_tag<operator_none>>(optional, init, x); break; case operator_constant: props<Use, op_tag<operator_constant>>(optional, init, x); break; case operator_delta: props<Use, op_tag<operator_delta>>(optional, init, x); break;
    case operator_default: props<Use, op_tag<operator_default>>(optional, init, x); break; case operator_copy: props<Use, op_tag<operator_copy>>(optional, init, x); break; case operator_tail: props<Use, op_tag<operator_tail>>(optional, init, x); break; }
}
template <class M> struct dec_call { decoder &d; const M &m; };
template <class C> struct enc_call { fast_encoder_core &e; const C &c; };
template <class M> struct dec_of_ { template <class OP, class P> struct use { static void f(dec_call<M> &x) { x.d.visit(ext_mref<M, OP, P>(x.m)); } }; };
template <class C> struct enc_of_ { template <class OP, class P> struct use { static void f(enc_call<C> &x) { x.e.visit(ext_cref<C, OP, P>(x.c)); } }; };
// decimals with individual operators
template <class EO, class EP> struct split_e {
  template <class MO, class MP> struct use {
    static void f(dec_call<decimal_mref> &x) { field_mref_base b(x.m.allocator(), field_mref_core_access::storage_of(x.m), x.m.instruction()); x.d.visit(ext_mref<decimal_mref, std::tuple<EO, MO>, std::tuple<EP, MP>>(b)); }
    static void f(enc_call<decimal_cref> &x) { x.e.visit(ext_cref<decimal_cref, std::tuple<EO, MO>, std::tuple<EP, MP>>(x.c)); }
  };
};
template <class X> struct split_call { X x; int mop; bool minit; };
template <class EO, class EP> struct split_of {
  template <class X> static void f(split_call<X> &s) { ops_m(s); }
  template <class X> static void ops_m(split_call<X> &s) {
    switch (s.mop) { case operator_none: one<operator_none>(s); break; case operator_constant: one<operator_constant>(s); break; case operator_delta: one<operator_delta>(s); break;
      case operator_default: one<operator_default>(s); break; case operator_copy: one<operator_copy>(s); break; case operator_increment: one<operator_increment>(s); break; }
  }
  template <int O, class X> static void one(split_call<X> &s) { if (s.minit) split_e<EO, EP>::template use<op_tag<O>, properties_type<2>>::f(s.x); else split_e<EO, EP>::template use<op_tag<O>, properties_type<0>>::f(s.x); }
};
template <class M> inline void decode(int op, bool optional, bool init, const M &m, fast_istream &s, decoder_presence_map &pm) {
  decoder d(nullptr); d.strm_.reset(s.buf_); d.current_ = &pm; dec_call<M> x{d, m};
  ops<dec_of_<M>::template use>(op, optional, init, x, typename M::cref_type::type_category());
}
template <class C> inline void encode(int op, bool optional, bool init, const C &c, fast_ostream &s, encoder_presence_map &pm) {
  fast_encoder_core e(s.alloc_); e.strm_.rdbuf(s.buf_); e.current_ = &pm; enc_call<C> x{e, c};
  ops<enc_of_<C>::template use>(op, optional, init, x, typename C::type_category());
}
inline void decode_split(int eop, int mop, bool optional, bool einit, bool minit, const decimal_mref &m, fast_istream &s, decoder_presence_map &pm) {
  decoder d(nullptr); d.strm_.reset(s.buf_); d.current_ = &pm; split_call<dec_call<decimal_mref>> x{{d, m}, mop, minit};
  ops<split_of>(eop, optional, einit, x, decimal_type_tag());
}
inline void encode_split(int eop, int mop, bool optional, bool einit, bool minit, const decimal_cref &c, fast_ostream &s, encoder_presence_map &pm) {
  fast_encoder_core e(s.alloc_); e.strm_.rdbuf(s.buf_); e.current_ = &pm; split_call<enc_call<decimal_cref>> x{{e, c}, mop, minit};
  ops<split_of>(eop, optional, einit, x, decimal_type_tag());
}
}
