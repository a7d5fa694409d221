// C15: a copied field value equals its source, shares no storage that can change, and releases exactly what it owns, once.
#include "irv.h"
#include "mfast/malloc_allocator.h"
#include "mfast/int_ref.h"
#include "mfast/decimal_ref.h"
#include "mfast/string_ref.h"
#include "mfast/vector_ref.h"
#include "mfast/instructions/int_vector_instructions.h"
#include "mfast/instructions/string_instructions.h"
#include "mfast/instructions/byte_vector_instruction.h"
#include "mfast/instructions/group_instruction.h"
#include "mfast/instructions/sequence_instruction.h"
#include "mfast/instructions/template_instruction.h"
#include "mfast/instructions/templateref_instruction.h"
using namespace mfast;
typedef uint64_t u64;
static presence_enum_t P(bool o) { return o ? presence_optional : presence_mandatory; }
template <class V> static void any(V &v) { u64 *p = (u64 *)&v; p[0] = irv_u64("d0"); p[1] = irv_u64("d1"); }
// ---- strings and vectors -----------------------------------------------------------------------
struct A { typedef char T; typedef ascii_field_instruction inst; static inst make(bool o, bool has, const char *p, u64 n) { return inst(operator_none, P(o), 1, "f", "", nullptr, has ? string_value_storage(p, n) : string_value_storage()); } };
struct U { typedef char T; typedef unicode_field_instruction inst; static inst make(bool o, bool has, const char *p, u64 n) { return inst(operator_none, P(o), 1, "f", "", nullptr, has ? string_value_storage(p, n) : string_value_storage(), 0, "", ""); } };
struct B { typedef unsigned char T; typedef byte_vector_field_instruction inst; static inst make(bool o, bool has, const char *p, u64 n) { return inst(operator_none, P(o), 1, "f", "", nullptr, has ? byte_vector_value_storage(p, n) : byte_vector_value_storage(), 0, "", ""); } };
template <class I> struct V { typedef I T; typedef vector_field_instruction<I> inst; static inst make(bool o, bool, const char *, u64) { return inst(P(o), 1, "f", ""); } };
template <class K> struct src {
  typedef typename K::T T; bool opt, has, pres, init; u64 il, n, k; const char *ib; typename K::inst in; value_storage st; T v;
  src() : opt(irv_bool("optional")), has(irv_concretize(irv_bool("hasinit"))), il(irv_u32("ilen") & 0xffffff), ib(irv_buf("init", il + 1)), in(K::make(opt, has, ib, il)) {
    irv_assume(ib[il] == 0);
    pres = irv_concretize(irv_bool("present")); init = has && sizeof(T) == 1 && irv_concretize(irv_bool("is_initial")); n = init ? il : irv_u32("len") & 0xffffff;
    st.of_array.defined_bit_ = irv_bool("defined"); st.of_array.capacity_in_bytes_ = init ? 0 : irv_u32("cap") & 0x7fffffff; st.of_array.len_ = pres ? (uint32_t)n + 1 : 0;
    st.of_array.content_ = init ? (void *)ib : irv_buf("content", n * sizeof(T)); k = irv_u64("k"); irv_assume((k < n) | (n == 0)); v = n ? ((T *)st.of_array.content_)[k] : 0; }
  void equal(const value_storage &d) { irv_assert((d.of_array.len_ != 0) == pres, "same presence"); if (!pres) { irv_cover("absent"); return; }
    irv_assert(d.array_length() == n, "same length"); if (n) { irv_assert(((T *)d.of_array.content_)[k] == v, "same content"); irv_assert(((T *)st.of_array.content_)[k] == v, "the source is unchanged"); irv_cover("content"); }
    if (d.of_array.capacity_in_bytes_ == 0) irv_assert((n == 0) | (d.of_array.content_ == ib), "what it does not own never changes");
    else { irv_assert(!irv_same_object(d.of_array.content_, st.of_array.content_), "independent storage"); irv_assert(irv_objsize(d.of_array.content_) >= d.of_array.capacity_in_bytes_ && d.of_array.capacity_in_bytes_ >= n * sizeof(T), "owns as much as it says"); irv_cover("owns"); } } };
template <class K> static void copy() { malloc_allocator al; src<K> s; const u64 live = irv_heap_live(); value_storage d; any(d); s.in.copy_construct_value(s.st, d, &al, nullptr); s.equal(d); s.in.destruct_value(d, &al); irv_assert(irv_heap_live() == live, "releases exactly what it owns"); }
#define S(K, n) extern "C" void h_copy_##n() { copy<K>(); }
S(A, ascii) S(U, unicode) S(B, bytes) S(V<uint32_t>, u32s) S(V<int64_t>, i64s)
// ---- numbers -----------------------------------------------------------------------------------
template <class T> static void number() { bool o = irv_bool("optional"), has = irv_bool("hasinit"), p = irv_bool("present"); T iv = (T)irv_u64("initial"), x = (T)irv_u64("value");
  int_field_instruction<T> in(operator_none, P(o), 1, "f", "", nullptr, has ? int_value_storage<T>(iv) : int_value_storage<T>()); value_storage s, d; any(s); any(d); s.set<T>(x); s.present(p);
  in.copy_construct_value(s, d, nullptr, nullptr); int_cref<T> c(&d, &in); irv_assert(c.present() == (p | !o), "same presence"); if (p) { irv_assert(c.value() == x, "same value"); irv_cover("value"); } in.destruct_value(d, nullptr); }
extern "C" void h_copy_i32() { number<int32_t>(); }
extern "C" void h_copy_u32() { number<uint32_t>(); }
extern "C" void h_copy_i64() { number<int64_t>(); }
extern "C" void h_copy_u64() { number<uint64_t>(); }
extern "C" void h_copy_dec() { bool o = irv_bool("optional"), p = irv_bool("present"); int64_t m = irv_u64("m"); int16_t e = irv_u16("e"); decimal_field_instruction in(operator_none, P(o), 1, "f", "", nullptr, decimal_value_storage());
  value_storage s, d; any(s); any(d); s.of_decimal.mantissa_ = m; s.of_decimal.exponent_ = e; s.of_decimal.present_ = p; in.copy_construct_value(s, d, nullptr, nullptr); decimal_cref c(&d, &in);
  irv_assert(c.present() == (p | !o), "same presence"); if (p) { irv_assert(c.mantissa() == m && c.exponent() == e, "same value"); irv_cover("value"); } in.destruct_value(d, nullptr); }
// ---- groups, sequences, template references: fields (optional uint32, ascii string) -------------
struct two { src<A> s; uint32_field_instruction num; const field_instruction *list[2]; instructions_view_t view; u64 x; bool xp;
  two() : num(operator_none, presence_optional, 2, "n", "", nullptr, int_value_storage<uint32_t>()), view(list, 2) { list[0] = &num; list[1] = &s.in; x = irv_u32("x"); xp = irv_concretize(irv_bool("xp")); }
  void fill(value_storage *f) { any(f[0]); f[0].set<uint32_t>((uint32_t)x); f[0].present(xp); f[1] = s.st; }
  void same(value_storage *d) { uint32_cref c(&d[0], &num); irv_assert(c.present() == xp, "same presence of a field"); if (xp) irv_assert(c.value() == x, "same value of a field"); s.equal(d[1]); } };
extern "C" void h_copy_group() { malloc_allocator al; two t; group_field_instruction g(P(irv_bool("goptional")), 3, "g", "", "", t.view, "", "", ""); const u64 live = irv_heap_live();
  value_storage f[2], ext[2], s, d; t.fill(f); any(ext[0]); any(ext[1]); any(s); any(d); bool p = irv_bool("gpresent"), out = irv_concretize(irv_bool("external")); s.of_group.present_ = p; s.of_group.content_ = f;
  g.copy_construct_value(s, d, &al, out ? ext : nullptr); irv_assert(d.of_group.present_ == p, "same presence"); irv_assert(d.of_group.content_ != f && (!out || d.of_group.content_ == ext), "fields of its own"); t.same(d.of_group.content_);
  g.destruct_value(d, &al); irv_assert(irv_heap_live() == live, "releases exactly what it owns"); irv_cover("end"); }
extern "C" void h_new_group() { malloc_allocator al; two t; bool o = irv_bool("goptional"); group_field_instruction g(P(o), 3, "g", "", "", t.view, "", "", ""); const u64 live = irv_heap_live(); value_storage d, f[2]; any(d); g.construct_value(d, &al);
  irv_assert(d.of_group.present_ == !o, "presence of a new group"); uint32_cref c(&d.of_group.content_[0], &t.num); irv_assert(c.absent(), "a new optional field is absent");
  if (irv_concretize(irv_bool("link"))) { t.fill(f); g.link_value(d, f, &al); irv_assert(d.of_group.content_ == f && d.of_group.present_, "refers to the fields given"); irv_assert(irv_heap_live() == live, "releases what it owned"); irv_cover("link"); }
  g.destruct_value(d, &al); irv_assert(irv_heap_live() == live, "releases exactly what it owns"); irv_cover("end"); }
extern "C" void h_copy_template() { malloc_allocator al; two t; template_instruction g(4, "t", "", "", "", t.view, false, "", "", ""); const u64 live = irv_heap_live(); value_storage f[2], s, d; t.fill(f); any(s); any(d); s.of_group.content_ = f; s.of_group.present_ = 1;
  g.copy_construct_value(s, d, &al, nullptr); irv_assert(d.of_group.content_ != f, "fields of its own"); t.same(d.of_group.content_); d.of_group.is_link_ = 0; g.destruct_value(d, &al); irv_assert(irv_heap_live() == live, "releases exactly what it owns"); irv_cover("end"); }
extern "C" void h_copy_templateref() { malloc_allocator al; two t; template_instruction g(4, "t", "", "", "", t.view, false, "", "", ""); templateref_instruction r; const u64 live = irv_heap_live(); bool target = irv_concretize(irv_bool("target")); value_storage f[2], s, d; t.fill(f); any(s); any(d);
  s.of_templateref.of_instruction.instruction_ = target ? &g : nullptr; s.of_templateref.content_ = target ? f : nullptr; r.copy_construct_value(s, d, &al, nullptr); irv_assert(d.of_templateref.of_instruction.instruction_ == (target ? &g : nullptr), "same target");
  if (target) { irv_assert(d.of_templateref.content_ != f, "fields of its own"); t.same(d.of_templateref.content_); irv_cover("target"); } r.destruct_value(d, &al); irv_assert(irv_heap_live() == live, "releases exactly what it owns"); irv_cover("end"); }
// bounded: one or two elements
template <int n> static void sequence() { malloc_allocator al; two t; uint32_field_instruction len(operator_none, presence_mandatory, 5, "l", "", nullptr, int_value_storage<uint32_t>()); bool o = irv_bool("soptional");
  sequence_field_instruction q(P(o), 6, "s", "", "", t.view, nullptr, nullptr, &len, "", "", ""); const u64 live = irv_heap_live(); value_storage f[2 * n + 1], s, d; any(s); any(d); for (int i = 0; i < n; ++i) t.fill(f + 2 * i);
  bool p = n || irv_concretize(irv_bool("spresent")); s.of_array.len_ = p ? n + 1 : 0; s.of_array.content_ = f; s.of_array.capacity_in_bytes_ = irv_u32("scap") & 0x7fffffff;
  q.copy_construct_value(s, d, &al, nullptr); irv_assert(d.of_array.len_ == (uint32_t)(p ? n + 1 : 0), "same presence and number of elements");
  if (n) { irv_assert(d.of_array.content_ != f, "elements of its own"); for (int i = 0; i < n; ++i) t.same((value_storage *)d.of_array.content_ + 2 * i); }
  q.destruct_value(d, &al); irv_assert(irv_heap_live() == live, "releases exactly what it owns"); irv_cover("end"); }
extern "C" void h_copy_sequence0() { sequence<0>(); }
extern "C" void h_copy_sequence1() { sequence<1>(); }
extern "C" void h_copy_sequence2() { sequence<2>(); }
