// C19: equality and ordering of strings, byte vectors and integer vectors (numbers: c14.cpp, compare).
#include "irv.h"
#include "mfast/string_ref.h"
#include "mfast/vector_ref.h"
#include "mfast/instructions/int_vector_instructions.h"
#include "mfast/instructions/group_instruction.h"
#include "mfast/int_ref.h"
#include "mfast/aggregate_ref.h"
#include "mfast/group_ref.h"
#include "mfast/sequence_ref.h"
#include "mfast/enum_ref.h"
#include "mfast/set_ref.h"
#include "mfast/decimal_ref.h"
#include "mfast/nested_message_ref.h"
#include "mfast/field_comparator.h"
using namespace mfast;
typedef uint64_t u64;
static presence_enum_t P(bool o) { return o ? presence_optional : presence_mandatory; }
struct A { typedef char T; typedef ascii_field_instruction inst; typedef ascii_string_cref cref; static inst make(bool o) { return inst(operator_none, P(o), 1, "f", "", nullptr, string_value_storage()); } };
struct U { typedef char T; typedef unicode_field_instruction inst; typedef unicode_string_cref cref; static inst make(bool o) { return inst(operator_none, P(o), 1, "f", "", nullptr, string_value_storage(), 0, "", ""); } };
struct B { typedef unsigned char T; typedef byte_vector_field_instruction inst; typedef byte_vector_cref cref; static inst make(bool o) { return inst(operator_none, P(o), 1, "f", "", nullptr, byte_vector_value_storage(), 0, "", ""); } };
template <class I> struct V { typedef I T; typedef vector_field_instruction<I> inst; typedef int_vector_cref<I> cref; static inst make(bool o) { return inst(P(o), 1, "f", ""); } };
// two texts whose first difference is at d (d = the shorter length: one is a prefix of the other); every pair is one of these
template <class K> struct pair { typedef typename K::T T; bool o1, o2, p1, p2; u64 n1, n2, d; const T *b1, *b2; typename K::inst i1, i2; value_storage s1, s2; bool same, eq;
  pair() : o1(irv_bool("o1")), o2(irv_bool("o2")), i1(K::make(o1)), i2(K::make(o2)) {
    p1 = irv_concretize(irv_bool("p1") | !o1); p2 = irv_concretize(irv_bool("p2") | !o2); n1 = irv_u32("n1") & 0xffffff; n2 = irv_u32("n2") & 0xffffff; u64 lim = n1 < n2 ? n1 : n2; d = irv_u32("d"); irv_assume(d <= lim);
    b1 = (const T *)irv_buf("b1", n1 * sizeof(T)); bool alias = irv_concretize(irv_bool("alias")); if (alias) irv_assume(n2 <= n1); b2 = alias ? b1 : (const T *)irv_buf("b2", n2 * sizeof(T));
    eq = irv_concretize(d == lim); if (alias) irv_assume(eq); if (!alias) { irv_assume_bytes_eq(b1, b2, d * sizeof(T)); if (!eq) irv_assume(b1[d] != b2[d]); }
    set(s1, p1, b1, n1); set(s2, p2, b2, n2); same = (p1 == p2) && (!p1 || (eq && n1 == n2)); }
  void set(value_storage &s, bool p, const T *b, u64 n) { s.of_array.defined_bit_ = 1; s.of_array.capacity_in_bytes_ = irv_bool("owned") ? 0 : 64; s.of_array.len_ = p ? (uint32_t)n + 1 : 0; s.of_array.content_ = const_cast<T *>(b); }
  void differ() { if (!eq) { volatile T u = b1[d], v = b2[d]; } }   // restates the difference after a comparison
  typename K::cref a() { return typename K::cref(&s1, &i1); } typename K::cref b() { return typename K::cref(&s2, &i2); } };
template <class K> static void equal() { pair<K> x; auto a = x.a(), b = x.b(); bool e = a == b, f = b == a, u = a != b; x.differ(); irv_assert(e == x.same && f == x.same, "equal exactly when both absent or equal values"); irv_assert(u == !x.same, "unequal is the opposite"); if (x.same) { if (x.p1) irv_cover("equal"); else irv_cover("absent"); } else irv_cover("unequal"); }
template <class K> static void order() { pair<K> x; irv_assume(x.p1 & x.p2); auto a = x.a(), b = x.b(); const unsigned char *c = (const unsigned char *)x.b1, *e = (const unsigned char *)x.b2; bool less = x.eq ? x.n1 < x.n2 : c[x.d] < e[x.d];
  bool lt = a < b, gt = b > a, ge = a >= b, le = b <= a; x.differ(); irv_assert(lt == less && gt == less, "ordered as the values are"); irv_assert(ge == !less && le == !less, "ordered as the values are"); if (less) irv_cover("less"); else irv_cover("not less"); }
template <class K> static void text() { pair<K> x; irv_assume(x.p1 & x.p2); auto a = x.a(); boost::string_ref r((const char *)x.b2, x.n2); bool e = a == r, u = a != r; x.differ(); irv_assert(e == x.same && u == !x.same, "compares with a text"); irv_cover("end"); }
#define S(K, n) extern "C" void h_equal_##n() { equal<K>(); }
#define O(K, n) extern "C" void h_order_##n() { order<K>(); } extern "C" void h_text_##n() { text<K>(); }
S(A, ascii) S(U, unicode) S(B, bytes) S(V<uint32_t>, u32s) S(V<int64_t>, i64s) O(A, ascii) O(U, unicode)
// fields of unknown type and groups: two fields (optional uint32, ascii string)
extern "C" void h_field_ascii() { pair<A> x; field_cref a(&x.s1, &x.i1), b(&x.s2, &x.i2); bool e = a == b; x.differ(); irv_assert(e == x.same, "fields of the same type are equal exactly when presence and value are"); if (x.same) irv_cover("equal"); else irv_cover("unequal"); }
static uint32_field_instruction N(bool o) { return uint32_field_instruction(operator_none, P(o), 2, "n", "", nullptr, int_value_storage<uint32_t>()); }
static void num(value_storage &s, u64 v, bool p) { s.of_uint64.content_ = v; s.of_uint64.defined_bit_ = 1; s.of_uint64.present_ = p; }
extern "C" void h_field_group() { pair<A> x; uint32_field_instruction n = N(true); const field_instruction *l[] = {&n, &x.i1}; group_field_instruction g(presence_mandatory, 3, "g", "", "", instructions_view_t(l, 2), "", "", "");
  irv_assume(x.o1 == x.o2); value_storage f[2], h[2], s, t; u64 v = irv_u32("v"), w = irv_u32("w"); bool vp = irv_bool("vp"), wp = irv_bool("wp"); num(f[0], v, vp); num(h[0], w, wp); f[1] = x.s1; h[1] = x.s2;
  s.of_group.present_ = t.of_group.present_ = 1; s.of_group.content_ = f; t.of_group.content_ = h; bool same = x.same && vp == wp && (!vp || v == w);
  group_cref a(&s, &g), b(&t, &g); bool e = aggregate_cref(a) == aggregate_cref(b); x.differ(); irv_assert(e == same, "groups are equal exactly when their fields are"); if (same) irv_cover("equal"); else irv_cover("unequal"); }
