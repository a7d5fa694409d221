// C12: string, byte-vector and integer-vector fields are value sequences, whatever their length, capacity and ownership,
// with any allocator that keeps the allocator contract.  `w` watches an arbitrary element of the result.
#include "irv.h"
#include <new>
#include <vector>
#include <cstdlib>
#include "mfast/string_ref.h"
#include "mfast/vector_ref.h"
#include "mfast/instructions/int_vector_instructions.h"
#include "mfast/instructions/string_instructions.h"
using namespace mfast;
typedef uint64_t u64;
enum { maxlen = 0x1ffffff };
static inline u64 irv_n(const char *name) { return irv_u32(name) & maxlen; }
// an allocator that does just what allocator.h promises, and checks that it is called as required there
struct any_alloc : allocator {
  void *block; u64 size;
  void *allocate(size_t) override { irv_assert(false, "fields only use memory that can grow"); return nullptr; }
  size_t reallocate(void *&p, size_t old_size, size_t new_size) override {
    irv_assert((p == block) & ((p == nullptr) | (old_size == size)) & ((p != nullptr) | (old_size == 0)), "the allocator is told the block and size it returned");
    irv_assert(new_size < ((u64)1 << 31) - 4096, "sensible request");
    u64 n = irv_u64("granted"); irv_assume((n >= new_size) & (n < ((u64)1 << 31)));
    void *q = malloc(n);
    if (p) { memcpy(q, p, old_size < n ? old_size : n); free(p); }
    p = block = q; size = n; return n;
  }
  void deallocate(void *p, size_t n) override { irv_assert((p == block) & (n == size), "what is returned is the block obtained and its size"); free(p); block = nullptr; size = 0; }
};
struct A { typedef char T, E; typedef ascii_string_mref mref; typedef ascii_string_cref cref; typedef ascii_field_instruction inst;
  static inst make(bool opt, const char *p, u64 n, bool has) { return inst(operator_none, opt ? presence_optional : presence_mandatory, 1, "f", "", nullptr, has ? string_value_storage(p, n) : string_value_storage()); } static T any(const char *n) { return irv_u8(n); } };
struct U { typedef char T; typedef utf8_char E; typedef unicode_string_mref mref; typedef unicode_string_cref cref; typedef unicode_field_instruction inst;
  static inst make(bool opt, const char *p, u64 n, bool has) { return inst(operator_none, opt ? presence_optional : presence_mandatory, 1, "f", "", nullptr, has ? string_value_storage(p, n) : string_value_storage(), 0, "", ""); } static T any(const char *n) { return irv_u8(n); } };
struct B { typedef unsigned char T, E; typedef byte_vector_mref mref; typedef byte_vector_cref cref; typedef byte_vector_field_instruction inst;
  static inst make(bool opt, const char *p, u64 n, bool has) { return inst(operator_none, opt ? presence_optional : presence_mandatory, 1, "f", "", nullptr, has ? byte_vector_value_storage(p, n) : byte_vector_value_storage(), 0, "", ""); } static T any(const char *n) { return irv_u8(n); } };
template <class I> struct V { typedef I T, E; typedef int_vector_mref<I> mref; typedef int_vector_cref<I> cref; typedef vector_field_instruction<I> inst;
  static inst make(bool opt, const char *, u64, bool) { return inst(opt ? presence_optional : presence_mandatory, 1, "f", ""); }
  static T any(const char *n) { return (I)irv_u64(n); } };
typedef V<uint32_t> W; typedef V<int64_t> L;
static u64 g_fill; // the watched element of a filled range
#ifndef IRV_NATIVE
template <class T> inline void fill_range(T *b, T *e, const T &v) {
  irv_assert(b <= e && irv_same_object(b, e), "a range"); u64 n = e - b; const T x = v;
  memcpy(b, irv_buf("filled", n * sizeof(T)), n * sizeof(T));
  if (g_fill < n) irv_assume(b[g_fill] == x);
}
extern "C" { void lib_fill_4(uint32_t *b, uint32_t *e, const uint32_t &v) { fill_range(b, e, v); } void lib_fill_8(int64_t *b, int64_t *e, const int64_t &v) { fill_range(b, e, v); }
             void lib_fill_1(char *b, char *e, const char &v) { fill_range(b, e, v); } void lib_fill_u(unsigned char *b, unsigned char *e, const unsigned char &v) { fill_range(b, e, v); } }
#endif
// a field in any state: memory of its own or borrowed content, absent or any length
template <class K> struct fld {
  typedef typename K::T T;
  any_alloc al; value_storage st; bool own, pres, opt; typename K::inst in; u64 n; const T *lent; u64 lk; T lv;
  fld(bool o, const char *ip = nullptr, u64 il = 0, bool has = false) : own(o), opt(irv_bool("optional")), in(K::make(opt, ip, il, has)) {
    pres = irv_concretize(irv_bool("present")); n = irv_n("length"); u64 c = irv_u32("room") & 0xfffffff;
    al.block = nullptr; al.size = 0; st.of_array.defined_bit_ = 1; st.of_array.capacity_in_bytes_ = 0; lent = nullptr; lk = 0; lv = 0;
    if (own) {
      irv_assume((n + 1) * sizeof(T) <= c);
      al.block = malloc(c); al.size = c; memcpy(al.block, irv_buf("content", c), c);
      st.of_array.content_ = al.block; st.of_array.capacity_in_bytes_ = (uint32_t)c;
    } else { lent = (const T *)irv_buf("lent", n * sizeof(T)); st.of_array.content_ = (void *)lent; lk = irv_u64("lk"); irv_assume((lk < n) | (n == 0)); lv = n ? lent[lk] : 0; }
    if (pres) st.of_array.len_ = (uint32_t)n + 1; else st.of_array.len_ = 0, n = 0;
  }
  typename K::mref ref() { return typename K::mref(&al, &st, &in); }
  T at(u64 k) { return ((const T *)st.of_array.content_)[k]; }
  T old(u64 k) { return k < n ? at(k) : 0; }                                      // to be called before the operation
  void is(u64 size) { irv_assert(st.of_array.len_ == size + 1, "the new length"); irv_assert(ref().size() == size && ref().present(), "present with that length"); }
  // memory is in order: room for a terminator when owned, the lender's bytes are as they were, and everything obtained is released
  void fine() {
    u64 cap = st.of_array.capacity_in_bytes_, len = st.of_array.len_;
    irv_assert((cap == 0) | ((al.block == st.of_array.content_) & (al.size == cap)), "the field owns the block its allocator gave it");
    irv_assert((cap != 0) | (al.block == nullptr), "no block is forgotten");
    irv_assert((cap == 0) | (len == 0) | (len * sizeof(T) <= cap), "room for every element and a terminator");
    if (lent && n) irv_assert(lent[lk] == lv, "the lender's elements never change");
    in.destruct_value(st, &al); irv_assert(al.block == nullptr, "destroying the value releases its memory once");
  }
};
#define FOR(name) template <class K, bool own> static void name(); \
  extern "C" void h_##name##_ascii_lent() { name<A, false>(); } extern "C" void h_##name##_ascii_own() { name<A, true>(); } \
  extern "C" void h_##name##_uni_lent() { name<U, false>(); } extern "C" void h_##name##_uni_own() { name<U, true>(); } \
  extern "C" void h_##name##_bytes_lent() { name<B, false>(); } extern "C" void h_##name##_bytes_own() { name<B, true>(); } \
  extern "C" void h_##name##_u32_lent() { name<W, false>(); } extern "C" void h_##name##_u32_own() { name<W, true>(); } \
  extern "C" void h_##name##_i64_lent() { name<L, false>(); } extern "C" void h_##name##_i64_own() { name<L, true>(); } \
  template <class K, bool own> static void name()
#define FORSTR(name) template <class K, bool own> static void name(); \
  extern "C" void h_##name##_ascii_lent() { name<A, false>(); } extern "C" void h_##name##_ascii_own() { name<A, true>(); } \
  extern "C" void h_##name##_uni_lent() { name<U, false>(); } extern "C" void h_##name##_uni_own() { name<U, true>(); } \
  template <class K, bool own> static void name()
#define FORINIT(name) template <class K, bool own> static void name(); \
  extern "C" void h_##name##_ascii_lent() { name<A, false>(); } extern "C" void h_##name##_ascii_own() { name<A, true>(); } \
  extern "C" void h_##name##_uni_lent() { name<U, false>(); } extern "C" void h_##name##_uni_own() { name<U, true>(); } \
  extern "C" void h_##name##_bytes_lent() { name<B, false>(); } extern "C" void h_##name##_bytes_own() { name<B, true>(); } \
  template <class K, bool own> static void name()
#define FORNUM(name) template <class K, bool own> static void name(); \
  extern "C" void h_##name##_bytes_lent() { name<B, false>(); } extern "C" void h_##name##_bytes_own() { name<B, true>(); } \
  extern "C" void h_##name##_u32_lent() { name<W, false>(); } extern "C" void h_##name##_u32_own() { name<W, true>(); } \
  extern "C" void h_##name##_i64_lent() { name<L, false>(); } extern "C" void h_##name##_i64_own() { name<L, true>(); } \
  template <class K, bool own> static void name()
// the slow operations are split by where the watched element comes from: before, inside or after the inserted elements
#define FORPART(name) template <class K, bool own, int part> static void name(); \
  FORPART1(name, 0) FORPART1(name, 1) FORPART1(name, 2) template <class K, bool own, int part> static void name()
#define FORPART1(name, p) \
  extern "C" void h_##name##p##_ascii_lent() { name<A, false, p>(); } extern "C" void h_##name##p##_ascii_own() { name<A, true, p>(); } \
  extern "C" void h_##name##p##_uni_lent() { name<U, false, p>(); } extern "C" void h_##name##p##_uni_own() { name<U, true, p>(); } \
  extern "C" void h_##name##p##_bytes_lent() { name<B, false, p>(); } extern "C" void h_##name##p##_bytes_own() { name<B, true, p>(); } \
  extern "C" void h_##name##p##_u32_lent() { name<W, false, p>(); } extern "C" void h_##name##p##_u32_own() { name<W, true, p>(); } \
  extern "C" void h_##name##p##_i64_lent() { name<L, false, p>(); } extern "C" void h_##name##p##_i64_own() { name<L, true, p>(); }
#define PART(m) irv_assume(part == 0 ? w < p : part == 1 ? (w >= p) & (w - p < m) : w >= p + m);
#define TYPES typedef typename K::T T; (void)sizeof(T);
#define WATCH(size) u64 w = irv_n("watch"); { u64 sz_ = (size); irv_assume((w < sz_) | (sz_ == 0)); }
// ---- growing without changing the value -----------------------------------------------------
FOR(reserve) { TYPES fld<K> f(own); WATCH(f.n) T e = f.old(w); u64 n = irv_n("n"), len = f.st.of_array.len_;
  f.ref().reserve(n);
  irv_assert((f.st.of_array.len_ == len) | ((len == 0) & (f.st.of_array.len_ == 1)), "the length is unchanged");
  irv_assert(f.st.of_array.capacity_in_bytes_ / sizeof(T) > n, "room for more than n elements");
  if (w < f.n) { irv_assert(f.at(w) == e, "every element is unchanged"); irv_cover("elements"); }
  irv_cover("end"); f.fine(); }
FOR(resize) { TYPES fld<K> f(own); u64 n = irv_n("n"); T c = K::any("c"); bool given = irv_bool("given"); if (!given) c = 0; WATCH(n) T e = f.old(w); g_fill = w - f.n;
  if (given) f.ref().resize(n, c); else f.ref().resize(n);
  f.is(n);
  if (n) irv_assert(f.at(w) == (w < f.n ? e : c), "elements kept, new ones are the given value");
  if (n > f.n) irv_cover("grown"); if (n < f.n) irv_cover("shrunk"); f.fine(); }
// ---- adding ----------------------------------------------------------------------------------
FOR(push_back) { TYPES fld<K> f(own); T c = K::any("c"); WATCH(f.n + 1) T e = f.old(w);
  f.ref().push_back(c);
  f.is(f.n + 1); irv_assert(f.at(w) == (w < f.n ? e : c), "one element at the end"); irv_cover("end"); f.fine(); }
FOR(pop_back) { TYPES fld<K> f(own); WATCH(f.n) T e = f.old(w); bool pres = f.pres | !f.opt;
  f.ref().pop_back();
  irv_assert(f.ref().present() == pres, "presence unchanged"); u64 n = f.ref().size(); irv_assert(n == f.n - (f.n > 0), "one element less");
  if (w < n) { irv_assert(f.at(w) == e, "the others are unchanged"); irv_cover("elements"); } f.fine(); }
FOR(insert_one) { TYPES fld<K> f(own); T c = K::any("c"); u64 p = irv_n("pos"); irv_assume(p <= f.n); WATCH(f.n + 1) T e = f.old(w - (w > p));
  auto it = f.ref().insert(f.ref().begin() + p, c);
  f.is(f.n + 1); irv_assert(it == f.ref().begin() + p, "iterator to the new element");
  irv_assert(f.at(w) == (w == p ? c : e), "one element at the position"); irv_cover("end"); f.fine(); }
FORPART(insert_n) { TYPES fld<K> f(own); T c = K::any("c"); u64 p = irv_n("pos"), m = irv_n("count"); irv_assume(p <= f.n); WATCH(f.n + m) PART(m) T e = part == 1 ? 0 : f.old(part == 0 ? w : w - m); g_fill = w - p;
  f.ref().insert(f.ref().begin() + p, (size_t)m, c);
  f.is(f.n + m); if (w < f.n + m) irv_assert(f.at(w) == (part == 1 ? c : e), "that many elements at the position"); irv_cover("end"); f.fine(); }
FORPART(insert_range) { TYPES fld<K> f(own); u64 p = irv_n("pos"), m = irv_n("count"); const T *src = (const T *)irv_buf("src", m * sizeof(T)); irv_assume(p <= f.n); WATCH(f.n + m) PART(m) T e = part == 1 ? 0 : f.old(part == 0 ? w : w - m);
  f.ref().insert(f.ref().begin() + p, src, src + m);
  f.is(f.n + m); if (w < f.n + m) irv_assert(f.at(w) == (part == 1 ? src[w - p] : e), "the range at the position"); irv_cover("end"); f.fine(); }
// ---- assigning -------------------------------------------------------------------------------
FOR(assign_range) { TYPES fld<K> f(own); u64 m = irv_n("count"); const T *src = (const T *)irv_buf("src", m * sizeof(T)); WATCH(m)
  f.ref().assign(src, src + m);
  f.is(m); if (m) irv_assert(f.at(w) == src[w], "exactly the range"); irv_cover("end"); f.fine(); }
FOR(assign_n) { TYPES fld<K> f(own); u64 m = irv_n("count"); T c = K::any("c"); WATCH(m) g_fill = w;
  f.ref().vector_mref_base<typename K::E>::assign((size_t)m, c);
  f.is(m); if (m) irv_assert(f.at(w) == c, "that many copies"); irv_cover("end"); f.fine(); }
FORNUM(as_array) { TYPES fld<K> f(own); T src[5]; for (int i = 0; i < 5; ++i) src[i] = K::any("src"); WATCH(5)
  f.ref().template vector_mref_base<typename K::E>::template as<5>(src);
  f.is(5); irv_assert(f.at(w) == src[w], "exactly the array"); irv_cover("end"); f.fine(); }
FOR(as_field) { TYPES fld<K> f(own); u64 m = irv_n("count"); bool here = irv_bool("here"); const T *src = (const T *)irv_buf("src", m * sizeof(T)); WATCH(m) bool pres = f.pres | !f.opt;
  value_storage s(""); s.of_array.content_ = (void *)src; s.of_array.len_ = here ? (uint32_t)m + 1 : 0; auto in2 = K::make(true, nullptr, 0, false);
  f.ref().as(typename K::cref(&s, &in2));
  if (!here) { irv_assert(f.ref().present() == !f.opt, "absent if it can be"); irv_cover("absent"); }
  else { f.is(m); if (m) irv_assert(f.at(w) == src[w], "exactly the other field's elements"); irv_cover("end"); } f.fine(); }
FORINIT(initial) { TYPES u64 m = irv_n("count"); bool has = irv_bool("has"); const T *src = (const T *)irv_buf("src", m * sizeof(T)); fld<K> f(own, (const char *)src, m, has); WATCH(m) bool pres = f.pres | !f.opt;
  f.ref().to_initial_value();
  if (!has) { irv_assert(f.ref().present() == !f.opt, "absent if it can be"); irv_cover("none"); }
  else { f.is(m); if (m) irv_assert(f.at(w) == src[w], "exactly the initial value"); irv_cover("end"); } f.fine(); }
FOR(refers_to) { TYPES fld<K> f(own); u64 m = irv_n("count"); const T *src = (const T *)irv_buf("src", m * sizeof(T)); 
  f.ref().vector_mref_base<typename K::E>::refers_to(src, m);
  f.is(m); irv_assert(f.st.of_array.content_ == src && f.st.of_array.capacity_in_bytes_ == 0, "borrows the given elements"); irv_cover("end"); f.fine(); }
FORPART(replace) { TYPES fld<K> f(own); u64 p = irv_n("pos"), c = irv_u64("count"), m = irv_n("count2"); const T *src = (const T *)irv_buf("src", m * sizeof(T)); irv_assume(p <= f.n);
  u64 cut = c < f.n - p ? c : f.n - p, n = f.n - cut + m; WATCH(n) PART(m) T e = part == 1 ? 0 : f.old(part == 0 ? w : w - m + cut);
  f.ref().replace(p, c, src, m);
  f.is(n); if (w < n) irv_assert(f.at(w) == (part == 1 ? src[w - p] : e), "the range in place of the elements"); irv_cover("end"); f.fine(); }
FOR(omit) { TYPES fld<K> f(own); bool clear = irv_bool("clear"); WATCH(f.n) T e = f.old(w); bool pres = f.pres | !f.opt;
  if (clear) f.ref().clear(); else f.ref().omit();
  if (f.opt) { irv_assert(f.ref().absent(), "absent"); irv_cover("absent"); }
  else if (clear) { f.is(0); irv_cover("empty"); }
  else { irv_assert(f.ref().present() == pres && f.ref().size() == f.n, "a mandatory field is not omitted"); if (w < f.n) irv_assert(f.at(w) == e, "elements unchanged"); irv_cover("kept"); }
  f.fine(); }
FOR(access) { TYPES fld<K> f(own); WATCH(f.n) T e = f.old(w); typename K::cref c(&f.st, &f.in);
  irv_assert(f.ref().size() == f.n && c.size() == f.n && c.length() == f.n, "size"); irv_assert(c.present() == (f.pres | !f.opt) && f.ref().present() == (f.pres | !f.opt), "presence");
  irv_assert(f.ref().end() - f.ref().begin() == (int64_t)f.n && c.end() - c.begin() == (int64_t)f.n, "iterators span the elements");
  if (w < f.n) { irv_assert(c[w] == e && c.begin()[w] == e && f.ref().begin()[w] == e && f.ref().data()[w] == e, "elements"); irv_assert(c.rbegin()[f.n - 1 - w] == e && f.ref().rbegin()[f.n - 1 - w] == e, "elements backwards");
    if (own) { T x = K::any("x"); f.ref()[w] = x; irv_assert(f.at(w) == x && f.ref().size() == f.n, "element assigned"); } irv_cover("elements"); }
  f.fine(); }
FOR(swap) { TYPES fld<K> f(own); u64 m = irv_n("count"); const T *src = (const T *)irv_buf("src", m * sizeof(T)); value_storage s(""); s.of_array.content_ = (void *)src; s.of_array.len_ = (uint32_t)m + 1; s.of_array.capacity_in_bytes_ = 0;
  uint32_t len = f.st.of_array.len_; void *p = f.st.of_array.content_; uint32_t cap = f.st.of_array.capacity_in_bytes_;
  typename K::mref g(&f.al, &s, &f.in), r = f.ref(); r.vector_mref_base<typename K::E>::swap(g);
  f.is(m); irv_assert(f.st.of_array.content_ == src && s.of_array.content_ == p && s.of_array.len_ == len && s.of_array.capacity_in_bytes_ == cap, "values exchanged");
  g.vector_mref_base<typename K::E>::swap(r); irv_cover("end"); f.fine(); }
// ---- text -------------------------------------------------------------------------------------
FORSTR(as_text) { fld<K> f(own); u64 m = irv_n("count"); const char *src = irv_buf("src", m); WATCH(m) int how = irv_concretize(irv_u8("how") & 1);
  if (how) f.ref().as(boost::string_ref(src, m)); else { auto r = f.ref(); r = boost::string_ref(src, m); }
  f.is(m); if (m) irv_assert(f.at(w) == src[w], "exactly the text"); irv_cover("end"); f.fine(); }
FORSTR(append) { fld<K> f(own); u64 m = irv_n("count"), from = irv_n("from"), sub = irv_n("sub"); const char *src = irv_buf("src", m); int how = irv_concretize(irv_u8("how") % 5);
  if (how == 1) irv_assume((from < m) & (sub < m - from)); else { from = 0; sub = m; }
  WATCH(f.n + sub) char e = f.old(w);
  if (how == 0) f.ref().append(boost::string_ref(src, m)); else if (how == 1) f.ref().append(boost::string_ref(src, m), from, sub); else if (how == 2) f.ref().append(src, (size_t)m); else if (how == 3) f.ref().append(src, src + m); else f.ref() += boost::string_ref(src, m);
  f.is(f.n + sub); if (f.n + sub) irv_assert(f.at(w) == (w < f.n ? e : src[from + w - f.n]), "the text at the end"); irv_cover("end"); f.fine(); }
FORSTR(append_n) { fld<K> f(own); char c = irv_u8("c"); u64 m = irv_n("count"); bool one = irv_concretize(irv_bool("one")); if (one) m = 1; WATCH(f.n + m) char e = f.old(w); g_fill = w - f.n;
  if (one) f.ref() += c; else f.ref().append((size_t)m, c);
  f.is(f.n + m); if (f.n + m) irv_assert(f.at(w) == (w < f.n ? e : c), "that many characters at the end"); irv_cover("end"); f.fine(); }
FORSTR(value) { fld<K> f(own); WATCH(f.n) char e = f.old(w); typename K::cref c(&f.st, &f.in); boost::string_ref v = c.value();
  irv_assert(v.size() == f.n, "length of the text"); if (w < f.n) { irv_assert(v[w] == e, "the text"); irv_cover("elements"); } f.fine(); }
FORSTR(c_str) { fld<K> f(own); WATCH(f.n) char e = f.old(w); if (own) irv_assume(f.pres); typename K::cref c(&f.st, &f.in);
  const char *s = c.c_str();
  if (own) irv_assert(s[f.n] == 0, "terminated"); else irv_assert(s == f.lent, "borrowed text is passed on");
  if (w < f.n) { irv_assert(s[w] == e, "the text"); irv_cover("elements"); } if (own) f.is(f.n); f.fine(); }
FORSTR(shallow_assign) { fld<K> f(own); u64 m = irv_n("count"); const char *src = irv_cstr("src", m); bool z = irv_concretize(irv_bool("z"));
  if (z) f.ref().string_mref_base<typename K::E>::shallow_assign(src); else f.ref().string_mref_base<typename K::E>::refers_to(boost::string_ref(src, m));
  f.is(m); irv_assert(f.st.of_array.content_ == src && f.st.of_array.capacity_in_bytes_ == 0, "borrows the text"); irv_cover("end"); f.fine(); }
