// String-like fields: the three kinds and field storage in an arbitrary state.
#pragma once
#include "mfast/string_ref.h"
#include "mfast/malloc_allocator.h"
#include "feed.h"
inline uint64_t irv_len(const char *name) { return irv_u32(name) & 0x1fffffffu; }
struct A { typedef char ch; typedef mfast::ascii_field_instruction inst; typedef mfast::ascii_string_mref mref; typedef mfast::ascii_string_cref cref; enum { kind = k_ascii };
  static inst make(mfast::operator_enum_t op, bool opt, bool has, const char *p, uint64_t l) { return inst(op, opt ? mfast::presence_optional : mfast::presence_mandatory, 1, "f", "", nullptr, has ? mfast::string_value_storage(p, l) : mfast::string_value_storage()); }
  static char elem(const char *b, uint64_t len, uint64_t k) { if (irv_concretize(k == len - 1)) return (char)(b[k] & 0x7f); irv_assume(b[k] >= 0); /* only the last byte carries the stop bit */ return b[k]; } };
struct U { typedef char ch; typedef mfast::unicode_field_instruction inst; typedef mfast::unicode_string_mref mref; typedef mfast::unicode_string_cref cref; enum { kind = k_unicode };
  static inst make(mfast::operator_enum_t op, bool opt, bool has, const char *p, uint64_t l) { return inst(op, opt ? mfast::presence_optional : mfast::presence_mandatory, 1, "f", "", nullptr, has ? mfast::string_value_storage(p, l) : mfast::string_value_storage(), 0, "", ""); }
  static char elem(const char *b, uint64_t, uint64_t k) { return b[k]; } };
struct B { typedef unsigned char ch; typedef mfast::byte_vector_field_instruction inst; typedef mfast::byte_vector_mref mref; typedef mfast::byte_vector_cref cref; enum { kind = k_bytes };
  static inst make(mfast::operator_enum_t op, bool opt, bool has, const char *p, uint64_t l) { return inst(op, opt ? mfast::presence_optional : mfast::presence_mandatory, 1, "f", "", nullptr, has ? mfast::byte_vector_value_storage(p, l) : mfast::byte_vector_value_storage(), 0, "", ""); }
  static char elem(const char *b, uint64_t, uint64_t k) { return b[k]; } };
// a string entity with arbitrary content
template <class K> inline item &feed_string(const char *nlen, const char *ntext, bool nullable, bool null, bool cut) {
  item &t = feed_add(K::kind, nullable, null, cut);
  t.len = irv_len(nlen); char *p = irv_buf(ntext, t.len); t.p = p;
  if (K::kind == k_ascii && t.len) irv_assume((t.len == 1) | ((p[0] & 0x7f) != 0));
  return t;
}
// a field's storage in any state its owner can have left it in
template <class K> struct field {
  mfast::value_storage st; mfast::malloc_allocator *al; uint64_t live;
  field(mfast::malloc_allocator *a, bool own) : al(a) {
    live = irv_heap_live();
    uint64_t l = irv_len("oldlen"); bool pres = irv_bool("oldpres");
    st.of_array.defined_bit_ = 1; st.of_array.capacity_in_bytes_ = 0;
    if (own) {                                                     // memory obtained from the allocator, room for the length and a terminator
      uint64_t c = irv_len("oldcap"); irv_assume((c > 0) & (l < c));
      const char *src = irv_buf("old", c); void *p = a->allocate(c); memcpy(p, src, c);
      st.of_array.content_ = p; st.of_array.capacity_in_bytes_ = (uint32_t)c;
    } else st.of_array.content_ = irv_buf("lent", l);
    st.of_array.len_ = ((uint32_t)l + 1) & -(uint32_t)pres;
  }
  template <class I> void done(I &inst) { inst.destruct_value(st, al); irv_assert(irv_heap_live() == live, "memory released exactly once"); }
};
// a dictionary entry; modes 2 and 3: it refers to the memory of the field itself
enum { undefined_state, empty_state, assigned_state };
inline void any_prev(mfast::value_storage &prev, const mfast::value_storage &st, int mode, int state) {
  uint64_t l = irv_len("prevlen");
  if (mode == 2) irv_assume(l < st.of_array.capacity_in_bytes_);
  if (mode == 3) l = st.array_length();
  prev.of_array.content_ = mode >= 2 ? st.of_array.content_ : irv_buf("prev", l);
  prev.of_array.len_ = state == assigned_state ? (uint32_t)l + 1 : 0; prev.of_array.capacity_in_bytes_ = 0; prev.of_array.defined_bit_ = state != undefined_state;
}
inline int str_state(const mfast::value_storage &s) { return !s.of_array.defined_bit_ ? undefined_state : s.of_array.len_ ? assigned_state : empty_state; }
