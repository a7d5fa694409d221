// Contracts of vector_mref_base<T>::reserve and resize (discharged against their bodies by C12), used in place of the bodies.
#pragma once
#include "irv.h"
#include "mfast/string_ref.h"
#ifndef IRV_NATIVE
// memory for more than n elements; the first min(size, n) elements keep their values (all owned ones if there was memory)
template <class T> inline void vec_reserve(const mfast::vector_mref_base<T> *v, size_t n) {
  auto &a = v->storage()->of_array; const size_t cap = a.capacity_in_bytes_ / sizeof(T);
  if (cap > n) return;
  irv_assert(n < ((uint64_t)1 << 31) / sizeof(T) - 64, "requested number of elements is sensible");
  uint64_t room = irv_u64("havoc_room"); irv_assume((room > n) & (room <= ((uint64_t)1 << 31) / sizeof(T) - 1));
  char *p = (char *)v->alloc_->allocate(room * sizeof(T));
  const size_t size = a.len_ - (a.len_ > 0), few = size < n ? size : n;
  if (a.capacity_in_bytes_ > 0) { memcpy(p, a.content_, a.capacity_in_bytes_); v->alloc_->deallocate(a.content_, a.capacity_in_bytes_); }
  else { memcpy(p, a.content_, few * sizeof(T)); a.len_ += a.len_ == 0; }
  a.content_ = p; a.capacity_in_bytes_ = (uint32_t)(room * sizeof(T));
}
template <class T> inline void vec_resize(const mfast::vector_mref_base<T> *v, size_t n) { vec_reserve(v, n); v->storage()->of_array.len_ = (uint32_t)n + 1; }
extern "C" {
unsigned char *lib_copy_cu(const char *a, const char *b, unsigned char *o) { memmove(o, a, b - a); return o + (b - a); }
void vec_reserve_c(const mfast::vector_mref_base<char> *v, size_t n) { vec_reserve(v, n); }
void vec_reserve_u(const mfast::vector_mref_base<unsigned char> *v, size_t n) { vec_reserve(v, n); }
void vec_resize_c(const mfast::vector_mref_base<char> *v, size_t n, char) { vec_resize(v, n); }
void vec_resize_u(const mfast::vector_mref_base<unsigned char> *v, size_t n, char) { vec_resize(v, n); }
void vec_reserve_8(const mfast::vector_mref_base<mfast::utf8_char> *v, size_t n) { vec_reserve(v, n); }
void vec_resize_8(const mfast::vector_mref_base<mfast::utf8_char> *v, size_t n, char) { vec_resize(v, n); }
}
#endif
