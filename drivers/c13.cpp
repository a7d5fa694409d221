// C13: allocators hand out disjoint, aligned, stable memory.  The arena is in an arbitrary state: any chunks, partly used; only the
// chunks an operation can look at are materialised (what lies behind them in the lists is an arbitrary further chunk or nothing).
#include "irv.h"
#include <new>
#include <cstdlib>
#include "mfast/arena_allocator.h"
#include "mfast/malloc_allocator.h"
#include "mfast/allocator_utils.h"
using namespace mfast;
typedef uint64_t u64; typedef arena_allocator::memory_chunk chunk; typedef arena_allocator::memory_chunk_base base;
static inline u64 n31(const char *name) { return irv_u32(name) & 0x7fffffff; }
enum { head = offsetof(base, user_memory) };
// a chunk: header, memory in use, free memory
struct ck { chunk *c; u64 size, used, k; char v;
  char *mem() { return (char *)c + head; } char *end() { return (char *)c + size; }
  void make(const char *nsize, const char *nused, const char *ncont, const char *nk) {
    size = n31(nsize) & ~(u64)7; used = n31(nused) & ~(u64)7; irv_assume(size >= head + 8); irv_assume(used <= size - head);
    void *b = malloc(size); memcpy(b, irv_buf(ncont, size), size); c = new (b) chunk(size, nullptr); c->start_ = mem() + used;
    k = irv_u64(nk); irv_assume((k < used) | (used == 0)); v = used ? mem()[k] : 0;
  }
  void intact(bool moved, u64 n) {  // nothing handed out changes; the chunk's bounds are as they were, or n bytes more are in use
    if (used) irv_assert(mem()[k] == v, "memory in use is never written");
    irv_assert(c->end_ == end(), "the end of a chunk is fixed"); irv_assert(c->start_ == mem() + used + (moved ? n : 0), "exactly the block handed out becomes used");
  }
};
struct arena { arena_allocator a; ck c, f, cr, fr; bool has_f, has_cr, has_fr;
  arena(bool lists = true) { free(a.current_list_head_);
    c.make("c_size", "c_used", "c_cont", "ck"); f.make("f_size", "f_used", "f_cont", "fk"); cr.make("cr_size", "cr_used", "cr_cont", "crk"); fr.make("fr_size", "fr_used", "fr_cont", "frk");
    has_f = irv_concretize(irv_bool("has_free")); has_cr = irv_concretize(irv_bool("has_more")); has_fr = irv_concretize(irv_bool("has_more_free")); if (!has_f) has_fr = false;
    a.current_list_head_ = c.c; c.c->next_ = has_cr ? cr.c : nullptr; a.free_list_head_ = has_f ? f.c : nullptr; f.c->next_ = has_fr ? fr.c : nullptr;
    if (!has_f) free(f.c); if (!has_cr) free(cr.c); if (!has_fr) free(fr.c); }
  // every chunk is in exactly one list, exactly once; returns the one that is new, if any
  base *census(int extra) { int nc = 0, nf = 0, ncr = 0, nfr = 0, other = 0, all = 0; base *o = nullptr;
    for (int l = 0; l < 2; ++l) for (base *p = l ? a.free_list_head_ : a.current_list_head_; p; p = p->next_) {
      if (++all > 6) break;
      if (p == c.c) ++nc; else if (has_f && p == f.c) ++nf; else if (has_cr && p == cr.c) ++ncr; else if (has_fr && p == fr.c) ++nfr; else ++other, o = p; }
    irv_assert(nc == 1 && nf == has_f && ncr == has_cr && nfr == has_fr, "every chunk stays in exactly one list"); irv_assert(other <= extra, "no foreign chunk");
    return o; }
};
// the block [p, p+n) was free, is inside a chunk, aligned, and now counts as used
static void handed_out(arena &A, char *p, u64 n) {
  u64 m = (n + 7) & ~(u64)7; base *o = A.census(1);
  irv_assert(((u64)p & 7) == 0, "aligned");
  bool in_c = irv_same_object(p, A.c.c), in_f = A.has_f && irv_same_object(p, A.f.c), in_o = o && irv_same_object(p, o);
  irv_assert(in_c | in_f | in_o, "from a chunk of the arena");
  A.c.intact(in_c, m); if (A.has_f) A.f.intact(in_f, m); if (A.has_cr) A.cr.intact(false, 0); if (A.has_fr) A.fr.intact(false, 0);
  if (in_c) { irv_assert(p == A.c.mem() + A.c.used && m <= A.c.size - head - A.c.used, "memory that was free and is inside the chunk"); irv_cover("current"); }
  if (in_f) { irv_assert(p == A.f.mem() + A.f.used && m <= A.f.size - head - A.f.used, "memory that was free and is inside the chunk"); irv_cover("free list"); }
  if (o) { u64 s = irv_objsize(o); irv_assert(o->end_ == (char *)o + s && s >= head && s % 8 == 0, "a new chunk ends where its memory ends");
    irv_assert(o->start_ >= (char *)o->user_memory && o->start_ <= o->end_, "a new chunk's free memory is inside");
    if (in_o) { irv_assert(p == (char *)o->user_memory && o->start_ == p + m, "memory that was free and is inside the chunk"); irv_cover("new"); } }
}
extern "C" void h_arena_allocate() { arena A; u64 n = n31("n"); char *p = (char *)A.a.allocate(n); handed_out(A, p, n); }
// growing: old contents move along
template <int where> static void grow() { arena A; u64 old = where ? n31("old") : 0, n = n31("n"); irv_assume(old <= n); u64 w = irv_u64("w"); irv_assume((w < old) | (old == 0));
  void *before = where ? irv_buf("block", old) : nullptr, *q = before; char v = old ? ((char *)q)[w] : 0;   // a block obtained earlier, in some chunk's used memory
  u64 got = A.a.reallocate(q, old, n);
  irv_assert(got >= n, "at least the size asked for"); handed_out(A, (char *)q, got);
  if (old) { irv_assert(((char *)q)[w] == v, "previous contents are preserved"); irv_assert(((char *)before)[w] == v, "memory in use is never written"); irv_cover("contents"); } }
extern "C" void h_arena_grow() { grow<1>(); }
extern "C" void h_arena_first() { grow<0>(); }
extern "C" void h_arena_deallocate() { arena A; A.a.deallocate(A.c.mem(), n31("n")); A.census(0); A.c.intact(false, 0); if (A.has_f) A.f.intact(false, 0); irv_cover("end"); }
extern "C" void h_arena_new() { u64 live = irv_heap_live(); { arena_allocator a; chunk *c = a.current_list_head_; irv_assert(c && c->next_ == nullptr && a.free_list_head_ == nullptr, "one chunk");
  irv_assert(c->start_ == (char *)c->user_memory && c->end_ == (char *)c + irv_objsize(c) && c->start_ <= c->end_, "all of it free"); irv_cover("end"); } irv_assert(irv_heap_live() == live, "all memory is released once"); }
// reset and destruction walk the lists: at most two chunks in each (bounded)
extern "C" void h_arena_reset() { arena A; bool r = A.a.reset(); irv_assert(r, "done"); A.census(0);
  irv_assert(A.a.current_list_head_ != nullptr, "a chunk to allocate from");
  ck *all[4] = {&A.c, &A.f, &A.cr, &A.fr}; bool has[4] = {true, A.has_f, A.has_cr, A.has_fr};
  for (int i = 0; i < 4; ++i) if (has[i]) { ck &k = *all[i]; irv_assert(k.c->end_ == k.end(), "the end of a chunk is fixed"); irv_assert((k.c->start_ >= k.mem()) & (k.c->start_ <= k.mem() + k.used), "free memory starts inside the chunk"); irv_assert(((u64)(k.c->start_ - k.mem()) & 7) == 0, "and stays aligned"); }
  irv_cover("end"); }
extern "C" void h_arena_destroy() { u64 live = irv_heap_live(); { arena A; irv_cover("end"); } irv_assert(irv_heap_live() == live, "all memory is released once"); }
// ---- heap -------------------------------------------------------------------------------------
extern "C" void h_heap_allocate() { malloc_allocator a; u64 n = n31("n"), live = irv_heap_live(); void *p = a.allocate(n); irv_assert(irv_heap_live() == live + 1 && irv_objsize(p) >= n, "a block of its own"); a.deallocate(p, n); irv_assert(irv_heap_live() == live, "released"); irv_cover("end"); }
template <bool first> static void heap_grow() { malloc_allocator a; u64 live = irv_heap_live(), old = n31("old"), n = n31("n"); if (first) old = 0; else irv_assume(old <= n); u64 w = irv_u64("w"); irv_assume((w < old) | (old == 0));
  void *p = nullptr; if (!first) { p = malloc(old); memcpy(p, irv_buf("cont", old), old); } char v = old ? ((char *)p)[w] : 0;
  u64 got = a.reallocate(p, old, n);
  irv_assert(got >= n && irv_objsize(p) >= got, "at least the size asked for"); irv_assert(irv_heap_live() == live + 1, "one block"); if (old) { irv_assert(((char *)p)[w] == v, "previous contents are preserved"); irv_cover("contents"); }
  a.deallocate(p, got); irv_assert(irv_heap_live() == live, "released"); irv_cover("end"); }
extern "C" void h_heap_grow() { heap_grow<false>(); }
extern "C" void h_heap_first() { heap_grow<true>(); }
extern "C" void h_align() { u64 n = irv_u64("n") & 0xffffffffffffull; int s = irv_concretize(irv_u8("s") % 13); u64 x = (u64)1 << s; u64 r = align(n, x); irv_assert(r >= n && r - n < x && (r & (x - 1)) == 0, "the next multiple"); irv_cover("end"); }
// the base class' reallocate, on top of any allocate/deallocate
struct by_base : allocator { malloc_allocator m; void *freed = nullptr; void *allocate(size_t n) override { return m.allocate(n); } void deallocate(void *p, size_t n) override { freed = p; m.deallocate(p, n); }
  size_t reallocate(void *&p, size_t o, size_t n) override { return allocator::reallocate(p, o, n); } };
template <bool first> static void base_grow() { by_base a; u64 live = irv_heap_live(), old = n31("old"), n = n31("n"); if (first) old = 0; else irv_assume(old <= n); u64 w = irv_u64("w"); irv_assume((w < old) | (old == 0));
  void *p = nullptr; if (!first) { p = malloc(old); memcpy(p, irv_buf("cont", old), old); } char v = old ? ((char *)p)[w] : 0;
  u64 got = a.reallocate(p, old, n);
  irv_assert(got >= n && irv_objsize(p) >= got, "at least the size asked for"); irv_assert(irv_heap_live() == live + 1, "one block"); if (old) { irv_assert(((char *)p)[w] == v, "previous contents are preserved"); irv_cover("contents"); } free(p); irv_cover("end"); }
extern "C" void h_base_grow() { base_grow<false>(); }
extern "C" void h_base_first() { base_grow<true>(); }
