// Verification intrinsics.  The same harness is (1) compiled to LLVM IR and discharged by the
// verifier for all values, (2) compiled natively to replay a counterexample on the real code.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string.h>
extern "C" {
uint8_t irv_u8(const char *name);
uint16_t irv_u16(const char *name);
uint32_t irv_u32(const char *name);
uint64_t irv_u64(const char *name);
bool irv_bool(const char *name);
char *irv_buf(const char *name, uint64_t size);       // fresh block, arbitrary bytes
char *irv_cstr(const char *name, uint64_t len);       // NUL terminated, exactly len non-NUL bytes
void irv_assume(bool c);
void irv_assert(bool c, const char *name);
void irv_cover(const char *name);                     // must be reachable (vacuity guard)
void irv_assert_bytes_eq(const void *p, const void *q, uint64_t n, const char *name);
void irv_assume_bytes_eq(const void *p, const void *q, uint64_t n);
uint64_t irv_error_code(const void *fast_error_object);  // code characters packed little endian
bool irv_same_object(const void *p, const void *q);
bool irv_live(const void *p);
uint64_t irv_objsize(const void *p);
uint64_t irv_heap_live();
uint64_t irv_concretize(uint64_t v);                  // case split on the value
void irv_dump(const char *name, uint64_t v);
}
#define IRV_CODE2(a, b) ((uint64_t)(unsigned char)(a) | ((uint64_t)(unsigned char)(b) << 8))
