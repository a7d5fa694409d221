// Native runtime of the intrinsics: replays recorded inputs (or random ones) on the real code.
#include "irv.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>
#include <dlfcn.h>
#include <exception>
#include <boost/exception/all.hpp>
#include "mfast/exceptions.h"
namespace mfast { struct tag_error_code; }
static bool g_random = false; static uint64_t g_seed = 1;
static uint64_t rnd() { g_seed ^= g_seed << 13; g_seed ^= g_seed >> 7; g_seed ^= g_seed << 17; return g_seed; }
struct rec { std::string kind, name; uint64_t v; std::string bytes; };
static std::vector<rec> recs; static size_t pos;
static rec *next(const char *kind, const char *name) {
  if (pos < recs.size() && recs[pos].name == name) return &recs[pos++];
  if (pos < recs.size()) { std::printf("IRV-INPUT-MISMATCH want %s have %s\n", name, recs[pos].name.c_str()); std::fflush(0); _Exit(78); }
  return nullptr;
}
static uint64_t rint_(int w) {
  uint64_t r = rnd();
  switch (r % 8) {
    case 0: r = 0; break; case 1: r = 1; break; case 2: r = ~0ull; break;
    case 3: r = 1ull << (rnd() % 64); break; case 4: r = (1ull << (rnd() % 64)) - 1; break;
    case 5: r = rnd() % 20; break; default: r = rnd();
  }
  return w == 64 ? r : r & ((1ull << w) - 1);
}
static uint64_t val(const char *name, int w) {
  if (g_random) return rint_(w);
  rec *r = next("u", name); return r ? r->v : 0;
}
extern "C" {
uint8_t irv_u8(const char *n) { return (uint8_t)val(n, 8); }
uint16_t irv_u16(const char *n) { return (uint16_t)val(n, 16); }
uint32_t irv_u32(const char *n) { return (uint32_t)val(n, 32); }
uint64_t irv_u64(const char *n) { return val(n, 64); }
bool irv_bool(const char *n) { return val(n, 8) & 1; }
char *irv_buf(const char *n, uint64_t size) {
  if (size > (1u << 28)) _Exit(77);
  if (g_random && size > 4096) _Exit(77);
  char *p = (char *)malloc(size); memset(p, 0, size);
  if (g_random) { for (uint64_t i = 0; i < size; ++i) p[i] = (char)(rnd() % 3 ? rnd() % 128 : rnd()); return p; }
  rec *r = next("buf", n);
  if (r) memcpy(p, r->bytes.data(), r->bytes.size() < size ? r->bytes.size() : size);
  return p;
}
char *irv_cstr(const char *n, uint64_t len) {
  char *p = irv_buf(n, len + 1);
  for (uint64_t i = 0; i < len; ++i) if (!p[i]) p[i] = 'x';
  p[len] = 0; return p;
}
void irv_assume(bool c) { if (!c) { std::printf("IRV-ASSUME\n"); std::fflush(0); _Exit(77); } }
void irv_assert(bool c, const char *n) { if (!c) { std::printf("IRV-ASSERT-FAILED %s\n", n); std::fflush(0); _Exit(42); } }
void irv_cover(const char *) {}
void irv_assert_bytes_eq(const void *p, const void *q, uint64_t n, const char *nm) { irv_assert(n == 0 || memcmp(p, q, n) == 0, nm); }
void irv_assume_bytes_eq(const void *p, const void *q, uint64_t n) { irv_assume(n == 0 || memcmp(p, q, n) == 0); }
uint64_t irv_error_code(const void *e) {
  const mfast::fast_error *x = static_cast<const mfast::fast_error *>(e);
  const std::string *s = boost::get_error_info<boost::error_info<mfast::tag_error_code, std::string>>(*x);
  uint64_t r = 0; if (s) for (size_t i = 0; i < s->size() && i < 8; ++i) r |= (uint64_t)(unsigned char)(*s)[i] << (8 * i);
  return r;
}
bool irv_same_object(const void *, const void *) { return false; }
bool irv_live(const void *) { return true; }
uint64_t irv_objsize(const void *) { return 0; }
uint64_t irv_heap_live() { return 0; }
uint64_t irv_concretize(uint64_t v) { return v; }
void irv_dump(const char *n, uint64_t v) { std::printf("DUMP %s %llx\n", n, (unsigned long long)v); }
}
int main(int argc, char **argv) {
  void (*h)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!h) { std::printf("no harness %s\n", argv[1]); return 79; }
  std::string f = argv[2];
  if (f == "--random") { g_random = true; g_seed = strtoull(argv[3], 0, 10) * 0x9E3779B97F4A7C15ull + 88172645463325252ull; for (int i = 0; i < 5; ++i) rnd(); }
  else {
    std::ifstream in(f); std::string line;
    while (std::getline(in, line)) {
      std::istringstream ss(line); rec r; ss >> r.kind; if (r.kind != "u" && r.kind != "buf" && r.kind != "cstr") continue;
      ss >> r.name;
      if (r.kind == "u") { std::string x; ss >> x; r.v = strtoull(x.c_str(), 0, 16); }
      else { std::string sz, hex; ss >> sz >> hex; r.v = strtoull(sz.c_str(), 0, 16); for (size_t i = 0; i + 1 < hex.size(); i += 2) r.bytes += (char)strtoul(hex.substr(i, 2).c_str(), 0, 16); }
      recs.push_back(r);
    }
  }
  try { h(); }
  catch (std::exception &e) { std::printf("IRV-UNCAUGHT %s\n", e.what()); std::fflush(0); _Exit(44); }
  catch (...) { std::printf("IRV-UNCAUGHT\n"); std::fflush(0); _Exit(44); }
  std::printf("IRV-OK\n"); std::fflush(0); _Exit(0);
}
