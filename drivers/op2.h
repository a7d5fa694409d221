// a presence map with some bits to come
#pragma once
#include "irv.h"
#include "mfast/coder/decoder/decoder_presence_map.h"
using namespace mfast;
struct bits {
  decoder_presence_map pm; uint64_t map;
  bits() { map = irv_u64("bits"); pm.cur_bitmap_ = map; pm.mask_ = 8; pm.continue_ = nullptr; }
  bool bit(int k) { return (map >> (2 - k)) & 1; }
  bool used(int n) { return pm.mask_ == (uint64_t)8 >> n; }
};
