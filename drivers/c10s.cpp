// C10 for strings and byte vectors.
#include "v2.h"
#define DECODE(mref, s, pm, init) v2::decode(op, optional, init, mref, s, pm)
#include "c08s.cpp"
