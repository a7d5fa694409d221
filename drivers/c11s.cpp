// C11 for strings and byte vectors.
#include "v2.h"
#define ENCODE(cref, s, pm, init) v2::encode(op, optional, init, cref, s, pm)
#define V2
#include "c09s.cpp"
