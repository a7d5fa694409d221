// C10: the statically typed decoder, same oracle as the table-driven one.
#include "v2.h"
#define DECODE(mref, s, pm, init) v2::decode(op, optional, init, mref, s, pm)
#define DECODE_SPLIT(mref, s, pm, einit, minit) v2::decode_split(eop, mop, optional, einit, minit, mref, s, pm)
#include "c08.cpp"
