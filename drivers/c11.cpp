// C11: the statically typed encoder in lockstep with the decoder (integers and decimals).
#include "v2.h"
#define ENCODE(cref, s, pm, init) v2::encode(op, optional, init, cref, s, pm)
#define ENCODE_SPLIT(cref, s, pm, einit, minit) v2::encode_split(eop, mop, optional, einit, minit, cref, s, pm)
#define V2
#include "c09.cpp"
