// Offline stand-in: the codecs live in verif/codec.h.
#ifndef VERIF_SHIM_BS_ntl_H_
#define VERIF_SHIM_BS_ntl_H_
#include "verif/codec.h"
#endif
