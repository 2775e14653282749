// Offline stand-in: the codecs live in verif/codec.h.
#ifndef VERIF_SHIM_BS_abseil_H_
#define VERIF_SHIM_BS_abseil_H_
#include "verif/codec.h"
#endif
