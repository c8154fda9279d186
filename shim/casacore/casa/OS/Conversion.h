#ifndef VERIF_CASA_VERSION
#define VERIF_CASA_VERSION
#define CASACORE_MAJOR_VERSION 3
#define CASACORE_MINOR_VERSION 5
#define CASACORE_PATCH_VERSION 0
#endif
#include "mini_casa.h"
