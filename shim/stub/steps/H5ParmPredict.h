#pragma once
#include "unavailable.h"
VERIF_UNAVAILABLE_STEP(H5ParmPredict)
