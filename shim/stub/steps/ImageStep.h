#pragma once
#include "unavailable.h"
VERIF_UNAVAILABLE_STEP(ImageStep)
