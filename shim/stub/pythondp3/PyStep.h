#pragma once
#include "../steps/unavailable.h"
VERIF_UNAVAILABLE_STEP(PyStep)
namespace dp3::pythondp3 { using dp3::steps::PyStep; }
