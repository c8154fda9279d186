#include "EveryBeam/telescope/telescope.h"
#include "EveryBeam/beammode.h"
