#include "mini_casa.h"
#include "mini_stokes.h"
