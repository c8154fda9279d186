#include "mini_tables.h"
#include "mini_stokes.h"
