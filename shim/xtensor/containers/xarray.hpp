#include "mini_xt.h"
