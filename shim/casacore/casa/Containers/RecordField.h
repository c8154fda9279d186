#include "mini_casa.h"
