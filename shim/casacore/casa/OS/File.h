#include "mini_casa.h"
#include "mini_file.h"
