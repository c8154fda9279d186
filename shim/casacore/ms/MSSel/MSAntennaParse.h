#include "mini_tables.h"
