#pragma once
#include "mini_h5parm.h"
