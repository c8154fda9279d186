#include "xsimd/xsimd.hpp"
