#pragma once
inline void check_openblas_multithreading() {}
