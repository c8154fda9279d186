#ifndef MINI_STOKES_H
#define MINI_STOKES_H
#include "mini_casa.h"
namespace casacore {
class Stokes {
 public:
  enum StokesTypes { Undefined = 0, I, Q, U, V, RR, RL, LR, LL, XX, XY, YX, YY };
  static StokesTypes type(int i) { return StokesTypes(i); }
  static String name(StokesTypes t) {
    static const char* const n[] = {"??", "I", "Q", "U", "V", "RR", "RL", "LR", "LL", "XX", "XY", "YX", "YY"};
    return n[t];
  }
};
}  // namespace casacore
#endif
