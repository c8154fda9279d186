#ifndef AOCOMMON_POLARIZATION_H
#define AOCOMMON_POLARIZATION_H
#include <set>
#include <string>
#include <vector>
namespace aocommon {
class Polarization {
 public:
  enum PolarizationEnum { StokesI, StokesQ, StokesU, StokesV, RR, RL, LR, LL, XX, XY, YX, YY, FullStokes, Instrumental, DiagonalInstrumental };
  static int AipsIndexToEnum_(int i) { return i; }
  static PolarizationEnum AipsIndexToEnum(int i) {
    switch (i) {
      case 1: return StokesI;
      case 2: return StokesQ;
      case 3: return StokesU;
      case 4: return StokesV;
      case 5: return RR;
      case 6: return RL;
      case 7: return LR;
      case 8: return LL;
      case 9: return XX;
      case 10: return XY;
      case 11: return YX;
      default: return YY;
    }
  }
};
using PolarizationEnum = Polarization::PolarizationEnum;
}
#endif
