#ifndef VERIF_EB_MSREADUTILS
#define VERIF_EB_MSREADUTILS
#include "mini_tables.h"
namespace everybeam {
inline casacore::MDirection ReadTileBeamDirection(const casacore::MeasurementSet&) {
  throw std::runtime_error("no tile beam direction");
}
}  // namespace everybeam
#endif
