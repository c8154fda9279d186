#ifndef VERIF_EB_TELESCOPE
#define VERIF_EB_TELESCOPE
#include "EveryBeam/beammode.h"

#include <array>
namespace everybeam {
typedef std::array<double, 3> vector3r_t;
enum class ElementResponseModel { kDefault, kHamaker, kLobes };
namespace pointresponse {
class PointResponse {};
}  // namespace pointresponse
namespace telescope {
class Telescope {
 public:
  virtual ~Telescope() = default;
};
}  // namespace telescope
}  // namespace everybeam
#endif
