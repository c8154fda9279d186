#ifndef VERIF_EB_BEAMMODE
#define VERIF_EB_BEAMMODE
#include <stdexcept>
#include <string>
namespace everybeam {
enum class BeamMode { kNone, kFull, kArrayFactor, kElement };
inline std::string ToString(BeamMode m) {
  static const char* n[] = {"None", "Full", "ArrayFactor", "Element"};
  return n[static_cast<int>(m)];
}
inline BeamMode ParseBeamMode(const std::string& s) {
  for (int i = 0; i < 4; ++i)
    if (ToString(static_cast<BeamMode>(i)) == s) return static_cast<BeamMode>(i);
  throw std::runtime_error("Invalid beam mode");
}
}  // namespace everybeam
#endif
