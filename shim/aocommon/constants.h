#ifndef VERIF_AOCOMMON_CONSTANTS
#define VERIF_AOCOMMON_CONSTANTS
namespace aocommon {
constexpr double kSpeedOfLight = 299792458.0;
}
#endif
