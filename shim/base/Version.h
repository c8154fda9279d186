// Stand-in for the generated base/Version.h.
#ifndef DP3_VERSION_H
#define DP3_VERSION_H
#include <string>
#define DP3_VERSION "0.0.0"
#define DP3_VERSION_MAJOR 0
#define DP3_VERSION_MINOR 0
#define DP3_VERSION_PATCH 0
#define DP3_INSTALL_PATH "/nowhere"
#define DP3_COMMIT_HASH ""
class DP3Version {
 public:
  static std::string AsString(bool = false) { return "DP3 " DP3_VERSION; }
};
#endif
