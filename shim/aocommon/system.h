#ifndef AOCOMMON_SYSTEM_H
#define AOCOMMON_SYSTEM_H
#include <cstddef>
namespace aocommon::system {
inline std::size_t ProcessorCount() { return 1; }
inline long TotalMemory() { return 1L << 33; }
}
#endif
