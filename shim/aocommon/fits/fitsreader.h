#pragma once
#include <string>
namespace aocommon {
class FitsReader {
 public:
  FitsReader() = default;
  explicit FitsReader(const std::string&) {}
};
}
