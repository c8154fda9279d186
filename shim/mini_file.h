#ifndef MINI_FILE_H
#define MINI_FILE_H
#include "mini_casa.h"
namespace casacore {
class File {
 public:
  File(const Path& p) : p_(p) {}
  File(const std::string& p) : p_(p) {}
  bool exists() const { return false; }
  bool isDirectory() const { return false; }

 private:
  Path p_;
};
}  // namespace casacore
#endif
