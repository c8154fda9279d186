// Stand-in for the HDF5 C++ interface: writes of raw data sets are discarded.
#ifndef VERIF_H5CPP_H
#define VERIF_H5CPP_H
#include "mini_h5parm.h"

#define H5F_ACC_TRUNC 2u

namespace H5 {
struct PredType {
  int id = 0;
  inline static const int IEEE_F64LE = 1, IEEE_F32LE = 2, NATIVE_DOUBLE = 3, NATIVE_FLOAT = 4;
};
class DataSpace {
 public:
  DataSpace(int = 0, const hsize_t* = nullptr, const hsize_t* = nullptr) {}
};
class CompType {
 public:
  explicit CompType(size_t = 0) {}
  void insertMember(const std::string&, size_t, int) {}
};
class DataSet {
 public:
  template <class... T>
  void write(const T&...) {}
};
class H5File {
 public:
  H5File(const std::string&, unsigned) {}
  template <class... T>
  DataSet createDataSet(const T&...) {
    return DataSet();
  }
  void close() {}
};
}  // namespace H5
#endif
