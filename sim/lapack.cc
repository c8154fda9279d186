// LAPACK seam: the least-squares drivers can fail to converge or find the
// matrix singular, leaving garbage in the right-hand side.
#include "internal.h"

#include <dlfcn.h>
#include <complex>
#include <limits>

using namespace sim;
using namespace sim::internal;
typedef std::complex<float> C;

namespace simlapack {
thread_local int t_failed = 0;
}
namespace {
template <class F>
F Real(const char* name) {
  Core core;
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
bool Fails(int n, C* b, int ldb, int nrhs, int* info) {
  uint64_t a;
  if (!Seam() || !ShouldFault(kLapackFail, &a)) return false;
  *info = 1 + static_cast<int>(a % (n > 0 ? n : 1));
  const float nan = std::numeric_limits<float>::quiet_NaN();
  for (int i = 0; i < ldb * nrhs; ++i)
    if ((a >> (i % 50)) & 1) b[i] = C(nan, nan);
  ++simlapack::t_failed;
  return true;
}
}  // namespace

extern "C" {
void cposv_(char* u, int* n, int* nrhs, C* a, int* lda, C* b, int* ldb, int* info) {
  static auto real = Real<void (*)(char*, int*, int*, C*, int*, C*, int*, int*)>("cposv_");
  if (Fails(*n, b, *ldb, *nrhs, info)) return;
  real(u, n, nrhs, a, lda, b, ldb, info);
}
void cgels_(char* t, int* m, int* n, int* nrhs, C* a, int* lda, C* b, int* ldb, C* w, int* lw, int* info) {
  static auto real = Real<void (*)(char*, int*, int*, int*, C*, int*, C*, int*, C*, int*, int*)>("cgels_");
  if (*lw != -1 && Fails(*n, b, *ldb, *nrhs, info)) return;
  real(t, m, n, nrhs, a, lda, b, ldb, w, lw, info);
}
void cgelss_(int* m, int* n, int* nrhs, C* a, int* lda, C* b, int* ldb, float* s, float* rc, int* rank, C* w,
             int* lw, float* rw, int* info) {
  static auto real =
      Real<void (*)(int*, int*, int*, C*, int*, C*, int*, float*, float*, int*, C*, int*, float*, int*)>("cgelss_");
  if (*lw != -1 && Fails(*n, b, *ldb, *nrhs, info)) return;
  real(m, n, nrhs, a, lda, b, ldb, s, rc, rank, w, lw, rw, info);
}
}
