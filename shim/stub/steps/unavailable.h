// Steps that need libraries which are not here: they can be named but not made.
#ifndef VERIF_UNAVAILABLE_H
#define VERIF_UNAVAILABLE_H
#include <steps/Step.h>
#include <stdexcept>
#define VERIF_UNAVAILABLE_STEP(name)                                                    \
  namespace dp3::steps {                                                                \
  class name : public Step {                                                            \
   public:                                                                              \
    template <class... A>                                                               \
    explicit name(A&&...) {                                                             \
      throw std::runtime_error("the step " #name " is not simulated");                  \
    }                                                                                   \
    template <class... A>                                                               \
    static std::shared_ptr<name> create_instance(A&&... a) {                            \
      return std::make_shared<name>(std::forward<A>(a)...);                             \
    }                                                                                   \
    common::Fields getRequiredFields() const override { return {}; }                    \
    common::Fields getProvidedFields() const override { return {}; }                    \
    void finish() override {}                                                           \
    void show(std::ostream&) const override {}                                          \
  };                                                                                    \
  }
#endif
