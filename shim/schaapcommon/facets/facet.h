#pragma once
#include <string>
namespace schaapcommon::facets {
class Facet {
 public:
  Facet() = default;
  explicit Facet(std::string label) : label_(std::move(label)) {}
  const std::string& DirectionLabel() const { return label_; }

 private:
  std::string label_;
};
}  // namespace schaapcommon::facets
