#pragma once
#include <lf/assemble/assemble.h>

#include "stub_mesh.h"

namespace lfvm {
using lf::assemble::gdof_idx_t;
using lf::assemble::size_type;
// the contract of the DofHandler interface: any list of dofs on every entity
class AnyDofs : public lf::assemble::DofHandler {
 public:
  AnyDofs(std::shared_ptr<StubMesh> m, size_type n) : m_(std::move(m)), n_(n) {}
  size_type NumDofs() const override { return n_; }
  size_type NumLocalDofs(const lf::mesh::Entity& e) const override { return (size_type)at(e).size(); }
  size_type NumInteriorDofs(const lf::mesh::Entity& e) const override { return (size_type)at(e).size(); }
  std::span<const gdof_idx_t> GlobalDofIndices(const lf::mesh::Entity& e) const override { return {at(e).data(), at(e).size()}; }
  std::span<const gdof_idx_t> InteriorGlobalDofIndices(const lf::mesh::Entity& e) const override { return {at(e).data(), at(e).size()}; }
  const lf::mesh::Entity& Entity(gdof_idx_t) const override { return *m_->EntityByIndex(0, 0); }
  std::shared_ptr<const lf::mesh::Mesh> Mesh() const override { return m_; }
  const std::vector<gdof_idx_t>& at(const lf::mesh::Entity& e) const { return d_[e.Codim()][m_->Index(e)]; }
  std::vector<std::vector<gdof_idx_t>> d_[3];
  std::shared_ptr<StubMesh> m_;
  size_type n_;
};
}  // namespace lfvm
