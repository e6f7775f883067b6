// All admissible refinement patterns and what they announce for the parent's edges.
#pragma once
#include <lf/refinement/hybrid2d_refinement_pattern.h>

#include <vector>
namespace lfvr {
using lf::base::RefEl;
using lf::refinement::Hybrid2DRefinementPattern;
using lf::refinement::RefPat;
struct Pat { RefPat p; int anchor; unsigned split; };  // split: bit set of parent edges with a midpoint
inline std::vector<Pat> patterns(RefEl r) {
  using namespace lf::refinement;
  std::vector<Pat> v;
  if (r == RefEl::kPoint()) return {{rp_nil, -1, 0}, {rp_copy, -1, 0}};
  if (r == RefEl::kSegment()) return {{rp_nil, -1, 0}, {rp_copy, -1, 0}, {rp_split, -1, 1}};
  const int n = r == RefEl::kTria() ? 3 : 4;
  const unsigned all = (1u << n) - 1;
  auto e = [&](int k) { return 1u << (k % n); };
  v.push_back({rp_nil, -1, 0});
  v.push_back({rp_copy, -1, 0});
  v.push_back({rp_regular, -1, all});
  v.push_back({rp_barycentric, -1, all});
  for (int a = 0; a < n; ++a) {
    if (n == 3) {
      v.push_back({rp_bisect, a, e(a)});
      v.push_back({rp_trisect, a, e(a) | e(a + 1)});
      v.push_back({rp_trisect_left, a, e(a) | e(a + 2)});
      v.push_back({rp_quadsect, a, all});
    } else {
      v.push_back({rp_bisect, a, e(a) | e(a + 2)});
      v.push_back({rp_split, a, e(a) | e(a + 2)});
      v.push_back({rp_trisect, a, e(a)});
      v.push_back({rp_quadsect, a, e(a) | e(a + 1)});
      v.push_back({rp_threeedge, a, e(a) | e(a + 1) | e(a + 3)});
    }
  }
  return v;
}
inline Hybrid2DRefinementPattern pattern(RefEl r, const Pat& p) {
  if (p.anchor < 0) return Hybrid2DRefinementPattern(r, p.p);
  return Hybrid2DRefinementPattern(r, p.p, p.anchor);
}
}  // namespace lfvr
