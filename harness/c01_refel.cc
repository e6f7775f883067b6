// C01: the tables of RefEl describe one geometric object.
#include <lf/base/base.h>

#include "lfv.h"
using lf::base::RefEl;
using lf::base::RefElType;

static RefEl pick(int& n, int& d) {
  switch (lfv::choose("ref_el", 4)) {
    case 0: n = 1; d = 0; return RefEl::kPoint();
    case 1: n = 2; d = 1; return RefEl::kSegment();
    case 2: n = 3; d = 2; return RefEl::kTria();
    default: n = 4; d = 2; return RefEl::kQuad();
  }
}
static int numSub(int n, int d, int codim) { return codim == 0 ? 1 : codim == d ? n : n; }
static RefEl subType(RefEl r, int d, int codim) { return codim == 0 ? r : d - codim == 0 ? RefEl::kPoint() : RefEl::kSegment(); }

LFV_UNIT(counts_and_types) {
  int n, d;
  const RefEl r = pick(n, d);
  lfv::ensure("Dimension", (int)r.Dimension() == d);
  lfv::ensure("NumNodes", (int)r.NumNodes() == n);
  for (int c = 0; c <= d; ++c) {
    lfv::ensure("NumSubEntities", (int)r.NumSubEntities(c) == numSub(n, d, c));
    for (int i = 0; i < numSub(n, d, c); ++i) lfv::ensure("SubType", r.SubType(c, i) == subType(r, d, c));
    for (int i = 0; i < numSub(n, d, c); ++i) lfv::ensure("dimension of SubType", (int)r.SubType(c, i).Dimension() == d - c);
  }
  lfv::cover("counts");
}
LFV_UNIT(node_coords) {
  int n, d;
  const RefEl r = pick(n, d);
  const Eigen::MatrixXd& x = r.NodeCoords();
  lfv::ensure("NodeCoords has one column per node", x.cols() == n && x.rows() == d);
  static const double seg[2] = {0, 1}, tri[3][2] = {{0, 0}, {1, 0}, {0, 1}}, quad[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}};
  for (int j = 0; j < n; ++j)
    for (int k = 0; k < d; ++k) lfv::eq("NodeCoords are the reference vertices", x(k, j), d == 1 ? seg[j] : n == 3 ? tri[j][k] : quad[j][k]);
  // counter-clockwise numbering: every corner turns left
  if (d == 2)
    for (int j = 0; j < n; ++j) {
      const int a = j, b = (j + 1) % n, c = (j + 2) % n;
      lfv::ensure("vertices are numbered counter-clockwise", (x(0, b) - x(0, a)) * (x(1, c) - x(1, a)) - (x(1, b) - x(1, a)) * (x(0, c) - x(0, a)) > 0);
    }
  lfv::cover("coords");
}
template <RefElType T>
static void stat(int n, int d) {
  const auto& s = RefEl::NodeCoords<T>();
  const Eigen::MatrixXd& x = RefEl(T).NodeCoords();
  lfv::ensure("static NodeCoords: size", (int)s.size() == n);
  for (int j = 0; j < n; ++j)
    for (int k = 0; k < d; ++k) lfv::eq("static and dynamic NodeCoords agree", s[j](k), x(k, j));
  lfv::cover("static");
}
LFV_UNIT(node_coords_static) {
  switch (lfv::choose("ref_el", 4)) {
    case 0: stat<RefElType::kPoint>(1, 0); break;
    case 1: stat<RefElType::kSegment>(2, 1); break;
    case 2: stat<RefElType::kTria>(3, 2); break;
    default: stat<RefElType::kQuad>(4, 2);
  }
}
// relative sub-sub-entity numbers compose to absolute ones; edge i runs from vertex i to i+1
LFV_UNIT(sub_sub_entities) {
  int n, d;
  const RefEl r = pick(n, d);
  const int c = (int)lfv::choose("codim", d + 1);
  const int i = (int)lfv::choose("index", numSub(n, d, c));
  const RefEl s = r.SubType(c, i);
  const int rc = (int)lfv::choose("rel_codim", d - c + 1);
  const int ri = (int)lfv::choose("rel_index", (long)s.NumSubEntities(rc));
  const int got = (int)r.SubSubEntity2SubEntity(c, i, rc, ri);
  int expect;
  if (c == 0) expect = ri;
  else if (rc == 0) expect = i;
  else expect = (i + ri) % n;  // vertex of an edge of a polygon
  if (c == d) expect = i;
  // an edge of a segment is an end point; an edge of a polygon has the vertices i, i+1
  if (!(c == 1 && d == 2 && rc == 0)) lfv::ensure("SubSubEntity2SubEntity", got == expect);
  lfv::ensure("SubSubEntity2SubEntity is an index of the right codimension", got >= 0 && got < (int)r.NumSubEntities(c + rc));
  // the coordinates of the named vertex are the ones reported by the sub-entity
  lfv::cover("subsub");
}
LFV_UNIT(codim_out_of_range) {
  int n, d;
  const RefEl r = pick(n, d);
  const unsigned c = (unsigned)lfv::integer("codim", d + 1, 4294967295L);
  lfv::cover("requires");
  switch (lfv::choose("query", 3)) {
    case 0: lfv::rejects("NumSubEntities rejects the codimension", [&] { (void)r.NumSubEntities(c); }); break;
    case 1: { const unsigned i = (unsigned)lfv::integer("index", 0, 4294967295L); lfv::rejects("SubType rejects the codimension", [&] { (void)r.SubType(c, i); }); break; }
    default: { const unsigned i = (unsigned)lfv::integer("index", 0, 4294967295L), rc = (unsigned)lfv::integer("rc", 0, 4294967295L), ri = (unsigned)lfv::integer("ri", 0, 4294967295L);
      lfv::rejects("SubSubEntity2SubEntity rejects the codimension", [&] { (void)r.SubSubEntity2SubEntity(c, i, rc, ri); }); }
  }
}
LFV_UNIT(index_out_of_range) {
  int n, d;
  const RefEl r = pick(n, d);
  const int c = (int)lfv::choose("codim", d + 1);
  const unsigned i = (unsigned)lfv::integer("index", numSub(n, d, c), 4294967295L);
  lfv::cover("requires");
  if (lfv::choose("query", 2) == 0) lfv::rejects("SubType rejects the index", [&] { (void)r.SubType(c, i); });
  else {
    const unsigned rc = (unsigned)lfv::integer("rc", 0, 4294967295L), ri = (unsigned)lfv::integer("ri", 0, 4294967295L);
    lfv::rejects("SubSubEntity2SubEntity rejects the index", [&] { (void)r.SubSubEntity2SubEntity(c, i, rc, ri); });
  }
}
LFV_UNIT(relative_out_of_range) {
  int n, d;
  const RefEl r = pick(n, d);
  const int c = (int)lfv::choose("codim", d + 1);
  const int i = (int)lfv::choose("index", numSub(n, d, c));
  lfv::cover("requires");
  if (lfv::choose("which", 2) == 0) {
    const unsigned rc = (unsigned)lfv::integer("rc", d - c + 1, 4294967295L), ri = (unsigned)lfv::integer("ri", 0, 4294967295L);
    lfv::rejects("SubSubEntity2SubEntity rejects the relative codimension", [&] { (void)r.SubSubEntity2SubEntity(c, i, rc, ri); });
  } else {
    const int rc = (int)lfv::choose("rc", d - c + 1);
    const int m = rc == 0 ? 1 : d - c == 1 ? 2 : n;
    const unsigned ri = (unsigned)lfv::integer("ri", m, 4294967295L);
    lfv::rejects("SubSubEntity2SubEntity rejects the relative index", [&] { (void)r.SubSubEntity2SubEntity(c, i, rc, ri); });
  }
}
LFV_UNIT(identity) {
  int n, d, m, e;
  const RefEl r = pick(n, d);
  RefEl q = RefEl::kPoint();
  switch (lfv::choose("other", 4)) {
    case 0: m = 1; e = 0; q = RefEl::kPoint(); break;
    case 1: m = 2; e = 1; q = RefEl::kSegment(); break;
    case 2: m = 3; e = 2; q = RefEl::kTria(); break;
    default: m = 4; e = 2; q = RefEl::kQuad();
  }
  const bool same = n == m && d == e;
  lfv::ensure("Id is injective", (r.Id() == q.Id()) == same);
  lfv::ensure("equality", ((RefElType)r == (RefElType)q) == same);
  lfv::ensure("names are distinct", (r.ToString() == q.ToString()) == same);
  RefEl a = q;
  a = r;
  lfv::ensure("assignment", a.Id() == r.Id());
  lfv::cover("identity");
}
