// every concrete cell model of the repository, and generators of observations
#ifndef CELLS_H
#define CELLS_H
#include "core_all.h"
#include "slams/credibilist/grid_cell.h"
#include "slams/gmapping/gmapping_grid_cell.h"

enum CellKind { CK_Affine, CK_Mean, CK_Tbm, CK_TbmEven, CK_Credibilist, CK_Gmapping, CK_N };
inline const char *cell_kind_name(int k) {
  static const char *n[] = {"affine", "mean", "tbm_consistent", "tbm_even", "credibilist", "gmapping"};
  return n[k];
}
inline std::shared_ptr<GridCell> make_cell(int k) {
  switch (k) {
  case CK_Affine: return std::make_shared<AffineQualityMergeCell>();
  case CK_Mean: return std::make_shared<MeanProbabilityCell>();
  case CK_Tbm: return std::make_shared<TbmOccConsistentCell>();
  case CK_TbmEven: return std::make_shared<TbmUnknownEvenOccCell>();
  case CK_Credibilist: return std::make_shared<CredibilistCell>();
  default: return std::make_shared<GmappingBaseCell>();
  }
}
// an observation an estimator may produce: prob, quality in [0,1] (or invalid)
inline AreaOccupancyObservation gen_aoo(vf::Ctx &c, bool may_be_invalid = true) {
  auto p01 = [&]() { return c.yes(1, 3) ? double(c.i(0, 2)) / 2 : c.i(0, 10000) / 10000.0; };
  Occupancy occ{p01(), p01()};
  if (may_be_invalid && c.yes(1, 10)) { occ = Occupancy::invalid(); }
  return {c.flag(), occ, Point2D{c.real(-3, 3), c.real(-3, 3)}, p01()};
}
inline std::ostream &operator<<(std::ostream &os, const AreaOccupancyObservation &a) {
  return os << "{occ=" << a.is_occupied << " p=" << a.occupancy.prob_occ << " est_q="
            << a.occupancy.estimation_quality << " obst=(" << a.obstacle.x << "," << a.obstacle.y
            << ") q=" << a.quality << "}";
}
#endif
