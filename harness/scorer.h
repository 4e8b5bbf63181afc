// every scorer that can be configured, with the maps and scans it works on
#ifndef SCORER_H
#define SCORER_H
#include "scenes.h"
#include "core/scan_matchers/m3rsm_engine.h"
using vf::Ctx;
typedef long double ld;

// agrees with a cell to a degree that depends on the cell and on the observation
struct ProbeOIE : ObservationImpactEstimator {
  double estimate_impact(const GridCell &cell, const AreaOccupancyObservation &a) const override {
    VF_CHECK(a.is_occupied && a.occupancy.prob_occ == 1 && a.occupancy.estimation_quality == 1 && a.quality == 1, "expected observation " << a);
    double v = std::sin(7 * cell.occupancy().prob_occ + 3 * a.obstacle.x + 5 * a.obstacle.y);
    return v * v;
  }
};

struct Cfg {
  double scale; int map_kind, ck, oie, oope, spw; unsigned skip; double max_range; int w, h; bool bounded;
  std::shared_ptr<ObservationImpactEstimator> make_oie() const {
    if (oie == 0) return std::make_shared<DiscrepancyOIE>();
    if (oie == 1) return std::make_shared<OccupancyOIE>();
    return std::make_shared<ProbeOIE>();
  }
  std::shared_ptr<OccupancyObservationProbabilityEstimator> make_oope() const {
    auto o = make_oie();
    if (oope == 0) return std::make_shared<ObstacleBasedOccupancyObservationPE>(o);
    if (oope == 1) return std::make_shared<MaxOccupancyObservationPE>(o);
    if (oope == 2) return std::make_shared<MeanOccupancyObservationPE>(o);
    return std::make_shared<OverlapWeightedOccupancyObservationPE>(o);
  }
  std::shared_ptr<ScanPointWeighting> make_spw() const {
    if (spw == 0) return std::make_shared<EvenSPW>();
    if (spw == 1) return std::make_shared<VinySlamSPW>();
    return std::make_shared<AngleHistogramReciprocalSPW>();
  }
  std::shared_ptr<ScanProbabilityEstimator> make_spe() const {
    if (!skip && max_range < 0) return std::make_shared<WeightedMeanPointProbabilitySPE>(make_oope(), make_spw());
    return std::make_shared<WeightedMeanPointProbabilitySPE>(make_oope(), make_spw(), skip, max_range);
  }
  std::unique_ptr<GridMap> make_map() const {
    GridMapParams p{w, h, scale}; auto cell = make_cell(ck);
    switch (map_kind) {
    case 0: return std::make_unique<UnboundedPlainGridMap>(cell, p);
    case 1: return std::make_unique<UnboundedLazyTiledGridMap>(cell, p);
    case 2: return std::make_unique<M3RSMRescalableGridMap<UnboundedPlainGridMap>>(std::make_shared<DiscrepancyOIE>(), cell, p);
    case 3: return std::make_unique<PlainGridMap>(cell, p);
    default: return std::make_unique<LazyTiledGridMap>(cell, p);
    }
  }
};
static Cfg gen_cfg(Ctx &c) {
  Cfg g; g.scale = c.pick({1.0, 0.5, 0.25, 0.125}); if (c.flag(1, 3)) g.scale = c.pick({0.1, 0.05, 0.3});
  g.map_kind = c.i(0, 4); g.ck = c.i(0, CK_N - 1); g.oie = c.i(0, 2); g.oope = c.i(0, 3); g.spw = c.i(0, 2);
  if (g.ck == CK_Gmapping && g.oie == 1) g.oie = 0; // the occupancy of its unknown cells is -1 by design
  g.skip = c.flag(1, 3) ? c.i(0, 5) : 0; g.max_range = c.flag(1, 3) ? g.scale * c.i(1, 14) + 1e-4 : c.pick({-1., -1., -3.});
  g.w = c.len(1, 24); g.h = c.len(1, 24); g.bounded = g.map_kind >= 3;
  return g;
}
static std::ostream &operator<<(std::ostream &os, const Cfg &g) {
  return os << "scale " << g.scale << " map " << g.map_kind << " " << g.w << "x" << g.h << " cells " << cell_kind_name(g.ck) << " oie " << g.oie
    << " oope " << g.oope << " weighting " << g.spw << " skip " << g.skip << " range " << g.max_range;
}
static bool inside(const GridMap &m, const Coord &k) { auto lo = m.internal2external({0, 0}); return lo.x <= k.x && lo.y <= k.y && k.x < lo.x + m.width() && k.y < lo.y + m.height(); }

static LaserScan2D gen_scan(Ctx &c, double scale) {
  LaserScan2D s; long n = c.yes(1, 100) ? c.i(100, 1100) : c.len(0, 16); // now and then as many as real sensors have
  bool cached = c.flag(1, 3); double mn = c.i(-180, 0) * M_PI / 180, inc = c.i(1, 20) * M_PI / 180;
  if (cached) { auto t = std::make_shared<CachedTrigonometryProvider>(); t->update(mn, mn + 40 * inc, inc); s.trig_provider = t; }
  for (long i = 0; i < n; ++i) {
    double r = c.flag(1, 12) ? 0 : scale * c.i(1, 600) / 50., a = mn + c.i(0, 39) * inc; bool hit = c.yes(5, 6);
    auto p = ScanPoint2D::make_polar(r, a, hit);
    if (!cached && c.flag(1, 4)) p = ScanPoint2D::make_cartesian({r * std::cos(a), r * std::sin(a)}, hit);
    if (c.flag(1, 8)) p.set_factor(c.i(0, 10) / 10.);
    s.points().push_back(p);
  }
  return s;
}
static void show(Ctx &c, const Cfg &g, const std::vector<Write> &ws, const LaserScan2D &s, const RobotPose &pose) {
  if (!c.verbose()) return;
  VF_LOG(c, g << "\n" << pose << "\n");
  for (auto &w : ws) VF_LOG(c, "  write " << w.k << w.a << "\n");
  for (auto &p : s.points()) VF_LOG(c, "  " << p << (p.is_occupied() ? " hit" : " miss") << " factor " << p.factor() << "\n");
}
static bool same_point(const ScanPoint2D &a, const ScanPoint2D &b) {
  return a.range() == b.range() && a.angle() == b.angle() && a.is_occupied() == b.is_occupied() && a.factor() == b.factor();
}

#endif
