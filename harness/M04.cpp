// M04: coarse levels of the multi-resolution map bound the finest one.
#include "vf.h"
#include "map_model.h"
#include "cells.h"
#include "core/scan_matchers/m3rsm_engine.h"
#include "core/scan_matchers/observation_impact_estimators.h"

using vf::Ctx;

static int fdiv(int a, int shift) { return a >> shift; } // floor division by a power of two

template <typename Back>
static void bound_history(Ctx &c, int size, int far, bool unbounded, bool validate, bool large = false) {
  using Map = M3RSMRescalableGridMap<Back>;
  bool disc = c.flag();
  std::shared_ptr<ObservationImpactEstimator> oie;
  if (disc) oie = std::make_shared<DiscrepancyOIE>(); else oie = std::make_shared<OccupancyOIE>();
  int ck = int(c.draw(CK_N));
  std::shared_ptr<GridCell> proto;
  if (ck == CK_N) { proto = gen_prototype(c); } else { proto = make_cell(ck); }
  GridMapParams p{int(c.len(1, size)), int(c.len(1, size)), c.pick({1.0, 0.1, 0.25, 0.05, 0.3})};
  if (large) { // as wide or high as real maps are, and flat ones
    if (c.yes(3, 4)) p.width_cells = int(c.i(130, 1100)); if (c.yes(1, 2)) p.height_cells = int(c.i(130, 1100));
    if (c.yes(1, 4)) { p.width_cells = MapValues::width; p.height_cells = MapValues::height; }
  }
  VF_LOG(c, "map " << p.width_cells << "x" << p.height_cells << " scale " << p.meters_per_cell << ", "
         << (ck == CK_N ? "last write" : cell_kind_name(ck)) << " cells, " << (disc ? "discrepancy" : "occupancy") << "\n");
  Map m{oie, proto, p};
  unsigned levels0 = m.scales_nm();
  std::set<Coord, CoordLess> seen;
  auto impact = [&](unsigned level, const Coord &k, bool *unknown) {
    m.set_scale_id(level);
    const auto &cell = m[k];
    if (unknown) *unknown = cell.is_unknown();
    double v = oie->estimate_obstacle_impact(cell);
    m.set_scale_id(0);
    return v;
  };
  auto parent = [&](unsigned level, unsigned levels, const Coord &k) {
    return level + 1 == levels ? Coord{0, 0} : Coord{fdiv(k.x, level), fdiv(k.y, level)};
  };
  auto check = [&](const char *when) {
    unsigned levels = m.scales_nm();
    auto lo = m.internal2external({0, 0});
    int w = m.width(), h = m.height();
    for (auto &s : seen) for (int d = 0; d < 5; ++d) {
      // the cell itself and its neighbours: unknown cells of the map count, too
      Coord k{s.x + (d == 1) - (d == 2), s.y + (d == 3) - (d == 4)};
      if (k.x < lo.x || k.y < lo.y || lo.x + w <= k.x || lo.y + h <= k.y) continue;
      double fine = impact(0, k, nullptr);
      for (unsigned l = 1; l < levels; ++l) {
        auto ck = parent(l, levels, k);
        double coarse = impact(l, ck, nullptr);
        VF_CHECK(coarse >= fine - 1e-5, when << ": cell " << k << " has impact " << fine << ", but cell " << ck
                 << " of level " << l << "/" << levels << " that covers it only " << coarse);
      }
    }
  };
  long n = c.len(1, large ? 8 : 30);
  bool falls = false;
  int lim = unbounded ? far : 0;
  for (long s = 0; s < n; ++s) {
    auto lo = m.internal2external({0, 0});
    int w = m.width(), h = m.height();
    Coord k;
    if (seen.size() && c.yes(1, 3)) {
      auto it = seen.begin(); std::advance(it, c.draw(seen.size() - 1)); k = *it;
      if (c.flag()) { k.x += int(c.i(-2, 2)); k.y += int(c.i(-2, 2)); }
    } else if (unbounded && c.yes(1, 3)) {
      k = {int(c.i(-far, far)), int(c.i(-far, far))};
    } else {
      k = {lo.x + int(c.draw(w - 1)), lo.y + int(c.draw(h - 1))};
    }
    if (!unbounded) {
      k.x = std::max(lo.x, std::min(lo.x + w - 1, k.x)); k.y = std::max(lo.y, std::min(lo.y + h - 1, k.y));
    }
    int most = (large ? 700 : 400) + lim; if (k.x < -most || k.x > most || k.y < -most || k.y > most) continue;
    auto aoo = gen_aoo(c, ck != CK_N);
    double before = impact(0, k, nullptr);
    if (c.yes(1, 6)) {
      auto cell = m.new_cell();
      for (long u = c.i(0, 2); u > 0; --u) { *cell += gen_aoo(c, ck != CK_N); }
      VF_LOG(c, "reset " << k << " to " << cell->occupancy() << "\n");
      m.reset(k, *cell);
    } else {
      VF_LOG(c, "update " << k << " by " << aoo << "\n");
      m.update(k, aoo);
    }
    seen.insert(k);
    if (impact(0, k, nullptr) < before) falls = true;
    check("after the step");
  }
  // coarse cells over places nobody has written
  unsigned levels = m.scales_nm();
  std::vector<std::set<Coord, CoordLess>> covered(levels);
  for (auto &k : seen) for (unsigned l = 1; l < levels; ++l) covered[l].insert(parent(l, levels, k));
  for (unsigned l = 1; l + 1 < levels; ++l) {
    for (int j = 0; j < 10; ++j) {
      m.set_scale_id(l);
      auto lo = m.internal2external({0, 0});
      Coord k{lo.x + int(c.draw(m.width() - 1)), lo.y + int(c.draw(m.height() - 1))};
      if (seen.size() && c.flag()) {
        auto it = covered[l].begin(); std::advance(it, c.draw(covered[l].size() - 1));
        Coord k2{it->x + int(c.i(-1, 1)), it->y + int(c.i(-1, 1))};
        if (unbounded || (lo.x <= k2.x && k2.x < lo.x + m.width() && lo.y <= k2.y && k2.y < lo.y + m.height())) k = k2;
      }
      m.set_scale_id(0);
      if (covered[l].count(k)) continue;
      bool unknown; impact(l, k, &unknown);
      VF_CHECK(unknown, "cell " << k << " of level " << l << " is known, but nothing below it was written");
    }
  }
  VF_CHECK(m.scale_id() == 0, "not at the finest level");
  if (validate && long(m.width()) * m.height() <= 20000) {
    std::streambuf *old = std::cout.rdbuf(nullptr);
    bool ok = m.validate();
    std::cout.rdbuf(old);
    VF_CHECK(ok, "the map's own validation fails"); c.label("validated");
  }
  if (falls) c.label("impact_fell");
  if (levels > levels0) c.label("levels_added");
  c.nontrivial(seen.size() >= 2 && (levels > levels0 || falls));
}

VF_TEST(unbounded_plain, "two or more cells, an impact fell or levels were added", 6000, 120000) {
  bound_history<UnboundedPlainGridMap>(c, 17, c.yes(1, 8) ? 100 : 20, true, true);
}
VF_TEST(bounded_plain, "two or more cells, an impact fell or levels were added", 4000, 80000) {
  bound_history<PlainGridMap>(c, 33, 0, false, true);
}
VF_TEST(bounded_tiled, "two or more cells, an impact fell or levels were added", 800, 10000) {
  bound_history<LazyTiledGridMap>(c, c.yes(1, 5) ? 300 : 60, 0, false, true);
}
VF_TEST(unbounded_tiled, "two or more cells, an impact fell or levels were added", 700, 15000) {
  bound_history<UnboundedLazyTiledGridMap>(c, c.yes(1, 5) ? 300 : 60, 400, true, true);
}
VF_TEST(large, "two or more cells, an impact fell or levels were added", 160, 3000) {
  switch (c.draw(3)) {
  case 0: bound_history<PlainGridMap>(c, 6, 0, false, true, true); break;
  case 1: bound_history<LazyTiledGridMap>(c, 6, 0, false, true, true); break;
  case 2: bound_history<UnboundedPlainGridMap>(c, 6, c.pick({3, 40}), true, true, true); break;
  default: bound_history<UnboundedLazyTiledGridMap>(c, 6, 400, true, true, true);
  }
}
