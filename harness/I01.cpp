// I01: integration of a scan into a map, observed as the list of updates.
#include "vf.h"
#include "core_all.h"
#include "cells.h"
#include "core/maps/area_occupancy_estimator.h"
#include "core/maps/const_occupancy_estimator.h"
#include "core/maps/grid_map_scan_adders.h"
#include "core/scan_matchers/m3rsm_engine.h"
#include "core/scan_matchers/observation_impact_estimators.h"

using vf::Ctx;
using AOO = AreaOccupancyObservation;
using Coord = RegularSquaresGrid::Coord;

struct Rec { Coord k; AOO a; };
struct Recorder { std::vector<Rec> log; bool was_reset = false; };
template <typename Base> struct RecordingMap : Base {
  template <typename... A> RecordingMap(Recorder &r, A&&... a) : Base{std::forward<A>(a)...}, rec(r) {}
  void update(const Coord &k, const AOO &a) override { if (!busy) rec.log.push_back({k, a}); bool b = busy; busy = true; Base::update(k, a); busy = b; }
  void reset(const Coord &k, const GridCell &g) override { if (!busy) rec.was_reset = true; Base::reset(k, g); }
  Recorder &rec; bool busy = false;
};

// an estimate that depends on every argument
struct HashEstimator : CellOccupancyEstimator {
  HashEstimator() : CellOccupancyEstimator{{0.9, 1}, {0.1, 1}} {}
  Occupancy estimate_occupancy(const Segment2D &b, const Rectangle &r, bool occ) override {
    double v[] = {b.beg().x, b.beg().y, b.end().x, b.end().y, std::round((r.left() + r.right()) * 1e4), std::round((r.bot() + r.top()) * 1e4), double(occ)};
    auto h = vf::hash_bytes(v, sizeof v); h ^= h >> 29;
    if (h % 16 == 0) return Occupancy::invalid();
    return {double(h % 1001) / 1000, double(h / 1001 % 1001) / 1000};
  }
};
struct TableQuality : ObservationMappingQualityEstimator {
  void reset(const LaserScan2D &s) override { ++resets; size = s.points().size(); }
  double quality(const LaserScan2D::Points &p, PointId id) const override {
    VF_CHECK(resets == 1, "quality is asked after " << resets << " resets"); VF_CHECK(p.size() == size && id < size, "quality of point " << id << " of " << p.size());
    return (id * 37 % 101) / 100.0;
  }
  int resets = 0; size_t size = 0;
};

static bool same_occ(const Occupancy &a, const Occupancy &b, double tol) {
  auto eq = [&](double x, double y) { return std::isnan(x) || std::isnan(y) ? std::isnan(x) && std::isnan(y) : std::abs(x - y) <= tol; };
  return eq(a.prob_occ, b.prob_occ) && eq(a.estimation_quality, b.estimation_quality);
}
static std::ostream &operator<<(std::ostream &os, const Rec &r) { return os << r.k << r.a; }

VF_TEST(update_list, "a hit with at least two cells before it and, if blurring is on, a blurred cell", 16000, 250000) {
  // ---- configuration
  double scale = c.pick({0.1, 1.0, 0.05, 0.25, 0.37, 2.0});
  int est_kind = c.i(0, 2), q_kind = c.i(0, 2), map_kind = c.i(0, 4), ck = c.i(0, CK_N - 1);
  double po = c.i(0, 20) / 20., pe = c.i(0, 20) / 20., qo = c.i(0, 20) / 20., qe = c.i(0, 20) / 20.;
  auto make_est = [&]() -> std::shared_ptr<CellOccupancyEstimator> {
    if (est_kind == 0) return std::make_shared<ConstOccupancyEstimator>(Occupancy{po, qo}, Occupancy{pe, qe});
    if (est_kind == 1) return std::make_shared<AreaOccupancyEstimator>(Occupancy{po, qo}, Occupancy{pe, qe});
    return std::make_shared<HashEstimator>();
  };
  auto est = make_est(), ref_est = make_est();
  auto tq = std::make_shared<TableQuality>();
  std::shared_ptr<ObservationMappingQualityEstimator> omqe = tq;
  if (q_kind == 0) omqe = std::make_shared<IdleOMQE>();
  if (q_kind == 1) omqe = std::make_shared<AngleHistogramResiprocalOMQE>();
  int blur_kind = c.i(0, 2); // none, fixed, range dependent
  double blur = blur_kind == 0 ? 0 : blur_kind == 1 ? c.i(1, 60) / 10. * scale + 0.003 : -c.i(1, 100) / 100. / scale / 20;
  bool limited = c.flag(1, 3);
  double reach = scale * c.i(3, 40) + 1e-4;
  auto bld = WallDistanceBlurringScanAdder::builder();
  bld.set_occupancy_estimator(est); bld.set_observation_quality_estimator(omqe);
  if (blur_kind || c.flag()) bld.set_blur_distance(blur);
  if (limited) bld.set_max_usable_range(reach);
  auto adder = bld.build();
  // ---- map
  Recorder rec; auto proto = make_cell(ck);
  GridMapParams mp{int(c.len(1, 30)), int(c.len(1, 30)), scale};
  std::unique_ptr<GridMap> map;
  if (map_kind == 0) map = std::make_unique<RecordingMap<UnboundedPlainGridMap>>(rec, proto, mp);
  else if (map_kind == 1) map = std::make_unique<RecordingMap<UnboundedLazyTiledGridMap>>(rec, proto, mp);
  else if (map_kind == 2) map = std::make_unique<RecordingMap<M3RSMRescalableGridMap<UnboundedPlainGridMap>>>(rec, std::make_shared<OccupancyOIE>(), proto, mp);
  else { mp.width_cells = mp.height_cells = 160;
    if (map_kind == 3) map = std::make_unique<RecordingMap<PlainGridMap>>(rec, proto, mp); else map = std::make_unique<RecordingMap<LazyTiledGridMap>>(rec, proto, mp); }
  VF_LOG(c, "scale " << scale << " map " << map_kind << " " << mp.width_cells << "x" << mp.height_cells << " cells " << cell_kind_name(ck) << " estimator " << est_kind << " (" << po << "," << qo << "," << pe << "," << qe
         << ") quality " << q_kind << " blur " << blur << " range " << (limited ? reach : -1) << "\n");
  auto cached = std::make_shared<CachedTrigonometryProvider>(); auto raw = std::make_shared<RawTrigonometryProvider>();
  for (long scans = c.len(1, 3); scans > 0; --scans) {
    RobotPose pose{scale * (c.i(-200, 200) / 10.) + 1e-5, scale * (c.i(-200, 200) / 10.) + 1e-5, c.angle()};
    if (c.flag(1, 4)) { pose.x = scale * c.i(-20, 20); pose.y = scale * c.i(-20, 20); } // on a corner of cells
    double sq = c.flag() ? 1 : c.i(0, 100) / 100.;
    LaserScan2D scan;
    long n = c.yes(1, 120) ? c.i(50, 400) : c.len(0, 12);
    double mn = c.i(-180, 0) * M_PI / 180, inc = c.i(1, 30) * M_PI / 180;
    bool use_cache = c.flag();
    if (use_cache) { cached->update(mn, mn + 40 * inc, inc); scan.trig_provider = cached; } else scan.trig_provider = raw;
    double longest = map_kind <= 2 && c.yes(1, 150) ? c.i(100, 900) : 40; // now and then as far as real sensors see
    if (longest > 40) n = std::min(n, 4L);
    for (long i = 0; i < n; ++i) {
      double r = scale * c.i(0, long(longest * 50)) / 50., a = mn + c.i(0, 39) * inc; bool hit = c.yes(3, 4);
      if (c.flag(1, 10)) r = 0;
      if (!use_cache && c.flag(1, 3)) scan.points().push_back(ScanPoint2D::make_cartesian({r * std::cos(a), r * std::sin(a)}, hit));
      else scan.points().push_back(ScanPoint2D::make_polar(r, a, hit));
    }
    long margin = c.flag(1, 3) ? c.i(1, n + 2) : 0;
    if (c.verbose()) { VF_LOG(c, pose << " quality " << sq << " margin " << margin << " cached " << use_cache << "\n"); for (auto &p : scan.points()) VF_LOG(c, "  " << p << (p.is_occupied() ? " hit" : " miss") << "\n"); }
    auto before = scan.points();
    rec.log.clear(); rec.was_reset = false; tq->resets = 0;
    auto &ret = margin || c.flag() ? adder->append_scan(*map, pose, scan, sq, margin) : adder->append_scan(*map, pose, scan, sq);
    VF_CHECK(&ret == map.get(), "another map is returned");
    VF_CHECK(!rec.was_reset, "a cell is replaced");
    VF_CHECK(scan.points().size() == before.size(), "the scan is changed");
    for (size_t i = 0; i < before.size(); ++i) VF_CHECK(before[i].range() == scan.points()[i].range() && before[i].angle() == scan.points()[i].angle() && before[i].is_occupied() == scan.points()[i].is_occupied(), "point " << i << " is changed");
    // ---- expectation
    AngleHistogram hist; hist.reset(scan);
    size_t pos = 0; Point2D rp{pose.x, pose.y};
    for (long i = margin; i < n - margin; ++i) {
      auto &sp = before[i];
      if (limited && sp.range() > reach) { c.label("out of range"); continue; }
      double wx = rp.x + sp.range() * std::cos(pose.theta + sp.angle()), wy = rp.y + sp.range() * std::sin(pose.theta + sp.angle());
      VF_CHECK(pos < rec.log.size(), "no updates for point " << i);
      Point2D obst = rec.log[pos].a.obstacle;
      VF_CHECK(std::abs(obst.x - wx) < 1e-7 && std::abs(obst.y - wy) < 1e-7, "the end of beam " << i << " is (" << wx << "," << wy << "), reported " << obst.x << "," << obst.y);
      Segment2D beam{rp, obst};
      auto cells = map->world_to_cells(beam);
      double q = sq * (q_kind == 0 ? 1 : q_kind == 1 ? 1. / hist.value(before, i) : (i * 37 % 101) / 100.);
      VF_CHECK(rec.log.size() >= pos + cells.size(), "beam " << i << " crosses " << cells.size() << " cells, " << rec.log.size() - pos << " updates");
      bool hit = sp.is_occupied();
      auto endc = cells.back(), begc = cells.front();
      auto base = ref_est->estimate_occupancy(beam, map->world_cell_bounds(endc), hit);
      double hole = !hit ? 0 : blur_kind == 0 ? 0 : blur >= 0 ? blur / scale : -blur / scale * beam.length_sq();
      double hole_sq = hole * hole;
      auto d2 = [](const Coord &a, const Coord &b) { double x = a.x - b.x, y = a.y - b.y; return x * x + y * y; };
      std::vector<Rec> got(rec.log.begin() + pos, rec.log.begin() + pos + cells.size());
      pos += cells.size();
      if (hit && cells.size() > 2 && !blur_kind) c.nontrivial();
      for (auto &k : cells) {
        auto it = std::find_if(got.begin(), got.end(), [&](const Rec &r) { return r.k == k; });
        VF_CHECK(it != got.end(), "cell " << k << " of beam " << i << " is not updated");
        Rec r = *it; got.erase(it);
        VF_CHECK(r.a.obstacle.x == obst.x && r.a.obstacle.y == obst.y, "the obstacle position of " << r);
        VF_CHECK(std::abs(r.a.quality - q) <= 1e-12, "quality of " << r << ", expected " << q);
        if (k == endc) {
          VF_CHECK(r.a.is_occupied == hit, (hit ? "a hit" : "a miss") << " is rendered as " << r);
          VF_CHECK(same_occ(r.a.occupancy, base, 1e-9), "end cell of beam " << i << ": " << r << ", expected " << base);
          continue;
        }
        auto e = ref_est->estimate_occupancy(beam, map->world_cell_bounds(k), false);
        bool near = std::abs(d2(k, endc) - hole_sq) < 1e-6 * (1 + hole_sq) || std::abs(d2(begc, endc) - hole_sq) < 1e-6 * (1 + hole_sq);
        bool blurred = hole_sq > 0 && d2(k, endc) < hole_sq && hole_sq < d2(begc, endc);
        if (near) { c.label("near blur border"); blurred = r.a.is_occupied; }
        if (blurred) { c.label("blurred"); c.nontrivial(); e.prob_occ = base.prob_occ * (1 - d2(k, endc) / hole_sq); }
        VF_CHECK(r.a.is_occupied == blurred, "cell " << k << " of beam " << i << " " << begc << "->" << endc << " with blur of " << hole << " cells: " << r);
        VF_CHECK(same_occ(r.a.occupancy, e, 1e-7), "cell " << k << " of beam " << i << ": " << r << ", expected " << e);
      }
    }
    VF_CHECK(pos == rec.log.size(), rec.log.size() - pos << " extra updates, the first one " << rec.log[pos]);
    if (!n) c.label("empty scan");
  }
}

// what a user sees in the map: hits occupied, cells before them free, others unknown
VF_TEST(resulting_map, "at least three beams and a growing map", 4000, 60000) {
  int kind = c.i(0, 1), ck = c.i(0, CK_N - 1);
  double scale = c.pick({0.1, 1.0, 0.25});
  GridMapParams mp{int(c.len(1, 20)), int(c.len(1, 20)), scale};
  std::unique_ptr<GridMap> map;
  if (kind) map = std::make_unique<UnboundedLazyTiledGridMap>(make_cell(ck), mp); else map = std::make_unique<UnboundedPlainGridMap>(make_cell(ck), mp);
  auto adder = WallDistanceBlurringScanAdder::builder().set_occupancy_estimator(std::make_shared<ConstOccupancyEstimator>(Occupancy{0.95, 1}, Occupancy{0.05, 1}))
                 .set_observation_quality_estimator(std::make_shared<IdleOMQE>()).build();
  RobotPose pose{scale * (c.i(-100, 100) + 0.5), scale * (c.i(-100, 100) + 0.5), c.angle()};
  LaserScan2D scan; long n = c.len(0, 20);
  auto rc = map->world_to_cell(pose.x, pose.y);
  std::set<std::pair<int, int>> hits, frees;
  for (long i = 0; i < n; ++i) {
    double r = scale * c.i(20, 400) / 10., a = c.i(-180, 179) * M_PI / 180; bool hit = c.yes(3, 4);
    double wx = pose.x + r * std::cos(a + pose.theta), wy = pose.y + r * std::sin(a + pose.theta);
    auto in = [](double v) { return v - std::floor(v) > 1e-6 && v - std::floor(v) < 1 - 1e-6; };
    if (!in(wx / scale) || !in(wy / scale)) continue;
    scan.points().push_back(ScanPoint2D::make_polar(r, a, hit));
    auto e = map->world_to_cell(wx, wy);
    if (hit) hits.insert({e.x, e.y}); else frees.insert({e.x, e.y});
    // points well before the end
    for (double t = 0; t < 1; t += 0.01) {
      double x = (pose.x + t * (wx - pose.x)) / scale, y = (pose.y + t * (wy - pose.y)) / scale;
      Coord k{int(std::floor(x)), int(std::floor(y))};
      if (in(x) && in(y) && !(k == e)) frees.insert({k.x, k.y});
    }
  }
  (void)rc;
  auto w0 = map->width();
  VF_LOG(c, pose << " " << cell_kind_name(ck) << " scale " << scale << "\n"); for (auto &p : scan.points()) VF_LOG(c, "  " << p << (p.is_occupied() ? " hit" : " miss") << "\n");
  adder->append_scan(*map, pose, scan, 0.8);
  c.nontrivial(n >= 3 && map->width() > w0);
  for (auto &h : hits) {
    Coord k{h.first, h.second};
    // another beam may pass the cell by its corner
    double cx = (k.x + 0.5) * scale, cy = (k.y + 0.5) * scale; bool passed = false;
    for (auto &p : scan.points()) {
      double ux = std::cos(p.angle() + pose.theta), uy = std::sin(p.angle() + pose.theta), vx = cx - pose.x, vy = cy - pose.y;
      double t = std::max(0., std::min(p.range(), vx * ux + vy * uy));
      passed |= std::hypot(vx - t * ux, vy - t * uy) < scale * 0.75 && !(p.is_occupied() && map->world_to_cell(pose.x + p.range() * ux, pose.y + p.range() * uy) == k);
    }
    if (passed) continue;
    c.label("lone hit");
    VF_CHECK(!(*map)[k].is_unknown() && map->occupancy(k) > 0.5, "the cell of a hit " << k << " has occupancy " << map->occupancy(k));
  }
  for (auto &f : frees) if (!hits.count(f)) { Coord k{f.first, f.second};
    VF_CHECK(!(*map)[k].is_unknown() && map->occupancy(k) < 0.5, "cell " << k << " before a hit has occupancy " << map->occupancy(k)); }
  // cells more than a cell away from any beam are unknown
  for (int s = 0; s < 40; ++s) {
    Coord k{rc.x + int(c.i(-45, 45)), rc.y + int(c.i(-45, 45))};
    double cx = (k.x + 0.5) * scale, cy = (k.y + 0.5) * scale, best = 1e9;
    for (auto &p : scan.points()) {
      double ux = std::cos(p.angle() + pose.theta), uy = std::sin(p.angle() + pose.theta), vx = cx - pose.x, vy = cy - pose.y;
      double t = std::max(0., std::min(p.range(), vx * ux + vy * uy));
      best = std::min(best, std::hypot(vx - t * ux, vy - t * uy));
    }
    if (best > scale * 0.75) VF_CHECK((*map)[k].is_unknown(), "cell " << k << " away from beams is known: " << map->occupancy(k));
  }
}
