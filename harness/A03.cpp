// A03: the multi-resolution matcher against exhaustive evaluation.
#include "vf.h"
#include "matching.h"
#include "scorer.h"
#include "core/scan_matchers/bf_multi_res_scan_matcher.h"

using Rect = M3RSMEngine::Rect;
struct Win { double x, y, rot, ang, tr; };
static std::ostream &operator<<(std::ostream &os, const Win &w) { return os << "window " << w.x << " x " << w.y << " rotation " << w.rot << " by " << w.ang << " accuracy " << w.tr; }

// offsets of the smallest rectangles along an axis: ends and middles
static std::vector<std::vector<double>> halves(double lim, double step) {
  std::vector<std::pair<double, double>> v{{-lim, lim}};
  while (v[0].second - v[0].first > step + 1e-7) {
    std::vector<std::pair<double, double>> n;
    for (auto &p : v) { double m = p.first + (p.second - p.first) / 2; n.push_back({p.first, m}); n.push_back({m, p.second}); }
    v = n;
  }
  std::vector<std::vector<double>> r; for (auto &p : v) r.push_back({p.first, p.second, p.first + (p.second - p.first) / 2});
  return r;
}

struct Scene { Cfg g; std::vector<Write> ws; bool tiled, bounded; };
static std::unique_ptr<GridMap> scene_map(const Scene &s, bool multi) {
  GridMapParams p{s.g.w, s.g.h, s.g.scale}; auto cell = make_cell(s.g.ck); auto oie = s.g.make_oie(); std::unique_ptr<GridMap> m;
  if (!multi) m = s.bounded ? std::unique_ptr<GridMap>(new PlainGridMap(cell, p)) : std::unique_ptr<GridMap>(new UnboundedPlainGridMap(cell, p));
  else if (s.bounded) { if (s.tiled) m.reset(new M3RSMRescalableGridMap<LazyTiledGridMap>(oie, cell, p)); else m.reset(new M3RSMRescalableGridMap<PlainGridMap>(oie, cell, p)); }
  else { if (s.tiled) m.reset(new M3RSMRescalableGridMap<UnboundedLazyTiledGridMap>(oie, cell, p)); else m.reset(new M3RSMRescalableGridMap<UnboundedPlainGridMap>(oie, cell, p)); }
  for (auto &w : s.ws) m->update(w.k, w.a);
  return m;
}

static Scene gen_scene(Ctx &c, int mode) { // 0: in the map, 1: also out of it, 2: aligned with the grid
  Scene sc; auto &g = sc.g; g = gen_cfg(c);
  g.oie = c.i(0, 1); g.oope = 1; g.ck = c.pick({CK_Affine, CK_Mean, CK_Tbm, CK_TbmEven, CK_Credibilist}); g.max_range = -1; g.skip = c.flag(1, 5) ? 2 : 0;
  sc.tiled = c.flag(1, 24); sc.bounded = mode != 1 && c.flag(1, 4);
  if (mode == 2) { g.scale = c.pick({0.1, 0.05, 1., 0.25, 0.5}); if (g.spw == 1) g.spw = 0; }
  g.w = c.len(sc.bounded ? 30 : 1, 40); g.h = c.len(sc.bounded ? 30 : 1, 40);
  int span = sc.bounded ? 14 : 16; sc.ws = gen_writes(c, 40, span, g.scale);
  if (mode == 1) { // nothing that is less likely an obstacle than an unknown place, see the probe below
    g.ck = c.pick({CK_Affine, CK_Mean}); for (auto &w : sc.ws) w.a.occupancy.prob_occ = std::max(w.a.occupancy.prob_occ, 1 - w.a.occupancy.prob_occ);
  }
  if (!sc.bounded && mode != 1) { auto a = gen_aoo(c, false); sc.ws.push_back({{-18, -18}, a}); sc.ws.push_back({{18, 18}, a}); }
  return sc;
}
static void gen_view(Ctx &c, int mode, double S, double reach, const GridMap &m, TransformedLaserScan &s, RobotPose &p) {
  auto lo = m.internal2external({0, 0}); s.quality = 1;
  if (mode == 2) {
    p = {S * c.i(-5, 5), S * c.i(-5, 5), c.pick({0., 0., M_PI / 2, -M_PI / 2, M_PI})};
    for (long n = c.i(1, 10); n > 0; --n) s.scan.points().push_back(c.flag() ? ScanPoint2D::make_polar(S * c.i(0, 6), c.i(-2, 1) * M_PI / 2, true) : ScanPoint2D::make_cartesian({S * c.i(-6, 6), S * c.i(-6, 6)}, true));
  } else {
    p = {S * (c.i(-300, 300) / (mode == 1 ? 60. : 150.) + 0.0123), S * (c.i(-300, 300) / (mode == 1 ? 60. : 150.) + 0.0123), c.i(-180, 180) * M_PI / 180 + 0.00123};
    if (c.flag(1, 6)) s.scan = gen_scan(c, S);
    else for (long n = c.i(1, 12); n > 0; --n) s.scan.points().push_back(ScanPoint2D::make_polar(S * c.i(1, mode == 1 ? 600 : 400) / 50., c.i(-180, 179) * M_PI / 180, c.yes(7, 8)));
  }
  if (mode != 1) { // stay inside of the map
    std::vector<ScanPoint2D> keep; double d = reach + S;
    for (auto &q : s.scan.points()) if (p.x - q.range() - d > lo.x * S && p.y - q.range() - d > lo.y * S && p.x + q.range() + d < (lo.x + m.width()) * S && p.y + q.range() + d < (lo.y + m.height()) * S) keep.push_back(q);
    s.scan.points() = keep;
  }
}
static void search(Ctx &c, int mode) {
  Scene sc = gen_scene(c, mode); auto &g = sc.g;
  auto mp = scene_map(sc, true), pl = scene_map(sc, false); auto &m = *mp; auto lo = m.internal2external({0, 0});
  if (c.verbose()) { auto q = m.internal2external({0, 0}); VF_LOG(c, "extent from " << q << " size " << m.width() << "x" << m.height() << (sc.bounded ? " bounded" : "") << (sc.tiled ? " tiled" : "") << "\n"); }
  auto spe = g.make_spe();
  double S = g.scale;
  Win w; auto side = [&]() { return mode == 2 ? S * c.i(0, 6) : S * c.i(0, 60) / 24.; };
  w.x = side(); w.y = c.flag() ? w.x : side(); w.ang = c.pick({0.02, 0.05, 0.1}); w.rot = w.ang * c.i(0, 3) + (c.flag(1, 3) ? w.ang / 3 : 0);
  w.tr = mode == 2 ? S * c.pick({1., 0.5, 2., 0.25}) : S * c.i(5, 40) / 17.;
  BruteForceMultiResolutionScanMatcher sm{spe, w.x, w.y, w.rot, w.ang, w.tr};
  if (c.flag(1, 4)) { sm.set_lookup_ranges(w.x + S, w.y / 2, w.rot); w.x += S; w.y /= 2; if (c.flag()) { w.tr *= 1.5; sm.set_target_accuracy(w.ang, w.tr); } }
  VF_LOG(c, w << "\n");
  long uses = c.i(1, 2);
  for (long u = 0; u < uses; ++u) {
    TransformedLaserScan s; RobotPose p; gen_view(c, mode, S, std::max(w.x, w.y), m, s, p);
    if (!u) show(c, g, sc.ws, s.scan, p); else show(c, g, {}, s.scan, p);
    RobotPoseDelta d{7, 8, 9}; double v = sm.process_scan(s, p, m, d);
    VF_LOG(c, "-> " << v << " " << d << "\n");
    VF_CHECK(m.scale() == S, "the zoom of the map is left at " << m.scale());
    { auto l2 = m.internal2external({0, 0}); VF_CHECK(l2 == lo, "the extent of the map changes"); }
    // the same thing again and by another matcher
    if (c.flag(1, 3)) {
      BruteForceMultiResolutionScanMatcher sm2{g.make_spe(), w.x, w.y, w.rot, w.ang, w.tr}; RobotPoseDelta d2; double v2 = sm2.process_scan(s, p, *scene_map(sc, true), d2);
      VF_CHECK(same_num(v, v2) && near_pose(d, d2, 0), "a fresh matcher gives " << v2 << " " << d2 << ", this one " << v << " " << d);
    }
    auto f = spe->filter_scan(s.scan, p, *pl); auto np = f.points().size();
    ScanProbabilityEstimator::SPEParams sp; sp.scan_is_prerotated = true; double dist;
    std::vector<LaserScan2D> rot; std::vector<double> rv;
    for (double r = 0; 2 * r <= 2 * w.rot + 1e-7; r += w.ang) { rv.push_back(r); if (r) rv.push_back(-r); }
    for (double r : rv) rot.push_back(f.to_cartesian(r + p.theta));
    // the score and the distance of its points to borders of cells
    auto score = [&](size_t ri, double x, double y) {
      dist = 1;
      for (auto &q : rot[ri].points()) for (double z : {(q.x() + p.x + x) / S, (q.y() + p.y + y) / S}) dist = std::min(dist, std::abs(z - std::round(z)));
      return spe->estimate_scan_probability(rot[ri], {p.x + x, p.y + y, 0}, *pl, sp);
    };
    double init = score(0, 0, 0);
    VF_CHECK(std::isnan(init) == std::isnan(v), "score " << v << ", the initial pose has " << init);
    if (std::isnan(v)) { c.label("unknown"); VF_CHECK(d.x == 0 && d.y == 0 && d.theta == 0, "correction " << d << " without a score"); continue; }
    // inside of the window
    VF_CHECK(std::abs(d.x) <= w.x + 1e-9 && std::abs(d.y) <= w.y + 1e-9 && std::abs(d.theta) <= w.rot + 1e-6, "correction " << d << " is outside of the window");
    size_t ri = rv.size(); for (size_t i = 0; i < rv.size(); ++i) if (std::abs(rv[i] - d.theta) < 1e-9) ri = i;
    VF_CHECK(ri < rv.size(), "rotation " << d.theta << " is not a candidate");
    double got = score(ri, d.x, d.y);
    if (dist > 1e-6 || mode == 2) VF_CHECK(dist < 1e-6 || std::abs(got - v) < 1e-9, "score " << v << ", the correction has " << got);
    // no candidate is better
    const double tol = 2e-6;
    long tested = 0, worse = 0;
    for (size_t i = 0; i < rv.size(); ++i) {
      double z = score(i, 0, 0); VF_CHECK(z <= v + tol || dist < 1e-9, "score " << v << ", the rotation by " << rv[i] << " alone has " << z);
      auto hx = halves(w.x, w.tr), hy = halves(w.y, w.tr); if (hx.size() * hy.size() > 300) continue;
      auto rounded = [&](const std::vector<std::vector<double>> &h) { return std::abs(h[0][1] - h[0][0] - w.tr) < 1e-6; }; // might be split once more
      int kinds = rounded(hx) || rounded(hy) ? 4 : 5;
      for (auto &bx : hx) for (auto &by : hy) for (int k = 0; k < kinds; ++k) {
        double x = bx[k == 4 ? 2 : k & 1], y = by[k == 4 ? 2 : k >> 1];
        double q = score(i, x, y); ++tested; worse += q < v - 1e-6;
        VF_CHECK(q <= v + tol || dist < 1e-9, "score " << v << ", rotation by " << rv[i] << " with shift " << x << "," << y << " has " << q);
      }
    }
    c.nontrivial(np >= 3 && sc.ws.size() > 3 && tested > 10 && worse > 0);
  }
}
VF_TEST(inside_of_the_map, "at least 3 used points, 10 candidates, some of them worse", 4000, 15000) { search(c, 0); }
VF_TEST(aligned_with_the_grid, "at least 3 used points, 10 candidates, some of them worse", 4000, 15000) { search(c, 2); }
VF_TEST(beyond_the_map, "at least 3 used points, 10 candidates, some of them worse", 4000, 15000) { search(c, 1); }

// The engine itself: what it hands out is ordered, bounds every pose of its range, and what it keeps back is worse.
static void drain(Ctx &c, int mode) {
  Scene sc = gen_scene(c, mode); auto &g = sc.g; double S = g.scale; auto pl = scene_map(sc, false);
  struct Req { std::shared_ptr<ScanProbabilityEstimator> spe; std::unique_ptr<GridMap> map; RobotPose p; TransformedLaserScan s; bool pre; LaserScan2D f; std::vector<LaserScan2D> rot; }; std::vector<Req> rq(c.i(1, 3));
  double mx = S * c.i(0, 30) / 12., my = c.flag() ? mx : S * c.i(0, 30) / 12., ang = c.pick({0.02, 0.05, 0.1}), sector = 2 * ang * c.i(0, 2) + (c.flag(1, 3) ? ang : 0), step = S * c.i(8, 40) / 17., diff = c.pick({0., 0., 0.05, 0.3});
  VF_LOG(c, "window " << mx << "x" << my << " sector " << sector << " by " << ang << " accuracy " << step << " difference " << diff << "\n");
  std::vector<double> rv; for (double r = 0; 2 * r <= sector + 1e-7; r += ang) { rv.push_back(r); if (r) rv.push_back(-r); }
  M3RSMEngine e{diff}; if (c.flag(1, 3)) { e.set_translation_lookup_range(9, 9); e.set_rotation_lookup_range(0, 1); auto m = scene_map(sc, true); TransformedLaserScan s; RobotPose p; gen_view(c, mode, S, 9, *m, s, p); e.add_scan_matching_request(g.make_spe(), p, s.scan, *m, c.flag()); if (c.flag()) e.next_best_match(S); e.reset_engine_state(); }
  e.set_translation_lookup_range(mx, my); e.set_rotation_lookup_range(sector, ang); bool shared = c.flag();
  for (size_t k = 0; k < rq.size(); ++k) { auto &r = rq[k]; if (!k || !shared) r.map = scene_map(sc, true); auto &m = *rq[shared ? 0 : k].map; gen_view(c, mode, S, std::max(mx, my), m, r.s, r.p); r.pre = c.flag(2, 3); show(c, g, k ? std::vector<Write>{} : sc.ws, r.s.scan, r.p); VF_LOG(c, (r.pre ? "prerotated" : "as it is") << "\n"); r.spe = g.make_spe(); r.f = r.spe->filter_scan(r.s.scan, r.p, *pl); for (double a : rv) r.rot.push_back(r.pre ? r.f.to_cartesian(a + r.p.theta) : r.f); m.rescale(0); e.add_scan_matching_request(r.spe, r.p, r.s.scan, m, r.pre); }
  double dist; auto score = [&](const Req &r, size_t ri, double x, double y) { dist = 1; auto turned = r.pre ? r.rot[ri] : r.f.to_cartesian(rv[ri] + r.p.theta); for (auto &q : turned.points()) for (double z : {(q.x() + r.p.x + x) / S, (q.y() + r.p.y + y) / S}) dist = std::min(dist, std::abs(z - std::round(z))); ScanProbabilityEstimator::SPEParams sp; sp.scan_is_prerotated = r.pre; return r.spe->estimate_scan_probability(r.rot[ri], {r.p.x + x, r.p.y + y, r.pre ? 0 : r.p.theta + rv[ri]}, *pl, sp); };
  const double tol = 2e-6; struct Out { size_t req, ri; Rect t; double bound; }; std::vector<Out> out; double best_exact = 0, prev = 2; long all = 0;
  for (;;) { auto m = e.next_best_match(step); if (!m.is_valid()) break; VF_CHECK(++all < 20000, "the engine does not run dry");
    size_t k = 0; while (k < rq.size() && m.pose != &rq[k].p) ++k; VF_CHECK(k < rq.size() && m.map == rq[shared ? 0 : k].map.get(), "a match of an unknown pose or map"); size_t ri = 0; while (ri < rv.size() && std::abs(rv[ri] - m.rotation) > 1e-9) ++ri; VF_CHECK(ri < rv.size(), "rotation " << m.rotation << " is not a candidate");
    auto &t = m.translation_drift; VF_CHECK(t.hside_len() <= step + 1e-6 && t.vside_len() <= step + 1e-6 && t.left() >= -mx - 1e-9 && t.right() <= mx + 1e-9 && t.bot() >= -my - 1e-9 && t.top() <= my + 1e-9, "the range " << t << " is too large or outside of the window");
    VF_CHECK(m.prob_upper_bound <= prev + 1e-5, "a match with " << m.prob_upper_bound << " follows one with " << prev); prev = m.prob_upper_bound;
    if (m.is_finest()) { double z = score(rq[k], ri, t.left(), t.bot()); VF_CHECK(dist < 1e-6 || std::abs(z - m.prob_upper_bound) < 1e-9, "a single pose has " << z << ", the engine says " << m.prob_upper_bound); best_exact = std::max(best_exact, m.prob_upper_bound); }
    else for (int i = 0; i < 5; ++i) { double x = i < 4 ? t.left() + (t.right() - t.left()) * (i & 1) : t.center().x, y = i < 4 ? t.bot() + (t.top() - t.bot()) * (i >> 1) : t.center().y; if (i >= 2 && i < 4) { x = t.left() + (t.right() - t.left()) * c.unit(); y = t.bot() + (t.top() - t.bot()) * c.unit(); } double z = score(rq[k], ri, x, y); VF_CHECK(z <= m.prob_upper_bound + tol || dist < 1e-9, "a pose shifted by " << x << "," << y << " and rotated by " << m.rotation << " has " << z << ", its range " << t << " promises at most " << m.prob_upper_bound); }
    if (out.size() < 4000) out.push_back({k, ri, t, m.prob_upper_bound}); }
  if (out.size() == 4000) return; long kept = 0; size_t pts = 0;
  for (size_t k = 0; k < rq.size(); ++k) { pts += rq[k].f.points().size(); for (int i = 0; i < 12; ++i) { size_t ri = c.i(0, rv.size() - 1); double x = i ? mx * (2 * c.unit() - 1) : 0, y = i ? my * (2 * c.unit() - 1) : 0; double z = score(rq[k], ri, x, y); if (std::isnan(z)) continue; bool in = false; for (auto &o : out) in |= o.req == k && o.ri == ri && o.t.left() - 1e-9 <= x && x <= o.t.right() + 1e-9 && o.t.bot() - 1e-9 <= y && y <= o.t.top() + 1e-9; kept += !in; VF_CHECK(in || dist < 1e-9 || z <= best_exact - diff + tol, "pose " << k << " shifted by " << x << "," << y << " and rotated by " << rv[ri] << " has " << z << " and is kept back, the best single pose has " << best_exact); } }
  if (kept) c.label("kept back"); if (rq.size() > 1) c.label(shared ? "several poses" : "several maps"); c.nontrivial(pts >= 3 && out.size() > 4);
}
VF_TEST(engine, "three usable points, more than four matches", 3000, 12000) { drain(c, c.flag(1, 3) ? 2 : 0); }

// Known finding: coarse cells on the edge of an unbounded map bound only places inside of its extent.
VF_PROBE(free_cell_at_the_edge_of_the_map, "fixed input") {
  c.nontrivial(); GridMapParams gp{1, 1, 1}; auto oie = std::make_shared<DiscrepancyOIE>();
  M3RSMRescalableGridMap<UnboundedPlainGridMap> m{oie, make_cell(CK_Affine), gp};
  m.update({0, 0}, {false, {0, 1}, {0.5, 0.5}, 1});
  auto spe = std::make_shared<WeightedMeanPointProbabilitySPE>(std::make_shared<MaxOccupancyObservationPE>(oie), std::make_shared<EvenSPW>());
  BruteForceMultiResolutionScanMatcher sm{spe, 0.75, 0.75, 0, 0.02, 0.4};
  TransformedLaserScan s; s.quality = 1; s.scan.points().push_back(ScanPoint2D::make_polar(0.25, 0, true));
  RobotPose p{0.25, 0.25, 0}; RobotPoseDelta d; double v = sm.process_scan(s, p, m, d);
  VF_CHECK(v >= 0.5, "score " << v << " at " << d << ", a pose shifted by (-0.75, 0) has 0.5");
}
