// P01: the score of a scan at a pose.
#include "vf.h"
#include "scorer.h"
#include "core/scan_matchers/no_action_scan_matcher.h"

// the score of points at world positions, from the definitions; NaN: unknown; sets amb if a position is next to a border
static double ref_score(const Cfg &g, const GridMap &m, const std::vector<ScanPoint2D> &pts, const std::vector<Point2D> &world, const std::vector<double> &weight,
                        double aw, double ah, bool &amb) {
  auto impact = [&](Coord k, Point2D w) -> double {
    const GridCell &cell = m[k]; AreaOccupancyObservation a{true, {1, 1}, w, 1};
    return g.oie == 0 ? 1 - cell.discrepancy(a) : g.oie == 1 ? cell.occupancy().prob_occ : ProbeOIE{}.estimate_impact(cell, a);
  };
  double s = m.scale();
  auto fl = [&](double v) { double q = v / s; if (std::abs(q - std::round(q)) < 1e-6) amb = true; return int(std::floor(q)); };
  ld num = 0, den = 0;
  for (size_t i = 0; i < pts.size(); ++i) {
    double l = world[i].x - aw / 2, r = world[i].x + aw / 2, b = world[i].y - ah / 2, t = world[i].y + ah / 2;
    ld p = 0;
    if (g.oope == 0) p = impact({fl(world[i].x), fl(world[i].y)}, world[i]);
    else {
      ld sum = 0, n = 0, wsum = 0, wn = 0, mx = 0;
      for (int x = fl(l); x <= fl(r); ++x) for (int y = fl(b); y <= fl(t); ++y) {
        ld v = impact({x, y}, world[i]);
        ld ox = std::min(r, (x + 1) * s) - std::max(l, x * s), oy = std::min(t, (y + 1) * s) - std::max(b, y * s);
        ld w = aw && ah ? ox * oy : 1;
        sum += v; n += 1; wsum += v * w; wn += w; mx = std::max(mx, v);
      }
      p = g.oope == 1 ? mx : g.oope == 2 ? sum / n : wsum / wn;
    }
    num += p * weight[i] * pts[i].factor(); den += weight[i];
  }
  return den ? double(num / den) : std::nan("");
}
static std::vector<double> ref_weights(const Cfg &g, const std::vector<ScanPoint2D> &now, const LaserScan2D &filtered) {
  std::vector<double> w; AngleHistogram h; h.reset(filtered);
  for (size_t i = 0; i < now.size(); ++i) {
    if (g.spw == 0) w.push_back(1);
    else if (g.spw == 2) w.push_back(1. / h.value(filtered.points(), i));
    else { double co = std::abs(std::cos(now[i].angle())), si = std::abs(std::sin(now[i].angle()));
      w.push_back((co > 0.9 ? 3 : co > 0.8 ? 2 : si + co) * std::sqrt(now[i].range())); }
  }
  return w;
}

VF_TEST(score, "a scored scan of at least 3 points over a map with at least 3 written cells", 30000, 250000) {
  auto g = gen_cfg(c);
  int span = g.bounded ? 12 : 14; if (g.bounded) { g.w = std::max(g.w, 26); g.h = std::max(g.h, 26); }
  auto m = g.make_map(); auto ws = gen_writes(c, 40, span, g.scale);
  for (auto &w : ws) m->update(w.k, w.a);
  auto spe = g.make_spe();
  for (long uses = c.len(1, 3); uses > 0; --uses) {
    auto s = gen_scan(c, g.scale);
    RobotPose pose{g.scale * (c.i(-300, 300) / 50. + 0.0123), g.scale * (c.i(-300, 300) / 50. + 0.0123), c.i(-180, 180) * M_PI / 180 + 0.00123};
    show(c, g, ws, s, pose);
    auto before = s.points();
    // ---- filtering
    auto f = spe->filter_scan(s, pose, *m);
    std::vector<ScanPoint2D> exp; std::vector<Point2D> world; bool amb = false;
    for (size_t i = 0; i < before.size(); ++i) {
      auto &p = before[i];
      double x = pose.x + p.range() * std::cos(p.angle() + pose.theta), y = pose.y + p.range() * std::sin(p.angle() + pose.theta);
      Coord k{int(std::floor(x / g.scale)), int(std::floor(y / g.scale))};
      if (g.skip && i % g.skip) continue;
      if (!p.is_occupied()) continue;
      if (g.max_range > 0 && p.range() > g.max_range) continue;
      if (g.bounded) { auto fr = [&](double v) { return std::abs(v / g.scale - std::round(v / g.scale)) < 1e-6; }; amb |= fr(x) || fr(y); if (!inside(*m, k)) continue; }
      exp.push_back(p); world.push_back({x, y});
    }
    if (amb) { c.label("next to a border"); continue; }
    VF_CHECK(f.points().size() == exp.size(), f.points().size() << " points pass the filter, expected " << exp.size());
    for (size_t i = 0; i < exp.size(); ++i) VF_CHECK(same_point(f.points()[i], exp[i]), "point " << i << " after the filter is " << f.points()[i] << ", expected " << exp[i]);
    VF_CHECK(s.points().size() == before.size(), "the filter changes the scan");
    for (size_t i = 0; i < before.size(); ++i) VF_CHECK(same_point(s.points()[i], before[i]), "the filter changes point " << i);
    // ---- scoring
    long evals = c.len(1, 4);
    for (long e = 0; e < evals; ++e) {
      RobotPose q = pose;
      if (!g.bounded && e) { q.x += g.scale * c.i(-20, 20) / 7.; q.y += g.scale * c.i(-20, 20) / 7.; q.theta += c.i(-10, 10) / 37.; }
      double aw = 0, ah = 0; bool area = !g.bounded && c.flag();
      if (area) { aw = g.scale * c.i(1, 60) / 17.; ah = g.scale * c.i(1, 60) / 17.; }
      bool pre = c.flag(1, 3);
      ScanProbabilityEstimator::SPEParams sp; double cx = c.i(-9, 9) / 7., cy = c.i(-9, 9) / 7.;
      sp.sp_analysis_area = LightWeightRectangle{cy - ah / 2, cy + ah / 2, cx - aw / 2, cx + aw / 2}; // its position does not matter
      if (sp.sp_analysis_area.area() == 0) sp.sp_analysis_area = LightWeightRectangle{cy, cy, cx, cx};
      sp.scan_is_prerotated = pre;
      LaserScan2D used = f; if (pre) used = f.to_cartesian(q.theta);
      RobotPose at = q; if (pre && c.flag()) at.theta = c.angle(); // of no importance for a rotated scan
      std::vector<Point2D> wp; for (auto &p : exp) wp.push_back({q.x + p.range() * std::cos(p.angle() + q.theta), q.y + p.range() * std::sin(p.angle() + q.theta)});
      auto pts = exp; if (pre) for (size_t i = 0; i < pts.size(); ++i) pts[i] = used.points()[i];
      VF_LOG(c, "score at " << at << (pre ? " rotated" : "") << " area " << aw << "x" << ah << "\n");
      bool amb = false; auto wts = ref_weights(g, pts, f);
      if (g.spw == 1) for (auto &p : pts) { double co = std::abs(std::cos(p.angle())); amb |= std::abs(co - 0.9) < 1e-9 || std::abs(co - 0.8) < 1e-9; }
      double r = ref_score(g, *m, pts, wp, wts, aw, ah, amb);
      double v = !pre && !area && c.flag() ? spe->estimate_scan_probability(used, at, *m) : spe->estimate_scan_probability(used, at, *m, sp);
      VF_LOG(c, "= " << v << " expected " << r << "\n");
      bool unk = ScanProbabilityEstimator::is_prob_unknown(v);
      VF_CHECK(unk == std::isnan(v), "unknown score " << v << " is " << (unk ? "" : "not ") << "recognised");
      double total = 0; for (double w : wts) total += w;
      VF_CHECK(unk == (exp.empty() || total == 0), "score " << v << " of " << exp.size() << " points of weight " << total);
      VF_CHECK(ScanProbabilityEstimator::is_prob_unknown(ScanProbabilityEstimator::unknown_probability()) && !ScanProbabilityEstimator::is_prob_unknown(r == r ? r : 0.), "unknown value");
      if (!unk) {
        VF_CHECK(v >= -1e-9 && v <= 1 + 1e-9, "score " << v);
        if (!amb) { VF_CHECK(std::abs(v - r) < 1e-7, "score " << v << ", expected " << r); c.nontrivial(exp.size() >= 3 && ws.size() >= 3); } else c.label("next to a border");
      }
      if (c.flag()) f.trig_provider->set_base_angle(c.angle()), c.label("turned by someone else"); // e.g. by the one who integrates the scan
      double again = spe->estimate_scan_probability(used, at, *m, sp), matcher = NoActionScanMatcher{spe}.scan_probability(used, at, *m, sp);
      double first = spe->estimate_scan_probability(used, at, *m, sp);
      VF_CHECK((unk && std::isnan(again) && std::isnan(matcher)) || (again == first && matcher == first), "scores " << again << ", " << first << " and " << matcher << " of the same thing");
      for (size_t i = 0; i < pts.size(); ++i) VF_CHECK(same_point(f.points()[i], exp[i]), "scoring changes the scan");
    }
    // ---- the map is what it was
    auto ref = g.make_map(); for (auto &w : ws) ref->update(w.k, w.a);
    VF_CHECK(ref->width() == m->width() && ref->height() == m->height() && ref->origin() == m->origin() && ref->scale() == m->scale(), "scoring changes the geometry of the map");
    for (auto &w : ws) VF_CHECK((*ref)[w.k].occupancy() == (*m)[w.k].occupancy() && (*ref)[w.k].is_unknown() == (*m)[w.k].is_unknown(), "scoring changes cell " << w.k);
  }
}

VF_TEST(moved_by_whole_cells, "a known score", 16000, 120000) {
  auto g = gen_cfg(c); g.scale = c.pick({1.0, 0.5, 0.25, 0.125}); if (g.map_kind >= 3) g.map_kind = 0; g.bounded = false; if (g.oie == 2) g.oie = 0;
  auto a = g.make_map(), b = g.make_map(); auto ws = gen_writes(c, 40, 12, g.scale);
  int dx = c.i(-60, 60), dy = c.i(-60, 60);
  for (auto &w : ws) { a->update(w.k, w.a); auto x = w.a; x.obstacle = {x.obstacle.x + dx * g.scale, x.obstacle.y + dy * g.scale}; b->update({w.k.x + dx, w.k.y + dy}, x); }
  auto s = gen_scan(c, g.scale);
  RobotPose p{g.scale * (c.i(-300, 300) / 64. + 1 / 128.), g.scale * (c.i(-300, 300) / 64. + 1 / 128.), c.i(-180, 180) * M_PI / 180 + 0.00123}, q{p.x + dx * g.scale, p.y + dy * g.scale, p.theta};
  show(c, g, ws, s, p); VF_LOG(c, "moved by " << dx << "," << dy << "\n");
  ScanProbabilityEstimator::SPEParams sp; double aw = g.scale * c.i(0, 60) / 17., ah = aw ? g.scale * c.i(1, 60) / 17. : 0;
  sp.sp_analysis_area = LightWeightRectangle{-ah / 2, ah / 2, -aw / 2, aw / 2};
  for (auto &pt : s.points()) { // skip positions next to a border
    double x = p.x + pt.range() * std::cos(pt.angle() + p.theta), y = p.y + pt.range() * std::sin(pt.angle() + p.theta);
    for (double v : {x, x - aw / 2, x + aw / 2, y, y - ah / 2, y + ah / 2}) if (std::abs(v / g.scale - std::round(v / g.scale)) < 1e-6) return;
  }
  auto e = g.make_spe(), h = g.make_spe();
  auto u = e->estimate_scan_probability(e->filter_scan(s, p, *a), p, *a, sp), v = h->estimate_scan_probability(h->filter_scan(s, q, *b), q, *b, sp);
  VF_CHECK(std::isnan(u) == std::isnan(v) && (std::isnan(u) || std::abs(u - v) < 1e-8), "score " << u << ", of the moved scene " << v);
  c.nontrivial(!std::isnan(u) && ws.size() > 2);
}

// a scan is scored better on a map it agrees with: the mean over its hits
VF_TEST(agreement, "three or more hits", 8000, 100000) {
  auto g = gen_cfg(c); g.map_kind = c.i(0, 1); g.oie = c.i(0, 1); g.ck = c.pick({int(CK_Affine), int(CK_Mean)}); g.bounded = false; g.max_range = -1;
  g.oope = 0; g.spw = c.flag() ? 0 : 2; g.skip = 0;
  auto m = g.make_map(), e = g.make_map();
  LaserScan2D s; long n = c.len(1, 12);
  RobotPose p{g.scale * (c.i(-300, 300) / 50. + 0.0123), g.scale * (c.i(-300, 300) / 50. + 0.0123), c.angle()};
  for (long i = 0; i < n; ++i) s.points().push_back(ScanPoint2D::make_polar(g.scale * c.i(50, 600) / 50., c.i(-180, 179) * M_PI / 180, true));
  show(c, g, {}, s, p);
  c.nontrivial(n >= 3);
  for (auto &sp : s.points()) {
    double x = p.x + sp.range() * std::cos(sp.angle() + p.theta), y = p.y + sp.range() * std::sin(sp.angle() + p.theta);
    for (double v : {x, y}) if (std::abs(v / g.scale - std::round(v / g.scale)) < 1e-6) return;
    m->reset(m->world_to_cell(x, y), *m->new_cell());
    AreaOccupancyObservation a{true, {1, 1}, {x, y}, 1}; m->update(m->world_to_cell(x, y), a);
    a.occupancy = {0, 1}; e->update(e->world_to_cell(x, y), a);
  }
  auto spe = g.make_spe(); auto f = spe->filter_scan(s, p, *m);
  double full = spe->estimate_scan_probability(f, p, *m), none = spe->estimate_scan_probability(f, p, *e), unk = spe->estimate_scan_probability(f, p, *g.make_map());
  VF_CHECK(std::abs(full - 1) < 1e-9 && std::abs(none) < 1e-9 && std::abs(unk - 0.5) < 1e-9, "score on a matching map " << full << ", on an empty one " << none << ", on an unknown one " << unk);
}
