// A01: what a scan matcher returns and reports.
#include "vf.h"
#include "matching.h"
#include "scorer.h"
#include "core/scan_matchers/brute_force_scan_matcher.h"
#include "core/scan_matchers/monte_carlo_scan_matcher.h"
#include "core/scan_matchers/hill_climbing_scan_matcher.h"
#include "core/scan_matchers/hcsm_fixed.h"
#include "core/scan_matchers/bf_multi_res_scan_matcher.h"
#include "core/scan_matchers/no_action_scan_matcher.h"
#include "core/scan_matchers/connect_the_dots_ambiguous_drift_detector.h"


enum Kind { K_BF, K_MC, K_HC, K_HCFrame, K_HCFixed, K_Idle, K_M3, K_N };
static bool enumerates(int k) { return k <= K_HCFrame; }
static const char *kname[] = {"exhaustive", "random", "hill climbing", "hill climbing along the frame", "fixed hill climbing", "idle", "multi-resolution"};
static std::shared_ptr<GridScanMatcher> make_matcher(Ctx &c, int k, GridScanMatcher::SPE spe, double unit) {
  auto lim = [&](double u, double &f, double &t, double &st) { st = u * c.pick({0.1, 0.25, 0.05}); f = -st * c.i(0, 2) - (c.flag(1, 4) ? st / 2 : 0); t = st * c.i(0, 3); if (c.flag(1, 6)) { f += 2 * st; t += 3 * st; } };
  switch (k) {
  case K_BF: { double x, X, s, y, Y, r, t, T, q; lim(unit, x, X, s); lim(unit, y, Y, r); lim(0.3, t, T, q);
    return std::make_shared<BruteForceScanMatcher>(spe, x, X, s, y, Y, r, t, T, q); }
  case K_MC: { unsigned seed = c.i(0, 100000); double td = unit * c.i(1, 20) / 20., rd = c.i(1, 20) / 80.; unsigned f = c.len(0, 20), n = c.len(0, 60);
    return std::make_shared<MonteCarloScanMatcher>(spe, seed, td, rd, f, n); }
  case K_HC: case K_HCFrame: { unsigned n = c.len(0, 6); double t = unit * c.i(1, 20) / 20., r = c.i(1, 20) / 80.;
    return std::make_shared<HillClimbingScanMatcher>(spe, n, t, r, k == K_HCFrame); }
  case K_HCFixed: return c.flag() ? std::make_shared<HillClimbingSMFixed>(spe) : std::make_shared<HillClimbingSMFixed>(spe, int(c.i(1, 6)), 0.1, 0.1);
  case K_Idle: return std::make_shared<NoActionScanMatcher>(spe);
  default: { double x = unit * c.i(0, 10) / 5., y = c.flag() ? x : unit * c.i(0, 10) / 5., r = c.i(0, 4) / 40., a = c.pick({0.02, 0.05}), t = unit * c.pick({0.3, 0.5, 1.});
    return std::make_shared<BruteForceMultiResolutionScanMatcher>(spe, x, y, r, a, t); }
  }
}

// the events of one match of a matcher that tries poses one by one
struct Expect { RobotPose init; size_t raw_points, points; double value; RobotPoseDelta delta; };
static RobotPose check_events(const std::vector<Ev> &ev, const Expect &x) {
  VF_CHECK(ev.size() >= 4, ev.size() << " events of a match");
  VF_CHECK(ev[0].kind == 0 && near_pose(ev[0].pose, x.init, 0) && ev[0].points == x.raw_points, "the first event is not the start from the initial pose with the given scan");
  VF_CHECK(ev[1].kind == 1 && near_pose(ev[1].pose, x.init, 0), "the initial pose is not the first one tested");
  VF_CHECK(ev[2].kind == 2 && near_pose(ev[2].pose, x.init, 0) && same_num(ev[2].score, ev[1].score), "the initial pose is not the first one accepted");
  double best = ev[1].score; RobotPose bp = x.init;
  for (size_t i = 3; i + 1 < ev.size(); ++i) {
    VF_CHECK(ev[i].kind == 1, "event " << i << " of kind " << ev[i].kind << " is not expected");
    VF_CHECK(ev[i].points == x.points, "a scan of " << ev[i].points << " points is reported, " << x.points << " are used");
    bool better = ev[i].score > best, acc = ev[i + 1].kind == 2;
    VF_CHECK(better == acc, "pose " << ev[i].pose << " of score " << ev[i].score << (acc ? " is accepted" : " is rejected") << ", the best one so far has " << best);
    if (!acc) continue;
    VF_CHECK(near_pose(ev[i + 1].pose, ev[i].pose, 0) && ev[i + 1].score == ev[i].score && ev[i + 1].points == x.points, "acceptance of " << ev[i + 1].pose << " with " << ev[i + 1].score << " after the test of " << ev[i].pose);
    best = ev[i].score; bp = ev[i].pose; ++i;
  }
  auto &e = ev.back();
  VF_CHECK(e.kind == 3, "the last event is not the end of matching");
  VF_CHECK(near_pose(e.pose, x.delta, 0) && same_num(e.score, x.value) && e.points == x.points, "end with " << e.pose << " and " << e.score << ", returned " << RobotPose(x.delta) << " and " << x.value);
  VF_CHECK(same_num(best, x.value), "returned score " << x.value << ", the best one accepted " << best);
  RobotPoseDelta d = bp - x.init;
  VF_CHECK(near_pose(d, x.delta, 1e-12), "correction " << RobotPose(x.delta) << ", the accepted pose " << bp << " is " << RobotPose(d) << " away");
  return bp;
}
static RobotPose add(const RobotPose &p, const RobotPoseDelta &d) { return {p.x + d.x, p.y + d.y, p.theta + d.theta}; }

// observers that come and go
struct Audience {
  GridScanMatcher &m; std::vector<std::shared_ptr<RecObs>> in, out;
  explicit Audience(GridScanMatcher &sm) : m(sm) {}
  void change(Ctx &c) {
    for (long n = c.i(0, 3); n > 0; --n) switch (c.i(0, 3)) {
      case 0: case 1: in.push_back(std::make_shared<RecObs>()); m.subscribe(in.back()); VF_LOG(c, "subscribe\n"); break;
      case 2: if (!in.empty()) { size_t i = c.draw(in.size() - 1); m.unsubscribe(in[i]); out.push_back(in[i]); in.erase(in.begin() + i); VF_LOG(c, "unsubscribe " << i << "\n"); } break;
      default: if (!in.empty()) { size_t i = c.draw(in.size() - 1); in.erase(in.begin() + i); VF_LOG(c, "forget " << i << "\n"); } break;
    }
    if (in.empty()) { in.push_back(std::make_shared<RecObs>()); m.subscribe(in.back()); }
    for (auto &o : in) o->ev.clear();
    for (auto &o : out) o->ev.clear();
  }
  const std::vector<Ev> &check() {
    for (auto &o : out) VF_CHECK(o->ev.empty(), "an unsubscribed observer is notified");
    for (auto &o : in) {
      VF_CHECK(o->ev.size() == in[0]->ev.size(), "one observer sees " << o->ev.size() << " events, another one " << in[0]->ev.size());
      for (size_t i = 0; i < o->ev.size(); ++i) VF_CHECK(same_ev(o->ev[i], in[0]->ev[i]), "observers see different events " << i);
    }
    return in[0]->ev;
  }
};

static UnboundedPlainGridMap &any_map() { static UnboundedPlainGridMap m{make_cell(CK_Affine), {4, 4, 1}}; return m; }

VF_TEST(reports, "at least two matches, one with two accepted poses or more", 60000, 1000000) {
  int k = c.i(0, K_Idle); bool ctd = c.flag(1, 5);
  auto spe = std::make_shared<ScriptSPE>();
  auto m = make_matcher(c, k, spe, 1); VF_LOG(c, kname[k] << (ctd ? " with drift detector" : "") << "\n");
  auto inner = m; if (ctd) m = std::make_shared<ConnectTheDotsAmbiguousDriftDetector>(m);
  Audience aud(*inner); std::shared_ptr<RecObs> outer; if (ctd) { outer = std::make_shared<RecObs>(); m->subscribe(outer); }
  size_t accepted = 0; long uses = c.len(1, 4);
  for (long u = 0; u < uses; ++u) {
    aud.change(c);
    if (c.flag(1, 4)) m->reset_state();
    auto p = gen_pose(c); auto f = gen_landscape(c, p); spe->f = f; spe->calls = 0;
    TransformedLaserScan s; s.quality = 1; s.pose_delta = {1, 2, 3};
    long n = c.len(0, 8); bool wall = c.flag(); double a = c.i(0, 12) * M_PI / 12 + 0.01;
    for (long i = 0; i < n; ++i) s.scan.points().push_back(wall ? ScanPoint2D::make_cartesian({1 + i * std::cos(a), 1 + i * std::sin(a)}, true)
                                                             : ScanPoint2D::make_polar(c.i(1, 100) / 10., c.i(-180, 179) * M_PI / 180, c.yes(4, 5)));
    auto before = s.scan.points();
    VF_LOG(c, "from " << p << " " << f << " scan of " << n << "\n");
    RobotPoseDelta d{7, 8, 9}; double v;
    { QuietOut q; v = m->process_scan(s, p, any_map(), d); }
    VF_LOG(c, "-> " << v << " " << d << "\n");
    auto &ev = aud.check(); if (outer) VF_CHECK(outer->ev.empty(), "events of another matcher");
    // what was given is as it was
    VF_CHECK(s.scan.points().size() == before.size() && s.quality == 1 && s.pose_delta.x == 1 && s.pose_delta.y == 2 && s.pose_delta.theta == 3, "the scan is changed");
    for (size_t i = 0; i < before.size(); ++i) VF_CHECK(same_point(before[i], s.scan.points()[i]), "point " << i << " of the scan is changed");
    VF_CHECK(std::isfinite(d.x) && std::isfinite(d.y) && std::isfinite(d.theta), "correction " << d);
    double init = f(p); RobotPose at = add(p, d);
    if (k == K_Idle && !ctd) { VF_CHECK(d.x == 0 && d.y == 0 && d.theta == 0, "the matcher without a search moves the pose by " << d); continue; }
    if (f.kind == 5) { VF_CHECK((std::isnan(v) || k == K_Idle) && d.x == 0 && d.y == 0 && d.theta == 0, "score " << v << " and correction " << d << " when every score is unknown"); continue; }
    double val = v; RobotPoseDelta del = d;
    if (ctd) { // what the wrapped matcher has found
      double iv; RobotPoseDelta id; RobotPose ip;
      if (enumerates(k)) { VF_CHECK(!ev.empty(), "no events"); id = RobotPoseDelta{ev.back().pose.x, ev.back().pose.y, ev.back().pose.theta}; iv = ev.back().score; }
      else { long calls = spe->calls; iv = inner->process_scan(s, p, any_map(), id); (void)calls; }
      double dx = d.x - id.x, dy = d.y - id.y, len = std::hypot(dx, dy);
      VF_CHECK(std::abs(d.theta - id.theta) < 1e-9 && len < 0.25 + 1e-9, "the drift detector moves the pose by " << dx << "," << dy << "," << d.theta - id.theta);
      if (len < 1e-12 && k == K_Idle) {} else
      VF_CHECK(std::abs(v - f(at)) < 1e-9, "score " << v << ", the proposed pose " << at << " has " << f(at));
      VF_CHECK(f(at) >= f(add(p, id)) - 1e-9, "the drift detector moves to a pose of score " << f(at) << " from " << f(add(p, id)));
      if (len > 1e-9) c.label("drift corrected");
      val = iv; del = id; at = add(p, id); c.label("drift detector");
      if (k == K_Idle) continue;
    }
    VF_CHECK(val >= init, "score " << val << ", the initial pose has " << init);
    VF_CHECK(std::abs(val - f(at)) < 1e-9, "score " << val << ", the proposed pose " << at << " has " << f(at));
    if (enumerates(k)) {
      RobotPose bp = check_events(ev, {p, size_t(n), size_t(n), val, del});
      VF_CHECK(f(bp) == val, "score " << val << ", the accepted pose has " << f(bp));
      long tests = 0, acc = 0; for (auto &e : ev) { tests += e.kind == 1; acc += e.kind == 2; if (e.kind == 1) VF_CHECK(e.score == f(e.pose), "reported score " << e.score << " of pose " << e.pose << " is " << f(e.pose)); }
      if (!ctd) VF_CHECK(tests == spe->calls, spe->calls << " poses are scored, " << tests << " are reported");
      if (acc > 2) ++accepted;
    } else if (f.kind < 2 && (d.x || d.y || d.theta)) ++accepted;
  }
  c.nontrivial(accepted && uses > 1);
}

VF_TEST(real_scores, "a match against a map with walls and at least 3 used points", 20000, 300000) {
  auto g = gen_cfg(c); int k = c.i(0, K_M3);
  if (g.oie == 2) g.oie = 0;
  if (k == K_M3) { g.map_kind = 2; g.oope = 1; g.oie = 0; if (g.ck == CK_Gmapping) g.ck = CK_Affine; /* what it agrees with depends on a place inside of a cell */ } else if (g.map_kind >= 3) { g.w = g.h = 60; }
  bool room = g.map_kind >= 3 || k == K_M3;
  if (room) g.w = g.h = 40;
  int span = 10; auto mp = g.make_map(); auto &m = *mp; auto ws = gen_writes(c, 30, span, g.scale);
  for (auto &w : ws) m.update(w.k, w.a);
  auto mt = make_matcher(c, k, g.make_spe(), g.scale); VF_LOG(c, kname[k] << "\n");
  Audience aud(*mt);
  for (long uses = c.len(1, 3); uses > 0; --uses) {
    aud.change(c); if (c.flag(1, 4)) mt->reset_state();
    TransformedLaserScan s; s.scan = gen_scan(c, g.scale); s.quality = 0.5;
    RobotPose p{g.scale * (c.i(-300, 300) / 50. + 0.0123), g.scale * (c.i(-300, 300) / 50. + 0.0123), c.i(-180, 180) * M_PI / 180 + 0.00123};
    if (room) { // stay inside of the map
      std::vector<ScanPoint2D> keep; for (auto &pt : s.scan.points()) if (pt.range() < 8 * g.scale) keep.push_back(pt);
      s.scan.points() = keep;
    }
    show(c, g, ws, s.scan, p);
    auto before = s.scan.points();
    RobotPoseDelta d{7, 8, 9}; double v;
    { QuietOut q; v = mt->process_scan(s, p, m, d); }
    VF_LOG(c, "-> " << v << " " << d << "\n");
    auto &ev = aud.check();
    for (size_t i = 0; i < before.size(); ++i) VF_CHECK(s.scan.points().size() == before.size() && same_point(before[i], s.scan.points()[i]), "point " << i << " of the scan is changed");
    if (uses == 1) {
    auto ref = g.make_map(); for (auto &w : ws) ref->update(w.k, w.a);
    VF_CHECK(ref->width() == m.width() && ref->height() == m.height() && ref->origin() == m.origin() && ref->scale() == m.scale(), "matching changes the geometry of the map");
    for (auto &w : ws) VF_CHECK((*ref)[w.k].occupancy() == m[w.k].occupancy() && (*ref)[w.k].is_unknown() == m[w.k].is_unknown(), "matching changes cell " << w.k);
    }
    if (k == K_Idle) { VF_CHECK(d.x == 0 && d.y == 0 && d.theta == 0, "the matcher without a search moves the pose by " << d); continue; }
    // scores once more by another scorer
    auto spe = g.make_spe(); auto f = spe->filter_scan(s.scan, p, m); auto fn = f.points().size(); RobotPose at = add(p, d);
    auto score = [&](const RobotPose &q) {
      if (k != K_M3) return spe->estimate_scan_probability(f, q, m);
      ScanProbabilityEstimator::SPEParams sp; sp.scan_is_prerotated = true; auto r = f.to_cartesian(q.theta);
      return spe->estimate_scan_probability(r, {q.x, q.y, 0}, m, sp);
    };
    double init = score(p), got = score(at);
    if (std::isnan(init)) { VF_CHECK(std::isnan(v) && d.x == 0 && d.y == 0 && d.theta == 0, "score " << v << " and correction " << d << " when every score is unknown"); c.label("unknown"); continue; }
    VF_CHECK(v >= init - (k == K_M3 ? 2e-6 : 1e-12), "score " << v << ", the initial pose has " << init);
    // next to borders of cells the last bit decides
    bool amb = false;
    for (auto &pt : f.points()) { double x = at.x + pt.range() * std::cos(pt.angle() + at.theta), y = at.y + pt.range() * std::sin(pt.angle() + at.theta);
      for (double q : {x, y}) amb |= std::abs(q / g.scale - std::round(q / g.scale)) < 1e-6; }
    if (g.spw == 1 && k == K_M3) for (auto &pt : f.points()) { double co = std::abs(std::cos(pt.angle() + at.theta)); amb |= std::abs(co - 0.9) < 1e-9 || std::abs(co - 0.8) < 1e-9; }
    if (amb) c.label("next to a border"); else {
      VF_CHECK(std::abs(v - got) < 1e-9, "score " << v << ", the proposed pose " << at << " has " << got);
      c.nontrivial(fn >= 3 && ws.size() > 5);
    }
    if (enumerates(k)) {
      check_events(ev, {p, before.size(), fn, v, d});
      for (auto &e : ev) if (e.kind == 1 || e.kind == 2) VF_CHECK(std::abs(e.score - score(e.pose)) < 1e-9, "reported score " << e.score << " of pose " << e.pose << " is " << score(e.pose));
    } else if (k == K_M3) {
      VF_CHECK(ev.size() >= 2 && ev[0].kind == 0 && near_pose(ev[0].pose, p, 0) && ev[0].points == before.size(), "the first event is not the start of matching");
      VF_CHECK(ev.back().kind == 3 && near_pose(ev.back().pose, RobotPose(d), 0) && same_num(ev.back().score, v) && ev.back().points == fn, "the last event is not the end of matching");
    }
  }
}

// a scorer to which every point matters
struct PointsSPE : ScriptSPE {
  double of(const LaserScan2D::Points &pts, const RobotPose &p) const {
    double v = f(p); for (auto &q : pts) { Landscape l = f; l.salt += vf::u64(std::llround(q.x() * 256) * 1000 + std::llround(q.y() * 256)); l.ct += 0.1 * q.x(); l.cx += 0.1 * q.y(); v += l(p); }
    return v / (1 + pts.size()); }
  double estimate_scan_probability(const LaserScan2D &s, const RobotPose &p, const GridMap &, const SPEParams &) const override { return of(s.points(), p); }
};
VF_TEST(drift, "a scan of which most points lie along one direction, corrected", 20000, 400000) {
  auto spe = std::make_shared<PointsSPE>();
  struct Wrapped : GridScanMatcher { using GridScanMatcher::GridScanMatcher; RobotPoseDelta d; double v; long resets = 0;
    void reset_state() override { ++resets; }
    double process_scan(const TransformedLaserScan &, const RobotPose &, const GridMap &, RobotPoseDelta &o) override { o = d; return v; } };
  auto w = std::make_shared<Wrapped>(spe); ConnectTheDotsAmbiguousDriftDetector m{w}; bool moved = false;
  for (long u = c.len(1, 3); u > 0; --u) {
    if (c.flag(1, 4)) { long r = w->resets; m.reset_state(); VF_CHECK(w->resets == r + 1, "the wrapped matcher is reset " << w->resets - r << " times"); }
    auto p = gen_pose(c); w->d = {c.i(-20, 20) / 64., c.i(-20, 20) / 64., c.i(-20, 20) / 64.}; w->v = c.i(1, 100) / 64.; auto at0 = add(p, w->d);
    spe->f = gen_landscape(c, at0, false);
    TransformedLaserScan s; s.quality = 1; double x = c.i(-40, 40) / 16., y = c.i(-40, 40) / 16.; long walls = c.i(0, 3); // chains of points
    for (; walls > 0; --walls) { double a = c.i(0, 71) * M_PI / 36 + 0.01; long k = c.i(1, 8); for (; k > 0; --k) { s.scan.points().push_back(ScanPoint2D::make_cartesian({x, y}, true)); x += std::cos(a) / 4; y += std::sin(a) / 4; } }
    size_t n = s.scan.points().size(); RobotPoseDelta d{7, 8, 9}; double v; { QuietOut q; v = m.process_scan(s, p, any_map(), d); } auto at = add(p, d);
    VF_LOG(c, "from " << p << " wrapped " << RobotPose(w->d) << " " << w->v << " " << spe->f << " " << n << " points -> " << v << " " << RobotPose(d) << "\n");
    // the directions of the scan, the ones that are as frequent as the most frequent one
    std::map<int, size_t> hist; bool edge = false; auto &pts = s.scan.points(); std::vector<int> dir(n, -1);
    for (size_t i = 1; i < n; ++i) { double dx = pts[i].x() - pts[i - 1].x(), dy = pts[i].y() - pts[i - 1].y(), t = std::atan2(dy, dx) * 180 / M_PI; if (t < 0) t += 180; if (t >= 180) t -= 180;
      double q = t / 9; edge |= std::abs(q - std::round(q)) < 1e-6; ++hist[dir[i] = int(q)]; }
    size_t most = 0; int md = 0; for (auto &h : hist) if (h.second > most) { most = h.second; md = h.first; }
    if (edge) { c.label("direction between two bins"); continue; }
    if (n && most < 0.4 * n - 1e-9) { VF_CHECK(v == w->v && near_pose(RobotPose(d), RobotPose(w->d), 0), "without a dominating direction the result of the wrapped matcher is changed"); c.label("no drift"); continue; }
    VF_CHECK(std::abs(v - spe->of(pts, at)) < 1e-9, "score " << v << ", the whole scan at the proposed pose " << at << " has " << spe->of(pts, at));
    LaserScan2D::Points rest; for (size_t i = 1; i < n; ++i) if (hist[dir[i]] != most) rest.push_back(pts[i]); // what can tell places along the walls apart
    auto f = [&](const RobotPose &q) { return spe->of(rest, q); }; if (rest.size()) c.label("points off the walls");
    double a = (md + 0.5) * M_PI / 20; VF_CHECK(f(at) >= f(at0) - 1e-9, "the detector moves to a pose of score " << f(at) << " from " << f(at0));
    for (int k = 0; k < 6; ++k) { double r = -0.25 + 0.1 * k; RobotPose q{at0.x + r * std::cos(a), at0.y + r * std::sin(a), at0.theta}; 
      if (n) VF_CHECK(f(at) >= f(q) - 1e-9, "the detector moves to a pose of score " << f(at) << ", " << r << " along the direction " << a << " there is " << f(q)); }
    double along = (at.x - at0.x) * std::cos(a) + (at.y - at0.y) * std::sin(a), across = -(at.x - at0.x) * std::sin(a) + (at.y - at0.y) * std::cos(a);
    VF_CHECK(at.theta - at0.theta < 1e-9 && at0.theta - at.theta < 1e-9 && std::abs(along) < 0.25 + 1e-9, "the detector moves the pose by " << at.x - at0.x << "," << at.y - at0.y);
    if (n) VF_CHECK(std::abs(across) < 1e-9, "the detector moves the pose across the direction of the walls");
    if (std::abs(along) > 1e-6) { moved = true; c.label("corrected"); }
  }
  c.nontrivial(moved);
}
