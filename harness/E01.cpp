// E01: configured robots, end to end.
#include "vf.h"
#include "robots.h"
using vf::Ctx;

// ---------------------------------------------------------------- robots

static vf::u64 fingerprint(const LaserScanGridWorld &w) {
  vf::u64 h = 7; auto add = [&](double v) { vf::u64 u; std::memcpy(&u, &v, 8); h = (h ^ u) * 1099511628211ULL + (h >> 29); }; add(w.pose().x); add(w.pose().y); add(w.pose().theta);
  auto &m = w.map(); auto lo = m.internal2external({0, 0}); add(m.width()); add(m.height()); for (int x = 0; x < m.width(); ++x) for (int y = 0; y < m.height(); ++y) { auto &o = m[Coord{lo.x + x, lo.y + y}].occupancy(); add(o.prob_occ); add(o.estimation_quality); } return h;
}
static void sane(const LaserScanGridWorld &w, const char *when) {
  auto p = w.pose(); VF_CHECK(std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.theta), when << ": the pose is " << p); auto &m = w.map(); auto unknown = m.new_cell()->occupancy(); auto lo = m.internal2external({0, 0});
  for (int x = 0; x < m.width(); ++x) for (int y = 0; y < m.height(); ++y) { Coord k{lo.x + x, lo.y + y}; auto &cell = m[k]; auto o = cell.occupancy(); if (cell.is_unknown() && o.prob_occ == unknown.prob_occ) continue;
    VF_CHECK(o.prob_occ >= -1e-9 && o.prob_occ <= 1 + 1e-9, when << ": the occupancy of " << k << " is " << o.prob_occ); VF_CHECK(!std::isnan(o.estimation_quality), when << ": the quality of " << k << " is " << o.estimation_quality); }
}
struct Step { TransformedLaserScan s; };
static std::vector<vf::u64> drive(const Conf &k, const std::vector<TransformedLaserScan> &scans, bool check) {
  vf::random_device_state() = 4711; auto w = build_any(k); std::vector<vf::u64> r; QuietOut q;
  for (size_t i = 0; i < scans.size(); ++i) { auto s = scans[i]; w->handle_sensor_data(s); if (check) sane(*w, ("after scan " + std::to_string(i)).c_str()); r.push_back(fingerprint(*w)); }
  return r;
}

VF_TEST(streams, "four scans or more, an odd one and one of a room", 1500, 25000) {
  double unit = c.pick({0.1, 0.2, 0.5}); auto room = gen_room(c, unit); auto sensor = gen_sensor(c, unit); bool gm = c.flag(1, 6);
  Conf k; if (gm) k = gen_gmapping(c, unit); else k = gen_conf(c, unit, 32 * unit); bool bounded = k.map == "plain" || k.map == "lazy_tiled" || k.sm == "BF_M3RSM"; if (c.flag(1, 3) && !gm) k.set("slam/mapping/observation_quality_estimator/type", c.flag() ? "ahr" : "idle");
  VF_LOG(c, (gm ? "gmapping " : "") << k); std::vector<TransformedLaserScan> scans; RobotPose truth; long odd = 0, rooms = 0, n = c.i(1, 7);
  for (long i = 0; i < n; ++i) {
    TransformedLaserScan s; s.quality = 1; RobotPoseDelta d{0, 0, 0}; double step = c.flag(1, 8) ? 30 : 10; if (i || c.flag()) d = {unit * c.i(-step, step) / 10., unit * c.i(-step, step) / 10., c.flag(1, 8) ? c.i(-100, 100) / 8. : c.i(-10, 10) / 20.};
    if (c.flag(1, 10)) d = {0, 0, 0};
    if (!bounded && c.flag(1, 20)) d = {unit * c.i(-80, 80), unit * c.i(-80, 80), 0}; // somebody carries the robot away
    truth = {truth.x + d.x, truth.y + d.y, truth.theta + d.theta}; s.pose_delta = {d.x + unit * c.i(-3, 3) / 10., d.y + unit * c.i(-3, 3) / 10., d.theta + c.i(-3, 3) / 100.}; if (c.flag(1, 10)) s.pose_delta = d;
    RobotPose at = truth; if (std::abs(at.x) > 5 * unit) at.x = 0; if (std::abs(at.y) > 5 * unit) at.y = 0; truth = {at.x, at.y, at.theta};
    if (c.flag(1, 4)) { s.scan = odd_scan(c, bounded ? unit / 2 : unit); if (c.flag()) s.scan.trig_provider = std::make_shared<RawTrigonometryProvider>(); ++odd; } else { s.scan = take_scan(room, sensor, at); ++rooms; }
    VF_LOG(c, "scan of " << s.scan.points().size() << " points after " << s.pose_delta << "\n"); scans.push_back(s);
  }
  auto a = drive(k, scans, true), b = drive(k, scans, false); for (size_t i = 0; i < a.size(); ++i) VF_CHECK(a[i] == b[i], "two robots with the same inputs differ after scan " << i);
  c.label(k.sm.c_str()); c.label(k.map.c_str()); c.label(k.area.c_str()); c.nontrivial(n >= 4 && odd && rooms);
}

// ---------------------------------------------------------------- robots that see well in a world that does not move
struct Walk { std::vector<RobotPose> at; std::vector<TransformedLaserScan> scans; };
static Walk gen_walk(Ctx &c, const Room &room, const Sensor &sensor, double unit) {
  Walk w; RobotPose p{0, 0, 0}; long n = c.i(2, 10); double h = c.real(0, 2 * M_PI);
  for (long i = 0; i < n; ++i) { RobotPoseDelta d{0, 0, 0}; if (i) { h += c.i(-10, 10) / 10.; double s = unit * c.i(0, 10) / 10.; d = {s * std::cos(h), s * std::sin(h), c.i(-10, 10) / 60.}; if (std::abs(p.x + d.x) > 4 * unit) d.x = -d.x; if (std::abs(p.y + d.y) > 4 * unit) d.y = -d.y; }
    p = {p.x + d.x, p.y + d.y, p.theta + d.theta}; TransformedLaserScan s; s.quality = 1; s.pose_delta = d; s.scan = take_scan(room, sensor, p); w.at.push_back(p); w.scans.push_back(s); }
  return w;
}
// a robot set up as the documentation advises, for cells of the size `unit`
static Conf gen_able(Ctx &c, double unit, bool gm) {
  Conf k; auto S = [&](std::vector<std::string> v) { return v[c.i(0, v.size() - 1)]; }; k.scale = unit;
  if (gm) { k.sm = "gmapping"; k.map = "unbounded_lazy_tiled"; k.area = "gmapping"; k.set("slam/particles/number", str(c.i(1, 3))); for (auto t : {"xy", "theta"}) { k.set(std::string("slam/particles/sm_delta_lim/") + t + "/min", 0); k.set(std::string("slam/particles/sm_delta_lim/") + t + "/max", 1e-9); } k.set("slam/map/meters_per_cell", unit); k.set("slam/map/width_in_meters", unit * c.i(1, 40)); k.set("slam/map/height_in_meters", unit * c.i(1, 40));
    for (auto t : {"xy", "theta"}) { k.set(std::string("slam/particles/sample/") + t + "/mean", 0); k.set(std::string("slam/particles/sample/") + t + "/sigma", std::string(t) == "xy" ? unit * c.i(0, 5) / 10. : c.i(0, 5) / 200.); }
    k.set("slam/scmtch/spe/type", "wmpp"); k.spw = "even"; k.set("slam/scmtch/spe/wmpp/weighting/type", k.spw); k.set("slam/scmtch/spe/wmpp/sp_skip_rate", str(c.i(0, 1))); return k; }
  k.credibilist = c.flag(1, 7); k.sm = S({"MC", "HC", "BF", "BF_M3RSM", "idle"}); k.set("slam/scmtch/type", k.sm); k.map = S({"unbounded_plain", "unbounded_plain", "plain", "unbounded_lazy_tiled", "lazy_tiled"}); k.set("slam/mapping/grid/type", k.map);
  k.area = k.credibilist ? "credibilist" : S({"mean_probability", "affine_quality_merge", "tbm_consistent", "tbm_unknown_even_occ"}); if (!k.credibilist) k.set("slam/mapping/grid/area/type", k.area);
  bool bounded = k.map == "plain" || k.map == "lazy_tiled" || k.sm == "BF_M3RSM"; double side = bounded ? 66 * unit : unit * c.i(1, 60); k.set("slam/map/width_in_meters", side); k.set("slam/map/height_in_meters", side); k.set("slam/map/meters_per_cell", unit);
  k.oie = "discrepancy"; k.set("slam/scmtch/oie/type", k.oie); k.oope = k.sm == "BF_M3RSM" ? "max" : "obstacle"; k.set("slam/scmtch/oope/type", k.oope); k.set("slam/scmtch/spe/type", "wmpp"); k.spw = S({"even", "viny", "ahr"}); k.set("slam/scmtch/spe/wmpp/weighting/type", k.spw);
  k.set("slam/scmtch/spe/wmpp/sp_skip_rate", str(c.i(0, 1)));
  if (k.sm == "MC") { k.set("slam/scmtch/MC/seed", str(c.i(0, 99999))); k.set("slam/scmtch/MC/attempts_limit", str(c.i(0, 60))); k.set("slam/scmtch/MC/dispersion/failed_attempts_limit", str(c.i(1, 20))); k.set("slam/scmtch/MC/dispersion/translation", unit * c.i(1, 5) / 10.); k.set("slam/scmtch/MC/dispersion/rotation", c.i(1, 5) / 200.); }
  if (k.sm == "HC") { k.set("slam/scmtch/HC/distortion/translation", unit * c.i(1, 10) / 10.); k.set("slam/scmtch/HC/distortion/rotation", c.i(1, 10) / 200.); k.set("slam/scmtch/HC/distortion/failed_attempts_limit", str(c.i(0, 6))); }
  if (k.sm == "BF") for (std::string d : {"x", "y", "t"}) { double st = d == "t" ? 0.02 : unit / 2; int n = c.i(0, 2); k.set("slam/scmtch/BF/" + d + "/from", -n * st); k.set("slam/scmtch/BF/" + d + "/to", n * st); k.set("slam/scmtch/BF/" + d + "/step", st); }
  if (k.sm == "BF_M3RSM") { k.set("slam/scmtch/BF_M3RSM/accuracy/rotation", 0.03); k.set("slam/scmtch/BF_M3RSM/accuracy/translation", unit * c.pick({1., 0.5})); k.set("slam/scmtch/BF_M3RSM/limits/x_translation", unit * c.i(0, 2)); k.set("slam/scmtch/BF_M3RSM/limits/y_translation", unit * c.i(0, 2)); k.set("slam/scmtch/BF_M3RSM/limits/rotation", 0.03 * c.i(0, 2)); }
  k.est = S({"const", "area"}); k.set("slam/occupancy_estimator/type", k.est); k.set("slam/mapping/blur", 0);
  return k;
}
static double away(const Room &r, double x, double y) { double best = 1e9; for (auto &w : r.walls) { double cx = std::min(std::max(x, w.x0), w.x1), cy = std::min(std::max(y, w.y0), w.y1); best = std::min(best, std::hypot(x - cx, y - cy)); } return best; }
VF_TEST(rooms, "at least 20 cells seen free, 10 hit, in two scans or more", 300, 6000) {
  double unit = c.pick({0.1, 0.2, 0.5}); auto room = gen_room(c, unit); Sensor sensor; sensor.n = c.i(60, 180); sensor.from = -M_PI + 0.0031; sensor.inc = 2 * M_PI / sensor.n; sensor.range = unit * 40; sensor.trig = std::make_shared<RawTrigonometryProvider>();
  bool gm = c.flag(1, 6); Conf k = gen_able(c, unit, gm); if (!gm && c.flag()) { k.sm = "idle"; k.set("slam/scmtch/type", k.sm); } VF_LOG(c, (gm ? "gmapping " : "") << k);
  auto walk = gen_walk(c, room, sensor, unit); vf::random_device_state() = 4711; auto w = build_any(k); QuietOut q; double tol = 0;
  for (size_t i = 0; i < walk.scans.size(); ++i) { auto s = walk.scans[i]; w->handle_sensor_data(s); auto p = w->pose(), t = walk.at[i]; tol = std::max(tol, std::hypot(p.x - t.x, p.y - t.y) + 20 * unit * std::abs(p.theta - t.theta));
    if (k.sm == "idle") VF_CHECK(std::hypot(p.x - t.x, p.y - t.y) < 1e-9 && std::abs(p.theta - t.theta) < 1e-9, "exact odometry led to " << t << ", the robot that does not match believes to be at " << p); }
  auto &m = w->map(); long frees = 0, hits = 0, sure = 0; double free_sum = 0, hit_sum = 0;
  for (int x = -20; x <= 20; ++x) for (int y = -20; y <= 20; ++y) {
    Coord k2{x, y}; auto at = m.cell_to_world(k2); double d = away(room, at.x, at.y); bool through = false, near = false, in = false, scratched = false;
    for (size_t i = 0; i < walk.at.size(); ++i) { auto t = walk.at[i]; auto d = walk.scans[i].pose_delta; if (gm && std::hypot(d.x, d.y) < 1e-6) continue; // (robots of this kind ignore what they see before they move)
      for (auto &sp : walk.scans[i].scan.points()) { if (!sp.is_occupied()) continue; double a = t.theta + sp.angle(), r = sp.range(), px = at.x - t.x, py = at.y - t.y, along = px * std::cos(a) + py * std::sin(a), off = std::abs(px * std::sin(a) - py * std::cos(a));
        if (off + tol < 0.3 * unit && along > 0 && along < r - unit) through = true;
        double ex = t.x + r * std::cos(a) - at.x, ey = t.y + r * std::sin(a) - at.y, e = std::max(std::abs(ex), std::abs(ey)); if (e + tol < 0.49 * unit) in = true; else if (e - tol < 0.51 * unit) near = true;
        else if (off - tol < 0.72 * unit && along > -unit - tol && along < r + unit + tol) scratched = true; } }
    if (through && d > 1.5 * unit + tol) { ++frees; VF_CHECK(m.has_cell(k2), "the cell " << k2 << " was seen to be free but is outside of the map"); auto o = m[k2].occupancy().prob_occ; free_sum += o; VF_CHECK(o < 0.5 - 1e-9, "beams passed the cell " << k2 << ", " << d / unit << " cells away from any wall, its occupancy is " << o); }
    if (in) { ++hits; VF_CHECK(m.has_cell(k2), "the cell " << k2 << " was hit but is outside of the map"); auto o = m[k2].occupancy().prob_occ; hit_sum += o; if (!near && !scratched) { ++sure; if (k.est != "area") VF_CHECK(o > 0.5, "a beam ended in the cell " << k2 << " and no other one came close, its occupancy is " << o); } } }
  if (frees >= 20 && hits >= 10 && k.est != "area") { VF_CHECK(hit_sum / hits > free_sum / frees, "the mean occupancy of the cells that were hit is " << hit_sum / hits << ", of the free ones " << free_sum / frees); }
  c.label(k.sm.c_str()); c.label(k.map.c_str()); c.label(k.area.c_str()); c.label(k.est.c_str()); c.nontrivial(frees >= 20 && hits >= 10 && walk.at.size() > 1);
}

VF_TEST(accuracy, "a robot that matches its scans, nine walks of four scans or more on average", 40, 1000) {
  double unit = c.pick({0.1, 0.2, 0.5}); Conf k; do k = gen_able(c, unit, false); while (k.sm == "idle"); k.set("slam/occupancy_estimator/type", "const"); VF_LOG(c, k); std::vector<double> err; size_t total = 0;
  for (int i = 0; i < 9; ++i) {
    auto room = gen_room(c, unit); Sensor sensor; sensor.n = c.i(60, 180); sensor.from = -M_PI + 0.0031; sensor.inc = 2 * M_PI / sensor.n; sensor.range = unit * 40; sensor.trig = std::make_shared<RawTrigonometryProvider>();
    auto walk = gen_walk(c, room, sensor, unit); total += walk.at.size(); vf::random_device_state() = 4711; auto w = build_any(k); QuietOut q; double worst = 0;
    for (size_t j = 0; j < walk.scans.size(); ++j) { auto s = walk.scans[j]; w->handle_sensor_data(s); auto p = w->pose(), t = walk.at[j]; worst = std::max(worst, std::hypot(p.x - t.x, p.y - t.y) / unit + 5 * std::abs(p.theta - t.theta)); }
    err.push_back(worst); VF_LOG(c, "the worst error of walk " << i << " of " << walk.at.size() << " scans: " << worst << " cells\n"); }
  auto e = err; std::sort(e.begin(), e.end());
  VF_CHECK(e[4] < 2.5, "exact odometry in a world that does not move: half of the walks lead the robot more than " << e[4] << " cells astray"); c.label(k.sm.c_str()); c.nontrivial(total >= 36);
}
