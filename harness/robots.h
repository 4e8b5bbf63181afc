// configured robots, rooms they drive in and scans they take
#ifndef ROBOTS_H
#define ROBOTS_H
#include "scenes.h"
#include "matching.h"
#include "utils/init_slam.h"
#include "slams/credibilist/init_slam.h"
#include "slams/gmapping/init_gmapping.h"
using vf::Ctx;

template <class T> inline std::string str(const T &v) { std::ostringstream os; os << std::setprecision(17) << v; return os.str(); }

struct Room { // axis-aligned walls
  struct Wall { double x0, y0, x1, y1; }; std::vector<Wall> walls; double hw, hh;
  double ray(double x, double y, double a) const { // distance to the closest wall
    double best = std::numeric_limits<double>::infinity(), dx = std::cos(a), dy = std::sin(a);
    for (auto &w : walls) {
      if (w.x0 == w.x1) { if (std::abs(dx) < 1e-12) continue; double t = (w.x0 - x) / dx, q = y + t * dy; if (t > 0 && q >= w.y0 && q <= w.y1) best = std::min(best, t); }
      else { if (std::abs(dy) < 1e-12) continue; double t = (w.y0 - y) / dy, q = x + t * dx; if (t > 0 && q >= w.x0 && q <= w.x1) best = std::min(best, t); }
    }
    return best;
  }
  void box(double x0, double y0, double x1, double y1) { walls.push_back({x0, y0, x0, y1}); walls.push_back({x1, y0, x1, y1}); walls.push_back({x0, y0, x1, y0}); walls.push_back({x0, y1, x1, y1}); }
};
struct Sensor { int n; double from, inc, range; std::shared_ptr<TrigonometryProvider> trig; };

inline Room gen_room(Ctx &c, double unit) { // half sizes in units; the middle of it is free
  Room r; r.hw = unit * (c.i(60, 140) / 10. + 0.037); r.hh = unit * (c.i(60, 140) / 10. + 0.041);
  r.box(-r.hw, -r.hh, r.hw, r.hh);
  for (long n = c.i(0, 3); n > 0; --n) {
    double w = unit * (c.i(10, 25) / 10. + 0.013), h = unit * (c.i(10, 25) / 10. + 0.017), x, y; bool l = c.flag(), b = c.flag();
    x = l ? -r.hw + unit * c.i(0, 10) / 10. : r.hw - w - unit * c.i(0, 10) / 10.; y = b ? -r.hh + unit * c.i(0, 10) / 10. : r.hh - h - unit * c.i(0, 10) / 10.;
    r.box(x, y, x + w, y + h);
  }
  return r;
}
inline Sensor gen_sensor(Ctx &c, double unit) {
  Sensor s; s.n = c.i(8, 48); double fov = c.pick({2 * M_PI, M_PI, 1.5 * M_PI}); s.from = -fov / 2 + 0.0031; s.inc = fov / s.n;
  s.range = unit * c.pick({30., 12., 8.}) + unit / 97;
  if (c.flag()) { auto t = std::make_shared<CachedTrigonometryProvider>(); t->update(s.from, s.from + s.inc * (s.n + 1), s.inc); s.trig = t; } else s.trig = std::make_shared<RawTrigonometryProvider>();
  return s;
}
inline LaserScan2D take_scan(const Room &r, const Sensor &s, const RobotPose &p) {
  LaserScan2D sc; sc.trig_provider = s.trig;
  for (int i = 0; i < s.n; ++i) { double a = s.from + i * s.inc, d = r.ray(p.x, p.y, p.theta + a); sc.points().push_back(ScanPoint2D::make_polar(std::min(d, s.range), a, d < s.range)); }
  return sc;
}
inline LaserScan2D odd_scan(Ctx &c, double unit) { // scans sensors should not give, but do
  LaserScan2D s; long n = c.i(1, 12); double r = unit * c.i(0, 300) / 37., a = c.i(-180, 179) * M_PI / 180;
  switch (c.i(0, 5)) {
  case 0: break;                                                                                       // empty
  case 1: for (long i = 0; i < n; ++i) s.points().push_back(ScanPoint2D::make_polar(r, a + i * 0.1, false)); break; // nothing around
  case 2: for (long i = 0; i < n; ++i) s.points().push_back(ScanPoint2D::make_polar(r, a, true)); break;            // one point
  case 3: for (long i = 0; i < n; ++i) s.points().push_back(ScanPoint2D::make_polar(0, a + i * 0.1, c.flag())); break; // no distance
  case 4: s.points().push_back(ScanPoint2D::make_polar(r, a, true)); break;
  default: for (long i = 0; i < n; ++i) s.points().push_back(ScanPoint2D::make_polar(unit * c.i(0, 300) / 37., c.i(-180, 179) * M_PI / 180, c.flag())); break; // noise
  }
  return s;
}

struct Conf { MapPropertiesProvider props; std::vector<std::string> text; bool credibilist = false; double scale; std::string sm, map, area, oope, spw, oie, est; bool drift = false;
  void set(const std::string &k, const std::string &v) { props.set_property(k, v); for (auto &t : text) if (t.compare(0, k.size() + 1, k + "=") == 0) { t = k + "=" + v; return; } text.push_back(k + "=" + v); }
  void set(const std::string &k, double v) { set(k, str(v)); }
  std::shared_ptr<SingleStateHypothesisLaserScanGridWorld> build() const {
    QuietOut q;
    return credibilist ? init_credibilist_slam(props) : init_1h_slam(props);
  }
};
inline std::ostream &operator<<(std::ostream &os, const Conf &c) { if (c.credibilist) os << "credibilist "; for (auto &t : c.text) os << t << "\n"; return os; }

// any documented configuration; a bounded map covers `meters` around the origin
inline Conf gen_conf(Ctx &c, double scale, double meters, const std::string &only_sm = "") {
  Conf k; k.scale = scale; auto S = [&](std::vector<std::string> v) { return v[c.i(0, v.size() - 1)]; };
  k.credibilist = c.flag(1, 7);
  k.sm = only_sm.empty() ? S({"MC", "HC", "BF", "BF_M3RSM", "idle", "HC_FIXED"}) : only_sm; k.set("slam/scmtch/type", k.sm);
  k.map = S({"unbounded_plain", "unbounded_plain", "plain", "unbounded_lazy_tiled", "lazy_tiled"});
  if (k.sm == "HC_FIXED" && k.map[0] != 'u') k.map = "unbounded_" + k.map; // (it goes on as long as the score rises, by rounding, too)
  k.set("slam/mapping/grid/type", k.map); k.drift = c.flag(1, 8); if (k.drift) k.set("slam/scmtch/use_amb_drift_detector", "true");
  k.area = k.credibilist ? "credibilist" : S({"mean_probability", "affine_quality_merge", "tbm_consistent", "tbm_unknown_even_occ"}); if (!k.credibilist) k.set("slam/mapping/grid/area/type", k.area);
  bool bounded = k.map == "plain" || k.map == "lazy_tiled";
  bounded |= k.sm == "BF_M3RSM"; // (a matcher that needs all of the places it looks at inside of the map, see A03)
  if (k.sm == "MC" || k.sm == "HC" || k.drift) meters *= 3; // (these walk away where nothing is known yet)
  double side = bounded ? 2 * meters + 2 * scale : scale * c.i(1, 60);
  k.set("slam/map/width_in_meters", side); k.set("slam/map/height_in_meters", bounded || c.flag() ? side : scale * c.i(1, 60)); k.set("slam/map/meters_per_cell", scale);
  k.oie = "discrepancy"; k.oope = "obstacle";
  if (c.flag()) { k.oie = S({"discrepancy", "occupancy"}); k.set("slam/scmtch/oie/type", k.oie); }
  if (k.sm == "BF_M3RSM") k.oope = "max"; else if (c.flag()) k.oope = S({"obstacle", "max", "mean", "overlap"});
  if (k.oope != "obstacle" || c.flag()) k.set("slam/scmtch/oope/type", k.oope);
  k.set("slam/scmtch/spe/type", "wmpp"); k.spw = S({"even", "viny", "ahr"}); k.set("slam/scmtch/spe/wmpp/weighting/type", k.spw);
  if (c.flag(1, 4)) k.set("slam/scmtch/spe/wmpp/sp_skip_rate", str(c.i(0, 4)));
  if (c.flag(1, 4)) k.set("slam/scmtch/spe/wmpp/sp_max_usable_range", scale * c.i(20, 300) / 10.);
  if (k.sm == "MC") { k.set("slam/scmtch/MC/seed", str(c.i(0, 99999))); k.set("slam/scmtch/MC/attempts_limit", str(c.i(0, 40))); if (c.flag()) k.set("slam/scmtch/MC/dispersion/failed_attempts_limit", str(c.i(1, 20)));
    k.set("slam/scmtch/MC/dispersion/translation", scale * c.i(1, 20) / 10.); k.set("slam/scmtch/MC/dispersion/rotation", c.i(1, 20) / 100.); }
  if (k.sm == "HC") { k.set("slam/scmtch/HC/distortion/translation", scale * c.i(1, 20) / 10.); k.set("slam/scmtch/HC/distortion/rotation", c.i(1, 20) / 200.); k.set("slam/scmtch/HC/distortion/failed_attempts_limit", str(c.i(0, 6)));
    if (c.flag()) k.set("slam/scmtch/HC/use_frame_alignement", S({"true", "false"})); }
  if (k.sm == "BF") for (std::string d : {"x", "y", "t"}) { double st = d == "t" ? 0.02 : scale / 2; int n = c.i(0, 2); k.set("slam/scmtch/BF/" + d + "/from", -n * st); k.set("slam/scmtch/BF/" + d + "/to", c.i(0, 2) * st); k.set("slam/scmtch/BF/" + d + "/step", st); }
  if (k.sm == "BF_M3RSM") { k.set("slam/scmtch/BF_M3RSM/accuracy/rotation", 0.03); k.set("slam/scmtch/BF_M3RSM/accuracy/translation", scale * c.pick({1., 0.5})); k.set("slam/scmtch/BF_M3RSM/limits/x_translation", scale * c.i(0, 4));
    k.set("slam/scmtch/BF_M3RSM/limits/y_translation", scale * c.i(0, 4)); k.set("slam/scmtch/BF_M3RSM/limits/rotation", 0.03 * c.i(0, 2)); }
  k.est = S({"const", "area"}); k.set("slam/occupancy_estimator/type", k.est);
  if (c.flag()) { k.set("slam/occupancy_estimator/base_occupied/prob", c.i(60, 100) / 100.); k.set("slam/occupancy_estimator/base_occupied/qual", c.i(1, 100) / 100.);
    k.set("slam/occupancy_estimator/base_empty/prob", c.i(0, 40) / 100.); k.set("slam/occupancy_estimator/base_empty/qual", c.i(1, 100) / 100.); }
  if (c.flag()) k.set("slam/mapping/corrected_pose_quality", c.i(1, 10) / 10.);
  if (c.flag()) k.set("slam/mapping/raw_pose_quality", c.i(1, 10) / 10.);
  if (c.flag(1, 3)) k.set("slam/mapping/blur", c.flag() ? scale * c.i(0, 40) / 10. : -c.i(0, 10) / 100.);
  if (c.flag(1, 4)) k.set("slam/mapping/max_range", scale * c.i(10, 300) / 10.);
  return k;
}
struct Gm : Conf { long n = 1; };
inline Gm gen_gmapping(Ctx &c, double scale) {
  Gm g; g.scale = scale; g.sm = "gmapping"; g.map = "unbounded_lazy_tiled"; g.area = "gmapping"; g.oope = "gmapping"; g.n = c.i(1, 4); g.set("slam/particles/number", str(g.n));
  g.set("slam/map/width_in_meters", scale * c.i(1, 40)); g.set("slam/map/height_in_meters", scale * c.i(1, 40)); g.set("slam/map/meters_per_cell", scale);
  if (c.flag()) { g.set("slam/particles/sample/xy/mean", c.i(-10, 10) / 100.); g.set("slam/particles/sample/xy/sigma", c.i(0, 20) / 100.); g.set("slam/particles/sample/theta/mean", c.i(-10, 10) / 100.); g.set("slam/particles/sample/theta/sigma", c.i(0, 10) / 100.); }
  if (c.flag()) { double a = c.i(0, 8) / 10., t = c.i(0, 4) / 10.; g.set("slam/particles/sm_delta_lim/xy/min", a); g.set("slam/particles/sm_delta_lim/xy/max", a + c.i(1, 5) / 10.); g.set("slam/particles/sm_delta_lim/theta/min", t); g.set("slam/particles/sm_delta_lim/theta/max", t + c.i(1, 5) / 10.); }
  if (c.flag()) { g.set("slam/scmtch/oope/custom/fullness_threshold", c.i(0, 9) / 10.); g.set("slam/scmtch/oope/custom/window_size", str(c.i(0, 2))); }
  g.set("slam/scmtch/spe/type", "wmpp"); g.spw = c.flag() ? "even" : c.flag() ? "viny" : "ahr"; g.set("slam/scmtch/spe/wmpp/weighting/type", g.spw); if (c.flag(1, 4)) g.set("slam/scmtch/spe/wmpp/sp_skip_rate", str(c.i(0, 3)));
  if (c.flag(1, 4)) g.set("slam/mapping/blur", scale * c.i(0, 40) / 10.); if (c.flag(1, 4)) g.set("slam/mapping/max_range", scale * c.i(10, 300) / 10.);
  return g;
}
inline std::shared_ptr<LaserScanGridWorld> build_any(const Conf &k) { QuietOut q; if (k.sm == "gmapping") return init_gmapping(k.props); return k.build(); }
#endif
