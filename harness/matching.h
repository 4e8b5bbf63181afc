// scripted scorers and recording observers for scan matcher harnesses
#ifndef MATCHING_H
#define MATCHING_H
#include "scenes.h"
#include "core/scan_matchers/grid_scan_matcher.h"

// a score landscape over poses
struct Landscape {
  int kind; double cx, cy, ct, w; vf::u64 salt;
  double operator()(const RobotPose &p) const {
    auto h = [&]() { double v[] = {std::round(p.x * 1e6 + 0.377), std::round(p.y * 1e6 + 0.377), std::round(p.theta * 1e6 + 0.377)};
      for (auto &x : v) x += 0.0; // no negative zeroes
      auto r = vf::hash_bytes(v, sizeof v, salt * 1099511628211ULL + 77); r ^= r >> 31; r *= 0x9e3779b97f4a7c15ULL; return double(r >> 40) / double(1 << 24); };
    double d = (p.x - cx) * (p.x - cx) + (p.y - cy) * (p.y - cy) + (p.theta - ct) * (p.theta - ct);
    switch (kind) {
    case 0: return std::exp(-d / w);                       // one peak
    case 1: return 0.7 * std::exp(-d / w) + 0.3 * h();     // a rugged peak
    case 2: return h();                                    // noise
    case 3: return std::floor(6 * std::exp(-d / w)) / 6;   // terraces: ties
    case 4: return 0.5;                                    // flat
    case 5: return std::nan("");                           // unknown everywhere
    default: return h() < 0.5 ? 0. : 1.;
    }
  }
};
inline std::ostream &operator<<(std::ostream &os, const Landscape &l) {
  return os << "landscape " << l.kind << " at " << l.cx << "," << l.cy << "," << l.ct << " width " << l.w << " salt " << l.salt;
}
inline Landscape gen_landscape(vf::Ctx &c, const RobotPose &around, bool unknown_too = true) {
  Landscape l; l.kind = c.i(0, 6); if (!unknown_too && l.kind == 5) l.kind = 0;
  l.cx = around.x + c.i(-20, 20) / 20.; l.cy = around.y + c.i(-20, 20) / 20.; l.ct = around.theta + c.i(-20, 20) / 50.;
  l.w = c.pick({0.5, 0.05, 5.}); l.salt = c.i(0, 1 << 20);
  return l;
}
struct ScriptSPE : ScanProbabilityEstimator {
  ScriptSPE() : ScanProbabilityEstimator{nullptr} {}
  double estimate_scan_probability(const LaserScan2D &, const RobotPose &p, const GridMap &, const SPEParams &) const override { ++calls; return f(p); }
  Landscape f; mutable long calls = 0;
};

struct Ev { int kind; RobotPose pose; double score; size_t points; };
struct RecObs : GridScanMatcherObserver {
  std::vector<Ev> ev;
  void on_matching_start(const RobotPose &p, const TransformedLaserScan &s, const GridMap &) override { ev.push_back({0, p, 0, s.scan.points().size()}); }
  void on_scan_test(const RobotPose &p, const LaserScan2D &s, double v) override { ev.push_back({1, p, v, s.points().size()}); }
  void on_pose_update(const RobotPose &p, const LaserScan2D &s, double v) override { ev.push_back({2, p, v, s.points().size()}); }
  void on_matching_end(const RobotPose &p, const LaserScan2D &s, double v) override { ev.push_back({3, p, v, s.points().size()}); }
};
inline bool same_num(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool same_ev(const Ev &a, const Ev &b) {
  return a.kind == b.kind && same_num(a.score, b.score) && a.points == b.points && a.pose.x == b.pose.x && a.pose.y == b.pose.y && a.pose.theta == b.pose.theta;
}
inline bool near_pose(const RobotPose &a, const RobotPose &b, double tol = 1e-9) {
  return std::abs(a.x - b.x) <= tol && std::abs(a.y - b.y) <= tol && std::abs(a.theta - b.theta) <= tol;
}
inline RobotPose gen_pose(vf::Ctx &c) { return {c.i(-300, 300) / 32., c.i(-300, 300) / 32., c.i(-100, 100) / 32.}; }
#endif
