// A02: the candidates a search strategy examines.
#include "vf.h"
#include "matching.h"
#include "core/scan_matchers/brute_force_scan_matcher.h"
#include "core/scan_matchers/monte_carlo_scan_matcher.h"
#include "core/scan_matchers/hill_climbing_scan_matcher.h"
#include "core/scan_matchers/hcsm_fixed.h"

using vf::Ctx;

// ------------------------------------------------------------ exhaustive search
struct Dim { double from, to, step; std::vector<double> v; };
static Dim gen_dim(Ctx &c, long max_n, double unit) {
  Dim d; long n = c.i(0, max_n - 1);
  d.step = c.flag() ? unit * c.pick({0.1, 0.05, 0.25, 1., 0.3}) : unit * c.i(1, 400) / 300.;
  switch (c.i(0, 2)) {
  case 0: d.from = -d.step * double(n) / 2; break;             // symmetric
  case 1: d.from = unit * c.i(-40, 40) / 20.; break;
  default: d.from = -d.step * c.i(0, n); break;              // contains zero
  }
  int rest = c.flag() ? 0 : c.i(1, 9); // tenths of a step
  d.to = d.from + d.step * n + d.step * rest / 10.;
  if (c.flag() && !rest) d.to = d.from + n * d.step; // as close as arithmetic gets
  if (!rest && c.flag(1, 3)) { d.to = d.from; for (int i = 0; i < n; ++i) d.to += d.step; }
  for (long i = 0; i <= n; ++i) d.v.push_back(d.from + i * d.step);
  return d;
}
static std::ostream &operator<<(std::ostream &os, const Dim &d) { return os << "[" << d.from << ", " << d.to << "] by " << d.step << " (" << d.v.size() << ")"; }

static std::vector<RobotPose> lattice(const RobotPose &p, const Dim &x, const Dim &y, const Dim &t) {
  std::vector<RobotPose> r;
  for (double a : x.v) for (double b : y.v) for (double e : t.v) r.push_back({p.x + a, p.y + b, p.theta + e});
  return r;
}
static void same_set(std::vector<RobotPose> got, std::vector<RobotPose> exp, double tol, const char *what) {
  VF_CHECK(got.size() == exp.size(), what << ": " << got.size() << " poses, expected " << exp.size());
  std::vector<char> used(exp.size(), 0);
  size_t hint = 0;
  auto key = [](const RobotPose &a, const RobotPose &b) { return a.theta < b.theta - 1e-7 || (a.theta <= b.theta + 1e-7 && (a.y < b.y - 1e-7 || (a.y <= b.y + 1e-7 && a.x < b.x - 1e-7))); };
  (void)key; (void)hint;
  for (auto &g : got) {
    bool ok = false;
    for (size_t i = 0; i < exp.size(); ++i) { size_t j = (hint + i) % exp.size(); if (!used[j] && near_pose(g, exp[j], tol)) { used[j] = 1; ok = true; hint = j; break; } }
    VF_CHECK(ok, what << ": pose " << g << " is not a candidate or is repeated");
  }
}

static void check_lattice(Ctx &c, int nx, int ny, int nt) {
  Dim x = gen_dim(c, nx, 1), y = gen_dim(c, ny, 1), t = gen_dim(c, nt, 0.2);
  VF_LOG(c, "x " << x << " y " << y << " t " << t << "\n");
  BruteForcePoseEnumerator pe{x.from, x.to, x.step, y.from, y.to, y.step, t.from, t.to, t.step};
  long uses = c.len(1, 3);
  c.nontrivial(uses > 1 && (x.v.size() > 1) + (y.v.size() > 1) + (t.v.size() > 1) > 1);
  for (long k = 0; k < uses; ++k) {
    auto base = gen_pose(c), best = base; std::vector<RobotPose> got;
    bool stop = k + 1 < uses && c.flag(1, 4); size_t when = c.i(0, 10);
    VF_LOG(c, "from " << base << (stop ? " interrupted" : "") << "\n");
    if (k || c.flag()) pe.reset();
    while (pe.has_next() && !(stop && got.size() == when)) {
      VF_CHECK(got.size() <= x.v.size() * y.v.size() * t.v.size() + 2, "more poses than the lattice has");
      auto p = pe.next(best); got.push_back(p);
      bool ok = c.flag(1, 4); if (ok) best = p;
      pe.feedback(ok);
    }
    if (stop) continue;
    same_set(got, lattice(base, x, y, t), 1e-6, "enumerated poses");
  }
}

VF_TEST(lattice_enumerator, "two dimensions or more, reused from another pose", 16000, 300000) { check_lattice(c, 7, 7, 7); }
VF_TEST(large_lattice, "two dimensions or more, reused from another pose", 48, 800) { int k = c.i(0, 3); check_lattice(c, k == 0 ? 60 : 24, k == 1 ? 60 : 24, k == 2 ? 60 : 16); }

VF_TEST(polar_enumerator, "several directions and distances, reused from another pose", 16000, 300000) {
  Dim d = gen_dim(c, 8, 0.5), r = gen_dim(c, 8, 1);
  VF_LOG(c, "directions " << d << " distances " << r << "\n");
  PolarCoordBruteForcePoseEnumerator pe{d.from, d.to, d.step, r.from, r.to, r.step};
  long uses = c.len(1, 3);
  c.nontrivial(uses > 1 && d.v.size() > 1 && r.v.size() > 1);
  for (long k = 0; k < uses; ++k) {
    auto base = gen_pose(c), best = base; std::vector<RobotPose> got, exp;
    if (k || c.flag()) pe.reset();
    while (pe.has_next()) {
      VF_CHECK(got.size() <= d.v.size() * r.v.size() + 2, "more poses than the lattice has");
      auto p = pe.next(best); got.push_back(p);
      bool ok = c.flag(1, 4); if (ok) best = p;
      pe.feedback(ok);
    }
    for (double a : d.v) for (double s : r.v) exp.push_back({base.x + s * std::cos(a), base.y + s * std::sin(a), base.theta});
    same_set(got, exp, 1e-6, "enumerated poses");
  }
}

static UnboundedPlainGridMap &any_map() { static UnboundedPlainGridMap m{make_cell(CK_Affine), {4, 4, 1}}; return m; }
static TransformedLaserScan gen_tscan(Ctx &c, long max_n) {
  TransformedLaserScan s; s.quality = 1;
  long n = c.len(0, max_n);
  for (long i = 0; i < n; ++i) s.scan.points().push_back(ScanPoint2D::make_polar(c.i(1, 100) / 10., c.i(-180, 179) * M_PI / 180, c.yes(4, 5)));
  return s;
}
static std::vector<RobotPose> tested(const RecObs &o) { std::vector<RobotPose> r; for (auto &e : o.ev) if (e.kind == 1) r.push_back(e.pose); return r; }

VF_TEST(exhaustive_matcher, "several matches from different poses over a landscape that is not flat", 8000, 150000) {
  Dim x = gen_dim(c, 6, 0.5), y = gen_dim(c, 6, 0.5), t = gen_dim(c, 6, 0.1);
  VF_LOG(c, "x " << x << " y " << y << " t " << t << "\n");
  auto spe = std::make_shared<ScriptSPE>();
  BruteForceScanMatcher m{spe, x.from, x.to, x.step, y.from, y.to, y.step, t.from, t.to, t.step};
  auto obs = std::make_shared<RecObs>(); m.subscribe(obs);
  long uses = c.len(1, 3);
  for (long k = 0; k < uses; ++k) {
    auto p = gen_pose(c); spe->f = gen_landscape(c, p); auto s = gen_tscan(c, 4);
    VF_LOG(c, "from " << p << " " << spe->f << "\n");
    obs->ev.clear(); RobotPoseDelta d; if (c.flag(1, 3)) m.reset_state();
    double v = m.process_scan(s, p, any_map(), d);
    auto exp = lattice(p, x, y, t); auto got = tested(*obs);
    VF_CHECK(!got.empty() && near_pose(got[0], p, 0), "the initial pose is not tested first");
    got.erase(got.begin());
    same_set(got, exp, 1e-6, "tested poses");
    double best = spe->f(p); for (auto &q : got) best = std::max(best, spe->f(q));
    VF_CHECK(same_num(v, best), "score " << v << ", the best of the lattice is " << best);
    c.nontrivial(uses > 1 && spe->f.kind < 4);
  }
}

// ------------------------------------------------------------ random search
// expected end of the search after a history of answers
struct McModel {
  unsigned max_fail, max_n, fail = 0, n = 0; int shrinks = 0;
  bool has_next() const { return fail < max_fail && n < max_n; }
  void feedback(bool ok) { ++n; if (!ok) ++fail; else if (fail > max_fail / 3) { fail = 0; ++shrinks; } }
  void reset() { fail = n = 0; shrinks = 0; }
};
VF_TEST(random_enumerator, "at least one shrink of the area", 8000, 150000) {
  unsigned seed = c.i(0, 100000), mf = c.len(0, 40), mn = c.len(0, 120); double td = c.i(1, 40) / 40., rd = c.i(1, 40) / 80.;
  VF_LOG(c, "seed " << seed << " failures " << mf << " poses " << mn << " dispersion " << td << " " << rd << "\n");
  GaussianPoseEnumerator a{seed, td, rd, mf, mn}, b{seed, td, rd, mf, mn}, z{seed + 1, td, rd, mf, mn};
  McModel m{mf, mn};
  for (long k = 0, uses = c.len(1, 3); k < uses; ++k) {
    if (k || c.flag()) { a.reset(); b.reset(); m.reset(); }
    auto best = gen_pose(c); unsigned odds = c.i(0, 4); bool stop = c.flag(1, 4); long when = c.i(0, 30);
    while (m.has_next() && !(stop && long(m.n) == when)) {
      VF_CHECK(a.has_next(), "stops after " << m.n << " poses and " << m.fail << " failures");
      auto p = a.next(best), q = b.next(best);
      VF_CHECK(near_pose(p, q, 0), "equally seeded enumerators give " << p << " and " << q);
      bool ok = c.flag(odds, 5); if (ok && c.flag()) best = p;
      m.feedback(ok); a.feedback(ok); b.feedback(ok);
      VF_LOG(c, p << (ok ? " accepted" : "") << "\n");
      double lim = 9; // deviations
      VF_CHECK(std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.theta), "pose " << p);
      (void)lim;
    }
    c.nontrivial(m.shrinks > 0);
    if (stop) continue;
    VF_CHECK(!a.has_next() && !b.has_next(), "goes on after " << m.n << " poses and " << m.fail << " failures");
  }
}
VF_TEST(random_spread, "a shrunk area", 1500, 20000) {
  double td = c.i(1, 40) / 20., rd = c.i(1, 40) / 40.; int phases = c.i(1, 4), N = 150;
  VF_LOG(c, "dispersion " << td << " " << rd << "\n");
  GaussianPoseEnumerator pe{unsigned(c.i(0, 1000000)), td, rd, 600, 1000000};
  for (int use = 0; use < 2; ++use) {
    for (int ph = 0; ph < phases; ++ph) { // 250 failures, then an accepted pose
      double sx = 0, sy = 0, st = 0, mx = 0, my = 0, mt = 0; RobotPose b = gen_pose(c);
      int n = 250;
      for (int i = 0; i < n; ++i) {
        VF_CHECK(pe.has_next(), "stops too early");
        auto p = pe.next(b); pe.feedback(false);
        double x = p.x - b.x, y = p.y - b.y, t = p.theta - b.theta;
        sx += x * x; sy += y * y; st += t * t; mx += x; my += y; mt += t;
      }
      double et = td * std::pow(0.5, ph), er = rd * std::pow(0.5, ph);
      auto ok = [&](double s, double e) { double v = std::sqrt(s / n) / e; return v > 0.72 && v < 1.33; };
      VF_CHECK(ok(sx, et) && ok(sy, et) && ok(st, er), "deviations " << std::sqrt(sx / n) << " " << std::sqrt(sy / n) << " " << std::sqrt(st / n)
               << " in phase " << ph << " of use " << use << ", expected " << et << " " << et << " " << er);
      auto z = [&](double s, double e) { return std::abs(s / n) < 7 * e / std::sqrt(double(n)); };
      VF_CHECK(z(mx, et) && z(my, et) && z(mt, er), "means " << mx / n << " " << my / n << " " << mt / n);
      pe.next(b); pe.feedback(true);
    }
    pe.reset();
  }
  (void)N; c.nontrivial(phases > 1);
}
VF_TEST(random_matcher, "at least 10 tested poses", 6000, 100000) {
  unsigned seed = c.i(0, 100000), mf = c.len(1, 40), mn = c.len(1, 120); double td = c.i(1, 40) / 80., rd = c.i(1, 40) / 160.;
  VF_LOG(c, "seed " << seed << " failures " << mf << " poses " << mn << " dispersion " << td << " " << rd << "\n");
  auto sa = std::make_shared<ScriptSPE>(), sb = std::make_shared<ScriptSPE>();
  MonteCarloScanMatcher a{sa, seed, td, rd, mf, mn}, b{sb, seed, td, rd, mf, mn};
  auto oa = std::make_shared<RecObs>(); a.subscribe(oa);
  for (long k = 0, uses = c.len(1, 3); k < uses; ++k) {
    auto p = gen_pose(c); sa->f = sb->f = gen_landscape(c, p); auto s = gen_tscan(c, 4);
    VF_LOG(c, "from " << p << " " << sa->f << "\n");
    oa->ev.clear(); RobotPoseDelta da, db;
    double va = a.process_scan(s, p, any_map(), da), vb = b.process_scan(s, p, any_map(), db);
    VF_CHECK(same_num(va, vb) && near_pose(da, db, 0), "equally seeded matchers give " << va << da << " and " << vb << db);
    // replay the answers
    McModel m{mf, mn}; bool first = true; double best = 0; size_t n = 0;
    for (auto &e : oa->ev) if (e.kind == 1) {
      if (first) { first = false; best = e.score; continue; }
      VF_CHECK(m.has_next(), "a pose is tested after " << m.n << " poses and " << m.fail << " failures");
      bool ok = best < e.score; if (ok) best = e.score;
      m.feedback(ok); ++n;
    }
    VF_CHECK(!m.has_next(), "stops after " << m.n << " poses and " << m.fail << " failures");
    c.nontrivial(n >= 10);
  }
}

// ------------------------------------------------------------ hill climbing
// one round: six poses around the base
static std::vector<RobotPose> round_of(const RobotPose &b, double t, double r, double frame) {
  double cs = std::cos(frame), sn = std::sin(frame);
  return {{b.x + cs * t, b.y + sn * t, b.theta}, {b.x - cs * t, b.y - sn * t, b.theta}, {b.x - sn * t, b.y + cs * t, b.theta},
          {b.x + sn * t, b.y - cs * t, b.theta}, {b.x, b.y, b.theta + r}, {b.x, b.y, b.theta - r}};
}
struct HcModel { // follows the enumeration pose by pose
  unsigned max_failed; double t, r, frame; unsigned failed = 0; RobotPose base; std::vector<RobotPose> left; bool ok = false, started = false; int extra = 0; long rounds = 0;
  bool must_stop() const { return (started && left.empty() && !ok && failed + 1 >= max_failed && extra) || max_failed == 0 || extra; }
  void visit(const RobotPose &p, const RobotPose &best) {
    if (left.empty()) {
      if (started && !ok) { ++failed; t /= 2; r /= 2; }
      if (failed >= max_failed) ++extra; // one more pose is tolerated
      base = best; left = round_of(base, t, r, frame); ok = false; started = true; ++rounds;
    }
    size_t at = left.size(); double d = 0; // the nearest of them, as steps get tiny
    for (size_t i = 0; i < left.size(); ++i) if (near_pose(p, left[i], 1e-9)) { double e = std::abs(p.x - left[i].x) + std::abs(p.y - left[i].y) + std::abs(p.theta - left[i].theta); if (at == left.size() || e < d) { at = i; d = e; } }
    if (at < left.size()) { left.erase(left.begin() + at); return; }
    std::ostringstream os; for (auto &l : left) os << l << " ";
    VF_FAIL("pose " << p << " is not one of the remaining probes around " << base << " with steps " << t << ", " << r << " in round " << rounds << ": " << os.str());
  }
  bool may_stop() const { return max_failed == 0 || extra || (left.empty() && !ok && started && failed + 1 >= max_failed); }
  bool may_go_on() const { return !extra && max_failed; }
};
VF_TEST(axis_probes, "a round that succeeds and one that fails", 20000, 300000) {
  double t = c.i(1, 40) / 40., r = c.i(1, 40) / 80., frame = c.flag() ? 0 : c.angle(); unsigned mf = c.flag(1, 8) ? c.i(8, 30) : c.len(0, 7); const long most = mf > 7 ? 600 : 150;
  VF_LOG(c, "failed rounds " << mf << " steps " << t << " " << r << " frame " << frame << "\n");
  using PE = FailedRoundsLimitedPoseEnumerator<Distorsion1DPoseEnumerator>;
  auto pe = frame ? PE{mf, t, r, frame} : PE{mf, t, r};
  for (long k = 0, uses = c.len(1, 3); k < uses; ++k) {
    if (k || c.flag()) pe.reset();
    HcModel m{mf, t, r, frame}; auto best = gen_pose(c); long succ = 0, n = 0; unsigned odds = c.i(0, 2); bool stop = c.flag(1, 4); long when = c.i(0, 30);
    while (pe.has_next() && n < most && !(stop && n == when)) {
      VF_CHECK(m.may_go_on(), "goes on after " << m.failed << " failed rounds of " << mf);
      auto p = pe.next(best); ++n; m.visit(p, best);
      bool ok = c.flag(odds, 8); pe.feedback(ok); m.ok |= ok; succ += ok; if (ok) best = p;
      VF_LOG(c, p << (ok ? " accepted" : "") << "\n");
    }
    c.nontrivial(succ && m.failed);
    if (stop || n >= most) continue;
    VF_CHECK(m.may_stop(), "stops after " << m.failed << " failed rounds with " << m.left.size() << " probes left");
  }
}
VF_TEST(single_round, "always", 20000, 300000) {
  double t = c.i(1, 40) / 40., r = c.i(1, 40) / 80., frame = c.flag() ? 0 : c.angle();
  auto pe = frame ? Distorsion1DPoseEnumerator{t, r, frame} : Distorsion1DPoseEnumerator{t, r};
  auto b = gen_pose(c), best = b; std::vector<RobotPose> got; c.nontrivial();
  while (pe.has_next()) { got.push_back(pe.next(best)); VF_CHECK(got.size() <= 6, "too many probes"); bool ok = c.flag(); if (ok) best = got.back(); pe.feedback(ok); }
  same_set(got, round_of(b, t, r, frame), 1e-9, "probes");
}
VF_TEST(hill_climbing_matcher, "several rounds over a landscape that is not flat", 10000, 150000) {
  double t = c.i(1, 40) / 80., r = c.i(1, 40) / 160.; unsigned mf = c.flag(1, 10) ? c.i(7, 30) : c.len(0, 6); bool align = c.flag(1, 3);
  VF_LOG(c, "failed rounds " << mf << " steps " << t << " " << r << (align ? " aligned" : "") << "\n");
  auto spe = std::make_shared<ScriptSPE>();
  HillClimbingScanMatcher m{spe, mf, t, r, double(align)};
  auto obs = std::make_shared<RecObs>(); m.subscribe(obs);
  for (long k = 0, uses = c.len(1, 3); k < uses; ++k) {
    auto p = gen_pose(c); if (align) p.theta = 0;
    spe->f = gen_landscape(c, p); TransformedLaserScan s; double frame = 0;
    if (align) { // a wall in one direction
      double a = c.i(1, 178) * M_PI / 180, x = c.i(-20, 20) / 4., y = c.i(-20, 20) / 4.; long n = c.len(0, 6); s.quality = 1;
      if (std::fmod(a, M_PI / 20) < 1e-6 || std::fmod(a, M_PI / 20) > M_PI / 20 - 1e-6) a += 0.01;
      for (long i = 0; i < n; ++i) s.scan.points().push_back(ScanPoint2D::make_cartesian({x + i * std::cos(a), y + i * std::sin(a)}, true));
      if (n > 1) frame = a;
      VF_LOG(c, "wall of " << n << " points in direction " << a << "\n");
    } else s = gen_tscan(c, 4);
    VF_LOG(c, "from " << p << " " << spe->f << "\n");
    obs->ev.clear(); RobotPoseDelta d; if (c.flag(1, 3)) m.reset_state();
    m.process_scan(s, p, any_map(), d);
    // directions of axes are known up to rounding of the mean direction
    HcModel h{mf, t, r, frame}; RobotPose best = p; double bs = 0; bool first = true; long acc = 0;
    for (auto &e : obs->ev) if (e.kind == 1) {
      if (first) { first = false; bs = e.score; VF_CHECK(near_pose(e.pose, p, 0), "starts from " << e.pose); continue; }
      VF_CHECK(h.may_go_on(), "goes on after " << h.failed << " failed rounds of " << mf);
      h.visit(e.pose, best);
      if (bs < e.score) { bs = e.score; best = e.pose; h.ok = true; ++acc; }
    }
    VF_CHECK(h.may_stop(), "stops after " << h.failed << " failed rounds of " << mf << " with " << h.left.size() << " probes left");
    c.nontrivial(h.rounds > 2 && spe->f.kind < 4); if (acc) c.label("accepted");
  }
}

VF_TEST(fixed_steps, "several matches that move, over a landscape that is not flat", 6000, 100000) {
  auto spe = std::make_shared<ScriptSPE>(); HillClimbingSMFixed m{spe}; long moved = 0;
  for (long k = 0, uses = c.len(1, 4); k < uses; ++k) {
    auto p = gen_pose(c); spe->f = gen_landscape(c, p); auto s = gen_tscan(c, 4); if (c.flag(1, 3)) m.reset_state(); RobotPoseDelta d; double v = m.process_scan(s, p, any_map(), d);
    VF_LOG(c, "from " << p << " " << spe->f << " to " << RobotPose(d) << " " << v << "\n"); if (spe->f.kind == 5) continue;
    RobotPose at{p.x + d.x, p.y + d.y, p.theta + d.theta}; double t = 0.01, r = M_PI / 360, here = spe->f(at); bool move = d.x || d.y || d.theta; moved += move;
    for (int a = 0; a < 6; ++a) { RobotPose q = at; (a < 2 ? q.x : a < 4 ? q.y : q.theta) += (a % 2 ? 1 : -1) * (a < 4 ? t : r);
      VF_CHECK(spe->f(q) <= here + 1e-9, "stops at a score of " << here << ", the smallest step to " << q << " has " << spe->f(q)); }
  }
  c.nontrivial(moved >= 2);
}
