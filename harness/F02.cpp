// F02: particles of the grid-mapping robot.
#include "vf.h"
#include "matching.h"
#include "cells.h"
#include "slams/gmapping/init_gmapping.h"

using vf::Ctx;
using Coord = DiscretePoint2D;

static const int Win = 11; // scripted worlds stay inside of this window
static vf::u64 digest(const GridMap &m) {
  vf::u64 h = 7; auto add = [&](double v) { vf::u64 u; std::memcpy(&u, &v, 8); h = (h ^ u) * 1099511628211ULL + (h >> 29); };
  for (int x = -Win; x <= Win; ++x) for (int y = -Win; y <= Win; ++y) { Coord k{x, y}; const auto &cell = m[k]; if (cell.is_unknown()) continue; add(x); add(y); add(cell.occupancy().prob_occ); }
  return h;
}
using Shadow = std::map<std::pair<int, int>, MeanProbabilityCell>; // what has been written to a map
static vf::u64 digest(const Shadow &m) {
  vf::u64 h = 7; auto add = [&](double v) { vf::u64 u; std::memcpy(&u, &v, 8); h = (h ^ u) * 1099511628211ULL + (h >> 29); };
  for (auto &kv : m) if (std::abs(kv.first.first) <= Win && std::abs(kv.first.second) <= Win) { add(kv.first.first); add(kv.first.second); add(kv.second.occupancy().prob_occ); }
  return h;
}
static double mark_value(long k) { vf::u64 h = vf::u64(k) * 0x9e3779b97f4a7c15ULL; h = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9ULL; h = (h ^ (h >> 27)) * 0x94d049bb133111ebULL; return 0.1 + 0.8 * double((h ^ (h >> 31)) >> 11) / double(1LL << 53); } // (sums of few of them don't coincide)
// integrates nothing but marks of its own, no two integrated scans leave the same ones
struct MarkAdder : GridMapScanAdder {
  MarkAdder() : GridMapScanAdder{std::make_shared<ConstOccupancyEstimator>(Occupancy{0.9, 1}, Occupancy{0.1, 1}), std::make_shared<IdleOMQE>()} {}
  void handle_scan_point(GridMap &m, bool, double, const Segment2D &b) const override {
    beams.push_back({&m, b}); m.update(m.world_to_cell(b.end()), {true, {mark_value(++marks), 1}, b.end(), 1});
  }
  mutable std::vector<std::pair<GridMap *, Segment2D>> beams; mutable long marks = 0;
};
struct Script : GridScanMatcher {
  Script() : GridScanMatcher{nullptr} {}
  struct Call { RobotPose init; const GridMap *map; vf::u64 dig; size_t points, beams_before; RobotPoseDelta corr; double score; };
  double process_scan(const TransformedLaserScan &s, const RobotPose &p, const GridMap &m, RobotPoseDelta &d) override {
    auto a = next(); d = a.first; calls.push_back({p, &m, digest(m), s.scan.points().size(), adder->beams.size(), a.first, a.second}); return a.second;
  }
  std::vector<Call> calls; std::function<std::pair<RobotPoseDelta, double>()> next; MarkAdder *adder;
};
struct Rig {
  std::shared_ptr<MarkAdder> adder = std::make_shared<MarkAdder>(); std::shared_ptr<Script> sm = std::make_shared<Script>(); SingleStateHypothesisLSGWProperties pr; long n_calls = 0;
  Rig(Ctx &c) {
    sm->adder = adder.get(); pr.gsm = sm; pr.gmsa = adder;
    GridMapParams gp{int(c.i(1, 60)), int(c.i(1, 60)), 1}; pr.grid_map = std::make_shared<UnboundedLazyTiledGridMap>(make_cell(CK_Mean), gp);
    sm->next = [this, &c] { RobotPoseDelta d{0, 0, 0}; // corrections differ between all calls
      if (c.flag(3, 4)) d = {c.i(-8, 8) / 32. + ++n_calls / 65536., c.i(-8, 8) / 32., c.i(-8, 8) / 32.};
      else d.x = ++n_calls / 65536.;
      return std::make_pair(d, c.pick({1., 0.5, 0.25, 1e-3, 0., std::nan(""), 1e-150, 0.9})); };
  }
};
static TransformedLaserScan gen_scan(Ctx &c) {
  TransformedLaserScan s; s.quality = 1; long n = c.len(0, 4);
  for (long i = 0; i < n; ++i) s.scan.points().push_back(ScanPoint2D::make_polar(c.i(1, 60) / 10., c.i(-180, 179) * M_PI / 180, c.flag(3, 4)));
  return s;
}
static RobotPoseDelta gen_move(Ctx &c, double k = 1) { if (c.flag(1, 6)) return {0, 0, 0}; return {k * c.i(-40, 40) / 64., k * c.i(-40, 40) / 64., k * c.i(-40, 40) / 64.}; }

struct Noise { double mxy, sxy, mth, sth, lo, hi, tlo, thi;
  GMappingParams params() const { return {mxy, sxy, mth, sth, lo, hi, tlo, thi}; }
  bool fits(const RobotPoseDelta &d) const { return std::abs(d.x - mxy) <= 9 * sxy + 1e-9 && std::abs(d.y - mxy) <= 9 * sxy + 1e-9 && std::abs(d.theta - mth) <= 9 * sth + 1e-9; } };
static std::ostream &operator<<(std::ostream &os, const Noise &n) { return os << "noise xy " << n.mxy << "+-" << n.sxy << " theta " << n.mth << "+-" << n.sth << " limits xy " << n.lo << ".." << n.hi << " theta " << n.tlo << ".." << n.thi; }
static Noise gen_noise(Ctx &c, bool limits) {
  Noise n{}; n.mxy = c.pick({0., 0.0123, -0.3177}); n.mth = c.pick({0., 0.0123, 0.2177}); n.sxy = c.pick({0., 0., 0.01, 0.1}); n.sth = c.pick({0., 0., 0.01, 0.05});
  if (limits) { n.lo = c.i(0, 40) / 32.; n.hi = n.lo + (c.flag() ? 0 : c.i(0, 16) / 32.); n.tlo = c.i(0, 40) / 32.; n.thi = n.tlo + (c.flag() ? 0 : c.i(0, 16) / 32.); }
  return n;
}

// what is known about one particle
struct Model {
  RobotPose pose; double raw = 0; bool first = true, master = false; double tx = 0, ty = 0, tt = 0, w = 1; vf::u64 dig = 0; long matches = 0, skips = 0; bool fresh_limits = true, of_master = false;
  void move(const RobotPoseDelta &d) {
    double a = pose.theta - raw, s = std::sin(a), k = std::cos(a), x = k * d.x - s * d.y, y = s * d.x + k * d.y;
    pose = {pose.x + x, pose.y + y, pose.theta + d.theta}; raw += d.theta; tx += std::abs(x); ty += std::abs(y); tt += std::abs(d.theta);
  }
  // 1: has to be matched, 0: has to be skipped, -1: depends on what was sampled
  int due(const Noise &n) const {
    double sq = tx * tx + ty * ty, lo = 2 * n.lo * n.lo, hi = 2 * n.hi * n.hi, tlo = n.tlo, thi = n.thi;
    if (master && !fresh_limits) return 1; // the master matches every scan
    if (sq >= hi + 1e-9 || tt >= thi + 1e-9 || (hi == 0 && tlo == thi) || (lo == 0 && hi == 0) || (tlo == 0 && thi == 0)) return 1;
    if (of_master) return -1; // the limits of a copy are those it was copied with
    if (sq < lo - 1e-9 && tt < tlo - 1e-9) return 0;
    return -1;
  }
};
static void observe(Ctx &c, Rig &r, GmappingWorld &w, Model &m, const Noise &n, TransformedLaserScan s) {
  auto calls = r.sm->calls.size(), beams = r.adder->beams.size(); auto before = m.pose; int due = m.due(n);
  w.handle_observation(s);
  size_t made = r.sm->calls.size() - calls;
  VF_CHECK(made <= 1, "a scan is matched " << made << " times");
  VF_CHECK(!(due == 1 && !made), "a scan is skipped after travelling " << m.tx << "," << m.ty << "," << m.tt);
  VF_CHECK(!(due == 0 && made), "a scan is matched after travelling only " << m.tx << "," << m.ty << "," << m.tt);
  if (!made) { ++m.skips; VF_CHECK(near_pose(w.pose(), m.pose) && r.adder->beams.size() == beams && w.weight() == m.w, "a skipped scan changes the particle"); return; }
  auto &k = r.sm->calls.back(); ++m.matches;
  RobotPoseDelta noise{k.init.x - before.x, k.init.y - before.y, k.init.theta - before.theta};
  if (m.first || m.master) VF_CHECK(near_pose(k.init, before), (m.master ? "the master" : "the first pose") << " is disturbed by " << noise);
  else VF_CHECK(n.fits(noise), "matching starts with a noise of " << noise);
  if (!m.first && !m.master && n.sxy > 0) VF_CHECK(noise.x != noise.y && noise.x != n.mxy, "there is no noise: " << noise);
  VF_CHECK(k.map == &w.map(), "another map is matched"); VF_CHECK(k.dig == m.dig, "the map is changed by somebody else");
  VF_CHECK(k.points == s.scan.points().size(), "another scan is matched");
  m.pose = {k.init.x + k.corr.x, k.init.y + k.corr.y, k.init.theta + k.corr.theta};
  VF_CHECK(near_pose(w.pose(), m.pose), "pose " << w.pose() << ", expected " << m.pose);
  bool integrate = k.score > 0 || m.first; size_t exp = integrate ? s.scan.points().size() : 0;
  VF_CHECK(r.adder->beams.size() - beams == exp, r.adder->beams.size() - beams << " points are integrated, expected " << exp);
  for (size_t i = 0; i < exp; ++i) {
    auto &b = r.adder->beams[beams + i]; auto &p = s.scan.points()[i]; double x = m.pose.x + p.range() * std::cos(p.angle() + m.pose.theta), y = m.pose.y + p.range() * std::sin(p.angle() + m.pose.theta);
    VF_CHECK(b.first == &w.map(), "another map is extended");
    VF_CHECK(std::abs(b.second.beg().x - m.pose.x) < 1e-9 && std::abs(b.second.beg().y - m.pose.y) < 1e-9 && std::abs(b.second.end().x - x) < 1e-9 && std::abs(b.second.end().y - y) < 1e-9, "point " << i << " is integrated at a wrong place");
  }
  if (integrate) m.first = false;
  m.dig = digest(w.map()); m.tx = m.ty = m.tt = 0; m.fresh_limits = m.of_master = false;
  if (!std::isnan(k.score)) m.w *= k.score;
  VF_CHECK(std::isfinite(w.weight()) && std::abs(w.weight() - m.w) <= 1e-12 * m.w + 1e-320, "weight " << w.weight() << ", expected " << m.w);
}

// a family of particles: the first one lives, is copied, the copies live on their own
static void check_particles(Ctx &c, long n_steps) {
  Rig r{c}; auto n = gen_noise(c, true); VF_LOG(c, n << "\n"); auto gp = n.params();
  std::vector<std::shared_ptr<GmappingWorld>> ws; std::vector<Model> ms;
  ws.push_back(std::make_shared<GmappingWorld>(r.pr, gp)); ms.emplace_back(); ms[0].dig = digest(ws[0]->map());
  if (c.flag()) { ws[0]->sample(); }
  if (c.flag(1, 3)) { ws[0]->mark_master(); ms[0].master = true; }
  std::vector<RobotPoseDelta> noises;
  for (long steps = n_steps; steps > 0; --steps) {
    size_t i = c.draw(ws.size() - 1); auto &w = *ws[i];
    switch (c.i(0, 6)) {
    case 0: case 1: { auto d = gen_move(c); VF_LOG(c, i << " moves by " << d << "\n"); w.update_robot_pose(d); ms[i].move(d); VF_CHECK(near_pose(w.pose(), ms[i].pose), "pose " << w.pose() << ", expected " << ms[i].pose); break; }
    case 2: case 3: case 4: { auto s = gen_scan(c); VF_LOG(c, i << " sees " << s.scan.points().size() << " points\n"); observe(c, r, w, ms[i], n, s); break; }
    case 5: if (ws.size() < 4) { // what resampling does
        VF_LOG(c, ws.size() << " is a copy of " << i << "\n");
        auto nw = std::make_shared<GmappingWorld>(r.pr, gp); *nw = w; nw->sample(); ws.push_back(nw); ms.push_back(ms[i]); ms.back().of_master |= ms.back().master && !ms.back().fresh_limits; ms.back().master = false; ms.back().matches = ms.back().skips = 0;
        VF_CHECK(near_pose(nw->pose(), w.pose(), 0) && nw->weight() == w.weight() && !nw->is_master() && digest(nw->map()) == ms[i].dig, "the copy differs");
        VF_CHECK(&nw->map() != &w.map(), "the copy shares its map");
      } break;
    default: if (ws.size() > 1 && c.flag()) { VF_LOG(c, i << " dies\n"); ws.erase(ws.begin() + i); ms.erase(ms.begin() + i); } break;
    }
    for (size_t k = 0; k < ws.size(); ++k) { VF_CHECK(digest(ws[k]->map()) == ms[k].dig, "the map of particle " << k << " is changed by another one"); VF_CHECK(near_pose(ws[k]->pose(), ms[k].pose), "the pose of particle " << k << " is changed by another one"); }
  }
  long busy = 0, skips = 0; for (auto &m : ms) { busy += m.matches >= 3; skips += m.skips; }
  c.nontrivial(ws.size() >= 2 && busy >= 1); if (skips) c.label("skipped scans"); if (busy >= 2) c.label("both busy");
}

VF_TEST(particles, "two particles or more, one of them matched three scans or more", 9000, 150000) { check_particles(c, c.i(4, 30)); }
VF_TEST(long_lives, "two particles or more, one of them matched three scans or more", 24, 400) { check_particles(c, c.i(600, 2500)); }

// noise of particles that have a common origin
VF_TEST(own_noise, "two copies matched twice or more", 3000, 40000) {
  Rig r{c}; Noise n{0, 0.1, 0, 0.05, 0, 0, 0, 0}; auto gp = n.params(); GmappingWorld a{r.pr, gp}; a.sample();
  auto see = [&](GmappingWorld &w) { auto p = w.pose(); TransformedLaserScan s = gen_scan(c); w.handle_observation(s); auto &k = r.sm->calls.back(); return RobotPoseDelta{k.init.x - p.x, k.init.y - p.y, k.init.theta - p.theta}; };
  r.sm->next = [&] { return std::make_pair(RobotPoseDelta{0, 0, 0}, 1.); };
  for (long i = c.len(1, 4); i > 0; --i) see(a);
  GmappingWorld b{r.pr, gp}, d{r.pr, gp}; b = a; b.sample(); d = a; d.sample(); long k = c.i(1, 4);
  std::vector<double> x; for (long i = 0; i < k; ++i) { x.push_back(see(a).x); x.push_back(see(b).x); x.push_back(see(d).x); }
  for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < i; ++j) VF_CHECK(std::abs(x[i] - x[j]) > 1e-13, "particles " << i % 3 << " and " << j % 3 << " get the same noise " << x[i]);
  c.nontrivial(k >= 2);
}

struct PoseObs : WorldPoseObserver { std::vector<RobotPose> p; void on_pose_update(const RobotPose &v) override { p.push_back(v); } virtual ~PoseObs() = default; };
struct MapObs : WorldMapObserver<GridMap> { std::vector<const GridMap *> m; void on_map_update(const GridMap &v) override { m.push_back(&v); } virtual ~MapObs() = default; };

// the whole filter, every particle matches every scan
static void check_filter(Ctx &c, long N, long steps) {
  Rig r{c}; auto n = gen_noise(c, false); VF_LOG(c, N << " particles, " << n << "\n");
  int style = int(c.i(0, 2)); // how different the scores of particles are
  r.sm->next = [&r, &c, style] { RobotPoseDelta d{++r.n_calls / 65536., c.i(-8, 8) / 32., c.flag() ? 0 : c.i(-8, 8) / 32.};
    return std::make_pair(d, style == 0 ? c.pick({1., 0.5, 0.25, 0., std::nan(""), 0.9}) : style == 1 ? c.pick({1., 1e-3, 1e-6, 0., 0.9}) : c.pick({0.9, 0.8, 1., 0.7})); };
  GmappingParticleFilter pf{r.pr, n.params(), unsigned(N)};
  auto po = std::make_shared<PoseObs>(); auto mo = std::make_shared<MapObs>(); pf.subscribe_pose(po); pf.subscribe_map(mo);
  struct P { RobotPose pose; double raw = 0; vf::u64 dig = 0; bool first = true; };
  P start; start.dig = digest(*r.pr.grid_map); std::vector<P> ps(N, start);
  std::vector<std::vector<double>> ws{std::vector<double>(N, 1. / N)}; bool weights_known = true; // candidates for the weights
  RobotPose rep; double rep_w = 0; vf::u64 rep_dig = 0; double mx = 0, my = 0, mt = 0; long resampled = 0, scans = 0; RobotPoseDelta odo{0, 0, 0}; bool may_master_be_new = true, unnoticed = false;
  long master = -1; std::vector<Shadow> shadow;
  for (long s = 0; s <= steps; ++s) {
    auto scan = gen_scan(c); RobotPoseDelta d = gen_move(c); if (s && c.flag(1, 3)) d.theta = c.pick({0.25, -0.3});
    scan.pose_delta = d; size_t calls = r.sm->calls.size(), beams = r.adder->beams.size(); VF_LOG(c, "scan of " << scan.scan.points().size() << " points after " << d << "\n");
    pf.handle_sensor_data(scan); ++scans;
    VF_CHECK(r.sm->calls.size() - calls == size_t(N), "a scan is matched by " << r.sm->calls.size() - calls << " of " << N << " particles");
    // 1: which of the known particles is which one now
    std::vector<long> src(N, -1); bool same = true; std::set<const GridMap *> maps; std::vector<RobotPoseDelta> noise(N); bool ambiguous = false;
    auto pred = [&](const P &p) { double a = p.pose.theta - p.raw, sn = std::sin(a), cs = std::cos(a); return RobotPose{p.pose.x + cs * d.x - sn * d.y, p.pose.y + sn * d.x + cs * d.y, p.pose.theta + d.theta}; };
    auto fits = [&](long k, long j) { auto &call = r.sm->calls[calls + k]; auto q = pred(ps[j]); RobotPoseDelta e{call.init.x - q.x, call.init.y - q.y, call.init.theta - q.theta};
      if (call.dig != ps[j].dig) return false; noise[k] = e; bool none = near_pose(call.init, q); return ps[j].first ? none : none || n.fits(e); };
    for (long k = 0; k < N; ++k) {
      VF_CHECK(maps.insert(r.sm->calls[calls + k].map).second, "two particles match one map");
      if (fits(k, k)) { src[k] = k; for (long j = 0; j < N; ++j) if (j != k && s) { auto keep = noise[k]; if (fits(k, j)) ambiguous = true; noise[k] = keep; } continue; }
      same = false;
    }
    if (!same || ambiguous) {
      // some other assignment; prefer the most precise one (the undisturbed or equally disturbed pose)
      for (long k = 0; k < N; ++k) { long found = 0; src[k] = -1; RobotPoseDelta best; for (long j = 0; j < N; ++j) if (fits(k, j)) { if (!found++) { src[k] = j; best = noise[k]; } } noise[k] = best; if (found > 1) ambiguous = true; VF_CHECK(found, "particle " << k << " is at " << r.sm->calls[calls + k].init << ", that's no continuation of any particle"); }
    }
    bool definitely_resampled = !same, may_be_unnoticed = false;
    // 2: was it right to resample, is what was reported the heaviest one
    if (s) {
      VF_CHECK(rep_w >= 1. / N - 1e-9 && rep_w <= 1 + 1e-9, "the weight of the reported particle is " << rep_w);
      bool any_pose = false; for (auto &p : ps) any_pose |= near_pose(rep, p.pose) && rep_dig == p.dig;
      VF_CHECK(any_pose, "reported pose " << rep << " and map belong to no particle");
      if (weights_known && !ambiguous) {
        std::vector<std::vector<double>> next;
        for (auto w : ws) {
          double sq = 0; for (double v : w) sq += v * v; bool low = 2 / sq < N * (1 - 1e-6), high = 2 / sq > N * (1 + 1e-6);
          bool far = !unnoticed && (mx * mx + my * my > 0.5 + 1e-9 || mt > 0.2 + 1e-9);
          if (definitely_resampled && high) continue;
          if (!definitely_resampled && low && far && N > 1) { // then it was drawn to itself: only when nobody lost his place
            bool possible = true; for (long k = 0; k < N; ++k) possible = possible && w[k] > 0; if (!possible) continue; may_be_unnoticed = true; }
          std::vector<double> kept(N), even(N, 1. / N); double t = 0; bool ok = true;
          for (long k = 0; k < N; ++k) { kept[k] = w[src[k]]; t += kept[k]; ok = ok && kept[k] > 0; }
          if (definitely_resampled && !ok) continue;
          for (auto &v : kept) v /= t;
          auto fits_rep = [&](const std::vector<double> &v) { double m = *std::max_element(v.begin(), v.end()); if (std::abs(m - rep_w) > 1e-9) return false;
            for (long k = 0; k < N; ++k) if (v[k] >= m * (1 - 1e-9) && near_pose(rep, ps[src[k]].pose) && rep_dig == ps[src[k]].dig) return true; return false; };
          if (fits_rep(kept)) next.push_back(kept);
          if (definitely_resampled && fits_rep(even)) next.push_back(even);
        }
        VF_CHECK(!next.empty(), "reported pose " << rep << " with weight " << rep_w << (definitely_resampled ? " after resampling" : "") << " is not that of a heaviest particle, or resampling was wrong");
        ws = next; if (ws.size() > 16) ws.resize(16);
      } else weights_known = false;
      if (definitely_resampled) VF_CHECK(mx * mx + my * my > 0.5 - 1e-9 || mt > 0.2 - 1e-9, "resampled after travelling only " << mx << "," << my << "," << mt << " since the last time");
      unnoticed |= may_be_unnoticed || ambiguous || !weights_known;
      if (definitely_resampled) { unnoticed = false; ++resampled; mx = my = mt = 0; may_master_be_new = true; }
    }
    // 3: the master
    if (s) {
      long undisturbed = 0, who = -1, unsure = 0;
      for (long k = 0; k < N; ++k) { if (ps[src[k]].first) { ++unsure; continue; } if (std::abs(noise[k].x) < 1e-9 && std::abs(noise[k].y) < 1e-9 && std::abs(noise[k].theta) < 1e-9) { ++undisturbed; who = k; } }
      if (ambiguous) master = -1; // it may have been resampled
      bool noisy = n.mxy || n.mth || n.sxy || n.sth;
      if (noisy && !ambiguous) { VF_CHECK(undisturbed <= 1, undisturbed << " of " << N << " particles are matched without a noise"); if (!unsure) VF_CHECK(undisturbed == 1, "there is no undisturbed particle");
        if (!definitely_resampled && master >= 0 && who >= 0 && !may_master_be_new) VF_CHECK(who == master, "another particle becomes the undisturbed one without resampling"); master = who; may_master_be_new = false; }
      if (n.sxy > 0 && !ambiguous) for (long k = 0; k < N; ++k) for (long j = 0; j < k; ++j) if (k != who && j != who && !ps[src[k]].first && !ps[src[j]].first) VF_CHECK(std::abs(noise[k].x - noise[j].x) > 1e-13, "two particles get the same noise");
    }
    // 4: what the particles did
    std::vector<P> now(N); size_t at = beams;
    std::map<const GridMap *, size_t> n_beams; for (size_t b = beams; b < r.adder->beams.size(); ++b) n_beams[r.adder->beams[b].first]++;
    std::vector<double> prob(N);
    for (long k = 0; k < N; ++k) {
      auto &call = r.sm->calls[calls + k]; now[k] = ps[src[k]]; now[k].raw += d.theta; now[k].pose = {call.init.x + call.corr.x, call.init.y + call.corr.y, call.init.theta + call.corr.theta};
      bool integrate = call.score > 0 || now[k].first; size_t exp = integrate ? scan.scan.points().size() : 0; prob[k] = call.score;
      VF_CHECK(n_beams[call.map] == exp, "particle " << k << " integrates " << n_beams[call.map] << " points, expected " << exp);
      for (size_t i = 0; i < exp; ++i, ++at) { auto &b = r.adder->beams[at]; auto &p = scan.scan.points()[i]; double x = now[k].pose.x + p.range() * std::cos(p.angle() + now[k].pose.theta), y = now[k].pose.y + p.range() * std::sin(p.angle() + now[k].pose.theta);
        VF_CHECK(b.first == call.map, "another map is extended"); VF_CHECK(std::abs(b.second.end().x - x) < 1e-9 && std::abs(b.second.end().y - y) < 1e-9, "a point is integrated at a wrong place"); }
      if (integrate) now[k].first = false;
    }
    // a map is seen again when it's matched next time or reported; replay the marks on a twin of the last known state
    for (long k = 0; k < N; ++k) now[k].dig = ps[src[k]].dig;
    // (maps of particles that were just dropped are gone, so that contents come from a shadow of each map)
    if (!s) shadow.assign(N, Shadow{});
    std::vector<Shadow> ns; long mark = r.adder->marks - long(r.adder->beams.size() - beams);
    for (long k = 0; k < N; ++k) ns.push_back(shadow[src[k]]);
    at = beams; for (long k = 0; k < N; ++k) for (size_t i = 0; i < n_beams[r.sm->calls[calls + k].map]; ++i, ++at) { auto &b = r.adder->beams[at].second; auto cell = r.pr.grid_map->world_to_cell(b.end()); ns[k][{cell.x, cell.y}] += AreaOccupancyObservation{true, {mark_value(++mark), 1}, b.end(), 1}; }
    shadow = ns; for (long k = 0; k < N; ++k) now[k].dig = digest(shadow[k]);
    ps = now; mx += std::abs(d.x); my += std::abs(d.y); mt += std::abs(d.theta);
    for (auto &w : ws) { double t = 0; for (long k = 0; k < N; ++k) { if (!std::isnan(prob[k])) w[k] *= prob[k]; t += w[k]; } for (auto &v : w) v = std::isnormal(t) ? v / t : 1. / N; }
    // 5: reports
    rep = pf.pose(); rep_dig = digest(pf.map()); auto *hw = dynamic_cast<const GmappingWorld *>(&pf.world()); VF_CHECK(hw, "the reported world is no particle"); rep_w = hw->weight();
    VF_CHECK(std::isfinite(rep_w), "weight " << rep_w);
    VF_CHECK(near_pose(hw->pose(), rep, 0) && &hw->map() == &pf.map(), "pose and map are of different particles");
    VF_CHECK(po->p.size() == size_t(s + 1) && near_pose(po->p.back(), rep, 0), "another pose is announced");
    VF_CHECK(mo->m.size() == size_t(s + 1) && mo->m.back() == &pf.map(), "another map is announced");
  }
  c.nontrivial(N >= 3 && scans >= 3 && resampled); if (resampled) c.label("resampled"); if (!weights_known) c.label("ambiguous");
}
VF_TEST(filter, "3 particles or more, 3 scans or more, resampled", 4000, 60000) { long N = c.len(1, 7); check_filter(c, N, c.len(1, 7)); }
VF_TEST(long_filter, "3 particles or more, 3 scans or more, resampled", 16, 200) { long N = c.len(1, 6); check_filter(c, N, c.i(100, 400)); }
VF_TEST(large_filter, "3 particles or more, 3 scans or more, resampled", 24, 300) { long N = c.i(20, 60); check_filter(c, N, c.i(2, 6)); }

// agreement of a hit with the map around it
VF_TEST(agreement, "10 hits in the map or more, asked again after changes", 12000, 200000) {
  double scale = c.pick({0.05, 0.1, 0.2, 1.}); double th = c.pick({0.1, 0., 0.3, 0.5, 0.9}); unsigned win = unsigned(c.i(0, 3));
  UnboundedLazyTiledGridMap m{std::make_shared<GmappingBaseCell>(), {int(c.i(1, 20)), int(c.i(1, 20)), scale}};
  GmappingOccupancyObservationPE pe{th, win}; VF_LOG(c, "scale " << scale << " threshold " << th << " window " << win << "\n");
  struct CellM { int tries = 0, hits = 0; long double occ = 0, x = 0, y = 0; }; std::map<std::pair<int, int>, CellM> ref;
  long hits = 0, asked = 0, rounds = c.len(1, 5);
  auto pt = [&] { return Point2D{scale * c.i(-60, 60) / 10. + scale * c.unit() / 10, scale * c.i(-60, 60) / 10. + scale * c.unit() / 10}; };
  std::vector<Point2D> qs;
  for (long k = 0; k < rounds; ++k) {
    for (long i = c.len(0, 12); i > 0; --i) {
      auto p = pt(); auto cell = m.world_to_cell(p); double prob = c.pick({1., 0.9, 0.51, 0.5, 0.1, 0.}); bool valid = !c.flag(1, 8);
      m.update(cell, {prob > 0.5, valid ? Occupancy{prob, 1} : Occupancy::invalid(), p, 1}); if (!valid) continue;
      auto &r = ref[{cell.x, cell.y}]; ++r.tries; if (prob > 0.5) { ++r.hits; ++hits; r.occ += prob; r.x += p.x; r.y += p.y; }
      VF_LOG(c, "saw " << prob << " at " << p.x << "," << p.y << "\n");
    }
    for (long i = c.len(0, 6); i > 0; --i) {
      Point2D q = !qs.empty() && c.flag(1, 3) ? qs[c.draw(qs.size() - 1)] : pt(); qs.push_back(q); auto at = m.world_to_cell(q);
      double best = 0; bool unsure = false;
      for (int x = -int(win); x <= int(win); ++x) for (int y = -int(win); y <= int(win); ++y) {
        auto it = ref.find({at.x + x, at.y + y}); if (it == ref.end()) continue; auto &r = it->second; double o = double(r.occ / r.tries);
        if (std::abs(o - th) < 1e-9) { unsure = o != th || r.hits; }
        if (unsure || o < th || !r.hits) continue;
        double dx = double(r.x / r.hits) - q.x, dy = double(r.y / r.hits) - q.y; best = std::max(best, std::exp(-(dx * dx + dy * dy) / 0.05));
      }
      if (unsure) continue;
      double got = pe.probability({true, {1, 1}, q, 1}, LightWeightRectangle{}, m); ++asked;
      VF_LOG(c, "asked at " << q.x << "," << q.y << ": " << got << "\n");
      VF_CHECK(std::abs(got - best) < 1e-9, "a hit at " << q.x << "," << q.y << " agrees by " << got << ", expected " << best);
    }
  }
  c.nontrivial(hits >= 10 && asked >= 3 && rounds >= 2);
}
