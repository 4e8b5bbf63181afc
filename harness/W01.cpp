// W01: one robot: pose, map and notifications.
#include "vf.h"
#include "robots.h"

using vf::Ctx;
struct Beam { bool occ; double q; Segment2D b; };
struct RecAdder : GridMapScanAdder { // also changes a cell, so that maps of different moments differ
  RecAdder(std::shared_ptr<ObservationMappingQualityEstimator> q) : GridMapScanAdder{std::make_shared<ConstOccupancyEstimator>(Occupancy{0.9, 1}, Occupancy{0.1, 1}), q} {}
  void handle_scan_point(GridMap &m, bool occ, double q, const Segment2D &b) const override {
    beams.push_back({occ, q, b}); where = &m;
    m.update(m.world_to_cell(b.end()), {occ, {0.9, 1}, b.end(), q});
  }
  mutable std::vector<Beam> beams; mutable GridMap *where = nullptr;
};
static vf::u64 digest(const GridMap &m) {
  vf::u64 h = 7; auto lo = m.internal2external({0, 0}); auto add = [&](double v) { vf::u64 u; std::memcpy(&u, &v, 8); h = (h ^ u) * 1099511628211ULL + (h >> 29); };
  for (int x = 0; x < m.width(); ++x) for (int y = 0; y < m.height(); ++y) { Coord k{lo.x + x, lo.y + y}; const auto &cell = m[k]; if (cell.is_unknown()) continue; // wherever the extent ends
    add(k.x); add(k.y); add(cell.occupancy().prob_occ); add(cell.occupancy().estimation_quality); }
  return h;
}
struct ScriptSM : GridScanMatcher { // answers what it is told to
  ScriptSM() : GridScanMatcher{nullptr} {}
  struct Call { RobotPose init; const GridMap *map; vf::u64 dig; size_t points; RobotPoseDelta odo; };
  double process_scan(const TransformedLaserScan &s, const RobotPose &p, const GridMap &m, RobotPoseDelta &d) override {
    calls.push_back({p, &m, digest(m), s.scan.points().size(), s.pose_delta}); log->push_back("match");
    do_for_each_observer([&](ObsPtr o) { o->on_matching_start(p, s, m); });
    if (answer) d = *answer; // an idle matcher may leave the correction as it is
    return score;
  }
  void reset_state() override { ++resets; log->push_back("reset"); }
  std::vector<Call> calls; int resets = 0; std::unique_ptr<RobotPoseDelta> answer; double score = 0; std::vector<std::string> *log;
};
struct Note { int who; bool pose; RobotPose p; const GridMap *m; vf::u64 dig; size_t beams; };
struct Obs : WorldPoseObserver, WorldMapObserver<GridMap> {
  Obs(int i, std::vector<Note> &n, RecAdder *a) : id{i}, notes(n), adder{a} {}
  void on_pose_update(const RobotPose &p) override { notes.push_back({id, true, p, nullptr, 0, adder ? adder->beams.size() : 0}); }
  void on_map_update(const GridMap &m) override { notes.push_back({id, false, {}, &m, digest(m), adder ? adder->beams.size() : 0}); }
  virtual ~Obs() = default;
  int id; std::vector<Note> &notes; RecAdder *adder;
};

static void walk(Ctx &c, long scans) {
  GridMapParams gp{int(c.i(1, 20)), int(c.i(1, 20)), 1}; std::shared_ptr<GridMap> map;
  if (c.flag()) map = std::make_shared<UnboundedPlainGridMap>(make_cell(CK_Mean), gp); else map = std::make_shared<UnboundedLazyTiledGridMap>(make_cell(CK_Affine), gp);
  bool ahr = c.flag(1, 3); std::shared_ptr<ObservationMappingQualityEstimator> omqe; if (ahr) omqe = std::make_shared<AngleHistogramResiprocalOMQE>(); else omqe = std::make_shared<IdleOMQE>();
  auto adder = std::make_shared<RecAdder>(omqe); auto sm = std::make_shared<ScriptSM>(); std::vector<std::string> order; sm->log = &order;
  SingleStateHypothesisLSGWProperties pr; pr.localized_scan_quality = c.i(0, 10) / 10.; pr.raw_scan_quality = c.i(0, 10) / 10.; pr.scan_margin = c.i(0, 3);
  pr.grid_map = map; pr.gsm = sm; pr.gmsa = adder;
  VF_LOG(c, "qualities " << pr.localized_scan_quality << " " << pr.raw_scan_quality << " margin " << pr.scan_margin << "\n");
  SingleStateHypothesisLaserScanGridWorld w{pr};
  RobotPose exp; VF_CHECK(near_pose(w.pose(), exp, 0), "starts at " << w.pose());
  std::vector<Note> notes; std::vector<std::shared_ptr<Obs>> pobs, mobs; std::vector<std::shared_ptr<RecObs>> sobs; int ids = 0; vf::u64 dig = digest(*map);
  long corrected = 0, raw = 0, gone = 0;
  for (long n = scans; n > 0; --n) {
    if (c.flag(1, 4)) { RobotPoseDelta d{c.i(-64, 64) / 32., c.i(-64, 64) / 32., c.i(-64, 64) / 32.}; w.update_robot_pose(d); exp = {exp.x + d.x, exp.y + d.y, exp.theta + d.theta}; VF_LOG(c, "moved by " << d << "\n"); }
    for (long k = mobs.size() < 10 ? c.i(0, 3) : 0; k > 0; --k) switch (c.i(0, 5)) {
      case 0: case 1: pobs.push_back(std::make_shared<Obs>(ids++, notes, adder.get())); w.subscribe_pose(pobs.back()); VF_LOG(c, "pose subscriber\n"); break;
      case 2: case 3: mobs.push_back(std::make_shared<Obs>(ids++, notes, adder.get())); w.subscribe_map(mobs.back()); VF_LOG(c, "map subscriber\n"); break;
      case 4: { auto &v = c.flag() ? pobs : mobs; if (!v.empty()) { v.erase(v.begin() + c.draw(v.size() - 1)); ++gone; VF_LOG(c, "a subscriber is gone\n"); } break; }
      default: if (!sobs.empty() && c.flag()) { w.remove_sm_observer(sobs.back()); sobs.pop_back(); } else { sobs.push_back(std::make_shared<RecObs>()); w.add_sm_observer(sobs.back()); }
    }
    TransformedLaserScan s; s.quality = 77; s.pose_delta = {c.i(-64, 64) / 32., c.i(-64, 64) / 32., c.i(-64, 64) / 32.};
    long pts = c.len(0, 8); for (long i = 0; i < pts; ++i) s.scan.points().push_back(ScanPoint2D::make_polar(c.i(1, 80) / 10., c.i(-180, 179) * M_PI / 180, c.flag(4, 5)));
    RobotPoseDelta corr{0, 0, 0}; bool says = c.flag(4, 5);
    if (says && c.flag(3, 4)) { int which = c.i(1, 7); if (which & 1) corr.x = c.i(-32, 32) / 64.; if (which & 2) corr.y = c.i(-32, 32) / 64.; if (which & 4) corr.theta = c.i(-32, 32) / 64.; }
    if (says) sm->answer = std::make_unique<RobotPoseDelta>(corr); else sm->answer.reset();
    sm->score = c.pick({1., 0., 0.5, std::nan("")});
    VF_LOG(c, "scan of " << pts << " after " << s.pose_delta << " corrected by " << corr << " score " << sm->score << "\n");
    auto before = s.scan.points(); auto odo = s.pose_delta;
    adder->beams.clear(); notes.clear(); order.clear(); size_t calls = sm->calls.size(); for (auto &o : sobs) o->ev.clear();
    w.handle_sensor_data(s);
    // prediction and matching
    RobotPose pred{exp.x + odo.x, exp.y + odo.y, exp.theta + odo.theta};
    VF_CHECK(sm->calls.size() == calls + 1 && order.back() == "match", "the scan is matched " << sm->calls.size() - calls << " times");
    VF_CHECK(order.size() >= 2 && order[0] == "reset", "the matcher is not reset before the scan");
    auto &call = sm->calls.back();
    VF_CHECK(near_pose(call.init, pred), "matching starts at " << call.init << ", the odometry gives " << pred);
    VF_CHECK(call.map == &w.map() && &w.map() == map.get(), "another map is matched");
    VF_CHECK(call.dig == dig, "the map is changed before the scan is matched");
    VF_CHECK(call.points == size_t(pts), "another scan is matched");
    for (auto &o : sobs) VF_CHECK(o->ev.size() == 1, "a subscriber of the matcher gets " << o->ev.size() << " events");
    // correction
    exp = {pred.x + corr.x, pred.y + corr.y, pred.theta + corr.theta};
    VF_CHECK(near_pose(w.pose(), exp), "pose " << w.pose() << ", expected " << exp);
    bool moved = corr.x || corr.y || corr.theta; (moved ? corrected : raw)++;
    double q = moved ? pr.localized_scan_quality : pr.raw_scan_quality;
    VF_CHECK(s.quality == q, "quality of the scan " << s.quality << ", expected " << q);
    // integration
    AngleHistogram h; LaserScan2D raw_scan; raw_scan.points() = before; h.reset(raw_scan);
    size_t m = pr.scan_margin, at = 0;
    for (size_t i = m; i + m < before.size(); ++i, ++at) {
      VF_CHECK(at < adder->beams.size(), "only " << at << " points are integrated");
      auto &b = adder->beams[at]; double x = exp.x + before[i].range() * std::cos(before[i].angle() + exp.theta), y = exp.y + before[i].range() * std::sin(before[i].angle() + exp.theta);
      VF_CHECK(b.occ == before[i].is_occupied(), "point " << i << " changes its meaning");
      VF_CHECK(std::abs(b.q - q * (ahr ? 1. / h.value(before, i) : 1)) < 1e-12, "quality of point " << i << " is " << b.q << " of " << q);
      VF_CHECK(std::abs(b.b.beg().x - exp.x) < 1e-9 && std::abs(b.b.beg().y - exp.y) < 1e-9 && std::abs(b.b.end().x - x) < 1e-9 && std::abs(b.b.end().y - y) < 1e-9,
               "point " << i << " is integrated as a beam from (" << b.b.beg().x << "," << b.b.beg().y << ") to (" << b.b.end().x << "," << b.b.end().y << ") at pose " << exp);
      VF_CHECK(adder->where == map.get(), "another map is extended");
    }
    VF_CHECK(at == adder->beams.size(), adder->beams.size() << " points are integrated, expected " << at);
    VF_CHECK(s.scan.points().size() == before.size(), "the scan is changed");
    for (size_t i = 0; i < before.size(); ++i) VF_CHECK(s.scan.points()[i].range() == before[i].range() && s.scan.points()[i].angle() == before[i].angle(), "point " << i << " of the scan is changed");
    // notifications
    dig = digest(*map); std::vector<Note> pn, mn; for (auto &x : notes) (x.pose ? pn : mn).push_back(x);
    VF_CHECK(pn.size() == pobs.size() && mn.size() == mobs.size(), pn.size() << " poses and " << mn.size() << " maps are announced to " << pobs.size() << " and " << mobs.size() << " subscribers");
    for (size_t i = 0; i < pn.size(); ++i) VF_CHECK(pn[i].who == pobs[i]->id && near_pose(pn[i].p, exp) && pn[i].beams == at, "pose notification " << i << " to " << pn[i].who << " is " << pn[i].p << " after " << pn[i].beams << " points");
    for (size_t i = 0; i < mn.size(); ++i) VF_CHECK(mn[i].who == mobs[i]->id && mn[i].m == map.get() && mn[i].dig == dig, "map notification " << i << " to " << mn[i].who << " is of another map or too early");
  }
  c.nontrivial(corrected + raw >= 3 && corrected && raw && gone);
}
VF_TEST(steps, "three scans or more, corrected and uncorrected ones, subscribers that come and go", 12000, 200000) { walk(c, c.len(1, 8)); }
VF_TEST(long_walks, "three scans or more, corrected and uncorrected ones, subscribers that come and go", 48, 600) { walk(c, c.i(30, 200)); }

// whole robots: the pose is what was announced, twins do the same
VF_TEST(twins, "four scans or more, one of them corrected", 900, 15000) {
  double unit = c.pick({0.1, 0.2, 0.5}); auto room = gen_room(c, unit); auto sensor = gen_sensor(c, unit); double reach = std::max(room.hw, room.hh) + 12 * unit;
  Conf k = gen_conf(c, unit, reach); VF_LOG(c, k << "\n");
  auto a = k.build(), b = k.build(); auto ra = std::make_shared<RecObs>(), rb = std::make_shared<RecObs>(); a->add_sm_observer(ra); b->add_sm_observer(rb);
  std::vector<Note> na, nb; auto oa = std::make_shared<Obs>(0, na, nullptr), ob = std::make_shared<Obs>(0, nb, nullptr); a->subscribe_pose(oa); a->subscribe_map(oa); b->subscribe_pose(ob); b->subscribe_map(ob);
  RobotPose truth; long n = c.i(2, 6), corrected = 0; RobotPose sum;
  for (long i = 0; i < n; ++i) {
    RobotPoseDelta d{0, 0, 0}; if (i) d = {unit * c.i(-10, 10) / 10., unit * c.i(-10, 10) / 10., c.i(-10, 10) / 20.};
    truth = {truth.x + d.x, truth.y + d.y, truth.theta + d.theta};
    TransformedLaserScan s; s.scan = take_scan(room, sensor, truth); s.quality = 1; s.pose_delta = {d.x + unit * c.i(-3, 3) / 10., d.y + unit * c.i(-3, 3) / 10., d.theta + c.i(-3, 3) / 100.};
    sum = {sum.x + s.pose_delta.x, sum.y + s.pose_delta.y, sum.theta + s.pose_delta.theta};
    ra->ev.clear(); rb->ev.clear(); na.clear(); nb.clear(); auto s2 = s;
    { QuietOut q; a->handle_sensor_data(s); b->handle_sensor_data(s2); }
    if (!ra->ev.empty()) { VF_CHECK(ra->ev.back().kind == 3, "no end of matching"); auto &e = ra->ev.back().pose; sum = {sum.x + e.x, sum.y + e.y, sum.theta + e.theta}; corrected += e.x || e.y || e.theta;
      if (!k.drift) VF_CHECK(near_pose(sum, a->pose(), 1e-9), "pose " << a->pose() << " is not the sum of moves and corrections " << sum); }
    else if (k.sm == "idle" && !k.drift) VF_CHECK(near_pose(sum, a->pose(), 1e-9), "pose " << a->pose() << " without corrections, moves give " << sum);
    VF_LOG(c, "at " << truth << " estimated " << a->pose() << "\n");
    VF_CHECK(near_pose(a->pose(), b->pose(), 0), "twins are at " << a->pose() << " and " << b->pose());
    VF_CHECK(ra->ev.size() == rb->ev.size(), "twins match differently");
    for (size_t j = 0; j < ra->ev.size(); ++j) VF_CHECK(same_ev(ra->ev[j], rb->ev[j]), "twins match differently, event " << j);
    VF_CHECK(na.size() == 2 && nb.size() == 2 && na[0].pose != na[1].pose, "notifications " << na.size());
    auto &np = na[0].pose ? na[0] : na[1], &nm = na[0].pose ? na[1] : na[0];
    VF_CHECK(near_pose(np.p, a->pose(), 0), "pose " << np.p << " is announced at " << a->pose());
    auto da = digest(a->map()), db = digest(b->map());
    VF_CHECK(nm.m == &a->map() && nm.dig == da, "another map is announced");
    VF_CHECK(da == db && a->map().width() == b->map().width() && a->map().height() == b->map().height(), "maps of twins differ");
  }
  c.nontrivial(n >= 4 && corrected); c.label(k.sm.c_str()); c.label(k.map.c_str()); c.label(k.area.c_str());
}
