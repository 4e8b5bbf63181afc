// R02: recorded data, launch parameters and the small nodes (ROS itself is replaced by harness/stubs).
#include "vf.h"
#include "stubs/ros_stub.h"
#include "robots.h"
#define main bag_runner_main
#include "ros/lslam2D_bag_runner.cpp"
#undef main
#define main pr2_main
#include "ros/wg_pr2_bag_adapter.cpp"
#undef main
#define main path_main
#include "ros/path_publisher.cpp"
#undef main
using vf::Ctx;
using Msg = sensor_msgs::LaserScan;
static double turn(double a) { return std::remainder(a, 2 * M_PI); }
static bool same(const RobotPose &a, const RobotPose &b, double e = 1e-7) { return std::abs(a.x - b.x) < e && std::abs(a.y - b.y) < e && std::abs(turn(a.theta - b.theta)) < e; }
static RobotPose flat(const tf::Transform &t) { return {t.getOrigin().x(), t.getOrigin().y(), tf::getYaw(t.getRotation())}; }
static RobotPose then(const RobotPose &a, const RobotPose &b) { return {a.x + b.x * std::cos(a.theta) - b.y * std::sin(a.theta), a.y + b.x * std::sin(a.theta) + b.y * std::cos(a.theta), a.theta + b.theta}; }
static RobotPose between(const RobotPose &a, const RobotPose &b, double r) { return {a.x + (b.x - a.x) * r, a.y + (b.y - a.y) * r, a.theta + turn(b.theta - a.theta) * r}; }
static geometry_msgs::TransformStamped link(const std::string &from, const std::string &to, ros::Time t, const RobotPose &p) { geometry_msgs::TransformStamped m; m.header.frame_id = from; m.child_frame_id = to; m.header.stamp = t; auto q = tf::createQuaternionFromRPY(0, 0, p.theta); m.transform.translation.x = p.x; m.transform.translation.y = p.y; m.transform.rotation.x = q.x(); m.transform.rotation.y = q.y(); m.transform.rotation.z = q.z(); m.transform.rotation.w = q.w(); return m; }
static ros::Time ms(long t) { return ros::Time{}.fromNSec(uint64_t(t) * 1000000); }

// ---------------------------------------------------------------- bags
struct Link { std::string from, to; std::map<long, RobotPose> at; // (a transform as a function of time)
  bool get(long t, RobotPose &p) const { if (at.empty() || t < at.begin()->first || t > at.rbegin()->first) return false; auto hi = at.lower_bound(t); if (hi->first == t) { p = hi->second; return true; } auto lo = std::prev(hi); p = between(lo->second, hi->second, double(t - lo->first) / (hi->first - lo->first)); return true; } };
struct Tape { std::vector<Link> links; std::vector<std::pair<long, RobotPose>> scans; long n_scans = 0; std::vector<long> stamps; bool early = false, late = false, odd = false; };
VF_TEST(bags, "scans that are handed over, one that waits and one before or after all transforms", 15000, 400000) {
  reset_ros(); Tape t; long depth = c.i(1, 3); bool slash = c.flag(); auto f = [&](const std::string &s) { return (slash ? "/" : "") + s; }; std::vector<std::string> names{"odom", "base", "laser"}; if (depth == 1) names = {"odom", "laser"}; if (depth == 3) names = {"odom", "base", "neck", "laser"};
  for (size_t i = 0; i + 1 < names.size(); ++i) t.links.push_back({f(names[i]), f(names[i + 1]), {}}); bool wrong = c.flag(1, 3); std::unordered_map<std::string, std::vector<std::string>> ignores; if (wrong) { ignores["/map"] = {"/odom"}; if (c.flag()) ignores["/other"] = {"/laser", "/odom"}; if (c.flag() && slash) ignores["/odom"] = {"/nothing"}; }
  long now = 10000, n = c.i(1, 40), lag = c.i(0, 300); std::vector<long> next(t.links.size(), 0); std::vector<RobotPose> pose(t.links.size()); std::vector<long> last_tf(t.links.size(), -1); long last_scan = -1; ros::Time::init(); rosbag::bags()["b"]; bool waits = false; long lead = c.flag(1, 4) ? c.flag(1, 4) ? c.i(6, 120) : c.i(1, 5) : 0; n += lead;
  long pause = c.flag(1, 12) ? c.i(0, n) : -1; // for longer than transforms are kept
  for (long i = 0; i < n; ++i) { now += c.i(1, 200); long what = c.i(0, 9); if (i < lead) what = 0;
    if (i == pause) for (int k = 0; k < 150; ++k) { now += 10000; tf::tfMessage m; for (size_t l = 0; l < t.links.size(); ++l) { last_tf[l] = now; auto p = RobotPose{double(k), 0, 0}; t.links[l].at[now] = p; m.transforms.push_back(link(t.links[l].from, t.links[l].to, ms(now), p)); } rosbag::put("b", "/tf", m); }
    if (what < 4) { long at = now - c.i(0, lag); if (at <= last_scan) at = last_scan + 1; last_scan = at; Msg m; m.header.stamp = ms(at); m.header.frame_id = f("laser"); m.header.seq = t.stamps.size(); m.ranges = {float(t.stamps.size())}; rosbag::put("b", "/scan", m); t.stamps.push_back(at); VF_LOG(c, now << ": scan of " << at << "\n"); }
    else if (what < 8) { tf::tfMessage m; for (size_t l = 0; l < t.links.size(); ++l) { if (c.flag(1, 3)) continue; long at = now - c.i(0, lag / 3); if (at <= last_tf[l]) at = last_tf[l] + 1; last_tf[l] = at; auto p = gen_pose(c); p.theta = turn(p.theta); if (l) { p.x /= 10; } t.links[l].at[at] = p; m.transforms.push_back(link(t.links[l].from, t.links[l].to, ms(at), p)); VF_LOG(c, now << ": " << t.links[l].from << " to " << t.links[l].to << " of " << at << " " << p << "\n"); }
      if (c.flag(1, 4)) m.transforms.push_back(link(f("cam"), f("lens"), ms(now), gen_pose(c))); if (wrong && c.flag()) m.transforms.push_back(link("/map", "/odom", ms(now), gen_pose(c))); if (wrong && ignores.count("/other") && c.flag()) m.transforms.insert(m.transforms.begin(), link("/other", c.flag() ? "/laser" : "/odom", ms(now), gen_pose(c))); rosbag::put("b", "/tf", m); }
    else if (what == 8) { Msg m; m.header.stamp = ms(now); m.header.frame_id = f("laser"); m.ranges = {-7}; rosbag::put("b", "/tilt_scan", m); }
    else { tf::tfMessage m; m.transforms.push_back(link(f("odom"), f("laser"), ms(now), RobotPose{99, 99, 0})); rosbag::put("b", "/tf_old", m); } }
  struct W { long id; RobotPose p; }; std::vector<W> want; for (size_t i = 0; i < t.stamps.size(); ++i) { RobotPose p; bool ok = true, past = false; for (auto &l : t.links) { RobotPose q; past |= l.at.empty() ? false : t.stamps[i] < l.at.begin()->first; if (!l.get(t.stamps[i], q)) ok = false; else p = then(p, q); } if (ok) want.push_back({long(i), p}); else { (past ? t.early : t.late) = true; } }
  QuietOut q; BagTopicWithTransform<Msg> b{"b", "/scan", "/tf", c.flag() ? "odom" : f("odom")}; b.set_tf_ignores(ignores); size_t got = 0;
  while (b.extract_next_msg()) { long id = b.msg()->ranges[0]; VF_CHECK(got < want.size(), "scan " << id << " (of " << t.stamps.size() << ") is handed over although its place is not known"); VF_CHECK(id == want[got].id, "scan " << id << " is handed over instead of scan " << want[got].id); VF_CHECK(b.timestamp() == ms(t.stamps[id]), "its time is " << b.timestamp()); VF_CHECK(same(flat(b.transform()), want[got].p, 1e-5 * (1 + std::abs(want[got].p.x) + std::abs(want[got].p.y))), "scan " << id << " was taken at " << want[got].p << ", it is handed over with " << flat(b.transform())); ++got; VF_CHECK(got <= t.stamps.size(), "it does not end"); }
  VF_CHECK(got == want.size(), "scan " << want[got].id << " of " << t.stamps.size() << " is never handed over, " << got << " of " << want.size() << " are"); (void)waits; c.nontrivial(got > 1 && lag && (t.early || t.late)); if (wrong) c.label("ignored transforms"); if (lead) c.label("scans first"); if (pause >= 0) c.label("long");
}

// ---------------------------------------------------------------- the program that replays them
VF_TEST(arguments, "four options or more", 8000, 150000) {
  reset_ros(); { std::ofstream a{"a.properties"}, b{"b.properties"}; a << "x=1\n"; b << "y=2\n"; } std::vector<std::string> a; std::string slam = c.flag() ? "viny" : "gmapping", bag = c.flag() ? "some.bag" : "x/y.bag", map; std::set<std::string> given; long pos = c.flag(1, 4) ? c.i(0, 4) : 2, put = 0, opts = 0; bool verbose = false, traj = false, px = false, py = false;
  for (long n = c.i(0, 6); n > 0 || put < pos;) { if (n == 0 || c.flag(1, 3)) { if (put < pos) { a.push_back(put == 0 ? slam : put == 1 ? bag : "more"); ++put; continue; } } if (!n) break; --n; ++opts;
    switch (c.i(0, 5)) { case 0: a.push_back("-v"); verbose = true; break; case 1: a.push_back("-t"); a.push_back("traj.txt"); traj = true; break; case 2: map = "m" + std::to_string(n) + ".pgm"; a.push_back("-m"); a.push_back(map); break; case 3: { bool x = c.flag(); a.push_back("-p"); a.push_back(x ? "a.properties" : "b.properties"); (x ? px : py) = true; break; } default: a.push_back(c.flag() ? "-z" : "--zoom"); a.push_back("5"); } }
  for (auto &s : a) VF_LOG(c, s << " "); std::vector<char *> argv; char prog[] = "runner"; argv.push_back(prog); for (auto &s : a) argv.push_back(&s[0]); argv.push_back(nullptr); QuietOut q; std::ostringstream err; auto *old = std::cerr.rdbuf(err.rdbuf()); auto g = ProgramArgs{}.init(argv.data()); std::cerr.rdbuf(old);
  VF_CHECK(g.is_valid == (pos == 2), pos << " of two names given, the arguments are taken to be " << (g.is_valid ? "complete" : "wrong")); if (pos >= 1) VF_CHECK(g.slam_type == slam, "the SLAM is " << g.slam_type); if (pos >= 2) VF_CHECK(g.bag_fname == bag, "the bag is " << g.bag_fname); VF_CHECK(g.is_verbose == verbose && g.map_fname == map && bool(g.traj_dumper) == traj, "verbose " << g.is_verbose << ", map '" << g.map_fname << "', trajectory " << bool(g.traj_dumper));
  VF_CHECK(g.props.get_int("x", 0) == (px ? 1 : 0) && g.props.get_int("y", 0) == (py ? 2 : 0), "the properties are x=" << g.props.get_int("x", 0) << " y=" << g.props.get_int("y", 0)); c.nontrivial(opts >= 4 && pos == 2);
}
static std::string slurp(const std::string &f) { std::ifstream i{f, std::ios::binary}; return {std::istreambuf_iterator<char>{i}, {}}; }
VF_TEST(replays, "three scans or more of a matching robot, a map and a trajectory asked for", 500, 12000) {
  reset_ros(); double unit = c.pick({0.1, 0.5}); bool gm = c.flag(1, 4); Conf k; if (gm) k = gen_gmapping(c, unit); else do k = gen_conf(c, unit, 32 * unit); while (k.credibilist); bool skip = c.flag(1, 3), cached = c.flag(1, 3), t_out = c.flag(3, 4), m_out = c.flag(3, 4), named = c.flag(); std::string topic = c.flag() ? "/scan" : "/base_scan", odom = c.flag() ? "odometry" : "odom_combined", tf_topic = c.flag() ? "/tf" : "/transforms";
  k.set("in/lscan2D/ros/topic/enabled", "true"); k.set("in/odometry/ros/tf/enabled", "true"); if (skip) k.set("in/lscan2D/skip_exceeding_vals", "true"); if (cached) k.set("slam/performance/use_trig_cache", "true"); if (topic != "/base_scan" || named) k.set("in/lscan2D/ros/topic/name", topic); if (odom != "odom_combined" || named) k.set("in/odometry/ros/tf/odom_frame_id", odom); if (tf_topic != "/tf" || named) k.set("in/odometry/ros/tf/name", tf_topic);
  bool ign = c.flag(1, 3); if (ign) k.set("in/odometry/ros/tf/ignore", c.flag() ? "map-laser" : "a-b:map-laser:c-d"); VF_LOG(c, k << "\n"); { std::map<std::string, std::string> last; for (auto &t : k.text) { auto e = t.find('='); last[t.substr(0, e)] = t.substr(e + 1); } std::ofstream f{"conf"}; for (auto &p : last) f << p.first << "=" << p.second << "\n"; }
  auto room = gen_room(c, unit); auto sensor = gen_sensor(c, unit); long n = c.i(1, 6), now = 1000; RobotPose truth, o, prev; std::vector<std::pair<ros::Time, RobotPose>> want; std::shared_ptr<LaserScanGridWorld> ref; std::vector<TransformedLaserScan> scans; rosbag::bags()["log.bag"];
  { QuietOut q; vf::random_device_state() = 99; ref = build_any(k); LaserScanObserver conv{ref, skip, cached};
    for (long i = 0; i < n; ++i) { RobotPoseDelta d{unit * c.i(-8, 8) / 10., unit * c.i(-8, 8) / 10., c.i(-10, 10) / 20.}; if (std::abs(truth.x + d.x) > 4 * unit) d.x = -d.x; if (std::abs(truth.y + d.y) > 4 * unit) d.y = -d.y; truth += d; o = {o.x + d.x + unit * c.i(-2, 2) / 10., o.y + d.y, turn(o.theta + d.theta + c.i(-2, 2) / 100.)}; now += c.i(1, 300);
      auto m = boost::make_shared<Msg>(); m->angle_min = sensor.from; m->angle_increment = sensor.inc; m->range_max = sensor.range; auto seen_scan = take_scan(room, sensor, truth); for (auto &p : seen_scan.points()) m->ranges.push_back(p.range()); m->angle_max = double(m->angle_min) + double(m->angle_increment) * (m->ranges.size() - 1); m->header.frame_id = "laser"; m->header.stamp = ms(now); VF_LOG(c, "odometry " << o << "\n");
      tf::tfMessage t; t.transforms.push_back(link(odom, "laser", ms(now), o)); if (ign) t.transforms.push_back(link("/map", "/laser", ms(now), RobotPose{1, 2, 3})); if (c.flag()) { rosbag::put("log.bag", tf_topic, t); rosbag::put("log.bag", topic, *m); } else { rosbag::put("log.bag", topic, *m); rosbag::put("log.bag", tf_topic, t); } if (c.flag(1, 4)) { Msg x; rosbag::put("log.bag", "/another", x); }
      auto sc = conv.msg2scan(m); auto seen = flat(tf::StampedTransform{tf::Transform{tf::createQuaternionFromRPY(0, 0, o.theta), tf::Vector3{o.x, o.y, 0}}, ms(now), odom, "laser"}); sc.pose_delta = seen - prev; prev = seen; scans.push_back(sc); ref->handle_sensor_data(sc); want.push_back({ms(now), ref->pose()}); } }
  // a matcher may have to choose between poses that differ by rounding errors only: nothing is required then
  auto ambiguous = [&]() { QuietOut q; bool r = false; for (double e : {1e-15, -1e-15, 1e-13, -1e-13, 1e-11, -1e-11}) { vf::random_device_state() = 99; auto other = build_any(k); for (size_t i = 0; i < scans.size(); ++i) { auto sc = scans[i]; sc.pose_delta.x += e * (long(i) % 3 - 1); sc.pose_delta.y += e * (i % 2 ? 1 : -1); sc.pose_delta.theta += e * (i % 4 < 2 ? 1 : -1); other->handle_sensor_data(sc); r |= !same(other->pose(), want[i].second); } } return r; };
  try {
  std::vector<std::string> a{"runner"}; if (c.flag()) a.push_back("-v"); a.push_back(gm ? "gmapping" : c.flag() ? "viny" : "tiny"); if (t_out) { a.push_back("-t"); a.push_back("traj"); } a.push_back("log.bag"); if (m_out) { a.push_back("-m"); a.push_back("map.pgm"); } a.push_back("-p"); a.push_back("conf"); std::vector<char *> argv; for (auto &s : a) argv.push_back(&s[0]); argv.push_back(nullptr); unlink("traj"); unlink("map.pgm");
  { QuietOut q; vf::random_device_state() = 99; int rc = bag_runner_main(a.size(), argv.data()); VF_CHECK(rc == 0, "the exit code is " << rc); }
  if (t_out) { std::ifstream f{"traj"}; std::string line; size_t i = 0; for (; std::getline(f, line); ++i) { VF_CHECK(i < want.size(), "a pose too many"); std::istringstream is{line}; double t, x, y, z, qx, qy, qz, qw; is >> t >> x >> y >> z >> qx >> qy >> qz >> qw; auto &w = want[i]; VF_CHECK(is && std::abs(t - w.first.toSec()) < 1e-6 && same({x, y, tf::getYaw(tf::Quaternion{qx, qy, qz, qw})}, w.second, 1e-4 * (1 + std::abs(x) + std::abs(y))), "at " << w.first << " the robot believes to be at " << w.second << ", the trajectory says " << line); } VF_CHECK(i == want.size(), "the trajectory has " << i << " poses of " << want.size()); }
  if (m_out) { { std::ofstream w{"want.pgm", std::ios::binary}; GridMapToPgmDumber::dump_map(w, ref->map()); } VF_CHECK(slurp("map.pgm") == slurp("want.pgm"), "the picture is not the one of the map"); }
  if (!gm && k.map == "unbounded_plain" && k.sm != "BF_M3RSM" && !want.empty()) { LaserScan2D sc = take_scan(room, sensor, truth), back; dump_state("st", ref, sc); std::ifstream ps{"st.pose2D"}; RobotPose p; ps >> p.x >> p.y >> p.theta; VF_CHECK(ps && same(p, ref->pose(), 1e-4 * (1 + std::abs(p.x) + std::abs(p.y) + std::abs(p.theta))), "the state says the pose is " << p << ", it is " << ref->pose()); std::ifstream ss{"st.scan2D"}; ss >> back; VF_CHECK(back.points().size() == sc.points().size(), "the state has " << back.points().size() << " points of " << sc.points().size()); for (size_t i = 0; i < sc.points().size(); ++i) VF_CHECK(std::abs(back.points()[i].range() - sc.points()[i].range()) < 1e-4 * (1 + sc.points()[i].range()) && std::abs(back.points()[i].angle() - sc.points()[i].angle()) < 1e-4 && back.points()[i].is_occupied() == sc.points()[i].is_occupied(), "point " << i << " of the stored scan differs");
    auto text = slurp("st.map"); auto fresh = build_any(k); auto &m = fresh->map(); m.load_state(std::vector<char>{text.begin(), text.end()}); auto &r = ref->map(); VF_CHECK(m.width() == r.width() && m.height() == r.height() && m.scale() == r.scale(), "the stored map has another size"); auto lo = r.internal2external({0, 0}); for (int x = 0; x < r.width(); ++x) for (int y = 0; y < r.height(); ++y) { RegularSquaresGrid::Coord q{lo.x + x, lo.y + y}; VF_CHECK(double(m[q]) == double(r[q]), "the stored map has " << double(m[q]) << " at " << q << " instead of " << double(r[q])); } }
  c.label(k.sm.c_str()); c.nontrivial(want.size() >= 3 && k.sm != "idle" && t_out && m_out);
  } catch (vf::Failure &) { if (!ambiguous()) throw; c.label("ambiguous"); }
}

// ---------------------------------------------------------------- parameters
static const char *Vals[] = {"0", "1", "7", "-3", "12.75", "0.5", "-0.25", "true", "false", "word", "1e-3", "100", "True", "2 3"};
template <class F> static std::string outcome(F f) { std::ostringstream os; os << std::setprecision(17) << std::boolalpha; try { os << f(); } catch (const std::exception &e) { os << "refused"; } return os.str(); }
VF_TEST(parameters, "a parameter given as text, one as a number and one not at all", 20000, 400000) {
  reset_ros(); LaunchPropertiesProvider l; MapPropertiesProvider m; bool text = false, number = false, none = false;
  for (long n = c.i(1, 8); n > 0; --n) { std::string id = std::string(c.flag() ? "slam/" : "in/x/") + char('a' + c.i(0, 4)); std::string v = Vals[c.i(0, sizeof Vals / sizeof *Vals - 1)]; int di = c.i(-5, 5); double dd = c.i(-20, 20) / 8.; bool db = c.flag();
    switch (c.i(0, 5)) {
    case 0: case 1: VF_LOG(c, id << "='" << v << "'\n"); if (c.flag()) l.set_property(id, v); else ros::param::set("~" + id, v); m.set_property(id, v); text = true; break;
    case 2: { int i = c.i(-9, 9); VF_LOG(c, id << "=" << i << "\n"); ros::param::set("~" + id, i); m.set_property(id, std::to_string(i)); VF_CHECK(l.get_int(id, di) == i && l.get_dbl(id, dd) == i, "the parameter " << i << " is read as " << l.get_int(id, di) << " and " << l.get_dbl(id, dd)); if (i >= 0) VF_CHECK(l.get_uint(id, 3) == unsigned(i), "the parameter " << i << " is read as " << l.get_uint(id, 3)); number = true; ros::param::set("~" + id, std::to_string(i)); break; }
    case 3: { double d = c.i(-40, 40) / 16.; VF_LOG(c, id << "=" << d << "\n"); ros::param::set("~" + id, d); VF_CHECK(l.get_dbl(id, dd) == d, "the parameter " << d << " is read as " << l.get_dbl(id, dd)); number = true; m.set_property(id, str(d)); ros::param::set("~" + id, str(d)); break; }
    case 4: { bool b = c.flag(); VF_LOG(c, id << "=" << b << "\n"); ros::param::set("~" + id, b); VF_CHECK(l.get_bool(id, db) == b && l.get_bool(id, !db) == b, "the parameter " << b << " is read as " << l.get_bool(id, !b)); m.set_property(id, b ? "true" : "false"); ros::param::set("~" + id, b ? "true" : "false"); break; }
    default: break; }
    for (std::string q : {"slam/a", "slam/b", "slam/c", "slam/d", "slam/e", "in/x/a", "in/x/b"}) { if (!m.has_property(q)) none = true; bool neg = m.has_property(q) && m.get_str(q, "")[0] == '-';
      auto s1 = outcome([&] { return l.get_str(q, v); }), s2 = outcome([&] { return m.get_str(q, v); }); VF_CHECK(s1 == s2, q << " is '" << s1 << "' as text, a file would give '" << s2 << "'"); s1 = outcome([&] { return l.get_int(q, di); }), s2 = outcome([&] { return m.get_int(q, di); }); VF_CHECK(s1 == s2, q << " is " << s1 << " as an integer, a file would give " << s2); s1 = outcome([&] { return l.get_dbl(q, dd); }), s2 = outcome([&] { return m.get_dbl(q, dd); }); VF_CHECK(s1 == s2, q << " is " << s1 << " as a number, a file would give " << s2);
      s1 = outcome([&] { return l.get_bool(q, db); }), s2 = outcome([&] { return m.get_bool(q, db); }); VF_CHECK(s1 == s2, q << " is " << s1 << " as a flag, a file would give " << s2); if (!neg) { s1 = outcome([&] { return l.get_uint(q, unsigned(std::abs(di))); }), s2 = outcome([&] { return m.get_uint(q, unsigned(std::abs(di))); }); VF_CHECK(s1 == s2, q << " is " << s1 << " as a count, a file would give " << s2); } } }
  c.nontrivial(text && number && none);
}
VF_TEST(settings, "a setting given and one left out", 5000, 80000) {
  reset_ros(); bool some = false, none = false; auto S = [&](const char *k, const char *dflt, const char *other) { bool set = c.flag(); (set ? some : none) = true; if (set) ros::param::set(k, std::string(other)); return std::string(set ? other : dflt); }; LaunchPropertiesProvider l;
  auto topic = S("~in/lscan2D/ros/topic/name", "/base_scan", "/other"), odom = S("~in/odometry/ros/tf/odom_frame_id", "odom_combined", "o"), map = S("~ros/tf/map_frame_id", "map", "m"), robot = S("~ros/tf/robot_pose_frame_id", "robot_pose", "r"); auto B = [&](const char *k) { if (!c.flag()) { none = true; return false; } some = true; bool b = c.flag(); ros::param::set(k, b); return b; }; bool async = B("~ros/tf/async_correction"), skip = B("~in/lscan2D/skip_exceeding_vals"), cache = B("~slam/performance/use_trig_cache");
  auto D = [&](const char *k, double d) { if (!c.flag()) { none = true; return d; } some = true; double v = c.i(0, 80) / 8.; ros::param::set(k, v); return v; }; auto I = [&](const char *k) { if (!c.flag()) { none = true; return 1000; } some = true; int v = c.i(0, 3000); ros::param::set(k, v); return v; }; double buf = D("~ros/tf/buffer_duration", 5), rate = D("~ros/rviz/map_publishing_rate", 5); int fq = I("~ros/filter_queue_size"), sq = I("~ros/subscribers_queue_size");
  double gb = -1, gr = -1; int gf = -1, gs = -1; init_constants_for_ros(gb, gr, gf, gs); VF_CHECK(gb == buf && gr == rate && gf == fq && gs == sq, "buffer " << gb << " (" << buf << "), interval " << gr << " (" << rate << "), queues " << gf << " (" << fq << "), " << gs << " (" << sq << ")");
  VF_CHECK(laser_scan_2D_ros_topic_name(l) == topic && tf_odom_frame_id(l) == odom && tf_map_frame_id() == map && tf_robot_pose_frame_id() == robot, "topic " << laser_scan_2D_ros_topic_name(l) << " (" << topic << "), frames " << tf_odom_frame_id(l) << " (" << odom << "), " << tf_map_frame_id() << " (" << map << "), " << tf_robot_pose_frame_id() << " (" << robot << ")"); VF_CHECK(is_async_correction() == async && get_skip_exceeding_lsr(l) == skip && get_use_trig_cache(l) == cache, "flags " << is_async_correction() << get_skip_exceeding_lsr(l) << get_use_trig_cache(l) << " instead of " << async << skip << cache); c.nontrivial(some && none);
}
VF_TEST(ignored, "two pairs with the same parent, an entry that is none", 10000, 200000) {
  std::string text; std::map<std::string, std::vector<std::string>> want; bool bad = false, twice = false; long n = c.i(0, 6); for (long i = 0; i < n; ++i) { std::string a(1, char('a' + c.i(0, 2))), b = std::string("to_") + char('a' + c.i(0, 3)); if (i) text += ":"; if (c.flag(1, 5)) { text += c.flag() ? "broken" : ""; bad = true; continue; } text += a + "-" + b; want["/" + a].push_back("/" + b); twice |= want["/" + a].size() > 1; } if (n && c.flag(1, 5)) text += ":";
  VF_LOG(c, "'" << text << "'"); MapPropertiesProvider p; if (n || c.flag()) p.set_property("in/odometry/ros/tf/ignore", text); QuietOut q; auto got = tf_ignored_transforms(p); size_t pairs = 0; for (auto &g : got) { pairs += g.second.size(); auto w = want[g.first], v = g.second; std::sort(w.begin(), w.end()); std::sort(v.begin(), v.end()); VF_CHECK(v == w, v.size() << " transforms from " << g.first << " are ignored instead of " << w.size()); } size_t all = 0; for (auto &w : want) all += w.second.size(); VF_CHECK(pairs == all, pairs << " transforms are ignored instead of " << all); c.nontrivial(bad && twice);
}

// ---------------------------------------------------------------- small nodes
struct Done {};
VF_TEST(adapter, "two corrections in different messages, other transforms and a grid", 8000, 150000) {
  reset_ros(); gt2map_is_initialized = false; gt2map_transform = {}; provided_grid = {}; long n = c.i(1, 8); bool have = false, again = false, others = false, grid = false; geometry_msgs::TransformStamped first; nav_msgs::OccupancyGrid last; size_t rounds = 0;
  ros::bus().on_spin = [&]() { tf::sent().all.clear(); if (c.flag()) { auto g = boost::make_shared<nav_msgs::OccupancyGrid>(); g->header.frame_id = "map"; g->info.width = c.i(0, 4); g->info.height = c.i(0, 3); g->info.resolution = c.i(1, 9) / 10.; g->data.assign(g->info.width * g->info.height, c.i(-1, 100)); last = *g; grid = true; ros::bus().deliver<nav_msgs::OccupancyGrid>("provided_grid_orig", g); }
    if (c.flag(1, 4)) return; auto m = boost::make_shared<tf::tfMessage>(); for (long i = c.i(0, 4); i > 0; --i) { long w = c.i(0, 3); m->transforms.push_back(link(w == 0 || w == 2 ? "/map" : "/odom_combined", w == 0 || w == 1 ? "/odom_combined" : "/base", ms(c.i(0, 9000)), gen_pose(c))); } auto want = m->transforms;
    for (auto &t : want) if (t.header.frame_id == "/map" && t.child_frame_id == "/odom_combined") { if (!have) { first = t; have = true; first.header.frame_id = "/provided_map"; first.child_frame_id = "/map"; } else again = true; t = first; } else others = true;
    ros::bus().deliver<tf::tfMessage>("tf_in", m); auto &all = tf::sent().all; VF_CHECK(all.size() == want.size(), all.size() << " transforms are sent on of " << want.size()); for (size_t i = 0; i < all.size(); ++i) { tf::StampedTransform w; tf::transformStampedMsgToTF(want[i], w); VF_CHECK(all[i].frame_id_ == w.frame_id_ && all[i].child_frame_id_ == w.child_frame_id_ && all[i].stamp_ == w.stamp_ && same(flat(all[i]), flat(w)), "transform " << i << " from " << w.frame_id_ << " to " << w.child_frame_id_ << " " << flat(w) << " is sent as " << all[i].frame_id_ << " to " << all[i].child_frame_id_ << " " << flat(all[i])); } };
  ros::bus().on_sleep = [&]() { auto g = ros::bus().of<nav_msgs::OccupancyGrid>("provided_grid"); ++rounds; VF_CHECK(g.size() == rounds, g.size() << " grids in " << rounds << " rounds"); static nav_msgs::OccupancyGrid before; if (rounds == 1) before = {}; VF_CHECK(g.back()->data == before.data && g.back()->info.width == before.info.width && g.back()->info.resolution == before.info.resolution, "the grid that is published is not the one that came last"); if (!before.data.empty()) VF_CHECK(g.back()->header.frame_id == "provided_map", "its frame is " << g.back()->header.frame_id); before = last; if (--n == 0) throw Done{}; };
  char name[] = "adapter"; char *argv[] = {name, nullptr}; try { pr2_main(1, argv); } catch (Done &) {} c.nontrivial(have && again && others && grid);
}
VF_TEST(paths, "three poses or more, one that is not there at first", 8000, 150000) {
  reset_ros(); std::string map = "map", base = "base_link", topic = "path"; if (c.flag()) ros::param::set("base_link_frame_id", base = "body"); if (c.flag()) ros::param::set("path_topic_name", topic = "way"); if (c.flag()) ros::param::set("~ros/tf/map_frame_id", map = "world"); bool odom = c.flag(); long n = c.i(1, 8), at = 1000, late = c.flag() ? c.i(1, 3) : 0; std::vector<std::pair<ros::Time, RobotPose>> want; size_t rounds = 0;
  auto move = [&]() { at += c.i(1, 500); auto a = gen_pose(c), b = gen_pose(c); if (odom) { tf::StampedTransform t; tf::transformStampedMsgToTF(link(map, "odom", ms(at), a), t); tf::shared_buffer().setTransform(t); tf::transformStampedMsgToTF(link("odom", base, ms(at), b), t); tf::shared_buffer().setTransform(t); want.push_back({ms(at), then(a, b)}); } else { tf::StampedTransform t; tf::transformStampedMsgToTF(link(map, base, ms(at), b), t); tf::shared_buffer().setTransform(t); want.push_back({ms(at), b}); } };
  if (!late) move(); ros::bus().on_sleep = [&]() { if (late) { if (--late == 0) move(); return; } auto p = ros::bus().of<nav_msgs::Path>(topic); ++rounds; VF_CHECK(p.size() == rounds, p.size() << " paths in " << rounds << " rounds"); auto &g = *p.back(); VF_CHECK(g.header.frame_id == map, "the frame is " << g.header.frame_id); VF_CHECK(g.poses.size() == rounds && want.size() == rounds, "the path has " << g.poses.size() << " poses of " << rounds); for (size_t i = 0; i < rounds; ++i) { auto &w = want[i].second; double e = 1e-7 * (1 + std::abs(w.x) + std::abs(w.y)); VF_CHECK(std::abs(g.poses[i].pose.position.x - w.x) < e && std::abs(g.poses[i].pose.position.y - w.y) < e, "place " << i << " is " << w << ", the path says " << g.poses[i].pose.position.x << ", " << g.poses[i].pose.position.y); } if (--n == 0) ros::shutdown(); else move(); };
  char name[] = "path"; char *argv[] = {name, nullptr}; bool waited = late; { QuietOut q; int rc = path_main(1, argv); VF_CHECK(rc == 0, "the exit code is " << rc); } VF_CHECK(rounds == want.size(), rounds << " paths for " << want.size() << " places"); c.nontrivial(rounds >= 3 && waited);
}
