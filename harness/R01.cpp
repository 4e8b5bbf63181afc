// R01: messages in, messages out (ROS itself is replaced by harness/stubs).
#include "vf.h"
#include "stubs/ros_stub.h"
#include "map_model.h"
#include "cells.h"
#include "robots.h"
#include "ros/laser_scan_observer.h"
#include "ros/occupancy_grid_publisher.h"
#include "ros/pose_correction_tf_publisher.h"
#include "ros/robot_pose_observers.h"
#include "ros/init_utils.h"
#define main slam_node_main
#include "ros/single_hypoth_slam_node.cpp"
#undef main
#define main credibilist_node_main
#include "slams/credibilist/slam.cpp"
#undef main
#define main gmapping_node_main
#include "slams/gmapping/gmapping.cpp"
#undef main
using vf::Ctx;
using Msg = sensor_msgs::LaserScan;

// ---------------------------------------------------------------- scans in
static boost::shared_ptr<Msg> gen_msg(Ctx &c, bool real) {
  auto m = boost::make_shared<Msg>(); long n = c.i(1, real ? 60 : 40); double fov = c.i(1, 36) * M_PI / 18; m->angle_min = c.flag() ? -fov / 2 : c.i(-18, 18) * M_PI / 18; m->angle_increment = n > 1 ? fov / n : 0.01;
  m->angle_max = double(m->angle_min) + double(m->angle_increment) * (n - 1); m->range_min = c.i(0, 10) / 10.; m->range_max = m->range_min + c.i(1, 300) / 10.; m->header.frame_id = "laser"; m->header.stamp = ros::bus().now;
  for (long i = 0; i < n; ++i) { float r; switch (c.i(0, real ? 4 : 9)) {
    case 5: r = m->range_min; break; case 6: r = m->range_max; break; case 7: r = c.flag() ? std::numeric_limits<float>::infinity() : -std::numeric_limits<float>::infinity(); break; case 8: r = std::numeric_limits<float>::quiet_NaN(); break;
    case 9: r = c.flag() ? m->range_min - c.i(0, 20) / 10. : m->range_max + c.i(0, 50) / 10.; break; default: r = m->range_min + (m->range_max - m->range_min) * c.i(0, 100) / 101.; }
    m->ranges.push_back(r); }
  return m;
}
struct Point { double range, angle; bool hit; };
static std::vector<Point> wanted(const Msg &m, bool skip) { // (reading i is at angle_min + i * angle_increment)
  std::vector<Point> r; for (size_t i = 0; i < m.ranges.size(); ++i) { float v = m.ranges[i]; if (std::isnan(v) || v < m.range_min) continue; bool hit = v < m.range_max; if (!hit && skip) continue; r.push_back({hit ? v : m.range_max, double(m.angle_min) + i * double(m.angle_increment), hit}); } return r;
}
static void same_scan(const LaserScan2D &s, const std::vector<Point> &w, const char *what) {
  VF_CHECK(s.points().size() == w.size(), what << ": " << s.points().size() << " points instead of " << w.size());
  for (size_t i = 0; i < w.size(); ++i) { auto &p = s.points()[i]; VF_CHECK(std::abs(p.range() - w[i].range) <= 1e-6 && std::abs(p.angle() - w[i].angle) <= 1e-5 && p.is_occupied() == w[i].hit, what << ": point " << i << " is at " << p.range() << ", " << p.angle() << (p.is_occupied() ? "" : " (free)") << " instead of " << w[i].range << ", " << w[i].angle << (w[i].hit ? "" : " (free)")); }
}
static std::string str(const Msg &m) { std::ostringstream os; os << "angles " << m.angle_min << ".." << m.angle_max << " by " << m.angle_increment << ", ranges " << m.range_min << ".." << m.range_max << ":"; for (float r : m.ranges) os << " " << r; return os.str(); }
struct Sink : SensorDataObserver<TransformedLaserScan> { std::vector<TransformedLaserScan> got; void handle_sensor_data(TransformedLaserScan &s) override { got.push_back(s); } };

VF_TEST(scans, "a hit, a reading out of the range of the sensor and three points", 100000, 1500000) {
  bool skip = c.flag(), cached = c.flag(); auto m = gen_msg(c, false); VF_LOG(c, str(*m) << (skip ? " skip" : "") << (cached ? " cached" : "")); LaserScanObserver o{nullptr, skip, cached};
  auto t = o.msg2scan(m); auto w = wanted(*m, skip); same_scan(t.scan, w, "the scan"); VF_CHECK(t.quality == 1, "the quality is " << t.quality); VF_CHECK(t.scan.trig_provider, "no trigonometry");
  double base = c.angle(); t.scan.trig_provider->set_base_angle(base); for (auto &p : t.scan.points()) { double cs = t.scan.trig_provider->cos(p.angle()), sn = t.scan.trig_provider->sin(p.angle()), a = base + p.angle(); VF_CHECK(std::abs(cs - std::cos(a)) < 1e-4 && std::abs(sn - std::sin(a)) < 1e-4, "the direction of a point at " << p.angle() << " seen from " << base << " is " << cs << ", " << sn); }
  bool hit = false, odd = w.size() < m->ranges.size(); for (auto &p : w) { hit |= p.hit; odd |= !p.hit; } c.nontrivial(hit && odd && w.size() >= 3);
}
static tf::StampedTransform at(const RobotPose &p, double z = 0) { tf::StampedTransform t; t.q = tf::createQuaternionFromRPY(0, 0, p.theta); t.o = {p.x, p.y, z}; t.stamp_ = ros::bus().now; t.frame_id_ = "odom"; t.child_frame_id_ = "laser"; return t; }
static double turn(double a) { return std::remainder(a, 2 * M_PI); }
VF_TEST(odometry, "three scans or more, a turn past the back", 30000, 500000) {
  bool skip = c.flag(); auto sink = std::make_shared<Sink>(); LaserScanObserver o{sink, skip, c.flag()}; RobotPose prev{0, 0, 0}; if (c.flag(1, 3)) { prev = gen_pose(c); o.set_odometry_pose(prev); } long n = c.i(1, 8); bool back = false; RobotPose sum = prev;
  for (long i = 0; i < n; ++i) { auto p = c.flag(1, 6) ? prev : gen_pose(c); p.theta = turn(p.theta); auto m = gen_msg(c, false); VF_LOG(c, p << "\n"); o.handle_transformed_msg(m, at(p, c.i(0, 2))); VF_CHECK(sink->got.size() == size_t(i + 1), "the SLAM got " << sink->got.size() << " scans of " << i + 1);
    auto &g = sink->got.back(); same_scan(g.scan, wanted(*m, skip), "the scan"); auto d = g.pose_delta; VF_CHECK(std::abs(d.x - (p.x - prev.x)) < 1e-9 && std::abs(d.y - (p.y - prev.y)) < 1e-9 && std::abs(turn(d.theta - (p.theta - prev.theta))) < 1e-9, "odometry went from " << prev << " to " << p << ", the scan says " << d);
    sum += d; auto q = o.odometry_pose(); VF_CHECK(std::abs(q.x - p.x) < 1e-9 && std::abs(q.y - p.y) < 1e-9 && std::abs(turn(q.theta - p.theta)) < 1e-9, "the odometry pose is " << q << " instead of " << p); VF_CHECK(std::abs(sum.x - p.x) < 1e-6 && std::abs(sum.y - p.y) < 1e-6, "the changes add up to " << sum); back |= std::abs(p.theta - prev.theta) > M_PI; prev = p; }
  c.nontrivial(n >= 3 && back);
}

// ---------------------------------------------------------------- maps out
static std::shared_ptr<GridMap> gen_map(Ctx &c, int kind, int cell, double scale, int w, int h) { GridMapParams p{w, h, scale}; auto pr = make_cell(cell);
  switch (kind) { case 0: return std::make_shared<PlainGridMap>(pr, p); case 1: return std::make_shared<UnboundedPlainGridMap>(pr, p); case 2: return std::make_shared<LazyTiledGridMap>(pr, p); default: return std::make_shared<UnboundedLazyTiledGridMap>(pr, p); } }
static void same_grid(const nav_msgs::OccupancyGrid &g, const GridMap &m) {
  VF_CHECK(int(g.info.width) == m.width() && int(g.info.height) == m.height(), "a map of " << m.width() << "x" << m.height() << " is published as one of " << g.info.width << "x" << g.info.height); VF_CHECK(std::abs(g.info.resolution - m.scale()) < 1e-6 * m.scale(), "the resolution is " << g.info.resolution);
  VF_CHECK(g.data.size() == size_t(m.width()) * m.height(), g.data.size() << " values of " << m.width() << "x" << m.height() << " cells"); auto lo = m.internal2external({0, 0}); // the corner of the message is the corner of its first cell
  VF_CHECK(std::abs(g.info.origin.position.x - lo.x * m.scale()) < 1e-5 * (1 + std::abs(lo.x * m.scale())) && std::abs(g.info.origin.position.y - lo.y * m.scale()) < 1e-5 * (1 + std::abs(lo.y * m.scale())) && g.info.origin.position.z == 0, "the corner of the map is at " << lo.x * m.scale() << ", " << lo.y * m.scale() << ", it is published as " << g.info.origin.position.x << ", " << g.info.origin.position.y);
  for (int y = 0; y < m.height(); ++y) for (int x = 0; x < m.width(); ++x) { Coord k{lo.x + x, lo.y + y}; double v = m[k].occupancy().prob_occ; int d = g.data[size_t(y) * m.width() + x]; VF_CHECK(v == -1 ? d == -1 : std::abs(d - v * 100) < 1 + 1e-6 && d >= 0 && d <= 100, "the occupancy of " << k << " is " << v << ", it is published as " << d); } }
VF_TEST(maps, "known and unknown cells, two messages or more and an update without one", 3000, 80000) {
  reset_ros(); int kind = c.i(0, 3), cell = c.i(0, CK_N - 1); double scale = c.pick({0.05, 0.1, 0.5, 1.}); int w = c.i(1, 24), h = c.i(1, 24); auto m = gen_map(c, kind, cell, scale, w, h); VF_LOG(c, "map " << kind << " of " << cell_kind_name(cell) << " cells, " << w << "x" << h << " of " << scale);
  double every = c.i(0, 40) / 8.; std::shared_ptr<OccupancyGridPublisher<GridMap>> pub; ros::NodeHandle nh; pub = std::make_shared<OccupancyGridPublisher<GridMap>>(nh.advertise<nav_msgs::OccupancyGrid>("map", 5), "the_map", every); if (c.flag()) ros::bus().now = ros::Time{uint32_t(1500000000), 0}; else ros::bus().now = ros::Time(every + c.i(0, 20) / 8.);
  double last = -1; size_t sent = 0, missed = 0, known = 0; long n = c.i(1, 8);
  for (long i = 0; i < n; ++i) { for (long u = c.i(0, 6); u > 0; --u) { auto lo = m->internal2external({0, 0}); Coord k{lo.x + int(c.i(0, m->width() - 1)), lo.y + int(c.i(0, m->height() - 1))}; if (kind % 2 && c.flag(1, 8)) k = {int(c.i(-60, 60)), int(c.i(-60, 60))}; m->update(k, gen_aoo(c, cell != CK_Gmapping && false)); ++known; }
    pub->on_map_update(*m); double t = ros::bus().now.toSec(); auto got = ros::bus().of<nav_msgs::OccupancyGrid>("map"); bool due = last < 0 || t - last >= every; if (due) { ++sent; last = t; } else ++missed;
    VF_CHECK(got.size() == sent, "at " << t << " (the interval is " << every << ", the last one went out at " << last << ") " << got.size() << " maps are published instead of " << sent); if (due) { VF_CHECK(got.back()->header.frame_id == "the_map", "the frame is " << got.back()->header.frame_id); same_grid(*got.back(), *m); }
    ros::bus().now += ros::Duration(c.i(1, 32) / 8.); }
  c.label(cell_kind_name(cell)); c.nontrivial(known && sent >= 2 && missed);
}

// ---------------------------------------------------------------- poses out
static RobotPose flat(const tf::Transform &t) { return {t.getOrigin().x(), t.getOrigin().y(), tf::getYaw(t.getRotation())}; }
static bool same(const RobotPose &a, const RobotPose &b, double e = 1e-7) { return std::abs(a.x - b.x) < e && std::abs(a.y - b.y) < e && std::abs(turn(a.theta - b.theta)) < e; }
static bool upright(const tf::Transform &t) { auto q = t.getRotation(); return std::abs(q.x()) < 1e-6 && std::abs(q.y()) < 1e-6; }
static tf::StampedTransform tilted(Ctx &c, const RobotPose &p) { auto t = at(p, c.flag(1, 3) ? c.i(-10, 10) / 4. : 0); return t; }
VF_TEST(poses, "three poses or more between odometry messages", 30000, 400000) {
  reset_ros(); bool stamped = c.flag(); auto corr = std::make_shared<PoseCorrectionTfPublisher<Msg>>("a_map", "an_odom"); std::shared_ptr<RobotPoseTfPublisher> pub; std::shared_ptr<ObservationStampedRoboPoseTfPublisher<Msg>> obs; if (stamped) pub = obs = std::make_shared<ObservationStampedRoboPoseTfPublisher<Msg>>("a_map", "a_robot"); else pub = std::make_shared<RobotPoseTfPublisher>("a_map", "a_robot");
  RobotPose odom{0, 0, 0}; ros::Time seen; long n = c.i(1, 10), poses = 0; bool both = false;
  for (long i = 0; i < n; ++i) { ros::bus().now += ros::Duration(c.i(1, 100) / 64.); if (c.flag()) { odom = gen_pose(c); auto m = boost::make_shared<Msg>(); m->header.stamp = ros::bus().now - ros::Duration(c.i(0, 32) / 64.); seen = m->header.stamp; auto t = tilted(c, odom); corr->handle_transformed_msg(m, t); if (obs) obs->handle_transformed_msg(m, t); both |= poses > 0; VF_LOG(c, "odometry " << odom << "\n"); VF_CHECK(tf::sent().all.empty(), "a message is answered before there is a pose"); continue; }
    auto p = gen_pose(c); VF_LOG(c, "pose " << p << "\n"); ++poses; corr->on_pose_update(p); VF_CHECK(tf::sent().all.size() == 1, tf::sent().all.size() << " transforms for a pose"); auto t = tf::sent().all[0]; VF_CHECK(t.frame_id_ == "a_map" && t.child_frame_id_ == "an_odom" && t.stamp_ == ros::bus().now, "the correction goes from " << t.frame_id_ << " to " << t.child_frame_id_ << " at " << t.stamp_);
    auto whole = t * at(odom); VF_CHECK(same(flat(whole), p), "the robot is at " << p << ", odometry says " << odom << "; the correction " << flat(t) << " leads to " << flat(whole)); VF_CHECK(upright(whole) && upright(t), "the correction tilts the robot"); VF_CHECK(std::abs(whole.getOrigin().z()) < 1e-9, "the robot flies at " << whole.getOrigin().z());
    tf::sent().all.clear(); pub->on_pose_update(p); VF_CHECK(tf::sent().all.size() == 1, tf::sent().all.size() << " transforms for a pose"); t = tf::sent().all[0]; VF_CHECK(t.frame_id_ == "a_map" && t.child_frame_id_ == "a_robot", "the pose goes from " << t.frame_id_ << " to " << t.child_frame_id_); VF_CHECK(t.stamp_ == (stamped ? seen : ros::bus().now), "the pose is stamped with " << t.stamp_ << " at " << ros::bus().now << " after an observation at " << seen);
    VF_CHECK(upright(t) && t.getOrigin().z() == 0, "the published robot isn't on the floor"); VF_CHECK(same(flat(t), p), "the robot is at " << p << ", it is published at " << flat(t)); tf::sent().all.clear(); }
  c.nontrivial(poses >= 3 && both);
}
VF_TEST(async, "a pose after the first one", 40, 400) { // the correction is repeated until the publisher is gone
  reset_ros(); { PoseCorrectionTfPublisher<Msg> p{"a_map", "an_odom", true}; long n = c.i(1, 3);
    auto wait = [&]() { for (int i = 0; i < 20000; ++i) { { std::lock_guard<std::mutex> l{tf::sent().m}; if (tf::sent().all.size() >= 3) return; } std::this_thread::sleep_for(std::chrono::milliseconds(1)); } };
    for (long i = 0; i < n; ++i) { auto odom = gen_pose(c), pose = gen_pose(c); p.handle_transformed_msg(boost::make_shared<Msg>(), at(odom)); p.on_pose_update(pose); { std::lock_guard<std::mutex> l{tf::sent().m}; tf::sent().all.clear(); } wait();
      std::lock_guard<std::mutex> l{tf::sent().m}; VF_CHECK(tf::sent().all.size() >= 3, "the correction is not repeated"); for (size_t j = 1; j < tf::sent().all.size(); ++j) /* (the first one may have been on its way) */ { auto &t = tf::sent().all[j]; VF_CHECK(same(flat(t * at(odom)), pose), "the robot is at " << pose << ", the correction says " << flat(t * at(odom))); } }
    c.nontrivial(n > 1); if (c.flag()) ros::shutdown(); }
}
VF_TEST(hammered, "two thousand poses or more", 16, 300) { // what is repeated while poses change is one of them, not a mixture
  reset_ros(); long n = c.i(500, 6000); ros::bus().on_sleep = [] { std::this_thread::yield(); }; { PoseCorrectionTfPublisher<Msg> p{"a_map", "an_odom", true}; for (long i = 0; i < n; ++i) p.on_pose_update({double(i), 2. * i, 0}); }
  long prev = -1; bool all = true; for (auto &t : tf::sent().all) { auto f = flat(t); VF_CHECK(std::abs(f.y - 2 * f.x) < 1e-9 && std::abs(turn(f.theta)) < 1e-9, "the correction " << f << " belongs to no pose"); long k = std::lround(f.x); all &= k - prev <= 1; VF_CHECK(k >= prev, "the correction of pose " << k << " follows the one of " << prev); prev = k; } VF_CHECK(all && prev == n - 1, "not every pose is published"); c.nontrivial(n >= 2000);
}
VF_TEST(trajectory, "two poses, nanoseconds below a tenth of a second", 8000, 150000) {
  reset_ros(); std::vector<std::pair<ros::Time, RobotPose>> put; bool small = false; { RobotPoseTumTrajectoryDumper d{"traj", c.flag()}; for (long n = c.i(1, 6); n > 0; --n) { ros::Time t{uint32_t(c.i(0, 2000000000)), uint32_t(c.flag() ? c.i(0, 999999999) : c.i(0, 2000))}; auto p = gen_pose(c); if (c.flag()) { ros::bus().now = t; d.on_pose_update(p); } else d.log_robot_pose(t, p); put.push_back({t, p}); small |= t.nsec < 100000000; VF_LOG(c, t << " " << p << "\n"); } }
  std::ifstream f{"traj"}; std::string line; size_t i = 0; for (; std::getline(f, line); ++i) { VF_CHECK(i < put.size(), "a line too many"); std::istringstream is{line}; std::string stamp; double x, y, z, qx, qy, qz, qw; VF_CHECK(bool(is >> stamp >> x >> y >> z >> qx >> qy >> qz >> qw), "the line is " << line); auto &w = put[i]; std::ostringstream want; want << w.first;
    VF_CHECK(std::abs(std::stold(stamp) - std::stold(want.str())) < 1e-9L, "a pose of " << w.first << " is stamped with " << stamp); double yaw = tf::getYaw(tf::Quaternion{qx, qy, qz, qw}); VF_CHECK(std::abs(x - w.second.x) < 1e-4 * (1 + std::abs(x)) && std::abs(y - w.second.y) < 1e-4 * (1 + std::abs(y)) && z == 0 && std::abs(qx) < 1e-9 && std::abs(qy) < 1e-9 && std::abs(turn(yaw - w.second.theta)) < 1e-4, "the pose " << w.second << " is written as " << line); }
  VF_CHECK(i == put.size(), i << " lines of " << put.size()); c.nontrivial(put.size() > 1 && small);
}

// ---------------------------------------------------------------- the node
struct Done {};
static void put_param(Ctx &c, const std::string &k, const std::string &v) { char *e; long i = std::strtol(v.c_str(), &e, 10); if (!*e && !v.empty() && c.flag()) { ros::param::set("~" + k, int(i)); return; } double d = std::strtod(v.c_str(), &e); if (!*e && !v.empty() && c.flag()) { ros::param::set("~" + k, d); return; } if ((v == "true" || v == "false") && c.flag()) { ros::param::set("~" + k, v == "true"); return; } ros::param::set("~" + k, v); }
VF_TEST(node, "three scans or more of a matching robot that moves", 2500, 40000) {
  reset_ros(); double unit = c.pick({0.1, 0.5}); bool gm = c.flag(1, 5); Conf k; if (gm) k = gen_gmapping(c, unit); else k = gen_conf(c, unit, 32 * unit); bool skip = c.flag(1, 3), cached = c.flag(1, 3), in_file = !gm && !k.credibilist && c.flag(1, 3), async = c.flag(1, 12); std::string topic = c.flag() ? "/scan" : "/base_scan", odom = c.flag() ? "odometry" : "odom_combined", map = c.flag() ? "world" : "map", robot = c.flag() ? "robot" : "robot_pose"; double every = c.flag() ? c.i(0, 24) / 8. : 5;
  if (skip || c.flag()) k.set("in/lscan2D/skip_exceeding_vals", skip ? "true" : "false"); if (cached || c.flag()) k.set("slam/performance/use_trig_cache", cached ? "true" : "false"); if (topic != "/base_scan") k.set("in/lscan2D/ros/topic/name", topic); if (odom != "odom_combined") k.set("in/odometry/ros/tf/odom_frame_id", odom); VF_LOG(c, k << (in_file ? "(in a file)" : "") << "\n");
  std::map<std::string, std::string> last; for (auto &t : k.text) { auto e = t.find('='); last[t.substr(0, e)] = t.substr(e + 1); } if (in_file) { std::ofstream f{"conf"}; for (auto &p : last) f << p.first << "=" << p.second << "\n"; ros::param::set("~slam/config", "conf"); } else for (auto &p : last) put_param(c, p.first, p.second);
  if (map != "map") ros::param::set("~ros/tf/map_frame_id", map); if (robot != "robot_pose") ros::param::set("~ros/tf/robot_pose_frame_id", robot); if (every != 5) ros::param::set("~ros/rviz/map_publishing_rate", every); if (async) ros::param::set("~ros/tf/async_correction", true);
  auto room = gen_room(c, unit); auto sensor = gen_sensor(c, unit); struct S { RobotPose odom; boost::shared_ptr<Msg> m; bool known; }; std::vector<S> steps; RobotPose truth, o; long n = c.i(1, 6);
  for (long i = 0; i < n; ++i) { RobotPoseDelta d{unit * c.i(-8, 8) / 10., unit * c.i(-8, 8) / 10., c.i(-10, 10) / 20.}; if (std::abs(truth.x + d.x) > 4 * unit) d.x = -d.x; if (std::abs(truth.y + d.y) > 4 * unit) d.y = -d.y; truth += d; o = {o.x + d.x + unit * c.i(-2, 2) / 10., o.y + d.y, turn(o.theta + d.theta + c.i(-2, 2) / 100.)};
    auto m = boost::make_shared<Msg>(); m->angle_min = sensor.from; m->angle_increment = sensor.inc; m->range_min = 0; m->range_max = sensor.range; auto sc = take_scan(room, sensor, truth); for (auto &p : sc.points()) m->ranges.push_back(p.range()); m->angle_max = double(m->angle_min) + double(m->angle_increment) * (m->ranges.size() - 1); m->header.frame_id = "laser"; steps.push_back({o, m, !c.flag(1, 10)}); VF_LOG(c, "odometry " << o << (steps.back().known ? "" : " (not known yet)") << "\n"); }
  if (k.drift) return; std::vector<std::vector<int8_t>> maps; std::vector<std::pair<int, int>> sizes; std::shared_ptr<LaserScanGridWorld> ref;
  // what the robot believes after each scan, odometry being off by e (rounding)
  auto beliefs = [&](double e) { QuietOut q; vf::random_device_state() = 99; std::vector<RobotPose> r; ref = build_any(k); LaserScanObserver conv{ref, skip, cached}; RobotPose prev; int j = 0; for (auto &s : steps) if (s.known) { auto sc = conv.msg2scan(s.m); auto seen = flat(at(s.odom)); seen.x += e * (++j % 3 - 1); seen.y += e * (j % 2 ? 1 : -1); seen.theta += e * (j % 4 < 2 ? 1 : -1); sc.pose_delta = seen - prev; prev = seen; ref->handle_sensor_data(sc); r.push_back(ref->pose()); } return r; };
  auto want = beliefs(0);
  // a matcher may have to choose between poses that differ by rounding errors only: nothing is required then
  auto ambiguous = [&]() { auto keep = ref; bool r = false; for (double e : {1e-15, -1e-15, 1e-13, -1e-13, 1e-11, -1e-11}) { auto o = beliefs(e); for (size_t i = 0; i < o.size(); ++i) r |= !same(o[i], want[i]); } ref = keep; return r; };
  try {
  size_t handled = 0, sent_maps = 0; double last_map = -1; bool ran = false; char name[] = "node"; char *argv[] = {name, nullptr};
  ros::bus().on_spin = [&]() { ran = true; for (auto &s : steps) { ros::bus().now += ros::Duration(c.i(8, 20) / 8.); s.m->header.stamp = ros::bus().now; if (s.known) { auto t = at(s.odom); t.frame_id_ = odom; tf::shared_buffer().setTransform(t); } size_t before; { std::lock_guard<std::mutex> l{tf::sent().m}; tf::sent().all.clear(); } before = ros::bus().of<nav_msgs::OccupancyGrid>("map").size(); ros::bus().deliver<Msg>(topic, s.m);
      std::vector<tf::StampedTransform> all; { std::lock_guard<std::mutex> l{tf::sent().m}; all = tf::sent().all; } auto grids = ros::bus().of<nav_msgs::OccupancyGrid>("map"); if (!s.known) { VF_CHECK(async || all.empty(), "a scan without a transform is answered"); continue; }
      auto p = want[handled++]; bool pose = false, corr = false; for (auto &t : all) { if (t.frame_id_ == map && t.child_frame_id_ == robot) { pose = true; VF_CHECK(t.stamp_ == ros::bus().now, "the pose is stamped with " << t.stamp_); VF_CHECK(same(flat(t), p, 1e-6), "after scan " << handled << " the robot is published at " << flat(t) << ", it believes to be at " << p); } }
      for (size_t i = all.size(); i-- > 0 && !corr;) if (all[i].frame_id_ == map && all[i].child_frame_id_ == odom) { corr = true; VF_CHECK(same(flat(all[i] * at(s.odom)), p, 1e-6), "after scan " << handled << " the correction of " << s.odom << " leads to " << flat(all[i] * at(s.odom)) << " instead of " << p); }
      VF_CHECK(pose && corr, "scan " << handled << (pose ? "" : " has no pose from " + map + " to " + robot) << (corr ? "" : " has no correction from " + map + " to " + odom)); double now = ros::bus().now.toSec(); bool due = (last_map < 0 ? now >= every : now - last_map >= every); if (due) last_map = now; VF_CHECK(grids.size() == before + due, "a map is " << (due ? "not " : "") << "published at " << now); if (due) { ++sent_maps; VF_CHECK(grids.back()->header.frame_id == map, "the frame of the map is " << grids.back()->header.frame_id); } if (due && handled == want.size()) same_grid(*grids.back(), ref->map()); } throw Done{}; }; // (a main under another name must not reach its end without a return)
  { QuietOut q; vf::random_device_state() = 99; try { (gm ? gmapping_node_main : k.credibilist ? credibilist_node_main : slam_node_main)(1, argv); } catch (Done &) {} } VF_CHECK(ran, "the node does not wait for messages"); VF_CHECK(handled == want.size(), handled << " scans handled"); c.label(k.sm.c_str()); c.nontrivial(want.size() >= 3 && k.sm != "idle");
  } catch (vf::Failure &) { if (!ambiguous()) throw; c.label("ambiguous"); }
}
