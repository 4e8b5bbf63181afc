// D02: pictures of maps, stored states and the offline tools that write and read them.
#include "vf.h"
#include "scenes.h"
#include "robots.h"
#include "utils/map_dumpers.h"
#include <sys/stat.h>
#include <sys/wait.h>
#define main sm_runner_main
#include "utils/sm_runner.cpp"
#undef main
#define main p2D_ss_evaluator_main
#include "utils/pose2D_search_space_evaluator.cpp"
#undef main
using vf::Ctx;

static std::string slurp(const std::string &f) { std::ifstream i(f, std::ios::binary); VF_CHECK(i.good(), "no file " << f); std::stringstream s; s << i.rdbuf(); return s.str(); }
struct Picture { long w = 0, h = 0, max = 0; std::string px; int at(long x, long y) const { return (unsigned char)px[y * w + x]; } };
static Picture decode(const std::string &f) { // by the description of the format
  auto s = slurp(f); size_t i = 2; Picture p; VF_CHECK(s.compare(0, 2, "P5") == 0, f << " is not a raw portable graymap");
  auto number = [&] { size_t b = i; while (i < s.size() && std::isspace((unsigned char)s[i])) ++i; VF_CHECK(i > b, "no space before a number of the header"); b = i; while (i < s.size() && std::isdigit((unsigned char)s[i])) ++i; VF_CHECK(i > b && i - b < 9, "no number in the header"); return std::stol(s.substr(b, i - b)); };
  p.w = number(); p.h = number(); p.max = number(); VF_CHECK(i < s.size() && std::isspace((unsigned char)s[i]), "the header has no end"); p.px = s.substr(i + 1);
  VF_CHECK(p.max == 255, "the brightest level is " << p.max); VF_CHECK(long(p.px.size()) == p.w * p.h, "a picture of " << p.w << " x " << p.h << " has " << p.px.size() << " cells"); return p;
}
struct Level { int x, y; double occ; };
struct Shot { int w, h; Coord lo; std::vector<double> occ; }; // what a map looks like
static Shot shot(const GridMap &m) { Shot s{m.width(), m.height(), m.internal2external({0, 0}), {}}; for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) s.occ.push_back(m[Coord{s.lo.x + x, s.lo.y + y}].occupancy().prob_occ); return s; }
static void same_picture(const Picture &p, const Shot &s, const std::string &what) {
  VF_CHECK(p.w == s.w && p.h == s.h, what << " is " << p.w << " x " << p.h << ", the map is " << s.w << " x " << s.h);
  for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) { double o = s.occ[y * s.w + x], e = 255 * (1 - (o == -1 ? 0.5 : std::min(1., std::max(0., o)))); int g = p.at(x, s.h - 1 - y); // rows go from the top
    VF_CHECK(std::abs(g - e) <= 1.0001, what << ": cell " << Coord{s.lo.x + x, s.lo.y + y} << " of occupancy " << o << " has level " << g); }
}

static void check_pictures(Ctx &c, int wide, int high) {
  double scale = c.pick({1., 0.1, 0.25}); int kind = int(c.draw(CK_N - 1)), mk = int(c.i(0, 5)); bool large = wide > 14 || high > 14; GridMapParams p{int(large ? c.i(1, wide) : c.len(1, wide)), int(large ? c.i(1, high) : c.len(1, high)), scale}; auto cell = make_cell(kind); auto oie = std::make_shared<DiscrepancyOIE>();
  std::shared_ptr<GridMap> m; std::function<void(unsigned)> zoom; unsigned zooms = 1; bool grows = false;
  switch (mk) {
  case 0: m = std::make_shared<PlainGridMap>(cell, p); break;
  case 1: m = std::make_shared<LazyTiledGridMap>(cell, p); break;
  case 2: m = std::make_shared<UnboundedPlainGridMap>(cell, p); grows = true; break;
  case 3: m = std::make_shared<UnboundedLazyTiledGridMap>(cell, p); grows = true; break;
  case 4: { auto r = std::make_shared<M3RSMRescalableGridMap<PlainGridMap>>(oie, cell, p); m = r; zooms = r->scales_nm(); zoom = [r](unsigned z) { r->set_scale_id(z); }; break; }
  default: { auto r = std::make_shared<M3RSMRescalableGridMap<UnboundedPlainGridMap>>(oie, cell, p); m = r; grows = true; zooms = r->scales_nm(); zoom = [r](unsigned z) { r->set_scale_id(z); }; }
  }
  VF_LOG(c, "map " << mk << " of " << p.width_cells << " x " << p.height_cells << " " << cell_kind_name(kind) << " cells\n");
  std::string base = "d" + std::to_string(getpid()); std::vector<std::string> files; std::vector<Shot> shots; std::set<double> levels; bool good = false;
  struct Cleaner { std::string base; ~Cleaner() { for (int i = 0; i < 12; ++i) unlink((base + "_" + std::to_string(i) + ".pgm").c_str()); unlink((base + ".one").c_str()); } } cleaner{base};
  GridMapToPgmDumber d{base};
  for (long n = c.i(1, large ? 2 : 4), i = 0; i < n; ++i) {
    for (long k = c.len(0, 25); k > 0; --k) {
      auto lo = m->internal2external({0, 0}); Coord q{lo.x + int(c.i(0, m->width() - 1)), lo.y + int(c.i(0, m->height() - 1))}; if (grows && c.flag(1, 6)) q = {int(c.i(-25, 25)), int(c.i(-25, 25))};
      auto a = gen_aoo(c, false); a.obstacle = m->cell_to_world(q); m->update(q, a);
    }
    unsigned z = zooms > 1 && c.flag(1, 3) ? unsigned(c.i(0, zooms - 1)) : 0; if (zoom) zoom(z); auto s = shot(*m); VF_LOG(c, "dump of " << s.w << " x " << s.h << "\n");
    d.on_map_update(*m); { std::ofstream o(base + ".one", std::ios::binary); GridMapToPgmDumber::dump_map(o, *m); } if (zoom) zoom(0);
    same_picture(decode(base + ".one"), s, "a picture"); shots.push_back(s); levels.insert(s.occ.begin(), s.occ.end()); good |= s.w >= 2 && s.h >= 2 && s.w != s.h;
  }
  for (size_t i = 0; i < shots.size(); ++i) same_picture(decode(base + "_" + std::to_string(i) + ".pgm"), shots[i], "picture " + std::to_string(i));
  VF_CHECK(!std::ifstream(base + "_" + std::to_string(shots.size()) + ".pgm").good(), "more pictures than updates");
  c.nontrivial(good && levels.size() >= 3 && shots.size() >= 2);
}

VF_TEST(pictures, "a picture of 2 x 2 or more, not square, with three levels or more, and a map that is dumped repeatedly", 2500, 40000) { check_pictures(c, 14, 14); }
VF_TEST(large_pictures, "a picture of 2 x 2 or more, not square, with three levels or more, and a map that is dumped repeatedly", 400, 4000) { switch (c.i(0, 2)) { case 0: return check_pictures(c, 1100, 12); case 1: return check_pictures(c, 12, 1100); default: return check_pictures(c, 160, 160); } }

VF_TEST(many_pictures, "300 pictures or more by one dumper", 24, 240) { // a map is dumped with every scan, so there may be thousands
  UnboundedPlainGridMap m{std::make_shared<AffineQualityMergeCell>(), {1, 1, 1}}; std::string base = "many"; long n = c.i(250, 1500); struct Cleaner { std::string base; long n; ~Cleaner() { for (long i = 0; i <= n; ++i) unlink((base + "_" + std::to_string(i) + ".pgm").c_str()); } } cleaner{base, n};
  GridMapToPgmDumber d{base}; std::vector<Shot> shots; VF_LOG(c, n << " pictures\n");
  for (long i = 0; i < n; ++i) { double v = ((i * 37) % 256) / 255.; m.update({0, 0}, {v > 0.5, {v, 1}, {0.5, 0.5}, 1}); shots.push_back(shot(m)); d.on_map_update(m); }
  for (long i = 0; i < n; ++i) same_picture(decode(base + "_" + std::to_string(i) + ".pgm"), shots[i], "picture " + std::to_string(i));
  c.nontrivial(n >= 300);
}

static void check_scan(Ctx &c, long points) {
  LaserScan2D s, t; for (long n = points; n > 0; --n) { double r = c.flag() ? c.i(0, 3000) / 100. : c.real(0, 1e3), a = c.flag() ? c.i(-180, 180) * M_PI / 180 : c.real(-7, 7); bool o = c.flag();
    if (c.flag(1, 5)) s.points().push_back(ScanPoint2D::make_cartesian({r * std::cos(a), r * std::sin(a)}, o)); else s.points().push_back(ScanPoint2D::make_polar(r, a, o)); }
  if (c.flag()) for (long n = c.len(0, 9); n > 0; --n) t.points().push_back(ScanPoint2D::make_polar(1, 2, true));
  std::stringstream st; if (c.flag()) st << std::setprecision(17); st << s; long occ = 0; VF_LOG(c, st.str()); if (c.flag()) st << "tail"; bool exact = st.precision() == 17; st >> t;
  VF_CHECK(!st.fail(), "the text of a scan is rejected"); VF_CHECK(t.points().size() == s.points().size(), t.points().size() << " points instead of " << s.points().size());
  for (size_t i = 0; i < s.points().size(); ++i) { auto &a = s.points()[i], &b = t.points()[i]; double e = exact ? 1e-14 : 1e-5; occ += a.is_occupied();
    VF_CHECK(b.is_occupied() == a.is_occupied() && std::abs(a.range() - b.range()) <= e * std::abs(a.range()) && std::abs(a.angle() - b.angle()) <= e * std::abs(a.angle()), "point " << i << " is " << b << (b.is_occupied() ? " occupied" : " free") << " instead of " << a); }
  c.nontrivial(s.points().size() >= 3 && occ > 0 && occ < long(s.points().size()));
}

VF_TEST(scans, "three points or more of both kinds", 6000, 60000) { check_scan(c, c.len(0, 30)); }
VF_TEST(large_scans, "three points or more of both kinds", 60, 600) { check_scan(c, c.i(200, 4000)); }

static int in_child(const std::function<int()> &f) { // 77 for a zero
  std::cout.flush(); pid_t p = fork();
  if (!p) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); int rc; try { rc = f(); } catch (...) { rc = 3; } _exit(rc ? rc & 0x3f | 1 : 77); }
  int st = 0; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
}
struct Scratch { std::string base = "m" + std::to_string(getpid()) + "."; const char *ext[4] = {"properties", "pose2D", "map", "scan2D"}; std::string f(int i) const { return base + ext[i]; } ~Scratch() { for (int i = 0; i < 4; ++i) unlink(f(i).c_str()); } };

VF_TEST(stored_states, "a known probability after a match with points left out or a pose that is corrected", 900, 12000) {
  double scale = c.pick({0.5, 1., 0.1}); auto conf = gen_conf(c, scale, 16 * scale); conf.set("slam/mapping/grid/type", "unbounded_plain"); if (conf.credibilist) conf.set("slam/mapping/grid/area/type", "mean_probability"); // (the format of the files is of this kind of maps)
  Scratch s; auto room = gen_room(c, scale); auto sensor = gen_sensor(c, scale); RobotPose at{scale * c.i(-10, 10) / 10., scale * c.i(-10, 10) / 10., c.i(-100, 100) / 32.};
  auto map = init_grid_map(conf.props); auto adder = init_scan_adder(conf.props); auto scan = take_scan(room, sensor, at); scan.trig_provider = std::make_shared<RawTrigonometryProvider>();
  { QuietOut q; adder->append_scan(*map, at, scan, 1, 0); } if (c.flag(1, 6)) scan = odd_scan(c, scale);
  RobotPose pose{at.x + scale * c.i(-4, 4) / 4., at.y + scale * c.i(-4, 4) / 4., at.theta + c.i(-4, 4) / 40.}; auto buf = map->save_state(); if (c.flag(1, 3)) { conf.set("slam/map/width_in_meters", scale * c.i(1, 60)); conf.set("slam/map/height_in_meters", scale * c.i(1, 60)); if (c.flag()) conf.set("slam/map/meters_per_cell", c.pick({0.5, 1., 0.1})); } // (the size of the map is the stored one)
  VF_LOG(c, conf << "match " << scan.points().size() << " points at " << pose << ", taken at " << at << "\n");
  { std::ofstream o(s.f(0)); for (auto &t : conf.text) o << t << "\n"; std::ofstream p(s.f(1)); p << std::setprecision(17) << pose.x << " " << pose.y << " " << pose.theta; std::ofstream m(s.f(2), std::ios::binary); m.write(buf.data(), buf.size()); std::ofstream r(s.f(3)); r << std::setprecision(17) << scan; }
  // the same without the tool
  double prob; RobotPoseDelta d{0, 0, 0}; { QuietOut q; auto copy = init_grid_map(conf.props); copy->load_state(buf); auto sm = init_scan_matcher(conf.props); TransformedLaserScan t{{}, scan, 1}; prob = sm->process_scan(t, pose, *copy, d); }
  std::ostringstream out; auto *old = std::cout.rdbuf(out.rdbuf()); std::string a[5] = {"sm_runner", s.f(0), s.f(1), s.f(2), s.f(3)}; char *argv[6] = {&a[0][0], &a[1][0], &a[2][0], &a[3][0], &a[4][0], nullptr}; int rc;
  try { rc = sm_runner_main(5, argv); } catch (...) { std::cout.rdbuf(old); throw; } std::cout.rdbuf(old); VF_CHECK(rc == 0, "the tool fails by " << rc);
  std::string text = out.str(), line; std::stringstream ls(text); for (std::string l; std::getline(ls, l);) if (!l.empty()) line = l; VF_LOG(c, line << "\n");
  std::vector<double> n; for (const char *q = line.c_str(); *q;) { char *e; bool start = q == line.c_str() || q[-1] == ' '; double v = start ? std::strtod(q, &e) : 0; if (start && e != q) { n.push_back(v); q = e; } else ++q; }
  VF_CHECK(n.size() == 4, "the tool says \"" << line << "\""); double exp[] = {d.x, d.y, d.theta, prob}; const char *name[] = {"x", "y", "theta", "probability"};
  for (int i = 0; i < 4; ++i) VF_CHECK(same_num(n[i], exp[i]) || std::abs(n[i] - exp[i]) <= 2e-5 * (1e-6 + std::abs(exp[i])), "the tool says \"" << line << "\", the matcher's " << name[i] << " is " << exp[i]);
  c.nontrivial(!std::isnan(prob) && (bool(d) || conf.props.get_uint("slam/scmtch/spe/wmpp/sp_skip_rate", 0) > 1));
}
VF_TEST(missing_states, "a file of the tool is missing", 60, 300) {
  Scratch s; for (int i = 0; i < 4; ++i) { std::ofstream o(s.f(i)); if (i == 0) o << "slam/scmtch/type=idle\nslam/scmtch/spe/type=wmpp\nslam/scmtch/spe/wmpp/weighting/type=even\nslam/mapping/grid/type=unbounded_plain\nslam/mapping/grid/area/type=mean_probability\n"; else o << "0 0 0"; }
  int what = int(c.i(1, 4)); if (what < 4) unlink(s.f(what).c_str()); std::string a[5] = {"sm_runner", s.f(0), s.f(1), s.f(2), s.f(3)}; char *argv[6] = {&a[0][0], &a[1][0], &a[2][0], &a[3][0], &a[4][0], nullptr}; int argc = what < 4 ? 5 : int(c.i(1, 4)); argv[argc] = nullptr;
  int rc = in_child([&] { return sm_runner_main(argc, argv); }); VF_CHECK(rc != 77, "the tool runs without " << (what < 4 ? s.f(what) : "arguments")); VF_CHECK(rc > 0, "the tool crashes by " << -rc); c.nontrivial(what < 4);
}
VF_TEST(search_space, "the tool has run", 1, 1) {
  std::string files[] = {"input_map_0.pgm", "scan_0.pgm", "sss_map_0.pgm"}; for (auto &f : files) unlink(f.c_str());
  int rc = in_child([] { return p2D_ss_evaluator_main(1, nullptr); }); VF_CHECK(rc == 77, "the evaluator of search spaces ends with " << rc);
  for (auto &f : files) { auto p = decode(f); std::set<char> v(p.px.begin(), p.px.end()); VF_CHECK(v.size() >= 2, f << " is of one level"); unlink(f.c_str()); } c.nontrivial(true);
}
