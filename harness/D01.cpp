// D01: pictures drawn into maps, built-in scenes and synthetic scans of maps.
#include "vf.h"
#include "scenes.h"
#include "utils/data_generation/grid_map_patcher.h"
#include "utils/data_generation/map_primitives.h"
#include "utils/data_generation/laser_scan_generator.h"
using vf::Ctx;

struct Noted : GridCell { // takes what it's told and counts
  int n = 0; Noted(double p = 0.5) : GridCell{Occupancy{p, 0}} {}
  std::unique_ptr<GridCell> clone() const override { return std::make_unique<Noted>(*this); }
  void operator+=(const AreaOccupancyObservation &a) override { ++n; _occupancy = a.occupancy; on_update(); }
  double discrepancy(const AreaOccupancyObservation &a) const override { return std::abs(_occupancy - a.occupancy); }
};
static std::unique_ptr<GridMap> gen_map(Ctx &c, double scale, bool large = false) {
  auto cell = std::make_shared<Noted>(); GridMapParams p{int(c.i(1, 12)), int(c.i(1, 12)), scale}, big{120, 124, scale};
  switch (c.i(0, large ? 1 : 3)) {
  case 0: return std::make_unique<UnboundedPlainGridMap>(cell, p);
  case 1: return std::make_unique<UnboundedLazyTiledGridMap>(cell, p);
  case 2: return std::make_unique<PlainGridMap>(cell, big);
  default: return std::make_unique<LazyTiledGridMap>(cell, big);
  }
}
struct CoordLess { bool operator()(const Coord &a, const Coord &b) const { return std::tie(a.x, a.y) < std::tie(b.x, b.y); } };
using Expected = std::map<Coord, std::pair<double, int>, CoordLess>; // occupancy and number of updates

static void draw(Expected &e, const std::vector<std::string> &rows, Coord at, int wz, int hz) {
  for (size_t r = 0; r < rows.size(); ++r) for (size_t k = 0; k < rows[r].size(); ++k)
    for (int i = 0; i < wz; ++i) for (int j = 0; j < hz; ++j) { auto &q = e[Coord{at.x + int(k) * wz + i, at.y - int(r) * hz - j}]; q.first = rows[r][k] == ' ' ? 0 : 1; ++q.second; }
}
static void check_map(const GridMap &m, const Expected &e) {
  int span = 61; auto lo = m.internal2external({0, 0});
  auto one = [&](const Coord &k) { auto it = e.find(k); auto &cell = static_cast<const Noted &>(m[k]);
    if (it == e.end()) VF_CHECK(cell.n == 0 && double(cell) == 0.5 && cell.is_unknown(), "cell " << k << " outside of the picture is changed to " << double(cell));
    else VF_CHECK(cell.n == it->second.second && double(cell) == it->second.first && !cell.is_unknown(), "cell " << k << " is " << double(cell) << " after " << cell.n << " updates, expected " << it->second.first << " after " << it->second.second); };
  for (int x = std::max(lo.x, -span); x < std::min(lo.x + m.width(), span); ++x) for (int y = std::max(lo.y, -span); y < std::min(lo.y + m.height(), span); ++y) one({x, y});
  for (auto &kv : e) { VF_CHECK(m.has_cell(kv.first), "cell " << kv.first << " of the picture is not in the map"); one(kv.first); }
}
static std::vector<std::string> rows_of(std::istream &s) { std::vector<std::string> r; std::string l; while (std::getline(s, l) && !l.empty()) r.push_back(l); return r; }

static void check_pictures(Ctx &c, long high, long wide, int zoom) {
  bool large = high > 7 || wide > 8 || zoom > 4; auto m = gen_map(c, c.pick({0.1, 0.25, 1.}), large); Expected e; GridMapPatcher p; bool rough = false, zoomed = false, mixed = false;
  for (long times = c.len(1, 3); times > 0; --times) {
    std::vector<std::string> rows; for (long n = large ? c.i(0, high) : c.len(0, high); n > 0; --n) { std::string r; for (long k = large ? c.i(1, wide) : c.len(1, wide); k > 0; --k) r += " +#.x01\t"[c.draw(7)]; if (!rows.empty() && r.size() != rows[0].size()) rough = true; rows.push_back(r); }
    std::string text; for (size_t i = 0; i < rows.size(); ++i) { text += rows[i]; if (i + 1 < rows.size() || c.flag()) text += "\n"; }
    if (c.flag(1, 4) && !text.empty() && text.back() == '\n') text += "\n+++ a picture ends by an empty line\n";
    int wz = c.i(1, zoom), hz = c.i(1, zoom); zoomed |= wz > 1 && hz > 1; std::stringstream s{text}; size_t w = 0; for (auto &r : rows) w = std::max(w, r.size());
    mixed |= text.find(' ') < text.size() && text.find_first_not_of(" \n") < text.size();
    VF_LOG(c, "zoom " << wz << " x " << hz << " of\n" << text << "\n");
    if (c.flag()) { Coord at{int(c.i(-20, 20)), int(c.i(-20, 20))}; VF_LOG(c, "at " << at << "\n"); if (wz == 1 && hz == 1 && c.flag()) p.apply_text_raster(*m, s, at); else p.apply_text_raster(*m, s, at, wz, hz); draw(e, rows, at, wz, hz); }
    else { p.apply_text_raster(*m, s, wz, hz); draw(e, rows, {-int(wz * w) / 2, int(hz * rows.size()) / 2}, wz, hz); } // in the middle
    check_map(*m, e);
  }
  c.nontrivial(rough && zoomed && mixed);
}

VF_TEST(pictures, "rows of different lengths, a zoom by two or more and both marked and blank characters", 5000, 60000) { check_pictures(c, 7, 8, 4); }
VF_TEST(large_pictures, "rows of different lengths, a zoom by two or more and both marked and blank characters", 120, 2000) { switch (c.i(0, 3)) { case 0: return check_pictures(c, 5, 400, 3); case 1: return check_pictures(c, 300, 5, 3); case 2: return check_pictures(c, 60, 60, 2); default: return check_pictures(c, 4, 4, 40); } }

using Cecum = CecumTextRasterMapPrimitive;
static void check_scene(Ctx &c, int size) {
  bool slim = size > 12 && c.flag(), high = slim && c.flag(); int w = c.i(1, slim && high ? 5 : size), h = c.i(1, slim && !high ? 5 : size), side = c.i(0, 3); Cecum::BoundPosition b[] = {Cecum::BoundPosition::Left, Cecum::BoundPosition::Right, Cecum::BoundPosition::Top, Cecum::BoundPosition::Bot};
  Cecum cecum{w, h, b[side]}; VF_LOG(c, w << " x " << h << " side " << side << "\n"); auto rows = rows_of(cecum.to_stream());
  VF_CHECK(cecum.width() == w && cecum.height() == h, "size is " << cecum.width() << " x " << cecum.height());
  VF_CHECK(int(rows.size()) == h, rows.size() << " rows"); for (auto &r : rows) VF_CHECK(int(r.size()) == w, "a row of " << r.size());
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
    bool l = x == 0, r = x == w - 1, t = y == 0, bt = y == h - 1, wall = side == 0 ? l || t || bt : side == 1 ? r || t || bt : side == 2 ? l || r || t : l || r || bt;
    VF_CHECK((rows[y][x] != ' ') == wall, "character " << x << " of row " << y << " is '" << rows[y][x] << "'"); }
  VF_CHECK(rows_of(cecum.to_stream()) == rows, "the picture can be read once only");
  auto free = cecum.free_space(); VF_CHECK(!free.empty(), "no free space"); // the first cell of the picture is [0, 1) x [0, 1)
  for (auto &f : free) for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double mx = x + 0.5, my = -y + 0.5; bool in = f.left() < mx && mx < f.right() && f.bot() < my && my < f.top(); if (in) VF_CHECK(rows[y][x] == ' ', "free space " << f << " has a wall at " << x << ", row " << y); }
  if (w > 2 && h > 2) { double area = 0; for (auto &f : free) area += f.area(); long n = 0; for (auto &r : rows) n += std::count(r.begin(), r.end(), ' '); VF_CHECK(area == n, "free space of " << area << " cells of " << n); for (auto &f : free) VF_CHECK(f.left() >= 0 && f.right() <= w && f.top() <= 1 && f.bot() >= 1 - h, "free space " << f << " is out of the picture"); }
  c.nontrivial(w > 2 && h > 2);
}

VF_TEST(scenes, "3 x 3 or more", 3000, 30000) { check_scene(c, 12); }
VF_TEST(large_scenes, "3 x 3 or more", 200, 2000) { check_scene(c, c.pick({60, 300})); }

// where does a beam pass a cell: [a, b] is empty if it doesn't
static void chord(const Coord &k, double s, double grow, const Point2D &o, double dx, double dy, double &a, double &b) {
  a = -1e300; b = 1e300;
  auto slab = [&](double lo, double hi, double p, double d) { if (a > b) return; lo -= grow; hi += grow; if (std::abs(d) < 1e-13) { if (p < lo || p > hi) { a = 1; b = 0; } return; } double u = (lo - p) / d, v = (hi - p) / d; if (u > v) std::swap(u, v); a = std::max(a, u); b = std::min(b, v); };
  slab(s * k.x, s * (k.x + 1), o.x, dx); slab(s * k.y, s * (k.y + 1), o.y, dy);
}
static void check_scan(Ctx &c, int far, int beams) {
  bool large = far > 14; double scale = c.pick({1., 0.1, 0.25, 0.5}); auto m = gen_map(c, scale, large); double thr = c.flag() ? 1 : c.i(51, 100) / 100.; std::vector<Coord> occ; std::set<Coord, CoordLess> known;
  auto put = [&](const Coord &k, double p) { m->update(k, {true, {p, 1}, {0, 0}, 1}); };
  Coord at{int(c.i(-6, 6)), int(c.i(-6, 6))};
  if (c.flag()) { Cecum::BoundPosition b[] = {Cecum::BoundPosition::Left, Cecum::BoundPosition::Right, Cecum::BoundPosition::Top, Cecum::BoundPosition::Bot}; Cecum cec{int(c.i(1, 9)), int(c.i(1, 9)), b[c.i(0, 3)]}; int z = c.i(1, 3); Coord o{int(c.i(-15, 5)), int(c.i(-5, 15))}; GridMapPatcher{}.apply_text_raster(*m, cec.to_stream(), o, z, z); VF_LOG(c, "scene " << cec.width() << " x " << cec.height() << " by " << z << " at " << o << "\n");
    for (int x = 0; x < cec.width() * z; ++x) for (int y = 0; y < cec.height() * z; ++y) known.insert(Coord{o.x + x, o.y - y}); }
  if (large) for (int i = -far, r = c.i(far / 2, far); i <= far; ++i) for (Coord k : {Coord{i, r}, Coord{i, -r}, Coord{r, i}}) { put(k, 1); known.insert(k); } // walls far away
  for (long n = c.len(0, 40); n > 0; --n) { Coord k{int(c.i(-far, far)), int(c.i(-far, far))}; double p = c.flag() ? 1 : c.flag(1, 4) ? std::nextafter(thr, 0.) : c.flag(1, 4) ? thr - 1e-4 : c.i(0, 100) / 100.; put(k, p); known.insert(k); VF_LOG(c, k << ":" << p << " "); }
  for (int x = -8; x <= 8; ++x) for (int y = -8; y <= 8; ++y) if (std::abs(x - at.x) + std::abs(y - at.y) <= 0) { put({x, y}, 0); }
  bool inside = c.flag(1, 12); if (inside) { put(at, 1); known.insert(at); }
  for (auto &k : known) if (double((*m)[k]) >= thr) occ.push_back(k);
  double fx = c.flag(2, 3) ? c.i(1, 19) / 20. : 0.5, fy = c.flag(2, 3) ? c.i(1, 19) / 20. : 0.5; RobotPose pose{scale * (at.x + fx), scale * (at.y + fy), c.flag() ? c.i(-8, 8) * M_PI / 4 : c.i(-200, 200) / 32.};
  double range = scale * (c.flag() ? c.i(1, 30) : c.i(10, 300) / 10. + 0.00137) * (large ? far / 20. : 1), fov = c.flag() ? deg2rad(c.pick({90., 180., 270., 360.})) : c.i(1, 628) / 100.; int n = c.i(1, beams); double inc = fov / n;
  VF_LOG(c, "\nfrom " << pose << " within " << range << ", field of view " << rad2deg(fov) << " by " << rad2deg(inc) << ", threshold " << thr << ", cells of " << scale << "\n");
  bool made = c.flag(); auto lsp = [&] { return made ? to_lsp(range, rad2deg(fov), unsigned(n)) : LaserScannerParams{range, inc, fov / 2}; }; LaserScanGenerator g{lsp()}; auto s = g.laser_scan_2D(*m, pose, thr);
  double e = 1e-6 * scale; size_t i = 0; long hits = 0, misses = 0, hides = 0; auto &pts = s.points();
  for (int k = 0; k <= n; ++k) { // beam by beam
    double a = -fov / 2 + k * inc; if (k == n && std::abs(fov - 2 * M_PI) < 1e-9) break; // the last is the first
    double dx = std::cos(a + pose.theta), dy = std::sin(a + pose.theta), sure = 1e300; struct Hit { Coord k; double a, b; }; std::vector<Hit> all;
    for (auto &q : occ) { double u, v; chord(q, scale, e, pose.point(), dx, dy, u, v); if (u > v || v < 0 || u > range + 2 * e) continue; all.push_back({q, u, v}); chord(q, scale, -e, pose.point(), dx, dy, u, v); if (u + e < v && v > e && u < range - e) sure = std::min(sure, u); }
    bool got = i < pts.size() && std::abs(pts[i].angle() - a) < 1e-7;
    if (sure < 1e300) VF_CHECK(got, "the beam " << k << " at " << rad2deg(a) << " deg has no point though it hits a cell at " << sure);
    if (!got) { ++misses; continue; }
    auto &p = pts[i++]; ++hits; VF_CHECK(p.is_occupied(), "a hit is marked as free"); auto w = p.move_origin(pose.x, pose.y, pose.theta); bool ok = false;
    for (auto &h : all) if (h.a <= sure + 2 * e) { double b = scale * h.k.y, l = scale * h.k.x; ok |= w.x >= l - e && w.x <= l + scale + e && w.y >= b - e && w.y <= b + scale + e && p.range() >= 0; if (ok) break; }
    for (auto &h : all) hides += h.a > sure + scale;
    VF_CHECK(ok, "point " << w << " of beam " << k << " at " << rad2deg(a) << " deg and range " << p.range() << " is not in a cell that the beam hits first (at " << sure << ")");
  }
  VF_CHECK(i == pts.size(), "point " << i << " of " << pts.size() << " at " << rad2deg(pts[i].angle()) << " deg belongs to no beam of the sensor or is out of order");
  LaserScanGenerator g2{lsp()}; g2.laser_scan_2D(*m, {scale * (at.x + 0.3), scale * (at.y + 0.3), 1}, thr); auto t = g2.laser_scan_2D(*m, pose, thr); VF_CHECK(t.points().size() == pts.size(), "another scan from the same place has " << t.points().size() << " points"); for (size_t j = 0; j < pts.size(); ++j) VF_CHECK(t.points()[j].range() == pts[j].range() && t.points()[j].angle() == pts[j].angle(), "another scan from the same place is different");
  c.label(inside ? "inside" : "outside"); c.nontrivial(hits >= 3 && (misses || hides));
}
VF_TEST(scans, "three hits or more and a beam that hits nothing or a hit that hides another cell", 4000, 60000) { check_scan(c, 14, 40); }
VF_TEST(large_scans, "three hits or more and a beam that hits nothing or a hit that hides another cell", 80, 1000) { int far = c.pick({14, 60, 200, 300}); check_scan(c, far, far > 100 ? 60 : 1500); }
