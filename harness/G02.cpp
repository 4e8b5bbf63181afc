// G02: rasterisation of beams, areas and discrete lines.
#include "vf.h"
#include "core_all.h"

using vf::Ctx;
typedef long double ld;
typedef std::pair<int, int> Cell;

// does the segment meet the closed box?
static bool meets(ld ax, ld ay, ld bx, ld by, ld l, ld r, ld b, ld t) {
  if (l > r || b > t) return false;
  ld t0 = 0, t1 = 1, dx = bx - ax, dy = by - ay;
  auto slab = [&](ld s, ld d, ld lo, ld hi) {
    if (d == 0) return lo <= s && s <= hi;
    ld u = (lo - s) / d, v = (hi - s) / d; if (u > v) std::swap(u, v);
    t0 = std::max(t0, u); t1 = std::min(t1, v);
    return t0 <= t1;
  };
  return slab(ax, dx, l, r) && slab(ay, dy, b, t);
}

static double gen_scale(Ctx &c) { return c.pick({1.0, 0.1, 0.5, 0.05, 0.15, 2.0, 0.3}); }

static double gen_coord(Ctx &c, double s, int n) {
  switch (c.draw(3)) {
  case 0: return s * c.i(-n, n);
  case 1: return s * (c.i(-2 * n, 2 * n) / 2.0);
  default: return s * n * c.real(-1, 1);
  }
}

static void check_beam(Ctx &c, const RegularSquaresGrid &g, const Point2D &p, const Point2D &q) {
  double s = g.scale();
  VF_LOG(c, "scale " << s << " segment " << Segment2D(p, q) << "\n");
  auto cells = g.world_to_cells(Segment2D{p, q});
  auto a = g.world_to_cell(p), z = g.world_to_cell(q);
  for (auto &x : cells) VF_LOG(c, " " << x);
  VF_LOG(c, "\n");
  VF_CHECK(!cells.empty() && cells.front() == a, "the first cell is not that of the beginning " << a);
  VF_CHECK(cells.back() == z, "the last cell is not that of the end " << z);
  std::set<Cell> set;
  for (size_t i = 0; i < cells.size(); ++i) {
    VF_CHECK(set.insert({cells[i].x, cells[i].y}).second, "cell " << cells[i] << " is repeated");
    if (i) VF_CHECK(std::abs(cells[i].x - cells[i-1].x) <= 1 && std::abs(cells[i].y - cells[i-1].y) <= 1, "a gap before " << cells[i]);
  }
  ld len = hypotl(ld(q.x) - p.x, ld(q.y) - p.y);
  // the walk treats a corner as hit when it is closer than 1e-7 / length
  ld tol = (len ? 2e-7L / len : 1) + 1e-9L * (1 + fabsl(p.x) + fabsl(p.y) + fabsl(q.x) + fabsl(q.y));
  tol = std::min(tol, ld(s) * 0.49L);
  for (auto &x : cells) {
    ld l = ld(s) * x.x, b = ld(s) * x.y;
    VF_CHECK(meets(p.x, p.y, q.x, q.y, l - tol, l + s + tol, b - tol, b + s + tol), "the segment stays clear of cell " << x);
  }
  int x0 = std::min(a.x, z.x) - 1, x1 = std::max(a.x, z.x) + 1, y0 = std::min(a.y, z.y) - 1, y1 = std::max(a.y, z.y) + 1;
  for (int x = x0; x <= x1; ++x) {
    ld l = ld(s) * x; int from = y0, to = y1;
    if (q.x != p.x) { // only the part of the column near the segment can be crossed
      ld u = p.y + (l - p.x) * (ld(q.y) - p.y) / (ld(q.x) - p.x), v = p.y + (l + s - p.x) * (ld(q.y) - p.y) / (ld(q.x) - p.x); if (u > v) std::swap(u, v);
      if (u / s - 3 > from) from = int(std::min<ld>(u / s - 3, to)); if (v / s + 3 < to) to = int(std::max<ld>(v / s + 3, from));
    }
  for (int y = from; y <= to; ++y) {
    ld b = ld(s) * y;
    if (meets(p.x, p.y, q.x, q.y, l + tol, l + s - tol, b + tol, b + s - tol))
      VF_CHECK(set.count({x, y}), "the segment crosses cell (" << x << ", " << y << ") that is not listed");
  } }
  bool diag = false, axis = p.x == q.x || p.y == q.y;
  for (size_t i = 1; i < cells.size(); ++i) diag |= cells[i].x != cells[i-1].x && cells[i].y != cells[i-1].y;
  if (diag) c.label("through_corner");
  if (axis) c.label("axis_parallel");
  if (len < s / 10) c.label("short");
  c.nontrivial(cells.size() >= 3);
}

VF_TEST(beam, "the segment crosses at least three cells", 60000, 1500000) {
  double s = gen_scale(c);
  RegularSquaresGrid g{c.i(0, 30), c.i(0, 30), s};
  int n = c.pick({3, 6, 12, 25});
  Point2D p{gen_coord(c, s, n), gen_coord(c, s, n)}, q{gen_coord(c, s, n), gen_coord(c, s, n)};
  if (c.yes(1, 8)) q.x = p.x;
  if (c.yes(1, 8)) q.y = p.y;
  if (c.yes(1, 6)) q = p + (q - p) * c.pick({0.01, 0.1, 0.001});
  if (c.yes(1, 8)) { Point2D off{s * c.i(-1000, 1000), s * c.i(-1000, 1000)}; p = p + off; q = q + off; }
  check_beam(c, g, p, q);
}

// a rational slope through a lattice corner, started anywhere on this line
VF_TEST(beam_through_corner, "the segment crosses at least three cells", 30000, 700000) {
  double s = gen_scale(c);
  RegularSquaresGrid g{c.i(0, 30), c.i(0, 30), s};
  Point2D k{s * c.i(-4, 4), s * c.i(-4, 4)}, d{s * c.i(-5, 5), s * c.i(-5, 5)};
  double a = c.i(0, 12) / 4.0, b = c.i(0, 12) / 4.0;
  check_beam(c, g, k - d * a, k + d * b);
}

// what a sensor of a long range gives on a fine map
VF_TEST(long_beam, "the segment crosses at least 100 cells", 2000, 40000) {
  double s = c.pick({0.05, 0.1, 0.025, 1.0}); int n = c.pick({100, 400, 1500});
  RegularSquaresGrid g{1000, 1000, s};
  Point2D p{gen_coord(c, s, n), gen_coord(c, s, n)}, q{gen_coord(c, s, n), gen_coord(c, s, n)};
  if (c.yes(1, 8)) q.x = p.x;
  if (c.yes(1, 8)) q.y = p.y;
  if (c.yes(1, 8)) { double d = s * c.i(-n, n); q = p + Point2D{d, c.flag() ? d : -d}; }
  check_beam(c, g, p, q); c.nontrivial(std::hypot(q.x - p.x, q.y - p.y) > 100 * s);
}

static void check_area(Ctx &c, int far, int size) {
  double s = gen_scale(c);
  int w = c.i(1, 2 * size), h = c.i(1, 2 * size);
  RegularSquaresGrid g{w, h, s};
  double x0 = gen_coord(c, s, far), y0 = gen_coord(c, s, far); bool slim = size > 6 && c.flag(), high = slim && c.flag(); int side_nm = 0;
  auto side = [&]() -> double { int n = slim && (side_nm++ == 0) == high ? 3 : size;
    switch (c.draw(4)) { case 0: return 0; case 1: return s * c.i(0, n); case 2: return s * c.i(0, 2 * n) / 2.0; default: return s * c.real(0, n); } };
  double x1 = x0 + side(), y1 = y0 + side();
  bool border = c.flag(), infinite = c.yes(1, 20);
  if (infinite) { x0 = y0 = -INFINITY; x1 = y1 = INFINITY; }
  LightWeightRectangle r{y0, y1, x0, x1};
  bool dflt = border && c.flag();
  auto v = dflt ? GridRasterizedRectangle{g, r}.to_vector() : GridRasterizedRectangle{g, r, border}.to_vector();
  VF_LOG(c, "scale " << s << " " << w << "x" << h << " area " << r << " border " << border << "\n");
  for (auto &x : v) VF_LOG(c, " " << x);
  VF_LOG(c, "\n");
  std::set<Cell> set;
  for (auto &x : v) VF_CHECK(set.insert({x.x, x.y}).second, "cell " << x << " is repeated");
  if (infinite) {
    VF_CHECK(int(v.size()) == w * h, v.size() << " cells of " << w * h);
    for (auto &x : v) VF_CHECK(g.has_cell(x), "cell " << x << " is outside of the map");
    c.label("infinite"); c.nontrivial(v.size() > 1);
    return;
  }
  ld e = 1e-8L, t = 1e-10L;
  auto in = [&](ld lo, ld hi, ld a, ld b) { // must the interval a cell covers be in (1), out (-1) or is it open (0)?
    bool degenerate = a == b;
    if (hi < a - e || lo > b + e) return -1;
    if (degenerate) return lo + e < a && a < hi - e ? 1 : 0;
    ld common = std::min(hi, b) - std::max(lo, a);
    if (common > e) return 1;
    if (!border && common < t && (fabsl(lo - b) < t || fabsl(hi - a) < t)) return -1;
    // an area with border reaches into the next cells to the right and to the top
    if (border && common < t && common > -t && fabsl(lo - b) < t && lo == s * floor(b / s)) return 1;
    return 0;
  };
  for (int x = g.world_to_cell(x0, y0).x - 2; x <= g.world_to_cell(x1, y1).x + 2; ++x)
    for (int y = g.world_to_cell(x0, y0).y - 2; y <= g.world_to_cell(x1, y1).y + 2; ++y) {
      int h = in(ld(s) * x, ld(s) * (x + 1), x0, x1), u = in(ld(s) * y, ld(s) * (y + 1), y0, y1);
      bool have = set.count({x, y});
      if (h == -1 || u == -1) VF_CHECK(!have, "cell (" << x << ", " << y << ") is clear of the area but listed");
      if (h == 1 && u == 1) VF_CHECK(have, "cell (" << x << ", " << y << ") is in the area but not listed");
      set.erase({x, y});
    }
  VF_CHECK(set.empty(), "a cell far from the area is listed: (" << set.begin()->first << ", " << set.begin()->second << ")");
  if (r.is_line()) c.label("line"); else if (r.is_point()) c.label("point"); else c.label("area");
  c.nontrivial(v.size() > 1);
}

VF_TEST(area, "the area covers at least two cells", 60000, 1500000) { check_area(c, 6, 6); }
VF_TEST(large_area, "the area covers at least two cells", 800, 20000) { check_area(c, 300, c.pick({60, 250})); }

static void check_line(Ctx &c, int n) {
  DiscretePoint2D a{c.i(-n, n), c.i(-n, n)}, b{c.i(-n, n), c.i(-n, n)};
  std::vector<DiscretePoint2D> v = DiscreteSegment2D{a, b};
  VF_LOG(c, a << " - " << b << "\n");
  long dx = b.x - a.x, dy = b.y - a.y, len = std::max(std::abs(dx), std::abs(dy));
  VF_CHECK(long(v.size()) == len + 1, v.size() << " points instead of " << len + 1);
  VF_CHECK(v.front() == a && v.back() == b, "from " << v.front() << " to " << v.back());
  for (size_t i = 0; i < v.size(); ++i) {
    if (i) VF_CHECK(std::max(std::abs(v[i].x - v[i-1].x), std::abs(v[i].y - v[i-1].y)) == 1, "a gap before " << v[i]);
    // offset in the secondary direction at the same primary coordinate, times 2 len
    long off = 2 * std::abs((v[i].x - a.x) * dy - (v[i].y - a.y) * dx);
    VF_CHECK(off <= len, v[i] << " is more than half a cell off");
  }
  c.nontrivial(dx && dy);
}
VF_TEST(line, "neither a point nor axis-parallel", 30000, 500000) { check_line(c, c.pick({4, 20, 300})); }
VF_TEST(long_line, "neither a point nor axis-parallel", 400, 6000) { check_line(c, c.pick({1000, 10000})); }
