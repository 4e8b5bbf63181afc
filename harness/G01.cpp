// G01: the cell grid partitions the plane.
#include "vf.h"
#include "core_all.h"

using vf::Ctx;
typedef long double ld;
using Coord = RegularSquaresGrid::Coord;

static double gen_scale(Ctx &c) {
  switch (c.draw(2)) {
  case 0: return c.pick({1.0, 0.5, 2.0, 0.25, 4.0});
  case 1: return c.pick({0.1, 0.05, 0.3, 0.07, 1.7});
  default: return std::pow(10.0, c.real(-3, 2));
  }
}
static double gen_coordinate(Ctx &c, double scale) {
  switch (c.draw(3)) {
  case 0: return scale * c.i(-40, 40);                                    // on a border
  case 1: { double v = scale * c.i(-2000, 2000); return std::nextafter(v, c.flag() ? 1e18 : -1e18); }
  case 2: return scale * (c.i(-40, 40) + c.unit());
  default: return c.real(-1, 1) * scale * std::pow(10.0, c.i(0, 6));
  }
}

VF_TEST(points, "a negative or a border coordinate", 100000, 3000000) {
  double scale = gen_scale(c);
  RegularSquaresGrid g{int(c.i(1, 300)), int(c.i(1, 300)), scale};
  VF_LOG(c, g.width() << "x" << g.height() << " scale " << scale << "\n");
  double x = gen_coordinate(c, scale), y = gen_coordinate(c, scale);
  VF_LOG(c, "point " << x << " " << y << "\n");
  auto k = g.world_to_cell(x, y);
  auto k2 = g.world_to_cell(Point2D{x, y}), k3 = g.world_to_cell(x, y, scale);
  VF_CHECK(k == k2 && k == k3, "three ways of asking give " << k << " " << k2 << " " << k3);
  VF_CHECK(g.world_to_cell(y, x) == Coord(k.y, k.x), "x and y are treated differently");
  // exact: k <= x / scale < k + 1 (up to one rounding of the quotient)
  auto in = [&](double v, int n) {
    ld q = ld(v) / ld(scale), tol = fabsl(q) * 3e-16L + 1e-300L;
    return q >= n - tol && q < n + 1 + tol;
  };
  VF_CHECK(in(x, k.x) && in(y, k.y), "point is put into cell " << k);
  auto b = g.world_cell_bounds(k);
  double tol = 1e-12 * (std::abs(x) + std::abs(y) + scale);
  VF_CHECK(b.left() <= x + tol && x <= b.right() + tol && b.bot() <= y + tol && y <= b.top() + tol,
           "bounds of " << k << " do not contain the point: " << b);
  VF_CHECK(std::abs(b.left() - scale * k.x) <= tol && std::abs(b.right() - scale * (k.x + 1)) <= tol &&
           std::abs(b.bot() - scale * k.y) <= tol && std::abs(b.top() - scale * (k.y + 1)) <= tol,
           "bounds of " << k << " are " << b);
  // no gaps, no overlaps: neighbours share the border exactly
  auto r = g.world_cell_bounds({k.x + 1, k.y}), t = g.world_cell_bounds({k.x, k.y + 1});
  VF_CHECK(r.left() == b.right() && r.bot() == b.bot() && r.top() == b.top(), "gap to the right of " << k);
  VF_CHECK(t.bot() == b.top() && t.left() == b.left() && t.right() == b.right(), "gap above " << k);
  auto ctr = g.cell_to_world(k);
  VF_CHECK(g.world_to_cell(ctr) == k, "the centre of " << k << " belongs to " << g.world_to_cell(ctr));
  VF_CHECK(std::abs(ctr.x - (b.left() + b.right()) / 2) <= tol && std::abs(ctr.y - (b.bot() + b.top()) / 2) <= tol,
           "the centre of " << k << " is not the middle of its bounds");
  c.nontrivial(x < 0 || y < 0 || x == scale * k.x || y == scale * k.y);
}

VF_TEST(order, "two different cells", 30000, 500000) { // monotone: order of points is the order of cells
  double scale = gen_scale(c);
  RegularSquaresGrid g{10, 10, scale};
  double a = gen_coordinate(c, scale), b = gen_coordinate(c, scale);
  if (b < a) std::swap(a, b);
  auto ka = g.world_to_cell(a, -a), kb = g.world_to_cell(b, -b);
  VF_CHECK(ka.x <= kb.x && ka.y >= kb.y, a << " is in " << ka << ", " << b << " in " << kb);
  // moving by whole cells moves the cell (away from borders)
  int n = int(c.i(-100, 100));
  auto k = g.cell_to_world({int(c.i(-500, 500)), int(c.i(-500, 500))});
  auto k0 = g.world_to_cell(k), k1 = g.world_to_cell(k.x + n * scale, k.y - n * scale);
  VF_CHECK(k1 == Coord(k0.x + n, k0.y - n), "moving by " << n << " cells moves " << k0 << " to " << k1);
  c.nontrivial(ka != kb);
}

struct Opened : RegularSquaresGrid { using RegularSquaresGrid::RegularSquaresGrid;
  using RegularSquaresGrid::external2internal; using RegularSquaresGrid::has_internal_cell; };

VF_TEST(coordinates, "an odd size", 30000, 500000) {
  Opened g{int(c.i(1, 600)), int(c.i(1, 600)), gen_scale(c)};
  Coord k{int(c.i(-700, 700)), int(c.i(-700, 700))};
  VF_LOG(c, g.width() << "x" << g.height() << " cell " << k << "\n");
  VF_CHECK(g.internal2external(g.external2internal(k)) == k && g.external2internal(g.internal2external(k)) == k,
           "translations are not inverse for " << k);
  auto lo = g.internal2external({0, 0});
  VF_CHECK(lo == Coord(-(g.width() / 2), -(g.height() / 2)), "the origin is " << lo);
  bool in = lo.x <= k.x && k.x < lo.x + g.width() && lo.y <= k.y && k.y < lo.y + g.height();
  VF_CHECK(g.has_cell(k) == in, "has_cell(" << k << ") = " << !in);
  // exactly width*height cells are available
  if (g.width() * g.height() < 2000) {
    int n = 0;
    for (int x = -40 - g.width(); x < 40 + g.width(); ++x) for (int y = -40 - g.height(); y < 40 + g.height(); ++y) n += g.has_cell({x, y});
    VF_CHECK(n == g.width() * g.height(), n << " cells available");
  }
  c.nontrivial(g.width() % 2 || g.height() % 2);
}

VF_TEST(infinite_cell, "always", 5000, 50000) { // the coarsest level: one cell for everything
  RegularSquaresGrid g{1, 1, RegularSquaresGrid::Dbl_Inf};
  double x = c.real(-1e6, 1e6), y = c.real(-1e6, 1e6);
  VF_CHECK(g.world_to_cell(x, y) == Coord(0, 0), "point is not in the only cell");
  auto b = g.world_cell_bounds({0, 0});
  VF_CHECK(b.left() <= x && x <= b.right() && b.bot() <= y && y <= b.top(), "the only cell does not contain the point");
  VF_CHECK(g.has_cell({0, 0}) && !g.has_cell({0, 1}) && !g.has_cell({-1, 0}), "has_cell");
  c.nontrivial();
}
