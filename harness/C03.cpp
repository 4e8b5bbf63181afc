// C03: occupancy estimates of beams.
#include "vf.h"
#include "core_all.h"
#include "core/maps/area_occupancy_estimator.h"
#include "core/maps/const_occupancy_estimator.h"

using vf::Ctx;
typedef long double ld;
struct P { ld x, y; };

static ld area(const std::vector<P> &v) {
  ld a = 0;
  for (size_t i = 0; i < v.size(); ++i) { auto &p = v[i], &q = v[(i + 1) % v.size()]; a += p.x * q.y - p.y * q.x; }
  return fabsl(a) / 2;
}
// part of a convex polygon where n * (p - o) >= 0
static std::vector<P> cut(const std::vector<P> &v, P o, P n) {
  std::vector<P> r;
  auto d = [&](const P &p) { return n.x * (p.x - o.x) + n.y * (p.y - o.y); };
  for (size_t i = 0; i < v.size(); ++i) {
    auto p = v[i], q = v[(i + 1) % v.size()]; ld a = d(p), b = d(q);
    if (a >= 0) r.push_back(p);
    if ((a > 0 && b < 0) || (a < 0 && b > 0)) { ld t = a / (a - b); r.push_back({p.x + t * (q.x - p.x), p.y + t * (q.y - p.y)}); }
  }
  return r;
}
// length of the part of the segment in the box grown by m; -1 if it stays clear
static ld chord(P a, P b, ld l, ld r, ld bo, ld t, ld m) {
  ld t0 = 0, t1 = 1, dx = b.x - a.x, dy = b.y - a.y;
  auto slab = [&](ld s, ld d, ld lo, ld hi) {
    if (d == 0) return lo <= s && s <= hi;
    ld u = (lo - s) / d, v = (hi - s) / d; if (u > v) std::swap(u, v);
    t0 = std::max(t0, u); t1 = std::min(t1, v);
    return t0 <= t1;
  };
  if (!slab(a.x, dx, l - m, r + m) || !slab(a.y, dy, bo - m, t + m)) return -1;
  return (t1 - t0) * hypotl(dx, dy);
}

struct Setup { Occupancy occ, emp; double low, unk; };
static Setup gen_setup(Ctx &c) {
  auto p = [&](double d) { return c.flag() ? d : c.i(0, 100) / 100.0; };
  return {{p(0.95), p(1)}, {p(0.01), p(1)}, c.flag() ? 0.01 : c.i(1, 50) / 100.0, p(0.5)};
}
static bool same(const Occupancy &a, const Occupancy &b, double tol = 1e-7) {
  if (!a.is_valid() || !b.is_valid()) return a.is_valid() == b.is_valid();
  return std::abs(a.prob_occ - b.prob_occ) <= tol && std::abs(a.estimation_quality - b.estimation_quality) <= tol;
}

// everything that must hold for any beam; returns the estimate
static Occupancy check(Ctx &c, AreaOccupancyEstimator &aoe, const Setup &s, const Segment2D &beam, const Rectangle &cell, bool is_occ) {
  Occupancy r = aoe.estimate_occupancy(beam, cell, is_occ);
  ld side = cell.top() - cell.bot(), m = 1e-4L * side;
  P a{beam.beg().x, beam.beg().y}, b{beam.end().x, beam.end().y};
  if (r.is_valid()) {
    VF_CHECK(r.prob_occ >= 0 && r.prob_occ <= 1 + 1e-12, "probability " << r.prob_occ);
    VF_CHECK(r.estimation_quality >= 0 && r.estimation_quality <= 1 + 1e-12, "quality " << r.estimation_quality);
  } else VF_CHECK(std::isnan(r.prob_occ) && std::isnan(r.estimation_quality), "half valid " << r.prob_occ << " " << r.estimation_quality);
  ld l = cell.left(), rt = cell.right(), bo = cell.bot(), t = cell.top();
  auto where = [&](P p) { // 1 inside, -1 outside, 0 near the border
    if (l + m < p.x && p.x < rt - m && bo + m < p.y && p.y < t - m) return 1;
    if (p.x < l - m || p.x > rt + m || p.y < bo - m || p.y > t + m) return -1;
    return 0;
  };
  int wa = where(a), wb = where(b);
  ld dx = b.x - a.x, dy = b.y - a.y, len = hypotl(dx, dy);
  if (chord(a, b, l, rt, bo, t, m) < 0) { VF_CHECK(!r.is_valid(), "an estimate " << r << " for a beam that stays clear of the cell"); c.label("clear"); }
  if (wb == -1 && is_occ) { VF_CHECK(!r.is_valid(), "an obstacle outside of the cell gives " << r); c.label("obstacle_outside"); }
  auto skew = [&](ld d) { return d != 0 && fabsl(d) < 1e-4L; };
  if (skew(dx) || skew(dy) || len < 1e-2L * side || len < 1e-4L) return r; // directions are only told apart beyond 1e-7
  std::vector<P> poly{{l, bo}, {rt, bo}, {rt, t}, {l, t}};
  ld whole = area(poly);
  Occupancy unknown_q{s.emp.prob_occ, s.unk};
  if (wa == 1 && wb) {
    if (is_occ) VF_CHECK(!r.is_valid(), "a beam that starts in the cell tells it is occupied: " << r);
    else VF_CHECK(same(r, unknown_q), "free beam that starts in the cell: " << r << ", expected " << unknown_q);
    c.label("starts_inside");
  } else if (wa == -1 && wb == 1) {
    if (is_occ) {
      ld share = area(cut(poly, b, {dx, dy})) / whole;
      Occupancy e{std::max(double(share), s.emp.prob_occ), s.occ.estimation_quality};
      VF_CHECK(same(r, e, 1e-6), "obstacle inside of the cell: " << r << ", expected " << e);
      c.label("obstacle_inside"); c.nontrivial(true);
    } else { VF_CHECK(same(r, unknown_q), "free beam that ends in the cell: " << r << ", expected " << unknown_q); c.label("free_ends_inside"); }
  } else if (wa == -1 && wb == -1 && !is_occ && chord(a, b, l, rt, bo, t, -m) > 0) {
    ld share = area(cut(poly, a, {-dy, dx})) / whole;
    share = std::min(share, 1 - share);
    Occupancy e{s.emp.prob_occ, double(s.emp.estimation_quality * share)};
    VF_CHECK(same(r, e, 1e-6), "free beam across the cell: " << r << ", expected " << e);
    c.label("pierces"); c.nontrivial(true);
  }
  return r;
}

VF_TEST(beams, "crosses the cell or hits an obstacle in it", 100000, 3000000) {
  Setup s = gen_setup(c);
  AreaOccupancyEstimator aoe{s.occ, s.emp, s.low, s.unk};
  int calls = c.len(1, 4);
  for (int k = 0; k < calls; ++k) {
    double sc = c.pick({1.0, 2.0, 0.1, 0.05, 0.15, 0.3, 10.0, 0.01, 100.0});
    RegularSquaresGrid g{1, 1, sc};
    DiscretePoint2D id{c.i(-50, 50), c.i(-50, 50)};
    Rectangle cell = g.world_cell_bounds(id);
    auto pt = [&](bool in) -> Point2D {
      double w = in ? c.real(0, 1) : c.real(-3, 4), h = in ? c.real(0, 1) : c.real(-3, 4);
      if (c.yes(1, 3)) { w = c.i(-8, 12) / 4.0; h = c.i(-8, 12) / 4.0; }
      return {cell.left() + sc * w, cell.bot() + sc * h};
    };
    Point2D a = pt(false), b = pt(c.flag(1, 3));
    if (c.yes(1, 6)) { if (c.flag()) a.x = b.x; else a.y = b.y; }
    if (c.yes(1, 20)) a = b;
    bool is_occ = c.flag();
    Segment2D beam{a, b};
    VF_LOG(c, "cell " << id << " scale " << sc << " beam " << beam << (is_occ ? " occupied" : " free") << "\n");
    Occupancy r = check(c, aoe, s, beam, cell, is_occ);
    VF_LOG(c, " -> " << r << "\n");
    AreaOccupancyEstimator fresh{s.occ, s.emp, s.low, s.unk};
    VF_CHECK(same(r, fresh.estimate_occupancy(beam, cell, is_occ), 0), "a fresh estimator says " << fresh.estimate_occupancy(beam, cell, is_occ));
    VF_CHECK(same(r, aoe.estimate_occupancy(beam, cell, is_occ), 0), "asking again gives another answer");
  }
}

// lattice positions, moved, mirrored, turned and scaled
VF_TEST(moved, "the cell gets an estimate", 60000, 1500000) {
  Setup s = gen_setup(c);
  AreaOccupancyEstimator aoe{s.occ, s.emp, s.low, s.unk};
  Point2D a{c.i(-12, 12) / 4.0, c.i(-12, 12) / 4.0}, b{c.i(-12, 12) / 4.0, c.i(-12, 12) / 4.0};
  bool is_occ = c.flag();
  Rectangle cell{-1, 1, -1, 1};
  VF_LOG(c, "cell [-1, 1]^2, beam " << Segment2D(a, b) << (is_occ ? " occupied" : " free") << "\n");
  Occupancy r = check(c, aoe, s, Segment2D{a, b}, cell, is_occ);
  bool vertical_edge = a.x == b.x && std::abs(a.x) == 1, horiz_edge = a.y == b.y && std::abs(a.y) == 1;
  if (!is_occ && ((vertical_edge && std::min(a.y, b.y) < -1 && std::max(a.y, b.y) > 1) || (horiz_edge && std::min(a.x, b.x) < -1 && std::max(a.x, b.x) > 1))) {
    VF_CHECK(same(r, {s.emp.prob_occ, s.emp.estimation_quality * s.low}), "a beam along an edge gives " << r);
    c.label("along_edge");
  }
  int turn = c.i(0, 3); bool mirror = c.flag();
  Point2D off{double(c.i(-40, 40)), double(c.i(-40, 40))};
  double k = c.pick({1.0, 2.0, 0.5, 0.25, 0.0625, 8.0, 1.0 / 64, 1.0 / 256, 128.0});
  auto f = [&](Point2D p) {
    if (mirror) p.x = -p.x;
    for (int i = 0; i < turn; ++i) p = Point2D{-p.y, p.x};
    return (p + off) * k;
  };
  Rectangle moved_cell{(off.y - 1) * k, (off.y + 1) * k, (off.x - 1) * k, (off.x + 1) * k};
  Segment2D moved_beam{f(a), f(b)};
  VF_LOG(c, "moved: " << moved_cell << ", beam " << moved_beam << "\n");
  Occupancy q = check(c, aoe, s, moved_beam, moved_cell, is_occ);
  VF_CHECK(same(r, q), "estimate " << r << " becomes " << q << " after moving, turning, mirroring or scaling cell and beam");
  c.nontrivial(r.is_valid());
}

// beams the way a map uses them: the cells on the way of a beam
VF_TEST(in_map, "at least three cells on the way", 30000, 700000) {
  Setup s = gen_setup(c);
  AreaOccupancyEstimator aoe{s.occ, s.emp, s.low, s.unk};
  ConstOccupancyEstimator coe{s.occ, s.emp};
  double sc = c.pick({0.1, 1.0, 0.05, 0.15, 0.3, 0.07, 0.01});
  RegularSquaresGrid g{1, 1, sc};
  auto pt = [&]() -> Point2D {
    int n = 12;
    switch (c.draw(3)) {
    case 0: return {sc * c.i(-n, n), sc * c.i(-n, n)};
    case 1: return {sc * c.i(-2 * n, 2 * n) / 2, sc * c.i(-2 * n, 2 * n) / 2};
    case 2: return {sc * (c.i(-n, n) + 0.5), sc * n * c.real(-1, 1)};
    default: return {sc * n * c.real(-1, 1), sc * n * c.real(-1, 1)};
    }
  };
  Point2D a = pt(), b = pt();
  if (c.yes(1, 8)) { double d = c.i(-8, 8); b = {a.x + d * sc, a.y + (c.flag() ? d : -d) * sc}; }
  if (c.yes(1, 8)) { double ang = M_PI / 180 * c.pick({0, 45, 90, 135, 180, 225, 270, 315}), len = c.pick({1.0, 2.0, 0.5}); b = {a.x + len * std::cos(ang), a.y + len * std::sin(ang)}; }
  Segment2D beam{a, b};
  VF_LOG(c, "scale " << sc << " beam " << beam << "\n");
  auto cells = g.world_to_cells(beam);
  if (c.yes(1, 4)) { auto e = cells.back(); e.x += c.i(-1, 1); e.y += c.i(-1, 1); cells.push_back(e); }
  for (auto &id : cells) {
    auto cell = g.world_cell_bounds(id);
    VF_LOG(c, " " << id);
    for (bool is_occ : {false, true}) {
      auto r = check(c, aoe, s, beam, cell, is_occ);
      VF_LOG(c, " " << r);
      VF_CHECK(same(coe.estimate_occupancy(beam, cell, is_occ), is_occ ? s.occ : s.emp, 0), "constant estimate");
    }
  }
  c.nontrivial(cells.size() >= 3);
}
