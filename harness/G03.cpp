// G03: rectangle, segment and ray geometry.
#include "vf.h"
#include "core_all.h"

using vf::Ctx;
typedef long double ld;
typedef LightWeightRectangle LWR;

struct Box { double b, t, l, r; };
static Box gen_box(Ctx &c, double unit) {
  auto side = [&](double &lo, double &hi) {
    if (c.flag(2, 3)) { lo = unit * c.i(-6, 6); hi = lo + unit * c.i(0, 8); }
    else { lo = unit * c.real(-10, 10); hi = lo + unit * c.real(0, 10); }
  };
  Box x; side(x.b, x.t); side(x.l, x.r);
  return x;
}
static LWR lwr(const Box &x) { return {x.b, x.t, x.l, x.r}; }

VF_TEST(overlap, "both have an area and they overlap", 60000, 1500000) {
  double unit = c.pick({1.0, 0.1, 0.05, 10.0});
  Box x = gen_box(c, unit), y = gen_box(c, unit);
  auto a = lwr(x), b = lwr(y);
  VF_LOG(c, a << " and " << b << "\n");
  double l = std::max(x.l, y.l), r = std::min(x.r, y.r), bo = std::max(x.b, y.b), t = std::min(x.t, y.t);
  double w = std::max(0.0, r - l), h = std::max(0.0, t - bo), exp = w * h;
  double tol = 1e-6 * unit * unit * 30;
  auto i = a.intersect(b), j = b.intersect(a);
  VF_CHECK(std::abs(i.area() - exp) <= tol, "intersection has area " << i.area() << ", expected " << exp);
  VF_CHECK(std::abs(i.area() - j.area()) <= tol, "intersection is not symmetric");
  if (w > 1e-5 * unit && h > 1e-5 * unit) {
    double e = 1e-5 * unit;
    VF_CHECK(std::abs(i.left() - l) < e && std::abs(i.right() - r) < e && std::abs(i.bot() - bo) < e && std::abs(i.top() - t) < e,
             "intersection is " << i);
  }
  double area = (x.r - x.l) * (x.t - x.b);
  if (area > 1e-3 * unit * unit) {
    double o = a.overlap(b);
    VF_CHECK(std::abs(o - exp / area) <= 1e-6 * 30 * unit * unit / area + 1e-9, "overlap is " << o << ", expected " << exp / area);
    double self = a.overlap(a);
    VF_CHECK(std::abs(self - 1) < 1e-9, "self-overlap " << self);
    // parts of b add up
    auto quarters = b.split4_evenly();
    double sum = 0;
    for (auto &q : quarters) sum += a.overlap(q);
    VF_CHECK(std::abs(sum - o) <= 1e-5 * 120 * unit * unit / area + 1e-9, "overlaps with the quarters add up to " << sum << " instead of " << o);
  } else if (x.l == x.r && x.b == x.t) {
    bool b_area = y.r > y.l && y.t > y.b, b_point = y.r == y.l && y.t == y.b;
    double e = 1e-4 * unit;
    bool inside = y.l <= x.l && x.l <= y.r && y.b <= x.b && x.b <= y.t;
    bool outside = x.l < y.l - e || x.l > y.r + e || x.b < y.b - e || x.b > y.t + e;
    if ((b_area || b_point) && (inside || outside)) {
      double o = a.overlap(b);
      VF_CHECK(o == (inside ? 1.0 : 0.0), "a point " << (inside ? "inside" : "outside") << " overlaps " << o);
      c.label("point");
    }
  }
  bool cross = y.l < x.l && x.r < y.r && x.b < y.b && y.t < x.t;
  if (cross && exp > 0) c.label("cross");
  if (exp > 0) c.label("overlap");
  c.nontrivial(exp > 0);
}

VF_TEST(overlap_of_points, "the points differ along one axis only or not at all", 4000, 40000) {
  double unit = c.pick({1.0, 0.1, 0.05, 10.0}); Point2D p{unit * c.i(-50, 50) / 10., unit * c.i(-50, 50) / 10.}, q{p.x + (c.flag() ? 0 : unit * c.i(-20, 20) / 100.), p.y + (c.flag() ? 0 : unit * c.i(-20, 20) / 100.)};
  VF_LOG(c, p << " and " << q << "\n"); LightWeightRectangle a{p}, b{q}; bool equal = std::abs(p.x - q.x) < 1e-9 && std::abs(p.y - q.y) < 1e-9; c.nontrivial(std::abs(p.x - q.x) < 1e-9 || std::abs(p.y - q.y) < 1e-9);
  double o = a.overlap(b), r = b.overlap(a); VF_CHECK(o == (equal ? 1 : 0) && r == o, "the overlap of two points is " << o << ", that of the second one " << r); VF_CHECK((a == b) == equal, "points are compared wrong");
}

VF_TEST(parts, "a rectangle with an area", 30000, 400000) {
  Box x = gen_box(c, c.pick({1.0, 0.1, 0.05, 10.0}));
  auto a = lwr(x);
  VF_LOG(c, a << "\n");
  double tol = 1e-9 * (std::abs(x.l) + std::abs(x.r) + std::abs(x.b) + std::abs(x.t)) + 1e-15;
  auto eq = [&](const LWR &p, double b, double t, double l, double r) {
    return std::abs(p.bot() - b) <= tol && std::abs(p.top() - t) <= tol && std::abs(p.left() - l) <= tol && std::abs(p.right() - r) <= tol; };
  double cx = (x.l + x.r) / 2, cy = (x.b + x.t) / 2, w = x.r - x.l, h = x.t - x.b;
  VF_CHECK(a.bot() == x.b && a.top() == x.t && a.left() == x.l && a.right() == x.r, "sides");
  VF_CHECK(a.vside_len() == h && a.hside_len() == w && a.area() == h * w, "lengths");
  VF_CHECK(std::abs(a.center().x - cx) <= tol && std::abs(a.center().y - cy) <= tol, "centre " << a.center());
  VF_CHECK(a.is_line() == ((w == 0) != (h == 0)) && a.is_point() == (w == 0 && h == 0), "line/point");
  // splits are partitions into equal parts that share borders exactly
  auto v = a.split_vert(), hz = a.split_horz(), q = a.split4_evenly();
  VF_CHECK(v.size() == 2 && eq(v[0], x.b, cy, x.l, x.r) && eq(v[1], cy, x.t, x.l, x.r) && v[0].top() == v[1].bot(), "split_vert");
  VF_CHECK(hz.size() == 2 && eq(hz[0], x.b, x.t, x.l, cx) && eq(hz[1], x.b, x.t, cx, x.r) && hz[0].right() == hz[1].left(), "split_horz");
  VF_CHECK(q.size() == 4 && eq(q[0], x.b, cy, x.l, cx) && eq(q[1], cy, x.t, x.l, cx) && eq(q[2], x.b, cy, cx, x.r) && eq(q[3], cy, x.t, cx, x.r), "split4");
  double sum = 0; for (auto &p : q) { sum += p.area(); VF_CHECK(p.left() >= x.l && p.right() <= x.r && p.bot() >= x.b && p.top() <= x.t, "a part sticks out"); }
  VF_CHECK(std::abs(sum - a.area()) <= 1e-9 * a.area() + 1e-15, "parts have area " << sum);
  std::set<std::pair<double, double>> cs, exp{{x.l, x.b}, {x.l, x.t}, {x.r, x.b}, {x.r, x.t}};
  for (auto &p : a.corners()) cs.insert({p.x, p.y});
  VF_CHECK(cs == exp, "corners");
  Point2D nc{c.real(-50, 50), c.real(-50, 50)};
  auto m = a.move_center(nc);
  double mt = 1e-12 * (100 + std::abs(x.l) + std::abs(x.b) + w + h);
  VF_CHECK(std::abs(m.center().x - nc.x) <= mt && std::abs(m.center().y - nc.y) <= mt && std::abs(m.hside_len() - w) <= mt && std::abs(m.vside_len() - h) <= mt,
           "moved to " << nc << ": " << m);
  double f = c.pick({1.0, 2.0, 4.0, 1.5, 0.5});
  auto s = a.shrink(f);
  VF_CHECK(std::abs(s.center().x - cx) <= tol && std::abs(s.center().y - cy) <= tol && std::abs(s.hside_len() - w / f) <= tol && std::abs(s.vside_len() - h / f) <= tol,
           "shrunk by " << f << ": " << s);
  // containment away from borders
  double px = x.l + w * c.real(-0.5, 1.5), py = x.b + h * c.real(-0.5, 1.5), e = 1e-5 * (1 + std::abs(px) + std::abs(py));
  bool in = x.l + e < px && px < x.r - e && x.b + e < py && py < x.t - e;
  bool out = px < x.l - e || px > x.r + e || py < x.b - e || py > x.t + e;
  if (in || out) VF_CHECK(a.contains(px, py) == in && a.contains(Point2D{px, py}) == in, "contains(" << px << ", " << py << ")");
  for (auto &p : a.corners()) VF_CHECK(a.contains(p), "a corner is not contained");
  c.nontrivial(a.area() > 0);
}

// distance of a point to a segment
static ld dist(ld px, ld py, ld ax, ld ay, ld bx, ld by) {
  ld dx = bx - ax, dy = by - ay, l = dx * dx + dy * dy, t = l ? ((px - ax) * dx + (py - ay) * dy) / l : 0;
  t = std::max(ld(0), std::min(ld(1), t));
  return hypotl(px - ax - t * dx, py - ay - t * dy);
}

VF_TEST(intersections, "the segment meets the border", 60000, 1500000) {
  double unit = c.pick({1.0, 0.1, 10.0});
  Box x = gen_box(c, unit);
  Point2D p, q;
  auto pt = [&]() -> Point2D {
    switch (c.draw(3)) {
    case 0: return {unit * c.i(-8, 8), unit * c.i(-8, 8)};
    case 1: return {c.pick({x.l, x.r, (x.l + x.r) / 2}), c.pick({x.b, x.t, (x.b + x.t) / 2})};
    default: return {x.l + (x.r - x.l) * c.real(-1, 2), x.b + (x.t - x.b) * c.real(-1, 2)};
    }
  };
  p = pt(); q = pt();
  if (c.yes(1, 6)) { if (c.flag()) q.x = p.x; else q.y = p.y; }
  if (x.r - x.l < 0.05 * unit || x.t - x.b < 0.05 * unit) return; // not a cell
  double dx = q.x - p.x, dy = q.y - p.y;
  // the code calls a direction axis-parallel within 1e-7; stay out of this band
  auto band = [&](double d) { return d != 0 && std::abs(d) < 1e-3 * unit; };
  if (band(dx) || band(dy) || (dx == 0 && dy == 0)) return;
  Rectangle rect{x.b, x.t, x.l, x.r};
  VF_LOG(c, rect << " and segment " << Segment2D(p, q) << "\n");
  bool use_ray = c.flag();
  Intersections is = use_ray ? rect.find_intersections(Ray{Segment2D{p, q}}) : rect.find_intersections(Segment2D{p, q});
  double tol = 2e-5 * unit * (use_ray ? 20 : 4);
  VF_CHECK(is.size() <= 2, is.size() << " intersections");
  for (auto &i : is) {
    bool on_edge = false;
    ld d = -1;
    switch (i.location) {
    case Intersection::Location::Bot: d = dist(i.x, i.y, x.l, x.b, x.r, x.b); break;
    case Intersection::Location::Top: d = dist(i.x, i.y, x.l, x.t, x.r, x.t); break;
    case Intersection::Location::Left: d = dist(i.x, i.y, x.l, x.b, x.l, x.t); break;
    case Intersection::Location::Right: d = dist(i.x, i.y, x.r, x.b, x.r, x.t); break;
    }
    on_edge = d <= tol;
    VF_CHECK(on_edge, "point " << i << " is not on the edge it is attributed to (" << int(i.location) << ")");
    VF_CHECK(i.is_horiz() == (i.location == Intersection::Location::Bot || i.location == Intersection::Location::Top), "is_horiz");
    ld ds = use_ray ? fabsl((i.x - p.x) * ld(dy) - (i.y - p.y) * ld(dx)) / hypotl(dx, dy) : dist(i.x, i.y, p.x, p.y, q.x, q.y);
    VF_CHECK(ds <= tol, "point " << i << " is not on the " << (use_ray ? "line" : "segment"));
  }
  if (is.size() == 2) VF_CHECK(!(std::abs(is[0].x - is[1].x) < 1e-9 * unit && std::abs(is[0].y - is[1].y) < 1e-9 * unit), "the same point twice");
  // reference: exact clip of the line by the slabs; meeting points are the ends of the clip
  ld t0 = -INFINITY, t1 = INFINITY; bool miss = false, along = false;
  auto slab = [&](ld s, ld d, ld lo, ld hi) {
    if (d == 0) { if (s < lo || s > hi) miss = true; if (fabsl(s - lo) < tol || fabsl(s - hi) < tol) along = true; return; }
    ld a = (lo - s) / d, b = (hi - s) / d; if (a > b) std::swap(a, b);
    t0 = std::max(t0, a); t1 = std::min(t1, b);
  };
  slab(p.x, dx, x.l, x.r); slab(p.y, dy, x.b, x.t);
  if (along) { c.label("along_edge_line"); return; } // only soundness above
  ld len = hypotl(dx, dy), et = tol / len;
  bool steady = std::min(std::abs(dx), std::abs(dy)) > 0.05 * unit;
  std::vector<ld> exp; // parameters of surely expected points
  if (!miss && t1 - t0 > 3 * et) for (ld t : {t0, t1}) {
    // very flat lines may miss a corner by rounding
    ld ix = p.x + t * ld(dx), iy = p.y + t * ld(dy);
    bool corner = std::min(fabsl(ix - x.l), fabsl(ix - x.r)) < tol && std::min(fabsl(iy - x.b), fabsl(iy - x.t)) < tol;
    if ((!corner || steady) && (use_ray || (t > et && t < 1 - et))) exp.push_back(t);
  }
  for (ld t : exp) {
    bool found = false;
    for (auto &i : is) found |= hypotl(i.x - (p.x + t * dx), i.y - (p.y + t * dy)) <= tol;
    VF_CHECK(found, "the crossing at (" << double(p.x + t * dx) << ", " << double(p.y + t * dy) << ") is not reported");
  }
  for (auto &i : is) { // and nothing else
    bool ok = miss || t1 - t0 <= 3 * et; // grazing: position was checked above
    if (!ok) for (ld t : {t0, t1}) ok |= hypotl(i.x - (p.x + t * dx), i.y - (p.y + t * dy)) <= tol;
    VF_CHECK(ok, "reported point " << i << " is not where the line enters or leaves");
  }
  if (miss || t1 - t0 < -3 * et) VF_CHECK(is.empty(), "a line that stays clear of the rectangle is reported to meet it at " << is[0]);
  if (exp.size() == 2) c.label("two"); else if (exp.size() == 1) c.label("one");
  c.nontrivial(!exp.empty());
}

VF_TEST(edges, "a point on an edge line", 30000, 400000) {
  Box x = gen_box(c, 1);
  if (x.r - x.l < 0.01 || x.t - x.b < 0.01) return;
  Rectangle rect{x.b, x.t, x.l, x.r};
  // axis-parallel segment somewhere
  bool vert = c.flag();
  double at = c.pick({vert ? x.l : x.b, vert ? x.r : x.t, c.real(-10, 10)}), a = c.real(-10, 10), b = a + 0.1 + c.real(0, 5);
  Segment2D s = vert ? Segment2D{{at, a}, {at, b}} : Segment2D{{a, at}, {b, at}};
  VF_CHECK(s.is_vert() == vert && s.is_horiz() == !vert && !s.is_point(), "orientation of " << s);
  double lo = vert ? x.l : x.b, hi = vert ? x.r : x.t;
  double d = std::min(std::abs(at - lo), std::abs(at - hi));
  if (d == 0 || d > 1e-4) VF_CHECK(rect.has_on_edge_line(s) == (d == 0), rect << " has_on_edge_line " << s);
  VF_CHECK(!rect.has_on_edge_line(Segment2D{{a, at}, {a + 1, at + 1}}), "a skew segment is no edge line");
  VF_CHECK(std::abs(s.length_sq() - (b - a) * (b - a)) < 1e-9, "length");
  // containing edge of a point
  Point2D p{c.pick({x.l, x.r, x.l + (x.r - x.l) * c.real(-1, 2)}), c.pick({x.b, x.t, x.b + (x.t - x.b) * c.real(-1, 2)})};
  bool on = (p.x == x.l || p.x == x.r) ? (x.b <= p.y && p.y <= x.t) : (p.y == x.b || p.y == x.t) ? (x.l <= p.x && p.x <= x.r) : false;
  double m = std::min({std::abs(p.x - x.l), std::abs(p.x - x.r), std::abs(p.y - x.b), std::abs(p.y - x.t)});
  ld far = std::min({dist(p.x, p.y, x.l, x.b, x.r, x.b), dist(p.x, p.y, x.l, x.t, x.r, x.t), dist(p.x, p.y, x.l, x.b, x.l, x.t), dist(p.x, p.y, x.r, x.b, x.r, x.t)});
  auto e = rect.find_containing_edge(p);
  if (on) {
    VF_CHECK(bool(e), "no edge contains " << p);
    VF_CHECK(dist(p.x, p.y, e.beg().x, e.beg().y, e.end().x, e.end().y) < 1e-4, "the edge " << e << " does not contain " << p);
    VF_CHECK(e.contains(p), "contains");
  } else if (far > 1e-4) { VF_CHECK(!e, "edge " << e << " is said to contain " << p); }
  (void) m;
  c.nontrivial(on);
}
