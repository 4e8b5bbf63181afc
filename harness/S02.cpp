// S02: the histogram of directions of a scan.
#include "vf.h"
#include "core_all.h"
#include "core/features/angle_histogram.h"
#include "core/maps/grid_map_scan_adders.h"

using vf::Ctx;
typedef long double ld;

struct Pts { std::vector<Point2D> p; };

// a cloud of points: walls (some parallel to an axis or almost), jumps, repetitions
static std::vector<Point2D> gen_points(Ctx &c, long max_len) {
  std::vector<Point2D> v;
  bool big = max_len > 20 && c.yes(1, 80); // as many as real sensors have
  long n = big ? c.i(200, 1500) : c.len(0, max_len);
  double x = c.i(-20, 20) / 4.0, y = c.i(-20, 20) / 4.0;
  while (long(v.size()) < n) {
    long k = big ? c.i(1, 300) : c.len(1, 6);
    double dx = 0, dy = 0;
    switch (c.i(0, 6)) {
    case 0: dx = c.i(-4, 4) / 4.0; break;                  // parallel to X (or repeated)
    case 1: dy = c.i(-4, 4) / 4.0; break;                  // parallel to Y (or repeated)
    case 2: dx = c.i(-3, 3) / 2.0; dy = c.i(-3, 3) / 2.0; break; // lattice
    case 3: dx = c.flag() ? 1 : -1; dy = c.pick({1e-3, -1e-3, 1e-7, -1e-7, 1e-9, -1e-9, 1e-12, -1e-12, 1e-30, -1e-30}); break;
    case 4: dy = c.flag() ? 1 : -1; dx = c.pick({1e-3, -1e-3, 1e-7, -1e-7, 1e-9, -1e-9, 1e-12, -1e-12, 1e-30, -1e-30}); break;
    default: { double a = c.i(-360, 360) * M_PI / 360, d = c.i(1, 40) / 10.0; dx = d * cos(a); dy = d * sin(a); }
    }
    for (long i = 0; i < k && long(v.size()) < n; ++i) { v.push_back({x, y}); x += dx; y += dy; }
    if (c.flag(1, 3)) { x = c.i(-20, 20) / 4.0; y = c.i(-20, 20) / 4.0; }
  }
  return v;
}
static LaserScan2D make_scan(const std::vector<Point2D> &v, bool polar) {
  LaserScan2D s;
  for (auto &p : v) {
    auto sp = ScanPoint2D::make_cartesian(p, true);
    s.points().push_back(polar ? ScanPoint2D::make_polar(sp.range(), sp.angle(), true) : sp);
  }
  return s;
}

struct Ref { // what the bins should be; a pair close to a border is allowed in both
  std::vector<long> lo, hi; std::vector<int> bin; std::vector<ld> sum; long amb = 0, wraps = 0;
  std::vector<std::vector<int>> options;
};
static Ref reference(const LaserScan2D &s, long n) {
  Ref r; r.lo.assign(n, 0); r.hi.assign(n, 0); r.sum.assign(n, 0);
  auto &p = s.points();
  r.bin.assign(p.size(), -1); r.options.resize(p.size());
  for (size_t i = 1; i < p.size(); ++i) {
    ld dx = ld(p[i].x()) - ld(p[i-1].x()), dy = ld(p[i].y()) - ld(p[i-1].y());
    if (double(dy) == 0) { r.lo[0]++; r.hi[0]++; r.bin[i] = 0; r.options[i] = {0}; continue; }
    ld a = atan2l(dy, dx); if (a < 0) a += M_PIl; if (a >= M_PIl) a -= M_PIl;
    ld step = M_PIl / n, tol = 1e-7L;
    long b = std::min(long(a / step), n - 1);
    if (a < tol || M_PIl - a < tol) ++r.wraps; // its mean is not continuous there
    long other = -1;
    if (a - b * step < tol) other = (b + n - 1) % n; else if ((b + 1) * step - a < tol) other = (b + 1) % n;
    r.options[i] = {int(b)};
    if (other >= 0 && other != b) { r.options[i].push_back(other); r.hi[b]++; r.hi[other]++; ++r.amb; }
    else { if (other >= 0) ++r.amb; r.lo[b]++; r.hi[b]++; r.bin[i] = b; r.sum[b] += a; }
  }
  return r;
}

static void check(Ctx &c, const AngleHistogram &h, const LaserScan2D &s, long n) {
  auto r = reference(s, n);
  long sz = s.points().size(), total = 0;
  for (long b = 0; b < n; ++b) {
    VF_CHECK(long(h[b]) >= r.lo[b] && long(h[b]) <= r.hi[b], "bin " << b << " of " << n << " has " << h[b] << " pairs, expected "
             << r.lo[b] << ".." << r.hi[b]);
    total += h[b];
  }
  VF_CHECK(total == std::max(0L, sz - 1), total << " pairs counted of " << sz - 1);
  for (long i = 0; i < sz; ++i) {
    auto v = h.value(s.points(), i);
    if (i == 0) { VF_CHECK(long(v) == sz, "value of the first point is " << v); continue; }
    bool ok = false; for (int b : r.options[i]) ok |= v == h[b];
    VF_CHECK(ok, "value of point " << i << " is " << v << " in bin " << r.options[i][0] << " with " << h[r.options[i][0]]);
    VF_CHECK(v >= 1, "no pair in the own bin of point " << i);
  }
  long mx = h.max_i(), mn = h.min_i();
  VF_CHECK(0 <= mx && mx < n && 0 <= mn && mn < n, "indices " << mx << " " << mn);
  for (long b = 0; b < n; ++b) VF_CHECK(h[b] <= h[mx] && h[b] >= h[mn], "bin " << b << " against extremes " << mx << " " << mn);
  VF_CHECK(std::abs(h.angle_step() - M_PI / n) < 1e-12, "angle step");
  if (r.amb) c.label("ambiguous");
  if (sz < 2 || r.lo[mx] != r.hi[mx] || r.wraps) return;
  c.nontrivial(sz > 3);
  VF_CHECK(std::abs(h.major_direction() - double(r.sum[mx] / h[mx])) < 1e-6, "major direction " << h.major_direction() << " in bin " << mx
           << " with mean " << double(r.sum[mx] / h[mx]));
  VF_CHECK(h.mean_bin_angle(mx) == h.major_direction(), "mean_bin_angle");
}

VF_TEST(recount, "at least 4 points, no pair of the fullest bin next to its border", 60000, 1500000) {
  long n = c.len(1, 40);
  AngleHistogram h(n);
  long uses = c.len(1, 4);
  for (long k = 0; k < uses; ++k) {
    auto pts = gen_points(c, k == uses - 1 ? 30 : 8);
    bool polar = c.flag();
    auto s = make_scan(pts, polar);
    if (c.verbose()) { VF_LOG(c, "n=" << n << " polar=" << polar << ":"); for (auto &p : pts) VF_LOG(c, " (" << p.x << "," << p.y << ")"); VF_LOG(c, "\n"); }
    h.reset(s);
    check(c, h, s, n);
    if (k) { // earlier scans leave no traces
      AngleHistogram f(n); f.reset(s);
      for (long b = 0; b < n; ++b) VF_CHECK(f[b] == h[b], "reused histogram differs in bin " << b);
      for (size_t i = 0; i < s.points().size(); ++i) VF_CHECK(f.value(s.points(), i) == h.value(s.points(), i), "reused histogram differs in point " << i);
      if (s.points().size() > 1) VF_CHECK(f.major_direction() == h.major_direction(), "reused histogram has another major direction");
    }
  }
}

VF_TEST(symmetries, "at least 4 points, no pair next to a bin border", 40000, 800000) {
  long n = c.len(1, 40);
  auto pts = gen_points(c, 30);
  if (c.verbose()) { VF_LOG(c, "n=" << n << ":"); for (auto &p : pts) VF_LOG(c, " (" << p.x << "," << p.y << ")"); VF_LOG(c, "\n"); }
  AngleHistogram a(n), b(n);
  auto s = make_scan(pts, false);
  a.reset(s);
  if (reference(s, n).amb) { c.label("ambiguous"); return; }
  c.nontrivial(pts.size() > 3);
  auto rev = pts; std::reverse(rev.begin(), rev.end());
  b.reset(make_scan(rev, false));
  for (long i = 0; i < n; ++i) VF_CHECK(a[i] == b[i], "bin " << i << ": " << a[i] << ", reversed " << b[i]);
  // mirrored: every direction that is not horizontal goes to the mirrored bin
  long flat = 0; for (size_t i = 1; i < pts.size(); ++i) flat += pts[i].y == pts[i-1].y;
  for (int ax = 0; ax < 2; ++ax) {
    auto mir = pts; for (auto &p : mir) { if (ax) p.x = -p.x; else p.y = -p.y; }
    b.reset(make_scan(mir, false));
    for (long i = 0; i < n; ++i) {
      long e = long(a[n - 1 - i]) - (n - 1 - i == 0 ? flat : 0) + (i == 0 ? flat : 0);
      VF_CHECK(long(b[i]) == e, "bin " << i << " of the mirrored scan has " << b[i] << ", expected " << e);
    }
  }
  // scaled and moved by exact amounts
  double k = c.pick({2.0, 0.5, 16.0}), dx = c.i(-8, 8), dy = c.i(-8, 8);
  auto mov = pts; for (auto &p : mov) { p.x = p.x * k + dx; p.y = p.y * k + dy; }
  auto ms = make_scan(mov, false);
  if (reference(ms, n).amb) return;
  b.reset(ms);
  for (long i = 0; i < n; ++i) if (!flat) VF_CHECK(a[i] == b[i], "bin " << i << ": " << a[i] << ", moved " << b[i]);
}

VF_TEST(quality_estimator, "at least 4 points", 20000, 300000) {
  AngleHistogramResiprocalOMQE q; AngleHistogram h; IdleOMQE idle;
  for (long k = 0, n = c.len(1, 3); k < n; ++k) {
    auto pts = gen_points(c, 20);
    auto s = make_scan(pts, c.flag());
    c.nontrivial(pts.size() > 3);
    q.reset(s); h.reset(s); idle.reset(s);
    for (size_t i = 0; i < pts.size(); ++i) {
      double e = q.quality(s.points(), i);
      VF_CHECK(e > 0 && e <= 1, "quality " << e);
      VF_CHECK(std::abs(e * h.value(s.points(), i) - 1) < 1e-9, "quality " << e << " of a point with value " << h.value(s.points(), i));
      VF_CHECK(idle.quality(s.points(), i) == 1, "idle quality");
    }
  }
}

VF_TEST(direction_of_a_pair, "neither repeated nor next to a border", 60000, 800000) {
  auto a = Point2D{c.real(-5, 5), c.real(-5, 5)};
  double phi = c.angle(), d = std::pow(10., c.real(-3, 2));
  if (std::abs(phi) < 1e-3 || std::abs(std::abs(phi) - M_PI) < 1e-3) phi = c.pick({0., M_PI});
  Point2D b{a.x + d * cos(phi), a.y + d * sin(phi)};
  auto p = ScanPoint2D::make_cartesian(a, true), q = ScanPoint2D::make_cartesian(b, false);
  double e = AngleHistogram::estimate_ox_based_angle(p, q), f = AngleHistogram::estimate_ox_based_angle(q, p);
  VF_LOG(c, "(" << a.x << "," << a.y << ") -> (" << b.x << "," << b.y << "): " << e << " " << f << "\n");
  ld r = atan2l(ld(b.y) - a.y, ld(b.x) - a.x); if (r < 0) r += M_PIl;
  auto diff = [&](double v) { ld x = fabsl(v - r); return std::min(x, M_PIl - x); };
  c.nontrivial(r > 1e-3 && r < M_PIl - 1e-3);
  VF_CHECK(e >= 0 && e < M_PI && f >= 0 && f < M_PI, "direction " << e << " " << f);
  VF_CHECK(diff(e) < 1e-6 && diff(f) < 1e-6, "direction " << e << " / reversed " << f << ", expected " << double(r));
}
