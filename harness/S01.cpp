// S01: representations and transformations of scan points, scans and poses.
#include "vf.h"
#include "core_all.h"

using vf::Ctx;
typedef long double ld;
struct P { ld x, y; };
static P rot(P p, ld a) { return {p.x * cosl(a) - p.y * sinl(a), p.x * sinl(a) + p.y * cosl(a)}; }
static ld ang_diff(ld a, ld b) { return fabsl(remainderl(a - b, 2 * M_PIl)); }

struct GenPt { ScanPoint2D sp; P p; ld r, a; bool occ; };
static GenPt gen_point(Ctx &c) {
  bool occ = c.flag();
  ld r = c.flag(1, 8) ? 0 : c.flag(1, 4) ? c.pick({1e-6, 1e6, 30., 1.}) : c.real(0, 40);
  if (c.flag()) {
    double a = c.flag(1, 6) ? c.real(-20, 20) : c.angle();
    return {ScanPoint2D::make_polar(r, a, occ), {r * cosl(a), r * sinl(a)}, r, a, occ};
  }
  Point2D p{double(r * cosl(c.angle())), c.real(-40, 40)};
  if (c.flag(1, 6)) p.x = 0;
  if (c.flag(1, 6)) p.y = 0;
  return {ScanPoint2D::make_cartesian(p, occ), {p.x, p.y}, hypotl(p.x, p.y), atan2l(p.y, p.x), occ};
}
#define NEAR(what, got, want, tol) VF_CHECK(std::abs(ld(got) - ld(want)) <= (tol), what << " is " << (got) << ", expected " << double(want))

static void same_place(const ScanPoint2D &q, P p, ld tol, const char *what) {
  ld r = hypotl(p.x, p.y);
  NEAR(what << ": x", q.x(), p.x, tol); NEAR(what << ": y", q.y(), p.y, tol);
  NEAR(what << ": range", q.range(), r, tol);
  if (r > 1e-3 * tol && r > 1e-9) VF_CHECK(ang_diff(q.angle(), atan2l(p.y, p.x)) <= tol / std::min<ld>(r, 1), what << ": angle " << q.angle());
}

VF_TEST(point_forms, "the point is not in the origin", 60000, 1500000) {
  auto g = gen_point(c);
  ld tol = 1e-9L * (1 + g.r);
  VF_LOG(c, g.sp << " occ=" << g.occ << "\n");
  c.nontrivial(g.r > 0);
  const auto &sp = g.sp;
  same_place(sp, g.p, tol, "the point");
  VF_CHECK(sp.is_occupied() == g.occ && sp.factor() == 1, "flag or factor");
  auto ca = sp.to_cartesian(), po = sp.to_polar();
  same_place(ca, g.p, tol, "to_cartesian"); same_place(po, g.p, tol, "to_polar");
  VF_CHECK(ca.is_occupied() == g.occ && po.is_occupied() == g.occ, "the hit flag of a conversion");
  same_place(ca.to_polar(), g.p, tol, "to_cartesian.to_polar");
  same_place(po.to_cartesian(), g.p, tol, "to_polar.to_cartesian");
  double da = c.angle(), dr = c.real(-1, 5), dx = c.real(-10, 10), dy = c.real(-10, 10);
  VF_LOG(c, "da=" << da << " dr=" << dr << " dx=" << dx << " dy=" << dy << "\n");
  tol += 1e-9L * 20;
  P turned = rot(g.p, da);
  auto tp = [](ld x, ld y) { return P{x, y}; };
  { auto q = sp.to_cartesian(da); same_place(q, turned, tol, "to_cartesian(angle)"); VF_CHECK(q.is_occupied() == g.occ, "flag"); }
  { // the range is changed along the direction of the point
    auto q = sp.to_cartesian(da, dr); ld a = ld(g.a) + da, r = g.r + dr;
    NEAR("to_cartesian(angle, range): x", q.x(), r * cosl(a), tol); NEAR("to_cartesian(angle, range): y", q.y(), r * sinl(a), tol);
    VF_CHECK(q.is_occupied() == g.occ, "flag"); }
  { auto q = sp.to_polar(dx, dy); same_place(q, tp(g.p.x + dx, g.p.y + dy), tol, "to_polar(dx, dy)"); VF_CHECK(q.is_occupied() == g.occ, "flag"); }
  auto at = [&](const Point2D &q, ld x, ld y, const char *w) { NEAR(w << ": x", q.x, x, tol); NEAR(w << ": y", q.y, y, tol); };
  at(sp.move_origin(dx, dy), g.p.x + dx, g.p.y + dy, "move_origin(dx, dy)");
  at(sp.move_origin(dx, dy, da), turned.x + dx, turned.y + dy, "move_origin(dx, dy, angle)");
  auto raw = std::make_shared<RawTrigonometryProvider>();
  at(sp.move_origin(dx, dy, raw), g.p.x + dx, g.p.y + dy, "move_origin with unturned provider");
  raw->set_base_angle(da);
  at(sp.move_origin(dx, dy, raw), turned.x + dx, turned.y + dy, "move_origin(dx, dy, provider)");
  at(sp.move_origin(Point2D{dx, dy}, raw), turned.x + dx, turned.y + dy, "move_origin(point, provider)");
  auto q = sp.to_cartesian(raw);
  same_place(q, turned, tol, "to_cartesian(provider)"); VF_CHECK(q.is_occupied() == g.occ, "flag");
  same_place(sp, g.p, tol, "the point afterwards");
  auto f = sp; double fac = c.real(0, 2);
  VF_CHECK(&f.set_factor(fac) == &f && f.factor() == fac && sp.factor() == 1, "factor");
  same_place(f, g.p, tol, "the point with a factor");
}

struct Table { double mn, mx, inc; long n; }; // entries surely present
static Table gen_table(Ctx &c) {
  Table t;
  t.inc = c.flag(1, 3) ? c.pick({M_PI / 180, M_PI / 360, 0.00436, M_PI / 2, 0.25}) : c.i(1, 800) / 1000.0;
  long n = c.len(1, 300);
  n = std::max(1L, std::min(n, long(4 * M_PI / t.inc)));
  t.mn = c.flag(1, 3) ? c.pick({-M_PI, -M_PI / 2, 0., -2.35619}) : c.i(-4000, 1000) / 1000.0;
  // the table is half open
  t.mx = t.mn + t.inc * n + (c.flag() ? t.inc * c.i(-4, 4) / 10.0 : 0);
  t.n = 0;
  while (t.mn + t.inc * t.n < t.mx - t.inc * 0.01) ++t.n;
  return t;
}

VF_TEST(trigonometry_tables, "two or more tables of at least 3 angles", 20000, 300000) {
  CachedTrigonometryProvider cp; RawTrigonometryProvider rp;
  long big = 0;
  std::vector<Table> ts;
  bool base_before = c.flag();
  double base = c.angle();
  if (base_before) { cp.set_base_angle(base); rp.set_base_angle(base); } else base = 0;
  for (long k = 0, n = c.len(1, 4); k < n; ++k) {
    Table t;
    if (!ts.empty() && c.flag(1, 3)) t = c.pick(ts); else t = gen_table(c);
    if (!ts.empty() && c.flag(1, 4)) { // differs in one parameter only
      auto l = ts.back(); t = l;
      switch (c.i(0, 2)) { case 0: t.mx += t.inc * c.i(1, 5); break; case 1: t.mn -= t.inc * c.i(1, 5); break; default: t.inc /= 2; }
      t.n = 0; while (t.mn + t.inc * t.n < t.mx - t.inc * 0.01) ++t.n;
    }
    ts.push_back(t);
    cp.update(t.mn, t.mx, t.inc);
    VF_LOG(c, "table [" << t.mn << ", " << t.mx << ") by " << t.inc << " (" << t.n << ")\n");
    big += t.n >= 3;
    for (long j = 0, m = c.len(1, 6); j < m; ++j) {
      if (c.flag(1, 3)) { base = c.flag(1, 4) ? c.real(-20, 20) : c.angle(); cp.set_base_angle(base); rp.set_base_angle(base); VF_LOG(c, "base " << base << "\n"); }
      if (!t.n) continue;
      long i = c.flag() ? (c.flag() ? 0 : t.n - 1) : c.i(0, t.n - 1);
      double a = t.mn + i * t.inc;
      if (c.flag()) { a = t.mn; for (long q = 0; q < i; ++q) a += t.inc; }
      VF_LOG(c, "angle " << i << ": " << a << "\n");
      NEAR("sine", cp.sin(a), sinl(ld(base) + a), 1e-9L); NEAR("cosine", cp.cos(a), cosl(ld(base) + a), 1e-9L);
      NEAR("direct sine", rp.sin(a), sinl(ld(base) + a), 1e-12L); NEAR("direct cosine", rp.cos(a), cosl(ld(base) + a), 1e-12L);
      // a slightly inaccurate angle means the nearest one of the table
      double d = a + t.inc * c.i(-20, 20) / 100.0;
      NEAR("sine of an inaccurate angle", cp.sin(d), sinl(ld(base) + a), 1e-9L);
      NEAR("cosine of an inaccurate angle", cp.cos(d), cosl(ld(base) + a), 1e-9L);
    }
  }
  c.nontrivial(big >= 2);
}

struct GenScan { LaserScan2D s; std::vector<GenPt> p; Table t; bool cached; };
static GenScan gen_scan(Ctx &c, long max_len) {
  GenScan g; g.cached = c.flag();
  if (max_len > 100) { // the points of a large one follow from one choice
    long n = c.i(0, max_len); auto t = std::make_shared<CachedTrigonometryProvider>(); std::mt19937 e(c.i(0, 100000)); auto d = [&] { return e() / 4294967296.; }; double inc = 6.2 / (n + 1), r = 1e-3 + 30 * d(); bool polar = g.cached || c.flag();
    g.t = {-3.1, -3.1 + inc * (n + 0.5), inc, n}; if (g.cached) { t->update(g.t.mn, g.t.mx, g.t.inc); g.s.trig_provider = t; }
    for (long i = 0; i < n; ++i) { double a = -3.1 + inc * i; bool o = d() < 0.7; r = std::abs(r + d() - 0.5) + 1e-3; P p{ld(r) * cosl(a), ld(r) * sinl(a)}; g.p.push_back({polar ? ScanPoint2D::make_polar(r, a, o) : ScanPoint2D::make_cartesian({double(p.x), double(p.y)}, o), p, r, a, o}); }
    for (auto &p : g.p) g.s.points().push_back(p.sp);
    return g;
  }
  long n = c.len(0, max_len);
  if (g.cached) {
    g.t = gen_table(c);
    auto tp = std::make_shared<CachedTrigonometryProvider>();
    tp->update(g.t.mn, g.t.mx, g.t.inc);
    g.s.trig_provider = tp;
    for (long i = 0; i < n && g.t.n; ++i) {
      double a = g.t.mn + g.t.inc * c.i(0, g.t.n - 1), r = c.real(0, 30); bool o = c.flag();
      g.p.push_back({ScanPoint2D::make_polar(r, a, o), {ld(r) * cosl(a), ld(r) * sinl(a)}, r, a, o});
    }
  } else for (long i = 0; i < n; ++i) g.p.push_back(gen_point(c));
  for (auto &p : g.p) g.s.points().push_back(p.sp);
  return g;
}

static void check_rotation(Ctx &c, long len) {
  auto g = gen_scan(c, len);
  c.nontrivial(g.p.size() >= 3);
  if (c.verbose()) { VF_LOG(c, "cached=" << g.cached << " "); for (auto &p : g.p) VF_LOG(c, p.sp << " "); VF_LOG(c, "\n"); }
  for (long k = 0, n = c.len(1, 3); k < n; ++k) { // the base angle is not accumulated
    double a = c.angle();
    auto r = g.s.to_cartesian(a);
    VF_LOG(c, "angle " << a << "\n");
    VF_CHECK(r.points().size() == g.p.size() && g.s.points().size() == g.p.size(), "number of points");
    for (size_t i = 0; i < g.p.size(); ++i) {
      ld tol = 1e-8L * (1 + g.p[i].r);
      same_place(r.points()[i], rot(g.p[i].p, a), tol, "a point of the rotated scan");
      VF_CHECK(r.points()[i].is_occupied() == g.p[i].occ, "hit flag of point " << i);
      same_place(g.s.points()[i], g.p[i].p, tol, "a point of the original scan");
      VF_CHECK(g.s.points()[i].is_occupied() == g.p[i].occ, "hit flag of original point " << i);
      // a turned scan only needs to be moved
      double x = c.i(-10, 10), y = c.i(-10, 10);
      g.s.trig_provider->set_base_angle(a);
      auto u = r.points()[i].move_origin(x, y), v = g.s.points()[i].move_origin(Point2D{x, y}, g.s.trig_provider), w = g.s.points()[i].move_origin(x, y, a);
      VF_CHECK(std::abs(u.x - v.x) <= tol && std::abs(u.y - v.y) <= tol, "moved point " << i << ": turned scan " << u << ", provider " << v);
      VF_CHECK(std::abs(u.x - w.x) <= tol && std::abs(u.y - w.y) <= tol, "moved point " << i << ": turned scan " << u << ", angle " << w);
    }
  }
}

VF_TEST(scan_rotation, "at least 3 points", 20000, 300000) { check_rotation(c, 40); }
VF_TEST(large_scan_rotation, "at least 3 points", 100, 2000) { check_rotation(c, 4000); }

static void check_text(Ctx &c, long len) {
  std::stringstream ss; long nm = c.len(1, 3); std::vector<GenScan> gs;
  int prec = c.flag() ? 6 : 17; ss << std::setprecision(prec);
  for (long k = 0; k < nm; ++k) { gs.push_back(gen_scan(c, len)); ss << gs.back().s; }
  VF_LOG(c, ss.str());
  LaserScan2D reused;
  for (auto &g : gs) {
    LaserScan2D fresh; bool re = c.flag(); LaserScan2D &s = re ? reused : fresh;
    ss >> s;
    c.nontrivial(g.p.size() >= 3);
    VF_CHECK(!ss.fail(), "reading fails");
    VF_CHECK(s.points().size() == g.p.size(), s.points().size() << " points of " << g.p.size());
    for (size_t i = 0; i < g.p.size(); ++i) {
      auto &q = s.points()[i]; auto &o = g.s.points()[i];
      ld rel = prec == 17 ? 1e-15L : 6e-6L;
      VF_CHECK(std::abs(q.range() - o.range()) <= rel * std::abs(o.range()), "range " << q.range() << " of " << o.range());
      VF_CHECK(std::abs(q.angle() - o.angle()) <= rel * std::abs(o.angle()), "angle " << q.angle() << " of " << o.angle());
      VF_CHECK(q.is_occupied() == o.is_occupied() && q.factor() == 1, "flag or factor of point " << i);
    }
  }
  std::string tail; VF_CHECK(!(ss >> tail), "left over: " << tail);
}

VF_TEST(scan_text, "at least 3 points", 20000, 300000) { check_text(c, 20); }
VF_TEST(large_scan_text, "at least 3 points", 100, 2000) { check_text(c, 4000); }

VF_TEST(pose_arithmetic, "all components differ", 60000, 1000000) {
  auto v = [&]() { return c.flag(1, 5) ? 0. : c.real(-100, 100); };
  RobotPose p{v(), v(), v()}, q{v(), v(), v()}; RobotPoseDelta d{v(), v(), v()}, e{v(), v(), v()};
  VF_LOG(c, p << " " << q << " " << d << " " << e << "\n");
  c.nontrivial(p.x != q.x && p.y != q.y && p.theta != q.theta && d.x && d.y && d.theta);
  auto is = [](const RobotPose &p, double x, double y, double t, double tol = 0) { return std::abs(p.x - x) <= tol && std::abs(p.y - y) <= tol && std::abs(p.theta - t) <= tol; };
  auto isd = [](const RobotPoseDelta &p, double x, double y, double t, double tol = 0) { return std::abs(p.x - x) <= tol && std::abs(p.y - y) <= tol && std::abs(p.theta - t) <= tol; };
  const double T = 1e-9;
  VF_CHECK(isd(p - q, p.x - q.x, p.y - q.y, p.theta - q.theta, T), "difference " << p - q);
  VF_CHECK(is(p + d, p.x + d.x, p.y + d.y, p.theta + d.theta, T), "sum " << p + d);
  VF_CHECK(is(q + (p - q), p.x, p.y, p.theta, T), "q + (p - q)");
  VF_CHECK(isd((p + d) - p, d.x, d.y, d.theta, T), "(p + d) - p");
  VF_CHECK(is((p + d) + -d, p.x, p.y, p.theta, T), "p + d - d");
  VF_CHECK(is(p + d + e, (p + (d + e)).x, (p + (d + e)).y, (p + (d + e)).theta, T), "associative");
  VF_CHECK(isd(d + e, d.x + e.x, d.y + e.y, d.theta + e.theta, T) && isd(-d, -d.x, -d.y, -d.theta), "delta arithmetic");
  VF_CHECK(isd(-(p - q), q.x - p.x, q.y - p.y, q.theta - p.theta, T), "negated difference");
  auto p2 = p; p2 += d; VF_CHECK(is(p2, (p + d).x, (p + d).y, (p + d).theta), "pose +=");
  auto d2 = d; auto &ref = d2 += e; VF_CHECK(&ref == &d2 && isd(d2, (d + e).x, (d + e).y, (d + e).theta), "delta +=");
  VF_CHECK(is(p, RobotPose{p}.x, RobotPose{p}.y, RobotPose{p}.theta), "copy");
  RobotPose r; VF_CHECK(is(r, 0, 0, 0), "default pose"); r = p; VF_CHECK(is(r, p.x, p.y, p.theta), "assignment");
  r = *&r; VF_CHECK(is(r, p.x, p.y, p.theta), "self assignment"); r += d; VF_CHECK(!d || !is(p, r.x, r.y, r.theta, 1e-12), "a copy is independent");
  VF_CHECK(is(RobotPose{d}, d.x, d.y, d.theta), "pose of a delta");
  VF_CHECK(p.point().x == p.x && p.point().y == p.y, "point of a pose");
  VF_CHECK(isd(RobotPoseDelta{Point2D{d.x, d.y}, d.theta}, d.x, d.y, d.theta), "delta of an offset");
  auto a = d.abs(); VF_CHECK(isd(a, std::abs(d.x), std::abs(d.y), std::abs(d.theta)), "abs");
  VF_CHECK(std::abs(d.sq_dist() - double(ld(d.x) * d.x + ld(d.y) * d.y)) < 1e-8, "sq_dist");
  bool less = std::abs(d.x) < std::abs(e.x) && std::abs(d.y) < std::abs(e.y) && std::abs(d.theta) < std::abs(e.theta);
  VF_CHECK(d.is_abs_less(e) == less, "is_abs_less");
  VF_CHECK(!d.is_abs_less(d) && d.is_abs_less(e) == (-d).is_abs_less(e) && d.is_abs_less(e) == d.is_abs_less(-e), "is_abs_less laws");
  VF_CHECK(d == d && (d == e) == (e == d), "equality laws");
  bool far = std::abs(d.x - e.x) > 1e-3 || std::abs(d.y - e.y) > 1e-3 || std::abs(d.theta - e.theta) > 1e-3;
  if (far) VF_CHECK(!(d == e), "different deltas are equal");
  int k = c.i(0, 2); auto f = d; (k == 0 ? f.x : k == 1 ? f.y : f.theta) += 1;
  VF_CHECK(!(f == d), "deltas that differ in component " << k << " are equal");
  RobotPoseDelta z; VF_CHECK(isd(z, 0, 0, 0) && !bool(z), "default delta");
  RobotPoseDelta one; (k == 0 ? one.x : k == 1 ? one.y : one.theta) = c.pick({1., -1., 1e-3}); VF_CHECK(bool(one), "a delta with component " << k << " is false");
  (k == 0 ? one.y : k == 1 ? one.theta : one.x) = c.flag() ? -(one.x + one.y + one.theta) : one.x + one.y + one.theta; VF_CHECK(bool(one), one << " is false");
  d2.reset(); VF_CHECK(isd(d2, 0, 0, 0), "reset");
}

VF_TEST(pose_noise, "three different distributions", 4000, 60000) {
  using E = std::mt19937;
  struct D { bool g; double a, b; };
  std::vector<D> ds; std::vector<std::unique_ptr<RandomVariable1D<E>>> rv;
  for (int i = 0; i < 3; ++i) {
    D d{c.flag(), c.i(-20, 20) / 4., c.i(1, 20) / 8.};
    if (!d.g) d.b += d.a;
    ds.push_back(d);
    VF_LOG(c, (d.g ? "gauss " : "uniform ") << d.a << " " << d.b << "\n");
    if (d.g) rv.push_back(std::make_unique<GaussianRV1D<E>>(d.a, d.b)); else rv.push_back(std::make_unique<UniformRV1D<E>>(d.a, d.b));
  }
  c.nontrivial(ds[0].a != ds[1].a && ds[1].a != ds[2].a);
  RobotPoseDeltaRV<E> a{*rv[0], *rv[1], *rv[2]};
  rv.clear(); // the noise owns its variables
  unsigned seed = c.i(0, 1000000);
  E e1(seed), e2(seed), e3(seed);
  auto b = std::make_unique<RobotPoseDeltaRV<E>>(a); RobotPoseDeltaRV<E> d{UniformRV1D<E>{0, 1}, UniformRV1D<E>{0, 1}, UniformRV1D<E>{0, 1}};
  if (c.flag()) d.sample(e3), e3.seed(seed);
  d = *b;
  auto same = [](const RobotPoseDelta &x, const RobotPoseDelta &y) { return x.x == y.x && x.y == y.y && x.theta == y.theta; };
  int N = 400; std::vector<RobotPoseDelta> s;
  for (int i = 0; i < N; ++i) s.push_back(a.sample(e1));
  for (int i = 0; i < 20; ++i) { auto x = b->sample(e2); VF_CHECK(same(x, s[i]), "a copy samples " << x << ", the original " << s[i]); }
  b.reset();
  for (int i = 0; i < 20; ++i) { auto x = d.sample(e3); VF_CHECK(same(x, s[i]), "an assigned one samples " << x << ", the original " << s[i]); }
  // moved ones still work
  E e4(seed); RobotPoseDeltaRV<E> m{std::move(d)}; m.sample(e4);
  auto comp = [](const RobotPoseDelta &x, int k) { return k == 0 ? x.x : k == 1 ? x.y : x.theta; };
  for (int k = 0; k < 3; ++k) {
    double sum = 0, sq = 0; for (auto &x : s) { double v = comp(x, k); sum += v; sq += v * v; }
    double mean = sum / N, var = sq / N - mean * mean, w = ds[k].b - ds[k].a;
    double em = ds[k].g ? ds[k].a : ds[k].a + w / 2, es = ds[k].g ? ds[k].b : w / std::sqrt(12.);
    VF_CHECK(std::abs(mean - em) <= 7 * es / std::sqrt(double(N)), "mean of component " << k << " is " << mean << ", expected " << em);
    VF_CHECK(var > 0.4 * es * es && var < 2 * es * es, "deviation of component " << k << " is " << std::sqrt(var) << ", expected " << es);
    if (!ds[k].g) for (auto &x : s) VF_CHECK(comp(x, k) >= ds[k].a && comp(x, k) <= ds[k].b, "uniform sample " << comp(x, k));
  }
}
