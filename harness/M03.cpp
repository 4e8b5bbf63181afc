// M03: saved map state restores the same map.
#include "vf.h"
#include "map_model.h"
#include "cells.h"
#include "core/scan_matchers/m3rsm_engine.h"
#include "core/scan_matchers/observation_impact_estimators.h"

using vf::Ctx;

static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

static void same_cell(const GridCell &a, const GridCell &b, const Coord &k, const std::string &when) {
  VF_CHECK(typeid(a) == typeid(b), when << ": cell " << k << " got another type");
  VF_CHECK(same(a.occupancy().prob_occ, b.occupancy().prob_occ) &&
           same(a.occupancy().estimation_quality, b.occupancy().estimation_quality) &&
           a.is_unknown() == b.is_unknown(),
           when << ": cell " << k << ": " << a.occupancy() << " unknown=" << a.is_unknown()
                << " restored as " << b.occupancy() << " unknown=" << b.is_unknown());
  if (auto *h = dynamic_cast<const HistCell*>(&a)) {
    VF_CHECK(h->h == dynamic_cast<const HistCell&>(b).h, when << ": history of " << k << " differs");
  }
  // everything a user can see of a cell besides its occupancy
  for (auto aoo : {AreaOccupancyObservation{true, {1, 1}, {0, 0}, 1}, AreaOccupancyObservation{false, {0.2, 0.6}, {0.3, -0.1}, 0.7}}) {
    double da = a.discrepancy(aoo), db = b.discrepancy(aoo);
    VF_CHECK(same(da, db), when << ": discrepancy of " << k << ": " << da << " restored as " << db);
  }
}

static void same_level(const GridMap &a, const GridMap &b, const std::string &when) {
  VF_CHECK(a.width() == b.width() && a.height() == b.height(),
           when << ": size " << a.width() << "x" << a.height() << " vs " << b.width() << "x" << b.height());
  VF_CHECK(a.scale() == b.scale(), when << ": scale " << a.scale() << " vs " << b.scale());
  VF_CHECK(a.origin() == b.origin(), when << ": origin " << a.origin() << " vs " << b.origin());
  for (int x = 0; x < a.width(); ++x) for (int y = 0; y < a.height(); ++y) {
    auto k = a.internal2external({x, y});
    same_cell(a[k], b[k], k, when);
  }
  auto out = a.internal2external({-3, a.height() + 2});
  same_cell(a[out], b[out], out, when + " (outside)");
}

template <typename Map> static void same_map(Map &a, Map &b, const std::string &when) {
  same_level(a, b, when);
}
template <typename Back>
static void same_map(M3RSMRescalableGridMap<Back> &a, M3RSMRescalableGridMap<Back> &b, const std::string &when) {
  VF_CHECK(a.scales_nm() == b.scales_nm(), when << ": " << a.scales_nm() << " levels vs " << b.scales_nm());
  for (unsigned id = 0; id < a.scales_nm(); ++id) {
    a.set_scale_id(id); b.set_scale_id(id);
    same_level(a, b, when + ", level " + std::to_string(id));
  }
  a.set_scale_id(0); b.set_scale_id(0);
}

// a map may be looked at in any resolution when it is saved or restored
inline bool any_zoom(Ctx &, GridMap &) { return false; }
template <typename Back> static bool any_zoom(Ctx &c, M3RSMRescalableGridMap<Back> &m) { if (!c.flag(1, 3)) return false; m.set_scale_id(unsigned(c.i(0, m.scales_nm() - 1))); c.label("zoomed"); return true; }
inline void no_zoom(GridMap &) {}
template <typename Back> static void no_zoom(M3RSMRescalableGridMap<Back> &m) { m.set_scale_id(0); }

struct Op { Coord k; AreaOccupancyObservation aoo; bool reset; };
static Op gen_op(Ctx &c, int far) {
  int r = c.yes(1, 3) ? far : 4;
  return {Coord{int(c.i(-r, r)), int(c.i(-r, r))}, gen_aoo(c), c.yes(1, 6)};
}
static void apply(GridMap &m, const Op &o) {
  if (o.reset) { auto cell = m.new_cell(); *cell += o.aoo; *cell += o.aoo; m.reset(o.k, *cell); }
  else { m.update(o.k, o.aoo); }
}

template <typename Map, typename Make>
static void round_trip(Ctx &c, Make make, int size, int far) {
  GridMapParams p{int(c.len(1, size)), int(c.len(1, size)), c.pick({0.1, 1.0, 0.05, 0.7})};
  std::unique_ptr<Map> a = make(p);
  VF_LOG(c, "map " << p.width_cells << "x" << p.height_cells << " scale " << p.meters_per_cell << "\n");
  long rounds = c.i(1, 3), ops = 0, tail = 0;
  for (long r = 0; r < rounds; ++r) {
    for (long n = c.len(0, 25); n > 0; --n) {
      auto o = gen_op(c, far);
      VF_LOG(c, (o.reset ? "reset " : "update ") << o.k << " " << o.aoo << "\n");
      apply(*a, o); ++ops;
    }
    bool zoomed = any_zoom(c, *a); auto data = a->save_state(); no_zoom(*a);
    // the receiver has its own past
    GridMapParams p2 = p;
    if (c.flag()) { p2 = {int(c.len(1, size)), int(c.len(1, size)), c.pick({0.1, 1.0, 0.3})}; }
    std::unique_ptr<Map> b = make(p2);
    long past = c.yes(1, 2) ? c.len(0, 10) : 0;
    for (long n = past; n > 0; --n) { apply(*b, gen_op(c, far)); }
    VF_LOG(c, "save, load into a " << p2.width_cells << "x" << p2.height_cells << " map with " << past << " updates\n");
    if (past) { c.label("into_used"); }
    auto given = data;
    any_zoom(c, *b); b->load_state(data); if (!zoomed) VF_CHECK(b->scale() == a->scale() && b->width() == a->width() && b->height() == a->height(), "a map of " << a->width() << " x " << a->height() << " cells of " << a->scale() << " is restored as one of " << b->width() << " x " << b->height() << " cells of " << b->scale()); no_zoom(*b);
    VF_CHECK(given == data, "loading changed the saved state");
    same_map(*a, *b, "restored");
    VF_CHECK(a->save_state() == b->save_state(), "saving again gives another state");
    for (long n = c.len(0, 15); n > 0; --n) {
      auto o = gen_op(c, far);
      VF_LOG(c, "both: " << (o.reset ? "reset " : "update ") << o.k << " " << o.aoo << "\n");
      apply(*a, o); apply(*b, o); ++tail;
      same_cell((*a)[o.k], (*b)[o.k], o.k, "updated after restoring");
    }
    same_map(*a, *b, "continued");
    if (c.flag()) { a = std::move(b); VF_LOG(c, "go on with the restored one\n"); }
  }
  c.nontrivial(ops >= 2 && tail >= 1);
}

static std::shared_ptr<GridCell> gen_proto(Ctx &c) {
  int k = int(c.draw(CK_N));
  VF_LOG(c, "cell model " << (k == CK_N ? "history" : cell_kind_name(k)) << "\n");
  c.label(k == CK_N ? "history" : cell_kind_name(k));
  return k == CK_N ? gen_prototype(c) : make_cell(k);
}

VF_TEST(unbounded_plain, "two or more updates before and one or more after restoring", 6000, 150000) {
  auto proto = gen_proto(c);
  round_trip<UnboundedPlainGridMap>(c, [&](const GridMapParams &p) {
    return std::make_unique<UnboundedPlainGridMap>(proto, p); }, 14, 12);
}
VF_TEST(multi_resolution, "two or more updates before and one or more after restoring", 3000, 60000) {
  using Map = M3RSMRescalableGridMap<UnboundedPlainGridMap>;
  auto proto = gen_proto(c);
  std::shared_ptr<ObservationImpactEstimator> oie;
  if (c.flag()) oie = std::make_shared<DiscrepancyOIE>(); else oie = std::make_shared<OccupancyOIE>();
  round_trip<Map>(c, [&](const GridMapParams &p) { return std::make_unique<Map>(oie, proto, p); }, 14, 12);
}

// ---- maps of a real size, and such that grew to it
VF_TEST(large, "two or more updates before and one or more after restoring", 48, 800) {
  auto proto = gen_proto(c); bool wide = c.flag(); int a = int(c.i(1, 900)), b = int(c.i(1, 8));
  int x = wide ? a : b, y = wide ? b : a; if (c.flag(1, 4)) x = y = int(c.i(100, 260));
  auto fill = [&](GridMap &m, long n) { for (; n > 0; --n) { auto o = gen_op(c, 4); o.k = {int(c.i(0, m.width() - 1)), int(c.i(0, m.height() - 1))}; auto lo = m.internal2external({0, 0}); o.k = o.k + lo; apply(m, o); } };
  auto check = [&](auto m, auto make) {
    if (c.flag()) { auto o = gen_op(c, 4); o.k = {wide ? int(c.i(0, 1200)) : 0, wide ? 0 : int(c.i(0, 1200))}; apply(*m, o); }
    VF_LOG(c, "map " << m->width() << "x" << m->height() << "\n"); long n = c.i(2, 12); fill(*m, n);
    { auto last = gen_op(c, 4); last.reset = false; last.k = m->internal2external({m->width() - 1, m->height() - 1}); apply(*m, last); }
    auto r = make(); r->load_state(m->save_state()); same_map(*m, *r, "restored"); VF_CHECK(m->save_state() == r->save_state(), "saving again gives another state");
    auto o = gen_op(c, 4); o.k = m->internal2external({int(c.i(0, m->width() - 1)), int(c.i(0, m->height() - 1))}); apply(*m, o); apply(*r, o); same_map(*m, *r, "continued"); c.nontrivial(); };
  GridMapParams p{x, y, c.pick({0.1, 0.05})};
  if (c.flag(1, 3)) { using Map = M3RSMRescalableGridMap<UnboundedPlainGridMap>; std::shared_ptr<ObservationImpactEstimator> oie = std::make_shared<DiscrepancyOIE>(); c.label("multi_resolution");
    check(std::make_unique<Map>(oie, proto, p), [&] { return std::make_unique<Map>(oie, proto, GridMapParams{3, 3, 0.1}); }); }
  else check(std::make_unique<UnboundedPlainGridMap>(proto, p), [&] { return std::make_unique<UnboundedPlainGridMap>(proto, GridMapParams{3, 3, 0.1}); });
}

// ---- single cells, any model: state survives, and so does the future
VF_TEST(cells, "two or more observations before and one after", 20000, 500000) {
  auto proto = gen_proto(c);
  auto a = proto->clone();
  long n = c.len(0, 12);
  std::vector<char> data(c.i(0, 5), 'x');
  size_t pos = data.size();
  for (long j = 0; j < n; ++j) { auto o = gen_aoo(c); VF_LOG(c, o << "\n"); *a += o; }
  auto s = a->serialize();
  data.insert(data.end(), s.begin(), s.end());
  auto b = proto->clone();
  for (long j = c.i(0, 2); j > 0; --j) { *b += gen_aoo(c); }
  size_t end = b->deserialize(data, pos);
  VF_CHECK(end == data.size(), "deserialize stopped at " << end << " of " << data.size());
  VF_CHECK(s.size() == proto->serialize().size(), "the size of a saved cell depends on its content");
  same_cell(*a, *b, {0, 0}, "restored");
  long t = c.len(0, 6);
  for (long j = 0; j < t; ++j) {
    auto o = gen_aoo(c); VF_LOG(c, "then " << o << "\n"); *a += o; *b += o;
    same_cell(*a, *b, {0, 0}, "continued");
  }
  c.nontrivial(n >= 2 && t >= 1);
}

// ---- raw serializer
VF_TEST(serializer, "three or more values", 5000, 100000) {
  Serializer s(c.i(0, 100));
  struct V { int t; int i; double d; bool b; unsigned u; size_t z; };
  std::vector<V> vs;
  long n = c.len(0, 20);
  for (long j = 0; j < n; ++j) {
    V v{int(c.draw(4)), int(c.i(-2000000000, 2000000000)), c.real(-1e9, 1e9), c.flag(), unsigned(c.draw(~0u)), size_t(c.draw(~0ULL))};
    switch (v.t) { case 0: s << v.i; break; case 1: s << v.d; break; case 2: s << v.b; break;
                   case 3: s << v.u; break; default: { Serializer q; q << v.z; s << q.result(); } }
    vs.push_back(v);
  }
  auto r = s.result();
  Deserializer d(r);
  for (auto &v : vs) {
    switch (v.t) {
    case 0: { int x; d >> x; VF_CHECK(x == v.i, "int"); break; }
    case 1: { double x; d >> x; VF_CHECK(x == v.d, "double"); break; }
    case 2: { bool x; d >> x; VF_CHECK(x == v.b, "bool"); break; }
    case 3: { unsigned x; d >> x; VF_CHECK(x == v.u, "unsigned"); break; }
    default: { size_t x; d >> x; VF_CHECK(x == v.z, "size_t"); } }
  }
  VF_CHECK(d.pos() == r.size(), "not all bytes were consumed");
  c.nontrivial(n >= 3);
}
