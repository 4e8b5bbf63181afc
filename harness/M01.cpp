// M01: a grid map is a function from cells to cell states.
#include "vf.h"
#include "map_model.h"

using vf::Ctx;

struct Span { int lo_x, hi_x, lo_y, hi_y; };
static Span span_of(const GridMap &m) {
  auto lo = m.internal2external({0, 0});
  return {lo.x, lo.x + m.width() - 1, lo.y, lo.y + m.height() - 1};
}

static int near_edge(Ctx &c, int lo, int hi) { // on, just inside or just outside
  int base = c.flag() ? hi : lo;
  return base + int(c.i(-2, 2));
}

struct Kind { bool unbounded; int far; bool tiled; int lim_x = 0, lim_y = 0, ops = 40; };

static Coord gen_coord(Ctx &c, const GridMap &m, const Kind &k, const Model &model) {
  Span s = span_of(m);
  Coord r;
  switch (c.draw(4)) {
  case 0: r = {int(c.i(s.lo_x, s.hi_x)), int(c.i(s.lo_y, s.hi_y))}; break;
  case 1: r = {near_edge(c, s.lo_x, s.hi_x), near_edge(c, s.lo_y, s.hi_y)}; break;
  case 2: { // near something already written, or a tile border
    if (model.size()) {
      auto it = model.begin(); std::advance(it, c.draw(model.size() - 1));
      r = {it->first.x + int(c.i(-1, 1)), it->first.y + int(c.i(-1, 1))};
    } else { r = {int(c.i(-1, 1)), int(c.i(-1, 1))}; }
    break; }
  case 3: { // one axis in, the other one outside
    int d = int(c.i(0, k.far));
    if (c.flag()) { r = {c.flag() ? s.hi_x + d : s.lo_x - d, int(c.i(s.lo_y, s.hi_y))}; }
    else { r = {int(c.i(s.lo_x, s.hi_x)), c.flag() ? s.hi_y + d : s.lo_y - d}; }
    break; }
  default: r = {int(c.i(-k.far, k.far)), int(c.i(-k.far, k.far))}; break;
  }
  // plain maps allocate every cell: keep the area moderate
  int lim = k.tiled ? 200000 : 400;
  int lx = k.lim_x ? k.lim_x : lim, ly = k.lim_y ? k.lim_y : lim;
  r.x = std::max(-lx, std::min(lx, r.x)); r.y = std::max(-ly, std::min(ly, r.y));
  if (!k.unbounded) {
    r.x = std::max(s.lo_x, std::min(s.hi_x, r.x));
    r.y = std::max(s.lo_y, std::min(s.hi_y, r.y));
  }
  return r;
}

static void compare(GridMap &m, const Model &model, const Coord &k, const char *when) {
  auto got = view(m[k]), exp = model_view(model, k);
  VF_CHECK(got == exp, when << ": cell " << k << " is " << got << ", expected " << exp);
  VF_CHECK(m.occupancy(k) == exp.p, when << ": occupancy of " << k << " " << m.occupancy(k) << " vs " << exp.p);
}

static void history(Ctx &c, GridMap &m, const Kind &k, bool rescalable = false,
                    std::function<void()> between = nullptr) {
  Model model;
  VF_LOG(c, "initial " << m.width() << "x" << m.height() << " scale " << m.scale() << "\n");
  long n = c.len(1, k.ops);
  int grows = 0;
  double scale0 = m.scale();
  for (long step = 0; step < n; ++step) {
    Coord k2 = gen_coord(c, m, k, model);
    Span s0 = span_of(m);
    bool inside = s0.lo_x <= k2.x && k2.x <= s0.hi_x && s0.lo_y <= k2.y && k2.y <= s0.hi_y;
    auto before_pt = m.cell_to_world(k2);
    int what = int(c.draw(5));
    if (what <= 2) {
      auto aoo = gen_hist_aoo(c);
      VF_LOG(c, "update " << k2 << "\n");
      m.update(k2, aoo);
      model[k2] += aoo;
    } else if (what == 3) {
      HistCell cell;
      long upd = c.i(0, 2);
      for (long u = 0; u < upd; ++u) { cell += gen_hist_aoo(c); }
      VF_LOG(c, "reset " << k2 << " by a cell with " << upd << " updates\n");
      m.reset(k2, cell);
      model[k2] = cell;
      // the argument is copied, not referenced
      cell += gen_hist_aoo(c);
    } else {
      VF_LOG(c, "read " << k2 << "\n");
      if (k.unbounded || inside) { compare(m, model, k2, "read"); }
      Span s1 = span_of(m);
      VF_CHECK(s1.lo_x == s0.lo_x && s1.hi_x == s0.hi_x && s1.lo_y == s0.lo_y && s1.hi_y == s0.hi_y,
               "reading changed the size of the map");
      continue;
    }
    if (between && c.yes(1, 4)) { between(); }
    Span s1 = span_of(m);
    VF_CHECK(s1.lo_x <= k2.x && k2.x <= s1.hi_x && s1.lo_y <= k2.y && k2.y <= s1.hi_y,
             "written cell " << k2 << " is outside of the reported extent");
    VF_CHECK(s1.lo_x <= s0.lo_x && s1.hi_x >= s0.hi_x && s1.lo_y <= s0.lo_y && s1.hi_y >= s0.hi_y,
             "the map shrank");
    VF_CHECK(m.scale() == scale0, "growing changed the scale");
    auto after_pt = m.cell_to_world(k2);
    VF_CHECK(before_pt.x == after_pt.x && before_pt.y == after_pt.y, "growing moved world coordinates");
    if (inside) {
      VF_CHECK(s1.lo_x == s0.lo_x && s1.hi_x == s0.hi_x && s1.lo_y == s0.lo_y && s1.hi_y == s0.hi_y,
               "writing an inner cell resized the map");
    } else { ++grows; }
    for (auto &kv : model) { compare(m, model, kv.first, "after write"); }
    // untouched surroundings of the written cell and random places
    for (int dx = -1; dx <= 1; ++dx) for (int dy = -1; dy <= 1; ++dy) {
      Coord o{k2.x + dx, k2.y + dy};
      bool in = s1.lo_x <= o.x && o.x <= s1.hi_x && s1.lo_y <= o.y && o.y <= s1.hi_y;
      VF_CHECK(m.has_cell(o) == (k.unbounded || in), "has_cell(" << o << ") is wrong");
      if (k.unbounded || in) { compare(m, model, o, "neighbour"); }
    }
  }
  // whole extent (bounded effort), plus places outside
  Span s = span_of(m);
  long cells = long(s.hi_x - s.lo_x + 1) * (s.hi_y - s.lo_y + 1);
  if (cells <= 40000) {
    for (int x = s.lo_x; x <= s.hi_x; ++x) for (int y = s.lo_y; y <= s.hi_y; ++y) {
      compare(m, model, {x, y}, "final sweep");
    }
  } else {
    for (int j = 0; j < 400; ++j) {
      compare(m, model, {int(c.i(s.lo_x, s.hi_x)), int(c.i(s.lo_y, s.hi_y))}, "final sample");
    }
    // one wrap-around candidate per written cell: same tile offset, other tile
    for (auto &kv : model) for (int d : {128, -128, 256, -256}) {
      for (Coord o : {Coord{kv.first.x + d, kv.first.y}, Coord{kv.first.x, kv.first.y + d}}) {
        if (s.lo_x <= o.x && o.x <= s.hi_x && s.lo_y <= o.y && o.y <= s.hi_y) {
          compare(m, model, o, "other tile");
        }
      }
    }
  }
  if (k.unbounded) {
    for (int j = 0; j < 12; ++j) {
      Coord o{int(c.i(-3000000, 3000000)), int(c.i(-3000000, 3000000))};
      compare(m, model, o, "outside");
      VF_CHECK(m.has_cell(o), "an unbounded map denies cell " << o);
    }
  } else {
    for (int j = 0; j < 12; ++j) {
      Coord o{near_edge(c, s.lo_x, s.hi_x), near_edge(c, s.lo_y, s.hi_y)};
      bool in = s.lo_x <= o.x && o.x <= s.hi_x && s.lo_y <= o.y && o.y <= s.hi_y;
      VF_CHECK(m.has_cell(o) == in, "has_cell(" << o << ") = " << !in);
    }
  }
  compare(m, model, model.empty() ? Coord{s.lo_x, s.lo_y} : model.begin()->first, "end");
  if (grows) { c.label("grew"); }
  if (grows > 1) { c.label("grew_repeatedly"); }
  c.nontrivial(model.size() >= 2 && (grows > 0 || !k.unbounded));
}

static GridMapParams gen_params(Ctx &c, int big) {
  static const std::vector<double> scales{0.1, 1, 0.05, 0.25, 2, 0.3};
  return {int(c.len(1, big)), int(c.len(1, big)), c.pick(scales)};
}

// another map of the same kind that lives at the same time, of other cells
template <typename M> struct Neighbour {
  Neighbour(Ctx &ctx, const GridMapParams &p) : c(ctx) {
    proto.h += 100; m = std::make_unique<M>(std::make_shared<HistCell>(proto), p); VF_LOG(c, "another map " << p.width_cells << "x" << p.height_cells << "\n"); }
  void use() {
    Span s = span_of(*m); Coord k{int(c.i(s.lo_x, s.hi_x)), int(c.i(s.lo_y, s.hi_y))};
    if (c.flag()) { auto a = gen_hist_aoo(c); VF_LOG(c, "update " << k << " of the other map\n"); m->update(k, a); auto i = model.emplace(k, proto).first; i->second += a; }
    check(k); if (!model.empty()) check(model.begin()->first);
  }
  void check(const Coord &k) { auto i = model.find(k); auto got = view((*m)[k]), exp = view(i == model.end() ? proto : i->second); VF_CHECK(got == exp, "cell " << k << " of the other map is " << got << ", expected " << exp); }
  Ctx &c; HistCell proto; Model model; std::unique_ptr<M> m;
};
template <typename M> static void history_of(Ctx &c, M &m, const Kind &k, const GridMapParams &p) {
  if (!c.yes(1, 3)) return history(c, m, k);
  Neighbour<M> n{c, p}; c.label("another map"); history(c, m, k, false, [&]() { n.use(); }); for (auto &kv : n.model) n.check(kv.first);
}

VF_TEST(bounded_plain, "two or more cells written", 3000, 30000) {
  auto p = gen_params(c, 40); PlainGridMap m{gen_prototype(c), p};
  history_of(c, m, {false, 20, false}, p);
}
VF_TEST(unbounded_plain, "two or more cells written and the map grew", 2500, 40000) {
  auto p = gen_params(c, 24); UnboundedPlainGridMap m{gen_prototype(c), p};
  history_of(c, m, {true, c.yes(1, 12) ? 150 : 25, false}, p);
}
VF_TEST(bounded_tiled, "two or more cells written", 1200, 12000) {
  auto p = gen_params(c, c.yes(1, 3) ? 600 : 140); LazyTiledGridMap m{gen_prototype(c), p};
  history_of(c, m, {false, 100, true}, p);
}
VF_TEST(unbounded_tiled, "two or more cells written and the map grew", 2500, 30000) {
  auto p = gen_params(c, c.yes(1, 3) ? 600 : 140); UnboundedLazyTiledGridMap m{gen_prototype(c), p};
  history_of(c, m, {true, c.yes(1, 4) ? 6000 : 400, true}, p);
}

template <typename Back>
static void rescalable(Ctx &c, int size, int far, bool tiled, bool unbounded) {
  RescalableCachingGridMap<Back> m{gen_prototype(c), gen_params(c, size)};
  double finest = m.scale();
  Span s0 = span_of(m);
  long w0 = s0.hi_x - s0.lo_x + 1;
  // zooming out and back between the writes must be invisible
  auto zoom = [&]() {
    unsigned n = m.scales_nm();
    unsigned id = unsigned(c.draw(n - 1));
    VF_LOG(c, "zoom to level " << id << " of " << n << " and back\n");
    m.set_scale_id(id);
    VF_CHECK(m.scale_id() == id, "scale id is not set");
    double sc = m.scale();
    VF_CHECK(id == n - 1 ? std::isinf(sc) : std::abs(sc - finest * std::pow(2.0, id)) < 1e-9 * sc,
             "level " << id << " of " << n << " has scale " << sc << " over " << finest);
    // rescale: the finest level whose cells are not smaller than asked
    double target = c.flag() ? finest * c.real(0, 40) : (std::isinf(sc) ? finest : sc);
    m.rescale(target);
    VF_CHECK(m.scale() >= target, "rescale(" << target << ") picked cells of " << m.scale());
    if (m.scale_id() > 0) {
      unsigned got = m.scale_id();
      m.set_scale_id(got - 1);
      VF_CHECK(m.scale() < target, "rescale(" << target << ") skipped a level of scale " << m.scale());
    }
    { m.set_scale_id(id); SafeRescalableMap guard{m};
      static_cast<GridMap&>(guard).rescale(finest * c.i(0, 20)); }
    VF_CHECK(m.scale() == sc, "the scale guard did not restore the scale: " << m.scale() << " vs " << sc);
    m.rescale(c.flag() ? 0 : finest);
    VF_CHECK(m.scale_id() == 0 && m.scale() == finest, "cannot get back to the finest level");
  };
  history(c, m, {unbounded, far, tiled}, true, zoom);
  (void) w0;
}
VF_TEST(rescalable_plain, "two or more cells written and the map grew", 1500, 15000) {
  rescalable<UnboundedPlainGridMap>(c, 24, 25, false, true);
}
VF_TEST(rescalable_bounded, "two or more cells written", 1000, 8000) {
  rescalable<PlainGridMap>(c, 40, 20, false, false);
}
VF_TEST(rescalable_tiled, "two or more cells written and the map grew", 500, 5000) {
  rescalable<UnboundedLazyTiledGridMap>(c, 300, 600, true, true);
}

// maps of real size (rare, as all cells of them are allocated)
VF_TEST(large, "two or more cells written and the map grew, if it can", 64, 1500) {
  bool wide = c.flag(); int a = int(c.i(1, 700)), b = int(c.i(1, 12)); double scale = c.pick({0.1, 0.05});
  GridMapParams p{wide ? a : b, wide ? b : a, scale};
  Kind k{true, int(c.pick({200, 1500})), false, wide ? 1500 : 24, wide ? 24 : 1500, 14};
  auto cell = gen_prototype(c);
  switch (c.draw(5)) {
  case 0: { k.lim_x = k.lim_y = 600; k.ops = 5; UnboundedPlainGridMap m{cell, p}; c.label("square"); history(c, m, k); break; }
  case 1: { k.unbounded = false; k.lim_x = k.lim_y = 2000; PlainGridMap m{cell, GridMapParams{MapValues::width, MapValues::height, MapValues::meters_per_cell}}; VF_CHECK(m.width() == 1000 && m.height() == 1000 && m.scale() == 0.1, "default size " << m.width() << "x" << m.height()); c.label("default"); history(c, m, k); break; }
  case 2: { k.tiled = true; k.far = 30000; k.lim_x = k.lim_y = 30000; k.ops = 20; UnboundedLazyTiledGridMap m{cell, p}; c.label("tiled"); history(c, m, k); break; }
  default: { UnboundedPlainGridMap m{cell, p}; c.label(wide ? "wide" : "high"); history(c, m, k); }
  }
}
