// M02: copies of a tiled map are independent snapshots.
#include "vf.h"
#include "map_model.h"

using vf::Ctx;

template <typename Map>
struct Family {
  struct Member { std::unique_ptr<Map> map; Model model; int gen; };
  std::vector<Member> ms;
  bool unbounded;

  void compare(const Map &m, const Model &model, const Coord &k, const char *when, size_t id) {
    auto got = view(m[k]), exp = model_view(model, k);
    VF_CHECK(got == exp, when << ": cell " << k << " of map #" << id << " is " << got << ", expected " << exp);
  }
  bool inside(const Map &m, const Coord &k) {
    auto lo = m.internal2external({0, 0});
    return lo.x <= k.x && k.x < lo.x + m.width() && lo.y <= k.y && k.y < lo.y + m.height();
  }

  void run(Ctx &c, const GridMapParams &p) {
    auto proto = gen_prototype(c);
    ms.push_back({std::make_unique<Map>(proto, p), {}, 0});
    VF_LOG(c, "map #0: " << p.width_cells << "x" << p.height_cells << "\n");
    long n = c.len(3, 60);
    int copies = 0, writes_after_copy = 0;
    std::set<Coord, CoordLess> touched;
    for (long s = 0; s < n; ++s) {
      size_t id = c.draw(ms.size() - 1);
      Member &me = ms[id];
      auto lo = me.map->internal2external({0, 0});
      Coord k;
      if (touched.size() && c.yes(3, 5)) { // meet again where others wrote
        auto it = touched.begin(); std::advance(it, c.draw(touched.size() - 1));
        k = *it;
        if (c.yes(1, 3)) { k = {k.x + int(c.i(-1, 1)), k.y + int(c.i(-1, 1))}; }
      } else if (unbounded && c.yes(1, 4)) {
        k = {int(c.i(-700, 700)), int(c.i(-700, 700))};
      } else {
        k = {lo.x + int(c.draw(me.map->width() - 1)), lo.y + int(c.draw(me.map->height() - 1))};
      }
      if (!unbounded && !inside(*me.map, k)) { k = {0, 0}; }
      switch (c.draw(7)) {
      case 0: case 1: {
        auto a = gen_hist_aoo(c);
        VF_LOG(c, "update " << k << " of #" << id << "\n");
        me.map->update(k, a); me.model[k] += a; touched.insert(k);
        writes_after_copy += copies > 0;
        break; }
      case 2: {
        HistCell cell; if (c.flag()) cell += gen_hist_aoo(c);
        VF_LOG(c, "reset " << k << " of #" << id << "\n");
        me.map->reset(k, cell); me.model[k] = cell; touched.insert(k);
        writes_after_copy += copies > 0;
        break; }
      case 3: case 4: {
        if (ms.size() >= 6) { break; }
        VF_LOG(c, "#" << ms.size() << " = copy of #" << id << "\n");
        Member m2{std::make_unique<Map>(*me.map), me.model, me.gen + 1};
        ++copies; if (m2.gen > 1) { c.label("copy_of_copy"); }
        ms.push_back(std::move(m2));
        break; }
      case 5: {
        size_t o = c.draw(ms.size() - 1);
        VF_LOG(c, "#" << id << " = #" << o << " (assignment)\n");
        *me.map = *ms[o].map; me.model = Model(ms[o].model); me.gen = ms[o].gen + 1; ++copies;
        c.label(o == id ? "self_assigned" : "assigned");
        break; }
      case 6: {
        if (c.flag()) {
          VF_LOG(c, "#" << id << " is moved to a new place\n");
          me.map = std::make_unique<Map>(std::move(*me.map));
        } else if (ms.size() > 1) {
          VF_LOG(c, "#" << id << " is destroyed\n");
          ms.erase(ms.begin() + id); c.label("destroyed");
        }
        break; }
      default: { // read
        if (unbounded || inside(*me.map, k)) { compare(*me.map, me.model, k, "read", id); }
        break; }
      }
      for (size_t j = 0; j < ms.size(); ++j) for (auto &t : touched) {
        if (!unbounded && !inside(*ms[j].map, t)) { continue; }
        compare(*ms[j].map, ms[j].model, t, "after the step", j);
      }
    }
    // all cells around the touched ones, in every survivor
    for (size_t j = 0; j < ms.size(); ++j) {
      for (auto &t : touched) {
        for (int d : {-128, -1, 0, 1, 128}) for (Coord o : {Coord{t.x + d, t.y}, Coord{t.x, t.y + d}}) {
          if (unbounded || inside(*ms[j].map, o)) { compare(*ms[j].map, ms[j].model, o, "final", j); }
        }
      }
      for (int r = 0; r < 20; ++r) {
        auto lo = ms[j].map->internal2external({0, 0});
        Coord o{lo.x + int(c.draw(ms[j].map->width() - 1)), lo.y + int(c.draw(ms[j].map->height() - 1))};
        compare(*ms[j].map, ms[j].model, o, "final", j);
      }
    }
    c.nontrivial(copies && writes_after_copy >= 2);
  }
};

static GridMapParams gen_params(Ctx &c) {
  int big = c.yes(1, 4) ? 500 : 140;
  return {int(c.len(1, big)), int(c.len(1, big)), c.pick({0.1, 1.0, 0.3})};
}

VF_TEST(bounded, "a copy was taken and two or more writes followed", 12000, 300000) {
  Family<LazyTiledGridMap> f; f.unbounded = false; f.run(c, gen_params(c));
}
VF_TEST(unbounded, "a copy was taken and two or more writes followed", 12000, 300000) {
  Family<UnboundedLazyTiledGridMap> f; f.unbounded = true; f.run(c, gen_params(c));
}
