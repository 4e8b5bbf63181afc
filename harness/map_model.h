// A cell that remembers everything it was given, and a dictionary model of a
// grid map over such cells.
#ifndef MAP_MODEL_H
#define MAP_MODEL_H
#include "core_all.h"

inline vf::u64 &unknown_h() { static vf::u64 h = 1234567; return h; } // differs from case to case
class HistCell : public GridCell {
public:
  HistCell() : GridCell{Occupancy{0.5, 1}} {}
  std::unique_ptr<GridCell> clone() const override {
    return std::make_unique<HistCell>(*this);
  }
  void operator+=(const AreaOccupancyObservation &aoo) override {
    auto add = [this](double v) { vf::u64 u; std::memcpy(&u, &v, 8); h = (h ^ u) * 1099511628211ULL + 7; };
    add(aoo.is_occupied); add(aoo.occupancy.prob_occ);
    add(aoo.occupancy.estimation_quality); add(aoo.quality);
    add(aoo.obstacle.x); add(aoo.obstacle.y);
    _occupancy = aoo.occupancy;
    GridCell::on_update();
  }
  std::vector<char> serialize() const override {
    Serializer s(GridCell::serialize());
    s << h;
    return s.result();
  }
  std::size_t deserialize(const std::vector<char>& data, std::size_t pos = 0) override {
    Deserializer d(data, GridCell::deserialize(data, pos));
    d >> h;
    return d.pos();
  }
  vf::u64 h = unknown_h();
};

inline std::shared_ptr<HistCell> gen_prototype(vf::Ctx &c) { unknown_h() = 1234567 + c.i(0, 7); return std::make_shared<HistCell>(); }

struct CellView { vf::u64 h; double p, q; bool unknown;
  bool operator==(const CellView &o) const { return h == o.h && p == o.p && q == o.q && unknown == o.unknown; } };
inline std::ostream &operator<<(std::ostream &os, const CellView &v) {
  return os << "{h=" << v.h % 100000 << " p=" << v.p << " q=" << v.q << " unknown=" << v.unknown << "}";
}
inline CellView view(const GridCell &c) {
  auto *hc = dynamic_cast<const HistCell*>(&c);
  VF_CHECK(hc, "a stored cell lost its dynamic type");
  return {hc->h, c.occupancy().prob_occ, c.occupancy().estimation_quality, c.is_unknown()};
}

using Coord = RegularSquaresGrid::Coord;
struct CoordLess { bool operator()(const Coord &a, const Coord &b) const {
  return std::tie(a.x, a.y) < std::tie(b.x, b.y); } };
using Model = std::map<Coord, HistCell, CoordLess>;

inline AreaOccupancyObservation gen_hist_aoo(vf::Ctx &c) {
  AreaOccupancyObservation a{c.flag(), Occupancy{c.i(0, 100) / 100.0, c.i(0, 10) / 10.0},
                             Point2D{double(c.i(-50, 50)), double(c.i(-50, 50))}, c.i(0, 10) / 10.0};
  return a;
}

inline CellView model_view(const Model &m, const Coord &k) {
  auto it = m.find(k);
  return it == m.end() ? view(HistCell{}) : view(it->second);
}
#endif
