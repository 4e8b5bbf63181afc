// random maps, scans and scorers that several harnesses share
#ifndef SCENES_H
#define SCENES_H
#include "core_all.h"
#include "cells.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
#include "core/scan_matchers/weighted_mean_point_probability_spe.h"

using Coord = RegularSquaresGrid::Coord;
struct Quiet { Quiet() { std::clog.rdbuf(nullptr); } }; // unknown scores are announced there
static Quiet quiet_clog;

struct QuietOut { // some components print
  QuietOut() : b{std::cout.rdbuf(nullptr)} {} ~QuietOut() { std::cout.rdbuf(b); } std::streambuf *b;
};
struct Write { Coord k; AreaOccupancyObservation a; };
inline std::vector<Write> gen_writes(vf::Ctx &c, long max_n, int span, double scale) {
  std::vector<Write> w; long n = c.len(0, max_n);
  for (long i = 0; i < n; ++i) {
    Coord k{int(c.i(-span, span)), int(c.i(-span, span))};
    // walls: several cells in a row
    long l = c.flag(1, 3) ? c.i(2, 6) : 1; bool hor = c.flag();
    auto a = gen_aoo(c, false);
    for (long j = 0; j < l; ++j) {
      Coord q{k.x + (hor ? int(j) : 0), k.y + (hor ? 0 : int(j))};
      if (std::abs(q.x) > span || std::abs(q.y) > span) break;
      a.obstacle = {(q.x + c.i(1, 9) / 10.) * scale, (q.y + c.i(1, 9) / 10.) * scale};
      w.push_back({q, a});
    }
  }
  return w;
}
#endif
