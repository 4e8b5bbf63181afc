// C01: cell occupancy models.
#include "vf.h"
#include "cells.h"

using vf::Ctx;
typedef long double ld;

// independent formulas of every cell model
struct Ref {
  int kind; ld p = 0.5, q = 1; bool known = false;
  int n = 0, hits = 0; ld sum = 0, hx = 0, hy = 0;      // counters
  ld occ = 0, emp = 0, unk = 1;                          // belief
  static void belief(const AreaOccupancyObservation &o, ld &occ, ld &emp, ld &unk) {
    ld w = ld(o.occupancy.estimation_quality) * o.quality;
    occ = o.occupancy.prob_occ * w; emp = (1 - ld(o.occupancy.prob_occ)) * w; unk = 1 - w;
  }
  bool believes() const { return kind == CK_Tbm || kind == CK_TbmEven || kind == CK_Credibilist; }
  void add(const AreaOccupancyObservation &o) {
    if (std::isnan(o.occupancy.prob_occ) || std::isnan(o.occupancy.estimation_quality)) return;
    known = true; ++n;
    ld op = o.occupancy.prob_occ;
    if (kind == CK_Affine) p = (1 - ld(o.quality)) * p + o.quality * op;
    else if (kind == CK_Mean) { sum += 0.5L + (op - 0.5L) * o.quality; p = sum / n; }
    else if (kind == CK_Gmapping) {
      if (op > 0.5) { ++hits; sum += op; hx += o.obstacle.x; hy += o.obstacle.y; }
      p = sum / n;
    } else {
      ld bo, be, bu; belief(o, bo, be, bu);
      ld no = occ * bo + occ * bu + unk * bo, ne = emp * be + emp * bu + unk * be, nu = unk * bu, w = no + ne + nu;
      if (w == 0) { occ = emp = 0; unk = 1; } // contradiction
      else { occ = no / w; emp = ne / w; unk = nu / w; }
      if (kind == CK_Tbm) { q = occ + emp; p = q > 0 ? occ / q : 0.5L; }
      else p = occ + unk / 2;
    }
  }
  ld discrepancy(const AreaOccupancyObservation &o) const {
    if (kind == CK_Affine || kind == CK_Mean) return fabsl(p - o.occupancy.prob_occ);
    if (kind == CK_Gmapping) {
      if (!hits) return 1; // nothing to agree with
      ld x = hx / hits, y = hy / hits;
      return 1 - expl(-((x - o.obstacle.x) * (x - o.obstacle.x) + (y - o.obstacle.y) * (y - o.obstacle.y)) / 0.05L);
    }
    ld bo, be, bu; belief(o, bo, be, bu);
    if (kind == CK_Credibilist) return 1 - occ * bo; // both say it is occupied
    ld u = (unk + bu) / 2, conflict = occ * be + emp * bo;
    return u / 2 + (1 - u) * (conflict + fabsl(bo - occ)) / 2;
  }
  double tol() const { return believes() ? 1e-7 : 1e-9; }
};

static void compare(Ctx &c, const GridCell &cell, const Ref &r, const char *who) {
  VF_CHECK(cell.is_unknown() == !r.known, who << " is_unknown() is " << cell.is_unknown() << " after " << r.n << " valid observations");
  double p = cell.occupancy().prob_occ, q = cell.occupancy().estimation_quality;
  if (!r.known) { VF_CHECK(!std::isnan(p), who << " NaN before any observation"); return; }
  VF_CHECK(p >= -1e-9 && p <= 1 + 1e-9, who << " occupancy " << p << " is not in [0, 1]");
  VF_CHECK(q >= -1e-9 && q <= 1 + 1e-9, who << " quality " << q << " is not in [0, 1]");
  VF_CHECK(double(cell) == p, who << " operator double");
  bool shaky = r.kind == CK_Tbm && r.q < 1e-9; // ratio of two tiny masses
  if (!shaky) VF_CHECK(std::abs(p - double(r.p)) <= r.tol() / (r.kind == CK_Tbm ? std::max(1e-6, double(r.q)) : 1), who << " occupancy " << p << ", expected " << double(r.p));
  VF_CHECK(std::abs(q - double(r.q)) <= r.tol(), who << " quality " << q << ", expected " << double(r.q));
}

VF_TEST(history, "at least three valid observations", 60000, 1500000) {
  int kind = int(c.draw(CK_N - 1));
  c.label(cell_kind_name(kind));
  std::vector<std::shared_ptr<GridCell>> cells{make_cell(kind)};
  std::vector<Ref> refs(1); refs[0].kind = kind;
  VF_LOG(c, cell_kind_name(kind) << "\n");
  int n = c.yes(1, 60) ? int(c.yes(1, 10) ? c.i(3000, 9000) : c.i(100, 1500)) : int(c.len(1, 40)); // now and then a cell that is seen all the time
  bool hard = c.yes(1, 4); // certain observations mostly
  for (int k = 0; k < n; ++k) {
    size_t i = cells.size() > 1 ? c.draw(cells.size() - 1) : 0;
    if (cells.size() < 4 && c.yes(1, 8)) {
      cells.push_back(std::shared_ptr<GridCell>(cells[i]->clone())); refs.push_back(refs[i]);
      VF_LOG(c, " copy of " << i << "\n");
      c.label("copied");
      continue;
    }
    auto o = gen_aoo(c);
    if (hard && o.occupancy.is_valid()) { o.occupancy.prob_occ = c.i(0, 1); o.occupancy.estimation_quality = 1; o.quality = 1; }
    if (!o.occupancy.is_valid() && c.flag()) { // invalid in one component only
      if (c.flag()) o.occupancy.prob_occ = 0.25; else o.occupancy.estimation_quality = 0.75;
    }
    VF_LOG(c, " " << i << " += " << o << "\n");
    if (!o.occupancy.is_valid()) {
      auto before = *cells[i] ;
      Occupancy b = cells[i]->occupancy(); bool u = cells[i]->is_unknown(); auto bytes = cells[i]->serialize();
      *cells[i] += o;
      VF_CHECK(cells[i]->is_unknown() == u && cells[i]->occupancy().prob_occ == b.prob_occ && cells[i]->occupancy().estimation_quality == b.estimation_quality
               && cells[i]->serialize() == bytes, "an observation without an estimate changed the cell");
      c.label("invalid_obs");
    } else {
      auto prev = refs[i];
      *cells[i] += o; refs[i].add(o);
      if (refs[i].believes() && refs[i].unk == 1 && prev.unk < 1) c.label("contradiction");
    }
    compare(c, *cells[i], refs[i], "the cell");
    auto probe = gen_aoo(c, false);
    double d = cells[i]->discrepancy(probe);
    VF_CHECK(d >= -1e-9 && d <= 1 + 1e-9, "disagreement " << d << " with " << probe << " is not in [0, 1]");
    VF_CHECK(std::abs(d - double(refs[i].discrepancy(probe))) <= std::max(1e-7, refs[i].tol()), "disagreement " << d << " with " << probe << ", expected " << double(refs[i].discrepancy(probe)));
    compare(c, *cells[i], refs[i], "after asking for the disagreement, the cell");
  }
  int valid = 0;
  for (size_t i = 0; i < cells.size(); ++i) { compare(c, *cells[i], refs[i], "at the end, a cell"); valid = std::max(valid, refs[i].n); }
  c.nontrivial(valid >= 3);
}

VF_TEST(order, "at least three observations in a new order", 20000, 300000) {
  int kind = c.pick({CK_Mean, CK_Gmapping, CK_Tbm, CK_TbmEven, CK_Credibilist});
  int n = c.len(2, 20);
  std::vector<AreaOccupancyObservation> os;
  for (int i = 0; i < n; ++i) {
    os.push_back(gen_aoo(c, false));
    // beliefs may be combined in any order as long as they never contradict totally
    if (kind >= CK_Tbm && kind <= CK_Credibilist) os.back().quality *= 0.9;
  }
  auto ps = os;
  for (size_t i = ps.size(); i > 1; --i) std::swap(ps[i - 1], ps[c.draw(i - 1)]);
  auto a = make_cell(kind), b = make_cell(kind);
  VF_LOG(c, cell_kind_name(kind) << "\n");
  for (auto &o : os) { *a += o; VF_LOG(c, " " << o << "\n"); }
  for (auto &o : ps) *b += o;
  double qa = a->occupancy().estimation_quality, qb = b->occupancy().estimation_quality;
  VF_CHECK(std::abs(qa - qb) < 1e-6, "qualities " << qa << " and " << qb);
  if (qa > 1e-3) VF_CHECK(std::abs(double(*a) - double(*b)) < 1e-6, "occupancies " << double(*a) << " and " << double(*b) << " for two orders");
  auto probe = gen_aoo(c, false);
  VF_CHECK(std::abs(a->discrepancy(probe) - b->discrepancy(probe)) < 1e-6, "disagreements differ");
  c.label(cell_kind_name(kind));
  c.nontrivial(n >= 3);
}
