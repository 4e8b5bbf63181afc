// C02: belief functions.
#include "vf.h"
#include "cells.h"

using vf::Ctx;
typedef long double ld;
typedef std::array<ld, 4> B; // mass of the subsets: bit 0 "may be empty", bit 1 "may be occupied"; {} is the contradiction
enum { NONE = 0, EMP = 1, OCC = 2, ANY = 3 };

static B of(const TBM &t) { return B{t.conflict(), t.empty(), t.occupied(), t.unknown()}; }
static TBM to(const B &b) { return TBM{double(b[ANY]), double(b[EMP]), double(b[OCC]), double(b[NONE])}; }
static B norm(B b) { ld s = b[0] + b[1] + b[2] + b[3]; if (s) for (auto &x : b) x /= s; return b; }

static B gen(Ctx &c) {
  B b{};
  switch (c.draw(3)) {
  case 0: b[ANY] = 1; break;
  case 1: b[c.draw(3)] = 1; break;
  case 2: for (auto &x : b) x = c.i(0, 4); break;
  default: for (auto &x : b) x = c.flag(1, 4) ? 0 : c.real(0, 1);
  }
  if (b[0] + b[1] + b[2] + b[3] == 0) b[ANY] = 1;
  return of(to(norm(b)));
}
static B combine(const B &x, const B &y, bool conj) {
  B r{};
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r[conj ? (i & j) : (i | j)] += x[i] * y[j];
  return r;
}
static std::string str(const B &b) {
  std::ostringstream os; os << "{conflict " << double(b[NONE]) << " empty " << double(b[EMP]) << " occupied " << double(b[OCC]) << " unknown " << double(b[ANY]) << "}";
  return os.str();
}
static bool same(const B &a, const B &b, ld tol = 1e-12L) { for (int i = 0; i < 4; ++i) if (!(fabsl(a[i] - b[i]) <= tol)) return false; return true; }
static bool valid(const B &b) { ld s = 0; for (auto x : b) { if (!(x >= 0 && x <= 1 + 1e-12L)) return false; s += x; } return fabsl(s - 1) < 1e-12L; }

VF_TEST(combination, "neither assignment is certain or vacuous", 60000, 1500000) {
  B x = gen(c), y = gen(c), z = gen(c);
  TBM tx = to(x), ty = to(y), tz = to(z);
  VF_LOG(c, str(x) << "\n" << str(y) << "\n" << str(z) << "\n");
  bool conj = c.flag();
  auto op = [&](const TBM &a, const TBM &b) { return conj ? conjunctive(a, b) : disjunctive(a, b); };
  TBM r = op(tx, ty);
  VF_CHECK(valid(of(r)), "the result is no assignment: " << str(of(r)));
  B e = combine(x, y, conj);
  VF_CHECK(same(of(r), e), (conj ? "conjunction " : "disjunction ") << str(of(r)) << ", expected " << str(e));
  VF_CHECK(same(of(op(ty, tx)), of(r)), "not commutative: " << str(of(op(ty, tx))) << " and " << str(of(r)));
  VF_CHECK(same(of(op(op(tx, ty), tz)), of(op(tx, op(ty, tz)))), "not associative: " << str(of(op(op(tx, ty), tz))) << " and " << str(of(op(tx, op(ty, tz)))));
  VF_CHECK(same(of(conjunctive(tx, TBM{})), x) && same(of(conjunctive(TBM{}, tx)), x), "vacuous belief is not neutral");
  VF_CHECK(same(of(disjunctive(tx, TBM{0, 0, 0, 1})), x), "contradiction is not neutral for the disjunction");
  VF_CHECK(same(of(tx), x) && same(of(ty), y), "an operand was changed");
  auto plain = [](const B &b) { for (auto v : b) if (v == 1) return false; return true; };
  if (e[NONE] > 0.99) c.label("conflict");
  c.label(conj ? "conj" : "disj");
  c.nontrivial(plain(x) && plain(y));
}

VF_TEST(normalisation, "some conflict and some other mass", 30000, 500000) {
  B x{};
  double scale = c.pick({1.0, 1.0, 3.0, 1e-6, 1e6});
  for (auto &v : x) v = c.flag(1, 3) ? 0 : scale * c.real(0, 1);
  x = of(to(x));
  VF_LOG(c, str(x) << "\n");
  ld all = x[0] + x[1] + x[2] + x[3], rest = all - x[NONE];
  rest = x[1] + x[2] + x[3];
  TBM t = to(x), u = to(x);
  t.normalize(); u.normalize_conflict();
  B vac{0, 0, 0, 1}, et = vac, eu = vac;
  if (all > 0) for (int i = 0; i < 4; ++i) et[i] = x[i] / all;
  if (rest > 0) for (int i = 0; i < 4; ++i) eu[i] = i == NONE ? 0 : x[i] / rest;
  VF_CHECK(valid(of(t)) && same(of(t), et), "normalised " << str(of(t)) << ", expected " << str(et));
  VF_CHECK(valid(of(u)) && same(of(u), eu), "without conflict " << str(of(u)) << ", expected " << str(eu));
  VF_CHECK(u.conflict() == 0, "conflict is left");
  TBM v = u; v.normalize_conflict(); v.normalize();
  VF_CHECK(same(of(v), of(u)), "normalising again changes " << str(of(u)) << " to " << str(of(v)));
  if (all == 0) c.label("zero"); else if (rest == 0) c.label("only_conflict");
  c.nontrivial(rest > 0 && x[NONE] > 0);
}

static B obs_belief(const AreaOccupancyObservation &o) {
  ld w = ld(o.occupancy.estimation_quality) * o.quality;
  return B{0, (1 - ld(o.occupancy.prob_occ)) * w, o.occupancy.prob_occ * w, 1 - w};
}
static TBM cell_belief(const GridCell &g) {
  if (auto t = dynamic_cast<const TbmBaseCell *>(&g)) return t->belief();
  return dynamic_cast<const CredibilistCell &>(g).belief();
}

VF_TEST(cells, "at least two observations with some weight", 40000, 800000) {
  int kind = c.pick({CK_Tbm, CK_TbmEven, CK_Credibilist});
  auto cell = make_cell(kind);
  VF_LOG(c, cell_kind_name(kind) << "\n");
  VF_CHECK(same(of(cell_belief(*cell)), B{0, 0, 0, 1}), "a new cell believes " << str(of(cell_belief(*cell))));
  int n = c.yes(1, 80) ? int(c.i(50, 400)) : int(c.len(1, 20)), weighty = 0;
  for (int k = 0; k < n; ++k) {
    auto o = gen_aoo(c);
    B before = of(cell_belief(*cell));
    *cell += o;
    B after = of(cell_belief(*cell));
    VF_LOG(c, " " << o << " -> " << str(after) << "\n");
    if (!o.occupancy.is_valid()) { VF_CHECK(same(before, after, 0), "an invalid observation changed the belief"); continue; }
    B ob = obs_belief(o);
    if (kind == CK_Credibilist) VF_CHECK(same(of(AOO_to_TBM(o)), ob), "belief of the observation " << str(of(AOO_to_TBM(o))));
    B e = combine(before, ob, true);
    ld w = e[1] + e[2] + e[3];
    if (w == 0) e = B{0, 0, 0, 1};
    else { e[NONE] = 0; for (auto &v : e) v /= w; }
    ld tol = 1e-9L;
    VF_CHECK(same(after, e, tol), "belief " << str(after) << ", expected " << str(e));
    VF_CHECK(after[NONE] == 0 && fabsl(after[1] + after[2] + after[3] - 1) < 1e-9L, "no assignment: " << str(after));
    for (auto v : after) VF_CHECK(v >= -1e-12L, "negative mass in " << str(after));
    Occupancy oc = cell->occupancy();
    ld p = after[OCC] + after[ANY] / 2, q = 1;
    if (kind == CK_Tbm) { q = after[OCC] + after[EMP]; p = q > 0 ? after[OCC] / q : 0.5L; }
    VF_CHECK(std::abs(oc.prob_occ - double(p)) < 1e-9 && std::abs(oc.estimation_quality - double(q)) < 1e-9, "occupancy " << oc << " of belief " << str(after));
    if (k == 0 && kind == CK_Tbm && ob[ANY] < 0.999L) // the conversion forth and back
      VF_CHECK(std::abs(oc.prob_occ - o.occupancy.prob_occ) < 1e-9 && std::abs(oc.estimation_quality - o.occupancy.estimation_quality * o.quality) < 1e-9, "occupancy " << oc << " after the first observation");
    weighty += ob[ANY] < 0.99L;
  }
  c.label(cell_kind_name(kind));
  c.nontrivial(weighty >= 2);
}
