// F01: weights and resampling of the particle filter.
#include "vf.h"
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <vector>
#include "core/particle_filter.h"

using vf::Ctx;

// A hypothesis with a name, state of its own and a resource that a plain copy shares until it is asked to become
// a sample of its own (that is what the grid-mapping particles do).
struct Hyp : Particle {
  int name = -1; std::vector<int> state; std::shared_ptr<std::vector<int>> res = std::make_shared<std::vector<int>>(); int samples = 0;
  void sample() override { ++samples; res = std::make_shared<std::vector<int>>(*res); }
};
struct HypFactory : ParticleFactory<Hyp> {
  int made = 0;
  std::shared_ptr<Hyp> create_particle() override { ++made; return std::make_shared<Hyp>(); }
};
using PF = ParticleFilter<Hyp>;

static double gen_weight(Ctx &c, int style) {
  switch (style) {
  case 0: return c.unit();
  case 1: return 1;
  case 2: return c.flag(2, 3) ? 0 : c.unit();
  case 3: return std::ldexp(1 + c.unit(), -int(c.i(0, 300)));   // almost all of it in a few particles
  case 4: return std::ldexp(1 + c.unit(), int(c.i(0, 40)));
  case 5: return c.i(0, 4);
  case 6: return std::ldexp(1 + c.unit(), -int(c.i(900, 1074))); // (almost) vanishing
  case 7: return c.flag(2, 3) ? 1 : c.pick({1.7e308, 1e308, HUGE_VAL, std::nan(""), 0.}); // numbers that don't add up
  default: return 0;
  }
}

static double weight_sum(const PF &f) { double s = 0; for (auto &p : f.particles()) s += p->weight(); return s; }
static void check_weights(const PF &f, size_t n) {
  VF_CHECK(f.particles().size() == n, f.particles().size() << " particles instead of " << n);
  for (auto &p : f.particles()) VF_CHECK(std::isfinite(p->weight()) && p->weight() >= 0, "weight " << p->weight());
  VF_CHECK(std::abs(weight_sum(f) - 1) < 1e-9, "the weights sum to " << weight_sum(f));
  double best = 0; for (auto &p : f.particles()) best = std::max(best, p->weight());
  VF_CHECK(f.heaviest_particle().weight() == best, "the heaviest particle has " << f.heaviest_particle().weight() << ", another one has " << best);
  bool own = false; for (auto &p : f.particles()) own |= p.get() == &f.heaviest_particle();
  VF_CHECK(own, "the heaviest particle isn't one of the filter");
}

static void check_history(Ctx &c, long n, long steps) {
  auto fac = std::make_shared<HypFactory>(); PF f{fac, unsigned(n)};
  VF_LOG(c, n << " particles\n");
  check_weights(f, n);
  for (auto &p : f.particles()) VF_CHECK(std::abs(p->weight() - 1. / n) < 1e-12, "initial weight " << p->weight());
  for (long i = 0; i < n; ++i) { f.particles()[i]->name = int(i); f.particles()[i]->state = {int(i)}; f.particles()[i]->res->push_back(int(i)); }
  int next_name = int(n); bool dup = false; int style = int(c.i(0, 8));
  for (long s = 0; s < steps; ++s) {
    if (c.flag(1, 3)) style = int(c.i(0, 8));
    switch (c.i(0, 4)) {
    case 0: for (auto &p : f.particles()) p->set_weight(gen_weight(c, style)); break;
    case 1: for (auto &p : f.particles()) p->set_weight(p->weight() * gen_weight(c, style)); break; // as scans are weighted
    case 2: { auto k = c.i(0, n - 1); f.particles()[k]->set_weight(gen_weight(c, style)); break; }
    case 3: { auto &p = f.particles()[c.i(0, n - 1)]; p->state.push_back(++next_name); p->res->push_back(next_name); break; }
    default: break;
    }
    std::vector<double> w; for (auto &p : f.particles()) w.push_back(p->weight());
    double sum = 0, big = 0; for (double v : w) { sum += v; big = std::max(big, v); }
    f.normalize_weights(); check_weights(f, n);
    if (c.verbose()) { VF_LOG(c, "weights"); for (auto &p : f.particles()) VF_LOG(c, " " << p->weight()); VF_LOG(c, "\n"); }
    if (!std::isfinite(sum)) c.label("no sum");
    if (sum == 0) { c.label("no weight"); for (auto &p : f.particles()) VF_CHECK(std::abs(p->weight() - 1. / n) < 1e-12, "weight " << p->weight() << " when no particle has any"); }
    else if (big > 1e-290 && std::isfinite(sum))
      for (long i = 0; i < n; ++i) VF_CHECK(std::abs(f.particles()[i]->weight() - w[i] / sum) <= 1e-12 + 1e-9 * w[i] / sum, "weight " << w[i] << " of " << sum << " is normalised to " << f.particles()[i]->weight());
    if (c.flag(1, 4)) continue;
    // resampling
    std::vector<std::shared_ptr<Hyp>> before = f.particles(); std::vector<Hyp> was; for (auto &p : before) { was.push_back(*p); was.back().res = std::make_shared<std::vector<int>>(*p->res); }
    long double sq = 0; for (auto &p : was) sq += (long double)p.weight() * p.weight();
    double ratio = double(2 / sq / n);
    bool done = f.try_resample();
    if (std::abs(ratio - 1) > 1e-6) VF_CHECK(done == (ratio < 1), "effective number of " << n << " particles is " << double(1 / sq) << ", resampled: " << done);
    check_weights(f, n);
    if (!done) {
      for (long i = 0; i < n; ++i) VF_CHECK(f.particles()[i] == before[i] && before[i]->weight() == was[i].weight() && before[i]->state == was[i].state, "particle " << i << " is changed without resampling");
      continue;
    }
    c.label("resampled");
    std::set<Hyp *> ptrs; std::set<void *> ress; std::map<int, int> copies;
    for (auto &p : f.particles()) {
      VF_CHECK(ptrs.insert(p.get()).second, "a particle occurs twice");
      VF_CHECK(ress.insert(p->res.get()).second, "two particles share their map");
      int from = -1; for (long i = 0; i < n; ++i) if (was[i].name == p->name) from = int(i);
      VF_CHECK(from >= 0, "a particle made from nothing: " << p->name);
      VF_CHECK(was[from].weight() > 0, "a particle without a weight is kept");
      VF_CHECK(p->state == was[from].state && *p->res == *was[from].res, "a particle isn't a copy of the particle it was drawn from");
      if (++copies[from] > 1) dup = true;
    }
    for (long i = 0; i < n; ++i) { f.particles()[i]->name = ++next_name; if (c.flag()) { auto old = f.particles()[i]->state; f.particles()[i]->state.push_back(next_name); f.particles()[i]->res->push_back(next_name);
        for (long j = 0; j < n; ++j) if (j != i) VF_CHECK(f.particles()[j]->state.empty() || f.particles()[j]->state.back() != next_name, "a change of one particle is visible in another one"); } }
  }
  c.nontrivial(n >= 3 && dup);
}

VF_TEST(history, "at least 3 particles, resampled once or more with a particle drawn twice", 16000, 400000) { long n = c.len(1, 24); check_history(c, n, c.len(1, 12)); }
VF_TEST(many, "at least 3 particles, resampled once or more with a particle drawn twice", 200, 4000) { long n = c.i(25, 300); check_history(c, n, c.len(1, 6)); }

// how often each particle is drawn
VF_TEST(frequencies, "3 particles or more and at least 2 of them are expected to be drawn often", 500, 10000) {
  long n = c.len(2, 16); int style = int(c.i(0, 5));
  std::vector<double> w(n); for (auto &v : w) v = gen_weight(c, style == 1 ? 2 : style);
  // one heavy particle makes it necessary
  if (c.flag()) { double s = 0; for (double v : w) s += v; w[c.i(0, n - 1)] += s * c.real(1, 6); }
  double sum = 0, sq = 0; for (double v : w) sum += v;
  if (!(sum > 0)) return;
  for (auto &v : w) { v /= sum; sq += v * v; }
  if (!(1 / sq * 2 < n * 0.999)) { c.label("not required"); return; }
  const long trials = std::max(20L, 4000 / n);
  std::vector<double> cnt(n, 0);
  for (long t = 0; t < trials; ++t) {
    auto fac = std::make_shared<HypFactory>(); PF f{fac, unsigned(n)};
    for (long i = 0; i < n; ++i) { f.particles()[i]->name = int(i); f.particles()[i]->set_weight(w[i]); }
    VF_CHECK(f.try_resample(), "not resampled with an effective number of " << 1 / sq << " of " << n);
    for (auto &p : f.particles()) ++cnt[p->name];
  }
  double N = double(n) * trials; long often = 0;
  for (long i = 0; i < n; ++i) {
    VF_LOG(c, "weight " << w[i] << " drawn " << cnt[i] << " of " << N << "\n");
    if (w[i] * N > 50) ++often;
    double var = N * w[i] * (1 - w[i]), L = 27; // Bernstein: exceeded with a probability of exp(-27)
    VF_CHECK(std::abs(cnt[i] - N * w[i]) <= std::sqrt(2 * var * L) + 0.7 * L + 1, "a particle of weight " << w[i] << " is drawn " << cnt[i] << " times of " << N);
    if (w[i] == 0) VF_CHECK(cnt[i] == 0, "a particle without a weight is drawn");
  }
  c.nontrivial(n >= 3 && often >= 2);
}

// the edge between enough and not enough effective particles (weights are powers of two, so it's exact)
VF_TEST(edge, "the effective number is exactly a half of the particles or next to it", 4000, 40000) {
  long k = 1L << c.i(0, 4), n = c.yes(1, 2) ? 2 * k : c.i(k, 4 * k);
  auto fac = std::make_shared<HypFactory>(); PF f{fac, unsigned(n)};
  std::vector<long> who; for (long i = 0; i < n; ++i) who.push_back(i);
  for (long i = n - 1; i > 0; --i) std::swap(who[i], who[c.i(0, i)]);
  for (long i = 0; i < n; ++i) f.particles()[who[i]]->set_weight(i < k ? 1. / k : 0);
  VF_LOG(c, k << " of " << n << " particles share the weight\n");
  bool done = f.try_resample();
  VF_CHECK(done == (2 * k < n), k << " effective particles of " << n << ", resampled: " << done);
  c.nontrivial(std::abs(2 * k - n) <= 1);
}

// particles of a small weight are drawn as often as the other ones, whatever their place is
VF_TEST(seldom, "a particle of a weight below 1% is expected to be drawn at least 150 times", 16, 300) {
  long n = c.i(6, 16); std::vector<double> w(n, 0);
  for (long i = 0; i < n; ++i) w[i] = c.flag(1, 3) ? 0 : c.real(0.0015, 0.004);
  long h = c.i(1, n - 2); w[0] = c.real(0.0015, 0.004); w[n - 1] = c.real(0.0015, 0.004); w[h] = 0; double s = 0; for (double v : w) s += v; w[h] = 1 - s;
  std::vector<double> cnt(n, 0); long trials = 120000 / n; double N = double(trials) * n;
  auto fac = std::make_shared<HypFactory>();
  for (long t = 0; t < trials; ++t) {
    PF f{fac, unsigned(n)}; for (long i = 0; i < n; ++i) { f.particles()[i]->name = int(i); f.particles()[i]->set_weight(w[i]); }
    VF_CHECK(f.try_resample(), "not resampled");
    for (auto &p : f.particles()) ++cnt[p->name];
  }
  for (long i = 0; i < n; ++i) {
    VF_LOG(c, "weight " << w[i] << " drawn " << cnt[i] << " of " << N << "\n");
    double m = N * w[i], L = 27; VF_CHECK(std::abs(cnt[i] - m) <= std::sqrt(2 * m * (1 - w[i]) * L) + 0.7 * L + 1, "a particle of weight " << w[i] << " is drawn " << cnt[i] << " times of " << N);
  }
  c.nontrivial(true);
}
