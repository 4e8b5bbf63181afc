// the engine has to find these, and to stay quiet about "fine"
#include "vf.h"
VF_TEST(fine, "always", 200, 200) { long v = c.i(-5, 5); VF_CHECK(v >= -5 && v <= 5, "range"); c.nontrivial(); }
VF_TEST(assertion_like, "always", 2000, 2000) {
  std::vector<long> v; long n = c.len(0, 20);
  for (long k = 0; k < n; ++k) v.push_back(c.i(0, 1000));
  for (long x : v) VF_CHECK(x < 900, "big " << x);
}
VF_TEST(crashing, "always", 2000, 2000) {
  long n = c.i(0, 100); auto p = std::make_unique<int[]>(50);
  if (n < 55) { volatile int *q = p.get(); q[n] = 1; }
}
VF_TEST(rare_branch, "always", 40000, 40000) { // needs coverage guidance
  int st = 0;
  for (int k = 0; k < 12; ++k) {
    long v = c.i(0, 15);
    if (v == (k * 7) % 16) { if (k == st) ++st; }
    if (st == 1) { volatile int a = 1; (void)a; }
    if (st == 2) { volatile int a = 2; (void)a; }
    if (st == 3) { volatile int a = 3; (void)a; }
  }
  VF_CHECK(st < 4, "reached");
}
