// S01: any sequence of N appends to an empty signal.
#include "sx.h"
#include "signal_tl/signal.hpp"
using namespace signal_tl::signal;
#ifndef N
#define N 3
#endif
static int later(double a, double b) { return a > b; }
extern "C" void sx_main() {
  Signal s;
  double rt[N], rv[N]; int n = 0;
  for (int k = 0; k < N; k++) {
    double t = sx_double("t"), v = sx_double("v");
    double d = sx_double("d");
    uint64_t form = sx_choose("form", 2);
    bool threw = false;
    try { if (form) s.push_back(t, v); else s.push_back(Sample{t, v, d}); }
    catch (const std::exception&) { threw = true; }
    bool ok = n == 0 || later(t, rt[n - 1]);
    sx_check(threw == !ok, "accepted-iff-later");
    if (!threw) { rt[n] = t; rv[n] = v; n++; sx_reach("accepted"); } else sx_reach("rejected");
    sx_check((int)s.size() == n, "size");
    sx_check(s.empty() == (n == 0), "empty");
    if ((int)s.size() != n || n == 0) return;
    sx_check(sx_same(s.begin_time(), rt[0]), "begin-time");
    sx_check(sx_same(s.end_time(), rt[n - 1]), "end-time");
    sx_check(sx_same(s.front().time, rt[0]) & sx_same(s.front().value, rv[0]), "front");
    sx_check(sx_same(s.back().time, rt[n - 1]) & sx_same(s.back().value, rv[n - 1]), "back");
    int i = 0;
    for (const auto& p : s) {
      sx_check(sx_same(p.time, rt[i]) & sx_same(p.value, rv[i]), "iterate");
      sx_check(sx_same(s.at_idx(i).time, rt[i]) & sx_same(s.at_idx(i).value, rv[i]), "indexed");
      i++;
    }
    sx_check(i == n, "iterate-count");
    for (auto r = s.rbegin(); r != s.rend(); ++r) { i--; sx_check(sx_same(r->time, rt[i]) & sx_same(r->value, rv[i]), "reverse"); }
    sx_check(i == 0, "reverse-count");
    bool oob = false;
    try { (void)s.at_idx(n); } catch (const std::out_of_range&) { oob = true; }
    sx_check(oob, "index-out-of-range");
  }
  sx_obs_i("n", n);
}
