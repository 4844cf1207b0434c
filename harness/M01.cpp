// M01: the monotonic wedge after any history of pushes and pops.
#include "h.h"
#include "mono_wedge.h"
#include <deque>
#ifndef N
#define N 6
#endif
struct Item { double v; uint64_t at; bool operator<(const Item& o) const { return v < o.v; } bool operator>(const Item& o) const { return v > o.v; } bool operator<=(const Item& o) const { return v <= o.v; } bool operator>=(const Item& o) const { return v >= o.v; } };
template <class W, class F> static void history(bool maximum, bool strict, F update) {
  W w; double all[N]; int pushed = 0, popped = 0;
  for (int step = 0; step < N; step++) {
    bool pop = popped < pushed && POPS && sx_choose("pop", 2);
    if (pop) {
      popped++;
      while (!w.empty() && w.front().at < (uint64_t)popped) w.erase(w.begin());
    } else {
#ifdef REALV
      all[pushed] = val("v");
#else
      all[pushed] = sx_double("v"); sx_assume(all[pushed] == all[pushed]);
#endif
      update(w, Item{all[pushed], (uint64_t)pushed}); pushed++;
    }
    if (pushed == popped) { sx_check(w.empty(), "empty-when-all-popped"); continue; }
    sx_check(!w.empty(), "non-empty");
    if (w.empty()) return;
    // last pushed value is at the back, nothing is invented, ages increase, sorted
    sx_check((w.back().at == (uint64_t)pushed - 1) & (w.back().v == all[pushed - 1]), "last-pushed-at-back");
    bool first = true; double pv = 0; uint64_t pa = 0;
    for (const auto& i : w) {
      sx_check(i.at >= (uint64_t)popped && i.at < (uint64_t)pushed, "only-live-values");
      if (i.at >= (uint64_t)pushed) return;
      sx_check(i.v == all[i.at], "value-kept");
      if (!first) { sx_check(i.at > pa, "push-order"); sx_check(maximum ? (strict ? pv > i.v : pv >= i.v) : (strict ? pv < i.v : pv <= i.v), "sorted"); }
      pv = i.v; pa = i.at; first = false;
    }
    double best = all[popped];
    for (int i = popped + 1; i < pushed; i++) best = maximum ? sx_max(best, all[i]) : sx_min(best, all[i]);
    sx_check(w.front().v == best, "front-is-extremum");
    // every value that no later one beats (or equals, for a strict comparison) is still there
    for (int i = popped; i < pushed; i++) {
      int beaten = 0;
      for (int j = i + 1; j < pushed; j++) beaten |= maximum ? all[j] >= all[i] : all[j] <= all[i];
      bool in = false; for (const auto& x : w) in |= x.at == (uint64_t)i;
      if (!in) sx_check(beaten, "could-still-win");
    }
  }
  sx_reach(maximum ? "max" : "min");
}
extern "C" void sx_main() {
  uint64_t k = sx_choose("wedge", 8);
  using D = std::deque<Item>;
  switch (k) {
    case 0: history<D>(false, true, [](D& w, const Item& i) { mono_wedge::mono_wedge_update(w, i, std::less<>()); }); break;
    case 1: history<D>(true, true, [](D& w, const Item& i) { mono_wedge::mono_wedge_update(w, i, std::greater<>()); }); break;
    case 2: history<D>(false, true, [](D& w, const Item& i) { mono_wedge::min_wedge_update(w, i); }); break;
    case 3: history<D>(true, true, [](D& w, const Item& i) { mono_wedge::max_wedge_update(w, i); }); break;
    case 4: history<D>(false, false, [](D& w, const Item& i) { mono_wedge::mono_wedge_update(w, i, std::less_equal<>()); }); break;
    case 5: history<D>(true, false, [](D& w, const Item& i) { mono_wedge::mono_wedge_update(w, i, std::greater_equal<>()); }); break;
    case 6: history<D>(false, true, [](D& w, const Item& i) { Item c = i; mono_wedge::mono_wedge_update(w, std::move(c), std::less<>()); }); break;
    case 7: history<D>(true, false, [](D& w, const Item& i) { Item c = i; mono_wedge::mono_wedge_update(w, std::move(c), std::greater_equal<>()); }); break;
  }
}
