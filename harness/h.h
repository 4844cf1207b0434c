// Shared oracle helpers. Times are concrete where the oracle interpolates; values are symbolic.
#pragma once
#include "sx.h"
#include "signal_tl/ast.hpp"
#include "signal_tl/robustness.hpp"
#include "signal_tl/signal.hpp"
#include <exception>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
using namespace signal_tl;
using signal::Sample; using signal::Signal; using signal::SignalPtr; using signal::Trace;
namespace {
constexpr double INF = std::numeric_limits<double>::infinity();
constexpr double NaN = std::numeric_limits<double>::quiet_NaN();
// Units of time and value. Powers of two: scaling by them commutes with every operation, so what holds must hold at any scale.
#ifndef SCALE
#define SCALE 0
#endif
#if SCALE == 1                          // minute: absolute tolerances and roundings of any size become visible
constexpr double TS = 0x1p-60, TO = 0, VS = 0x1p-60, UNIT = 1e-6; constexpr int VBITS = 70, RBITS = 66;
#elif SCALE == 2                        // huge: clamps and narrower number types become visible
constexpr double TS = 0x1p40, TO = 0, VS = 0x1p40, UNIT = 1e-6; constexpr int VBITS = 0, RBITS = 0;
#elif SCALE == 3                        // close together but far from zero: relative tolerances become visible
constexpr double TS = 0x1p-42, TO = 1, VS = 0x1p-10, UNIT = 1e-9; constexpr int VBITS = 44, RBITS = 40;
#elif SCALE == 4                        // flat: minute slopes
constexpr double TS = 0x1p24, TO = 0, VS = 0x1p-24, UNIT = 1e-6; constexpr int VBITS = 34, RBITS = 30;
#elif SCALE == 5                        // steep: huge slopes
constexpr double TS = 0x1p-24, TO = 0, VS = 0x1p24, UNIT = 1e-6; constexpr int VBITS = 0, RBITS = 0;
#elif SCALE == 6                        // fine: no instant or duration fits a narrower number type
constexpr double TS = 0x1.0000000001p0, TO = 0, VS = 1, UNIT = 1e-12; constexpr int VBITS = 40, RBITS = 30;
#else
constexpr double TS = 1, TO = 0, VS = 1, UNIT = 1e-6; constexpr int VBITS = 10, RBITS = 6;
#endif
constexpr double TOL = UNIT * VS;       // values are at most 1024 units in magnitude; a wrong value is free to differ by far more
constexpr double STOL = 1e-4 * VS / TS; // the same for slopes
[[maybe_unused]] void times(double& x) { x = TO + x * TS; }          // instants
[[maybe_unused]] void spans(double& x) { x = x * TS; }               // durations
[[maybe_unused]] void slopes(double& x) { x = x * (VS / TS); }
template <typename T, size_t M_> void times(T (&a)[M_]) { if (SCALE) for (auto& x : a) times(x); }
template <typename T, size_t M_> void spans(T (&a)[M_]) { if (SCALE) for (auto& x : a) spans(x); }
template <typename T, size_t M_> void slopes(T (&a)[M_]) { if (SCALE) for (auto& x : a) slopes(x); }
// windows in units of time; integers where the units allow them
[[maybe_unused]] ast::Interval win(double a, double b) { return ast::Interval(a * TS, b * TS); }
[[maybe_unused]] ast::Interval iwin(double a, double b) {
  if (SCALE == 0 || SCALE == 2) return ast::Interval((unsigned long long)(a * TS), (unsigned long long)(b * TS));
  return win(a, b);
}
[[maybe_unused]] int near(double a, double b, double tol = TOL) { return (a - b <= tol) & (b - a <= tol); }
[[maybe_unused]] int same(double a, double b) { return sx_same(a, b) | (a == b); }      // equal, or the same NaN
[[maybe_unused]] double val(const char* n) { return sx_real(n, -1024 * VS, 1024 * VS, VBITS); }      // any multiple of 2^-VBITS
struct Pts {
  int n = 0; double t[12]; double v[12];
  void add(double a, double b) { t[n] = a; v[n] = b; n++; }
};
[[maybe_unused]] SignalPtr mk(const Pts& p) {
  std::vector<double> t(p.t, p.t + p.n), v(p.v, p.v + p.n);
  return std::make_shared<Signal>(v, t);
}
// piecewise-linear value; held beyond the last sample (concrete times)
[[maybe_unused]] double ref_at(const Pts& p, double t) {
  int k = 0;
  if (t >= p.t[p.n - 1]) return p.v[p.n - 1];
  while (k + 1 < p.n && p.t[k + 1] <= t) k++;
  if (p.t[k] == t) return p.v[k];
  return p.v[k] + (p.v[k + 1] - p.v[k]) * ((t - p.t[k]) / (p.t[k + 1] - p.t[k]));
}
// copy of a signal (sizes concrete)
[[maybe_unused]] Pts grab(const Signal& s) { Pts p; for (const auto& x : s) { if (p.n == 12) break; p.add(x.time, x.value); } return p; }
[[maybe_unused]] int unchanged(const Signal& s, const Pts& p) {
  int ok = (int)s.size() == p.n, i = 0;
  if (!ok) return 0;
  for (const auto& x : s) { ok &= same(x.time, p.t[i]) & same(x.value, p.v[i]); i++; }
  return ok;
}
// a signal whose timestamps are a subset (by bit mask) of a lattice, with symbolic values
[[maybe_unused]] Pts subset(const char* name, const double* lat, int n, uint64_t mask, bool fp = false) {
  Pts p;
  for (int i = 0; i < n; i++) if (mask >> i & 1) p.add(lat[i], fp ? sx_double(name) : val(name));
  return p;
}
} // namespace
// ---- robustness harness helpers
namespace {
// a signal on lat[mask] whose slopes are the given constants and whose level is symbolic: all interpolation is exact
[[maybe_unused]] Pts ramp(const char* name, const double* lat, int n, uint64_t mask, const double* slopes) {
  Pts p; double v = 0; bool first = true; int last = -1; int g = 0;
  for (int i = 0; i < n; i++) if (mask >> i & 1) {
    if (first) { v = sx_real(name, -64 * VS, 64 * VS, RBITS); first = false; } else v = v + slopes[g++] * (lat[i] - lat[last]);
    p.add(lat[i], v); last = i;
  }
  return p;
}
[[maybe_unused]] Expr above(const char* n, double c = 0.0) { return Predicate(n) > c * VS; }
[[maybe_unused]] SignalPtr rob(const Expr& f, const Trace& t) { return semantics::compute_robustness(f, t); }
// timestamps of either operand in the common span (concrete times)
[[maybe_unused]] Pts common(const Pts& p, const Pts& q, bool maximum, bool want_min_max = true) {
  Pts e;
  if (!p.n || !q.n) return e;
  double lo = p.t[0] > q.t[0] ? p.t[0] : q.t[0], hi = p.t[p.n - 1] < q.t[q.n - 1] ? p.t[p.n - 1] : q.t[q.n - 1];
  int i = 0, j = 0;
  while (i < p.n || j < q.n) {
    double t = i == p.n ? q.t[j] : j == q.n ? p.t[i] : p.t[i] < q.t[j] ? p.t[i] : q.t[j];
    if (i < p.n && p.t[i] == t) i++;
    if (j < q.n && q.t[j] == t) j++;
    if (t < lo || t > hi) continue;
    double a = ref_at(p, t), b = ref_at(q, t);
    e.add(t, want_min_max ? (maximum ? sx_max(a, b) : sx_min(a, b)) : 0.0);
  }
  return e;
}
// out has a sample at every time of e (in order) with that value; other samples lie strictly between; same span
[[maybe_unused]] void matches_at(const Signal& out, const Pts& e, const char* span, const char* present, const char* value, double tol = TOL) {
  sx_check(out.empty() == (e.n == 0), span);
  if (out.empty() || e.n == 0) return;
  int k = 0; double prev = 0; bool first = true;
  for (const auto& s : out) {
    if (!first) sx_check(s.time > prev, "strictly-increasing");
    prev = s.time; first = false;
    bool hit = false;
    if (k < e.n) { int eq = s.time == e.t[k]; hit = sx_fork(eq); }
    if (hit) { sx_check(near(s.value, e.v[k], tol) | same(s.value, e.v[k]), value); k++; }
    else { sx_check((k > 0) & (k < e.n), span); if (k == 0 || k >= e.n) return; sx_check((s.time > e.t[k - 1]) & (s.time < e.t[k]), present); }
  }
  sx_check(k == e.n, present);
}
} // namespace
