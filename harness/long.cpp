// Long signals, wide formulas and long histories: sizes far beyond the exhaustive configurations, with few symbolic values.
// MODE selects the property; the shapes (size, pattern, position of the free value) are choices, the free values symbolic.
#include "h.h"
#include "mono_wedge.h"
#include <deque>
#ifndef DEEP
#define DEEP 0
#endif
namespace {
struct L {
  std::vector<double> t, v;
  size_t n() const { return t.size(); }
  void add(double a, double b) { t.push_back(a); v.push_back(b); }
  SignalPtr sig() const { return std::make_shared<Signal>(v, t); }
  double at(double q) const {
    size_t k = 0;
    if (q >= t.back()) return v.back();
    while (k + 1 < n() && t[k + 1] <= q) k++;
    if (t[k] == q) return v[k];
    return v[k] + (v[k + 1] - v[k]) * ((q - t[k]) / (t[k + 1] - t[k]));
  }
};
// VAST: far larger, with fewer shapes
#ifdef VAST
#define VASTLY 1
const int SIZES[] = {70, 300, 1100};
[[maybe_unused]] uint64_t pick(const char* nm, uint64_t, uint64_t few) { return few < 2 ? few * 0 : sx_choose(nm, few); }
int size(int = 0) { return SIZES[sx_choose("size", MODE == 104 || MODE == 108 || MODE == 207 || MODE == 208 ? 2 : 3)]; }
#else
#define VASTLY 0
const int SIZES[] = {9, 17, 40};
[[maybe_unused]] uint64_t pick(const char* nm, uint64_t many, uint64_t) { return sx_choose(nm, many); }
int size(int upto = 3) { return SIZES[sx_choose("size", (uint64_t)upto)]; }
#endif
// background patterns: rising, falling, zigzag, candidates between high (low) samples, plateaus
#ifndef NPAT
#define NPAT 6
#endif
double shape(uint64_t p, int i) {
  switch (p) { case 0: return 2.0 * i; case 1: return -2.0 * i; case 2: return (i % 2 ? 1.0 : -1.0) * (3 + (i * 7) % 11); case 3: return i % 2 ? 2.0 * i : 60.0; case 4: return i % 2 ? -2.0 * i : -60.0; default: return (double)((i / 4) % 3) * 5; }
}
// evenly spaced, or with one gap of 64 steps after the first or before the last sample
[[maybe_unused]] double when(uint64_t spacing, int i, int n, double t0, double dt) { return t0 + dt * (i + (spacing == 1 && i > 0 ? 63 : spacing == 2 && i == n - 1 ? 63 : 0)); }
[[maybe_unused]] L background(int n, uint64_t pat, double t0 = 0.0, double dt = 0.5, double lift = 0.0, uint64_t spacing = 0) { L l; for (int i = 0; i < n; i++) l.add(when(spacing, i, n, t0, dt), shape(pat, i) + lift); return l; }
// two neighbouring free values among fixed ones
[[maybe_unused]] L everywhere(const char* nm, int n, double t0 = 0.0, double dt = 0.5, int width = 2, uint64_t spacing = 0) {
  int w = (int)sx_choose("where", 3), at = w == 0 ? 0 : w == 1 ? n / 2 : n - 2; L l;
  for (int i = 0; i < n; i++) l.add(when(spacing, i, n, t0, dt), i >= at && i < at + width ? val(nm) : shape(2, i));
  return l;
}
// the free value; in VAST, one near the value it stands for
[[maybe_unused]] double around(double c) {
  (void)c;
#ifdef VAST
  double v = sx_real("v", -1024, 1024, 6); sx_assume((v >= c - 8) & (v <= c + 8)); return v;
#else
  return val("v");
#endif
}
#ifdef VAST
[[maybe_unused]] double larger(double a, double b) { return sx_fork(a > b) ? a : b; }
[[maybe_unused]] double smaller(double a, double b) { return sx_fork(a < b) ? a : b; }
#else
[[maybe_unused]] double larger(double a, double b) { return sx_max(a, b); }
[[maybe_unused]] double smaller(double a, double b) { return sx_min(a, b); }
#endif
[[maybe_unused]] void keeps(const Signal& s, const L& l) {
  sx_check(s.size() == l.n(), "untouched-size"); if (s.size() != l.n()) return;
  int ok = 1; for (size_t i = 0; i < l.n(); i++) ok &= same(s.at_idx(i).time, l.t[i]) & same(s.at_idx(i).value, l.v[i]);
  sx_check(ok, "untouched");
}
[[maybe_unused]] void equals(const Signal& s, const L& l) {
  sx_check(s.size() == l.n(), "size"); if (s.size() != l.n()) return;
  for (size_t i = 0; i < l.n(); i++) { auto x = s.at_idx(i); sx_check(x.time == l.t[i], "time"); sx_check(near(x.value, l.v[i]) | same(x.value, l.v[i]), "value"); }
}
// result of a pointwise operator: every expected timestamp in order with its value, other samples strictly inside
[[maybe_unused]] void covers(const Signal& s, const L& l) {
  size_t k = 0; double prev = 0; bool first = true;
  for (const auto& x : s) {
    if (!first) sx_check(x.time > prev, "increasing");
    prev = x.time; first = false;
    if (k < l.n() && sx_fork(x.time == l.t[k])) { sx_check(near(x.value, l.v[k]) | same(x.value, l.v[k]), "value"); k++; }
    else { sx_check(k > 0 && k < l.n(), "span"); if (k == 0 || k >= l.n()) return; sx_check((x.time > l.t[k - 1]) & (x.time < l.t[k]), "timestamps"); }
  }
  sx_check(k == l.n(), "timestamps");
}
[[maybe_unused]] L merged(const L& a, const L& b, bool maximum) {
  L e; double lo = std::max(a.t[0], b.t[0]), hi = std::min(a.t.back(), b.t.back());
  size_t i = 0, j = 0;
  while (i < a.n() || j < b.n()) {
    double t = i == a.n() ? b.t[j] : j == b.n() ? a.t[i] : std::min(a.t[i], b.t[j]);
    if (i < a.n() && a.t[i] == t) i++;
    if (j < b.n() && b.t[j] == t) j++;
    if (t >= lo && t <= hi) e.add(t, maximum ? larger(a.at(t), b.at(t)) : smaller(a.at(t), b.at(t)));
  }
  return e;
}
} // namespace
#if MODE == 101 // S01
extern "C" void sx_main() {
  int n = size(), free = (int)sx_choose("where", 3); free = free == 0 ? 0 : free == 1 ? n / 2 : n - 2; Signal s; L l;
  for (int i = 0; i < n; i++) {
    double v = i == free || i == free + 1 ? sx_double("v") : shape(2, i); l.add(0.5 * i - 3, v);
    if (i % 3 == 1) s.push_back(Sample{l.t[i], v, 7.0}); else s.push_back(l.t[i], v);
    bool threw = false; try { s.push_back(l.t[i] - (i % 2 ? 0.0 : 0.25), 1.0); } catch (const std::exception&) { threw = true; }
    sx_check(threw, "rejected"); sx_check((int)s.size() == i + 1, "size");
  }
  keeps(s, l); sx_check(s.begin_time() == -3 && s.end_time() == l.t.back(), "span");
  size_t k = 0; for (const auto& x : s) { sx_check(sx_same(x.value, l.v[k]), "iterate"); k++; }
  for (auto r = s.rbegin(); r != s.rend(); ++r) { k--; sx_check(sx_same(r->value, l.v[k]), "reverse"); }
  sx_reach("long");
}
#elif MODE == 102 // S02
extern "C" void sx_main() {
  int n = size(); uint64_t form = sx_choose("form", 4); L l = everywhere("v", n, -2.0, 0.25, 2, pick("spacing", 3, 1));
  std::vector<Sample> in; for (int i = 0; i < n; i++) in.push_back({l.t[i], l.v[i], 3.0});
  if (form == 3) {  // one pair out of order, anywhere
    int at = n < 50 ? (int)sx_choose("at", (uint64_t)n - 1) : (n - 2) * (int)sx_choose("part", 5) / 4; double x = in[at + 1].time; in[at + 1].time = in[at].time - (at % 2 ? 0.0 : 0.125); (void)x;
    bool threw = false; try { Signal q(in); } catch (const std::exception&) { threw = true; }
    sx_check(threw, "disorder-rejected"); sx_reach("rejected"); return;
  }
  SignalPtr s;
  if (form == 0) s = l.sig(); else if (form == 1) s = std::make_shared<Signal>(in); else { auto b = l.sig(); s = std::make_shared<Signal>(*b); }
  equals(*s, l);
  if ((int)s->size() != n) return;
  for (int i = 0; i < n; i++) sx_check(near(s->at_idx(i).derivative, i + 1 < n ? (l.v[i + 1] - l.v[i]) / (l.t[i + 1] - l.t[i]) : 0.0, 1e-4), "slope");
  sx_reach("long");
}
#elif MODE == 103 // S03
extern "C" void sx_main() {
  int n = size(); L l = everywhere("v", n, -2.0, 0.25, 2, pick("spacing", 3, 1)); auto s = l.sig();
  for (int i = 0; i < n; i++) {
    sx_check(s->at(l.t[i]).value == l.v[i], "stored");
    if (i + 1 < n) { double q = l.t[i] + 0.0625; auto r = s->at(q); sx_check(r.time == q, "time"); sx_check(near(r.value, l.at(q)), "between"); sx_check(near(r.derivative, (l.v[i + 1] - l.v[i]) / (l.t[i + 1] - l.t[i]), 1e-4), "slope"); }
  }
  for (double q : {l.t[0] - 1e-9, l.t.back() + 1e-9}) { bool threw = false; try { (void)s->at(q); } catch (const std::exception&) { threw = true; } sx_check(threw, "outside"); }
  sx_reach("long");
}
#elif MODE == 104 // S04
extern "C" void sx_main() {
  int n = size(); L l = background(n, 2, -2.0, 0.25, 0.0, pick("spacing", 3, 1)); auto s = l.sig();
  double q = sx_double("q"); sx_assume(q == q);
#ifdef VAST
  int part = (int)sx_choose("part", 4), at = part * (n - 2) / 3; sx_assume((q > l.t[at] - 0.25) & (q < l.t[at + 1] + 0.25));
#endif
  auto b = s->begin_at(q) - s->begin(), e = s->end_at(q) - s->begin();
  int lo = 0, hi = 0; for (int i = 0; i < n; i++) { lo += l.t[i] < q; hi += l.t[i] <= q; }
  sx_check(b == lo, "begin-at"); sx_check(e == hi, "end-at"); sx_reach("long");
}
#elif MODE == 105 // S05
extern "C" void sx_main() {
  int n = size(2), at = n < 50 ? (int)sx_choose("at", (uint64_t)n) : (n - 1) * (int)sx_choose("part", 5) / 4; uint64_t pat = pick("pattern", NPAT, 2);
  L l = background(n, pat, 0.0, 0.5, 0.0, pick("spacing", 3, 1)); l.v[at] = val("v"); auto s = l.sig(); auto z = s->simplify();
  keeps(*s, l);
  sx_check(z->begin_time() == l.t[0] && z->end_time() == l.t.back(), "span");
  if (!(z->begin_time() == l.t[0] && z->end_time() == l.t.back())) return;
  for (int i = 0; i < n; i++) { sx_check(near(z->at(l.t[i]).value, l.v[i]), "at-samples"); if (i + 1 < n) { double m = l.t[i] + 0.125; sx_check(near(z->at(m).value, l.at(m)), "between"); } }
  for (int i = 1; i + 1 < n; i++) if (i - 1 > at || i + 1 < at) if (l.v[i - 1] == l.v[i] && l.v[i] == l.v[i + 1]) for (const auto& x : *z) sx_check(x.time != l.t[i], "constant-run-removed");
  sx_reach("long");
}
#elif MODE == 106 // S06
extern "C" void sx_main() {
  int n = size(2); L l = everywhere("v", n, 0.0, 1.0, 2, pick("spacing", 3, 1)); auto s = l.sig();
  double a = -1.5 + 1.25 * (double)(pick("start", 9, 3) * (n < 50 ? 1 : 50)), b = a + 0.75 + 3.25 * (double)(pick("length", 6, 3) * (n < 50 ? 1 : 30)), fill = val("fill");
  auto r = s->resize(a, b, fill); L e;
  auto at = [&](double q) { return q < l.t[0] || q > l.t.back() ? fill : l.at(q); };
  e.add(a, at(a)); for (int i = 0; i < n; i++) if (l.t[i] > a && l.t[i] < b) e.add(l.t[i], l.v[i]);
  e.add(b, at(b)); equals(*r, e); keeps(*s, l); sx_reach("long");
}
#elif MODE == 107 // S07
extern "C" void sx_main() {
  int n = size(); L l = everywhere("v", n, -2.0, 0.25, 2, pick("spacing", 3, 1)); auto s = l.sig();
  static const double ds[] = {-7.0, 0.0, 0.125, 1000.0}; double dt = ds[pick("dt", 4, 3) ];
  auto r = s->shift(dt); L e = l; for (auto& t : e.t) t += dt; equals(*r, e); keeps(*s, l);
  if (r->size() == s->size()) for (int i = 0; i < n; i++) sx_check(same(r->at_idx(i).derivative, s->at_idx(i).derivative), "slope");
  double a = l.t[2] + 0.0625, b = l.t[n - 2] + 0.0625; auto q = s->resize_shift(a, b, 1.0, dt), w = s->resize(a, b, 1.0)->shift(dt);
  sx_check(q->size() == w->size(), "resize-shift-size");
  if (q->size() == w->size()) for (size_t i = 0; i < q->size(); i++) sx_check(near(q->at_idx(i).time, w->at_idx(i).time) & near(q->at_idx(i).value, w->at_idx(i).value), "resize-shift");
  sx_reach("long");
}
#elif MODE == 108 // S08
extern "C" void sx_main() {
  int n = size(2), m = size(2); static const double off[] = {0.0, 0.25, -1.25, 2.5}, st[] = {0.5, 1.0, 0.75};
  double o = off[pick("offset", 4, 2)], dt = st[pick("step", 3, 2)]; L x = everywhere("x", n, 0.0, 0.5, 2, pick("spacing", 3, 1)), y = everywhere("y", m, o, dt, 1);
  auto sx = x.sig(), sy = y.sig(); auto [a, b] = signal::synchronize(sx, sy); L e = merged(x, y, false), f = e;
  for (size_t i = 0; i < e.n(); i++) { e.v[i] = x.at(e.t[i]); f.v[i] = y.at(e.t[i]); }
  equals(*a, e); equals(*b, f); auto [c, d] = signal::synchronize(sy, sx); equals(*c, f); equals(*d, e); keeps(*sx, x); keeps(*sy, y); sx_reach("long");
}
#elif MODE == 201 // R01, R02
extern "C" void sx_main() {
  int n = size(), op = (int)sx_choose("op", 4); L l = everywhere("v", n); double c = val("c"); auto s = l.sig(); Trace tr{{"x", s}};
  auto b = Predicate("x"); Expr f = op == 0 ? b > c : op == 1 ? b >= c : op == 2 ? b < c : b <= c;
  L e = l; for (auto& v : e.v) v = op < 2 ? v - c : c - v;
#ifdef NEG
  f = NEG == 1 ? Not(f) : Not(Not(f)); if (NEG == 1) for (auto& v : e.v) v = -v;
#endif
  equals(*rob(f, tr), e); keeps(*s, l); sx_reach("long");
}
#elif MODE == 203 // R03
extern "C" void sx_main() {
  int n = size(1 + DEEP), m = n < 50 ? 12 : n; bool mx = sx_choose("or", 2); uint64_t p = pick("px", 3 + DEEP, 2), q = pick("py", 3 + DEEP, 2);
  static const double off[] = {0.0, -1.25, 0.25}; double o = off[pick("offset", 2 + DEEP, 1)], dt = sx_choose("step", 1 + DEEP) ? 0.5 : 0.75; double lift = VASTLY ? sx_real("lift", -1024, 1024, 6) : sx_real("lift", -64, 64, 6);
#ifdef VAST
  { double c = (p ? -1.0 : 1.0) * n * (double)sx_choose("part", 3); q = 1 - p; dt = 0.5; sx_assume((lift > c - 6) & (lift < c + 6)); }
#endif
 
  L x = background(n, p, 0.0, 0.5, 0.0, pick("spacing", 2, 1)), y = background(m, q, o, dt); for (auto& v : y.v) v = v + lift;
  auto sx = x.sig(), sy = y.sig(); Trace tr{{"x", sx}, {"y", sy}};
  covers(*rob(mx ? Or({above("x"), above("y")}) : And({above("x"), above("y")}), tr), merged(x, y, mx)); keeps(*sx, x); keeps(*sy, y); sx_reach("long");
}
#elif MODE == 204 // R04, R14: K operands
static std::string label(int k) { std::string s = "s"; for (; k >= 26; k /= 26) s += (char)('a' + k % 26); return s + (char)('a' + k) + 'z'; }
extern "C" void sx_main() {
  static const int ks[] = {4, 5, 6, 8, 9, 16, 17, 24, 70, 300}; int K = ks[pick("operands", 8, 2) + (VASTLY ? 8 : 0)]; bool mx = sx_choose("or", 2); uint64_t how = sx_choose("how", 3);
  int at = K < 50 ? (int)sx_choose("at", (uint64_t)K) : (K - 1) * (int)sx_choose("part", 5) / 4; Trace tr; std::vector<Expr> fs; double best = 0;
#ifdef MISSING
  for (int k = 0; k < K; k++) { std::string nm = label(k); if (k != at) tr[nm] = L{{0, 1}, {k == (VASTLY ? K - 2 : 1) ? val("v") : 1.0, 1.0 + k}}.sig(); fs.push_back(above(nm.c_str())); }
#else
  for (int k = 0; k < K; k++) {
    std::string nm = label(k); double v = k == at ? val("v") : (double)((k * 5) % 7) * 2.5 - 3; L l; l.add(0, v); l.add(1, v);
    tr[nm] = l.sig(); fs.push_back(above(nm.c_str())); best = k == 0 ? v : mx ? larger(best, v) : smaller(best, v);
  }
#endif
  auto J = [&](std::vector<Expr> v) { return mx ? Or(std::move(v)) : And(std::move(v)); };
  Expr f = fs[0];
  if (how == 0) f = J(fs); else if (how == 1) for (int k = 1; k < K; k++) f = mx ? f | fs[k] : f & fs[k];
  else { int h = K / 2; f = J({J(std::vector<Expr>(fs.begin(), fs.begin() + h)), J(std::vector<Expr>(fs.begin() + h, fs.end()))}); }
#ifdef MISSING
  bool threw = false; try { (void)rob(f, tr); } catch (const std::exception&) { threw = true; }
  sx_check(threw, "missing-signal"); sx_reach("long");
#else
  auto r = rob(f, tr); L e; e.add(0, best); e.add(1, best); covers(*r, e); sx_reach("long");
#endif
}
#elif MODE == 206 // R06
extern "C" void sx_main() {
  int n = size(), at = (int)((uint64_t)n * sx_choose("at", 5) / 5); uint64_t pat = pick("pattern", NPAT, 2); bool ev = sx_choose("eventually", 2);
  uint64_t inf = pick("inf", 3, 1); L l = background(n, pat, 0.0, 0.5, 0.0, inf ? 0 : pick("spacing", 3, 1)); if (inf) l.v[n - 2] = inf == 1 ? INF : -INF;
  l.v[at] = around(l.v[at]); auto s = l.sig(); Trace tr{{"x", s}}; L e = l;
  for (int i = n - 2; i >= 0; i--) e.v[i] = ev ? larger(l.v[i], e.v[i + 1]) : smaller(l.v[i], e.v[i + 1]);
  equals(*rob(ev ? Eventually(above("x")) : Always(above("x")), tr), e); keeps(*s, l); sx_reach("long");
}
#elif MODE == 207 // R07
extern "C" void sx_main() {
  int n = size(2), at = (int)((uint64_t)n * sx_choose("at", 4) / 4); uint64_t pat = pick("pattern", NPAT, 2); bool ev = sx_choose("eventually", 2);
  static const double w[][2] = {{0, 4}, {0.25, 3.25}, {1, 6}, {0, 3}, {2, INF}}; uint64_t k = sx_choose("window", 5); double a = w[k][0], b = w[k][1];
  L l = background(n, pat, 0.0, 0.5, 0.0, pick("spacing", 3, 1)); l.v[at] = around(l.v[at]); auto s = l.sig(); Trace tr{{"x", s}}; L e = l;
  for (int i = 0; i < n; i++) {
    double lo = l.t[i] + a, hi = l.t[i] + b, m = l.at(lo); auto take = [&](double v) { m = ev ? larger(m, v) : smaller(m, v); };
    take(hi == INF ? l.v.back() : l.at(hi)); for (int j = 0; j < n; j++) if (l.t[j] >= lo && l.t[j] <= hi) take(l.v[j]);
    e.v[i] = m;
  }
  ast::Interval I(a, b); equals(*rob(ev ? Eventually(above("x"), I) : Always(above("x"), I), tr), e); keeps(*s, l); sx_reach("long");
}
#elif MODE == 208 // R08
extern "C" void sx_main() {
  int n = size(1 + DEEP), m = n < 50 ? 12 : n, at = (int)((uint64_t)n * sx_choose("at", 3) / 3); uint64_t p = pick("pf", 3 + DEEP, 2), q = pick("pg", 3 + DEEP, 2); bool which = sx_choose("free", 2);
  double o = sx_choose("offset", 2) ? 0.25 : 0.0, dt = sx_choose("step", 1 + DEEP) ? 0.5 : 0.75;
  L f = background(n, p, 0.0, 0.5, 3, pick("spacing", 2, 1)), g = background(m, q, o, dt);
  double& free = (which ? g : f).v[which && at >= m ? m - 1 : at]; free = around(free);
  auto sf = f.sig(), sg = g.sig(); Trace tr{{"f", sf}, {"g", sg}}; L e = merged(f, g, false); double prev = -INF;
  for (size_t i = e.n(); i-- > 0;) { double fv = f.at(e.t[i]), gv = g.at(e.t[i]); double best = -INF, pre = INF; (void)pre; best = larger(gv, prev); e.v[i] = smaller(fv, best); prev = e.v[i]; }
  equals(*rob(Until(above("f"), above("g")), tr), e); keeps(*sf, f); keeps(*sg, g); sx_reach("long");
}
#elif MODE == 209 // R09, R10: towers of operators over one signal, two samples
extern "C" void sx_main() {
  int depth = VASTLY ? 20 + 40 * (int)sx_choose("depth", 2) : 3 + (int)sx_choose("depth", 10); double a = val("a"), b = val("b"); L l; l.add(0, a); l.add(1, b); Trace tr{{"x", l.sig()}};
  Expr f = above("x"), g = above("x"); L e = l; double u = a, v = b; uint64_t start = sx_choose("start", 5);
  for (int d = 0; d < depth; d++) switch ((start + (uint64_t)d * 3) % 5) {
    case 0: f = Not(f); u = -u; v = -v; break;
    case 1: f = Eventually(f); u = larger(u, v); break;
    case 2: f = VASTLY ? And({f, Const(true)}) : And({f, f, Const(true)}); break;
    case 3: f = Always(f); u = smaller(u, v); break;
    default: f = Or({Const(false), f}); break;
  }
  e.v[0] = u; e.v[1] = v; covers(*rob(f, tr), e); sx_reach("long");
}
#elif MODE == 212 // R12: many evaluations
extern "C" void sx_main() {
  int rounds = VASTLY ? 60 : 6 + (int)sx_choose("rounds", 3) * 7; double a = val("a"), b = val("b"); bool same_object = sx_choose("same-formula-object", 2);
  uint64_t kind = sx_choose("kind", 4);
  auto make = [&]() -> Expr { Expr x = above("x"), y = above("y"); return kind == 0 ? And({x, y}) : kind == 1 ? Or({Not(x), y}) : kind == 2 ? Always(x) : Until(x, y); };
  Expr f = make(); Expr arg = above("x");
  for (int r = 0; r < rounds; r++) {
    double p = r % 3 == 0 ? a : (double)r, q = r % 4 == 1 ? b : (double)(r % 5);
    L x, y; x.add(r, p); x.add(r + 1, p); y.add(r, q); y.add(r + 1, q); Trace tr{{"x", x.sig()}, {"y", y.sig()}};
    double v = kind == 0 ? smaller(p, q) : kind == 1 ? larger(-p, q) : kind == 2 ? p : smaller(p, q);
    L e; e.add(r, v); e.add(r + 1, v); auto z = rob(same_object ? f : make(), tr); covers(*z, e); keeps(*tr["x"], x); keeps(*tr["y"], y);
  }
  sx_reach("long");
}
#elif MODE == 301 // M01: many candidates, one free value pushed last, pops in between
struct Item { double v; int at; bool operator<(const Item& o) const { return v < o.v; } bool operator>(const Item& o) const { return v > o.v; } bool operator<=(const Item& o) const { return v <= o.v; } bool operator>=(const Item& o) const { return v >= o.v; } };
extern "C" void sx_main() {
  static const int ns[] = {5, 8, 12, 15, 19, 34, 70, 300}; int n = ns[pick("candidates", 6, 2) + (VASTLY ? 6 : 0)]; bool mx = sx_choose("max", 2), strict = sx_choose("strict", 2), moved = sx_choose("moved", 2);
  int pops = (int)sx_choose("pops", 3) * n / 3; uint64_t pat = sx_choose("pattern", 3);
  std::deque<Item> w; std::vector<double> all;
  auto push = [&](double v) {
    Item it{v, (int)all.size()}; all.push_back(v);
    if (moved) { if (mx) { if (strict) mono_wedge::max_wedge_update(w, std::move(it)); else mono_wedge::mono_wedge_update(w, std::move(it), std::greater_equal<>()); } else { if (strict) mono_wedge::min_wedge_update(w, std::move(it)); else mono_wedge::mono_wedge_update(w, std::move(it), std::less_equal<>()); } }
    else { const Item& c = it; if (mx) { if (strict) mono_wedge::max_wedge_update(w, c); else mono_wedge::mono_wedge_update(w, c, std::greater_equal<>()); } else { if (strict) mono_wedge::min_wedge_update(w, c); else mono_wedge::mono_wedge_update(w, c, std::less_equal<>()); } }
  };
  for (int i = 0; i < n; i++) push((mx ? -1.0 : 1.0) * (pat == 0 ? 2.0 * i : pat == 1 ? (double)(i / 2) : (double)((i * 7) % 10)));
  while (!w.empty() && w.front().at < pops) w.pop_front();
  double v = VASTLY ? around(all[(size_t)n * 2 / 3]) : val("v"); push(v); push((mx ? -1.0 : 1.0) * 1000);
  int N = n + 2;
  for (size_t i = 0; i + 1 < w.size(); i++) { double p = w[i].v, q = w[i + 1].v; sx_check(mx ? (strict ? p > q : p >= q) : (strict ? p < q : p <= q), "sorted"); sx_check(w[i].at < w[i + 1].at, "push-order"); }
  double best = all[pops]; for (int i = pops + 1; i < N; i++) best = mx ? larger(best, all[i]) : smaller(best, all[i]);
  sx_check(!w.empty(), "non-empty"); if (w.empty()) return;
  sx_check(w.front().v == best, "front-is-extremum"); sx_check(w.back().at == N - 1, "last-pushed-at-back");
  for (int i = pops; i < N; i++) {
    bool in = false; for (const auto& x : w) if (x.at == i) { in = true; sx_check(x.v == all[i], "value-kept"); }
    int beaten = 0; for (int j = i + 1; j < N; j++) beaten |= mx ? (all[j] >= all[i]) : (all[j] <= all[i]);
    if (!in) sx_check(beaten, "could-still-win");
  }
  sx_reach("long");
}
#endif
