// S02: construction from lists, from samples, by copying.
#include "h.h"
#ifndef N
#define N 3
#endif
static double dval(const char* n) {
#ifdef REAL
  return val(n);
#else
  return sx_double(n);
#endif
}
extern "C" void sx_main() {
  int n = (int)sx_choose("n", N + 1);
  double t[N + 1], v[N + 1], d[N + 1];
#ifdef REAL
  double gaps[] = {1.0, 0.25, 3.0, 0.1};
  spans(gaps);
  double cur = sx_choose("start", 2) ? TO - 2.5 * TS : TO;
#endif
  for (int i = 0; i < n; i++) {
#ifdef REAL
    t[i] = cur; cur += gaps[sx_choose("gap", 4)];
#else
    t[i] = sx_double("t");
#endif
    v[i] = dval("v"); d[i] = dval("d");
  }
  bool mono = true;
  for (int i = 1; i < n; i++) mono = mono && sx_fork(t[i] > t[i - 1]);
  uint64_t form = sx_choose("form", 3);
  SignalPtr s; bool threw = false;
  std::vector<Sample> in;
  for (int i = 0; i < n; i++) in.push_back(Sample{t[i], v[i], d[i]});
  std::vector<double> vt(t, t + n), vv(v, v + n);
  try {
    if (form == 0) {
      uint64_t extra = sx_choose("extra", 3);
      if (extra == 1) vt.push_back(sx_double("xt"));
      if (extra == 2) vv.push_back(dval("xv"));
      if (extra) {
        bool bad = false;
        try { Signal q(vv, vt); } catch (const std::exception&) { bad = true; }
        sx_check(bad, "length-mismatch-rejected"); sx_reach("mismatch");
        return;
      }
      s = std::make_shared<Signal>(vv, vt);
    } else if (form == 1) s = std::make_shared<Signal>(in);
    else { Signal base(in); s = std::make_shared<Signal>(base); sx_check((int)base.size() == n, "copy-source-size"); }
  } catch (const std::exception&) { threw = true; }
  sx_check(threw == !mono, "rejected-iff-not-increasing");
  if (threw) { sx_reach("rejected"); return; }
  sx_check((int)s->size() == n, "size");
  if ((int)s->size() != n) return;
  sx_check(s->empty() == (n == 0), "empty");
  sx_reach(n ? "built" : "built-empty");
  for (int i = 0; i < n; i++) {
    Sample p = s->at_idx(i);
    sx_check(same(p.time, t[i]), "time"); sx_check(same(p.value, v[i]), "value");
    if (i == n - 1) sx_check(p.derivative == 0, "last-slope");
#ifdef REAL
    else sx_check(near(p.derivative, (v[i + 1] - v[i]) / (t[i + 1] - t[i]), STOL), "slope");
    sx_obs_d("slope", p.derivative);
#endif
  }
  for (size_t i = 0; i < in.size(); i++) sx_check(same(in[i].time, t[i]) & same(in[i].value, v[i]) & same(in[i].derivative, d[i]), "input-untouched");
}
