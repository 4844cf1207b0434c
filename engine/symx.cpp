// symx: a symbolic executor for LLVM IR (LLVM 18) on top of Z3.
//
// * Every feasible path of the entry function is followed (fork(2) per undecided branch).
// * Scalars are concrete bits or SMT terms: Bool, BitVec, IEEE-754 Float64, or exact dyadic Reals.
// * A Real-sorted double carries a certificate (bound, scale): value = k*2^-scale, |value| <= bound.
//   An operation whose exact result provably fits 53 bits is exact; otherwise its result is a fresh
//   Real constrained by the standard rounding model |fl(e)-e| <= 2^-53|e| + tiny (sound relaxation).
// * Memory is byte precise with bounds, liveness, constness and initialisation tracking.
// * Anything not modelled aborts the path as "unsupported"; nothing is silently concretised.
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <z3++.h>

#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <regex>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace llvm;
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
using u128 = unsigned __int128; using i128 = __int128; using i64 = int64_t;

// ---------------------------------------------------------------- shared state
static constexpr int MAXL = 256;
struct Shared {
  std::atomic<int> running, live, stop, timedout;
  std::atomic<u64> paths, completed, assumed_away, forks, queries, qsat, qunsat, qunknown, qcached,
      modelhits, instrs, solver_us, checks, checks_sym, checks_trivial, discharged, undecided,
      violations, unsupported, crashed, errors_mem, infeasible, fp_exact, fp_rounded, witnesses,
      merges, maxrss_kb;
  std::atomic<u64> candSlots;
  std::atomic<int> nlabels;
  char labels[MAXL][64];
  std::atomic<u64> lreach[MAXL];
  std::atomic<u64> lchecks[MAXL];
  std::atomic<int> llock;
};
static Shared* SH;
static std::string outDir = ".";
static int gJobs = 8;
static double gTimeLimit = 600;
static u64 gRlimit = 30000000, gNlRlimit = 2000000;
static bool gExact = false;   // idealise real-mode doubles: no rounding
static int gMaxCand = 12;
static int gWitness = 24;
static u64 gMaxInstr = 200000000ull;
static bool gTrace = false;
static u64 gSeed = 1;
static std::chrono::steady_clock::time_point gStart;
static bool amSyncChild = false;
static bool isRoot = true;

static double elapsed() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now() - gStart).count();
}
static int labelIdx(const std::string& s) {
  std::string n = s.substr(0, 63);
  int cnt = SH->nlabels.load();
  for (int i = 0; i < cnt; i++) if (n == SH->labels[i]) return i;
  int z = 0;
  while (!SH->llock.compare_exchange_weak(z, 1)) { z = 0; usleep(10); }
  cnt = SH->nlabels.load();
  for (int i = 0; i < cnt; i++) if (n == SH->labels[i]) { SH->llock = 0; return i; }
  if (cnt >= MAXL) { SH->llock = 0; return MAXL - 1; }
  strcpy(SH->labels[cnt], n.c_str());
  SH->nlabels = cnt + 1;
  SH->llock = 0;
  return cnt;
}
static void appendFile(const std::string& f, const std::string& s) {
  int fd = open((outDir + "/" + f).c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd < 0) return;
  size_t off = 0;
  while (off < s.size()) { ssize_t n = write(fd, s.data() + off, s.size() - off); if (n <= 0) break; off += n; }
  close(fd);
}

// ---------------------------------------------------------------- symbolic values
static z3::context* Z;
enum SK { KBOOL, KBV, KFP, KREAL };
struct SymNode;
using Sym = std::shared_ptr<const SymNode>;
struct SymNode {
  z3::expr e;
  SK k;
  unsigned bits;            // width of the scalar in bits
  double bound = 0;         // REAL: |value| <= bound
  int scale = -1;           // REAL: dyadic scale, -1 = inexact
  int quant = 9999;         // REAL: the value is a multiple of 2^-quant (9999 = unknown)
  Sym boolOrigin;           // BV that is zext/ite(b,1,0) of a Bool
  Sym bvOrigin;             // FP whose bit pattern is this BV
  std::vector<u32> vars;    // sorted ids of the variables it mentions
  SymNode(const z3::expr& x, SK kk, unsigned b) : e(x), k(kk), bits(b) {}
};
struct Val {
  u64 lo = 0, hi = 0;
  Sym s;
  std::shared_ptr<std::vector<Val>> agg;
  u16 undef = 0;
  bool isSym() const { return (bool)s; }
};
static Val cval(u64 x) { Val v; v.lo = x; return v; }
static Val cval128(u128 x) { Val v; v.lo = (u64)x; v.hi = (u64)(x >> 64); return v; }
static u128 v128(const Val& v) { return ((u128)v.hi << 64) | v.lo; }

struct VarInfo { z3::expr e; std::string name; SK k; unsigned bits; bool isInput; int scale; bool rounding; std::shared_ptr<z3::expr> def; };
static std::vector<VarInfo> gVars;

static std::vector<u32> uni(const std::vector<u32>& a, const std::vector<u32>& b) {
  if (a.empty()) return b;
  if (b.empty()) return a;
  std::vector<u32> r; r.reserve(a.size() + b.size());
  std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r));
  return r;
}
struct Unsupported { std::string why; };
struct PathEnd { std::string why; };
[[noreturn]] static void unsup(const std::string& w) { throw Unsupported{w}; }

static Sym mk(const z3::expr& e, SK k, unsigned bits, std::vector<u32> vars) {
  auto n = std::make_shared<SymNode>(e, k, bits);
  n->vars = std::move(vars);
  return n;
}
static Sym mkReal(const z3::expr& e, std::vector<u32> vars, double bound, int scale, int quant = 9999) {
  auto n = std::make_shared<SymNode>(e, KREAL, 64);
  n->vars = std::move(vars); n->bound = bound; n->scale = scale; n->quant = quant < 9999 ? quant : scale >= 0 ? scale : 9999;
  return n;
}
static Val sv(Sym s) { Val v; v.s = std::move(s); return v; }

// ---------------------------------------------------------------- path condition and solver
struct PC { z3::expr e; std::vector<u32> vars; int def = -1; };  // def: the fresh variable this constraint defines
                                                              // (always satisfiable, so only needed when the variable is)
static std::vector<PC> gPC;
static std::unordered_set<unsigned> gPCIds;
static std::unordered_map<unsigned, z3::expr>* gAssign;  // var id -> value
static bool gAssignOK = true;
static std::unordered_map<std::string, int> gQCache;
static std::vector<z3::expr> gKeep;  // keeps cached asts alive so that ids stay unique

static void addPC(const z3::expr& e, const std::vector<u32>& vars, int def = -1) {
  if (e.is_true()) return;
  if (e.is_and()) { for (unsigned i = 0; i < e.num_args(); i++) addPC(e.arg(i), vars, def); return; }
  if (!gPCIds.insert(e.id()).second) return;
  gPC.push_back(PC{e, vars, def});
}
static std::vector<const PC*> sliceFor(const std::vector<u32>& vars) {
  std::vector<char> in(gVars.size(), 0), used(gPC.size(), 0);
  std::vector<u32> work;
  for (u32 v : vars) if (!in[v]) { in[v] = 1; }
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < gPC.size(); i++) {
      if (used[i]) continue;
      bool hit = false;
      if (gPC[i].def >= 0) hit = in[gPC[i].def];
      else for (u32 v : gPC[i].vars) if (in[v]) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1; ch = true;
      for (u32 v : gPC[i].vars) in[v] = 1;
    }
  }
  std::vector<const PC*> r;
  for (size_t i = 0; i < gPC.size(); i++) if (used[i]) r.push_back(&gPC[i]);
  return r;
}
// last resort against solver calls that do not count resources: SIGALRM interrupts the running query, which then answers unknown
static void onAlarm(int) { if (Z) Z3_interrupt(*Z); }
struct QueryAlarm {
  explicit QueryAlarm(int sec) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onAlarm; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr); struct itimerval t{{1, 0}, {sec, 0}}; setitimer(ITIMER_REAL, &t, nullptr); }
  ~QueryAlarm() { struct itimerval t{{0, 0}, {0, 0}}; setitimer(ITIMER_REAL, &t, nullptr); }
};
static int gQueryWall = 60;  // seconds
static size_t gMaxStack = 3000;  // frames
static bool gZeroStack = false;   // locals start as zero (for code that reads bit-fields while initialising them)
enum QR { UNSAT = 0, SAT = 1, UNK = 2 };
struct QueryResult { QR r; std::vector<std::pair<u32, z3::expr>> model; };

static bool hasNonlinear(const z3::expr& e, std::unordered_set<unsigned>& seen) {
  if (!seen.insert(e.id()).second) return false;
  if (!e.is_app()) return false;
  auto dk = e.decl().decl_kind();
  if (dk == Z3_OP_MUL) {
    int nv = 0;
    for (unsigned i = 0; i < e.num_args(); i++) if (!e.arg(i).is_numeral()) nv++;
    if (nv > 1) return true;
  }
  if (dk == Z3_OP_DIV || dk == Z3_OP_POWER) { if (!e.arg(e.num_args() - 1).is_numeral()) return true; }
  for (unsigned i = 0; i < e.num_args(); i++) if (hasNonlinear(e.arg(i), seen)) return true;
  return false;
}
static bool hasFP(const z3::expr& e, std::unordered_set<unsigned>& seen) {
  if (!seen.insert(e.id()).second) return false;
  if (e.is_fpa()) return true;
  if (!e.is_app()) return false;
  for (unsigned i = 0; i < e.num_args(); i++) if (hasFP(e.arg(i), seen)) return true;
  return false;
}
static QueryResult solve(const std::vector<z3::expr>& cs, const std::vector<u32>& vars, bool wantModel,
                         u64 rl = 0) {
  QueryResult q{UNK, {}};
  auto t0 = std::chrono::steady_clock::now();
  SH->queries++;
  bool real = false, bv = false;
  std::set<u32> vs(vars.begin(), vars.end());
  unsigned bits = 0;
  for (u32 v : vs) { (gVars[v].k == KREAL ? real : bv) = true; bits = std::max(bits, gVars[v].bits); }
  auto done = [&]() {
    if (q.r == SAT) SH->qsat++; else if (q.r == UNSAT) SH->qunsat++; else SH->qunknown++;
    SH->solver_us += std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
    return q;
  };
  try {
    QueryAlarm alarm(gQueryWall);
    bool nonlin = false;
    if (real && !bv) {  // leaving out the non-linear constraints only adds behaviours
      std::vector<z3::expr> lin;
      for (auto& c : cs) { std::unordered_set<unsigned> seen; if (hasNonlinear(c, seen)) nonlin = true; else lin.push_back(c); }
      if (nonlin) {
        z3::solver s(*Z, z3::solver::simple());
        z3::params p(*Z); p.set("rlimit", (unsigned)std::min<u64>(rl ? rl : gRlimit, 4000000000ull)); s.set(p);
        for (auto& c : lin) s.add(c);
        auto lr = s.check();
        if (lr == z3::unsat) { q.r = UNSAT; return done(); }
        if (lr == z3::sat) {  // complete the linear model: defined variables get their defined value
          z3::model m = s.get_model();
          z3::expr_vector from(*Z), to(*Z); bool ok = true;
          for (u32 v : vs) {
            z3::expr x = gVars[v].def ? gVars[v].def->substitute(from, to).simplify() : m.eval(gVars[v].e, true);
            if (gVars[v].k == KREAL && !x.is_numeral()) { ok = false; break; }
            from.push_back(gVars[v].e); to.push_back(x); q.model.emplace_back(v, x);
          }
          if (ok) for (auto& c : cs) { z3::expr x = c; if (!x.substitute(from, to).simplify().is_true()) { ok = false; break; } }
          if (ok) { q.r = SAT; return done(); }
          q.model.clear();
        }
        rl = std::min(rl ? rl : gRlimit, gNlRlimit);
      }
    }
    bool fp = false;
    if (bv && !real && bits <= 8) { std::unordered_set<unsigned> seen; for (auto& c : cs) if (hasFP(c, seen)) { fp = true; break; } }
    if (bv && !real && bits <= 8 && !fp) {  // bytes of text: one incremental solver serves all of these
      static z3::solver* inc = new z3::solver(*Z, z3::solver::simple());
      z3::params p(*Z); p.set("rlimit", (unsigned)std::min<u64>(rl ? rl : gRlimit, 4000000000ull)); inc->set(p);
      inc->push();
      for (auto& c : cs) inc->add(c);
      auto r = inc->check();
      q.r = r == z3::sat ? SAT : r == z3::unsat ? UNSAT : UNK;
      if (q.r == SAT && wantModel) { z3::model m = inc->get_model(); for (u32 v : vs) q.model.emplace_back(v, m.eval(gVars[v].e, true)); }
      inc->pop();
      return done();
    }
    z3::solver s = [&]() {
      if (real && !bv) {
        if (!nonlin) return z3::solver(*Z, z3::solver::simple());
        return z3::solver(*Z, "QF_NRA");
      }
      if (bv && !real)
        return (z3::tactic(*Z, "simplify") & z3::tactic(*Z, "propagate-values") & z3::tactic(*Z, "fpa2bv") &
                z3::tactic(*Z, "simplify") & z3::tactic(*Z, "propagate-values") & z3::tactic(*Z, "solve-eqs") &
                z3::tactic(*Z, "bit-blast") & z3::tactic(*Z, "sat")).mk_solver();
      return z3::solver(*Z);
    }();
    z3::params p(*Z);
    p.set("rlimit", (unsigned)std::min<u64>(rl ? rl : gRlimit, 4000000000ull));
    s.set(p);
    for (auto& c : cs) s.add(c);
    auto r = s.check();
    q.r = r == z3::sat ? SAT : r == z3::unsat ? UNSAT : UNK;
    if (q.r == SAT && wantModel) {
      z3::model m = s.get_model();
      for (u32 v : vs) {
        z3::expr val = m.eval(gVars[v].e, true);
        q.model.emplace_back(v, val);
      }
    }
  } catch (z3::exception& ex) {
    q.r = UNK;
    if (gTrace) fprintf(stderr, "z3: %s\n", ex.msg());
  }
  return done();
}
static QueryResult queryWith(const z3::expr& e, const std::vector<u32>& vars, u64 rl = 0) {
  auto sl = sliceFor(vars);
  std::vector<unsigned> ids;
  std::vector<z3::expr> cs; std::vector<u32> allv = vars;
  {  // a few constraints often suffice for a refutation
    bool real = false; for (u32 v : vars) if (gVars[v].k == KREAL) real = true;
    if (real && sl.size() > 8) {
      std::vector<z3::expr> few; size_t n = 0;
      for (auto* p : sl) if (std::includes(vars.begin(), vars.end(), p->vars.begin(), p->vars.end())) { std::unordered_set<unsigned> seen; if (!hasNonlinear(p->e, seen)) { few.push_back(p->e); n++; } }
      std::unordered_set<unsigned> seen;
      if (n * 2 <= sl.size() && !hasNonlinear(e, seen)) {
        few.push_back(e);
        auto q = solve(few, vars, false, rl);
        if (q.r == UNSAT) return q;
      }
    }
  }
  for (auto* p : sl) { cs.push_back(p->e); ids.push_back(p->e.id()); allv = uni(allv, p->vars); }
  cs.push_back(e); ids.push_back(e.id());
  std::sort(ids.begin(), ids.end());
  std::string key; for (auto i : ids) { key += std::to_string(i); key += ','; }
  auto it = gQCache.find(key);
  if (it != gQCache.end() && it->second == UNSAT) { SH->qcached++; return {UNSAT, {}}; }
  auto q = solve(cs, allv, true, rl);
  for (auto& c : cs) gKeep.push_back(c);
  gQCache[key] = q.r;
  return q;
}
static void updateAssign(const QueryResult& q) {
  if (q.r == SAT) { for (auto& [v, x] : q.model) { gAssign->erase(v); gAssign->emplace(v, x); } }
  else if (q.r == UNK) gAssignOK = false;
}
static int evalUnder(const z3::expr& e, const std::vector<u32>& vars) {  // 1 true, 0 false, -1 unknown
  if (!gAssignOK) return -1;
  z3::expr_vector from(*Z), to(*Z);
  for (u32 v : vars) {
    auto it = gAssign->find(v);
    if (it == gAssign->end()) return -1;
    if (gVars[v].k == KREAL && !it->second.is_numeral()) return -1;
    from.push_back(gVars[v].e); to.push_back(it->second);
  }
  z3::expr x = e; x = x.substitute(from, to).simplify();
  if (x.is_true()) return 1;
  if (x.is_false()) return 0;
  return -1;
}
static void finishPath(const char* why);

static u32 newVar(const z3::expr& e, const std::string& n, SK k, unsigned bits, bool input, int scale, bool rnd = false) {
  gVars.push_back(VarInfo{e, n, k, bits, input, scale, rnd, nullptr});
  return (u32)gVars.size() - 1;
}

// returns true in the child
static std::vector<pid_t> gAsync;
static void reapDone() {
  for (;;) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p <= 0) break;
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { SH->crashed++; SH->live--; SH->running--; }
  }
}
static bool forkPath() {
  SH->forks++;
  if (SH->stop.load()) finishPath("stopped");
  int r = SH->running.load();
  bool async = false;
  while (r < gJobs) { if (SH->running.compare_exchange_weak(r, r + 1)) { async = true; break; } }
  SH->live++;
  fflush(nullptr);
  reapDone();
  pid_t p = fork();
  if (p < 0) { SH->live--; if (async) SH->running--; SH->crashed++; finishPath("fork failed"); }
  if (p == 0) { isRoot = false; amSyncChild = !async; return true; }
  if (!async) {
    for (;;) {
      int st; pid_t w = waitpid(p, &st, 0);
      if (w == p) { if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { SH->crashed++; SH->live--; } break; }
      if (w < 0 && errno != EINTR) break;
    }
    if (SH->stop.load()) finishPath("stopped");
  }
  return false;
}
static bool decideE(const z3::expr& e0, const std::vector<u32>& vars) {
  z3::expr e = e0.simplify();
  if (e.is_true()) return true;
  if (e.is_false()) return false;
  if (gPCIds.count(e.id())) return true;
  z3::expr ne = (!e).simplify();
  if (gPCIds.count(ne.id())) return false;
  int mv = evalUnder(e, vars);
  if (mv < 0) {
    auto q = queryWith(e, vars);
    if (q.r == UNSAT) {  // must be false (path assumed feasible)
      return false;
    }
    auto q2 = queryWith(ne, vars);
    if (q2.r == UNSAT) { if (q.r == SAT) updateAssign(q); return true; }
    if (forkPath()) { updateAssign(q2); addPC(ne, vars); gKeep.push_back(e); return false; }
    updateAssign(q); addPC(e, vars); return true;
  }
  SH->modelhits++;
  auto q = queryWith(mv ? ne : e, vars);
  if (q.r == UNSAT) return mv;
  if (forkPath()) { updateAssign(q); addPC(mv ? ne : e, vars); return !mv; }
  addPC(mv ? e : ne, vars);
  return mv;
}
static bool decide(const Sym& c) { return decideE(c->e, c->vars); }

// ---------------------------------------------------------------- value helpers
static u64 maskb(unsigned bits) { return bits >= 64 ? ~0ull : ((1ull << bits) - 1); }
static i64 sext64(u64 x, unsigned bits) { if (bits >= 64) return (i64)x; u64 m = 1ull << (bits - 1); x &= maskb(bits); return (i64)((x ^ m) - m); }
static double asD(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static u64 asB(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static z3::expr bvNum(u128 x, unsigned bits) {
  if (bits <= 64) return Z->bv_val((uint64_t)(u64)x, bits);
  return z3::concat(Z->bv_val((uint64_t)(u64)(x >> 64), bits - 64), Z->bv_val((uint64_t)(u64)x, 64)).simplify();
}
static z3::expr fpNum(u64 bits) { return z3::expr(*Z, Z3_mk_fpa_numeral_double(*Z, asD(bits), Z->fpa_sort<64>())); }
static z3::expr rne() { return z3::expr(*Z, Z3_mk_fpa_rne(*Z)); }

struct Dyadic { bool ok; z3::expr e; double bound; int scale; };
static std::string u128str(u128 x) { if (!x) return "0"; std::string s; while (x) { s.insert(s.begin(), char('0' + (int)(x % 10))); x /= 10; } return s; }
static std::string pow2str(int k) {  // 2^k decimal
  std::vector<int> d{1};
  for (int i = 0; i < k; i++) { int c = 0; for (auto& x : d) { x = x * 2 + c; c = x / 10; x %= 10; } if (c) d.push_back(c); }
  std::string s; for (int i = (int)d.size() - 1; i >= 0; i--) s += char('0' + d[i]); return s;
}
static std::unordered_map<u64, std::pair<z3::expr, int>>* gRealConst;
static std::pair<z3::expr, int> realConst(u64 b) {  // finite double -> exact Real numeral, scale
  auto it = gRealConst->find(b);
  if (it != gRealConst->end()) return it->second;
  double d = asD(b);
  int ex; double m = std::frexp(std::fabs(d), &ex);
  u64 mant = (u64)std::ldexp(m, 53); int e2 = ex - 53;
  if (mant == 0) e2 = 0;
  while (mant && !(mant & 1)) { mant >>= 1; e2++; }
  std::string s;
  int scale = 0;
  if (e2 >= 0) { z3::expr r = Z->real_val(std::to_string(mant).c_str()) * Z->real_val(pow2str(e2).c_str()); r = r.simplify(); if (d < 0) r = (-r).simplify(); gRealConst->emplace(b, std::make_pair(r, 0)); return {r, 0}; }
  scale = -e2;
  s = std::to_string(mant) + "/" + pow2str(scale);
  z3::expr r = Z->real_val(s.c_str());
  if (d < 0) r = (-r).simplify();
  gRealConst->emplace(b, std::make_pair(r, scale));
  return {r, scale};
}
static Sym symZextBool(const Sym& b, unsigned bits) {
  auto n = std::make_shared<SymNode>(z3::ite(b->e, Z->bv_val(1, bits), Z->bv_val(0, bits)), KBV, bits);
  n->vars = b->vars; n->boolOrigin = b; return n;
}
// BV view of a value of `bits` width
static Sym toBV(const Val& v, unsigned bits) {
  if (!v.s) return mk(bvNum(v128(v), bits), KBV, bits, {});
  const Sym& s = v.s;
  switch (s->k) {
    case KBV: if (s->bits != bits) unsup("bv width mismatch"); return s;
    case KBOOL: if (bits != 1) unsup("bool as wide bv"); return symZextBool(s, 1);
    case KFP: {
      if (s->bvOrigin) return s->bvOrigin;
      return mk(z3::expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, s->e)), KBV, 64, s->vars);
    }
    case KREAL: unsup("bit-level operation on a real-mode double");
  }
  unsup("toBV");
}
static Sym toBool(const Val& v) {
  if (!v.s) return mk(Z->bool_val((v.lo & 1) != 0), KBOOL, 1, {});
  if (v.s->k == KBOOL) return v.s;
  if (v.s->k == KBV) {
    if (v.s->boolOrigin) return v.s->boolOrigin;
    return mk(v.s->e.extract(0, 0) == Z->bv_val(1, 1), KBOOL, 1, v.s->vars);
  }
  unsup("toBool");
}
static Sym toFP(const Val& v) {
  if (!v.s) return mk(fpNum(v.lo), KFP, 64, {});
  if (v.s->k == KFP) return v.s;
  if (v.s->k == KBV) {
    auto n = std::make_shared<SymNode>(z3::expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, v.s->e, Z->fpa_sort<64>())), KFP, 64);
    n->vars = v.s->vars; n->bvOrigin = v.s; return n;
  }
  unsup("mixing real-mode and fp-mode doubles");
}
static Sym toReal(const Val& v) {
  if (!v.s) {
    double d = asD(v.lo);
    if (!std::isfinite(d)) unsup("non-finite real constant");
    auto [e, sc] = realConst(v.lo);
    return mkReal(e, {}, std::fabs(d), sc);
  }
  if (v.s->k == KREAL) return v.s;
  unsup("mixing fp-mode and real-mode doubles");
}
static Val normBool(const Sym& s) {  // i1 result
  z3::expr e = s->e;
  if (e.is_true()) return cval(1);
  if (e.is_false()) return cval(0);
  return sv(s);
}
static bool concFromSym(Sym& s, Val& out) {  // constant-fold simple numerals
  if (s->k == KBOOL) { if (s->e.is_true()) { out = cval(1); return true; } if (s->e.is_false()) { out = cval(0); return true; } return false; }
  if (s->k == KBV && s->e.is_numeral() && s->bits <= 64) { uint64_t x; if (Z3_get_numeral_uint64(*Z, s->e, &x)) { out = cval(x); return true; } }
  return false;
}
static Val fin(Sym s) { Val o; if (concFromSym(s, o)) return o; return sv(s); }

// ---------------------------------------------------------------- real-mode arithmetic
static const double TWO53 = 9007199254740992.0;
static bool fits(double bound, int scale) { return scale >= 0 && scale < 1000 && std::ldexp(bound, scale) <= TWO53; }
static u32 gRnd = 0; static bool gPathRounded = false;
static std::unordered_map<unsigned, std::pair<z3::expr, Sym>>* gRndMemo;   // rounding is a function: same exact term, same result
static Sym roundReal1(const z3::expr& exact, const std::vector<u32>& vars, double bound, int quant);
static Sym roundReal(const z3::expr& exact0, const std::vector<u32>& vars, double bound, int quant) {
  SH->fp_rounded++; gPathRounded = true;
  if (gExact) return mkReal(exact0.simplify(), vars, bound, -1, quant);
  if (!gRndMemo) gRndMemo = new std::unordered_map<unsigned, std::pair<z3::expr, Sym>>();
  z3::expr exact = exact0.simplify();
  auto it = gRndMemo->find(exact.id());
  if (it != gRndMemo->end()) return it->second.second;
  z3::expr neg = (-exact).simplify();
  it = gRndMemo->find(neg.id());
  if (it != gRndMemo->end()) { Sym n = it->second.second; return mkReal((-n->e).simplify(), n->vars, n->bound, n->scale, n->quant); }
  Sym r = roundReal1(exact, vars, bound, quant);
  gRndMemo->emplace(exact.id(), std::make_pair(exact, r));
  return r;
}
static Sym roundReal1(const z3::expr& exact, const std::vector<u32>& vars, double bound, int quant) {
  {  // linear term of known magnitude: exact value plus a bounded absolute error (a half-ulp of the largest possible result)
    std::unordered_set<unsigned> seen;
    if (bound <= 1e12 && !hasNonlinear(exact, seen)) {
      int ex; std::frexp(bound, &ex); int k = std::max(ex - 53, -300);   // bound <= 2^ex, error <= 2^(ex-54); doubled for slack
      std::string nm = "err!" + std::to_string(gRnd++);
      z3::expr d = Z->real_const(nm.c_str()); u32 id = newVar(d, nm, KREAL, 64, false, -1, true);
      z3::expr D = k >= 0 ? Z->real_val(pow2str(k).c_str()) : Z->real_val(("1/" + pow2str(-k)).c_str());
      gVars[id].def = std::make_shared<z3::expr>(Z->real_val(0));
      addPC(d <= D, {id}, (int)id); addPC(d >= -D, {id}, (int)id);
      if (gAssignOK) gAssign->emplace(id, Z->real_val(0));
      return mkReal((exact + d).simplify(), uni(vars, {id}), bound * (1 + 1e-15) + std::ldexp(1.0, k), -1, quant);
    }
  }
  std::string nm = "rnd!" + std::to_string(gRnd++);
  z3::expr r = Z->real_const(nm.c_str());
  u32 id = newVar(r, nm, KREAL, 64, false, -1, true);
  gVars[id].def = std::make_shared<z3::expr>(exact);
  std::vector<u32> vs = uni(vars, {id});
  z3::expr u = Z->real_val("1/9007199254740992"), tiny = Z->real_val(("1/" + pow2str(300)).c_str());
  z3::expr zero = Z->real_val(0);
  addPC(z3::implies(exact > zero, r <= exact * (Z->real_val(1) + u) + tiny && r >= exact * (Z->real_val(1) - u) - tiny && r >= zero), vs, (int)id);
  addPC(z3::implies(exact < zero, r >= exact * (Z->real_val(1) + u) - tiny && r <= exact * (Z->real_val(1) - u) + tiny && r <= zero), vs, (int)id);
  addPC(z3::implies(exact == zero, r == zero), vs, (int)id);
  // extend the cached assignment: r := exact under the assignment
  if (gAssignOK) {
    z3::expr_vector from(*Z), to(*Z); bool ok = true;
    for (u32 v : vars) { auto it = gAssign->find(v); if (it == gAssign->end() || !it->second.is_numeral()) { ok = false; break; } from.push_back(gVars[v].e); to.push_back(it->second); }
    if (ok) { z3::expr x = exact; x = x.substitute(from, to).simplify(); if (x.is_numeral()) gAssign->emplace(id, x); }
  }
  return mkReal(r, vs, bound * (1 + 1e-15) + 1e-90, -1, quant);
}
static bool numeralD(const z3::expr& e, double& d) {   // a numeral that is exactly a double
  if (!e.is_numeral()) return false;
  d = Z3_get_numeral_double(*Z, e);
  if (!std::isfinite(d)) return false;
  return z3::eq(realConst(asB(d)).first, e);
}
static Sym finishReal(const z3::expr& exact, std::vector<u32> vars, double bound, int scale, int quant = 9999) {
  { double d; z3::expr x = exact.simplify(); if (numeralD(x, d)) { SH->fp_exact++; auto [e, sc] = realConst(asB(d)); return mkReal(e, {}, std::fabs(d), sc); } }
  if (scale >= 0 && fits(bound, scale)) { SH->fp_exact++; return mkReal(exact, std::move(vars), bound, scale); }
  if (gExact && !(bound < 1e299)) bound = 1e299;
  if (!(bound < 1e300)) unsup("real-mode result may overflow");
  return roundReal(exact, vars, bound, quant);
}
// a real-mode value: a plain double again if the term has become a constant
static Val rv(const Sym& s) {
  double d; z3::expr e = s->e.simplify();
  if (numeralD(e, d)) return cval(asB(d));
  return sv(mkReal(e, s->vars, s->bound, s->scale, s->quant));
}
static bool isSpecial(const Val& v) { return !v.s && !std::isfinite(asD(v.lo)); }
static Val realBin(unsigned op, const Val& a, const Val& b) {
  if (isSpecial(a) || isSpecial(b)) {
    const Val& sp = isSpecial(a) ? a : b; const Val& o = isSpecial(a) ? b : a;
    double d = asD(sp.lo);
    double other;
    if (!o.s) other = asD(o.lo);
    else {  // the sign of the finite operand is all that matters
      if (op == Instruction::FAdd || op == Instruction::FSub || std::isnan(d)) other = 1.0;
      else {
        Sym s = o.s;
        if (decideE(s->e > Z->real_val(0), s->vars)) other = 1.0;
        else if (decideE(s->e < Z->real_val(0), s->vars)) other = -1.0;
        else other = 0.0;
      }
    }
    double x = isSpecial(a) ? d : other, y = isSpecial(a) ? other : d;
    if (isSpecial(a) && isSpecial(b)) { x = asD(a.lo); y = asD(b.lo); }
    double r = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : x / y;
    return cval(asB(r));
  }
  Sym x = toReal(a), y = toReal(b);
  auto vars = uni(x->vars, y->vars);
  int sc = (x->scale >= 0 && y->scale >= 0) ? std::max(x->scale, y->scale) : -1;
  const bool qk = x->quant < 900 && y->quant < 900;
  int qs = qk ? std::max(x->quant, y->quant) : 9999;
  auto divQuant = [&](double yb) { if (x->quant >= 900) return 9999; int ex; std::frexp(std::max(yb, 1.0), &ex); return x->quant + ex + 54; };
  switch (op) {
    case Instruction::FAdd:
      if (!a.s && asD(a.lo) == 0) return b;
      if (!b.s && asD(b.lo) == 0) return a;
      return rv(finishReal(x->e + y->e, vars, x->bound + y->bound, sc, qs));
    case Instruction::FSub:
      if (!b.s && asD(b.lo) == 0) return a;
      return rv(finishReal(x->e - y->e, vars, x->bound + y->bound, sc, qs));
    case Instruction::FMul: {
      if (!a.s && asD(a.lo) == 0) return cval(0);
      if (!b.s && asD(b.lo) == 0) return cval(0);
      if (!a.s && asD(a.lo) == 1) return b;
      if (!b.s && asD(b.lo) == 1) return a;
      // multiplication by a power of two is exact even for inexact operands
      auto pow2 = [](const Val& v) { if (v.s) return false; int e; double m = std::frexp(std::fabs(asD(v.lo)), &e); return m == 0.5 && e > -200 && e < 200; };
      int s2 = (x->scale >= 0 && y->scale >= 0) ? x->scale + y->scale : -1;
      if ((pow2(a) || pow2(b)) && s2 < 0) return sv(mkReal(x->e * y->e, vars, x->bound * y->bound, -1, qk ? x->quant + y->quant : 9999));
      return rv(finishReal(x->e * y->e, vars, x->bound * y->bound, s2, qk ? x->quant + y->quant : 9999));
    }
    case Instruction::FDiv: {
      if (!b.s) {
        double d = asD(b.lo);
        if (d == 0) {
          Sym s = x; if (!a.s) return cval(asB(asD(a.lo) / d));
          double num;
          if (decideE(s->e > Z->real_val(0), s->vars)) num = 1.0;
          else if (decideE(s->e < Z->real_val(0), s->vars)) num = -1.0; else num = 0.0;
          return cval(asB(num / d));
        }
        int e; double m = std::frexp(std::fabs(d), &e);
        if (m == 0.5) { int sh = e - 1; // divide by 2^sh exactly
          z3::expr q = x->e / y->e;
          int ns = x->scale >= 0 ? std::max(0, x->scale + sh) : -1;
          return sv(mkReal(q, vars, x->bound / std::fabs(d), ns, x->quant < 900 ? std::max(0, x->quant + sh) : 9999)); }
        return rv(finishReal(x->e / y->e, vars, x->bound / std::fabs(d), -1, divQuant(std::fabs(d))));
      }
      if (decideE(y->e == Z->real_val(0), y->vars)) {
        if (!a.s) { double n = asD(a.lo); if (n == 0) return cval(asB(std::nan(""))); }
        double num;
        if (!a.s) num = asD(a.lo) > 0 ? 1 : -1;
        else if (decideE(x->e > Z->real_val(0), x->vars)) num = 1; else if (decideE(x->e < Z->real_val(0), x->vars)) num = -1; else num = 0;
        if (num == 0) return cval(asB(std::nan("")));
        // sign of the zero divisor is not tracked: both signs are explored
        static u32 zs = 0; std::string nm = "zerosign!" + std::to_string(zs++);
        z3::expr bz = Z->bool_const(nm.c_str()); u32 id = newVar(bz, nm, KBOOL, 1, false, -1, true);
        bool pos = decideE(bz, {id});
        return cval(asB(pos ? num / 0.0 : -num / 0.0));
      }
      if (gExact) {  // proportional linear forms: the quotient is a constant
        z3::expr xe = x->e.simplify(), ye = y->e.simplify();
        std::unordered_set<unsigned> seen;
        if (!hasNonlinear(xe, seen) && !hasNonlinear(ye, seen)) {
          auto at = [&](const z3::expr& e, u32 one, bool zero) {
            z3::expr_vector from(*Z), to(*Z);
            for (u32 v : vars) { if (gVars[v].k != KREAL) continue; from.push_back(gVars[v].e); to.push_back(Z->real_val(!zero && v == one ? 1 : 0)); }
            z3::expr r = e; return r.substitute(from, to).simplify();
          };
          z3::expr y0 = at(ye, 0, true), x0 = at(xe, 0, true);
          for (u32 v : vars) if (gVars[v].k == KREAL) {
            z3::expr cy = (at(ye, v, false) - y0).simplify(), cx = (at(xe, v, false) - x0).simplify();
            if (!cy.is_numeral() || !cx.is_numeral() || false) continue;
            if (z3::eq(cy, Z->real_val(0))) continue;
            z3::expr k = (cx / cy).simplify();
            if (z3::eq((xe - k * ye).simplify(), Z->real_val(0))) {
              SH->fp_rounded++; gPathRounded = true;
              return rv(mkReal(k, {}, std::fabs(Z3_get_numeral_double(*Z, k)) * (1 + 1e-15), -1));
            }
            break;
          }
        }
      }
      double qb = y->quant < 900 ? std::ldexp(x->bound, y->quant) : INFINITY;   // a non-zero divisor is at least 2^-quant
      if (gExact && !(qb < 1e299)) qb = 1e299;
      if (!(qb < 1e300)) {
        // |y| may be tiny: bound unknown. Case split: result finite below 1e300 or unsupported.
        qb = 1e299;
        z3::expr big = Z->real_val(("1" + std::string(299, '0')).c_str());
        z3::expr cond = (x->e <= big * y->e && x->e >= -(big * y->e)) || (x->e <= -(big * y->e) && x->e >= big * y->e);
        if (!decideE(cond, vars)) unsup("real-mode quotient may overflow");
      }
      // q*y == x with a fresh q keeps the term polynomial
      static std::map<std::pair<unsigned, unsigned>, std::tuple<z3::expr, z3::expr, Sym>> quoMemo;
      { auto it = quoMemo.find({x->e.id(), y->e.id()}); if (it != quoMemo.end()) return sv(std::get<2>(it->second)); }
      static u32 qn = 0; std::string nm = "quo!" + std::to_string(qn++);
      z3::expr q = Z->real_const(nm.c_str()); u32 id = newVar(q, nm, KREAL, 64, false, -1, true);
      auto vs = uni(vars, {id});
      gVars[id].def = std::make_shared<z3::expr>(x->e / y->e);
      addPC(q * y->e == x->e, vs, (int)id);
      if (gAssignOK) {
        z3::expr_vector from(*Z), to(*Z); bool ok = true;
        for (u32 v : vars) { auto it = gAssign->find(v); if (it == gAssign->end() || !it->second.is_numeral()) { ok = false; break; } from.push_back(gVars[v].e); to.push_back(it->second); }
        if (ok) { z3::expr xx = x->e / y->e; xx = xx.substitute(from, to).simplify(); if (xx.is_numeral()) gAssign->emplace(id, xx); }
      }
      gPathRounded = true;
      Sym res = roundReal(q, vs, qb, divQuant(y->bound));
      quoMemo.emplace(std::make_pair(x->e.id(), y->e.id()), std::make_tuple(x->e, y->e, res));
      return sv(res);
    }
  }
  unsup("real op");
}
static Val realCmp(FCmpInst::Predicate p, const Val& a, const Val& b) {
  using P = FCmpInst;
  if (isSpecial(a) || isSpecial(b)) {
    double x = isSpecial(a) ? asD(a.lo) : (a.s ? 0.0 : asD(a.lo)), y = isSpecial(b) ? asD(b.lo) : (b.s ? 0.0 : asD(b.lo));
    bool un = std::isnan(x) || std::isnan(y), r = false;
    switch (p) {
      case P::FCMP_OEQ: r = !un && x == y; break; case P::FCMP_OGT: r = !un && x > y; break;
      case P::FCMP_OGE: r = !un && x >= y; break; case P::FCMP_OLT: r = !un && x < y; break;
      case P::FCMP_OLE: r = !un && x <= y; break; case P::FCMP_ONE: r = !un && x != y; break;
      case P::FCMP_ORD: r = !un; break; case P::FCMP_UNO: r = un; break;
      case P::FCMP_UEQ: r = un || x == y; break; case P::FCMP_UGT: r = un || x > y; break;
      case P::FCMP_UGE: r = un || x >= y; break; case P::FCMP_ULT: r = un || x < y; break;
      case P::FCMP_ULE: r = un || x <= y; break; case P::FCMP_UNE: r = un || x != y; break;
      case P::FCMP_TRUE: r = true; break; default: r = false;
    }
    return cval(r);
  }
  Sym x = toReal(a), y = toReal(b);
  auto vars = uni(x->vars, y->vars);
  z3::expr e = Z->bool_val(false);
  switch (p) {
    case P::FCMP_OEQ: case P::FCMP_UEQ: e = x->e == y->e; break;
    case P::FCMP_OGT: case P::FCMP_UGT: e = x->e > y->e; break;
    case P::FCMP_OGE: case P::FCMP_UGE: e = x->e >= y->e; break;
    case P::FCMP_OLT: case P::FCMP_ULT: e = x->e < y->e; break;
    case P::FCMP_OLE: case P::FCMP_ULE: e = x->e <= y->e; break;
    case P::FCMP_ONE: case P::FCMP_UNE: e = x->e != y->e; break;
    case P::FCMP_ORD: case P::FCMP_TRUE: return cval(1);
    default: return cval(0);
  }
  return normBool(mk(e.simplify(), KBOOL, 1, vars));
}
static bool isRealV(const Val& v) { return v.s && v.s->k == KREAL; }
static Val fpCmp(FCmpInst::Predicate p, const Val& a, const Val& b) {
  using P = FCmpInst;
  if (isRealV(a) || isRealV(b)) return realCmp(p, a, b);
  Sym x = toFP(a), y = toFP(b);
  auto vars = uni(x->vars, y->vars);
  auto E = [&](Z3_ast t) { return z3::expr(*Z, t); };
  z3::expr un = E(Z3_mk_fpa_is_nan(*Z, x->e)) || E(Z3_mk_fpa_is_nan(*Z, y->e));
  z3::expr eq = E(Z3_mk_fpa_eq(*Z, x->e, y->e)), lt = E(Z3_mk_fpa_lt(*Z, x->e, y->e)), gt = E(Z3_mk_fpa_gt(*Z, x->e, y->e)),
           le = E(Z3_mk_fpa_leq(*Z, x->e, y->e)), ge = E(Z3_mk_fpa_geq(*Z, x->e, y->e));
  z3::expr r = Z->bool_val(false);
  switch (p) {
    case P::FCMP_OEQ: r = eq; break; case P::FCMP_OGT: r = gt; break; case P::FCMP_OGE: r = ge; break;
    case P::FCMP_OLT: r = lt; break; case P::FCMP_OLE: r = le; break; case P::FCMP_ONE: r = !un && !eq; break;
    case P::FCMP_ORD: r = !un; break; case P::FCMP_UNO: r = un; break; case P::FCMP_UEQ: r = un || eq; break;
    case P::FCMP_UGT: r = !le; break; case P::FCMP_UGE: r = !lt; break; case P::FCMP_ULT: r = !ge; break;
    case P::FCMP_ULE: r = !gt; break; case P::FCMP_UNE: r = !eq; break;
    case P::FCMP_TRUE: return cval(1); default: return cval(0);
  }
  return normBool(mk(r.simplify(), KBOOL, 1, vars));
}
static Val fpBin(unsigned op, const Val& a, const Val& b) {
  if (isRealV(a) || isRealV(b)) return realBin(op, a, b);
  Sym x = toFP(a), y = toFP(b);
  auto vars = uni(x->vars, y->vars);
  Z3_ast r;
  switch (op) {
    case Instruction::FAdd: r = Z3_mk_fpa_add(*Z, rne(), x->e, y->e); break;
    case Instruction::FSub: r = Z3_mk_fpa_sub(*Z, rne(), x->e, y->e); break;
    case Instruction::FMul: r = Z3_mk_fpa_mul(*Z, rne(), x->e, y->e); break;
    case Instruction::FDiv: r = Z3_mk_fpa_div(*Z, rne(), x->e, y->e); break;
    default: unsup("fp op");
  }
  return sv(mk(z3::expr(*Z, r), KFP, 64, vars));
}
static Val fpNeg(const Val& a) {
  if (!a.s) return cval(a.lo ^ (1ull << 63));
  if (a.s->k == KREAL) return sv(mkReal(-a.s->e, a.s->vars, a.s->bound, a.s->scale, a.s->quant));
  Sym x = toFP(a);
  return sv(mk(z3::expr(*Z, Z3_mk_fpa_neg(*Z, x->e)), KFP, 64, x->vars));
}
static Val fpAbs(const Val& a) {
  if (!a.s) return cval(a.lo & ~(1ull << 63));
  if (a.s->k == KREAL) return sv(mkReal(z3::ite(a.s->e >= Z->real_val(0), a.s->e, -a.s->e), a.s->vars, a.s->bound, a.s->scale, a.s->quant));
  Sym x = toFP(a);
  return sv(mk(z3::expr(*Z, Z3_mk_fpa_abs(*Z, x->e)), KFP, 64, x->vars));
}
static Val symIte(const Sym& c, const Val& a, const Val& b, Type* ty) {
  if (a.undef || b.undef) { if (decide(c)) return a; return b; }
  if (a.agg || b.agg) { return decide(c) ? a : b; }
  if (!a.s && !b.s && a.lo == b.lo && a.hi == b.hi) return a;
  auto J = [&](const Sym& x, const Sym& y) { return uni(c->vars, uni(x->vars, y->vars)); };
  if (ty->isDoubleTy()) {
    if (isRealV(a) || isRealV(b) ) {
      if (isSpecial(a) || isSpecial(b)) return decide(c) ? a : b;
      Sym x = toReal(a), y = toReal(b);
      return sv(mkReal(z3::ite(c->e, x->e, y->e), J(x, y), std::max(x->bound, y->bound), (x->scale < 0 || y->scale < 0) ? -1 : std::max(x->scale, y->scale), std::max(x->quant, y->quant)));
    }
    if (!a.s && !b.s) {  // two constants under a symbolic condition: mode decided by the condition's variables
      bool real = false; for (u32 v : c->vars) if (gVars[v].k == KREAL) real = true;
      if (real) {
        if (isSpecial(a) || isSpecial(b)) return decide(c) ? a : b;
        Sym x = toReal(a), y = toReal(b);
        return sv(mkReal(z3::ite(c->e, x->e, y->e), J(x, y), std::max(x->bound, y->bound), std::max(x->scale, y->scale)));
      }
    }
    Sym x = toFP(a), y = toFP(b);
    auto n = std::make_shared<SymNode>(z3::ite(c->e, x->e, y->e), KFP, 64); n->vars = J(x, y);
    if ((x->bvOrigin || !a.s) && (y->bvOrigin || !b.s)) {
      Sym bx = toBV(a, 64), by = toBV(b, 64);
      n->bvOrigin = mk(z3::ite(c->e, bx->e, by->e), KBV, 64, n->vars);
    }
    return sv(n);
  }
  if (ty->isIntegerTy(1)) { Sym x = toBool(a), y = toBool(b); return normBool(mk(z3::ite(c->e, x->e, y->e).simplify(), KBOOL, 1, J(x, y))); }
  if (ty->isPointerTy()) return decide(c) ? a : b;
  if (ty->isIntegerTy()) {
    if ((a.s && a.s->k == KREAL) || (b.s && b.s->k == KREAL)) return decide(c) ? a : b;
    unsigned w = ty->getIntegerBitWidth(); Sym x = toBV(a, w), y = toBV(b, w); return fin(mk(z3::ite(c->e, x->e, y->e), KBV, w, J(x, y)));
  }
  return decide(c) ? a : b;
}

// ---------------------------------------------------------------- memory
struct Obj { u64 base, size; u8 kind; bool alive; bool ro; const char* what; };  // kind 0 heap 1 stack 2 global
static constexpr u64 HEAP0 = 0x100000000000ull, STK0 = 0x200000000000ull, SHOFF = 0x200000000000ull;
static constexpr u64 ASZ = 1ull << 34;
static u64 heapTop = HEAP0 + 64, stkTop = STK0 + 64;
static std::vector<Obj> heapObjs, stkObjs;
struct Cell { unsigned size; Val v; };
static std::unordered_map<u64, Cell> cells;
static u8* shadowOf(u64 a) { return (u8*)(a + SHOFF); }

static void mapArena(u64 base) {
  void* p = mmap((void*)base, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)base) { perror("mmap"); exit(2); }
  p = mmap((void*)(base + SHOFF), ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)(base + SHOFF)) { perror("mmap shadow"); exit(2); }
}
struct MemError { std::string why; };
// With --reuse the heap behaves like common allocators: what was freed last is handed out first to the next allocation of its size class,
// so that whatever remembers an address across a deallocation meets another object there.
static bool gReuse = false;
static std::map<u64, std::vector<u64>> gFreed;     // size class -> addresses
static u64 sizeClass(u64 size) { return std::max<u64>(32, (size + 8 + 15) / 16 * 16); }
static Obj* findObj(u64 a);
static void clearCells(u64 a, u64 n);
static u64 allocObj(u64 size, u8 kind, const char* what, bool zero = false) {
  if (gReuse && kind == 0 && size) {
    auto& fr = gFreed[sizeClass(size)];
    if (!fr.empty()) {
      u64 base = fr.back(); fr.pop_back();
      Obj* o = findObj(base); clearCells(base, o->size);
      o->size = size; o->alive = true; o->ro = false; o->what = what;
      memset(shadowOf(base), zero ? 1 : 0, size);
      if (zero) memset((void*)base, 0, size);
      return base;
    }
  }
  auto& top = kind == 1 ? stkTop : heapTop;
  auto& objs = kind == 1 ? stkObjs : heapObjs;
  u64 base = (top + 15) & ~15ull;
  u64 lim = (kind == 1 ? STK0 : HEAP0) + ASZ;
  if (size > (1ull << 30) || base + size + 64 > lim) unsup("allocation too large");
  top = base + (gReuse && kind == 0 ? sizeClass(size) : size) + 16;
  objs.push_back(Obj{base, size, kind, true, false, what});
  if (kind == 1) memset(shadowOf(base), 0, size);
  if (zero) { memset((void*)base, 0, size); memset(shadowOf(base), 1, size); }
  return base;
}
static Obj* findObj(u64 a) {
  std::vector<Obj>* v;
  if (a >= HEAP0 && a < HEAP0 + ASZ) v = &heapObjs; else if (a >= STK0 && a < STK0 + ASZ) v = &stkObjs; else return nullptr;
  auto it = std::upper_bound(v->begin(), v->end(), a, [](u64 x, const Obj& o) { return x < o.base; });
  if (it == v->begin()) return nullptr;
  --it;
  if (a >= it->base && a < it->base + std::max<u64>(it->size, 1)) return &*it;
  return nullptr;
}
static Obj* lastObj = nullptr; // not cached across vector growth
static void chk(u64 a, u64 n, bool write, const char* op) {
  (void)lastObj;
  if (n == 0) return;
  Obj* o = findObj(a);
  char buf[200];
  if (!o) { snprintf(buf, 200, "%s of %lu bytes at 0x%lx: not inside any object", op, (unsigned long)n, (unsigned long)a); throw MemError{buf}; }
  if (!o->alive) { snprintf(buf, 200, "%s of %lu bytes: use after free (%s)", op, (unsigned long)n, o->what); throw MemError{buf}; }
  if (a + n > o->base + o->size) { snprintf(buf, 200, "%s of %lu bytes at offset %lu of object of %lu bytes (%s): out of bounds", op, (unsigned long)n, (unsigned long)(a - o->base), (unsigned long)o->size, o->what); throw MemError{buf}; }
  if (write && o->ro) { snprintf(buf, 200, "%s to constant memory (%s)", op, o->what); throw MemError{buf}; }
}
// find the cell covering byte a (shadow==2)
static std::pair<u64, Cell*> cellAt(u64 a) {
  for (unsigned k = 0; k < 16; k++) { auto it = cells.find(a - k); if (it != cells.end()) { if (k < it->second.size) return {a - k, &it->second}; return {0, nullptr}; } }
  return {0, nullptr};
}
static Sym cellByte(u64 a) {
  auto [base, c] = cellAt(a);
  if (!c) unsup("lost cell");
  if (c->size == 1) return toBV(c->v, 8);
  Sym b = toBV(c->v, c->size * 8);
  unsigned k = (unsigned)(a - base);
  return mk(b->e.extract(8 * k + 7, 8 * k), KBV, 8, b->vars);
}
static void splitCell(u64 base) {
  Cell c = cells.at(base);
  if (c.size == 1) return;
  std::vector<Sym> bs;
  for (unsigned k = 0; k < c.size; k++) bs.push_back(cellByte(base + k));
  cells.erase(base);
  for (unsigned k = 0; k < c.size; k++) cells[base + k] = Cell{1, fin(bs[k])};
}
// prepare [a,a+n) to be overwritten: drop cells, splitting the ones that stick out
static void clearCells(u64 a, u64 n) {
  u8* sh = shadowOf(a);
  if (!memchr(sh, 2, n)) return;
  for (u64 i = 0; i < n;) {
    if (sh[i] != 2) { i++; continue; }
    auto [b, c] = cellAt(a + i);
    if (!c) unsup("lost cell in clear");
    if (b < a || b + c->size > a + n) {
      if (c->v.s && c->v.s->k == KREAL) unsup("partial overwrite of real-mode double");
      splitCell(b); cells.erase(a + i); i++;
    } else { i = b + c->size - a; cells.erase(b); }
  }
}
static void storeBytes(u64 a, const void* p, u64 n) { clearCells(a, n); memcpy((void*)a, p, n); memset(shadowOf(a), 1, n); }
static void storeVal(u64 a, const Val& v, unsigned n) {
  clearCells(a, n);
  if (v.s) {
    memset((void*)a, 0, n); memset(shadowOf(a), 2, n);
    if (v.s->k == KBOOL) { Val w = sv(symZextBool(v.s, n * 8)); cells[a] = Cell{n, w}; return; }
    if (v.s->bits != n * 8) {
      if (v.s->k == KBV && v.s->bits < n * 8) { Val w = sv(mk(z3::zext(v.s->e, n * 8 - v.s->bits), KBV, n * 8, v.s->vars)); cells[a] = Cell{n, w}; return; }
      unsup("store width mismatch");
    }
    cells[a] = Cell{n, v};
    return;
  }
  u64 tmp[2] = {v.lo, v.hi};
  memcpy((void*)a, tmp, n);
  u8* sh = shadowOf(a);
  if (!v.undef) memset(sh, 1, n);
  else for (unsigned i = 0; i < n; i++) sh[i] = (v.undef >> i) & 1 ? 0 : 1;
}
static Val loadVal(u64 a, unsigned n) {
  u8* sh = shadowOf(a);
  Val v;
  bool sym = false; u16 und = 0;
  for (unsigned i = 0; i < n; i++) { if (sh[i] == 2) sym = true; else if (sh[i] == 0) und |= (u16)(1u << i); }
  if (!sym) {
    u64 tmp[2] = {0, 0}; memcpy(tmp, (void*)a, n); v.lo = tmp[0]; v.hi = tmp[1]; v.undef = und; return v;
  }
  auto it = cells.find(a);
  if (it != cells.end() && it->second.size == n) return it->second.v;
  if (und) { v.undef = (u16)((1u << n) - 1); return v; }  // speculated loads only (e.g. string capacity): using it is reported
  z3::expr e(*Z); std::vector<u32> vars; bool first = true;
  // whole-cell shortcut: bytes inside one wider cell
  {
    auto [b, c] = cellAt(a);
    if (c && b + c->size >= a + n && sh[0] == 2) {
      Sym s = toBV(c->v, c->size * 8); unsigned o = (unsigned)(a - b);
      return fin(mk(s->e.extract(8 * (o + n) - 1, 8 * o).simplify(), KBV, n * 8, s->vars));
    }
  }
  for (int i = (int)n - 1; i >= 0; i--) {
    Sym b = sh[i] == 2 ? cellByte(a + i) : mk(Z->bv_val((unsigned)*(u8*)(a + i), 8), KBV, 8, {});
    if (first) { e = b->e; first = false; } else e = z3::concat(e, b->e);
    vars = uni(vars, b->vars);
  }
  return fin(mk(e.simplify(), KBV, n * 8, vars));
}
static void copyMem(u64 d, u64 s, u64 n) {
  if (n == 0 || d == s) return;
  std::vector<std::pair<u64, Cell>> cs;
  if (memchr(shadowOf(s), 2, n)) {
    for (u64 i = 0; i < n;) {
      if (shadowOf(s)[i] != 2) { i++; continue; }
      auto [b, c] = cellAt(s + i);
      if (!c) unsup("lost cell in copy");
      if (b < s || b + c->size > s + n) { if (c->v.s && c->v.s->k == KREAL) unsup("partial copy of real-mode double"); splitCell(b); cs.emplace_back(i, cells.at(s + i)); i++; }
      else { cs.emplace_back(b - s, *c); i = b - s + c->size; }
    }
  }
  std::vector<u8> tb((u8*)s, (u8*)s + n), ts(shadowOf(s), shadowOf(s) + n);
  clearCells(d, n);
  memcpy((void*)d, tb.data(), n); memcpy(shadowOf(d), ts.data(), n);
  for (auto& [o, c] : cs) cells[d + o] = c;
}

#include "interp.inc"
