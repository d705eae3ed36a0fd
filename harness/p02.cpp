// P02 K-periodic throughput is the exact maximum
#include "graph.h"
using namespace vh;

GenOpt thr_opts(Tape &t) {
  GenOpt o; o.wide = true;
  o.min_tasks = 1; o.max_tasks = (int[]){4, 6, 9}[t.pick({4, 3, 1})];
  o.max_phases = (int[]){1, 3, 4}[t.pick({3, 5, 1})];
  o.max_q = (long[]){4, 6, 12}[t.pick({5, 2, 1})];
  o.max_firings = (long[]){24, 48, 80}[t.pick({3, 4, 1})];
  o.extra_edges = 4; o.strong = t.chance(1, 3);
  o.max_dur = (long[]){9, 1, 50}[t.pick({6, 1, 2})];
  o.zero_durations = t.chance(1, 6);
  o.reent0 = t.chance(1, 4);
  return o;
}

// Initial phases: never above the exact steady-state throughput, equal to it
// when the initial phases consume nothing.
static void with_initial_phases(Case &c) {
  Tape &t = c.t; GenOpt o = thr_opts(t); o.zero_durations = false; G g = gen_graph(t, o); std::vector<long> q;
  if (!rep_vector(g, q)) c.discard("inconsistent");
  if (firings(g, q) > 60) c.discard("too large");
  bool consume = t.chance(1, 2), produce = !consume || t.chance(2, 3), any = false;
  for (size_t i = 0; i < g.T.size(); i++) {
    int n = t.chance(1, 2) ? (int)t.range(1, 3) : 0; any = any || n;
    for (int k = 0; k < n; k++) g.T[i].idur.push_back(g.T[i].reent ? t.range(1, 5) : g.T[i].dur[0]);
    for (auto &e : g.E) for (int k = 0; k < n; k++) { if (e.s == (int)i) e.iin.push_back(produce ? t.range(0, 4) : 0); if (e.t == (int)i) e.iout.push_back(consume ? t.range(0, 4) : 0); }
  }
  for (auto &e : g.E) e.m += sum(e.iout);
  c.describe(g.str()); c.label(consume ? "initial phases, consuming" : "initial phases, producing only");
  G st; if (!steady(g, st)) c.discard("initial phases do not end");
  Rat thr; Mcr m = exact_throughput(st, q, thr);
  if (m == Mcr::DEADLOCK || !live(st, q)) c.discard("deadlock");
  if (m == Mcr::NONE) c.discard("unbounded throughput");
  c.nontrivial = any && g.T.size() >= 2;
  Sub s = run_algo(g, "KPeriodicThroughput", {}, 15);
  if (s.kind == Sub::MEM) c.inconclusive(s.how());
  if (s.kind == Sub::CPU) c.fail("hang", "KPeriodicThroughput exceeded 15 s of CPU on a tiny graph");
  if (!s.ok()) c.fail("abort", "KPeriodicThroughput aborted: " + s.how());
  long double v; if (!find_number(s.out, "KPeriodic Throughput is", v)) c.fail("noprint", "KPeriodicThroughput reports no throughput: " + s.out);
  if (v > thr.f() * (1 + 1e-6L)) c.fail("initial-phases-above", "KPeriodicThroughput reports " + str(v) + ", the throughput after the initial phases is at most " + thr.str() + " = " + str(thr.f()));
  if (!consume && !near(v, thr.f())) c.fail("initial-phases-value", "KPeriodicThroughput reports " + str(v) + ", the maximum after the initial phases is " + thr.str() + " = " + str(thr.f()));
}
static void run(Case &c) {
  Tape &t = c.t;
  if (t.chance(1, 5)) { with_initial_phases(c); return; }
  GenOpt o = thr_opts(t);
  G g = gen_graph(t, o);
  std::vector<long> q;
  if (!rep_vector(g, q)) c.discard("inconsistent");
  if (firings(g, q) > 90) c.discard("too large");
  long double div = (long double[]){1, 64, 10, 1000}[t.pick({9, 1, 1, 1})];   // durations need not be integers
  DurationDiv dd(div);
  if (div != 1) c.label("fractional durations");
  c.describe(g.str() + (div != 1 ? "every duration divided by " + str(div) + "\n" : ""));
  Rat thr; Mcr m = exact_throughput(g, q, thr);
  if (m == Mcr::DEADLOCK || !live(g, q)) c.discard("deadlock");
  if (m == Mcr::NONE) c.discard("unbounded throughput");
  // is the bottleneck more than one task's own duration?
  Rat own(0);
  for (size_t i = 0; i < g.T.size(); i++) if (g.T[i].reent) { Rat d(q[i] * sum(g.T[i].dur)); if (own < d) own = d; }
  bool multi = own < Rat(1) / thr;
  c.label(multi ? "multi-task bottleneck" : "single-task bottleneck");
  if (multi) {
    Rat k1; std::vector<long> K(g.T.size(), 1);
    if (kperiodic_throughput(g, q, K, k1) == Mcr::FINITE && k1 < thr) { c.label("1-periodic is not enough"); }
  }
  for (auto &x : g.T) if (x.reent == 0) { c.label("unbounded task"); break; }
  for (auto &x : g.T) for (long d : x.dur) if (d == 0) { c.label("zero duration phase"); break; }
  c.nontrivial = multi && g.T.size() >= 2;
  for (const char *a : {"KPeriodicThroughput", "NKPeriodicThroughput"}) {
    Sub s = run_algo(g, a, {}, 15);
    if (s.kind == Sub::MEM) c.inconclusive(s.how());
    if (s.kind == Sub::CPU) c.fail("hang", std::string(a) + " exceeded 15 s of CPU on a tiny graph");
    if (!s.ok()) c.fail("abort", std::string(a) + " aborted: " + s.how());
    long double v, p;
    bool nk = a[0] == 'N';
    if (!find_number(s.out, nk ? "NPeriodic throughput is" : "KPeriodic Throughput is", v)) c.fail("noprint", std::string(a) + " reports no throughput: " + s.out);
    if (!find_number(s.out, nk ? "NPeriodic period     is" : "KPeriodic Period is", p)) c.fail("noprint", std::string(a) + " reports no period: " + s.out);
    if (!near(v, thr.f() * div)) c.fail(std::string(a) + "-value", std::string(a) + " reports " + str(v) + ", exact maximum is " + thr.str() + " * " + str(div) + " = " + str(thr.f() * div));
    if (fabsl(p - 1 / thr.f() / div) > 1e-5L + 1e-6L * p) c.fail(std::string(a) + "-period", std::string(a) + " reports period " + str(p) + ", exact is " + (Rat(1) / thr).str() + " / " + str(div));
  }
}
static Reg reg({"P02",
  "random consistent live SDF/CSDF graphs (connected, cyclic or not, reentrancy 1 or unbounded, zero-rate and zero-duration phases, self-loops, parallel channels, markings near the liveness boundary); non-trivial = at least 2 tasks and the exact throughput is limited by a circuit through several firings, not by one task's own duration (or some task has initial phases, one case in five)",
  60000, 1500000, 60, true,
  {"unbounded (reentrancy 0) tasks have the same duration in every phase", "printed with 9 significant digits: compared with relative tolerance 1e-6"}, run});
