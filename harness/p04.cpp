// P04 deadlock verdict
#include "graph.h"
using namespace vh;

static void run(Case &c) {
  Tape &t = c.t;
  GenOpt o; o.wide = true;
  o.min_tasks = 1; o.max_tasks = (int[]){4, 7}[t.pick({4, 2})];
  o.max_phases = (int[]){1, 3}[t.pick({2, 3})];
  o.max_q = (long[]){3, 6}[t.pick({3, 2})];
  o.max_firings = (long[]){24, 48}[t.pick({3, 2})];
  o.extra_edges = 4; o.strong = t.chance(2, 3);
  o.max_dur = (long[]){9, 1}[t.pick({4, 1})];
  o.reent0 = t.chance(1, 5);
  o.zero_durations = t.chance(1, 8);
  int mode = t.pick({2, 1});
  o.make_live = mode == 0; o.extra_tokens = mode == 1 || t.chance(1, 4);
  G g = gen_graph(t, o);
  std::vector<long> q;
  if (!rep_vector(g, q) || firings(g, q) > 90) c.discard("too large");
  if (mode == 0 && t.chance(2, 3)) {       // step back over the boundary: take tokens away
    std::vector<size_t> w; for (size_t i = 0; i < g.E.size(); i++) if (g.E[i].m) w.push_back(i);
    if (!w.empty()) { auto &e = g.E[w[t.draw((uint32_t)w.size())]]; e.m -= 1 + (long)t.draw((uint32_t)std::min<long>(e.m, 3)) % e.m; if (e.m < 0) e.m = 0; }
  }
  bool lv = live(g, q);
  bool zero = false; for (auto &x : g.T) for (long d : x.dur) zero |= d == 0;
  c.describe(g.str());
  // known finding zero-time-deadlock: token-free circuits made of instantaneous firings only
  if (!lv && zero && !timed_deadlock(g, q)) c.discard("deadlock among instantaneous firings only");
  // on the boundary: one channel decides
  bool boundary = false;
  for (auto &e : g.E) {
    G h = g; auto &f = h.E[(size_t)(&e - &g.E[0])];
    if (lv) { if (!f.m) continue; f.m--; } else f.m++;
    if (live(h, q) != lv) { boundary = true; break; }
  }
  c.label(lv ? "live" : "deadlock"); if (boundary) c.label(lv ? "live, one token from deadlock" : "deadlock, one token from live");
  if (zero) c.label("zero duration phase");
  c.nontrivial = boundary;
  bool r1 = true; for (auto &x : g.T) r1 &= x.reent == 1;
  struct M { const char *algo, *key; };
  std::vector<M> ms = {{"KPeriodicThroughput", "KPeriodic Throughput is"}, {"NKPeriodicThroughput", "NPeriodic throughput is"}};
  if (r1 && !zero) ms.push_back({"SymbExec", "Symbolic Execution Throughput is"});
  ms.push_back({"1PeriodicThroughput", "1Periodic throughput is"});
  for (auto &m : ms) {
    Sub s = run_algo(g, m.algo, {}, 15);
    std::string a = m.algo;
    if (s.kind == Sub::MEM) c.inconclusive(s.how());
    if (s.kind == Sub::CPU) c.fail("hang:" + a, a + " exceeded 15 s of CPU on a tiny graph");
    if (s.kind == Sub::SIGNAL) c.fail("crash:" + a, a + " crashed: " + s.how());
    long double v = 0; bool printed = find_number(s.out, m.key, v);
    bool positive = printed && v > 1e-12L;     // includes inf
    bool exact = a != "1PeriodicThroughput";
    if (!lv && positive) c.fail("missed:" + a, a + " reports throughput " + str(v) + " for a deadlocking graph");
    if (lv && exact && !positive) c.fail("false:" + a, a + " reports " + (printed ? str(v) : "nothing (" + s.how() + ")") + " for a live graph");
  }
}
static void zero_time(Case &c) {
  G g; g.T.push_back({"t0", {1, 0}, {}, 1});
  GEdge e; e.s = 0; e.t = 0; e.name = "e0"; e.in = {0, 1}; e.out = {0, 1}; g.E.push_back(e);
  c.describe(g.str());
  Sub s = run_algo(g, "KPeriodicThroughput", {}, 15);
  long double v = 0;
  if (find_number(s.out, "KPeriodic Throughput is", v) && v > 1e-12L) c.fail("missed", "KPeriodicThroughput reports throughput " + str(v) + " for a deadlocking graph");
}
static Reg reg({"P04",
  "random consistent (C)SDF graphs with markings on both sides of the deadlock boundary (made live, then tokens taken away; or random markings); non-trivial = adding or removing one single token somewhere flips the verdict",
  40000, 600000, 60, true, {"symbolic execution is asked only on tasks of reentrancy 1 with positive durations", "deadlocks whose token-free circuits consist of zero-duration firings only are pinned as known finding zero-time-deadlock"}, run, {{"zero-time-deadlock", zero_time}}});
