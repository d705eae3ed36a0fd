// P03 independent throughput methods agree, restricted schedule classes are exact for their class
#include "graph.h"
#include <algorithm>
#include <models/Dataflow.h>
#include <algorithms/throughput/kperiodic.h>
using namespace vh;

struct Ans { bool printed = false; long double v = 0; Sub s; };
static Ans ask(Case &c, const G &g, const std::string &a, const std::string &key, const Params &p = {}, unsigned cpu = 15) {
  Ans r; r.s = run_algo(g, a, p, cpu);
  if (r.s.kind == Sub::MEM) c.inconclusive(a + " " + r.s.how());
  if (r.s.kind == Sub::CPU) c.fail("hang:" + a, a + " exceeded " + str(cpu) + " s of CPU on a tiny graph");
  if (!r.s.ok()) c.fail("abort:" + a, a + " aborted: " + r.s.how());
  r.printed = find_number(r.s.out, key, r.v);
  return r;
}

static void run(Case &c) {
  Tape &t = c.t;
  GenOpt o;
  o.min_tasks = 1; o.max_tasks = (int[]){4, 6}[t.pick({4, 3})];
  o.max_phases = (int[]){1, 3}[t.pick({2, 3})];
  o.max_q = (long[]){4, 6}[t.pick({5, 2})];
  o.max_firings = (long[]){16, 32, 48}[t.pick({3, 4, 1})];
  o.extra_edges = 4; o.strong = t.chance(1, 2);
  o.max_dur = (long[]){9, 1, 50}[t.pick({6, 1, 2})];
  o.reent0 = t.chance(1, 6);
  G g = gen_graph(t, o);
  std::vector<long> q;
  if (!rep_vector(g, q) || firings(g, q) > 60) c.discard("too large");
  long double div = (long double[]){1, 64, 10, 1000}[t.pick({9, 1, 1, 1})];   // durations need not be integers
  DurationDiv dd(div);
  if (div != 1) c.label("fractional durations");
  std::string note = div != 1 ? "every duration divided by " + str(div) + "\n" : "";
  c.describe(g.str() + note);
  Rat thr; Mcr m = exact_throughput(g, q, thr);
  if (m == Mcr::DEADLOCK || !live(g, q)) c.discard("deadlock");
  if (m == Mcr::NONE) c.discard("unbounded throughput");
  bool r1 = true; for (auto &x : g.T) r1 &= x.reent == 1;
  size_t n = g.T.size();
  std::vector<long> one(n, 1), two(n, 2), K(n);
  Rat k1, k2, kk, sp, asp;
  Mcr m1 = kperiodic_throughput(g, q, one, k1), m2 = kperiodic_throughput(g, q, two, k2);
  if (m1 == Mcr::FINITE && k1 < thr) { c.label("1-periodic < exact"); c.nontrivial = true; }
  if (m1 == Mcr::DEADLOCK) { c.label("no 1-periodic schedule"); c.nontrivial = true; }

  auto expect = [&](const std::string &a, const std::string &key, Mcr mm, const Rat &want, const Params &p = {}, long double tol = 1e-6L) {
    Ans r = ask(c, g, a, key, p);
    if (mm == Mcr::FINITE) {
      if (!r.printed) c.fail("noprint:" + a, a + " reports no throughput: " + r.s.out.substr(0, 300));
      if (!near(r.v, want.f() * div, tol)) c.fail("value:" + a, a + " reports " + str(r.v) + ", expected " + want.str() + " * " + str(div) + " = " + str(want.f() * div));
    } else if (mm == Mcr::DEADLOCK) {
      if (r.printed && r.v > 1e-9L && !std::isinf((double)r.v)) c.fail("infeasible:" + a, a + " reports " + str(r.v) + " although no schedule of its class exists");
    }
  };
  int part = t.pick({1, 1, 1});
  if (part == 0) {                         // exact methods
    if (r1) { c.label("SymbExec"); expect("SymbExec", "Symbolic Execution Throughput is", Mcr::FINITE, thr); }
    if (g.sdf()) { c.label("deGroote"); expect("deGrooteThroughput", "Maximum throughput is", Mcr::FINITE, thr, {}, 1e-5L); expect("deGrooteCleanThroughput", "Maximum throughput is", Mcr::FINITE, thr, {}, 1e-5L); }
    expect("EGN", "Maximum throughput is", Mcr::FINITE, thr);
    expect("KPeriodicThroughput", "KPeriodic Throughput is", Mcr::FINITE, thr);
  } else if (part == 1) {                  // restricted classes
    expect("1PeriodicThroughput", "1Periodic throughput is", m1, k1);
    expect("EG1", "Maximum throughput is", m1, k1);
    expect("2PeriodicThroughput", "2Periodic throughput is", m2, k2);
    if (r1) {
      Mcr ms = speriodic_throughput(g, q, false, sp), ma = speriodic_throughput(g, q, true, asp);
      if (ms == Mcr::FINITE && sp < k1) c.label("strictly periodic < 1-periodic");
      if (ms == Mcr::DEADLOCK) c.label("no strictly periodic schedule");
      expect("SPeriodicThroughput", "SPeriodic throughput is", ms, sp);
      expect("ASPeriodicThroughput", "SPeriodic throughput is", ma, asp);
      if (ms == Mcr::FINITE && m1 == Mcr::FINITE && k1 < sp) c.fail("order", "oracle: strictly periodic above 1-periodic");
    }
  } else {                                 // linear programming formulations and chosen K
    for (size_t i = 0; i < n; i++) K[i] = 1 + (long)t.draw(3);
    Mcr mk = kperiodic_throughput(g, q, K, kk);
    c.describe(g.str() + note + "K=[" + vec(K) + "]\n");
    Sub r = isolate([&]() -> std::string {
      auto *df = build(g);
      periodicity_vector_t kv; size_t i = 0;
      for (Vertex v : df->vertices()) kv[v] = K[i++];
      auto res = algorithms::KSchedule(df, &kv);
      std::ostringstream os; os.precision(18); os << res.throughput;
      for (Edge e : res.critical_edges) os << ' ' << df->getEdgeName(e);
      return os.str();
    }, 15);
    if (r.kind == Sub::CPU) c.fail("hang:KSchedule", "KSchedule exceeded 15 s of CPU on a tiny graph");
    if (!r.ok()) c.fail("abort:KSchedule", "KSchedule aborted: " + r.how());
    std::istringstream is(r.ret); long double v; is >> v;
    if (mk == Mcr::FINITE) {
      if (!near(v, kk.f() * div, 1e-9L)) c.fail("value:KSchedule", "K-periodic throughput for K is " + str(v) + ", expected " + kk.str() + " = " + str(kk.f() * div));
      // the critical channels alone must already impose that limit
      G cg = g; cg.E.clear(); std::string en; std::vector<std::string> crit;
      while (is >> en) crit.push_back(en);
      for (auto &e : g.E) if (std::find(crit.begin(), crit.end(), e.name) != crit.end()) cg.E.push_back(e);
      Rat ck; Mcr mc = kperiodic_throughput(cg, q, K, ck);
      if (mc != Mcr::FINITE || !(ck == kk)) c.fail("critical:KSchedule", "critical channels {" + vec(crit) + "} alone allow a K-periodic throughput of " + ck.str() + ", the graph " + kk.str());
      if (crit.size() >= 2) c.label("critical circuit through 2+ channels");
    } else if (mk == Mcr::DEADLOCK && v > 1e-9L && !std::isinf((double)v)) c.fail("infeasible:KSchedule", "throughput " + str(v) + " although no K-periodic schedule exists");
    if (r1 && firings(g, q) <= 16) {
      c.label("LP");
      expect("LP1", "1Periodic(LP) throughput is", m1, k1, {}, 1e-5L);
      Mcr ms = speriodic_throughput(g, q, false, sp);
      if (ms == Mcr::FINITE) expect("REALLP1", "SPeriodic(LP) throughput is", ms, sp, {}, 1e-5L);
      if (firings(g, q) <= 8) { c.label("LPN"); expect("LPN", "NPeriodic(LP) throughput is", Mcr::FINITE, thr, {}, 1e-5L); }
    }
  }
}
// self-timed execution with durations whose sums are rounded: used to never come back to a state it recognised
static void rounded(Case &c) {
  G g; long dur[] = {8, 6, 3, 6};
  for (int i = 0; i < 4; i++) { GTask x; x.name = "t" + str(i); x.dur = {dur[i]}; g.T.push_back(x); }
  long E[][5] = {{0, 1, 2, 3, 3}, {1, 2, 2, 1, 0}, {2, 3, 1, 2, 1}, {3, 0, 3, 2, 7}, {3, 2, 2, 1, 1}, {0, 0, 1, 1, 1}};
  for (auto &x : E) { GEdge e; e.s = (int)x[0]; e.t = (int)x[1]; e.in = {x[2]}; e.out = {x[3]}; e.m = x[4]; e.name = "e" + str(g.E.size()); g.E.push_back(e); }
  DurationDiv dd(1000); c.describe(g.str() + "every duration divided by 1000\n");
  std::vector<long> q; Rat thr; if (!rep_vector(g, q) || exact_throughput(g, q, thr) != Mcr::FINITE) c.discard("oracle");
  Ans r = ask(c, g, "SymbExec", "Symbolic Execution Throughput is", {}, 5);
  if (!r.printed || !near(r.v, thr.f() * 1000)) c.fail("value:SymbExec", "SymbExec reports " + str(r.v) + ", expected " + thr.str() + " * 1000");
}
static Reg reg({"P03",
  "random consistent live (C)SDF graphs; every method of one of three groups (exact: SymbExec, deGroote, EGN, KPeriodic; restricted: 1-, 2-, strictly periodic; LP formulations and chosen K) is compared with the exact optimum of its own schedule class; non-trivial = 1-periodic schedules cannot reach the exact throughput of the graph (or do not exist)",
  40000, 700000, 60, true,
  {"strictly periodic, symbolic and LP methods are compared on tasks of reentrancy 1 with positive durations"}, run, {{"rounded-durations", rounded}}});
