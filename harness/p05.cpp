// P05 emitted schedules are executable and attain the announced period
#include "periodic.h"
#include <models/Dataflow.h>
#include <models/Scheduling.h>
#include <models/repetition_vector.h>
#include <algorithms/schedulings.h>
#include <algorithms/throughput/kperiodic.h>
using namespace vh;


static std::string dump(const models::Dataflow *df, models::Scheduling &s) {
  std::ostringstream o; o.precision(20);
  scheduling_t st = s.getTaskSchedule();
  o << s.getGraphPeriod();
  for (Vertex v : df->vertices()) {
    auto id = df->getVertexId(v);
    bool have = false; for (auto &x : st) have |= x.first == id;
    if (!have) { o << " 0 0 0"; continue; }
    task_schedule_t x = st[id];
    o << ' ' << x.initial_starts.size(); for (auto y : x.initial_starts) o << ' ' << y;
    o << ' ' << x.periodic_starts.first << ' ' << x.periodic_starts.second.size(); for (auto y : x.periodic_starts.second) o << ' ' << y;
  }
  return o.str();
}
static Sched parse(const std::string &s, size_t n, LD unit) {
  Sched r; std::istringstream is(s);
  auto num = [&]() -> LD { std::string w; is >> w; return strtold(w.c_str(), nullptr); };
  r.omega = num() / unit;
  for (size_t i = 0; i < n; i++) {
    TS t; size_t k = (size_t)num(); while (k--) t.init.push_back(num() / unit);
    t.period = num() / unit; k = (size_t)num(); while (k--) t.starts.push_back(num() / unit);
    r.t.push_back(t);
  }
  return r;
}
static std::string show(const G &g, const Sched &s) {
  std::string o = "schedule: graph period " + str(s.omega) + "\n";
  for (size_t i = 0; i < g.T.size(); i++) o += "  " + g.T[i].name + " starts [" + vec(s.t[i].starts) + "] period " + str(s.t[i].period) + "\n";
  return o;
}
static void run(Case &c) {
  Tape &t = c.t;
  GenOpt o; o.wide = true;
  o.min_tasks = 1; o.max_tasks = (int[]){4, 6}[t.pick({4, 3})];
  o.max_phases = (int[]){1, 3}[t.pick({2, 3})];
  o.max_q = (long[]){4, 6}[t.pick({5, 2})];
  o.max_firings = (long[]){16, 32, 48}[t.pick({3, 4, 1})];
  o.extra_edges = 4; o.strong = t.chance(1, 2);
  o.max_dur = (long[]){9, 1, 50}[t.pick({6, 1, 2})];
  o.reent0 = t.chance(1, 6); o.zero_durations = t.chance(1, 8);
  if (t.chance(1, 8)) { o.max_q = 13; o.max_tasks = 3; o.max_firings = 48; }
  G g = gen_graph(t, o);
  LD div = (LD[]){1, 64, 10, 1000}[t.pick({6, 1, 1, 1})], unit = 1 / div;   // durations need not be integers
  DurationDiv dd(div);
  std::vector<long> q;
  if (!rep_vector(g, q) || firings(g, q) > 60) c.discard("too large");
  int which = t.pick({3, 3, 3, 3, 2, 1, 1});
  static const char *names[] = {"1-periodic", "K-periodic", "strictly periodic", "fixed-K", "1-periodic LP", "fixed-K LP", "strictly periodic LP"};
  std::vector<long> K(g.T.size(), 1);
  if (which == 3 || which == 5) for (auto &k : K) k = 1 + (long)t.draw(which == 5 ? 2 : 3);
  std::string head = std::string(names[which]) + (unit != 1 ? " (durations divided by " + str(div) + ")" : "") + (which == 3 || which == 5 ? " K=[" + vec(K) + "]" : "") + "\n";
  c.describe(head + g.str());
  c.label(names[which]);
  Rat thr; Mcr m = exact_throughput(g, q, thr);
  if (m == Mcr::DEADLOCK || !live(g, q)) c.discard("deadlock");
  if (m == Mcr::NONE) c.discard("unbounded throughput");
  bool zero = false, r1 = true;
  for (auto &x : g.T) { r1 &= x.reent == 1; for (long d : x.dur) zero |= d == 0; }
  bool lp = which >= 4;
  if ((which == 2 || which == 6 || which == 4 || which == 5) && (zero || !r1)) { zero = false; for (auto &x : g.T) { x.reent = 1; for (auto &d : x.dur) if (!d) d = 1; } m = exact_throughput(g, q, thr); c.describe(head + g.str()); }
  if (lp && firings(g, q) > 20) c.discard("too large for LP");
  Rat want; Mcr cls;
  if (which == 1) { cls = m; want = thr; }
  else if (which == 2 || which == 6) cls = speriodic_throughput(g, q, false, want);
  else cls = kperiodic_throughput(g, q, K, want);
  if (cls == Mcr::NONE) c.discard("unbounded class");
  if (cls == Mcr::DEADLOCK && zero) c.discard("undecided");
  if (cls == Mcr::DEADLOCK) c.label("no schedule of the class");
  Sub s = isolate([&]() -> std::string {
    auto *df = build(g);
    if (!computeRepetitionVector(df)) throw std::runtime_error("inconsistent");
    periodicity_vector_t kv; size_t i = 0; for (Vertex v : df->vertices()) kv[v] = K[i++];
    models::Scheduling sc;
    switch (which) {
      case 0: sc = algorithms::scheduling::CSDF_1PeriodicScheduling(df); break;
      case 1: sc = algorithms::scheduling::CSDF_KPeriodicScheduling(df); break;
      case 2: sc = algorithms::scheduling::CSDF_SPeriodicScheduling(df); break;
      case 3: { auto r = algorithms::KSchedule(df, &kv); sc = period2Scheduling(df, kv, r); break; }
      case 4: case 5: sc = algorithms::scheduling::CSDF_KPeriodicScheduling_LP(df, kv); break;
      default: sc = algorithms::scheduling::CSDF_RealPeriodicScheduling_LP(df);
    }
    return dump(df, sc);
  }, 15);
  if (s.kind == Sub::CPU) c.fail("hang", "scheduler exceeded 15 s of CPU on a tiny graph");
  if (s.kind == Sub::MEM) c.inconclusive(s.how());
  if (cls == Mcr::DEADLOCK) {               // nothing valid can be emitted
    if (!s.ok()) return;
    Sched r = parse(s.ret, g.T.size(), unit);
    bool any = false; for (auto &x : r.t) any |= !x.starts.empty();
    if (any && std::isfinite((double)r.omega) && r.omega > 1e-9L && r.omega < 1e15L) c.fail("infeasible", "a schedule of period " + str(r.omega) + " is emitted although none of this class exists\n" + show(g, r));
    return;
  }
  if (!s.ok()) c.fail("abort", "scheduler aborted: " + s.how());
  Sched r = parse(s.ret, g.T.size(), unit);
  LD w = 1 / want.f();
  bool multi = false; for (long x : q) multi |= x > 1;
  c.nontrivial = g.T.size() >= 2 && !g.E.empty() && multi;
  if (!near(r.omega, w, lp ? 1e-6L : 1e-9L)) c.fail("period", "announced period " + str(r.omega) + ", best of the class is " + (Rat(1) / want).str() + "\n" + show(g, r));
  std::string e = check(g, q, r);
  if (!e.empty()) c.fail("infeasible-schedule", e + "\n" + show(g, r));
}
static Reg reg({"P05",
  "random consistent live (C)SDF graphs x scheduler (1-periodic, K-periodic, strictly periodic, user-chosen K, and the LP formulations); the emitted start times are extended to the infinite schedule and every overlap and token constraint of one hyper-period is checked; non-trivial = at least 2 tasks, a channel and a repetition vector that is not all ones",
  80000, 1500000, 60, true,
  {"strictly periodic and LP schedulers are asked only on reentrancy 1 and positive durations", "start times are compared with a relative tolerance of 1e-9 of the period", "a period of 1e15 or more stands for the zero throughput of a graph without schedule of the class"}, run});
