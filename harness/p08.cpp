// P08 start-time computation satisfies every precedence constraint
#include "graph.h"
#include <models/EventGraph.h>
#include <algorithm>
using namespace vh;

static void run(Case &c) {
  Tape &t = c.t;
  struct A { int u, v; Rat w; long d; };
  int big = t.pick({5, 3, 1});
  int n = 1 + (int)t.skew(0, big == 0 ? 8 : big == 1 ? 24 : 60);
  long N = (long[]){1, 2, 3, 6, 12, 7, 60}[t.draw(7)];
  int shape = t.pick({3, 2, 2, 1});     // random, ring + extra, long backward chain, acyclic
  int m = shape == 2 ? n - 1 + (int)t.draw(4) : shape == 1 ? n + (int)t.draw((uint32_t)n + 3) : (int)t.skew(0, 3 * n + 2);
  long maxd = (long[]){9, 1, 1000, 100000}[t.pick({5, 1, 2, 1})];
  int zw = t.pick({3, 1, 1});
  std::vector<long> pot((size_t)n); for (auto &p : pot) p = (long)t.draw((uint32_t)(4 * N) + 1);
  std::vector<A> a;
  for (int i = 0; i < m; i++) {
    A x; x.u = (int)t.draw((uint32_t)n); x.v = (int)t.draw((uint32_t)n);
    if (shape == 1 && i < n) { x.u = i; x.v = (i + 1) % n; }
    if (shape == 2 && i < n - 1) { x.u = i + 1; x.v = i; }        // propagation against the vertex order
    if (shape == 3 && x.u == x.v) continue;
    if (shape == 3 && x.u < x.v) std::swap(x.u, x.v);
    x.d = (long)t.draw((uint32_t)maxd + 1); if (t.chance(1, 6)) x.d = 0;
    long base = zw && !t.chance(1, zw == 1 ? 4 : 2) ? 0 : (long)t.skew(0, 3 * N);
    x.w = Rat(base + pot[(size_t)x.u] - pot[(size_t)x.v], N);
    a.push_back(x);
  }
  std::vector<RArc> arcs; for (auto &x : a) arcs.push_back({x.u, x.v, Rat(x.d), x.w, 0});
  Rat best; Mcr r = max_ratio(n, arcs, best);
  if (r == Mcr::DEADLOCK) c.discard("infeasible at every period");
  // period: the smallest feasible one, slightly above, or far above
  static const long num[] = {1, 1, 10001, 5, 3, 100}, den[] = {1, 1, 10000, 4, 1, 1};
  size_t k = (size_t)t.draw(6);
  Rat om = r == Mcr::FINITE ? best * Rat(num[k], den[k]) : Rat((long)t.draw(50), 1 + (long)t.draw(7));
  c.label(r == Mcr::FINITE ? k < 2 ? "smallest feasible period" : "larger period" : "no circuit limits the period");
  std::string d = str(n) + " events, period " + om.str() + "\n";
  for (auto &x : a) d += "  " + str(x.u) + " -> " + str(x.v) + " w=" + x.w.str() + " d=" + str(x.d) + "\n";
  c.describe(d);
  c.nontrivial = n >= 3 && a.size() >= 3 && r == Mcr::FINITE;
  models::EventGraph eg; std::vector<models::EventGraphVertex> ev;
  for (int i = 0; i < n; i++) ev.push_back(eg.addEvent(models::SchedulingEvent((ARRAY_INDEX)i + 1, 1, 1)));
  for (auto &x : a) eg.addEventConstraint(ev[(size_t)x.u], ev[(size_t)x.v], (TIME_UNIT)x.w.n / (TIME_UNIT)x.w.d, (TIME_UNIT)x.d, 1);
  TIME_UNIT omega = (TIME_UNIT)om.n / (TIME_UNIT)om.d;
  if (!eg.computeStartingTimeWithOmega(omega)) c.fail("refused", "no starting times are computed at a feasible period");
  // at the smallest period rounding may leave circuits infeasible by an ulp per relaxation round
  long double scale = 1 + (long double)maxd * n + fabsl(omega) * 8 * n, eps = 1e-12L * scale;
  for (int i = 0; i < n; i++) {
    long double s = eg.getStartingTime(ev[(size_t)i]);
    if (!(s >= -eps) || !std::isfinite((double)s)) c.fail("negative", "event " + str(i) + " starts at " + str(s));
  }
  for (auto &x : a) {
    long double s = eg.getStartingTime(ev[(size_t)x.u]), e = eg.getStartingTime(ev[(size_t)x.v]), w = (long double)x.w.n / (long double)x.w.d;
    if (e - s < (long double)x.d - omega * w - eps) c.fail("violated", "constraint " + str(x.u) + " -> " + str(x.v) + ": " + str(e) + " - " + str(s) + " < " + str(x.d) + " - period * " + x.w.str());
  }
  // constraints and events are left as stated
  if (eg.getEventCount() != (unsigned)n || eg.getConstraintsCount() != (unsigned)a.size()) c.fail("graph", "the event graph was modified");
}
static Reg reg({"P08",
  "random event graphs (rings, chains against the vertex order, random, acyclic; fractional and negative weights) at the exact smallest feasible period, just above it and far above; every constraint is re-evaluated from the returned starting times; non-trivial = at least 3 events and 3 constraints with a circuit that limits the period",
  200000, 4000000, 20, true, {"constraints are compared with a tolerance of 1e-12 of the time scale of the graph"}, run});
