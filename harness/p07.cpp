// P07 cycle-ratio solver returns the optimum ratio and a critical circuit achieving it
#include "graph.h"
#include <models/EventGraph.h>
#include <algorithm>
using namespace vh;

struct EGSpec { int n; long N; struct A { int u, v; long w, d; }; std::vector<A> a; };

// w in multiples of 1/N. every circuit has sum(d) > 0 (min) or sum(w) > 0 (max, where d plays the weight)
// shape of the expansion of a dataflow graph: every event waits for one execution of each of a few
// tasks, few constraints carry tokens, durations depend on the task; some events nobody waits for
static EGSpec gen_expansion(Tape &t) {
  EGSpec s; s.N = 1; int n = 2 + (int)t.draw(6); std::vector<int> q, first; std::vector<long> dur; s.n = 0;
  for (int i = 0; i < n; i++) { q.push_back(1 + (int)t.draw(5)); first.push_back(s.n); s.n += q.back(); dur.push_back(t.chance(1, 2) ? 1 : (long)t.draw(9)); }
  auto arc = [&](int i, int j, long d0) { for (int y = 0; y < q[(size_t)j]; y++) { long x = (long)y * q[(size_t)i] / q[(size_t)j] - d0, w = x < 0 ? (-x + q[(size_t)i] - 1) / q[(size_t)i] : 0; s.a.push_back({first[(size_t)i] + (int)(x + w * q[(size_t)i]), first[(size_t)j] + y, w, dur[(size_t)j]}); } };
  for (int i = 0; i < n; i++) arc(i, (i + 1) % n, i + 1 == n ? 1 + (long)t.draw((uint32_t)(2 * q[(size_t)i])) : t.chance(1, 3) ? (long)t.draw(4) : 0);
  for (int i = 0; i < n; i++) if (t.chance(1, 2)) arc(i, i, 1);
  for (int k = (int)t.draw(4); k > 0; k--) { int i = (int)t.draw((uint32_t)n), j = (int)t.draw((uint32_t)n); arc(i, j, j > i ? (long)t.draw(3) : q[(size_t)i] + (long)t.draw(4)); }
  std::vector<int> to((size_t)s.n); for (int i = 0; i < s.n; i++) to[(size_t)i] = i;
  if (t.chance(1, 2)) for (int i = 0; i + 1 < s.n; i++) std::swap(to[(size_t)i], to[(size_t)i + t.draw((uint32_t)(s.n - i))]);
  for (auto &a : s.a) a.u = to[(size_t)a.u], a.v = to[(size_t)a.v];
  return s;
}
static EGSpec gen(Tape &t, bool maxi, bool structured) {
  if (t.chance(1, 4)) return gen_expansion(t);
  EGSpec s;
  int big = t.pick({5, 3, 1});
  s.n = 1 + (int)t.skew(0, big == 0 ? 9 : big == 1 ? 30 : 90);
  s.N = maxi ? 1 : std::vector<long>{1, 2, 3, 6, 12, 7, 60}[t.draw(7)];
  int m = structured ? s.n + (int)t.draw((uint32_t)(2 * s.n + 2)) : (int)t.skew(1, 3 * s.n + 2);
  int zw = t.pick({3, 1, 1}), zd = t.pick({3, 1, 1});
  long maxd = std::vector<long>{9, 1, 1000, 100000}[(size_t)t.pick({5, 1, 2, 1})];
  std::vector<long> pot((size_t)s.n);
  for (auto &p : pot) p = (long)t.draw((uint32_t)(4 * s.N) + 1);
  for (int i = 0; i < m; i++) {
    EGSpec::A a;
    a.u = (int)t.draw((uint32_t)s.n); a.v = (int)t.draw((uint32_t)s.n);
    if (i < s.n && structured) { a.u = i; a.v = (i + 1) % s.n; }
    a.d = (long)t.draw((uint32_t)maxd + 1);
    // w >= 0 on every circuit thanks to a potential; individual weights may be negative
    if (zd && t.chance(1, zd == 1 ? 2 : 4)) a.d = 0;
    long base = zw && !t.chance(1, zw == 1 ? 4 : 2) ? 0 : (long)t.skew(0, 3 * s.N);
    a.w = base + pot[(size_t)a.u] - pot[(size_t)a.v];
    s.a.push_back(a);
  }
  return s;
}

static void run(Case &c) {
  Tape &t = c.t;
  int mode = t.pick({6, 3, 3});     // 0: min ratio, 1: max ratio (degroote), 2: min ratio with given bound
  bool maxi = mode == 1;
  EGSpec s = gen(t, maxi, t.chance(1, 2));
  std::string d = str(mode == 0 ? "MinCycleRatio()" : mode == 1 ? "MaxCycleRatio()" : "MinCycleRatio(bound)") + " on " + str(s.n) + " events, weights /" + str(s.N) + "\n";
  for (auto &a : s.a) d += "  " + str(a.u) + " -> " + str(a.v) + " w=" + str(a.w) + " d=" + str(a.d) + "\n";
  c.describe(d);
  // oracle: maximum of sum(d)/sum(w)
  std::vector<RArc> arcs;
  for (auto &a : s.a) arcs.push_back({a.u, a.v, Rat(a.d), Rat(a.w, s.N), 0});
  // solver precondition: denominators of every circuit non zero. Zero-height circuits of the
  // event graph are deadlocks (ratio 0), zero-duration ones never limit.
  Rat best; std::vector<int> cyc;
  Mcr r = max_ratio(s.n, arcs, best, &cyc);
  std::vector<RArc> plain;
  for (auto &a : s.a) plain.push_back({a.u, a.v, Rat(1), Rat(1), 0});
  Rat dummy; bool acyclic = max_ratio(s.n, plain, dummy) == Mcr::NONE;
  if (r == Mcr::DEADLOCK) {
    // some circuit has zero w. Decidable only when no circuit has both zero w and zero d.
    std::vector<RArc> zz;
    for (auto &a : s.a) zz.push_back({a.u, a.v, Rat(1), Rat(a.w, s.N) + Rat(a.d), 0});
    if (max_ratio(s.n, zz, dummy) == Mcr::DEADLOCK) c.discard("circuit 0/0");
    if (maxi) c.discard("infinite maximum ratio");
    c.label("ratio 0");
  }
  if (acyclic) c.label("acyclic");
  if (r == Mcr::NONE && !acyclic) c.label("only zero-duration circuits");
  if (r == Mcr::FINITE) { c.label("finite ratio"); if (cyc.size() >= 3) c.label("critical circuit of 3+ events"); }
  c.nontrivial = r == Mcr::FINITE && s.a.size() >= 4 && s.n >= 2;

  models::EventGraph eg;
  std::vector<models::EventGraphVertex> ev;
  for (int i = 0; i < s.n; i++) ev.push_back(eg.addEvent(models::SchedulingEvent((ARRAY_INDEX)i + 1, 1, 1)));
  for (auto &a : s.a) {
    TIME_UNIT w = (TIME_UNIT)a.w / (TIME_UNIT)s.N;
    if (maxi) eg.addEventConstraint(ev[(size_t)a.u], ev[(size_t)a.v], (TIME_UNIT)a.d, w, 1);
    else eg.addEventConstraint(ev[(size_t)a.u], ev[(size_t)a.v], w, (TIME_UNIT)a.d, 1);
  }
  TIME_UNIT bound = 0;
  if (mode == 2) {
    if (r == Mcr::FINITE) bound = (TIME_UNIT)(1.0L / best.f()) * (TIME_UNIT)(1 + 0.25 * (double)(1 + t.draw(8)));
    else mode = 0;  // a given bound needs a better circuit
    c.describe(d + "  bound=" + str(bound) + "\n");
  }
  auto res = maxi ? eg.MaxCycleRatio() : mode == 2 ? eg.MinCycleRatio(bound) : eg.MinCycleRatio();
  // returned circuit
  auto ratio_of = [&](Rat &D, Rat &W) {
    D = Rat(0); W = Rat(0);
    for (auto &e : res.second) {
      TIME_UNIT w = maxi ? eg.getDuration(e) : eg.getWeight(e), du = maxi ? eg.getWeight(e) : eg.getDuration(e);
      D = D + Rat(llround(du)); W = W + Rat(llround(w * (TIME_UNIT)s.N), s.N);
    }
  };
  auto closed = [&] {
    if (res.second.empty()) return false;
    for (size_t i = 0; i < res.second.size(); i++)
      if (eg.getTarget(res.second[i]) != eg.getSource(res.second[(i + 1) % res.second.size()])) return false;
    return true;
  };
  long double got = (long double)res.first;
  if (r == Mcr::FINITE) {
    long double want = maxi ? best.f() : 1.0L / best.f();
    c.require(std::isfinite((double)got) && near(got, want, 1e-9L), "value", "solver returned " + str(got) + ", optimum is " + str(want) + " (" + best.str() + " as d/w)");
    c.require(closed(), "circuit", "returned critical edges (" + str(res.second.size()) + ") are not a closed circuit");
    Rat D, W; ratio_of(D, W);
    c.require(Rat(0) < W && D / W == best, "circuit-ratio", "returned circuit has d/w = " + D.str() + "/" + W.str() + ", optimum is " + best.str());
  } else if (r == Mcr::DEADLOCK) {
    c.require(got <= 1e-9L && got >= -1e-9L, "value-zero", "solver returned " + str(got) + ", optimum is 0");
    c.require(closed(), "circuit", "returned critical edges are not a closed circuit");
    Rat D, W; ratio_of(D, W);
    c.require(W == Rat(0), "circuit-ratio", "returned circuit has w = " + W.str() + ", optimum is 0");
  } else if (!maxi) {
    c.require(std::isinf((double)got) && got > 0, "value-infinite", "no limiting circuit, solver returned " + str(got));
  }
}
static Reg reg({"P07",
  "random event graphs: 1-90 events, parallel edges, self-loops, several strongly connected parts, durations 0-100000, weights that are multiples of 1/N and negative on single edges but non negative on circuits, one in four with the shape of the expansion of a dataflow graph (circuits of tasks with several executions, few tokens, executions nobody waits for); non-trivial = at least 2 events, 4 edges and a finite optimum",
  200000, 4000000, 20, true, {"event graphs with a circuit of zero weight and zero duration are not generated (ratio 0/0)"}, run});
