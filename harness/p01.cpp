// P01 consistency verdict and minimal repetition vector
#include "graph.h"
#include <numeric>
#include <models/Dataflow.h>
#include <models/repetition_vector.h>
using namespace vh;

static void run(Case &c) {
  Tape &t = c.t;
  GenOpt o;
  o.min_tasks = 1; o.max_tasks = t.chance(1, 4) ? 12 : 6;
  o.max_phases = t.chance(1, 4) ? 6 : 3;
  o.max_q = (long[]){3, 6, 30, 400}[t.pick({4, 4, 3, 1})];
  o.max_firings = 1000000;
  o.max_mult = (int[]){3, 1, 50}[t.pick({5, 2, 2})];
  o.extra_edges = 5; o.make_live = false; o.extra_tokens = t.chance(1, 2); o.reent0 = true;
  o.disconnected = t.chance(1, 5);
  o.strong = t.chance(1, 5);
  G g = gen_graph(t, o);
  if (g.E.empty() && g.T.size() > 1) c.discard("no edges");
  int mut = t.pick({5, 4, 1});
  if (mut == 1 && !g.E.empty()) {      // change one rate of one channel
    auto &e = g.E[t.draw((uint32_t)g.E.size())];
    auto &v = t.chance(1, 2) ? e.in : e.out;
    long &x = v[t.draw((uint32_t)v.size())];
    switch (t.pick({4, 2, 2, 1})) {
      case 0: x += 1 + (long)t.draw(3); break;
      case 1: if (x > 0) x -= 1; else x += 1; break;
      case 2: x = x * 2 + 1; break;
      default: x += sum(v); break;
    }
  } else if (mut == 2 && !g.E.empty()) {  // one silent side
    auto &e = g.E[t.draw((uint32_t)g.E.size())];
    auto &v = t.chance(1, 2) ? e.in : e.out;
    for (auto &x : v) x = 0;
    c.label("silent side");
  }
  std::vector<long> q;
  bool cons = rep_vector(g, q);
  bool conn = connected(g);
  // an isolated task in a multi-task graph is outside the statement's balance equations but
  // its vector must still be a whole number of phase cycles
  c.describe(g.str());
  c.label(cons ? "consistent" : "inconsistent");
  c.label(conn ? "connected" : "disconnected");
  bool cyc = g.E.size() >= g.T.size();
  bool mono = true; for (long x : q) mono &= x == 1;
  c.nontrivial = g.T.size() >= 2 && (cons ? !mono : true);
  if (cyc) c.label("undirected cycle");
  Sub s = isolate([&]() -> std::string {
    auto *df = build(g);
    bool b = computeRepetitionVector(df);
    std::ostringstream r;
    r << (b ? 1 : 0) << ' ' << (df->has_repetition_vector() ? 1 : 0) << ' ' << (df->is_consistent() ? 1 : 0);
    if (b) for (auto v : df->vertices()) r << ' ' << df->getNi(Vertex(v));
    return r.str();
  });
  if (!s.ok()) {
    if (s.kind == Sub::CPU || s.kind == Sub::MEM) c.inconclusive(s.how());
    c.fail("abort", "consistency analysis aborted: " + s.how());
  }
  std::istringstream is(s.ret); int b, h, ic; is >> b >> h >> ic;
  if (!!b != cons) c.fail("verdict", std::string("tool says ") + (b ? "consistent" : "inconsistent") + ", balance equations " + (cons ? "have" : "have no") + " positive solution");
  if (!!h != cons || !!ic != cons) c.fail("verdict-state", "has_repetition_vector/is_consistent disagree with the verdict: " + s.ret);
  if (!cons) {
    // the analysis must be refused: no throughput on stdout
    if (t.chance(1, 4)) {
      Sub a = run_algo(g, "KPeriodicThroughput");
      if (a.out.find("Throughput is") != std::string::npos) c.fail("not-refused", "throughput reported for an inconsistent graph: " + a.out);
    }
    return;
  }
  std::vector<long> N(g.T.size()), r(g.T.size());
  for (auto &x : N) is >> x;
  for (size_t i = 0; i < N.size(); i++) {
    long ph = (long)g.T[i].dur.size();
    if (N[i] <= 0 || N[i] % ph) c.fail("phases", "N(" + g.T[i].name + ")=" + str(N[i]) + " is not a positive multiple of its " + str(ph) + " phases");
    r[i] = N[i] / ph;
  }
  for (auto &e : g.E) if (r[(size_t)e.s] * sum(e.in) != r[(size_t)e.t] * sum(e.out)) c.fail("balance", "balance equation of " + e.name + " not satisfied by N=[" + vec(N) + "]");
  if (conn) { for (size_t i = 0; i < N.size(); i++) if (r[i] != q[i]) c.fail("minimal", "vector [" + vec(r) + "] is not the minimal [" + vec(q) + "]"); }
  else {
    long gg = 0; for (long x : r) gg = std::gcd(gg, x);
    if (gg != 1) c.fail("minimal", "vector [" + vec(r) + "] has common factor " + str(gg));
  }
}
static void isolated(Case &c) {
  G g; g.T.push_back({"t0", {3, 4}, {}, 1});
  c.describe(g.str());
  auto *df = build(g);
  computeRepetitionVector(df);
  long n = df->getNi(df->getFirstVertex());
  if (n != 2) c.fail("phases", "N(t0)=" + str(n) + " is not a positive multiple of its 2 phases");
}
static Reg reg({"P01",
  "random SDF/CSDF graphs from a hidden repetition vector (trees, cycles, parallel channels, self-loops, several components, zero-rate phases, large coprime rates), half of them with one rate mutated or silenced; non-trivial = at least 2 tasks and (inconsistent or vector not all ones)",
  80000, 2000000, 20, true, {"repetition values stay far below 2^63", "tasks without any channel have one phase (pinned case isolated-multiphase is a known finding)"}, run, {{"isolated-multiphase", isolated}}});
