// P13 normalisation: defining equations on random graphs
#include "graph.h"
#include <models/Dataflow.h>
#include <algorithms/normalization.h>
#include <numeric>
using namespace vh;
static std::string untimed(const std::string &s) { std::istringstream is(s); std::string l, o; while (std::getline(is, l)) if (l.find("Time is") == std::string::npos) o += l + "\n"; return o; }
static void run(Case &c) {
  Tape &t = c.t;
  GenOpt o; o.wide = true; o.max_tasks = 7; o.max_phases = 4; o.max_q = 7; o.max_firings = 400; o.extra_edges = 5; o.make_live = false; o.disconnected = t.chance(1, 4); o.max_mult = 5;
  bool thr = t.chance(1, 4);
  if (thr) { o.max_firings = 40; o.max_tasks = 4; o.make_live = true; o.max_q = 4; }
  G g = gen_graph(t, o);
  if (g.E.empty()) c.discard("no channel");
  for (auto &e : g.E) if (t.chance(1, 6)) e.m = (long)t.draw(100);
  bool mut = !thr && t.chance(1, 4);
  if (mut) { auto &e = g.E[t.draw((uint32_t)g.E.size())]; auto &v = t.chance(1, 2) ? e.in : e.out; long &x = v[t.draw((uint32_t)v.size())]; if (t.chance(1, 2) || x == 0) x += 1 + (long)t.draw(3); else x--; }
  std::vector<bool> touched(g.T.size()); for (auto &e : g.E) touched[(size_t)e.s] = touched[(size_t)e.t] = true;
  for (bool b : touched) if (!b) c.discard("task without channel");
  std::vector<long> q; bool cons = rep_vector(g, q);
  c.describe(g.str()); c.label(cons ? "consistent" : "inconsistent"); c.label(connected(g) ? "connected" : "disconnected");
  long worst = 1; for (auto &e : g.E) { worst = std::max(worst, sum(e.in)); worst = std::max(worst, sum(e.out)); }
  Sub s = isolate([&]() -> std::string {
    auto *df = build(g); std::string before = canon(read_back(df));
    bool ok = algorithms::normalize(df);
    std::ostringstream r;
    r << (ok ? 1 : 0) << ' ' << (df->is_normalized() ? 1 : 0) << ' ' << (canon(read_back(df)) == before ? 1 : 0);
    if (ok) {
      for (auto &k : g.T) r << ' ' << df->getZi(df->getVertexByName(k.name));
      for (auto &e : g.E) {
        Edge x = df->getEdgeByName(e.name); TOKEN_FRACT a = df->getAlpha(x);
        r << ' ' << a.numerator() << ' ' << a.denominator() << ' ' << df->getNormMop(x);
        for (size_t k = 1; k <= e.in.size(); k++) r << ' ' << df->getNormIn(x, (PHASE_INDEX)k);
        for (size_t k = 1; k <= e.out.size(); k++) r << ' ' << df->getNormOut(x, (PHASE_INDEX)k);
        r << ' ' << df->unnormalizeValue(x, df->normalizeValue(x, df->getFineGCD(x) * 3)) - df->getFineGCD(x) * 3;
      }
      r << ' ' << (algorithms::normalize(df) ? 1 : 0);
    }
    return r.str();
  }, 10);
  if (s.kind == Sub::CPU || s.kind == Sub::MEM) c.inconclusive(s.how());
  if (!cons) {
    if (s.kind == Sub::SIGNAL) c.fail("crash", "normalisation of an inconsistent graph: " + s.how());
    if (s.ok() && s.ret[0] == '1') c.fail("verdict", "an inconsistent graph is normalised");
    c.nontrivial = g.T.size() >= 2; return;
  }
  c.nontrivial = g.T.size() >= 2 && g.E.size() >= 2 && worst > 1;
  if (!s.ok()) c.fail("abort", "normalisation aborted: " + s.how());
  std::istringstream is(s.ret); int ok, fl, same; is >> ok >> fl >> same;
  if (!ok || !fl) c.fail("refused", "a consistent graph is not normalised");
  if (!same) c.fail("changed", "normalisation changed the graph");
  std::vector<long> Z(g.T.size()); for (auto &z : Z) { is >> z; if (z <= 0) c.fail("weight", "weight " + str(z)); }
  for (auto &e : g.E) {
    long n, d, m; is >> n >> d >> m; Rat a(n, d);
    if (!(Rat(0) < a)) c.fail("factor", "factor " + a.str() + " of " + e.name);
    if (!(a * Rat(sum(e.in)) == Rat(Z[(size_t)e.s])) || !(a * Rat(sum(e.out)) == Rat(Z[(size_t)e.t]))) c.fail("balance", "factor " + a.str() + " of " + e.name + " does not match the weights " + str(Z[(size_t)e.s]) + " and " + str(Z[(size_t)e.t]));
    long gc = 0; for (long x : e.in) gc = std::gcd(gc, x); for (long x : e.out) gc = std::gcd(gc, x);
    if (!(a * Rat(e.m / gc * gc) == Rat(m))) c.fail("marking", "normalised marking of " + e.name + " is " + str(m));
    for (auto *v : {&e.in, &e.out}) for (long x : *v) { long y; is >> y; if (!(a * Rat(x) == Rat(y))) c.fail("rates", "normalised rate " + str(x) + " of " + e.name + " is " + str(y)); }
    long diff; is >> diff; if (diff) c.fail("inverse", "unnormalising a normalised value of " + e.name + " is off by " + str(diff));
  }
  int again; is >> again; if (!again) c.fail("again", "normalising twice fails");
  if (thr) {
    std::vector<std::string> algos = {"KPeriodicThroughput", "1PeriodicThroughput", "SymbExec", "SPeriodicThroughput"};
    bool conn = strongly_connected(g); std::string al = algos[t.draw(conn ? 4 : 2)];
    c.label("then " + al);
    Sub a = run_algo(g, al, {}, 10);
    Sub b = isolate([&]() -> std::string { auto *df = build(g); algorithms::normalize(df); call_algo(df, al); return ""; }, 10);
    if (a.kind == Sub::CPU || b.kind == Sub::CPU || a.kind == Sub::MEM || b.kind == Sub::MEM) c.inconclusive("throughput " + a.how());
    if (a.kind != b.kind || untimed(a.out) != untimed(b.out)) c.fail("throughput", al + " after normalisation says\n" + b.out + b.how() + "\nwithout it\n" + a.out + a.how());
  }
}
static Reg reg({"P13",
  "random consistent (C)SDF graphs (cycles, parallel channels, large coprime rates, several components) and graphs with one mutated rate; non-trivial = at least 2 tasks and 2 channels with some rate above 1, or inconsistent",
  80000, 2500000, 20, true, {"every task has a channel (the analysis states that it refuses lone tasks)", "weights stay far below 2^63"}, run});
