// P25 NoC communication model: every routed channel becomes its chain of links and routers, nothing else changes
#include "graph.h"
#include <models/Dataflow.h>
#include <models/NoC.h>
#include <algorithm>
using namespace vh;

struct Chain { int s, t; long in, out, m; std::vector<long> at; bool operator<(const Chain &o) const { return std::tie(s, t, in, out, m, at) < std::tie(o.s, o.t, o.in, o.out, o.m, o.at); } std::string str() const { return vh::str(s) + "->" + vh::str(t) + " rates " + vh::str(in) + "/" + vh::str(out) + " tokens " + vh::str(m) + " through " + vec(at); } };
static void run(Case &c) {
  Tape &t = c.t;
  GenOpt o; o.max_tasks = 6; o.max_phases = 1; o.zero_durations = t.chance(1, 8); o.max_firings = 12; o.make_live = t.chance(9, 10); o.extra_edges = 3; o.disconnected = t.chance(1, 6); o.strong = t.chance(1, 2);
  G g = gen_graph(t, o);
  int big = t.chance(1, 4) ? 6 : 3, X = (int)t.range(1, big), Y = (int)t.range(1, big); long n = (long)X * Y;
  std::vector<long> pin(g.T.size()); for (auto &p : pin) p = n + (long)t.draw((uint32_t)n);
  bool rnd = t.chance(1, 2); unsigned seed = t.draw(1000); bool routed = !t.chance(1, 8);
  std::string d = g.str() + "NoC " + str(X) + "x" + str(Y) + " mapping"; for (auto p : pin) d += " " + str(p);
  c.describe(d + (!routed ? ", not routed" : rnd ? ", randomRouting" : ", xyRouting") + "\n"); c.label(!routed ? "not routed" : rnd ? "randomRouting" : "xyRouting");
  for (auto &x : g.E) if (x.s != x.t && n > 1 && routed) c.nontrivial = true;
  bool lv; { std::vector<long> q; if (!rep_vector(g, q)) c.discard("inconsistent"); lv = live(g, q); }
  Sub s = isolate([&]() -> std::string {
    auto *df = build(g); NoC noc(X, Y); df->setNoC(noc); srand(seed);
    for (size_t i = 0; i < g.T.size(); i++) df->setMapping(df->getVertexByName(g.T[i].name), pin[i]);
    if (routed) call_algo(df, rnd ? "randomRouting" : "xyRouting");
    std::multiset<Chain> want; std::multiset<Chain> loops; long links = 0;
    G e = g; e.E.clear(); // the expected graph, with links as unit-time tasks
    for (auto &x : g.E) {
      if (x.s == x.t) { loops.insert({x.s, x.t, x.in[0], x.out[0], x.m, {}}); e.E.push_back(x); continue; }
      Chain k{x.s, x.t, x.in[0], x.out[0], x.m, {}}; route_t r = df->getRoute(df->getEdgeByName(x.name));
      for (size_t i = 0; i < r.size(); i++) { k.at.push_back(r[i]); links++; if (i + 1 < r.size()) k.at.push_back(df->getNoC().getEdge(r[i]).dst); }
      int prev = x.s; long in = x.in[0];
      for (size_t i = 0; i < r.size(); i++) { GTask T; T.name = "l" + str(e.T.size()); T.dur = {1}; T.reent = 1; e.T.push_back(T); GEdge q; q.s = prev; q.t = (int)e.T.size() - 1; q.in = {in}; q.out = {1}; q.name = "e" + str(e.E.size()); e.E.push_back(q); prev = q.t; in = 1; }
      GEdge q = x; q.s = prev; q.in = {in}; e.E.push_back(q);
      want.insert(k);
    }
    call_algo(df, "ModelNoCConflictFreeCommunication");
    // original tasks unchanged
    std::map<ARRAY_INDEX, int> orig;
    for (size_t i = 0; i < g.T.size(); i++) {
      auto v = df->getVertexByName(g.T[i].name); orig[df->getVertexId(v)] = (int)i;
      if (df->getMapping(v) != pin[i]) return "task " + g.T[i].name + " moved";
      if (df->getPhasesQuantity(v) != 1 || df->getVertexDuration(v, 1) != g.T[i].dur[0] || df->getReentrancyFactor(v) != g.T[i].reent) return "task " + g.T[i].name + " changed";
    }
    long routers = 0, ln = 0;
    for (auto v : df->vertices()) {
      if (orig.count(df->getVertexId(v))) continue;
      long m = df->getMapping(v); bool link = df->getNoC().hasEdge(m);
      if (!link && (!df->getNoC().hasNode(m) || df->getNoC().getNode(m).type != Router)) return "task " + df->getVertexName(v) + " is mapped to " + str(m) + ", neither a link nor a router";
      if (df->getPhasesQuantity(v) != 1 || df->getVertexDuration(v, 1) != (link ? 1 : 0) || df->getReentrancyFactor(v) != 1) return "task " + df->getVertexName(v) + " has duration " + str((long)df->getVertexDuration(v, 1)) + " and reentrancy " + str(df->getReentrancyFactor(v));
      if (df->getVertexInDegree(v) != 1 || df->getVertexOutDegree(v) != 1) return "task " + df->getVertexName(v) + " is not part of one chain";
      if (link) ln++; else routers++;
    }
    if (ln != links) return str(ln) + " link tasks for routes of " + str(links) + " links";
    std::multiset<Chain> got, gl; std::set<ARRAY_INDEX> vis;
    for (auto &po : orig) {
      auto v = df->getVertexById(po.first); auto oe = df->getOutputEdges(v);
      for (auto it = oe.first; it != oe.second; ++it) {
        Edge x = *it; Chain k; k.s = po.second; k.in = df->getEdgeIn(x); k.m = 0; route_t first = df->getRoute(x);
        while (true) {
          if (!vis.insert(df->getEdgeId(x)).second) return "a chain loops";
          if (df->getEdgeInPhasesCount(x) != 1 || df->getEdgeOutPhasesCount(x) != 1) return "channel " + df->getEdgeName(x) + " has several phases";
          auto w = df->getEdgeTarget(x);
          if (orig.count(df->getVertexId(w))) { k.t = orig[df->getVertexId(w)]; k.out = df->getEdgeOut(x); k.m = df->getPreload(x); break; }
          if (df->getPreload(x) != 0) return "tokens inside a chain";
          if (df->getEdgeOut(x) != 1) return "a link consumes " + str(df->getEdgeOut(x));
          k.at.push_back(df->getMapping(w)); x = *df->getOutputEdges(w).first;
          if (df->getEdgeIn(x) != 1) return "a link produces " + str(df->getEdgeIn(x));
        }
        if (k.s == k.t && k.at.empty()) gl.insert(k); else got.insert(k);
      }
    }
    if ((long)vis.size() != (long)df->getEdgesCount()) return "channels outside the chains";
    for (auto &k : want) if (got.count(k) != want.count(k)) return "the channel " + k.str() + " has no such chain" + (got.empty() ? std::string("") : ", there is " + got.begin()->str());
    if (got.size() != want.size()) return "extra chains";
    if (!std::equal(gl.begin(), gl.end(), loops.begin(), loops.end(), [](const Chain &a, const Chain &b) { return !(a < b) && !(b < a); })) return "self-loops changed";
    // counts and speed
    std::vector<long> q, q2; rep_vector(g, q);
    if (!df->is_consistent()) return "the model is inconsistent";
    bool conn = connected(g);
    if (conn) for (size_t i = 0; i < g.T.size(); i++) if (df->getNi(df->getVertexByName(g.T[i].name)) != q[i]) return "task " + g.T[i].name + " fires " + str(df->getNi(df->getVertexByName(g.T[i].name))) + " times per iteration instead of " + str(q[i]);
    if (!conn || !lv) return "";
    if (!rep_vector(e, q2)) return "the expected model is inconsistent";
    if (firings(e, q2) > 120) return "";
    call_algo(df, "KPeriodicThroughput");
    return "T" + ser(e);
  }, 10);
  if (s.kind == Sub::CPU || s.kind == Sub::MEM) c.inconclusive("model " + s.how());
  if (!s.ok()) c.fail("model-abort", s.how());
  if (s.ret.empty()) return;
  if (s.ret[0] != 'T') c.fail("model", s.ret);
  // speed: unit-time links, instantaneous routers, never faster than the original
  G e = deser(s.ret.substr(1));
  std::vector<long> q, q2; rep_vector(g, q); rep_vector(e, q2); Rat before, after; Mcr mb = exact_throughput(g, q, before), ma = exact_throughput(e, q2, after);
  c.label("throughput compared"); long double v = 0;
  if (!find_number(s.out, "KPeriodic Throughput is", v)) c.fail("noprint", "no throughput reported on the model");
  if (ma == Mcr::FINITE && !near(v, after.f())) c.fail("speed", "the model has throughput " + str(v) + " instead of " + str(after.f()));
  if (mb == Mcr::FINITE && v > before.f() * (1 + 1e-6L)) c.fail("faster", "the model runs at " + str(v) + ", the graph alone at " + str(before.f()));
}
static Reg reg({"P25",
  "random SDF graphs (parallel channels, self-loops, dead graphs, disconnected) mapped at random (also on the same core) on meshes up to 3x3, routed by either router or left unrouted, then ModelNoCConflictFreeCommunication; chains read back by following the graph; non-trivial = some routed channel between two tasks on a mesh of at least two cores",
  20000, 500000, 20, true, {"one phase per task (the algorithm reads only totals)", "every task is mapped"}, run});
