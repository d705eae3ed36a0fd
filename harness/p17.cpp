// P17 components and circuits: reachability closure and brute-force enumeration
#include "graph.h"
#include <models/Dataflow.h>
#include <models/EventGraph.h>
#include <algorithms/scc.h>
#include <algorithm>
using namespace vh;
namespace models { std::map<unsigned int, models::EventGraph *> *StrongConnection(models::EventGraph *g); }
static void run(Case &c) {
  Tape &t = c.t;
  int n = (int)t.range(1, 9); G g; for (int i = 0; i < n; i++) { GTask k; k.name = "t" + str(i); k.dur = {1}; k.reent = t.chance(1, 4) ? 0 : 1; g.T.push_back(k); }
  int shape = t.pick({4, 2, 2, 1}); int ne = n / 2 + (int)t.draw((uint32_t)(shape == 3 ? 3 * n + 3 : 2 * n + 4));
  for (int i = 0; i < ne; i++) {
    GEdge e; e.s = (int)t.draw((uint32_t)n); e.t = (int)t.draw((uint32_t)n);
    if (shape == 1 && e.s > e.t && !t.chance(1, 5)) std::swap(e.s, e.t);       // almost acyclic
    if (shape == 2 && t.chance(3, 4)) e.t = std::min(n - 1, (e.s / 3) * 3 + (int)t.draw(3)); // clusters of three
    if (e.s == e.t && !t.chance(1, 4)) e.t = (e.t + 1) % n;
    e.in = {1}; e.out = {1}; e.m = (long)t.draw(2); e.name = "e" + str(i); g.E.push_back(e);
  }
  // tasks removed before the analysis: ids with gaps
  std::vector<int> gone; if (n > 1 && t.chance(1, 3)) { int k = (int)t.range(1, std::max(1, n / 2)); for (int i = 0; i < k; i++) { int x = (int)t.draw((uint32_t)n); if (std::find(gone.begin(), gone.end(), x) == gone.end()) gone.push_back(x); } if ((int)gone.size() == n) gone.clear(); }
  bool twice = t.chance(1, 4);
  std::vector<bool> dead((size_t)n); for (int x : gone) dead[(size_t)x] = true;
  c.describe(g.str() + (gone.empty() ? "" : "removed " + vec(gone) + "\n") + (twice ? "analysed twice\n" : ""));
  // reference
  std::vector<std::vector<char>> R((size_t)n, std::vector<char>((size_t)n, 0));
  std::vector<GEdge> E; for (auto &e : g.E) if (!dead[(size_t)e.s] && !dead[(size_t)e.t]) E.push_back(e);
  for (int i = 0; i < n; i++) R[(size_t)i][(size_t)i] = 1; for (auto &e : E) R[(size_t)e.s][(size_t)e.t] = 1;
  for (size_t k = 0; k < (size_t)n; k++) for (size_t i = 0; i < (size_t)n; i++) for (size_t j = 0; j < (size_t)n; j++) if (R[i][k] && R[k][j]) R[i][j] = 1;
  std::set<std::set<int>> comps; bool cyc = false;
  for (int i = 0; i < n; i++) if (!dead[(size_t)i]) { std::set<int> s; for (int j = 0; j < n; j++) if (!dead[(size_t)j] && R[(size_t)i][(size_t)j] && R[(size_t)j][(size_t)i]) s.insert(j); if (s.size() > 1) cyc = true; comps.insert(s); }
  std::multiset<std::vector<int>> circ; std::vector<int> path; std::vector<bool> on((size_t)n); bool big = false;
  std::function<void(int, int)> dfs = [&](int s, int u) {
    if (circ.size() > 2000) { big = true; return; }
    path.push_back(u); on[(size_t)u] = true;
    for (auto &e : E) if (e.s == u && e.t != u) { if (e.t == s) circ.insert(path); else if (e.t > s && !on[(size_t)e.t]) dfs(s, e.t); }
    on[(size_t)u] = false; path.pop_back(); };
  for (int s = 0; s < n && !big; s++) dfs(s, s);
  if (big) c.discard("too many circuits");
  c.label(cyc ? "cyclic" : "acyclic"); c.label("circuits " + str(circ.size() > 20 ? ">20" : circ.size() > 5 ? "6-20" : str(circ.size()))); c.nontrivial = n - (int)gone.size() >= 3 && !E.empty();
  if (!gone.empty()) c.label("gaps");
  Sub s = isolate([&]() -> std::string {
    auto *df = build(g); for (int x : gone) df->removeVertex(df->getVertexByName("t" + str(x)));
    std::ostringstream r; std::map<long, int> id; for (int i = 0; i < n; i++) if (!dead[(size_t)i]) id[(long)df->getVertexId(df->getVertexByName("t" + str(i)))] = i;
    std::string before = canon(read_back(df));
    auto m = algorithms::computeSCCKosaraju(df);
    r << m.size(); for (auto &kv : m) { r << ' ' << kv.second.size(); for (auto v : kv.second) r << ' ' << (id.count((long)v) ? id[(long)v] : -1); }
    std::cout << "MAP"; for (auto &kv : id) std::cout << ' ' << kv.first << ' ' << kv.second; std::cout << "\n";
    call_algo(df, "CycleDetection"); call_algo(df, "CycleCount");
    if (twice) { std::cout << "AGAIN\n"; call_algo(df, "CycleDetection"); call_algo(df, "CycleCount"); }
    r << ' ' << (canon(read_back(df)) == before);
    // the same graph as an event graph
    models::EventGraph eg; for (int i = 0; i < n; i++) eg.addEvent(models::SchedulingEvent(i + 1));
    for (auto &e : E) eg.addEventConstraint(models::SchedulingEventConstraint(models::SchedulingEvent(e.s + 1), models::SchedulingEvent(e.t + 1), 1, 1, e.s + 1));
    auto *sc = models::StrongConnection(&eg); r << ' ' << sc->size();
    for (auto &kv : *sc) { r << ' ' << kv.second->getEventCount() << ' ' << kv.second->getConstraintsCount(); { ForEachEvent(kv.second, v) { r << ' ' << (long)kv.second->getEvent(v).getTaskId() - 1; } } }
    return r.str();
  }, 20);
  if (!s.ok()) c.fail("abort", s.how());
  std::istringstream is(s.ret); size_t k; is >> k; std::set<std::set<int>> got; size_t members = 0;
  for (size_t i = 0; i < k; i++) { size_t m; is >> m; std::set<int> x; for (size_t j = 0; j < m; j++) { int v; is >> v; x.insert(v); members++; } got.insert(x); }
  if (got != comps || members != (size_t)n - gone.size()) c.fail("scc", "components are " + s.ret);
  int same; is >> same; if (!same) c.fail("changed", "the analysis changed the graph");
  { size_t m; is >> m; std::set<std::set<int>> eg, want = comps; for (int x : gone) want.insert({x}); for (size_t i = 0; i < m; i++) { long ev, cs; is >> ev >> cs; std::set<int> x; for (long j = 0; j < ev; j++) { int v; is >> v; x.insert(v); } eg.insert(x); long in = 0; for (auto &e : E) if (x.count(e.s) && x.count(e.t)) in++; if (in != cs) c.fail("event-scc", "a component of the event graph has " + str(cs) + " constraints instead of " + str(in)); }
    if (eg != want) c.fail("event-scc", "components of the event graph: " + s.ret); }
  std::map<long, int> id; std::istringstream o(s.out); std::string l; long total = -1; std::multiset<std::vector<int>> seen; bool det = false; int verdict = -1;
  auto finish = [&](const char *when) {
    if (verdict != (cyc ? 1 : 0)) c.fail("detection", std::string("cycle detection says ") + str(verdict) + when);
    if (seen != circ) { std::string d; for (auto &v : circ) if (!seen.count(v)) { d = " (missing " + vec(v) + ")"; break; } for (auto &v : seen) if (seen.count(v) > circ.count(v)) { d += " (extra " + vec(v) + ")"; break; } c.fail("circuits", "lists " + str(seen.size()) + " circuits instead of " + str(circ.size()) + d + when); }
    if (total != (long)circ.size()) c.fail("count", "announces " + str(total) + " circuits, there are " + str(circ.size()) + when);
  };
  while (std::getline(o, l)) {
    if (l.rfind("MAP", 0) == 0) { std::istringstream m(l.substr(3)); long a; int b; while (m >> a >> b) id[a] = b; }
    else if (l == "AGAIN") { finish(""); seen.clear(); total = -1; verdict = -1; }
    else if (l.rfind("has_cycles result: ", 0) == 0) verdict = atoi(l.c_str() + 19);
    else if (l.rfind("Total number of cycles: ", 0) == 0) total = atol(l.c_str() + 24);
    else if (l.rfind("Cycles detected", 0) == 0) det = true;
    else if (det && l.find("->") != std::string::npos) {
      std::vector<int> p; std::istringstream m(l); std::string w; while (m >> w) if (w != "->") p.push_back(id.count(atol(w.c_str())) ? id[atol(w.c_str())] : -1);
      if (p.size() < 2 || p.front() != p.back()) c.fail("format", "not a circuit: " + l); p.pop_back();
      std::rotate(p.begin(), std::min_element(p.begin(), p.end()), p.end()); seen.insert(p);
    }
  }
  finish(twice ? " (second run)" : "");
}
static Reg reg({"P17",
  "random directed graphs of 1..9 tasks (sparse, dense, nearly acyclic, clustered; parallel channels, self-loops, ids with gaps after removals), analysed once or twice; non-trivial = at least 3 tasks and one channel",
  80000, 2500000, 20, true, {"at most 2000 elementary circuits; circuits are counted per channel (parallel channels give distinct circuits); a self-loop is not a circuit between tasks"}, run});
