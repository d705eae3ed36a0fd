// P18 NoC model, mapping and routing: mesh definition, path validity, BFS / enumeration oracles
#include "graph.h"
#include <models/Dataflow.h>
#include <models/NoC.h>
#include <models/NoCGraph.h>
#include <algorithm>
#include <queue>
using namespace vh;

static std::set<std::pair<long, long>> mesh_links(int X, int Y) {
  std::set<std::pair<long, long>> s; long n = (long)X * Y;
  for (int x = 0; x < X; x++) for (int y = 0; y < Y; y++) {
    long r = x + (long)y * X; s.insert({r, r + n}); s.insert({r + n, r});
    if (x + 1 < X) { s.insert({r, r + 1}); s.insert({r + 1, r}); }
    if (y + 1 < Y) { s.insert({r, r + X}); s.insert({r + X, r}); }
  }
  return s;
}
// text of a NoC checked against the mesh definition (in the child: throws on any difference)
static std::string check_noc(const NoC &noc, int X, int Y) {
  long n = (long)X * Y; auto want = mesh_links(X, Y);
  if (noc.size() != n || noc.getXSize() != X || noc.getYSize() != Y) return "size " + str(noc.size());
  std::set<long> nodes; long routers = 0;
  for (auto &k : noc.getNodes()) {
    if (!nodes.insert(k.id).second) return "node id " + str(k.id) + " twice";
    bool router = k.id < n; long p = router ? k.id : k.id - n; double x = (double)(p % X), y = (double)(p / X);
    if (k.id < 0 || k.id >= 2 * n) return "node id " + str(k.id);
    if (k.type != (router ? Router : Core)) return "type of node " + str(k.id);
    if (router) routers++, x += 0.5, y += 0.5;
    if (k.x != x || k.y != y) return "position of node " + str(k.id);
    if (!noc.hasNode(k.id) || noc.getNode(k.id).id != k.id || noc.getNode(k.id).x != k.x || noc.getNode(k.id).y != k.y || noc.getNode(k.id).type != k.type) return "lookup of node " + str(k.id);
  }
  if ((long)nodes.size() != 2 * n || routers != n) return str(nodes.size()) + " nodes";
  std::set<std::pair<long, long>> got; std::set<long> ids = nodes;
  for (auto &e : noc.getEdges()) {
    if (!got.insert({e.src, e.dst}).second) return "link " + str(e.src) + "-" + str(e.dst) + " twice";
    if (!ids.insert(e.id).second) return "id " + str(e.id) + " is shared";
    if (!noc.hasEdge(e.id)) return "link " + str(e.id) + " not found";
    auto &a = noc.getEdge(e.id); auto &b = noc.getEdge(e.src, e.dst);
    if (a.id != e.id || a.src != e.src || a.dst != e.dst || b.id != e.id || b.src != e.src || b.dst != e.dst) return "lookup of link " + str(e.id);
  }
  if (got != want) { for (auto &p : want) if (!got.count(p)) return "link " + str(p.first) + "->" + str(p.second) + " missing"; for (auto &p : got) if (!want.count(p)) return "link " + str(p.first) + "->" + str(p.second) + " between nodes that are not neighbours"; }
  for (long i = 0; i < n; i++) {
    long x = i % X, y = i / X;
    if (x > 0 && noc.getLeftNeighbour(i).dst != i - 1) return "left of " + str(i);
    if (x < X - 1 && noc.getRightNeighbour(i).dst != i + 1) return "right of " + str(i);
    if (y > 0 && noc.getBottomNeighbour(i).dst != i - X) return "bottom of " + str(i);
    if (y < Y - 1 && noc.getTopNeighbour(i).dst != i + X) return "top of " + str(i);
    if (noc.getSrcNeighbour(i + n).dst != i || noc.getDstNeighbour(i + n).src != i) return "router of core " + str(i + n);
  }
  if (noc.hasNode(2 * n) || noc.hasNode(-1) || noc.hasEdge(-1) || noc.hasEdge(0)) return "unknown ids are accepted";
  return "";
}
// route as link ids -> empty when it is a path from core a to core b
static std::string check_route(const NoC &noc, const route_t &r, long a, long b, bool xy, bool shortest) {
  if (r.empty()) return "is empty";
  long u = a; int X = noc.getXSize(); long n = noc.size(); std::vector<int> dirs; std::set<long> seen = {a};
  for (auto id : r) {
    if (!noc.hasEdge(id)) return "uses the unknown link " + str(id);
    auto &e = noc.getEdge(id); if (e.src != u) return "is broken at link " + str(id) + " (" + str(e.src) + "->" + str(e.dst) + " after node " + str(u) + ")";
    if (e.src < n && e.dst < n) dirs.push_back(std::labs(e.src - e.dst) == 1 && X > 1 ? 0 : 1);
    u = e.dst;
    if (u != b && !seen.insert(u).second) return "visits node " + str(u) + " twice";
  }
  if (u != b) return "ends in node " + str(u) + " instead of " + str(b);
  long ax = (a - n) % X, ay = (a - n) / X, bx = (b - n) % X, by = (b - n) / X;
  if (shortest && (long)r.size() != 2 + std::labs(ax - bx) + std::labs(ay - by)) return "has " + str(r.size()) + " links";
  if (xy) for (size_t i = 1; i < dirs.size(); i++) if (dirs[i] < dirs[i - 1]) return "moves along x after y";
  return "";
}
static void mesh(Case &c) {
  Tape &t = c.t; int X = (int)t.range(1, 9), Y = (int)t.range(1, 9); c.describe("mesh " + str(X) + "x" + str(Y) + "\n"); c.label("mesh"); c.nontrivial = X > 1 && Y > 1;
  Sub s = isolate([&]() -> std::string { NoC noc(X, Y); return check_noc(noc, X, Y); }, 10);
  if (!s.ok()) c.fail("mesh-abort", s.how());
  if (!s.ret.empty()) c.fail("mesh", s.ret);
}
static void route(Case &c) {
  Tape &t = c.t;
  GenOpt o; o.max_tasks = 8; o.max_phases = 2; o.make_live = false; o.disconnected = true; o.max_firings = 200;
  G g = gen_graph(t, o);
  int X = (int)t.range(1, 5), Y = (int)t.range(1, 5); bool create = t.chance(1, 3);
  int m = (int)t.draw(3); bool rnd = t.chance(1, 2); // mapping: 0 random, 1 modulo, 2 random with every task pinned
  std::vector<long> pin(g.T.size(), -1);
  if (create) { X = 2; while (X * X < (int)g.T.size()) X++; Y = X; }
  long n = (long)X * Y; for (auto &p : pin) if (m == 2 || t.chance(1, 4)) p = n + (long)t.draw((uint32_t)n);
  unsigned seed = t.draw(1000);
  std::string d = g.str() + (create ? "createNoC" : "NoC " + str(X) + "x" + str(Y)) + (m == 1 ? ", moduloMapping" : ", randomMapping"); for (size_t i = 0; i < pin.size(); i++) if (pin[i] >= 0) d += " " + g.T[i].name + "=" + str(pin[i]);
  c.describe(d + (rnd ? ", randomRouting" : ", xyRouting") + "\n"); c.label(m == 1 ? "modulo" : "random mapping"); c.label(rnd ? "randomRouting" : "xyRouting"); c.nontrivial = g.E.size() > 0 && n > 1;
  Sub s = isolate([&]() -> std::string {
    auto *df = build(g); std::string before = canon(read_back(df)); srand(seed);
    if (create) call_algo(df, "createNoC"); else { NoC noc(X, Y); df->setNoC(noc); }
    std::string e = check_noc(df->getNoC(), X, Y); if (!e.empty()) return "noc " + e;
    Params p; for (size_t i = 0; i < pin.size(); i++) if (pin[i] >= 0) p[g.T[i].name] = str(pin[i]);
    call_algo(df, m == 1 ? "moduloMapping" : "randomMapping", p);
    std::vector<long> at;
    for (size_t i = 0; i < g.T.size(); i++) {
      auto v = df->getVertexByName(g.T[i].name); long k = df->getMapping(v); at.push_back(k);
      if (!df->getNoC().hasNode(k) || df->getNoC().getNode(k).type != Core) return "task " + g.T[i].name + " is mapped on " + str(k) + ", not a core";
      if (pin[i] >= 0 && k != pin[i]) return "task " + g.T[i].name + " is mapped on " + str(k) + " against the request";
    }
    if (m == 1) for (size_t i = 0; i < at.size(); i++) for (size_t j = 0; j < i; j++) if (pin[i] < 0 && pin[j] < 0 && (long)at.size() <= n && at[i] == at[j]) return "tasks share core " + str(at[i]) + " although there are enough";
    call_algo(df, rnd ? "randomRouting" : "xyRouting");
    for (auto &x : g.E) { e = check_route(df->getNoC(), df->getRoute(df->getEdgeByName(x.name)), at[(size_t)x.s], at[(size_t)x.t], !rnd, true); if (!e.empty()) return "the route of " + x.name + " from " + str(at[(size_t)x.s]) + " to " + str(at[(size_t)x.t]) + " " + e; }
    for (size_t i = 0; i < at.size(); i++) if (df->getMapping(df->getVertexByName(g.T[i].name)) != at[i]) return "routing moved task " + g.T[i].name;
    if (canon(read_back(df)) != before) return "the graph changed";
    return "";
  }, 10);
  if (!s.ok()) c.fail("route-abort", s.how());
  if (!s.ret.empty()) c.fail("route", s.ret);
}
static void nocgraph(Case &c) {
  Tape &t = c.t; int X = (int)t.range(1, 4); int n = X * X, V = 2 * n; auto links = mesh_links(X, X); int top = (int)t.range(0, 7);
  std::vector<int> util((size_t)(V + V * V), 0); std::string d = "mesh " + str(X) + "x" + str(X) + " utilisation";
  for (auto &l : links) { int u = (int)t.draw((uint32_t)top + 1); util[(size_t)(V + l.first * V + l.second)] = u; if (u) d += " " + str(l.first) + ">" + str(l.second) + "=" + str(u); }
  int a = (int)t.draw((uint32_t)n), b = (int)t.draw((uint32_t)n);
  c.describe(d + "\npaths from core " + str(a) + " to " + str(b) + "\n"); c.label("nocgraph"); c.nontrivial = a != b && X > 1;
  // reference: BFS distances, all shortest paths
  auto dist = [&](bool lim) { std::vector<int> D((size_t)V, -1); std::queue<int> q; q.push(a + n); D[(size_t)(a + n)] = 0; while (!q.empty()) { int u = q.front(); q.pop(); for (auto &l : links) if (l.first == u && D[(size_t)l.second] < 0 && !(lim && util[(size_t)(V + l.first * V + l.second)] > 4)) { D[(size_t)l.second] = D[(size_t)u] + 1; q.push((int)l.second); } } return D[(size_t)(b + n)]; };
  int L = dist(false), LL = dist(true);
  std::set<std::vector<int>> all; std::vector<int> p;
  std::function<void(int)> dfs = [&](int u) { p.push_back(u); if (u == b + n) { if ((int)p.size() == L + 1) all.insert(p); } else if ((int)p.size() <= L) for (auto &l : links) if (l.first == u && std::find(p.begin(), p.end(), (int)l.second) == p.end()) dfs((int)l.second); p.pop_back(); };
  if (a != b) dfs(a + n);
  auto cost = [&](const std::vector<int> &q) { int m = 0; for (size_t i = 0; i + 1 < q.size(); i++) m = std::max(m, util[(size_t)(V + q[i] * V + q[i + 1])]); return m; };
  int best = 1 << 30; for (auto &q : all) best = std::min(best, cost(q));
  Sub s = isolate([&]() -> std::string {
    NoC noc(X, X); NoCGraph g(V); for (auto &e : noc.getEdges()) g.addEdge((int)e.src, (int)e.dst);
    g.clear(); { auto z = g.getLinkUtil(); if (z.size() < util.size()) return "clear leaves room for " + str(z.size()) + " links, ids go up to " + str(util.size() - 1); for (int x : z) if (x) return "clear leaves a used link"; }
    g.setLinkUtil(util);
    for (auto &l : links) { int k = g.getMapIndex((int)l.first, (int)l.second); if (g.getMapIndexPair(k) != std::make_pair((int)l.first, (int)l.second) || noc.getEdge(l.first, l.second).id != k) return "link id " + str(k); }
    if (g.size() != n || g.getMeshSize() != n) return "size";
    if (g.getPathLength(a, b) != (a == b ? 0 : L)) return "length " + str(g.getPathLength(a, b)) + " instead of " + str(L);
    g.generateAllShortestPaths(); auto sp = g.getShortestPaths(a, b); std::set<std::vector<int>> got(sp.begin(), sp.end());
    if (got != all || sp.size() != all.size()) return str(sp.size()) + " shortest paths instead of " + str(all.size());
    auto ok = [&](const std::vector<int> &q, int len, bool lim) { if ((int)q.size() != len + 1 || q.front() != a + n || q.back() != b + n) return false; for (size_t i = 0; i + 1 < q.size(); i++) if (!links.count({q[i], q[i + 1]}) || (lim && util[(size_t)(V + q[i] * V + q[i + 1])] > 4)) return false; return true; };
    auto least = g.getPath(a, b), dj = g.findPathDijkstra(a, b), low = g.findLowContentionPath(a, b);
    if (a == b) return least.empty() && dj.empty() && low.empty() ? "" : "a path from a core to itself";
    if (!ok(least, L, false)) return "getPath gives " + vec(least);
    if (g.findPathCost(least) != cost(least)) return "cost of " + vec(least);
    if (cost(least) != best) return "getPath gives " + vec(least) + " of cost " + str(cost(least)) + ", the best has " + str(best);
    if (!ok(dj, L, false)) return "findPathDijkstra gives " + vec(dj);
    if (LL < 0 ? !low.empty() : !ok(low, LL, true)) return "findLowContentionPath gives " + vec(low) + (LL < 0 ? ", no path below the limit" : ", length should be " + str(LL));
    return "";
  }, 20);
  if (!s.ok()) c.fail("paths-abort", s.how());
  if (!s.ret.empty()) c.fail("paths", s.ret);
}
static void mapper(Case &c) {
  Tape &t = c.t; GenOpt o; o.min_tasks = 2; o.max_tasks = 8; o.max_phases = 1; o.self_loops = false; o.parallel = false; o.max_firings = 30; o.back_edges = t.chance(1, 2); o.all_reent1 = true;
  G g = gen_graph(t, o); int ms = 0; if (t.chance(1, 3)) { ms = 2; while (ms * ms < (int)g.T.size()) ms++; ms += (int)t.draw(2); }
  c.describe(g.str() + "BufferlessNoCMapAndRoute" + (ms ? " MESHSIZE=" + str(ms) : "") + "\n"); c.label("BufferlessNoCMapAndRoute"); c.nontrivial = g.E.size() >= 2;
  int X = ms; if (!X) { X = 2; while (X * X < (int)g.T.size()) X++; }
  Sub s = isolate([&]() -> std::string {
    auto *df = build(g); std::string before = canon(read_back(df)); Params p; if (ms) p["MESHSIZE"] = str(ms);
    call_algo(df, "BufferlessNoCMapAndRoute", p);
    std::string e = check_noc(df->getNoC(), X, X); if (!e.empty()) return "noc " + e;
    std::set<long> used; std::map<int, long> at; for (size_t i = 0; i < g.T.size(); i++) { long k = df->getMapping(df->getVertexByName(g.T[i].name)); if (!df->getNoC().hasNode(k) || df->getNoC().getNode(k).type != Core) return "task " + g.T[i].name + " is mapped on " + str(k); if (!used.insert(k).second) return "two tasks on core " + str(k); at[(int)i] = k; }
    for (auto &x : g.E) { e = check_route(df->getNoC(), df->getRoute(df->getEdgeByName(x.name)), at[x.s], at[x.t], false, true); if (!e.empty()) return "the route of " + x.name + " " + e; }
    if (canon(read_back(df)) != before) return "the graph changed";
    return "";
  }, 10);
  if (s.kind == Sub::CPU || s.kind == Sub::MEM) c.inconclusive("mapper " + s.how());
  if (!s.ok()) c.fail("mapper-abort", s.how());
  if (!s.ret.empty()) c.fail("mapper", s.ret);
}
static void run(Case &c) {
  switch (c.t.pick({1, 5, 3, 3})) { case 0: mesh(c); break; case 1: route(c); break; case 2: nocgraph(c); break; default: mapper(c); }
}
static Reg reg({"P18",
  "meshes up to 9x9; random graphs placed randomly, by modulo or by request on meshes up to 5x5 (or created) and routed; path searches on meshes up to 4x4 with random link loads; map-and-route of random live SDF graphs; non-trivial = at least two nodes/routers in both axes (mesh), a channel and two cores (routes), two distinct cores (paths), two channels (map-and-route)",
  80000, 2000000, 20, true, {"requested cores exist in the mesh", "path searches on square meshes (documented)", "map-and-route: weakly connected SDF graphs without self-loops or parallel channels, positive durations"}, run});
