// P30 printed constraint graphs (K-periodic event graph, partial expansion) decide the throughput of their schedule class
#include "graph.h"
#include <models/Dataflow.h>
#include <algorithm>
using namespace vh;
typedef long double LD;

struct A { int u, v; LD w, d; };
// is there a circuit whose weights sum to less than x times its durations ?
static bool beats(int n, const std::vector<A> &arcs, LD x) {
  std::vector<LD> p((size_t)n, 0);
  for (int i = 0; i <= n; i++) { bool ch = false; for (auto &a : arcs) { LD y = p[(size_t)a.u] + a.w - x * a.d; if (y < p[(size_t)a.v] - 1e-9L) { p[(size_t)a.v] = y; ch = true; } } if (!ch) return false; }
  return true;
}
static std::string part(const std::string &l, const std::string &a, const std::string &b) {
  size_t i = l.find(a); if (i == std::string::npos) return "?"; i += a.size(); size_t j = l.find(b, i); return j == std::string::npos ? "?" : l.substr(i, j - i);
}
static LD num(const std::string &s) { return strtold(s.c_str(), nullptr); }
static std::string show(const std::vector<A> &v) { std::string o; for (auto &a : v) o += str(a.u) + "->" + str(a.v) + " w=" + str(a.w) + " d=" + str(a.d) + "\n"; return o; }
static void optimum(Case &c, int n, const std::vector<A> &arcs, Mcr m, const Rat &want, LD scale, const std::string &what) {
  LD x = m == Mcr::FINITE ? want.f() * scale : 0;
  if (m == Mcr::NONE) { if (beats(n, arcs, 1e6)) c.fail("optimum", what + " bounds a throughput that is not bounded\n" + show(arcs)); return; }
  if (m == Mcr::DEADLOCK) { if (!beats(n, arcs, 1e-6L)) c.fail("optimum", what + " admits a throughput but its class has none\n" + show(arcs)); return; }
  if (beats(n, arcs, x * (1 - 1e-3L))) c.fail("optimum", what + " only admits less than " + str(x) + ", the best of the class (" + want.str() + " iterations)\n" + show(arcs));
  if (!beats(n, arcs, x * (1 + 1e-3L))) c.fail("optimum", what + " admits more than " + str(x) + ", the best of the class (" + want.str() + " iterations)\n" + show(arcs));
}
static void kperiodic(Case &c, const G &g, const std::vector<long> &q, const std::vector<long> &K, Params p, const std::string &d) {
  bool xml = c.t.chance(2, 3), dep = !xml || c.t.chance(1, 2); if (xml) p["XML"] = "1"; if (dep) p["DEP"] = "1"; c.describe("PrintKPeriodicScheduling" + d + (xml ? " XML" : "") + (dep ? " DEP" : "") + "\n" + g.str()); c.label("K-periodic constraints");
  Rat want; Mcr m = kperiodic_throughput(g, q, K, want); if (m == Mcr::NONE) c.discard("unbounded throughput"); bool zero = false; for (auto &x : g.T) for (long y : x.dur) zero |= y == 0; if (m == Mcr::DEADLOCK && zero) c.discard("undecided");
  Sub s = run_algo(g, "PrintKPeriodicScheduling", p, 15);
  if (s.kind == Sub::CPU) c.fail("hang", "the command does not end"); if (s.kind == Sub::MEM) c.inconclusive(s.how()); if (!s.ok()) { if (m == Mcr::DEADLOCK) return; c.fail("abort", s.how()); }
  std::vector<A> X, T; std::map<int, std::vector<long>> ev; std::istringstream is(s.out); std::string l; int nodes = 0; bool xe = false, te = false;
  while (std::getline(is, l)) {
    if (l.find("<Arc ") != std::string::npos) {
      A a{std::atoi(part(l, "node1='", "'").c_str()), std::atoi(part(l, "node2='", "'").c_str()), num(part(l, "weight='", "'")), num(part(l, "time='", "'"))};
      if (std::atoi(part(l, "name='", "'").c_str()) != (int)X.size()) c.fail("format", l); X.push_back(a);
      long b[6]; std::string cm = part(l, "] ", " -->"); if (sscanf(cm.c_str(), "%ld,%ld,%ld to %ld,%ld,%ld", b, b + 1, b + 2, b + 3, b + 4, b + 5) != 6) c.fail("format", l);
      for (int k = 0; k < 2; k++) { std::vector<long> e(b + 3 * k, b + 3 * k + 3); auto it = ev.emplace(k ? a.v : a.u, e); if (it.first->second != e) c.fail("event", "event " + str(k ? a.v : a.u) + " stands for two executions\n" + s.out); }
    }
    if (l.find("</Graphe>") != std::string::npos) xe = true; if (l.find("\\end{tikzpicture}") != std::string::npos) te = true;
    if (l.rfind("\\node[", 0) == 0) nodes++;
    int u, v; if (l.find(") edge node") != std::string::npos) { size_t z = l.rfind(") edge"); std::string h = part(l, "{$(", ")$}"); size_t k = h.find(','); if (sscanf(l.c_str(), "(%d)", &u) != 1 || sscanf(l.c_str() + l.find(")$} (", z) + 5, "%d", &v) != 1 || k == std::string::npos) c.fail("format", l); T.push_back({u, v, num(h), num(h.substr(k + 1))}); }
  }
  if (xe != xml || te != dep) c.fail("format", "output asked for is missing\n" + s.out);
  long total = 0; for (size_t i = 0; i < g.T.size(); i++) total += K[i] * (long)g.T[i].dur.size();
  if (dep && nodes != total) c.fail("event", str(nodes) + " events instead of " + str(total));
  for (auto *v : {&X, &T}) for (auto &a : *v) if (a.u < 0 || a.v < 0 || a.u >= total || a.v >= total) c.fail("event", "an arc from " + str(a.u) + " to " + str(a.v));
  for (auto &x : ev) { long ti = x.second[0] - 1; if (ti < 0 || ti >= (long)g.T.size() || x.second[1] < 1 || x.second[1] > g.phases((int)ti) || x.second[2] < 1 || x.second[2] > K[(size_t)ti]) c.fail("event", "event " + vec(x.second)); }
  for (auto &a : X) { auto &e = ev[a.u]; if (!near(a.d, (LD)g.T[(size_t)e[0] - 1].dur[(size_t)e[1] - 1], 1e-5L) && !(g.T[(size_t)e[0] - 1].reent == 0 && a.d == 0)) c.fail("duration", "an arc from " + vec(e) + " of duration " + str(a.d)); }
  if (xml && dep) { bool same = X.size() == T.size(); for (size_t i = 0; same && i < X.size(); i++) same = X[i].u == T[i].u && X[i].v == T[i].v && X[i].w == T[i].w && X[i].d == T[i].d; if (!same) c.fail("views", "XML and TikZ list different constraints\n" + s.out); }
  if (xml) optimum(c, (int)total, X, m, want, 1, "the event graph (XML)"); if (dep) optimum(c, (int)total, T, m, want, 1, "the event graph (TikZ)");
}
static void expansion(Case &c, const G &g, const std::vector<long> &q, const std::vector<long> &K, Params p, const std::string &d) {
  c.describe("PartialExpansion" + d + " DOT\n" + g.str()); c.label("partial expansion"); p["DOT"] = "1"; Rat want; Mcr m = kperiodic_throughput(g, q, K, want);
  Sub s = run_algo(g, "PartialExpansion", p, 15);
  if (s.kind == Sub::CPU) c.fail("hang", "the command does not end"); if (s.kind == Sub::MEM) c.inconclusive(s.how()); if (!s.ok()) c.fail("abort", s.how());
  size_t dot = s.out.find("digraph"); if (dot == std::string::npos) c.fail("format", "no DOT\n" + s.out);
  std::vector<A> X; std::istringstream is(s.out.substr(dot)); std::string l; std::map<int, std::pair<int, int>> node; std::map<int, int> seen; int task = -1;
  while (std::getline(is, l)) {
    int u, v; if (sscanf(l.c_str(), " subgraph cluster_%d", &u) == 1) { if (u < 1 || u > (int)g.T.size() || seen[u]) c.fail("event", l); task = u - 1; continue; }
    if (sscanf(l.c_str(), "%d ->%d", &u, &v) == 2) { X.push_back({u, v, num(part(l, "w=", " ")), num(part(l, "d=", " "))}); continue; }
    if (l.find("[shape=circle") != std::string::npos && sscanf(l.c_str(), "%d ", &u) == 1) { if (task < 0 || !node.emplace(u, std::make_pair(task, ++seen[task + 1])).second) c.fail("event", l); }
  }
  int total = 0; for (size_t i = 0; i < K.size(); i++) { total += (int)K[i]; if (seen[(int)i + 1] != K[i]) c.fail("event", g.T[i].name + " has " + str(seen[(int)i + 1]) + " events instead of " + str(K[i])); }
  LD M = -1; // weight of one iteration, from the arcs that close the sequence of the executions of a task
  for (auto &a : X) {
    if (a.u < 0 || a.v < 0 || a.u >= total || a.v >= total) c.fail("event", "an arc from " + str(a.u) + " to " + str(a.v)); auto &x = node[a.u], &y = node[a.v];
    if (a.d == 0 && x.first == y.first && x.second == K[(size_t)x.first] && y.second == 1) { LD z = a.w / (LD)K[(size_t)x.first] * (LD)q[(size_t)x.first]; if (z <= 0 || (M > 0 && !near(M, z, 1e-5L))) c.fail("scale", "tasks have different iteration weights " + str(M) + " and " + str(z) + "\n" + s.out); M = z; }
    if (a.d != 0 && a.d != (LD)g.T[(size_t)x.first].dur[0]) c.fail("duration", "an arc from " + g.T[(size_t)x.first].name + " of duration " + str(a.d));
  }
  if (M < 0) c.fail("scale", "no arc closes the sequence of executions\n" + s.out);
  optimum(c, total, X, m, want, M, "the partial expansion");
  // the table of each channel
  std::istringstream ts(s.out.substr(0, dot)); int a = -1, b = -1, rows = 0, chans = 0; long arcs = 0;
  while (std::getline(ts, l)) {
    if (l.rfind("# Channel", 0) == 0) { if (chans && rows != K[(size_t)a] * K[(size_t)b]) c.fail("table", "a table of " + str(rows) + " rows"); a = b = -1; std::string x = part(l, "between \"", "\""), y = part(l, "and \"", "\""); for (size_t i = 0; i < g.T.size(); i++) { if (g.T[i].name == x) a = (int)i; if (g.T[i].name == y) b = (int)i; } if (a < 0 || b < 0) c.fail("table", l); rows = 0; chans++; continue; }
    int ai, aj; if (chans && sscanf(l.c_str(), "%d, %d, ", &ai, &aj) == 2) { rows++; std::string w = l.substr(l.rfind(' ') + 1); if (w == "NaN") continue; arcs++; bool f = false; for (auto &x : X) f |= node[x.u] == std::make_pair(a, ai) && node[x.v] == std::make_pair(b, aj) && near(x.w, num(w), 1e-5L); if (!f) c.fail("table", "row " + l + " from " + g.T[(size_t)a].name + " to " + g.T[(size_t)b].name + " has no arc\n" + s.out); }
  }
  if (chans != (int)g.E.size() || (long)X.size() != arcs + total) c.fail("table", str(chans) + " tables and " + str(arcs) + " rows for " + str(X.size()) + " arcs\n" + s.out);
}
static void run(Case &c) {
  Tape &t = c.t; bool exp = t.chance(1, 2); GenOpt o; o.wide = true; o.max_tasks = 4; o.max_phases = exp ? 1 : (int[]){1, 3}[t.pick({1, 2})]; o.max_firings = 24; o.extra_edges = 3; o.strong = t.chance(2, 3); o.reent0 = exp || t.chance(1, 5); o.make_live = t.chance(5, 6); o.zero_durations = !exp && t.chance(1, 10);
  G g = gen_graph(t, o); std::vector<long> q; if (!rep_vector(g, q) || firings(g, q) > 40) c.discard("too large"); if (exp) for (auto &x : g.T) x.reent = 0;
  std::vector<long> K; Params p; std::string d; for (size_t i = 0; i < g.T.size(); i++) { K.push_back(t.chance(1, 4) ? q[i] : t.range(1, 3)); if (K.back() > 1) { p[g.T[i].name] = str(K.back()); d += " " + g.T[i].name + "=" + str(K.back()); } }
  bool mul = false; for (size_t i = 0; i < K.size(); i++) mul |= K[i] > 1; c.nontrivial = mul && !g.E.empty() && firings(g, q) > (long)g.T.size();
  if (exp) expansion(c, g, q, K, p, d); else kperiodic(c, g, q, K, p, d);
}
static Reg reg({"P30",
  "random graphs (one in six may deadlock) x periodicity vectors; the event graph printed by PrintKPeriodicScheduling (XML, TikZ) and the DOT and tables of PartialExpansion read back; non-trivial = a channel, a multi-rate graph and a task with periodicity above one",
  60000, 600000, 20, true, {"numbers are printed with six digits: the optimum is compared within a thousandth", "partial expansion: one phase per task, executions of a task may overlap (it does not model reentrancy limits)"}, run});
