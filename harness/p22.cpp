// P22 analyses leave the graph as it was and their answers do not depend on what ran before
#include "graph.h"
#include <models/Dataflow.h>
#include <algorithm>
#include <iostream>
using namespace vh;
namespace {
struct Op { const char *algo; bool sdf_only, small; const char *params = ""; };
const Op ops[] = {{"KPeriodicThroughput", false, false}, {"1PeriodicThroughput", false, false}, {"SPeriodicThroughput", false, false}, {"SymbExec", false, false}, {"NKPeriodicThroughput", false, true}, {"2PeriodicThroughput", false, false},
  {"PrintInfos", false, false}, {"PrintXML", false, false}, {"PrintGraph", false, false}, {"PrintKiter", false, false}, {"PrintKPeriodicScheduling", false, false}, {"deGrooteThroughput", true, true},
  {"1PeriodicScheduling", false, false}, {"SPeriodicScheduling", false, false}, {"ASAPScheduling", false, false}, {"EG1", false, false}, {"EGN", false, true}, {"LP1", false, true}, {"REALLP1", false, true},
  {"CycleDetection", false, true}, {"CycleCount", false, true}, {"PeriodicSizing", false, true}, {"SPeriodicSizing", false, true}, {"ASPeriodicThroughput", false, false},
  {"ThroughputBufferingDSE", false, true}, {"ThroughputBufferingDSE", false, true, "M_OPT"}, {"ThroughputBufferingDSE", false, true, "SYMB_EXEC_CORRECTED"}, {"PeriodicDSE", false, true}, {"SPeriodicDSE", false, true},
  {"LPN", false, true}, {"deGrooteCleanThroughput", true, true}, {"PartialExpansion", true, true}, {"SymbExecDebug", false, false, "SD"}, {"SymbolicExecution", false, true}, {"SymbolicExecutionWP", false, true}, {"BackPressureSizing", false, true, "PERIOD"}};
const int NOPS = (int)(sizeof(ops) / sizeof(ops[0]));
const char *MARK = "@@@@ end of analysis";
std::string clean(const std::string &s) { std::istringstream i(s); std::string l, o; while (std::getline(i, l)) if (l.find("Time is") == std::string::npos && l.find("time =") == std::string::npos) {
    // the last two columns of the rows of an exploration are execution times
    if (std::count(l.begin(), l.end(), ';') == 4) { l.erase(l.rfind(';')); l.erase(l.rfind(';')); }
    o += l + "\n"; } return o; }
parameters_list_t par(const G &g, const Op &op) {
  parameters_list_t p; std::string n = op.params; if (n.empty()) return p;
  if (n == "SD") { std::string s; for (auto &e : g.E) { long x = e.m; for (long v : e.in) x += v; for (long v : e.out) x += v; s += (s.size() ? "," : "") + str(x); } p["SD"] = s; }
  else p[n] = n == "PERIOD" ? "100" : "1";
  return p; }
}
static void run(Case &c) {
  Tape &t = c.t; bool small = t.chance(2, 3); GenOpt o; o.min_tasks = 1; o.max_tasks = small ? 4 : 8; o.max_phases = t.chance(1, 2) ? 3 : 1; o.max_q = small ? 3 : 6; o.max_firings = small ? 14 : 60; o.extra_edges = small ? 3 : 6; o.strong = t.chance(1, 2); o.all_reent1 = true;
  G g = gen_graph(t, o); std::vector<long> q; if (!rep_vector(g, q) || !live(g, q)) c.discard("not live");
  bool tiny = g.E.size() <= 3 && g.E.size() > 0; int n = (int)t.range(2, 6); std::vector<int> seq; std::vector<G> at; for (int i = 0; i < n; i++) { int k; do k = (int)t.draw((uint32_t)NOPS); while ((ops[k].small && !small) || (!strncmp(ops[k].algo, "ThroughputB", 11) && !tiny) || (ops[k].params[0] && g.E.empty()) || (ops[k].sdf_only && !g.sdf())); seq.push_back(k); }
  if (t.chance(1, 3)) seq.push_back(seq[0]);
  std::string d = g.str(); G cur = g; bool edited = false;
  struct Ed { int kind = 0, i = 0; long v = 0; std::vector<long> dur; std::vector<GEdge> rates; }; std::vector<Ed> eds;
  for (size_t i = 0; i < seq.size(); i++) {
    Ed e; if (i && t.chance(1, 5)) {
      G alt = cur; bool rates = t.chance(1, 2) && !cur.E.empty(); std::vector<long> q2;
      if (rates) {                             // rates, so that the normalisation or the repetition vector changes too
        long f = t.range(2, 3); if (t.chance(1, 2)) { auto &x = alt.E[t.draw((uint32_t)alt.E.size())]; for (auto &y : x.in) y *= f; for (auto &y : x.out) y *= f; if (t.chance(1, 2)) x.m *= f; }
        else { int k = (int)t.draw((uint32_t)alt.T.size()); for (auto &x : alt.E) { if (x.s == k) for (auto &y : x.in) y *= f; if (x.t == k) for (auto &y : x.out) y *= f; if (x.s == k || x.t == k) x.m *= f; } }
        rates = rep_vector(alt, q2) && live(alt, q2) && firings(alt, q2) <= (small ? 14 : 60);
      }
      if (rates) { cur = alt; e.kind = 3; e.rates = alt.E; d += " then the rates become those of\n" + cur.str(); } else
      if (!cur.E.empty() && t.chance(1, 2)) { e.kind = 1; e.i = (int)t.draw((uint32_t)cur.E.size()); e.v = cur.E[(size_t)e.i].m += t.range(1, 4); d += " then " + cur.E[(size_t)e.i].name + " gets " + str(e.v) + " tokens"; }
      else { e.kind = 2; e.i = (int)t.draw((uint32_t)cur.T.size()); for (auto &x : cur.T[(size_t)e.i].dur) x = t.range(1, 9); e.dur = cur.T[(size_t)e.i].dur; d += " then " + cur.T[(size_t)e.i].name + " gets durations " + vec(e.dur); }
      edited = true; }
    eds.push_back(e); at.push_back(cur); d += std::string(" then ") + ops[seq[i]].algo;
  }
  c.describe(d + "\n"); if (edited) c.label("with edits");
  // answers on a fresh graph
  std::vector<std::string> fresh; std::vector<int> keep;
  for (size_t i = 0; i < seq.size(); i++) {
    int k = seq[i]; Sub s = run_algo(at[i], ops[k].algo, par(at[i], ops[k]), 15); if (s.kind == Sub::CPU || s.kind == Sub::MEM) c.inconclusive(std::string(ops[k].algo) + " " + s.how());
    fresh.push_back(clean(s.out)); if (!s.ok()) { c.label(std::string("not applicable alone: ") + ops[k].algo); seq[i] = -1; continue; }
    keep.push_back(k); c.label(ops[k].algo);
  }
  if (keep.size() < 2) c.discard("fewer than two applicable analyses");
  c.nontrivial = g.T.size() >= 2 && g.E.size() >= 2 && std::set<int>(keep.begin(), keep.end()).size() >= 2;
  Sub s = isolate([&]() -> std::string {
    auto *df = build(g);
    for (size_t i = 0; i < seq.size(); i++) {
      const Ed &e = eds[i];
      if (e.kind) df->reset_computation();
      if (e.kind == 1) df->setPreload(df->getEdgeByName(g.E[(size_t)e.i].name), e.v);
      if (e.kind == 3) for (auto &x : e.rates) { Edge y = df->getEdgeByName(x.name); if (df->getEdgeInVector(y) != x.in) df->setEdgeInPhases(y, x.in); if (df->getEdgeOutVector(y) != x.out) df->setEdgeOutPhases(y, x.out); if (df->getPreload(y) != x.m) df->setPreload(y, x.m); }
      if (e.kind == 2) df->setVertexDuration(df->getVertexByName(g.T[(size_t)e.i].name), std::vector<TIME_UNIT>(e.dur.begin(), e.dur.end()));
      if (seq[i] < 0) continue;
      std::string before = canon(read_back(df)); std::cout.copyfmt(std::ios(nullptr)); call_algo(df, ops[seq[i]].algo, par(at[i], ops[seq[i]])); std::cout << std::flush; fflush(stdout); std::cout << "\n" << MARK << "\n" << std::flush;
      std::string after = canon(read_back(df)); if (after != before) return std::string(ops[seq[i]].algo) + " changed the graph to\n" + after + "from\n" + before;
    }
    return ""; }, 60);
  if (s.kind == Sub::CPU || s.kind == Sub::MEM) c.inconclusive("sequence " + s.how());
  if (!s.ok()) c.fail("abort", "each analysis works alone but the sequence does not: " + s.how() + "\n" + s.err.substr(0, 500));
  if (s.ret.size()) c.fail("changed", s.ret);
  size_t pos = 0;
  for (size_t i = 0; i < seq.size(); i++) {
    if (seq[i] < 0) continue;
    size_t e = s.out.find(std::string("\n") + MARK + "\n", pos); if (e == std::string::npos) c.fail("output", "missing output");
    std::string got = clean(s.out.substr(pos, e - pos)); pos = e + strlen(MARK) + 2;
    if (got != fresh[i]) c.fail(std::string("differs:") + ops[seq[i]].algo, std::string(ops[seq[i]].algo) + " answers\n" + got + "--- alone\n" + fresh[i]);
  }
}
static Reg reg({"P22",
  "random live (C)SDF graphs and sequences of 2..7 analyses (36 kinds: throughput, scheduling, sizing, exploration, cycles, simulation, printers) run on one graph object, sometimes with edits of tokens, durations or rates in between, each compared with the same analysis on a fresh graph, the graph compared after every step; non-trivial = at least 2 tasks, 2 channels and 2 different analyses",
  12000, 200000, 120, true, {"reentrancy 1, positive durations", "lines reporting execution times are ignored"}, run});
