// P28 LTE generator: the four-stage application with the numbers of tasks asked for
#include "graph.h"
#include <models/Dataflow.h>
#include <generators/LTEGenerator.h>
using namespace vh;
static void run(Case &c) {
  Tape &t = c.t;
  static const char *st[] = {"miwf", "cwac", "ifft", "dd"}; static const long dur[] = {392504, 230635, 353448, 267559}, pk[] = {16, 32, 32, 32}, def[] = {64, 75, 24, 75};
  Params p; long n[4]; bool big = t.chance(1, 40); std::string d = "genLTESDF";
  for (int i = 0; i < 4; i++) { if (big && t.chance(1, 2)) { n[i] = def[i]; continue; } n[i] = t.skew(0, big ? 30 : 7); p[st[i]] = str(n[i]); d += " " + std::string(st[i]) + "=" + str(n[i]); }
  long total = 0; for (long x : n) total += x; bool run_it = total > 0 && t.chance(1, 3);
  int algo = (int)t.draw(3); static const char *algos[] = {"KPeriodicThroughput", "1PeriodicThroughput", "SymbolicExecution"};
  if (total > 24) run_it = false;
  c.describe(d + (run_it ? std::string(", then ") + algos[algo] : "") + "\n"); c.label(big ? "large" : "small");
  c.nontrivial = n[0] + n[1] + n[2] + n[3] >= 3 && (n[0] * n[1] + n[1] * n[2] + n[2] * n[3]) > 0;
  Sub s = isolate([&]() -> std::string { auto *df = generators::generate_lte_sdf(p); if (run_it) call_algo(df, algos[algo]); return ser(read_back(df)); }, 60);
  if (s.kind == Sub::CPU || s.kind == Sub::MEM) c.inconclusive(s.how());
  if (!s.ok()) c.fail("abort", s.how());
  G g = deser(s.ret); std::map<std::string, std::pair<int, long>> want; std::map<std::string, int> id;
  for (int i = 0; i < 4; i++) for (long j = 0; j < n[i]; j++) want[std::string(st[i]) + "_" + str(j)] = {i, j};
  if ((long)g.T.size() != total) c.fail("tasks", str(g.T.size()) + " tasks instead of " + str(total));
  for (size_t i = 0; i < g.T.size(); i++) {
    auto &k = g.T[i]; if (!want.count(k.name) || !id.emplace(k.name, (int)i).second) c.fail("tasks", "task " + k.name);
    if (k.dur != std::vector<long>{dur[want[k.name].first]} || !k.idur.empty() || k.reent != 1) c.fail("task", "task " + k.name + " has durations " + vec(k.dur) + " and reentrancy " + str(k.reent));
  }
  std::set<std::pair<int, int>> seen; std::set<std::string> names;
  for (auto &e : g.E) {
    int a = want[g.T[(size_t)e.s].name].first, b = want[g.T[(size_t)e.t].name].first;
    if (b != a + 1) c.fail("channel", "channel " + e.name + " from " + g.T[(size_t)e.s].name + " to " + g.T[(size_t)e.t].name);
    if (!seen.insert({e.s, e.t}).second) c.fail("channel", "two channels from " + g.T[(size_t)e.s].name + " to " + g.T[(size_t)e.t].name);
    if (!names.insert(e.name).second) c.fail("channel", "two channels named " + e.name);
    if (e.in != std::vector<long>{pk[a]} || e.out != std::vector<long>{pk[a]} || !e.iin.empty() || !e.iout.empty() || e.m != 0) c.fail("channel", "channel " + e.name + " has rates " + vec(e.in) + " and " + vec(e.out) + " and " + str(e.m) + " tokens");
  }
  if ((long)g.E.size() != n[0] * n[1] + n[1] * n[2] + n[2] * n[3]) c.fail("channel", str(g.E.size()) + " channels");
  if (run_it && algo < 2) {
    // without circuits the slowest task sets the pace
    long m = 0; for (int i = 0; i < 4; i++) if (n[i]) m = std::max(m, dur[i]); long double v;
    if (!find_number(s.out, algo ? "1Periodic throughput is" : "KPeriodic Throughput is", v)) c.fail("noprint", "no throughput: " + s.out);
    if (!near(v, 1.0L / m, 1e-4L)) c.fail("throughput", str(v) + " instead of 1/" + str(m));
  }
}
static Reg reg({"P28",
  "numbers of tasks of each of the four stages (0..7, a few up to the defaults 64, 75, 24, 75, given or left to the default), alone or followed by an analysis; the graph read back; non-trivial = at least three tasks and one channel",
  18000, 200000, 90, true, {"throughput is compared on at most 24 tasks"}, run});
