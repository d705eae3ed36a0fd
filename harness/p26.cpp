// P26 untimed execution: terminates with the right verdict; packet traces follow the token flow
#include "graph.h"
#include <models/Dataflow.h>
#include <algorithms/symbolic_execution.h>
#include <algorithm>
#include <sstream>
using namespace vh;

static void verdict(Case &c, const G &g, bool lv) {
  bool cli = c.t.chance(1, 2);
  c.describe(g.str() + (cli ? "SymbolicExecution\n" : "symbolic_execution(graph)\n")); c.label(lv ? "live" : "deadlock");
  Sub s = isolate([&]() -> std::string {
    auto *df = build(g); if (cli) { call_algo(df, "SymbolicExecution"); return "1"; }
    std::string before = canon(read_back(df)); bool r = algorithms::symbolic_execution(df); if (canon(read_back(df)) != before) return "the graph changed"; return r ? "1" : "0";
  }, 10);
  if (s.kind == Sub::CPU) c.fail("hang", "still running after 10 s of CPU on a graph of a few firings");
  if (cli && !lv) { if (s.kind != Sub::EXIT || s.code == 0) c.fail("verdict", "a deadlocking graph: " + s.how()); return; }
  if (!s.ok()) c.fail("abort", s.how());
  if (s.ret != "1" && s.ret != "0") c.fail("changed", s.ret);
  if (s.ret != (lv ? "1" : "0")) c.fail("verdict", std::string(lv ? "a live" : "a deadlocking") + " graph is reported " + (lv ? "deadlocking" : "live"));
}
struct Pkt { long src, dst; long double dur; long id, bank; std::vector<long> deps; };
static void trace(Case &c, const G &g, const std::vector<long> &q, bool lv) {
  Tape &t = c.t; long psize = (long)t.draw(6), it = (long)t.range(1, 3); bool ack = t.chance(1, 4), noit = it == 1 && t.chance(1, 2), nops = psize == 0 && t.chance(1, 2);
  Params p; if (!nops) p["psize"] = str(psize); if (!noit) p["iteration"] = str(it); if (ack) p["ack"] = "1";
  std::string d = g.str() + "SymbolicExecutionWP"; for (auto &x : p) d += " " + x.first + "=" + x.second; c.describe(d + "\n"); c.label(lv ? "trace" : "trace of a deadlock");
  Sub s = run_algo(g, "SymbolicExecutionWP", p, 10);
  if (s.kind == Sub::CPU || s.kind == Sub::MEM) c.fail("hang", "no end of the trace: " + s.how());
  if (!lv) { if (s.kind != Sub::EXIT || s.code == 0) c.fail("verdict", "a deadlocking graph: " + s.how()); return; }
  if (!s.ok()) c.fail("abort", s.how());
  std::vector<Pkt> P; std::istringstream in(s.out); std::string l; std::vector<std::string> head;
  while (std::getline(in, l)) {
    if (l.empty()) continue;
    if (l[0] == '#') { head.push_back(l); continue; }
    std::vector<long double> v; std::istringstream x(l); std::string w; while (std::getline(x, w, ',')) { char *e; v.push_back(std::strtold(w.c_str(), &e)); if (*e || w.empty()) c.fail("format", "line " + l); }
    if (head.size() == 1) { if (v.size() != 3 || v[0] < 1 || v[1] < 1 || v[2] < 1 || v[0] * v[1] < std::min<size_t>(16, g.T.size())) c.fail("format", "header " + l); continue; }
    if (v.size() < 5) c.fail("format", "line " + l);
    Pkt k{(long)v[0], (long)v[1], v[2], (long)v[3], (long)v[4], {}}; for (size_t i = 5; i < v.size(); i++) k.deps.push_back((long)v[i]); P.push_back(k);
  }
  if (head.size() != 2) c.fail("format", "no header");
  long n = (long)g.T.size(); auto core = [&](int i) { return (long)i % 16; };
  std::vector<long> fired(n, 0), last(n, -1); std::vector<long> tok(g.E.size()), lastpkt(g.E.size(), -1); std::vector<std::vector<long>> made(g.E.size()); // producing computation of every token
  for (size_t e = 0; e < g.E.size(); e++) { tok[e] = g.E[e].m; made[e].assign((size_t)g.E[e].m, -1); }
  std::vector<size_t> head_tok(g.E.size(), 0); std::vector<std::set<long>> anc(P.size());
  for (size_t i = 0; i < P.size(); i++) {
    if (P[i].id != (long)i) c.fail("id", "packet " + str(P[i].id) + " is number " + str(i)); if (P[i].bank != 0) c.fail("bank", "bank " + str(P[i].bank));
    for (long x : P[i].deps) { if (x < 0 || x >= (long)i) c.fail("dep", "packet " + str(i) + " depends on packet " + str(x)); anc[i].insert(x); anc[i].insert(anc[(size_t)x].begin(), anc[(size_t)x].end()); }
  }
  size_t i = 0;
  while (i < P.size()) {
    if (P[i].src != P[i].dst) c.fail("order", "packet " + str(i) + " does not belong to a computation");
    int who = -1; for (int k = 0; k < n && who < 0; k++) if (core(k) == P[i].src && P[i].dur == g.T[(size_t)k].dur[0]) who = k;
    if (who < 0) c.fail("compute", "packet " + str(i) + " on core " + str(P[i].src) + " of duration " + str(P[i].dur) + " is no task");
    long me = (long)i;
    for (size_t e = 0; e < g.E.size(); e++) if (g.E[e].t == who) {
      if (tok[e] < g.E[e].out[0]) c.fail("tokens", "task " + g.T[(size_t)who].name + " runs in packet " + str(me) + " with " + str(tok[e]) + " tokens on " + g.E[e].name);
      tok[e] -= g.E[e].out[0];
      for (long k = 0; k < g.E[e].out[0]; k++) { long pr = made[e][head_tok[e]++]; if (pr >= 0 && !anc[(size_t)me].count(pr)) c.fail("flow", "computation " + str(me) + " does not wait for computation " + str(pr) + ", which makes a token it consumes on " + g.E[e].name); }
      if (lastpkt[e] >= 0 && g.E[e].m == 0 && !anc[(size_t)me].count(lastpkt[e])) c.fail("flow", "computation " + str(me) + " does not wait for the data of " + g.E[e].name);
    }
    if (last[who] >= 0 && !anc[(size_t)me].count(last[who])) c.fail("serial", "computation " + str(me) + " of " + g.T[(size_t)who].name + " does not wait for the previous one, " + str(last[who]));
    last[who] = me; fired[who]++; i++;
    std::multiset<long> want, got; size_t sends = 0;
    for (size_t e = 0; e < g.E.size(); e++) if (g.E[e].s == who) { long r = g.E[e].in[0], k = psize == 0 ? 1 : (r + psize - 1) / psize; for (long j = 0; j < k; j++) want.insert(core(g.E[e].t)); sends += (size_t)k; tok[e] += r; for (long j = 0; j < r; j++) made[e].push_back(me); }
    if (i + sends > P.size()) c.fail("packets", "the trace ends within the data of computation " + str(me));
    std::map<long, long> to;
    for (size_t j = 0; j < sends; j++, i++) {
      if (P[i].src != core(who) || P[i].dur != 0) c.fail("packets", "packet " + str(i) + " should carry data of computation " + str(me));
      if (!anc[i].count(me)) c.fail("flow", "data packet " + str(i) + " does not wait for computation " + str(me));
      got.insert(P[i].dst); to[P[i].dst] = (long)i;
    }
    if (got != want) c.fail("packets", "computation " + str(me) + " sends " + str(got.size()) + " packets, not to the consumers it has");
    for (size_t e = 0; e < g.E.size(); e++) if (g.E[e].s == who) { long same = 0; for (auto &x : g.E) same += x.s == who && core(x.t) == core(g.E[e].t); lastpkt[e] = same == 1 ? to[core(g.E[e].t)] : -1; }
  }
  auto comp = components(g); bool conn = connected(g);   // an iteration may count several rounds of an independent part
  std::map<int, long> rounds;
  for (long k = 0; k < n; k++) {
    long f = fired[(size_t)k], w = q[(size_t)k] * it; if (f % w == 0 && f && !rounds.count(comp[(size_t)k])) rounds[comp[(size_t)k]] = conn ? 1 : f / w;
    if (f != w * (rounds.count(comp[(size_t)k]) ? rounds[comp[(size_t)k]] : 1)) c.fail("count", "task " + g.T[(size_t)k].name + " has " + str(f) + " computations, " + str(w) + " expected");
  }
}
static void run(Case &c) {
  Tape &t = c.t; bool tr = t.chance(1, 2); GenOpt o; o.max_tasks = 6; o.max_phases = tr ? 1 : 3; o.strong = t.chance(1, 3); o.make_live = t.chance(2, 3); o.disconnected = t.chance(1, 8); o.zero_durations = t.chance(1, 6); o.max_q = 6;
  G g = gen_graph(t, o); std::vector<long> q; if (!rep_vector(g, q)) c.discard("inconsistent"); bool lv = live(g, q);
  c.nontrivial = firings(g, q) > (long)g.T.size() && !g.E.empty();
  if (tr) trace(c, g, q, lv); else verdict(c, g, lv);
}
static Reg reg({"P26",
  "random graphs of up to 6 tasks, a third without enough tokens: the plain untimed execution (multi-phase, through the function and the registered algorithm) against untimed liveness; packet traces of single-phase graphs (packet size 0..5, 1..3 iterations) replayed against the token flow; non-trivial = some task fires more than once and there is a channel",
  70000, 1500000, 20, true, {"packet traces: at most 16 tasks, durations of at most 6 digits, in-order network (data of earlier firings of a channel precedes later data)"}, run, {}, true});
