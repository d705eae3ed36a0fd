// P06 self-timed (ASAP) execution is eager, causal and complete
#include "graph.h"
#include <cctype>
using namespace vh;

// Independent discrete-event simulation of the component `in`: starts[t] = instants, until every member has `upto[t]` starts.
// One execution at a time (reentrancy 1), positive durations.
static bool simulate(const G &g, const std::vector<bool> &in, const std::vector<long> &upto, std::vector<std::vector<long>> &starts) {
  size_t n = g.T.size(); starts.assign(n, {});
  std::vector<long> tok; for (auto &e : g.E) tok.push_back(e.m);
  std::vector<long> busy(n, -1), cnt(n, 0);
  long now = 0;
  auto mine = [&](const GEdge &e) { return in[(size_t)e.s] && in[(size_t)e.t]; };
  for (long guard = 0; guard < 1000000; guard++) {
    for (size_t t = 0; t < n; t++) if (in[t] && busy[t] == now) {
      long p = (cnt[t] - 1) % (long)g.T[t].dur.size();
      for (size_t k = 0; k < g.E.size(); k++) if (mine(g.E[k]) && g.E[k].s == (int)t) tok[k] += g.E[k].in[(size_t)p];
      busy[t] = -1;
    }
    for (size_t t = 0; t < n; t++) if (in[t] && busy[t] < 0) {
      long p = cnt[t] % (long)g.T[t].dur.size(); bool ok = true;
      for (size_t k = 0; k < g.E.size(); k++) if (mine(g.E[k]) && g.E[k].t == (int)t) ok &= tok[k] >= g.E[k].out[(size_t)p];
      if (!ok) continue;
      for (size_t k = 0; k < g.E.size(); k++) if (mine(g.E[k]) && g.E[k].t == (int)t) tok[k] -= g.E[k].out[(size_t)p];
      starts[t].push_back(now); busy[t] = now + g.T[t].dur[(size_t)p]; cnt[t]++;
    }
    bool done = true; for (size_t t = 0; t < n; t++) if (in[t]) done &= (long)starts[t].size() >= upto[t];
    if (done) return true;
    long nx = -1; for (size_t t = 0; t < n; t++) if (in[t] && busy[t] >= 0) nx = nx < 0 ? busy[t] : std::min(nx, busy[t]);
    if (nx < 0) return false;
    now = nx;
  }
  return false;
}

struct Line { std::vector<long double> init, per; long double period = 0; bool have = false; int times = 0; };
static std::vector<long double> nums(const std::string &s) {
  std::vector<long double> r; const char *p = s.c_str();
  while (*p) { if (isdigit((unsigned char)*p) || (*p == '-' && isdigit((unsigned char)p[1]))) { char *q; r.push_back(strtold(p, &q)); p = q; } else p++; }
  return r;
}
static std::string field(const std::string &l, const std::string &key) {
  size_t i = l.find(key); if (i == std::string::npos) return "";
  i += key.size(); size_t j = l.find(" | ", i); return l.substr(i, j == std::string::npos ? j : j - i);
}

static void run(Case &c) {
  Tape &t = c.t;
  GenOpt o; o.wide = true; o.wide_dur = false;
  o.min_tasks = 1; o.max_tasks = (int[]){4, 6}[t.pick({4, 2})];
  o.max_phases = (int[]){1, 3}[t.pick({2, 3})];
  o.max_q = (long[]){4, 6, 8}[t.pick({5, 2, 1})];
  o.max_firings = (long[]){16, 32, 48}[t.pick({3, 4, 2})];
  o.extra_edges = 4; o.strong = t.chance(3, 4);
  o.max_dur = (long[]){9, 1, 30}[t.pick({6, 2, 2})];
  o.all_reent1 = true; o.zero_durations = false; o.reent0 = false;
  G g = gen_graph(t, o);
  std::vector<long> q;
  if (!rep_vector(g, q) || firings(g, q) > 80) c.discard("too large");
  long double div = (long double[]){1, 64, 10, 1000}[t.pick({9, 1, 1, 1})];   // durations need not be integers
  DurationDiv dd(div);
  if (div != 1) c.label("fractional durations");
  c.describe(g.str() + (div != 1 ? "every duration divided by " + str(div) + "\n" : ""));
  if (!live(g, q)) c.discard("deadlock");
  for (auto &x : g.T) for (long d : x.dur) if (d <= 0) c.discard("zero duration");
  auto id = scc_ids(g);
  size_t n = g.T.size();
  std::map<int, int> size; for (int x : id) size[x]++;
  c.label(size.size() == 1 ? "strongly connected" : "several components");
  Params p; if (t.chance(1, 2)) p["LINE"] = std::to_string((long[]){80, 1, 0, 7, 300}[t.draw(5)]);
  Sub s = run_algo(g, "ASAPScheduling", p, 20);
  if (s.kind == Sub::CPU) c.fail("hang", "ASAPScheduling exceeded 20 s of CPU on a tiny graph");
  if (s.kind == Sub::MEM) c.inconclusive(s.how());
  if (!s.ok()) c.fail("abort", "ASAPScheduling aborted: " + s.how());
  Rat thr; Mcr m = exact_throughput(g, q, thr);
  if (m == Mcr::FINITE) {
    long double v, w; if (!find_number(s.out, "ASAP throughput is", v) || !find_number(s.out, "ASAP period is", w)) c.fail("output", "no throughput printed\n" + s.out);
    if (!near(v, thr.f() * div, 1e-5L) || !near(w, 1 / thr.f() / div, 1e-5L)) c.fail("throughput", "ASAP throughput " + str(v) + " period " + str(w) + ", exact throughput is " + thr.str() + " * " + str(div));
  }
  // the schedule
  std::vector<Line> L(n);
  std::istringstream is(s.out); std::string l;
  while (std::getline(is, l)) {
    size_t k = l.find(" | starts:"); if (k == std::string::npos) continue;
    size_t b = l.find(") "); if (b == std::string::npos || b > k) continue;
    std::string name = l.substr(b + 2, k - b - 2);
    for (size_t i = 0; i < n; i++) if (g.T[i].name == name) {
      Line &x = L[i]; x.times++; x.have = true;
      x.init = nums(field(l, " | starts:")); x.per = nums(field(l, " | periodic starts:"));
      auto pv = nums(field(l, " | period:")); if (pv.size() == 1) x.period = pv[0];
    }
  }
  bool multi = false; for (long x : q) multi |= x > 1;
  bool anyinit = false;
  std::set<int> comps(id.begin(), id.end());
  for (int cid : comps) {
    std::vector<bool> in(n); std::vector<size_t> mem; bool edges = false;
    for (size_t i = 0; i < n; i++) if ((in[i] = id[i] == cid)) mem.push_back(i);
    for (auto &e : g.E) edges |= in[(size_t)e.s] && in[(size_t)e.t];
    if (!edges) { c.label("component without channel"); if (!L[mem[0]].have) { c.label("component without channel not printed"); continue; } }
    std::vector<long> upto(n, 0);
    for (size_t i : mem) {
      if (!L[i].have) c.fail("missing", "no schedule is printed for " + g.T[i].name + "\n" + s.out);
      if (L[i].times != 1) c.fail("missing", "the schedule of " + g.T[i].name + " is printed " + std::to_string(L[i].times) + " times\n" + s.out);
      if (L[i].per.empty()) c.fail("incomplete", "no periodic starts for " + g.T[i].name + "\n" + s.out);
      upto[i] = (long)(L[i].init.size() + 3 * L[i].per.size());
      anyinit |= !L[i].init.empty();
    }
    std::vector<std::vector<long>> ref;
    if (!simulate(g, in, upto, ref)) c.discard("component simulation");
    // whole iterations
    for (size_t i : mem) {
      long N = q[i] * g.phases((int)i), N0 = q[mem[0]] * g.phases((int)mem[0]);
      if ((long)L[i].per.size() * N0 != (long)L[mem[0]].per.size() * N)
        c.fail("incomplete", "the periodic part has " + std::to_string(L[i].per.size()) + " executions of " + g.T[i].name + " and " + std::to_string(L[mem[0]].per.size()) + " of " + g.T[mem[0]].name + "\n" + s.out);
      if (!near(L[i].period, L[mem[0]].period, 1e-9L)) c.fail("period", "tasks of one component have different periods\n" + s.out);
    }
    for (size_t i : mem)
      for (long k = 0; k < upto[i]; k++) {
        long double x; long ni = (long)L[i].init.size(), np = (long)L[i].per.size();
        if (k < ni) x = L[i].init[(size_t)k]; else x = L[i].per[(size_t)((k - ni) % np)] + (long double)((k - ni) / np) * L[i].period;
        if (fabsl(x * div - (long double)ref[i][(size_t)k]) > (div == 1 ? 1e-6L : 1e-5L * (1 + x * div))) c.fail("not-eager", "execution " + std::to_string(k) + " of " + g.T[i].name + " is scheduled at " + str(x) + ", its tokens and its processor are available at " + std::to_string(ref[i][(size_t)k]) + (div != 1 ? " / " + str(div) : "") + "\n" + s.out);
      }
  }
  if (anyinit) c.label("initial transient");
  c.nontrivial = n >= 2 && multi && !g.E.empty();
}
static Reg reg({"P06",
  "random consistent live (C)SDF graphs (reentrancy 1, positive durations), also with several strongly connected components; every printed initial and periodic start of each component, the periodic part repeated three times, is compared with an independent discrete-event simulation; non-trivial = at least 2 tasks, a channel and a repetition vector that is not all ones",
  80000, 1500000, 60, true,
  {"each strongly connected component is compared with its own self-timed execution (channels between components are unbounded and not part of the printed schedule)", "tasks alone in a component without channels may be left out of the printed schedule"}, run});
