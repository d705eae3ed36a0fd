// P14 buffer sizes computed for a period sustain that period
#include "graph.h"
#include <boost/assert.hpp>
#include <models/Dataflow.h>
#include <algorithms/buffersizing.h>
#include <algorithms/buffersizing/periodic.h>
#include <algorithms/buffersizing/periodic_fixed.h>
#include <algorithms/normalization.h>
#include <models/repetition_vector.h>
#include <algorithm>
#include <climits>
using namespace vh;

// every channel bounded to size[e]: one return channel carrying the free places
static G bounded(const G &g, const std::vector<long> &size) {
  G h = g;
  for (size_t i = 0; i < g.E.size(); i++) {
    const GEdge &e = g.E[i];
    if (size[i] < 0) continue;              // unbounded
    GEdge r; r.s = e.t; r.t = e.s; r.in = e.out; r.out = e.in; r.m = size[i] - e.m; r.name = "rev" + str(i);
    h.E.push_back(r);
  }
  return h;
}
// does the graph bounded to these sizes have a 1-periodic schedule of period P?
static bool sustains(const G &g, const std::vector<long> &q, const std::vector<long> &size, const Rat &P, bool strict) {
  for (size_t i = 0; i < g.E.size(); i++) if (size[i] >= 0 && size[i] < g.E[i].m) return false;
  G h = bounded(g, size);
  if (!live(h, q)) return false;
  Rat thr; std::vector<long> K(g.T.size(), 1);
  Mcr m = strict ? speriodic_throughput(h, q, false, thr) : kperiodic_throughput(h, q, K, thr);
  if (m == Mcr::DEADLOCK) return false;
  if (m == Mcr::NONE) return true;
  return (thr * P).f() >= 1 - 1e-7L;
}
// smallest weighted total sustaining P, over all distributions (at most 3 channels); -1 if above cap
static long minimum(const G &g, const std::vector<long> &q, const Rat &P, long cap) {
  size_t n = g.E.size();
  std::vector<long> lo(n), s(n, -1);
  for (size_t i = 0; i < n; i++) {          // alone, all others unbounded
    long a = g.E[i].m - 1, b = std::max(1L, g.E[i].m);
    auto ok = [&](long x) { std::vector<long> z(n, -1); z[i] = x; return sustains(g, q, z, P, false); };
    while (!ok(b)) { a = b; b *= 2; if (b > 4096) return -1; }
    while (b - a > 1) { long m = (a + b) / 2; (ok(m) ? b : a) = m; }
    lo[i] = b;
  }
  long base = 0; for (size_t i = 0; i < n; i++) base += lo[i] * g.E[i].tsize;
  if (base > cap) return LONG_MAX;
  if (n == 0) return 0;
  long best = LONG_MAX;
  long budget = 4000;
  std::function<void(size_t, long)> rec = [&](size_t i, long used) {
    long rest = 0; for (size_t j = i; j < n; j++) rest += lo[j] * g.E[j].tsize;
    long lim = std::min(cap, best - 1);
    if (used + rest > lim) return;
    if (--budget < 0) return;
    if (i + 1 == n) {                       // the smallest admissible last size
      long hi = lo[i] + (lim - used - rest) / g.E[i].tsize;
      s[i] = hi; if (!sustains(g, q, s, P, false)) { s[i] = -1; return; }
      long a = lo[i] - 1, b = hi;
      while (b - a > 1) { long m = (a + b) / 2; s[i] = m; (sustains(g, q, s, P, false) ? b : a) = m; }
      best = used + b * g.E[i].tsize; s[i] = -1; return;
    }
    for (long x = lo[i]; used + rest + (x - lo[i]) * g.E[i].tsize <= std::min(cap, best - 1); x++) {
      s[i] = x;
      std::vector<long> z = s; for (size_t j = i + 1; j < n; j++) z[j] = -1;
      if (sustains(g, q, z, P, false)) rec(i + 1, used + x * g.E[i].tsize);
      s[i] = -1;
    }
  };
  rec(0, 0);
  if (budget < 0) return -1;
  return best;
}

static std::vector<long> numbers(const std::string &s) { std::istringstream i(s); std::vector<long> v; double x; while (i >> x) v.push_back((long)llround(x)); return v; }

static void check_sub(Case &c, const Sub &s, const std::string &what) {
  if (s.kind == Sub::MEM) c.inconclusive(s.how());
  if (s.kind == Sub::CPU) c.inconclusive(what + ": " + s.how());
  if (s.kind == Sub::SIGNAL) c.fail("crash", what + " crashed: " + s.how());
  if (!s.ok()) c.fail("abort", what + " aborted: " + s.how());
}

static void run(Case &c) {
  Tape &t = c.t;
  int mode = t.pick({3, 4, 2, 1});
  GenOpt o;
  o.min_tasks = 1; o.max_tasks = mode == 0 ? 3 : (int[]){4, 6}[t.pick({3, 1})];
  o.max_phases = (int[]){1, 3}[t.pick({1, 2})];
  o.max_q = (long[]){3, 5}[t.pick({3, 1})];
  o.max_firings = 30; o.extra_edges = mode == 0 ? 1 : 3;
  o.max_dur = 9;
  o.reent0 = t.chance(1, 8); o.self_loops = t.chance(1, 3);
  G g = gen_graph(t, o);
  if (t.chance(1, 2)) for (auto &e : g.E) e.tsize = 1 + (long)t.skew(0, 7);
  // fixed offsets longer than the period would let firings of an unbounded task overtake
  if (mode) for (auto &x : g.T) if (x.dur.size() > 1) x.reent = 1;
  std::vector<long> q;
  if (!rep_vector(g, q) || firings(g, q) > 60) c.discard("too large");
  if (g.E.empty()) c.discard("no channel");
  Rat k1; std::vector<long> K(g.T.size(), 1);
  if (!live(g, q)) c.discard("deadlock");
  Mcr m = kperiodic_throughput(g, q, K, k1);
  if (m == Mcr::DEADLOCK) c.discard("no periodic schedule");
  bool free_run = m == Mcr::NONE;
  Rat P = free_run ? Rat(1 + (long)t.draw(20)) : Rat(1) / k1;
  Rat Pmin = P;
  switch (t.pick({3, 3, 1})) { case 0: break; case 1: P = P * Rat(8 + 1 + (long)t.draw(8), 8); break; default: P = P * Rat(2 + (long)t.draw(3)); }
  bool ilp = t.chance(1, 2);
  c.label(P == Pmin ? "fastest period" : "slower period"); c.label(ilp ? "ILP" : "LP");
  if (g.sdf()) c.label("SDF");
  long double p = P.f();
  size_t n = g.E.size();
  std::string head = g.str() + "period " + P.str() + " fastest " + (free_run ? "any" : Pmin.str()) + (ilp ? " ILP" : " LP");
  auto total_of = [&](const Rat &per, bool il) {
    Sub s = isolate([&] { models::Dataflow *df = build(g); computeRepetitionVector(df);
      BufferSizingResult r = algorithms::periodic_memory_sizing_csdf(df, per.f(), il, false);
      return r.is_valid() ? str(r.total_size()) : std::string("none"); }, 10);
    check_sub(c, s, "periodic sizing");
    return s.ret;
  };
  if (mode == 0) {
    c.label("periodic sizing");
    if (n > 3) c.discard("more than 3 channels");
    c.describe(head + " periodic sizing");
    std::string r = total_of(P, ilp);
    c.require(r != "none", "none", "no solution reported although a periodic schedule of this period exists");
    long T = atol(r.c_str());
    long best = minimum(g, q, P, T);
    if (best == -1) c.discard("too many distributions");
    c.nontrivial = true;
    if (best > T) c.fail("insufficient", "announced total " + str(T) + ", but no distribution of at most that weighted size sustains the period");
    if (ilp && g.sdf()) { c.label("SDF optimum");
      if (best < T) c.fail("suboptimal", "announced optimal total " + str(T) + ", but a distribution of weighted size " + str(best) + " sustains the period"); }
    if (ilp) {
      Rat P2 = P * Rat(9 + (long)t.draw(16), 8);
      std::string r2 = total_of(P2, true);
      c.require(r2 != "none", "none", "no solution reported for the longer period " + P2.str());
      c.require(atol(r2.c_str()) <= T, "monotone", "period " + P.str() + " needs " + str(T) + " but the longer period " + P2.str() + " needs " + r2);
    }
    return;
  }
  if (mode == 3) {                          // the command announces the same total
    c.label("command");
    static const char *cmds[] = {"PeriodicSizing", "SPeriodicSizing", "FixedOffsetBufferSizing", "PeriodicSizing"};
    int which = (int)t.draw(4); bool def = which == 3;
    if (def && free_run) c.discard("no period to default to");
    // the period is given in decimal: take the next multiple of 1/8
    Rat PD((P.n * 8 + P.d - 1) / P.d, 8); if (PD == Rat(0)) PD = Rat(1);
    if (def) PD = Pmin;
    c.describe(g.str() + "command " + cmds[which] + (def ? " default period " : " period ") + PD.str() + (ilp ? " ILP" : ""));
    Params pa; if (ilp) pa["ILP"] = "1"; if (!def) pa["PERIOD"] = str((double)PD.f()); 
    static const char *offs[] = {"BURST", "AVERAGE", "MINMAX", "WIGGERS"}, *onames[] = {"Burst Sizing size is", "Average Sizing size is", "MinMax Sizing size is", "Wiggers Sizing size is"};
    int ok_ = which == 2 ? (int)t.draw(4) : 0;
    if (which == 2) { pa["OFFSET"] = offs[ok_]; c.label(std::string("command OFFSET=") + offs[ok_]); c.describe(g.str() + "command " + cmds[which] + " OFFSET=" + offs[ok_] + " period " + PD.str() + (ilp ? " ILP" : "")); }
    Sub api = isolate([&] { models::Dataflow *df = build(g); computeRepetitionVector(df);
      BufferSizingResult r;
      if (which == 2) { std::map<Vertex, std::vector<TIME_UNIT>> off; bool ok = true;
        switch (ok_) { case 0: ok = algorithms::generateBurstOffsets(df, off); break; case 1: ok = algorithms::generateAverageOffsets(df, PD.f(), off); break;
          case 2: ok = algorithms::generateMinMaxOffsets(df, PD.f(), off); break; default: ok = algorithms::generateWiggersOffsets(df, PD.f(), off); }
        if (!ok) return std::string("none");
        algorithms::checkOffsets(df, PD.f(), off);
        r = algorithms::compute_periodic_fixed_memory(df, off, PD.f(), ilp, false); }
      else if (which == 1) r = algorithms::speriodic_memory_sizing_csdf(df, PD.f(), ilp, false);
      else r = algorithms::periodic_memory_sizing_csdf(df, PD.f(), ilp, false);
      return r.is_valid() ? str(r.total_size()) : std::string("none"); }, 10);
    if (ok_ && api.kind == Sub::EXIT) { c.label("offsets refused"); return; }
    check_sub(c, api, "sizing");
    Sub s = run_algo(g, cmds[which], pa, 10);
    if (s.kind == Sub::SIGNAL || s.kind == Sub::CPU) c.fail("crash", std::string(cmds[which]) + ": " + s.how());
    static const char *keys[] = {"1Periodic size is", "SPeriodicSizing size is", onames[ok_], "1Periodic size is"};
    long double v; bool printed = s.ok() && find_number(s.out, keys[which], v);
    c.nontrivial = api.ret != "none";
    if (api.ret == "none") { if (printed) c.fail("phantom", std::string(cmds[which]) + " announces " + str(v) + " although no size sustains the period"); return; }
    if (!printed) c.fail("noprint", std::string(cmds[which]) + " announces no size (" + s.how() + "); the analysis finds " + api.ret + "\n" + s.out);
    if (llroundl(v) != atol(api.ret.c_str())) c.fail("announce", std::string(cmds[which]) + " announces " + str(v) + ", the analysis finds " + api.ret);
    return;
  }
  static const char *kinds[] = {"strict", "BURST", "AVERAGE", "MINMAX", "WIGGERS"};
  int kind = mode == 2 ? 0 : (int)t.draw(5);
  bool strict = kind == 0;
  if (mode == 2) {
    c.label("virtual buffers");
    long mul = t.chance(1, 3) ? 2 : 1;
    Rat PD((P.n * 8 + P.d - 1) / P.d, 8); if (PD == Rat(0)) PD = Rat(1);
    c.describe(g.str() + "AddVBuffers period " + PD.str() + " MUL " + str(mul) + (ilp ? " ILP" : ""));
    Sub s = isolate([&] { models::Dataflow *df = build(g);
      Params pa; pa["PERIOD"] = str((double)PD.f()); if (ilp) pa["ILP"] = "1"; if (mul != 1) pa["MUL"] = str(mul);
      call_algo(df, "AddVBuffers", pa);
      G h = read_back(df); std::string o; 
      o += str(h.E.size()) + "\n";
      for (auto &e : h.E) o += e.name + " " + str(e.s) + " " + str(e.t) + " " + str(e.m) + " " + str(e.tsize) + " " + vec(e.in) + " " + vec(e.out) + "\n";
      return o; }, 10);
    if (s.kind == Sub::CPU || s.kind == Sub::MEM) c.inconclusive(s.how());
    if (s.kind == Sub::SIGNAL) c.fail("crash", "AddVBuffers crashed: " + s.how());
    // is there anything to find?
    Sub api = isolate([&] { models::Dataflow *df = build(g);
      BufferSizingResult r = algorithms::speriodic_memory_sizing_csdf(df, PD.f(), ilp, false);
      if (!r.is_valid()) return std::string("none");
      std::string o; { ForEachEdge(df, e) o += str(r.get_edge_size(df->getEdgeId(e))) + " "; } return o; }, 10);
    check_sub(c, api, "strictly periodic sizing");
    if (api.ret == "none") { c.label("no strictly periodic solution"); if (s.ok()) c.fail("phantom", "AddVBuffers adds buffers although no size sustains the period:\n" + s.ret); return; }
    if (!s.ok()) c.fail("abort", "AddVBuffers aborted: " + s.how());
    auto sz = numbers(api.ret); c.require(sz.size() == n, "api", "sizes missing");
    c.nontrivial = true;
    // expected: the original channels, and one return channel each
    std::map<std::string, std::string> want, got;
    auto line = [](const std::string &nm, long a, long b, long m, long ts, const std::vector<long> &in, const std::vector<long> &out) {
      return nm + " " + str(a) + " " + str(b) + " " + str(m) + " " + str(ts) + " " + vec(in) + " " + vec(out); };
    for (size_t i = 0; i < n; i++) { auto &e = g.E[i];
      want[e.name] = line(e.name, e.s, e.t, e.m, e.tsize, e.in, e.out);
      want["vir_" + e.name] = line("vir_" + e.name, e.t, e.s, sz[i] * mul - e.m, e.tsize, e.out, e.in); }
    std::istringstream is(s.ret); std::string l; std::getline(is, l); long cnt = atol(l.c_str());
    while (std::getline(is, l)) got[l.substr(0, l.find(' '))] = l;
    c.require(cnt == (long)(2 * n), "count", "expected " + str(2 * n) + " channels, found " + str(cnt) + "\n" + s.ret);
    for (auto &w : want) c.require(got[w.first] == w.second, "channel", "expected channel [" + w.second + "], found [" + got[w.first] + "]");
    std::vector<long> s1 = sz; for (auto &x : s1) x *= mul;
    bool r1 = true; for (auto &x : g.T) r1 &= x.reent == 1;
    c.require(sustains(g, q, s1, PD, false), "insufficient", "graph with the added buffers (sizes " + vec(s1) + ") does not sustain the period");
    (void)r1;
    return;
  }
  c.label(kinds[kind]);
  c.describe(head + " " + kinds[kind] + " offsets");
  Sub s = isolate([&] { models::Dataflow *df = build(g); computeRepetitionVector(df);
    BufferSizingResult r; std::map<Vertex, std::vector<TIME_UNIT>> off; bool ok = true;
    switch (kind) {
      case 0: r = algorithms::speriodic_memory_sizing_csdf(df, p, ilp, false); break;
      case 1: ok = algorithms::generateBurstOffsets(df, off); break;
      case 2: ok = algorithms::generateAverageOffsets(df, p, off); break;
      case 3: ok = algorithms::generateMinMaxOffsets(df, p, off); break;
      default: ok = algorithms::generateWiggersOffsets(df, p, off); break;
    }
    if (!ok) return std::string("none");
    if (kind) { algorithms::checkOffsets(df, p, off); r = algorithms::compute_periodic_fixed_memory(df, off, p, ilp, false); }
    if (!r.is_valid()) return std::string("none");
    std::string o = str(r.total_size()); { ForEachEdge(df, e) o += " " + str(r.get_edge_size(df->getEdgeId(e))); } return o; }, 10);
  if (kind >= 2 && s.kind == Sub::EXIT) { c.label("offsets refused"); return; }
  check_sub(c, s, "fixed-offset sizing");
  if (s.ret == "none") {
    c.label("no solution");
    if (g.sdf()) c.fail("none", "no solution reported for an SDF graph although a periodic schedule of this period exists");
    return;
  }
  auto v = numbers(s.ret);
  c.require(v.size() == n + 1, "api", "sizes missing: " + s.ret);
  long total = v[0], sum = 0; std::vector<long> size(v.begin() + 1, v.end());
  for (size_t i = 0; i < n; i++) sum += size[i] * g.E[i].tsize;
  c.nontrivial = true;
  c.require(total == sum, "total", "announced total " + str(total) + ", weighted sum of the sizes (" + vec(size) + ") is " + str(sum));
  if (!sustains(g, q, size, P, false)) c.fail("insufficient", "sizes (" + vec(size) + ") do not sustain the period");
  if (ilp && g.sdf() && n <= 3) {   // single phases: fixed offsets leave every freedom, the optimum is the periodic one
    long best = minimum(g, q, P, total); if (best == -1) return;
    c.label("fixed-offset SDF optimum");
    if (best < total) c.fail("suboptimal", "announced optimal total " + str(total) + ", but a distribution of weighted size " + str(best) + " sustains the period");
  }
  (void)strict;
}
static Reg reg({"P14",
  "random live (C)SDF graphs with a periodic schedule, the fastest periodic period or a longer one, LP and ILP, all sizing variants (free periodic on at most 3 channels, strictly periodic / burst / average / minmax / wiggers offsets, AddVBuffers, the commands); non-trivial = sizes were returned and re-analysed on the bounded graph",
  40000, 400000, 60, true, {"positive durations; unbounded tasks have one phase in the fixed-offset variants", "fastest period = exact 1-periodic optimum computed by the harness", "optimality is compared with exhaustive enumeration for SDF graphs of at most 3 channels under ILP; for CSDF the announced total is only required to be sufficient (documented conservative constraint)"}, run});
