// P15 throughput-buffering exploration returns the exact Pareto front
#include "graph.h"
#include <models/Dataflow.h>
#include <algorithm>
#include <climits>
#include <dirent.h>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace vh;

static G bounded(const G &g, const std::vector<long> &size) {
  G h = g;
  for (size_t i = 0; i < g.E.size(); i++) {
    const GEdge &e = g.E[i];
    if (size[i] < 0) continue;
    GEdge r; r.s = e.t; r.t = e.s; r.in = e.out; r.out = e.in; r.m = size[i] - e.m; r.name = "rev" + str(i);
    h.E.push_back(r);
  }
  return h;
}
static Rat throughput(const G &g, const std::vector<long> &q, const std::vector<long> &size) {
  for (size_t i = 0; i < g.E.size(); i++) if (size[i] >= 0 && size[i] < g.E[i].m) return Rat(0);
  G h = bounded(g, size);
  if (!live(h, q)) return Rat(0);
  Rat thr; Mcr m = exact_throughput(h, q, thr);
  return m == Mcr::FINITE ? thr : Rat(0);
}
struct Front { std::vector<std::pair<long, Rat>> p; bool ok = false; };
// exhaustive: best throughput for every total, from the smallest live one to the maximal throughput
static Front front(const G &g, const std::vector<long> &q, const Rat &top, long budget) {
  Front f; size_t n = g.E.size(); std::vector<long> lo(n), s(n);
  long S = 0;
  for (size_t i = 0; i < n; i++) {
    auto &e = g.E[i];
    long b = std::max(1L, e.m); for (long x : e.in) b = std::max(b, x); for (long x : e.out) b = std::max(b, x);
    std::vector<long> z(n, -1); z[i] = b;
    while (throughput(g, q, z) == Rat(0)) { z[i]++; if (--budget < 0) return f; }
    lo[i] = z[i]; S += z[i];
  }
  Rat best(0);
  for (;; S++) {
    Rat b(0); long slack = S; for (long x : lo) slack -= x;
    std::function<bool(size_t, long)> rec = [&](size_t i, long left) {
      if (i + 1 == n) { s[i] = lo[i] + left; if (--budget < 0) return false; Rat t = throughput(g, q, s); if (b < t) b = t; return true; }
      for (long x = 0; x <= left; x++) { s[i] = lo[i] + x; if (!rec(i + 1, left - x)) return false; }
      return true;
    };
    if (!rec(0, slack)) return f;
    if (best < b) { best = b; f.p.push_back({S, b}); }
    if (top <= best) { f.ok = true; return f; }
  }
}

struct Point { long size; long double thr; std::vector<long> d; };
static std::vector<Point> parse(const std::string &csv) {
  std::vector<Point> v; std::istringstream is(csv); std::string l; std::getline(is, l);
  while (std::getline(is, l)) {
    if (l.empty()) continue;
    Point p; std::istringstream ls(l); std::string a, b, c; std::getline(ls, a, ';'); std::getline(ls, b, ';'); std::getline(ls, c, ';');
    p.size = atol(a.c_str()); p.thr = strtold(b.c_str(), nullptr);
    std::string num; for (char ch : c) { if (isdigit((unsigned char)ch)) num += ch; else if (!num.empty()) { p.d.push_back(atol(num.c_str())); num.clear(); } }
    v.push_back(p);
  }
  return v;
}
// runs the exploration with its log directory in a scratch folder; returns the file of Pareto points
static Sub explore(const G &g, Params pa, unsigned cpu) {
  char dir[] = "/tmp/vh-dse-XXXXXX"; if (!mkdtemp(dir)) { Sub s; s.kind = Sub::MEM; return s; }
  std::string d = dir; pa["LOGDIR"] = d;
  Sub s = isolate([&] { models::Dataflow *df = build(g); df->setGraphName("g"); call_algo(df, "ThroughputBufferingDSE", pa); return std::string("done"); }, cpu);
  std::string text;
  for (std::string sub : {"/pp_logs", "/dse_logs"}) {
    if (DIR *dd = opendir((d + sub).c_str())) {
      while (dirent *e = readdir(dd)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string f = d + sub + "/" + n;
        if (sub == "/pp_logs") { std::ifstream i(f); std::stringstream b; b << i.rdbuf(); text += b.str(); } unlink(f.c_str()); }
      closedir(dd); rmdir((d + sub).c_str());
    }
  }
  rmdir(dir);
  s.ret = text; return s;
}

static void run(Case &c) {
  Tape &t = c.t;
  GenOpt o;
  o.min_tasks = 1; o.max_tasks = 3; o.max_phases = (int[]){1, 2, 3}[t.pick({2, 1, 1})];
  o.max_q = (long[]){2, 4}[t.pick({1, 1})]; o.max_firings = 14; o.extra_edges = 1; o.max_mult = 2; o.max_dur = (long[]){3, 7, 120}[t.pick({2, 2, 1})];
  o.self_loops = t.chance(1, 4); o.all_reent1 = true;
  G g = gen_graph(t, o);
  std::vector<long> q;
  if (!rep_vector(g, q) || firings(g, q) > 30) c.discard("too large");
  if (g.E.empty() || g.E.size() > 4) c.discard("channel count");
  if (!live(g, q)) c.discard("deadlock");
  Rat top; if (exact_throughput(g, q, top) != Mcr::FINITE) c.discard("not finite");
  int what = t.pick({14, 3, 2});
  if (what == 1) {                           // one given distribution, executed symbolically
    std::vector<long> d;
    for (auto &e : g.E) { long b = std::max(1L, e.m); for (long x : e.in) b = std::max(b, x); for (long x : e.out) b = std::max(b, x); d.push_back(b + (long)t.skew(0, 6)); }
    c.label("given distribution"); c.describe(g.str() + "SymbExecDebug SD=" + vec(d));
    Rat x = throughput(g, q, d);
    Rat y = top; c.nontrivial = x < y;
    if (x == Rat(0)) c.label("given distribution deadlocks");
    for (int corr = 0; corr < 2; corr++) {
      Params pa; pa["SD"] = vec(d); if (corr) pa["SYMB_EXEC_CORRECTED"] = "1";
      Sub s = run_algo(g, "SymbExecDebug", pa, 15);
      if (s.kind == Sub::MEM) c.inconclusive(s.how());
      if (s.kind == Sub::CPU) c.fail("hang", "SymbExecDebug exceeded 15 s of CPU");
      if (!s.ok()) c.fail("abort", "SymbExecDebug aborted: " + s.how());
      long double v; c.require(find_number(s.out, "Symbolic Execution Throughput is", v), "noprint", "no throughput: " + s.out);
      if (v < 0) v = 0;
      if (!near(v, x.f())) c.fail("given", "reports " + str(v) + " for the given distribution, exact throughput is " + x.str());
      // widening one of the reported channels is the only way to be faster: all others unbounded does not help
      std::set<std::string> dep; { std::istringstream is(s.out); std::string l; while (std::getline(is, l)) { size_t a = l.find("(name: "); if (a != std::string::npos) dep.insert(l.substr(a + 7, l.rfind(')') - a - 7)); } }
      if (corr) { std::vector<long> w = d; for (size_t i = 0; i < w.size(); i++) if (!dep.count(g.E[i].name)) w[i] = -1;
        Rat z = throughput(g, q, w);
        if (x < z) c.fail("dependency", "with the reported storage dependencies kept and every other channel unbounded the throughput rises from " + x.str() + " to " + z.str() + ": a dependency is missing\n" + s.out); }
    }
    return;
  }
  if (what == 2) {                           // periodic exploration: every announced pair must be achievable
    bool ilp = t.chance(1, 2), strict = t.chance(1, 3); std::string cmd = strict ? "SPeriodicDSE" : "PeriodicDSE";
    c.label(cmd); c.describe(g.str() + cmd + (ilp ? " ILP" : ""));
    Rat k1; std::vector<long> K(g.T.size(), 1);
    auto periodic = [&](const G &h, Rat &x) { return strict ? speriodic_throughput(h, q, false, x) : kperiodic_throughput(h, q, K, x); };
    if (periodic(g, k1) != Mcr::FINITE) c.discard("no periodic schedule");
    for (auto &e : g.E) e.tsize = 1;
    Params pa; if (ilp) pa["ILP"] = "1";
    Sub s = run_algo(g, cmd, pa, 60);
    if (s.kind == Sub::MEM || s.kind == Sub::CPU) c.inconclusive(s.how());
    if (!s.ok()) c.fail("abort", cmd + " aborted: " + s.how());
    std::vector<std::pair<long double, long>> pts; { std::istringstream is(s.out); std::string l; while (std::getline(is, l)) { size_t a = l.find('\t'); if (a != std::string::npos) pts.push_back({strtold(l.c_str(), nullptr), atol(l.c_str() + a)}); } }
    c.require(!pts.empty(), "none", "no trade-off printed: " + s.out);
    long double fastest = pts[0].first;
    // best periodic throughput for a total, by enumeration
    size_t n = g.E.size(); long budget = 4000;
    auto best_for = [&](long S) -> Rat {
      Rat b(0); std::vector<long> d(n);
      std::function<void(size_t, long)> rec = [&](size_t i, long left) {
        if (budget < 0) return;
        if (i + 1 == n) { d[i] = left; if (d[i] < g.E[i].m) return; budget--; G h = bounded(g, d); if (!live(h, q)) return; Rat x; if (periodic(h, x) == Mcr::FINITE && b < x) b = x; return; }
        for (long x = std::max(1L, g.E[i].m); x <= left; x++) { d[i] = x; rec(i + 1, left - x); }
      };
      rec(0, S); return b;
    };
    c.nontrivial = pts.size() >= 2;
    for (size_t i = 0; i < pts.size(); i++) {
      if (i && !(pts[i - 1].second < pts[i].second)) c.fail("order", "sizes not increasing:\n" + s.out);
      // rounding up of the relaxed problem may waste a place, the integer problem may not
      if (ilp && i && !(pts[i].first < pts[i - 1].first)) c.fail("order", "a larger size with a longer period:\n" + s.out);
      fastest = std::min(fastest, pts[i].first);
      if (pts[i].first * k1.f() > 100) continue;   // beyond the solver's integrality tolerance
      Rat b = best_for(pts[i].second);
      if (budget < 0) c.discard("too many distributions");
      if (b.f() * pts[i].first < 1 - 1e-4L) c.fail("unachievable", "no distribution of size " + str(pts[i].second) + " sustains period " + str(pts[i].first) + " (best throughput " + b.str() + ")\n" + s.out);
    }
    // the strictly periodic exploration looks for its fastest point by halving down to steps of at most 2/10000 of the 1-periodic throughput
    Rat p1(0); if (strict && kperiodic_throughput(g, q, K, p1) != Mcr::FINITE) c.discard("no periodic schedule");
    if (strict ? 1 / fastest < k1.f() - 2.02e-4L * p1.f() || fastest * k1.f() < 1 - 1e-4L : fabsl(fastest * k1.f() - 1) > 1e-4L) c.fail("fastest", "fastest announced period is " + str(fastest) + ", the graph can be scheduled with " + (Rat(1) / k1).str() + "\n" + s.out);
    return;
  }
  Front f = front(g, q, top, 3000);
  if (!f.ok) c.discard("too many distributions");
  static const char *names[] = {"kiter", "SYMB_EXEC_CORRECTED", "SYMB_EXEC_ORIGINAL"};
  int mode = t.pick({6, 3, 1});
  // search option: none, a target below the maximum, coarse steps
  int opt = t.pick({6, 2, 1}); 
  bool exact = mode != 2 && opt != 2;
  Rat target = top;
  if (opt == 1) target = t.chance(1, 2) ? f.p[t.draw((uint32_t)f.p.size())].second : top * Rat(1 + (long)t.draw(8), 8);
  c.label(names[mode]);
  c.label("points " + str(std::min<size_t>(f.p.size(), 4)) + (f.p.size() >= 4 ? "+" : ""));
  c.nontrivial = f.p.size() >= 2;
  std::string exp; for (auto &p : f.p) exp += " " + str(p.first) + ":" + p.second.str();
  static const char *onames[] = {"", " THR=", " COARSE=2"};
  std::string target_text; { char b[64]; snprintf(b, sizeof b, "%.17Lg", target.f() * (1 - 1e-12L)); target_text = b; }
  std::string desc = g.str() + "method " + names[mode] + onames[opt] + (opt == 1 ? target_text : "");
  c.describe(desc);
  c.label(opt == 0 ? "full search" : onames[opt] + 1);
  Params pa; if (mode) pa[names[mode]] = "1";
  if (opt == 1) pa["THR"] = target_text;
  if (opt == 2) pa["COARSE"] = "2";
  if (opt == 1 && t.chance(1, 6)) {          // more than the graph can do
    long num = 9 + (long)t.draw(20); pa["THR"] = str((double)(top * Rat(num, 8)).f());
    c.label("target above the maximum"); c.describe(desc + " target raised to " + pa["THR"]); c.nontrivial = true;
    Sub s = explore(g, pa, 20);
    if (s.kind == Sub::MEM) c.inconclusive(s.how());
    if (s.kind == Sub::CPU || !s.ok()) c.fail("abort", "exploration with an unreachable target: " + s.how());
    for (auto &p : parse(s.ret)) if (p.thr > 0) c.fail("unreachable", "points are reported although the target " + pa["THR"] + " is above the maximal throughput " + top.str() + "\n" + s.ret);
    return;
  }
  if (t.chance(1, 5)) {                      // without a log directory the explored distributions are printed
    c.label("printed exploration"); c.describe(desc + " printed");
    Sub s = run_algo(g, "ThroughputBufferingDSE", pa, 20);
    if (s.kind == Sub::MEM) c.inconclusive(s.how());
    if (s.kind == Sub::CPU) c.fail("hang", "exploration exceeded 20 s of CPU");
    if (!s.ok()) c.fail("abort", "exploration aborted: " + s.how());
    size_t a = s.out.find("storage distribution size;throughput;"); c.require(a != std::string::npos, "header", "no table printed: " + s.out);
    auto rows = parse(s.out.substr(a)); std::map<long, long double> best;
    for (auto &p : rows) { if (p.d.empty()) continue;
      if (p.d.size() != g.E.size()) c.fail("format", "row with " + str(p.d.size()) + " channels\n" + s.out);
      if (sum(p.d) != p.size) c.fail("size", "distribution " + vec(p.d) + " printed with size " + str(p.size) + "\n" + s.out);
      Rat x = throughput(g, q, p.d);
      if (!near(x.f(), p.thr, 1e-4L)) c.fail("throughput", "distribution " + vec(p.d) + " printed with throughput " + str(p.thr) + ", it has " + x.str() + "\n" + s.out);
      auto &b = best[p.size]; if (b < p.thr) b = p.thr; }
    if (exact) for (auto &e : f.p) { if (!best.count(e.first) || !near(best[e.first], e.second.f(), 1e-4L)) c.fail(std::string("unexplored:") + names[mode], "Pareto point (" + str(e.first) + ", " + e.second.str() + ") is not among the explored distributions\nexpected front:" + exp + "\n" + s.out); if (target <= e.second) break; }
    return;
  }
  Sub s = explore(g, pa, 20);
  if (s.kind == Sub::MEM) c.inconclusive(s.how());
  if (s.kind == Sub::CPU) c.fail("hang", "exploration exceeded 20 s of CPU");
  if (!s.ok()) c.fail("abort", "exploration aborted: " + s.how());
  auto pts = parse(s.ret);
  std::string got; for (auto &p : pts) got += " " + str(p.size) + ":" + str((double)p.thr) + "(" + vec(p.d) + ")";
  std::string both = "\nexpected front:" + exp + "\nreported:" + got;
  std::map<long, long double> best;
  for (auto &p : pts) {
    if (p.thr == 0 && p.size == 0) continue;
    if (p.d.size() != g.E.size()) c.fail("format", "distribution with " + str(p.d.size()) + " channels" + both);
    if (sum(p.d) != p.size) c.fail("size", "distribution " + vec(p.d) + " announced with size " + str(p.size) + both);
    Rat x = throughput(g, q, p.d);
    if (!near(x.f(), p.thr, 1e-4L)) c.fail("throughput", "distribution " + vec(p.d) + " announced with throughput " + str(p.thr) + ", it has " + x.str() + both);
    auto it = best.find(p.size); if (it == best.end() || it->second < p.thr) best[p.size] = p.thr;
  }
  if (!exact) return;
  bool reached = false;                     // every point up to the first one that meets the target
  for (auto &e : f.p) { if (reached) break; reached = target <= e.second; if (!best.count(e.first) || !near(best[e.first], e.second.f(), 1e-4L)) c.fail(std::string("missing:") + names[mode], "Pareto point (" + str(e.first) + ", " + e.second.str() + ") is not reported" + both); if (reached && opt == 1) for (auto &p : pts) if (p.size > e.first) c.fail(std::string("beyond:") + names[mode], "the requested throughput is reached with size " + str(e.first) + " but the exploration went on to " + str(p.size) + both); }
  for (auto &p : pts) if (p.thr > 0) { bool on = false; for (auto &e : f.p) on |= e.first == p.size && near(p.thr, e.second.f(), 1e-4L); if (!on) c.fail(std::string("dominated:") + names[mode], "reported point (" + str(p.size) + ", " + str(p.thr) + ") is not Pareto-optimal" + both); }
}
static Reg reg({"P15",
  "random live (C)SDF graphs of at most 3 tasks and 4 channels whose storage distributions can be enumerated, explored with the K-periodic and both symbolic-execution methods (full, with a target, with an unreachable target, coarse; points read from the log files or from the printed table), plus single given distributions executed symbolically and the periodic exploration; non-trivial = the exact front has at least two points",
  35000, 250000, 90, true, {"reference front: every distribution of every total enumerated and its exact throughput computed on the bounded graph", "the SYMB_EXEC_ORIGINAL and COARSE modes are only required to announce true sizes and throughputs (incomplete by design)", "periodic exploration: announced pairs up to 100 times the fastest period"}, run});
