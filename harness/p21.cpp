// P21 throughput laws: metamorphic relations on graphs too large for the enumeration oracles
#include "graph.h"
#include <models/Dataflow.h>
#include <models/repetition_vector.h>
#include <algorithm>
#include <numeric>
using namespace vh;
namespace {
struct M { const char *algo, *key; };
const M methods[] = {{"KPeriodicThroughput", "KPeriodic Throughput is"}, {"1PeriodicThroughput", "1Periodic throughput is"}, {"SPeriodicThroughput", "SPeriodic throughput is"}, {"SymbExec", "Symbolic Execution Throughput is"}};
// value, or 0 when the method reports no schedule
long double ask(Case &c, const G &g, const M &m, const char *what) {
  Sub s = run_algo(g, m.algo, {}, 20);
  if (s.kind == Sub::CPU || s.kind == Sub::MEM) c.inconclusive(std::string(m.algo) + " " + s.how());
  if (!s.ok()) c.fail("abort", std::string(m.algo) + " aborted on the " + what + " graph: " + s.how());
  long double v; if (!find_number(s.out, m.key, v)) c.fail("noprint", std::string(m.algo) + " reports nothing on the " + what + " graph: " + s.out.substr(0, 300));
  return std::isfinite((double)v) && v > 1e-12L ? v : 0;
}
G permuted(Tape &t, const G &g) {
  G o; std::vector<int> p, pos; for (int i = 0; i < (int)g.T.size(); i++) p.push_back(i);
  for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[t.draw((uint32_t)i)]);
  pos.resize(p.size()); for (size_t i = 0; i < p.size(); i++) { pos[(size_t)p[i]] = (int)i; o.T.push_back(g.T[(size_t)p[i]]); o.T.back().name = (t.chance(1, 2) ? "a" : "zz") + str(g.T.size() - i); }
  std::vector<GEdge> e = g.E; for (size_t i = e.size(); i > 1; i--) std::swap(e[i - 1], e[t.draw((uint32_t)i)]);
  for (size_t i = 0; i < e.size(); i++) { e[i].s = pos[(size_t)e[i].s]; e[i].t = pos[(size_t)e[i].t]; e[i].name = "c" + str((i * 7) % 1000) + "_" + str(i); o.E.push_back(e[i]); }
  return o;
}
GenOpt opts(Tape &t, int size) {
  GenOpt o; o.wide = true; o.min_tasks = size == 0 ? 1 : 3; o.max_tasks = (int[]){5, 10, 20}[size]; o.max_phases = (int[]){1, 3}[t.pick({2, 3})]; o.max_q = (long[]){4, 8, 12}[size];
  o.max_firings = (long[]){40, 120, 300}[size]; o.extra_edges = (int[]){4, 8, 12}[size]; o.strong = t.chance(1, 3); o.max_dur = (long[]){9, 1, 60}[t.pick({5, 1, 2})]; o.reent0 = t.chance(1, 6); return o;
}
}
static void run(Case &c) {
  Tape &t = c.t; int size = t.pick({4, 4, 1}); G g = gen_graph(t, opts(t, size)); std::vector<long> q;
  if (!rep_vector(g, q) || !live(g, q)) c.discard("not live");
  bool r1 = true; for (auto &k : g.T) r1 &= k.reent == 1;
  if (!r1) { bool bounded = false; for (auto &k : g.T) bounded |= k.reent == 1; if (!bounded) c.discard("possibly unbounded"); }
  int mi = t.pick({5, 2, 2, 2}); if (mi == 3 && (!r1 || size == 2)) mi = 0; const M &m = methods[mi];
  int law = t.pick({3, 1, 2, 3, 2, 2, 2, 2}); G h = g; long double f = 1; int cmp = 0; std::string what;   // expect thr(h) = f*thr(g), or >= (1), <= (-1)
  auto pickE = [&]() -> GEdge & { return h.E[t.draw((uint32_t)h.E.size())]; };
  if (law >= 2 && law <= 3 && g.E.empty()) law = 0;
  switch (law) {
    case 0: h = permuted(t, g); what = "tasks and channels renamed and reordered"; break;
    case 1: { long k = t.range(2, 7); for (auto &x : h.T) for (auto &d : x.dur) d *= k; f = 1.0L / (long double)k; what = "durations times " + str(k); break; }
    case 2: { int n = (int)t.range(1, 3); for (int i = 0; i < n; i++) { GEdge &e = pickE(); long k = t.range(2, 5); for (auto *v : {&e.in, &e.out}) for (auto &x : *v) x *= k; e.m = e.m * k + (long)t.draw((uint32_t)k); what += "rates and tokens of " + e.name + " times " + str(k) + ", "; } break; }
    case 3: { int n = (int)t.range(1, 3); for (int i = 0; i < n; i++) { GEdge &e = pickE(); long k = t.range(1, std::max<long>(1, 2 * sum(e.out))); e.m += k; what += str(k) + " more tokens on " + e.name + ", "; } cmp = 1; break; }
    case 4: { int i = (int)t.draw((uint32_t)h.T.size()); auto &k = h.T[(size_t)i]; if (k.reent) for (auto &d : k.dur) d = 1 + (long)t.draw((uint32_t)d); else { long d = 1 + (long)t.draw((uint32_t)k.dur[0]); for (auto &x : k.dur) x = d; } cmp = 1; what = "shorter " + k.name; break; }
    case 5: {
      int s = (int)t.draw((uint32_t)h.T.size()), d = (int)t.draw((uint32_t)h.T.size()); auto comp = components(g); if (comp[(size_t)s] != comp[(size_t)d]) d = s;
      GEdge e; e.s = s; e.t = d; e.name = "extra"; long gg = std::gcd(q[(size_t)s], q[(size_t)d]), k = t.range(1, 3);
      auto split = [&](long total, size_t n) { std::vector<long> v(n, 0); for (size_t i = 0; i + 1 < n; i++) { v[i] = (long)t.draw((uint32_t)total + 1); total -= v[i]; } v[n - 1] = total; return v; };
      e.in = split(k * q[(size_t)d] / gg, h.T[(size_t)s].dur.size()); e.out = split(k * q[(size_t)s] / gg, h.T[(size_t)d].dur.size()); e.m = (long)t.skew(0, 3 * sum(e.out)); e.tsize = 1;
      h.E.push_back(e); if (!live(h, q)) { h.E.back().m += sum(e.out) * q[(size_t)d]; if (!live(h, q)) c.discard("extra channel deadlocks"); }
      cmp = -1; what = "channel added " + g.T[(size_t)s].name + " -> " + g.T[(size_t)d].name; break; }
    case 6: {
      long k = t.range(2, 3); for (auto &x : h.T) { auto d = x.dur; for (long i = 1; i < k; i++) x.dur.insert(x.dur.end(), d.begin(), d.end()); }
      for (auto &e : h.E) for (auto *v : {&e.in, &e.out}) { auto d = *v; for (long i = 1; i < k; i++) v->insert(v->end(), d.begin(), d.end()); }
      if (mi == 1 || mi == 2) mi = 0;
      for (int i = 0; i < (int)g.T.size(); i++) { bool on = false; for (auto &e : g.E) on |= e.s == i || e.t == i; if (!on) c.discard("task without channel"); }   // known finding P01#isolated-multiphase
      f = 1.0L / (long double)k; what = "phases of every task written " + str(k) + " times"; break; }
    case 7: {
      G g2 = gen_graph(t, opts(t, 0)); std::vector<long> q2; if (!rep_vector(g2, q2) || !live(g2, q2)) c.discard("not live"); bool b2 = false; for (auto &k : g2.T) b2 |= k.reent == 1; if (!b2) c.discard("possibly unbounded");
      if (mi != 0) mi = 0;
      int off = (int)h.T.size(); for (auto &k : g2.T) { h.T.push_back(k); h.T.back().name = "u_" + k.name; } for (auto &e : g2.E) { h.E.push_back(e); auto &x = h.E.back(); x.s += off; x.t += off; x.name = "u_" + e.name; }
      what = "disjoint union"; c.describe(what + " of\n" + g.str() + "and\n" + g2.str());
      long double a = ask(c, g, methods[0], "first"), b = ask(c, g2, methods[0], "second"), u = ask(c, h, methods[0], "joined"); c.label("law: " + what); c.nontrivial = g.T.size() >= 2 && g2.T.size() >= 2;
      // the vector of a disconnected graph may scale its components: compare firings per unit of time
      Sub s = isolate([&]() -> std::string { auto *df = build(h); if (!computeRepetitionVector(df)) return "0 0"; Vertex x = df->getVertexByName(h.T[0].name), y = df->getVertexByName(h.T[(size_t)off].name); return str(df->getNi(x)) + " " + str(df->getNi(y)); }, 10);
      long n1 = 0, n2 = 0; if (!s.ok() || sscanf(s.ret.c_str(), "%ld %ld", &n1, &n2) != 2 || n1 <= 0 || n2 <= 0) c.fail("union-vector", "no repetition vector for the union: " + s.how());
      long double s1 = (long double)n1 / (long double)(q[0] * g.phases(0)), s2 = (long double)n2 / (long double)(q2[0] * g2.phases(0));
      if (!near(u, std::min(a / s1, b / s2), 2e-6L)) c.fail("union", "throughput of the union is " + str(u) + ", of its parts " + str(a) + " and " + str(b) + ", which iterate " + str(s1) + " and " + str(s2) + " times"); return; }
  }
  const M &mm = methods[mi]; (void)m;
  c.describe(std::string(mm.algo) + ": " + what + "\n" + g.str() + (law == 0 ? "reordered\n" + h.str() : law == 3 || law == 4 || law == 5 ? "changed\n" + h.str() : ""));
  static const char *lname[] = {"renamed and reordered", "durations scaled", "rates scaled", "more tokens", "shorter task", "channel added", "phases repeated", "union"};
  c.label(std::string("law: ") + lname[law]); c.label(mm.algo); if (g.T.size() > 6 || firings(g, q) > 80) c.label("large");
  c.nontrivial = g.T.size() >= 3;
  long double a = ask(c, g, mm, "original"), b = ask(c, h, mm, "changed");
  if (a == 0 && b == 0) { c.label("no schedule before and after"); c.nontrivial = false; }
  long double want = a * f, tol = 2e-6L * want;
  bool ok = cmp == 0 ? fabsl(b - want) <= tol : cmp > 0 ? b >= want - tol : b <= want + tol;
  if (!ok && cmp < 0 && a == 0) return;     // the restricted class found nothing before; nothing is claimed
  if (!ok) c.fail(std::string("law-") + str(law), std::string(mm.algo) + " reports " + str(a) + " then " + str(b) + (cmp == 0 ? ", expected " + str(want) : cmp > 0 ? ", which is lower" : ", which is higher") + " (" + what + ")");
}
static Reg reg({"P21",
  "random live SDF/CSDF graphs of up to 20 tasks and 300 firings per iteration and one change each (renaming/reordering, scaling durations, scaling a channel, adding tokens, shortening, adding a channel, repeating phases, disjoint union), for KPeriodic, 1Periodic, SPeriodic throughput and symbolic execution; non-trivial = at least 3 tasks and some schedule exists",
  40000, 800000, 90, true, {"reentrancy 1 or unlimited with constant durations, at least one task of reentrancy 1", "positive durations"}, run});
