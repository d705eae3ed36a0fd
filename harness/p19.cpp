// P19 random generator: invariants of every generated graph, reproducibility
#include "graph.h"
#include <models/Dataflow.h>
#include <generators/RandomGenerator.h>
using namespace vh;
static std::string dead(const G &g) {
  std::vector<long> q; if (!rep_vector(g, q)) return "inconsistent";
  if (firings(g, q) > 20000) return "";
  G st; if (!steady(g, st)) return "the graph stops during its initial phases";
  return live(st, q) ? "" : "the graph deadlocks";
}
static void run(Case &c) {
  Tape &t = c.t; RandomGeneratorConfiguration f; bool big = t.chance(1, 12);
  f.no_self_loop = !t.chance(1, 3); f.no_reentrancy = t.chance(1, 4);
  f.min_vertices_count = t.range(f.no_self_loop ? 2 : 1, big ? 14 : 6); f.max_vertices_count = f.min_vertices_count + t.draw(3);
  f.min_edges_count = 1 + t.draw(big ? 20 : 9); f.max_edges_count = f.min_edges_count + t.draw(4);
  f.max_weight = t.range(1, big ? 6 : 8); f.max_duration = (TIME_UNIT)t.skew(1, 50); if (t.chance(1, 6)) f.max_duration += 0.5L;
  f.max_phase_quantity = (PHASE_INDEX)t.range(1, 3); f.max_init_phase_quantity = (PHASE_INDEX)(t.chance(1, 3) ? t.range(1, 3) : 0);
  int seed = t.chance(1, 5) ? (int)t.draw(1u << 31) : (int)t.draw(1000);
  bool cli = t.chance(1, 3); if (cli) f.no_self_loop = true, f.no_reentrancy = false, f.min_vertices_count = std::max<ARRAY_INDEX>(2, f.min_vertices_count), f.max_vertices_count = std::max(f.max_vertices_count, f.min_vertices_count);
  bool other = t.chance(1, 3); int seed2 = (int)t.draw(1000);
  std::string d = std::string(cli ? "GenerateRandomSDF" : "RandomGenerator") + " seed=" + str(seed) + " vertices=" + str(f.min_vertices_count) + ".." + str(f.max_vertices_count) + " edges=" + str(f.min_edges_count) + ".." + str(f.max_edges_count) + " max_weight=" + str(f.max_weight) + " max_duration=" + str(f.max_duration) + " max_phases=" + str(f.max_phase_quantity) + " max_init_phases=" + str(f.max_init_phase_quantity) + (f.no_self_loop ? " no_self_loop" : "") + (f.no_reentrancy ? " no_reentrancy" : "") + (other ? " (after another generation with seed " + str(seed2) + ")" : "");
  c.describe(d + "\n"); c.label(cli ? "cli" : "direct"); c.label(f.max_phase_quantity > 1 ? "csdf" : "sdf"); if (f.max_init_phase_quantity) c.label("initial phases"); if (f.no_reentrancy) c.label("no reentrancy");
  auto gen = [&](bool first) { return isolate([&]() -> std::string {
    models::Dataflow *df;
    if (first && other) { RandomGenerator r(f); r.generate(seed2); }
    if (cli) {
      Params p = {{"min_vertices_count", str(f.min_vertices_count)}, {"max_vertices_count", str(f.max_vertices_count)}, {"min_edges_count", str(f.min_edges_count)}, {"max_edges_count", str(f.max_edges_count)}, {"max_weight", str(f.max_weight)}, {"max_duration", str(f.max_duration)}, {"max_phase_quantity", str(f.max_phase_quantity)}, {"max_init_phase_quantity", str(f.max_init_phase_quantity)}, {"seed", str(seed)}};
      df = generators::generate_random_sdf(p);
    } else { RandomGenerator r(f); df = r.generate(seed); }
    return ser(read_back(df));
  }, 15); };
  Sub a = gen(true); if (a.kind == Sub::CPU || a.kind == Sub::MEM) c.inconclusive("generation " + a.how());
  if (!a.ok()) c.fail("abort", a.how());
  Sub b = gen(false); if (!b.ok()) c.inconclusive("second generation " + b.how());
  G g = deser(a.ret); c.nontrivial = g.T.size() >= 2 && g.E.size() >= 2;
  if (a.ret != b.ret) c.fail("reproducible", "two generations differ:\n" + canon(g) + "---\n" + canon(deser(b.ret)));
  auto in = [&](long x, long lo, long hi) { return lo <= x && x <= hi; };
  if (!in((long)g.T.size(), f.min_vertices_count, f.max_vertices_count)) c.fail("tasks", str(g.T.size()) + " tasks\n" + canon(g));
  if (!in((long)g.E.size(), f.min_edges_count, f.max_edges_count)) c.fail("channels", str(g.E.size()) + " channels\n" + canon(g));
  for (auto &k : g.T) {
    if (!in((long)k.dur.size(), 1, f.max_phase_quantity) || !in((long)k.idur.size(), 0, f.max_init_phase_quantity)) c.fail("phases", "phases of " + k.name + "\n" + canon(g));
    for (auto *v : {&k.dur, &k.idur}) for (long x : *v) if (!in(x, 1, (long)f.max_duration)) c.fail("duration", "duration " + str(x) + " of " + k.name + "\n" + canon(g));
    if ((k.reent == 0) != f.no_reentrancy) c.fail("reentrancy", "reentrancy " + str(k.reent) + " of " + k.name);
  }
  for (auto &e : g.E) {
    if (f.no_self_loop && e.s == e.t) c.fail("self-loop", e.name + "\n" + canon(g));
    if (e.m < 0) c.fail("tokens", e.name + "\n" + canon(g));
    if (e.in.size() != g.T[(size_t)e.s].dur.size() || e.out.size() != g.T[(size_t)e.t].dur.size() || e.iin.size() != g.T[(size_t)e.s].idur.size() || e.iout.size() != g.T[(size_t)e.t].idur.size()) c.fail("rate-vectors", e.name + "\n" + canon(g));
    for (auto *v : {&e.in, &e.out, &e.iin, &e.iout}) { for (long x : *v) if (x < 0) c.fail("rates", e.name + "\n" + canon(g)); if (sum(*v) > f.max_weight) c.fail("weight", "total rate of " + e.name + " above the maximum\n" + canon(g)); }
    if (sum(e.in) < 1 || sum(e.out) < 1) c.fail("weight", "null total rate on " + e.name);
  }
  std::vector<long> q; if (!rep_vector(g, q)) c.fail("inconsistent", canon(g));
  if (firings(g, q) > 20000) { c.label("liveness not checked (large)"); return; }
  if (f.max_init_phase_quantity) return;   // liveness with initial phases: see the probe
  std::string w = dead(g); if (w.size()) c.fail("deadlock", w + ":\n" + canon(g));
}
static void probe_init(Case &c) {
  RandomGeneratorConfiguration f; f.no_self_loop = true; f.no_reentrancy = false; f.min_vertices_count = 5; f.max_vertices_count = 6; f.min_edges_count = 9; f.max_edges_count = 12;
  f.max_weight = 6; f.max_duration = 2; f.max_phase_quantity = 2; f.max_init_phase_quantity = 2;
  c.describe("RandomGenerator seed=825 vertices=5..6 edges=9..12 max_weight=6 max_duration=2 max_phases=2 max_init_phases=2 no_self_loop\n");
  Sub a = isolate([&]() -> std::string { RandomGenerator r(f); return ser(read_back(r.generate(825))); }, 15);
  if (a.ok()) { std::string w = dead(deser(a.ret)); if (w.size()) c.fail("init-deadlock", w); }
}
static Reg reg({"P19",
  "random generator configurations (1..16 tasks, 1..24 channels, weights to 8, durations to 50, up to 3 phases and 3 initial phases, options) and seeds, through the class and through the generator interface, also after another generation; non-trivial = at least 2 tasks and 2 channels generated",
  30000, 500000, 40, true, {"admissible configurations: minima not above maxima, limits at least 1, more than one task when self-loops are forbidden", "liveness is decided by untimed execution, for configurations without initial phases"}, run, {{"init-deadlock", probe_init}}});
