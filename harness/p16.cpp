// P16 graph transformations: reference transformations on the specification
#include "graph.h"
#include <models/Dataflow.h>
#include <commons/verbose.h>
#include <algorithm>
#include <numeric>
using namespace vh;

static Sub transform(const G &g, const std::string &al, const std::function<Params(models::Dataflow *)> &p) {
  return isolate([&]() -> std::string { auto *df = build(g); for (auto &e : g.E) df->setTokenSize(df->getEdgeByName(e.name), e.tsize); call_algo(df, al, p(df)); return ser(read_back(df)); }, 20);
}
static int find_task(const G &g, const std::string &n) { for (size_t i = 0; i < g.T.size(); i++) if (g.T[i].name == n) return (int)i; return -1; }
static std::vector<int> subset(Tape &t, int n, int atleast) {
  std::vector<int> r; for (int i = 0; i < n; i++) if (t.chance(2, 5)) r.push_back(i);
  for (int i = 0; (int)r.size() < atleast && i < n; i++) if (std::find(r.begin(), r.end(), i) == r.end()) r.push_back(i);
  return r;
}
static void single(Case &c, G &g) {
  Tape &t = c.t; int v = (int)t.draw((uint32_t)g.T.size());
  long outs = 0; for (auto &e : g.E) if (e.s == v) outs++;
  c.describe(g.str() + "SingleOutput name=" + g.T[(size_t)v].name + "\n"); c.label("SingleOutput"); c.label("outputs " + str(outs)); c.nontrivial = outs >= 2;
  Sub s = transform(g, "SingleOutput", [&](models::Dataflow *) { return Params{{"name", g.T[(size_t)v].name}}; });
  if (!s.ok()) c.fail("single-abort", s.how());
  G r = deser(s.ret);
  // everything that is not an output of the task
  G a = g, b; a.E.clear(); for (auto &e : g.E) if (e.s != v || outs < 2) a.E.push_back(e);
  std::map<std::string, int> keep; for (auto &k : g.T) keep[k.name] = 1;
  std::vector<int> nid(r.T.size(), -1);
  for (size_t i = 0; i < r.T.size(); i++) if (keep.count(r.T[i].name)) { nid[i] = (int)b.T.size(); b.T.push_back(r.T[i]); }
  int rv = find_task(r, g.T[(size_t)v].name); if (rv < 0) c.fail("single-lost", "the task disappeared");
  std::vector<GEdge> outE;
  for (auto &e : r.E) { if (nid[(size_t)e.s] < 0 || (e.s == rv && outs >= 2)) continue; if (nid[(size_t)e.t] < 0) c.fail("single-stray", "channel " + e.name + " now feeds a new task"); GEdge x = e; x.s = nid[(size_t)e.s]; x.t = nid[(size_t)e.t]; b.E.push_back(x); }
  if (canon(a) != canon(b)) c.fail("single-changed", "other tasks or channels changed:\n" + canon(b));
  long ro = 0; for (auto &e : r.E) if (e.s == rv) ro++;
  if (ro != std::min(outs, 1L)) c.fail("single-degree", "the task has " + str(ro) + " outputs");
  if (outs < 2) return;
  std::multiset<std::pair<std::string, long>> want, got; for (auto &e : g.E) if (e.s == v) want.insert({g.T[(size_t)e.t].name, e.m});
  std::function<void(int, long, int)> walk = [&](int u, long m, int depth) {
    if (depth > (int)r.T.size()) c.fail("single-loop", "the new tasks form a circuit");
    for (auto &e : r.E) if (e.s == u) { if (e.in != std::vector<long>{1} || e.out != std::vector<long>{1}) c.fail("single-rates", "rates of " + e.name); if (nid[(size_t)e.t] < 0) walk(e.t, m + e.m, depth + 1); else got.insert({r.T[(size_t)e.t].name, m + e.m}); }
  };
  walk(rv, 0, 0);
  if (want != got) { std::string w = "readers (with the tokens on the way) were"; for (auto &x : want) w += " " + x.first + "/" + str(x.second); w += " and are"; for (auto &x : got) w += " " + x.first + "/" + str(x.second); c.fail("single-readers", w); }
}
static void merge(Case &c, G &g) {
  Tape &t = c.t; std::vector<int> sel = subset(t, (int)g.T.size(), t.chance(4, 5) ? 2 : 1);
  // order of the list is free
  for (size_t i = sel.size(); i > 1; i--) std::swap(sel[i - 1], sel[t.draw((uint32_t)i)]);
  std::string names; for (int i : sel) names += " " + g.T[(size_t)i].name;
  c.describe(g.str() + "Merge" + names + "\n"); c.label("Merge"); c.label("merged " + str(sel.size()));
  std::vector<long> q; if (!rep_vector(g, q)) c.discard("inconsistent");
  Rat thr; if (exact_throughput(g, q, thr) != Mcr::FINITE) c.discard("unbounded");
  c.nontrivial = sel.size() >= 2;
  Sub s = transform(g, "Merge", [&](models::Dataflow *df) { std::string ids; for (int i : sel) ids += (ids.empty() ? "" : ",") + str(df->getVertexId(df->getVertexByName(g.T[(size_t)i].name))); return Params{{"tasks", ids}, {"name", "merged"}}; });
  if (s.kind == Sub::CPU || s.kind == Sub::MEM) c.inconclusive("merge " + s.how());
  if (!s.ok()) c.fail("merge-abort", s.how());
  G r = deser(s.ret);
  std::vector<bool> in(g.T.size()); for (int i : sel) in[(size_t)i] = true;
  int mv = find_task(r, "merged"); if (mv < 0) c.fail("merge-missing", "no merged task");
  if (r.T[(size_t)mv].reent != 1) c.fail("merge-reentrancy", "the merged task may run concurrently with itself");
  // untouched part
  G a, b; std::vector<int> na(g.T.size(), -1), nb(r.T.size(), -1);
  for (size_t i = 0; i < g.T.size(); i++) if (!in[i]) { na[i] = (int)a.T.size(); a.T.push_back(g.T[i]); }
  for (size_t i = 0; i < r.T.size(); i++) if ((int)i != mv) { nb[i] = (int)b.T.size(); b.T.push_back(r.T[i]); }
  std::map<std::string, const GEdge *> bound, rb;
  for (auto &e : g.E) { bool x = in[(size_t)e.s], y = in[(size_t)e.t]; if (x && y) continue; if (x || y) bound[e.name] = &e; else { GEdge z = e; z.s = na[(size_t)e.s]; z.t = na[(size_t)e.t]; a.E.push_back(z); } }
  for (auto &e : r.E) { bool x = e.s == mv, y = e.t == mv; if (x && y) c.fail("merge-internal", "internal channel " + e.name + " remains"); if (x || y) rb[e.name] = &e; else { GEdge z = e; z.s = nb[(size_t)e.s]; z.t = nb[(size_t)e.t]; b.E.push_back(z); } }
  if (canon(a) != canon(b)) c.fail("merge-changed", "tasks or channels outside changed:\n" + canon(b));
  if (bound.size() != rb.size()) c.fail("merge-boundary", "there were " + str(bound.size()) + " boundary channels, " + str(rb.size()) + " remain");
  // boundary: same partner, tokens, and the sequence of rates is that of the successive firings
  const GTask &mt = r.T[(size_t)mv]; size_t ni = mt.idur.size(), np = mt.dur.size();
  if (np == 0) c.fail("merge-empty", "no periodic phase");
  for (auto &kv : bound) {
    if (!rb.count(kv.first)) c.fail("merge-boundary", "channel " + kv.first + " lost");
    const GEdge &o = *kv.second, &n = *rb[kv.first]; bool src = in[(size_t)o.s];
    const std::string &po = g.T[(size_t)(src ? o.t : o.s)].name, &pn = r.T[(size_t)(src ? n.t : n.s)].name;
    if ((n.s == mv) != src || po != pn || o.m != n.m || o.tsize != n.tsize) c.fail("merge-channel", "channel " + kv.first + " changed its ends, tokens or token size");
    if ((src ? o.out : o.in) != (src ? n.out : n.in)) c.fail("merge-far-rates", "rates of the other side of " + kv.first);
    auto &pi = src ? n.iin : n.iout; auto &pp = src ? n.in : n.out;
    if (pi.size() != ni || pp.size() != np) c.fail("merge-phases", "phases of " + kv.first);
    auto &old = src ? o.in : o.out; bool pos = std::find(old.begin(), old.end(), 0L) == old.end();
    if (pos) { // successive non-null rates over several periods must follow the original phases
      size_t k = 0; for (size_t i = 0; i < ni + 6 * np; i++) { long x = i < ni ? pi[i] : pp[(i - ni) % np]; if (x == 0) continue; if (x != old[k % old.size()]) c.fail("merge-sequence", "channel " + kv.first + " moves " + str(x) + " tokens at firing " + str(k) + " of its task instead of " + str(old[k % old.size()])); k++; }
    }
  }
  std::vector<long> rq; if (!rep_vector(r, rq)) c.fail("merge-inconsistent", "the merged graph is inconsistent:\n" + canon(r));
  // workload is preserved: one merged period executes whole iterations of its tasks
  std::vector<long> one(g.T.size());
  G st; if (!steady(r, st)) c.fail("merge-deadlock", "the merged graph deadlocks during its initial phases:\n" + canon(r));
  if (!live(st, rq)) c.fail("merge-deadlock", "the merged graph deadlocks:\n" + canon(r));
  if (firings(st, rq) > 400) { c.label("merged graph large"); return; }
  Rat rt; Mcr k = exact_throughput(st, rq, rt); if (k != Mcr::FINITE) c.fail("merge-unbounded", "the merged graph has no finite throughput");
  // iterations of the merged graph may cover several original ones: compare through total work
  Rat ratio; bool have = false;
  for (size_t i = 0; i < g.T.size() && !have; i++) if (!in[i]) { int j = find_task(r, g.T[i].name); ratio = Rat(rq[(size_t)j], q[i]); have = true; }
  Rat work, rwork; for (int i : sel) work = work + Rat(q[(size_t)i]) * Rat(sum(g.T[(size_t)i].dur)); rwork = Rat(rq[(size_t)mv]) * Rat(sum(mt.dur));
  if (!have) { ratio = rwork / work; c.label("everything merged"); }
  else if (connected(g) && connected(r) && !(rwork == ratio * work)) c.fail("merge-work", "the merged task works " + rwork.str() + " per iteration, its tasks " + (ratio * work).str());
  if (connected(g) && connected(r) && thr < rt * ratio) c.fail("merge-faster", "the merged graph reaches " + (rt * ratio).str() + " original iterations per time unit, the original " + thr.str());
  c.label(rt * ratio == thr ? "same throughput" : "slower");
}
static void run(Case &c) {
  Tape &t = c.t;
  int what = t.pick({2, 2, 3, 6});
  GenOpt o; o.max_tasks = 6; o.max_phases = 3; o.disconnected = true; o.make_live = false; o.reent0 = true; o.zero_durations = true;
  if (what == 2) { o.max_phases = 1; o.max_q = 1; o.max_mult = 1; }
  if (what == 3) { o = GenOpt(); o.min_tasks = 2; o.max_tasks = 5; o.max_phases = 2; o.max_q = 3; o.max_firings = 24; o.all_reent1 = true; o.self_loops = true; }
  G g = gen_graph(t, o);
  for (auto &e : g.E) if (t.chance(1, 3)) e.tsize = 1 + (long)t.draw(9);
  if (what == 3) return merge(c, g);
  if (what == 2) { for (auto &e : g.E) { e.in = {1}; e.out = {1}; if (t.chance(1, 2)) e.m = (long)t.draw(4); } return single(c, g); }
  std::string al = what == 0 ? "RemoveReentrancy" : "remove"; c.label(al);
  int mode = (int)t.draw(what == 0 ? 3 : 3); // 0 names, 1 ids, 2 none (reentrancy: all) / both lists (remove)
  std::vector<int> sel = subset(t, (int)g.T.size(), 1), s2;
  for (size_t i = sel.size(); i > 1; i--) std::swap(sel[i - 1], sel[t.draw((uint32_t)i)]);
  if (mode == 2) { if (what == 0) { sel.clear(); for (size_t i = 0; i < g.T.size(); i++) sel.push_back((int)i); } else { size_t h = sel.size() / 2; s2.assign(sel.begin() + (long)h, sel.end()); sel.resize(h); if (sel.empty()) mode = 1, sel = s2, s2.clear(); } }
  bool spaces = false; (void)spaces;
  std::vector<bool> in(g.T.size()); for (int i : sel) in[(size_t)i] = true; for (int i : s2) in[(size_t)i] = true;
  std::string d = al + (mode == 0 ? " by name" : mode == 1 ? " by id" : what == 0 ? " all" : " by name and id"); for (size_t i = 0; i < in.size(); i++) if (in[i]) d += " " + g.T[i].name;
  c.describe(g.str() + d + "\n"); c.nontrivial = g.T.size() >= 2 && g.E.size() >= 1;
  Sub s = transform(g, al, [&](models::Dataflow *df) {
    Params p; std::string n, i1;
    for (int i : sel) { n += (n.empty() ? "" : ",") + g.T[(size_t)i].name; }
    for (int i : (what == 1 && mode == 2 ? s2 : sel)) i1 += (i1.empty() ? "" : ",") + str(df->getVertexId(df->getVertexByName(g.T[(size_t)i].name)));
    if (what == 0) { if (mode == 0) p["taskname"] = n; if (mode == 1) p["taskid"] = i1; }
    else { if (mode != 1) p["taskname"] = n; if (mode != 0) p["taskid"] = i1; }
    return p; });
  if (!s.ok()) c.fail("abort", al + ": " + s.how());
  G r = deser(s.ret), w;
  if (what == 0) { w = g; for (size_t i = 0; i < in.size(); i++) if (in[i]) w.T[i].reent = 0; }
  else {
    std::vector<int> id(g.T.size(), -1); for (size_t i = 0; i < in.size(); i++) if (!in[i]) { id[i] = (int)w.T.size(); w.T.push_back(g.T[i]); }
    for (auto e : g.E) if (!in[(size_t)e.s] && !in[(size_t)e.t]) { e.s = id[(size_t)e.s]; e.t = id[(size_t)e.t]; w.E.push_back(e); }
  }
  if (canon(r) != canon(w)) c.fail("result", al + " gives\n" + canon(r) + "instead of\n" + canon(w));
}
static Reg reg({"P16",
  "random (C)SDF graphs with one transformation and random parameters: reentrancy and task removal by name, id, both or all; single output of a random task of an HSDF graph; merging of a random set of tasks; non-trivial = at least two tasks and a channel (removals), at least two outputs (single output), at least two merged tasks",
  80000, 2000000, 30, true, {"single output is stated for graphs whose rates are all 1 (a duplicator has no other rates)", "merging: positive durations, tasks without initial phases"}, run});
