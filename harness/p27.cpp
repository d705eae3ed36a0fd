// P27 time-division schedules of packet traces: dependencies, slots, exclusivity, distance, earliest choice
#include "graph.h"
#include <models/Dataflow.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace vh;

struct Pk { long src, dst, dur; std::vector<long> deps; };
static void run(Case &c) {
  Tape &t = c.t; bool full = t.chance(1, 4);   // full = from a graph: trace, then schedule
  long rows = full ? 4 : t.range(1, 4), cols = full ? 4 : t.range(1, 4), n = rows * cols, T = t.range(1, 18);
  std::vector<Pk> P; std::string pkt, d; long per;
  if (full) {
    GenOpt o; o.max_tasks = 6; o.max_phases = 1; o.max_firings = 24; G g = gen_graph(t, o); std::vector<long> q; if (!rep_vector(g, q) || !live(g, q)) c.discard("dead");
    Params p; long it = t.range(1, 3), ps = (long)t.draw(4); p["iteration"] = str(it); p["psize"] = str(ps);
    Sub s = run_algo(g, "SymbolicExecutionWP", p, 10); if (!s.ok()) c.discard("no trace (see P26)"); pkt = s.out; d = g.str() + "trace with psize=" + str(ps) + " iteration=" + str(it) + "\n";
    std::istringstream in(pkt); std::string l; bool head = false;
    while (std::getline(in, l)) {
      if (l.empty() || l[0] == '#') continue; if (!head) { head = true; continue; }
      std::vector<long> v; std::istringstream x(l); std::string w; while (std::getline(x, w, ',')) v.push_back(std::atol(w.c_str())); if (v.size() < 5) c.discard("no trace (see P26)");
      P.push_back({v[0], v[1], v[2], std::vector<long>(v.begin() + 5, v.end())});
    }
    if (P.empty() || P.size() > 400) c.discard("trace length"); per = (long)P.size() % it == 0 ? (long)P.size() / it : (long)P.size();
  } else {
    long m = t.range(1, 16), tasks = t.range(1, n); bool tight = t.chance(1, 2);
    for (long i = 0; i < m; i++) { Pk k; k.src = (long)t.draw((uint32_t)tasks); k.dst = t.chance(1, 3) ? k.src : (long)t.draw((uint32_t)tasks); k.dur = t.skew(0, 40); if (tight) k.dur = (long)t.draw(3); for (long j = 0; j < i; j++) if (t.chance(1, 4)) k.deps.push_back(j); P.push_back(k); }
    per = t.range(1, m); std::vector<long> divs; for (long k = 1; k <= m; k++) if (m % k == 0) divs.push_back(k); per = t.of(divs);
    pkt = "#NUM_ROWS,NUM_COLS,NUM_BANKS\n" + str(rows) + "," + str(cols) + ",1\n#SRC,DEST,DURATION,PACKET_ID,BANK_ID,DEP1,DEP2,...\n";
    for (size_t i = 0; i < P.size(); i++) { pkt += str(P[i].src) + "," + str(P[i].dst) + "," + str(P[i].dur) + "," + str(i) + ",0"; for (long x : P[i].deps) pkt += "," + str(x); pkt += "\n"; }
  }
  // task -> core: a permutation; core pair -> slot
  std::vector<long> map((size_t)n); for (long i = 0; i < n; i++) map[(size_t)i] = i; for (long i = n - 1; i > 0; i--) std::swap(map[(size_t)i], map[t.draw((uint32_t)i + 1)]);
  std::vector<std::vector<long>> slot((size_t)n, std::vector<long>((size_t)n, -1)); std::string sf = str(T) + "\n";
  for (long a = 0; a < n; a++) for (long b = 0; b < n; b++) if (a != b) { slot[(size_t)a][(size_t)b] = full ? (a * 7 + b * 3) % T : (long)t.draw((uint32_t)T); sf += "src," + str(a) + ",dest," + str(b) + ",slot," + str(slot[(size_t)a][(size_t)b]) + "\n"; }
  std::string mf = str(per); for (long x : map) mf += "," + str(x); mf += "\n";
  d += "mesh " + str(rows) + "x" + str(cols) + " (rows x columns), " + str(T) + " slots, tasks on cores " + vec(map) + ", packets per iteration " + str(per) + "\n"; if (!full) d += pkt + sf; c.describe(d); c.label(full ? "from a graph" : rows == cols ? "square" : "not square");
  for (auto &k : P) if (k.src != k.dst) for (auto &l : P) if (&l != &k && l.src == k.src && l.dst == k.dst) c.nontrivial = true;
  struct Scratch { std::string dir = "/tmp/vhp27.XXXXXX"; bool ok = false; ~Scratch() { if (ok) { unlink((dir + "/s").c_str()); unlink((dir + "/p").c_str()); unlink((dir + "/m").c_str()); rmdir(dir.c_str()); } } } sc;
  if (mkdtemp(&sc.dir[0]) == nullptr) c.inconclusive("no scratch directory"); sc.ok = true;
  std::ofstream(sc.dir + "/s") << sf; std::ofstream(sc.dir + "/p") << pkt; std::ofstream(sc.dir + "/m") << mf;
  G one; one.T.push_back({"t0", {1}, {}, 1});
  Sub s = run_algo(one, "TDMASchedule", {{"slotfile", sc.dir + "/s"}, {"pktfile", sc.dir + "/p"}, {"mapfile", sc.dir + "/m"}}, 10);
  if (!s.ok()) c.fail("abort", s.how());
  // table: depsdone, computedone, slotwait, transferdone
  struct Row { long dep, comp, sl, data; }; std::vector<Row> R(P.size(), {-9, -9, -9, -9}); std::istringstream in(s.out); std::string l; bool table = false; long double thro = -1, ex = -1;
  while (std::getline(in, l)) {
    if (l.rfind("depsdone,", 0) == 0) { table = true; continue; }
    if (!table) continue;
    long id, a, b, e, f, x, y, z; float th, xe;
    if (sscanf(l.c_str(), "pkt_id=%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld", &id, &a, &b, &e, &f, &x, &y, &z) == 8) {
      if (id < 0 || id >= (long)P.size() || R[(size_t)id].dep != -9) c.fail("table", "line " + l);
      R[(size_t)id] = {a, b, e, f}; auto &k = P[(size_t)id];
      if (x != map[(size_t)k.src] || y != map[(size_t)k.dst] || z != k.dur) c.fail("table", "packet " + str(id) + " goes from " + str(x) + " to " + str(y) + " after " + str(z));
    } else if (sscanf(l.c_str(), "thro=%f,exec_time=%f", &th, &xe) == 2) thro = th, ex = xe;
  }
  std::map<std::pair<long, long>, std::set<long>> used;
  for (size_t i = 0; i < P.size(); i++) {
    auto &r = R[i]; auto &k = P[i]; if (r.dep == -9) c.fail("table", "packet " + str(i) + " is not scheduled");
    std::string w = "packet " + str(i) + " (" + str(r.dep) + "," + str(r.comp) + "," + str(r.sl) + "," + str(r.data) + ") ";
    long ready = 0; for (long x : k.deps) ready = std::max(ready, R[(size_t)x].data);
    if (r.dep != ready) c.fail("deps", w + "is ready at " + str(r.dep) + ", its dependencies are done at " + str(ready));
    if (r.comp != r.dep + k.dur) c.fail("compute", w + "computes for " + str(r.comp - r.dep) + " instead of " + str(k.dur));
    long a = map[(size_t)k.src], b = map[(size_t)k.dst];
    if (a == b) { if (r.sl != r.comp || r.data != r.comp) c.fail("local", w + "is local but takes time"); continue; }
    if (r.sl < r.comp) c.fail("early", w + "is sent before it is computed");
    if (r.sl % T != slot[(size_t)a][(size_t)b]) c.fail("slot", w + "is sent in slot " + str(r.sl % T) + ", it owns slot " + str(slot[(size_t)a][(size_t)b]));
    if (!used[{a, b}].insert(r.sl).second) c.fail("shared", w + "shares its slot with another packet from " + str(a) + " to " + str(b));
    long dist = std::labs(a / cols - b / cols) + std::labs(a % cols - b % cols) + 1;
    if (r.data != r.sl + dist) c.fail("distance", w + "takes " + str(r.data - r.sl) + " cycles from core " + str(a) + " to core " + str(b) + ", " + str(dist) + " expected");
  }
  for (size_t i = 0; i < P.size(); i++) { auto &k = P[i]; long a = map[(size_t)k.src], b = map[(size_t)k.dst]; if (a == b) continue; for (long x = R[i].sl - T; x >= R[i].comp; x -= T) if (!used[{a, b}].count(x)) c.fail("late", "packet " + str(i) + " is sent at " + str(R[i].sl) + " although its slot was free at " + str(x)); }
  // averages over the iterations
  long it = (long)P.size() / per; long double e = 0; for (long k = 0; k < it; k++) e += R[(size_t)((k + 1) * per - 1)].data - R[(size_t)(k * per)].data;
  if (thro < 0 && ex < 0) c.fail("summary", "no summary");
  if (!near(thro, (long double)R.back().data / it, 1e-4L) || !(near(ex, e / it, 1e-4L) || std::fabs((double)(ex - e / it)) < 1e-4)) c.fail("summary", "average period " + str(thro) + " and length " + str(ex) + " instead of " + str((long double)R.back().data / it) + " and " + str(e / it));
}
static Reg reg({"P27",
  "random packet lists with backward dependencies on meshes up to 4x4 (any aspect), and traces produced from random live graphs; random slot tables of 1..18 slots and task placements; the printed table checked against the time-division rules; non-trivial = two packets between the same two cores",
  25000, 1000000, 20, true, {"the slot table covers every pair of distinct cores", "tasks are placed on distinct cores", "packet ids are sequential, dependencies refer to earlier packets", "the number of packets is a multiple of those of one iteration"}, run});
