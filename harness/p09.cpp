// P09 SDF3 XML output reads back as the same graph
#include "graph.h"
#include <models/Dataflow.h>
#include <printers/SDF3Wrapper.h>
#include <algorithm>
#include <fstream>
#include <unistd.h>
using namespace vh;

typedef std::vector<long double> VD;
// everything the format describes, observed through the public interface (durations exactly)
static std::string observe(const models::Dataflow *df) {
  auto q = [](const std::string &s) { return "'" + s + "'"; };
  auto vd = [](const std::vector<TIME_UNIT> &v) { std::string s = "["; char b[64]; for (auto x : v) { snprintf(b, sizeof b, "%.21Lg ", (long double)x); s += b; } return s + "]"; };
  auto vl = [](const std::vector<TOKEN_UNIT> &v) { std::string s = "["; for (auto x : v) s += std::to_string(x) + " "; return s + "]"; };
  std::string o = "app " + q(df->getAppName()) + " graph " + q(df->getGraphName()) + " type " + q(df->getGraphType()) + "\n";
  for (Vertex v : df->vertices())
    o += "task " + q(df->getVertexName(v)) + " type " + q(df->getVertexType(v)) + " phases " + std::to_string(df->getInitPhasesQuantity(v)) + ";" + std::to_string(df->getPhasesQuantity(v)) + " init" + vd(df->getVertexInitPhaseDuration(v)) + " dur" + vd(df->getVertexPhaseDuration(v)) + " reentrancy " + std::to_string(df->getReentrancyFactor(v)) + "\n";
  for (auto it : df->edges()) {
    Edge e = *it;
    o += "channel " + q(df->getEdgeName(e)) + " " + q(df->getVertexName(df->getEdgeSource(e))) + " init" + vl(df->getEdgeInitInVector(e)) + vl(df->getEdgeInVector(e)) + " -> " + q(df->getVertexName(df->getEdgeTarget(e))) + " init" + vl(df->getEdgeInitOutVector(e)) + vl(df->getEdgeOutVector(e)) + " tokens " + std::to_string(df->getPreload(e)) + " size " + std::to_string(df->getTokenSize(e)) + " totals " + std::to_string(df->getEdgeIn(e)) + "/" + std::to_string(df->getEdgeOut(e)) + "\n";
  }
  return o;
}

static std::string text(Tape &t, const std::string &base) {
  static const char *deco[] = {"", "<", "&", "\"", "'", ">", " ", "é", "&amp;", "]]>", "->", ";", "/", "0", "_x"};
  std::string s = base;
  size_t k = (size_t)t.skew(0, 3);
  while (k--) s += deco[t.draw(15)];
  return s;
}

static void run(Case &c) {
  Tape &t = c.t;
  bool inits = t.chance(1, 3), odd = t.chance(1, 3), frac = t.chance(1, 3), big = t.chance(1, 6);
  int n = 1 + (int)t.skew(0, 5), m = (int)t.skew(0, 8);
  auto num = [&](long mx) -> long {
    if (!big || !t.chance(1, 3)) return (long)t.draw((uint32_t)mx + 1);
    switch (t.draw(3)) {                       // below 2^31, around 2^32, up to about 2^52
      case 0: return (long)t.range(1, 2000000000);
      case 1: return (1L << 32) - 2 + (long)t.draw(5);
      default: return (long)t.draw(1u << 20) * (1L << 32) + (long)t.draw(1u << 30);
    }
  };
  auto duration = [&]() -> long double {
    if (!frac || t.chance(1, 2)) return (long double)num(20);
    switch (t.draw(5)) {
      case 0: return 0.5L + (long double)t.draw(10);
      case 1: return 1.0L / (long double)(1 + t.draw(30));
      case 2: return (long double)num(9) + 0.25L;
      case 3: return 1234567.5L + (long double)t.draw(1000000);
      default: return (long double)t.draw(1000) / 1e9L;
    }
  };
  struct TK { std::string name, type; int ip, p; long reent; VD id, d; };
  struct CH { int s, t; std::string name; std::vector<TOKEN_UNIT> ii, i, io, o; long m, size, id; };
  std::vector<TK> T; std::vector<CH> E;
  for (int i = 0; i < n; i++) {
    TK k; k.name = "t" + str(i); if (odd) k.name = text(t, k.name) + "#" + str(i);
    k.type = odd && t.chance(1, 2) ? text(t, "ty") : ""; k.p = 1 + (int)t.skew(0, 4); k.ip = inits ? (int)t.draw(3) : 0; k.reent = t.chance(1, 3) ? 0 : 1;
    for (int x = 0; x < k.p; x++) k.d.push_back(duration());
    for (int x = 0; x < k.ip; x++) k.id.push_back(duration());
    T.push_back(k);
  }
  bool ids = t.chance(1, 4); long nextid = 1;
  for (int i = 0; i < m; i++) {
    CH e; e.s = (int)t.draw((uint32_t)n); e.t = (int)t.draw((uint32_t)n);
    e.name = t.chance(1, 8) ? "R" + T[(size_t)e.s].name + (i ? str(i) : "") : "c" + str(i); if (odd) e.name = text(t, e.name) + "#" + str(i);
    auto &a = T[(size_t)e.s]; auto &b = T[(size_t)e.t];
    long mx = t.chance(1, 3) ? 1 : 9;
    for (int x = 0; x < a.p; x++) e.i.push_back(num(mx));
    for (int x = 0; x < b.p; x++) e.o.push_back(num(mx));
    for (int x = 0; x < a.ip; x++) e.ii.push_back(num(mx));
    for (int x = 0; x < b.ip; x++) e.io.push_back(num(mx));
    e.m = t.chance(1, 3) ? 1 : num(12); e.size = t.chance(1, 2) ? 1 : num(64);
    e.id = nextid; nextid += ids ? 1 + (long)t.draw(5) : 1;
    // a unit self-loop with one token is the document's notation for reentrancy 1, not a channel
    auto ones = [](const std::vector<TOKEN_UNIT> &v) { for (auto x : v) if (x != 1) return false; return true; };
    if (e.s == e.t && e.m == 1 && ones(e.i) && ones(e.o) && ones(e.ii) && ones(e.io)) e.m = 2;
    E.push_back(e);
  }
  std::string app = odd ? text(t, "") : "app", gn = odd ? text(t, "") : "g", gt = odd ? text(t, "") : "csdf";
  bool viafile = t.chance(1, 8);

  models::Dataflow df;
  std::vector<Vertex> v;
  for (auto &k : T) {
    Vertex x = df.addVertex(k.name);
    df.setPhasesQuantity(x, k.p); df.setVertexDuration(x, std::vector<TIME_UNIT>(k.d.begin(), k.d.end()));
    df.setInitPhasesQuantity(x, k.ip); df.setVertexInitDuration(x, std::vector<TIME_UNIT>(k.id.begin(), k.id.end()));
    df.setReentrancyFactor(x, k.reent); if (!k.type.empty()) df.setVertexType(x, k.type);
    v.push_back(x);
  }
  for (auto &e : E) {
    Edge x = df.addEdge(v[(size_t)e.s], v[(size_t)e.t], e.id, e.name);
    df.setEdgeInInitPhases(x, e.ii); df.setEdgeOutInitPhases(x, e.io); df.setEdgeInPhases(x, e.i); df.setEdgeOutPhases(x, e.o);
    df.setPreload(x, e.m); df.setTokenSize(x, e.size);
  }
  df.setAppName(app); df.setGraphName(gn); df.setGraphType(gt);
  std::string a = observe(&df);
  c.describe(a + (viafile ? "through a file\n" : ""));
  c.nontrivial = n >= 2 && !E.empty();
  if (inits) c.label("initial phases"); if (odd) c.label("special characters"); if (frac) c.label("fractional durations"); if (viafile) c.label("through a file");

  std::string doc1 = printers::generateSDF3XML(&df), b, doc2;
  if (observe(&df) != a) c.fail("writer-modifies", "writing modified the graph");
  Sub s = isolate([&]() -> std::string {
    models::Dataflow *r;
    if (viafile) {
      std::string dir = "/tmp/vhp09." + std::to_string(getpid());
      if (mkdtemp(&(dir += ".XXXXXX")[0]) == nullptr) return "";
      std::string f = dir + "/g.xml";
      printers::writeSDF3File(f, &df); r = printers::readSDF3File(f);
      unlink(f.c_str()); rmdir(dir.c_str());
    } else r = printers::parseSDF3XML(doc1);
    if (!r) return "";
    std::string again = printers::generateSDF3XML(r);
    if (ids) {                                    // channels are renumbered by the first reading only
      doc1 = again; r = printers::parseSDF3XML(again); if (!r) return ""; again = printers::generateSDF3XML(r);
      if (again != doc1) return observe(r) + "\x01" + again;
      return observe(r) + "\x01" + "same";
    }
    return observe(r) + "\x01" + again;
  }, 10);
  if (s.kind == Sub::MEM) c.inconclusive(s.how());
  if (!s.ok() || s.ret.empty()) c.fail("unreadable", "the document written cannot be read back: " + s.how() + "\n" + doc1);
  size_t k = s.ret.find('\x01'); b = s.ret.substr(0, k); doc2 = s.ret.substr(k + 1);
  if (a != b) c.fail("different", "read back as\n" + b + "\ndocument\n" + doc1);
  if (ids ? doc2 != "same" : doc1 != doc2) c.fail("rewrite", "writing again gives another document\n" + doc1 + "\n" + doc2);
}
static Reg reg({"P09",
  "random graphs built through the public interface (multi-phase, initial phases, fractional and large durations, special characters in names, arbitrary channel ids, both reentrancies, parallel channels and self-loops; consistency is not required), written, read back, compared field by field and written again; non-trivial = at least 2 tasks and a channel",
  60000, 1500000, 20, true,
  {"a self-loop with unit rates and one token is not generated: in the format it is the notation of reentrancy 1", "reentrancy is 0 or 1, the two values the format can express"}, run});
