// P10 SDF3 reading depends only on the document's meaning
#include "graph.h"
#include <models/Dataflow.h>
#include <printers/SDF3Wrapper.h>
#include <algorithm>
#include <fstream>
#include <unistd.h>
using namespace vh;

static bool ones(const std::vector<long> &v) { for (long x : v) if (x != 1) return false; return true; }

// any graph, consistent or not
static G any_graph(Tape &t, bool sdf) {
  G g;
  int n = 1 + (int)t.skew(0, 4), m = (int)t.skew(0, 6);
  bool inits = !sdf && t.chance(1, 3);
  std::vector<int> ip;
  for (int i = 0; i < n; i++) {
    GTask k; k.name = (t.chance(1, 4) ? "node_" : "t") + str(i);
    int p = sdf ? 1 : 1 + (int)t.skew(0, 5); ip.push_back(inits ? (int)t.draw(3) : 0);
    bool rep = t.chance(1, 2); long v = (long)t.draw(12);
    for (int x = 0; x < p; x++) { if (!rep || t.chance(1, 3)) v = (long)t.draw(12); k.dur.push_back(v); }
    for (int x = 0; x < ip.back(); x++) k.idur.push_back((long)t.draw(12));
    k.reent = (long)t.draw(2);
    g.T.push_back(k);
  }
  for (int i = 0; i < m; i++) {
    GEdge e; e.s = (int)t.draw((uint32_t)n); e.t = (int)t.draw((uint32_t)n); e.name = "ch" + str(i);
    auto rates = [&](int k) { std::vector<long> r; bool rep = t.chance(1, 2); long v = (long)t.draw(10); for (int x = 0; x < k; x++) { if (!rep || t.chance(1, 3)) v = (long)t.draw(10); r.push_back(v); } return r; };
    e.in = rates((int)g.phases(e.s)); e.out = rates((int)g.phases(e.t)); e.iin = rates(ip[(size_t)e.s]); e.iout = rates(ip[(size_t)e.t]);
    e.m = (long)t.draw(15); e.tsize = 1 + (long)t.draw(4);
    if (e.s == e.t && e.m == 1 && ones(e.in) && ones(e.out) && ones(e.iin) && ones(e.iout)) e.m = 3;
    g.E.push_back(e);
  }
  return g;
}
static std::string observe(const models::Dataflow *df) {
  for (Vertex v : df->vertices()) if (df->getPhasesQuantity(v) != (EXEC_COUNT)df->getVertexPhaseDuration(v).size()) return "phase count of " + df->getVertexName(v) + " is " + std::to_string(df->getPhasesQuantity(v)) + " for " + std::to_string(df->getVertexPhaseDuration(v).size()) + " durations";
  for (auto it : df->edges()) {
    Edge e = *it; TOKEN_UNIT a = 0, b = 0;
    for (auto x : df->getEdgeInVector(e)) a += x;
    for (auto x : df->getEdgeOutVector(e)) b += x;
    if (df->getEdgeIn(e) != a || df->getEdgeOut(e) != b) return "totals of " + df->getEdgeName(e) + " are " + std::to_string(df->getEdgeIn(e)) + "/" + std::to_string(df->getEdgeOut(e));
  }
  return "app " + df->getAppName() + " graph " + df->getGraphName() + " type " + df->getGraphType() + "\n" + canon(read_back(df));
}
static Sub read_doc(const std::string &doc, bool viafile) {
  std::string dir = "/tmp/vhp10.XXXXXX", f;
  if (viafile) {
    if (mkdtemp(&dir[0]) == nullptr) throw Inconclusive{"no scratch directory"};
    f = dir + "/g.xml";
    std::ofstream o(f); o << doc;
  }
  Sub s = isolate([&]() -> std::string {
    models::Dataflow *r = viafile ? printers::readSDF3File(f) : printers::parseSDF3XML(doc);
    if (!r) throw std::runtime_error("refused");
    return observe(r);
  }, 10);
  if (viafile) { unlink(f.c_str()); rmdir(dir.c_str()); }
  return s;
}
static bool cut(std::string &d, const std::string &from, const std::string &to) {
  size_t a = d.find(from); if (a == std::string::npos) return false;
  size_t b = d.find(to, a); if (b == std::string::npos) return false;
  d.erase(a, b + to.size() - a); return true;
}
static bool subst(std::string &d, const std::string &from, const std::string &to, size_t at = 0) {
  size_t a = d.find(from, at); if (a == std::string::npos) return false;
  d.replace(a, from.size(), to); return true;
}

static void run(Case &c) {
  Tape &t = c.t;
  bool sdf = t.chance(1, 3), viafile = t.chance(1, 10);
  G g = any_graph(t, sdf);
  int mode = t.pick({5, 2});
  std::string want = "app app graph graph type gtype\n" + canon(g);
  if (mode == 0) {
    std::string doc = to_xml(g, &t, sdf);
    c.describe(g.str() + (viafile ? "through a file\n" : "") + doc);
    c.label(sdf ? "sdf" : "csdf"); if (doc.find('*') != std::string::npos) c.label("compact lists");
    if (doc.find(";") != std::string::npos) c.label("initial phases");
    Sub s = read_doc(doc, viafile);
    if (s.kind == Sub::MEM) c.inconclusive(s.how());
    if (!s.ok()) c.fail("refused", "a valid document is refused: " + s.how());
    if (s.ret != want) c.fail("different", "read as\n" + s.ret + "instead of\n" + want);
    // a second presentation of the same graph
    std::string doc2 = to_xml(g, &t, sdf);
    Sub r = read_doc(doc2, false);
    if (r.kind == Sub::MEM) c.inconclusive(r.how());
    if (!r.ok() || r.ret != want) c.fail("different", "another presentation of the same graph is read as\n" + r.ret + r.how() + "\ninstead of\n" + want + "\n" + doc2);
    c.nontrivial = g.T.size() >= 2 && !g.E.empty();
    return;
  }
  std::string doc = to_xml(g), tag = "csdf"; if (sdf) doc = to_xml(g, nullptr, true), tag = "sdf";
  std::string orig = doc, what;
  std::string ghost = "ghost" + str(t.draw(10));
  bool done = false;
  switch (t.draw(9)) {
    case 0: what = "no application graph"; done = cut(doc, "<applicationGraph", "</applicationGraph>"); break;
    case 1: what = "no graph section"; done = cut(doc, "<" + tag + " ", "</" + tag + ">"); break;
    case 2: what = "no properties section"; done = cut(doc, "<" + tag + "Properties>", "</" + tag + "Properties>"); break;
    case 3: what = "another root element"; done = subst(doc, "<sdf3 ", "<other "); done &= subst(doc, "</sdf3>", "</other>"); break;
    case 4: case 5: { what = "channel of an undefined task"; if (!g.E.empty()) { auto &e = g.E[t.draw((uint32_t)g.E.size())]; size_t at = doc.find("<channel name=\"" + e.name + "\""); bool src = t.chance(1, 2); done = at != std::string::npos && subst(doc, (src ? "srcActor=\"" : "dstActor=\"") + g.T[(size_t)(src ? e.s : e.t)].name + "\"", (src ? "srcActor=\"" : "dstActor=\"") + ghost + "\"", at); } break; }
    case 6: { what = "properties of an undefined task"; done = subst(doc, "<actorProperties actor=\"" + g.T[t.draw((uint32_t)g.T.size())].name + "\"", "<actorProperties actor=\"" + ghost + "\""); break; }
    case 7: what = "empty document"; doc = t.chance(1, 2) ? "" : "<?xml version=\"1.0\"?>"; done = true; break;
    default: what = "not XML"; doc = "kiter " + ghost; done = true;
  }
  if (!done) c.discard("mutation not applicable");
  c.describe(what + (viafile ? " through a file" : "") + "\n" + doc);
  c.label(what);
  Sub s = read_doc(doc, viafile);
  if (s.kind == Sub::MEM) c.inconclusive(s.how());
  if (s.kind == Sub::SIGNAL || s.kind == Sub::CPU) c.fail("crash", "reading a document with " + what + " ends with " + s.how());
  if (s.ok()) c.fail("accepted", "a document with " + what + " is accepted and read as\n" + s.ret);
  c.nontrivial = g.T.size() >= 2 && !g.E.empty();
}
static Reg reg({"P10",
  "random graphs (consistent or not) written by an independent SDF3 writer in two random presentations (order of elements and attributes, quotes, white space, comments, compact n*v lists, omitted defaults, swapped sections), and documents with missing sections or dangling references; non-trivial = at least 2 tasks and a channel",
  100000, 1500000, 20, true, {"documents that are not well-formed are outside the property: the reader deliberately asks the XML library to recover them"}, run});
