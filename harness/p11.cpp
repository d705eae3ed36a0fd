// P11 the Dataflow container against a reference multigraph, over edit histories
#include "graph.h"
#include <models/Dataflow.h>
#include <algorithm>
#include <numeric>
using namespace vh;
namespace {
struct MT { long id; std::string name; long ph = 0, iph = 0; std::vector<TIME_UNIT> dur, idur; long reent = 0, map = -1; std::string type; };
struct ME { long id; std::string name; long s, t; std::vector<long> in, out, iin, iout; long m = 0, size = 0; int type = 0; std::vector<edge_id_t> route; std::string ip, op; };
struct Model {
  std::vector<MT> T; std::vector<ME> E;
  MT *task(long id) { for (auto &x : T) if (x.id == id) return &x; return nullptr; }
  ME *edge(long id) { for (auto &x : E) if (x.id == id) return &x; return nullptr; }
};
struct World {
  Case &c; Model m; models::Dataflow df; bool ro = false;
  std::string log;
  long vmax = 0, emax = 0;
  std::string gname, aname, gtype;
  World(Case &c) : c(c) {}
  void say(const std::string &s) { log += s + "\n"; c.describe(log); }
  Vertex V(long id) { return df.getVertexById(id); }
  Edge Eg(long id) { return df.getEdgeById(id); }
  template <class A, class B> void eq(const A &a, const B &b, const std::string &what) {
    if (!(a == b)) c.fail("query", what + ": the graph answers " + str(a) + ", the edit history implies " + str(b));
  }
  template <class A, class B> void eqv(const std::vector<A> &a, const std::vector<B> &b, const std::string &what) {
    if (a.size() != b.size() || !std::equal(a.begin(), a.end(), b.begin())) c.fail("query", what + ": the graph answers [" + vec(a) + "], the edit history implies [" + vec(b) + "]");
  }
  // compare everything
  void check() {
    eq((long)df.getVerticesCount(), (long)m.T.size(), "task count");
    eq((long)df.getEdgesCount(), (long)m.E.size(), "channel count");
    std::vector<long> vi, mi;
    for (Vertex v : df.vertices()) { vi.push_back(df.getVertexId(v)); if (df.getMaxVertexId() < df.getVertexId(v)) c.fail("max-id", "task id " + str(df.getVertexId(v)) + " above the announced maximum " + str(df.getMaxVertexId())); }
    std::vector<long> a2; { ForEachVertex((&df), v) { a2.push_back(df.getVertexId(v)); } }
    eqv(a2, vi, "task ids listed by the two iterations");
    for (auto &t : m.T) mi.push_back(t.id);
    std::sort(vi.begin(), vi.end()); std::sort(mi.begin(), mi.end());
    eqv(vi, mi, "task ids");
    std::vector<long> ei, mei; a2.clear();
    for (auto it : df.edges()) { Edge e = *it; ei.push_back(df.getEdgeId(e)); if (df.getMaxEdgeId() < df.getEdgeId(e)) c.fail("max-id", "channel id " + str(df.getEdgeId(e)) + " above the announced maximum"); }
    { ForEachEdge((&df), e) { a2.push_back(df.getEdgeId(e)); } }
    eqv(a2, ei, "channel ids listed by the two iterations");
    for (auto &e : m.E) mei.push_back(e.id);
    std::sort(ei.begin(), ei.end()); std::sort(mei.begin(), mei.end());
    eqv(ei, mei, "channel ids");
    eq(df.getGraphName(), gname, "graph name"); eq(df.getAppName(), aname, "application name"); eq(df.getGraphType(), gtype, "graph type");
    eq(df.is_read_only(), ro, "read-only state");
    for (auto &t : m.T) {
      std::string n = "task " + str(t.id);
      Vertex v = V(t.id);
      eq((long)df.getVertexId(v), t.id, n + " id"); eq(df.getVertexName(v), t.name, n + " name");
      if (!t.name.empty()) eq((long)df.getVertexId(df.getVertexByName(t.name)), t.id, "task found by name " + t.name);
      eq((long)df.getPhasesQuantity(v), t.ph, n + " phase count"); eq((long)df.getInitPhasesQuantity(v), t.iph, n + " initial phase count");
      eq((long)df.getReentrancyFactor(v), t.reent, n + " reentrancy"); eq((long)df.getMapping(v), t.map, n + " mapping"); eq(df.getVertexType(v), t.type, n + " type");
      if (!t.dur.empty()) {
        eqv(df.getVertexPhaseDuration(v), t.dur, n + " durations");
        TIME_UNIT s = 0; for (auto d : t.dur) s += d;
        if (std::fabs((double)(df.getVertexTotalDuration(v) - s)) > 1e-9) c.fail("total-duration", n + ": total duration answers " + str(df.getVertexTotalDuration(v)) + " instead of " + str(s));
        for (long k = 1; k <= 2 * (long)t.dur.size() + 1; k++) eq(df.getVertexDuration(v, k), t.dur[(size_t)((k - 1) % (long)t.dur.size())], n + " duration of execution " + str(k));
        if (t.dur.size() == 1) eq(df.getVertexDuration(v), t.dur[0], n + " duration");
      }
      eqv(df.getVertexInitPhaseDuration(v), t.idur, n + " initial durations");
      if (!t.dur.empty() && (long)t.idur.size() == t.iph) for (long k = 1; k <= t.iph; k++) {
        eq(df.getVertexInitDuration(v, k), t.idur[(size_t)k - 1], n + " initial duration " + str(k));
        eq(df.getVertexDuration(v, k - t.iph), t.idur[(size_t)k - 1], n + " duration of execution " + str(k - t.iph));
      }
      std::vector<long> wi, wo, wc, gi, go, gi2, go2, gc;
      for (auto &e : m.E) { if (e.t == t.id) wi.push_back(e.id); if (e.s == t.id) wo.push_back(e.id); if (e.s == t.id || e.t == t.id) wc.push_back(e.id); }
      for (auto it : df.in_edges(v)) gi.push_back(df.getEdgeId(Edge(*it)));
      for (auto it : df.out_edges(v)) go.push_back(df.getEdgeId(Edge(*it)));
      { ForInputEdges((&df), v, e) { gi2.push_back(df.getEdgeId(e)); } }
      { ForOutputEdges((&df), v, e) { go2.push_back(df.getEdgeId(e)); } }
      { ForConnectedEdges((&df), v, e) { gc.push_back(df.getEdgeId(e)); } }
      for (auto *l : {&wi, &wo, &wc, &gi, &go, &gi2, &go2, &gc}) std::sort(l->begin(), l->end());
      eqv(gi, wi, n + " incoming channels"); eqv(go, wo, n + " outgoing channels"); eqv(gc, wc, n + " connected channels");
      eqv(gi2, wi, n + " incoming channels"); eqv(go2, wo, n + " outgoing channels");
      eq((long)df.getVertexInDegree(v), (long)wi.size(), n + " in-degree"); eq((long)df.getVertexOutDegree(v), (long)wo.size(), n + " out-degree");
      eq((long)df.getVertexDegree(v), (long)(wi.size() + wo.size()), n + " degree");
      for (auto &u : m.T) { bool w = false; for (auto &e : m.E) w |= e.s == t.id && e.t == u.id; eq(df.edgeExist(v, V(u.id)), w, "a channel from " + str(t.id) + " to " + str(u.id)); }
    }
    for (auto &e : m.E) {
      std::string n = "channel " + str(e.id);
      Edge x = Eg(e.id);
      eq((long)df.getEdgeId(x), e.id, n + " id"); eq(df.getEdgeName(x), e.name, n + " name");
      if (!e.name.empty()) eq((long)df.getEdgeId(df.getEdgeByName(e.name)), e.id, "channel found by name " + e.name);
      eq((long)df.getVertexId(df.getEdgeSource(x)), e.s, n + " source"); eq((long)df.getVertexId(df.getEdgeTarget(x)), e.t, n + " target");
      eq((long)df.getPreload(x), e.m, n + " marking"); eq((long)df.getTokenSize(x), e.size, n + " token size"); eq((int)df.getEdgeType(x), e.type, n + " type");
      eqv(df.getRoute(x), e.route, n + " route"); eq(df.getEdgeInputPortName(x), e.ip, n + " producer port"); eq(df.getEdgeOutputPortName(x), e.op, n + " consumer port");
      eqv(df.getEdgeInVector(x), e.in, n + " production"); eqv(df.getEdgeOutVector(x), e.out, n + " consumption");
      eqv(df.getEdgeInitInVector(x), e.iin, n + " initial production"); eqv(df.getEdgeInitOutVector(x), e.iout, n + " initial consumption");
      long a = 0, b = 0, gg = 0; for (long r : e.in) a += r, gg = std::gcd(gg, r); for (long r : e.out) b += r, gg = std::gcd(gg, r);
      eq((long)df.getEdgeIn(x), a, n + " total production"); eq((long)df.getEdgeOut(x), b, n + " total consumption");
      eq((long)df.getEdgeInPhasesCount(x), (long)e.in.size(), n + " production phases"); eq((long)df.getEdgeOutPhasesCount(x), (long)e.out.size(), n + " consumption phases");
      eq((long)df.getEdgeInInitPhasesCount(x), (long)e.iin.size(), n + " initial production phases"); eq((long)df.getEdgeOutInitPhasesCount(x), (long)e.iout.size(), n + " initial consumption phases");
      for (long k = 1 - (long)e.iin.size(); k <= (long)e.in.size(); k++) eq((long)df.getEdgeInPhase(x, k), k > 0 ? e.in[(size_t)k - 1] : e.iin[(size_t)(k - 1 + (long)e.iin.size())], n + " production at " + str(k));
      for (long k = 1 - (long)e.iout.size(); k <= (long)e.out.size(); k++) eq((long)df.getEdgeOutPhase(x, k), k > 0 ? e.out[(size_t)k - 1] : e.iout[(size_t)(k - 1 + (long)e.iout.size())], n + " consumption at " + str(k));
      if (!e.in.empty() && !e.out.empty()) { eq((long)df.getFineGCD(x), gg, n + " rate gcd"); eq((long)static_cast<const models::Dataflow &>(df).getFineGCD(x), gg, n + " rate gcd (const)"); }
      // lookup by port: any channel of the task carrying that port name
      if (!e.ip.empty()) { Edge o = df.getOutputEdgeByPortName(V(e.s), e.ip); ME *oe = o == NULL_EDGE ? nullptr : m.edge(df.getEdgeId(o)); if (!oe || oe->s != e.s || oe->ip != e.ip) c.fail("query", "no right channel found for output port " + e.ip + " of task " + str(e.s)); }
      if (!e.op.empty()) { Edge o = df.getInputEdgeByPortName(V(e.t), e.op); ME *oe = o == NULL_EDGE ? nullptr : m.edge(df.getEdgeId(o)); if (!oe || oe->t != e.t || oe->op != e.op) c.fail("query", "no right channel found for input port " + e.op + " of task " + str(e.t)); }
    }
    // absent elements
    for (long id : {0L, 3L, vmax + 7}) if (!m.task(id)) { bool thrown = false; try { df.getVertexById(id); } catch (std::out_of_range &) { thrown = true; } if (!thrown) c.fail("absent", "a task is found for the unused id " + str(id)); }
    for (long id : {0L, 2L, emax + 7}) if (!m.edge(id)) { bool thrown = false; try { df.getEdgeById(id); } catch (std::out_of_range &) { thrown = true; } if (!thrown) c.fail("absent", "a channel is found for the unused id " + str(id)); }
    for (const char *s : {"a0", "a3", "nobody"}) {
      bool has = false, hase = false, thrown = false; for (auto &t : m.T) has |= t.name == s; for (auto &e : m.E) hase |= e.name == s;
      try { df.getVertexByName(s); } catch (std::out_of_range &) { thrown = true; } if (thrown == has) c.fail("absent", std::string("lookup of task ") + s + (has ? " fails" : " succeeds"));
      thrown = false; try { df.getEdgeByName(s); } catch (std::out_of_range &) { thrown = true; } if (thrown == hase) c.fail("absent", std::string("lookup of channel ") + s + (hase ? " fails" : " succeeds"));
    }
  }
  // complete = an analysable graph
  bool complete(G &g) {
    if (m.T.empty() || m.E.empty()) return false;
    std::map<long, int> ix;
    for (auto &t : m.T) {
      if (t.dur.empty() || (long)t.dur.size() != t.ph || t.iph || t.name.empty()) return false;
      GTask k; k.name = t.name; k.reent = t.reent ? 1 : 0; if (t.reent > 1) return false;
      for (auto d : t.dur) { if (d != std::floor(d)) return false; k.dur.push_back((long)d); }
      bool iso = true; for (auto &e : m.E) iso &= e.s != t.id && e.t != t.id;
      if (iso && t.ph > 1) return false;   // known finding of P01
      ix[t.id] = (int)g.T.size(); g.T.push_back(k);
    }
    for (auto &e : m.E) {
      if (e.in.empty() || e.out.empty() || e.name.empty() || e.type) return false;
      for (long x : e.in) if (x > 1000000) return false;
      GEdge k; k.s = ix[e.s]; k.t = ix[e.t]; k.in = e.in; k.out = e.out; k.m = e.m; k.tsize = e.size; k.name = e.name; g.E.push_back(k);
    }
    return true;
  }
};

std::string nm(Tape &t) { return "a" + str(t.draw(12)); }
void run(Case &c) {
  Tape &t = c.t; World w(c); Model &m = w.m; auto &df = w.df;
  long steps = 4 + (long)t.draw(37), edits = 0, rem = 0, ana = 0;
  long nextauto_v = 1, nextauto_e = 1; (void)nextauto_v; (void)nextauto_e;
  // analysable histories: balanced channels, named tasks, whole durations
  bool nice = t.chance(1, 2); long total = 1;
  if (nice) c.label("analysable history");
  auto rates = [&](long n) {
    if (nice && n > 0) { std::vector<long> v((size_t)n, 0); long left = total; for (long i = 0; i + 1 < n; i++) { v[(size_t)i] = (long)t.draw((uint32_t)left + 1); left -= v[(size_t)i]; } v[(size_t)n - 1] = left; return v; } std::vector<long> v; for (long i = 0; i < n; i++) v.push_back(t.chance(1, 30) ? 1500000000L + (long)t.draw(5) : (long)t.draw(7)); return v; };
  auto anyT = [&]() -> MT & { return m.T[t.draw((uint32_t)m.T.size())]; };
  auto anyE = [&]() -> ME & { return m.E[t.draw((uint32_t)m.E.size())]; };
  auto freeTname = [&](const std::string &n, long self) { for (auto &x : m.T) if (x.name == n && x.id != self) return false; return true; };
  auto freeEname = [&](const std::string &n, long self) { for (auto &x : m.E) if (x.name == n && x.id != self) return false; return true; };
  auto touch = [&]() {   // any edit unlocks only when writable
    if (w.ro) { df.reset_computation(); w.ro = false; w.say("reset_computation"); }
    edits++;
  };
  auto setRates = [&](ME &e) {
    total = 1 + (long)t.draw(6);
    MT *s = m.task(e.s), *d = m.task(e.t);
    long ns = s->ph ? s->ph : 1 + (long)t.draw(3); 
    Edge x = w.Eg(e.id);
    e.in = rates(ns); w.say("setEdgeInPhases " + str(e.id) + " [" + vec(e.in) + "]"); df.setEdgeInPhases(x, e.in); s->ph = ns;
    long nd = d->ph ? d->ph : 1 + (long)t.draw(3);
    e.out = rates(nd); w.say("setEdgeOutPhases " + str(e.id) + " [" + vec(e.out) + "]"); df.setEdgeOutPhases(x, e.out); d->ph = nd;
  };
  auto setDur = [&](MT &k) {
    if (!k.ph) { k.ph = 1 + (long)t.draw(3); w.say("setPhasesQuantity " + str(k.id) + " " + str(k.ph)); df.setPhasesQuantity(w.V(k.id), k.ph); }
    k.dur.clear(); bool fr = !nice && t.chance(1, 3); for (long i = 0; i < k.ph; i++) k.dur.push_back((TIME_UNIT)t.draw(9) + (fr ? (TIME_UNIT)t.draw(4) / 4 : 0));
    w.say("setVertexDuration " + str(k.id) + " [" + vec(k.dur) + "]"); df.setVertexDuration(w.V(k.id), k.dur);
  };
  for (long st = 0; st < steps; st++) {
    int op = t.pick({10, 12, 3, 4, 3, 3, 3, 8, 8, 5, 4, 4, 3, 6});
    if (op != 0 && m.T.empty()) op = 0;
    if ((op == 3 || op == 6 || op == 7 || op == 9 || op == 11) && m.E.empty()) op = 1;
    if (op == 0 && m.T.size() >= 7) op = 2;
    switch (op) {
      case 0: {   // add a task
        touch(); MT k; Vertex v; std::string n = nm(t); int how = nice ? 2 * (int)t.draw(2) : t.pick({4, 2, 2, 1});
        if (!freeTname(n, -1)) n = "b" + str(st);
        long top = 0; for (auto &x : m.T) top = std::max(top, x.id);
        long id = top + 1 + (long)t.draw(4);
        if (how == 0) { w.say("addVertex " + n); v = df.addVertex(n); k.name = n; }
        else if (how == 1) { w.say("addVertex"); v = df.addVertex(); }
        else if (how == 2) { w.say("addVertex " + str(id) + " " + n); v = df.addVertex(id, n); k.name = n; w.eq((long)df.getVertexId(v), id, "id of the new task"); }
        else { w.say("addVertex " + str(id)); v = df.addVertex(id); w.eq((long)df.getVertexId(v), id, "id of the new task"); }
        k.id = df.getVertexId(v);
        if (m.task(k.id)) c.fail("unique-id", "new task received the id " + str(k.id) + " of an existing one");
        w.vmax = std::max(w.vmax, k.id); m.T.push_back(k);
        if (nice || t.chance(5, 6)) { setDur(m.T.back()); }
        break;
      }
      case 1: {   // add a channel
        touch(); ME k; k.s = anyT().id; k.t = anyT().id; std::string n = nm(t); if (!freeEname(n, -1)) n = "c" + str(st);
        long top = 0; for (auto &x : m.E) top = std::max(top, x.id);
        long id = 1 + (long)t.draw((uint32_t)top + 4); while (m.edge(id)) id++;
        Edge e; Vertex a = w.V(k.s), b = w.V(k.t);
        switch (nice ? 2 * (int)t.draw(2) : t.pick({4, 2, 2, 1})) {
          case 0: w.say("addEdge " + str(k.s) + " " + str(k.t) + " " + n); e = df.addEdge(a, b, n); k.name = n; break;
          case 1: w.say("addEdge " + str(k.s) + " " + str(k.t)); e = df.addEdge(a, b); break;
          case 2: w.say("addEdge " + str(k.s) + " " + str(k.t) + " " + str(id) + " " + n); e = df.addEdge(a, b, id, n); k.name = n; w.eq((long)df.getEdgeId(e), id, "id of the new channel"); break;
          default: w.say("addEdge " + str(k.s) + " " + str(k.t) + " " + str(id)); e = df.addEdge(a, b, id); w.eq((long)df.getEdgeId(e), id, "id of the new channel");
        }
        k.id = df.getEdgeId(e);
        if (m.edge(k.id)) c.fail("unique-id", "new channel received the id " + str(k.id) + " of an existing one");
        w.emax = std::max(w.emax, k.id); m.E.push_back(k);
        if (nice || t.chance(7, 8)) { setRates(m.E.back()); if (t.chance(1, 2)) { m.E.back().m = (long)t.draw(9); w.say("setPreload " + str(k.id) + " " + str(m.E.back().m)); df.setPreload(w.Eg(k.id), m.E.back().m); } }
        break;
      }
      case 2: {   // remove a task
        touch(); rem++; long id = anyT().id; w.say("removeVertex " + str(id)); df.removeVertex(w.V(id));
        m.E.erase(std::remove_if(m.E.begin(), m.E.end(), [&](const ME &e) { return e.s == id || e.t == id; }), m.E.end());
        m.T.erase(std::remove_if(m.T.begin(), m.T.end(), [&](const MT &k) { return k.id == id; }), m.T.end());
        break;
      }
      case 3: { touch(); rem++; long id = anyE().id; w.say("removeEdge " + str(id)); df.removeEdge(w.Eg(id)); m.E.erase(std::remove_if(m.E.begin(), m.E.end(), [&](const ME &e) { return e.id == id; }), m.E.end()); break; }
      case 4: { touch(); MT &k = anyT(); std::string n = nm(t); if (!freeTname(n, k.id)) n = "b" + str(st); w.say("setVertexName " + str(k.id) + " " + n); df.setVertexName(w.V(k.id), n); k.name = n; break; }
      case 5: { touch(); MT &k = anyT(); long id = 1 + (long)t.draw((uint32_t)w.vmax + 3); while (m.task(id) && id != k.id) id++; w.say("setVertexId " + str(k.id) + " " + str(id)); df.setVertexId(w.V(k.id), id); for (auto &e : m.E) { if (e.s == k.id) e.s = -id; if (e.t == k.id) e.t = -id; } for (auto &e : m.E) { if (e.s < 0) e.s = -e.s; if (e.t < 0) e.t = -e.t; } k.id = id; w.vmax = std::max(w.vmax, id); break; }
      case 6: { touch(); ME &k = anyE(); if (t.chance(1, 2)) { std::string n = nm(t); if (!freeEname(n, k.id)) n = "c" + str(st); w.say("setEdgeName " + str(k.id) + " " + n); df.setEdgeName(w.Eg(k.id), n); k.name = n; } else { long id = 1 + (long)t.draw((uint32_t)w.emax + 3); while (m.edge(id) && id != k.id) id++; w.say("setEdgeId " + str(k.id) + " " + str(id)); df.setEdgeId(w.Eg(k.id), id); k.id = id; w.emax = std::max(w.emax, id); } break; }
      case 7: { touch(); setRates(anyE()); break; }
      case 8: { touch(); MT &k = anyT();
        switch (t.pick({5, 2, 2, 2})) {
          case 0: setDur(k); break;
          case 1: k.reent = (long)t.draw(nice ? 2 : 3); w.say("setReentrancyFactor " + str(k.id) + " " + str(k.reent)); df.setReentrancyFactor(w.V(k.id), k.reent); break;
          case 2: k.map = (long)t.draw(5); w.say("setMapping " + str(k.id) + " " + str(k.map)); df.setMapping(w.V(k.id), k.map); break;
          default: k.type = "type" + str(t.draw(3)); w.say("setVertexType " + str(k.id) + " " + k.type); df.setVertexType(w.V(k.id), k.type);
        }
        break; }
      case 9: { touch(); ME &e = anyE(); Edge x = w.Eg(e.id);
        switch (t.pick({4, 2, 2, 2, 2})) {
          case 0: e.m = (long)t.draw(20); w.say("setPreload " + str(e.id) + " " + str(e.m)); df.setPreload(x, e.m); break;
          case 1: e.size = 1 + (long)t.draw(9); w.say("setTokenSize " + str(e.id) + " " + str(e.size)); df.setTokenSize(x, e.size); break;
          case 2: e.type = (int)t.draw(nice ? 1 : 3); w.say("setEdgeType " + str(e.id) + " " + str(e.type)); df.setEdgeType(x, (EDGE_TYPE)e.type); break;
          case 3: e.route.clear(); for (long i = (long)t.draw(4); i > 0; i--) e.route.push_back((edge_id_t)t.draw(9)); w.say("setRoute " + str(e.id) + " [" + vec(e.route) + "]"); df.setRoute(x, e.route); break;
          default: e.ip = "p" + str(t.draw(4)); e.op = "q" + str(t.draw(4)); w.say("set port names " + str(e.id) + " " + e.ip + " " + e.op); df.setEdgeInputPortName(x, e.ip); df.setEdgeOutputPortName(x, e.op);
        }
        break; }
      case 10: {  // change the phase structure of a task and everything attached to it
        touch(); MT &k = anyT(); k.ph = 1 + (long)t.draw(4); w.say("setPhasesQuantity " + str(k.id) + " " + str(k.ph)); df.setPhasesQuantity(w.V(k.id), k.ph); setDur(k);
        for (auto &e : m.E) {
          if (nice && (e.s == k.id || e.t == k.id)) total = sum(e.s == k.id ? e.out : e.in);
          if (e.s == k.id) { e.in = rates(k.ph); w.say("setEdgeInPhases " + str(e.id) + " [" + vec(e.in) + "]"); df.setEdgeInPhases(w.Eg(e.id), e.in); }
          if (e.t == k.id) { e.out = rates(k.ph); w.say("setEdgeOutPhases " + str(e.id) + " [" + vec(e.out) + "]"); df.setEdgeOutPhases(w.Eg(e.id), e.out); }
        }
        break; }
      case 11: {  // initial phases of a task and of its channels
        touch(); MT &k = anyT(); k.iph = (long)t.draw(nice ? 1 : 3); w.say("setInitPhasesQuantity " + str(k.id) + " " + str(k.iph)); df.setInitPhasesQuantity(w.V(k.id), k.iph);
        k.idur.clear(); for (long i = 0; i < k.iph; i++) k.idur.push_back((TIME_UNIT)t.draw(9)); df.setVertexInitDuration(w.V(k.id), k.idur);
        for (auto &e : m.E) {
          if (e.s == k.id) { e.iin = rates(k.iph); w.say("setEdgeInInitPhases " + str(e.id) + " [" + vec(e.iin) + "]"); df.setEdgeInInitPhases(w.Eg(e.id), e.iin); }
          if (e.t == k.id) { e.iout = rates(k.iph); w.say("setEdgeOutInitPhases " + str(e.id) + " [" + vec(e.iout) + "]"); df.setEdgeOutInitPhases(w.Eg(e.id), e.iout); }
        }
        break; }
      case 12: { touch(); std::string n = nm(t); switch (t.draw(3)) { case 0: w.gname = n; df.setGraphName(n); break; case 1: w.aname = n; df.setAppName(n); break; default: w.gtype = n; df.setGraphType(n); } w.say("set graph/application/type name " + n); break; }
      default: {  // analyse
        G g; if (!w.complete(g)) { w.say("(not analysable)"); break; }
        ana++;
        std::vector<long> q; bool cons = rep_vector(g, q); long f = 0; if (cons) for (size_t i = 0; i < q.size(); i++) { f += q[i] * g.phases((int)i); if (q[i] > 100000) { f = 1 << 30; } }
        if (cons && f > 100000) break;
        if (t.chance(1, 2) && cons && f <= 200) {
          // throughput on the edited object and on a fresh one (in a child: the object stays writable here)
          w.say("KPeriodicThroughput"); c.label("throughput");
          Sub a = isolate([&]() -> std::string { df.reset_computation(); call_algo(&df, "KPeriodicThroughput"); return ""; }, 10);
          Sub b = run_algo(g, "KPeriodicThroughput", {}, 10);
          if (a.kind == Sub::CPU || b.kind == Sub::CPU || a.kind == Sub::MEM || b.kind == Sub::MEM) c.inconclusive("throughput " + a.how());
          if (a.kind != b.kind) c.fail("stale", "throughput of the edited graph: " + a.how() + "; of the same graph built afresh: " + b.how());
          long double x = -1, y = -1; bool fx = find_number(a.out, "KPeriodic Throughput is", x), fy = find_number(b.out, "KPeriodic Throughput is", y);
          if (fx != fy || (fx && !near(x, y, 1e-9L))) c.fail("stale", "throughput of the edited graph " + str(x) + ", of the same graph built afresh " + str(y));
        }
        w.say("computeRepetitionVector"); 
        if (w.ro) { df.reset_computation(); w.ro = false; }
        Sub s = isolate([&]() -> std::string { return str(computeRepetitionVector(&df)); }, 10);
        if (!s.ok()) { if (s.kind == Sub::CPU || s.kind == Sub::MEM) c.inconclusive(s.how()); c.fail("abort", "repetition vector analysis aborted: " + s.how()); }
        if ((s.ret == "1") != cons) c.fail("stale", "consistency verdict " + s.ret + " on the edited graph");
        if (!cons) { c.label("inconsistent"); break; }
        computeRepetitionVector(&df); w.ro = true;
        w.eq(df.has_repetition_vector(), true, "availability of the repetition vector");
        // Ni satisfies the balance equations of the present graph, minimal
        std::vector<long> N; for (auto &k : m.T) { long x = df.getNi(w.V(k.id)); if (x <= 0 || x % k.ph) c.fail("stale", "repetition of task " + str(k.id) + " is " + str(x) + " with " + str(k.ph) + " phases"); N.push_back(x / k.ph); }
        long gg = 0; for (long x : N) gg = std::gcd(gg, x);
        for (auto &e : g.E) if (N[(size_t)e.s] * sum(e.in) != N[(size_t)e.t] * sum(e.out)) c.fail("stale", "repetition vector [" + vec(N) + "] does not balance " + e.name + " of the edited graph");
        if (gg != 1) c.fail("stale", "repetition vector [" + vec(N) + "] of the edited graph has a common factor");
        c.label("analysed");
      }
    }
    if (edits && !w.ro && df.has_repetition_vector()) c.fail("stale", "a repetition vector is still announced after an edit");
    if (t.chance(1, 3) || st + 1 == steps) w.check();
  }
  c.nontrivial = edits >= 6 && !m.E.empty();
  if (rem) c.label("removals"); if (ana) c.label("analyses");
  // one forbidden edit: refused, not silently applied
  if (!m.T.empty() && t.chance(1, 3)) {
    std::function<void()> f; std::string what;
    if (w.ro) { f = [&] { df.addVertex("zz"); }; what = "task added to a locked graph";
      switch (t.draw(6)) { case 0: break; case 1: f = [&] { df.addEdge(w.V(m.T[0].id), w.V(m.T[0].id)); }; what = "channel added to a locked graph"; break; case 2: f = [&] { df.removeVertex(w.V(m.T[0].id)); }; what = "task removed from a locked graph"; break;
        case 3: if (!m.E.empty()) { f = [&] { df.removeEdge(w.Eg(m.E[0].id)); }; what = "channel removed from a locked graph"; } break; case 4: if (!m.E.empty()) { f = [&] { df.setPreload(w.Eg(m.E[0].id), 3); }; what = "marking changed in a locked graph"; } break;
        default: f = [&] { df.setVertexDuration(w.V(m.T[0].id), m.T[0].dur); }; what = "durations changed in a locked graph"; } }
    else switch (t.draw(6)) {
      case 0: { std::string n; for (auto &k : m.T) if (!k.name.empty()) n = k.name; if (!n.empty()) { f = [&df, n] { df.addVertex(n); }; what = "second task named " + n; } break; }
      case 1: { std::string n; for (auto &k : m.E) if (!k.name.empty()) n = k.name; if (!n.empty()) { f = [&, n] { df.addEdge(w.V(m.T[0].id), w.V(m.T[0].id), n); }; what = "second channel named " + n; } break; }
      case 2: if (m.T.size() > 1) { f = [&] { df.setVertexId(w.V(m.T[0].id), m.T[1].id); }; what = "task id used twice"; } break;
      case 3: if (m.E.size() > 1) { f = [&] { df.setEdgeId(w.Eg(m.E[0].id), m.E[1].id); }; what = "channel id used twice"; } break;
      case 4: if (m.T[0].ph) { f = [&] { df.setVertexDuration(w.V(m.T[0].id), std::vector<TIME_UNIT>((size_t)m.T[0].ph + 1, 1)); }; what = "more durations than phases"; } break;
      default: if (!m.E.empty() && m.task(m.E[0].s)->ph) { f = [&] { df.setEdgeInPhases(w.Eg(m.E[0].id), std::vector<TOKEN_UNIT>((size_t)m.task(m.E[0].s)->ph + 1, 1)); }; what = "more rates than phases"; }
    }
    if (f) { w.say("forbidden: " + what); c.label("forbidden edit"); Sub s = isolate([&]() -> std::string { f(); return "accepted"; }, 5); if (s.kind == Sub::SIGNAL) c.fail("crash", what + ": " + s.how()); if (s.ok()) c.fail("accepted", what + " is accepted"); }
  }
}
static Reg reg({"P11",
  "random histories of 4-40 edits (tasks and channels added by name/id/automatically, removed, renamed, renumbered, rates, phase counts, initial phases, durations, markings, ports, routes, types), interleaved with full comparison of every query against a reference multigraph and with analyses; a third of the histories end with one forbidden edit; non-trivial = at least 6 edits and a channel left",
  70000, 1500000, 20, true, {"element names are non-empty when given and at most 7 tasks are alive at once", "throughput on the edited object is compared with the same graph built afresh when it has at most 200 firings per iteration"}, run});
}
