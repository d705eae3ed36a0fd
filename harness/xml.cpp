// Independent SDF3 XML writer and observation of a Dataflow through its public interface.
#include "graph.h"
#include <models/Dataflow.h>
#include <algorithm>
namespace vh {

static std::string lst(const std::vector<long> &v, Tape *t, bool spaces) {
  std::string s;
  for (size_t i = 0; i < v.size();) {
    size_t j = i; while (j < v.size() && v[j] == v[i]) j++;
    size_t n = 1;
    bool star = false;
    if (t && t->chance(1, 3)) { n = 1 + t->draw((uint32_t)(j - i)); star = true; }
    if (i) s += spaces && t && t->chance(1, 4) ? ", " : ",";
    if (star) s += str(n) + "*";
    s += str(v[i]);
    i += n;
  }
  return s;
}
static std::string full(const std::vector<long> &init, const std::vector<long> &per, Tape *t, bool sp = false) {
  std::string s;
  if (!init.empty()) s = lst(init, t, sp) + ";";
  return s + lst(per, t, sp);
}
template <class T> static void shuffle(std::vector<T> &v, Tape *t) {
  if (t) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[t->draw((uint32_t)i)]);
}
static std::string attrs(std::vector<std::pair<std::string, std::string>> a, Tape *t) {
  shuffle(a, t);
  std::string s;
  for (auto &x : a) { char q = t && t->chance(1, 3) ? '\'' : '"'; s += std::string(" ") + (t && t->chance(1, 6) ? "\n   " : "") + x.first + "=" + q + x.second + q; }
  return s;
}
// Tape-driven presentation: same graph, different text.
std::string to_xml(const G &g, Tape *t, bool sdf) {
  std::string tag = sdf ? "sdf" : "csdf";
  auto el = [&](const std::string &n, const std::string &at, const std::string &body = "") {
    if (body.empty() && !(t && t->chance(1, 4))) return "<" + n + at + "/>\n";
    return "<" + n + at + ">" + (t && t->chance(1, 8) ? "<!-- c -->" : "") + "\n" + body + "</" + n + ">\n";
  };
  std::vector<std::string> actors, channels, props;
  for (size_t i = 0; i < g.T.size(); i++) {
    auto &k = g.T[i];
    std::vector<std::string> ports;
    for (auto &e : g.E) {
      if ((size_t)e.s == i) ports.push_back(el("port", attrs({{"name", "in_" + e.name}, {"type", "out"}, {"rate", full(e.iin, e.in, t)}}, t)));
      if ((size_t)e.t == i) ports.push_back(el("port", attrs({{"name", "out_" + e.name}, {"type", "in"}, {"rate", full(e.iout, e.out, t)}}, t)));
    }
    if (k.reent) {
      std::vector<long> one(k.dur.size(), 1), ione(k.idur.size(), 1);
      ports.push_back(el("port", attrs({{"name", "lo_" + k.name}, {"type", "out"}, {"rate", full(ione, one, t)}}, t)));
      ports.push_back(el("port", attrs({{"name", "li_" + k.name}, {"type", "in"}, {"rate", full(ione, one, t)}}, t)));
    }
    shuffle(ports, t);
    std::string body; for (auto &p : ports) body += p;
    actors.push_back(el("actor", attrs({{"name", k.name}, {"type", "a"}}, t), body));
    if (k.reent) channels.push_back(el("channel", attrs({{"name", "loop_" + k.name}, {"srcActor", k.name}, {"srcPort", "lo_" + k.name}, {"dstActor", k.name}, {"dstPort", "li_" + k.name}, {"initialTokens", "1"}}, t)));
    std::string et = el("executionTime", " time=\"" + full(k.idur, k.dur, t, false) + "\"");
    props.push_back(el("actorProperties", " actor=\"" + k.name + "\"", el("processor", attrs({{"type", "p"}, {"default", "true"}}, t), et)));
  }
  for (auto &e : g.E) {
    std::vector<std::pair<std::string, std::string>> a = {{"name", e.name}, {"srcActor", g.T[(size_t)e.s].name}, {"srcPort", "in_" + e.name}, {"dstActor", g.T[(size_t)e.t].name}, {"dstPort", "out_" + e.name}};
    if (e.m || !t || t->chance(1, 2)) a.push_back({"initialTokens", str(e.m)});
    if (e.tsize != 1 || !t || t->chance(1, 2)) a.push_back({"size", str(e.tsize)});
    channels.push_back(el("channel", attrs(a, t)));
  }
  shuffle(channels, t); shuffle(props, t);
  if (t) for (auto &e : g.E) if (t->chance(1, 3)) props.push_back(el("channelProperties", " channel=\"" + e.name + "\""));
  std::string body, pb;
  if (t && t->chance(1, 3)) {  // channels and actors interleaved in any order
    std::vector<std::string> all = actors; all.insert(all.end(), channels.begin(), channels.end());
    shuffle(all, t); for (auto &x : all) body += x;
  } else { for (auto &x : actors) body += x; for (auto &x : channels) body += x; }
  for (auto &x : props) pb += x;
  std::string app = el(tag, attrs({{"name", "graph"}, {"type", "gtype"}}, t), body);
  std::string pr = el(tag + "Properties", "", pb);
  if (t && t->chance(1, 6)) std::swap(app, pr);
  std::string doc = t && t->chance(1, 4) ? "" : "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
  return doc + "<sdf3 type=\"" + tag + "\" version=\"1.0\">\n" + el("applicationGraph", " name=\"app\"", app + pr) + "</sdf3>\n";
}
std::string to_xml(const G &g) { return to_xml(g, nullptr, false); }

G read_back(const models::Dataflow *df) {
  G g;
  std::map<std::string, int> id;
  for (Vertex v : df->vertices()) {
    GTask k; k.name = df->getVertexName(v);
    for (auto d : df->getVertexPhaseDuration(v)) k.dur.push_back((long)llround(d));
    for (auto d : df->getVertexInitPhaseDuration(v)) k.idur.push_back((long)llround(d));
    k.reent = (long)df->getReentrancyFactor(v);
    id[k.name] = (int)g.T.size();
    g.T.push_back(k);
  }
  for (auto it : df->edges()) {
    Edge e = *it; GEdge x; x.name = df->getEdgeName(e);
    x.s = id[df->getVertexName(df->getEdgeSource(e))]; x.t = id[df->getVertexName(df->getEdgeTarget(e))];
    for (auto r : df->getEdgeInVector(e)) x.in.push_back((long)r);
    for (auto r : df->getEdgeOutVector(e)) x.out.push_back((long)r);
    for (auto r : df->getEdgeInitInVector(e)) x.iin.push_back((long)r);
    for (auto r : df->getEdgeInitOutVector(e)) x.iout.push_back((long)r);
    x.m = (long)df->getPreload(e); x.tsize = (long)df->getTokenSize(e);
    g.E.push_back(x);
  }
  return g;
}
// comparison by name (presentation order does not count)
std::string canon(const G &g) {
  std::vector<std::string> l;
  auto vs = [](const std::vector<long> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + str(v[i]); return s + "]"; };
  for (auto &k : g.T) l.push_back("task " + k.name + " init" + vs(k.idur) + " dur" + vs(k.dur) + " reent=" + str(k.reent ? 1 : 0));
  for (auto &e : g.E) l.push_back("edge " + e.name + " " + g.T[(size_t)e.s].name + " init" + vs(e.iin) + vs(e.in) + " -> " + g.T[(size_t)e.t].name + " init" + vs(e.iout) + vs(e.out) + " tokens=" + str(e.m) + " size=" + str(e.tsize));
  std::sort(l.begin(), l.end());
  std::string s; for (auto &x : l) s += x + "\n";
  return s;
}
}  // namespace vh
