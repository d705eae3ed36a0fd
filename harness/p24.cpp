// P24 printed views (kiter script, DOT graph, DOT mapping, summary): parsed and compared with the graph
#include "graph.h"
#include <models/Dataflow.h>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <unistd.h>
using namespace vh;
namespace {
typedef std::vector<std::string> SV;
std::string trim(const std::string &s) { size_t a = s.find_first_not_of(" \t\n"), b = s.find_last_not_of(" \t\n"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
// numbers of "{1,2,3}", "1,2,3" or "[1,2]"
bool nums(std::string s, std::vector<long double> &v) {
  v.clear(); for (char &ch : s) if (ch == '{' || ch == '}' || ch == '[' || ch == ']' || ch == ',' || ch == '(' || ch == ')') ch = ' ';
  std::istringstream i(s); std::string w; while (i >> w) { try { size_t p; v.push_back(std::stold(w, &p)); if (p < w.size() && w[p] == 'L') p++; if (p != w.size()) return false; } catch (...) { return false; } } return true; }
bool same(const std::string &s, const std::vector<long> &want, bool approx = false) {
  std::vector<long double> v; if (!nums(s, v) || v.size() != want.size()) return false;
  for (size_t i = 0; i < v.size(); i++) if (approx ? !near(v[i], (long double)want[i], 6e-6L) : v[i] != (long double)want[i]) return false; return true; }
struct Obs { ARRAY_INDEX id; std::string name; };

// ---- the C++ text, interpreted: every statement "[auto v =] new_graph->method(args);"
struct Interp {
  models::Dataflow *g = nullptr; std::map<std::string, Vertex> V; std::map<std::string, Edge> E; std::string gname; bool returned = false;
  std::string err;
  static SV split(const std::string &s) { SV o; std::string cur; int d = 0; bool q = false; for (size_t i = 0; i < s.size(); i++) { char ch = s[i]; if (q) { cur += ch; if (ch == '\\') cur += s[++i]; else if (ch == '"') q = false; continue; } if (ch == '"') q = true; if (ch == '(' || ch == '{') d++; if (ch == ')' || ch == '}') d--; if (ch == ',' && d == 0) { o.push_back(trim(cur)); cur.clear(); } else cur += ch; } if (trim(cur).size()) o.push_back(trim(cur)); return o; }
  Vertex vertex(const std::string &a) { if (V.count(a)) return V[a]; size_t p = a.find("getVertexById("); if (p != std::string::npos) return g->getVertexById((ARRAY_INDEX)std::stol(a.substr(p + 14))); throw std::runtime_error("no task " + a); }
  Edge edge(const std::string &a) { if (!E.count(a)) throw std::runtime_error("no channel " + a); return E[a]; }
  static std::string text(const std::string &a) { if (a.size() < 2 || a[0] != '"') throw std::runtime_error("no string " + a); std::string o; for (size_t i = 1; i + 1 < a.size(); i++) { if (a[i] == '\\') i++; o += a[i]; } return o; }
  static std::vector<TOKEN_UNIT> list(const std::string &a) { std::vector<long double> v; if (a[0] != '{' || !nums(a, v)) throw std::runtime_error("no list " + a); return std::vector<TOKEN_UNIT>(v.begin(), v.end()); }
  static std::vector<TIME_UNIT> tlist(const std::string &a) { std::vector<long double> v; if (a[0] != '{' || !nums(a, v)) throw std::runtime_error("no list " + a); return std::vector<TIME_UNIT>(v.begin(), v.end()); }
  void stmt(std::string s) {
    s = trim(s); if (s.empty() || s.compare(0, 9, "std::cout") == 0) return;
    if (s.compare(0, 7, "return ") == 0) { if (trim(s.substr(7)) != gname) throw std::runtime_error("returns " + s); returned = true; return; }
    std::string var; size_t eq = s.find('='), par = s.find('('); if (eq != std::string::npos && eq < par) { std::string l = trim(s.substr(0, eq)); var = l.substr(l.find_last_of(" *") + 1); s = trim(s.substr(eq + 1)); }
    if (s.compare(0, 4, "new ") == 0) { g = new models::Dataflow(); gname = var; return; }
    if (s.compare(0, gname.size() + 2, gname + "->") != 0 || s.back() != ')') throw std::runtime_error("unknown statement " + s);
    par = s.find('('); std::string m = s.substr(gname.size() + 2, par - gname.size() - 2); SV a = split(s.substr(par + 1, s.size() - par - 2));
    if (m == "addVertex") V[var] = a.empty() ? g->addVertex() : a[0][0] == '"' ? g->addVertex(text(a[0])) : a.size() == 2 ? g->addVertex((ARRAY_INDEX)std::stol(a[0]), text(a[1])) : g->addVertex((ARRAY_INDEX)std::stol(a[0]));
    else if (m == "addEdge") E[var] = a.size() == 2 ? g->addEdge(vertex(a[0]), vertex(a[1])) : a[2][0] == '"' ? g->addEdge(vertex(a[0]), vertex(a[1]), text(a[2])) : a.size() == 4 ? g->addEdge(vertex(a[0]), vertex(a[1]), (ARRAY_INDEX)std::stol(a[2]), text(a[3])) : g->addEdge(vertex(a[0]), vertex(a[1]), (ARRAY_INDEX)std::stol(a[2]));
    else if (m == "setVertexName") g->setVertexName(vertex(a.at(0)), text(a.at(1)));
    else if (m == "setInitPhasesQuantity") g->setInitPhasesQuantity(vertex(a.at(0)), std::stol(a.at(1)));
    else if (m == "setPhasesQuantity") g->setPhasesQuantity(vertex(a.at(0)), std::stol(a.at(1)));
    else if (m == "setReentrancyFactor") g->setReentrancyFactor(vertex(a.at(0)), std::stol(a.at(1)));
    else if (m == "setVertexInitDuration") g->setVertexInitDuration(vertex(a.at(0)), tlist(a.at(1)));
    else if (m == "setVertexDuration") g->setVertexDuration(vertex(a.at(0)), tlist(a.at(1)));
    else if (m == "setEdgeInPhases") g->setEdgeInPhases(edge(a.at(0)), list(a.at(1)));
    else if (m == "setEdgeOutPhases") g->setEdgeOutPhases(edge(a.at(0)), list(a.at(1)));
    else if (m == "setEdgeInInitPhases") g->setEdgeInInitPhases(edge(a.at(0)), list(a.at(1)));
    else if (m == "setEdgeOutInitPhases") g->setEdgeOutInitPhases(edge(a.at(0)), list(a.at(1)));
    else if (m == "setPreload") g->setPreload(edge(a.at(0)), std::stol(a.at(1)));
    else if (m == "setEdgeName") g->setEdgeName(edge(a.at(0)), text(a.at(1)));
    else throw std::runtime_error("unknown call " + m);
  }
  void run(const std::string &code) {
    std::string cur; bool q = false; int d = 0; size_t b = code.find("generateGraph"); if (b == std::string::npos) throw std::runtime_error("no function generateGraph"); b = code.find('{', b);
    for (size_t i = b + 1; i < code.size(); i++) { char ch = code[i];
      if (q) { cur += ch; if (ch == '\\') cur += code[++i]; else if (ch == '"') q = false; continue; }
      if (ch == '/' && code[i + 1] == '/') { while (i < code.size() && code[i] != '\n') i++; continue; }
      if (ch == '"') q = true;
      if (ch == '(') d++;
      if (ch == ')') d--;
      if (ch == ';' && d == 0) { stmt(cur); cur.clear(); continue; }
      if ((ch == '{' || ch == '}') && d == 0 && trim(cur).empty()) { if (ch == '{') {} continue; }
      cur += ch; }
    if (trim(cur).size()) throw std::runtime_error("left over: " + cur);
  }
};
// ---- DOT: statements "name [k=v, ...]" and "a -> b [k=v ...]"
struct Dot { std::map<std::string, std::map<std::string, std::string>> nodes; std::vector<std::pair<std::pair<std::string, std::string>, std::map<std::string, std::string>>> arcs; };
bool parse_dot(const std::string &s, Dot &d, std::string &err) {
  size_t i = s.find("digraph"); if (i == std::string::npos) { err = "no digraph"; return false; } i = s.find('{', i); if (i == std::string::npos) { err = "no body"; return false; } i++;
  auto ws = [&]() { while (i < s.size()) { if (isspace((unsigned char)s[i]) || s[i] == ';') i++; else if (s.compare(i, 2, "//") == 0) while (i < s.size() && s[i] != '\n') i++; else break; } };
  auto word = [&]() { std::string w; if (i < s.size() && s[i] == '"') { i++; while (i < s.size() && s[i] != '"') { if (s[i] == '\\') w += s[i++]; w += s[i++]; } i++; } else while (i < s.size() && (isalnum((unsigned char)s[i]) || strchr("_.!#:", s[i]))) w += s[i++]; return w; };
  for (;;) {
    ws(); if (i >= s.size()) { err = "no closing brace"; return false; } if (s[i] == '}') { i++; ws(); if (i != s.size()) { err = "text after the graph"; return false; } return true; }
    std::string a = word(); if (a.empty()) { err = "unexpected " + s.substr(i, 30); return false; } ws();
    std::string b; if (s.compare(i, 2, "->") == 0) { i += 2; ws(); b = word(); if (b.empty()) { err = "no target"; return false; } ws(); }
    if (i < s.size() && s[i] == '=') { i++; ws(); word(); continue; }
    std::map<std::string, std::string> at;
    if (i < s.size() && s[i] == '[') { i++; for (;;) { ws(); while (i < s.size() && s[i] == ',') { i++; ws(); } if (i >= s.size()) { err = "open ["; return false; } if (s[i] == ']') { i++; break; } std::string k = word(); ws(); if (k.empty() || s[i] != '=') { err = "attribute " + k + " at " + s.substr(i, 20); return false; } i++; ws(); at[k] = word(); } }
    if (!b.empty()) d.arcs.push_back({{a, b}, at}); else if (a != "graph" && a != "edge" && a != "node") { if (d.nodes.count(a)) { err = "node " + a + " twice"; return false; } d.nodes[a] = at; }
  }
}
}
static void run(Case &c) {
  Tape &t = c.t; GenOpt o; o.wide = true; o.max_tasks = 6; o.make_live = false; o.disconnected = true; o.zero_durations = true; o.max_firings = 400; o.reent0 = true; if (t.chance(1, 4)) o.max_dur = 3000000;
  G g = gen_graph(t, o); bool ini = t.chance(1, 3);
  if (g.E.size() && t.chance(1, 5)) { auto &e = g.E[t.draw((uint32_t)g.E.size())]; e.in[t.draw((uint32_t)e.in.size())] += 1; }
  if (t.chance(1, 8)) for (auto &e : g.E) e.m += (long)t.draw(3000000);
  if (ini) { std::vector<long> ip; for (auto &x : g.T) { long n = (long)t.draw(3); ip.push_back(n); for (long i = 0; i < n; i++) x.idur.push_back((long)t.draw(9)); } for (auto &e : g.E) { for (long i = 0; i < ip[(size_t)e.s]; i++) e.iin.push_back((long)t.draw(4)); for (long i = 0; i < ip[(size_t)e.t]; i++) e.iout.push_back((long)t.draw(4)); } }
  std::vector<long> q; bool cons = rep_vector(g, q);
  int view = t.pick({3, 2, 3, 2}); bool file = view != 0 && view != 2 && t.chance(1, 3), verbose = t.chance(1, 3), noc = view >= 2 && t.chance(view == 3 ? 1 : 1, view == 3 ? 1 : 2), col = t.chance(1, 2), con = t.chance(1, 2);
  for (auto &x : g.T) if (x.dur.size() > 1) {} 
  static const char *vn[] = {"PrintKiter", "PrintGraph", "PrintInfos", "PrintMapping"};
  unsigned seed = t.draw(1000); bool routed = noc && t.chance(2, 3); long side = 2; while (side * side < (long)g.T.size()) side++;
  c.describe(g.str() + vn[view] + (file ? " filename" : "") + (verbose ? " verbose" : "") + (noc ? " on a NoC" : "") + (routed ? " routed" : "") + "\n"); c.label(vn[view]); c.label(cons ? "consistent" : "inconsistent"); if (ini) c.label("initial phases"); c.nontrivial = g.T.size() >= 2 && g.E.size() >= 1;
  struct Scratch { std::string dir = "/tmp/vhp24.XXXXXX", f; ~Scratch() { if (f.size()) { unlink(f.c_str()); rmdir(dir.c_str()); } } } sc;
  if (file) { if (!mkdtemp(&sc.dir[0])) c.inconclusive("no scratch directory"); sc.f = sc.dir + "/out"; }
  std::map<std::string, Obs> dummy; 
  Sub s = isolate([&]() -> std::string {
    auto *df = build(g); if (noc) { srand(seed); NoC n((int)side, (int)side); df->setNoC(n); call_algo(df, "randomMapping"); if (routed) call_algo(df, "xyRouting"); }
    std::string before = canon(read_back(df)); std::cout.copyfmt(std::ios(nullptr)); std::cout << std::flush;
    // what the view must show
    std::ostringstream o; 
    for (auto &x : g.T) { auto v = df->getVertexByName(x.name); o << df->getVertexId(v) << " " << df->getMapping(v) << "\n"; }
    for (auto &e : g.E) { auto d = df->getEdgeByName(e.name); o << df->getEdgeId(d) << " " << df->getRoute(d).size(); for (auto r : df->getRoute(d)) o << " " << r; o << "\n"; }
    o << df->getNoC().getNodes().size() << "\n"; for (auto &n : df->getNoC().getNodes()) o << n.id << "\n"; o << df->getNoC().getEdges().size() << "\n"; for (auto &e : df->getNoC().getEdges()) o << e.id << " " << e.src << " " << e.dst << "\n";
    std::cout << "@@BEGIN\n"; Params p; if (file) p["filename"] = sc.f; if (verbose && view == 0) p["verbose"] = "1"; if (view == 3) { if (col) p["color_routes"] = "1"; if (con) p["connect_tasks"] = "1"; }
    call_algo(df, vn[view], p); std::cout << "@@END\n" << std::flush;
    if (canon(read_back(df)) != before) throw std::runtime_error("the graph changed");
    return o.str();
  }, 10);
  if (!s.ok()) c.fail("abort", s.how());
  size_t a = s.out.find("@@BEGIN\n"), b = s.out.find("@@END\n"); if (a == std::string::npos || b == std::string::npos) c.inconclusive("no output"); std::string text = s.out.substr(a + 8, b - a - 8);
  if (file) { if (trim(text).size()) c.fail("file", "text on the output although a file was asked\n" + text); std::ifstream f(sc.f); std::ostringstream r; r << f.rdbuf(); text = r.str(); }
  std::istringstream is(s.ret); std::vector<long> tid(g.T.size()), map(g.T.size()), eid(g.E.size()); std::vector<std::vector<long>> rt(g.E.size());
  for (size_t i = 0; i < g.T.size(); i++) is >> tid[i] >> map[i];
  for (size_t i = 0; i < g.E.size(); i++) { size_t n; is >> eid[i] >> n; rt[i].resize(n); for (auto &r : rt[i]) is >> r; }
  size_t nn, ne; is >> nn; std::vector<long> nodes(nn); for (auto &x : nodes) is >> x; is >> ne; std::vector<std::array<long, 3>> links(ne); for (auto &l : links) is >> l[0] >> l[1] >> l[2];
  auto bad = [&](const std::string &m) { c.fail(vn[view], m + "\n--- printed\n" + text); };
  if (view == 0) {
    Sub r = isolate([&]() -> std::string { Interp in; in.run(text); if (!in.returned) return "RETURN"; std::string ids; for (auto &x : g.T) ids += str(in.g->getVertexId(in.g->getVertexByName(x.name))) + " "; return canon(read_back(in.g)) + "|" + ids; }, 10);
    if (!r.ok()) bad("the generated code fails: " + r.how() + " " + r.exc);
    if (r.ret == "RETURN") bad("the generated function does not return the graph");
    G w = g; std::string ids; for (auto x : tid) ids += str(x) + " "; for (auto &e : w.E) e.tsize = 0;
    std::string want = isolate([&]() -> std::string { return canon(read_back(build(w))); }, 10).ret + "|" + ids;
    if (r.ret != want) bad("the generated code builds\n" + r.ret + "\ninstead of\n" + want);
  } else if (view == 1) {
    Dot d; std::string err; if (!parse_dot(text, d, err)) bad("not a DOT graph: " + err);
    if (d.nodes.size() != g.T.size() || d.arcs.size() != g.E.size()) bad("wrong number of nodes or arcs");
    std::map<std::string, size_t> at;
    for (size_t i = 0; i < g.T.size(); i++) { std::string found; for (auto &n : d.nodes) { std::string l = n.second["label"]; if (l == g.T[i].name || l.compare(0, g.T[i].name.size() + 1, g.T[i].name + "\n") == 0) { if (!found.empty()) bad("task twice"); found = n.first; } } if (found.empty()) bad("task " + g.T[i].name + " is missing"); at[found] = i; }
    std::vector<std::string> want, got; auto num = [](std::string x) { std::vector<long double> v; std::string o; x = std::string(x); for (auto &ch : x) if (ch == ';') ch = ','; if (!nums(x, v)) return "?" + x; for (auto f : v) o += str((long)f) + ","; return o; };
    for (auto &e : g.E) { auto l = [&](std::vector<long> i, const std::vector<long> &p) { i.insert(i.end(), p.begin(), p.end()); std::string o; for (auto f : i) o += str(f) + ","; return o; }; want.push_back(str(e.s) + ">" + str(e.t) + " m" + str(e.m) + " " + l(e.iin, e.in) + " " + l(e.iout, e.out)); }
    for (auto &x : d.arcs) { if (!at.count(x.first.first) || !at.count(x.first.second)) bad("arc between unknown nodes"); std::string m = x.second["label"]; size_t k = m.find("preload:"); if (k != std::string::npos) m = m.substr(k + 8); got.push_back(str(at[x.first.first]) + ">" + str(at[x.first.second]) + " m" + m + " " + num(x.second["taillabel"]) + " " + num(x.second["headlabel"])); }
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); if (want != got) { std::string w; for (auto &x : want) w += x + "\n"; w += "--- but\n"; for (auto &x : got) w += x + "\n"; bad("the arcs should be\n" + w); }
  } else if (view == 2) {
    std::istringstream in(text); std::string l; std::map<std::string, std::string> kv; std::map<std::string, std::string> trow, crow; int mode = 0;
    while (std::getline(in, l)) { std::string x = trim(l); if (x == "TASKS") { mode = 1; std::getline(in, l); continue; } if (x == "CHANNELS") { mode = 2; std::getline(in, l); continue; } if (x.empty()) { if (mode) mode = 0; continue; }
      if (mode == 0) { size_t k = x.rfind("= "); if (k != std::string::npos) kv[trim(x.substr(0, k))] = trim(x.substr(k + 2)); else kv[x] = ""; }
      else { size_t p = x.find(" ("), e = x.find(')', p); if (p == std::string::npos || e == std::string::npos) bad("line " + x); auto &row = mode == 1 ? trow : crow; std::string key = trim(x.substr(0, p)); if (row.count(key)) bad(key + " twice"); row[key] = trim(x.substr(p + 2, e - p - 2)) + " " + x.substr(e + 1); } }
    auto val = [&](const char *k, long w) { auto it = kv.find(k); if (it == kv.end() || it->second != str(w)) bad(std::string(k) + " should be " + str(w)); };
    val("Task count", (long)g.T.size()); val("Channel count", (long)g.E.size());
    long sq = 0, sp = 0, sn = 0; std::vector<long> N(g.T.size(), 0); 
    bool lone = false; { std::vector<int> deg(g.T.size(), 0); for (auto &e : g.E) deg[(size_t)e.s]++, deg[(size_t)e.t]++; for (auto x : deg) lone |= x == 0; }
    auto comp = components(g); bool single = true; for (auto x : comp) single &= x == comp[0];
    if (cons) for (size_t i = 0; i < g.T.size(); i++) N[i] = q[i] * g.phases((int)i), sq += q[i], sp += g.phases((int)i), sn += N[i];
    bool incon = kv.count("This dataflow graph is not consistent!") > 0; if (incon == cons && !lone) bad("consistency is " + str(cons));
    if (cons && single && !lone) { val("Sum(qt)", sq); val("Sum(phit)", sp); val("Sum(Nt=qt*phit) (complexity)", sn); }
    if (trow.size() != g.T.size() || crow.size() != g.E.size()) bad("wrong number of lines");
    for (size_t i = 0; i < g.T.size(); i++) { auto it = trow.find(g.T[i].name); if (it == trow.end()) bad("task " + g.T[i].name); std::istringstream r(it->second); std::string id, ind, outd, dur, rep, ph, mp; r >> id >> ind >> outd >> dur >> rep >> ph >> mp; long di = 0, dx = 0; for (auto &e : g.E) di += e.t == (int)i, dx += e.s == (int)i;
      if (id != str(tid[i]) || ind != str(di) || outd != str(dx) || ph != str(g.phases((int)i)) || mp != str(map[i]) || !same(dur, {sum(g.T[i].dur)}, true)) bad("task " + g.T[i].name);
      if (!cons ? (rep != "N/A" && !lone) : (single && !lone && rep != str(N[i]))) bad("repetition of " + g.T[i].name); }
    for (size_t i = 0; i < g.E.size(); i++) { auto &e = g.E[i]; auto it = crow.find(e.name); if (it == crow.end()) bad("channel " + e.name); std::string row = it->second; size_t br = row.find('{'); if (br != std::string::npos) row.insert(br, " "); std::istringstream r(row); std::string id, ss, tt, ti, to, m, ro; r >> id >> ss >> tt >> ti >> to >> m; std::getline(r, ro);
      if (id != str(eid[i]) || ss != str(tid[(size_t)e.s]) || tt != str(tid[(size_t)e.t]) || ti != str(sum(e.in)) || to != str(sum(e.out)) || m != str(e.m) || !same(ro, rt[i])) bad("channel " + e.name); }
  } else {
    Dot d; std::string err; if (!parse_dot(text, d, err)) bad("not a DOT graph: " + err);
    std::multiset<std::pair<long, long>> want, got; for (auto &l : links) want.insert({l[1], l[2]}); size_t tasks = 0, conn = 0;
    for (auto &x : d.nodes) tasks += x.first.compare(0, 5, "task_") == 0; if (tasks != g.T.size()) bad("wrong number of tasks"); if (d.nodes.size() != nodes.size() + tasks) bad("wrong number of NoC nodes");
    for (auto n : nodes) if (!d.nodes.count(str(n))) bad("node " + str(n) + " is missing");
    for (size_t i = 0; i < g.T.size(); i++) { auto it = d.nodes.find("task_" + str(tid[i])); if (it == d.nodes.end()) bad("task " + g.T[i].name); if (it->second["label"] != g.T[i].name) bad("label of task " + g.T[i].name);
      double x, y, nx, ny; if (sscanf(it->second["pos"].c_str(), "%lf,%lf", &x, &y) != 2) continue; auto nd = d.nodes.find(str(map[i])); if (nd == d.nodes.end() || sscanf(nd->second["pos"].c_str(), "%lf,%lf", &nx, &ny) != 2) bad("core of task " + g.T[i].name); if (std::fabs(x - nx) > 0.2 || std::fabs(y - ny) > 0.2) bad("task " + g.T[i].name + " is drawn away from its core"); }
    std::multiset<std::pair<long, long>> tc; 
    for (auto &x : d.arcs) { if (x.first.first.compare(0, 5, "task_") == 0) { conn++; tc.insert({std::stol(x.first.first.substr(5)), std::stol(x.first.second.substr(5))}); continue; } long u = std::stol(x.first.first), v = std::stol(x.first.second); got.insert({u, v});
      size_t use = 0; for (auto &l : links) if (l[1] == u && l[2] == v) for (auto &r : rt) for (auto k : r) use += k == l[0]; size_t colors = x.second.count("color") ? (size_t)std::count(x.second["color"].begin(), x.second["color"].end(), '#') : 0; if (col && colors != use) bad("link " + str(u) + "->" + str(v) + " is used by " + str(use) + " channels"); if (!col && colors) bad("colours although not asked"); }
    if (got != want) bad("the links of the NoC differ"); std::multiset<std::pair<long, long>> tw; if (con) for (auto &e : g.E) tw.insert({tid[(size_t)e.s], tid[(size_t)e.t]}); if (tc != tw) bad("connections between tasks differ");
  }
}
static Reg reg({"P24",
  "random (C)SDF graphs (consistent or not, initial phases, large durations and markings, several components, mapped and routed on a NoC) and one printed view each: C++ script, DOT graph, summary, DOT mapping, to the output or to a file; the text is parsed back (the C++ script is interpreted statement by statement on a new graph); non-trivial = at least 2 tasks and a channel",
  60000, 1000000, 30, true, {"names without quotes", "repetition factors in the summary are compared on connected graphs", "decimal places of the summary: 6 digits"}, run});
