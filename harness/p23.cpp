// P23 command line: every requested algorithm once, in order, with its own parameters
#include "graph.h"
#include <models/Dataflow.h>
#include <commons/KiterRegistry.h>
#include <fstream>
#include <iostream>
#include <unistd.h>
using namespace vh;
int kiter_main(int, char **);
namespace {
// Two algorithms of our own report what the command line passed to them.
void echo(models::Dataflow *df, parameters_list_t p) { std::cout << "@@ECHO"; for (auto &x : p) std::cout << " [" << x.first << "|" << x.second << "]"; std::cout << "\n" << canon(read_back(df)) << "@@END\n"; }
void echo2(models::Dataflow *df, parameters_list_t p) { std::cout << "@@SECOND"; for (auto &x : p) std::cout << " [" << x.first << "|" << x.second << "]"; std::cout << " " << df->getVerticesCount() << "\n@@END\n"; }
bool a1 = KiterRegistry<transformation_t>::add({"VerifEcho", "", echo}), a2 = KiterRegistry<transformation_t>::add({"VerifEchoTwo", "", echo2});
typedef std::map<std::string, std::string> PM;
std::string show(const PM &p) { std::string o; for (auto &x : p) o += " [" + x.first + "|" + x.second + "]"; return o; }
std::string clean(const std::string &s) { std::istringstream i(s); std::string l, o; while (std::getline(i, l)) if (l.find("Time is") == std::string::npos) o += l + "\n"; return o; }
const char *real[] = {"KPeriodicThroughput", "1PeriodicThroughput", "SPeriodicThroughput", "SymbExec", "PrintInfos", "PrintXML", "ASAPScheduling", "SPeriodicScheduling", "EG1", "CycleDetection", "2PeriodicThroughput"};
}
static void run(Case &c) {
  Tape &t = c.t; GenOpt o; o.max_tasks = 4; o.max_q = 3; o.max_firings = 20; o.extra_edges = 2; o.strong = t.chance(1, 2); o.all_reent1 = true; o.self_loops = false; if (t.chance(1, 5)) o.max_dur = 2000000;
  G g = gen_graph(t, o); std::vector<long> q; if (!rep_vector(g, q) || !live(g, q)) c.discard("not live");
  for (auto &e : g.E) e.tsize = 1;
  int source = t.pick({12, 1, 1, 1, 1, 2, 1});   // file, missing file, empty name, garbage file, unknown generator, generator, file and generator
  std::vector<std::string> args = {"kiter"}; PM pend; struct A { std::string name; PM p; }; std::vector<A> algos; PM genp; bool have_f = false;
  std::string fname = source == 1 ? "/no-such-dir/x.xml" : source == 2 ? "" : "@FILE@";
  auto opt = [&](char k, const std::string &v) { if (t.chance(1, 2) && v.size()) args.push_back(std::string("-") + k + v); else { args.push_back(std::string("-") + k); args.push_back(v); } };
  auto param = [&]() {
    static const char *keys[] = {"A", "period", "x_1", "key with space", "B"}, *vals[] = {"1", "", "a=b", "=", "two words", "-5", "1.5e3"};
    std::string k = keys[t.draw(5)], v = vals[t.draw(7)]; if (t.chance(1, 10)) { opt('p', "noequal"); return; } opt('p', k + "=" + v); pend[k] = v; };
  auto input = [&]() {
    have_f = true;
    if (source <= 3) opt('f', fname);
    else if (source == 4) { opt('g', "NoSuchGenerator"); pend.clear(); }
    else { if (source == 6 && t.chance(1, 2)) opt('f', "@FILE@");
      for (auto &x : std::vector<std::pair<std::string, std::string>>{{"min_vertices_count", "2"}, {"max_vertices_count", "4"}, {"min_edges_count", "2"}, {"max_edges_count", "5"}, {"max_weight", "3"}, {"seed", str(t.draw(1000))}}) { opt('p', x.first + "=" + x.second); pend[x.first] = x.second; }
      opt('g', "GenerateRandomSDF"); genp = pend; pend.clear();
      if (source == 6) { bool has = false; for (auto &a : args) has |= a.find("@FILE@") != std::string::npos; if (!has) opt('f', "@FILE@"); } }
  };
  int n = (int)t.range(1, 5), at = (int)t.draw((uint32_t)n + 1); int unknown = t.chance(1, 8) ? (int)t.draw((uint32_t)n) : -1;
  for (int i = 0; i < n; i++) {
    if (i == at) input();
    for (int k = t.pick({3, 2, 1}); k > 0; k--) param();
    std::string name = i == unknown ? "NoSuchAlgorithm" : (const char *[]){"VerifEcho", "VerifEchoTwo", ""}[t.pick({3, 1, 4})]; if (name.empty()) { name = real[t.draw(sizeof(real) / sizeof(real[0]))]; pend.clear(); }
    // parameters meant for our own algorithms only: a real one could interpret them
    if (name[0] != 'V' && name[0] != 'N') { std::vector<std::string> keep; while (args.size() > 1) { auto &b = args.back(); bool two = args.size() > 2 && args[args.size() - 2] == "-p"; if (two) { args.pop_back(); args.pop_back(); } else if (b.compare(0, 2, "-p") == 0) args.pop_back(); else break; } }
    opt('a', name); algos.push_back({name, pend}); pend.clear();
  }
  if (!have_f) input();
  bool only_echo = true; for (auto &a : algos) only_echo &= a.name[0] == 'V' || a.name[0] == 'N';
  if (only_echo && t.chance(1, 3)) param();       // trailing parameters go to every algorithm
  for (auto &a : algos) a.p.insert(pend.begin(), pend.end());
 // a verbosity only changes what is logged on the error stream
  if (t.chance(1, 4)) { static const char *lv[] = {"1", "2", "3", "4", "7", "8", "10", "0", "KPeriodic"}; std::string l = lv[t.draw(9)]; size_t pos = 1; if (t.chance(1, 3)) pos = args.size(); else while (pos < args.size() && t.chance(1, 2)) { bool lone = args[pos].size() == 2 && args[pos][0] == '-'; pos += lone ? 2 : 1; } if (pos > args.size()) pos = args.size(); if (t.chance(1, 2)) args.insert(args.begin() + (long)pos, "-v" + l); else { args.insert(args.begin() + (long)pos, l); args.insert(args.begin() + (long)pos, "-v"); } c.label("verbosity"); }
  std::string cmd; for (auto &a : args) cmd += " '" + a + "'"; c.describe(cmd + "\n@FILE@ is\n" + (source == 3 ? "not XML\n" : g.str()));
  static const char *sn[] = {"file", "missing file", "empty file name", "file that is not XML", "unknown generator", "generator", "file and generator"};
  c.label(std::string("input: ") + sn[source]); if (unknown >= 0) c.label("unknown algorithm"); if (algos.size() > 1) c.label("several algorithms");
  // the text of every analysis alone
  bool bad = source >= 1 && source <= 4; std::string want; 
  struct Scratch { std::string dir = "/tmp/vhp23.XXXXXX", file; ~Scratch() { if (file.size()) { unlink(file.c_str()); rmdir(dir.c_str()); } } } sc;
  if (mkdtemp(&sc.dir[0]) == nullptr) c.inconclusive("no scratch directory"); sc.file = sc.dir + "/g.xml"; { std::ofstream(sc.file) << (source == 3 ? "not XML\n" : to_xml(g)); }
  auto in_child = [&](const std::function<std::string(const std::string &)> &f) { return isolate([&]() -> std::string { return f(sc.file); }, 30); };
  auto cli = [&](const std::vector<std::string> &av) { return in_child([&](const std::string &file) -> std::string {
    std::vector<std::string> v = av; for (auto &x : v) { size_t p = x.find("@FILE@"); if (p != std::string::npos) x.replace(p, 6, file); }
    std::vector<char *> p; for (auto &x : v) p.push_back(&x[0]); p.push_back(nullptr); kiter_main((int)v.size(), p.data()); return "returned"; }); };
  Sub s = cli(args);
  if (s.kind == Sub::CPU || s.kind == Sub::MEM) c.inconclusive(s.how());
  bool exit0 = (s.kind == Sub::EXIT && s.code == 0) || (s.ok() && s.ret == "returned"), exitn = s.kind == Sub::EXIT && s.code != 0;
  if (bad) { c.nontrivial = true; if (!exitn) c.fail("accepted", "no usable input but " + s.how() + "\n" + s.out); if (s.out.find("@@") != std::string::npos) c.fail("ran", "an algorithm ran without input\n" + s.out); return; }
  c.nontrivial = algos.size() >= 2;
  std::string graph;                              // graph as the front end loads it
  { std::vector<std::string> one = {"kiter"}; if (source == 5) { for (auto &x : genp) one.push_back("-p" + x.first + "=" + x.second); one.push_back("-gGenerateRandomSDF"); } else one.push_back("-f@FILE@"); one.push_back("-aVerifEcho");
    Sub r = cli(one); size_t p = r.out.find("@@ECHO\n"); if (p == std::string::npos) c.fail("load", "the input alone is refused: " + r.how() + r.err); graph = r.out.substr(p + 7);
    if (source != 5) { std::string w = canon(g) + "@@END\n"; if (graph != w) c.fail("graph", "the algorithms receive\n" + graph + "instead of\n" + w); } }
  std::string left = clean(s.out); bool stop = false;
  for (auto &a : algos) {
    std::string exp;
    if (a.name == "NoSuchAlgorithm") { stop = true; break; }
    if (a.name == "VerifEcho") exp = "@@ECHO" + show(a.p) + "\n" + graph;
    else if (a.name == "VerifEchoTwo") { long nv = 0; size_t p = 0; while ((p = graph.find("\ntask ", p)) != std::string::npos) nv++, p++; if (graph.compare(0, 5, "task ") == 0) nv++; exp = "@@SECOND" + show(a.p) + " " + str(nv) + "\n@@END\n"; }
    else {
      std::vector<std::string> one = {"kiter"}; if (source == 5) { for (auto &x : genp) one.push_back("-p" + x.first + "=" + x.second); one.push_back("-gGenerateRandomSDF"); } else one.push_back("-f@FILE@"); one.push_back("-a" + a.name);
      Sub r = cli(one); if (r.kind != Sub::EXIT || r.code != 0) { c.label("analysis refuses the graph"); c.nontrivial = false; return; }
      exp = clean(r.out); c.label("real analysis");
    }
    if (left.compare(0, exp.size(), exp) != 0) c.fail("output", a.name + " should print\n" + exp + "--- but the output continues with\n" + left.substr(0, exp.size() + 200) + "\n--- stderr " + s.err.substr(0, 300));
    left = left.substr(exp.size());
  }
  if (left.size()) c.fail("extra", "unexpected output\n" + left);
  if (stop ? !exitn : !exit0) c.fail("status", std::string(stop ? "an unknown algorithm" : "a valid command line") + " ends with " + s.how());
}
static Reg reg({"P23",
  "random command lines (input file or generator, also missing, unreadable or unknown; 1..5 algorithms, real ones and two registered by the harness that report the parameters and graph they receive; -p options with odd keys and values, joined or separate, in any position; -v with levels and names in one of four) run through the real main function; non-trivial = at least 2 algorithms, or an unusable input",
  14000, 250000, 120, true, {"one -f and at most one -g per command line", "parameters are given to the harness's own algorithms and the generator only"}, run});
