// P29 printed schedules (text, chart, DOT, TikZ) show the schedule
#include "periodic.h"
#include <models/Dataflow.h>
#include <models/Scheduling.h>
#include <models/repetition_vector.h>
#include <printers/stdout.h>
#include <algorithm>
using namespace vh;

struct Shown { std::vector<LD> init, per; LD period = 0; std::vector<LD> dur; int times = 0; std::string chart; int charts = 0; };
static std::vector<LD> numbers(const std::string &s) {
  std::vector<LD> r; const char *p = s.c_str();
  while (*p) { char *q; if (isdigit((unsigned char)*p) || (*p == '-' && isdigit((unsigned char)p[1]))) { r.push_back(strtold(p, &q)); p = q; } else p++; }
  return r;
}
static std::string part(const std::string &l, const std::string &a, const std::string &b) {
  size_t i = l.find(a); if (i == std::string::npos) return "?"; i += a.size(); size_t j = b.empty() ? l.size() : l.find(b, i); return j == std::string::npos ? "?" : l.substr(i, j - i);
}
// the lines of asText and asASCII; ids are those of the graph the harness builds (1, 2, ...)
static std::vector<Shown> read(Case &c, const G &g, const std::string &out) {
  std::vector<Shown> r(g.T.size()); std::istringstream is(out); std::string l;
  while (std::getline(is, l)) {
    size_t k = 0; while (k < l.size() && l[k] == ' ') k++; size_t d = k; while (d < l.size() && isdigit((unsigned char)l[d])) d++;
    if (d == k) continue; long id = std::atol(l.c_str() + k);
    if (l.compare(d, 2, " |") == 0) { if (id < 1 || id > (long)g.T.size()) c.fail("chart", "line of task " + str(id) + "\n" + out); r[(size_t)id - 1].chart = l.substr(d + 2); r[(size_t)id - 1].charts++; }
    else if (l.compare(d, 2, ") ") == 0 && l.find(" | starts:") != std::string::npos) {
      if (id < 1 || id > (long)g.T.size() || part(l, ") ", " | starts:") != g.T[(size_t)id - 1].name) c.fail("text", "line " + l);
      auto &x = r[(size_t)id - 1]; x.times++; x.init = numbers(part(l, " | starts:", " | period:")); auto p = numbers(part(l, " | period:", " | periodic starts:")); if (p.size() == 1) x.period = p[0]; else c.fail("text", "line " + l);
      x.per = numbers(part(l, " | periodic starts:", " | durations:")); x.dur = numbers(part(l, " | durations:", ""));
    }
  }
  return r;
}
static bool close(LD a, LD b) { return near(a, b, 1e-5L) || std::fabs((double)(a - b)) < 1e-9; }
static bool close(const std::vector<LD> &a, const std::vector<LD> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!close(a[i], b[i])) return false; return true; }
// "" when the chart shows the executions; slack: relative uncertainty of the start times (0: exact)
static std::string chart(const std::string &s, size_t width, const std::vector<LD> &init, const std::vector<LD> &per, LD period, const std::vector<LD> &dur, LD slack) {
  if (s.size() != width) return "the chart has " + str(s.size()) + " columns instead of " + str(width);
  std::vector<std::pair<LD, LD>> ex; size_t k = 0;
  for (LD x : init) ex.push_back({x, dur[k++ % dur.size()]});
  if (!per.empty()) { LD lo = *std::min_element(per.begin(), per.end()); for (long i = 0; i < 100000 && lo + (LD)i * period < (LD)width + 1; i++) { for (LD x : per) ex.push_back({x + (LD)i * period, dur[k++ % dur.size()]}); if (period <= 0) break; } }
  for (size_t i = 0; i < width; i++) {
    LD t = (LD)i, e = slack > 0 ? slack * (t + 2) : 1e-9L; bool ds = false, ps = false, dr = false, pr = false;
    for (auto &x : ex) {
      ds |= x.first >= t + (slack > 0 ? e : 0) && x.first < t + 1 - e; ps |= x.first >= t - e && x.first < t + 1 + e;
      if (x.second > 0) { dr |= x.first < t + 1 - e && x.first + x.second > t + e; pr |= x.first < t + 1 + e && x.first + x.second > t - e && (slack > 0 || (x.first < t + 1 && x.first + x.second > t)); }
    }
    char z = s[i]; std::string at = " at time " + str(i) + " the chart shows '" + std::string(1, z) + "'";
    if (z != '@' && z != '#' && z != ' ') return at; if (ds && z != '@') return at + " where an execution starts"; if (z == '@' && !ps) return at + " where nothing starts";
    if (z == '#' && !pr) return at + " where nothing runs"; if (z == ' ' && dr) return at + " where an execution is running";
  }
  return "";
}
static std::string given(const std::vector<LD> &a, const std::vector<LD> &b, LD p) { return "starts {" + vec(a) + "} then {" + vec(b) + "} every " + str(p); }

// any schedule put in the container
static void container(Case &c) {
  Tape &t = c.t; G g; int n = (int)t.range(1, 4); LD unit = t.chance(1, 3) ? 0.25L : 1; std::vector<Shown> S((size_t)n); long end = t.range(1, 40), width = t.skew(0, 100); std::string d = "container, charts of " + str(width) + " columns, DOT up to " + str(end) + "\n";
  bool overlap = t.chance(1, 4), two = false;
  for (int i = 0; i < n; i++) {
    GTask k; k.name = "t" + str(i); int ph = (int)t.range(1, 3); for (int j = 0; j < ph; j++) k.dur.push_back(t.chance(1, 8) ? 0 : t.skew(1, 9)); g.T.push_back(k); auto &s = S[(size_t)i];
    long now = t.skew(0, 12), a = (long)t.draw(4), b = t.range(1, 5); size_t x = 0; LD first = 0;
    for (long j = 0; j < a + b; j++) { (j < a ? s.init : s.per).push_back((LD)now * unit); if (j == a) first = (LD)now * unit; long len = k.dur[x++ % k.dur.size()]; long need = (long)std::ceil((double)((LD)len / unit)); now += (overlap ? 0 : need) + (long)t.skew(0, 6); }
    long longest = *std::max_element(k.dur.begin(), k.dur.end()); s.period = std::max((LD)now * unit - first + (overlap ? 1 : (LD)longest), unit); two |= a + b > 1;
    d += k.name + " durations " + vec(k.dur) + " " + given(s.init, s.per, s.period) + "\n";
  }
  c.describe(d); c.label(unit == 1 ? "container, integer times" : "container, quarters"); c.nontrivial = two;
  Sub s = isolate([&]() -> std::string {
    auto *df = build(g); scheduling_t sc;
    for (int i = 0; i < n; i++) { auto &x = S[(size_t)i]; sc.set(df->getVertexId(df->getVertexByName(g.T[(size_t)i].name)), task_schedule_t(x.init, {x.period, x.per})); }
    models::Scheduling sch(df, 17.5, sc); if (sch.getGraphPeriod() != 17.5L || sch.getDataflow() != df || std::fabs((double)(sch.getGraphThroughput() * 17.5L - 1)) > 1e-9) return "container";
    std::cout << sch.asASCII((int)width) << sch.asText(); std::cout << "VERBOSE\n"; sch.verbose_print(); std::cout << "DOT\n" << printers::PeriodicScheduling2DOT(df, sch, end, true, 1, 1);
    return "";
  }, 10);
  if (s.kind == Sub::CPU) c.fail("hang", "printing does not end");
  if (!s.ok()) c.fail("abort", s.how()); if (!s.ret.empty()) c.fail("container", "the container does not return what it was given");
  size_t v = s.out.find("VERBOSE\n"), dt = s.out.find("DOT\n"); if (v == std::string::npos || dt == std::string::npos) c.fail("text", s.out);
  auto R = read(c, g, s.out.substr(0, v)); std::string verb = s.out.substr(v, dt - v), dot = s.out.substr(dt); std::set<std::string> nodes;
  for (int i = 0; i < n; i++) {
    auto &x = S[(size_t)i]; auto &r = R[(size_t)i]; auto &k = g.T[(size_t)i]; std::vector<LD> du(k.dur.begin(), k.dur.end()); std::string who = k.name + ": ";
    if (r.times != 1 || r.charts != 1) c.fail("text", who + str(r.times) + " lines of text and " + str(r.charts) + " charts\n" + s.out);
    if (!close(r.init, x.init) || !close(r.per, x.per) || !close(r.period, x.period) || !close(r.dur, du)) c.fail("text", who + "the text says " + given(r.init, r.per, r.period) + " durations {" + vec(r.dur) + "}");
    std::string e = chart(r.chart, (size_t)width, x.init, x.per, x.period, du, 0); if (!e.empty()) c.fail("chart", who + e + "\n|" + r.chart + "|");
    std::istringstream vs(verb); std::string l; int seen = 0;
    while (std::getline(vs, l)) if (l.rfind("Task " + k.name + " ", 0) == 0) { seen++; auto pp = numbers(part(l, " period=", "")); if (!close(numbers(part(l, "duration=[", "initial starts=")), du) || !close(numbers(part(l, "initial starts=", "periodic starts=")), x.init) || !close(numbers(part(l, "periodic starts=", " period=")), x.per) || pp.size() != 1 || !close(pp[0], x.period)) c.fail("verbose", l); }
    if (seen != 1) c.fail("verbose", who + str(seen) + " lines\n" + verb);
    // DOT: periodic executions, complete phases
    if (!x.init.empty() || x.per.size() % du.size()) continue;
    c.label("drawn"); std::vector<std::pair<LD, LD>> want, got; std::istringstream ds(dot);
    for (long m = 0; x.per[0] + x.period * (LD)m < (LD)end; m++) for (size_t j = 0; j < x.per.size(); j++) want.push_back({x.per[j] + x.period * (LD)m, du[j % du.size()]});
    while (std::getline(ds, l)) if (l.rfind("\"" + k.name, 0) == 0 && l.find("label=\"\"") != std::string::npos) {
      auto w = numbers(part(l, "width=\"", "\"")), p = numbers(part(l, "pos=\"", ",")); if (w.size() != 1 || p.size() != 1) c.fail("dot", l);
      if (!nodes.insert(part(l, "\"", "\"")).second) c.fail("dot", "two nodes named by " + l); got.push_back({p[0] - w[0] * 36, w[0] * 72});
    }
    bool ok = want.size() == got.size(); for (size_t j = 0; ok && j < want.size(); j++) ok = std::fabs((double)(want[j].first - got[j].first)) < 2e-3 && std::fabs((double)(want[j].second - got[j].second)) < 2e-3;
    if (!ok) { std::string o; for (auto &y : got) o += " " + str(y.first) + "+" + str(y.second); std::string w; for (auto &y : want) w += " " + str(y.first) + "+" + str(y.second); c.fail("dot", who + "drawn executions" + o + ", expected" + w); }
  }
}
static G some_graph(Case &c, GenOpt &o, std::vector<long> &q) {
  Tape &t = c.t; o.max_tasks = 4; o.max_phases = (int[]){1, 3}[t.pick({1, 2})]; o.max_firings = 24; o.extra_edges = 3; o.strong = t.chance(1, 2); G g = gen_graph(t, o);
  if (!rep_vector(g, q) || firings(g, q) > 40) c.discard("too large"); if (!live(g, q)) c.discard("deadlock"); return g;
}
// the scheduling commands: chart = text, text = an executable schedule
static void commands(Case &c) {
  Tape &t = c.t; GenOpt o; o.wide = true; o.wide_dur = false; int which = t.pick({3, 2, 2}); static const char *names[] = {"1PeriodicScheduling", "SPeriodicScheduling", "ASAPScheduling"};
  if (which == 0) { o.reent0 = t.chance(1, 4); o.zero_durations = t.chance(1, 4); } else o.all_reent1 = true;
  std::vector<long> q; G g = some_graph(c, o, q); if (which) for (auto &x : g.T) for (auto &d : x.dur) if (!d) d = 1;
  long width = (long[]){80, 40, 7, 0, 200}[t.draw(5)]; Params p; if (width != 80 || t.chance(1, 2)) p["LINE"] = str(width);
  c.describe(std::string(names[which]) + " LINE=" + str(width) + "\n" + g.str()); c.label(names[which]); c.nontrivial = firings(g, q) > (long)g.T.size() && width > 20 && !g.E.empty();
  Rat want; Mcr m = which == 2 ? exact_throughput(g, q, want) : which == 1 ? speriodic_throughput(g, q, false, want) : kperiodic_throughput(g, q, std::vector<long>(g.T.size(), 1), want);
  if (m != Mcr::FINITE) c.discard("no schedule of finite throughput");
  Sub s = run_algo(g, names[which], p, 15);
  if (s.kind == Sub::CPU) c.fail("hang", "the command does not end"); if (s.kind == Sub::MEM) c.inconclusive(s.how()); if (!s.ok()) c.fail("abort", s.how());
  auto R = read(c, g, s.out); Sched sc; sc.omega = 1 / want.f();
  for (size_t i = 0; i < g.T.size(); i++) {
    auto &r = R[i]; std::vector<LD> du(g.T[i].dur.begin(), g.T[i].dur.end());
    if (which == 2 && r.charts == 0 && r.times == 0) { c.label("component without schedule (see P06)"); continue; }
    if (r.charts != 1 || r.times != 1) c.fail("text", g.T[i].name + ": " + str(r.times) + " lines of text and " + str(r.charts) + " charts\n" + s.out);
    if (!close(r.dur, du)) c.fail("text", g.T[i].name + ": durations {" + vec(r.dur) + "}");
    std::string e = chart(r.chart, (size_t)width, r.init, r.per, r.period, du, 1e-4L); if (!e.empty()) c.fail("chart", g.T[i].name + ": " + e + "\n" + s.out);
    sc.t.push_back({r.init, r.period, r.per});
  }
  if (which < 2) { std::string e = check(g, q, sc, 1e-4L); if (!e.empty()) c.fail("schedule", "the schedule printed: " + e + "\n" + s.out); }
}
static std::vector<std::string> braces(const std::string &l) { std::vector<std::string> r; size_t i = 0; while ((i = l.find('{', i)) != std::string::npos) { size_t j = l.find('}', i); if (j == std::string::npos) break; r.push_back(l.substr(i + 1, j - i - 1)); i = j; } return r; }
static void tikz(Case &c) {
  Tape &t = c.t; GenOpt o; o.reent0 = t.chance(1, 5); std::vector<long> q; G g = some_graph(c, o, q); Params p; p["SCHED"] = "1"; std::vector<long> K; std::string d = "PrintKPeriodicScheduling SCHED=1";
  for (auto &x : g.T) { K.push_back(t.range(1, 3)); if (K.back() > 1) { p[x.name] = str(K.back()); d += " " + x.name + "=" + str(K.back()); } }
  c.describe(d + "\n" + g.str()); c.label("TikZ"); c.nontrivial = firings(g, q) > (long)g.T.size() && !g.E.empty();
  Rat want; if (kperiodic_throughput(g, q, K, want) != Mcr::FINITE) c.discard("no schedule of finite throughput"); for (auto &x : g.T) for (long y : x.dur) if (y == 0) c.discard("zero duration");
  Sub s = run_algo(g, "PrintKPeriodicScheduling", p, 15);
  if (s.kind == Sub::CPU) c.fail("hang", "the command does not end"); if (s.kind == Sub::MEM) c.inconclusive(s.how()); if (!s.ok()) c.fail("abort", s.how());
  std::map<std::string, std::string> name; struct B { LD start, dur, period; long rep; }; std::map<std::string, std::vector<B>> blocks; std::istringstream is(s.out); std::string l; std::string last; bool begun = false, ended = false; LD end = 0;
  while (std::getline(is, l)) {
    auto b = braces(l);
    if (l.rfind("\\begin{scheduling}", 0) == 0) { if (b.size() != 5 || b[1] != str(g.T.size())) c.fail("tikz", l); begun = true; end = strtold(b[4].c_str(), nullptr); }
    else if (l.rfind("\\end{scheduling}", 0) == 0) ended = true;
    else if (l.rfind("\\taskname", 0) == 0) { if (b.size() != 2 || !name.emplace(b[0], b[1]).second || std::atol(b[0].c_str()) < 0 || std::atol(b[0].c_str()) >= (long)g.T.size()) c.fail("tikz", l); }
    else if (l.rfind("\\addexecution", 0) == 0) { if (b.size() != 4) c.fail("tikz", l); blocks[b[0]].push_back({strtold(b[3].c_str(), nullptr), strtold(b[2].c_str(), nullptr), -1, 0}); last = b[0]; }
    else if (l.rfind("\\addperiodictask", 0) == 0) { if (b.size() != 6 || b[0] != last) c.fail("tikz", l); auto &x = blocks[last].back(); x.period = strtold(b[4].c_str(), nullptr); x.rep = std::atol(b[5].c_str()); if (!close(strtold(b[2].c_str(), nullptr), x.dur) || !near(strtold(b[3].c_str(), nullptr), x.start + x.period, 2e-5L)) c.fail("tikz", "repetition " + l + " of an execution at " + str(x.start) + " of duration " + str(x.dur)); }
  }
  if (!begun || !ended || name.size() != g.T.size()) c.fail("tikz", "incomplete output\n" + s.out);
  Sched sc; sc.omega = 1 / want.f();
  for (size_t i = 0; i < g.T.size(); i++) {
    std::vector<B> v; for (auto &x : name) if (x.second == g.T[i].name) v = blocks[x.first];
    if (v.size() != (size_t)K[i] * g.T[i].dur.size()) c.fail("tikz", g.T[i].name + " has " + str(v.size()) + " executions drawn\n" + s.out);
    std::stable_sort(v.begin(), v.end(), [](const B &a, const B &b) { return a.start < b.start; }); TS ts; ts.period = v[0].period;
    for (size_t k = 0; k < v.size(); k++) {
      if (!close(v[k].period, ts.period)) c.fail("tikz", g.T[i].name + " has periods " + str(v[k].period) + " and " + str(ts.period));
      if (v[k].start + v[k].period * (LD)(v[k].rep + 1) > end + 1e-4L * (1 + end)) c.fail("tikz", g.T[i].name + " is drawn " + str(v[k].rep) + " times from " + str(v[k].start + v[k].period) + ", beyond the end of the picture at " + str(end));
      if (g.T[i].reent && v[k].dur != (LD)g.T[i].dur[k % g.T[i].dur.size()]) c.fail("tikz", "execution " + str(k) + " of " + g.T[i].name + " is drawn with duration " + str(v[k].dur)); ts.starts.push_back(v[k].start);
    }
    sc.t.push_back(ts);
  }
  std::string e = check(g, q, sc, 1e-4L); if (!e.empty()) c.fail("schedule", "the schedule drawn: " + e + "\n" + s.out);
}
static void run(Case &c) { switch (c.t.pick({4, 4, 2})) { case 0: container(c); break; case 1: commands(c); break; default: tikz(c); } }
static Reg reg({"P29",
  "random schedules put in the container (integer or quarter times, initial and periodic starts, overlapping or not, zero durations), the output of the scheduling commands, and the TikZ drawing for random periodicity vectors; text, chart, DOT and TikZ read back; non-trivial = several executions (container), a multi-rate graph and a chart of more than 20 columns (commands)",
  70000, 800000, 20, true, {"no initial phases", "numbers are printed with six digits: printed schedules are checked up to that precision"}, run});
