// Graph specification, generator, renderer and independent oracles.
#pragma once
#include "engine.h"
#include <string>
#include <vector>
namespace models { class Dataflow; }
namespace vh {

struct GTask { std::string name; std::vector<long> dur; std::vector<long> idur; long reent = 1; };
struct GEdge {
  int s = 0, t = 0;
  std::vector<long> in, out;    // production by source phases, consumption by target phases
  std::vector<long> iin, iout;  // initial phases
  long m = 0;                   // initial tokens
  long tsize = 1;
  std::string name;
};
struct G {
  std::vector<GTask> T;
  std::vector<GEdge> E;
  std::string str() const;
  bool sdf() const;
  long phases(int t) const { return (long)T[(size_t)t].dur.size(); }
};
long sum(const std::vector<long> &v);

// ---- exact rational ---------------------------------------------------------
struct Rat {
  __int128 n = 0, d = 1;
  Rat(__int128 a = 0, __int128 b = 1);
  long double f() const { return (long double)n / (long double)d; }
  std::string str() const;
};
bool operator<(const Rat &a, const Rat &b);
bool operator==(const Rat &a, const Rat &b);
inline bool operator<=(const Rat &a, const Rat &b) { return !(b < a); }
Rat operator+(const Rat &a, const Rat &b);
Rat operator-(const Rat &a, const Rat &b);
Rat operator*(const Rat &a, const Rat &b);
Rat operator/(const Rat &a, const Rat &b);

// ---- oracles ------------------------------------------------------------------
// Phase-cycle repetition q (firings of t per iteration = q*phases). false if inconsistent.
// Minimal per connected component.
bool rep_vector(const G &g, std::vector<long> &q);
bool connected(const G &g);
std::vector<int> components(const G &g);            // weakly connected
std::vector<int> scc_ids(const G &g);               // strongly connected (reachability closure)
bool strongly_connected(const G &g);
long firings(const G &g, const std::vector<long> &q);
// untimed execution of one iteration; returns true when it completes.
bool live(const G &g, const std::vector<long> &q, std::vector<std::pair<int, long>> *missing = nullptr);

// same graph once every task is past its initial phases (untimed run; phases rotated).
bool steady(const G &g, G &out);
std::string ser(const G &g);
G deser(const std::string &s);

struct Arc { int u, v; long d; long t; int e; };     // d = duration of u, t = delay in iterations
struct Hsdf { int n = 0; std::vector<int> task; std::vector<long> k; std::vector<Arc> arcs; };
Hsdf expand(const G &g, const std::vector<long> &q);
// maximum of sum(d)/sum(t) over circuits.
enum class Mcr { NONE, FINITE, DEADLOCK };
// general: arcs with rational heights
struct RArc { int u, v; Rat d; Rat t; int e; };
Mcr max_ratio(int n, const std::vector<RArc> &arcs, Rat &best, std::vector<int> *cyc = nullptr);
Mcr max_ratio(const Hsdf &h, Rat &best);
// exact maximal throughput (iterations per time unit). Mcr::NONE = unbounded.
Mcr exact_throughput(const G &g, const std::vector<long> &q, Rat &thr);
// a circuit of the expansion with no token on it although time passes along it (or negative)
bool timed_deadlock(const G &g, const std::vector<long> &q);
// best throughput of K-periodic schedules with K phase-cycles per task.
Mcr kperiodic_throughput(const G &g, const std::vector<long> &q, const std::vector<long> &K, Rat &thr);

// best throughput of strictly periodic schedules (constant distance between firings);
// dur_max: every firing takes its task's longest duration. *all tasks* have reentrancy 1.
Mcr speriodic_throughput(const G &g, const std::vector<long> &q, bool dur_max, Rat &thr);

// ---- generator -----------------------------------------------------------------
struct GenOpt {
  int min_tasks = 1, max_tasks = 5;
  int max_phases = 3;
  long max_q = 4;              // phase-cycle repetition per task (before normalisation)
  long max_firings = 48;       // total firings of one iteration
  int extra_edges = 4;
  bool zero_rates = true;
  bool zero_durations = false;
  long max_dur = 9;
  bool self_loops = true;
  bool reent0 = false;         // allow unbounded auto-concurrency (constant durations only)
  bool all_reent1 = false;
  bool disconnected = false;
  bool strong = false;         // strongly connected
  bool make_live = true;
  bool extra_tokens = true;
  bool loose_tokens = true;    // tokens not multiple of the rate gcd
  bool parallel = true;
  bool back_edges = true;
  int max_mult = 3;
  bool shuffle = true;         // in one case of three, tasks and channels in an arbitrary order
  bool wide = false;           // sometimes: one task or all much slower, one channel with large rates, a task of many phases
  bool wide_dur = true;        // with wide: also scale durations
};
G gen_graph(Tape &t, const GenOpt &o);
bool make_live(Tape &t, G &g, const std::vector<long> &q);

// ---- bridge to the library --------------------------------------------------------
models::Dataflow *build(const G &g);
extern long double duration_div;                     // build() divides every duration by it (graphs themselves keep integers)
struct DurationDiv { DurationDiv(long double d) { duration_div = d; } ~DurationDiv() { duration_div = 1; } };
std::string to_xml(const G &g);
std::string to_xml(const G &g, Tape *t, bool sdf); // tape-driven presentation
std::string canon(const G &g);                      // order-independent description
G read_back(const models::Dataflow *df);   // everything observable through the public interface
typedef std::map<std::string, std::string> Params;
// runs a registered algorithm (CLI -a NAME with -pK=V) on a graph, in a child
Sub run_algo(const G &g, const std::string &name, const Params &p = {}, unsigned cpu = 0);
void call_algo(models::Dataflow *df, const std::string &name, const Params &p = {});
bool has_algo(const std::string &name);
bool near(long double a, long double b, long double rel = 1e-6L);
}  // namespace vh
