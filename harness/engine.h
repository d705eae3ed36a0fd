// Property-based testing engine: choice-tape generators, forked isolation,
// internal (tape level) shrinking, parallel lanes, evidence.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <cmath>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vh {

// ---- choice tape ---------------------------------------------------------
struct Tape {
  bool replay = false;
  std::vector<uint32_t> in;   // recorded choices (replay / shrink)
  std::vector<uint32_t> out;  // choices actually made, reduced modulo bound
  size_t pos = 0;
  uint64_t s = 0;
  uint64_t next64();
  // uniform in [0,n), 0 is the simplest value
  uint32_t draw(uint32_t n);
  // integer in [lo,hi]; shrinks towards lo
  long range(long lo, long hi) { return lo + (long)draw((uint32_t)(hi - lo + 1)); }
  // true with probability num/den; shrinks towards false
  bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }
  // weighted pick, shrinks towards index 0
  int pick(std::initializer_list<int> w);
  template <class T> const T &of(const std::vector<T> &v) { return v[draw((uint32_t)v.size())]; }
  // small value with an occasional heavy tail, in [lo,hi], shrinks to lo
  long skew(long lo, long hi) {
    long span = hi - lo;
    switch (pick({6, 3, 1})) {
      case 0: return lo + (long)draw((uint32_t)(span < 3 ? span + 1 : 4));
      case 1: return lo + (long)draw((uint32_t)(span < 9 ? span + 1 : 10));
      default: return lo + (long)draw((uint32_t)(span + 1));
    }
  }
};

struct Failure { std::string tag, msg; };
struct Discard { std::string why; };
struct Inconclusive { std::string why; };

// What a property sees while a case runs.
struct Case {
  Tape t;
  std::string desc;               // rendered input
  void describe(const std::string &d);  // set desc and publish it (survives a crash)
  bool nontrivial = false;
  std::set<std::string> labels;
  std::string key;                // identity for distinctness (default desc)
  void label(const std::string &l) { labels.insert(l); }
  [[noreturn]] void fail(const std::string &tag, const std::string &msg) { throw Failure{tag, msg}; }
  [[noreturn]] void discard(const std::string &why) { throw Discard{why}; }
  [[noreturn]] void inconclusive(const std::string &why) { throw Inconclusive{why}; }
  void require(bool ok, const std::string &tag, const std::string &msg) { if (!ok) fail(tag, msg); }
};

// ---- isolation -----------------------------------------------------------
struct Sub {
  enum Kind { OK, EXIT, SIGNAL, CPU, MEM } kind = OK;
  int code = 0;          // exit code or signal number
  std::string out;       // captured stdout
  std::string err;       // captured stderr (tail)
  std::string ret;       // value returned by the lambda
  std::string exc;       // uncaught exception text
  bool ok() const { return kind == OK; }
  std::string how() const;
};
// Runs f in a forked child with stdout/stderr captured. cpu seconds limit.
Sub isolate(const std::function<std::string()> &f, unsigned cpu = 0);

// ---- properties ----------------------------------------------------------
struct Case;
struct Probe { std::string name; std::function<void(Case &)> run; };
struct Prop {
  std::string id;
  std::string rule;
  long quick_cases = 1000, thorough_cases = 20000;
  unsigned cpu = 20;                 // cpu seconds per case
  bool crash_fails = true;           // uncaught abort/exit/signal of the case
  std::vector<std::string> assumptions;
  std::function<void(Case &)> run;
  // Pinned cases run first on every check: inputs of known findings (listed by
  // name in known_findings.txt, kept out of the random generators) and of
  // repaired defects (any failure is a violation).
  std::vector<Probe> probes;
  bool hang_fails = false;           // exceeding the cpu limit is a failure (terminating analyses)
};
std::vector<Prop> &registry();
struct Reg { Reg(Prop p) { registry().push_back(std::move(p)); } };

template <class T> std::string str(const T &v) { std::ostringstream o; o << v; return o.str(); }
template <class T> std::string vec(const std::vector<T> &v, const char *sep = ",") {
  std::ostringstream o; for (size_t i = 0; i < v.size(); i++) { if (i) o << sep; o << v[i]; } return o.str();
}
// finds "key <number>" in text; returns false if absent
bool find_number(const std::string &text, const std::string &key, long double &out);

int engine_main(int argc, char **argv);
}  // namespace vh
