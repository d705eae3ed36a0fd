// periodic schedules extended to infinity
#pragma once
#include "graph.h"
#include <numeric>
namespace vh {
typedef long double LD;
struct TS { std::vector<LD> init; LD period; std::vector<LD> starts; };
struct Sched { LD omega; std::vector<TS> t; };
inline long fl(long a, long b) { long q = a / b; if (a % b != 0 && (a < 0) != (b < 0)) q--; return q; }

// "" when executable for ever
inline std::string check(const G &g, const std::vector<long> &q, const Sched &s, LD rel = 1e-9L) {
  LD eps = rel * (1 + fabsl(s.omega));
  size_t n = g.T.size(); std::vector<long> N(n), S(n);
  for (size_t i = 0; i < n; i++) {
    auto &t = s.t[i]; long ph = (long)g.T[i].dur.size(); N[i] = q[i] * ph; S[i] = (long)t.starts.size();
    if (S[i] == 0) return "no start time for " + g.T[i].name;
    if (!t.init.empty()) return "unexpected initial starts for " + g.T[i].name;
    for (LD x : t.starts) if (!std::isfinite((double)x) || x < -eps) return "start time " + str(x) + " of " + g.T[i].name;
    // S starts every period: N/S periods per iteration
    if (fabsl(t.period * (LD)N[i] / (LD)S[i] - s.omega) > eps) return g.T[i].name + " executes " + str(S[i]) + " times every " + str(t.period) + ", but " + str(N[i]) + " times every graph period " + str(s.omega);
  }
  auto at = [&](size_t i, long k) -> LD { long m = fl(k, S[i]); return s.t[i].starts[(size_t)(k - m * S[i])] + (LD)m * s.t[i].period; };
  for (size_t i = 0; i < n; i++) {
    long ph = (long)g.T[i].dur.size(), H = std::lcm(ph, S[i]);
    for (long k = 0; k < H; k++) {
      LD d = g.T[i].reent ? (LD)g.T[i].dur[(size_t)(k % ph)] : 0;
      if (at(i, k + 1) < at(i, k) + d - eps) return "execution " + str(k + 1) + " of " + g.T[i].name + " starts at " + str(at(i, k + 1)) + " while execution " + str(k) + " started at " + str(at(i, k)) + " and lasts " + str(d);
    }
  }
  for (auto &e : g.E) {
    size_t a = (size_t)e.s, b = (size_t)e.t; long pa = (long)e.in.size(), pb = (long)e.out.size();
    long tot = sum(e.in); if (tot <= 0) continue;
    long H = std::lcm(std::lcm(N[b], S[b]), 1L);
    long HA = H / N[b] * N[a]; H *= std::lcm(HA, S[a]) / HA;
    long acc = 0;
    for (long k = 0; k < H; k++) {
      long c = e.out[(size_t)(k % pb)]; acc += c; if (!c) continue;
      // number of producer firings needed (periodic extension: may be negative)
      long need = acc - e.m, cyc = fl(need - 1, tot), rest = need - cyc * tot, x = 0, m = 0;
      for (long p = 0; p < pa; p++) { x += e.in[(size_t)p]; if (x >= rest) { m = cyc * pa + p; break; } }
      LD ready = at(a, m) + (LD)g.T[a].dur[(size_t)(((m % pa) + pa) % pa)];
      if (at(b, k) < ready - eps) return "channel " + e.name + ": execution " + str(k) + " of " + g.T[b].name + " starts at " + str(at(b, k)) + " but needs execution " + str(m) + " of " + g.T[a].name + " which ends at " + str(ready) + " (modulo the period)";
    }
  }
  return "";
}
}
