#include "graph.h"
#include <algorithm>
#include <cmath>
#include <iostream>
#include <numeric>
#include <models/Dataflow.h>
#include <algorithms/algorithms.h>
#include <commons/KiterRegistry.h>

namespace vh {

long sum(const std::vector<long> &v) { long s = 0; for (long x : v) s += x; return s; }
bool near(long double a, long double b, long double rel) {
  if (a == b) return true;
  return fabsl(a - b) <= rel * std::max(fabsl(a), fabsl(b)) ;
}

std::string G::str() const {
  std::ostringstream o;
  for (size_t i = 0; i < T.size(); i++) {
    o << "task " << T[i].name << " dur=[" << vec(T[i].dur) << "]";
    if (!T[i].idur.empty()) o << " initdur=[" << vec(T[i].idur) << "]";
    o << " reentrancy=" << T[i].reent << "\n";
  }
  for (auto &e : E) {
    o << "edge " << e.name << ": " << T[(size_t)e.s].name << " [";
    if (!e.iin.empty()) o << vec(e.iin) << ";";
    o << vec(e.in) << "] -> " << T[(size_t)e.t].name << " [";
    if (!e.iout.empty()) o << vec(e.iout) << ";";
    o << vec(e.out) << "] tokens=" << e.m;
    if (e.tsize != 1) o << " size=" << e.tsize;
    o << "\n";
  }
  return o.str();
}
bool G::sdf() const { for (auto &t : T) if (t.dur.size() != 1 || !t.idur.empty()) return false; return true; }

static __int128 gcd128(__int128 a, __int128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { __int128 c = a % b; a = b; b = c; } return a; }
Rat::Rat(__int128 a, __int128 b) {
  if (b < 0) { a = -a; b = -b; }
  __int128 g = gcd128(a, b); if (g == 0) g = 1;
  n = a / g; d = b / g;
}
static std::string i128(__int128 x) { if (x == 0) return "0"; bool neg = x < 0; if (neg) x = -x; std::string s; while (x) { s += char('0' + (int)(x % 10)); x /= 10; } if (neg) s += '-'; std::reverse(s.begin(), s.end()); return s; }
std::string Rat::str() const { return d == 1 ? i128(n) : i128(n) + "/" + i128(d); }
bool operator<(const Rat &a, const Rat &b) { return a.n * b.d < b.n * a.d; }
bool operator==(const Rat &a, const Rat &b) { return a.n == b.n && a.d == b.d; }
Rat operator+(const Rat &a, const Rat &b) { __int128 g = gcd128(a.d, b.d); return Rat(a.n * (b.d / g) + b.n * (a.d / g), a.d / g * b.d); }
Rat operator-(const Rat &a, const Rat &b) { return a + Rat(-b.n, b.d); }
Rat operator*(const Rat &a, const Rat &b) { Rat x(a.n, b.d), y(b.n, a.d); return Rat(x.n * y.n, x.d * y.d); }
Rat operator/(const Rat &a, const Rat &b) { return a * Rat(b.d, b.n); }

// ---- structure ----------------------------------------------------------------
std::vector<int> components(const G &g) {
  std::vector<int> c(g.T.size()); std::iota(c.begin(), c.end(), 0);
  bool ch = true;
  while (ch) { ch = false; for (auto &e : g.E) { int m = std::min(c[(size_t)e.s], c[(size_t)e.t]); if (c[(size_t)e.s] != m || c[(size_t)e.t] != m) { c[(size_t)e.s] = c[(size_t)e.t] = m; ch = true; } } }
  return c;
}
bool connected(const G &g) { auto c = components(g); for (int x : c) if (x != c[0]) return false; return true; }
std::vector<int> scc_ids(const G &g) {
  size_t n = g.T.size();
  std::vector<std::vector<char>> r(n, std::vector<char>(n, 0));
  for (size_t i = 0; i < n; i++) r[i][i] = 1;
  for (auto &e : g.E) r[(size_t)e.s][(size_t)e.t] = 1;
  for (size_t k = 0; k < n; k++) for (size_t i = 0; i < n; i++) if (r[i][k]) for (size_t j = 0; j < n; j++) if (r[k][j]) r[i][j] = 1;
  std::vector<int> id(n);
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (r[i][j] && r[j][i]) { id[i] = (int)j; break; }
  return id;
}
bool strongly_connected(const G &g) { auto c = scc_ids(g); for (int x : c) if (x != c[0]) return false; return true; }

bool rep_vector(const G &g, std::vector<long> &q) {
  size_t n = g.T.size();
  for (auto &e : g.E) if (sum(e.in) <= 0 || sum(e.out) <= 0) return false;
  std::vector<Rat> f(n, Rat(0));
  auto comp = components(g);
  for (size_t i = 0; i < n; i++) if (comp[i] == (int)i) f[i] = Rat(1);
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto &e : g.E) {
      size_t s = (size_t)e.s, t = (size_t)e.t;
      Rat r(sum(e.in), sum(e.out));
      if (!(f[s] == Rat(0)) && f[t] == Rat(0)) { f[t] = f[s] * r; ch = true; }
      else if (f[s] == Rat(0) && !(f[t] == Rat(0))) { f[s] = f[t] / r; ch = true; }
    }
  }
  for (auto &e : g.E) if (!(f[(size_t)e.s] * Rat(sum(e.in)) == f[(size_t)e.t] * Rat(sum(e.out)))) return false;
  q.assign(n, 0);
  for (size_t c = 0; c < n; c++) {
    if (comp[c] != (int)c) continue;
    __int128 l = 1, gg = 0;
    for (size_t i = 0; i < n; i++) if (comp[i] == (int)c) l = l / gcd128(l, f[i].d) * f[i].d;
    for (size_t i = 0; i < n; i++) if (comp[i] == (int)c) gg = gcd128(gg, f[i].n * (l / f[i].d));
    for (size_t i = 0; i < n; i++) if (comp[i] == (int)c) q[i] = (long)(f[i].n * (l / f[i].d) / gg);
  }
  return true;
}
long firings(const G &g, const std::vector<long> &q) { long s = 0; for (size_t i = 0; i < q.size(); i++) s += q[i] * (long)g.T[i].dur.size(); return s; }

bool live(const G &g, const std::vector<long> &q, std::vector<std::pair<int, long>> *missing) {
  std::vector<long> tok(g.E.size()), done(g.T.size(), 0);
  for (size_t e = 0; e < g.E.size(); e++) tok[e] = g.E[e].m;
  size_t n = g.T.size();
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t t = 0; t < n; t++) {
      long ph = (long)g.T[t].dur.size(), ip = (long)g.T[t].idur.size(), tot = ip + q[t] * ph;
      while (done[t] < tot) {
        bool ok = true;
        auto rate = [&](const std::vector<long> &i, const std::vector<long> &p) { return done[t] < ip ? i[(size_t)done[t]] : p[(size_t)((done[t] - ip) % ph)]; };
        for (size_t e = 0; e < g.E.size(); e++) if (g.E[e].t == (int)t && tok[e] < rate(g.E[e].iout, g.E[e].out)) ok = false;
        if (!ok) break;
        for (size_t e = 0; e < g.E.size(); e++) if (g.E[e].t == (int)t) tok[e] -= rate(g.E[e].iout, g.E[e].out);
        for (size_t e = 0; e < g.E.size(); e++) if (g.E[e].s == (int)t) tok[e] += rate(g.E[e].iin, g.E[e].in);
        done[t]++; ch = true;
      }
    }
  }
  bool ok = true;
  for (size_t t = 0; t < n; t++) {
    long ph = (long)g.T[t].dur.size(), ip = (long)g.T[t].idur.size(), tot = ip + q[t] * ph;
    if (done[t] < tot) {
      ok = false;
      if (missing) for (size_t e = 0; e < g.E.size(); e++) if (g.E[e].t == (int)t) {
        long need = done[t] < ip ? g.E[e].iout[(size_t)done[t]] : g.E[e].out[(size_t)((done[t] - ip) % ph)];
        if (tok[e] < need) missing->push_back({(int)e, need - tok[e]});
      }
    }
  }
  return ok;
}

static long fdiv(long a, long b) { long q = a / b; if ((a % b) != 0 && ((a < 0) != (b < 0))) q--; return q; }

// smallest number of producer firings (may be negative) after which cumulated production >= need
static long firings_needed(const std::vector<long> &in, long need) {
  long tot = sum(in), ph = (long)in.size();
  if (tot <= 0) return 0;
  // full cycles c such that c*tot < need <= (c+1)*tot
  long c = fdiv(need - 1, tot), rest = need - c * tot, acc = 0;
  for (long k = 0; k < ph; k++) { acc += in[(size_t)k]; if (acc >= rest) return c * ph + k + 1; }
  return (c + 1) * ph;
}

Hsdf expand(const G &g, const std::vector<long> &q) {
  Hsdf h; size_t n = g.T.size();
  std::vector<int> base(n);
  std::vector<long> N(n);
  for (size_t t = 0; t < n; t++) { base[t] = h.n; N[t] = q[t] * (long)g.T[t].dur.size(); for (long k = 0; k < N[t]; k++) { h.task.push_back((int)t); h.k.push_back(k); } h.n += (int)N[t]; }
  for (size_t t = 0; t < n; t++) for (long k = 0; k < N[t]; k++) {
    long p = k - 1, it = 0; if (p < 0) { p += N[t]; it = 1; }
    h.arcs.push_back({base[t] + (int)p, base[t] + (int)k, g.T[t].reent > 0 ? g.T[t].dur[(size_t)(p % (long)g.T[t].dur.size())] : 0, it, -1}); // unbounded: starts in order
  }
  for (size_t ei = 0; ei < g.E.size(); ei++) {
    auto &e = g.E[ei]; size_t s = (size_t)e.s, t = (size_t)e.t; long ph = (long)e.out.size(), sp = (long)e.in.size(), acc = 0;
    for (long k = 0; k < N[t]; k++) {
      long c = e.out[(size_t)(k % ph)]; acc += c;
      if (c == 0) continue;
      long m = firings_needed(e.in, acc - e.m) - 1;  // 0-based index of the producing firing
      long it = fdiv(m, N[s]), r = m - it * N[s];
      h.arcs.push_back({base[s] + (int)r, base[t] + (int)k, g.T[s].dur[(size_t)(r % sp)], -it, (int)ei});
    }
  }
  return h;
}

Mcr max_ratio(int n, const std::vector<RArc> &arcs, Rat &best, std::vector<int> *cyc) {
  // finds circuits of positive weight d - lambda t, raising lambda until none is left
  auto find = [&](auto weight, std::vector<int> &cycle) -> bool {
    std::vector<Rat> x((size_t)n, Rat(0)); std::vector<int> pred((size_t)n, -1);
    int last = -1;
    for (int it = 0; it <= n; it++) {
      last = -1;
      for (size_t a = 0; a < arcs.size(); a++) {
        Rat v = x[(size_t)arcs[a].u] + weight(arcs[a]);
        if (x[(size_t)arcs[a].v] < v) { x[(size_t)arcs[a].v] = v; pred[(size_t)arcs[a].v] = (int)a; last = arcs[a].v; }
      }
      if (last < 0) return false;
    }
    int v = last;
    for (int i = 0; i < n; i++) v = arcs[(size_t)pred[(size_t)v]].u;
    cycle.clear(); int w = v;
    do { int a = pred[(size_t)w]; cycle.push_back(a); w = arcs[(size_t)a].u; } while (w != v);
    std::reverse(cycle.begin(), cycle.end());
    return true;
  };
  std::vector<int> c;
  // circuits with non positive delay and some arc: deadlock. Detect with weight -t, made strict
  // by an infinitesimal: scale t by (n+1)*L and add 1 per arc (any circuit with sum t <= 0 is positive).
  __int128 L = 1; for (auto &a : arcs) L = L / gcd128(L, a.t.d) * a.t.d;
  Rat sc = Rat(L) * Rat(n + 1);
  if (find([&](const RArc &a) { return Rat(1) - a.t * sc; }, c)) { if (cyc) *cyc = c; return Mcr::DEADLOCK; }
  best = Rat(0);
  bool found = false;
  while (find([&](const RArc &a) { return a.d - best * a.t; }, c)) {
    Rat D(0), T(0);
    for (int a : c) { D = D + arcs[(size_t)a].d; T = T + arcs[(size_t)a].t; }
    Rat r = D / T;
    if (r <= best) return Mcr::DEADLOCK;  // cannot happen
    best = r; found = true; if (cyc) *cyc = c;
  }
  return found ? Mcr::FINITE : Mcr::NONE;
}
Mcr max_ratio(const Hsdf &h, Rat &best) {
  std::vector<RArc> r;
  for (auto &a : h.arcs) r.push_back({a.u, a.v, Rat(a.d), Rat(a.t), a.e});
  return max_ratio(h.n, r, best);
}
Mcr exact_throughput(const G &g, const std::vector<long> &q, Rat &thr) {
  Rat b; Mcr m = max_ratio(expand(g, q), b);
  if (m == Mcr::FINITE) thr = Rat(1) / b; else thr = Rat(0);
  return m;
}

bool timed_deadlock(const G &g, const std::vector<long> &q) {
  Hsdf h = expand(g, q);
  __int128 lambda = 1; for (auto &a : h.arcs) lambda += a.d;
  std::vector<__int128> x((size_t)h.n, 0);
  for (int it = 0; it <= h.n; it++) {
    bool ch = false;
    for (auto &a : h.arcs) { __int128 v = x[(size_t)a.u] + a.d - lambda * a.t; if (v > x[(size_t)a.v]) { x[(size_t)a.v] = v; ch = true; } }
    if (!ch) return false;
  }
  return true;
}

Mcr kperiodic_throughput(const G &g, const std::vector<long> &q, const std::vector<long> &K, Rat &thr) {
  // classes: (task, firing index modulo K*phases); class c of task t fires at S_c + m*mu_t,
  // mu_t = K_t/q_t * Omega. Constraint of consumer firing n on producer firing f(n):
  // S_b - S_a >= d_a - Omega * (m_b K_t/q_t - m_a K_s/q_s), for every n of one hyper period.
  size_t n = g.T.size(); std::vector<int> base(n); int tot = 0; std::vector<long> W(n);
  for (size_t t = 0; t < n; t++) { base[t] = tot; W[t] = K[t] * (long)g.T[t].dur.size(); tot += (int)W[t]; }
  std::vector<RArc> arcs;
  auto add = [&](int u, int v, long d, Rat h, int e) { arcs.push_back({u, v, Rat(d), h, e}); };
  for (size_t t = 0; t < n; t++) for (long k = 0; k < W[t]; k++) {
    long p = k - 1; bool wrap = p < 0; if (wrap) p += W[t];
    add(base[t] + (int)p, base[t] + (int)k, g.T[t].reent > 0 ? g.T[t].dur[(size_t)(p % (long)g.T[t].dur.size())] : 0, wrap ? Rat(K[t], q[t]) : Rat(0), -1);
  }
  for (size_t ei = 0; ei < g.E.size(); ei++) {
    auto &e = g.E[ei]; size_t s = (size_t)e.s, t = (size_t)e.t; long ph = (long)e.out.size(), sp = (long)e.in.size();
    // hyper period in consumer firings: multiple of W[t], with production matching a multiple of W[s]
    long span = std::lcm(q[t] * ph, W[t]);                        // consumer firings
    long spanS = span / (q[t] * ph) * (q[s] * sp);                  // matching producer firings
    long mul = std::lcm(spanS, W[s]) / spanS; span *= mul;
    long acc = 0;
    std::map<std::pair<int, int>, Rat> tight;
    for (long k = 0; k < span; k++) {
      long c = e.out[(size_t)(k % ph)]; acc += c;
      if (c == 0) continue;
      long m = firings_needed(e.in, acc - e.m) - 1;
      long mb = fdiv(k, W[t]), b = k - mb * W[t], ma = fdiv(m, W[s]), a = m - ma * W[s];
      Rat h = Rat(mb * K[t], q[t]) - Rat(ma * K[s], q[s]);
      auto key = std::make_pair(base[s] + (int)a, base[t] + (int)b);
      auto it = tight.find(key);
      if (it == tight.end()) tight[key] = h; else if (h < it->second) it->second = h;
    }
    for (auto &x : tight) add(x.first.first, x.first.second, g.T[s].dur[(size_t)((x.first.first - base[s]) % sp)], x.second, (int)ei);
  }
  Rat b; Mcr r = max_ratio(tot, arcs, b);
  if (r == Mcr::FINITE) thr = Rat(1) / b; else thr = Rat(0);
  return r;
}

Mcr speriodic_throughput(const G &g, const std::vector<long> &q, bool dur_max, Rat &thr) {
  size_t n = g.T.size(); std::vector<RArc> arcs; std::vector<long> N(n), mx(n);
  for (size_t t = 0; t < n; t++) {
    N[t] = q[t] * (long)g.T[t].dur.size();
    mx[t] = *std::max_element(g.T[t].dur.begin(), g.T[t].dur.end());
    arcs.push_back({(int)t, (int)t, Rat(mx[t]), Rat(1, N[t]), -1});
  }
  for (size_t ei = 0; ei < g.E.size(); ei++) {
    auto &e = g.E[ei]; size_t s = (size_t)e.s, t = (size_t)e.t; long ph = (long)e.out.size(), sp = (long)e.in.size();
    long acc = 0;
    for (long k = 0; k < N[t]; k++) {
      long c = e.out[(size_t)(k % ph)]; acc += c;
      if (c == 0) continue;
      long m = firings_needed(e.in, acc - e.m) - 1;
      long p = ((m % sp) + sp) % sp;
      // S_t + k W/N_t >= S_s + m W/N_s + d
      arcs.push_back({(int)s, (int)t, Rat(dur_max ? mx[s] : g.T[s].dur[(size_t)p]), Rat(k, N[t]) - Rat(m, N[s]), (int)ei});
    }
  }
  Rat b; Mcr r = max_ratio((int)n, arcs, b);
  if (r == Mcr::FINITE) thr = Rat(1) / b; else thr = Rat(0);
  return r;
}

// ---- generator -------------------------------------------------------------------
static std::vector<long> split_total(Tape &t, long total, int ph, bool zeros) {
  std::vector<long> v((size_t)ph, 0);
  if (ph == 1) { v[0] = total; return v; }
  if (!zeros && total >= ph) { for (auto &x : v) x = 1; total -= ph; }
  for (int i = 0; i < ph - 1 && total > 0; i++) { long x = (long)t.draw((uint32_t)(total + 1)); v[(size_t)i] += x; total -= x; }
  v[(size_t)ph - 1] += total;
  return v;
}

bool make_live(Tape &t, G &g, const std::vector<long> &q) {
  for (int guard = 0; guard < 4000; guard++) {
    std::vector<std::pair<int, long>> miss;
    if (live(g, q, &miss)) return true;
    if (miss.empty()) return false;
    auto m = miss[t.draw((uint32_t)miss.size())];
    g.E[(size_t)m.first].m += m.second;
  }
  return false;
}

static void shuffle(Tape &t, G &g) {
  std::vector<int> to(g.T.size()); for (size_t i = 0; i < to.size(); i++) to[i] = (int)i;
  for (size_t i = 0; i + 1 < to.size(); i++) std::swap(to[i], to[i + t.draw((uint32_t)(to.size() - i))]);
  std::vector<GTask> T(g.T.size()); for (size_t i = 0; i < to.size(); i++) { T[(size_t)to[i]] = g.T[i]; T[(size_t)to[i]].name = "t" + str(to[i]); }
  g.T = T;
  for (size_t i = 0; i + 1 < g.E.size(); i++) std::swap(g.E[i], g.E[i + t.draw((uint32_t)(g.E.size() - i))]);
  for (size_t i = 0; i < g.E.size(); i++) { auto &e = g.E[i]; e.s = to[(size_t)e.s]; e.t = to[(size_t)e.t]; e.name = "e" + str(i); }
}
G gen_graph(Tape &t, const GenOpt &o) {
  G g;
  int n = (int)t.range(o.min_tasks, o.max_tasks);
  std::vector<long> q((size_t)n);
  long budget = o.max_firings;
  for (int i = 0; i < n; i++) {
    GTask k; k.name = "t" + str(i);
    int ph = 1 + (int)t.draw((uint32_t)(o.wide && o.max_phases > 1 && t.chance(1, 20) ? 12 : o.max_phases));
    long mq = std::max<long>(1, std::min<long>(o.max_q, (budget - (n - i - 1)) / ph));
    if (ph > budget - (n - i - 1)) ph = 1;
    q[(size_t)i] = 1 + (long)t.draw((uint32_t)mq);
    budget -= q[(size_t)i] * ph;
    bool r0 = o.reent0 && !o.all_reent1 && t.chance(1, 3);
    k.reent = r0 ? 0 : 1;
    long d0 = 1 + (long)t.draw((uint32_t)o.max_dur);
    bool constant = r0;
    for (int p = 0; p < ph; p++) {
      long d = constant || p == 0 ? d0 : 1 + (long)t.draw((uint32_t)o.max_dur);
      if (o.zero_durations && !r0 && t.chance(1, 6)) d = 0;
      k.dur.push_back(d);
    }
    if (k.reent && sum(k.dur) == 0) k.dur[0] = 1;
    g.T.push_back(k);
  }
  auto mk = [&](int s, int d) {
    GEdge e; e.s = s; e.t = d; e.name = "e" + str(g.E.size());
    long gg = std::gcd(q[(size_t)s], q[(size_t)d]);
    long k = 1 + (long)t.draw((uint32_t)o.max_mult);
    e.in = split_total(t, k * q[(size_t)d] / gg, (int)g.T[(size_t)s].dur.size(), o.zero_rates);
    e.out = split_total(t, k * q[(size_t)s] / gg, (int)g.T[(size_t)d].dur.size(), o.zero_rates);
    g.E.push_back(e);
  };
  if (o.strong) {
    if (n > 1) for (int i = 0; i < n; i++) mk(i, (i + 1) % n);
    else if (!o.self_loops) {}
    else mk(0, 0);
  } else {
    for (int i = 1; i < n; i++) {
      if (o.disconnected && t.chance(1, 6)) continue;
      int p = (int)t.draw((uint32_t)i);
      if (o.back_edges && t.chance(1, 3)) mk(i, p); else mk(p, i);
    }
  }
  int extra = o.extra_edges ? (int)t.draw((uint32_t)o.extra_edges + 1) : 0;
  for (int x = 0; x < extra; x++) {
    int s = (int)t.draw((uint32_t)n), d = (int)t.draw((uint32_t)n);
    if (s == d && !o.self_loops) continue;
    if (!o.parallel) { bool dup = false; for (auto &e : g.E) dup |= e.s == s && e.t == d; if (dup) continue; }
    if (!o.back_edges && s >= d) continue;
    if (o.disconnected) { auto c = components(g); if (c[(size_t)s] != c[(size_t)d]) continue; }
    mk(s, d);
  }
  // known finding P01#isolated-multiphase: the repetition vector of a task without any
  // channel ignores its phases; that class is pinned there and not generated elsewhere
  for (int i = 0; i < n; i++) {
    bool touched = false; for (auto &e : g.E) touched |= e.s == i || e.t == i;
    if (!touched) g.T[(size_t)i].dur.resize(1);
    if (!touched && g.T[(size_t)i].reent && g.T[(size_t)i].dur[0] == 0) g.T[(size_t)i].dur[0] = 1;
  }
  std::vector<long> qq;
  if (!rep_vector(g, qq)) return g;
  for (auto &e : g.E) if (o.extra_tokens && t.chance(1, 5)) e.m += (long)t.draw((uint32_t)(2 * std::max<long>(1, sum(e.out))) + 1);
  if (o.make_live) make_live(t, g, qq);
  if (o.extra_tokens && !g.E.empty() && t.chance(1, 2)) {
    auto &e = g.E[t.draw((uint32_t)g.E.size())];
    e.m += (long)t.draw((uint32_t)(3 * sum(e.out)) + 1);
  }
  if (o.wide && o.wide_dur && t.chance(1, 8)) {
    static const long f[] = {10, 64, 1000, 9973, 100000};
    long k = f[t.draw(5)]; size_t w = t.draw((uint32_t)g.T.size() + 1);
    for (size_t i = 0; i < g.T.size(); i++) if (w == g.T.size() || w == i) for (long &d : g.T[i].dur) d *= k;
  }
  if (o.wide && !g.E.empty() && t.chance(1, 8)) {
    static const long f[] = {2, 7, 60, 1000, 44100};
    long k = f[t.draw(5)]; auto &e = g.E[t.draw((uint32_t)g.E.size())];
    for (auto *v : {&e.in, &e.out}) for (long &x : *v) x *= k;
    e.m *= k; if (t.chance(1, 2)) e.m += (long)t.draw((uint32_t)k);
  }
  if (o.shuffle && t.chance(1, 3)) shuffle(t, g);
  return g;
}

// ---- bridge -------------------------------------------------------------------------
long double duration_div = 1;
static std::vector<TIME_UNIT> times(const std::vector<long> &d) { std::vector<TIME_UNIT> r; for (long x : d) r.push_back((TIME_UNIT)x / (TIME_UNIT)duration_div); return r; }
models::Dataflow *build(const G &g) {
  auto *df = new models::Dataflow();
  std::vector<Vertex> v;
  for (size_t i = 0; i < g.T.size(); i++) {
    auto &t = g.T[i];
    Vertex x = df->addVertex(t.name);
    df->setPhasesQuantity(x, (EXEC_COUNT)t.dur.size());
    df->setVertexDuration(x, times(t.dur));
    df->setInitPhasesQuantity(x, (EXEC_COUNT)t.idur.size());
    if (!t.idur.empty()) df->setVertexInitDuration(x, times(t.idur));
    df->setReentrancyFactor(x, t.reent);
    v.push_back(x);
  }
  for (auto &e : g.E) {
    Edge c = df->addEdge(v[(size_t)e.s], v[(size_t)e.t], e.name);
    if (!e.iin.empty()) df->setEdgeInInitPhases(c, e.iin);
    if (!e.iout.empty()) df->setEdgeOutInitPhases(c, e.iout);
    df->setEdgeInPhases(c, e.in);
    df->setEdgeOutPhases(c, e.out);
    df->setPreload(c, e.m);
    df->setTokenSize(c, e.tsize);
    df->setEdgeInputPortName(c, "in_" + e.name);
    df->setEdgeOutputPortName(c, "out_" + e.name);
  }
  df->setAppName("app");
  df->setGraphName("graph");
  df->setGraphType("csdf");
  return df;
}

bool has_algo(const std::string &name) { return KiterRegistry<transformation_t>::get(name) != nullptr; }
void call_algo(models::Dataflow *df, const std::string &name, const Params &p) {
  const transformation_t *tr = KiterRegistry<transformation_t>::get(name);
  if (!tr) throw std::runtime_error("no algorithm " + name);
  parameters_list_t pl; for (auto &x : p) pl[x.first] = x.second;
  tr->fun(df, pl);
}
Sub run_algo(const G &g, const std::string &name, const Params &p, unsigned cpu) {
  return isolate([&]() -> std::string { auto *df = build(g); call_algo(df, name, p); return ""; }, cpu);
}
// Runs the graph untimed until every task is past its initial phases, then
// rotates every task to its current phase: same graph without initial phases.
bool steady(const G &g, G &out) {
  std::vector<long> n(g.T.size(), 0), m; for (auto &e : g.E) m.push_back(e.m);
  auto rate = [](const std::vector<long> &i, const std::vector<long> &p, long k) { return k < (long)i.size() ? i[(size_t)k] : p[(size_t)((k - (long)i.size()) % (long)p.size())]; };
  std::vector<long> q; if (!rep_vector(g, q)) return false;
  // fire only tasks that lag behind (iterations completed), to stay bounded
  for (long steps = 0; steps < 200000; steps++) {
    bool done = true; for (size_t i = 0; i < n.size(); i++) if (n[i] < (long)g.T[i].idur.size()) done = false;
    if (done) {
      out = g;
      for (size_t i = 0; i < n.size(); i++) { long r = (n[i] - (long)g.T[i].idur.size()) % g.phases((int)i); auto rot = [&](std::vector<long> &v) { std::rotate(v.begin(), v.begin() + r, v.end()); };
        rot(out.T[i].dur); out.T[i].idur.clear();
        for (auto &e : out.E) { if (e.s == (int)i) rot(e.in); if (e.t == (int)i) rot(e.out); } }
      for (size_t j = 0; j < m.size(); j++) { out.E[j].m = m[j]; out.E[j].iin.clear(); out.E[j].iout.clear(); }
      return true;
    }
    int best = -1; double bv = 0;
    for (size_t i = 0; i < n.size(); i++) {
      bool en = true; for (size_t j = 0; j < m.size(); j++) if (g.E[j].t == (int)i && m[j] < rate(g.E[j].iout, g.E[j].out, n[i])) en = false;
      if (!en) continue;
      double x = (double)(n[i] - (long)g.T[i].idur.size()) / (double)(q[i] * g.phases((int)i));
      if (best < 0 || x < bv) best = (int)i, bv = x;
    }
    if (best < 0) return false;
    for (size_t j = 0; j < m.size(); j++) { if (g.E[j].t == best) m[j] -= rate(g.E[j].iout, g.E[j].out, n[(size_t)best]); if (g.E[j].s == best) m[j] += rate(g.E[j].iin, g.E[j].in, n[(size_t)best]); }
    n[(size_t)best]++;
  }
  return false;
}
std::string ser(const G &g) {
  std::ostringstream o; o << g.T.size() << ' ' << g.E.size() << '\n';
  auto v = [&](const std::vector<long> &x) { o << ' ' << x.size(); for (long y : x) o << ' ' << y; };
  for (auto &k : g.T) { o << k.name << ' ' << k.reent; v(k.dur); v(k.idur); o << '\n'; }
  for (auto &e : g.E) { o << '#' << e.name << ' ' << e.s << ' ' << e.t << ' ' << e.m << ' ' << e.tsize; v(e.in); v(e.out); v(e.iin); v(e.iout); o << '\n'; }
  return o.str();
}
G deser(const std::string &s) {
  std::istringstream i(s); G g; size_t nt = 0, ne = 0; i >> nt >> ne;
  auto v = [&](std::vector<long> &x) { size_t n = 0; i >> n; x.resize(n); for (auto &y : x) i >> y; };
  g.T.resize(nt); g.E.resize(ne);
  for (auto &k : g.T) { i >> k.name >> k.reent; v(k.dur); v(k.idur); }
  for (auto &e : g.E) { i >> e.name >> e.s >> e.t >> e.m >> e.tsize; e.name.erase(0, 1); v(e.in); v(e.out); v(e.iin); v(e.iout); }
  return g;
}
}  // namespace vh
