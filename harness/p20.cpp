// P20 LP layer: solver answers vs exact vertex/integer enumeration of the same problem
#include "graph.h"
#include <lp/glpsol.h>
#include <functional>
using namespace vh;
namespace {
struct Bd { int k; long lo, hi; };                 // 0 free 1 fixed 2 <= hi 3 >= lo 4 both
struct Col { std::string name; int kind; Bd b; long c; };   // kind 0 continuous 1 integer 2 boolean
struct Row { std::string name; Bd b; std::vector<long> a; };
struct P { bool max; std::vector<Col> C; std::vector<Row> R; long den; };   // coefficients are a/den
std::string bs(const Bd &b, const std::string &x) {
  switch (b.k) { case 0: return x + " free"; case 1: return x + " = " + str(b.lo); case 2: return x + " <= " + str(b.hi); case 3: return x + " >= " + str(b.lo); }
  return str(b.lo) + " <= " + x + " <= " + str(b.hi);
}
std::string text(const P &p) {
  std::string o = p.max ? "max" : "min"; for (auto &c : p.C) o += " " + str(c.c) + "*" + c.name; o += "\n";
  for (auto &c : p.C) o += "  " + bs(c.b, c.name) + (c.kind == 1 ? " integer" : c.kind == 2 ? " boolean" : "") + "\n";
  for (auto &r : p.R) { std::string x; for (size_t j = 0; j < p.C.size(); j++) if (r.a[j]) x += (x.size() ? " + " : "") + str(r.a[j]) + (p.den > 1 ? "/" + str(p.den) : "") + "*" + p.C[j].name; o += "  row " + r.name + ": " + bs(r.b, x.size() ? x : "0") + "\n"; }
  return o;
}
Bd gen_bd(Tape &t, int k, long span) { Bd b{k, 0, 0}; b.lo = t.range(-span, span); b.hi = b.lo + t.range(1, span); return b; }
P gen(Tape &t, int tag) {
  P p; p.max = t.chance(1, 2); int n = (int)t.range(1, 3) + (t.chance(1, 6) ? 1 : 0), m = (int)t.range(0, 5); p.den = t.chance(1, 5) ? 2 : 1;
  int integers = t.pick({3, 2, 2});                // none, some, all
  std::vector<std::string> names; for (int j = 0; j < n; j++) names.push_back(std::string(t.chance(1, 2) ? "x" : "s_") + str(t.chance(1, 2) ? j : 20 - 9 * j) + (tag ? "" : ""));
  for (int j = 0; j < n; j++) {
    Col c; c.name = names[(size_t)j]; for (int i = 0; i < j; i++) if (p.C[(size_t)i].name == c.name) c.name += "_" + str(j);
    c.kind = integers == 0 ? 0 : integers == 1 && t.chance(1, 2) ? 0 : t.chance(1, 4) ? 2 : 1;
    c.c = t.range(-5, 5);
    if (c.kind == 2) c.b = {4, 0, 1};
    else if (c.kind == 1) c.b = t.chance(1, 8) ? gen_bd(t, 1, 3) : gen_bd(t, 4, 4);
    else c.b = gen_bd(t, (int[]){3, 4, 2, 0, 1}[t.pick({5, 4, 2, 2, 1})], 6);
    if (c.b.k == 3 && t.chance(1, 2)) c.b.lo = 0;
    p.C.push_back(c);
  }
  bool aim = t.chance(4, 5); std::vector<long> pt;   // a point most problems contain
  for (auto &c : p.C) { long v = t.range(-6, 6); if (c.b.k == 1) v = c.b.lo; if (c.b.k == 4) v = t.range(c.b.lo, c.b.hi); if (c.b.k == 2) v = std::min(v, c.b.hi); if (c.b.k == 3) v = std::max(v, c.b.lo); pt.push_back(v); }
  for (int i = 0; i < m; i++) {
    Row r; r.name = std::string(t.chance(1, 2) ? "r" : "c_") + str(t.chance(1, 2) ? i : 30 - 7 * i); for (auto &o : p.R) if (o.name == r.name) r.name += "_" + str(i);
    r.b = gen_bd(t, (int[]){2, 3, 4, 1, 0}[t.pick({6, 6, 2, 2, 1})], 8);
    bool any = false; for (int j = 0; j < n; j++) { long a = t.chance(1, 3) ? 0 : t.range(-4, 4); r.a.push_back(a); any = any || a; }
    if (!any) r.a[(size_t)t.draw((uint32_t)n)] = 1;
    if (aim) {
      long v = 0; for (int j = 0; j < n; j++) v += r.a[(size_t)j] * pt[(size_t)j];
      if (r.b.k == 1 && v % p.den) r.b.k = 2;
      long f = v >= 0 ? v / p.den : -((-v + p.den - 1) / p.den), ce = f * p.den == v ? f : f + 1;
      if (r.b.k == 1) r.b.lo = f; else { r.b.lo = f - t.skew(0, 6); r.b.hi = std::max(ce, r.b.lo + 1) + t.skew(0, 6); }
    }
    p.R.push_back(r);
  }
  return p;
}
// Best objective over the continuous columns (vertices, with |x| <= box), integer columns fixed to val.
bool lp_best(const P &p, const std::vector<int> &cont, const std::vector<long> &val, long box, Rat &best) {
  size_t n = cont.size(); struct H { std::vector<Rat> a; Rat lo, hi; bool l, h; }; std::vector<H> hs;
  for (auto &r : p.R) {
    H h; Rat k(0); for (size_t j = 0; j < p.C.size(); j++) if (p.C[j].kind) k = k + Rat(r.a[j] * val[j], p.den);
    for (int j : cont) h.a.push_back(Rat(r.a[(size_t)j], p.den));
    h.l = r.b.k == 1 || r.b.k == 3 || r.b.k == 4; h.h = r.b.k == 1 || r.b.k == 2 || r.b.k == 4; h.lo = Rat(r.b.lo) - k; h.hi = Rat(r.b.k == 1 ? r.b.lo : r.b.hi) - k; hs.push_back(h);
  }
  for (size_t i = 0; i < n; i++) { const Bd &b = p.C[(size_t)cont[i]].b; H h; h.a.assign(n, Rat(0)); h.a[i] = Rat(1);
    h.l = h.h = true; h.lo = b.k == 0 || b.k == 2 ? Rat(-box) : Rat(b.lo); h.hi = b.k == 0 || b.k == 3 ? Rat(box) : Rat(b.k == 1 ? b.lo : b.hi); hs.push_back(h); }
  Rat cst(0); for (size_t j = 0; j < p.C.size(); j++) if (p.C[j].kind) cst = cst + Rat(p.C[j].c * val[j]);
  auto ok = [&](const std::vector<Rat> &x) { for (auto &h : hs) { Rat s(0); for (size_t i = 0; i < n; i++) s = s + h.a[i] * x[i]; if ((h.l && s < h.lo) || (h.h && h.hi < s)) return false; } return true; };
  bool found = false; auto see = [&](const std::vector<Rat> &x) { if (!ok(x)) return; Rat v = cst; for (size_t i = 0; i < n; i++) v = v + Rat(p.C[(size_t)cont[i]].c) * x[i]; if (!found || (p.max ? best < v : v < best)) best = v; found = true; };
  if (!n) { see({}); return found; }
  std::vector<size_t> pick; std::vector<Rat> rhs;
  std::function<void(size_t)> rec = [&](size_t from) {
    if (pick.size() == n) {
      std::vector<std::vector<Rat>> A; for (size_t i = 0; i < n; i++) { A.push_back(hs[pick[i]].a); A.back().push_back(rhs[i]); }
      for (size_t c = 0; c < n; c++) { size_t r = c; while (r < n && A[r][c].n == 0) r++; if (r == n) return; std::swap(A[r], A[c]);
        for (size_t k = 0; k < n; k++) if (k != c && A[k][c].n != 0) { Rat f = A[k][c] / A[c][c]; for (size_t j = c; j <= n; j++) A[k][j] = A[k][j] - f * A[c][j]; } }
      std::vector<Rat> x; for (size_t i = 0; i < n; i++) x.push_back(A[i][n] / A[i][i]); see(x); return;
    }
    for (size_t i = from; i < hs.size(); i++) { pick.push_back(i); if (hs[i].l) { rhs.push_back(hs[i].lo); rec(i + 1); rhs.pop_back(); } if (hs[i].h && !(hs[i].l && hs[i].lo == hs[i].hi)) { rhs.push_back(hs[i].hi); rec(i + 1); rhs.pop_back(); } pick.pop_back(); }
  };
  rec(0); return found;
}
// 0 infeasible, 1 optimum in best, 2 unbounded
int exact(const P &p, Rat &best, long &combos) {
  std::vector<int> cont; std::vector<long> lo, hi; combos = 1;
  for (size_t j = 0; j < p.C.size(); j++) { const Bd &b = p.C[j].b; if (!p.C[j].kind) cont.push_back((int)j), lo.push_back(0), hi.push_back(0); else lo.push_back(b.lo), hi.push_back(b.k == 1 ? b.lo : b.hi), combos *= hi.back() - lo.back() + 1; }
  if (combos > (cont.empty() ? 3000 : cont.size() == 1 ? 300 : 80)) return 3;
  auto solve = [&](long box, Rat &out) { bool f = false; std::vector<long> v = lo; while (true) { Rat b; if (lp_best(p, cont, v, box, b) && (!f || (p.max ? out < b : b < out))) out = b, f = true; size_t j = 0; for (; j < v.size(); j++) { if (v[j] < hi[j]) { v[j]++; break; } v[j] = lo[j]; } if (j == v.size()) return f; } };
  Rat b2; if (!solve(10000, best)) return 0; bool free_ = false; for (int j : cont) { int k = p.C[(size_t)j].b.k; if (k != 4 && k != 1) free_ = true; }
  if (free_) { solve(20000, b2); if (!(b2 == best)) return 2; }
  return 1;
}
commons::bound_s conv(const Bd &b) {
  using namespace commons; switch (b.k) { case 0: return bound_s(); case 1: return bound_s(FIX_BOUND, b.lo); case 2: return bound_s(UP_BOUND, b.hi); case 3: return bound_s(LOW_BOUND, b.lo); }
  return bound_s(DOUBLE_BOUND, b.lo, b.hi);
}
void add_cols(commons::GLPSol &s, const P &p) { for (auto &c : p.C) s.addColumn(c.name, c.kind == 0 ? commons::KIND_CONTINUE : c.kind == 1 ? commons::KIND_INTEGER : commons::KIND_BOOLEAN, conv(c.b), (double)c.c); }
void add_rows(commons::GLPSol &s, const P &p, bool by_name) {
  for (auto &r : p.R) { auto i = s.addRow(r.name, conv(r.b)); if (!by_name) for (size_t j = 0; j < p.C.size(); j++) if (s.isColumnExists(p.C[j].name)) s.fastAddCoef(i, s.getColumn(p.C[j].name), (double)r.a[j] / (double)p.den); }
  if (by_name) for (auto &r : p.R) for (size_t j = 0; j < p.C.size(); j++) s.addCoef(r.name, p.C[j].name, (double)r.a[j] / (double)p.den);
}
std::string answer(commons::GLPSol &s, const P &p, bool r) {
  std::ostringstream o; o.precision(17); o << r << ' ' << s.isInteger() << ' ' << s.getRowCount() << ' ' << s.getColumnCount();
  if (r) for (auto &c : p.C) o << ' ' << s.getValue(c.name) << ' ' << s.getIntegerValue(c.name) << ' ' << s.getRoundedValue(c.name);
  o << '\n'; return o.str();
}
}
static void run(Case &c) {
  Tape &t = c.t; P p = gen(t, 0), p2; bool two = t.chance(1, 3); if (two) p2 = gen(t, 1);
  bool byname = t.chance(1, 2); commons::GLPParameters par; bool with = t.chance(1, 3); std::string opt = with ? "solveWith" : "solve";
  if (!with) {
    if (t.chance(1, 6)) par.linear_method = commons::DANDP_LINEAR_METHOD, opt += " dualp";
    if (t.chance(1, 8)) par.linear_doSteep = true, opt += " steep";
    if (t.chance(1, 8)) par.general_doScale = true, opt += " scale";
    if (t.chance(1, 8)) par.integer_doMIR = par.integer_doGMI = true, opt += " cuts";
    if (t.chance(1, 8)) par.integer_branchingTechnique = commons::MFV_BRANCH_TECHNIQUE, par.integer_backtrackTechnique = commons::BFS_BACKTRACK_TECHNIQUE, opt += " mfv/bfs";
  }
  c.describe(opt + (byname ? ", coefficients by name\n" : ", coefficients by index\n") + text(p) + (two ? "second problem\n" + text(p2) : ""));
  Sub s = isolate([&]() -> std::string {
    commons::GLPSol a("first", p.max ? commons::MAX_OBJ : commons::MIN_OBJ);
    auto go = [&](commons::GLPSol &x) { return with ? x.solveWith() : x.solve(par); };
    if (!two) { add_cols(a, p); add_rows(a, p, byname); bool r = go(a); return answer(a, p, r); }
    commons::GLPSol b("second", p2.max ? commons::MAX_OBJ : commons::MIN_OBJ);
    add_cols(a, p); add_cols(b, p2); add_rows(b, p2, byname); add_rows(a, p, byname);
    bool ra = go(a), rb = go(b); return answer(a, p, ra) + answer(b, p2, rb);
  }, 20);
  if (s.kind == Sub::CPU || s.kind == Sub::MEM) c.inconclusive(s.how());
  if (!s.ok()) c.fail("abort", s.how());
  std::istringstream in(s.ret); bool nt = false, dec = false;
  for (const P *q : {&p, two ? &p2 : nullptr}) {
    if (!q) break;
    std::string line; std::getline(in, line); std::istringstream l(line); bool r, isint; long nr, nc; l >> r >> isint >> nr >> nc;
    bool want = false; for (auto &x : q->C) want = want || x.kind;
    if (isint != want) c.fail("isInteger", "isInteger is " + str(isint) + "\n" + text(*q));
    if (nr != (long)q->R.size() || nc != (long)q->C.size()) c.fail("counts", str(nr) + " rows, " + str(nc) + " columns\n" + text(*q));
    Rat best; long combos; int st = exact(*q, best, combos);
    if (st == 2) { c.label("unbounded (not claimed)"); continue; }
    if (st == 3) { c.label("too many integer points (not checked)"); continue; }
    dec = true; c.label(st == 0 ? "infeasible" : want ? "integer or mixed optimum" : "linear optimum");
    if (r != (st == 1)) c.fail((r ? "infeasible-solved" : "feasible-refused"), std::string("solve returned ") + (r ? "true" : "false") + " but the problem is " + (st ? "feasible, optimum " + best.str() : "infeasible") + "\n" + text(*q));
    if (!r) continue;
    std::vector<double> x; for (size_t j = 0; j < q->C.size(); j++) { double v, iv, rv; l >> v >> iv >> rv; x.push_back(want ? iv : v); if (fabs(rv - round(v)) > 1e-9) c.fail("rounded", "rounded value " + str(rv) + " of " + str(v)); }
    std::string sol = "returned"; for (size_t j = 0; j < x.size(); j++) sol += " " + q->C[j].name + "=" + str(x[j]); sol += "\n" + text(*q);
    auto in_b = [&](double v, const Bd &b) { return !((b.k == 1 && fabs(v - (double)b.lo) > 1e-5) || ((b.k == 2 || b.k == 4) && v > (double)b.hi + 1e-5) || ((b.k == 3 || b.k == 4) && v < (double)b.lo - 1e-5)); };
    double obj = 0;
    for (size_t j = 0; j < x.size(); j++) { obj += x[j] * (double)q->C[j].c; if (!in_b(x[j], q->C[j].b)) c.fail("bound", "bound of " + q->C[j].name + " violated, " + sol); if (q->C[j].kind && fabs(x[j] - round(x[j])) > 1e-5) c.fail("integrality", sol); }
    for (auto &w : q->R) { double v = 0; for (size_t j = 0; j < x.size(); j++) v += x[j] * (double)w.a[j] / (double)q->den; if (!in_b(v, w.b)) c.fail("row", "row " + w.name + " violated, " + sol); }
    if (fabsl(obj - best.f()) > 1e-5L * (1 + fabsl(best.f()))) c.fail("optimum", "objective " + str(obj) + " but the optimum is " + best.str() + ", " + sol);
    if (q->R.size() >= 1 && q->C.size() >= 2) nt = true;
  }
  if (!dec) c.discard("unbounded or too large");
  c.nontrivial = nt;
}
static Reg reg({"P20",
  "random bounded linear, integer, boolean and mixed programs (1..4 columns, 0..5 rows, free/fixed/one- and two-sided bounds, integer or half coefficients, shuffled names), alone or two problems built interleaved, through solve with several options or solveWith; non-trivial = a feasible problem with at least 2 columns and 1 row",
  100000, 1000000, 60, true, {"problems whose optimum is unbounded are not claimed", "integer columns have integer two-sided or fixed bounds", "values compared with tolerance 1e-5"}, run});
