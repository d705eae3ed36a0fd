// P12 numeric and text helpers
#include "graph.h"
#include <boost/assert.hpp>
#include <commons/commons.h>
#include <commons/GroupList.h>
#include <algorithm>
#include <numeric>
using namespace vh;
namespace {
typedef long L;
L fl(L v, L c) { L q = v / c; if (q * c != v && v < 0) q--; return q * c; }   // c > 0
L num(Tape &t) {
  L v;
  switch (t.pick({4, 3, 2, 2})) {
    case 0: v = (L)t.draw(20); break;
    case 1: v = (L)t.draw(5000); break;
    case 2: v = (L)t.draw(2000000000u); break;
    default: v = ((L)t.draw(1u << 30) << 28) + (L)t.draw(1u << 28);
  }
  return v;
}
L sgn(Tape &t, L v) { return t.chance(1, 3) ? -v : v; }

void rounding(Case &c) {
  Tape &t = c.t; L cc = 1 + (t.chance(1, 4) ? (L)t.draw(1000000000) : (L)t.draw(40)), v = num(t);
  if (t.chance(1, 2)) { v = v / cc * cc + (L)t.draw(3) - 1; if (t.chance(1, 4)) v = v / cc * cc; }   // around multiples
  v = sgn(t, v);
  c.describe("rounding " + str(v) + " to multiples of " + str(cc)); c.nontrivial = v % cc != 0 || v < 0;
  L f = fl(v, cc), u = f == v ? v : f + cc;
  auto eq = [&](L a, L b, const char *n) { if (a != b) c.fail("rounding", std::string(n) + "(" + str(v) + "," + str(cc) + ") = " + str(a) + " instead of " + str(b)); };
  eq(commons::floor(v, cc), f, "floor"); eq(commons::ceil(v, cc), u, "ceil"); eq(commons::flooru(v, cc), f, "flooru"); eq(commons::ceilu(v, cc), u, "ceilu");
  eq(commons::floord(v, cc), f == v ? v - cc : f, "floord"); eq(commons::ceild(v, cc), u == v ? v + cc : u, "ceild");
  L m = v % cc; if (m < 0) m += cc;
  eq(commons::modulo(v, cc), m, "modulo");
  L h = v / 4;    // exact binary fraction
  TIME_UNIT x = (TIME_UNIT)v / 4; bool whole = v % 4 == 0;
  if (commons::isInteger(x) != whole) c.fail("isInteger", "isInteger(" + str(v) + "/4)"); (void)h;
  if (std::labs(v) < 1000000) {
    TIME_UNIT y = (TIME_UNIT)v / 4;
    L want = 0; { L q4 = 4 * cc; L k = v / q4; if (v % q4 != 0 && v < 0) k--; want = k * cc; }
    L got = commons::floor<L, TIME_UNIT>(y, cc); if (got != want) c.fail("rounding", "floor(" + str(v) + "/4," + str(cc) + ") = " + str(got) + " instead of " + str(want));
    L got2 = commons::ceil<L, TIME_UNIT>(y, cc), want2 = v % (4 * cc) == 0 ? want : want + cc; if (got2 != want2) c.fail("rounding", "ceil(" + str(v) + "/4," + str(cc) + ") = " + str(got2) + " instead of " + str(want2));
  }
}
void bezout(Case &c) {
  Tape &t = c.t; L a = 1 + (L)t.draw(t.chance(1, 3) ? 2000000 : 60), b = 1 + (L)t.draw(t.chance(1, 3) ? 2000000 : 60), g = std::gcd(a, b), k = sgn(t, (L)t.draw(2000));
  c.describe("extended_euclide " + str(a) + " " + str(b) + " " + str(g * k)); c.nontrivial = a != b && k != 0;
  auto r = commons::extended_euclide<L>(a, b, g * k);
  if (a * r.first + b * r.second != g * k) c.fail("bezout", str(a) + "*" + str(r.first) + " + " + str(b) + "*" + str(r.second) + " is not " + str(g * k));
  if (g > 1) { Sub s = isolate([&]() -> std::string { auto x = commons::extended_euclide<L>(a, b, g * k + 1); return str(x.first) + "," + str(x.second); }, 5); if (s.ok()) c.fail("bezout", "a solution " + s.ret + " is returned for an equation without solution"); }
}
void fractions(Case &c) {
  Tape &t = c.t; L top = t.chance(1, 4) ? 2000000000L : 30;
  L a = sgn(t, (L)t.draw((uint32_t)top)), b = 1 + (L)t.draw((uint32_t)top), d = sgn(t, (L)t.draw((uint32_t)top)), e = 1 + (L)t.draw((uint32_t)top);
  c.describe("fractions " + str(a) + "/" + str(b) + " and " + str(d) + "/" + str(e)); c.nontrivial = b > 1 && e > 1;
  TOKEN_FRACT x(a, b), y(d, e); Rat X(a, b), Y(d, e);
  auto same = [&](const TOKEN_FRACT &f, const Rat &r, const char *n) { if ((__int128)f.numerator() != r.n || (__int128)f.denominator() != r.d) c.fail("fraction", std::string(n) + " = " + commons::toString(f) + " instead of " + r.str()); };
  same(x, X, "x"); same(y, Y, "y");
  same(x * y, X * Y, "x*y"); same(x * d, X * Rat(d), "x*n");
  if (d != 0) { same(x / y, X / Y, "x/y"); TOKEN_FRACT z = x; z /= d; same(z, X / Rat(d), "x/n"); }
  bool lt = X < Y, q = X == Y;
  if ((x < y) != lt || (x == y) != q || (x > y) != (!lt && !q) || (x <= y) != (lt || q) || (x != y) != !q) c.fail("fraction", "comparison of " + X.str() + " and " + Y.str());
  bool li = X < Rat(d), qi = X == Rat(d);
  if ((x < d) != li || (x == d) != qi || (x > d) != (!li && !qi) || (x <= d) != (li || qi) || (x != d) != !qi) c.fail("fraction", "comparison of " + X.str() + " and " + str(d));
}
void lists(Case &c) {
  Tape &t = c.t; size_t n = (size_t)t.skew(0, 12); char sep = ",;:|"[t.draw(4)];
  std::vector<L> v; for (size_t i = 0; i < n; i++) { if (!v.empty() && t.chance(1, 2)) v.push_back(v.back()); else v.push_back(sgn(t, num(t))); }
  std::vector<std::string> w; for (size_t i = 0; i < n; i++) { std::string s; for (size_t k = 1 + t.draw(6); k > 0; k--) s += "abcxyz019_.-"[t.draw(12)]; w.push_back(s); }
  std::string one(1, sep), j = commons::join(v.begin(), v.end(), one), k = commons::join(w.begin(), w.end(), one);
  c.describe("lists " + j + "  and " + k); c.nontrivial = n >= 2;
  std::string J, K; for (size_t i = 0; i < n; i++) { J += (i ? one : "") + std::to_string(v[i]); K += (i ? one : "") + w[i]; }
  if (j != J) c.fail("join", "join gives " + j + " for " + J); if (k != K) c.fail("join", "join gives " + k + " for " + K);
  if (commons::split<L>(j, sep) != v) c.fail("split", "splitting " + j + " gives " + vec(commons::split<L>(j, sep)));
  if (commons::split<std::string>(k, sep) != w) c.fail("split", "splitting " + k + " gives " + vec(commons::split<std::string>(k, sep)));
  // compact lists
  std::string z; std::vector<std::string> want; size_t i = 0;
  while (i < n) {
    size_t r = 1; while (i + r < n && v[i + r] == v[i] && t.chance(3, 4)) r++;
    std::string x = std::to_string(std::labs(v[i]));
    if (!z.empty()) z += t.chance(1, 4) ? ", " : ",";
    if (r > 1 || t.chance(1, 4)) z += std::to_string(r) + "*" + x; else z += x;
    for (size_t q = 0; q < r; q++) want.push_back(x);
    i += r;
  }
  auto got = commons::splitSDF3List(z);
  if (got != want) c.fail("compact", "rate list '" + z + "' decodes to " + vec(got) + " instead of " + vec(want));
  for (L x : v) { std::string s = commons::toString(x); if (s != std::to_string(x) || commons::fromString<L>(s) != x) c.fail("number", "number " + std::to_string(x) + " written as " + s + ", read back as " + str(commons::fromString<L>(s))); }
  parameters_list_t p; for (size_t q = 0; q < n; q++) p["K" + str(q)] = std::to_string(v[q]);
  for (size_t q = 0; q < n; q++) if (commons::get_parameter<L>(p, "K" + str(q), -7) != v[q]) c.fail("parameter", "parameter K" + str(q)); if (commons::get_parameter<L>(p, "absent", -7) != -7) c.fail("parameter", "default of an absent parameter");
}
void text(Case &c) {
  Tape &t = c.t; std::string s; for (size_t k = t.draw(12); k > 0; k--) s += "ab_ _1_\xc3"[t.draw(8)];
  int r = (int)t.draw(256), g = (int)t.draw(256), b = (int)t.draw(256);
  L v = sgn(t, (L)t.draw(1000000000)); int p = (int)t.draw(4);
  c.describe("text '" + s + "' colour " + str(r) + "," + str(g) + "," + str(b) + " round " + str(v) + "/10^6 to " + str(p)); c.nontrivial = s.find('_') != std::string::npos;
  std::string w; for (char x : s) { if (x == '_') w += "\\_"; else w += x; }
  if (commons::latexize(s) != w) c.fail("latexize", "'" + s + "' becomes '" + commons::latexize(s) + "'");
  char h[16]; snprintf(h, sizeof h, "%02X%02X%02X", r, g, b);
  if (commons::ConvertRGBtoHex(r, g, b) != h) c.fail("colour", "colour " + std::string(h) + " written " + commons::ConvertRGBtoHex(r, g, b));
  L unit = 1; for (int i = 0; i < 6 - p; i++) unit *= 10;
  TIME_UNIT got = commons::roundIt((TIME_UNIT)v / 1000000, p) * 1000000;   // in millionths
  if (std::fabs((double)(got - v)) > (double)unit / 2 + 1e-3) c.fail("round", str(v) + "/10^6 rounded to " + str(p) + " decimals is " + str(got) + "/10^6");
  TIME_UNIT k = got / unit; if (std::fabs((double)(k - std::round((double)k))) > 1e-6) c.fail("round", str(v) + "/10^6 rounded to " + str(p) + " decimals is " + str(got) + "/10^6");
  int n = (int)t.draw(40); L f0 = 0, f1 = 1; for (int i = 0; i < n; i++) { L x = f0 + f1; f0 = f1; f1 = x; }
  if (commons::fibo(n) != f0) c.fail("fibo", "Fibonacci number " + str(n) + " is " + str(commons::fibo(n)));
  std::vector<L> h2; for (size_t i = t.draw(5); i > 0; i--) h2.push_back((L)t.draw(5)); L x = (L)t.draw(5);
  if (commons::findInVector(h2, x) != (std::find(h2.begin(), h2.end(), x) != h2.end())) c.fail("find", "membership of " + str(x) + " in " + vec(h2));
}
void groups(Case &c) {
  Tape &t = c.t; int n = 1 + (int)t.draw(6); size_t m = t.draw(9); GroupList<L, L> g; std::string d = "groups";
  std::vector<int> p((size_t)n); std::iota(p.begin(), p.end(), 0); std::vector<std::set<L>> val((size_t)n); std::vector<bool> seen((size_t)n);
  for (size_t i = 0; i < m; i++) {
    int a = (int)t.draw((uint32_t)n), b = (int)t.draw((uint32_t)n); L v = (L)t.draw(8);
    d += " (" + str(a) + "," + str(b) + ":" + str(v) + ")"; g.add(a, b, v);
    seen[(size_t)a] = seen[(size_t)b] = true; int pa = p[(size_t)a], pb = p[(size_t)b];
    for (auto &x : p) if (x == pb) x = pa;
    if (pa != pb) { val[(size_t)pa].insert(val[(size_t)pb].begin(), val[(size_t)pb].end()); val[(size_t)pb].clear(); }
    val[(size_t)pa].insert(v);
  }
  c.describe(d); c.nontrivial = m >= 3;
  std::vector<std::set<L>> want, got = g.getall(); for (int i = 0; i < n; i++) if (p[(size_t)i] == i && seen[(size_t)i]) want.push_back(val[(size_t)i]);
  std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
  auto show = [](const std::vector<std::set<L>> &s) { std::string o; for (auto &x : s) { o += "{"; for (L y : x) o += str(y) + " "; o += "}"; } return o; };
  if (want != got) c.fail("groups", "groups are " + show(got) + " instead of " + show(want));
}
void run(Case &c) {
  switch (c.t.pick({4, 2, 3, 4, 2, 3})) {
    case 0: c.label("rounding"); return rounding(c);
    case 1: c.label("bezout"); return bezout(c);
    case 2: c.label("fractions"); return fractions(c);
    case 3: c.label("lists"); return lists(c);
    case 4: c.label("text"); return text(c);
    default: c.label("groups"); return groups(c);
  }
}
static Reg reg({"P12",
  "random operands (small, around multiples, up to 2^58, both signs), positive divisors, fractions with positive denominators, lists joined/split/compressed, group merges, against exact integer definitions; non-trivial = operand not a multiple or negative, at least 2 list entries, at least 3 merges",
  250000, 12000000, 20, true, {"operands below 2^58 so that no result overflows", "fractional numbers as text are covered by P09 (durations) only"}, run});
}
