#include "engine.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <new>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vh {

uint64_t Tape::next64() {
  s += 0x9E3779B97F4A7C15ull;
  uint64_t z = s;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
uint32_t Tape::draw(uint32_t n) {
  uint32_t v;
  if (n <= 1) n = 1;
  if (replay) v = pos < in.size() ? in[pos] % n : 0;
  else v = (uint32_t)(next64() >> 11) % n;
  pos++;
  out.push_back(v);
  return v;
}
int Tape::pick(std::initializer_list<int> w) {
  int tot = 0;
  for (int x : w) tot += x;
  int r = (int)draw((uint32_t)tot), i = 0;
  for (int x : w) { if (r < x) return i; r -= x; i++; }
  return 0;
}

std::vector<Prop> &registry() { static std::vector<Prop> r; return r; }

static std::string slurp_fd(int fd, size_t maxn = 1 << 22) {
  std::string s;
  lseek(fd, 0, SEEK_SET);
  char buf[65536];
  ssize_t n;
  while ((n = read(fd, buf, sizeof buf)) > 0) { s.append(buf, (size_t)n); if (s.size() > maxn) break; }
  return s;
}

std::string Sub::how() const {
  std::string e = err.size() > 400 ? err.substr(0, 400) : err;
  switch (kind) {
    case OK: return "ok";
    case EXIT: return "exit(" + str(code) + ") " + exc + " " + e;
    case SIGNAL: return "signal " + str(code) + " " + exc + " " + e;
    case CPU: return "cpu limit";
    case MEM: return "memory limit " + exc;
  }
  return "?";
}

static const char RET_OK = 'K', RET_EXC = 'X', RET_MEM = 'M';

Sub isolate(const std::function<std::string()> &f, unsigned cpu) {
  Sub r;
  int fo = memfd_create("o", 0), fe = memfd_create("e", 0), fr = memfd_create("r", 0);
  fflush(stdout); std::cout.flush();
  pid_t p = fork();
  if (p < 0) { r.kind = Sub::MEM; r.exc = "fork failed"; close(fo); close(fe); close(fr); return r; }
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    dup2(fo, 1); dup2(fe, 2);
    if (cpu) { struct rlimit rl { cpu, cpu }; setrlimit(RLIMIT_CPU, &rl); }
    struct rlimit nc { 0, 0 }; setrlimit(RLIMIT_CORE, &nc);
    struct rlimit fs { 64u << 20, 64u << 20 }; setrlimit(RLIMIT_FSIZE, &fs);
    std::string out; char k = RET_OK;
    try { out = f(); }
    catch (std::bad_alloc &) { k = RET_MEM; out = "bad_alloc"; }
    catch (std::exception &e) { k = RET_EXC; out = e.what(); }
    catch (std::runtime_error *e) { k = RET_EXC; out = std::string("thrown pointer: ") + e->what(); }
    catch (Failure &e) { k = RET_EXC; out = "Failure " + e.msg; }
    catch (...) { k = RET_EXC; out = "unknown exception"; }
    std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr);
    out.insert(out.begin(), k);
    size_t off = 0;
    while (off < out.size()) { ssize_t n = write(fr, out.data() + off, out.size() - off); if (n <= 0) break; off += (size_t)n; }
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  r.out = slurp_fd(fo); r.err = slurp_fd(fe, 1 << 16);
  std::string ret = slurp_fd(fr);
  close(fo); close(fe); close(fr);
  if (WIFSIGNALED(st)) {
    r.code = WTERMSIG(st);
    r.kind = (r.code == SIGKILL || r.code == SIGXCPU) ? Sub::CPU : Sub::SIGNAL;
    if (r.err.find("bad_alloc") != std::string::npos) r.kind = Sub::MEM;
  } else if (ret.empty()) {
    r.kind = Sub::EXIT; r.code = WEXITSTATUS(st);
  } else if (ret[0] == RET_OK) { r.kind = Sub::OK; r.ret = ret.substr(1); }
  else if (ret[0] == RET_MEM) { r.kind = Sub::MEM; r.exc = ret.substr(1); }
  else { r.kind = Sub::EXIT; r.code = 1; r.exc = ret.substr(1); }
  return r;
}

bool find_number(const std::string &text, const std::string &key, long double &out) {
  size_t p = text.find(key);
  if (p == std::string::npos) return false;
  p += key.size();
  while (p < text.size() && (text[p] == ' ' || text[p] == ':' || text[p] == '=')) p++;
  char *e = nullptr;
  out = strtold(text.c_str() + p, &e);
  return e != text.c_str() + p;
}

// ---- running one case ------------------------------------------------------
struct Outcome {
  char st = 'P';  // P pass, D discard, F fail, I inconclusive
  std::string tag, msg, desc, key;
  bool nontrivial = false;
  std::vector<std::string> labels;
  std::vector<uint32_t> tape;
  double cpu = 0;
};

static void put(std::string &b, const std::string &s) {
  uint32_t n = (uint32_t)s.size();
  b.append((char *)&n, 4); b += s;
}
static std::string get(const std::string &b, size_t &o) {
  if (o + 4 > b.size()) return "";
  uint32_t n; memcpy(&n, b.data() + o, 4); o += 4;
  if (o + n > b.size()) { o = b.size(); return ""; }
  std::string s = b.substr(o, n); o += n; return s;
}

// Shared page where the case publishes its description as soon as it is known,
// so that a crash still has a rendered input.
static int g_descfd = -1;
void Case::describe(const std::string &d) {
  desc = d;
  if (g_descfd < 0) return;
  std::string b; uint32_t n = (uint32_t)d.size(); b.append((char *)&n, 4); b += d;
  n = (uint32_t)t.out.size() * 4; b.append((char *)&n, 4); b.append((char *)t.out.data(), n);
  if (ftruncate(g_descfd, 0)) {}
  lseek(g_descfd, 0, SEEK_SET);
  if (write(g_descfd, b.data(), b.size()) < 0) {}
}

static Outcome run_case(const Prop &P, uint64_t seed, const std::vector<uint32_t> *tape) {
  Outcome o;
  int fr = memfd_create("c", 0), fe = memfd_create("ce", 0);
  int fdsc = memfd_create("cd", 0);
  pid_t p = fork();
  if (p < 0) { o.st = 'I'; o.msg = "fork failed"; close(fr); close(fe); close(fdsc); return o; }
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1); dup2(fe, 2);
    struct rlimit rl { P.cpu, P.cpu + 1 }; setrlimit(RLIMIT_CPU, &rl);
#ifndef __SANITIZE_ADDRESS__
    struct rlimit as { 3ull << 30, 3ull << 30 }; setrlimit(RLIMIT_AS, &as);
#endif
    struct rlimit nc { 0, 0 }; setrlimit(RLIMIT_CORE, &nc);
    Case c; g_descfd = fdsc;
    if (tape) { c.t.replay = true; c.t.in = *tape; } else c.t.s = seed;
    char st = 'P'; std::string tag, msg;
    // publish the tape even on a crash
    try { P.run(c); }
    catch (Failure &f) { st = 'F'; tag = f.tag; msg = f.msg; }
    catch (Discard &d) { st = 'D'; msg = d.why; }
    catch (Inconclusive &d) { st = 'I'; msg = d.why; }
    catch (std::bad_alloc &) { st = 'I'; msg = "bad_alloc"; }
    catch (std::exception &e) { st = P.crash_fails ? 'F' : 'I'; tag = "exception"; msg = std::string("uncaught exception: ") + e.what(); }
    catch (std::runtime_error *e) { st = P.crash_fails ? 'F' : 'I'; tag = "exception"; msg = std::string("uncaught exception: ") + e->what(); }
    std::string b; b += st; b += c.nontrivial ? '1' : '0';
    put(b, tag); put(b, msg); put(b, c.desc); put(b, c.key);
    std::string ls; for (auto &l : c.labels) ls += l + "\n";
    put(b, ls);
    put(b, std::string((char *)c.t.out.data(), c.t.out.size() * 4));
    size_t off = 0;
    while (off < b.size()) { ssize_t n = write(fr, b.data() + off, b.size() - off); if (n <= 0) break; off += (size_t)n; }
    _exit(0);
  }
  int st = 0; struct rusage ru;
  memset(&ru, 0, sizeof ru);
  while (wait4(p, &st, 0, &ru) < 0 && errno == EINTR) {}
  kill(-p, SIGKILL);
  o.cpu = (double)ru.ru_utime.tv_sec + 1e-6 * (double)ru.ru_utime.tv_usec + (double)ru.ru_stime.tv_sec;
  std::string b = slurp_fd(fr, 1 << 26);
  if (b.size() >= 2) {
    o.st = b[0]; o.nontrivial = b[1] == '1';
    size_t off = 2;
    o.tag = get(b, off); o.msg = get(b, off); o.desc = get(b, off); o.key = get(b, off);
    std::string ls = get(b, off), tp = get(b, off);
    std::istringstream is(ls); std::string l;
    while (std::getline(is, l)) o.labels.push_back(l);
    o.tape.resize(tp.size() / 4); if (!o.tape.empty()) memcpy(o.tape.data(), tp.data(), o.tape.size() * 4);
  } else {
    std::string err = slurp_fd(fe, 1 << 16);
    bool cpu = WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL);
    bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU && P.hang_fails;
    if (hang) { o.st = 'F'; o.tag = "hang"; o.msg = "no answer within " + str(P.cpu) + " s of cpu time"; }
    else if (cpu || err.find("bad_alloc") != std::string::npos) { o.st = 'I'; o.msg = cpu ? "cpu limit" : "memory"; }
    else {
      o.st = P.crash_fails ? 'F' : 'I';
      o.tag = "crash";
      o.msg = WIFSIGNALED(st) ? "case killed by signal " + str(WTERMSIG(st)) : "case called exit(" + str(WEXITSTATUS(st)) + ")";
      o.msg += " stderr: " + err.substr(0, 500);
    }
    std::string db = slurp_fd(fdsc, 1 << 26); size_t off = 0;
    o.desc = get(db, off);
    std::string tp = get(db, off);
    // the tape published with the description; on a crash before that, none
    o.tape.resize(tp.size() / 4); if (!o.tape.empty()) memcpy(o.tape.data(), tp.data(), o.tape.size() * 4);
    if (o.tape.empty() && tape) o.tape = *tape;
  }
  close(fr); close(fe); close(fdsc);
  return o;
}

// a crash loses the tape; rebuild it by drawing a long random tape up front
static std::vector<uint32_t> raw_tape(uint64_t seed, size_t n) {
  Tape t; t.s = seed;
  std::vector<uint32_t> v(n);
  for (auto &x : v) x = (uint32_t)(t.next64() >> 11);
  return v;
}

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static uint64_t mix(uint64_t a, uint64_t b) {
  Tape t; t.s = a * 0x2545F4914F6CDD1Dull + b; t.next64(); return t.next64();
}
static uint64_t fnv(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

static std::string jesc(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    switch (c) {
      case '"': o += "\\\""; break; case '\\': o += "\\\\"; break;
      case '\n': o += "\\n"; break; case '\t': o += "\\t"; break; case '\r': o += "\\r"; break;
      default: if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c;
    }
  }
  return o + "\"";
}

static const Prop *find_prop(const std::string &id) {
  for (auto &p : registry()) if (p.id == id) return &p;
  return nullptr;
}
// property or "ID#probe"
static bool resolve(const std::string &id, Prop &P) {
  size_t h = id.find('#');
  const Prop *q = find_prop(id.substr(0, h));
  if (!q) return false;
  P = *q;
  if (h == std::string::npos) return true;
  for (auto &b : q->probes) if (b.name == id.substr(h + 1)) { P.id = id; P.run = b.run; return true; }
  return false;
}

// ---- shrinking -------------------------------------------------------------
static bool fails_same(const Prop &P, const std::vector<uint32_t> &t, const std::string &tag, Outcome &o) {
  o = run_case(P, 0, &t);
  return o.st == 'F' && o.tag == tag;
}

static Outcome shrink(const Prop &P, Outcome best, double budget, long &tries) {
  double t0 = now();
  auto left = [&] { return now() - t0 < budget; };
  auto better = [](const std::vector<uint32_t> &a, const std::vector<uint32_t> &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  };
  auto attempt = [&](const std::vector<uint32_t> &cand) {
    tries++;
    Outcome o;
    if (!fails_same(P, cand, best.tag, o)) return false;
    std::vector<uint32_t> real = o.tape;
    while (!real.empty() && real.back() == 0) real.pop_back();
    if (!better(real, best.tape)) return false;
    o.tape = real; best = o;
    return true;
  };
  bool progress = true;
  while (progress && left()) {
    progress = false;
    for (size_t len = std::max<size_t>(1, best.tape.size() / 2); len >= 1 && left(); len /= 2) {
      for (size_t i = 0; i + len <= best.tape.size() && left();) {
        auto c = best.tape; c.erase(c.begin() + (long)i, c.begin() + (long)(i + len));
        if (attempt(c)) { progress = true; continue; }
        c = best.tape; bool nz = false;
        for (size_t k = i; k < i + len; k++) { nz |= c[k] != 0; c[k] = 0; }
        if (nz && attempt(c)) progress = true;
        i += len;
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < best.tape.size() && left(); i++) {
      uint32_t v = best.tape[i];
      if (!v) continue;
      uint32_t lo = 0, hi = v;  // binary search towards the smallest failing value
      while (lo < hi && left()) {
        uint32_t mid = lo + (hi - lo) / 2;
        auto c = best.tape; c[i] = mid;
        if (attempt(c)) { progress = true; if (i >= best.tape.size()) break; hi = std::min(mid, best.tape[i]); }
        else lo = mid + 1;
      }
      if (i < best.tape.size() && best.tape[i] && left()) {
        auto c = best.tape; c[i]--; if (attempt(c)) progress = true;
      }
    }
  }
  return best;
}

// ---- known findings ----------------------------------------------------------
struct Known { std::string prop, tag, text; };
static std::vector<Known> load_known(const std::string &path, const std::string &id) {
  std::vector<Known> v;
  std::ifstream f(path);
  std::string l;
  // format: "finding: property=<id> tag=<tag> <text>"; "fixed:" lines suppress nothing
  while (std::getline(f, l)) {
    if (l.rfind("finding:", 0) != 0) continue;
    std::istringstream is(l.substr(8));
    std::string a, b, rest; is >> a >> b; std::getline(is, rest);
    if (a != "property=" + id || b.rfind("tag=", 0) != 0) continue;
    v.push_back({id, b.substr(4), rest});
  }
  return v;
}

struct LaneMsg { };  // lanes report through files

static void write_replay(const std::string &path, const Prop &P, const Outcome &o, uint64_t seed) {
  std::ofstream f(path);
  f << "property " << P.id << "\n";
  f << "tag " << o.tag << "\n";
  f << "tape"; for (auto x : o.tape) f << ' ' << x; f << "\n";
  f << "seed " << seed << "\n";
  f << "---\n# failure: " << o.msg << "\n# input:\n" << o.desc << "\n";
}

static bool read_replay(const std::string &path, std::string &id, std::vector<uint32_t> &tape) {
  std::ifstream f(path); std::string l;
  bool ok = false;
  while (std::getline(f, l)) {
    std::istringstream is(l); std::string k; is >> k;
    if (k == "property") is >> id;
    if (k == "tape") { uint32_t x; while (is >> x) tape.push_back(x); ok = true; }
    if (l == "---") break;
  }
  return ok;
}

struct Stats {
  long evals = 0, disc = 0, inc = 0;
  double maxcpu = 0;
  std::map<std::string, long> labels, incwhy, discwhy;
  std::set<uint64_t> keys;
  std::vector<std::string> samples;
};

int engine_main(int argc, char **argv) {
  signal(SIGPIPE, SIG_IGN);
  std::string cmd = argc > 1 ? argv[1] : "";
  std::map<std::string, std::string> opt;
  for (int i = 3; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
  auto geti = [&](const char *k, long d) { return opt.count(k) ? atol(opt[k].c_str()) : d; };
  if (cmd == "list") { for (auto &p : registry()) std::cout << p.id << "\n"; return 0; }
  if (argc < 3) { std::cerr << "usage: vh run <ID> [--tier T --seed S --cases N --jobs J --time SEC --dir VERIF] | vh replay FILE | vh gen <ID> --seed S --cases N\n"; return 2; }

  if (!getenv("VH_ASLR_OFF")) {  // pointer-ordered containers: keep runs reproducible
    setenv("VH_ASLR_OFF", "1", 1);
    int pers = personality(0xffffffff);
    if (pers != -1 && personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  if (cmd == "replay") {
    std::string id; std::vector<uint32_t> tape;
    if (!read_replay(argv[2], id, tape)) { std::cerr << "bad replay file\n"; return 2; }
    Prop P;
    if (resolve(id, P)) {
      Outcome o = run_case(P, 0, &tape);
      std::cout << "outcome " << o.st << " tag=" << o.tag << "\n" << o.msg << "\n--- input\n" << o.desc << "\n";
      return o.st == 'F' ? 1 : 0;
    }
    return 2;
  }

  std::string id = argv[2];
  Prop P;
  if (!resolve(id, P)) { std::cerr << "unknown property " << id << "\n"; return 2; }
  std::string tier = opt.count("--tier") ? opt["--tier"] : "quick";
  uint64_t seed = (uint64_t)geti("--seed", 1);
  long cases = geti("--cases", tier == "thorough" ? P.thorough_cases : P.quick_cases);
  long jobs = geti("--jobs", 8);
  double tlimit = (double)geti("--time", tier == "thorough" ? 3000 : 420);
  std::string dir = opt.count("--dir") ? opt["--dir"] : ".";
  bool showall = opt.count("--verbose");
  auto known = load_known(dir + "/known_findings.txt", id);
  double t0 = now();

  if (cmd == "gen") {
    for (long i = 0; i < cases; i++) {
      Outcome o = run_case(P, mix(mix(seed, fnv(id)), (uint64_t)i), nullptr);
      std::cout << "## case " << i << " st=" << o.st << " nt=" << o.nontrivial << " tag=" << o.tag << " cpu=" << o.cpu << " " << o.msg << "\n";
      for (auto &l : o.labels) std::cout << "[" << l << "] "; std::cout << "\n" << o.desc << "\n";
    }
    return 0;
  }

  // pinned cases
  std::vector<std::string> knownlines, probe_names;
  std::string vline; int violations = 0;
  for (auto &b : P.probes) {
    if (opt.count("--no-probes")) break;
    Prop Q = P; Q.run = b.run; Q.id = id + "#" + b.name;
    std::vector<uint32_t> none;
    Outcome o = run_case(Q, 0, &none);
    bool stable = o.st == 'F';
    for (int k = 0; k < 2 && stable; k++) { Outcome o2 = run_case(Q, 0, &none); stable = o2.st == 'F'; }
    probe_names.push_back(b.name + (stable ? ": fails" : o.st == 'P' ? ": holds" : std::string(": ") + o.st));
    if (!stable) continue;
    bool isknown = false;
    for (auto &k : known) if (k.tag == b.name) { isknown = true; knownlines.push_back("KNOWN-FINDING: property=" + id + " " + b.name + k.text); }
    if (isknown) continue;
    std::string d = dir + "/replays"; mkdir(dir.c_str(), 0755); mkdir(d.c_str(), 0755);
    std::string path = d + "/" + id + "-" + b.name + ".replay";
    write_replay(path, Q, o, seed);
    violations++;
    std::cout << "# pinned case " << b.name << ": " << o.tag << ": " << o.msg << "\n" << o.desc << "\n";
    vline = "VIOLATION property=" + id + " replay=" + path;
  }
  if (violations && !opt.count("--keep-going")) cases = 0;

  // lanes
  std::vector<int> pipes; std::vector<pid_t> pids;
  auto *stop = (std::atomic<int> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (stop) std::atomic<int>(0);
  for (long j = 0; j < jobs; j++) {
    int fd[2]; if (pipe(fd)) return 2;
    fflush(stdout); std::cout.flush();
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      close(fd[0]);
      auto send = [&](const std::string &b) {
        uint32_t n = (uint32_t)b.size(); std::string m((char *)&n, 4); m += b;
        size_t off = 0; while (off < m.size()) { ssize_t k = write(fd[1], m.data() + off, m.size() - off); if (k <= 0) _exit(3); off += (size_t)k; }
      };
      for (long i = j; i < cases; i += jobs) {
        if (stop->load() || now() - t0 > tlimit) break;
        uint64_t cs = mix(mix(seed, fnv(id)), (uint64_t)i);
        Outcome o = run_case(P, cs, nullptr);
        if (o.st == 'F' && o.tape.empty()) {  // crash: re-run on an explicit raw tape
          // same choices: draws reduce raw values modulo their bound
          auto raw = raw_tape(cs, 20000);
          Outcome o2 = run_case(P, 0, &raw);
          if (o2.st == 'F') { o = o2; if (o.tape.size() == raw.size()) {} }
        }
        std::string b; b += o.st; b += o.nontrivial ? '1' : '0';
        put(b, o.tag); put(b, o.msg); put(b, o.desc); put(b, o.key);
        std::string ls; for (auto &l : o.labels) ls += l + "\n"; put(b, ls);
        put(b, o.st == 'F' ? std::string((char *)o.tape.data(), o.tape.size() * 4) : "");
        put(b, str(o.cpu)); put(b, str(i));
        send(b);
      }
      _exit(0);
    }
    close(fd[1]);
    pipes.push_back(fd[0]); pids.push_back(p);
  }
  Stats S;
  std::vector<Outcome> fails;
  std::set<std::string> seenfail;
  std::vector<std::string> bufs((size_t)jobs);
  std::vector<char> open_((size_t)jobs, 1);
  long nopen = jobs;
  double failed_at = 0;
  while (nopen) {
    std::vector<pollfd> pf;
    for (long j = 0; j < jobs; j++) if (open_[(size_t)j]) pf.push_back({pipes[(size_t)j], POLLIN, 0});
    poll(pf.data(), pf.size(), 500);
    if (failed_at > 0 && now() - failed_at > 30) for (auto p : pids) kill(p, SIGKILL);
    for (auto &q : pf) if (q.revents) {
      size_t j = 0; while (pipes[j] != q.fd) j++;
      char buf[65536]; ssize_t n = read(q.fd, buf, sizeof buf);
      if (n <= 0) { open_[j] = 0; nopen--; close(q.fd); continue; }
      bufs[j].append(buf, (size_t)n);
      for (;;) {
        if (bufs[j].size() < 4) break;
        uint32_t len; memcpy(&len, bufs[j].data(), 4);
        if (bufs[j].size() < 4 + (size_t)len) break;
        std::string b = bufs[j].substr(4, len); bufs[j].erase(0, 4 + (size_t)len);
        Outcome o; o.st = b[0]; o.nontrivial = b[1] == '1'; size_t off = 2;
        o.tag = get(b, off); o.msg = get(b, off); o.desc = get(b, off); o.key = get(b, off);
        std::string ls = get(b, off), tp = get(b, off), cpu = get(b, off), idx = get(b, off);
        o.tape.resize(tp.size() / 4); if (!o.tape.empty()) memcpy(o.tape.data(), tp.data(), o.tape.size() * 4);
        o.cpu = atof(cpu.c_str());
        S.evals++; S.maxcpu = std::max(S.maxcpu, o.cpu);
        std::istringstream is(ls); std::string l;
        while (std::getline(is, l)) S.labels[l]++;
        if (o.st == 'D') { S.disc++; S.discwhy[o.msg.substr(0, 60)]++; continue; }
        if (o.st == 'I') { S.inc++; S.incwhy[o.msg.substr(0, 60)]++; if (showall) std::cerr << "case " << idx << " inconclusive: " << o.msg << "\n" << o.desc << "\n"; continue; }
        if (o.nontrivial) {
          if (S.keys.insert(fnv(o.key.empty() ? o.desc : o.key)).second && S.samples.size() < 4 && o.desc.size() < 3000 && (S.keys.size() % 7 == 1)) S.samples.push_back(o.desc);
        }
        if (o.st == 'F') {
          if (showall) { if (seenfail.insert(o.tag).second) { std::cerr << "FAIL case " << idx << " tag=" << o.tag << " " << o.msg << "\n" << o.desc << "\n"; } S.labels["FAIL:" + o.tag]++; if (!opt.count("--keep-going")) {} }
          fails.push_back(o);
          if (!opt.count("--keep-going")) { stop->store(1); if (failed_at == 0) failed_at = now(); }
        }
      }
    }
  }
  for (auto p : pids) { int st; waitpid(p, &st, 0); }

  // confirm (3 replays) and shrink
  std::vector<std::string> flaky;
  if (!opt.count("--keep-going"))
  for (auto &f : fails) {
    if (violations) break;
    bool stable = true;
    Outcome o;
    for (int k = 0; k < 3 && stable; k++) stable = fails_same(P, f.tape, f.tag, o);
    if (!stable) { flaky.push_back(f.tag + ": " + f.msg); continue; }
    o.tape = f.tape;
    long tries = 0;
    Outcome m = shrink(P, o, (double)geti("--shrink", tier == "thorough" ? 120 : 40), tries);
    std::string d = dir + "/replays"; mkdir(dir.c_str(), 0755); mkdir(d.c_str(), 0755);
    std::string path = d + "/" + id + "-" + str(fnv(m.desc + m.tag) % 1000000) + ".replay";
    write_replay(path, P, m, seed);
    violations++;
    std::cout << "# " << m.tag << ": " << m.msg << "\n# minimal input (after " << tries << " shrink attempts):\n" << m.desc << "\n";
    vline = "VIOLATION property=" + id + " replay=" + path;
  }
  double wall = now() - t0;

  // evidence
  std::string ed = dir + "/evidence"; mkdir(ed.c_str(), 0755);
  {
    std::ofstream f(ed + "/" + id + ".json");
    f << "{\n \"property\": " << jesc(id) << ",\n \"tier\": " << jesc(tier) << ",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n";
    f << " \"coverage\": {\n  \"evaluations\": " << S.evals << ",\n  \"distinct_nontrivial\": " << S.keys.size() << ",\n  \"rule\": " << jesc(P.rule) << ",\n";
    f << "  \"requested_cases\": " << cases << ",\n  \"discarded\": " << S.disc << ",\n  \"inconclusive\": " << S.inc << ",\n  \"known_findings\": " << knownlines.size() << ",\n  \"max_case_cpu_s\": " << S.maxcpu << ",\n";
    auto dump = [&](const char *name, std::map<std::string, long> &m) {
      f << "  \"" << name << "\": {"; bool first = true;
      for (auto &k : m) { f << (first ? "" : ", ") << jesc(k.first) << ": " << k.second; first = false; }
      f << "},\n";
    };
    dump("labels", S.labels); dump("discard_reasons", S.discwhy); dump("inconclusive_reasons", S.incwhy);
    f << "  \"pinned_cases\": ["; for (size_t i = 0; i < probe_names.size(); i++) f << (i ? ", " : "") << jesc(probe_names[i]); f << "],\n";
    f << "  \"unstable_failures\": ["; for (size_t i = 0; i < flaky.size(); i++) f << (i ? ", " : "") << jesc(flaky[i].substr(0, 300)); f << "],\n";
    f << "  \"samples\": ["; for (size_t i = 0; i < S.samples.size(); i++) f << (i ? ", " : "") << jesc(S.samples[i]); f << "]\n },\n";
    f << " \"assumptions\": ["; for (size_t i = 0; i < P.assumptions.size(); i++) f << (i ? ", " : "") << jesc(P.assumptions[i]); f << "],\n";
    f << " \"violations\": " << violations << ",\n \"wall_s\": " << wall << "\n}\n";
  }
  std::cout << id << " " << tier << " seed=" << seed << ": " << S.evals << " cases, " << S.keys.size() << " distinct non-trivial, " << S.disc << " discarded, " << S.inc << " inconclusive, " << knownlines.size() << " known, max cpu " << S.maxcpu << "s, wall " << wall << "s\n";
  if (opt.count("--labels")) { for (auto &l : S.labels) std::cout << "   " << l.first << ": " << l.second << "\n"; for (auto &l : S.discwhy) std::cout << "   discard " << l.first << ": " << l.second << "\n"; for (auto &l : S.incwhy) std::cout << "   inconclusive " << l.first << ": " << l.second << "\n"; }
  for (auto &k : knownlines) std::cout << k << "\n";
  if (violations) { std::cout << vline << std::endl; return 1; }
  return 0;
}
}  // namespace vh
