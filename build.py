#!/usr/bin/env python3
"""Builds /verif/build/<variant>/vh from /repo's current working tree plus /verif/harness.
Objects are cached under a hash of everything that can influence them (flags, source
text, all headers), never by time stamp, so an edit of /repo is always seen."""
import hashlib, os, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VARIANTS = {
    "release": ["-O1", "-D__RELEASE_MODE__"],
    "asan": ["-O1", "-g1", "-D__RELEASE_MODE__", "-fsanitize=address", "-fno-sanitize-recover=undefined",
             "-fno-sanitize=vptr", "-D_GLIBCXX_ASSERTIONS"],
}
BASE = ["g++", "-include", "array", "-std=c++17", "-w", "-fno-strict-aliasing"]
LIBS = ["-lglpk", "-lxml2", "-lboost_filesystem", "-lboost_system", "-lboost_graph", "-lz", "-lpthread"]

def walk(d, exts):
    r = []
    for root, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts): r.append(os.path.join(root, f))
    return r
def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()
def rd(p):
    with open(p, "rb") as f: return f.read()

def build(variant="release"):
    t0 = time.time()
    out = os.path.join(VERIF, "build", variant); obj = os.path.join(out, "obj")
    os.makedirs(obj, exist_ok=True)
    lock = open(os.path.join(out, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    flags = VARIANTS[variant]
    inc = ["-I" + REPO + "/src", "-I" + REPO + "/src/libkiter", "-I/usr/include/libxml2"]
    HX = (".h", ".hpp", ".hh", ".hxx", ".inc", ".ipp", ".tpp")
    rh = sha(*[os.path.relpath(p, REPO) + ":" + sha(rd(p)) for p in walk(REPO + "/src", HX)])
    hh = sha(*[p + sha(rd(p)) for p in walk(VERIF + "/harness", (".h",))])
    jobs = []
    rsrc = walk(REPO + "/src/libkiter", (".cpp", ".cc", ".cxx"))
    for p in rsrc:
        k = sha("r", repr(BASE + flags), rh, os.path.relpath(p, REPO), rd(p))[:32]
        jobs.append((p, os.path.join(obj, k + ".o"), BASE + flags + inc))
    # the command line front end, with main renamed, so that it can be driven in process
    p = REPO + "/src/kiter/main.cpp"
    k = sha("m", repr(BASE + flags), rh, rd(p))[:32]
    jobs.append((p, os.path.join(obj, k + ".o"), BASE + flags + inc + ["-Dmain=kiter_main"]))
    for p in walk(VERIF + "/harness", (".cpp",)):
        k = sha("h", repr(BASE + flags), rh, hh, os.path.basename(p), rd(p))[:32]
        jobs.append((p, os.path.join(obj, k + ".o"), BASE + flags + inc + ["-I" + VERIF + "/harness"]))
    todo = [j for j in jobs if not os.path.exists(j[1])]
    todo.sort(key=lambda j: -os.path.getsize(j[0]))
    def one(j):
        tmp = j[1] + ".tmp%d.o" % os.getpid()
        r = subprocess.run(j[2] + ["-c", j[0], "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 0: os.rename(tmp, j[1])
        return (j[0], r.returncode, r.stdout.decode(errors="replace"))
    bad = []
    with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        for p, rc, txt in ex.map(one, todo):
            if rc: bad.append((p, txt))
    if bad:
        for p, txt in bad[:3]: sys.stderr.write("BUILD FAILED %s\n%s\n" % (p, txt[:4000]))
        raise SystemExit(2)
    exe = os.path.join(out, "vh")
    key = sha(repr(flags), *[j[1] for j in jobs])
    kf = os.path.join(out, "vh.key")
    if not (os.path.exists(exe) and os.path.exists(kf) and rd(kf).decode() == key):
        r = subprocess.run(["g++"] + [f for f in flags if f.startswith("-fsan")] + ["-rdynamic", "-o", exe + ".tmp"] + [j[1] for j in jobs] + LIBS,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write("LINK FAILED\n" + r.stdout.decode(errors="replace")[:4000]); raise SystemExit(2)
        os.rename(exe + ".tmp", exe)
        with open(kf, "w") as f: f.write(key)
    # drop objects no longer used
    keep = {os.path.basename(j[1]) for j in jobs}
    olds = sorted((os.path.getmtime(os.path.join(obj, f)), f) for f in os.listdir(obj) if f not in keep)
    for _, f in olds[:-400] if len(olds) > 400 else []:
        os.unlink(os.path.join(obj, f))
    sys.stderr.write("built %s: %d of %d objects compiled, %.1f s\n" % (variant, len(todo), len(jobs), time.time() - t0))
    return exe
if __name__ == "__main__":
    for v in (sys.argv[1:] or ["release"]): print(build(v))
