import os, re, json, glob
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
txt = open(os.path.join(here, "DESIGN.in.md")).read()
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
import sys; sys.path.insert(0, here); from techniques import T, NA
rows = ""
for p in props:
    f = os.path.join(root, "harness", p["id"].lower() + ".cpp")
    if not os.path.exists(f): continue
    s = open(f).read(); m = re.search(r'Reg reg\(\{"(P\d+)",\s*"((?:[^"\\\\]|\\\\.)*)",\s*(\d+), (\d+)', s)
    rows += "| **%s** %s | %s | %s | %s / %s |\n" % (p["id"], p["title"], m.group(2), T[p["id"]].replace("property-based testing: ", ""), m.group(3), m.group(4))
seeds = "| change | property | needs | what it breaks |\n|---|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    j = json.load(open(d)); seeds += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), j["property"], j["needs"], j["what_it_breaks"])
open(os.path.join(root, "DESIGN.md"), "w").write(txt.replace("@TABLE@\n", rows).replace("@SEEDS@", seeds))
