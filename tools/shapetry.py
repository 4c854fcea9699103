"""Development: which shapes compile?  shapetry.py [family...]"""
import sys, os, re, json, subprocess
sys.path.insert(0, "/verif/lib")
from shapegen import *
r, L = shapes(False)
fams = sys.argv[1:]
if fams: L = [s for s in L if s["fam"] in fams or any(re.search(f[1:], describe(s)) for f in fams if f[0] == "@")]
import os
if os.environ.get("EVERY"): L = [s for i, s in enumerate(sorted(L, key=describe)) if (i * 7919) % int(os.environ["EVERY"]) == 0]
print(len(L), "shapes")
bad = {}
import collections
rnd = 0
good = L
while True:
    cons = containers(good, 1)
    mods = [module(c) for c in cons]
    d = crate("h_try", {"src/main.rs": crate_text(mods, "/verif/harness/rt/rt.rs")}, deps="async-trait = \"0.1\"\n")
    rc, out = cargo(d, ["check", "--message-format=json"], timeout=3000)
    if rc == 0: break
    src = open(d + "/src/main.rs").read().split("\n")
    hit = {}
    own, cur = [], None
    for x in src:
        mm = re.match(r"pub mod (k\d+) ", x)
        if mm: cur = mm.group(1)
        own.append(cur)
    stray = []
    for l in out.split("\n"):
        if not l.startswith("{"): continue
        m = json.loads(l)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error": continue
        msg = m["message"]
        found = False
        def spans(sp):
            yield sp
            if sp.get("expansion"): yield from spans(sp["expansion"]["span"])
        for sp in [y for x in msg["spans"] for y in spans(x)] + [y for ch in msg["children"] for x in ch["spans"] for y in spans(x)]:
            if not sp["file_name"].endswith("main.rs"): continue
            for ln in range(sp["line_start"], min(sp["line_end"], sp["line_start"] + 0) + 1):
                if own[ln - 1]: hit.setdefault((own[ln - 1], 0), msg["message"][:160] + " | " + src[ln-1][:160]); found = True
            if found: break
        if not found: stray.append((msg["rendered"] or "")[:600])
    print("round", rnd, "bad", len(hit), "stray", len(stray))
    rnd += 1
    for (k, i), e in hit.items():
        c = next(c for c in cons if c.k == k)
        bad[describe(c.shapes[i])] = e
        c.shapes[i]["_bad"] = True
    for s in stray[:3]: print(s)
    if not hit: break
    good = [s for s in good if not s.get("_bad")]
json.dump(bad, open("/tmp/shapebad.json", "w"), indent=1)
print("good", len(good), "bad", len(bad))
