"""Development: which items compile?  itemtry.py C21|C24 [substring...]"""
import sys, os, re, json, collections
sys.path.insert(0, "/verif/lib")
from itemgen import *
r, L = items(sys.argv[1], False, "itemtry")
fams = sys.argv[2:]
limit = 100000
if fams and fams[0].startswith("n="): limit = int(fams.pop(0)[2:])
if fams: L = [s for s in L if any(f in idescribe(s) for f in fams)]
L.sort(key=lambda s: zlib.crc32(idescribe(s).encode()))
L = L[:limit]
print(len(L), "items")
good = [(f"k{i}", s) for i, s in enumerate(L)]
bad = {}
while True:
    mods = [item_module(ItemCon(k, s), i) for i, (k, s) in enumerate(good)]
    d = crate("h_try", {"src/main.rs": crate_text(mods, "/verif/harness/rt/rt.rs")})
    rc, out = cargo(d, ["check", "--message-format=json"], timeout=3000)
    if rc == 0: break
    src = open(d + "/src/main.rs").read().split("\n")
    hit, own, cur, stray = {}, [], None, []
    for x in src:
        mm = re.match(r"pub mod (k\d+) ", x)
        if mm: cur = mm.group(1)
        own.append(cur)
    for l in out.split("\n"):
        if not l.startswith("{"): continue
        m = json.loads(l)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error": continue
        msg = m["message"]; found = False
        def spans(sp):
            while sp:
                yield sp
                sp = (sp.get("expansion") or {}).get("span")
        for sp in [y for x in msg["spans"] for y in spans(x)]:
            if sp["file_name"].endswith("main.rs") and own[sp["line_start"] - 1]:
                hit.setdefault(own[sp["line_start"] - 1], msg["message"][:200] + " | " + src[sp["line_start"] - 1][:200]); found = True; break
        if not found: stray.append((msg["rendered"] or "")[:600])
    print("bad", len(hit), "stray", len(stray))
    for s in stray[:3]: print(s)
    if not hit: break
    for k, s in good:
        if k in hit: bad[idescribe(s)] = hit[k]
    good = [(k, s) for k, s in good if k not in hit]
json.dump(bad, open("/tmp/itembad.json", "w"), indent=1)
c = collections.Counter()
ex = {}
for d, e in bad.items():
    key = (d.split("/")[0], d.split("/")[1].split(" ")[0], re.sub(r"`[^`]*`", "`_`", e.split(" | ")[0])[:110])
    c[key] += 1; ex.setdefault(key, (d, e))
for k, n in c.most_common(40): print(n, k, "\n      ", ex[k][0], "\n      ", ex[k][1][-200:])
print("good", len(good), "bad", len(bad))
