"""C21, C24: the items of spec/Items.tla are declared, and the behaviours of
Mockall are replayed on their members."""
from shapecheck import *
import itemgen as I

def confs(p, which):
    c = lambda n, s, a=None, **k: C(f"{p}{n}", s, alphabet=a or s + "Alphabet", tag=k.pop("tag", "item"), probe=False, exp=2, **k)
    S = dict(objs=(), fns=("F",))
    SS = dict(objs=(), fns=("F", "G"))
    l = [c("o", "ItOne", len=4), c("p", "ItPair", len=5), c("w", "ItOwn", len=4), c("q", "ItObjs", len=5, objs=("o", "p")),
         c("f", "ItSta", len=5, **S), c("x", "ItMix", len=5, objs=("o",), fns=("F",)), c("g", "ItStas", len=6, **SS),
         c("m", "ItStas", "ItModAlphabet", len=5, tag="mod", **SS)]
    if which == "C21": l.append(c("d", "ItDbg", len=5, tag="dbg"))
    return l

def factors(it):
    f = [("gens", it["gens"]), ("as", *it["as"]), ("drv", *map(tuple, it["drv"])), ("how", it["how"]), ("newf", it["newf"])]
    for gi, g in enumerate(it["gs"]):
        f.append((gi, g["name"], *g["as"], len(g["ms"])))
        for mi, m in enumerate(g["ms"]):
            f += [(gi, mi, "k", m["k"], m["nx"], m["dup"]), (gi, mi, "a", *m["as"])]
    return f

def sample_items(L, seed, most):
    """items until every pair of factors of every family and container occurs"""
    seen, out, rest = set(), [], []
    for it in sorted(L, key=lambda s: zlib.crc32((I.idescribe(s) + str(seed)).encode())):
        f = factors(it)
        p = {(it["fam"], it["cont"], a, b) for i, a in enumerate(f) for b in f[i:]}
        if p - seen: seen |= p; out.append(it)
    # never more than the time allows: the families take turns
    fams = {}
    for it in out: fams.setdefault((it["fam"], it["cont"]), []).append(it)
    res = []
    while len(res) < most and any(fams.values()):
        for k in sorted(fams):
            if fams[k] and len(res) < most: res.append(fams[k].pop(0))
    return res

def run_items(chk, which, most, nbins=16):
    r, L = I.items(which, chk.big, f"{chk.prop}_items")
    chk.states += r.states; chk.transitions += r.transitions
    total = len(L)
    L.sort(key=I.idescribe)
    L = L if chk.big else sample_items(L, chk.seed, most)
    cons = [I.ItemCon(f"k{i}", it) for i, it in enumerate(L)]
    names = {c.k: I.idescribe(c.item) for c in cons}
    rt = os.path.join(VERIF, "harness/rt/rt.rs")
    if chk.big: nbins = max(16, len(L) // 250)
    groups = [list(enumerate(cons))[i::nbins] for i in range(nbins)]
    texts = [I.crate_text([I.item_module(c, i) for i, c in g], rt) for g in groups if g]
    cs = confs(chk.prop, which)
    with cf.ThreadPoolExecutor(6) as ex:
        fb = ex.submit(build_bins, "h_items_" + which.lower(), texts, r"/\* @(k\d+) \*/")
        fs = [ex.submit(tlc, "MC", cfg_text(c, False), f"{chk.prop}_{c.name}") for c in cs]
        exes, bad = fb.result()
        for (b, k), e in list(bad.items())[:5]:
            chk.violation(f"the item's mock is not what the specification requires: {names.get(k, k)}: {e}", item=names.get(k, k), error=e)
        runs = []
        for c, f in zip(cs, fs):
            t = f.result()
            chk.states += t.states; chk.transitions += t.transitions
            u, scs = scenarios(t.lines)
            if scs: chk.samples.append(scs[len(scs) // 2][:600])
            runs.append((c, header(u, c.tag), scs))
            log(f"{c.name}: {len(scs)} scenarios")
    if bad: return
    okd, count = set(), {}
    with cf.ThreadPoolExecutor(8) as ex:
        def one(j):
            (c, head, scs), i = j
            if not subprocess.run([exes[i], "labels", head], stdout=subprocess.PIPE, text=True).stdout.strip(): return None
            return replay(exes[i], f"{chk.prop}_{c.name}_{i}", head, scs, shards=1)
        jobs = [(x, i) for x in runs for i in range(len(texts))]
        for ((c, head, scs), i), rr in zip(jobs, ex.map(one, jobs)):
            if rr is None: continue
            chk.validated += rr.runs
            for lab, (p, sk) in rr.bindings.items():
                if p: okd |= set(re.findall(r"k\d+", lab)); count[c.name] = count.get(c.name, 0) + 1
            for b in rr.bad[:2]:
                ks = sorted(set(re.findall(r"\bk\d+", b["binding"])))
                d = "; ".join(names.get(k, k) for k in ks)
                chk.violation(f"{c.name} on {b['binding']} ({d}): step {b['at']}: specification: {b['want']}; code: {b['got']}",
                              config=c.name, binding=b["binding"], item=d, step=b["at"], want=b["want"], got=b["got"], scenario=b["scenario"], head=b["head"], bin=i)
    chk.detail.append(dict(items=total, items_built=len(L), items_driven=len(okd), bindings=count, scenarios=sum(len(x[2]) for x in runs)))
    log(chk.detail[-1])
    chk.extra["items"] = len(L)
    want = {c.k for c in cons if any(m["present"] for g in c.item["gs"] for m in g["ms"])}
    if want - okd and not chk.violations:
        raise ToolError(f"{len(want - okd)} items have not been driven: " + "; ".join(names[k] for k in sorted(want - okd)[:5]))
