"""C17: every supported signature of spec/Shapes.tla is declared, and the
behaviours of Mockall are replayed on it."""
import concurrent.futures as cf
import zlib
from runner import *
from seqcheck import C, cfg_text
import shapegen as G

DEPS = 'async-trait = "0.1"\n'
KINDS = ("val", "ref", "mut", "own")
def confs():
    out = []
    for n in range(4):
        t = "shape" if n else "noarg"
        for k in KINDS:
            out.append(C(f"C17o{n}{k}", f"ShO{n}{k}", exp=2, len=4, tag=t, probe=False))
        out.append(C(f"C17s{n}", f"ShS{n}", exp=2, len=5, objs=(), fns=("F",), tag=t, probe=False))
    return out

def sample(L, seed, per):
    """`per' containers for every signature, in turn"""
    groups = {}
    for s in L:
        key = json.dumps([s["fam"], s["recv"] == "none", s["recv"] if s["fam"] == "recv" else "", s["args"], s["ret"], s["gen"], s["flags"]])
        groups.setdefault(key, []).append(s)
    out = []
    for key, g in groups.items():
        h = zlib.crc32(key.encode()) + seed
        n = min(per, len(g))
        out += [g[(h + i * len(g) // n) % len(g)] for i in range(n)]
    return out

def build_bins(name, texts, mark=r"// @(k\d+\.\d+)"):
    files = {f"src/bin/s{i}.rs": t for i, t in enumerate(texts)}
    d = crate(name, files, deps=DEPS)
    for f in os.listdir(os.path.join(d, "src/bin")):
        if "src/bin/" + f not in files: os.remove(os.path.join(d, "src/bin", f))
    rc, out = cargo(d, ["build", "--bins", "--keep-going", "--message-format=json"], timeout=3000)
    bad = {}
    if rc != 0:
        msgs = [json.loads(l) for l in out.split("\n") if l.startswith("{")]
        msgs = [m for m in msgs if m.get("reason") == "compiler-message" and m["message"]["level"].startswith("error")]
        if not any("s" in m["target"]["kind"] or m["target"]["name"].startswith("s") and "bin" in m["target"]["kind"] for m in msgs):
            raise ToolError("mockall does not build:\n" + out[-3000:])
        for m in msgs:
            if "bin" not in m["target"]["kind"]: continue
            src = open(m["target"]["src_path"]).read().split("\n")
            for ln in lines_of(m["message"], m["target"]["src_path"]):
                marks = re.findall(mark, src[ln - 1])
                if marks:
                    bad.setdefault((m["target"]["name"], marks[-1]), m["message"]["message"]); break
            else:
                syms = re.findall(r"undefined (?:symbol: |reference to [`'])f_(k\d+)_(\d+)", m["message"]["message"] + m["message"]["rendered"])
                for k, i in syms: bad.setdefault((m["target"]["name"], f"{k}.{i}"), "no symbol of that name")
                if m["message"]["spans"]: bad.setdefault((m["target"]["name"], "?"), m["message"]["rendered"][:1500])
    return [os.path.join(TARGET, "debug", f"s{i}") for i in range(len(texts))], bad

def lines_of(msg, path):
    def walk(sp):
        while sp:
            if path.endswith(sp["file_name"]): yield sp["line_start"]
            sp = (sp.get("expansion") or {}).get("span")
    for sp in msg["spans"]: yield from walk(sp)
    for c in msg["children"]:
        for sp in c["spans"]: yield from walk(sp)

def run_shapes(chk, per=2, nbins=16):
    r, L = G.shapes(chk.big, f"{chk.prop}_shapes")
    chk.states += r.states; chk.transitions += r.transitions
    total = len(L)
    if not chk.big: L = sample(L, chk.seed, per)
    cons = G.containers(L, 16)
    rt = os.path.join(VERIF, "harness/rt/rt.rs")
    groups = [cons[i::nbins] for i in range(nbins)]
    texts = [G.crate_text([G.module(c) for c in g], rt) for g in groups if g]
    names = {f"{c.k}.{i}": G.describe(s) for c in cons for i, s in enumerate(c.shapes)}
    cs = confs()
    with cf.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build_bins, "h_shapes", texts)
        fs = [ex.submit(tlc, "MC", cfg_text(c, False), f"{chk.prop}_{c.name}") for c in cs]
        exes, bad = fb.result()
        for (b, k), e in list(bad.items())[:5]:
            chk.violation(f"a supported signature cannot be mocked: {names.get(k, k)}: {e}", shape=names.get(k, k), error=e)
        runs = []
        ops = {}
        for c, f in zip(cs, fs):
            t = f.result()
            chk.states += t.states; chk.transitions += t.transitions
            u, scs = scenarios(t.lines)
            if scs: chk.samples.append(scs[len(scs) // 2][:600])
            runs.append((c, header(u, c.tag), scs))
    if bad: return
    covered, okd = set(), set()
    with cf.ThreadPoolExecutor(8) as ex:
        def one(j):
            (c, head, scs), i = j
            if not subprocess.run([exes[i], "labels", head], stdout=subprocess.PIPE, text=True).stdout.strip(): return None
            return replay(exes[i], f"{chk.prop}_{c.name}_{i}", head, scs, shards=1)
        jobs = [(x, i) for x in runs for i in range(len(texts))]
        for ((c, head, scs), i), rr in zip(jobs, ex.map(one, jobs)):
            if rr is None: continue
            chk.validated += rr.runs
            for lab, (p, sk) in rr.bindings.items():
                okd.add((lab, i)) if p else covered.add((lab, i))
            for b in rr.bad[:2]:
                chk.violation(f"{c.name} on {shape_of(b['binding'], cons, c)}: step {b['at']}: specification: {b['want']}; code: {b['got']}",
                              config=c.name, binding=b["binding"], shape=shape_of(b["binding"], cons, c), step=b["at"], want=b["want"], got=b["got"], scenario=b["scenario"], head=b["head"], bin=i)
    dead = covered - okd
    if dead: raise ToolError("shapes without an applicable scenario: " + str(sorted(dead)[:5]))
    chk.detail.append(dict(shapes_supported=total, shapes_built=len(L), bindings=len(okd), containers=len(cons),
                           scenarios=sum(len(x[2]) for x in runs)))
    chk.extra["shapes"] = len(L)
    if len(okd) != len(L) and not chk.violations:
        raise ToolError(f"{len(L)} shapes but {len(okd)} bindings")

def shape_of(label, cons, c):
    """the signature that a binding label names"""
    m = re.match(r" *(k\d+)(\.(\d+))?.* \[(\d+)\] \d$", label)
    if not m: return label
    con = next((x for x in cons if x.k == m.group(1)), None)
    if con is None: return label
    if m.group(3): return G.describe(con.shapes[int(m.group(3))])
    inst = [s for s in con.shapes if s["recv"] != "none"]
    return G.describe(inst[int(m.group(4))])
