"""Checks decided with the concurrent specification (spec/MockallConc.tla)."""
import concurrent.futures as cf
import threading
from runner import *
import targets

class CC:
    """One configuration of MCC.tla"""
    def __init__(self, scens, slots, objs=("o",), fns=(), nseq=0, nb=3, dfs=300, rnd=60, free=20, bound=2, tag="conc", bulks="NoBulks", locks=0):
        self.__dict__.update(locals())

def cfg_text(c, big):
    q = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"
    return f"""INIT CInit
NEXT CNext
INVARIANT CProps
INVARIANT Report
CHECK_DEADLOCK FALSE
CONSTANTS
 Slots <- {c.slots}
 Objs = {q(c.objs)}
 Fns = {q(c.fns)}
 NSeq = {c.nseq}
 Alphabet = {{}}
 MaxExp = 9
 MaxLen = 0
 Nightly = FALSE
 Probe = FALSE
 Pace = 1
 Scens <- {c.scens}
 Bulks <- {c.bulks}
 Big = {"TRUE" if big else "FALSE"}
"""

def op_line(ops, outs=None):
    if not ops:
        return ""
    return ";".join(op_text(o) + "=" + (out_text(x) if outs else "* 0") for o, x in zip(ops, outs or ops))

def conc_scenarios(lines):
    u, P, O, B, K = None, {}, {}, {}, []
    for l in lines:
        mark = l[2]
        if mark == "U":
            u = json.loads(unquote(l))
        elif mark == "P":
            i, setup, souts, prog, post = json.loads(unquote(l))
            P[i] = (setup, souts, prog, post)
        elif mark == "O":
            i, outs, post = json.loads(unquote(l))
            v = ";".join(out_text(x) for t in outs for x in t)
            w = ";".join(out_text(x) for x in post)
            O.setdefault(i, {})[";".join(x for x in (v, w) if x)] = 1
        elif mark == "B":
            i, *b = json.loads(unquote(l))
            B.setdefault(i, {})[":".join(map(str, b))] = 1
        elif mark == "K":
            setup, call, outs, post, pouts = json.loads(unquote(l))
            K.append("#".join(["K", op_line(setup), op_line([call]), op_line(post),
                               ";".join(out_text(x) for x in outs), ";".join(out_text(x) for x in pouts)]))
    res = []
    for i, (setup, souts, prog, post) in sorted(P.items()):
        res.append("#".join([str(len(prog)), op_line(setup, souts)] + [op_line(p) for p in prog]
                            + [op_line(post), ",".join(sorted(B.get(i, {})))] + sorted(O[i])))
    return u, res + K

def replay_conc(exe, name, head, scs, c, seed, scale, shards=6, maxfail=3, stall=90):
    d = os.path.join(BUILD, "replay", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    f = os.path.join(d, "scenarios.txt")
    with open(f, "w") as h:
        h.write(head + "\n" + "\n".join(scs) + "\n")
    labels = subprocess.run([exe, "labels", head], stdout=subprocess.PIPE, text=True).stdout.splitlines()
    if not labels:
        raise ToolError(f"{name}: no method to replay on")
    shards = max(1, min(shards, len(scs)))
    res = Replay()
    res.scenarios = len(scs)
    res.vec = [0, 0, 0]
    def one(i):
        o, e, pr = (os.path.join(d, f"{x}{i}") for x in ("out", "err", "prog"))
        args = [exe, "conc", f, i, shards, pr, c.dfs * scale, c.rnd * scale, c.free * scale,
                c.bound + (1 if scale > 1 else 0), seed, maxfail, 0 if scale > 1 else c.nb, c.locks + (1 if c.locks and scale > 1 else 0)]
        p = subprocess.Popen([str(a) for a in args], stdout=open(o, "w"), stderr=open(e, "w"))
        last, since = None, time.time()
        why = None
        while True:
            try:
                rc = p.wait(timeout=1)
                if rc != 0:
                    why = f"the process ended with {rc}: {open(e).read()[-500:]}"
                break
            except subprocess.TimeoutExpired:
                cur = open(pr).read()
                if cur != last:
                    last, since = cur, time.time()
                elif time.time() - since > stall:
                    p.kill(); p.wait()
                    why = "the calls hang"
                    break
        if why:
            try:
                t = open(pr).read().split()
                return [dict(line=int(t[1]), binding=labels[int(t[2])], at=0, want="termination", got=why)]
            except Exception:
                raise ToolError(f"concurrent replay failed: {why}")
        return []
    with cf.ThreadPoolExecutor(shards) as ex:
        for b in ex.map(one, range(shards)):
            res.bad += b
    for i in range(shards):
        for l in open(os.path.join(d, f"out{i}")):
            t = l.rstrip("\n").split("\t")
            if t[0] == "MISMATCH":
                res.bad.append(dict(line=int(t[1]), binding=t[2], at=0, want=t[4], got=t[5]))
            elif t[0] == "BINDING":
                b = res.bindings.setdefault(t[1], [0, 0])
                b[0] += int(t[2]); b[1] += int(t[3])
            elif t[0] == "VECTORS":
                for k in range(3): res.vec[k] += int(t[1 + k])
            elif t[0] == "SUMMARY":
                res.runs += int(t[1]); res.skips += int(t[2])
    for b in res.bad:
        b["scenario"], b["head"] = scs[b["line"]], head
    res.bad.sort(key=lambda b: len(b["scenario"]))
    shutil.rmtree(d, ignore_errors=True)
    return res

def run_conc(chk, confs, groups=None):
    R = targets.Reg()
    for g in groups or [targets.r_conc]:
        g(R)
    rt = os.path.join(VERIF, "harness/rt/rt.rs")
    def build():
        flags = "--cfg mockall_verif"
        if any(c.locks for c in confs):
            try:
                return build_bin(name, R.emit(rt, shim=True), False, "", flags,
                                 deps=f'shim = {{ path = "{VERIF}/harness/shim" }}\n'), True
            except BuildFailure:
                pass            # the mocks do with locks what the stand-in cannot
        return build_bin(name, R.emit(rt), False, "", flags), False
    name = "h_" + chk.prop.lower()
    with cf.ThreadPoolExecutor(6) as ex:
        def mc(c):
            r = tlc("MCC", cfg_text(c, chk.big), f"{chk.prop}_{c.scens}_{c.slots}")
            u, scs = conc_scenarios(r.lines)
            r.lines = None
            return r, u, scs
        fb = ex.submit(build)
        fs = [(c, ex.submit(mc, c)) for c in confs]
        try:
            exe, shim = fb.result()
        except BuildFailure as e:
            for c, f in fs: f.cancel()
            chk.violation("code that uses the generated mocks no longer compiles: " + str(e).splitlines()[0], errors=str(e))
            return
        for c, f in fs:
            r, u, scs = f.result()
            chk.states += r.states
            chk.transitions += r.transitions
            t = time.time()
            rr = replay_conc(exe, f"{chk.prop}_{c.scens}_{c.slots}", header(u, c.tag, False), scs, c, chk.seed, 5 if chk.big else 1)
            chk.validated += rr.runs
            if scs: chk.samples.append(scs[len(scs) // 2][:1000])
            chk.detail.append(dict(config=f"{c.scens}/{c.slots}", states=r.states, transitions=r.transitions, scenarios=len(scs), lock_points=bool(shim and c.locks),
                                   executions=rr.runs, inapplicable=rr.skips, bindings=len(rr.bindings),
                                   outcome_vectors_seen=rr.vec[0], outcome_vectors_allowed=rr.vec[1],
                                   schedules_exhausted=rr.vec[2], tlc_s=round(r.seconds, 1), replay_s=round(time.time() - t, 1)))
            log(chk.detail[-1])
            for b in rr.bad[:3]:
                chk.violation(f"{c.scens} on {b['binding']}: specification: {b['want']}; code: {b['got']}",
                              config=c.scens, binding=b["binding"], want=b["want"], got=b["got"],
                              scenario=b["scenario"], head=b["head"], crate=name)
