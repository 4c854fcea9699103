"""Checks decided with the sequential specification (spec/Mockall.tla)."""
import concurrent.futures as cf
from runner import *
import targets

class C:
    """One configuration of MC.tla"""
    def __init__(self, name, slots, alphabet=None, exp=3, len=6, objs=("o",), fns=(), nseq=0, tag="",
                 strict=False, sim=None, probe=True, nightly=False, tier="both", lenb=None, expb=None, pace=1,
                 maxfail=3, nb=0):
        self.__dict__.update(locals())
        self.alphabet = alphabet or name.split(":")[0] + "Alphabet"

def cfg_text(c, big):
    q = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"
    b = lambda x: "TRUE" if x else "FALSE"
    L = c.lenb if big and c.lenb else c.len
    X = c.expb if big and c.expb else c.exp
    return f"""INIT Init
NEXT Next
{'' if c.sim else 'VIEW View'}
ACTION_CONSTRAINT {'EmitLong' if c.sim else 'Emit'}
PROPERTY StepProps
INVARIANT StateProps
CHECK_DEADLOCK FALSE
CONSTANTS
 Slots <- {c.slots}
 Objs = {q(c.objs)}
 Fns = {q(c.fns)}
 NSeq = {c.nseq}
 Alphabet <- {c.alphabet}
 MaxExp = {X}
 MaxLen = {L}
 Nightly = {b(c.nightly)}
 Probe = {b(c.probe)}
 Pace = {c.pace}
 Big = {b(big)}
"""

def run_seq(chk, confs, groups, nightly=False, crate_name=None, scale=1):
    """confs: configurations; groups: target groups (lists of registrars)"""
    confs = [c for c in confs if c.tier == "both" or c.tier == chk.tier]
    R = targets.Reg()
    for g in groups:
        g(R)
    main = R.emit(os.path.join(VERIF, "harness/rt/rt.rs"))
    name = crate_name or "h_" + chk.prop.lower()
    with cf.ThreadPoolExecutor(8) as ex:
        def mc(c):
            sim = None
            if c.sim:
                num = c.sim * (20 if chk.big else 1)
                sim = (num, c.len + 1, chk.seed * 7919 + 13)
            r = tlc("MC", cfg_text(c, chk.big), f"{chk.prop}_{c.name.replace(':', '_')}", simulate=sim)
            u, scs = scenarios(r.lines)
            r.lines = None
            return r, u, scs
        fb = ex.submit(build_bin, name, main, nightly)
        fs = [(c, ex.submit(mc, c)) for c in confs]
        try:
            exe = fb.result()
        except BuildFailure as e:
            for c, f in fs: f.cancel()
            chk.violation("code that uses the generated mocks no longer compiles: " + str(e).splitlines()[0], errors=str(e))
            return
        for c, f in fs:
            r, u, scs = f.result()
            chk.states += r.states
            chk.transitions += r.transitions
            t = time.time()
            rr = replay(exe, f"{chk.prop}_{c.name.replace(':', '_')}", header(u, c.tag, c.strict, True), scs,
                        nb=0 if chk.big else c.nb)
            chk.validated += rr.runs
            if scs:
                k = len(scs) * 2 // 3
                chk.samples.append(scs[k][:1000])
            pos = {k: v for k, v in rr.bindings.items()}
            chk.detail.append(dict(config=c.name, simulate=bool(c.sim), states=r.states, transitions=r.transitions,
                                   scenarios=len(scs), replays=rr.runs, inapplicable=rr.skips, operations=rr.ops,
                                   bindings=len(pos), tlc_s=round(r.seconds, 1), replay_s=round(time.time() - t, 1)))
            log(chk.detail[-1])
            for b in rr.bad[:3]:
                chk.violation(f"{c.name} on {b['binding']}: step {b['at']}: specification: {b['want']}; code: {b['got']}",
                              config=c.name, binding=b["binding"], step=b["at"], want=b["want"], got=b["got"],
                              scenario=b["scenario"], head=b["head"], crate=name)
