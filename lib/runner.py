"""Common machinery: model checking with TLC, conversion of what it prints to
scenarios, building the Rust harness, replaying, evidence."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TARGET = os.path.join(BUILD, "target")
STABLE, NIGHTLY = "1.86.0", "nightly-2025-04-15"
for line in open("/opt/vp/env.sh") if os.path.exists("/opt/vp/env.sh") else []:
    m = re.match(r"\s*(?:export )?(STABLE|NIGHTLY)=(\S+)", line)
    if m:
        if m.group(1) == "STABLE": STABLE = m.group(2).strip('"')
        else: NIGHTLY = m.group(2).strip('"')

class ToolError(Exception):
    pass
class BuildFailure(Exception):
    """The harness does not compile although mockall does"""

def log(*a):
    print(*a, file=sys.stderr, flush=True)

# --------------------------------------------------------------------- TLC
class TlcResult:
    states = transitions = 0
    seconds = 0.0
    lines = ()

def tlc(module, cfg_text, name, simulate=None, workers=1, timeout=840, heap="3g", keep=("@",), spec=SPEC):
    """Run TLC; return its statistics and the marked lines that it printed"""
    d = os.path.join(BUILD, "tlc", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cfg = os.path.join(d, "m.cfg")
    open(cfg, "w").write(cfg_text)
    out = os.path.join(d, "out.txt")
    os.makedirs(os.path.join(d, "tmp"))
    cmd = ["java", f"-Djava.io.tmpdir={d}/tmp", "-XX:+UseSerialGC", f"-Xmx{heap}", "-Xss16m", f"-DTLA-Library={SPEC}", "-cp", JARS, "tlc2.TLC",
           "-config", cfg, "-metadir", os.path.join(d, "md"), "-workers", str(workers),
           "-fp", "1", "-noGenerateSpecTE"]
    if simulate:
        num, depth, seed = simulate
        cmd += ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)]
    cmd.append(os.path.join(spec, module + ".tla"))
    t0 = time.time()
    with open(out, "w") as f:
        try:
            rc = subprocess.call(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=d, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {name}")
    r = TlcResult()
    r.seconds = time.time() - t0
    r.lines, rest = [], []
    for l in open(out):
        if l.startswith('"@'):
            r.lines.append(l)
        else:
            rest.append(l)
    text = "".join(rest)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    if m:
        r.transitions, r.states = int(m.group(1)), int(m.group(2))
    m = re.search(r"The number of states generated: (\d+)", text)
    if m:
        r.transitions = int(m.group(1))
    r.text = text
    if rc != 0:
        raise ToolError(f"TLC failed on {name} (rc {rc}):\n" + "\n".join(text.splitlines()[-60:]))
    for x in ("md", "tmp"): shutil.rmtree(os.path.join(d, x), ignore_errors=True)
    os.remove(out)
    return r

def unquote(l):
    """The string that TLC printed"""
    return l.strip()[3:-1].replace('\\"', '"').replace("\\\\", "\\")

# ---------------------------------------------------------------- scenarios
def op_text(o):
    op, s, a, w, cfg = o
    return f"{op} {s} {a} {w} " + ",".join(f"{c}:{k}:{x}:{y}" for c, k, x, y in cfg)
def out_text(x):
    if len(x) < 3:
        return f"{x[0]} {x[1]}"
    return f"{x[0]} {x[1]} " + "|".join(":".join(str(f) for f in alt) for alt in x[2])

def scenarios(lines):
    """-> header dict, list of scenario lines"""
    u, ops, out, seen = None, None, [], set()
    known = {(): ""}
    fin = lambda fs: ["%s %s 0 0 =%s" % (o, s, out_text(x)) for o, s, x in fs]
    def add(s):
        if s and s not in seen:
            seen.add(s)
            out.append(s)
    for l in lines:
        mark = l[2]
        if mark == "U":
            u = json.loads(unquote(l))
        elif mark == "A":
            ops = [op_text(o) for o in json.loads(unquote(l))]
        elif mark == "T":
            p, x, f, pr, pf = json.loads(unquote(l))
            p = tuple(p)
            mine = known[p[:-1]] + ops[p[-1] - 1] + "=" + out_text(x)
            if p not in known:
                known[p] = mine + ";"
            add(";".join([mine] + fin(f)))
            if pr:
                add(";".join([mine] + [ops[i - 1] + "=" + out_text(y) for i, y in pr] + fin(pf)))
        elif mark == "S":
            p, f = json.loads(unquote(l))
            add(";".join([ops[i - 1] + "=" + out_text(y) for i, y in p] + fin(f)))
    return u, out

def header(u, tag="", strict=False, runs=False):
    slots = ",".join("/".join([s, d["own"], "s" if d["static"] else "i", str(d["role"]), d["kind"], str(d["n"])])
                     for s, d in sorted(u["slots"].items()))
    return (f"U nseq={u['nseq']} strict={int(strict)} runs={int(runs)} tag={tag} objs={','.join(sorted(u['objs']))} "
            f"fns={','.join(sorted(u['fns']))} slots={slots}")

# -------------------------------------------------------------------- build
CARGO_TOML = """[package]
name = "{name}"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
mockall = {{ path = "{repo}/mockall"{feat} }}
mockall_double = {{ path = "{repo}/mockall_double" }}
predicates-core = "1"
{deps}[features]
nightly = ["mockall/nightly"]
[profile.dev]
debug = 0
incremental = false
overflow-checks = true
[lints.rust]
unexpected_cfgs = "allow"
"""
def crate(name, files, extra_toml="", deps=""):
    d = os.path.join(BUILD, "crates", name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    def put(p, s):
        p = os.path.join(d, p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not (os.path.exists(p) and open(p).read() == s):
            open(p, "w").write(s)
    put("Cargo.toml", CARGO_TOML.format(name=name, repo=REPO, feat="", deps=deps) + extra_toml)
    for p, s in files.items():
        put(p, s)
    for lock in ("/opt/vp/Cargo.lock.used", os.path.join(REPO, "Cargo.lock")):
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(d, "Cargo.lock"))
            break
    return d

def cargo_env(nightly=False, target=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=NIGHTLY if nightly else STABLE,
             CARGO_TARGET_DIR=target or (TARGET + ("-nightly" if nightly else "")), CARGO_TERM_COLOR="never")
    return e

def cargo(d, args, nightly=False, timeout=800, target=None, env=None):
    e = cargo_env(nightly, target)
    e.update(env or {})
    p = subprocess.run(["cargo"] + args + ["--offline"], cwd=d, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def build_bin(name, main, nightly=False, features="", rustflags="", deps=""):
    """Compile a harness crate; returns the executable"""
    d = crate(name, {"src/main.rs": main}, deps=deps)
    args = ["build", "--message-format=short"] + (["--features", "nightly"] if nightly else [])
    t = TARGET + ("-nightly" if nightly else "") + ("-hook" if rustflags else "")
    rc, out = cargo(d, args, nightly, target=t, env=dict(RUSTFLAGS=rustflags) if rustflags else None)
    if rc != 0:
        explain_build(d, out, nightly)
    return os.path.join(t, "debug", name)

def explain_build(d, out, nightly=False):
    """mockall itself broken: tool error; otherwise the harness's use of it is"""
    errs = [l for l in out.splitlines() if "error" in l][:20]
    if any("could not compile `mockall" in l for l in out.splitlines()) or "src/main.rs" not in out and "src/lib.rs" not in out:
        raise ToolError("mockall does not build:\n" + "\n".join(errs))
    raise BuildFailure("\n".join(errs))

# ------------------------------------------------------------------- replay
class Replay:
    def __init__(self):
        self.runs = self.skips = self.ops = self.scenarios = 0
        self.bindings = {}
        self.bad = []           # dicts

def replay(exe, name, head, scs, shards=8, maxfail=3, only="", stall=60, nb=0):
    d = os.path.join(BUILD, "replay", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    f = os.path.join(d, "scenarios.txt")
    with open(f, "w") as h:
        h.write(head + "\n" + "\n".join(scs) + "\n")
    labels = subprocess.run([exe, "labels", head], stdout=subprocess.PIPE, text=True).stdout.splitlines()
    if not labels:
        raise ToolError(f"{name}: no method to replay on")
    shards = max(1, min(shards, len(scs)))
    res = Replay()
    res.scenarios = len(scs)
    procs = []
    for i in range(shards):
        o = open(os.path.join(d, f"out{i}"), "w")
        p = subprocess.Popen([exe, f, str(i), str(shards), os.path.join(d, f"prog{i}"), only, str(maxfail), str(nb)],
                             stdout=o, stderr=open(os.path.join(d, f"err{i}"), "w"))
        procs.append([p, None, time.time()])
    def where(i):
        try:
            t = open(os.path.join(d, f"prog{i}")).read().split()
            return int(t[1]), int(t[2])
        except Exception:
            return None
    alive = set(range(shards))
    while alive:
        time.sleep(0.02)
        for i in list(alive):
            p, last, since = procs[i]
            rc = p.poll()
            if rc is not None:
                alive.discard(i)
                if rc != 0:
                    w = where(i)
                    err = open(os.path.join(d, f"err{i}")).read()[-500:]
                    if w is None:
                        raise ToolError(f"replay driver failed: {err}")
                    res.bad.append(dict(line=w[0], binding=labels[w[1]], at=-1, want="no crash",
                                        got=f"the process ended with {rc}: {err}"))
                continue
            now = time.time()
            if now - since > 2:
                cur = open(os.path.join(d, f"prog{i}")).read()
                if cur != last:
                    procs[i][1], procs[i][2] = cur, now
                elif now - since > stall:
                    w = where(i)
                    p.kill()
                    p.wait()
                    alive.discard(i)
                    res.bad.append(dict(line=w[0], binding=labels[w[1]], at=-1, want="termination", got="the call hangs"))
    for i in range(shards):
        for l in open(os.path.join(d, f"out{i}")):
            t = l.rstrip("\n").split("\t")
            if t[0] == "MISMATCH":
                res.bad.append(dict(line=int(t[1]), binding=t[2], at=int(t[3]), want=t[4], got=t[5]))
            elif t[0] == "BINDING":
                b = res.bindings.setdefault(t[1], [0, 0])
                b[0] += int(t[2]); b[1] += int(t[3])
            elif t[0] == "SUMMARY":
                res.runs += int(t[1]); res.skips += int(t[2]); res.ops += int(t[4])
    for b in res.bad:
        b["scenario"], b["head"] = scs[b["line"]], head
    res.bad.sort(key=lambda b: len(b["scenario"]))
    shutil.rmtree(d, ignore_errors=True)
    return res

# ------------------------------------------------------------------ a check
class Check:
    """One run of one property's check"""
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.samples, self.detail, self.violations, self.known = [], [], [], []
        self.extra = {}
        self.big = tier == "thorough"
        d = os.path.join(EVID, "replays")
        for f in os.listdir(d) if os.path.isdir(d) else []:
            if f.startswith(prop + "-"): os.remove(os.path.join(d, f))

    def violation(self, what, **info):
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        n = len(self.violations)
        path = os.path.join(EVID, "replays", f"{self.prop}-{n}.json")
        json.dump(dict(property=self.prop, what=what, **info), open(path, "w"), indent=1)
        self.violations.append((what, path))

    def finish(self, level="model_checking"):
        os.makedirs(EVID, exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.validated,
                                samples=self.samples[:5], detail=self.detail, **self.extra),
                  wall_s=round(time.time() - self.t0, 1),
                  violations=len(self.violations))
        json.dump(ev, open(os.path.join(EVID, f"{self.prop}.json"), "w"), indent=1)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        for w, p in self.violations:
            print(f"VIOLATION property={self.prop} replay={p}")
            log("  ", w)
        log(f"{self.prop} {self.tier}: {self.states} states, {self.transitions} transitions, "
            f"{self.validated} traces replayed, {len(self.violations)} violations, {ev['wall_s']} s")
        return 1 if self.violations else 0
