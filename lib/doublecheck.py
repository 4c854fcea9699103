"""C18: the use declarations and type aliases of spec/Double.tla are compiled,
in a test build and otherwise, and what every name means is compared."""
from shapecheck import *

U = lambda s: s.replace("UElan", "\u00c9lan")
MODS = {"foo", "bar", "inner", "deep"}

def world(W, at, lay, root=""):
    """the module `lay', which reports itself as `at', and all in it"""
    out = [f'pub const ID: &str = "{at}";']
    for n, kind in sorted(W.get(lay, [])):
        plain = n.replace("r#", "")
        for m in (n, ("mock_" if kind == "mod" else "Mock") + plain):
            a = at + "::" + m.replace("r#", "")
            if kind == "mod":
                out.append(f"pub mod {m} {{ {world(W, a, plain if plain in MODS else '')} }}")
            elif kind == "gen":
                out.append(f'pub struct {m}<T>(T); impl {m}<u32> {{ pub const ID: &str = "{a}"; }}')
            else:
                out.append(f'pub struct {m}; impl {m} {{ pub const ID: &str = "{a}"; }}')
    return U("\n".join(out))

def case(k, c, first):
    """the module of case k"""
    names = {v: sorted({s["n"] for s in c["seen"] if s["v"] == v}) for v in ("here", "up", "root")}
    l = lambda v: "vec![" + ", ".join(U(n) + "::ID" for n in names[v]) + "]"
    a1, a2 = (c["attr"], "") if first else ("", c["attr"])
    m = f" /* @k{k} */"
    decl = "\n".join(f"{a1} #[double] {a2} {c['vis']} {U(d)}{m}" for d in c["decl"])
    fn = c["how"] == "fn"
    ty = "Vec<&'static str>"
    t = f"""pub mod k{k} {{ use crate::{{foo, mock_foo, bar, mock_bar}}; pub struct Own; impl Own {{ pub const ID: &str = "up::Own"; }} pub struct MockOwn; impl MockOwn {{ pub const ID: &str = "up::MockOwn"; }}
pub mod at {{ use crate::{{double, fallback::*, foo, mock_foo, bar, mock_bar}}; pub struct Own; impl Own {{ pub const ID: &str = "here::Own"; }} pub struct MockOwn; impl MockOwn {{ pub const ID: &str = "here::MockOwn"; }}
mod r#mod {{ pub const ID: &str = "here::mod"; }} mod mock_mod {{ pub const ID: &str = "here::mock_mod"; }}
{'' if fn else decl}
pub fn here() -> {ty} {{ {decl if fn else ''}
 {l('here')}{m} }} }}
"""
    if not fn:
        t += f"pub mod seen {{ use crate::fallback::*; pub fn up() -> {ty} {{ use super::at::*; {l('up')}{m} }} }}\n}}\n"
        t += f"pub mod root{k} {{ use crate::fallback::*; pub fn root() -> {ty} {{ use crate::k{k}::at::*; {l('root')}{m} }} }}\n"
    else: t += "}\n"
    show = f'out.push(({k}, "here", k{k}::at::here()));'
    if not fn: show += f' out.push(({k}, "up", k{k}::seen::up())); out.push(({k}, "root", root{k}::root()));'
    return t, show, names

HEAD = """#![allow(warnings)]
use mockall_double::double;
"""

def program(W, universe, cases):
    fb = "\n".join(f'pub struct {U(n)}; impl {U(n)} {{ pub const ID: &str = "fallback"; }}' for n in universe)
    t = HEAD + f"pub mod fallback {{ {fb} }}\npub use fallback::*;\n"
    for n in ("foo", "bar"):
        for m in (n, "mock_" + n): t += f"pub mod {m} {{ {world(W, 'crate::' + m, n)} }}\n"
    shows, names = [], {}
    for k, c in cases:
        x, s, names[k] = case(k, c, k % 2)
        t += x; shows.append(s)
    fs = []
    for i in range(0, len(shows), 100):
        fs.append(f"part{i}")
        t += f"fn part{i}(out: &mut Vec<(u32, &'static str, Vec<&'static str>)>) {{ " + "\n".join(shows[i:i + 100]) + " }\n"
    t += "fn show() { let mut out = Vec::new(); " + " ".join(f"{f}(&mut out);" for f in fs) + """
 let mut s = String::new();
 for (k, v, l) in out { s += &format!("{k} {v} {}\\n", l.join(" ")); }
 std::fs::write(std::env::var("DOUBLE_OUT").unwrap(), s).unwrap(); }
fn main() { show() }
#[test] fn test() { show() }
"""
    return t, names

def run_double(chk, nbins=8):
    r = tlc("Double", "INIT Init\nNEXT Next\nINVARIANT DoubleProps\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
            f"CONSTANT Big = {'TRUE' if chk.big else 'FALSE'}\n", "C18_double", timeout=3000)
    chk.states += r.states; chk.transitions += r.transitions
    P = lambda t: [json.loads(unquote(x)) for x in r.lines if x[2] == t]
    L, R, W = P("P"), P("R"), P("W")[0]
    L.sort(key=lambda c: json.dumps(c, sort_keys=True)); R.sort(key=lambda c: c["text"])
    cases = list(enumerate(L))
    universe = sorted({s["n"] for c in L for s in c["seen"]})
    files, names = {}, {}
    if chk.big: nbins = max(8, len(L) // 1500)
    for i in range(nbins):
        files[f"src/bin/d{i}.rs"], n = program(W, universe, cases[i::nbins])
        names.update(n)
    dep = {"dep/Cargo.toml": '[package]\nname = "dep"\nversion = "0.1.0"\nedition = "2021"\n[lib]\n', "dep/src/lib.rs": world(W, "dep", "dep")}
    toml = '\n[dependencies.dep]\npath = "dep"\n'
    d = crate("h_double", {**files, **dep}, toml)
    for f in os.listdir(os.path.join(d, "src/bin")):
        if "src/bin/" + f not in files: os.remove(os.path.join(d, "src/bin", f))
    rej = HEAD + "pub mod foo { " + world(W, "foo", "foo") + " }\npub mod bar { " + world(W, "bar", "bar") + " }\n"
    rcase = lambda j: f"pub mod r{j} {{ use crate::{{double, foo, bar}}; pub struct Own; mod r#mod {{}} {R[j]['text']} /* @k{j} */ }}\n"
    dr = crate("h_doublerej", {"src/main.rs": "", **dep}, toml)
    seen_bad = set()
    def bad_of(out, default):
        bad, broken = {}, False
        for l in out.split("\n"):
            if not l.startswith("{"): continue
            m = json.loads(l)
            if m.get("reason") != "compiler-message" or not m["message"]["level"].startswith("error"): continue
            if not m["target"]["src_path"].startswith(default): broken = True; continue
            if not m["message"]["spans"]: continue
            src = open(m["target"]["src_path"]).read().split("\n")
            ks = [re.findall(r"/\* @k(\d+) \*/", src[ln - 1]) for ln in lines_of(m["message"], m["target"]["src_path"])]
            ks = [int(x[-1]) for x in ks if x]
            if ks: bad.setdefault(ks[0], m["message"]["message"])
            else: bad.setdefault(-1, m["message"]["rendered"][:1000])
        return bad, broken
    exes = {}
    for mode, args in (("build without cfg(test)", ["build", "--bins", "--keep-going"]), ("test build", ["test", "--bins", "--no-run", "--no-fail-fast"])):
        rc, out = cargo(d, args + ["--message-format=json"], timeout=3000)
        if rc:
            bad, broken = bad_of(out, d)
            if broken or not bad: raise ToolError("the build failed:\n" + out[-3000:])
            for k, e in list(bad.items())[:4]:
                what = f"{L[k]['attr']} {L[k]['vis']} {' '.join(L[k]['decl'])}" if k >= 0 else "?"
                chk.violation(f"{mode}: #[double] {what} does not bind what it should: {e}", declaration=what, build=mode, error=e)
            continue
        for l in out.split("\n"):
            if l.startswith("{"):
                m = json.loads(l)
                if m.get("reason") == "compiler-artifact" and m.get("executable") and m["target"]["src_path"].startswith(d):
                    exes[mode, m["target"]["name"]] = m["executable"]
    for (mode, b), exe in sorted(exes.items()):
        o = os.path.join(d, "out.txt")
        if os.path.exists(o): os.remove(o)
        p = subprocess.run([exe], env=dict(os.environ, DOUBLE_OUT=o), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: raise ToolError(f"{exe} failed: {p.stdout[-500:]}")
        key = "t" if mode == "test build" else "r"
        for line in open(o):
            f = line.split()
            k, v, got = int(f[0]), f[1], f[2:]
            want = {s["n"]: U(s[key]) for s in L[k]["seen"] if s["v"] == v}
            for n, g in zip(names[k][v], got):
                chk.validated += 1
                if want[n] != g and (k, mode) not in seen_bad and len(seen_bad) < 6:
                    seen_bad.add((k, mode))
                    what = f"{L[k]['attr']} {L[k]['vis']} {' '.join(L[k]['decl'])} (in a {'function' if L[k]['how'] == 'fn' else 'module'})"
                    chk.violation(f"{mode}: #[double] {what}: from {v}, the name {n} must mean {want[n]}, but means {g}",
                                  declaration=what, build=mode, view=v, name=n, want=want[n], got=g)
    # what must be rejected
    for mode, args in (("build without cfg(test)", ["check"]), ("test build", ["check", "--tests"])):
        left = list(range(len(R)))
        while left:
            open(os.path.join(dr, "src/main.rs"), "w").write(rej + "".join(rcase(j) for j in left) + "fn main() {}\n")
            rc, out = cargo(dr, args + ["--message-format=json"], timeout=3000)
            if rc == 0: break
            bad, broken = bad_of(out, dr)
            if broken or not set(bad) & set(left): raise ToolError("the build failed:\n" + out[-3000:])
            left = [j for j in left if j not in bad]
        chk.validated += len(R)
        for j in left[:3]:
            chk.violation(f"{mode}: {R[j]['text']} must be rejected, but compiles", declaration=R[j]["text"], build=mode)
    chk.samples.append(json.dumps(L[len(L) // 2])[:700])
    chk.detail.append(dict(declarations=len(L), names_compared=chk.validated, rejected=len(R)))
    log(chk.detail[-1])
    if not chk.violations and len(exes) != 2 * nbins: raise ToolError("executables missing: " + str(exes))
