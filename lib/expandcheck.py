"""C25: what compiler processes generate for the same items is compared, and
must be a behaviour of spec/Expansion.tla."""
import hashlib
from shapecheck import *
import itemgen as I
import doublecheck as DC

L5 = "abcdefgh"
def many(it):
    """The declaration of an item of Many.tla"""
    fam, cont, n, form = it["fam"], it["cont"], it["n"], it["form"]
    N = range(n)
    lts = ["'" + L5[i] for i in N]
    tys = [x.upper() for x in L5[:n]]
    gen, args, ret, wh, attrs = [], [], "", [], ""
    tyg = "G: 'static + Clone + Send"
    if fam in ("lts", "slts"):
        bound = lambda i: f": {' + '.join(lts[:i])}" if form == "chain" and i else ""
        gen = [lts[i] + bound(i) for i in N]
        args = [f"a{i}: &{lts[i]} u32" for i in N]
        if form in ("first", "mixedret"): ret = f"&{lts[0]} u32" if not it["static"] and False else f"Held<{lts[0]}>"
        if form == "last": ret = f"Held<{lts[-1]}>"
        if form == "both": ret = f"Two<{lts[0]}, {lts[-1]}>"
        if form == "where": wh = [f"{lts[i]}: {' + '.join(lts[i + 1:])}" for i in range(n - 1)]
        if form == "dyn": args = [f"a: Box<dyn Tr5 + {lts[0]}>"] + [f"a{i}: Held<{lts[i]}>" for i in N]
        if form == "tuple": args = [f"a: ({', '.join(f'&{l} u32' for l in lts)})"]; ret = f"({', '.join(f'Held<{l}>' for l in lts)})"
    if fam == "hrtb":
        f = f"for<{', '.join(lts)}> fn({', '.join(f'&{l} u32' for l in lts)}) -> &{lts[0]} u32"
        w = f"for<{', '.join(lts)}> T: {' + '.join(f'Rel<{l}>' for l in lts)}"
        if form in ("arg", "mixed"): args.append(f"f: {f}")
        if form in ("where", "mixed"): gen.append("T: 'static"); args.append("t: T"); wh.append(w)
        if form in ("ret", "mixed"): ret = f"Box<dyn for<{', '.join(lts)}> Fn2<{', '.join(lts)}>>"
    if fam in ("gens", "conz", "clos"):
        if fam == "clos": b = lambda i: ["Fn(u32) -> u32", "FnMut(u8)", "FnOnce(u16) -> u64", "Fn()"][i % 4]
        elif fam == "conz": b = lambda i: ["AsRef<str>", "Tr5", "AsRef<std::path::Path>"][i % 3]
        else: b = lambda i: ["Clone", "Copy", "PartialEq"][i % 3]
        more = {"bounds": " + Send + Sync + std::fmt::Debug"}.get(form, "")
        for i in N:
            full = f"{b(i)}{more} + 'static"
            inl = form in ("inline", "bounds", "ret", "lts", "mixed", "refs") or form == "both" and i % 2
            gen.append(f"{tys[i]}: {full}" if inl else tys[i])
            if not inl: wh.append(f"{tys[i]}: {full}")
            args.append(f"a{i}: {'&' if form == 'refs' else ''}{tys[i]}")
        if form == "mixed": gen.append("Z: 'static"); args.append("z: Z")
        if form == "ret": ret = f"({', '.join(tys)})"
        if form == "lts": gen = ["'x", "'y", "'z"] + gen; args += ["x: &'x u32", "y: &'y u32", "z: &'z u32"]
        if fam == "conz": attrs = "#[mockall::concretize] "
    G = lambda name, vis, body, extra="", st=None, sg=None: (
        f"{attrs}{extra}{vis}fn {name}{'<' + ', '.join(gen if sg is None else sg) + '>' if (gen if sg is None else sg) else ''}("
        + ", ".join(([] if (it["static"] if st is None else st) else ["&self"]) + args) + ")" + (f" -> {ret}" if ret else "")
        + (f" where {', '.join(wh)}" if wh else "") + body)
    if fam == "slts":
        own = lts if form in ("args", "first", "last") else lts[:(n + 1) // 2]
        mine = [l for l in lts if l not in own]
        sl = "<" + ", ".join(own) + ">"
        m = G("f", "", ";", sg=mine)
        if cont == "ms": return f"mock! {{ pub St{sl} {{ {m} }} }}"
        return f"pub trait Tr{sl} {{ {m} }} mock! {{ pub St{sl} {{ }} impl{sl} Tr{sl} for St{sl} {{ {m} }} }}"
    if fam == "subst":
        decl = "".join(f"type {t};" for t in tys)
        q = lambda t: f"<Self as Tr>::{t}" if form == "qself" else f"Self::{t}"
        args = [f"a{i}: {q(t)}" for i, t in enumerate(tys)]
        if form == "ret": ret = f"({', '.join(q(t) for t in tys)})"
        if form == "bounds": args = [f"a: Box<dyn Iterator<Item = ({', '.join(q(t) for t in tys)})>>"]
        c = ["u8", "u16", "u32", "u64", "String", "char"]
        sub = "".join(f"type {t} = {c[i]};" for i, t in enumerate(tys))
        if cont == "at": return f"#[mockall::automock({sub})] pub trait Tr {{ {decl} {G('f', '', ';')} }}"
        return f"pub trait Tr {{ {decl} {G('f', '', ';')} }} mock! {{ pub St {{}} impl Tr for St {{ {sub} {G('f', '', ';')} }} }}"
    if fam == "traits":
        args = ["a: u32"]
        tr, pre = [], []
        if form == 'args': pre.append('pub trait Tr<A> { ' + ' '.join(G(f'f{i}', '', ';') + G(f'g{i}', '', ';', st=i % 2 == 0) for i in N) + ' }')
        for i in N:
            at = {"attrs": f"#[cfg(not(off{i}))] #[doc = \"{i}\"] ", "mixed": f"#[allow(dead_code)] " if i % 2 else ""}.get(form, "")
            name = {"plain": f"T{i}", "attrs": f"T{i}", "args": f"Tr<u{8 << i}>", "generic": f"T{i}<G>", "modules": f"m{i}::Tr", "mixed": [f"T{i}", f"m{i}::Tr", f"Tr<u{8 << i}>"][i % 3]}[form]
            g = "<G: 'static>" if form == "generic" else ""
            ms = f"{G(f'f{i}', '', ';')} {G(f'g{i}', '', ';', st=i % 2 == 0)}"
            if form == "modules" or form == "mixed" and i % 3 == 1: pre.append(f"pub mod m{i} {{ pub trait Tr {{ {ms} }} }}")
            elif form == "args" or form == "mixed" and i % 3 == 2: pre += [f"pub trait Tr<A> {{ {ms} }}"] if form == "mixed" and i == 2 else []
            else: pre.append(f"pub trait T{i}{'<A>' if form == 'generic' else ''} {{ {ms} }}")
            tr.append(f"{at}impl{g} {name} for St{'<G>' if g else ''} {{ {G(f'f{i}', '', ';')} {G(f'g{i}', '', ';', st=i % 2 == 0)} }}")
        return " ".join(pre) + f" mock! {{ pub St{'<G: ' + chr(39) + 'static>' if form == 'generic' else ''} {{ {G('own', '', ';')} }} {' '.join(tr)} }}"
    ms = [("f", "", None)]
    if fam == "meths":
        args = ["a: u32", "b: &str"]
        ms = []
        for i in N:
            ex = {"attrs": "#[allow(dead_code)] #[doc = \"x\"] #[inline] #[cfg(not(off))] ", "mixed": "#[must_use] " if i % 2 else ""}.get(form, "") if form != "plain" else ""
            ms.append((f"f{i}", ex, None))
        if form in ("generic", "mixed"): gen, args = ["T: 'static", "U: 'static"], ["t: T", "u: U"]
    body = " { unimplemented!() }"
    fns = lambda vis, b: "\n".join(G(nm, vis, b, ex) for nm, ex, _ in ms)
    if cont == "ms": return f"mock! {{ pub St {{ {fns('', ';')} }} }}"
    if cont == "mg": return f"mock! {{ pub St<{tyg}> {{ {fns('', ';')} }} }}"
    if cont == "mt": return f"pub trait Tr {{ {fns('', ';')} }} mock! {{ pub St {{}} impl Tr for St {{ {fns('', ';')} }} }}"
    if cont == "at": return f"#[mockall::automock] pub trait Tr {{ {fns('', ';')} }}"
    if cont == "as": return f"pub struct St; #[mockall::automock] impl St {{ {fns('pub ', body)} }}"
    if cont == "ax": return f"pub struct St<G>(G); #[mockall::automock] impl<{tyg}> St<G> {{ {fns('pub ', body)} }}"
    if cont == "mod": return f"#[mockall::automock] pub mod m {{ {fns('pub ', body)} }}"
    raise ToolError(f"{it}")

def mpre(it):
    """the traits that it names"""
    fam, n = it["fam"], it["n"]
    if fam == "hrtb": return f"pub trait Fn2<{', '.join(chr(39) + L5[i] for i in range(n))}> {{}}"
    return ""

def mdescribe(it): return f"{it['fam']}/{it['cont']}/{it['n']}{'/static' if it['static'] else ''}/{it['form']}"

RT = os.path.join(VERIF, "harness/rt/rt.rs")
HEAD_X = f"""#![allow(warnings)]
#[macro_use] #[path = "{RT}"] mod rt;
pub mod defs {{ pub struct Held<'a>(&'a ()); pub struct Two<'a, 'b>(&'a (), &'b ()); pub trait Tr5 {{}} pub trait Rel<'a> {{}} }}
"""
SUP = """pub mod {k} {{ use crate::rt::*; tok_struct!(pub(crate) Sup2T); tok_struct!(pub CrateT); tok_struct!(pub SupT); pub trait SupTr {{}} pub trait SupRel<T> {{}}
pub mod mid {{ use crate::rt::*; tok_struct!(pub SupT); pub trait SupRel<T> {{}} pub trait SupTr {{}}
pub mod inner {{ tok_struct!(pub SelfT); tok_struct!(pub PrivT); tok_struct!(pub Mutex); tok_struct!(pub Range); pub mod mem {{ tok_struct!(pub Item); }} {decl}
}} }} }}
"""
def wrap(k, decl, pre="", sup=False):
    """an item in a module that has what its declaration names"""
    d = re.sub(r" // (@k[0-9.]+)", "", decl)
    d = f"use crate::rt::*; use crate::defs::*; use mockall::mock; use mockall_double::double; use std::path::Path; use std::ffi::{{OsStr, CStr}}; {'use async_trait::async_trait;' if 'async_trait' in d and 'use async_trait' not in d else ''} {pre}\n{d}"
    return SUP.format(k=k, decl=d) if sup else f"pub mod {k} {{ {d}\n}}\n"

def externs(d):
    """build what the items need; the arguments that rustc gets for it"""
    rc, out = cargo(d, ["build", "--lib", "--message-format=json"], timeout=3000)
    if rc: raise ToolError("mockall does not build:\n" + out[-3000:])
    ext = {}
    for l in out.split("\n"):
        if not l.startswith("{"): continue
        m = json.loads(l)
        if m.get("reason") != "compiler-artifact": continue
        n = m["target"]["name"].replace("-", "_")
        if n in ("mockall", "mockall_double", "async_trait", "predicates_core"):
            f = [x for x in m["filenames"] if x.endswith((".rlib", ".so"))]
            if f: ext[n] = f[0]
    if len(ext) != 4: raise ToolError(f"artifacts missing: {ext}")
    a = ["-L", "dependency=" + os.path.join(TARGET, "debug/deps")]
    for n, f in sorted(ext.items()): a += ["--extern", f"{n}={f}"]
    return a

def expand(args, text, name, mods):
    """Expand a program in a process of its own: {item: code}"""
    d = os.path.join(BUILD, "expand", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    f = os.path.join(d, "lib.rs")
    open(f, "w").write(text)
    e = cargo_env()
    e["RUSTC_BOOTSTRAP"] = "1"
    p = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "x", "-Zunpretty=expanded", "--cap-lints", "allow"] + args + [f],
                       cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    out, cur, buf = {}, None, []
    for l in p.stdout.split("\n"):
        m = re.match(r"pub mod (x\d+) \{", l)
        if m: cur, buf = m.group(1), []
        if cur: buf.append(l)
        if cur and l == "}": out[cur] = "\n".join(buf); cur = None
    shutil.rmtree(d, ignore_errors=True)
    # where the printer breaks lines depends on the place of the item
    out = {k: re.sub(r"\s+", "", v) for k, v in out.items()}
    if set(out) != set(mods):
        raise ToolError(f"{len(set(mods) - set(out))} of {len(mods)} items were not expanded: {p.stderr[-2000:]}")
    return out

def run_expand(chk, procs=4, most=5000):
    with cf.ThreadPoolExecutor(6) as ex:
        small = "Items = {i1, i2%s}\nCodes = {c1, c2}\nProcs = {p1, p2}\nMaxLen = %d\nTraceFile = \"\"\n" % ((", i3", 2) if chk.big else ("", 3))
        fm = ex.submit(tlc, "Expansion", "INIT MInit\nNEXT MNext\nINVARIANT Deterministic\nINVARIANT Local\nPROPERTY Replayable\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + small, "C25_model")
        fn = ex.submit(tlc, "Many", f"INIT Init\nNEXT Next\nINVARIANT ManyProps\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANT Big = {'TRUE' if chk.big else 'FALSE'}\n", "C25_many")
        fs = ex.submit(G.shapes, chk.big, "C25_shapes")
        fi = [ex.submit(I.items, w, chk.big, f"C25_items{w}") for w in ("C21", "C24")]
        fd = ex.submit(tlc, "Double", "INIT Init\nNEXT Next\nINVARIANT DoubleProps\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANT Big = FALSE\n", "C25_double", timeout=3000)
        fb = ex.submit(lambda: externs(crate("h_expand", {"src/lib.rs": ""}, deps=DEPS)))
        decls = []          # (what it is, declaration)
        rn = fn.result()
        for it in sorted((json.loads(unquote(x)) for x in rn.lines if x[2] == "P"), key=mdescribe): decls.append((mdescribe(it), many(it), mpre(it), False))
        nmany = len(decls)
        rs, L = fs.result()
        if not chk.big: L = sample(L, chk.seed, 1)
        for c in G.containers(L, 8): decls.append(("; ".join(G.describe(s) for s in c.shapes), c.decl().replace(f"crate::{c.k}::", f"crate::x{len(decls)}::"), "", True))
        nshapes = len(decls)
        for w, f in zip(("C21", "C24"), fi):
            r, its = f.result()
            chk.states += r.states; chk.transitions += r.transitions
            its.sort(key=I.idescribe)
            if not chk.big: its = sample_items_(its, chk.seed, 500)
            for i, it in enumerate(its): decls.append((I.idescribe(it), I.ItemCon("k0", it).decl(), "", False))
        nitems = len(decls)
        rd = fd.result()
        D = [json.loads(unquote(x)) for x in rd.lines if x[2] == "P"]
        D = [c for c in D if c["how"] != "fn"]
        D.sort(key=lambda c: zlib.crc32((json.dumps(c, sort_keys=True) + str(chk.seed)).encode()))
        for c in D[:3000 if chk.big else 300]:
            decls.append((" ".join(c["decl"]), "\n".join(f"{c['attr']} #[double] {c['vis']} {DC.U(x)}" for x in c["decl"]), "", False))
        for r in (fm.result(), rn, rs, rd): chk.states += r.states; chk.transitions += r.transitions
        args = fb.result()
    mods = [(f"x{i}", wrap(f"x{i}", *d[1:])) for i, d in enumerate(decls)]
    # programs: all items or some, in one order or the other
    nfiles = max(8, len(mods) // 48)
    jobs = []
    for p in range(procs):
        if p % 4 == 0: parts = [mods[i::nfiles] for i in range(nfiles)]
        elif p % 4 == 1: parts = [mods[i::nfiles][::-1] for i in range(nfiles)]
        elif p % 4 == 2: parts = [mods[i * len(mods) // nfiles:(i + 1) * len(mods) // nfiles] for i in range(nfiles)]
        else: parts = [mods[i * len(mods) // nfiles:(i + 1) * len(mods) // nfiles][::-1] for i in range(nfiles)]
        jobs += [(f"p{p}_{i}", part) for i, part in enumerate(parts)]
    codes, texts = {k: [] for k, _ in mods}, {}
    bad = []
    with cf.ThreadPoolExecutor(8) as ex:
        def one(j):
            o = expand(args, HEAD_X + "".join(t for _, t in j[1]), j[0], [k for k, _ in j[1]])
            return {k: (hashlib.sha256(v.encode()).hexdigest()[:16], v) for k, v in o.items()}
        for o in ex.map(one, jobs):
            for k, (h, v) in o.items():
                codes[k].append(h); chk.validated += 1
                texts.setdefault(k, v)
                if codes[k][0] != h: bad.append((k, texts[k], v))
    d = os.path.join(BUILD, "expand"); os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "trace.ndjson")
    with open(f, "w") as h:
        for k, cs in codes.items(): h.write(json.dumps(dict(item=k, codes=cs)) + "\n")
    r = tlc("Expansion", f"INIT TraceInit\nNEXT TraceNext\nINVARIANT Report\nCHECK_DEADLOCK FALSE\nCONSTANTS\nItems = {{}}\nCodes = {{}}\nProcs = {{}}\nMaxLen = 0\nTraceFile = \"{f}\"\n", "C25_trace")
    chk.states += r.states; chk.transitions += r.transitions
    stuck = {json.loads(unquote(x))["item"] for x in r.lines if x[2] == "B"}
    if stuck != {k for k, _, _ in bad}: raise ToolError("the trace check disagrees with the comparison")
    for k, a, b in bad[:5]:
        what = decls[int(k[1:])][0]
        at = max(0, len(os.path.commonprefix([a, b])) - 40)
        chk.violation(f"the same item is expanded to different code: {what}: ...{a[at:at + 120]} / ...{b[at:at + 120]}", item=what, declaration=decls[int(k[1:])][1], one=a, other=b)
    errs = sum("compile_error!" in t for t in texts.values())
    chk.samples += [decls[i][1][:500] for i in (0, nmany // 2, nmany + 1)]
    chk.detail.append(dict(items=len(decls), many=nmany, containers_of_shapes=nshapes - nmany, items_of_items=nitems - nshapes, doubles=len(decls) - nitems,
                           processes=len(jobs), expansions=chk.validated, rejected_by_mockall=errs))
    log(chk.detail[-1])

def sample_items_(L, seed, most):
    from itemcheck import sample_items
    return sample_items(L, seed, most)
