"""Rust code for the items of spec/Items.tla: their declarations, probes for
what their mocks must and must not have, and drivers for their members."""
from shapegen import *
import shapegen

ATTR = {"on1": "#[cfg(all())]", "on2": "#[cfg(not(any()))]", "on3": "#[cfg(all())] #[cfg(not(any()))]", "on4": "#[cfg_attr(all(), cfg(all()))]",
        "on5": "#[cfg_attr(any(), cfg(any()))]", "off1": "#[cfg(any())]", "off2": "#[cfg(not(all()))]", "off3": "#[cfg(all())] #[cfg(any())]",
        "off4": "#[cfg(any())] #[cfg(all())]", "off5": "#[cfg_attr(all(), cfg(any()))]", "off6": '#[cfg(target_os = "multics")]',
        "off7": '#[cfg(feature = "there_is_no_such_feature")]',
        "doc": '#[doc = "Something"]', "doc2": '#[doc = "One"] #[doc = ""] #[doc = "Two"]', "doc3": "#[doc(hidden)]",
        "must": "#[must_use]", "must2": '#[must_use = "because"]', "allow": "#[allow(unused_variables)]",
        "allow2": "#[allow(clippy::all, non_snake_case)]", "depr": '#[deprecated(since = "1", note = "old")]', "expect": "#[expect(unused_variables)]",
        "tcaller": "#[track_caller]", "rustfmt": "#[rustfmt::skip]", "deny": "#[deny(unused_must_use)]", "inline": "#[inline]",
        "inlinea": "#[inline(always)]", "cold": "#[cold]", "link": '#[link_name = "some_other_name"]', "link2": '#[link_name = "abs"]'}
GDECL = {"": "", "G": "<G: 'static + Clone + Send + Sync>", "G2": "<G: 'static + Clone, H: 'static>", "Gdef": "<G: 'static + Clone = u32>",
         "Gwhere": "<G>", "lt": "<'a>"}
GIMPL = {"": "", "G": "<G: 'static + Clone + Send + Sync>", "G2": "<G: 'static + Clone, H: 'static>", "Gdef": "<G: 'static + Clone>",
         "Gwhere": "<G>", "lt": "<'a>"}
GARGS = {"": "", "G": "<G>", "G2": "<G, H>", "Gdef": "<G>", "Gwhere": "<G>", "lt": "<'a>"}
GWHERE = {"Gwhere": " where G: 'static + Clone"}
GUSE = {"": "", "G": "<u32>", "G2": "<u32, u16>", "Gdef": "<u32>", "Gwhere": "<u32>", "lt": "<'static>"}

class ItemCon(Container):
    def __init__(self, k, item):
        self.k, self.item = k, item
        self.st, self.tr = f"X{k}", f"Tr{k}"
        cont = item["cont"]
        self.gens = item["gens"] or ("G" if cont in ("mkG", "ax", "ag") else "")
        self.mockname = "Mock" + (self.tr if cont in ("at", "ag") else self.st)
        self.members = []       # (group, member, Ctx, cont, name)
        self.has_self = any(has(lst(t), "Self") for g in item["gs"] for m in g["ms"] for t in m["shape"]["args"] + [m["shape"]["ret"]])
        for gi, g in enumerate(item["gs"]):
            c = Ctx(k, g["cont"], "")
            c.mockname = self.mockname
            c.mock = self.mocktype(g["self"])
            tn = self.traitname(g)
            c.abstr = tn + (GUSE[self.gens] if cont == "ag" else "")
            c.tagcall = "tag()"
            for mi, m in enumerate(g["ms"]):
                n = m["dup"] or f"f{gi}{mi}_{m['k']}" + (k if cont == "ffi" else "")
                m["shape"]["flags"] = [f for f in m["shape"]["flags"] if not f.startswith("name:")] + ["name:" + n]
                self.members.append((g, m, c, g["cont"], n))
        self.shapes = [m["shape"] for _, m, _, _, _ in self.members]
    def mocktype(self, spec=""):
        return self.mockname + (f"<{spec}>" if spec else GUSE[self.gens] if self.gens else "")
    def traitname(self, g):
        n = g["name"]
        if n in ("", "Clone"): return n
        if self.item["cont"] in ("at", "ag", "ai"): return self.tr
        return n
    def text(self, j, body, tr):
        """member j, with its attributes"""
        g, m, c, cont, n = self.members[j]
        self.c, self.cont = c, cont
        s = dict(m["shape"])
        if m["nx"]: s["args"] = s["args"] + [["Nx"]]
        self.shapes, keep = [s] * (j + 1), self.shapes
        RUST["Nx"] = "there::is::no::SuchType"
        t = self.sig(j, body, tr).rsplit(" // @", 1)[0]
        self.shapes = keep
        return " ".join(ATTR[a] for a in m["as"]) + " " + t + f" // @{self.k}"
    def body(self, tr, body):
        return lambda g: "\n".join(self.text(j, body, tr) for j, x in enumerate(self.members) if x[0] is g)
    def tagfn(self, body, vis=""):
        return f"{vis}fn tag(&self) -> u32{body} // @{self.k}" if self.has_self else ""
    def decl(self):
        it, st, tr = self.item, self.st, self.tr
        cont, gens, how = it["cont"], self.gens, it["how"]
        A = lambda l, ok=lambda a: True: " ".join(ATTR[a] for a in l if ok(a))
        isc = lambda a: a[:2] in ("on", "of")
        ia = A(it["as"])
        vis = {"priv": "", "crate": "pub(crate) "}.get(how, "pub ")
        un = "unsafe " if how == "unsafe" else ""
        protos = lambda g, t=True: "\n".join(self.text(j, ";", t) for j, x in enumerate(self.members) if x[0] is g)
        bodies = lambda g, t=False: "\n".join(self.text(j, " { unimplemented!() }", t) for j, x in enumerate(self.members) if x[0] is g)
        e = f" // @{self.k}\n"
        B = lambda t: t.replace("'static + Clone", "'static + Clone + Send + Sync") if False else t
        const = how == "consts"
        out = []
        if cont in ("mk", "mkG"):
            seen = set()
            inner, impls = "", []
            pend = []
            for gi, g in enumerate(it["gs"]):
                if not g["name"]:
                    inner = (f"const CI: u32 = 6;{e}" if const else "") + self.tagfn(";") + "\n" + protos(g, False)
                    continue
                n, sup = g["name"], ""
                key = (n.split("<")[0], tuple(a for a in g["as"] if isc(a)))
                if n != "Clone" and key not in seen:
                    seen.add(key)
                    base, mod = n.split("<")[0].split("::")[-1], n.split("::")[0] if "::" in n else ""
                    tg = ["", "<Z>", "<Z, Y>"][n.count("<") + n.count(",")]
                    h = ": Sized" if self.has_self else ": Marker" if how == "inherit" else ""
                    k = "const CT: u32;" if const else ""
                    t = f"{A(g['as'], isc)} {vis}{un}trait {base}{tg}{h} {{ {k}\n{protos(g)} }}{e}"
                    out.append(f"pub mod {mod} {{ use super::*; {t.replace('fn', 'fn')} }}{e}" if mod else t)
                gi_, ga, wh = (GIMPL[gens], GARGS[gens], GWHERE.get(gens, "")) if not g["self"] else ("", f"<{g['self']}>", "")
                impls.append(f"{A(g['as'])} {un if n != 'Clone' else ''}impl{gi_} {n} for {st}{ga}{wh} {{ {'const CT: u32 = 7;' if const and n != 'Clone' else ''}\n{protos(g, False)}\n}}{e}")
                if how == "inherit" and len(impls) == 1:
                    out.append(f"pub trait Marker {{}}{e}")
                    impls.append(f"impl{gi_} Marker for {st}{ga}{wh} {{}}{e}")
            if not inner: inner = self.tagfn(";")
            drv = "".join(f"#[derive({', '.join(l)})] " for l in it["drv"]) + ("#[derive(Clone, Default, PartialEq)] " if how == "auto" else "")
            out.append(f"mock! {{ {ia} {drv}{vis}{st}{GDECL[gens]}{GWHERE.get(gens, '')} {{ {inner}\n}}\n" + "\n".join(impls) + f"}}{e}")
            return "\n".join(out)
        g = it["gs"][0]
        au = "#[mockall::automock]"
        before, after = (ia, "") if zlib.crc32(self.k.encode()) % 2 else ("", ia)
        if any(isc(a) for a in it["as"]): before, after = ia, ""
        if cont in ("at", "ag"):
            return f"{before} {au} {after} {vis}{un}trait {tr}{GDECL[gens]}{': Sized' if self.has_self else ''}{GWHERE.get(gens, '')} {{ {self.tagfn(';')}\n{protos(g)}\n}}{e}"
        if cont in ("as", "ax"):
            fld = {"": ";", "G": "(G);", "G2": "(G, H);", "Gwhere": "(G);", "lt": "(&'a ());"}[gens]
            ci = f"pub const CI: u32 = 6;{e}" if const else ""
            st_decl = f"pub struct {st}{GARGS[gens]}{fld}" if vis == "pub " else f"{vis}struct {st}{GARGS[gens]}{fld}"
            return f"{st_decl}\n{before} {au} {after} impl{GIMPL[gens]} {st}{GARGS[gens]}{GWHERE.get(gens, '')} {{ {ci} {self.tagfn(' { 0 }', 'pub ')}\n{bodies(g)}\n}}{e}"
        if cont == "ai":
            ct, ci = ("const CT: u32;", "const CT: u32 = 7;") if const else ("", "")
            return (f"{vis}trait {tr}{': Sized' if self.has_self else ''} {{ {ct} {self.tagfn(';')}\n{protos(g)}\n}}\n{vis}struct {st};\n"
                    f"{before} {au} {after} impl {tr} for {st} {{ {ci} {self.tagfn(' { 0 }')}\n{bodies(g, True)}\n}}{e}")
        if cont == "mod": return f"{before} {au} {after} {vis}mod m {{ use super::*;\n{bodies(g)}\n}}{e}"
        if cont == "ffi": return f"{before} {au} {after} {vis}mod m {{ extern \"C\" {{\n" + protos(g, False) + f"\n}} }}{e}"
    def meth(self, j):
        g, m, c, cont, n = self.members[j]
        self.c, self.cont = c, cont
        x = Container.meth(self, j)
        x.tags = "item mod" if self.item["cont"] in ("mod", "ffi") else "item dbg" if self.item["dbg"] else "item"
        if self.item["cont"] == "ffi": x.tick = "unsafe {{ " + x.tick + " }}"
        return x

def has(t, n):
    return t[0] == n or len(t) == 2 and has(t[1], n)

def item_module(con, ident):
    """(text, objects, functions); ident: number of the module"""
    it, k = con.item, con.k
    mark = f" // @{k}\n"
    mod = it["cont"] in ("mod", "ffi")
    specs = sorted({g["self"] for g in it["gs"]} - {""}) or [""]
    out, objs, fns = [], [], []
    live = [j for j, (g, m, *_ ) in enumerate(con.members) if m["present"]]
    for j in live:
        g, m, c, cont, n = con.members[j]
        if not m["static"]: continue
        x = con.meth(j)
        step = lean_step(x).replace("\n", " ")
        fi = f"F{j}"
        ident_n = n[2:] if n.startswith("r#") else n
        path = f"mock_m::{ident_n}_context()" if mod else f"<{c.mock}>::{ident_n}_context()"
        mc = "fn mod_checkpoint(&self) { mock_m::checkpoint() }" if mod else ""
        out.append(f"""pub struct {fi}; static METAS_{fi}: &[Meta] = &[{meta(x)}];
impl FnType for {fi} {{ fn name(&self) -> &'static str {{ "{k}.{n}" }} fn metas(&self) -> &'static [Meta] {{ METAS_{fi} }} fn module(&self) -> i64 {{ {ident} }} {mc}
fn ctx(&self) -> Box<dyn Ctx> {{ let c = {path};{mark} Box::new(CtxF(move |q: Option<(usize, &[Step], &mut Env)>| match q {{ None => c.checkpoint(),
 Some((_, cfg, env)) => {{ {step}{mark} let mut g = {x.expect.format(o='c')};{mark} if let Some((s0, rest)) = cfg.split_first() {{
 let e = step!(g, s0, env);{mark} for s in rest {{ let _ = step!(e, s, env);{mark} }} }} }} }})) }}
fn call(&self, m: usize, a: i64, w: i64) -> i64 {{ {lean_call(x)}{mark} }} }}""")
        fns.append(f"{k}::{fi}")
    if not mod:
        for si, spec in enumerate(specs):
            E, C_, CO, M, i = [], [], [], [], 0
            for j in live:
                g, m, c, cont, n = con.members[j]
                if m["static"] or g["self"] not in ("", spec): continue
                own = c.mock
                c.mock = con.mocktype(spec)
                x = con.meth(j)
                step = lean_step(x).replace("\n", " ")
                E.append(f"{i} => {{ {step}{mark} let e = {x.expect.format(o='self.0')};{mark} for s in cfg {{ let _ = step!(e, s, env);{mark} }} }}")
                (CO if x.rkind == "own" else C_).append(f"{i} => {{ {lean_call(x)}{mark} }}")
                M.append(meta(x).replace(f'name: "{x.name}"', f'name: "{k}.{n}"'))
                c.mock = own
                i += 1
            mt = con.mocktype(spec)
            nl = "\n"
            new = f"if how == 0 {{ let q: {mt} = <{mt}>::new();{mark} q }} else {{ Default::default() }}" if it["autonew"] else "Default::default()"
            dbg = f"fn debug(&self) {{ let q = format!(\"{{:?}} {{:#?}}\", self.0, self.0);{mark} if q.trim().is_empty() {{ panic!(\"printed nothing\") }} }}" if it["dbg"] else ""
            out.append(f"""pub struct W{si}({mt}); pub struct Ty{si}; static METAS{si}: &[Meta] = &[{', '.join(M)}];
impl Obj for W{si} {{
 fn expect(&mut self, m: usize, cfg: &[Step], env: &mut Env) {{ match m {{ {nl.join(E)} _ => unreachable!() }} }}
 fn call(&mut self, m: usize, a: i64, w: i64) -> i64 {{ match m {{ {nl.join(C_)} _ => unsupported() }} }}
 fn call_own(self: Box<Self>, m: usize, a: i64) -> i64 {{ let o = self.0; let w = -1; match m {{ {nl.join(CO)} _ => unsupported() }} }}
 fn checkpoint(&mut self) {{ self.0.checkpoint(){mark} }} {dbg} }}
impl ObjType for Ty{si} {{ fn name(&self) -> &'static str {{ "{k}.{si}" }} fn metas(&self) -> &'static [Meta] {{ METAS{si} }} fn module(&self) -> i64 {{ {ident} }}
 fn make(&self, how: usize) -> Box<dyn Obj> {{ Box::new(W{si}({new})) }} }}""")
            objs.append(f"{k}::Ty{si}")
    # what must not exist
    probes = []
    for j, (g, m, c, cont, n) in enumerate(con.members):
        if not m["gone"]: continue
        if mod:
            probes.append(f"mod gone{j} {{ pub struct Gone; pub fn {n}() -> Gone {{ Gone }} pub fn {n}_context() -> Gone {{ Gone }} }}\n"
                          f"fn probe{j}() {{ use mock_m::*; use gone{j}::*; let _: gone{j}::Gone = {n}();{mark} let _: gone{j}::Gone = {n}_context();{mark} }}")
        else:
            mt = con.mocktype(g["self"])
            s = "" if m["static"] else "&mut self"
            probes.append(f"mod gone{j} {{ pub struct Gone; pub trait Absent {{ fn {n}({s}) -> Gone {{ Gone }} fn expect_{n}(&mut self) -> Gone {{ Gone }} fn {n}_context() -> Gone {{ Gone }} }} impl Absent for super::{mt} {{}} }}\n"
                          f"fn probe{j}() {{ use gone{j}::{{Absent, Gone}}; let mut o = <{mt}>::default(); let _: Gone = o.expect_{n}();{mark} let _: Gone = <{mt}>::{n}_context();{mark} "
                          + (f"let _: Gone = <{mt}>::{n}();{mark}" if m["static"] else f"let _: Gone = o.{n}();{mark}") + "}")
    # traits that must be implemented
    if not mod:
        for gi, g in enumerate(it["gs"]):
            t = con.traitname(g)
            if t and not g["off"]:
                t += GUSE[con.gens] if it["cont"] == "ag" else ""
                probes.append(f"fn implements{gi}() {{ fn needs<Q: {t}>() {{}} needs::<{con.mocktype(g['self'])}>();{mark} }}")
                if it["how"] == "consts" and t != "Clone":
                    probes.append(f"const _: () = assert!(<{con.mocktype(g['self'])} as {t}>::CT == 7);{mark}")
            if not t and it["how"] == "consts" and it["cont"] in ("mk", "mkG", "as", "ax"):
                probes.append(f"const _: () = assert!(<{con.mocktype()}>::CI == 6);{mark}")
        if it["cont"] in ("mk", "mkG") and not it["dbg"]:
            # one is free to implement Debug
            probes.append(f"impl{GIMPL[con.gens]} std::fmt::Debug for {con.mockname}{GARGS[con.gens]}{GWHERE.get(con.gens, '')} {{ fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ Ok(()) }} }}{mark}")
        if it["how"] == "inherit":
            probes.append(f"fn inherits() {{ fn needs<Q: Marker>() {{}} needs::<{con.mocktype()}>();{mark} }}")
    text = f"pub mod {k} {{ use crate::rt::*; use mockall::*;\n{con.decl()}\n" + "\n".join(out + probes) + "\n}\n"
    text = re.sub(r" // (@k\d+)", r" /* \1 */", text)
    return text, objs, fns

def idescribe(it):
    a = lambda l: "".join("#" + x + " " for x in l)
    gs = " ".join(f"{a(g['as'])}{g['name'] or 'impl'}{'@' + g['self'] if g['self'] else ''}[" + ", ".join(
        a(m["as"]) + m["k"] + (":" + m["dup"] if m["dup"] else "") + ("!" if m["nx"] else "") for m in g["ms"]) + "]" for g in it["gs"])
    return f"{it['fam']}/{it['cont']}{'<' + it['gens'] + '>' if it['gens'] else ''} {a(it['as'])}{''.join('derive(' + ','.join(l) + ') ' for l in it['drv'])}{it['how'] + ' ' if it['how'] else ''}{gs}"

def items(which, big, name):
    r = tlc("Items", f"INIT Init\nNEXT Next\nINVARIANT ItemProps\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANT Big = {'TRUE' if big else 'FALSE'}\nCONSTANT Which = \"{which}\"\n", name)
    l = [json.loads(unquote(x)) for x in r.lines if x[2] == "P"]
    l.sort(key=lambda s: json.dumps(s, sort_keys=True))
    for it in l:
        for g in it["gs"]:
            for m in g["ms"]: m["shape"]["flags"].sort()
    return r, l
