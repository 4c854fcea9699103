"""Generates the Rust side of the harness: for every method of every mock that
takes part in replay, the code that configures an expectation from abstract
steps, calls the method for an abstract argument, and describes it."""

class Arg:
    """One argument of a mocked method.
    decl: type in closures; own: type of the caller's variable; pas: how it is
    passed ({v}); pty: what predicates and withf see (behind one reference);
    dref: decode from a `&pty` named {x}; dval: decode from a `decl` named {x};
    eq: rust expression ({v}: encoded value expression) for predicate::eq, or
    None; show: rust expression giving the Debug text for value {d}"""
    def __init__(self, decl, own, pas="{v}", pty=None, dref="Tok::dec({x})",
                 dval="Tok::dec(&{x})", eq=None, show=None, enc=None, predty=None, looks=(), hidden=False):
        self.decl, self.own, self.pas = decl, own, pas
        self.pty = pty or own
        self.dref, self.dval, self.eq = dref, dval, eq
        self.show = show or f"<{own} as Tok>::enc({{d}}).show()"
        self.enc = enc or f"<{own} as Tok>::enc({{d}})"
        self.predty = predty or self.pty
        self.hidden = hidden       # carries no digit of the abstract argument
        self.looks = looks         # what must have become of it after the call

def val(t, eq=True, dbg=True, **kw):
    return Arg(t, t, "{v}", t, eq=(f"<{t} as Tok>::enc({{d}})" if eq else None),
               show=None if dbg else '"?".to_string()', **kw)
def ref(t, eq=True, dbg=True, lt=""):
    return Arg(f"&{lt}{t}", t, "&{v}", t, dval="Tok::dec({x})",
               eq=(f"<{t} as Tok>::enc({{d}})" if eq else None),
               show=None if dbg else '"?".to_string()')
def refmut(t, eq=True, dbg=True):
    return Arg(f"&mut {t}", t, "&mut {v}", t, dval="Tok::dec(&*{x})",
               eq=(f"<{t} as Tok>::enc({{d}})" if eq else None),
               show=None if dbg else '"?".to_string()')
STR = Arg("&str", "String", "&{v}", "str", dref="dec_str({x})", dval="dec_str({x})",
          eq="<&'static str as Tok>::enc({d})")
def slice_(t):
    return Arg(f"&[{t}]", f"Vec<{t}>", "&{v}", f"[{t}]", dref="dec_slice({x})",
               dval="dec_slice({x})", eq=None)
PATH = Arg("&std::path::Path", "std::path::PathBuf", "&{v}", "std::path::Path",
           dref="dec_str({x}.to_str().unwrap())", dval="dec_str({x}.to_str().unwrap())")

def boolarg(j):
    """bool carries no position offset: shift by hand"""
    return Arg("bool", "bool", "{v}", "bool", dref=f"({10*j} + *{{x}} as i64)", dval=f"({10*j} + {{x}} as i64)",
               enc=f"({{d}} != {10*j})", eq=f"({{d}} != {10*j})", show=f'format!("{{{{:?}}}}", {{d}} != {10*j})')

# Arguments of concretized methods.  What matcher and action get must be the
# caller's own value: same address, and changes made through it are seen.
LOOKERS = ["u32", "String", "Opaque", "Lend<'_>"]
def cz(form="T", ty="u32", bound="Look", j=0):
    enc = f"<{ty} as Looker>::mk({{d}})" if "Lend" not in ty else "Lend {{ c: &std::cell::Cell::new({d}) }}"
    if form == "T":
        return Arg(f"&(dyn {bound})", ty, "{v}", f"(dyn {bound})", dref="{x}.look()", dval="{x}.look()", show='"?".to_string()', enc=enc, looks=["(0, 0, 0, 0)"])
    if form == "&T":
        return Arg(f"&(dyn {bound})", ty, "&{v}", f"(dyn {bound})", dref="{x}.look()", dval="{x}.look()", show='"?".to_string()', enc=enc,
                   looks=["(addr(&{v}), {v}.look(), {d}, 0)"])
    if form == "&mut T":
        return Arg(f"&mut (dyn {bound})", ty, "&mut {v}", f"(dyn {bound})", dref="{x}.look()",
                   dval="{{ let q = {x}.look(); {x}.poke(); q }}", show='"?".to_string()', enc=enc,
                   looks=["(addr(&{v}), {v}.look(), {d}, 1)"])
    if form == "&[T]":
        enc2 = "[" + enc + ", " + enc.replace("{d}", "7") + "]"
        return Arg(f"&[&(dyn {bound})]", f"[{ty}; 2]", "&{v}", f"[&(dyn {bound})]", dref="look_slice(&{x}.iter().map(|q| q.look()).collect::<Vec<_>>())",
                   dval="look_slice(&{x}.iter().map(|q| q.look()).collect::<Vec<_>>())", show='"?".to_string()', enc=enc2,
                   looks=["(addr(&{v}[0]), {v}[0].look(), {d}, 0)", "(addr(&{v}[1]), {v}[1].look(), 7, 0)"])
def czpath(form="T", ty="std::path::PathBuf", bound="AsRef<std::path::Path>"):
    d = "dec_str({x}.as_ref().to_str().unwrap())"
    ds = "look_slice(&{x}.iter().map(|q| dec_str(q.as_ref().to_str().unwrap())).collect::<Vec<_>>())"
    enc = f"<{ty} as Tok>::enc({{d}})"
    if form == "T": return Arg(f"&(dyn {bound})", ty, "{v}", f"(dyn {bound})", dref=d, dval=d, show='"?".to_string()', enc=enc)
    if form == "&T": return Arg(f"&(dyn {bound})", ty, "&{v}", f"(dyn {bound})", dref=d, dval=d, show='"?".to_string()', enc=enc)
    return Arg(f"&[&(dyn {bound})]", f"Vec<{ty}>", "&{v}", f"[&(dyn {bound})]", dref=ds, dval=ds, show='"?".to_string()', enc=f"vec![{enc}, {enc.format(d=7)}]")
PATHY = ["std::path::PathBuf", "String", "&'static str", "std::ffi::OsString"]
def czfn(mut=False, more="", pas="{v}"):
    """a closure argument: Fn can be called by matchers, FnMut only by actions
    (and then stands for one more argument, which matchers do not see)"""
    if not mut:
        return Arg(f"&(dyn Fn(u32) -> u32{more})", "_", pas, f"(dyn Fn(u32) -> u32{more})", dref="({x}(5) as i64 - 5)", dval="({x}(5) as i64 - 5)",
                   show='"?".to_string()', enc="{{ let q = {d}; move |y: u32| q as u32 + y }}")
    return Arg(f"&mut (dyn FnMut(u32) -> u32{more})", "_", "{v}", f"(dyn FnMut(u32) -> u32{more})", dref="0", dval="({x}(5) as i64 - 12 + 0 * {x}(1) as i64)",
               show='"?".to_string()', enc="|y: u32| {{ fn_called(); y + 7 }}", looks=["(1, 0, 0, 0)"], hidden=True)

class Ret:
    """owned: type that the closure / return_const produces; enc: make it from
    i64 {d}; dec: decode a call's result {x}; wr: statement writing {d} through
    a returned reference {x}; clone: may return_const be used?"""
    def __init__(self, owned, enc=None, dec="Tok::dec(&{x})", wr=None, clone=True, send=True, const_ty=None):
        self.owned = owned
        self.enc = enc or f"<{owned} as Tok>::enc({{d}})"
        self.dec, self.wr, self.clone, self.send = dec, wr, clone, send
def rv(t, **kw):
    return Ret(t, **kw)
def rref(t, dec="Tok::dec({x})"):
    return Ret(t, dec=dec)
def rmut(t, dec="Tok::dec(&*{x})", wr=None):
    return Ret(t, dec=dec, wr=wr or f"*{{x}} = <{t} as Tok>::enc({{d}});")

class Meth:
    def __init__(self, name, args, ret, kind="val", expect=None, call=None,
                 fname="", cname=None, tags="", nargs=None, no=(), tick="{r}", alts=None):
        self.name, self.args, self.ret, self.kind = name, list(args), ret, kind
        self.expect, self.call = expect, call
        self.fname, self.cname, self.tags = fname, cname or fname, tags
        self.no = set(no)          # features this method does not offer
        self.tick = tick           # e.g. block_on({r}) for async
        self.alts = alts           # other lists of Args to call it with, in turn

def digit(j, n, a="a"):
    return f"digit({a}, {j}, {n})"

def step_macro(m, mac="step"):
    """macro_rules that applies one abstract step to an expectation or guard"""
    A, n, R = m.args, sum(not a.hidden for a in m.args), m.ret
    xs = [f"x{j}" for j in range(len(A))]
    plist = ", ".join(f"{x}: &{a.pty}" for x, a in zip(xs, A))
    vlist = ", ".join(f"{x}: {a.decl}" for x, a in zip(xs, A))
    dref = "comb(&[" + ", ".join(a.dref.format(x=x) for x, a in zip(xs, A) if not a.hidden) + "])"
    dval = "comb(&[" + ", ".join(a.dval.format(x=x) for x, a in zip(xs, A) if not a.hidden) + "])"
    for x, a in zip(xs, A):
        if a.hidden: dval = f"({dval} + {a.dval.format(x=x)})"
    arms = []
    def arm(k, e):
        arms.append(f"            K::{k} => {{ {e} }}")
    def one(j, k):      # predicate for argument j equal to digit expr k
        a = A[j]
        if a.eq:
            return f"predicate::eq({a.eq.format(d=k)})"
        return f"predicate::function({{ let k = {k}; move |x: &{a.pty}| {a.dref.format(x='x')} == k }})"
    nw = "with" not in m.no
    wf = "withf" not in m.no
    if n > 0 and nw:
        arm("eq", f"$e.with({', '.join(one(j, digit(j, n, 's.a')) for j in range(n))})")
    if n > 0 and wf and not nw:
        arm("eq", f"{{ let k = s.a; $e.withf(move |{plist}| {dref} == k) }}")
    if n > 0 and nw:
        arm("with", "$e.with(" + ", ".join(
            f"MaskP::<{A[j].predty}> {{ mask: (s.a >> (2*{j})) & 3, off: {10*j}, f: |x: &{A[j].predty}| {A[j].dref.format(x='x')} }}"
            for j in range(n)) + ")")
    if n == 1 and nw and "preds" in m.tags.split():
        a = A[0]
        f = lambda mask: f"predicate::function({{ let mk = {mask}; move |x: &{a.pty}| bit(mk, {a.dref.format(x='x')}) }})"
        e = a.eq.format(d="s.a") if a.eq else None
        if e:
            arm("ne", f"$e.with(predicate::ne({e}))")
            arm("lt", f"$e.with(predicate::lt({e}))")
            arm("ge", f"$e.with(predicate::ge({e}))")
            if a.decl == a.own:
                arm("r#in", f"$e.with(predicate::in_iter((0..10i64).filter(|i| bit(s.a, *i)).map(|i| <{a.own} as Tok>::enc(i)).collect::<Vec<_>>()))")
        arm("pfn", f"$e.with({f('s.a')})")
        arm("alw", "$e.with(predicate::always())")
        arm("nev", "$e.with(predicate::never())")
        arm("not", f"$e.with({f('s.a')}.not())")
        arm("and", f"$e.with({f('s.a')}.and({f('s.b')}))")
        arm("or", f"$e.with({f('s.a')}.or({f('s.b')}))")
    if wf and n > 0:
        arm("r#fn", f"let mk = s.a; $e.withf(move |{plist}| {{ point(b'M'); bit(mk, {dref}) }})")
        if "st" not in m.no:
            arm("st", f"let mk = s.a; let rc = std::rc::Rc::new(mk); $e.withf_st(move |{plist}| bit(*rc, {dref}))")
        arm("pan", f"let mk = s.a; let mp = s.b; $e.withf(move |{plist}| {{ let x = {dref}; point(b'M'); if bit(mp, x) {{ user_panic() }} bit(mk, x) }})")
    if n == 1 and nw:
        arm("panw", f"$e.with(predicate::function({{ let k = s.clone(); move |x: &{A[0].pty}| {{ let x = {A[0].dref.format(x='x')}; if bit(k.b, x) {{ user_panic() }} bit(k.a, x) }} }}))")
    U = "as usize"
    arm("n", f"$e.times(s.a {U})")
    arm("r", f"$e.times(s.a {U}..s.b {U})")
    arm("ri", f"$e.times(s.a {U}..=s.b {U})")
    arm("rf", f"$e.times(s.a {U}..)")
    arm("rt", f"$e.times(..s.b {U})")
    arm("rti", f"$e.times(..=s.b {U})")
    arm("full", "$e.times(..)")
    arm("once", "$e.once()")
    arm("never", "$e.never()")
    arm("s", f"$e.in_sequence(&mut $env.seqs[s.a {U} - 1])")
    enc = lambda d: R.enc.format(d=d)
    if m.kind == "val":
        arm("auto", f"let b = $env.id * 1000; $e.returning(move |{vlist}| {{ ran(); {enc('b')} }})")
        if R.clone and "const" not in m.no:
            if R.send: arm("aconst", f"$e.return_const({enc('base')})")
            arm("aconst_st", f"$e.return_const_st({enc('base')})")
        fn = f"{{ ran(); let v = base + 10 * cnt + {dval}; let k = cnt; let g = act(id); cnt = k + 1; drop(g); {enc('v')} }}"
        arm("afn", f"let mut cnt = 0i64; $e.returning(move |{vlist}| {fn})")
        arm("afn_st", f"let rc = std::rc::Rc::new(0i64); let mut cnt = 0i64; $e.returning_st(move |{vlist}| {{ cnt += *rc; {fn} }})")
        arm("aonce", f"struct O(i64); let o = O(base); $e.return_once(move |{vlist}| {{ ran(); let g = act(id); let o = o; let O(b) = o; let v = b + {dval}; {enc('v')} }})")
        arm("aonce_st", f"let o = std::rc::Rc::new(base); $e.return_once_st(move |{vlist}| {{ ran(); let g = act(id); let o = o; let v = *o + {dval}; drop(o); {enc('v')} }})")
        arm("apanic", f"$e.returning(move |{vlist}| {{ ran(); if true {{ user_panic() }} {enc('0')} }})")
        arm("apanic1", f"let mut cnt = 0i64; $e.returning(move |{vlist}| {{ if {dval} == 1 {{ ran(); user_panic() }} {fn} }})")
        if R.owned in ("u32", "u64", "i64", "String", "Touchy") and R.clone and "const" not in m.no:
            arm("aconstp", "$e.return_const(PanClone)")
    elif m.kind == "ref":
        arm("auto", f"let b = $env.id * 1000; $e.return_const({enc('b')})")
        arm("aconst", f"$e.return_const({enc('base')})")
    elif m.kind == "mut":
        arm("auto", f"let b = $env.id * 1000; $e.return_var({enc('b')})")
        arm("avar", f"$e.return_var({enc('base')})")
        fn = f"{{ ran(); let v = base + 10 * cnt + {dval}; let k = cnt; let g = act(id); cnt = k + 1; drop(g); {enc('v')} }}"
        arm("afn", f"let mut cnt = 0i64; $e.returning(move |{vlist}| {fn})")
        arm("afn_st", f"let rc = std::rc::Rc::new(0i64); let mut cnt = 0i64; $e.returning_st(move |{vlist}| {{ cnt += *rc; {fn} }})")
        arm("apanic", f"$e.returning(move |{vlist}| {{ ran(); if true {{ user_panic() }} {enc('0')} }})")
        arm("apanic1", f"let mut cnt = 0i64; $e.returning(move |{vlist}| {{ if {dval} == 1 {{ ran(); user_panic() }} {fn} }})")
    body = "\n".join(arms)
    return f"""macro_rules! {mac} {{ ($e:expr, $s:expr, $env:expr) => {{{{
        let s: &Step = $s; let base = ($env.id * 1000).wrapping_add(s.a.wrapping_mul(100)); let id = $env.id;
        match s.k {{
{body}
            _ => unsupported(),
        }} }}}} }}"""

def call_code(m, obj="self.0"):
    if m.alts:
        arms = [f"{i} => {{ {call_code1(m, args, obj)} }}" for i, args in enumerate([m.args] + m.alts)]
        return f"match pick({len(arms)}) {{ {' '.join(arms)} _ => unreachable!() }}"
    return call_code1(m, m.args, obj)

def call_code1(m, args, obj):
    n = sum(not a.hidden for a in m.args)
    out = []
    for j, a in enumerate(args):
        out.append(f"let mut v{j}: {a.own} = {a.enc.format(d=digit(j, n))};")
    passed = ", ".join(a.pas.format(v=f"v{j}") for j, a in enumerate(args))
    if any(a.looks for a in args): out.append("look_clear();")
    c = m.tick.format(r=m.call.format(o=obj, args=passed))
    out.append(f"let r = {c}; let out = {m.ret.dec.format(x='r')};")
    if m.ret.wr:
        out.append(f"if w >= 0 {{ {m.ret.wr.format(x='r', d='w')} }}")
    L = [l.format(v=f"v{j}", d=digit(j, n)) for j, a in enumerate(args) for l in a.looks]
    if L: out.append(f"look_check(|| vec![{', '.join(L)}]);")
    out.append("out")
    return " ".join(out)

def meta_code(m):
    n = sum(not a.hidden for a in m.args)
    args = ", ".join(a.show.format(d=digit(j, n)) for j, a in enumerate(m.args))
    eqs = []
    for j, a in enumerate(m.args):
        if a.eq:
            eqs.append(f'format!("{{}}", predicate::eq({a.eq.format(d=digit(j, n, "s.a"))}))')
        else:
            eqs = None
            break
    masks = " , ".join(f'format!("mask{{}}@{{}}", (s.a >> (2*{j})) & 3, {10*j})' for j in range(n))
    pred = "K::with => Some([" + masks + "].join(\", \")), " if n else ""
    if eqs and "with" not in m.no:
        pred += "K::eq => Some([" + ", ".join(eqs) + "].join(\", \")), "
        if n == 1 and "preds" in m.tags.split():
            e = m.args[0].eq.format(d="s.a")
            for k in ("ne", "lt", "ge"):
                pred += f'K::{k} => Some(format!("{{}}", predicate::{k}({e}))), '
            if m.args[0].decl == m.args[0].own:
                pred += f'K::r#in => Some(format!("{{}}", predicate::in_iter((0..10i64).filter(|i| bit(s.a, *i)).map(|i| <{m.args[0].own} as Tok>::enc(i)).collect::<Vec<_>>()))), '
    return f"""Meta {{ name: "{m.name}", kind: "{m.kind}", nargs: {n}, fname: "{m.fname}", cname: "{m.cname}",
        args: |a| vec![{args}], pred: |s| match s.k {{ {pred}_ => None }}, tags: "{m.tags}" }}"""

def objtype(ident, ty, decl, meths, make="{t}::new()", make2="<{t} as Default>::default()", label=None,
            checkpoint="self.0.checkpoint()", module=-1):
    """A module `ident` with the mock declaration and its driver"""
    E, C, SH = [], [], []
    for i, m in enumerate(meths):
        E.append(f"""            {i} => {{ {step_macro(m)}
                let e = {m.expect.format(o='self.0')}; for s in cfg {{ let _ = step!(e, s, env); }} }}""")
        C.append(f"            {i} => {{ {call_code(m)} }}")
        if "conc" in m.tags.split():
            SH.append(f"            {i} => {{ let w = -1; {call_code(m)} }}")
    sh = ""
    if SH:
        sh = "fn call_shared(&self, m: usize, a: i64) -> i64 { match m {\n" + "\n".join(SH) + "\n        _ => unsupported() } }"
        decl += f"\nfn assert_shareable<T: Send + Sync>() {{}}\nfn check_shareable() {{ assert_shareable::<{ty}>() }}"
    metas = ",\n    ".join(meta_code(m) for m in meths)
    nl = "\n"
    return f"""
pub mod {ident} {{
use super::rt::*; use mockall::*;
{decl}
pub struct W({ty});
static METAS: &[Meta] = &[{metas}];
impl Obj for W {{
    fn expect(&mut self, m: usize, cfg: &[Step], env: &mut Env) {{ match m {{
{nl.join(E)}
        _ => unreachable!() }} }}
    fn call(&mut self, m: usize, a: i64, w: i64) -> i64 {{ match m {{
{nl.join(C)}
        _ => unreachable!() }} }}
    {sh}
    fn checkpoint(&mut self) {{ {checkpoint} }}
    fn as_any(&mut self) -> &mut dyn std::any::Any {{ self }}
}}
pub struct Ty;
impl ObjType for Ty {{
    fn name(&self) -> &'static str {{ "{label or ident}" }}
    fn metas(&self) -> &'static [Meta] {{ METAS }}
    fn module(&self) -> i64 {{ {module} }}
    fn make(&self, how: usize) -> Box<dyn Obj> {{
        Box::new(W(if how == 0 {{ {make.format(t=ty.replace('<', '::<', 1))} }} else {{ {make2.format(t=ty)} }})) }}
}}
}}
"""

def fntype(ident, decl, ctxty, mkctx, meths, modchk=None, module=-1, label=None):
    E, C = [], []
    for i, m in enumerate(meths):
        E.append(f"""            {i} => {{ {step_macro(m)}
                let mut g = {m.expect.format(o='c')};
                // the guard offers the same methods as the expectation: some or all
                // of the steps go through it
                if cfg.is_empty() {{ return }}
                let (own, rest) = cfg.split_at([1, cfg.len(), cfg.len() - 1][pick(3)].max(1));
                let (s0, own) = own.split_last().unwrap();
                for s in own {{ let _ = step!(g, s, env); point(b'B'); }}
                let e = step!(g, s0, env); for s in rest {{ point(b'B'); let _ = step!(e, s, env); }} }}""")
        C.append(f"            {i} => {{ {call_code(m)} }}")
    metas = ",\n    ".join(meta_code(m) for m in meths)
    nl = "\n"
    mc = f"fn mod_checkpoint(&self) {{ {modchk} }}" if modchk else ""
    return f"""
pub mod {ident} {{
use super::rt::*; use mockall::*;
{decl}
static METAS: &[Meta] = &[{metas}];
pub struct Ty;
impl FnType for Ty {{
    fn name(&self) -> &'static str {{ "{label or ident}" }}
    fn metas(&self) -> &'static [Meta] {{ METAS }}
    fn ctx(&self) -> Box<dyn Ctx> {{
        let c = {mkctx};
        Box::new(CtxF(move |q: Option<(usize, &[Step], &mut Env)>| match q {{
            None => c.checkpoint(),
            Some((m, cfg, env)) => match m {{
{nl.join(E)}
            _ => unreachable!() }} }}))
    }}
    fn call(&self, m: usize, a: i64, w: i64) -> i64 {{ match m {{
{nl.join(C)}
        _ => unreachable!() }} }}
    {mc}
    fn module(&self) -> i64 {{ {module} }}
}}
}}
"""

HEAD = """#![allow(dead_code, unused_variables, unused_mut, unused_must_use, unused_imports, non_camel_case_types, unreachable_code, clippy::all, deprecated, unused_unsafe)]
#[path = "{rt}"] mod rt;
"""

# the mocks use the locks of harness/shim
SHIM = """extern crate shim as std;
"""
SHIM_MAIN = """    let _ = std::lockpoints::HOOK.set(rt::conc::lock_point);
    let _ = rt::conc::LOCKS.set(std::lockpoints::set);
"""
def main_rs(rt, mods, objs, fns, shim=False):
    o = ", ".join(f"&{x}::Ty" for x in objs)
    f = ", ".join(f"&{x}::Ty" for x in fns)
    return HEAD.format(rt=rt) + (SHIM if shim else "") + "\n".join(mods) + f"""
fn main() {{
{SHIM_MAIN if shim else ""}    let objs: &[&dyn rt::ObjType] = &[{o}];
    let fns: &[&dyn rt::FnType] = &[{f}];
    rt::main_with(objs, fns);
}}
"""
