"""The mock types, methods and static functions that behaviours are replayed on."""
from rustgen import *

U = val("u32")
def meth(name, args, ret, struct, fn, kind="val", tb="", tr=None, tags="", no=(), cname=None, tick="{r}", exp_tb=None):
    """ordinary method: o.fn(args), o.expect_fn()"""
    etb = tb if exp_tb is None else exp_tb
    call = f"{{o}}.{fn}{tb}({{args}})" if not tr else f"{tr}::{fn}{tb}(&{'mut ' if kind == 'mut' else ''}{{o}}, {{args}})"
    return Meth(name, args, ret, kind, expect=f"{{o}}.expect_{fn}{etb}()", call=call,
                fname=f"{struct}::{fn}", cname=cname, tags=tags, no=no, tick=tick)
def sfn(name, args, ret, path, fname, cname, tb="", etb=None, tags="", no=(), tick="{r}", ctx="{o}"):
    return Meth(name, args, ret, "val", expect=f"{ctx}.expect{tb if etb is None else etb}()",
                call=f"{path}{tb}({{args}})", fname=fname, cname=cname, tags=tags, no=no, tick=tick)

class Reg:
    def __init__(self):
        self.mods, self.objs, self.fns, self.shared = {}, [], [], {}
    def O(self, ident, ty, decl, meths, **k):
        self.mods[ident] = objtype(ident, ty, decl, meths, **k); self.objs.append(ident)
    def F(self, ident, *a, **k):
        self.mods[ident] = fntype(ident, *a, **k); self.fns.append(ident)
    def S(self, ident, text):
        self.mods[ident] = f"pub mod {ident} {{ use super::rt::*; use mockall::*;\n{text}\n}}\n"
    def emit(self, rt, objs=None, fns=None, shim=False):
        objs = self.objs if objs is None else objs
        fns = self.fns if fns is None else fns
        keep = [m for k, m in self.mods.items() if k in objs or k in fns or k not in self.objs + self.fns]
        return main_rs(rt, keep, objs, fns, shim)

DBG = "std::fmt::Debug"

def r_full(R):
    R.O("full", "MockFull", """
        pub trait Ta { fn ma(&self, x: u32) -> u32; fn ra(&self, x: u32) -> &u32; fn wa(&mut self, x: u32) -> &mut u32; }
        pub trait Tb { fn ga<T: 'static + std::fmt::Debug>(&self, x: T) -> u32; fn sb(x: u32) -> u32; }
        pub trait Tc<Z> { fn mc(&self, x: Z) -> u32; }
        mock! { pub Full {
            fn v(&self, x: u32) -> u32;
            fn r(&self, x: u32) -> &u32;
            fn w(&mut self, x: u32) -> &mut u32;
            fn vm(&mut self, x: u32) -> u32;
            fn st(x: u32) -> u32;
            fn g<T: 'static + std::fmt::Debug>(&self, x: T) -> u32;
            fn gr<T: 'static + std::fmt::Debug + Send + Sync>(&self, x: T) -> &u32;
            fn gw<T: 'static + std::fmt::Debug + Send + Sync>(&mut self, x: T) -> &mut u32;
          }
          impl Ta for Full { fn ma(&self, x: u32) -> u32; fn ra(&self, x: u32) -> &u32; fn wa(&mut self, x: u32) -> &mut u32; }
          impl Tb for Full { fn ga<T: 'static + std::fmt::Debug>(&self, x: T) -> u32; fn sb(x: u32) -> u32; }
          impl Tc<u8> for Full { fn mc(&self, x: u8) -> u32; }
        }""", [
        meth("v", [U], rv("u32"), "MockFull", "v", tags="preds std core"),
        meth("r", [U], rref("u32"), "MockFull", "r", "ref", tags="preds std core"),
        meth("w", [U], rmut("u32"), "MockFull", "w", "mut", tags="preds std core"),
        meth("vm", [U], rv("u32"), "MockFull", "vm", tags="preds std"),
        meth("g<u32>", [U], rv("u32"), "MockFull", "g", tb="::<u32>", tags="preds std gen core"),
        meth("g<i32>", [val("i32")], rv("u32"), "MockFull", "g", tb="::<i32>", tags="preds gen"),
        meth("gr<u32>", [U], rref("u32"), "MockFull", "gr", "ref", tb="::<u32>", tags="preds std gen"),
        meth("gr<u16>", [val("u16")], rref("u32"), "MockFull", "gr", "ref", tb="::<u16>", tags="preds gen"),
        meth("gw<u32>", [U], rmut("u32"), "MockFull", "gw", "mut", tb="::<u32>", tags="preds std gen"),
        meth("gw<u8>", [val("u8")], rmut("u32"), "MockFull", "gw", "mut", tb="::<u8>", tags="preds gen"),
        meth("Ta::ma", [U], rv("u32"), "MockFull", "ma", tr="Ta", tags="preds std core"),
        meth("Ta::ra", [U], rref("u32"), "MockFull", "ra", "ref", tr="Ta", tags="preds std"),
        meth("Ta::wa", [U], rmut("u32"), "MockFull", "wa", "mut", tr="Ta", tags="preds std"),
        meth("Tb::ga<u32>", [U], rv("u32"), "MockFull", "ga", tr="Tb", tb="::<u32>", tags="preds gen std"),
        meth("Tb::ga<u64>", [val("u64")], rv("u32"), "MockFull", "ga", tr="Tb", tb="::<u64>", tags="preds gen"),
        meth("Tc<u8>::mc", [val("u8")], rv("u32"), "MockFull", "mc", tr="<MockFull as Tc<u8>>" if False else "Tc", tags="preds std core"),
        ])

def r_mixed(R):
    """traits whose first or last methods are static, in every mixture"""
    R.O("mixed", "MockMix", """
        pub trait Sfirst { fn sa(x: u32) -> u32; fn ma(&self, x: u32) -> u32; }
        pub trait Slast { fn mb(&self, x: u32) -> &u32; fn sb(x: u32) -> u32; }
        pub trait Sonly { fn sc(x: u32) -> u32; }
        pub trait Smid<T: 'static> { fn md(&self, x: T) -> u32; fn sd(x: u32) -> u32; fn gd<Z: 'static + std::fmt::Debug>(&self, x: Z) -> u32; }
        mock! { pub Mix {
            fn s0(x: u32) -> u32;
            fn v(&self, x: u32) -> u32;
            fn s1<T: 'static + Send>(x: T) -> u32;
          }
          impl Sfirst for Mix { fn sa(x: u32) -> u32; fn ma(&self, x: u32) -> u32; }
          impl Sonly for Mix { fn sc(x: u32) -> u32; }
          impl Slast for Mix { fn mb(&self, x: u32) -> &u32; fn sb(x: u32) -> u32; }
          impl Smid<u32> for Mix { fn md(&self, x: u32) -> u32; fn sd(x: u32) -> u32; fn gd<Z: 'static + std::fmt::Debug>(&self, x: Z) -> u32; }
        }""", [
        meth("v", [U], rv("u32"), "MockMix", "v", tags="preds std"),
        meth("Sfirst::ma", [U], rv("u32"), "MockMix", "ma", tr="Sfirst", tags="preds std core"),
        meth("Slast::mb", [U], rref("u32"), "MockMix", "mb", "ref", tr="Slast", tags="preds std core"),
        meth("Smid::md", [U], rv("u32"), "MockMix", "md", tr="Smid", tags="preds std"),
        meth("Smid::gd<u32>", [U], rv("u32"), "MockMix", "gd", tr="Smid", exp_tb="::<u32>", tags="preds gen core"),
        meth("Smid::gd<u64>", [val("u64")], rv("u32"), "MockMix", "gd", tr="Smid", exp_tb="::<u64>", tags="preds gen"),
        ])
    R.O("mixauto", "MockMxa", """
        #[automock] pub trait Mxa { fn s(x: u32) -> u32; fn v(&self, x: u32) -> u32; fn t<T: 'static + Send>(x: T) -> u32; fn w(&mut self, x: u32) -> &mut u32; }""", [
        meth("v", [U], rv("u32"), "MockMxa", "v", tr="Mxa", tags="preds std core"),
        meth("w", [U], rmut("u32"), "MockMxa", "w", "mut", tr="Mxa", tags="preds std core"),
        ])

def r_gens(R):
    """methods with several type parameters: instantiations that differ in each of them"""
    G3 = "A: 'static + Send + Sync, B: 'static + Send + Sync, C: 'static + Send + Sync"
    def inst(fn, ts, kind="val", ret=None, **k):
        tb = "::<" + ", ".join(ts) + ">"
        return meth(fn + "<" + ",".join(ts) + ">", [U], ret or rv("u32"), "MockGens", fn, kind, tb=tb, tags="gen", **k)
    a, b = "u32", "u8"
    R.O("gens", "MockGens", f"""
        pub trait Tgn {{ fn t2<B: 'static, A: 'static>(&self, x: u32) -> u32; }}
        mock! {{ pub Gens {{
            fn g3<{G3}>(&self, x: u32) -> u32;
            fn r3<{G3}>(&self, x: u32) -> &u32;
            fn w3<{G3}>(&mut self, x: u32) -> &mut u32;
          }} impl Tgn for Gens {{ fn t2<B: 'static, A: 'static>(&self, x: u32) -> u32; }} }}""", [
        inst("g3", (a, a, a)), inst("g3", (b, a, a)), inst("g3", (a, b, a)), inst("g3", (a, a, b)),
        inst("r3", (a, a, a), "ref", rref("u32")), inst("r3", (a, b, a), "ref", rref("u32")),
        inst("w3", (a, a, a), "mut", rmut("u32")), inst("w3", (a, b, a), "mut", rmut("u32")),
        inst("t2", (a, b), tr="Tgn"), inst("t2", (b, a), tr="Tgn"),
        ])

    # types that have the same name
    fa, fb = "fn(&u8)", "fn(&'static u8)"
    R.O("gens2", "MockGn2", f"""
        mock! {{ pub Gn2 {{
            fn g<A: 'static>(&self, x: u32) -> u32;
            fn r<A: 'static>(&self, x: u32) -> &u32;
            fn w<A: 'static>(&mut self, x: u32) -> &mut u32;
            fn h<A: 'static, B: 'static>(&self, x: u32) -> u32;
          }} }}""",
        [meth(f"{fn}<{t}>", [U], r, "MockGn2", fn, k, tb=f"::<{t}>", tags="gen")
         for fn, k, r in (("g", "val", rv("u32")), ("r", "ref", rref("u32")), ("w", "mut", rmut("u32"))) for t in (fa, fb)]
        + [meth(f"h<{t},{u}>", [U], rv("u32"), "MockGn2", "h", tb=f"::<{t}, {u}>", tags="gen") for t, u in ((fa, fb), (fb, fa))])

def r_spec(R):
    """traits implemented for some of a generic struct's instantiations, and for several type arguments"""
    R.S("specm", """
        pub trait Bas { fn bm(&self, x: u32) -> u32; fn br(&self, x: u32) -> &u32; }
        pub trait Bat<Z> { fn bt(&self, x: Z) -> u32; fn bw(&mut self, x: u32) -> &mut Z; }
        pub trait Bau { fn bu(&self, x: u32) -> u32; }
        mock! { pub Spc<T: 'static, Q: 'static> {
            pub fn v(&self, x: u32) -> u32;
          }
          impl<Q: 'static> Bas for Spc<u32, Q> { fn bm(&self, x: u32) -> u32; fn br(&self, x: u32) -> &u32; }
          impl<Q: 'static> Bas for Spc<i64, Q> { fn bm(&self, x: u32) -> u32; fn br(&self, x: u32) -> &u32; }
          impl Bat<u32> for Spc<u32, u8> { fn bt(&self, x: u32) -> u32; fn bw(&mut self, x: u32) -> &mut u32; }
          impl Bat<i64> for Spc<i64, u8> { fn bt(&self, x: i64) -> u32; fn bw(&mut self, x: u32) -> &mut i64; }
          impl<T: 'static, Q: 'static> Bau for Spc<T, Q> { fn bu(&self, x: u32) -> u32; }
        }""")
    for t in ("u32", "i64"):
        M = "MockSpc"
        R.O("spec_" + t, f"MockSpc<{t}, u8>", "use super::specm::*;", [
            meth("v", [U], rv("u32"), M, "v", tags="preds std core"),
            meth("bm", [U], rv("u32"), M, "bm", tr="Bas", tags="preds std core"),
            meth("br", [U], rref("u32"), M, "br", "ref", tr="Bas", tags="preds std"),
            meth("bt", [val(t)], rv("u32"), M, "bt", tr="Bat", tags="preds std core"),
            meth("bw", [U], rmut(t), M, "bw", "mut", tr="Bat", tags="preds std"),
            meth("bu", [U], rv("u32"), M, "bu", tr="Bau", tags="preds std"),
            ], make2=f"<MockSpc<{t}, u8> as Default>::default()")

def r_both(R):
    """types with both methods and static functions"""
    n = [0]
    def both(ident, ty, decl, meths, fns, **k):
        R.O(ident, ty, decl, meths, module=n[0], **k)
        for f, (ctx, m) in fns.items():
            R.F(f"{ident}_{f}", f"use super::{ident}::*;", "", ctx, m, module=n[0])
        n[0] += 1
    M = "MockBth"
    both("both", M, """
        pub trait Tbo { fn ts(x: u32) -> u32; fn tm(&self, x: u32) -> u32; }
        mock! { pub Bth {
            pub fn sa(x: u32) -> u32;
            pub fn v(&self, x: u32) -> u32;
            pub fn sg<T: 'static + Send>(x: T) -> u32;
            pub fn r(&self, x: u32) -> &u32;
            pub fn w(&mut self, x: u32) -> &mut u32;
            pub fn g<T: 'static + std::fmt::Debug>(&self, x: T) -> u32;
          } impl Tbo for Bth { fn ts(x: u32) -> u32; fn tm(&self, x: u32) -> u32; } }""", [
        meth("v", [U], rv("u32"), M, "v", tags="mix"),
        meth("r", [U], rref("u32"), M, "r", "ref", tags="mix"),
        meth("w", [U], rmut("u32"), M, "w", "mut", tags="mix"),
        meth("g<u32>", [U], rv("u32"), M, "g", tb="::<u32>", tags="mix"),
        meth("tm", [U], rv("u32"), M, "tm", tr="Tbo", tags="mix"),
        ], dict(
        sa=(f"{M}::sa_context()", [sfn("sa", [U], rv("u32"), f"{M}::sa", f"{M}::sa", f"{M}::sa", tags="mix")]),
        sg=(f"{M}::sg_context()", [sfn("sg<u32>", [U], rv("u32"), f"{M}::sg", f"{M}::sg", f"{M}::sg", tb="::<u32>", tags="mix")]),
        ts=(f"{M}::ts_context()", [sfn("ts", [U], rv("u32"), f"<{M} as Tbo>::ts", f"{M}::ts", f"{M}::ts", tags="mix")])))
    both("bothauto", "MockBta", """
        pub struct Bta { z: u32 }
        #[automock] impl Bta { pub fn v(&self, x: u32) -> u32 { self.z + x } pub fn sa(x: u32) -> u32 { x } pub fn n(&self, x: u32) -> u32 { x } }""", [
        meth("v", [U], rv("u32"), "MockBta", "v", tags="mix"), meth("n", [U], rv("u32"), "MockBta", "n", tags="mix")], dict(
        sa=("MockBta::sa_context()", [sfn("sa", [U], rv("u32"), "MockBta::sa", "MockBta::sa", "MockBta::sa", tags="mix")])))
    both("bothgen", "MockBtg<u32>", """
        mock! { pub Btg<T: 'static + Send> { pub fn v(&self, x: T) -> u32; pub fn sa(x: T) -> u32; pub fn n(&self, x: u32) -> u32; } }""", [
        meth("v", [val("u32", dbg=False)], rv("u32"), "MockBtg", "v", tags="mix"), meth("n", [U], rv("u32"), "MockBtg", "n", tags="mix")], dict(
        sa=("MockBtg::<u32>::sa_context()", [sfn("sa", [val("u32", dbg=False)], rv("u32"), "MockBtg::<u32>::sa", "MockBtg::sa", "MockBtg::sa", tags="mix")])),
        make2="<MockBtg<u32> as Default>::default()")

def r_touchy(R):
    """arguments whose Debug can panic, results whose Clone can"""
    R.O("touchy", "MockTou", """
        pub trait Tto { fn tt(&self, x: &Touchy) -> u64; }
        mock! { pub Tou {
            fn v(&self, x: Touchy) -> u32;
            fn b(&mut self, x: &Touchy) -> String;
            fn g<T: 'static + std::fmt::Debug>(&self, x: T) -> u32;
            fn c(&self, x: u32) -> Touchy;
            fn o(&self, x: Option<Touchy>) -> i64;
          } impl Tto for Tou { fn tt(&self, x: &Touchy) -> u64; } }""", [
        meth("v", [val("Touchy")], rv("u32"), "MockTou", "v", tags="touchy tclone"),
        meth("b", [ref("Touchy")], rv("String"), "MockTou", "b", tags="touchy tclone"),
        meth("g<Touchy>", [val("Touchy")], rv("u32"), "MockTou", "g", tb="::<Touchy>", tags="touchy tclone"),
        meth("tt", [ref("Touchy")], rv("u64"), "MockTou", "tt", tr="Tto", tags="touchy tclone"),
        meth("c", [U], rv("Touchy"), "MockTou", "c", tags="tclone"),
        ])
    R.O("touchyauto", "MockTox", """
        #[automock] pub trait Tox { fn v(&self, x: Touchy, y: &str) -> u32; fn w(&self, x: &Touchy) -> u32; }""", [
        meth("w", [ref("Touchy")], rv("u32"), "MockTox", "w", tr="Tox", tags="touchy tclone")])

def r_autotrait(R):
    R.O("autotrait", "MockAt", """
        #[automock(type Key=u16; type Val=String;)]
        pub trait At {
            type Key: Clone; type Val;
            fn v(&self, x: u32) -> u32;
            fn s(&self, x: &str) -> String;
            fn as_(&self, x: Self::Key) -> Option<Self::Val>;
            fn as2(&self, x: &<Self as At>::Key, y: u8) -> u32;
            fn r(&self, x: &str) -> &str;
            fn w(&mut self, x: u8) -> &mut Vec<u32>;
            fn g<T: 'static + std::fmt::Debug + PartialEq>(&self, x: T) -> u64;
            fn unit(&self, x: u32);
            fn bx(&self, x: Box<u32>) -> Box<dyn Num>;
            fn prov(&self, x: u32) -> u32 { 0 }
        }""", [
        meth("v", [U], rv("u32"), "MockAt", "v", tr="At", tags="preds std core"),
        meth("s", [STR], rv("String"), "MockAt", "s", tr="At", tags="std"),
        meth("as_", [val("u16")], rv("Option<String>"), "MockAt", "as_", tr="At", tags="std"),
        meth("as2", [ref("u16"), val("u8")], rv("u32"), "MockAt", "as2", tr="At", tags="std multi"),
        meth("r", [STR], Ret("String", dec="dec_str({x})"), "MockAt", "r", "ref", tr="At", tags="std core"),
        meth("w", [val("u8")], rmut("Vec<u32>"), "MockAt", "w", "mut", tr="At", tags="std core"),
        meth("g<u32>", [U], rv("u64"), "MockAt", "g", tr="At", tb="::<u32>", tags="gen std"),
        meth("g<String>", [val("String")], rv("u64"), "MockAt", "g", tr="At", tb="::<String>", tags="gen"),
        meth("bx", [val("Box<u32>")], Ret("Box<dyn Num>", enc="({{ let q = {d}; Box::new(q as u32) as Box<dyn Num> }})", dec="{x}.num()", clone=False), "MockAt", "bx", tr="At", tags="std"),
        meth("prov", [U], rv("u32"), "MockAt", "prov", tr="At", tags="std"),
        ])

def r_autostruct(R):
    R.O("autostruct", "MockAs", """
        pub struct As { _z: u32 }
        #[automock]
        impl As {
            pub fn v(&self, x: u32) -> u32 { self._z + x }
            pub fn p(&self, x: &std::path::Path, y: bool) -> Result<u32, String> { Err(format!("{x:?}{y}")) }
            pub fn r(&self, _x: u32) -> &[u32] { &[] }
            pub fn w(&mut self, _x: u32) -> &mut u32 { &mut self._z }
            pub fn g<T: 'static>(&self, _x: T) -> u32 { 0 }
            pub async fn af(&self, x: u32) -> u32 { x }
            pub fn it(&self, _x: u32) -> impl Iterator<Item = u32> + Send { vec![].into_iter() }
            fn private(&self, x: u32) -> u32 { x }
            pub fn call_private(&self, x: u32) -> u32 { self.private(x) }
        }""", [
        meth("v", [U], rv("u32"), "MockAs", "v", tags="preds std core"),
        meth("p", [PATH, boolarg(1)], rv("Result<u32, String>"), "MockAs", "p", tags="std multi"),
        meth("r", [U], Ret("Vec<u32>", dec="dec_slice({x})"), "MockAs", "r", "ref", tags="std core"),
        meth("w", [U], rmut("u32"), "MockAs", "w", "mut", tags="std core"),
        meth("g<Opaque>", [val("Opaque", eq=False, dbg=False)], rv("u32"), "MockAs", "g", tb="::<Opaque>", tags="gen std"),
        meth("g<u32>", [val("u32", dbg=False)], rv("u32"), "MockAs", "g", tb="::<u32>", tags="gen"),
        meth("af", [U], rv("u32"), "MockAs", "af", tags="std", tick="block_on({r})"),
        meth("it", [U], Ret("Box<dyn Iterator<Item = u32> + Send>", enc="Box::new(vec![{d} as u32].into_iter()) as Box<dyn Iterator<Item = u32> + Send>", dec="{{ let mut q = {x}; q.next().unwrap() as i64 }}", clone=False), "MockAs", "it", tags="std"),
        meth("private", [U], rv("u32"), "MockAs", "private", tags="std"),
        ])

def r_genstruct(R):
    decl = """
        pub trait Tg<A> { fn tm(&self, x: A) -> A; fn trf(&self, x: u32) -> &A; }
        mock! { pub Gs<T: 'static + std::fmt::Debug + Clone, Q: 'static + Clone = u8> {
            fn v(&self, x: T) -> u32;
            fn q(&self, x: T, y: Q) -> u32;
            fn r(&self, x: u32) -> &T;
            fn w(&mut self, x: u32) -> &mut T;
            fn g<Z: 'static + std::fmt::Debug>(&self, x: T, z: Z) -> u32;
            fn ret(&self, x: u32) -> T;
          }
          impl<T: 'static + std::fmt::Debug + Clone, Q: 'static + Clone> Tg<T> for Gs<T, Q> { fn tm(&self, x: T) -> T; fn trf(&self, x: u32) -> &T; }
        }"""
    R.O("genstruct", "MockGs<u32, u16>", decl, [
        meth("v", [U], rv("u32"), "MockGs", "v", tags="preds std core"),
        meth("q", [U, val("u16", dbg=False)], rv("u32"), "MockGs", "q", tags="std multi"),
        meth("r", [U], rref("u32"), "MockGs", "r", "ref", tags="preds std"),
        meth("w", [U], rmut("u32"), "MockGs", "w", "mut", tags="preds std"),
        meth("g<u32>", [U, U], rv("u32"), "MockGs", "g", tb="::<u32>", tags="gen std multi"),
        meth("g<u64>", [U, val("u64")], rv("u32"), "MockGs", "g", tb="::<u64>", tags="gen multi"),
        meth("ret", [U], rv("u32"), "MockGs", "ret", tags="preds std"),
        meth("tm", [U], rv("u32"), "MockGs", "tm", tr="Tg", tags="preds std core"),
        meth("trf", [U], rref("u32"), "MockGs", "trf", "ref", tr="Tg", tags="preds std"),
        ], make2="<MockGs<u32, u16> as Default>::default()")

def r_args(R):
    """0 to 12 arguments, of many types"""
    def many(n):
        return ", ".join(f"a{i}: u32" for i in range(n))
    decl = "use std::path::Path; mock! { pub Args {\n" + "\n".join(
        f"fn n{n}(&self{', ' if n else ''}{many(n)}) -> u32;" for n in (0, 2, *range(3, 13))) + """
        fn mix(&self, a: u32, b: &str, c: String, d: &[u32], e: &mut u32) -> u32;
        fn opq(&self, a: Opaque, b: &Opaque, c: NoDbg) -> u32;
        fn tup(&self, a: (u8, u8), b: Option<String>, c: [u16; 2]) -> u32;
        fn path(&self, a: &Path, b: &std::path::PathBuf, c: char) -> u32;
        fn rm(&mut self, a: &mut String, b: &u32) -> &mut u32;
        fn rr(&self, a: u8, b: &str, c: bool) -> &u32;
        fn r9(&self, a: u32, b: &u32, c: u32, d: &str, e: u64, f: i64, g: &u16, h: String, i: u32) -> &u32;
        fn m10(&mut self, a: u32, b: &u32, c: u32, d: &str, e: u64, f: i64, g: &u16, h: String, i: u32, j: &mut u32) -> &mut String;
        fn g11<Q: 'static>(&self, a: u32, b: Q, c: u32, d: &str, e: u64, f: i64, g: &u16, h: String, i: u32, j: &mut u32, k: Q) -> u32;
        fn clos<F: Fn(u32) -> u32 + Send + 'static>(&self, a: u32, f: F) -> u32;
    } }"""
    wide = [U, ref("u32"), U, STR, val("u64"), val("i64"), ref("u16"), val("String")]
    L = [meth(f"n{n}", [U] * n, rv("u32"), "MockArgs", f"n{n}", tags=("std multi many" if n else "noarg special")) for n in (0, 2, *range(3, 13))]
    L += [
        meth("mix", [U, STR, val("String"), slice_("u32"), refmut("u32")], rv("u32"), "MockArgs", "mix", tags="std multi many"),
        meth("opq", [val("Opaque", eq=False, dbg=False), ref("Opaque", eq=False, dbg=False), val("NoDbg", eq=False, dbg=False)], rv("u32"), "MockArgs", "opq", tags="std multi many"),
        meth("tup", [val("(u8, u8)"), val("Option<String>"), val("[u16; 2]")], rv("u32"), "MockArgs", "tup", tags="std multi many"),
        meth("path", [PATH, ref("std::path::PathBuf"), val("char")], rv("u32"), "MockArgs", "path", tags="std multi many"),
        meth("rm", [refmut("String"), ref("u32")], rmut("u32"), "MockArgs", "rm", "mut", tags="std multi many"),
        meth("rr", [val("u8"), STR, boolarg(2)], rref("u32"), "MockArgs", "rr", "ref", tags="std multi many"),
        meth("r9", wide + [U], rref("u32"), "MockArgs", "r9", "ref", tags="std multi many"),
        meth("m10", wide + [U, refmut("u32")], rmut("String"), "MockArgs", "m10", "mut", tags="std multi many"),
        meth("g11<u64>", [U, val("u64", dbg=False)] + wide[2:] + [U, refmut("u32"), val("u64", dbg=False)], rv("u32"), "MockArgs", "g11", tb="::<u64>", tags="std multi many"),
    ]
    R.O("args", "MockArgs", decl, L)

def r_refs(R):
    decl = """
        use std::path::Path; use std::ffi::OsStr;
        pub trait Rt { fn tr(&self, x: u32) -> &str; fn tm(&mut self, x: u32) -> &mut String; }
        mock! { pub Refs<T: 'static + Send + Sync> {
            fn st(&self, x: u32) -> &str;
            fn sl(&self, x: u32) -> &[u32];
            fn pa(&self, x: u32) -> &Path;
            fn os(&self, x: u32) -> &OsStr;
            fn dy(&self, x: u32) -> &dyn Num;
            fn ge(&self, x: u32) -> &T;
            fn op(&self, x: u32) -> &Option<String>;
            fn gen<Q: 'static + Send + Sync>(&self, x: u32) -> &Q;
            fn ms(&mut self, x: u32) -> &mut String;
            fn mv(&mut self, x: u32) -> &mut [u32];
            fn md(&mut self, x: u32) -> &mut dyn Num;
            fn mg(&mut self, x: u32) -> &mut T;
            fn mgen<Q: 'static + Send + Sync>(&mut self, x: u32) -> &mut Q;
            fn ss(&self, x: u32) -> &'static str;
        }
        impl<T: 'static + Send + Sync> Rt for Refs<T> { fn tr(&self, x: u32) -> &str; fn tm(&mut self, x: u32) -> &mut String; }
        }"""
    dynret = lambda k: Ret("Box<dyn Num>", dec="{x}.num()", wr="{x}.put({d});" if k else None)
    R.O("refs", "MockRefs<u32>", decl, [
        meth("st", [U], Ret("String", dec="dec_str({x})"), "MockRefs", "st", "ref", tags="preds std"),
        meth("sl", [U], Ret("Vec<u32>", dec="dec_slice({x})"), "MockRefs", "sl", "ref", tags="preds std"),
        meth("pa", [U], Ret("std::path::PathBuf", dec="dec_str({x}.to_str().unwrap())"), "MockRefs", "pa", "ref", tags="preds std"),
        meth("os", [U], Ret("std::ffi::OsString", dec="dec_str({x}.to_str().unwrap())"), "MockRefs", "os", "ref", tags="preds std"),
        meth("ge", [U], rref("u32"), "MockRefs", "ge", "ref", tags="preds std"),
        meth("op", [U], rref("Option<String>"), "MockRefs", "op", "ref", tags="preds std"),
        meth("gen<u32>", [U], rref("u32"), "MockRefs", "gen", "ref", tb="::<u32>", tags="preds std gen"),
        meth("gen<String>", [U], rref("String"), "MockRefs", "gen", "ref", tb="::<String>", tags="preds gen"),
        meth("ms", [U], rmut("String"), "MockRefs", "ms", "mut", tags="preds std"),
        meth("mv", [U], Ret("Vec<u32>", dec="dec_slice(&*{x})", wr="{x}[0] = {d} as u32;"), "MockRefs", "mv", "mut", tags="preds std"),
        meth("mg", [U], rmut("u32"), "MockRefs", "mg", "mut", tags="preds std"),
        meth("mgen<u32>", [U], rmut("u32"), "MockRefs", "mgen", "mut", tb="::<u32>", tags="preds std gen"),
        meth("mgen<u64>", [U], rmut("u64"), "MockRefs", "mgen", "mut", tb="::<u64>", tags="preds gen"),
        meth("ss", [U], rv("&'static str"), "MockRefs", "ss", tags="preds std"),
        meth("tr", [U], Ret("String", dec="dec_str({x})"), "MockRefs", "tr", "ref", tr="Rt", tags="preds std"),
        meth("tm", [U], rmut("String"), "MockRefs", "tm", "mut", tr="Rt", tags="preds std"),
        meth("dy", [U], dynret(0), "MockRefs", "dy", "ref", tags="preds std"),
        meth("md", [U], dynret(1), "MockRefs", "md", "mut", tags="preds std"),
        ], make2="<MockRefs<u32> as Default>::default()")


def r_static(R):
    """static functions of every origin"""
    R.F("s_struct", """
        mock! { pub Ss { fn sf(x: u32) -> u32; fn v(&self, x: u32) -> u32; } }""",
        "", "MockSs::sf_context()",
        [sfn("sf", [U], rv("u32"), "MockSs::sf", "MockSs::sf", "MockSs::sf", tags="preds std core")])
    R.F("s_trait", """
        #[automock] pub trait Stt { fn sf(x: u32, y: &str) -> String; fn o(&self) -> u32; }""",
        "", "MockStt::sf_context()",
        [sfn("sf", [U, STR], rv("String"), "<MockStt as Stt>::sf", "MockStt::sf", "MockStt::sf", tags="std multi")])
    R.F("s_new", """
        pub struct Nw { i: u32 }
        #[automock] impl Nw { pub fn make(x: u32) -> Self { Nw { i: x } } pub fn id(&self) -> i64 { self.i as i64 } }""",
        "", "MockNw::make_context()",
        [sfn("make", [U], Ret("MockNw", enc="{{ let q = {d}; let mut m = MockNw::default(); m.expect_id().return_const(q); m }}",
             dec="{x}.id()", clone=False), "MockNw::make", "MockNw::make", "MockNw::make", tags="preds std")])
    R.F("s_impl", """
        pub trait Bar2 { fn tb(x: u32) -> u32; fn tg<T: 'static + std::fmt::Debug + Send>(x: T) -> u32; }
        mock! { pub Sm { fn q(x: u32) -> u32; } impl Bar2 for Sm { fn tb(x: u32) -> u32; fn tg<T: 'static + std::fmt::Debug + Send>(x: T) -> u32; } }""",
        "", "MockSm::tb_context()",
        [sfn("tb", [U], rv("u32"), "<MockSm as Bar2>::tb", "MockSm::tb", "MockSm::tb", tags="preds std core")])
    R.F("s_gen", """
        mock! { pub Sg { fn sf<T: 'static + std::fmt::Debug + Send>(x: T) -> u32; } }""",
        "", "MockSg::sf_context()",
        [sfn("sf<u32>", [U], rv("u32"), "MockSg::sf", "MockSg::sf", "MockSg::sf", tb="::<u32>", tags="preds std core gen"),
         sfn("sf<i32>", [val("i32")], rv("u32"), "MockSg::sf", "MockSg::sf", "MockSg::sf", tb="::<i32>", tags="preds gen"),
         sfn("sf<String>", [val("String")], rv("u32"), "MockSg::sf", "MockSg::sf", "MockSg::sf", tb="::<String>", tags="gen")])
    R.F("s_genret", """
        pub fn dummy() {}
        #[automock] pub mod gr { pub fn mk<T: 'static + std::fmt::Debug, Q: 'static + Default>(x: T) -> Q { let _ = x; Q::default() } }""",
        "", "mock_gr::mk_context()",
        [sfn("mk<u32,u64>", [U], rv("u64"), "mock_gr::mk", "mk", "mk", tb="::<u32, u64>", tags="preds std gen"),
         sfn("mk<u32,String>", [U], rv("String"), "mock_gr::mk", "mk", "mk", tb="::<u32, String>", tags="preds gen")])
    ts = [("u32", "u32", "u32"), ("u8", "u32", "u32"), ("u32", "u8", "u32"), ("u32", "u32", "u8")]
    R.F("s_gen3", "mock! { pub Sg3 { fn sf<A: 'static + Send, B: 'static + Send, C: 'static + Send>(x: u32) -> u32; } }",
        "", "MockSg3::sf_context()",
        [sfn("sf<" + ",".join(t) + ">", [U], rv("u32"), "MockSg3::sf", "MockSg3::sf", "MockSg3::sf", tb="::<" + ", ".join(t) + ">", tags="gen") for t in ts])
    R.S("modg", """
        #[automock] pub mod mog {
            pub fn g<T: 'static + std::fmt::Debug>(x: T) -> u32 { let _ = x; 0 }
            pub fn h(x: u32) -> u32 { x }
            pub fn k<A: 'static, B: 'static>(x: u32) -> u32 { x }
        }""")
    mg = "super::modg::mock_mog"
    R.F("s_modg1", "", "", f"{mg}::g_context()",
        [sfn("g<u32>", [U], rv("u32"), f"{mg}::g", "g", "g", tb="::<u32>", tags="preds mod gen"),
         sfn("g<i32>", [val("i32")], rv("u32"), f"{mg}::g", "g", "g", tb="::<i32>", tags="gen")],
        modchk=mg + "::checkpoint()", module=2)
    R.F("s_modg2", "", "", f"{mg}::h_context()",
        [sfn("h", [U], rv("u32"), f"{mg}::h", "h", "h", tags="preds mod")], modchk=mg + "::checkpoint()", module=2)
    R.F("s_modg3", "", "", f"{mg}::k_context()",
        [sfn("k<u32,u8>", [U], rv("u32"), f"{mg}::k", "k", "k", tb="::<u32, u8>", tags="preds mod gen"),
         sfn("k<u8,u32>", [U], rv("u32"), f"{mg}::k", "k", "k", tb="::<u8, u32>", tags="gen")],
        modchk=mg + "::checkpoint()", module=2)
    R.F("s_genstruct", """
        mock! { pub Gst<T: 'static + std::fmt::Debug + Send> { fn sf(x: T) -> u32; } }""",
        "", "MockGst::<u32>::sf_context()",
        [sfn("sf", [U], rv("u32"), "MockGst::<u32>::sf", "MockGst::sf", "MockGst::sf", tags="preds std core", no=())])
    R.F("s_genstruct2", """
        mock! { pub Gsu<T: 'static + std::fmt::Debug + Send> { pub fn sf(x: T) -> u32; pub fn sg<Q: 'static + std::fmt::Debug + Send>(x: T, y: Q) -> u32; } }
        pub struct Two<A, B>(pub A, pub B, pub fn(&A));
        impl<A, B> Two<A, B> { pub fn checkpoint(&self) { (self.2)(&self.0) } }""",
        "", "Two(MockGsu::<u32>::sf_context(), MockGsu::<u16>::sf_context(), |c| c.checkpoint())",
        [sfn("sf@u32", [U], rv("u32"), "MockGsu::<u32>::sf", "MockGsu::sf", "MockGsu::sf", tags="gen", ctx="{o}.0"),
         sfn("sf@u16", [val("u16")], rv("u32"), "MockGsu::<u16>::sf", "MockGsu::sf", "MockGsu::sf", tags="gen", ctx="{o}.1")])
    R.F("s_genstruct3", "use super::s_genstruct2::*;",
        "", "Two(MockGsu::<u32>::sg_context(), MockGsu::<u16>::sg_context(), |c| c.checkpoint())",
        [sfn(f"sg@{a},{b}", [val(a), val(b)], rv("u32"), f"MockGsu::<{a}>::sg", "MockGsu::sg", "MockGsu::sg", tb=f"::<{b}>", tags="gen", ctx="{o}." + ("0" if a == "u32" else "1")) for a, b in
         (("u32", "u32"), ("u16", "u32"), ("u32", "u16"), ("u16", "u16"))])
    R.S("modm", """
        #[automock] pub mod mo {
            use super::*;
            pub fn f1(x: u32) -> u32 { x }
            pub fn f2(x: u32) -> u32 { x }
            pub fn f3(x: &str, y: Opaque, z: &mut u32) -> &'static str { "" }
            pub async fn f4(x: u32) -> u32 { x }
        }""")
    mk = "super::modm::mock_mo"
    mchk = mk + "::checkpoint()"
    for n in (1, 2):
        R.F(f"s_mod{n}", "", "", f"{mk}::f{n}_context()",
            [sfn(f"f{n}", [U], rv("u32"), f"{mk}::f{n}", f"f{n}", f"f{n}", tags="preds std core mod")],
            modchk=mchk, module=1)
    R.F("s_mod3", "", "", f"{mk}::f3_context()",
        [sfn("f3", [STR, val("Opaque", eq=False, dbg=False), refmut("u32")], rv("&'static str"), f"{mk}::f3", "f3", "f3", tags="std multi mod")],
        modchk=mchk, module=1)
    R.F("s_mod4", "", "", f"{mk}::f4_context()",
        [sfn("f4", [U], rv("u32"), f"{mk}::f4", "f4", "f4", tags="preds std", tick="block_on({r})")],
        modchk=mchk, module=1)
    R.F("s_ffi", """
        #[automock] pub mod ffi { extern "C" { pub fn ffi1(x: u32) -> i64; } }""",
        "", "mock_ffi::ffi1_context()",
        [sfn("ffi1", [U], rv("i64"), "mock_ffi::ffi1", "ffi1", "ffi1", tags="preds std", tick="unsafe {{ {r} }}")])
    for n in (4, 7, 12):
        R.F(f"s_args{n}", f"mock! {{ pub Sa{n} {{ fn sf({', '.join(f'a{i}: u32' for i in range(n))}) -> u32; }} }}", "", f"MockSa{n}::sf_context()",
            [sfn("sf", [U] * n, rv("u32"), f"MockSa{n}::sf", f"MockSa{n}::sf", f"MockSa{n}::sf", tags="std multi")])
    R.F("s_args", "mock! { pub Sa { fn sf(a: u32, b: u8, c: &u16, d: String, e: i64) -> Option<u32>; } }",
        "", "MockSa::sf_context()",
        [sfn("sf", [U, val("u8"), ref("u16"), val("String"), val("i64")], rv("Option<u32>"), "MockSa::sf", "MockSa::sf", "MockSa::sf", tags="std multi")])
    R.F("s_impltrait", """
        mock! { pub Si { fn sf(x: u32) -> impl Iterator<Item = u32> + Send; } }""",
        "", "MockSi::sf_context()",
        [sfn("sf", [U], Ret("Box<dyn Iterator<Item = u32> + Send>", enc="Box::new(vec![{d} as u32].into_iter()) as Box<dyn Iterator<Item = u32> + Send>",
            dec="{{ let mut q = {x}; q.next().unwrap() as i64 }}", clone=False), "MockSi::sf", "MockSi::sf", "MockSi::sf", tags="preds std")])

def r_conc(R):
    """mocks that several threads share"""
    R.O("conc", "MockConc", """
        pub trait Tcn: Send + Sync { fn t(&self, x: u32) -> u32; fn tr(&self, x: u32) -> &u32; }
        mock! { pub Conc {
            fn v(&self, x: u32) -> u32;
            fn v2(&self, x: u32, y: &str) -> String;
            fn r(&self, x: u32) -> &u32;
            fn g<T: 'static + std::fmt::Debug>(&self, x: T) -> u64;
          }
          impl Tcn for Conc { fn t(&self, x: u32) -> u32; fn tr(&self, x: u32) -> &u32; }
        }""", [
        meth("v", [U], rv("u32"), "MockConc", "v", tags="conc"),
        meth("v2", [U, STR], rv("String"), "MockConc", "v2", tags="conc"),
        meth("r", [U], rref("u32"), "MockConc", "r", "ref", tags="conc"),
        meth("g<u32>", [U], rv("u64"), "MockConc", "g", tb="::<u32>", tags="conc"),
        meth("g<u16>", [val("u16")], rv("u64"), "MockConc", "g", tb="::<u16>", tags="conc"),
        meth("Tcn::t", [U], rv("u32"), "MockConc", "t", tr="Tcn", tags="conc"),
        meth("Tcn::tr", [U], rref("u32"), "MockConc", "tr", "ref", tr="Tcn", tags="conc"),
        ])
    R.O("concauto", "MockCau", """
        #[automock] pub trait Cau { fn v(&self, x: u32) -> u32; fn w(&self, x: u32, y: u8) -> u32; }""", [
        meth("v", [U], rv("u32"), "MockCau", "v", tr="Cau", tags="conc"),
        meth("w", [U, val("u8")], rv("u32"), "MockCau", "w", tr="Cau", tags="conc"),
        ])
    R.F("cs_struct", "mock! { pub Css { fn sf(x: u32) -> u32; } }", "", "MockCss::sf_context()",
        [sfn("sf", [U], rv("u32"), "MockCss::sf", "MockCss::sf", "MockCss::sf", tags="conc")])
    R.F("cs_mod", "#[automock] pub mod cm { pub fn f(x: u32, y: &str) -> u32 { x } }", "", "mock_cm::f_context()",
        [sfn("f", [U, STR], rv("u32"), "mock_cm::f", "f", "f", tags="conc")])
    R.F("cs_gen", "#[automock] pub mod cg { pub fn f<T: 'static + std::fmt::Debug>(x: T) -> u32 { let _ = x; 0 } }", "", "mock_cg::f_context()",
        [sfn("f<u32>", [U], rv("u32"), "mock_cg::f", "f", "f", tb="::<u32>", tags="conc"),
         sfn("f<u16>", [val("u16")], rv("u32"), "mock_cg::f", "f", "f", tb="::<u16>", tags="conc")])

def r_conz(R):
    """concretized generic methods"""
    no = ("with", "eqp")
    B = "mockall::concretize"
    def lk(form, bound="Look", types=LOOKERS): return [cz(form, t, bound) for t in types]
    def alts(first, *rest):
        """lists of arguments, one per type"""
        k = max(len(first), *[len(r) for r in rest]) if rest else len(first)
        cols = [first] + list(rest)
        return [[c[i % len(c)] for c in cols] for i in range(k)]
    def cm(name, cols, ret, struct, kind="val", tr=None, tags="std", **k):
        ls = alts(*cols)
        m = meth(name, ls[0], ret, struct, name, kind, tr=tr, tags=tags, no=no, **k)
        m.alts = ls[1:]
        return m
    def csf(name, cols, ret, path, fname, tags="std", etb=None, **k):
        ls = alts(*cols)
        m = sfn(name, ls[0], ret, path, fname, fname, tags=tags, no=no, **k)
        m.alts = ls[1:]
        return m
    paths = lambda form: [czpath(form, t) for t in PATHY]
    R.O("conz", "MockConz", f"""
        pub trait Ctr {{
            #[{B}] fn ta<T: Look>(&self, x: T) -> u32;
            #[{B}] fn tr<T: Look>(&self, x: &T) -> &u32;
        }}
        mock! {{ pub Conz {{
            #[{B}] fn a<T: Look>(&self, x: T) -> u32;
            #[{B}] fn b<T>(&self, x: &T) -> u32 where T: Look;
            #[{B}] pub fn c<T: Look>(&mut self, x: &mut T) -> u32;
            #[{B}] fn d<T: Look>(&self, x: &[T]) -> u32;
            #[{B}] fn e<T: Look + Send>(&self, x: T) -> String;
            #[{B}] fn f<P: AsRef<std::path::Path>>(&self, x: P) -> u32;
            #[{B}] fn g<P>(&self, x: &[P]) -> u32 where P: AsRef<std::path::Path>;
            #[{B}] fn r<T: Look>(&self, x: T) -> &u32;
            #[{B}] fn w<T: Look>(&mut self, x: &T) -> &mut u32;
            #[{B}] fn m2<T: Look>(&self, x: u32, y: T) -> u32;
            #[{B}] fn m3<T: Look, P: AsRef<std::path::Path>>(&self, x: &mut T, y: P, z: &str) -> u32;
            #[{B}] fn m4<T, S: Look>(&self, x: &[S], y: &T, z: T, q: u8) -> u32 where T: Look;
            #[{B}] fn m5<T, P>(&self, x: T, y: &P) -> u32 where T: Look, P: AsRef<std::path::Path>;
            #[{B}] fn m6<A, P, S>(&self, x: &A, y: P, z: &[S]) -> u32 where S: Look, P: AsRef<std::path::Path>, A: Look + Send;
            #[{B}] fn two<T: Look>(&self, x: &T, y: &T) -> u32;
            fn plain(&self, x: u32) -> u32;
          }}
          impl Ctr for Conz {{
            #[{B}] fn ta<T: Look>(&self, x: T) -> u32;
            #[{B}] fn tr<T: Look>(&self, x: &T) -> &u32;
          }}
        }}""", [
        cm("a", [lk("T")], rv("u32"), "MockConz", tags="std core"),
        cm("b", [lk("&T")], rv("u32"), "MockConz", tags="std core"),
        cm("c", [lk("&mut T")], rv("u32"), "MockConz"),
        cm("d", [lk("&[T]")], rv("u32"), "MockConz"),
        cm("e", [lk("T", "Look + Send", LOOKERS[:3])], rv("String"), "MockConz"),
        cm("f", [paths("T")], rv("u32"), "MockConz"),
        cm("g", [paths("&[T]")], rv("u32"), "MockConz"),
        cm("r", [lk("T")], rref("u32"), "MockConz", "ref", tags="std core"),
        cm("w", [lk("&T")], rmut("u32"), "MockConz", "mut"),
        cm("m2", [[U], lk("T")], rv("u32"), "MockConz", tags="std multi core"),
        cm("m3", [lk("&mut T"), paths("T"), [STR]], rv("u32"), "MockConz", tags="std multi"),
        cm("m4", [lk("&[T]"), lk("&T"), lk("T"), [val("u8")]], rv("u32"), "MockConz", tags="std multi"),
        cm("m5", [lk("T"), paths("&T")], rv("u32"), "MockConz", tags="std multi"),
        cm("m6", [lk("&T", "Look + Send", LOOKERS[:3]), paths("T"), lk("&[T]")], rv("u32"), "MockConz", tags="std multi"),
        cm("two", [lk("&T"), lk("&T")], rv("u32"), "MockConz", tags="std multi two"),
        cm("ta", [lk("T")], rv("u32"), "MockConz", tr="Ctr", tags="std core"),
        cm("tr", [lk("&T")], rref("u32"), "MockConz", "ref", tr="Ctr"),
        ])
    R.O("conzauto", "MockCza", """
        #[automock] pub trait Cza {
            #[concretize] fn a<T: Look>(&self, x: T) -> u32;
            #[cfg_attr(all(), mockall::concretize)] fn b<P: AsRef<std::path::Path>>(&self, x: &P) -> String;
            #[mockall::concretize] fn c<T>(&mut self, x: &mut T) -> u32 where T: Look;
        }""", [
        cm("a", [lk("T")], rv("u32"), "MockCza", tr="Cza", tags="std core"),
        cm("b", [paths("&T")], rv("String"), "MockCza", tr="Cza", tags="std core"),
        meth("c", [cz("&mut T", "String")], rv("u32"), "MockCza", "c", "val", tags="std", no=no) if False else
        Meth("c", [cz("&mut T", "String")], rv("u32"), "val", expect="{o}.expect_c()", call="Cza::c(&mut {o}, {args})", fname="MockCza::c", tags="std", no=no),
        ])
    R.O("conzstruct", "MockCzs", """
        pub struct Czs;
        #[automock] impl Czs {
            #[concretize] pub fn f<F: Fn(u32) -> u32>(&self, f: F) -> u32 { f(1) }
            #[concretize] pub fn g<F: FnMut(u32) -> u32, T: Look>(&self, x: T, mut f: F) -> u32 { f(1) }
            #[concretize] pub fn k<F>(&self, x: u32, mut f: F) -> u32 where F: FnMut(u32) -> u32 + Send { f(x) }
            #[concretize] pub fn n<T, F>(&self, x: &T, mut f: F) -> u32 where T: Look, F: FnMut(u32) -> u32 + Send { f(1) }
            #[concretize] pub fn o<F: Fn(u32) -> u32 + Send + Sync>(&self, f: &F) -> u32 { f(1) }
            #[concretize] pub fn h<T: Look, F: FnMut(u32) -> u32>(&self, x: &T, y: u8, mut f: F) -> u32 { f(1) }
        }""", [
        meth("f", [czfn()], rv("u32"), "MockCzs", "f", tags="std core", no=no),
        cm("g", [lk("T"), [czfn(True)]], rv("u32"), "MockCzs", tags="std core"),
        cm("k", [[U], [czfn(True, " + Send")]], rv("u32"), "MockCzs", tags="std"),
        cm("n", [lk("&T"), [czfn(True, " + Send")]], rv("u32"), "MockCzs", tags="std"),
        meth("o", [czfn(False, " + Send + Sync", "&{v}")], rv("u32"), "MockCzs", "o", tags="std", no=no),
        cm("h", [lk("&T"), [val("u8")], [czfn(True)]], rv("u32"), "MockCzs", tags="std multi"),
        ])
    R.F("cz_struct", f"mock! {{ pub Czt {{ #[{B}] fn sf<T: Look>(x: T) -> u32; }} }}", "", "MockCzt::sf_context()",
        [csf("sf", [lk("T")], rv("u32"), "MockCzt::sf", "MockCzt::sf", tags="std core")])
    R.F("cz_mod", f"#[automock] pub mod czm {{ use super::*; #[{B}] pub fn f<T: Look>(x: &T, y: u8) -> u32 {{ 0 }} }}", "", "mock_czm::f_context()",
        [csf("f", [lk("&T"), [val("u8")]], rv("u32"), "mock_czm::f", "f", tags="std multi core")])
    R.F("cz_trait", f"#[automock] pub trait Czq {{ #[{B}] fn f<P>(x: P) -> u32 where P: AsRef<std::path::Path>; }}", "", "MockCzq::f_context()",
        [csf("f", [paths("T")], rv("u32"), "<MockCzq as Czq>::f", "MockCzq::f", tags="std core")])

def r_dflt(R):
    """return types with (hd) and without (nd) a default value"""
    hd = dict(a="u32", b="String", c="Def", d="Vec<u32>", e="Option<u32>", f="Box<u32>")
    nd = dict(p="NoDefault", q="Opaque", r="Result<u32, String>")
    decl = "".join(f"fn v{k}(&self, x: u32) -> {t}; fn r{k}(&self, x: u32) -> &{t}; fn w{k}(&mut self, x: u32) -> &mut {t};\n"
                   for k, t in {**hd, **nd}.items())
    L = []
    for k, t in {**hd, **nd}.items():
        g = "hd" if k in hd else "nd"
        clone = t != "Opaque"
        L += [meth(f"v{k}", [U], Ret(t, clone=clone), "MockDf", f"v{k}", tags=g),
              meth(f"r{k}", [U], rref(t), "MockDf", f"r{k}", "ref", tags=g),
              meth(f"w{k}", [U], rmut(t), "MockDf", f"w{k}", "mut", tags=g)]
    R.O("df", "MockDf", f"""
        use std::path::Path;
        pub trait Dft {{ fn tv(&self, x: u32) -> u64; fn tn(&self, x: u32) -> NoDefault; fn tr(&self, x: &str) -> &Def; fn tnr(&self, x: u8) -> &NoDefault; }}
        mock! {{ pub Df {{ {decl}
            fn g<T: 'static>(&self, x: u32) -> T;
            fn gr<T: 'static + Send + Sync>(&self, x: u32) -> &T;
            fn gm<T: 'static + Send + Sync>(&mut self, x: u32) -> &mut T;
            fn st(&self, x: u32) -> &str; fn sl(&self, x: u32) -> &[u32]; fn ss(&self, x: u32) -> &'static str;
            fn pa(&self, x: u32) -> &Path; fn ms(&mut self, x: u32) -> &mut String;
            fn dy(&self, x: u32) -> &dyn Num; fn dm(&mut self, x: u32) -> &mut dyn Num;
            fn bx(&self, x: u32) -> Box<dyn Num>;
        }} impl Dft for Df {{ fn tv(&self, x: u32) -> u64; fn tn(&self, x: u32) -> NoDefault; fn tr(&self, x: &str) -> &Def; fn tnr(&self, x: u8) -> &NoDefault; }} }}""", L + [
        meth("g<Def>", [U], rv("Def"), "MockDf", "g", tb="::<Def>", tags="hd"),
        meth("g<NoDefault>", [U], rv("NoDefault"), "MockDf", "g", tb="::<NoDefault>", tags="nd"),
        meth("gr<Def>", [U], rref("Def"), "MockDf", "gr", "ref", tb="::<Def>", tags="hd"),
        meth("gr<NoDefault>", [U], rref("NoDefault"), "MockDf", "gr", "ref", tb="::<NoDefault>", tags="nd"),
        meth("gm<String>", [U], rmut("String"), "MockDf", "gm", "mut", tb="::<String>", tags="hd"),
        meth("gm<NoDefault>", [U], rmut("NoDefault"), "MockDf", "gm", "mut", tb="::<NoDefault>", tags="nd"),
        meth("st", [U], Ret("String", dec="dec_str({x})"), "MockDf", "st", "ref", tags="hd"),
        meth("sl", [U], Ret("Vec<u32>", dec="dec_slice({x})"), "MockDf", "sl", "ref", tags="hd"),
        meth("pa", [U], Ret("std::path::PathBuf", dec="dec_str({x}.to_str().unwrap())"), "MockDf", "pa", "ref", tags="hd"),
        meth("ss", [U], rv("&'static str"), "MockDf", "ss", tags="hd"),
        meth("ms", [U], rmut("String"), "MockDf", "ms", "mut", tags="hd"),
        meth("dy", [U], Ret("Box<dyn Num>", dec="{x}.num()"), "MockDf", "dy", "ref", tags="nd"),
        meth("dm", [U], Ret("Box<dyn Num>", dec="{x}.num()", wr="{x}.put({d});"), "MockDf", "dm", "mut", tags="nd"),
        meth("bx", [U], Ret("Box<dyn Num>", enc="({{ let q = {d}; Box::new(q as u32) as Box<dyn Num> }})", dec="{x}.num()", clone=False), "MockDf", "bx", tags="nd"),
        meth("tv", [U], rv("u64"), "MockDf", "tv", tr="Dft", tags="hd"),
        meth("tn", [U], rv("NoDefault"), "MockDf", "tn", tr="Dft", tags="nd"),
        meth("tr", [STR], rref("Def"), "MockDf", "tr", "ref", tr="Dft", tags="hd"),
        meth("tnr", [val("u8")], rref("NoDefault"), "MockDf", "tnr", "ref", tr="Dft", tags="nd"),
        ])
    for ident, t, g in (("dgd", "Def", "hd"), ("dgn", "NoDefault", "nd")):
        R.O(ident, f"MockDg<{t}>", """
            #[automock] pub trait Dg<T: 'static> { fn v(&self, x: u32) -> T; fn r(&self, x: u32) -> &T; fn w(&mut self, x: u32) -> &mut T; fn o(&self) -> Option<T>; }""", [
            meth("v", [U], rv(t), "MockDg", "v", tr="Dg", tags=g),
            meth("r", [U], rref(t), "MockDg", "r", "ref", tr="Dg", tags=g),
            meth("w", [U], rmut(t), "MockDg", "w", "mut", tr="Dg", tags=g)], make2=f"<MockDg<{t}> as Default>::default()")
    R.O("das", "MockDas", """
        #[automock] pub trait Das { type O; async fn af(&self, x: u32) -> Def; fn imp(&self, x: u32) -> impl std::fmt::Debug + Send; fn slf(&self, x: &u32) -> u32; }
        """.replace("type O; ", "").replace("fn imp(&self, x: u32) -> impl std::fmt::Debug + Send; ", ""), [
        meth("af", [U], rv("Def"), "MockDas", "af", tr="Das", tags="hd", tick="block_on({r})"),
        meth("slf", [ref("u32")], rv("u32"), "MockDas", "slf", tr="Das", tags="hd")])
    for n, t, g in (("sfh", "Def", "hd"), ("sfn", "NoDefault", "nd"), ("sfs", "String", "hd")):
        R.F(n, f"mock! {{ pub M{n} {{ fn sf(x: u32) -> {t}; }} }}", "", f"MockM{n}::sf_context()",
            [sfn("sf", [U], rv(t), f"MockM{n}::sf", f"MockM{n}::sf", f"MockM{n}::sf", tags=g)])
    R.F("smh", "#[automock] pub mod smh { use super::*; pub fn f<T: 'static>(x: u32) -> T { todo!() } pub fn e(x: u32) -> Option<NoDefault> { None } }", "", "mock_smh::f_context()",
        [sfn("f<Def>", [U], rv("Def"), "mock_smh::f", "f", "f", tb="::<Def>", tags="hd"),
         sfn("f<NoDefault>", [U], rv("NoDefault"), "mock_smh::f", "f", "f", tb="::<NoDefault>", tags="nd")])

def build():
    R = Reg()
    for f in (r_full, r_autotrait, r_autostruct, r_genstruct, r_args, r_refs, r_static, r_conc, r_conz, r_dflt):
        f(R)
    return R

if __name__ == "__main__":
    import sys
    R = build()
    open(sys.argv[1], "w").write(R.emit("/verif/harness/rt/rt.rs"))
