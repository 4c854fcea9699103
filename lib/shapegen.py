"""Rust code for the shapes of spec/Shapes.tla: declarations of the items to be
mocked, and drivers that use the mocks through the interface the specification
derives (closure argument types, predicate types, owned return types)."""
import json, re, zlib
from rustgen import *
from runner import *

RUST = {"u32": "u32", "u64": "u64", "u16": "u16", "i64": "i64", "char": "char", "bool": "bool", "String": "String",
        "Opaque": "Opaque", "Cnt": "Cnt", "NotSend": "NotSend", "sstr": "&'static str", "str": "str", "Path": "Path",
        "OsStr": "OsStr", "CStr": "CStr", "PathBuf": "std::path::PathBuf", "OsString": "std::ffi::OsString",
        "CString": "std::ffi::CString", "dynNum": "dyn Num", "dynNum2": "(dyn Num + Send)", "boxdyn2": "Box<dyn Num + Send>", "boxdyn": "Box<dyn Num>", "fnptr": "fn(u32) -> u32",
        "Lend": "Hold<'_>", "Lendlt": "Hold<'a>", "Heldany": "Hold<'_>", "Heldlt": "Hold<'a>", "Heldstatic": "Hold<'static>",
        "sdyn": "&'static dyn Num", "impliter": "impl Iterator<Item = u32> + Send",
        "boxiter": "Box<dyn Iterator<Item = u32> + Send>", "implfut": "impl std::future::Future<Output = u32> + Send",
        "boxfut": "std::pin::Pin<Box<dyn std::future::Future<Output = u32> + Send>>", "boxfn": "Box<dyn Fn(u32) -> u32 + Send>",
        "none": "()", "Self": "Self", "Key": "Self::Key", "G": "G", "T": "T", "T2": "T2",
        "boxFn": "Box<dyn Fn(u32) -> u32>", "boxFnMut": "Box<dyn FnMut(u32) -> u32>", "boxFnOnce": "Box<dyn FnOnce(u32) -> u32>",
        "Fn": "F", "FnMut": "F", "FnOnce": "F", "FnSup": "F", "FnSend": "F", "FnMore": "F",
        "boxFnSend": "Box<dyn Fn(u32) -> u32 + Send>", "boxFnMore": "Box<dyn Fn(u32) -> u32 + Send + Sync>",
        "implstream": "impl crate::rt::Stream<Item = u32> + Send", "boxstream": "std::pin::Pin<Box<dyn crate::rt::Stream<Item = u32> + Send>>",
        "implmulti": "impl crate::rt::Num + Send + Sync", "boxmulti": "Box<dyn crate::rt::Num + Send + Sync>",
        "Twoany": "Lend2<'_, '_>", "Twostatic": "Lend2<'static, 'static>"}
WRAP = {"Vec": "Vec<{}>", "Option": "Option<{}>", "Box": "Box<{}>", "Rc": "std::rc::Rc<{}>", "Arc": "std::sync::Arc<{}>",
        "tup": "({}, u8)", "arr": "[{}; 2]", "Result": "Result<{}, String>", "ref": "&{}", "refmut": "&mut {}", "slice": "[{}]",
        "reflt": "&'a {}", "reflt2": "&'b {}",
        "tup2": "(u8, {})", "tup3": "(u8, u8, {})", "res2": "Result<String, {}>", "ptr": "*const {}", "paren": "({})",
        "fnin": "fn({}) -> u32", "fnin2": "fn(u32, {}) -> u32", "fnout": "fn(u32) -> {}", "dynin": "Box<dyn Fn({}) -> u32>",
        "dynin2": "Box<dyn Fn(u32, {}) -> u32>", "dynout": "Box<dyn Fn(u32) -> {}>", "dynassoc": "Box<dyn Iterator<Item = {}>>",
        "dynsrc": "Box<dyn crate::rt::Src<{}>>"}
NESTS = {"tup2", "tup3", "res2", "ptr", "paren", "fnin", "fnin2", "fnout", "dynin", "dynin2", "dynout", "dynassoc", "dynsrc"}
CONSUMING = {"own": "o", "ownmut": "o", "box": "Box::new(o)", "rc": "std::rc::Rc::new(o)", "arc": "std::sync::Arc::new(o)",
             "pinbox": "Box::pin(o)"}
BORROWING = {"ref": "&self.0", "mut": "&mut self.0", "selfref": "&self.0", "selfmut": "&mut self.0", "reflt": "&self.0",
             "pinmut": "std::pin::Pin::new(&mut self.0)", "pinref": "std::pin::Pin::new(&self.0)"}
RECV = {"ref": "&self", "mut": "&mut self", "selfref": "self: &Self", "selfmut": "self: &mut Self", "reflt": "&'a self",
        "pinmut": "self: std::pin::Pin<&mut Self>", "pinref": "self: std::pin::Pin<&Self>", "own": "self", "ownmut": "mut self",
        "box": "self: Box<Self>", "rc": "self: std::rc::Rc<Self>", "arc": "self: std::sync::Arc<Self>",
        "pinbox": "self: std::pin::Pin<Box<Self>>"}
GENERIC = {"mg", "mi", "ag", "ax"}
TRAITS = {"mt", "mi", "at", "ai", "ag"}
AUTO = {"at", "as", "ai", "ag", "ax", "mod"}

def lst(t):
    """type from JSON"""
    return tuple(lst(x) if isinstance(x, list) else x for x in t)

class Ctx:
    """Where names of types lead, seen from the declaration and from the driver"""
    def __init__(self, k, cont, trait=""):
        self.k, self.cont, self.trait = k, cont, trait
        up = "super::" if cont == "mod" else ""
        root = f"crate::{k}"
        self.decl = {"SupT": f"{up}super::SupT", "Sup2T": f"{up}super::super::Sup2T", "CrateT": f"{root}::CrateT",
                     "SelfT": f"{up or 'self::'}SelfT", "PrivT": "PrivT", "MutexT": "Mutex", "RangeT": "Range", "memT": "mem::Item", "QKey": f"<Self as {trait}>::Key",
                     "dynSup": f"dyn {up}super::SupTr", "boxdynSup": f"Box<dyn {up}super::SupTr>",
                     "fnptrSup": f"fn({up}super::SupT) -> u32"}
        r = f"{root}::mid"
        self.abs = {"SupT": f"{r}::SupT", "Sup2T": f"{root}::Sup2T", "CrateT": f"{root}::CrateT", "SelfT": f"{r}::inner::SelfT",
                    "PrivT": f"{r}::inner::PrivT", "MutexT": f"{r}::inner::Mutex", "RangeT": f"{r}::inner::Range", "memT": f"{r}::inner::mem::Item", "dynSup": f"dyn {r}::SupTr", "boxdynSup": f"Box<dyn {r}::SupTr>",
                    "fnptrSup": f"fn({r}::SupT) -> u32", "boxFnSup": f"Box<dyn Fn({r}::SupT) -> u32>"}
    def rust(self, t, where="decl", paren=False):
        if len(t) == 1:
            n = t[0]
            m = getattr(self, where)
            if n == "Mock": return self.mock
            s = m.get(n) or RUST[n]
            return f"({s})" if paren and s.startswith("dyn") else s
        return WRAP[t[0]].format(self.rust(t[1], where, paren=where != "decl" and t[0] in ("ref", "refmut")))

fresh = [0]
def enc(c, t, d):
    """(statements, expression) that make a value of (resolved) type t for the
    value d; references are to variables that the statements declare"""
    h = t[0]
    if len(t) == 2:
        if h in ("ref", "refmut"):
            fresh[0] += 1
            v = f"o{fresh[0]}"
            m = "mut " if h == "refmut" else ""
            u = t[1]
            if u[0] == "str": return f"let {v}: String = Tok::enc({d});", f"{v}.as_str()"
            if u[0] == "Path": return f"let {v}: std::path::PathBuf = Tok::enc({d});", f"{v}.as_path()"
            if u[0] == "OsStr": return f"let {v}: std::ffi::OsString = Tok::enc({d});", f"{v}.as_os_str()"
            if u[0] == "CStr": return f"let {v}: std::ffi::CString = Tok::enc({d});", f"{v}.as_c_str()"
            if u[0] == "dynNum": return f"let mut {v}: u32 = Tok::enc({d});", f"(&{m}{v} as &{m}dyn Num)"
            if u[0] == "dynNum2": return f"let mut {v}: u32 = Tok::enc({d});", f"(&{m}{v} as &{m}(dyn Num + Send))"
            if u[0] == "dynSup": return f"let mut {v} = {c.abs['SupT']}({d});", f"&{m}{v}"
            if u[0] == "slice":
                p, e = enc(c, ("Vec", u[1]), d)
                return f"{p} let mut {v} = {e};", f"&{m}{v}[..]"
            p, e = enc(c, u, d)
            return f"{p} let mut {v} = {e};", f"&{m}{v}"
        if h in NESTS: return enc_nest(c, t, d)
        p, e = enc(c, t[1], d)
        two = lambda f: ((lambda q: (p + " " + q[0], f(e, q[1])))(enc(c, t[1], "7")))
        if h == "Vec": return two(lambda a, b: f"vec![{a}, {b}]")
        if h == "arr": return two(lambda a, b: f"[{a}, {b}]")
        return p, {"Option": "Some({})", "Box": "Box::new({})", "Rc": "std::rc::Rc::new({})", "Arc": "std::sync::Arc::new({})",
                   "tup": "({}, 7u8)", "Result": "Ok({})"}[h].format(e)
    if h == "bool": raise KeyError("bool")
    if h == "boxdyn": return "", f"(Box::new(({d}) as u32) as Box<dyn Num>)"
    if h == "boxdyn2": return "", f"(Box::new(({d}) as u32) as {RUST['boxdyn2']})"
    if h == "boxdynSup": return "", f"(Box::new({c.abs['SupT']}({d})) as {c.abs['boxdynSup']})"
    if h == "sdyn": return "", f"(Box::leak(Box::new(({d}) as u32)) as &'static dyn Num)"
    if h == "fnptr": return "", f"FNP[({d}) as usize]"
    if h == "fnptrSup": return "", f"{{ fn q(x: {c.abs['SupT']}) -> u32 {{ x.0 as u32 + 1 }} let _ = {d}; q as {c.abs['fnptrSup']} }}"
    if h in ("Lend",):
        fresh[0] += 1
        v = f"o{fresh[0]}"
        return f"let {v}: u32 = Tok::enc({d});", f"Hold(&{v})"
    if h == "Heldstatic": return "", f"Hold(Box::leak(Box::new(({d}) as u32)))"
    if h == "boxiter": return "", f"(Box::new(vec![({d}) as u32].into_iter()) as {RUST['boxiter']})"
    if h == "boxfut": return "", f"(Box::pin(std::future::ready(({d}) as u32)) as {RUST['boxfut']})"
    if h == "boxstream": return "", f"(Box::pin(crate::rt::OneStream(({d}) as u32)) as {RUST['boxstream']})"
    if h == "boxmulti": return "", f"(Box::new(({d}) as u32) as {RUST['boxmulti']})"
    if h == "Twostatic": return "", f"Lend2(Box::leak(Box::new(({d}) as u32)), &3)"
    if h == "boxfn": return "", f"{{ let q = {d}; Box::new(move |y: u32| q as u32 + y) as {RUST['boxfn']} }}"
    if h in ("boxFn", "boxFnMut", "boxFnOnce", "boxFnSend", "boxFnMore"): return "", f"{{ let q = {d}; move |y: u32| q as u32 + y }}"
    if h == "boxFnSup": return "", f"{{ let q = {d}; move |y: {c.abs['SupT']}| (q + y.0) as u32 }}"
    if h == "none": return "", f"set_last({d})"
    if h == "Mock": return "", f"{{ let mut mk = <{c.mock} as Default>::default(); mk.expect_tag().return_const(({d}) as u32); mk }}"
    return "", f"<{c.rust(t, 'abs')} as Tok>::enc({d})"

def enc_nest(c, t, d):
    h, u, ty = t[0], t[1], c.rust(t, "abs")
    uty = c.rust(u, "abs")
    def lazily(d):                      # evaluated in a closure
        if u[0] == "ref": return f"&*Box::leak(Box::new({enc(c, u[1], d)[1]}))"
        p, e = enc(c, u, d)
        return f"{{ {p} {e} }}" if p else e
    if h in ("fnin", "fnin2", "fnout"):
        return "", {"fnin": f"{{ fn q(y: {uty}) -> u32 {{ {dec(c, u, '(&y)')} as u32 + 1 }} q as {ty} }}",
                    "fnin2": f"{{ fn q(x: u32, y: {uty}) -> u32 {{ {dec(c, u, '(&y)')} as u32 + x }} q as {ty} }}",
                    "fnout": f"{{ fn q(y: u32) -> {uty} {{ {lazily('(y as i64 + 1)')} }} q as {ty} }}"}[h]
    if h in ("dynin", "dynin2", "dynout", "dynassoc", "dynsrc"):
        return "", f"{{ let q: i64 = {d}; " + {
            "dynin": f"Box::new(move |y: {uty}| (q + {dec(c, u, '(&y)')}) as u32)",
            "dynin2": f"Box::new(move |x: u32, y: {uty}| (q + x as i64 + {dec(c, u, '(&y)')}) as u32)",
            "dynout": f"Box::new(move |y: u32| {lazily('(q + y as i64)')})",
            "dynassoc": f"Box::new(vec![{lazily('q')}].into_iter())",
            "dynsrc": f"Box::new(crate::rt::SrcOf(move || {lazily('q')}))"}[h] + f" as {ty} }}"
    if h == "ptr" and u[0] != "ref": return "", f"(Box::into_raw(Box::new({lazily(d)})) as {ty})"
    p, e = enc(c, u, d)
    return p, {"tup2": "(7u8, {})", "tup3": "(7u8, 7u8, {})", "res2": "Err({})", "ptr": "(&{} as *const _)", "paren": "({})"}[h].format(e)

def dec_nest(c, t, x):
    """dec, constructor by constructor; for what De does not know"""
    h = t[0]
    if h == "Mock": return f"({x}.{c.tagcall} as i64)"
    if len(t) == 1: return f"De::de({x})"
    u = t[1]
    five = lambda: enc_nest(c, ("ptr", u), "5i64")[1] if False else enc(c, u, "5i64")[1]
    if h in ("ref", "refmut", "Box", "Rc", "Arc"): return dec(c, u, f"(&**{x})")
    if h == "paren": return dec(c, u, x)
    if h == "ptr": return f"unsafe {{ {dec(c, u, f'(&**{x})')} }}"
    if h in ("Option", "Result", "res2"):
        return f"(match {x} {{ {dict(Option='Some', Result='Ok', res2='Err')[h]}(q) => {dec(c, u, 'q')}, _ => BAD }})"
    if h in ("tup", "tup2", "tup3"):
        k = "q.1" if h == "tup" else "q.0"
        return f"{{ let q = {x}; if {k} == 7 {{ {dec(c, u, dict(tup='(&q.0)', tup2='(&q.1)', tup3='(&q.2)')[h])} }} else {{ BAD }} }}"
    if h in ("Vec", "arr", "slice"):
        return f"{{ let q = &{x}[..]; if q.len() == 2 && {dec(c, u, '(&q[1])')} == 7 {{ {dec(c, u, '(&q[0])')} }} else {{ BAD }} }}"
    if h == "fnin": return f"({x}({five()}) as i64 - 6)"
    if h == "fnin2": return f"({x}(1, {five()}) as i64 - 6)"
    if h == "fnout": return f"({dec(c, u, f'(&{x}(5))')} - 6)"
    if h == "dynin": return f"({x}({five()}) as i64 - 5)"
    if h == "dynin2": return f"({x}(3, {five()}) as i64 - 8)"
    if h == "dynout": return f"({dec(c, u, f'(&{x}(5))')} - 5)"
    if h == "dynsrc": return dec(c, u, f"(&{x}.src())")
    raise KeyError(h)

def dect(c, t, tmpl):
    """dec as a template with {x}"""
    return dec(c, t, tmpl.replace("{x}", "@X@")).replace("{", "{{").replace("}", "}}").replace("@X@", "{x}")

def _any(t, names):
    return t[0] in names or len(t) == 2 and _any(t[1], names)

def dec(c, t, x):
    """i64 for the value of type t at place expression x (a `&t`)"""
    h = t[0]
    if _any(t, NESTS | {"Mock"}): return dec_nest(c, t, x)
    if h == "fnptrSup": return f"({x}({c.abs['SupT']}(5)) as i64 - 6)"
    if h in ("boxFnSend", "boxFnMore"): return f"({x}(5) as i64 - 5)"
    if h == "boxFnSup": return f"({x}({c.abs['SupT']}(5)) as i64 - 5)"
    return f"De::de({x})"
def _has(t, n):
    return t[0] == n or len(t) == 2 and _has(t[1], n)

HIDDEN = {"boxFnMut": "({x}(5) as i64 - 12)", "boxFnOnce": "({x}(5) as i64 - 12)"}

class ShArg(Arg):
    def __init__(self, c, decl, act, pred, j):
        self.c, self.t, self.act, self.pred_, self.j = c, decl, act, pred, j
        self.decl = c.rust(act, "abs")
        self.pty = c.rust(pred, "abs", paren=True)
        self.predty = self.pty
        self.hidden = act[0] in HIDDEN or act[0] in ("fnptrSup", "fnin", "fnin2", "fnout", "dynassoc")
        self.eq = None
        self.looks = ()
        self.show = '"?".to_string()'
        self.isref = act[0] in ("ref", "refmut")
        self.own = self.enc = self.pas = None
        if act == ("bool",):
            self.dref, self.dval = f"({10*j} + *{{x}} as i64)", f"({10*j} + {{x}} as i64)"
        elif self.hidden:
            self.dref, self.dval = "0", "{{ let mut q = {x}; let q = q.next().unwrap(); " + dect(c, act[1], "(&q)") + " - 7 }}" if act[0] == "dynassoc" else \
                dect(c, act, "(&{x})") if act[0] in ("fnin", "fnin2", "fnout") else HIDDEN.get(act[0], "({x}(" + c.abs.get("SupT", "") + "(5)) as i64 - 6)")
        else:
            self.dref = dect(c, pred, "{x}")
            self.dval = dect(c, act, "(&{x})")
            if self.isref:
                self.dref = f"{{{{ saw({j}, &*{{x}}); {self.dref} }}}}"
                self.dval = f"{{{{ saw({j}, &*{{x}}); {self.dval} }}}}"
    def poke(self, x):
        u = self.act[1]
        c = self.c
        if u[0] in ("dynNum", "dynNum2"): return f"{{ let q = De::de(&*{x}); {x}.put(q + 500); }}"
        if u[0] == "slice": return f"{{ let q = De::de(&{x}[0]); {x}[0] = Tok::enc(q + 500); }}"
        if u[0] == "Mock": return ""
        p, e = enc(c, u, "q + 500")
        return f"{{ let q = {dec(c, u, '(&*' + x + ')')}; *{x} = {e}; }}"
    def make(self, d):
        """statements, passed expression, check afterwards"""
        if self.act == ("bool",): return "", f"({d} != {10*self.j})", ""
        if self.act[0] == "dynassoc": d = "7i64"
        if self.act[0] in HIDDEN: return "", "move |y: u32| y + 7", ""
        p, e = enc(self.c, self.act, d)
        chk = ""
        if self.isref:
            v = f"o{fresh[0]}" if f"o{fresh[0]}" in e else None
            v = e.replace("(&mut ", "").replace("(&", "").lstrip("&").replace("mut ", "").split(" ")[0].split("[")[0].split(".")[0].strip("()")
            place = f"{v}[..]" if self.act[1][0] == "slice" else f"*{v}" if self.act[1][0] in ("str", "Path", "OsStr", "CStr") else v
            chk = f"saw_check({self.j}, &{place});"
            if self.act[0] == "refmut" and self.poke("x"):
                chk += f" poke_check({dec(self.c, self.act[1], '(&' + place + ')')}, {d});"
        return p, e, chk

class Container:
    """Up to a few dozen shapes declared in one trait, impl block or module"""
    def __init__(self, k, cont, shapes):
        self.k, self.cont, self.shapes = k, cont, shapes
        cap = "K" + k[1:]
        self.st = f"X{k}"                     # struct name
        self.tr = f"Tr{k}"                    # trait name
        mockof = {"ms": self.st, "mg": self.st, "mt": self.st, "mi": self.st, "as": self.st, "ax": self.st, "ai": self.st,
                  "at": self.tr, "ag": self.tr, "mod": ""}[cont]
        trname = self.tr + ("<G>" if cont == "ag" else "<u32>" if cont == "mi" else "")
        c = self.c = Ctx(k, cont, trname)
        c.mockname = f"Mock{mockof}"
        c.mock = c.mockname + ("<u32>" if cont in ("mg", "ag", "ax") else "")
        c.abstr = self.tr + ("<u32>" if cont in ("ag", "mi") else "")
        c.tagcall = "tag()"
    def name(self, i):
        for f in self.shapes[i]["flags"]:
            if f.startswith("name:"): return f[5:]
        return f"f_{self.k}_{i}"
    def flag(self, s, f):
        return f in s["flags"]
    def sig(self, i, body, tr):
        """declaration of shape i; body: text after the signature"""
        s, c = self.shapes[i], self.c
        g, wh = [], []
        gen = s["gen"]
        sup = "super::super::" if self.cont == "mod" else "super::"
        if gen in ("lt1", "ltself"): g.append("'a")
        if gen == "lt2": g += ["'a", "'b"]
        if gen == "ltbound": g += ["'a", "'b: 'a"]
        if gen == "ltwhere": g += ["'a", "'b"]; wh.append("'b: 'a")
        if gen in ("T", "T2"): g.append("T: 'static + std::fmt::Debug" + (" + Send + Sync" if s["kind"] in ("ref", "mut") else ""))
        if gen == "T2": g.append("T2: 'static")
        if gen == "Twhere": g.append("T"); wh.append("T: 'static + Send + Sync")
        if gen == "Twhere3": g.append("T"); wh += ["T: Sync", "T: std::fmt::Debug", "T: Clone", "T: 'static + Send"]
        if gen == "Tbound": g.append("T: Clone"); wh.append("T: 'static + Send + Sync")
        if gen == "Tuns": g.append("T: 'static + ?Sized")
        if gen == "Tsup": g.append(f"T: {sup}SupTr + 'static")
        if gen == "Tsupwhere": g.append("T"); wh.append(f"T: {sup}SupTr + 'static")
        if gen == "Tsupbound": g.append("T: 'static"); wh.append(f"{sup}SupT: {sup}SupRel<T>")
        if gen in ("F", "Fwhere"):
            f = s["args"][1][0]
            b = f"Fn({sup}SupT) -> u32 + 'static" if f == "FnSup" else "Fn(u32) -> u32 + Send + 'static" if f == "FnSend" else \
                "Fn(u32) -> u32 + Send + Sync + 'static" if f == "FnMore" else f"{f}(u32) -> u32 + 'static"
            if gen == "F": g.append(f"F: {b}")
            else: g.append("F"); wh.append(f"F: {b}")
        if self.flag(s, "wheresized"): wh.append("Self: Sized")
        recv = RECV.get(s["recv"])
        if recv and tr and not body.startswith("{"): recv = recv.replace("mut self", "self") if s["recv"] == "ownmut" else recv
        mut = "mut " if self.flag(s, "mutarg") and (body.startswith("{") or not tr) else ""
        args = ([recv] if recv else []) + [f"{mut}a{j}: {c.rust(lst(t))}" for j, t in enumerate(s["args"])]
        ret = "" if s["ret"] == ["none"] else f" -> {c.rust(lst(s['ret']))}"
        vis = ""
        for f in s["flags"]:
            if f.startswith("vis:"):
                vis = {"pub": "pub ", "pubcrate": "pub(crate) ", "pubsuper": "pub(super) ", "pubin": f"pub(in crate::{self.k}::mid) ", "pubinsup": f"pub(in {sup}super) ", "priv": ""}[f[4:]]
                break
        else:
            if self.cont in ("as", "ax", "mod", "ms", "mg"): vis = "pub "
        if self.cont in ("ms", "mg") and vis == "pub " and not any(f.startswith("vis:") for f in s["flags"]): vis = ""
        q = ("async " if self.flag(s, "async") else "") + ("unsafe " if self.flag(s, "unsafe") else "") + ('extern "C-unwind" ' if self.flag(s, "extern") else "")
        return (f"{vis}{q}fn {self.name(i)}{'<' + ', '.join(g) + '>' if g else ''}({', '.join(args)}){ret}"
                f"{' where ' + ', '.join(wh) if wh else ''}{body} // @{self.k}.{i}")
    def uses(self, *names):
        return any(_has(lst(t), n) for s in self.shapes for t in s["args"] + [s["ret"]] for n in names)
    def decl(self):
        n, un = self.cont, " { unimplemented!() }"
        N = range(len(self.shapes))
        decl = lambda tr=False: "\n".join(self.sig(i, " { unimplemented!() }" if self.flag(self.shapes[i], "default") and not tr == 2 else ";", bool(tr)) for i in N)
        body = lambda s: {"impliter": " { std::iter::empty() }", "implfut": " { std::future::ready(0) }", "implstream": " { crate::rt::OneStream(0) }", "implmulti": " { 0u32 }"}.get(s["ret"][0], un)
        impl = lambda tr=False: "\n".join(self.sig(i, body(self.shapes[i]), tr) for i in N)
        assoc = self.uses("Key", "QKey")
        at = "type Key: Clone + Send + Sync + std::fmt::Debug + 'static;" if assoc else ""
        ai = "type Key = u16;" if assoc else ""
        self_ = self.uses("Self")
        tg, tgi = ("fn tag(&self) -> u32;", "fn tag(&self) -> u32 { 0 }") if self_ else ("", "")
        GB = "G: 'static + Clone + Send + Sync + std::fmt::Debug"
        if any("supG" in s["flags"] for s in self.shapes): GB += " + super::SupTr"
        attr = "#[mockall::automock]"
        sup = ": Sized" if self_ else ""
        st, tr = self.st, self.tr
        fam = self.shapes[0]["fam"]
        at_ = {"atrait": "#[async_trait]", "atraitns": "#[async_trait(?Send)]"}.get(fam, "")
        return ("use async_trait::async_trait;\n" if at_ else "") + self.decl2(n, decl, impl, assoc, at, ai, tg, tgi, GB, attr, sup, st, tr, at_)
    def decl2(self, n, decl, impl, assoc, at, ai, tg, tgi, GB, attr, sup, st, tr, asy):
        if n == "ms": return f"mock! {{ pub {st} {{ {tg}\n{decl()}\n}} }}"
        if n == "mg": return f"mock! {{ pub {st}<{GB}> {{ {tg}\n{decl()}\n}} }}"
        if n == "mt": return f"{asy} pub trait {tr}{sup} {{ {at} {tg}\n{decl(1)}\n}}\nmock! {{ pub {st} {{}} {asy} impl {tr} for {st} {{ {ai} {tg}\n{decl()}\n}} }}"
        if n == "mi":
            # the trait's methods mention G, those of the mock its argument
            return (f"{asy} pub trait {tr}<{GB}>{sup} {{ {at} {tg}\n{decl(1)}\n}}\nmock! {{ pub {st} {{}} {asy} impl {tr}<u32> for {st} {{ {ai} {tg}\n"
                    + re.sub(r"\bG\b", "u32", decl()) + "\n} }")
        if n == "at":
            a = "#[mockall::automock(type Key = u16;)]" if assoc else attr
            return f"{a} {asy} pub trait {tr}{sup} {{ {at} {tg}\n{decl(1)}\n}}"
        if n == "ag":
            a = "#[mockall::automock(type Key = u16;)]" if assoc else attr
            return f"{a} {asy} pub trait {tr}<{GB}>{sup} {{ {at} {tg}\n{decl(1)}\n}}"
        if n == "as": return f"pub struct {st};\n{attr} impl {st} {{ {('pub ' + tgi) if tgi else ''}\n{impl()}\n}}"
        if n == "ax": return f"pub struct {st}<G>(G);\n{attr} impl<{GB}> {st}<G> {{ {('pub ' + tgi) if tgi else ''}\n{impl()}\n}}"
        if n == "ai": return f"{asy} pub trait {tr}{sup} {{ {at} {tg}\n{decl(1)}\n}}\npub struct {st};\n{attr} {asy} impl {tr} for {st} {{ {ai} {tgi}\n{impl()}\n}}"
        if n == "mod": return f"{attr} pub mod m {{ use super::*;\n{impl()}\n}}"
    def meth(self, i):
        s, c = self.shapes[i], self.c
        # hidden arguments carry no digit
        A, j = [], 0
        for t, a, p in zip(s["args"], s["act"], s["pred"]):
            x = ShArg(c, lst(t), lst(a), lst(p), j)
            A.append(x)
            if not x.hidden: j += 1
        owned = lst(s["owned"])
        p, e = enc(c, owned, "({d})")
        assert not p.strip(), (s, p)
        e = e.replace("{", "{{").replace("}", "}}").replace("({{d}})", "({d})")
        cl = {"T": "::<u64>", "Twhere": "::<u64>", "Twhere3": "::<u64>", "Tbound": "::<u64>", "T2": "::<u64, String>", "Tuns": "::<u64>",
              "Tsup": f"::<{c.abs['SupT']}>", "Tsupwhere": f"::<{c.abs['SupT']}>", "Tsupbound": "::<u64>"}.get(s["gen"], "")
        cty = lst(s["ret"])
        x = "{x}"
        if owned == ("none",): d = "take_last()"
        elif owned == ("boxiter",): d = "{{ let mut q = {x}; q.next().unwrap() as i64 }}"
        elif owned == ("boxfut",): d = "(block_on({x}) as i64)"
        elif owned == ("boxstream",): d = "{{ let q = {x}; crate::rt::first_of(q) as i64 }}"
        elif owned == ("boxmulti",): d = "{x}.num()"
        elif owned == ("boxfn",): d = "({x}(5) as i64 - 5)"
        elif owned[0] == "dynassoc": d = "{{ let mut q = {x}; let q = q.next().unwrap(); " + dect(c, owned[1], "(&q)") + " }}"
        else: d = dect(c, owned, "(&{x})")
        wr = None
        if s["kind"] == "mut":
            u = lst(s["ret"])[1]
            o = lst(s["owned"])
            wr = {"dynNum": "{x}.put({d});", "dynNum2": "{x}.put({d});", "slice": "{x}[0] = Tok::enc({d});"}.get(u[0])
            if not wr:
                p2, e2 = enc(c, o, "({d})")
                wr = "*{x} = " + e2.replace("{", "{{").replace("}", "}}").replace("({{d}})", "({d})") + ";"
        n = self.name(i)
        tick = "block_on({r})" if self.flag(s, "async") else "{r}"
        if self.flag(s, "unsafe"): tick = "unsafe {{ " + tick + " }}"
        no = set(["with"] if s["nowith"] else [])
        noclone = any(_has(owned, q) for q in ("Opaque", "boxdyn", "boxdyn2", "boxiter", "boxfut", "boxstream", "boxmulti", "boxfn", "none", "Mock", "dynin", "dynin2", "dynout", "dynassoc", "dynsrc", "SupT", "Sup2T", "CrateT", "SelfT", "PrivT", "MutexT", "RangeT", "memT"))
        if any(q.hidden for q in A) or not A:
            no |= {"with"}
        notsend = any(_has(owned, q) for q in ("NotSend", "Rc", "sdyn", "ptr"))
        R = Ret(c.rust(owned, "abs"), enc=e, dec=d, wr=wr, clone=not noclone, send=not notsend)
        ident = n[2:] if n.startswith("r#") else n
        exp = f"{{o}}.expect_{ident}{cl}()"
        if s["recv"] == "none":
            exp = f"{{o}}.expect{cl}()"
            path = f"mock_m::{n}" if self.cont == "mod" else f"<{c.mock} as {c.abstr}>::{n}" if self.cont in TRAITS else f"<{c.mock}>::{n}"
            call = f"{path}{cl}({{args}})"
            kind = "val"
        else:
            r = CONSUMING.get(s["recv"]) or BORROWING[s["recv"]]
            path = f"<{c.mock} as {c.abstr}>::{n}" if self.cont in TRAITS else f"<{c.mock}>::{n}"
            call = f"{path}{cl}({r}, {{args}})"
            kind = s["kind"]
        m = Meth(n, A, R, "val" if s["kind"] == "own" else s["kind"], expect=exp, call=call, fname="", tags="shape" + (" noarg" if all(q.hidden for q in A) else ""),
                 no=no, tick=tick)
        m.rkind = kind
        return m

LEAN = {"with", "r#fn", "n", "s", "auto", "aconst", "afn", "aonce", "avar"}
def lean_step(m, mac="step"):
    """only the builder calls that alphabet C17 uses; with pokes"""
    A, R = m.args, m.ret
    n = sum(not a.hidden for a in A)
    xs = [f"x{j}" for j in range(len(A))]
    # (rustc cannot check an annotation &dyn Trait against the expected type)
    plist = ", ".join(f"{x}" if "dyn " in a.pty and a.isref else f"{x}: &{a.pty}" for x, a in zip(xs, A))
    mu = lambda a: "mut " if a.hidden else ""
    vlist = ", ".join(f"{mu(a)}{x}" if "dyn " in a.decl and a.isref else f"{mu(a)}{x}: {a.decl}" for x, a in zip(xs, A))
    dref = "comb(&[" + ", ".join(a.dref.format(x=x) for x, a in zip(xs, A) if not a.hidden) + "])"
    dval = "comb(&[" + ", ".join(a.dval.format(x=x) for x, a in zip(xs, A) if not a.hidden) + "])"
    hid = " ".join(f"hid += {a.dval.format(x=x)};" for x, a in zip(xs, A) if a.hidden)
    poke = " ".join(a.poke(x) for x, a in zip(xs, A) if a.isref and a.act[0] == "refmut")
    if poke: poke += " poked();"
    arms = []
    arm = lambda k, e: arms.append(f"            K::{k} => {{ {e} }}")
    if n and "with" not in m.no:
        arm("with", "$e.with(" + ", ".join(
            f"MaskP::<{a.predty}> {{ mask: (s.a >> (2*{j})) & 3, off: {10*j}, f: |x: &{a.predty}| {a.dref.format(x='x')} }}"
            for j, a in enumerate(A)) + ")")
    if n:
        arm("r#fn", f"let mk = s.a; $e.withf(move |{plist}| bit(mk, {dref}))")
    arm("n", "$e.times(s.a as usize)")
    enc = lambda d: R.enc.format(d=d)
    body = lambda v: f"{{ let mut hid = 0i64; {hid} let x = {dval if n else '0'}; {poke} let v = {v} + x + hid; {enc('v')} }}"
    if m.kind == "val":
        arm("auto", f"let b = $env.id * 1000; $e.returning(move |{vlist}| {{ {poke} {enc('b')} }})")
        if R.clone:
            arm("aconst" if R.send else "aconst_st", f"$e.return_const{'' if R.send else '_st'}({enc('base')})")
        arm("afn", f"let mut cnt = 0i64; $e.returning(move |{vlist}| {{ let k = cnt; cnt += 1; {body('base + 10 * k')} }})")
        arm("aonce", f"struct O(i64); let o = O(base); $e.return_once(move |{vlist}| {{ let o = o; {body('o.0')} }})")
    elif m.kind == "ref":
        arm("auto", f"let b = $env.id * 1000; $e.return_const({enc('b')})")
        arm("aconst", f"$e.return_const({enc('base')})")
    else:
        arm("auto", f"let b = $env.id * 1000; $e.return_var({enc('b')})")
        arm("avar", f"$e.return_var({enc('base')})")
        arm("afn", f"let mut cnt = 0i64; $e.returning(move |{vlist}| {{ let k = cnt; cnt += 1; {body('base + 10 * k')} }})")
    return (f"macro_rules! {mac} {{ ($e:expr, $s:expr, $env:expr) => {{{{ let s: &Step = $s; let base = ($env.id * 1000).wrapping_add(s.a.wrapping_mul(100)); let id = $env.id;\n"
            "        match s.k {\n" + "\n".join(arms) + "\n            _ => unsupported() } }} }")

def lean_call(m):
    n = sum(not a.hidden for a in m.args)
    out, passed, checks, j = ["saw_clear();"], [], [], 0
    for a in m.args:
        p, e, chk = a.make(f"digit(a, {j}, {n})")
        if not a.hidden: j += 1
        out.append(p); passed.append(e); checks.append(chk)
    call = m.tick.format(r=m.call.format(o="self.0", args=", ".join(passed)))
    out.append(f"let r = {call}; let out = {m.ret.dec.format(x='r' if m.kind == 'val' else '*r')};")
    if m.ret.wr: out.append(f"if w >= 0 {{ {m.ret.wr.format(x='r', d='w')} }}")
    if m.kind == "val" and "{x};" not in m.ret.dec and "block_on" not in m.ret.dec: out.append("drop(r);")
    out += checks
    out.append("out")
    return " ".join(x for x in out if x)

def meta(m):
    n = sum(not a.hidden for a in m.args)
    return (f'Meta {{ name: "{m.name}", kind: "{m.rkind}", nargs: {n}, fname: "", cname: "", args: |a| vec![], pred: |s| None, tags: "{m.tags}" }}')

def module(con, only=None):
    """(text of the module, object idents, function idents)"""
    c, k = con.c, con.k
    E, C, CO, M, FN, SYM, VIS = [], [], [], [], [], [], {"mid": [], "top": []}
    i_obj = 0
    for i, s in enumerate(con.shapes):
        m = con.meth(i)
        mark = f" // @{k}.{i}\n"
        step = lean_step(m).replace("\n", " ")
        if s["sym"]:
            # a function with a foreign ABI has a symbol of its own name
            SYM.append(f'mod sym_{i} {{ extern "C-unwind" {{ pub fn {m.name}(); }} }}')
            m.tick = f"{{{{ assert_ne!(sym_{i}::{m.name} as *const () as usize, 0); {m.tick} }}}}"
        for f in s["flags"]:
            if f.startswith("vis:") and f != "vis:priv":
                tb = "::<u64>" if s["gen"] == "T" else ""
                pre = "mock_m::" if con.cont == "mod" else f"<inner::{c.mock}>::" if False else f"{c.mockname}{'::<u32>' if c.mock.endswith('>') else ''}::"
                where = "mid" if f == "vis:pubsuper" else "top"
                if con.cont == "mod" and f == "vis:pubsuper": continue
                pp = {"mid": "inner::", "top": "mid::inner::"}[where]
                if f == "vis:pubin": pp, where = "inner::", "mid"
                VIS[where].append(f"let _ = {pp}{pre}{m.name}{tb};" + mark)
                VIS[where].append(f"let _ = {pp}{pre}{m.name}_context;" + mark if s["recv"] == "none" else f"let _ = {pp}{pre}expect_{m.name}{tb};" + mark)
        if s["recv"] == "none":
            fi = f"F{i}"
            ident = m.name[2:] if m.name.startswith("r#") else m.name
            path = f"mock_m::{ident}_context()" if con.cont == "mod" else f"<{c.mock}>::{ident}_context()"
            FN.append((fi, f"""pub struct {fi}; static METAS_{fi}: &[Meta] = &[{meta(m)}];
impl FnType for {fi} {{ fn name(&self) -> &'static str {{ "{k}.{i} {describe(s)}" }} fn metas(&self) -> &'static [Meta] {{ METAS_{fi} }}
fn ctx(&self) -> Box<dyn Ctx> {{ let c = {path};{mark} fn is_send<T: Send>(_: &T) {{}} is_send(&c);{mark} Box::new(CtxF(move |q: Option<(usize, &[Step], &mut Env)>| match q {{ None => c.checkpoint(),
 Some((_, cfg, env)) => {{ {step}{mark} let mut g = {m.expect.format(o='c')};{mark} if let Some((s0, rest)) = cfg.split_first() {{
 let e = step!(g, s0, env);{mark} for s in rest {{ let _ = step!(e, s, env);{mark} }} }} }} }})) }}
fn call(&self, m: usize, a: i64, w: i64) -> i64 {{ {lean_call(m)}{mark} }} }}"""))
            continue
        E.append(f"{i_obj} => {{ {step}{mark} let e = {m.expect.format(o='self.0')};{mark} for s in cfg {{ let _ = step!(e, s, env);{mark} }} }}")
        if m.rkind == "own": CO.append(f"{i_obj} => {{ {lean_call(m)}{mark} }}")
        else: C.append(f"{i_obj} => {{ {lean_call(m)}{mark} }}")
        mm = meta(m).replace(f'name: "{m.name}"', f'name: "{k}.{i}"')
        M.append(mm)
        i_obj += 1
    nl = "\n"
    obj = ""
    if con.cont != "mod" and M:
        obj = f"""const _: fn() = || {{ fn send<T: Send>() {{}} fn sync<T: Sync>() {{}} send::<{c.mock}>(); // @{k}.0
 sync::<{c.mock}>(); // @{k}.0
 }};
pub struct W({c.mock});
static METAS: &[Meta] = &[{', '.join(M)}];
impl Obj for W {{
 fn expect(&mut self, m: usize, cfg: &[Step], env: &mut Env) {{ match m {{ {nl.join(E)} _ => unreachable!() }} }}
 fn call(&mut self, m: usize, a: i64, w: i64) -> i64 {{ match m {{ {nl.join(C)} _ => unsupported() }} }}
 fn call_own(self: Box<Self>, m: usize, a: i64) -> i64 {{ let o = self.0; let w = -1; match m {{ {nl.join(CO)} _ => unsupported() }} }}
 fn checkpoint(&mut self) {{ self.0.checkpoint() }}
 fn as_any(&mut self) -> &mut dyn std::any::Any {{ self }} }}
pub struct Ty;
impl ObjType for Ty {{ fn name(&self) -> &'static str {{ "{k}" }} fn metas(&self) -> &'static [Meta] {{ METAS }}
 fn make(&self, how: usize) -> Box<dyn Obj> {{ Box::new(W(if how == 0 {{ <{c.mock}>::new() }} else {{ Default::default() }})) }} }}
"""
    sup = con.uses("SupT", "Sup2T", "SelfT", "CrateT", "PrivT", "MutexT", "RangeT", "memT", "dynSup", "boxdynSup", "fnptrSup", "FnSup") or any(s["gen"].startswith("Tsup") or "supG" in s["flags"] or s["fam"] == "vis" for s in con.shapes)
    inner = f"use crate::rt::*; use mockall::*; use std::path::Path; use std::ffi::{{OsStr, CStr}};\n{con.decl()}\n{obj}\n" + nl.join([f[1] for f in FN] + SYM)
    if sup:
        text = f"""pub mod {k} {{ use crate::rt::*; tok_struct!(pub(crate) Sup2T); tok_struct!(pub CrateT);
pub mod mid {{ use crate::rt::*; tok_struct!(pub(in super::super) SupT); pub(in super::super) trait SupRel<T> {{}} impl<T> SupRel<T> for SupT {{}} pub(in super::super) trait SupTr {{ fn num(&self) -> i64; }} impl SupTr for SupT {{ fn num(&self) -> i64 {{ self.0 }} }} impl SupTr for u32 {{ fn num(&self) -> i64 {{ *self as i64 }} }}
impl De for dyn SupTr + '_ {{ fn de(&self) -> i64 {{ self.num() }} }}
pub mod inner {{ tok_struct!(pub SelfT); tok_struct!(pub PrivT); tok_struct!(pub Mutex); tok_struct!(pub Range); pub mod mem {{ tok_struct!(pub Item); }}
{inner}
}} fn vis() {{ {' '.join(VIS['mid'])} }} }} fn vis() {{ {' '.join(VIS['top'])} }} }}
"""
        base = f"{k}::mid::inner"
    else:
        text = f"pub mod {k} {{\n{inner}\n}}\n"
        base = k
    objs = [f"{base}::Ty"] if obj else []
    return text, objs, [f"{base}::{f[0]}" for f in FN]

def show(t):
    return t[0] + (f"({show(t[1])})" if len(t) == 2 else "")
def describe(s):
    return f"{s['fam']}/{s['cont']}/{s['recv']}({','.join(show(t) for t in s['args'])})->{show(s['ret'])}/{s['gen']}{'/'.join([''] + s['flags'])}"

def containers(shapes, size=24):
    """Group shapes by container kind; names must differ within one"""
    groups = {}
    for s in shapes:
        n = next((f for f in s["flags"] if f.startswith("name:")), "")
        fam = "supG" if "supG" in s["flags"] else s["fam"] + ("self" if any(_has(lst(t), "Self") for t in s["args"] + [s["ret"]]) else "") if s["fam"] == "nest" else s["fam"] if s["fam"] in ("path", "vis", "self", "assoc", "atrait", "atraitns") else "name" if n else ""
        groups.setdefault((s["cont"], fam), []).append(s)
    out, i = [], 0
    for (cont, fam), l in groups.items():
        bins = []
        for s in l:
            n = next((f for f in s["flags"] if f.startswith("name:")), None)
            for b in bins:
                if len(b) < size and not (n and any(n in x["flags"] for x in b)): b.append(s); break
            else: bins.append([s])
        for b in bins:
            out.append(Container(f"k{i}", cont, b))
            i += 1
    return out

HEADS = """#![allow(dead_code, unused_variables, unused_mut, unused_must_use, unused_imports, non_camel_case_types, unreachable_code, clippy::all, deprecated, unused_unsafe, unused_lifetimes, non_snake_case, unreachable_patterns, redundant_semicolons, private_interfaces, single_use_lifetimes, async_fn_in_trait, improper_ctypes_definitions, unused_assignments)]
#[macro_use] #[path = "{rt}"] mod rt;
"""
def crate_text(mods, rt):
    o = ", ".join(f"&{x}" for m in mods for x in m[1])
    f = ", ".join(f"&{x}" for m in mods for x in m[2])
    return HEADS.format(rt=rt) + "\n".join(m[0] for m in mods) + f"""
fn main() {{ let objs: &[&dyn rt::ObjType] = &[{o}]; let fns: &[&dyn rt::FnType] = &[{f}]; rt::main_with(objs, fns); }}
"""

def shapes(big, name="C17_shapes"):
    r = tlc("Shapes", f"INIT Init\nNEXT Next\nINVARIANT TypeProps\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANT Big = {'TRUE' if big else 'FALSE'}\n", name)
    l = [json.loads(unquote(x)) for x in r.lines if x[2] == "P"]
    l.sort(key=lambda s: json.dumps(s, sort_keys=True))
    for s in l: s["flags"].sort()
    return r, l
