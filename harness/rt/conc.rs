//! Explores the interleavings of real threads that call shared mocks, under a
//! scheduler that lets one thread run at a time and switches at points inside
//! matchers, actions and counter operations; compares the outcomes with the
//! vectors that the concurrent specification allows.
use super::*;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Barrier};
use std::thread::{park, park_timeout, Thread};
use std::time::{Duration, Instant};

const IDLE: u8 = 0;
const RUNNING: u8 = 1;
const PAUSED: u8 = 2;

pub struct Worker {
    state: AtomicU8,
    go: AtomicBool,
    ack: AtomicBool,
    kind: AtomicU8,
    op: AtomicUsize,
    tid: AtomicU64,
    boss: Thread,
}
thread_local! {
    static ME: RefCell<Option<Arc<Worker>>> = const { RefCell::new(None) };
    static JITTER: Cell<u64> = const { Cell::new(0) };
}

/// A place where the scheduler may switch threads
pub fn point(kind: u8) {
    let j = JITTER.with(|j| j.get());
    if j != 0 {
        // free-running: wait a little, now and then
        let j = j.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        JITTER.with(|c| c.set(j | 1));
        match (j >> 33) % 8 {
            0 => std::thread::yield_now(),
            1 | 2 => for _ in 0..((j >> 40) % 400) { std::hint::spin_loop() },
            _ => (),
        }
        return;
    }
    let w = match ME.try_with(|m| m.borrow().clone()) { Ok(Some(w)) => w, _ => return };
    w.kind.store(kind, SeqCst);
    w.ack.store(false, SeqCst);
    w.state.store(PAUSED, SeqCst);
    w.boss.unpark();
    while !w.go.swap(false, SeqCst) { park(); }
    w.ack.store(true, SeqCst);
}
fn hook() { point(b'C') }
/// Set by a crate whose mocks use the locks of harness/shim
pub static LOCKS: std::sync::OnceLock<fn(bool)> = std::sync::OnceLock::new();
/// 0: locks are no switching points; 1: their acquisitions are; 2: so are their releases
static LOCK_LEVEL: AtomicU8 = AtomicU8::new(0);
pub fn lock_point(k: u8) {
    if k == b'L' || LOCK_LEVEL.load(SeqCst) > 1 { point(k) }
}
fn locks(on: bool) {
    if let Some(f) = LOCKS.get() { f(on && LOCK_LEVEL.load(SeqCst) > 0) }
}

// ------------------------------------------------------- exclusive actions
static INSIDE: [AtomicU32; 64] = [const { AtomicU32::new(0) }; 64];
static OVERLAP: AtomicBool = AtomicBool::new(false);
pub struct ActGuard(usize);
/// An action of expectation id is running
pub fn act(id: i64) -> ActGuard {
    let i = id as usize % 64;
    if INSIDE[i].fetch_add(1, SeqCst) != 0 { OVERLAP.store(true, SeqCst); }
    point(b'A');
    ActGuard(i)
}
impl Drop for ActGuard {
    fn drop(&mut self) { INSIDE[self.0].fetch_sub(1, SeqCst); }
}

// ------------------------------------------------------------------- pool
type Job = Box<dyn FnOnce() + Send>;
struct Pool { ws: Vec<(Arc<Worker>, mpsc::Sender<Job>, Thread)> }
impl Pool {
    fn new(n: usize) -> Pool {
        let boss = std::thread::current();
        let ws = (0..n).map(|_| {
            let (tx, rx) = mpsc::channel::<Job>();
            let w = Arc::new(Worker { state: IDLE.into(), go: false.into(), ack: false.into(), kind: 0.into(),
                op: 0.into(), tid: 0.into(), boss: boss.clone() });
            let w2 = w.clone();
            let h = std::thread::spawn(move || {
                let l = std::fs::read_link("/proc/thread-self").unwrap();
                w2.tid.store(l.file_name().unwrap().to_str().unwrap().parse().unwrap(), SeqCst);
                for job in rx { job(); }
            });
            let th = h.thread().clone();
            (w, tx, th)
        }).collect();
        Pool { ws }
    }
}
fn sleeping(tid: u64) -> bool {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    s.rsplit_once(") ").map_or(false, |(_, r)| r.starts_with('S'))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Th { Paused, Blocked, Done }

/// Wait until every thread is paused, done or asleep on some lock
fn settle(ws: &[Arc<Worker>], out: &mut Vec<Th>) -> bool {
    let t0 = Instant::now();
    let mut spins = 0;
    loop {
        out.clear();
        let mut ok = true;
        for w in ws {
            out.push(match w.state.load(SeqCst) {
                PAUSED => Th::Paused,
                IDLE => Th::Done,
                _ => { ok = false; Th::Blocked }
            });
        }
        if ok { return true; }
        spins += 1;
        if spins < 300 { std::hint::spin_loop(); continue; }
        park_timeout(Duration::from_micros(if spins < 310 { 30 } else { 300 }));
        // are those that run asleep?
        let asleep = |w: &Arc<Worker>| w.state.load(SeqCst) != RUNNING
            || w.ack.load(SeqCst) && sleeping(w.tid.load(SeqCst)) && w.state.load(SeqCst) == RUNNING;
        if ws.iter().all(asleep) {
            std::thread::yield_now();
            if ws.iter().all(asleep) {
                // take a consistent picture
                out.clear();
                for w in ws {
                    out.push(match w.state.load(SeqCst) { PAUSED => Th::Paused, IDLE => Th::Done, _ => Th::Blocked });
                }
                return true;
            }
        }
        if t0.elapsed() > Duration::from_secs(20) { return false; }
    }
}

pub struct Scn {
    setup: Vec<OpL>,
    prog: Vec<Vec<OpL>>,
    post: Vec<OpL>,
    blocks: Vec<(usize, usize, usize, usize)>,
    vecs: Vec<Vec<Out>>,
}
fn parse_ops(t: &str, u: &Universe) -> Vec<OpL> { if t.is_empty() { vec![] } else { parse_scenario(t, u) } }
pub fn parse_scn(line: &str, u: &Universe) -> Scn {
    let p: Vec<&str> = line.split('#').collect();
    let n: usize = p[0].parse().unwrap();
    Scn {
        setup: parse_ops(p[1], u),
        prog: (0..n).map(|t| parse_ops(p[2 + t], u)).collect(),
        post: parse_ops(p[2 + n], u),
        blocks: p[3 + n].split(',').filter(|x| !x.is_empty()).map(|b| {
            let v: Vec<usize> = b.split(':').map(|x| x.parse().unwrap()).collect();
            (v[0], v[1], v[2], v[3])
        }).collect(),
        vecs: p[4 + n..].iter().map(|v| v.split(';').map(|o| parse_out(o, u)).collect()).collect(),
    }
}

/// What the scheduler is to do
pub enum Mode<'a> { Dfs(&'a mut Dfs), Free(u64) }
/// Depth-first search over schedules with few preemptions; then random ones
pub struct Dfs {
    pub stack: Vec<(usize, usize, bool)>,      // (choice, options, is a preemption when choice > 0)
    pub bound: usize,
    pub rnd: u64,
    pub random: bool,
    pub done: bool,
}
impl Dfs {
    fn pick(&mut self, depth: usize, n: usize, preempt: bool) -> usize {
        if self.random {
            self.rnd = self.rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let r = (self.rnd >> 33) as usize;
            return if preempt && r % 3 != 0 { 0 } else { (r / 3) % n };
        }
        if depth < self.stack.len() {
            let c = self.stack[depth].0;
            self.stack[depth].1 = n;
            self.stack[depth].2 = preempt;
            if c >= n { self.stack[depth].0 = 0; return 0; }
            c
        } else {
            self.stack.push((0, n, preempt));
            0
        }
    }
    /// Go on to the next schedule
    fn next(&mut self, depth: usize) {
        if self.random { return; }
        self.stack.truncate(depth);
        while let Some((c, n, p)) = self.stack.pop() {
            let cost: usize = self.stack.iter().filter(|x| x.2 && x.0 > 0).count();
            if c + 1 < n && (!p || c > 0 || cost < self.bound) {
                self.stack.push((c + 1, n, p));
                return;
            }
        }
        self.done = true;
    }
}

pub enum Verdict2 { Pass(usize), Skip, Fail(String, String), Fatal(String, String) }

fn shape(g: &[Got]) -> String {
    g.iter().map(|x| match x { Got::Panic { kind, n, msg, .. } => format!("{kind}({n}) {msg:?}"), x => format!("{x:?}") })
        .collect::<Vec<_>>().join(" ; ")
}
fn oshape(os: &[Out]) -> String {
    os.iter().map(|x| format!("{} {} {}", x.k, x.v, x.alts.iter().map(|a| format!("{}({})", a.k, a.n)).collect::<Vec<_>>().join("|")))
        .collect::<Vec<_>>().join(" ; ")
}

struct Live { objs: Vec<Option<Box<dyn Obj>>>, ctxs: Vec<Option<(usize, Box<dyn Ctx>)>>, env: Env }

fn do_op(l: &mut Live, b: &Bound, o: &OpL) -> Got {
    let u = b.u;
    let fn_of = |own: &String| u.fns.iter().position(|x| x == own).unwrap();
    let unit = |r: Result<(), Got>| match r { Ok(()) => Got::Ok, Err(g) => g };
    match o.op.as_str() {
        "ctx" => { let f = fn_of(&o.s); l.ctxs.push(Some((f, b.fns[f].ctx()))); Got::Ok }
        "exp" => {
            let s = u.slots.iter().position(|s| s.0 == o.s).unwrap();
            l.env.id = o.a;
            let env = &mut l.env;
            if u.slots[s].2 {
                let f = fn_of(&u.slots[s].1);
                let c = &mut l.ctxs.iter_mut().flatten().find(|c| c.0 == f).unwrap().1;
                unit(guarded(|| c.expect(b.meth[s], &o.cfg, env)))
            } else {
                let ob = u.objs.iter().position(|x| *x == u.slots[s].1).unwrap();
                let ob = l.objs[ob].as_mut().unwrap();
                unit(guarded(|| ob.expect(b.meth[s], &o.cfg, env)))
            }
        }
        "call" => {
            let s = u.slots.iter().position(|s| s.0 == o.s).unwrap();
            let r = if u.slots[s].2 {
                let f = fn_of(&u.slots[s].1);
                guarded(|| b.fns[f].call(b.meth[s], o.a, -1))
            } else {
                let ob = u.objs.iter().position(|x| *x == u.slots[s].1).unwrap();
                let ob = l.objs[ob].as_ref().unwrap();
                guarded(|| ob.call_shared(b.meth[s], o.a))
            };
            match r { Ok(v) => Got::Ret(v), Err(g) => g }
        }
        "drop" => {
            let k = u.objs.iter().position(|s| *s == o.s).unwrap();
            let ob = l.objs[k].take();
            unit(guarded(|| drop(ob)))
        }
        "chk" => {
            let k = u.objs.iter().position(|s| *s == o.s).unwrap();
            let ob = l.objs[k].as_mut().unwrap();
            unit(guarded(|| ob.checkpoint()))
        }
        "cchk" | "cdrop" => {
            let f = fn_of(&o.s);
            let k = l.ctxs.iter().rposition(|c| c.as_ref().map_or(false, |c| c.0 == f)).unwrap();
            if o.op == "cchk" {
                let c = &mut l.ctxs[k].as_mut().unwrap().1;
                unit(guarded(|| c.checkpoint()))
            } else {
                let c = l.ctxs.remove(k);
                unit(guarded(|| drop(c)))
            }
        }
        x => panic!("bad op {x}"),
    }
}
/// An operation of thread t, which uses the t-th context
fn thread_op(l: &Live, b: &Bound, t: usize, o: &OpL) -> Got {
    let u = b.u;
    let unit = |r: Result<(), Got>| match r { Ok(()) => Got::Ok, Err(g) => g };
    let ret = |r: Result<i64, Got>| match r { Ok(v) => Got::Ret(v), Err(g) => g };
    match o.op.as_str() {
        "call" => {
            let s = u.slots.iter().position(|s| s.0 == o.s).unwrap();
            if u.slots[s].2 {
                let f = u.fns.iter().position(|x| *x == u.slots[s].1).unwrap();
                ret(guarded(|| b.fns[f].call(b.meth[s], o.a, -1)))
            } else {
                let ob = u.objs.iter().position(|x| *x == u.slots[s].1).unwrap();
                let ob = l.objs[ob].as_ref().unwrap();
                ret(guarded(|| ob.call_shared(b.meth[s], o.a)))
            }
        }
        "exp" | "cchk" => {
            let f = if o.op == "cchk" { u.fns.iter().position(|x| *x == o.s).unwrap() }
                else { let s = u.slots.iter().find(|s| s.0 == o.s).unwrap(); u.fns.iter().position(|x| *x == s.1).unwrap() };
            // contexts are created in thread order: each thread has its own
            let mine = l.ctxs.iter().flatten().filter(|c| c.0 == f).nth(t).unwrap();
            let c = &mine.1;
            if o.op == "cchk" { return unit(guarded(|| c.checkpoint())); }
            let s = u.slots.iter().position(|s| s.0 == o.s).unwrap();
            let mut env = Env { seqs: vec![], id: o.a };
            unit(guarded(|| c.expect(b.meth[s], &o.cfg, &mut env)))
        }
        x => panic!("bad op {x}"),
    }
}

struct Poolside { pool: Pool }

fn execute(sc: &Scn, b: &Bound, pool: &Pool, mut mode: Mode, strict: bool) -> Verdict2 {
    let u = b.u;
    let n = sc.prog.len();
    OVERLAP.store(false, SeqCst);
    let mut live = Live {
        objs: (0..u.objs.len()).map(|_| Some(b.obj.unwrap().make(b.how))).collect(),
        ctxs: vec![], env: Env { seqs: (0..u.nseq).map(|_| Sequence::new()).collect(), id: 0 } };
    let cleanup = |mut l: Live| {
        if !l.ctxs.is_empty() {
            let mut cs = std::mem::take(&mut l.ctxs); cs.reverse();
            let _ = guarded(move || { let _cs = cs; user_panic(); });
        }
        for ob in l.objs { let _ = guarded(move || { let _ob = ob; user_panic(); }); }
        // whatever happened, unwinding clears static functions
        for f in &b.fns { let c = f.ctx(); let _ = guarded(move || { let _c = c; user_panic(); }); }
    };
    for o in &sc.setup {
        let g = do_op(&mut live, b, o);
        if g == Got::Unsupported { cleanup(live); return Verdict2::Skip; }
        if !agrees(&o.x, &g, strict, &|s| b.meta(s)) {
            cleanup(live);
            return Verdict2::Fail(format!("setup {:?}", o.x), format!("{g:?}"));
        }
    }
    let results: Arc<Vec<std::sync::Mutex<Vec<Got>>>> = Arc::new((0..n).map(|_| Default::default()).collect());
    let bar = Arc::new(Barrier::new(n));
    let free = match &mode { Mode::Free(s) => Some(*s), _ => None };
    let ws: Vec<Arc<Worker>> = pool.ws[..n].iter().map(|w| w.0.clone()).collect();
    // the workers are done with everything before this function returns
    let sref: &'static Scn = unsafe { std::mem::transmute(sc) };
    let bref: &'static Bound<'static> = unsafe { std::mem::transmute(b) };
    let lref: &'static Live = unsafe { std::mem::transmute(&live) };
    for t in 0..n {
        let w = ws[t].clone();
        w.go.store(false, SeqCst);
        w.ack.store(false, SeqCst);
        w.state.store(RUNNING, SeqCst);
        let pack = Shove((sref, bref, lref));
        let results = results.clone();
        let bar = bar.clone();
        pool.ws[t].1.send(Box::new(move || {
            let (sc, b, l) = pack.get();
            if let Some(seed) = free {
                JITTER.with(|j| j.set((seed.wrapping_mul(2654435761).wrapping_add(t as u64 * 977)) | 1));
                bar.wait();
            } else {
                ME.with(|m| *m.borrow_mut() = Some(w.clone()));
            }
            for (i, o) in sc.prog[t].iter().enumerate() {
                w.op.store(i + 1, SeqCst);
                point(b'S');
                locks(true);
                let g = thread_op(l, b, t, o);
                locks(false);
                results[t].lock().unwrap().push(g);
            }
            ME.with(|m| *m.borrow_mut() = None);
            JITTER.with(|j| j.set(0));
            drop((results, bar));
            let boss = w.boss.clone();
            w.state.store(IDLE, SeqCst);
            boss.unpark();
        })).unwrap();
    }
    let mut th = Vec::new();
    let mut last = usize::MAX;
    let mut depth = 0;
    let mut trace = String::new();
    let mut bad: Option<(String, String)> = None;
    loop {
        if let Mode::Free(_) = mode {
            let t0 = Instant::now();
            while ws.iter().any(|w| w.state.load(SeqCst) != IDLE) {
                park_timeout(Duration::from_micros(100));
                if t0.elapsed() > Duration::from_secs(20) {
                    return Verdict2::Fatal("termination".into(), "deadlock".into());
                }
            }
            break;
        }
        if !settle(&ws, &mut th) { return Verdict2::Fatal("progress".into(), format!("a thread runs for ever; schedule {trace}")); }
        if th.iter().all(|x| *x == Th::Done) { break; }
        let paused: Vec<usize> = (0..n).filter(|t| th[*t] == Th::Paused).collect();
        if paused.is_empty() {
            return Verdict2::Fatal("progress".into(), format!("deadlock; schedule {trace}"));
        }
        for x in 0..n {
            if th[x] != Th::Blocked || bad.is_some() { continue; }
            let px = ws[x].op.load(SeqCst);
            let excused = (0..n).any(|t| t != x && match th[t] {
                Th::Done => false,
                Th::Blocked => true,
                Th::Paused => match ws[t].kind.load(SeqCst) {
                    b'S' => false,
                    b'A' => sc.blocks.contains(&(t + 1, ws[t].op.load(SeqCst), x + 1, px)),
                    _ => true,
                },
            });
            if !excused {
                // is it really waiting?  it may just have been woken
                std::thread::sleep(Duration::from_millis(3));
                let mut again = Vec::new();
                if settle(&ws, &mut again) && again[x] == Th::Blocked && again == th {
                    bad = Some(("no waiting for another expectation's action".into(),
                        format!("thread {} waits in its operation {}; schedule {trace}", x + 1, px)));
                } else { th = again; }
            }
        }
        let paused: Vec<usize> = (0..n).filter(|t| th[*t] == Th::Paused).collect();
        if paused.is_empty() { continue; }
        let cont = paused.contains(&last);
        let mut opts = paused.clone();
        if cont { opts.retain(|t| *t != last); opts.insert(0, last); }
        let c = if opts.len() == 1 { 0 } else {
            let c = match &mut mode { Mode::Dfs(d) => d.pick(depth, opts.len(), cont), _ => 0 };
            depth += 1;
            c
        };
        last = opts[c];
        let w = &ws[last];
        write!(trace, "{}{}", last + 1, w.kind.load(SeqCst) as char).unwrap();
        w.state.store(RUNNING, SeqCst);
        w.go.store(true, SeqCst);
        pool.ws[last].2.unpark();
    }
    if let Mode::Dfs(d) = &mut mode { d.next(depth); }
    let mut got: Vec<Got> = Vec::new();
    for t in 0..n { got.append(&mut results[t].lock().unwrap()); }
    if got.contains(&Got::Unsupported) { cleanup(live); return Verdict2::Skip; }
    for o in &sc.post { got.push(do_op(&mut live, b, o)); }
    cleanup(live);
    if OVERLAP.load(SeqCst) {
        bad = Some(("one thread at a time in an action".into(), format!("two; schedule {trace}")));
    }
    if let Some((w, g)) = bad { return Verdict2::Fail(w, g); }
    match sc.vecs.iter().position(|v| v.len() == got.len()
            && v.iter().zip(&got).all(|(x, g)| agrees(x, g, strict, &|s| b.meta(s)))) {
        Some(i) => Verdict2::Pass(i),
        None => Verdict2::Fail(format!("one of {}: {}", sc.vecs.len(), sc.vecs.iter().take(4).map(|v| oshape(v)).collect::<Vec<_>>().join(" // ")),
            format!("{}; schedule {trace}", shape(&got))),
    }
}

/// Many threads, many identical calls: the outcomes are a permutation of the
/// sequential ones
fn bulk(line: &str, u: &Universe, b: &Bound, threads: usize, seed: u64) -> Verdict2 {
    // setup # call # post # outcomes of the calls # outcomes of post
    let p: Vec<&str> = line.split('#').collect();
    let setup = parse_ops(p[0], u);
    let call = parse_ops(p[1], u).remove(0);
    let post = parse_ops(p[2], u);
    let want: Vec<Out> = p[3].split(';').map(|o| parse_out(o, u)).collect();
    let wantpost: Vec<Out> = p[4].split(';').map(|o| parse_out(o, u)).collect();
    OVERLAP.store(false, SeqCst);
    let mut live = Live { objs: (0..u.objs.len()).map(|_| Some(b.obj.unwrap().make(b.how))).collect(),
        ctxs: vec![], env: Env { seqs: (0..u.nseq).map(|_| Sequence::new()).collect(), id: 0 } };
    for o in &setup {
        let g = do_op(&mut live, b, o);
        if g == Got::Unsupported { return Verdict2::Skip; }
    }
    let total = want.len();
    let next = AtomicUsize::new(0);
    let bar = Barrier::new(threads);
    let mut got: Vec<Got> = Vec::new();
    {
        let pack = Shove((&live, b, &call));
        let pref = &pack;
        let (next, bar) = (&next, &bar);
        let rs: Vec<Vec<Got>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads).map(|t| s.spawn(move || {
                let (live, b, call) = pref.0;
                JITTER.with(|j| j.set((seed.wrapping_mul(31).wrapping_add(t as u64 * 7919)) | 1));
                bar.wait();
                let mut r = Vec::new();
                locks(true);
                while next.fetch_add(1, SeqCst) < total { r.push(thread_op(live, b, t, call)); }
                locks(false);
                r
            })).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for r in rs { got.extend(r); }
    }
    let okey = |x: &Out| match x.k.as_str() {
        "ret" => ("ret".to_string(), x.v),
        "fail" => (x.alts[0].k.clone(), 0),
        k => (k.to_string(), 0),
    };
    let gkey = |g: &Got| match g {
        Got::Ret(v) => ("ret".to_string(), *v),
        Got::Panic { kind, .. } => (kind.clone(), 0),
        g => (format!("{g:?}"), 0),
    };
    let unsure = want.iter().any(|x| x.k == "panic");
    let vague = want.iter().any(|x| x.k == "*");
    let mut a: Vec<_> = want.iter().map(okey).filter(|k| !vague || k.0 == "ret").collect();
    let mut g: Vec<_> = got.iter().map(gkey).filter(|k| !vague || k.0 == "ret").collect();
    // an unknown wording stands for any failure
    if unsure || g.iter().any(|k| k.0 == "other") {
        for k in a.iter_mut().chain(g.iter_mut()) { if k.0 != "ret" { *k = ("fail".into(), 0); } }
    }
    a.sort(); g.sort();
    let pg: Vec<Got> = post.iter().map(|o| do_op(&mut live, b, o)).collect();
    let _ = guarded(move || { let _l = live; user_panic(); });
    for f in &b.fns { let c = f.ctx(); let _ = guarded(move || { let _c = c; user_panic(); }); }
    if OVERLAP.load(SeqCst) { return Verdict2::Fail("one thread at a time in an action".into(), "two".into()); }
    if a != g {
        let i = a.iter().zip(&g).position(|(x, y)| x != y).unwrap_or(a.len().min(g.len()));
        return Verdict2::Fail(format!("{} outcomes as in sequence: {:?}..", a.len(), a.get(i)), format!("{} outcomes: {:?}..", g.len(), g.get(i)));
    }
    for (x, g) in wantpost.iter().zip(&pg) {
        if !agrees(x, g, u.strict, &|s| b.meta(s)) { return Verdict2::Fail(format!("{x:?}"), format!("{g:?}")); }
    }
    Verdict2::Pass(0)
}

/// conc FILE SHARD NSHARDS PROGRESS DFS RANDOM FREE BOUND SEED MAXFAIL NB LOCKS
pub fn main_conc(objs: &[&dyn ObjType], fns: &[&dyn FnType], args: &[String]) {
    let file = std::fs::read_to_string(&args[0]).unwrap();
    let num = |i: usize| -> usize { args[i].parse().unwrap() };
    let (shard, nshards, ndfs, nrnd, nfree, bound, seed, maxfail, nb) =
        (num(1), num(2), num(4), num(5), num(6), num(7), num(8), num(9), num(10));
    let level = num(11) as u8;
    LOCK_LEVEL.store(level, SeqCst);
    let prog = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&args[3]).unwrap();
    use std::os::unix::fs::FileExt;
    set_hook();
    let mut lines = file.lines();
    let u = parse_universe(lines.next().unwrap());
    let bs = bindings(&u, objs, fns);
    let labels: Vec<String> = bs.iter().map(|b| b.label()).collect();
    let pool = Pool::new(4);
    let (mut runs, mut skips, mut fails, mut seen, mut allowed, mut exhausted) = (0u64, 0u64, 0usize, 0u64, 0u64, 0u64);
    let mut used: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut job = 0usize;
    'outer: for (i, line) in lines.enumerate() {
        if i % nshards != shard { continue; }
        let blk = line.strip_prefix("K#");
        let sc = if blk.is_some() { None } else { Some(parse_scn(line, &u)) };
        for (bi, b) in bs.iter().enumerate() {
            if nb > 0 && bs.len() > nb && (bi + (i / nshards)) % bs.len().div_ceil(nb) != 0 { continue; }
            job += 1;
            prog.write_at(format!("{job} {i} {bi}            ").as_bytes(), 0).unwrap();
            let mut report = |v: Verdict2, runs: &mut u64, skips: &mut u64| -> Result<usize, bool> {
                match v {
                    Verdict2::Pass(k) => { *runs += 1; Ok(k) }
                    Verdict2::Skip => { *skips += 1; Err(false) }
                    Verdict2::Fail(w, g) => {
                        println!("MISMATCH\t{i}\t{}\t0\t{}\t{}", labels[bi], w.replace(['\n', '\t'], " "), g.replace(['\n', '\t'], " "));
                        Err(true)
                    }
                    Verdict2::Fatal(w, g) => {
                        println!("MISMATCH\t{i}\t{}\t0\t{}\t{}", labels[bi], w.replace(['\n', '\t'], " "), g.replace(['\n', '\t'], " "));
                        use std::io::Write;
                        std::io::stdout().flush().unwrap();
                        std::process::exit(0);
                    }
                }
            };
            let mut stop = None;
            if let Some(l) = blk {
                for k in 0..nfree.max(1).min(8) {
                    match report(bulk(l, &u, b, 4, (seed * 1000 + i * 10 + k) as u64), &mut runs, &mut skips) {
                        Ok(_) => (), Err(f) => { stop = Some(f); break; }
                    }
                }
            } else {
                let sc = sc.as_ref().unwrap();
                let mut hit = vec![false; sc.vecs.len()];
                // first without, then with switching points at locks
                for level in if level > 0 && LOCKS.get().is_some() { vec![0, level] } else { vec![0] } {
                    LOCK_LEVEL.store(level, SeqCst);
                    let mut d = Dfs { stack: vec![], bound, rnd: (seed * 7919 + i) as u64, random: false, done: false };
                    let mut k = 0;
                    let (ndfs, nrnd) = if level == 0 { (ndfs, nrnd) } else { (ndfs * 3, nrnd * 2) };
                    while k < ndfs && !d.done {
                        match report(execute(sc, b, &pool, Mode::Dfs(&mut d), u.strict), &mut runs, &mut skips) {
                            Ok(v) => hit[v] = true, Err(f) => { stop = Some(f); break; }
                        }
                        k += 1;
                    }
                    if stop.is_none() {
                        if d.done { exhausted += 1; }
                        d.random = true;
                        for _ in 0..nrnd {
                            match report(execute(sc, b, &pool, Mode::Dfs(&mut d), u.strict), &mut runs, &mut skips) {
                                Ok(v) => hit[v] = true, Err(f) => { stop = Some(f); break; }
                            }
                        }
                    }
                    if stop.is_some() { break; }
                }
                if stop.is_none() {
                    for k in 0..nfree {
                        match report(execute(sc, b, &pool, Mode::Free((seed * 100 + k) as u64), u.strict), &mut runs, &mut skips) {
                            Ok(v) => hit[v] = true, Err(f) => { stop = Some(f); break; }
                        }
                    }
                }
                if stop != Some(false) {
                    seen += hit.iter().filter(|x| **x).count() as u64;
                    allowed += hit.len() as u64;
                }
            }
            let e = used.entry(labels[bi].clone()).or_default();
            match stop { None => e.0 += 1, Some(false) => e.1 += 1, Some(true) => { fails += 1; if fails >= maxfail { break 'outer; } } }
        }
    }
    prog.write_at(b"done                     ", 0).unwrap();
    for (k, (p, s)) in used { println!("BINDING\t{k}\t{p}\t{s}"); }
    println!("VECTORS\t{seen}\t{allowed}\t{exhausted}");
    println!("SUMMARY\t{runs}\t{skips}\t{fails}\t{runs}");
}

#[cfg(mockall_verif)]
fn set_hook() { let _ = mockall::verif::HOOK.set(hook); }
#[cfg(not(mockall_verif))]
fn set_hook() {}
