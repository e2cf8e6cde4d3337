//! The simulation kernel: simulated threads on one real thread, a virtual clock, timed events and one stream of choices.
//! Everything that runs under the simulator blocks, sleeps, reads clocks and draws randomness through this crate.
pub mod sync;
pub mod thread;
pub mod time;
pub mod exec;
pub mod net;

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use corosensei::{Coroutine, CoroutineResult, Yielder, stack::DefaultStack};

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(mix(seed ^ 0x9e3779b97f4a7c15)) }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); mix(self.0) }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
}

pub type Tid = usize;
type Co = Coroutine<(), (), ()>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Stt { Ready, Blocked, Done }
struct Th {
    co: Option<Co>, st: Stt, name: String, group: u32, token: bool,
    join: Vec<Tid>, panic: Option<String>, stalled_until: u64, why: &'static str, since: u64, waits: u64,
}
/// How the next runnable thread is chosen.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Policy { Uniform, Sticky(u32), Priority }
#[derive(Clone, Debug)]
pub struct Cfg { pub seed: u64, pub policy: Policy, pub stall_per_1000: u32, pub slice_ns: u64, pub max_slices: u64, pub start_ns: u64, pub replay: Option<Vec<u16>> }
#[derive(Clone, Debug, Default)]
pub struct Report {
    pub slices: u64, pub switches: u64, pub end_ns: u64, pub hash: u64, pub choices: Vec<u16>, pub threads: usize,
    pub panics: Vec<(String, u32, String)>, pub exhausted: bool, pub deadlock: Vec<String>, pub stalls: u64,
}
struct K {
    cfg: Cfg, rng: Rng, data: Rng, now: u64, th: Vec<Th>, cur: Tid, ready: Vec<Tid>,
    events: BTreeMap<(u64, u64), Box<dyn FnOnce()>>, seq: u64,     rep: Report, prio: Vec<u64>, at: usize, dying: bool, group: u32, dead_groups: BTreeSet<u32>,
}
thread_local! {
    static KERNEL: RefCell<Option<K>> = const { RefCell::new(None) };
    static YIELD: Cell<*const Yielder<(), ()>> = const { Cell::new(std::ptr::null()) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static NOW: Cell<u64> = const { Cell::new(0) };
    static RUNNING: Cell<bool> = const { Cell::new(false) };
}
fn k<R>(f: impl FnOnce(&mut K) -> R) -> R { KERNEL.with(|c| f(c.borrow_mut().as_mut().expect("outside a simulation"))) }
/// Whether the calling code runs on a simulated thread of a live simulation.
pub fn inside() -> bool { !YIELD.with(|y| y.get()).is_null() }
pub fn active() -> bool { RUNNING.try_with(|r| r.get()).unwrap_or(false) }
pub fn dying() -> bool { KERNEL.with(|c| c.try_borrow().ok().and_then(|k| k.as_ref().map(|k| k.dying)).unwrap_or(true)) }
pub fn now() -> u64 { NOW.try_with(|n| n.get()).unwrap_or(0) }
pub fn me() -> Tid { k(|k| k.cur) }
/// The group (simulated computer) the current thread belongs to; threads inherit it.
pub fn group() -> u32 { k(|k| k.group) }
pub fn set_group(g: u32) { k(|k| { k.group = g; let c = k.cur; if c < k.th.len() { k.th[c].group = g } }) }
pub fn slices() -> u64 { k(|k| k.rep.slices) }

pub struct Cancel;

/// One choice among `n`; 0 is always the plainest one.
pub fn choose(n: usize) -> usize {
    if n <= 1 { return 0 }
    k(|k| k.pick(n, |r| r.below(n as u64) as usize))
}
/// True with the given probability; false is the plain choice.
pub fn chance(num: u32, den: u32) -> bool {
    if num == 0 { return false }
    k(|k| k.pick(2, |r| (r.below(den as u64) < num as u64) as usize)) == 1
}
/// Random data (identities, seeds) that is not part of the schedule.
pub fn data() -> u64 { KERNEL.with(|c| match c.borrow_mut().as_mut() { Some(k) => k.data.next(), None => 0x1234_5678_9abc_def1 }) }
/// Folds something observable into the fingerprint of the run.
pub fn note(x: u64) { k(|k| k.rep.hash = mix(k.rep.hash ^ x.wrapping_mul(0x9e3779b97f4a7c15)).wrapping_add(1)) }
pub fn note_str(s: &str) { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3) } note(h) }

impl K {
    fn pick(&mut self, n: usize, f: impl FnOnce(&mut Rng) -> usize) -> usize {
        let c = match &self.cfg.replay {
            Some(v) => v.get(self.at).copied().unwrap_or(0) as usize % n,
            None => f(&mut self.rng),
        };
        self.at += 1;
        self.rep.choices.push(c as u16);
        self.rep.hash = mix(self.rep.hash ^ (c as u64 + 1));
        c
    }
    fn new_thread(&mut self, name: String, co: Co) -> Tid {
        let t = self.th.len();
        self.th.push(Th { co: Some(co), st: Stt::Ready, name, group: self.group, token: false, join: vec![], panic: None, stalled_until: 0, why: "", since: 0, waits: 0 });
        let p = self.rng.next();
        self.prio.push(p);
        self.ready.push(t);
        self.rep.threads += 1;
        t
    }
    fn wake(&mut self, t: Tid) {
        let th = &mut self.th[t];
        th.token = true;
        if th.st == Stt::Blocked { th.st = Stt::Ready; self.ready.push(t) }
    }
}

pub fn spawn(name: &str, f: impl FnOnce() + 'static) -> Tid {
    let stack = STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| DefaultStack::new(1 << 20).expect("stack"));
    let co: Co = Coroutine::with_stack(stack, move |y, ()| {
        YIELD.with(|c| c.set(y));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        if let Err(e) = r {
            if !e.is::<Cancel>() {
                let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into());
                k(|k| { let c = k.cur; k.th[c].panic = Some(m.clone()); let n = k.th[c].name.clone(); let g = k.th[c].group; if !k.dying && !k.dead_groups.contains(&g) { k.rep.panics.push((n, g, m)) } })
            }
        }
        k(|k| { let c = k.cur; for j in std::mem::take(&mut k.th[c].join) { k.wake(j) } })
    });
    k(|k| k.new_thread(name.to_string(), co))
}
/// Records panics that code catches itself (tasks of the asynchronous runtime).
pub fn record_panic(what: &str) {
    let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into());
    k(|k| if !k.dying && !k.dead_groups.contains(&k.group) { let g = k.group; k.rep.panics.push((what.into(), g, m)) })
}
pub fn take_last_panic() -> Option<String> { LAST_PANIC.with(|p| p.borrow_mut().take()) }
pub fn panic_of(t: Tid) -> Option<String> { k(|k| k.th[t].panic.clone()) }
pub fn finished(t: Tid) -> bool { k(|k| k.th[t].st == Stt::Done) }
/// Threads of a group that have not ended.
pub fn live_threads(g: u32) -> Vec<String> { k(|k| k.th.iter().enumerate().filter(|(i, t)| t.group == g && t.st != Stt::Done && *i != k.cur).map(|(_, t)| format!("{} ({})", t.name, t.why)).collect()) }
/// Ends every thread of a group the way a killed process ends: nothing of it runs any more.
pub fn kill_group(g: u32) { k(|k| { k.dead_groups.insert(g); k.th.iter_mut().filter(|t| t.group == g && t.st == Stt::Ready).for_each(|t| t.st = Stt::Blocked); let th = &k.th; k.ready.retain(|t| th[*t].group != g) }) }
pub fn is_dead(g: u32) -> bool { k(|k| k.dead_groups.contains(&g)) }

fn suspend_quietly() {
    let y = YIELD.with(|c| c.get());
    assert!(!y.is_null(), "a simulated operation outside a simulated thread");
    unsafe { (*y).suspend(()) };
    YIELD.with(|c| c.set(y));
}
fn check_cancel() { if !std::thread::panicking() && (dying() || is_dead(group())) { std::panic::resume_unwind(Box::new(Cancel)) } }
fn suspend() { suspend_quietly(); check_cancel() }
/// A point where another thread may be scheduled.
pub fn preempt() {
    if !inside() || std::thread::panicking() { return }
    check_cancel();
    suspend()
}
/// True when the calling thread must not wait any more: it is unwinding.
pub fn unwinding() -> bool { std::thread::panicking() }
/// Blocks until woken; a wake that came before counts once.
pub fn block(why: &'static str) {
    if std::thread::panicking() { return }
    check_cancel();
    let go = k(|k| { let c = k.cur; let now = k.now; let t = &mut k.th[c]; if t.token { t.token = false; true } else { t.st = Stt::Blocked; t.why = why; t.since = now; t.waits += 1; false } });
    if go { preempt(); return }
    suspend();
    k(|k| { let c = k.cur; k.th[c].token = false; k.th[c].why = "" });
}
pub fn wake(t: Tid) { k(|k| if !k.dead_groups.contains(&k.th[t].group) { k.wake(t) }) }
pub fn at(t: u64, f: impl FnOnce() + 'static) -> (u64, u64) { k(|k| { k.seq += 1; let key = (t.max(k.now), k.seq); k.events.insert(key, Box::new(f)); key }) }
pub fn after(d: u64, f: impl FnOnce() + 'static) -> (u64, u64) { at(now() + d, f) }
pub fn cancel(key: (u64, u64)) { KERNEL.with(|c| if let Ok(mut c) = c.try_borrow_mut() { if let Some(k) = c.as_mut() { let e = k.events.remove(&key); drop(c); drop(e) } }) }
pub fn sleep_until(t: u64) {
    let m = me();
    while now() < t {
        if std::thread::panicking() { return }
        let key = at(t, move || wake(m));
        block("sleep");
        cancel(key);
    }
    preempt()
}
pub fn sleep_ns(d: u64) { sleep_until(now() + d.max(1)) }

/// Runs a simulation until `main` ends.
pub fn run(cfg: Cfg, main: impl FnOnce() + 'static) -> Report {
    let start = cfg.start_ns;
    KERNEL.with(|c| *c.borrow_mut() = Some(K {
        rng: Rng::new(cfg.seed), data: Rng::new(cfg.seed ^ 0xda7a), now: start, th: vec![], cur: 0, ready: vec![], events: BTreeMap::new(), seq: 0,
        rep: Report::default(), prio: vec![], at: 0, dying: false, group: 0, dead_groups: BTreeSet::new(), cfg,
    }));
    NOW.with(|n| n.set(start));
    RUNNING.with(|r| r.set(true));
    let m = spawn("main", main);
    loop {
        // timed events that are due
        loop {
            let e = k(|k| match k.events.keys().next().copied() { Some(x) if x.0 <= k.now => k.events.remove(&x), _ => None });
            match e { Some(f) => f(), None => break }
        }
        if k(|k| k.th[m].st == Stt::Done) { break }
        let t = k(|k| {
            if k.rep.slices >= k.cfg.max_slices { k.rep.exhausted = true; return Err(false) }
            let now = k.now;
            let mut ready: Vec<Tid> = k.ready.iter().copied().filter(|t| k.th[*t].stalled_until <= now).collect();
            if ready.is_empty() {
                let s = k.ready.iter().map(|t| k.th[*t].stalled_until).min();
                let e = k.events.keys().next().map(|x| x.0);
                return match (s, e) {
                    (None, None) => { k.rep.deadlock = k.th.iter().filter(|t| t.st != Stt::Done).map(|t| format!("{} of {} ({})", t.name, t.group, t.why)).collect(); Err(false) }
                    (a, b) => { k.now = a.unwrap_or(u64::MAX).min(b.unwrap_or(u64::MAX)); NOW.with(|n| n.set(k.now)); Err(true) }
                };
            }
            ready.sort();
            // the running thread first: choice 0 goes on with it
            if let Some(p) = ready.iter().position(|t| *t == k.cur) { ready.remove(p); let c = k.cur; ready.insert(0, c) }
            let n = ready.len();
            let i = if n == 1 { 0 } else {
                let pol = k.cfg.policy;
                let prio: Vec<u64> = ready.iter().map(|t| k.prio[*t]).collect();
                let c = k.pick(n, |r| match pol {
                    Policy::Uniform => r.below(n as u64) as usize,
                    Policy::Sticky(p) => if r.below(1000) < p as u64 { 0 } else { r.below(n as u64) as usize },
                    Policy::Priority => if r.below(12) == 0 { r.below(n as u64) as usize } else { (0..n).max_by_key(|i| prio[*i]).unwrap() },
                });
                if pol == Policy::Priority && k.rng.below(40) == 0 { let x = k.rng.next(); k.prio[ready[c]] = x }
                c
            };
            let t = ready[i];
            if k.cfg.stall_per_1000 > 0 && n > 1 && t != m {
                let p = k.cfg.stall_per_1000;
                let s = k.pick(2, |r| (r.below(100_000) < p as u64) as usize);
                if s == 1 { let d = k.pick(8, |r| r.below(8) as usize) as u64; k.th[t].stalled_until = now + 1_000_000 * (1 + d * d); k.rep.stalls += 1; return Err(true) }
            }
            if t != k.cur { k.rep.switches += 1 }
            Ok(t)
        });
        let t = match t { Ok(t) => t, Err(true) => continue, Err(false) => break };
        resume(t);
        k(|k| { k.now += k.cfg.slice_ns; NOW.with(|n| n.set(k.now)) });
    }
    // take everything down: blocked threads unwind
    k(|k| k.dying = true);
    let evs = k(|k| std::mem::take(&mut k.events));
    drop(evs);
    let mut i = 0;
    while i < k(|k| k.th.len()) {
        let mut spins = 0;
        let fresh = k(|k| if k.th[i].co.as_ref().map(|c| !c.started()).unwrap_or(false) { k.th[i].st = Stt::Done; k.th[i].co.take() } else { None });
        drop(fresh);
        while k(|k| k.th[i].co.is_some()) && spins < 10_000 { resume(i); spins += 1 }
        if k(|k| k.th[i].co.is_some()) { eprintln!("a simulated thread does not end: {}", k(|k| k.th[i].name.clone())); std::process::abort() }
        i += 1;
    }
    exec::reset();
    net::set_world(None);
    RUNNING.with(|r| r.set(false));
    let kk = KERNEL.with(|c| c.borrow_mut().take()).unwrap();
    let mut rep = kk.rep.clone();
    rep.end_ns = kk.now;
    drop(kk);
    rep
}
fn resume(t: Tid) {
    let mut co = k(|k| { k.cur = t; k.rep.slices += 1; k.group = k.th[t].group; k.th[t].co.take().unwrap() });
    let r = co.resume(());
    YIELD.with(|c| c.set(std::ptr::null()));
    match r {
        CoroutineResult::Yield(()) => k(|k| { if k.th[t].st == Stt::Blocked { k.ready.retain(|x| *x != t) } k.th[t].co = Some(co) }),
        CoroutineResult::Return(()) => {
            let stack = co.into_stack();
            STACKS.with(|s| s.borrow_mut().push(stack));
            k(|k| { k.th[t].st = Stt::Done; k.ready.retain(|x| *x != t) })
        }
    }
}

/// Keeps panic messages with their place and stays quiet about them.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|x| x.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "panic".into());
        let at = i.location().map(|l| format!("{}:{}", l.file().rsplit("/src/").next().unwrap_or(""), l.line())).unwrap_or_default();
        if !active() { eprintln!("{m} at {at}") }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{m} at {at}")));
    }));
}

// Clock readings and entropy of everything in this program come from the simulation while one is running.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32 {
    if active() {
        if clk == 0 && inside() && !std::thread::panicking() && !dying() { suspend_quietly() }
        let n = now();
        (*ts) = [(n / 1_000_000_000) as i64, (n % 1_000_000_000) as i64];
        return 0;
    }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") 228i64 => r, in("rdi") clk as i64, in("rsi") ts, lateout("rcx") _, lateout("r11") _);
    r as i32
}
pub fn k_join(t: Tid, m: Tid) { k(|k| k.th[t].join.push(m)) }
