//! Runs one case: the real VM and the reference model in lock step, compared event by event.
use std::cell::Cell;
use std::collections::{HashMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use serde::{Serialize, Deserialize};
use netsblox_vm::bytecode::{ByteCode, InitInfo, Locations};
use netsblox_vm::compact_str::CompactString;
use netsblox_vm::gc::*;
use netsblox_vm::process::ErrorSummary;
use netsblox_vm::project::*;
use netsblox_vm::runtime::*;
use netsblox_vm::vecmap::VecMap;
use crate::ir::*;
use crate::model::*;
use crate::simsys::{self, C, Sim, Val};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum What {
    Start, Stop, Key(char), KeyUp(char), Jump(i64),
    Custom { name: String, args: Vec<(String, Sn)>, interrupt: bool, maxq: u32 },
    Net { ty: String, fields: Vec<(String, Sn)>, reply: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Action { pub at: u32, pub sub: u32, pub what: What }
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum GcPat { Never, Full(u32), Debt(u32), Rand(u64) }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub prog: Prog, pub opts: Opts, pub actions: Vec<Action>, pub outcomes: Vec<Outcome>,
    pub start_ms: u64, pub tick: u64, pub gc: GcPat, pub segs: u32, pub idle_thresh: u32, pub burst: u32, pub compare_every: u32,
    #[serde(default)] pub pad: u32, #[serde(default)] pub bounded: bool,
    /// how many ended processes the host keeps hold of
    #[serde(default)] pub keep: u32,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Violation { pub kind: String, pub detail: String, pub seg: u32 }
#[derive(Default, Clone, Debug)]
pub struct Stats { pub segs: u64, pub steps: u64, pub sim_ms: u64, pub events: u64, pub hash: u64, pub faults: HashMap<&'static str, u64>, pub cov: HashMap<&'static str, u64>, pub discard: Option<&'static str>, pub max_alloc: usize, pub procs: u64, pub kinds: HashMap<&'static str, u64>, pub ops: HashMap<String, u64>, pub size: usize }
pub struct Outcome2 { pub violation: Option<Violation>, pub stats: Stats, pub trace: Vec<Ev>, pub full: Vec<String> }

/// How the real side is prepared; variations must not be observable.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Variant { Plain, Reload, Perturbed }

#[derive(Collect)]
#[collect(no_drop)]
struct Env<'gc> {
    proj: Project<'gc, C, Sim>,
    watchers: Vec<Watcher<'gc, C, Sim>>,
    junk: Vec<Gc<'gc, RefLock<VecDeque<Val<'gc>>>>>,
    dead: VecDeque<netsblox_vm::process::Process<'gc, C, Sim>>,
}
type EnvArena = Arena<Rootable![Env<'_>]>;

pub struct Real { arena: EnvArena, sys: Rc<Sim>, locs: Rc<Locations>, log_len: usize, idle: IdleAction, fired: Rc<Cell<u64>>, exp_fired: u64, idle_cnt: u32, thresh: u32, steps: u64, gc: GcPat, gcr: crate::rng::Rng, perturb: Option<crate::rng::Rng>, full: Option<Vec<String>>, max_alloc: usize, clear_log: bool, keep: usize }

pub fn padded(role: &mut netsblox_vm::ast::Role, pad: u32) {
    use netsblox_vm::ast::{self, *};
    if pad == 0 { return }
    // dead code with many distinct strings in front of everything else, so that offsets grow beyond the small encodings
    let info = || Box::new(BlockInfo { comment: None, location: Some("item_999999".into()) });
    let mut stmts = vec![];
    for i in 0..pad {
        let text = format!("padding string number {i} {}", "z".repeat((i % 23) as usize));
        stmts.push(Stmt { kind: StmtKind::Say { content: Box::new(ast::Expr::from(text.as_str())), duration: None }, info: info() });
    }
    let dead = ast::Script { hat: Some(Box::new(ast::Hat { kind: ast::HatKind::Unknown { name: "never used".into(), fields: vec![] }, info: info() })), stmts: stmts.clone() };
    if let Some(e) = role.entities.first_mut() { e.scripts.insert(0, dead) }
    let _ = VarLocation::Global;
}

impl Real {
    pub fn new(case: &Case, variant: Variant) -> Result<Real, String> {
        let mut role = lower(&case.prog);
        padded(&mut role, case.pad);
        let (mut bc, mut init, locs, _) = ByteCode::compile(&role).map_err(|e| format!("compile error {e:?}"))?;
        if variant == Variant::Reload {
            let a = serde_json::to_string(&bc).map_err(|e| e.to_string())?;
            let b = serde_json::to_string(&init).map_err(|e| e.to_string())?;
            bc = serde_json::from_str(&a).map_err(|e| e.to_string())?;
            init = serde_json::from_str::<InitInfo>(&b).map_err(|e| e.to_string())?;
        }
        simsys::NEXT_ENT.with(|x| x.set(0));
        let sys = Rc::new(Sim::new(case.start_ms, case.opts.clock, Rc::new(case.outcomes.clone()), case.opts.max_depth));
        sys.0.borrow_mut().props = case.opts.props;
        let sys2 = sys.clone();
        let scheme = |s| if s { ErrorScheme::Soft } else { ErrorScheme::Hard };
        let settings = Settings { max_call_depth: case.opts.max_depth, rpc_error_scheme: scheme(case.opts.rpc_soft), syscall_error_scheme: scheme(case.opts.sys_soft) };
        let bc = Rc::new(bc);
        let arena = EnvArena::new(|mc| Env { proj: Project::from_init(mc, &init, bc, settings, sys2), watchers: vec![], junk: vec![], dead: VecDeque::new() });
        let fired = Rc::new(Cell::new(0));
        let f2 = fired.clone();
        let gc = if variant == Variant::Perturbed { match case.gc { GcPat::Full(_) => GcPat::Never, _ => GcPat::Full(1) } } else { case.gc };
        Ok(Real {
            arena, sys, locs: Rc::new(locs), log_len: 0, idle: IdleAction::new(case.idle_thresh as usize, Box::new(move || f2.set(f2.get() + 1))), fired, exp_fired: 0, idle_cnt: 0, thresh: case.idle_thresh,
            steps: 0, gc, gcr: crate::rng::Rng::new(match case.gc { GcPat::Rand(s) => s, _ => 1 }), perturb: if variant == Variant::Perturbed { Some(crate::rng::Rng::new(case.start_ms ^ 0x55)) } else { None },
            full: None, max_alloc: 0, clear_log: case.bounded, keep: case.keep as usize,
        })
    }
    fn input(&mut self, x: Input) { self.arena.mutate_root(|mc, e| e.proj.input(mc, x)) }
    fn gc(&mut self) {
        match self.gc {
            GcPat::Never => (),
            GcPat::Full(n) => if self.steps % n.max(1) as u64 == 0 { self.full_gc() },
            GcPat::Debt(n) => if self.steps % n.max(1) as u64 == 0 { self.arena.collect_debt() },
            GcPat::Rand(_) => match self.gcr.below(40) { 0 => self.full_gc(), 1..=4 => self.arena.collect_debt(), _ => () },
        }
    }
    pub fn full_gc(&mut self) { self.arena.collect_all(); self.arena.collect_all(); }
    /// One real step; observable events are appended to the system's list.
    fn step(&mut self) -> Result<(), Violation> {
        self.steps += 1;
        let sys = self.sys.clone();
        let locs = self.locs.clone();
        let log_len = self.log_len;
        let want_full = self.full.is_some();
        let clear_log = self.clear_log;
        let keep = self.keep;
        let idle = &mut self.idle;
        let mut full = String::new();
        if let Some(r) = &mut self.perturb {
            let n = r.us(3);
            let drop = r.chance(1, 20);
            self.arena.mutate_root(|mc, e| {
                for _ in 0..n { e.junk.push(Gc::new(mc, RefLock::new(VecDeque::new()))) }
                if drop { e.junk.clear() }
            });
        }
        let (len, is_idle, viol) = self.arena.mutate_root(|mc, e| {
            let st = e.proj.step(mc);
            idle.consume(&st);
            let mut is_idle = matches!(st, ProjectStep::Idle | ProjectStep::Yield | ProjectStep::Pause);
            let mut viol = None;
            // new log entries
            let mut len = log_len;
            {
                let gc = e.proj.get_global_context();
                let gc = gc.borrow();
                let log = gc.globals.lookup(LOG);
                match log.map(|x| x.get().clone()) {
                    Some(Value::List(l)) if clear_log => {
                        let mut l = l.borrow_mut(mc);
                        let mut s = sys.0.borrow_mut();
                        for x in l.iter() { s.evs.push(Ev::Log(simsys::snap(x))) }
                        *l = Default::default();
                    }
                    Some(Value::List(l)) => {
                        let l = l.borrow();
                        let mut s = sys.0.borrow_mut();
                        if l.len() < log_len { viol = Some("log shrank".to_string()) }
                        for x in l.iter().skip(log_len) { s.evs.push(Ev::Log(simsys::snap(x))) }
                        len = l.len();
                    }
                    _ => viol = Some("the log variable is gone".into()),
                }
            }
            let ev = match st {
                ProjectStep::Normal => None,
                ProjectStep::Idle => Some(Ev::Idle),
                ProjectStep::Yield => Some(Ev::Yield),
                ProjectStep::Pause => Some(Ev::Pause),
                ProjectStep::ProcessTerminated { result, proc } => {
                    if proc.is_running() { viol = Some("terminated script still running".into()) }
                    let ev = Ev::Term { ent: proc.get_call_stack().last().unwrap().entity.borrow().state.id, val: simsys::snap(&result) };
                    if keep > 0 { e.dead.push_back(proc); while e.dead.len() > keep { e.dead.pop_front(); } }
                    Some(ev)
                }
                ProjectStep::Error { error, proc } => {
                    let sum = ErrorSummary::extract(&error, &proc, &locs);
                    let ent = { let e = proc.get_call_stack().last().unwrap().entity; let e = e.borrow(); if sum.entity != e.name.as_str() { viol = Some("error reported for the wrong sprite".into()) } e.state.id };
                    if want_full { full = format!("{sum:?}") }
                    let text = match &error.cause { ErrorCause::Custom { msg } => Sn::S(msg.to_string()), x => Sn::S(format!("{x:?}")) };
                    let frames = proc.get_call_stack().len();
                    if sum.trace.len() != frames { viol = Some(format!("error trace has {} entries for {frames} frames", sum.trace.len())) }
                    // the variables as they are at this moment
                    {
                        fn vars(t: &netsblox_vm::runtime::SymbolTable<'_, simsys::C, simsys::Sim>) -> Vec<(String, String)> { t.iter().map(|(k, v)| (k.to_string(), format!("{:?}", &*v.get()))).collect() }
                        let told = |v: &[netsblox_vm::process::VarEntry]| -> Vec<(String, String)> { v.iter().map(|x| (x.name.to_string(), x.value.to_string())).collect() };
                        let gc = e.proj.get_global_context();
                        if told(&sum.globals) != vars(&gc.borrow().globals) { viol = Some("error report with wrong global variables".into()) }
                        if told(&sum.fields) != vars(&proc.get_call_stack().last().unwrap().entity.borrow().fields) { viol = Some("error report with wrong sprite variables".into()) }
                        for (t, f) in sum.trace.iter().zip(proc.get_call_stack()) { if told(&t.locals) != vars(&f.locals) { viol = Some("error report with wrong local variables".into()) } }
                    }
                    let sites = sum.trace.iter().map(|t| t.location.strip_prefix("item_").and_then(|x| x.parse().ok())).collect();
                    let locals = sum.trace.iter().map(|t| { let mut v: Vec<String> = t.locals.iter().map(|x| x.name.to_string()).collect(); v.sort(); v }).collect();
                    if keep > 0 { e.dead.push_back(proc); while e.dead.len() > keep { e.dead.pop_front(); } }
                    Some(Ev::Err { ent, text, sites, locals })
                }
                ProjectStep::Watcher { create, watcher } => {
                    let ent = watcher.entity.upgrade(mc).map(|e| e.borrow().state.id).unwrap_or(u32::MAX);
                    let val = watcher.value.upgrade(mc).map(|v| simsys::snap(&v.borrow())).unwrap_or(Sn::O);
                    let name = watcher.name.to_string();
                    e.watchers.push(watcher);
                    Some(Ev::Watch { create, ent, name, val })
                }
            };
            if let Some(ev) = ev { sys.0.borrow_mut().evs.push(ev) } else { is_idle = false }
            (len, is_idle, viol)
        });
        self.log_len = len;
        if let Some(v) = &mut self.full { if !full.is_empty() { v.push(full) } }
        // the idle action, counted independently
        if is_idle { self.idle_cnt += 1; if self.idle_cnt >= self.thresh { self.idle_cnt = 0; self.exp_fired += 1 } } else { self.idle_cnt = 0 }
        if self.fired.get() != self.exp_fired { return Err(Violation { kind: "idle action".into(), detail: format!("fired {} times, expected {}", self.fired.get(), self.exp_fired), seg: 0 }) }
        if let Some(x) = viol { return Err(Violation { kind: "host view".into(), detail: x, seg: 0 }) }
        if let Some(x) = self.sys.0.borrow().bad.first() { return Err(Violation { kind: "host protocol".into(), detail: x.clone(), seg: 0 }) }
        self.gc();
        if self.steps % 64 == 0 { let a = self.arena.metrics().total_allocation(); if a > self.max_alloc { self.max_alloc = a } }
        Ok(())
    }
    fn take(&mut self) -> Vec<Ev> { std::mem::take(&mut self.sys.0.borrow_mut().evs) }
    fn has_ev(&self) -> bool { !self.sys.0.borrow().evs.is_empty() }

    /// Compares the complete reachable state, including which containers are shared.
    fn compare(&mut self, m: &Model) -> Result<u64, String> {
        let mut err = None;
        let mut n = 0u64;
        self.arena.mutate(|mc, e| {
            let gc = e.proj.get_global_context();
            let gc = gc.borrow();
            let mut cmp = Cmp { m, lists: Default::default(), rlists: Default::default(), clos: Default::default(), rclos: Default::default(), ents: Default::default(), n: 0, err: None, todo: vec![] };
            if gc.globals.len() != m.globals.len() { cmp.err = Some(format!("{} globals, expected {}", gc.globals.len(), m.globals.len())) }
            for (name, c) in &m.globals {
                if name == LOG { continue }
                match gc.globals.lookup(name) {
                    Some(x) => cmp.val(&x.get(), &m.cells[*c], &format!("global {name}")),
                    None => cmp.err = Some(format!("global {name} is missing")),
                }
            }
            for i in 0..m.prog.ents.len() {
                if let Some(e) = gc.entities.get(m.prog.ents[i].name.as_str()) { cmp.ent(*e, i, "project") } else { cmp.err = Some(format!("sprite {i} is missing")) }
            }
            while let Some((e, i)) = cmp.todo.pop() {
                let e = e.borrow();
                if e.state.id != i as u32 { cmp.err = Some("entity identity".into()) }
                if e.original.is_some() != m.ents[i].orig.is_some() { cmp.err = Some(format!("clone status of entity {i}")) }
                cmp.looks(&e.state.props.borrow(), i);
                if e.fields.len() != m.ents[i].fields.len() { cmp.err = Some(format!("field count of entity {i}")) }
                for (name, c) in &m.ents[i].fields {
                    match e.fields.lookup(name) {
                        Some(x) => cmp.val(&x.get(), &m.cells[*c], &format!("field {name} of entity {i}")),
                        None => cmp.err = Some(format!("field {name} of entity {i} is missing")),
                    }
                }
            }
            n = cmp.n;
            err = cmp.err;
            if err.is_none() {
                let reach = std::cell::OnceCell::new();
                for (k, w) in e.watchers.iter().enumerate() {
                    let Some(&cell) = m.watch.get(k) else { err = Some("more watchers than expected".into()); break };
                    match w.value.upgrade(mc) {
                        Some(v) => { let got = simsys::snap(&v.borrow()); let want = m.snap(&m.cells[cell]); if !m.big.get() && !want.matches(&got) { err = Some(format!("watched {} reads {got:?}, expected {want:?}", w.name)) } }
                        None => if reach.get_or_init(|| m.reachable_cells())[cell] { err = Some(format!("watch handle of {} is dead while the variable is alive", w.name)) },
                    }
                }
            }
        });
        match err { Some(e) => Err(e), None => Ok(n) }
    }
}
struct Cmp<'a, 'gc> {
    m: &'a Model, lists: HashMap<usize, usize>, rlists: HashMap<usize, usize>, clos: HashMap<usize, usize>, rclos: HashMap<usize, usize>, ents: HashMap<usize, usize>,
    n: u64, err: Option<String>, todo: Vec<(Gc<'gc, RefLock<Entity<'gc, C, Sim>>>, usize)>,
}
fn bij(a: &mut HashMap<usize, usize>, b: &mut HashMap<usize, usize>, x: usize, y: usize) -> Result<bool, ()> {
    match (a.get(&x), b.get(&y)) {
        (Some(p), Some(q)) if *p == y && *q == x => Ok(false),
        (None, None) => { a.insert(x, y); b.insert(y, x); Ok(true) }
        _ => Err(()),
    }
}
impl<'a, 'gc> Cmp<'a, 'gc> {
    fn looks(&mut self, p: &Properties, i: usize) {
        let l = &self.m.ents[i].looks;
        for prop in simsys::ALL_PROPS {
            let name = simsys::pname(&prop);
            let got = simsys::property(p, prop);
            let ok = match (&got, name) {
                (Sn::T(x), "Visible") => *x == l.visible,
                (Sn::T(x), "PenDown") => *x == l.pen_down,
                (Sn::N(x), "PenColor") => { let (c, tol) = l.pen_argb(); (*x as u32 as f64 == *x) && c.to_be_bytes().iter().zip((*x as u32).to_be_bytes()).all(|(a, b)| a.abs_diff(b) <= tol) }
                (Sn::N(x), n) => match l.n.get(n) { Some(y) => if l.is_rough(n) { (x - y).abs() < 0.01 } else { x == y }, None => false },
                _ => false,
            };
            self.n += 1;
            if !ok { self.err = Some(format!("property {name} of entity {i} is {got:?}, expected {l:?}")) }
        }
    }
    fn ent(&mut self, e: Gc<'gc, RefLock<Entity<'gc, C, Sim>>>, i: usize, path: &str) {
        let id = Gc::as_ptr(e) as *const () as usize;
        match self.ents.get(&i) { Some(x) if *x == id => return, Some(_) => { self.err = Some(format!("{path}: different sprite object")); return } None => () }
        self.ents.insert(i, id);
        if e.borrow().state.id != i as u32 { self.err = Some(format!("{path}: sprite {} where {i} was expected", e.borrow().state.id)); return }
        self.todo.push((e, i));
    }
    fn val(&mut self, r: &Val<'gc>, v: &V, path: &str) {
        self.n += 1;
        if self.err.is_some() { return }
        let bad = match (r, v) {
            (Value::Number(a), V::N(b)) => a.get() != *b,
            (Value::Text(a), V::S(b)) => a.as_str() != &**b,
            (Value::Text(a), V::O(t)) => match t { Txt::S(x) => a.as_str() != &**x, Txt::Any => false, Txt::Has(x) => !a.as_str().contains(&**x) },
            (Value::Bool(a), V::T(b)) => a != b,
            (Value::List(a), V::L(b)) => match bij(&mut self.lists, &mut self.rlists, Gc::as_ptr(*a) as *const () as usize, *b) {
                Ok(true) => {
                    let a = a.borrow();
                    let b = &self.m.lists[*b];
                    if a.len() != b.len() { true } else {
                        for (i, (x, y)) in a.iter().zip(b).enumerate() { self.val(x, y, &format!("{path}[{i}]")) }
                        return;
                    }
                }
                Ok(false) => false,
                Err(()) => { self.err = Some(format!("{path}: lists are shared differently")); return }
            },
            (Value::Closure(a), V::C(b)) => bij(&mut self.clos, &mut self.rclos, Gc::as_ptr(*a) as *const () as usize, *b).is_err(),
            (Value::Entity(a), V::E(b)) => { self.ent(*a, *b, path); false }
            (Value::Image(a), V::I(b)) => a.name != format!("cost{}", b % 100),
            (Value::Audio(a), V::A(b)) => a.name != format!("snd{}", b % 100),
            _ => true,
        };
        if bad && self.err.is_none() { self.err = Some(format!("{path}: holds {:?}, expected {:?}", simsys::snap(r), self.m.snap(v))) }
    }
}

pub fn hash(h: u64, e: &Ev) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut x = std::collections::hash_map::DefaultHasher::new();
    h.hash(&mut x);
    format!("{e:?}").hash(&mut x);
    x.finish()
}

thread_local! { static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; static QUIET: Cell<bool> = const { Cell::new(false) }; }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<&str>().map(|x| x.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        if !QUIET.with(|q| q.get()) { eprintln!("panic at {loc}: {msg}") }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}
/// Runs `f`; a panic inside the VM becomes a violation.
fn guarded<T>(seg: u32, f: impl FnOnce() -> Result<T, Violation>) -> Result<T, Violation> {
    QUIET.with(|q| q.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(false));
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(mut v)) => { v.seg = seg; Err(v) }
        Err(_) => Err(Violation { kind: "crash".into(), detail: PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default(), seg }),
    }
}

const STEP_BUDGET: u32 = 200_000;
const MODEL_BUDGET: usize = 4_000;

/// Executes a case. `compare` = lock step against the model; otherwise only the real VM runs under `variant` and its trace is returned,
/// with inputs delivered at the same segments as recorded in `plan`.
pub fn run(case: &Case, keep_trace: bool) -> Outcome2 {
    let mut st = Stats::default();
    let mut trace = vec![];
    let prog = Rc::new(case.prog.clone());
    let mut model = Model::new(prog, case.opts.clone(), Rc::new(case.outcomes.clone()), case.start_ms);
    let mut viol = None;
    let real = match guarded(0, || Real::new(case, Variant::Plain).map_err(|e| Violation { kind: "setup".into(), detail: e, seg: 0 })) { Ok(r) => r, Err(v) => return Outcome2 { violation: Some(v), stats: st, trace, full: vec![] } };
    let mut real = Some(real);
    if let Err(v) = lockstep(case, &mut model, &mut real, &mut st, &mut trace, keep_trace) { viol = Some(v) }
    if let Some(real) = &real {
        st.steps = real.steps;
        st.max_alloc = real.max_alloc;
        st.sim_ms = model.now.saturating_sub(case.start_ms);
    }
    // a VM that panicked may be in any state: leak it rather than drop it
    if viol.as_ref().map(|v| v.kind == "crash").unwrap_or(false) { if let Some(r) = real.take() { std::mem::forget(r) } }
    st.size = model.tree_size();
    st.ops = std::mem::take(&mut model.ops_seen);
    for (k, n) in std::mem::take(&mut model.cov) { *st.cov.entry(k).or_insert(0) += n }
    if case.gc != GcPat::Never && st.steps > 20 { st.cov.insert("collected while running", 1); }
    Outcome2 { violation: viol, stats: st, trace, full: vec![] }
}

fn to_incoming(no: u32, ty: &str, fields: &[(String, Sn)], reply: bool) -> IncomingMessage {
    let mut values = VecMap::new();
    for (k, v) in fields { values.insert(CompactString::new(k), simsys::simple(v)); }
    IncomingMessage { msg_type: CompactString::new(ty), values, reply_key: if reply { Some(InternReplyKey { src_id: "src".into(), request_id: CompactString::new(format!("{no}")) }) } else { None } }
}
struct Mail { no: u32, ty: String, fields: Vec<(String, Sn)>, reply: bool }
/// Control characters stand for the keys that are not characters.
fn keycode(c: char) -> KeyCode { match c { '\u{1}' => KeyCode::Up, '\u{2}' => KeyCode::Down, '\u{3}' => KeyCode::Left, '\u{4}' => KeyCode::Right, '\n' => KeyCode::Enter, c => KeyCode::Char(c) } }
fn real_input(w: &What) -> Option<Input> {
    Some(match w {
        What::Start => Input::Start, What::Stop => Input::Stop, What::Key(c) => Input::KeyDown { key: keycode(*c) }, What::KeyUp(c) => Input::KeyUp { key: keycode(*c) },
        What::Custom { name, args, interrupt, maxq } => {
            let mut a = VecMap::new();
            for (k, v) in args { a.insert(CompactString::new(k), simsys::simple(v)); }
            Input::CustomEvent { name: CompactString::new(name), args: a, interrupt: *interrupt, max_queue: *maxq as usize }
        }
        _ => return None,
    })
}
fn model_input(m: &mut Model, w: &What) {
    let x = match w {
        What::Start => In::Start, What::Stop => In::Stop, What::Key(c) => In::Key(*c),
        What::Custom { name, args, interrupt, maxq } => In::Custom { name: name.clone(), args: args.iter().map(|x| (x.0.clone(), m.mkval(&x.1))).collect(), interrupt: *interrupt, maxq: *maxq as usize },
        _ => return,
    };
    m.input(&x)
}
fn model_mail(m: &mut Model, x: &Mail) {
    let i = In::Net { no: x.no, ty: x.ty.clone(), fields: x.fields.iter().map(|f| (f.0.clone(), m.mkval(&f.1))).collect(), reply: x.reply };
    m.input(&i)
}

fn lockstep(case: &Case, model: &mut Model, real_slot: &mut Option<Real>, st: &mut Stats, trace: &mut Vec<Ev>, keep: bool) -> Result<(), Violation> {
    let real = real_slot.as_mut().unwrap();
    let mut ai = 0usize;
    let mut inbox: VecDeque<Mail> = VecDeque::new();
    let mut mail_no = 0u32;
    let mut carry: Option<What> = None;
    let mut seg = 0u32;
    let mut streak = 0u64;
    let mut idle_rep = 0;
    let fault = |st: &mut Stats, k: &'static str| *st.faults.entry(k).or_insert(0) += 1;
    let (mut alloc_mid, mut live_mid) = (0usize, 0usize);
    loop {
        if seg >= case.segs { break }
        // inputs due now
        let mut mid: Option<(u32, What)> = None;
        let mut due = vec![];
        if let Some(w) = carry.take() { due.push(w) }
        while ai < case.actions.len() && case.actions[ai].at <= seg {
            let a = &case.actions[ai];
            match &a.what {
                What::Net { ty, fields, reply } if a.sub == 0 || mid.is_some() => { inbox.push_back(Mail { no: mail_no, ty: ty.clone(), fields: fields.clone(), reply: *reply }); mail_no += 1; fault(st, "network message arrival") }
                What::Jump(d) => {
                    model.now = if *d < 0 { model.now.saturating_sub(d.unsigned_abs()) } else { model.now.saturating_add(*d as u64) };
                    fault(st, if *d < 0 { "clock jump backwards" } else { "clock jump forwards" });
                }
                w if a.sub > 0 && mid.is_none() && !matches!(w, What::Start | What::Stop | What::Custom { interrupt: true, .. }) => mid = Some((a.sub, w.clone())),
                w => due.push(w.clone()),
            }
            ai += 1;
        }
        real.sys.0.borrow_mut().now = model.now;
        for w in &due {
            match w {
                What::Start => fault(st, "start input"), What::Stop => fault(st, "stop input"), What::Key(_) => fault(st, "key input"), What::KeyUp(_) => fault(st, "key release input"), What::Custom { .. } => fault(st, "custom event input"), _ => (),
            }
            if let What::Net { ty, fields, reply } = w { inbox.push_back(Mail { no: mail_no, ty: ty.clone(), fields: fields.clone(), reply: *reply }); mail_no += 1; continue }
            model_input(model, w);
            if let Some(x) = real_input(w) { guarded(seg, || { real.input(x); Ok(()) })? }
        }
        if let Some((_, w)) = &mid { if !inbox.is_empty() { // keep arrival order: deliver at the boundary instead
            match w { What::Net { ty, fields, reply } => { inbox.push_back(Mail { no: mail_no, ty: ty.clone(), fields: fields.clone(), reply: *reply }); mail_no += 1; fault(st, "network message arrival") } w => carry = Some(w.clone()) }
            mid = None;
        } }
        // how many messages may be received in this segment
        let mut allow = inbox.len().min(case.burst.max(1) as usize);
        if allow > 1 {
            let mut probe = model.clone();
            probe.track = false;
            model_mail(&mut probe, &inbox[0]);
            probe.segment(MODEL_BUDGET);
            if probe.sched_op || probe.discard.is_some() { allow = 1 }
        }
        if let Some((_, w)) = &mid {
            let mut probe = model.clone();
            probe.track = false;
            probe.segment(MODEL_BUDGET);
            if probe.sched_op || probe.discard.is_some() { carry = Some(w.clone()); mid = None }
        }
        if allow > 1 { fault(st, "message burst") }
        {
            let mut s = real.sys.0.borrow_mut();
            s.received = 0;
            for x in inbox.iter().take(allow) { s.msgs.push_back(to_incoming(x.no, &x.ty, &x.fields, x.reply)) }
        }
        // the model first decides whether it can follow at all (a discarded case ends here)
        if mid.is_none() && allow <= 1 {
            if allow == 1 { let x = inbox.pop_front().unwrap(); model_mail(model, &x); }
            model.segment(MODEL_BUDGET);
            if model.discard.is_some() { st.discard = model.discard; break }
        }
        let sub = mid.as_ref().map(|x| x.0).unwrap_or(0);
        let mut injected = false;
        let ran = guarded(seg, || {
            for i in 0..STEP_BUDGET {
                if i > 0 && i == sub && !injected {
                    if let Some((_, w)) = &mid {
                        injected = true;
                        match w {
                            What::Net { ty, fields, reply } => { let m = to_incoming(mail_no, ty, fields, *reply); real.sys.0.borrow_mut().msgs.push_back(m) }
                            w => if let Some(x) = real_input(w) { real.input(x) },
                        }
                    }
                }
                real.step()?;
                if real.has_ev() { return Ok(()) }
            }
            Err(Violation { kind: "stuck".into(), detail: format!("no observable progress in {STEP_BUDGET} steps"), seg: 0 })
        });
        if let Err(v) = ran {
            // without a prediction made in advance, first find out whether the program itself runs (nearly) forever without an observable event
            if v.kind == "stuck" && (mid.is_some() || allow > 1) {
                let mut probe = model.clone();
                probe.track = false;
                match (&mid, injected) { (Some((_, w)), true) => match w { What::Net { ty, fields, reply } => model_mail(&mut probe, &Mail { no: mail_no, ty: ty.clone(), fields: fields.clone(), reply: *reply }), w => model_input(&mut probe, w) }, _ => () }
                if allow > 1 { let n = real.sys.0.borrow().received as usize; for x in inbox.iter().take(n) { model_mail(&mut probe, x) } }
                probe.segment(MODEL_BUDGET);
                if probe.discard.is_some() { st.discard = probe.discard; break }
            }
            return Err(v);
        }
        // the model, with the inputs the VM actually took in during this segment
        if let Some((_, w)) = mid {
            let net = matches!(w, What::Net { .. });
            let taken = injected && (!net || real.sys.0.borrow().received == 1);
            if injected && net && !taken { return Err(Violation { kind: "message".into(), detail: "a waiting message was not received by the next step".into(), seg }) }
            if taken {
                fault(st, "input in the middle of a turn");
                match &w {
                    What::Net { ty, fields, reply } => { let x = Mail { no: mail_no, ty: ty.clone(), fields: fields.clone(), reply: *reply }; mail_no += 1; model_mail(model, &x) }
                    w => model_input(model, w),
                }
            } else { carry = Some(w) }
            model.segment(MODEL_BUDGET);
        } else if allow > 1 {
            let got = real.sys.0.borrow().received;
            real.sys.0.borrow_mut().msgs.clear();
            if got == 0 { return Err(Violation { kind: "message".into(), detail: "a waiting message was not received by the next step".into(), seg }) }
            for _ in 0..got { let x = inbox.pop_front().unwrap(); model_mail(model, &x) }
            model.segment(MODEL_BUDGET);
        } else if allow == 1 && real.sys.0.borrow().received != 1 {
            return Err(Violation { kind: "message".into(), detail: "a waiting message was not received by the next step".into(), seg });
        }
        if model.discard.is_some() { st.discard = model.discard; break }
        let got = real.take();
        st.segs += 1;
        for e in &got { st.events += 1; st.hash = hash(st.hash, e); *st.kinds.entry(e.kind()).or_insert(0) += 1; if keep { trace.push(e.clone()) } }
        let ok = got.len() == model.evs.len() && model.evs.iter().zip(&got).all(|(a, b)| a.matches(b));
        if !ok {
            let k = model.evs.iter().zip(&got).find(|(a, b)| !a.matches(b)).map(|(a, b)| if a.kind() == b.kind() { format!("wrong {}", a.kind()) } else { format!("{} instead of {}", b.kind(), a.kind()) }).unwrap_or_else(|| "extra or missing event".into());
            return Err(Violation { kind: k, detail: format!("expected {:?}\nobserved {:?}", model.evs, got), seg });
        }
        if case.compare_every > 0 && seg % case.compare_every == 0 {
            guarded(seg, || real.compare(model).map(|_| ()).map_err(|e| Violation { kind: "state".into(), detail: e, seg }))?;
        }
        if case.bounded && seg == case.segs / 2 { real.full_gc(); alloc_mid = real.arena.metrics().total_gc_allocation(); live_mid = model.live_size() }
        let idle = got.last() == Some(&Ev::Idle);
        let quiet = idle || got.last() == Some(&Ev::Yield);
        streak = if quiet { streak + 1 } else { 0 };
        let fast = 1u64 << ((streak / 24).min(16));
        model.now = model.now.saturating_add(case.tick.saturating_mul(fast));
        seg += 1;
        if idle && inbox.is_empty() && carry.is_none() {
            idle_rep += 1;
            if idle_rep >= 3 {
                if ai >= case.actions.len() { break }
                seg = seg.max(case.actions[ai].at);
                idle_rep = 0;
            }
        } else { idle_rep = 0 }
    }
    // operations that were delayed or failed
    {
        let n = real.sys.0.borrow().seq as usize;
        for o in case.outcomes.iter().take(n) {
            match o.res { Res::Err => fault(st, "host error answer"), Res::PollErr => fault(st, "host failure while waiting"), Res::PerfErr => fault(st, "host refuses operation"), _ => () }
            if o.delay == NEVER { fault(st, "answer never arrives") } else if o.delay > 0 { fault(st, "delayed answer") }
        }
        match real.gc { GcPat::Never => (), GcPat::Full(_) => fault(st, "full collections forced (runs)"), GcPat::Debt(_) => fault(st, "incremental collections (runs)"), GcPat::Rand(_) => fault(st, "collections at random points (runs)") }
    }
    if st.discard.is_none() {
        real.full_gc();
        let n = guarded(seg, || real.compare(model).map_err(|e| Violation { kind: "state".into(), detail: e, seg }))?;
        st.procs = n;
        if st.events > 4 { st.cov.insert("compared with the source", 1); }
        if case.bounded && alloc_mid > 0 && seg >= case.segs && model.live_size() <= live_mid + live_mid / 8 + 8 {
            let end = real.arena.metrics().total_gc_allocation();
            *st.cov.entry("bounded memory measured").or_insert(0) += 1;
            if end > alloc_mid + alloc_mid / 2 + 4000 { return Err(Violation { kind: "memory".into(), detail: format!("live memory grew from {alloc_mid} to {end} bytes in a steady state"), seg }) }
        }
    }
    Ok(())
}

/// Runs only the real VM (used to compare executions of the same case with each other).
pub fn run_real(case: &Case, variant: Variant, segs: u32) -> Result<(Vec<Ev>, Vec<String>, u64), Violation> {
    let mut real = guarded(0, || Real::new(case, variant).map_err(|e| Violation { kind: "setup".into(), detail: e, seg: 0 }))?;
    real.full = Some(vec![]);
    let mut out = vec![];
    let r = solo(case, &mut real, segs, &mut out);
    let full = real.full.take().unwrap();
    let steps = real.steps;
    if let Err(v) = r { if v.kind == "crash" { std::mem::forget(real) } return Err(v) }
    Ok((out, full, steps))
}
fn solo(case: &Case, real: &mut Real, segs: u32, out: &mut Vec<Ev>) -> Result<(), Violation> {
    let (mut ai, mut seg, mut streak, mut idle_rep, mut now, mut mail) = (0usize, 0u32, 0u64, 0, case.start_ms, 0u32);
    while seg < segs {
        while ai < case.actions.len() && case.actions[ai].at <= seg {
            match &case.actions[ai].what {
                What::Net { ty, fields, reply } => { real.sys.0.borrow_mut().msgs.push_back(to_incoming(mail, ty, fields, *reply)); mail += 1 }
                What::Jump(d) => now = if *d < 0 { now.saturating_sub(d.unsigned_abs()) } else { now.saturating_add(*d as u64) },
                w => if let Some(x) = real_input(w) { guarded(seg, || { real.input(x); Ok(()) })? },
            }
            ai += 1;
        }
        real.sys.0.borrow_mut().now = now;
        let mut stuck = true;
        guarded(seg, || { for _ in 0..20_000 { real.step()?; if real.has_ev() { stuck = false; break } } Ok(()) })?;
        if stuck { break }
        let got = real.take();
        let idle = got.last() == Some(&Ev::Idle);
        streak = if idle || got.last() == Some(&Ev::Yield) { streak + 1 } else { 0 };
        out.extend(got);
        now = now.saturating_add(case.tick.saturating_mul(1u64 << ((streak / 24).min(16))));
        seg += 1;
        if idle && real.sys.0.borrow().msgs.is_empty() {
            idle_rep += 1;
            if idle_rep >= 3 { if ai >= case.actions.len() { break } seg = seg.max(case.actions[ai].at); idle_rep = 0 }
        } else { idle_rep = 0 }
    }
    Ok(())
}
