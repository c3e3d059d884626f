//! Back end that drives the real engine, plus everything the harness keeps
//! about it: identity registry, node states, observation logs, step counter,
//! fault injection, expected trace events.
use crate::model::*;
use crate::prog::*;
use crate::threads::point;
use adapton::engine::{self, manage, Art, Engine, Name, NameChoice};
use adapton::macros::ProgPt;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::fmt;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone)]
pub struct RArt { pub art: Art<RV>, pub key: Rc<Key> }
pub enum RV { N, I(i64), T(Rc<Vec<RV>>), A(RArt), Nm(Name, NameC) }
// ---- panics inside the user's Clone, Eq and Hash and inside mapping functions ----
thread_local! {
    /// Do all integers print alike?
    pub static OPAQUE: std::cell::Cell<bool> = std::cell::Cell::new(false);
    /// Is the engine running on this thread (as opposed to user code it called)?
    static ENGINE: std::cell::Cell<bool> = std::cell::Cell::new(false);
    /// How many more calls of user traits the engine makes before one panics; 0 for none.
    static TAP: std::cell::Cell<u32> = std::cell::Cell::new(0);
}
struct Within(bool);
impl Drop for Within { fn drop(&mut self) { ENGINE.with(|e| e.set(self.0)) } }
pub fn eng<T>(f: impl FnOnce() -> T) -> T { let _w = Within(ENGINE.with(|e| e.replace(true))); f() }
pub fn user<T>(f: impl FnOnce() -> T) -> T { let _w = Within(ENGINE.with(|e| e.replace(false))); f() }
pub fn arm(k: u32) { TAP.with(|t| t.set(k)) }
/// Disarms; tells whether the fault is still pending.
pub fn disarm() -> u32 { TAP.with(|t| t.replace(0)) }
fn due() -> bool {
    if !ENGINE.with(|e| e.get()) || std::thread::panicking() { return false }
    TAP.with(|t| match t.get() { 0 => false, 1 => { t.set(0); true } n => { t.set(n - 1); false } })
}
fn fire() -> ! {
    ctx(|c| { c.stats.injected += 1; c.stats.taps += 1; c.loose = true; if let Some(k) = c.just_finished.take() { c.fuzz(&k) } });
    panic_any(InjectedPanic)
}
/// A call that the engine makes to user code which does not run a body.
fn tap() { if due() { fire() } }
impl Clone for RV {
    fn clone(&self) -> RV {
        tap();
        match self { RV::N => RV::N, RV::I(i) => RV::I(*i), RV::T(v) => RV::T(v.clone()), RV::A(a) => RV::A(a.clone()), RV::Nm(n, c) => RV::Nm(n.clone(), c.clone()) }
    }
}
impl PartialEq for RV {
    fn eq(&self, o: &RV) -> bool {
        point(); tap();
        match (self, o) { (RV::N, RV::N) => true, (RV::I(a), RV::I(b)) => a == b, (RV::T(a), RV::T(b)) => a == b, (RV::A(a), RV::A(b)) => a.art == b.art, (RV::Nm(a, _), RV::Nm(b, _)) => a == b, _ => false }
    }
}
impl Eq for RV {}
impl Hash for RV {
    fn hash<H: Hasher>(&self, h: &mut H) {
        point(); tap();
        match self { RV::N => 0u8.hash(h), RV::I(i) => { 1u8.hash(h); i.hash(h) } RV::T(v) => { 2u8.hash(h); v.hash(h) } RV::A(a) => { 3u8.hash(h); a.art.hash(h) } RV::Nm(n, _) => { 4u8.hash(h); n.hash(h) } }
    }
}
/// Values are rendered in every form that the reflection of values documents:
/// numbers, strings, characters, constructors, tuples, structs and vectors.
impl fmt::Debug for RV {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        point();
        match self {
            RV::N => write!(f, "Nil"),
            RV::I(_) if OPAQUE.with(|o| o.get()) => write!(f, "0"),
            RV::I(19) => write!(f, "true"), RV::I(20) => write!(f, "{:?}", ODD_STR), RV::I(21) => write!(f, "{}", -21), RV::I(22) => write!(f, "{}", u64::MAX), RV::I(23) => write!(f, "{:?}", '('),
            // identifiers of all kinds, and things that look like names and articulations but are not
            RV::I(18) => write!(f, "_z9 {{ a: A0z_Z, zz9: Zz(1, -2,), _Aa: z {{ }} }}"), RV::I(17) => write!(f, "Art {{ art: Loc {{ path: [], idx: 3 }} }}"), RV::I(16) => write!(f, "Art {{ art: 5 }}"),
            RV::I(15) => write!(f, "[Pair(Usize(1)), Usize(true), ForkL(), Isize(-4), Art {{ a: 1, art: 2 }}, String(7), ForkR(Pair(String(\"q\"), ForkL(Usize(0))))]"),
            RV::I(i) => write!(f, "{}", i),
            RV::T(v) => match v.len() {
                0 => write!(f, "()"), 1 => f.debug_tuple("One").field(&v[0]).finish(), 2 => (&v[0], &v[1]).fmt(f),
                3 => f.debug_struct("Tri").field("a", &v[0]).field("b2", &v[1]).field("c_c", &v[2]).finish(), _ => f.debug_list().entries(v.iter()).finish(),
            },
            RV::A(a) => a.art.fmt(f), RV::Nm(n, _) => n.fmt(f),
        }
    }
}
pub const ODD_STR: &str = "a\"b\\({[,:\n\u{1}é";
impl ValT for RV {
    fn i(n: i64) -> Self { RV::I(n) }
    fn n() -> Self { RV::N }
    fn t(v: Vec<Self>) -> Self { RV::T(Rc::new(v)) }
    fn int(&self) -> i64 { match self { RV::N => 0, RV::I(i) => *i, RV::T(v) => int_tup(v.iter().map(|x| x.int())), RV::A(_) => 7, RV::Nm(_, n) => name_int(n) } }
    fn proj(&self, k: usize) -> Self { match self { RV::T(v) => v.get(k).cloned().unwrap_or(RV::N), x if k == 0 => x.clone(), _ => RV::N } }
    fn is_art(&self) -> bool { matches!(self, RV::A(_)) }
    fn view(&self) -> View<Self> { match self { RV::N => View::N, RV::I(i) => View::I(*i), RV::T(v) => View::T(v.to_vec()), RV::A(_) => View::A, RV::Nm(_, n) => View::Nm(n.clone()) } }
}
impl RV {
    pub fn to_m(&self) -> MVal { match self { RV::N => MVal::N, RV::I(i) => MVal::I(*i), RV::T(v) => MVal::T(Rc::new(v.iter().map(|x| x.to_m()).collect())), RV::A(a) => MVal::A(a.key.clone()), RV::Nm(_, n) => MVal::Nm(n.clone()) } }
}
/// The non-spurious argument of every simulated thunk.
#[derive(PartialEq, Eq, Hash)]
pub struct Arg { pub head: Head, pub args: Vec<RV> }
impl Clone for Arg {
    fn clone(&self) -> Arg {
        // (the engine may have been about to run any thunk with this argument)
        if due() { ctx(|c| { let am = self.to_m(); let ks: Vec<Rc<Key>> = c.e().nodes.iter().filter(|(_, n)| matches!(&n.kind, Kind::Comp(a) if **a == am)).map(|(k, _)| k.clone()).collect(); for k in ks { c.fuzz(&k) } }); fire() }
        user(|| Arg { head: self.head.clone(), args: self.args.clone() })
    }
}
impl fmt::Debug for Arg { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "({}, {:?})", self.head.def, self.args) } }
impl Arg { pub fn to_m(&self) -> ArgM { ArgM { head: self.head.clone(), args: self.args.iter().map(|x| x.to_m()).collect() } } }

pub fn mk_name(n: &NameC) -> Name {
    match n {
        NameC::Unit => engine::name_unit(), NameC::U(u) => engine::name_of_usize(*u), NameC::I(i) => engine::name_of_isize(*i), NameC::S(s) => engine::name_of_string(s.clone()),
        NameC::P(a, b) => engine::name_pair(mk_name(a), mk_name(b)), NameC::L(a) => engine::name_fork(mk_name(a)).0, NameC::R(a) => engine::name_fork(mk_name(a)).1,
    }
}

// ---- panics the simulator raises ----
pub struct StopPanic(pub Stop);
pub struct InjectedPanic;
#[derive(Clone, PartialEq, Debug)]
pub enum Fail { Stop(Stop), Injected, Engine(String) }
pub fn classify(p: Box<dyn std::any::Any + Send>) -> Fail {
    match p.downcast::<StopPanic>() {
        Ok(s) => Fail::Stop(s.0),
        Err(p) => match p.downcast::<InjectedPanic>() {
            Ok(_) => Fail::Injected,
            Err(p) => Fail::Engine(if let Some(s) = p.downcast_ref::<String>() { s.clone() } else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else { "panic".into() }),
        },
    }
}
pub fn guarded<T>(f: impl FnOnce() -> R<T>) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(Ok(v)) => Ok(v), Ok(Err(s)) => Err(Fail::Stop(s)), Err(p) => Err(classify(p)) }
}

// ---- harness state ----
/// Kinds of violation; each property owns some of them (see profiles.rs).
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Class { Value, Observed, Panic, Extra, Outside, Reexec, Twice, Identity, Graph, State, Trace, Clash, Iso, Config, MapArg, Hang }
#[derive(Clone, Debug)]
pub struct Viol { pub class: Class, pub op: usize, pub msg: String }

#[derive(Clone, Debug)]
pub struct RunLog { pub obs: Vec<Obs>, pub vers: Vec<(Rc<Key>, u64)>, pub allocs: Vec<(Rc<Key>, u64)>, pub pos: Vec<usize>, pub val: RV }
#[derive(Clone)]
pub enum Kind { Cell(RV), Comp(Rc<ArgM>) }
#[derive(Clone)]
pub struct NodeSt { pub kind: Kind, pub ver: u64, pub done: Option<RunLog> }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum ACase { Fresh, Same, Diff }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ev { ForceCell(Rc<Key>), ForceComp(Rc<Key>), Alloc(Rc<Key>, bool, ACase), Run(Rc<Key>), SetDiff, Dbg(Option<String>, u64), DbgEnd }
pub struct Frame { pub key: Rc<Key>, pub obs: Vec<Obs>, pub vers: Vec<(Rc<Key>, u64)>, pub allocs: Vec<(Rc<Key>, u64)>, pub pos: Vec<usize> }
#[derive(Default)]
pub struct EngSt {
    pub ed: EdState, pub ins: Vec<RArt>, pub ptrs: Vec<RArt>, pub roots: Vec<RArt>,
    pub reg: HashMap<Rc<Key>, Art<RV>>, pub rev: HashMap<Art<RV>, Rc<Key>>, pub order: Vec<Rc<Key>>,
    pub nodes: HashMap<Rc<Key>, NodeSt>,
    /// A panic left the engine in the middle of these: their content is known again when they are next
    /// allocated (cells) or run (thunks); and these may or may not have been allocated at all.
    pub fuzzy: HashSet<Rc<Key>>, pub maybe: HashSet<Rc<Key>>,
    pub parked: Option<Engine>, pub wf: bool,
}
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub ops: u64, pub demands: u64, pub bodies: u64, pub steps: u64, pub injected: u64, pub organic: u64, pub aborts: u64, pub clashes: u64, pub swaps: u64, pub reroots: u64,
    pub kindchg: u64, pub edits: u64, pub reuse: u64, pub reruns: u64, pub cutoffs: u64, pub windows: u64, pub skipped: u64, pub reflects: u64, pub switches: u64, pub mapped: u64, pub derefs: u64, pub taps: u64,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) { self.ops += o.ops; self.demands += o.demands; self.bodies += o.bodies; self.steps += o.steps; self.injected += o.injected; self.organic += o.organic; self.aborts += o.aborts; self.clashes += o.clashes; self.swaps += o.swaps; self.reroots += o.reroots; self.kindchg += o.kindchg; self.edits += o.edits; self.reuse += o.reuse; self.reruns += o.reruns; self.cutoffs += o.cutoffs; self.windows += o.windows; self.skipped += o.skipped; self.reflects += o.reflects; self.switches += o.switches; self.mapped += o.mapped; self.derefs += o.derefs; self.taps += o.taps; }
    pub fn fields(&self) -> Vec<(&'static str, u64)> {
        vec![("ops", self.ops), ("demands", self.demands), ("bodies_run", self.bodies), ("body_steps", self.steps), ("panic_injected", self.injected), ("panic_organic", self.organic), ("block_aborted", self.aborts),
             ("clash_attempted", self.clashes), ("engine_swaps", self.swaps), ("thunk_reallocated", self.reroots), ("kind_changed", self.kindchg), ("input_edits", self.edits), ("demands_fully_reused", self.reuse),
             ("bodies_rerun", self.reruns), ("clean_cutoffs", self.cutoffs), ("trace_windows", self.windows), ("ops_skipped", self.skipped), ("graph_reflections", self.reflects), ("thread_switches", self.switches), ("mapped_observations", self.mapped), ("derefs", self.derefs), ("panic_in_user_trait", self.taps)]
    }
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode { Nominal, Structural, Naive }
pub struct Ctx {
    pub prog: Rc<Prog>, pub mode: Mode, pub engs: Vec<EngSt>, pub cur: usize,
    pub sess: Option<Rc<HashMap<Rc<Key>, MTrace>>>, pub frames: Vec<Frame>, pub ran: Vec<Rc<Key>>, pub ran_set: HashSet<Rc<Key>>,
    pub steps: u32, pub fault: Option<u32>, pub no_exec: u32, pub in_demand: bool, pub path: Path,
    pub viols: Vec<Viol>, pub op: usize, pub stats: Stats, pub win: Option<Vec<(Option<Rc<Key>>, Ev)>>, pub dbgs: u64, pub mid: u64, pub maps: HashMap<u8, Rc<dyn Fn(RV) -> RV>>, pub map_seen: Vec<RV>,
    pub mapf_seen: Option<(Art<RV>, RV)>, pub autos: usize, pub depth: u32, pub just_finished: Option<Rc<Key>>,
    /// A panic left the engine at a place the recording in progress cannot account for.
    pub loose: bool,
    /// For each eager thunk being made, how often its body has begun.
    pub eager: Vec<u32>,
    fnbox: Rc<Box<dyn Fn(Arg, Path) -> RV>>,
}
thread_local!(static CTX: RefCell<Option<Ctx>> = RefCell::new(None));
pub fn ctx<T>(f: impl FnOnce(&mut Ctx) -> T) -> T { CTX.with(|c| f(c.borrow_mut().as_mut().expect("ctx"))) }
pub fn install(c: Option<Ctx>) -> Option<Ctx> { CTX.with(|s| std::mem::replace(&mut *s.borrow_mut(), c)) }
pub const REAL_STEPS: u32 = 40_000;
impl Ctx {
    pub fn new(prog: Rc<Prog>, mode: Mode, engines: usize) -> Ctx {
        Ctx { prog, mode, engs: (0..engines).map(|_| EngSt::default()).collect(), cur: 0, sess: None, frames: vec![], ran: vec![], ran_set: HashSet::new(), steps: 0, fault: None, no_exec: 0, in_demand: false, path: top(),
              viols: vec![], op: 0, stats: Stats::default(), win: None, dbgs: 0, mid: 0, maps: HashMap::new(), map_seen: vec![], mapf_seen: None, autos: 0, depth: 0, just_finished: None, loose: false, eager: vec![], fnbox: Rc::new(Box::new(body)) }
    }
    pub fn viol(&mut self, class: Class, msg: String) { if self.viols.len() < 40 { self.viols.push(Viol { class, op: self.op, msg }) } }
    pub fn e(&mut self) -> &mut EngSt { let c = self.cur; &mut self.engs[c] }
    pub fn ev(&mut self, e: Ev) { let by = self.frames.last().map(|f| f.key.clone()); if let Some(w) = &mut self.win { w.push((by, e)) } }
    pub fn fuzz(&mut self, k: &Rc<Key>) {
        if self.mode != Mode::Nominal { return }
        let e = self.e();
        if e.reg.contains_key(k) { if let Some(n) = e.nodes.get_mut(k) { n.ver += 1; n.done = None } e.fuzzy.insert(k.clone()); }
        else { e.nodes.remove(k); e.maybe.insert(k.clone()); }
    }
    pub fn is_fuzzy(&self, k: &Rc<Key>) -> bool { let e = &self.engs[self.cur]; e.fuzzy.contains(k) || e.maybe.contains(k) }
    /// Record that `key` was allocated and came back as `art`.
    pub fn register(&mut self, key: &Rc<Key>, art: &Art<RV>) {
        if self.mode != Mode::Nominal { return }
        let bad = {
            let e = self.e();
            let mut bad = None;
            e.maybe.remove(key);
            match e.reg.get(key) { Some(a) if a != art => bad = Some(format!("allocating {} again gave a different articulation: {:?} then {:?}", key.show(), a, art)), Some(_) => {}
                                   None => { if key.tracked() { e.order.push(key.clone()) } e.reg.insert(key.clone(), art.clone()); } }
            match e.rev.get(art) { Some(k) if k != key => bad = Some(format!("{} and {} are the same articulation {:?}", k.show(), key.show(), art)), Some(_) => {}, None => { e.rev.insert(art.clone(), key.clone()); } }
            bad
        };
        if let Some(m) = bad { self.viol(Class::Identity, m) }
    }
    pub fn is_cell(&self, k: &Key) -> bool {
        match k { Key::StrC(..) => true, Key::StrT(..) => false, _ => matches!(self.engs[self.cur].nodes.get(k), Some(NodeSt { kind: Kind::Cell(_), .. })) }
    }
    pub fn note_cell(&mut self, key: &Rc<Key>, v: &RV) -> u64 {
        if self.is_fuzzy(key) { self.loose = true; self.e().fuzzy.remove(key); }
        let old = self.e().nodes.remove(key);
        let (ver, case) = match old { None => (0, ACase::Fresh), Some(NodeSt { kind: Kind::Cell(o), ver, .. }) => if o == *v { (ver, ACase::Same) } else { (ver + 1, ACase::Diff) }, Some(n) => { self.stats.kindchg += 1; (n.ver + 1, ACase::Diff) } };
        self.e().nodes.insert(key.clone(), NodeSt { kind: Kind::Cell(v.clone()), ver, done: None });
        self.ev(Ev::Alloc(key.clone(), true, case)); ver
    }
    pub fn note_comp(&mut self, key: &Rc<Key>, a: &Rc<ArgM>) -> u64 {
        if self.is_fuzzy(key) { self.loose = true; self.e().fuzzy.insert(key.clone()); }
        let old = self.e().nodes.remove(key);
        let (n, case) = match old {
            None => (NodeSt { kind: Kind::Comp(a.clone()), ver: 0, done: None }, ACase::Fresh),
            Some(n) => match &n.kind {
                Kind::Comp(b) if b == a => (n, ACase::Same),
                k => { if let Kind::Cell(_) = k { self.stats.kindchg += 1 } else { self.stats.reroots += 1 } (NodeSt { kind: Kind::Comp(a.clone()), ver: n.ver + 1, done: None }, ACase::Diff) }
            },
        };
        let ver = n.ver;
        self.e().nodes.insert(key.clone(), n);
        if !key.structural() { self.ev(Ev::Alloc(key.clone(), false, case)) }
        ver
    }
    pub fn ver(&self, k: &Rc<Key>) -> u64 { self.engs[self.cur].nodes.get(k).map(|n| n.ver).unwrap_or(0) }
    fn map_fn(&mut self, m: u8) -> Rc<dyn Fn(RV) -> RV> {
        self.maps.entry(m).or_insert_with(|| Rc::new(move |v: RV| { tap(); user(|| { ctx(|c| c.map_seen.push(v.clone())); map_or_stop(m, &v) }) })).clone()
    }
}

/// The mapping function itself; number 7 has no answer for some values.
fn map_or_stop(m: u8, v: &RV) -> RV { if map_stops(m, v) { ctx(|c| c.stats.organic += 1); panic_any(StopPanic(Stop::Organic(200))) } apply_map(m, v) }
/// The engine may be left in the middle of allocating `key`.
struct Alloc { key: Rc<Key>, done: bool }
impl Drop for Alloc { fn drop(&mut self) { if !self.done { ctx(|c| c.fuzz(&self.key)) } } }
pub fn allocating<T>(key: &Rc<Key>, f: impl FnOnce() -> T) -> T { let mut g = Alloc { key: key.clone(), done: false }; let r = eng(f); g.done = true; r }
fn pp() -> ProgPt { ProgPt { symbol: "sim::body" } }
struct FrameGuard { done: bool, saved: Path, key: Rc<Key> }
impl Drop for FrameGuard {
    fn drop(&mut self) {
        if !self.done { ctx(|c| { c.frames.pop(); c.path = self.saved.clone(); let k = self.key.clone(); if let Some(n) = c.e().nodes.get_mut(&k) { n.done = None } }) }
    }
}
fn same_obs(a: &[Obs], b: &[Obs]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y) }
fn begin(arg: &Arg, sp: &Path) -> FrameGuard {
    ctx(|c| {
        let am = Rc::new(arg.to_m());
        let nominal = matches!(arg.head.how, TMode::Nom | TMode::Fam);
        let key = Rc::new(if nominal { Key::Nom(sp.clone(), (**arg.head.nm.as_ref().unwrap()).clone()) } else { Key::StrT(sp.clone(), am.clone()) });
        c.stats.bodies += 1;
        if c.mode == Mode::Nominal {
            if c.no_exec > 0 || !c.in_demand { let m = format!("the body of {} ran although nothing was being demanded", key.show()); c.viol(Class::Outside, m) }
            if let Some(t) = c.sess.clone() {
                match t.get(&key) {
                    None => { let m = format!("{} was executed, but evaluating this demand from scratch never executes it", key.show()); c.viol(Class::Extra, m) }
                    Some(tr) => {
                        let n = c.engs[c.cur].nodes.get(&key);
                        let mut bad = None;
                        if let Some(NodeSt { done: Some(l), .. }) = n {
                            let absch = l.obs.iter().zip(&l.vers).any(|(o, (k, v))| matches!(o, Obs::Abs(..)) && c.ver(k) != *v);
                            let alch = l.allocs.iter().any(|(k, v)| c.ver(k) != *v);
                            if same_obs(&l.obs, &tr.obs) && !absch && !alch {
                                bad = Some(format!("{} was executed again although everything it observed in its last run is unchanged: {}", key.show(),
                                                   l.obs.iter().map(|o| match o { Obs::Full(k, v) => format!("{}={}", k.show(), v.show()), Obs::Mapped(k, m, v) => format!("map{} {}={}", m, k.show(), v.show()), Obs::Abs(k, m, v) => format!("abs{} {}={}", m, k.show(), v.show()) }).collect::<Vec<_>>().join(", ")));
                            }
                            c.stats.reruns += 1;
                        }
                        if let Some(m) = bad { c.viol(Class::Reexec, m) }
                    }
                }
                if !c.ran_set.insert(key.clone()) { let m = format!("{} was executed twice in one demand", key.show()); c.viol(Class::Twice, m) }
            }
            c.e().fuzzy.remove(&key); c.just_finished = None;
            c.ran.push(key.clone());
            c.ev(Ev::Run(key.clone()));
        }
        let k2 = key.clone();
        if let Some(n) = c.e().nodes.get_mut(&k2) { n.done = None }
        c.frames.push(Frame { key: key.clone(), obs: vec![], vers: vec![], allocs: vec![], pos: vec![] });
        let saved = std::mem::replace(&mut c.path, sp.clone());
        FrameGuard { done: false, saved, key }
    })
}
fn finish(mut g: FrameGuard, v: &RV) {
    ctx(|c| {
        let f = c.frames.pop().expect("frame");
        c.path = g.saved.clone();
        if c.mode == Mode::Nominal {
            if let Some(t) = c.sess.clone() {
                if let Some(tr) = t.get(&g.key) {
                    if let Some(r) = &tr.res {
                        let mut bad = None;
                        for (i, o) in f.obs.iter().enumerate() {
                            if tr.obs.get(i) != Some(o) { bad = Some(format!("{}: observation {} was {:?}, from scratch it is {:?}", g.key.show(), i, show_obs(o), tr.obs.get(i).map(show_obs))); break }
                        }
                        if bad.is_none() && f.obs.len() != tr.obs.len() { bad = Some(format!("{}: made {} observations, from scratch {}", g.key.show(), f.obs.len(), tr.obs.len())) }
                        if let Some(m) = bad { c.viol(Class::Observed, m) }
                        else if v.to_m() != *r { let m = format!("{}: computed {}, from scratch {}", g.key.show(), v.to_m().show(), r.show()); c.viol(Class::Observed, m) }
                    }
                }
            }
            let log = RunLog { obs: f.obs, vers: f.vers, allocs: f.allocs, pos: f.pos, val: v.clone() };
            let k = g.key.clone();
            if let Some(n) = c.e().nodes.get_mut(&k) { n.done = Some(log) }
            c.just_finished = Some(k);
        }
    });
    g.done = true;
}
pub fn show_obs(o: &Obs) -> String { match o { Obs::Full(k, v) => format!("{}={}", k.show(), v.show()), Obs::Mapped(k, m, v) => format!("map{}({})={}", m, k.show(), v.show()), Obs::Abs(k, m, v) => format!("abs{}({})={}", m, k.show(), v.show()) } }
fn body(arg: Arg, sp: Path) -> RV { user(|| body_(arg, sp)) }
fn body_(arg: Arg, sp: Path) -> RV {
    if arg.head.how == TMode::Eager { ctx(|c| if let Some(n) = c.eager.last_mut() { *n += 1 }) }
    let transparent = matches!(arg.head.how, TMode::Naive | TMode::Eager) || ctx(|c| c.mode == Mode::Naive);
    let g = if transparent { None } else { Some(begin(&arg, &sp)) };
    let _dbg = Dbg::new(false);
    let deep = ctx(|c| { c.depth += 1; c.depth > 400 });
    let prog = ctx(|c| c.prog.clone());
    struct D; impl Drop for D { fn drop(&mut self) { ctx(|c| c.depth -= 1) } }
    let _d = D;
    if deep { panic_any(StopPanic(Stop::Budget)) }
    match run_def(&mut RealBe, &prog, &arg.head, arg.args) {
        Ok(v) => { if let Some(g) = g { finish(g, &v) } v }
        Err(s) => panic_any(StopPanic(s)),
    }
}
/// A debugging extent (or a leaf debugging effect) around user code, now and then.
pub struct Dbg(bool);
impl Dbg {
    pub fn new(force: bool) -> Dbg {
        let (extent, leaf, n) = ctx(|c| { if c.mode == Mode::Naive { return (false, false, 0) } let on = c.win.is_some() || c.steps % 8 == 0; c.dbgs += 1; (force || on && c.dbgs % 3 == 0, on && c.dbgs % 3 == 1, c.dbgs) });
        let nm = || if n % 2 == 0 { Some(engine::name_of_usize(n as usize)) } else { None };
        if leaf { adapton::reflect::debug_effect(nm(), Some(format!("e{}", n))); ctx(|c| { c.ev(Ev::Dbg(nm().map(|n| format!("{:?}", n)), n)); c.ev(Ev::DbgEnd) }) }
        if extent { adapton::reflect::debug_begin(nm(), Some(format!("e{}", n))); ctx(|c| c.ev(Ev::Dbg(nm().map(|n| format!("{:?}", n)), n))) }
        Dbg(extent)
    }
}
impl Drop for Dbg { fn drop(&mut self) { if self.0 { adapton::reflect::debug_end(); ctx(|c| c.ev(Ev::DbgEnd)) } } }
pub struct PathGuard(Path);
impl Drop for PathGuard { fn drop(&mut self) { ctx(|c| c.path = self.0.clone()) } }
struct NoExec; impl NoExec { fn new() -> NoExec { ctx(|c| c.no_exec += 1); NoExec } }
impl Drop for NoExec { fn drop(&mut self) { ctx(|c| c.no_exec -= 1) } }
pub fn in_ns<T>(nm: &NameC, f: impl FnOnce() -> T) -> T {
    let saved = ctx(|c| { let s = c.path.clone(); let mut p = (*s).clone(); p.push(nm.clone()); c.path = Rc::new(p); s });
    let _g = PathGuard(saved);
    engine::ns(mk_name(nm), || { let _d = Dbg::new(false); f() })
}
/// `structural`, sometimes with an inner block that begins and ends first.
fn in_structural<T>(nest: bool, f: impl FnOnce() -> T) -> T { engine::structural(|| { if nest { engine::structural(|| ()) } f() }) }

pub fn log_obs(c: &mut Ctx, o: Obs) { if c.mode == Mode::Nominal { let k = o.key().clone(); let v = c.ver(&k); if let Some(f) = c.frames.last_mut() { f.obs.push(o); f.vers.push((k, v)) } } }
pub struct RealBe;
fn art_of(v: &RV) -> (Art<RV>, Rc<Key>) { match v { RV::A(a) => (a.art.clone(), a.key.clone()), _ => unreachable!() } }
fn innermost(k: &Rc<Key>) -> Rc<Key> { match &**k { Key::Map(k2, _) => innermost(k2), _ => k.clone() } }
fn pre_force(k: &Rc<Key>) -> usize {
    ctx(|c| { let k = innermost(k); if k.tracked() && c.mode == Mode::Nominal { let e = if c.is_cell(&k) { Ev::ForceCell(k) } else { Ev::ForceComp(k) }; c.ev(e) } c.map_seen.len() })
}
fn post_force(k: &Rc<Key>, mark: usize, v: &RV) {
    ctx(|c| {
        let inner = innermost(k);
        let val = if let Key::Map(..) = **k { let x = c.map_seen.get(mark).cloned(); c.map_seen.truncate(mark); x.unwrap_or(RV::N) } else { v.clone() };
        if inner.tracked() { let m = val.to_m(); log_obs(c, Obs::Full(inner, m)) }
    })
}
fn force_art(art: &Art<RV>, key: &Rc<Key>, cyc: Option<RV>) -> RV {
    let mark = pre_force(key);
    let r = match cyc { None => eng(|| engine::force(art)), Some(o) => eng(|| engine::force_cycle(art, Some(o))) };
    post_force(key, mark, &r);
    r
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Bits(i64);
struct BitFam;
impl engine::AbsMapFam<u8, u64, RV, Bits, RV> for BitFam {
    fn map(&self, arg: u8, inp: RV) -> RV { tap(); user(|| { ctx(|c| c.mapf_seen = Some((engine::put(RV::N), inp.clone()))); apply_abs(arg, &inp) }) }
    fn abs(&self, arg: u8) -> u64 { 1 << (arg % 4) }
    fn join(&self, a: u64, b: u64) -> u64 { a | b }
    fn diff(&self, a: &RV, b: &RV) -> Bits { Bits(a.int() ^ b.int()) }
    fn is_dirty(&self, d: Bits, abs: &u64) -> bool { (d.0 as u64) & *abs != 0 }
}
impl Be for RealBe {
    type V = RV;
    fn name_val(&mut self, c: NameC) -> RV { RV::Nm(mk_name(&c), c) }
    fn table(&mut self, a: ARef) -> Option<RV> {
        ctx(|c| { let e = c.e(); match a { ARef::In(k) => e.ins.get(k as usize), ARef::Ptr(k) => e.ptrs.get(k as usize), ARef::Root(k) => e.roots.get(k as usize), ARef::Reg(_) => None }.map(|a| RV::A(a.clone())) })
    }
    fn step(&mut self) -> R<()> {
        let (fire, over) = ctx(|c| {
            c.steps += 1; c.stats.steps += 1; c.just_finished = None;
            let fire = c.fault == Some(c.steps);
            if fire { c.fault = None; c.stats.injected += 1 }
            (fire, c.steps > REAL_STEPS)
        });
        point();
        if ctx(|c| c.mid > 0 && c.mode == Mode::Nominal && !c.frames.is_empty() && c.stats.steps % c.mid == 0) { crate::graph::check_running() }
        if fire { panic_any(InjectedPanic) }
        if over { return Err(Stop::Budget) }
        Ok(())
    }
    fn force(&mut self, v: &RV) -> R<RV> { let (a, k) = art_of(v); Ok(force_art(&a, &k, None)) }
    fn force_cyc(&mut self, v: &RV, out: RV) -> R<RV> { let (a, k) = art_of(v); Ok(force_art(&a, &k, Some(out))) }
    fn force_map(&mut self, v: &RV, m: u8) -> R<RV> {
        let (a, k) = art_of(v);
        let cell = ctx(|c| c.mode == Mode::Nominal && k.tracked() && c.is_cell(&k));
        let mark = pre_force(&k);
        ctx(|c| { c.mapf_seen = None; c.stats.mapped += 1 });
        let a2 = a.clone();
        let r = eng(|| engine::force_map(&a, move |x: &Art<RV>, v: RV| { tap(); user(|| {
            ctx(|c| { if *x != a2 { let m = format!("mapping function called with {:?} instead of {:?}", x, a2); c.viol(Class::MapArg, m) } c.mapf_seen = Some((x.clone(), v.clone())) });
            map_or_stop(m, &v)
        }) }));
        let seen = ctx(|c| c.mapf_seen.take());
        match seen {
            None => ctx(|c| c.viol(Class::MapArg, format!("force_map of {} never called the mapping function", k.show()))),
            Some((_, v)) => {
                if apply_map(m, &v) != r { ctx(|c| { let s = format!("force_map of {} returned {:?}, the mapping function gave {:?}", k.show(), r, apply_map(m, &v)); c.viol(Class::MapArg, s) }) }
                if cell { ctx(|c| { c.map_seen.truncate(mark); let rm = r.to_m(); log_obs(c, Obs::Mapped(k.clone(), m, rm)) }) } else { post_force(&k, mark, &v) }
            }
        }
        Ok(r)
    }
    fn force_abs(&mut self, v: &RV, m: u8) -> R<RV> {
        let (a, k) = art_of(v);
        let cell = ctx(|c| c.mode == Mode::Nominal && k.tracked() && c.is_cell(&k));
        let mark = pre_force(&k);
        ctx(|c| { c.mapf_seen = None; c.stats.mapped += 1 });
        let r = eng(|| engine::force_abs(Box::new(BitFam), m, a));
        let seen = ctx(|c| c.mapf_seen.take());
        match seen {
            None => ctx(|c| c.viol(Class::MapArg, format!("force_abs of {} never applied the mapping", k.show()))),
            Some((_, v)) => if cell { ctx(|c| { c.map_seen.truncate(mark); let rm = r.to_m(); log_obs(c, Obs::Abs(k.clone(), m, rm)) }) } else { post_force(&k, mark, &v) },
        }
        Ok(r)
    }
    fn cell(&mut self, structural: bool, nm: NameC, v: RV) -> R<RV> {
        let key = ctx(|c| Rc::new(if structural { Key::StrC(c.path.clone(), v.to_m()) } else { Key::Nom(c.path.clone(), nm.clone()) }));
        let name = mk_name(&nm);
        let ver = ctx(|c| if c.mode == Mode::Nominal && !structural { c.note_cell(&key, &v) } else { 0 });
        let art = { let _n = NoExec::new(); allocating(&key, || if structural { in_structural(name_int(&nm) % 2 == 0, || engine::cell(name, v)) } else { engine::cell(name, v) }) };
        ctx(|c| { c.register(&key, &art); if c.mode == Mode::Nominal { if let Some(f) = c.frames.last_mut() { f.pos.push(f.obs.len()); f.allocs.push((key.clone(), ver)) } } });
        Ok(RV::A(RArt { art, key }))
    }
    fn put(&mut self, v: RV) -> RV { let key = Rc::new(Key::Rc(v.to_m())); let art = engine::put(v); ctx(|c| c.register(&key, &art)); RV::A(RArt { art, key }) }
    fn thunk(&mut self, nm: Option<NameC>, head: Head, args: Vec<RV>) -> R<RV> {
        let arg = Arg { head: head.clone(), args };
        let (path, fb) = ctx(|c| (c.path.clone(), c.fnbox.clone()));
        match head.how {
            TMode::Eager => {
                struct E(usize); impl Drop for E { fn drop(&mut self) { let n = self.0; ctx(|c| c.eager.truncate(n)) } }
                let e = E(ctx(|c| { c.eager.push(0); c.eager.len() - 1 }));
                let art = engine::thunk(NameChoice::Eager, pp(), fb, arg, path);
                ctx(|c| { let n = c.eager[e.0]; if n > 1 && c.mode != Mode::Naive { c.viol(Class::Twice, format!("the body of an eager thunk ran {} times when it was made", n)) } });
                drop(e);
                let v: RV = if ctx(|c| c.mode == Mode::Naive) { return Ok(RV::A(RArt { art, key: Rc::new(Key::Rc(MVal::N)) })) } else { eng(|| engine::force(&art)) };
                let key = Rc::new(Key::Rc(v.to_m()));
                ctx(|c| c.register(&key, &art));
                Ok(RV::A(RArt { art, key }))
            }
            TMode::Naive => {
                let key = Rc::new(Key::Naive(Rc::new(arg.to_m())));
                let art = { let _n = NoExec::new(); engine::thunk(NameChoice::Naive, pp(), fb, arg, path) };
                ctx(|c| c.register(&key, &art));
                Ok(RV::A(RArt { art, key }))
            }
            how => {
                let am = Rc::new(arg.to_m());
                let key = Rc::new(if matches!(how, TMode::Nom | TMode::Fam) { Key::Nom(path.clone(), nm.clone().unwrap()) } else { Key::StrT(path.clone(), am.clone()) });
                let ver = ctx(|c| if c.mode == Mode::Nominal { c.note_comp(&key, &am) } else { 0 });
                let _n = NoExec::new();
                let art = allocating(&key, || match how {
                    TMode::Nom | TMode::Fam => engine::thunk(NameChoice::Nominal(mk_name(nm.as_ref().unwrap())), pp(), fb, arg, path),
                    TMode::SBlk => { let n = nm.unwrap(); let name = mk_name(&n); in_structural(name_int(&n) % 2 == 0, || engine::thunk(NameChoice::Nominal(name), pp(), fb, arg, path)) }
                    _ => engine::thunk(NameChoice::Structural, pp(), fb, arg, path),
                });
                drop(_n);
                ctx(|c| { c.register(&key, &art); if c.mode == Mode::Nominal { if let Some(f) = c.frames.last_mut() { f.pos.push(f.obs.len()); f.allocs.push((key.clone(), ver)) } } });
                Ok(RV::A(RArt { art, key }))
            }
        }
    }
    fn tmap(&mut self, v: &RV, m: u8) -> RV {
        let (a, k) = art_of(v);
        let f = ctx(|c| c.map_fn(m));
        let art = engine::thunk_map(a, f);
        let key = Rc::new(Key::Map(k, m));
        ctx(|c| c.register(&key, &art));
        RV::A(RArt { art, key })
    }
    fn ns<F: FnOnce(&mut Self) -> R<()>>(&mut self, nm: NameC, f: F) -> R<()> { in_ns(&nm, || f(&mut RealBe)) }
    fn organic(&mut self, def: u8) -> Stop { ctx(|c| c.stats.organic += 1); Stop::Organic(def) }
    fn clash(&mut self, nm: NameC, kind: u8) {
        let key = ctx(|c| Rc::new(Key::Nom(c.path.clone(), nm)));
        if ctx(|c| c.mode == Mode::Nominal && c.engs[c.cur].nodes.contains_key(&key) && !c.is_fuzzy(&key)) { clash_here(&key, kind) }
    }
}
/// Attempt a conflicting use of nominal `key` from its own namespace (the
/// caller is already there); it must panic.
pub fn clash_here(key: &Rc<Key>, kind: u8) {
    let nm = match &**key { Key::Nom(_, n) => mk_name(n), _ => return };
    let st = match ctx(|c| c.e().nodes.get(key).cloned()) { Some(s) => s, None => return };
    let _n = NoExec::new();
    let path = ctx(|c| c.path.clone());
    let kind = kind % 8;
    let art = ctx(|c| c.e().reg.get(key).cloned());
    // only the editor may set, and only a cell
    if kind == 4 && (art.is_none() || matches!(st.kind, Kind::Cell(_)) && ctx(|c| c.frames.is_empty())) { return }
    ctx(|c| c.stats.clashes += 1);
    let r: Result<(), String> = catch_unwind(AssertUnwindSafe(|| match (kind, &st.kind) {
        (1, Kind::Comp(_)) => {
            // same result type, other code
            let arg = match &st.kind { Kind::Comp(a) => a.head.clone(), _ => unreachable!() };
            engine::thunk(NameChoice::Nominal(nm), ProgPt { symbol: "sim::other" }, Rc::new(Box::new(|_: Arg, _: Path| RV::I(-1))), Arg { head: arg, args: vec![] }, path);
        }
        // the same program point and result type, another type of argument, explicit or spurious
        (6, Kind::Comp(a)) => { engine::thunk(NameChoice::Nominal(nm), pp(), Rc::new(Box::new(|_: (Arg, u8), _: Path| RV::I(-2))), (Arg { head: a.head.clone(), args: vec![] }, 1), path); }
        (7, Kind::Comp(a)) => { engine::thunk(NameChoice::Nominal(nm), pp(), Rc::new(Box::new(|_: Arg, _: (Path, u8)| RV::I(-3))), Arg { head: a.head.clone(), args: vec![] }, (path, 1)); }
        (2, _) => { engine::thunk(NameChoice::Nominal(nm), pp(), Rc::new(Box::new(|_: u64, _: ()| 77u64)), 3u64, ()); }
        (3, _) => { engine::cell(nm, vec![RV::I(1)]); }
        (4, _) => engine::set(art.as_ref().unwrap(), RV::I(424242)),
        (5, _) => { let a = engine::put(RV::I(5)); let b = art.clone().unwrap_or_else(|| a.clone()); engine::set(&match &st.kind { Kind::Cell(RV::I(x)) if x % 2 == 0 => engine::thunk_map(b, Rc::new(|x: RV| x)), _ => a }, RV::I(6)) }
        _ => { engine::cell(nm, 12345u64); }
    })).map_err(|p| match classify(p) { Fail::Engine(s) => s, f => format!("{:?}", f) });
    if r.is_ok() { ctx(|c| { let m = format!("conflicting use (kind {}) of {} was accepted", kind, key.show()); c.viol(Class::Clash, m) }) }
}
/// Swap the current engine for number `to`.
pub fn switch_engine(to: usize) {
    let (cur, next) = ctx(|c| { let cur = c.cur; (cur, if to == cur { None } else { c.engs[to].parked.take() }) });
    if to == cur { return }
    let old = manage::use_engine(next.unwrap_or(Engine::Naive));
    ctx(|c| { c.engs[cur].parked = Some(old); c.cur = to; c.stats.swaps += 1 });
}
