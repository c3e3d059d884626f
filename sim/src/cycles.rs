//! Cyclic demands (C10): graphs of thunks with cycle values.
//!
//! Lane "tree": every node is demanded from one place only and back edges go
//! to nodes that are then necessarily being computed, so the reference value
//! is the same whatever is cached; inputs and edges change between demands.
//! Lane "digraph": arbitrary directed graphs on a fresh engine, demanded in
//! any order without edits; the reference keeps its memo table across demands.
use crate::graph::{reflect_now, well_formed};
use crate::prog::{wrap, Prog};
use crate::real::{classify, install, Class, Ctx, Fail, InjectedPanic, Mode, Viol};
use crate::rng::Rng;
use crate::run::Outcome;
use crate::graph::loc_of;
use crate::tracechk::{check_counts, Seen};
use adapton::reflect;
use crate::sx;
use crate::sx::{PResult, Sx};
use adapton::engine::{self, manage, Art, NameChoice};
use adapton::macros::ProgPt;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::fmt;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Tgt { Node(u8), Ptr(u8) }
/// cond: 0 / 1 = only if the accumulator has that parity, else always.
#[derive(Clone, PartialEq, Debug)]
pub enum St { In(u8), Visit { t: Tgt, out: Option<i64>, cond: u8 }, Ns(u8), Alloc(u8) }
#[derive(Clone, PartialEq, Debug)]
pub struct Nd { pub parent: i64, pub inner: bool, pub body: Vec<St> }
#[derive(Clone, PartialEq, Debug)]
pub enum COp { Set(u8, i64), SetPtr(u8, u8), Demand(u8, Option<i64>, Option<u32>), Drop }
#[derive(Clone, PartialEq, Debug)]
pub struct Cyc { pub tree: bool, pub cfg: u8, pub inputs: Vec<i64>, pub ptrs: Vec<Vec<u8>>, pub nodes: Vec<Nd>, pub ops: Vec<COp> }

// ---- text form ----
fn sx_tgt(t: &Tgt) -> Sx { match t { Tgt::Node(n) => sx!("node", *n), Tgt::Ptr(p) => sx!("ptr", *p) } }
fn opt(o: &Option<i64>) -> Sx { match o { Some(x) => Sx::L(vec![(*x).into()]), None => Sx::L(vec![]) } }
fn p_opt(s: &Sx) -> PResult<Option<i64>> { match s.list()? { [] => Ok(None), [x] => Ok(Some(x.num()?)), _ => Err("opt".into()) } }
fn sx_st(s: &St) -> Sx { match s { St::In(k) => sx!("in", *k), St::Visit { t, out, cond } => sx!("visit", sx_tgt(t), opt(out), *cond), St::Ns(n) => sx!("ns", *n), St::Alloc(n) => sx!("alloc", *n) } }
fn p_st(s: &Sx) -> PResult<St> {
    Ok(match s.head()? {
        "in" => St::In(s.at(1)?.num()?), "ns" => St::Ns(s.at(1)?.num()?), "alloc" => St::Alloc(s.at(1)?.num()?),
        "visit" => { let t = s.at(1)?; let k = t.at(1)?.num()?; St::Visit { t: match t.head()? { "node" => Tgt::Node(k), "ptr" => Tgt::Ptr(k), x => return Err(x.into()) }, out: p_opt(s.at(2)?)?, cond: s.at(3)?.num()? } }
        x => return Err(x.into()),
    })
}
impl Cyc {
    pub fn to_sx(&self) -> Sx {
        let nums = |v: &[u8]| Sx::L(v.iter().map(|x| Sx::from(*x)).collect());
        sx!("cyc", sx!(if self.tree { "tree" } else { "digraph" }, self.cfg), Sx::L(self.inputs.iter().map(|x| Sx::from(*x)).collect()), Sx::L(self.ptrs.iter().map(|p| nums(p)).collect()),
            Sx::L(self.nodes.iter().map(|n| sx!(n.parent, n.inner as u8, Sx::L(n.body.iter().map(sx_st).collect()))).collect()),
            Sx::L(std::iter::once("ops".into()).chain(self.ops.iter().map(|o| match o {
                COp::Set(k, x) => sx!("set", *k, *x), COp::SetPtr(k, i) => sx!("setptr", *k, *i), COp::Drop => sx!("fresh-engine"),
                COp::Demand(n, o, f) => { let mut v: Vec<Sx> = vec!["demand".into(), (*n).into(), opt(o)]; if let Some(f) = f { v.push(sx!("panic-at-step", *f)) } Sx::L(v) }
            })).collect()))
    }
    pub fn from_sx(s: &Sx) -> PResult<Cyc> {
        let tree = match s.at(1)?.head()? { "tree" => true, "digraph" => false, x => return Err(x.into()) };
        let u8s = |s: &Sx| -> PResult<Vec<u8>> { s.list()?.iter().map(|x| x.num()).collect() };
        let nodes = s.at(4)?.list()?.iter().map(|n| Ok(Nd { parent: n.at(0)?.num()?, inner: n.at(1)?.num::<u8>()? == 1, body: n.at(2)?.list()?.iter().map(p_st).collect::<PResult<_>>()? })).collect::<PResult<Vec<_>>>()?;
        let mut ops = vec![];
        for o in s.at(5)?.list()?.iter().skip(1) {
            ops.push(match o.head()? { "set" => COp::Set(o.at(1)?.num()?, o.at(2)?.num()?), "setptr" => COp::SetPtr(o.at(1)?.num()?, o.at(2)?.num()?), "fresh-engine" => COp::Drop,
                "demand" => COp::Demand(o.at(1)?.num()?, p_opt(o.at(2)?)?, match o.list()?.get(3) { Some(f) => Some(f.at(1)?.num()?), None => None }), x => return Err(x.into()) });
        }
        let c = Cyc { tree, cfg: s.at(1)?.at(1)?.num()?, inputs: s.at(2)?.list()?.iter().map(|x| x.num()).collect::<PResult<_>>()?, ptrs: s.at(3)?.list()?.iter().map(u8s).collect::<PResult<_>>()?, nodes, ops };
        c.valid().map(|_| c)
    }
    fn anc(&self, mut a: usize, n: usize) -> bool { // is n an ancestor of a, or a itself?
        loop { if a == n { return true } let p = self.nodes[a].parent; if p < 0 { return false } a = p as usize }
    }
    fn root_of(&self, mut a: usize) -> usize { while self.nodes[a].parent >= 0 { a = self.nodes[a].parent as usize } a }
    /// In a tree, node `a` may visit: itself and its ancestors (a cycle), its
    /// children, and the roots of later trees.
    fn may(&self, a: usize, t: usize) -> bool { t < self.nodes.len() && (self.anc(a, t) || self.nodes[t].parent == a as i64 || (self.nodes[t].parent < 0 && t > self.root_of(a))) }
    fn valid(&self) -> PResult<()> {
        let n = self.nodes.len();
        if n == 0 || n > 60 { return Err("nodes".into()) }
        for (i, nd) in self.nodes.iter().enumerate() {
            if nd.parent >= i as i64 || nd.parent < -1 { return Err("parent".into()) }
            if nd.inner && (nd.parent < 0 || !self.tree) { return Err("inner".into()) }
            if nd.parent >= 0 && self.nodes[nd.parent as usize].inner && !nd.inner { return Err("outer in inner".into()) }
            for s in &nd.body {
                match s {
                    St::Visit { t: Tgt::Node(t), .. } => { if *t as usize >= n || (self.tree && !self.may(i, *t as usize)) { return Err("visit".into()) } }
                    St::Visit { t: Tgt::Ptr(p), .. } => { let p = self.ptrs.get(*p as usize).ok_or("ptr")?; if p.is_empty() || p.iter().any(|t| *t as usize >= n || (self.tree && (!self.may(i, *t as usize) || self.nodes[*t as usize].inner))) { return Err("ptr".into()) } }
                    St::Alloc(t) => { if !self.nodes.get(*t as usize).map(|x| x.inner && x.parent == i as i64).unwrap_or(false) { return Err("alloc".into()) } }
                    _ => {}
                }
            }
        }
        if self.ptrs.iter().any(|p| p.is_empty()) { return Err("ptrs".into()) }
        // what is cached after an interrupted evaluation of a cycle is not specified
        if !self.tree && self.ops.iter().any(|o| matches!(o, COp::Demand(_, _, Some(_)))) { return Err("fault in a digraph".into()) }
        Ok(())
    }
}

// ---- reference ----
#[derive(Clone, PartialEq, Debug)]
enum Bad { Cycle, Injected, Other(String) }
struct Model<'a> { c: &'a Cyc, ins: Vec<i64>, ptr: Vec<u8>, memo: HashMap<usize, i64>, stack: Vec<usize>, hits: u64, steps: usize,
    /// What each node read in its last evaluation: inputs (0), pointers (1), nodes (2).
    read: HashMap<usize, HashSet<(u8, usize)>>,
    /// The nodes evaluated in this demand.
    evald: HashSet<usize> }
impl<'a> Model<'a> {
    fn target(&self, t: &Tgt) -> usize { match t { Tgt::Node(n) => *n as usize, Tgt::Ptr(p) => { let v = &self.c.ptrs[*p as usize]; v[self.ptr[*p as usize] as usize % v.len()] as usize } } }
    fn saw(&mut self, n: usize, kind: u8, k: usize) { self.read.get_mut(&n).unwrap().insert((kind, k)); }
    /// Drops what depends on a changed input or pointer; what remains is still valid.
    fn changed(&mut self, kind: u8, k: usize) {
        let mut todo = vec![(kind, k)]; let mut seen = HashSet::new();
        while let Some(x) = todo.pop() { for (n, r) in &self.read { if r.contains(&x) && seen.insert(*n) { self.memo.remove(n); todo.push((2, *n)) } } }
    }
    fn force(&mut self, n: usize, out: Option<i64>) -> Result<i64, Bad> {
        self.steps += 1; if self.steps > 20000 { return Err(Bad::Other("model budget".into())) }
        if self.stack.contains(&n) { self.hits += 1; return match out { Some(o) => Ok(o), None => Err(Bad::Cycle) } }
        if let Some(v) = self.memo.get(&n) { return Ok(*v) }
        self.stack.push(n);
        self.read.insert(n, HashSet::new());
        self.evald.insert(n);
        let mut acc = n as i64;
        for s in &self.c.nodes[n].body {
            match s {
                St::In(k) => { self.saw(n, 0, *k as usize); let v = self.ins.get(*k as usize).copied().unwrap_or(0); acc = wrap(acc * 3 + v) }
                St::Visit { t, out, cond } => if *cond > 1 || (acc & 1) as u8 == *cond { if let Tgt::Ptr(p) = t { self.saw(n, 1, *p as usize) } let t = self.target(t); self.saw(n, 2, t); let v = self.force(t, *out)?; acc = mixv(acc, v) },
                St::Ns(_) | St::Alloc(_) => {}
            }
        }
        self.stack.pop();
        self.memo.insert(n, acc);
        Ok(acc)
    }
}
fn mixv(acc: i64, v: i64) -> i64 { (acc * 7 + v + 1).rem_euclid(9973) }

// ---- real ----
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct CArg { id: usize, anc: Vec<(usize, Art<i64>)> }
impl fmt::Debug for CArg { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "({}, {})", self.id, self.anc.len()) } }
struct S { c: Rc<Cyc>, ins: Vec<Art<i64>>, arts: HashMap<usize, Art<i64>>, ptrs: Vec<Art<Art<i64>>>, ran: Vec<usize>, steps: u32, fault: Option<u32>, fired: u64, running: Vec<usize>, wrong: Vec<String>, total: u64, seen: Seen, ran_locs: Vec<reflect::Loc>, locs: HashMap<usize, reflect::Loc> }
thread_local!(static ST: RefCell<Option<S>> = RefCell::new(None));
fn st<T>(f: impl FnOnce(&mut S) -> T) -> T { ST.with(|s| f(s.borrow_mut().as_mut().expect("cyc"))) }
fn node_name(i: usize) -> engine::Name { let n = engine::name_of_usize(i); match i % 3 { 0 => engine::name_pair(engine::name_of_string("node".into()), n), 1 => n, _ => engine::name_fork(n).0 } }
fn saw<T: 'static + fmt::Debug>(m: fn(&mut Seen) -> &mut HashMap<reflect::Loc, i64>, a: &Art<T>) { if st(|s| s.c.cfg & 2 != 0) { if let Some(l) = loc_of(a) { st(|s| *m(&mut s.seen).entry(l).or_default() += 1) } } }
fn fcell<T: Hash + Eq + fmt::Debug + Clone + 'static>(a: &Art<T>) -> T { saw(|s| &mut s.refget, a); engine::force(a) }
fn fthunk(a: &Art<i64>, out: Option<i64>) -> i64 {
    saw(|s| &mut s.force, a);
    match out { None => engine::force(a), Some(o) => engine::force_cycle(a, Some(o)) } }
fn alloc(i: usize, anc: Vec<(usize, Art<i64>)>) -> Art<i64> { let a = alloc_(i, anc); saw(|s| &mut s.alloc, &a); if st(|s| s.c.cfg & 2 != 0 && !s.locs.contains_key(&i)) { if let Some(l) = loc_of(&a) { st(|s| { s.locs.insert(i, l); }) } } a }
fn alloc_(i: usize, anc: Vec<(usize, Art<i64>)>) -> Art<i64> {
    engine::thunk(NameChoice::Nominal(node_name(i)), ProgPt { symbol: "cyc::node" }, Rc::new(Box::new(|a: CArg, _: ()| body(a))), CArg { id: i, anc }, ())
}
fn tick() { crate::threads::point(); let fire = st(|s| { s.steps += 1; s.total += 1; if s.fault == Some(s.steps) { s.fault = None; s.fired += 1; true } else { false } }); if fire { panic_any(InjectedPanic) } }
fn body(a: CArg) -> i64 {
    struct G; impl Drop for G { fn drop(&mut self) { st(|s| { s.running.pop(); }) } }
    let c = st(|s| { s.ran.push(a.id); if let Some(l) = s.locs.get(&a.id).cloned() { s.ran_locs.push(l) } if s.running.contains(&a.id) { s.wrong.push(format!("node {} was started while it was already running", a.id)) } s.running.push(a.id); s.c.clone() });
    let _g = G;
    tick();
    if st(|s| s.running.len()) > 200 { panic!("runaway recursion") }
    let mut mine: HashMap<usize, Art<i64>> = HashMap::new();
    let mut acc = a.id as i64;
    let ns = c.nodes[a.id].body.iter().find_map(|s| match s { St::Ns(n) => Some(*n), _ => None });
    for s in &c.nodes[a.id].body {
        tick();
        match s {
            St::In(k) => { let i = st(|s| s.ins.get(*k as usize).cloned()); acc = wrap(acc * 3 + i.map(|i| fcell(&i)).unwrap_or(0)) }
            St::Ns(_) => {}
            St::Alloc(t) => { let me = if c.nodes[a.id].inner { find(&a, &mine, a.id) } else { st(|s| s.arts.get(&a.id).cloned()) }; let mut anc = a.anc.clone(); if let Some(m) = me { anc.push((a.id, m)) } mine.insert(*t as usize, alloc(*t as usize, anc)); }
            St::Visit { t, out, cond } => if *cond > 1 || (acc & 1) as u8 == *cond {
                let (n, art) = match t {
                    Tgt::Node(n) => (*n as usize, find(&a, &mine, *n as usize)),
                    Tgt::Ptr(p) => { let p = st(|s| s.ptrs[*p as usize].clone()); (999, Some(fcell(&p))) }
                };
                let art = match art { Some(x) => x, None => if c.nodes[n].inner && c.nodes[n].parent == a.id as i64 { let mut anc = a.anc.clone(); if let Some(m) = find(&a, &mine, a.id) { anc.push((a.id, m)) } let x = alloc(n, anc); mine.insert(n, x.clone()); x } else { panic!("harness: node {} unknown in {}", n, a.id) } };
                let go = || fthunk(&art, *out);
                let v = match ns { Some(n) => engine::ns(engine::name_of_usize(n as usize), go), None => go() };
                acc = mixv(acc, v)
            },
        }
    }
    acc
}
/// The articulation of node `n` as known inside the body of `a`. An inner
/// node finds itself by allocating itself again (its own name and argument).
fn find(a: &CArg, mine: &HashMap<usize, Art<i64>>, n: usize) -> Option<Art<i64>> {
    if let Some(x) = mine.get(&n) { return Some(x.clone()) }
    if let Some(x) = a.anc.iter().find(|x| x.0 == n) { return Some(x.1.clone()) }
    if let Some(x) = st(|s| s.arts.get(&n).cloned()) { return Some(x) }
    if n == a.id { return Some(alloc(n, a.anc.clone())) }
    None
}
fn setup(c: &Rc<Cyc>, m: &Model) {
    let ins: Vec<Art<i64>> = m.ins.iter().enumerate().map(|(k, v)| engine::cell(engine::name_pair(engine::name_of_string("in".into()), engine::name_of_usize(k)), *v)).collect();
    st(|s| { s.ins = ins; s.arts.clear(); s.ptrs.clear() });
    for (i, n) in c.nodes.iter().enumerate() { if !n.inner { let a = alloc(i, vec![]); st(|s| s.arts.insert(i, a)); } }
    for (k, p) in c.ptrs.iter().enumerate() {
        let t = p[m.ptr[k] as usize % p.len()] as usize;
        let a = st(|s| s.arts.get(&t).cloned());
        let a = match a { Some(a) => a, None => st(|s| s.arts.values().next().unwrap().clone()) };
        let p = engine::cell(engine::name_pair(engine::name_of_string("ptr".into()), engine::name_of_usize(k)), a);
        st(|s| s.ptrs.push(p));
    }
}
fn env(cfg: u8, on: bool) { if cfg & 1 != 0 { if on { std::env::set_var("ADAPTON_NO_PURITY", "1") } else { std::env::remove_var("ADAPTON_NO_PURITY") } } }

pub fn run(c: &Cyc, strip: bool) -> Outcome {
    let traced = c.cfg & 2 != 0 && !strip;
    let c = Rc::new(c.clone());
    // reflection helpers count in the shared context
    install(Some(Ctx::new(Rc::new(Prog::default()), Mode::Structural, 1)));
    let mut out = Outcome::default();
    let mut m = Model { c: &c, ins: c.inputs.iter().map(|x| wrap(*x)).collect(), ptr: vec![0; c.ptrs.len()], memo: HashMap::new(), stack: vec![], hits: 0, steps: 0, read: HashMap::new(), evald: HashSet::new() };
    ST.with(|s| *s.borrow_mut() = Some(S { c: c.clone(), ins: vec![], arts: HashMap::new(), ptrs: vec![], ran: vec![], steps: 0, fault: None, fired: 0, running: vec![], wrong: vec![], total: 0, seen: Seen::default(), ran_locs: vec![], locs: HashMap::new() }));
    let fresh = |m: &Model| { env(c.cfg, true); manage::init_dcg(); env(c.cfg, false); setup(&c, m) };
    fresh(&m);
    let mut h = DefaultHasher::new();
    let mut edited = true; // something changed since the last demand of ...
    let mut clean: HashSet<usize> = HashSet::new(); // roots demanded since the last change, with no panic
    let mut ran_since: HashSet<usize> = HashSet::new();
    let mut hits = 0; let mut unexpected = 0; let mut after_edit_hits = 0; let mut edits = 0u64; let mut panicked_ever = false;
    let mut viol = |out: &mut Outcome, class: Class, op: usize, msg: String| if out.viols.len() < 20 { out.viols.push(Viol { class, op, msg }) };
    let mut dead = false;
    for (i, op) in c.ops.iter().enumerate() {
        if dead { break }
        out.stats.ops += 1; crate::threads::point();
        let mut line = String::new();
        if traced { st(|s| s.seen = Seen::default()); reflect::dcg_reflect_begin() }
        match op {
            COp::Set(k, x) => if (*k as usize) < m.ins.len() { let x = wrap(*x); if m.ins[*k as usize] != x { m.changed(0, *k as usize) } m.ins[*k as usize] = x; ran_since.clear(); let a = st(|s| s.ins[*k as usize].clone()); if let Err(p) = catch_unwind(AssertUnwindSafe(|| engine::set(&a, x))) { viol(&mut out, Class::Panic, i, format!("setting input {} panicked: {:?}", k, classify(p))); dead = true } edits += 1; out.stats.edits += 1; edited = true; clean.clear() },
            COp::SetPtr(k, t) => if (*k as usize) < c.ptrs.len() {
                let old = m.target(&Tgt::Ptr(*k)); m.ptr[*k as usize] = *t; if m.target(&Tgt::Ptr(*k)) != old { m.changed(1, *k as usize) } ran_since.clear(); let v = &c.ptrs[*k as usize]; let n = v[*t as usize % v.len()] as usize;
                let (p, a) = st(|s| (s.ptrs[*k as usize].clone(), s.arts.get(&n).cloned()));
                if let Some(a) = a { if let Err(p) = catch_unwind(AssertUnwindSafe(|| engine::set(&p, a))) { viol(&mut out, Class::Panic, i, format!("redirecting {} panicked: {:?}", k, classify(p))); dead = true } edits += 1; out.stats.edits += 1; edited = true; clean.clear() }
            },
            COp::Drop => { m.memo.clear(); fresh(&m); clean.clear(); ran_since.clear(); edited = true; out.stats.swaps += 1 }
            COp::Demand(n, cv, fault) => {
                let n = *n as usize;
                if n >= c.nodes.len() || c.nodes[n].inner || (c.tree && c.nodes[n].parent >= 0) || (!c.tree && panicked_ever) { if traced { reflect::dcg_reflect_end(); } continue }
                if c.tree { m.memo.clear() }
                m.hits = 0; m.stack.clear(); m.steps = 0; m.evald.clear();
                let want = m.force(n, *cv);
                if let Err(Bad::Other(_)) = want { out.stats.skipped += 1; if traced { reflect::dcg_reflect_end(); } continue }
                hits += m.hits; if edits > 0 { after_edit_hits += m.hits }
                out.stats.demands += 1;
                let a = st(|s| { s.ran.clear(); s.steps = 0; s.fault = *fault; s.fired = 0; s.running.clear(); s.arts[&n].clone() });
                let r = catch_unwind(AssertUnwindSafe(|| fthunk(&a, *cv)));
                let (ran, fired, wrong) = st(|s| { s.fault = None; (s.ran.clone(), s.fired, std::mem::take(&mut s.wrong)) });
                out.stats.bodies += ran.len() as u64; out.stats.injected += fired; if ran.is_empty() { out.stats.reuse += 1 }
                for w in wrong { viol(&mut out, Class::Twice, i, w) }
                let got = r.map_err(|p| match classify(p) { Fail::Injected => Bad::Injected, Fail::Engine(s) if s.contains("unexpected cycle") => Bad::Cycle, f => Bad::Other(format!("{:?}", f)) });
                match (&want, &got) {
                    (_, Err(Bad::Injected)) if fired > 0 => { clean.clear(); panicked_ever = true; if !c.tree { m.memo.clear() } line = "injected".into() }
                    (Ok(a), Ok(b)) if a == b => {
                        line = b.to_string();
                        let mut seen = HashSet::new();
                        for k in &ran { if !seen.insert(*k) || (!c.tree && !ran_since.insert(*k)) { viol(&mut out, Class::Twice, i, format!("node {} was executed twice although nothing changed", k)) } }
                        for k in &ran { if !m.evald.contains(k) { viol(&mut out, Class::Reexec, i, format!("node {} was executed, which a depth-first evaluation with what is still known does not do", k)) } }
                        if clean.contains(&n) && !ran.is_empty() { viol(&mut out, Class::Reexec, i, format!("demanding node {} again with no change ran {:?}", n, ran)) }
                        clean.insert(n);
                    }
                    (Err(Bad::Cycle), Err(Bad::Cycle)) => { unexpected += 1; out.stats.organic += 1; clean.clear(); panicked_ever = true; line = "unexpected cycle".into() }
                    (Ok(a), Ok(b)) => viol(&mut out, Class::Value, i, format!("demanding node {} gave {}, a depth-first evaluation gives {}", n, b, a)),
                    (Err(_), Ok(b)) => viol(&mut out, Class::Value, i, format!("demanding node {} gave {}, but its evaluation forces a running thunk with no cycle value", n, b)),
                    (w, Err(e)) => { viol(&mut out, Class::Panic, i, format!("demanding node {} panicked: {:?}; expected {:?}", n, e, w)); dead = true }
                }
                edited = false;
                ran.hash(&mut h); line.hash(&mut h);
                line.push_str(&format!(" ran={:?}", ran));
                if got.is_err() || i % 3 == 0 {
                    match reflect_now() { Ok(d) => { for (cl, m) in well_formed(&d, panicked_ever) { viol(&mut out, cl, i, m) } out.stats.reflects += 1 } Err(e) => viol(&mut out, Class::Graph, i, e) }
                }
            }
        }
        if traced {
            match catch_unwind(AssertUnwindSafe(|| reflect::dcg_reflect_end())) {
                Err(p) => viol(&mut out, Class::Trace, i, format!("dcg_reflect_end panicked: {:?}", classify(p))),
                Ok(trs) => {
                    let mut w = st(|s| std::mem::take(&mut s.seen));
                    for k in st(|s| s.ran_locs.drain(..).collect::<Vec<_>>()) { *w.run.entry(k).or_default() += 1 }
                    let d0 = matches!(op, COp::Drop);
                    if !d0 { for e in check_counts(&trs, &w, line.starts_with("unexpected"), line == "injected" || line.starts_with("injected") || line.starts_with("unexpected")) { viol(&mut out, Class::Trace, i, e) } }
                    out.stats.windows += 1;
                }
            }
        }
        out.states.push(h.finish());
        out.digest.push((0, format!("{:?} {}", op, line)));
    }
    let _ = edited;
    out.stats.steps = st(|s| s.total);
    ST.with(|s| *s.borrow_mut() = None);
    install(None);
    let _ = manage::use_engine(engine::Engine::Naive);
    out.extra.push(("cycle_values_returned", hits)); out.extra.push(("cycle_values_returned_after_edits", after_edit_hits)); out.extra.push(("unexpected_cycles", unexpected));
    out.nontrivial = hits > 0 && (if c.tree { after_edit_hits > 0 } else { c.nodes.len() >= 3 && out.stats.demands >= 2 });
    out
}

// ---- generation ----
fn cond(r: &mut Rng) -> u8 { if r.chance(60) { 9 } else { r.below(2) as u8 } }
fn cyc_out(r: &mut Rng, plain: usize) -> Option<i64> { if r.chance(plain) { None } else { Some(r.below(7) as i64) } }
pub fn gen_tree(r: &mut Rng) -> Sx {
    let hi = if r.chance(25) { 14 } else { 7 }; let n = r.range(1, hi); let nin = r.range(1, 4);
    let plain = if r.chance(30) { 25 } else { 0 };
    let roots = 1 + if n > 3 { r.below(3) } else { 0 };
    let mut nodes: Vec<Nd> = (0..n).map(|i| { let parent = if i < roots && i > 0 || i == 0 { -1 } else if r.chance(40) { i as i64 - 1 } else { r.below(i) as i64 }; Nd { parent, inner: parent >= 0 && r.chance(30), body: vec![] } }).collect();
    for i in 0..n { let p = nodes[i].parent; if p >= 0 && nodes[p as usize].inner { nodes[i].inner = true } }
    let mut c = Cyc { tree: true, cfg: r.chance(25) as u8, inputs: (0..nin).map(|_| r.below(5) as i64).collect(), ptrs: vec![], nodes: nodes.clone(), ops: vec![] };
    for i in 0..n {
        let mut b = vec![];
        let kids: Vec<usize> = (0..n).filter(|k| nodes[*k].parent == i as i64).collect();
        let anc: Vec<usize> = (0..n).filter(|k| c.anc(i, *k)).collect();
        let other: Vec<usize> = (0..n).filter(|k| nodes[*k].parent < 0 && *k > c.root_of(i)).collect();
        if r.chance(25) { b.push(St::Ns(r.below(3) as u8)) }
        for k in &kids { if nodes[*k].inner && r.chance(30) { b.push(St::Alloc(*k as u8)) } }
        let mut vs: Vec<St> = vec![];
        for k in &kids { for _ in 0..1 + r.chance(20) as usize { let out = if r.chance(50) { Some(r.below(7) as i64) } else { None }; vs.push(St::Visit { t: Tgt::Node(*k as u8), out, cond: if r.chance(80) { 9 } else { cond(r) } }) } }
        for _ in 0..r.below(3) { let a = *r.pick(&anc); vs.push(St::Visit { t: Tgt::Node(a as u8), out: cyc_out(r, plain), cond: cond(r) }) }
        if !other.is_empty() && r.chance(40) { let a = *r.pick(&other); vs.push(St::Visit { t: Tgt::Node(a as u8), out: if r.chance(50) { Some(1) } else { None }, cond: cond(r) }) }
        if r.chance(35) {
            let opts: Vec<u8> = anc.iter().chain(&kids).chain(&other).filter(|k| !nodes[**k].inner).map(|k| *k as u8).collect();
            if !opts.is_empty() {
                let p: Vec<u8> = (0..r.range(1, 4)).map(|_| *r.pick(&opts)).collect();
                vs.push(St::Visit { t: Tgt::Ptr(c.ptrs.len() as u8), out: cyc_out(r, plain), cond: cond(r) }); c.ptrs.push(p);
            }
        }
        for _ in 0..r.below(3) { vs.push(St::In(r.below(nin) as u8)) }
        while !vs.is_empty() { let k = r.below(vs.len()); b.push(vs.swap_remove(k)) }
        nodes[i].body = b;
    }
    c.nodes = nodes;
    let hi = if r.chance(20) { 40 } else { 16 }; let nops = r.range(4, hi);
    let fault = if r.chance(30) { 15 } else { 0 };
    for _ in 0..nops {
        let o = match r.below(10) { 0..=3 => COp::Set(r.below(nin) as u8, r.below(5) as i64), 4 if !c.ptrs.is_empty() => COp::SetPtr(r.below(c.ptrs.len()) as u8, r.below(4) as u8),
            _ => COp::Demand(if r.chance(70) { 0 } else { r.below(roots) as u8 }, if r.chance(30) { Some(r.below(5) as i64) } else { None }, if r.chance(fault) { Some(r.range(1, 25) as u32) } else { None }) };
        c.ops.push(o);
    }
    c.ops.push(COp::Demand(0, None, None)); c.ops.push(COp::Demand(0, None, None));
    c.to_sx()
}
pub fn gen_digraph(r: &mut Rng) -> Sx {
    let hi = if r.chance(25) { 20 } else { 7 }; let n = r.range(1, hi); let nin = r.range(1, 3);
    let plain = if r.chance(25) { 8 } else { 0 };
    let mut c = Cyc { tree: false, cfg: r.chance(25) as u8, inputs: (0..nin).map(|_| r.below(5) as i64).collect(), ptrs: vec![], nodes: vec![], ops: vec![] };
    let shape = r.below(4);
    for i in 0..n {
        let mut b = vec![];
        if r.chance(20) { b.push(St::Ns(r.below(3) as u8)) }
        for _ in 0..r.range(if shape == 0 { 1 } else { 0 }, 3) {
            let t = match shape { 0 => (i + 1) % n, 1 => r.below(n), 2 => if r.chance(60) { (i + 1).min(n - 1) } else { r.below(i + 1) }, _ => if r.chance(20) { i } else { r.below(n) } };
            let t = if r.chance(15) { r.below(n) } else { t };
            let out = cyc_out(r, plain);
            if r.chance(15) { c.ptrs.push(vec![t as u8]); b.push(St::Visit { t: Tgt::Ptr(c.ptrs.len() as u8 - 1), out, cond: cond(r) }) } else { b.push(St::Visit { t: Tgt::Node(t as u8), out, cond: cond(r) }) }
            if r.chance(30) { b.push(St::In(r.below(nin) as u8)) }
        }
        c.nodes.push(Nd { parent: -1, inner: false, body: b });
    }
    for p in c.ptrs.iter_mut() { for _ in 0..r.below(3) { p.push(r.below(n) as u8) } }
    let edits = if r.chance(60) { 45 } else { 0 };
    let hi = if edits > 0 { 24 } else { 9 };
    for _ in 0..r.range(2, hi) {
        if r.chance(edits) { if !c.ptrs.is_empty() && r.chance(50) { c.ops.push(COp::SetPtr(r.below(c.ptrs.len()) as u8, r.below(4) as u8)) } else { c.ops.push(COp::Set(r.below(nin) as u8, r.below(5) as i64)) } }
        else { c.ops.push(COp::Demand(r.below(n) as u8, if r.chance(30) { Some(r.below(5) as i64) } else { None }, None)) }
    }
    if r.chance(10) { c.ops.push(COp::Drop) ; for _ in 0..3 { c.ops.push(COp::Demand(r.below(n) as u8, None, None)) } }
    c.to_sx()
}

/// As above, recording the trace of every operation.
pub fn gen_traced(r: &mut Rng) -> Sx {
    let s = if r.chance(70) { gen_tree(r) } else { gen_digraph(r) };
    let mut c = Cyc::from_sx(&s).unwrap(); c.cfg |= 2; c.to_sx()
}
/// Demands that are interrupted inside cycles, and the same demands again.
pub fn gen_faulty(r: &mut Rng) -> Sx {
    let mut c = Cyc::from_sx(&gen_tree(r)).unwrap();
    let mut ops = vec![];
    for o in c.ops { if let COp::Demand(n, cv, None) = o { if r.chance(45) { ops.push(COp::Demand(n, cv, Some(r.range(1, 25) as u32))); if r.chance(40) { continue } } } ops.push(o) }
    ops.push(COp::Demand(0, None, None)); ops.push(COp::Demand(0, None, None));
    c.ops = ops;
    c.to_sx()
}
