//! Checks over the reflected dependency graph.
use crate::model::*;
use crate::prog::*;
use crate::real::*;
use adapton::reflect::{self, ArtContent, Const, Effect, Loc, Node, Val};
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub fn reflect_now() -> Result<reflect::DCG, String> {
    ctx(|c| c.stats.reflects += 1);
    match catch_unwind(AssertUnwindSafe(reflect::dcg_reflect_now)) { Ok(Some(d)) => Ok(d), Ok(None) => Err("no DCG engine installed".into()), Err(p) => Err(format!("reflection panicked: {:?}", classify(p))) }
}
pub fn loc_of<T: 'static + std::fmt::Debug>(a: &adapton::engine::Art<T>) -> Option<Loc> {
    match catch_unwind(AssertUnwindSafe(|| reflect::reflect_val(a))) { Ok(Val::Art(l, _)) => Some(l), _ => None }
}
/// What a value should reflect to; `None` where that is not determined (parts with structural or no identity).
pub fn val_of(v: &RV) -> Option<Val> {
    use adapton::engine::name_of_string as nm;
    let all = |v: &[RV]| v.iter().map(val_of).collect::<Option<Vec<Val>>>();
    let k = |c| Some(Val::Const(c));
    match v {
        RV::N => Some(Val::Constr(nm("Nil".into()), vec![])),
        RV::I(_) if OPAQUE.with(|o| o.get()) => k(Const::Nat(0)),
        RV::I(19) => Some(Val::Constr(nm("true".into()), vec![])), RV::I(20) => k(Const::String(ODD_STR.into())), RV::I(21) => k(Const::Num(-21)), RV::I(22) => k(Const::Nat(usize::MAX)), RV::I(23) => k(Const::String("(".into())),
        RV::I(18) => { let c = |s: &str, v| Val::Constr(nm(s.into()), v); let n = |s: &str| nm(s.into()); Some(Val::Struct(n("_z9"), vec![(n("a"), c("A0z_Z", vec![])), (n("zz9"), c("Zz", vec![Val::Const(Const::Nat(1)), Val::Const(Const::Num(-2))])), (n("_Aa"), Val::Struct(n("z"), vec![]))])) }
        RV::I(17) => { let n = |s: &str| nm(s.into()); Some(Val::Struct(n("Art"), vec![(n("art"), Val::Struct(n("Loc"), vec![(n("path"), Val::Vec(vec![])), (n("idx"), Val::Const(Const::Nat(3)))]))])) }
        RV::I(16) => Some(Val::Struct(nm("Art".into()), vec![(nm("art".into()), Val::Const(Const::Nat(5)))])),
        RV::I(15) => { use adapton::engine::{name_fork, name_of_isize, name_of_usize, name_pair}; let c = |s: &str, v| Val::Constr(nm(s.into()), v); let n = |i| Val::Const(Const::Nat(i));
            Some(Val::Vec(vec![c("Pair", vec![Val::Name(name_of_usize(1))]), c("Usize", vec![c("true", vec![])]), c("ForkL", vec![]), Val::Name(name_of_isize(-4)), Val::Struct(nm("Art".into()), vec![(nm("a".into()), n(1)), (nm("art".into()), n(2))]), c("String", vec![n(7)]), Val::Name(name_fork(name_pair(nm("q".into()), name_fork(name_of_usize(0)).0)).1)])) }
        RV::I(i) => k(Const::Nat(*i as usize)),
        RV::T(v) => { let a = all(v)?; Some(match a.len() { 1 => Val::Constr(nm("One".into()), a), 0 | 2 => Val::Tuple(a), 3 => Val::Struct(nm("Tri".into()), ["a", "b2", "c_c"].iter().map(|s| nm(s.to_string())).zip(a).collect()), _ => Val::Vec(a) }) }
        RV::A(a) => match &*a.key { Key::Nom(p, n) => Some(Val::Art(Loc { path: p.iter().map(mk_name).collect(), name: mk_name(n) }, ArtContent::Unknown)), _ => None },
        RV::Nm(_, NameC::Unit) => Some(Val::Constr(nm("Unit".into()), vec![])),
        RV::Nm(_, c) => Some(Val::Name(mk_name(c))),
    }
}
fn show_loc(l: &Loc) -> String { format!("{:?}/{:?}", l.path, l.name) }
pub type Edge = (Loc, Loc, Effect);
pub fn clean_edges(d: &reflect::DCG) -> HashSet<Edge> {
    let mut s = HashSet::new();
    for (l, n) in &d.table { if let Node::Comp(n) = n { for e in &n.succs { if !e.dirty { s.insert((l.clone(), e.loc.clone(), e.effect.clone())); } } } }
    s
}
pub fn dirty_edges(d: &reflect::DCG) -> HashSet<Edge> {
    let mut s = HashSet::new();
    for (l, n) in &d.table { if let Node::Comp(n) = n { for e in &n.succs { if e.dirty { s.insert((l.clone(), e.loc.clone(), e.effect.clone())); } } } }
    s
}
/// What must hold of any reflected graph while the editor has control.
pub fn well_formed(d: &reflect::DCG, cyclic: bool) -> Vec<(Class, String)> {
    let mut out: Vec<(Class, String)> = vec![];
    let mut bad = |c: Class, m: String| out.push((c, m));
    if !d.stack.is_empty() { bad(Class::State, format!("{} frames on the stack while the editor has control", d.stack.len())) }
    if !d.path.is_empty() { bad(Class::State, format!("current namespace is {:?} while the editor is at the root", d.path)) }
    // edges mirror each other
    let mut edges: HashMap<(&Loc, &Loc, bool), (i64, i64)> = HashMap::new();
    for (l, n) in &d.table {
        let want = match n { Node::Comp(n) => (Some(n.succs.len()), Some(n.preds.len())), Node::Ref(n) => (None, Some(n.preds.len())), Node::Pure(_) => (None, None) };
        let got = (reflect::succs_of_node(n).map(|s| s.len()), reflect::preds_of_node(n).map(|s| s.len()));
        if got != want { bad(Class::Graph, format!("{}: succs_of_node and preds_of_node give {:?} entries, the node has {:?}", show_loc(l), got, want)) }
        match n {
            Node::Comp(n) => {
                for (i, s) in n.succs.iter().enumerate() { if s.is_dup && !n.succs[..i].iter().any(|t| t.loc == s.loc && t.effect == s.effect) { bad(Class::Graph, format!("the edge from {} to {} is marked as a duplicate but repeats no earlier edge", show_loc(l), show_loc(&s.loc))) } }
                for s in &n.succs { edges.entry((l, &s.loc, s.effect == Effect::Force)).or_default().0 += 1; }
                for p in &n.preds { edges.entry((&p.loc, l, p.effect == Effect::Force)).or_default().1 += 1; }
            }
            Node::Ref(n) => for p in &n.preds { edges.entry((&p.loc, l, p.effect == Effect::Force)).or_default().1 += 1; },
            Node::Pure(_) => {}
        }
    }
    for ((s, t, obs), (a, b)) in &edges {
        if !d.table.contains_key(t) { bad(Class::Graph, format!("edge to a missing node {}", show_loc(t))) }
        match d.table.get(s) { Some(Node::Comp(_)) => {} _ => bad(Class::Graph, format!("{} has a predecessor {} that is not a thunk", show_loc(t), show_loc(s))) }
        if a != b { bad(Class::Graph, format!("{} {} {}: {} successor edges but {} predecessor edges", show_loc(s), if *obs { "observes" } else { "allocates" }, show_loc(t), a, b)) }
    }
    // dirty closure
    for (l, n) in &d.table {
        if let Node::Comp(n) = n {
            let dirty = n.succs.iter().any(|s| s.dirty);
            // (after a failed cyclic demand, a thunk that got a cycle value from one that then failed has nothing to wait for)
            if (dirty || n.value.is_none()) && !cyclic {
                for p in &n.preds {
                    if p.effect != Effect::Force { continue }
                    if let Some(Node::Comp(pn)) = d.table.get(&p.loc) {
                        if !pn.succs.iter().any(|s| s.dirty && s.effect == Effect::Force && s.loc == *l) {
                            bad(Class::Graph, format!("{} {} but its observer {} has no dirty edge to it", show_loc(l), if dirty { "has a dirty edge" } else { "has no cached result" }, show_loc(&p.loc)))
                        }
                    }
                }
            }
        }
    }
    out
}
/// The edges to named articulations that a run makes, in order, repetitions left out.
fn in_order(obs: &[Obs], allocs: &[(Rc<Key>, u64)], pos: &[usize], loc: impl Fn(&Rc<Key>) -> Option<Loc>) -> Vec<(Loc, bool)> {
    let mut acts: Vec<(&Rc<Key>, bool)> = vec![]; let mut a = 0;
    for i in 0..=obs.len() {
        while a < allocs.len() && pos[a] == i { acts.push((&allocs[a].0, false)); a += 1 }
        if let Some(o) = obs.get(i) { acts.push((o.key(), true)) }
    }
    dedup(acts.into_iter().filter(|(k, _)| !k.structural()).filter_map(|(k, o)| loc(k).map(|l| (l, o))))
}
fn dedup(i: impl Iterator<Item = (Loc, bool)>) -> Vec<(Loc, bool)> { let mut seen = HashSet::new(); i.filter(|x| seen.insert(x.clone())).collect() }
fn edges_in_order(succs: &[reflect::Succ]) -> Vec<(Loc, bool)> { dedup(succs.iter().filter(|s| format!("{:?}", s.loc.name) != "Hash64").map(|s| (s.loc.clone(), s.effect == Effect::Force))) }
/// Check of the reflected stack and namespace from inside a running thunk.
pub fn check_running() {
    let d = match reflect_now() { Ok(d) => d, Err(e) => return ctx(|c| c.viol(Class::Graph, e)) };
    let mut bad: Vec<String> = vec![];
    ctx(|c| {
        let loc = |k: &Rc<Key>| c.engs[c.cur].reg.get(k).and_then(loc_of);
        let path: Vec<adapton::engine::Name> = c.path.iter().map(mk_name).collect();
        if d.path != path { bad.push(format!("the namespace shows as {:?}, it is {:?}", d.path, path)) }
        if d.stack.len() != c.frames.len() { bad.push(format!("{} thunks are running, the stack shows {}", c.frames.len(), d.stack.len())) }
        for (f, r) in c.frames.iter().zip(&d.stack) {
            if loc(&f.key).as_ref() != Some(&r.loc) { bad.push(format!("{} is running, the stack shows {}", f.key.show(), show_loc(&r.loc))) }
            let (mut must, mut may): (HashSet<(Loc, bool)>, HashSet<(Loc, bool)>) = Default::default();
            for (k, o) in f.obs.iter().map(|o| (o.key(), true)).chain(f.allocs.iter().map(|(k, _)| (k, false))) { if let Some(l) = loc(k) { may.insert((l.clone(), o)); if !k.structural() { must.insert((l, o)); } } }
            let have: HashSet<(Loc, bool)> = r.succs.iter().map(|s| (s.loc.clone(), s.effect == Effect::Force)).collect();
            for (l, o) in must.difference(&have) { bad.push(format!("{} has {} {} so far, but its frame has no such edge", f.key.show(), if *o { "observed" } else { "allocated" }, show_loc(l))) }
            for (l, o) in have.difference(&may) { bad.push(format!("the frame of {} has an edge {} {}, which it did not do", f.key.show(), if *o { "observing" } else { "allocating" }, show_loc(l))) }
            if bad.is_empty() && edges_in_order(&r.succs) != in_order(&f.obs, &f.allocs, &f.pos, |k| loc(k)) { bad.push(format!("the edges in the frame of {} are not in the order of its effects", f.key.show())) }
        }
    });
    ctx(|c| for m in bad.into_iter().take(3) { c.viol(Class::Graph, m) });
}
/// Full check of the quiescent graph. Returns a digest of its shape.
pub fn check_graph(d: &reflect::DCG, demanded: Option<(&Rc<Key>, Option<&RV>)>) -> u64 {
    let mut out: Vec<(Class, String)> = vec![];
    let mut h = DefaultHasher::new();
    out.extend(well_formed(d, false));
    let mut bad = |c: Class, m: String| out.push((c, m));
    // agreement with what the harness saw
    let (keys, mode) = ctx(|c| (c.e().order.clone(), c.mode));
    if mode == Mode::Nominal {
        let mut pure = true;
        with_flags(|f| pure = f.use_purity_optimization);
        let mut locs: HashMap<Rc<Key>, Loc> = HashMap::new();
        for k in &keys {
            let a = ctx(|c| c.e().reg.get(k).cloned()).unwrap();
            match loc_of(&a) {
                Some(l) => {
                    if let Key::Nom(p, n) = &**k { if l.path != p.iter().map(mk_name).collect::<Vec<_>>() || l.name != mk_name(n) { bad(Class::Graph, format!("{} reflects to the location {}", k.show(), show_loc(&l))) } }
                    locs.insert(k.clone(), l);
                }
                None => bad(Class::Graph, format!("{} does not reflect to a location", k.show())) }
        }
        // what a panic interrupted may be there or not
        let maybe: HashSet<Loc> = ctx(|c| c.e().maybe.iter().filter_map(|k| match &**k { Key::Nom(p, n) => Some(Loc { path: p.iter().map(mk_name).collect(), name: mk_name(n) }), _ => None }).collect());
        let maybe: HashSet<&Loc> = d.table.keys().filter(|l| maybe.contains(l)).collect();
        if d.table.len() != keys.len() + maybe.len() { bad(Class::Graph, format!("{} nodes in the graph, {} articulations were allocated", d.table.len(), keys.len())) }
        let known: HashSet<&Loc> = locs.values().collect();
        for l in d.table.keys() { if !known.contains(l) && !maybe.contains(l) { bad(Class::Graph, format!("unknown node {}", show_loc(l))) } }
        for k in &keys {
            let l = match locs.get(k) { Some(l) => l, None => continue };
            if d.table.contains_key(l) && ctx(|c| c.e().fuzzy.contains(k)) { continue }
            let st = ctx(|c| c.e().nodes.get(k).cloned());
            match (d.table.get(l), &**k, st) {
                (None, _, _) => bad(Class::Graph, format!("{} is missing from the graph", k.show())),
                (Some(Node::Pure(n)), Key::StrC(_, v), _) => { if let MVal::A(_) = v {} else if matches!(v, MVal::I(_)) && Some(&n.value) != val_of(&RV::I(v.int())).as_ref() { bad(Class::Graph, format!("{} shows {:?}", k.show(), n.value)) } 1u8.hash(&mut h) }
                (Some(Node::Ref(_)), Key::StrC(..), _) => 2u8.hash(&mut h),
                (Some(Node::Ref(n)), _, Some(NodeSt { kind: Kind::Cell(v), .. })) => {
                    3u8.hash(&mut h);
                    let want = val_of(&v).unwrap_or_else(|| reflect::reflect_val(&v));
                    if n.value != want { bad(Class::Graph, format!("cell {} shows {:?}, its content is {:?}", k.show(), n.value, want)) }
                }
                (Some(Node::Comp(n)), _, Some(NodeSt { kind: Kind::Comp(_), done, .. })) => {
                    4u8.hash(&mut h);
                    n.value.is_some().hash(&mut h);
                    for s in &n.succs { s.dirty.hash(&mut h); (s.effect == Effect::Force).hash(&mut h) }
                    if n.prog_pt.symbol != "sim::body" { bad(Class::Graph, format!("{} shows program point {:?}", k.show(), n.prog_pt)) }
                    if pure && matches!(**k, Key::StrT(..)) && n.value.is_some() && n.succs.is_empty() && n.preds.iter().any(|p| p.effect == Effect::Force) { bad(Class::Graph, format!("{} depends on nothing, but the graph has edges that observe it", k.show())) }
                    match (&n.value, done) {
                        (None, None) => {}
                        (Some(_), None) => bad(Class::Graph, format!("{} shows a cached value but has not completed a run with its present argument", k.show())),
                        (None, Some(_)) => bad(Class::Graph, format!("{} completed a run but shows no cached value", k.show())),
                        (Some(v), Some(log)) => {
                            let want = val_of(&log.val).unwrap_or_else(|| reflect::reflect_val(&log.val));
                            if *v != want { bad(Class::Graph, format!("{} shows {:?}, its last run returned {:?}", k.show(), v, want)) }
                            let mut must: HashSet<(Loc, bool)> = HashSet::new();
                            let mut may: HashSet<(Loc, bool)> = HashSet::new();
                            for o in &log.obs { if let Some(l) = locs.get(o.key()) { may.insert((l.clone(), true)); if !o.key().structural() || !pure && matches!(**o.key(), Key::StrT(..)) { must.insert((l.clone(), true)); } } }
                            for (a, _) in &log.allocs { if let Some(l) = locs.get(a) { may.insert((l.clone(), false)); if !a.structural() { must.insert((l.clone(), false)); } } }
                            let have: HashSet<(Loc, bool)> = n.succs.iter().map(|s| (s.loc.clone(), s.effect == Effect::Force)).collect();
                            for (l, o) in must.difference(&have) { bad(Class::Graph, format!("{} {} {} in its last run, but the graph has no such edge", k.show(), if *o { "observed" } else { "allocated" }, show_loc(l))) }
                            for (l, o) in have.difference(&may) { bad(Class::Graph, format!("the graph has an edge from {} {} {}, which its last run did not do", k.show(), if *o { "observing" } else { "allocating" }, show_loc(l))) }
                            let order = in_order(&log.obs, &log.allocs, &log.pos, |k| locs.get(k).cloned());
                            if must.is_subset(&have) && have.is_subset(&may) && edges_in_order(&n.succs) != order { bad(Class::Graph, format!("the edges of {} are not in the order of the effects of its last run: {:?}", k.show(), order)) }
                        }
                    }
                }
                (Some(n), _, _) => bad(Class::Graph, format!("{} has the wrong kind of node: {}", k.show(), match n { Node::Comp(_) => "thunk", Node::Ref(_) => "cell", Node::Pure(_) => "constant" })),
            }
        }
        if let Some((k, v)) = demanded {
            if let Some(Node::Comp(n)) = locs.get(k).and_then(|l| d.table.get(l)) {
                if n.succs.iter().any(|s| s.dirty) { bad(Class::Graph, format!("{} was just demanded but has a dirty outgoing edge", k.show())) }
                if let Some(v) = v { if n.value.as_ref() != Some(&val_of(v).unwrap_or_else(|| reflect::reflect_val(v))) { bad(Class::Graph, format!("{} was just demanded as {:?} but shows {:?}", k.show(), v, n.value)) } }
            }
        }
    }
    out.sort(); out.truncate(6);
    ctx(|c| for (cl, m) in out { c.viol(cl, m) });
    d.table.len().hash(&mut h);
    h.finish()
}
/// Naming mode flag of the installed engine.
pub fn structural_flag() -> bool {
    let e = adapton::engine::manage::use_engine(adapton::engine::Engine::Naive);
    let f = match &e { adapton::engine::Engine::DCG(d) => d.borrow().flags.ignore_nominal_use_structural, _ => false };
    adapton::engine::manage::use_engine(e);
    f
}
pub fn with_flags(f: impl FnOnce(&mut adapton::engine::Flags)) {
    let e = adapton::engine::manage::use_engine(adapton::engine::Engine::Naive);
    if let adapton::engine::Engine::DCG(d) = &e { f(&mut d.borrow_mut().flags) }
    adapton::engine::manage::use_engine(e);
}
#[allow(dead_code)]
fn _unused(_: &dyn Fn(&RV) -> View<RV>) {}
