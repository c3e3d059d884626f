//! Checks of recorded effect traces against what the harness saw happen.
use crate::graph::{loc_of, Edge};
use crate::model::*;
use crate::real::*;
use adapton::reflect::trace::{self, AllocCase, AllocKind, ChangeFlag, EffectEdge, ForceCase, Trace};
use adapton::reflect::{Effect as REff, Loc, DCG, Node};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

/// An effect of the user's program, as it must appear in the trace: in order, with the thunk that performed it.
#[derive(PartialEq, Clone, Debug)]
enum It { Get(Loc), Force(Loc), Run(Loc), Alloc(Loc, bool, ACase), Dbg(Option<String>, Option<String>), End }
#[derive(Default)]
struct Acc { seq: Vec<(Option<Loc>, It)>, archivist: usize, changed: usize, refget: HashMap<Loc, i64>, force: HashMap<Loc, i64>, run: HashMap<Loc, i64>, alloc: HashMap<(Loc, bool, ACase), i64>, dirty: HashSet<Edge>, removed: HashSet<Edge>, delta: HashMap<Edge, i64>, ndirty: (usize, usize), fresh: (usize, usize), same: (usize, usize), diff: (usize, usize), rec: usize, eval: usize, errs: Vec<String> }
fn edge(t: &Trace) -> Option<(Option<Loc>, Loc, REff)> { match &t.edge { EffectEdge::Fwd(e) | EffectEdge::Bwd(e) => Some((e.loc.clone(), e.succ.loc.clone(), e.succ.effect.clone())), EffectEdge::None => None } }
/// `parent`: the enclosing effect (other than debugging extents); `run`: the thunk whose body encloses this.
fn walk(ts: &[Trace], parent: Option<&Trace>, run: Option<&Loc>, forced: &mut HashSet<Loc>, arch: bool, panicked: bool, a: &mut Acc) {
    let n = ts.len();
    for (i, t) in ts.iter().enumerate() {
        let e = edge(t);
        let in_rec = matches!(parent.map(|p| &p.effect), Some(trace::Effect::CleanRec));
        let (src, tgt) = match &e { Some((s, t, _)) => (s.clone(), Some(t.clone())), None => (None, None) };
        let mut sub_arch = arch; let mut sub_run: Option<Loc> = run.cloned(); let mut end = false;
        let flag = match &t.edge { EffectEdge::Fwd(e) | EffectEdge::Bwd(e) => Some(e.succ.dirty), EffectEdge::None => None };
        match (&t.effect, flag) {
            (trace::Effect::Force(_) | trace::Effect::Alloc(..), Some(true)) => a.errs.push(format!("a new edge is traced as dirty: {:?}", e)),
            (trace::Effect::Dirty | trace::Effect::CleanEval, Some(false)) if src.is_none() || matches!(t.effect, trace::Effect::Dirty) => a.errs.push(format!("{:?} of an edge traced as clean: {:?}", t.effect, e)),
            _ => {}
        }
        match (&t.effect, e.as_ref().map(|e| &e.2)) { (trace::Effect::Force(_), Some(REff::Alloc)) | (trace::Effect::Alloc(..), Some(REff::Force)) => a.errs.push(format!("{:?} with the effect of its edge {:?}", t.effect, e)), (trace::Effect::CleanEval, Some(REff::Alloc)) if src.is_none() => a.errs.push("an evaluation with the edge of an allocation".into()), _ => {} }
        let mut it = |a: &mut Acc, x: It| a.seq.push((run.cloned(), x));
        match &t.effect {
            trace::Effect::Force(fc) => {
                let tgt = tgt.unwrap(); sub_arch = true;
                let dup = match &t.edge { EffectEdge::Fwd(e) | EffectEdge::Bwd(e) => e.succ.is_dup, _ => false };
                if !forced.insert(tgt.clone()) {} else if dup && run.is_some() { a.errs.push(format!("the first observation of {:?} in a run is marked as a duplicate", tgt)) }
                if let (Some(s), false) = (&src, dup) { *a.delta.entry((s.clone(), tgt.clone(), REff::Force)).or_default() += 1 }
                if src.as_ref() != run { a.errs.push(format!("a force inside the body of {:?} is attributed to {:?}", run, src)) }
                match fc { ForceCase::RefGet => it(a, It::Get(tgt.clone())), _ => { if !arch { a.archivist += 1 } it(a, It::Force(tgt.clone())) } }
                match fc {
                    ForceCase::RefGet => { *a.refget.entry(tgt).or_default() += 1; if !t.extent.is_empty() { a.errs.push("a cell read has nested effects".into()) } }
                    ForceCase::CompCacheHit => { *a.force.entry(tgt).or_default() += 1; }
                    ForceCase::CompCacheMiss => { *a.force.entry(tgt.clone()).or_default() += 1; it(a, It::Run(tgt.clone())); sub_run = Some(tgt.clone()); *a.run.entry(tgt).or_default() += 1; }
                }
            }
            trace::Effect::Alloc(c, k) => {
                let case = match c { AllocCase::LocFresh => ACase::Fresh, AllocCase::LocExists(ChangeFlag::ContentSame) => ACase::Same, AllocCase::LocExists(ChangeFlag::ContentDiff) => ACase::Diff };
                let ctr = match case { ACase::Fresh => &mut a.fresh, ACase::Same => &mut a.same, ACase::Diff => &mut a.diff };
                if arch { ctr.1 += 1 } else { ctr.0 += 1 }
                let tgt = tgt.unwrap();
                let structural = format!("{:?}", tgt.name) == "Hash64";
                if let Some(s) = &src { *a.delta.entry((s.clone(), tgt.clone(), REff::Alloc)).or_default() += 1 }
                if src.as_ref() != run { a.errs.push(format!("an allocation inside the body of {:?} is attributed to {:?}", run, src)) }
                if !structural { it(a, It::Alloc(tgt.clone(), matches!(k, AllocKind::RefCell), case)); *a.alloc.entry((tgt, matches!(k, AllocKind::RefCell), case)).or_default() += 1; }
                if case != ACase::Diff && !t.extent.is_empty() { a.errs.push(format!("an allocation of unchanged or fresh content has nested effects: {:?}", t.extent.iter().map(|x| &x.effect).collect::<Vec<_>>())) }
                if t.extent.iter().any(|x| !matches!(x.effect, trace::Effect::Dirty | trace::Effect::Remove)) { a.errs.push("an allocation contains effects other than dirtying".into()) }
            }
            trace::Effect::Dirty => {
                if arch { a.ndirty.1 += 1 } else { a.ndirty.0 += 1 }
                match (src, tgt) { (Some(s), Some(t)) => { a.dirty.insert((s, t, e.as_ref().unwrap().2.clone())); } _ => a.errs.push("dirtying without an edge".into()) }
                match parent.map(|p| &p.effect) { None | Some(trace::Effect::Dirty) | Some(trace::Effect::Alloc(..)) => {} Some(p) => a.errs.push(format!("dirtying directly inside {:?}", p)) }
                if t.extent.iter().any(|x| !matches!(x.effect, trace::Effect::Dirty)) { a.errs.push("dirtying contains other effects".into()) }
            }
            trace::Effect::CleanRec => {
                a.rec += 1;
                match parent.map(|p| &p.effect) { Some(trace::Effect::CleanRec) | Some(trace::Effect::Force(ForceCase::CompCacheHit)) => {} p => a.errs.push(format!("cleaning of an edge inside {:?}", p)) }
                if !panicked {
                    match t.extent.last() {
                        Some(x) if matches!(x.effect, trace::Effect::CleanEdge | trace::Effect::CleanEval) && edge(x) == e => {}
                        x => a.errs.push(format!("cleaning of an edge ended with {:?}", x.map(|x| &x.effect))),
                    }
                }
            }
            trace::Effect::CleanEdge => { if !in_rec || i + 1 != n { a.errs.push("an edge is marked clean without having been examined".into()) } if !t.extent.is_empty() { a.errs.push("marking clean has nested effects".into()) } }
            trace::Effect::CleanEval => {
                a.eval += 1; sub_arch = true;
                if t.extent.iter().any(|x| matches!(x.effect, trace::Effect::Alloc(AllocCase::LocFresh, _) | trace::Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentDiff), _) | trace::Effect::Force(ForceCase::CompCacheMiss) | trace::Effect::Dirty)) { a.changed += 1 }
                let who = src.clone().or(tgt.clone()).unwrap(); it(a, It::Run(who.clone())); sub_run = Some(who);
                match src { Some(s) => { if !in_rec || i + 1 != n { a.errs.push("re-evaluation outside the cleaning of an edge".into()) } *a.run.entry(s).or_default() += 1; } None => { *a.run.entry(tgt.unwrap()).or_default() += 1; } }
            }
            trace::Effect::Remove => { if let (Some(s), Some(t)) = (src, tgt) { let ed = (s, t, e.as_ref().unwrap().2.clone()); *a.delta.entry(ed.clone()).or_default() -= 1; a.removed.insert(ed); } if !t.extent.is_empty() { a.errs.push("an edge removal has nested effects".into()) } }
            trace::Effect::Debug(n, m) => { it(a, It::Dbg(n.as_ref().map(|n| format!("{:?}", n)), m.clone())); end = true; if e.is_some() { a.errs.push("a debugging effect has an edge".into()) } }
        }
        let p = if end { parent } else { Some(t) };
        if sub_run.as_ref() != run || matches!(t.effect, trace::Effect::CleanEval | trace::Effect::Force(ForceCase::CompCacheMiss)) { walk(&t.extent, p, sub_run.as_ref(), &mut HashSet::new(), sub_arch, panicked, a) } else { walk(&t.extent, p, sub_run.as_ref(), forced, sub_arch, panicked, a) }
        if end { a.seq.push((None, It::End)) }
    }
}
fn counts(trs: &Vec<Trace>, a: &Acc, errs: &mut Vec<String>) {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| trace::trace_count(trs, None))) {
        Err(_) => errs.push("trace_count panicked".into()),
        Ok(c) => {
            let got = (c.alloc_fresh, c.alloc_nochange, c.alloc_change, c.dirty, c.clean_rec, c.reeval_change, c.reeval_nochange, c.total_archivist, c.total_updates);
            let want = (a.fresh, a.same, a.diff, a.ndirty, a.rec, a.changed, a.eval - a.changed, a.archivist, 1);
            let n = trs.len() * 7 % 23;
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let d = trace::trace_count(trs, Some(n)); let s = format!("{:?}", c); (d, s) })) {
                Err(_) => errs.push("trace_count with a number of updates, or showing its result, panicked".into()),
                Ok((d, s)) => {
                    if (d.total_updates, d.alloc_fresh, d.alloc_nochange, d.alloc_change, d.dirty, d.clean_rec, d.reeval_change, d.reeval_nochange, d.total_archivist) != (n, c.alloc_fresh, c.alloc_nochange, c.alloc_change, c.dirty, c.clean_rec, c.reeval_change, c.reeval_nochange, c.total_archivist) { errs.push(format!("trace_count with {} updates counts differently from trace_count without", n)) }
                    // the printed table: the sum in each row is what was counted
                    let rows: Vec<usize> = s.lines().filter_map(|l| { let l = l.trim(); let (k, v) = l.split_once(':')?; if k.contains(' ') { return None } v.split_whitespace().next()?.parse().ok() }).collect();
                    let exp = vec![a.fresh.0, a.same.0, a.diff.0, a.ndirty.0, a.fresh.1, a.same.1, a.diff.1, a.ndirty.1, a.rec, a.eval - a.changed, a.changed];
                    if got == want && rows != exp { errs.push(format!("the printed trace counts are {:?}, the trace contains {:?}", rows, exp)) }
                }
            }
            if got != want { errs.push(format!("trace_count (fresh, same, changed, dirty, clean_rec, reeval_change, reeval_nochange, total_archivist, total_updates) gives {:?}, the trace contains {:?}", got, want)) }
        }
    }
}
/// What happened during a recording, by location.
#[derive(Default)]
pub struct Seen { pub refget: HashMap<Loc, i64>, pub force: HashMap<Loc, i64>, pub run: HashMap<Loc, i64>, pub alloc: HashMap<Loc, i64> }
pub fn check_counts(trs: &Vec<Trace>, w: &Seen, refused: bool, panicked: bool) -> Vec<String> {
    let mut a = Acc::default();
    walk(trs, None, None, &mut HashSet::new(), false, panicked, &mut a);
    let mut errs = std::mem::take(&mut a.errs);
    if w.refget != a.refget { errs.push(format!("cell reads in the trace: {:?}; performed: {:?}", a.refget, w.refget)) }
    // the force that was refused (a running thunk, no cycle value) is not in the trace
    let same = if !refused { w.force == a.force } else { a.force.iter().all(|(k, n)| w.force.get(k).copied().unwrap_or(0) >= *n) && w.force.values().sum::<i64>() == a.force.values().sum::<i64>() + 1 };
    if !same { errs.push(format!("forces of thunks in the trace: {:?}; performed: {:?}", a.force, w.force)) }
    if w.run != a.run { errs.push(format!("evaluations in the trace: {:?}; bodies run: {:?}", a.run, w.run)) }
    let mut al: HashMap<Loc, i64> = HashMap::new();
    for ((l, _, _), n) in &a.alloc { *al.entry(l.clone()).or_default() += n }
    if w.alloc != al { errs.push(format!("nominal allocations in the trace: {:?}; performed: {:?}", al, w.alloc)) }
    counts(trs, &a, &mut errs);
    errs
}
pub fn check(trs: &Vec<Trace>, evs: &[(Option<Rc<Key>>, Ev)], panicked: bool, before: &DCG, after: &DCG) {
    let mut a = Acc::default();
    walk(trs, None, None, &mut HashSet::new(), false, panicked, &mut a);
    let mut errs = std::mem::take(&mut a.errs);
    let mut locs: HashMap<Rc<Key>, Option<Loc>> = HashMap::new();
    let mut loc = |k: &Rc<Key>| -> Option<Loc> { locs.entry(k.clone()).or_insert_with(|| ctx(|c| c.e().reg.get(k).cloned()).and_then(|x| loc_of(&x))).clone() };
    let (mut refget, mut force, mut run, mut alloc): (HashMap<Loc, i64>, HashMap<Loc, i64>, HashMap<Loc, i64>, HashMap<(Loc, bool, ACase), i64>) = Default::default();
    let mut sets = 0; let mut work = false;
    let mut seq: Vec<(Option<Loc>, It)> = vec![];
    for (by, e) in evs {
        let it = match e {
            Ev::ForceCell(k) => loc(k).map(It::Get), Ev::ForceComp(k) => loc(k).map(It::Force), Ev::Run(k) => loc(k).map(It::Run), Ev::Alloc(k, cell, case) => loc(k).map(|l| It::Alloc(l, *cell, *case)),
            Ev::Dbg(n, m) => Some(It::Dbg(n.clone(), Some(format!("e{}", m)))), Ev::DbgEnd => Some(It::End), Ev::SetDiff => None,
        };
        if let Some(it) = it { let by = if it == It::End { &None } else { by }; seq.push((by.as_ref().and_then(|k| loc(k)), it)) }
        match e {
            Ev::Dbg(..) | Ev::DbgEnd => {}
            Ev::ForceCell(k) => { work = true; if let Some(l) = loc(k) { *refget.entry(l).or_default() += 1 } }
            Ev::ForceComp(k) => { work = true; if let Some(l) = loc(k) { *force.entry(l).or_default() += 1 } }
            Ev::Run(k) => { work = true; if let Some(l) = loc(k) { *run.entry(l).or_default() += 1 } }
            Ev::Alloc(k, cell, case) => if let Some(l) = loc(k) { *alloc.entry((l, *cell, *case)).or_default() += 1 },
            Ev::SetDiff => sets += 1,
        }
    }
    if refget != a.refget { errs.push(format!("cell reads in the trace: {:?}; performed: {:?}", a.refget, refget)) }
    if force != a.force { errs.push(format!("forces of thunks in the trace: {:?}; performed: {:?}", a.force, force)) }
    if run != a.run { errs.push(format!("evaluations in the trace: {:?}; bodies run: {:?}", a.run, run)) }
    if alloc != a.alloc { errs.push(format!("nominal allocations in the trace: {:?}; performed: {:?}", a.alloc, alloc)) }
    if errs.is_empty() && seq != a.seq {
        let i = seq.iter().zip(&a.seq).take_while(|(x, y)| x == y).count();
        errs.push(format!("effect {} in the trace is (by, effect) {:?}; performed: {:?}", i, a.seq.get(i), seq.get(i)))
    }
    if sets == 0 && trs.iter().any(|t| matches!(t.effect, trace::Effect::Dirty)) { errs.push("dirtying although no content changed".into()) }
    if !panicked {
        let count = |d: &DCG| { let mut m: HashMap<Edge, i64> = HashMap::new(); for (l, n) in &d.table { if let Node::Comp(n) = n { for e in &n.succs { *m.entry((l.clone(), e.loc.clone(), e.effect.clone())).or_default() += 1 } } } m };
        let (b, af) = (count(before), count(after));
        let mut all: HashSet<&Edge> = b.keys().collect(); all.extend(af.keys()); all.extend(a.delta.keys());
        for e in all {
            // (a structural allocation is an edge but not a traced effect; a force of a structural thunk without edges is traced but not an edge)
            if e.0 == e.1 || (format!("{:?}", e.1.name) == "Hash64") || matches!(after.table.get(&e.1), Some(Node::Pure(_))) { continue }
            let (x, y, d) = (b.get(e).copied().unwrap_or(0), af.get(e).copied().unwrap_or(0), a.delta.get(e).copied().unwrap_or(0));
            if x + d != y { errs.push(format!("edge {:?}: {} before the recording, {} after it, but the trace reports a change by {}", e, x, y, d)) }
        }
    }
    if !work {
        let b = crate::graph::dirty_edges(before); let af = crate::graph::dirty_edges(after);
        // Two observations of one cell by one thunk are two edges between the same nodes; only one of them may be dirty.
        let clean = crate::graph::clean_edges(before);
        for e in af.difference(&b) { if !a.dirty.contains(e) { errs.push(format!("edge {:?} became dirty without a trace event", e)) } }
        for e in &a.dirty { if b.contains(e) { if !clean.contains(e) { errs.push(format!("edge {:?} was dirty already", e)) } } else if !af.contains(e) && !a.removed.contains(e) { if let Some(Node::Comp(_)) = after.table.get(&e.0) { errs.push(format!("edge {:?} reported dirty but is not", e)) } } }
    }
    counts(trs, &a, &mut errs);
    ctx(|c| for e in errs.into_iter().take(4) { c.viol(Class::Trace, e) });
}
