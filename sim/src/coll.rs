//! Collections (C13, C14): pipelines of library list and tree operations over
//! named lists under edit histories, compared with the same operations on
//! plain vectors.
use crate::graph::{reflect_now, well_formed};
use crate::prog::Prog;
use crate::real::{classify, install, Class, Ctx, Fail, InjectedPanic, Mode, Viol};
use crate::rng::Rng;
use crate::run::Outcome;
use crate::sx;
use crate::sx::{PResult, Sx};
use adapton::catalog::collections::*;
use adapton::engine::{self, manage, name_fork3, name_of_string, name_of_usize, name_pair, ns, Art, Engine, Name, NameChoice};
use adapton::macros::ProgPt;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::rc::Rc;

// ---- elements and user functions; every call is a simulation step ----
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct El(pub i64);
impl Ord for El { fn cmp(&self, o: &El) -> Ordering { tick(); self.0.cmp(&o.0) } }
impl PartialOrd for El { fn partial_cmp(&self, o: &El) -> Option<Ordering> { Some(self.cmp(o)) } }
#[derive(Default)]
struct S { steps: u32, fault: Option<u32>, fired: u64, total: u64 }
thread_local!(static ST: RefCell<S> = RefCell::new(S::default()));
fn tick() {
    crate::threads::point();
    let fire = ST.with(|s| { let s = &mut *s.borrow_mut(); s.steps += 1; s.total += 1; if s.fault == Some(s.steps) { s.fault = None; s.fired += 1; true } else { false } });
    if fire { panic_any(InjectedPanic) }
}
fn mapf(k: u8, x: i64) -> i64 { match k % 4 { 0 => x + 100, 1 => x / 2, 2 => 9 - x, _ => x % 3 } }
fn pred(k: u8, x: i64) -> bool { match k % 6 { 0 => x % 2 == 0, 1 => x > 4, 2 => x % 3 != 0, 3 => false, 4 => true, _ => x < 3 } }
fn mono(k: u8) -> (i64, fn(i64, i64) -> i64) {
    fn sum(a: i64, b: i64) -> i64 { a + b } fn max(a: i64, b: i64) -> i64 { a.max(b) } fn first(a: i64, b: i64) -> i64 { if a == -77 { b } else { a } } fn last(a: i64, b: i64) -> i64 { if b == -77 { a } else { b } }
    match k % 4 { 0 => (0, sum), 1 => (-1000, max), 2 => (-77, first), _ => (-77, last) }
}
fn foldf(x: i64, r: i64) -> i64 { (r * 31 + x + 7).rem_euclid(1_000_003) }

// ---- scenario ----
#[derive(Clone, PartialEq, Debug)]
pub enum Stage {
    Gen(u8, u8), Wrap(u8), MapE(u8), MapE2(u8), MapL(u8), FilE(u8), FilL(u8), Rev, App, Merge(u8),
    ToT(bool), FilT(u8), Prune, EagerT, OfT(bool), FilLT(u8), Sort(u8, bool),
    // final stages
    Fold, Empty, IsName, Pop, Push(i64), Assoc(u8), Sets(u8, u8), Inside, Mono(u8), FoldSeq(bool), FoldNm(bool), TEmpty, FoldUp,
    // the second input; trees put together by hand; copies by tree_fold_up
    App2(bool), Merge2(u8), WrapT(u8), CopyT,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Ed { Ins(u8, i64), Name(u8, u8), Del(u8), Rep(u8, i64), Swap(u8, u8), Trunc(u8), Clear, Grow(i64) }
#[derive(Clone, PartialEq, Debug)]
pub enum LOp { Edit(Ed, u8, u8), Demand(u8, Option<u8>, Option<u32>), Look(u8, Option<u8>) }
#[derive(Clone, PartialEq, Debug)]
pub enum Ent { N(u8), E(i64) }
#[derive(Clone, PartialEq, Debug)]
pub struct Pipe { pub stages: Vec<Stage>, pub top: bool }
#[derive(Clone, PartialEq, Debug)]
pub struct Coll { pub cfg: u8, pub layout: u8, pub init: Vec<Ent>, pub second: Vec<Ent>, pub pipes: Vec<Pipe>, pub ops: Vec<LOp> }

fn sx_stage(s: &Stage) -> Sx {
    use Stage::*;
    match s {
        Gen(n, k) => sx!("list_gen", *n, *k), Wrap(k) => sx!("wrap", *k), MapE(k) => sx!("map_eager", *k), MapE2(k) => sx!("map_eager2", *k), MapL(k) => sx!("map_lazy", *k), FilE(k) => sx!("filter_eager", *k), FilL(k) => sx!("filter_lazy", *k), Rev => sx!("reverse"), App => sx!("append"), Merge(k) => sx!("merge", *k),
        ToT(l) => sx!("tree_of_list", *l as u8), FilT(k) => sx!("filter_tree", *k), Prune => sx!("prune_tree"), EagerT => sx!("eager_tree"), OfT(l) => sx!("list_of_tree", *l as u8), FilLT(k) => sx!("filter_list_of_tree", *k), Sort(k, n) => sx!("mergesort", *k, *n as u8),
        Fold => sx!("fold"), Empty => sx!("is_empty"), IsName => sx!("is_name"), Pop => sx!("pop"), Push(x) => sx!("push", *x), Assoc(k) => sx!("assoc", *k), Sets(a, b) => sx!("sets", *a, *b), Inside => sx!("to_vec"), Mono(k) => sx!("monoid", *k), FoldSeq(l) => sx!("fold_seq", *l as u8), FoldNm(b) => sx!("fold_up_nm_dn", *b as u8), TEmpty => sx!("tree_is_empty"), FoldUp => sx!("fold_up"), App2(f) => sx!("append_second", *f as u8), Merge2(k) => sx!("merge_second", *k), WrapT(k) => sx!("wrap_tree", *k), CopyT => sx!("copy_tree"),
    }
}
fn p_stage(s: &Sx) -> PResult<Stage> {
    use Stage::*;
    let k = |i: usize| -> PResult<u8> { s.at(i)?.num() }; let b = |i: usize| -> PResult<bool> { Ok(k(i)? == 1) };
    Ok(match s.head()? {
        "list_gen" => Gen(k(1)?, k(2)?), "wrap" => Wrap(k(1)?), "map_eager" => MapE(k(1)?), "map_eager2" => MapE2(k(1)?), "map_lazy" => MapL(k(1)?), "filter_eager" => FilE(k(1)?), "filter_lazy" => FilL(k(1)?), "reverse" => Rev, "append" => App, "merge" => Merge(k(1)?),
        "tree_of_list" => ToT(b(1)?), "filter_tree" => FilT(k(1)?), "prune_tree" => Prune, "eager_tree" => EagerT, "list_of_tree" => OfT(b(1)?), "filter_list_of_tree" => FilLT(k(1)?), "mergesort" => Sort(k(1)?, b(2)?),
        "fold" => Fold, "is_empty" => Empty, "is_name" => IsName, "pop" => Pop, "push" => Push(s.at(1)?.num()?), "assoc" => Assoc(k(1)?), "sets" => Sets(k(1)?, k(2)?), "to_vec" => Inside, "monoid" => Mono(k(1)?), "fold_seq" => FoldSeq(b(1)?), "fold_up_nm_dn" => FoldNm(b(1)?), "tree_is_empty" => TEmpty, "fold_up" => FoldUp, "append_second" => App2(b(1)?), "merge_second" => Merge2(k(1)?), "wrap_tree" => WrapT(k(1)?), "copy_tree" => CopyT,
        x => return Err(format!("stage {}", x)),
    })
}
fn sx_ent(e: &Ent) -> Sx { match e { Ent::N(n) => Sx::A(format!("n{}", n)), Ent::E(x) => (*x).into() } }
fn p_ent(s: &Sx) -> PResult<Ent> { let a = s.atom()?; Ok(if let Some(n) = a.strip_prefix('n') { Ent::N(n.parse().map_err(|_| "name".to_string())?) } else { Ent::E(s.num()?) }) }
fn optn<T: Copy>(o: &Option<T>) -> Sx where Sx: From<T> { match o { Some(x) => Sx::L(vec![Sx::from(*x)]), None => Sx::L(vec![]) } }
fn p_optn<T: std::str::FromStr>(s: &Sx) -> PResult<Option<T>> { match s.list()? { [] => Ok(None), [x] => Ok(Some(x.num()?)), _ => Err("opt".into()) } }
impl Coll {
    pub fn to_sx(&self) -> Sx {
        sx!("coll", sx!("cfg", self.cfg, self.layout), Sx::L(self.init.iter().map(sx_ent).collect()), Sx::L(self.second.iter().map(sx_ent).collect()),
            Sx::L(self.pipes.iter().map(|p| sx!(if p.top { "editor" } else { "thunk" }, Sx::L(p.stages.iter().map(sx_stage).collect()))).collect()),
            Sx::L(std::iter::once("ops".into()).chain(self.ops.iter().map(|o| match o {
                LOp::Edit(e, how, which) => sx!("edit", *how, *which, match e { Ed::Ins(p, x) => sx!("insert", *p, *x), Ed::Name(p, n) => sx!("name", *p, *n), Ed::Del(p) => sx!("delete", *p), Ed::Rep(p, x) => sx!("replace", *p, *x), Ed::Swap(a, b) => sx!("swap", *a, *b), Ed::Trunc(p) => sx!("truncate", *p), Ed::Clear => sx!("clear"), Ed::Grow(x) => sx!("grow", *x) }),
                LOp::Demand(p, l, f) => sx!("demand", *p, optn(l), optn(f)), LOp::Look(p, l) => sx!("look", *p, optn(l)),
            })).collect()))
    }
    pub fn from_sx(s: &Sx) -> PResult<Coll> {
        if s.head()? != "coll" { return Err("coll".into()) }
        let pipes = s.at(4)?.list()?.iter().map(|p| Ok(Pipe { top: match p.head()? { "editor" => true, "thunk" => false, x => return Err(x.into()) }, stages: p.at(1)?.list()?.iter().map(p_stage).collect::<PResult<_>>()? })).collect::<PResult<Vec<_>>>()?;
        let ops = s.at(5)?.list()?.iter().skip(1).map(|o| Ok(match o.head()? {
            "edit" => { let e = o.at(3)?; let k = |i: usize| -> PResult<u8> { e.at(i)?.num() }; let z = |i: usize| -> PResult<i64> { e.at(i)?.num() };
                LOp::Edit(match e.head()? { "insert" => Ed::Ins(k(1)?, z(2)?), "name" => Ed::Name(k(1)?, k(2)?), "delete" => Ed::Del(k(1)?), "replace" => Ed::Rep(k(1)?, z(2)?), "swap" => Ed::Swap(k(1)?, k(2)?), "truncate" => Ed::Trunc(k(1)?), "clear" => Ed::Clear, "grow" => Ed::Grow(z(1)?), x => return Err(x.into()) }, o.at(1)?.num()?, o.at(2)?.num()?) }
            "demand" => LOp::Demand(o.at(1)?.num()?, p_optn(o.at(2)?)?, p_optn(o.at(3)?)?), "look" => LOp::Look(o.at(1)?.num()?, p_optn(o.at(2)?)?), x => return Err(x.into()),
        })).collect::<PResult<Vec<_>>>()?;
        let ents = |k: usize| -> PResult<Vec<Ent>> { s.at(k)?.list()?.iter().map(p_ent).collect() }; let (init, second) = (ents(2)?, ents(3)?);
        let c = Coll { cfg: s.at(1)?.at(1)?.num()?, layout: s.at(1)?.at(2)?.num()?, init, second, pipes, ops };
        let names: Vec<u8> = c.init.iter().chain(&c.second).filter_map(|e| if let Ent::N(n) = e { Some(*n) } else { None }).collect();
        if c.init.iter().any(|e| matches!(e, Ent::N(n) if *n >= SECOND)) || c.second.iter().any(|e| matches!(e, Ent::N(n) if *n < SECOND)) || names.iter().collect::<HashSet<_>>().len() != names.len() { return Err("duplicate names".into()) }
        for p in &c.pipes { typed(&p.stages)?; }
        Ok(c)
    }
}
/// Names of the second list are numbered from here.
const SECOND: u8 = 100;
/// Is the pipeline well-typed? Returns whether it ends in a list, tree or other value.
fn typed(st: &[Stage]) -> PResult<char> {
    use Stage::*;
    let mut t = 'L'; let mut forked = false; let mut twice = false;
    for s in st {
        // Merging names its output by forks of the input's names, at depths that depend on the data;
        // tree_of_list allocates at a name and at its forks, so such names are ambiguous to it.
        if let App2(_) | Merge2(_) = s { if twice { return Err("the second list occurs twice".into()) } twice = true }
        match s { Sort(..) | Merge(_) | Merge2(_) => forked = true, ToT(_) if forked => return Err("tree_of_list over merged names".into()), _ => {} }
        t = match (t, s) {
            ('L', Gen(..) | Wrap(_) | MapE(_) | MapE2(_) | MapL(_) | FilE(_) | FilL(_) | Rev | App | App2(_) | Merge2(_) | Merge(_) | Push(_)) => 'L', ('L', ToT(_)) => 'T', ('T', FilT(_) | Prune | EagerT | WrapT(_) | CopyT) => 'T', ('T', OfT(_) | FilLT(_) | Sort(..)) => 'L',
            ('L', Fold | Empty | IsName | Pop | Assoc(_) | Sets(..) | Inside) => 'X', ('T', Mono(_) | FoldSeq(_) | FoldNm(_) | TEmpty | FoldUp) => 'X', _ => return Err(format!("stage {:?} after {}", s, t)),
        }
    }
    Ok(t)
}

// ---- names ----
fn nm(id: u8) -> Name { match id % 4 { 0 | 1 => name_of_usize(id as usize), 2 => name_of_string(format!("n{}", id)), _ => name_pair(name_of_usize(id as usize), name_of_string("x".into())) } }
fn appendix(i: usize) -> Vec<NameElse<El>> { vec![NameElse::Else(El(2)), NameElse::Name(name_of_string(format!("c{}a", i))), NameElse::Else(El(5)), NameElse::Else(El(6)), NameElse::Name(name_of_string(format!("c{}b", i))), NameElse::Else(El(11))] }
fn ne(e: &Ent) -> NameElse<El> { match e { Ent::N(n) => NameElse::Name(nm(*n)), Ent::E(x) => NameElse::Else(El(*x)) } }

fn wrapname(i: usize) -> Name { name_of_string(format!("w{}", i)) }
// ---- reference on vectors ----
#[derive(Clone, Copy, PartialEq, Debug)]
enum NR { Exact, Any }
type Seq = Vec<NameElse<El>>;
#[derive(Clone, Debug)]
struct Ref { seq: Seq, names: NR, between: bool, orig: Seq }
#[derive(Clone, Debug)]
enum Want { List(Ref), Tree(Ref), Ints(Vec<i64>), Panic }
fn els(s: &[NameElse<El>]) -> Vec<i64> { s.iter().filter_map(|e| if let NameElse::Else(x) = e { Some(x.0) } else { None }).collect() }
fn names(s: &[NameElse<El>]) -> Vec<Name> { s.iter().filter_map(|e| if let NameElse::Name(x) = e { Some(x.clone()) } else { None }).collect() }
fn only(s: &[i64]) -> Seq { s.iter().map(|x| NameElse::Else(El(*x))).collect() }
fn merge_ref(a: &[i64], b: &[i64]) -> Vec<i64> { let (mut i, mut j, mut o) = (0, 0, vec![]); while i < a.len() && j < b.len() { if a[i] <= b[j] { o.push(a[i]); i += 1 } else { o.push(b[j]); j += 1 } } o.extend_from_slice(&a[i..]); o.extend_from_slice(&b[j..]); o }
fn reference(st: &[Stage], input: &Seq, second: &Seq) -> Want {
    use Stage::*;
    let mut r = Ref { seq: input.clone(), names: NR::Exact, between: false, orig: vec![] };
    let mut tree = false;
    let mapn = |s: &Seq, f: &dyn Fn(i64) -> i64| -> Seq { s.iter().map(|e| match e { NameElse::Else(x) => NameElse::Else(El(f(x.0))), n => n.clone() }).collect() };
    for (i, s) in st.iter().enumerate() {
        r.between = false; let before = r.seq.clone();
        match s {
            Gen(n, k) => { r.seq = (0..*n as usize).flat_map(|i| vec![NameElse::Else(El(mapf(*k, i as i64))), NameElse::Name(name_of_usize(i))]).collect(); r.names = NR::Exact }
            Wrap(k) => { if k % 4 < 2 { r.seq.insert(0, NameElse::Name(wrapname(i))) } if *k > 3 { r.seq.insert(0, NameElse::Else(El(8))) } }
            MapE(k) => r.seq = mapn(&r.seq, &|x| mapf(*k, x)),
            MapE2(k) => r.seq = mapn(&r.seq, &|x| mapf(*k, x)).into_iter().map(|e| match e { NameElse::Name(n) => NameElse::Name(name_fork3(n).0), e => e }).collect(),
            MapL(k) => { let m = mapn(&r.seq, &|x| mapf(*k, x)); r.seq = only(&els(&m)); r.names = NR::Exact }
            FilE(k) => r.seq.retain(|e| match e { NameElse::Else(x) => pred(*k, x.0), _ => true }),
            FilL(k) => { let e: Vec<i64> = els(&r.seq).into_iter().filter(|x| pred(*k, *x)).collect(); r.seq = only(&e); r.names = NR::Exact }
            Rev => { let mut e = els(&r.seq); e.reverse(); r.seq = only(&e); r.names = NR::Any }
            App => { let mut e = only(&els(&r.seq)); e.extend(appendix(i)); r.seq = e; r.names = NR::Exact }
            Merge(_) => { r.seq = only(&merge_ref(&els(&r.seq), &els(&appendix(i)))); r.names = NR::Any }
            App2(front) => { let e = only(&els(&r.seq)); if *front { r.seq = only(&els(second)); r.seq.extend(e); if r.names == NR::Exact { r.seq.truncate(els(second).len()); r.seq.extend(before.clone()) } } else { r.seq = e; r.seq.extend(second.clone()); r.names = NR::Exact } }
            Merge2(k) => { let (a, b) = (els(&r.seq), els(second)); r.seq = only(&if k / 4 % 2 == 0 { merge_ref(&a, &b) } else { merge_ref(&b, &a) }); r.names = NR::Any }
            WrapT(k) => match k % 5 { 3 => r.seq.push(NameElse::Name(wrapname(i))), 4 => r.seq.insert(0, NameElse::Name(wrapname(i))), _ => {} },
            CopyT => {}
            FoldUp => return Want::List(r),
            Push(x) => r.seq.insert(0, NameElse::Else(El(*x))),
            ToT(left) => { tree = true; if !*left { r.seq.reverse() } }
            FilT(k) => { r.seq.retain(|e| match e { NameElse::Else(x) => pred(*k, x.0), _ => true }); r.names = NR::Any }
            Prune => r.names = NR::Any,
            EagerT => {}
            OfT(left) => { tree = false; if !*left { r.seq.reverse() } }
            FilLT(k) => { tree = false; if r.names == NR::Exact { r.between = true; r.orig = r.seq.clone() } r.seq.retain(|e| match e { NameElse::Else(x) => pred(*k, x.0), _ => true }); r.names = NR::Any }
            Sort(..) => { tree = false; let mut e = els(&r.seq); e.sort(); r.seq = only(&e); r.names = NR::Any }
            Fold => return Want::Ints(vec![els(&r.seq).iter().rev().fold(1, |a, x| foldf(*x, a))]),
            Empty | TEmpty => return Want::Ints(vec![els(&r.seq).is_empty() as i64]),
            IsName => return if r.names == NR::Exact { Want::Ints(vec![matches!(r.seq.first(), Some(NameElse::Name(_))) as i64]) } else { Want::Ints(vec![-1]) },
            Pop => { let e = els(&r.seq); return if e.is_empty() { Want::Panic } else { Want::Ints(e) } }
            Assoc(k) => { let e = els(&r.seq); let mut o = vec![]; for d in 0..4 { o.push(e.iter().find(|x| x.rem_euclid(4) == d).map(|x| mapf(*k, *x)).unwrap_or(-5)) } o.push(e.iter().rev().fold(1, |a, x| foldf(x.rem_euclid(4) * 50 + mapf(*k, *x), a))); return Want::Ints(o) }
            Sets(a, b) => { let e = els(&r.seq); let (x, y): (HashSet<i64>, HashSet<i64>) = (e.iter().filter(|x| pred(*a, **x)).cloned().collect(), e.iter().filter(|x| pred(*b, **x)).cloned().collect());
                let mut o = vec![]; for d in -3..14 { o.push(x.contains(&d) as i64 + 2 * y.contains(&d) as i64 + 4 * (x.contains(&d) && y.contains(&d)) as i64) }
                o.push(e.iter().filter(|d| pred(*a, **d) && y.contains(d)).sum()); o.push(1); return Want::Ints(o) }
            Inside => { return Want::List(r) }
            Mono(k) => { let (id, f) = mono(*k); return Want::Ints(vec![els(&r.seq).into_iter().fold(id, f)]) }
            FoldSeq(left) => { if !*left { r.seq.reverse() } return Want::List(r) }
            FoldNm(some) => {
                let mut o = if *some { vec![nid(&name_of_usize(777))] } else { vec![] };
                for e in &r.seq { match e { NameElse::Name(n) => if r.names == NR::Exact { o.push(nid(n)) }, NameElse::Else(x) => o.push(x.0) } }
                return Want::Ints(o)
            }
        }
    }
    if tree { Want::Tree(r) } else { Want::List(r) }
}
fn nid(n: &Name) -> i64 { let mut h = DefaultHasher::new(); format!("{:?}", n).hash(&mut h); (h.finish() % 1_000_000) as i64 + 1_000_000 }

// ---- cost: which element steps a demand may take ----
/// A list's segments: the name before, the elements, the name after.
type Seg = (Option<Name>, Vec<i64>, Option<Name>);
fn segs(s: &Seq) -> Vec<Seg> {
    let mut o: Vec<Seg> = vec![(None, vec![], None)];
    for e in s { match e { NameElse::Else(x) => o.last_mut().unwrap().1.push(x.0), NameElse::Name(n) => { o.last_mut().unwrap().2 = Some(n.clone()); o.push((Some(n.clone()), vec![], None)) } } }
    o
}
/// Segments of the input of each stage, for pipelines of eager list stages only.
fn stage_segs(st: &[Stage], input: &Seq) -> Option<Vec<Vec<Seg>>> {
    if !st.iter().all(|s| matches!(s, Stage::MapE(_) | Stage::MapE2(_) | Stage::FilE(_))) { return None }
    Some((0..st.len()).map(|j| match reference(&st[..j], input, &vec![]) { Want::List(r) => segs(&r.seq), _ => vec![] }).collect())
}
/// Upper bound of element steps when the segments were `old` at the last completed demand:
/// the first segment, every changed one, and the one before a changed one (it observes its successor's result).
fn allowed(old: &[Vec<Seg>], new: &[Vec<Seg>]) -> u32 {
    old.iter().zip(new).map(|(o, n)| { let ch = |i: usize| i < n.len() && !o.contains(&n[i]); (0..n.len()).filter(|i| *i == 0 || ch(*i) || ch(*i + 1)).map(|i| n[i].1.len() as u32).sum::<u32>() }).sum()
}
/// Element steps a first demand of `k` entries of a lazy map or filter may take: up to the next name.
fn lazy_allowed(st: &[Stage], input: &Seq, k: usize) -> Option<u32> {
    let keep: Box<dyn Fn(i64) -> bool> = match st { [Stage::MapL(_)] => Box::new(|_| true), [Stage::FilL(p)] => { let p = *p; Box::new(move |x| pred(p, x)) } _ => return None };
    let (mut out, mut steps) = (0, 0);
    for e in input { match e { NameElse::Else(x) => { steps += 1; if keep(x.0) { out += 1 } } NameElse::Name(_) => if out >= k { break } } }
    Some(steps)
}

// ---- the same on the library ----
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Out { L(List<El>), T(Tree<El>), I(Vec<i64>), V(Vec<NameElse<El>>) }
type L = List<El>;
type T = Tree<El>;
fn dir(l: bool) -> Dir2 { if l { Dir2::Left } else { Dir2::Right } }
fn eval(st: &[Stage], input: L, second: L) -> Out {
    use Stage::*;
    let mut cur = Out::L(input);
    for (i, s) in st.iter().enumerate() {
        let s = s.clone(); let second = second.clone();
        cur = ns(name_pair(name_of_string("stage".into()), name_of_usize(i)), move || stage(i, &s, cur, second));
    }
    let _ = Inside;
    cur
}
fn stage(i: usize, s: &Stage, cur: Out, second: L) -> Out {
    use Stage::*;
    match (s.clone(), cur) {
        (Gen(n, k), Out::L(_)) => Out::L(list_gen::<El, _, L>(n as usize, |i| El(mapf(k, i as i64)))),
        (Wrap(k), Out::L(l)) => {
            let l = match k % 4 { 0 => list_name_art_op(Some(wrapname(i)), l), 1 => list_name_op(Some(wrapname(i)), l), 2 => list_name_art_op(None, l), _ => list_name_op(None, l) };
            Out::L(if k > 3 { list_append(<L as ListIntro<El>>::singleton(El(8)), l) } else { l })
        }
        (MapE(k), Out::L(l)) => Out::L(list_map_eager::<El, L, El, L, _>(l, Rc::new(move |x: El| { tick(); El(mapf(k, x.0)) }))),
        (MapE2(k), Out::L(l)) => Out::L(list_map_eager2::<El, L, El, L, _>(l, Rc::new(move |x: El| { tick(); El(mapf(k, x.0)) }))),
        (MapL(k), Out::L(l)) => Out::L(list_map_lazy::<El, L, El, L, _>(l, Rc::new(move |x: El| { tick(); El(mapf(k, x.0)) }))),
        (FilE(k), Out::L(l)) => Out::L(list_filter_eager::<El, L, L, _>(l, Rc::new(move |x: &El| { tick(); pred(k, x.0) }))),
        (FilL(k), Out::L(l)) => Out::L(list_filter_lazy::<El, L, L, _>(l, Rc::new(move |x: &El| { tick(); pred(k, x.0) }))),
        (Rev, Out::L(l)) => Out::L(list_reverse::<El, L, L>(l, list_nil())),
        (App, Out::L(l)) => Out::L(list_append(l, list_of_vec(&appendix(i)))),
        (Merge(k), Out::L(l)) => { let (a, b) = match k % 4 { 0 => (None, None), 1 => (Some("ma"), Some("mb")), 2 => (Some("ma"), None), _ => (None, Some("mb")) }; let o = |x: Option<&str>| x.map(|x| name_of_string(format!("{}{}", x, i))); Out::L(if k / 4 % 2 == 0 { list_merge::<El, L>(o(a), l, o(b), list_of_vec(&appendix(i))) } else { list_merge_wrapper::<El, L>(o(a), l, o(b), list_of_vec(&appendix(i))) }) }
        (App2(front), Out::L(l)) => Out::L(if front { list_append(second, l) } else { list_append(l, second) }),
        (Merge2(k), Out::L(l)) => { let (a, b) = match k % 4 { 0 => (None, None), 1 => (Some("na"), Some("nb")), 2 => (Some("na"), None), _ => (None, Some("nb")) }; let o = |x: Option<&str>| x.map(|x| name_of_string(format!("{}{}", x, i))); Out::L(if k / 4 % 2 == 0 { list_merge::<El, L>(o(a), l, o(b), second) } else { list_merge_wrapper::<El, L>(o(a), second, o(b), l) }) }
        (WrapT(k), Out::T(t)) => {
            let (top, w) = (<usize as Level>::max_val(), wrapname(i)); let art = |n: &Name, k: &str, t: T| -> T { TreeIntro::<usize, El>::art(engine::cell(name_pair(n.clone(), name_of_string(k.into())), t)) }; let nil = || -> T { TreeIntro::<usize, El>::nil() };
            Out::T(match k % 5 { 0 => art(&w, "a", t), 1 => TreeIntro::<usize, El>::bin(top, nil(), t), 2 => TreeIntro::<usize, El>::bin(top, art(&w, "a", t), nil()), 3 => TreeIntro::<usize, El>::name(w.clone(), top, art(&w, "l", t), art(&w, "r", nil())), _ => TreeIntro::<usize, El>::name(w, top, nil(), t) })
        }
        (CopyT, Out::T(t)) => Out::T(tree_fold_up::<usize, El, T, T, _, _, _, _>(t, Rc::new(|| TreeIntro::<usize, El>::nil()), Rc::new(|x: El| { tick(); TreeIntro::<usize, El>::leaf(x) }), Rc::new(|l: usize, a: T, b: T| TreeIntro::<usize, El>::bin(l, a, b)), Rc::new(|n: Name, l: usize, a: T, b: T| TreeIntro::<usize, El>::name(n, l, a, b)))),
        (FoldUp, Out::T(t)) => { type V = Vec<NameElse<El>>; Out::V(tree_fold_up::<usize, El, T, V, _, _, _, _>(t, Rc::new(|| vec![]), Rc::new(|x: El| { tick(); vec![NameElse::Else(x)] }), Rc::new(|_: usize, mut a: V, b: V| { a.extend(b); a }), Rc::new(|n: Name, _: usize, mut a: V, b: V| { a.push(NameElse::Name(n)); a.extend(b); a }))) }
        (Push(x), Out::L(l)) => Out::L(list_push(l, El(x))),
        (ToT(d), Out::L(l)) => Out::T(tree_of_list::<usize, El, T, L>(dir(d), l)),
        (FilT(k), Out::T(t)) => Out::T(filter_tree_of_tree::<usize, El, T, T>(t, Box::new(move |x: &El| { tick(); pred(k, x.0) }))),
        (Prune, Out::T(t)) => Out::T(prune_tree_of_tree::<usize, El, T, T>(t)),
        (EagerT, Out::T(t)) => Out::T(eager_tree_of_tree::<usize, El, T, T>(t)),
        (OfT(d), Out::T(t)) => Out::L(list_of_tree::<usize, El, L, T>(t, dir(d))),
        (FilLT(k), Out::T(t)) => Out::L(filter_list_of_tree::<usize, El, L, T>(t, Box::new(move |x: &El| { tick(); pred(k, x.0) }))),
        (Sort(k, n), Out::T(t)) => Out::L(match k % 3 { 0 => mergesort_list_of_tree::<El, usize, T, L>(t), 1 => mergesort_list_of_tree2::<El, usize, T, L>(t, if n { Some(name_of_usize(666)) } else { None }), _ => mergesort_list_of_tree3::<El, usize, T, L>(t, if n { Some(name_of_usize(666)) } else { None }) }),
        (Fold, Out::L(l)) => Out::I(vec![list_fold(l, 1i64, Rc::new(|x: El, r: i64| { tick(); foldf(x.0, r) }))]),
        (Empty, Out::L(l)) => Out::I(vec![list_is_empty::<El, L>(&l) as i64]),
        (IsName, Out::L(l)) => Out::I(vec![<L as ListElim<El>>::is_name(&l) as i64]),
        (Pop, Out::L(l)) => {
            let (h, mut t) = list_pop::<El, L>(l);
            let mut o = vec![h.0];
            while !list_is_empty::<El, L>(&t) { let (h, t2) = list_pop::<El, L>(t); o.push(h.0); t = t2 }
            Out::I(o)
        }
        (Assoc(k), Out::L(l)) => {
            type M = List<(El, El)>;
            let m: M = list_map_eager::<El, L, (El, El), M, _>(l, Rc::new(move |x: El| { tick(); (El(x.0.rem_euclid(4)), El(mapf(k, x.0))) }));
            let mut o = vec![];
            for d in 0..4 { o.push(map_find::<El, El, M>(&m, &El(d)).map(|x| x.0).unwrap_or(-5)) }
            o.push(map_fold::<El, El, M, _, i64>(m.clone(), 1, Rc::new(|d: El, c: El, r: i64| { tick(); foldf(d.0 * 50 + c.0, r) })));
            // a binding added in front hides the others and no other key's
            let m2: M = map_update(m.clone(), El(1), El(4242));
            for d in 0..4 { let x = map_find::<El, El, M>(&m2, &El(d)); let y = if d == 1 { Some(El(4242)) } else { map_find::<El, El, M>(&m, &El(d)) }; if x != y { o.push(-9999) } }
            if map_find::<El, El, M>(&map_empty::<El, El, M>(), &El(1)).is_some() { o.push(-9998) }
            Out::I(o)
        }
        (Sets(a, b), Out::L(l)) => {
            type Z = List<(El, ())>;
            let mk = |k: u8, tag: &str, l: L| -> Z { ns(name_of_string(tag.to_string()), || { let f: L = list_filter_eager::<El, L, L, _>(l, Rc::new(move |x: &El| { tick(); pred(k, x.0) })); ns(name_of_string("pairs".into()), || list_map_eager::<El, L, (El, ()), Z, _>(f, Rc::new(|x: El| (x, ())))) }) };
            let (x, y) = (mk(a, "sa", l.clone()), mk(b, "sb", l));
            let both: Z = SetIntro::inter(x.clone(), y.clone());
            let mut o = vec![];
            for d in -3..14 { let e = El(d); o.push(SetElim::is_mem(&x, &e) as i64 + 2 * SetElim::is_mem(&y, &e) as i64 + 4 * SetElim::is_mem(&both, &e) as i64) }
            o.push(SetElim::fold(both.clone(), 0i64, |e: El, a: i64| { tick(); a + e.0 }));
            // an added member is there, and no other comes or goes
            let more: Z = SetIntro::add(y.clone(), El(50));
            o.push((SetElim::is_mem(&more, &El(50)) && (-3..14).all(|d| SetElim::is_mem(&more, &El(d)) == SetElim::is_mem(&y, &El(d))) && !SetElim::is_mem(&<Z as SetIntro<El>>::empty(), &El(50))) as i64);
            Out::I(o)
        }
        (Inside, Out::L(l)) => Out::V(vec_of_list(l, None)),
        (Mono(k), Out::T(t)) => { let (id, f) = mono(k); Out::I(vec![monoid_of_tree::<usize, El, T>(t, El(id), Rc::new(move |a: El, b: El| { tick(); El(f(a.0, b.0)) })).0]) }
        (FoldSeq(d), Out::T(t)) => Out::V(tree_fold_seq::<usize, El, T, Vec<NameElse<El>>, _, _, _>(t, dir(d), vec![], Rc::new(|x: El, mut r: Vec<NameElse<El>>| { tick(); r.push(NameElse::Else(x)); r }), Rc::new(|_: usize, r: Vec<NameElse<El>>| r), Rc::new(|n: Name, _: usize, mut r: Vec<NameElse<El>>| { r.push(NameElse::Name(n)); r }))),
        (FoldNm(some), Out::T(t)) => Out::I(tree_fold_up_nm_dn::<usize, El, T, Vec<i64>, _, _, _, _>(t, if some { Some(name_of_usize(777)) } else { None }, Rc::new(|n: Option<Name>| n.iter().map(nid).collect()), Rc::new(|n: Option<Name>, x: El| { tick(); n.iter().map(nid).chain(Some(x.0)).collect() }),
            Rc::new(|_: Option<Name>, _: usize, mut a: Vec<i64>, b: Vec<i64>| { a.extend(b); a }), Rc::new(|_: Option<Name>, _: Name, _: usize, mut a: Vec<i64>, b: Vec<i64>| { a.extend(b); a }))),
        (TEmpty, Out::T(t)) => Out::I(vec![<T as TreeElim<usize, El>>::is_empty(&t) as i64]),
        (s, _) => panic!("harness: stage {:?}", s),
    }
}
/// In-order leaves and names, shape without articulations, and whether the raw
/// structure has an articulation, an empty subtree, or a bare child of a name.
struct Walk { seq: Seq, shape: String, arts: usize, nils: usize, bare: usize, heap: bool, elim: Option<String> }
fn walk(t: &T, max: usize, w: &mut Walk) {
    // the library's eliminators must see the constructor that is there, through articulations
    type H = (u8, usize, Option<El>, Option<Name>, Option<(T, T)>);
    let put = |l: &T, r: &T| Some((l.clone(), r.clone()));
    let raw = |t: &T| -> H { match t { Tree::Nil => (0, 0, None, None, None), Tree::Leaf(x) => (1, 0, Some(x.clone()), None, None), Tree::Bin(lv, l, r) => (2, *lv, None, None, put(l, r)), Tree::Name(n, lv, l, r) => (3, *lv, None, Some(n.clone()), put(l, r)), Tree::Art(_) => (4, 0, None, None, None) } };
    let moved = <T as TreeElim<usize, El>>::full_move(t.clone(), 7u8, |k| (k - 7, 0, None, None, None), |x, k| (k - 6, 0, Some(x), None, None), |lv, l, r, k| (k - 5, lv, None, None, put(&l, &r)), |n, lv, l, r, k| (k - 4, lv, None, Some(n), put(&l, &r)), |_, k| (k - 3, 0, None, None, None));
    if moved != raw(t) { w.elim = Some(format!("full_move of {:?} gave {:?}", t, moved)) }
    let mut at = t.clone(); while let Tree::Art(a) = &at { at = engine::force(a) }
    let head = raw(&at);
    let a: H = <T as TreeElim<usize, El>>::elim(t.clone(), || (0, 0, None, None, None), |x| (1, 0, Some(x), None, None), |lv, l, r| (2, lv, None, None, put(&l, &r)), |n, lv, l, r| (3, lv, None, Some(n), put(&l, &r)));
    let b: H = <T as TreeElim<usize, El>>::elim_arg(t.clone(), 7u8, |k| (k - 7, 0, None, None, None), |x, k| (k - 6, 0, Some(x), None, None), |lv, l, r, k| (k - 5, lv, None, None, put(&l, &r)), |n, lv, l, r, k| (k - 4, lv, None, Some(n), put(&l, &r)));
    let c: H = <T as TreeElim<usize, El>>::elim_ref(t, || (0, 0, None, None, None), |x| (1, 0, Some(x.clone()), None, None), |lv, l, r| (2, *lv, None, None, put(l, r)), |n, lv, l, r| (3, *lv, None, Some(n.clone()), put(l, r)));
    if a != head || b != head || c != head || (head.0 > 1 && <T as TreeElim<usize, El>>::lev_of_tree(t) != head.1) { w.elim = Some(format!("{:?} eliminated as {:?}, {:?} and {:?}, level {}", head, a, b, c, <T as TreeElim<usize, El>>::lev_of_tree(t))) }
    if <T as TreeElim<usize, El>>::is_nil(t) != (head.0 == 0) { w.elim = Some(format!("is_nil is wrong for {:?}", head)) }
    match t {
        Tree::Nil => { w.nils += 1; w.shape.push('-') }
        Tree::Leaf(x) => { w.seq.push(NameElse::Else(x.clone())); w.shape.push_str(&format!("{}", x.0)) }
        Tree::Bin(l, a, b) => { if *l > max { w.heap = false } w.shape.push_str(&format!("({}", l)); walk(a, *l, w); w.shape.push(' '); walk(b, *l, w); w.shape.push(')') }
        Tree::Name(n, l, a, b) => { if *l > max { w.heap = false } for c in [a, b] { if !matches!(**c, Tree::Art(_)) { w.bare += 1 } } w.shape.push_str(&format!("[{:?} {}", n, l)); walk(a, *l, w); w.seq.push(NameElse::Name(n.clone())); walk(b, *l, w); w.shape.push(']') }
        Tree::Art(a) => { w.arts += 1; walk(&engine::force(a), max, w) }
    }
}
fn walked(t: &T) -> Walk { let mut w = Walk { seq: vec![], shape: String::new(), arts: 0, nils: 0, bare: 0, heap: true, elim: None }; walk(t, usize::MAX, &mut w); w }

// ---- the editor's list ----
struct Edt { ents: Vec<Ent>, head: Option<Art<L>>, cells: Vec<(u8, Art<L>)>, layout: u8, which: u8 }
fn build(ents: &[Ent], layout: u8, cells: &mut Vec<(u8, Art<L>)>) -> L {
    if layout % 4 == 3 {
        // the library's own constructor; the cells are found again by looking
        let l: L = list_of_vec(&ents.iter().map(ne).collect());
        let mut at = l.clone(); let mut ids = ents.iter().filter_map(|e| if let Ent::N(n) = e { Some(*n) } else { None });
        loop { at = match at { List::Cons(_, t) => *t, List::Name(_, t) => { let id = ids.next().unwrap(); match *t { List::Art(a) => { cells.push((id, a.clone())); engine::force(&a) } t => t } } _ => break } }
        return l
    }
    let mut l: L = list_nil();
    for e in ents.iter().rev() {
        l = match e {
            Ent::E(x) => list_cons(El(*x), l),
            Ent::N(id) => match (layout % 4, id % 3) {
                (1, 0) => list_name(nm(*id), l), // a name alone
                (2, _) => { let a = engine::cell(nm(*id), l); cells.push((*id, a.clone())); list_art(engine::cell(name_pair(nm(*id), name_of_string("outer".into())), list_name(nm(*id), list_art(a)))) }
                _ => { let a = engine::cell(nm(*id), l); cells.push((*id, a.clone())); list_name_art(*id, a) }
            },
        }
    }
    l
}
fn list_name_art(id: u8, a: Art<L>) -> L { list_name(nm(id), list_art(a)) }
impl Edt {
    fn head_name(which: u8) -> Name { name_pair(name_of_string("coll".into()), name_of_string(if which == 0 { "input" } else { "second" }.into())) }
    fn rebuild(&mut self) {
        self.cells.clear();
        let l = build(&self.ents, self.layout, &mut self.cells);
        match &self.head { None => self.head = Some(engine::cell(Edt::head_name(self.which), l)), Some(h) => engine::set(h, l) }
    }
    /// Apply an edit; `how` says whether the whole list is rebuilt or only the
    /// tail behind the last name before the first change is replaced.
    fn edit(&mut self, e: &Ed, how: u8, naive: bool) {
        let n = self.ents.len(); let old = self.ents.clone();
        let at = |p: u8, n: usize| if n == 0 { 0 } else { p as usize % n };
        match e {
            Ed::Ins(p, x) => self.ents.insert(at(*p, n + 1), Ent::E(*x)),
            Ed::Name(p, id) => { let id = &(*id + SECOND * self.which); if let Some(k) = self.ents.iter().position(|e| *e == Ent::N(*id)) { self.ents.remove(k); } let n = self.ents.len(); self.ents.insert(at(*p, n + 1), Ent::N(*id)) }
            Ed::Del(p) => if n > 0 { self.ents.remove(at(*p, n)); },
            Ed::Rep(p, x) => if n > 0 { let k = at(*p, n); if let Ent::E(_) = self.ents[k] { self.ents[k] = Ent::E(*x) } },
            Ed::Swap(a, b) => if n > 0 { self.ents.swap(at(*a, n), at(*b, n)) },
            Ed::Trunc(p) => { let k = at(*p, n + 1); self.ents.truncate(k) }
            Ed::Clear => self.ents.clear(),
            Ed::Grow(x) => { self.ents.push(Ent::E(*x)) }
        }
        if naive { return }
        let first = (0..n.min(self.ents.len())).find(|i| old[*i] != self.ents[*i]).unwrap_or(n.min(self.ents.len()));
        if how == 0 && first == n && self.ents.len() == n { return }
        if how % 3 != 0 {
            // positions of names before the change, from the right
            let mut ks: Vec<usize> = (0..first).filter(|i| matches!(self.ents[*i], Ent::N(_))).collect();
            if how % 3 == 2 && ks.len() > 1 { ks.pop(); }
            if let Some(k) = ks.pop() {
                if let Ent::N(id) = self.ents[k] {
                    if let Some(a) = self.cells.iter().rev().find(|c| c.0 == id).map(|c| c.1.clone()) {
                        let keep: HashSet<u8> = self.ents[..=k].iter().filter_map(|e| if let Ent::N(n) = e { Some(*n) } else { None }).collect();
                        self.cells.retain(|c| keep.contains(&c.0));
                        let tail = build(&self.ents[k + 1..], self.layout, &mut self.cells);
                        engine::set(&a, tail);
                        return
                    }
                }
            }
        }
        self.rebuild()
    }
}
pub struct CArg;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct RootArg(usize, L, L);

fn env(cfg: u8, on: bool) { if cfg & 1 != 0 { if on { std::env::set_var("ADAPTON_NO_PURITY", "1") } else { std::env::remove_var("ADAPTON_NO_PURITY") } } }
fn check_seq(got: &[NameElse<El>], r: &Ref, limit: Option<u8>) -> Option<String> {
    let full = limit.map(|l| got.len() < l as usize).unwrap_or(true);
    if let Some(l) = limit { if got.len() > l as usize { return Some(format!("{} entries for a demand of {}", got.len(), l)) } }
    let (ge, we) = (els(got), els(&r.seq));
    if full { if ge != we { return Some(format!("elements {:?}, expected {:?}", ge, we)) } } else if ge.len() > we.len() || ge[..] != we[..ge.len()] { return Some(format!("first elements {:?}, expected the beginning of {:?}", ge, we)) }
    if r.names == NR::Exact { let want: Vec<_> = r.seq.iter().take(if full { usize::MAX } else { got.len() }).cloned().collect(); if got != &want[..] { return Some(format!("{:?}, expected {:?}", got, want)) } }
    if r.between && full {
        // exactly one name between elements that a name separated, none elsewhere, none invented
        let gn = names(got); let on = names(&r.orig);
        if !subseq(&gn, &on) { return Some(format!("names {:?} are not among {:?} in order", gn, on)) }
        let want = between(&r.orig, &ge); let have = gaps(got);
        for i in 1..have.len().max(1) - 1 { if have[i] != want[i] { return Some(format!("{} names between element {} and {} of {:?}, expected {}", have[i], i - 1, i, got, want[i])) } }
    }
    None
}
fn subseq(a: &[Name], b: &[Name]) -> bool { let mut it = b.iter(); a.iter().all(|x| it.any(|y| x == y)) }
/// Number of names before the first element, between the elements, and after the last.
fn gaps(s: &[NameElse<El>]) -> Vec<usize> { let mut o = vec![0]; for e in s { match e { NameElse::Name(_) => *o.last_mut().unwrap() += 1, NameElse::Else(_) => o.push(0) } } o }
/// For the kept elements `kept` (a subsequence chosen by value predicate): 1 where a name separates neighbours originally.
fn between(orig: &[NameElse<El>], kept: &[i64]) -> Vec<usize> {
    let mut o = vec![0]; let set: HashSet<i64> = kept.iter().cloned().collect();
    for e in orig { match e { NameElse::Name(_) => *o.last_mut().unwrap() = 1, NameElse::Else(x) => if set.contains(&x.0) { o.push(0) } } }
    o
}

pub fn run(c: &Coll) -> Outcome {
    let naive = c.cfg & 16 != 0;
    install(Some(Ctx::new(Rc::new(Prog::default()), Mode::Structural, 1)));
    ST.with(|s| *s.borrow_mut() = S::default());
    let mut out = Outcome::default();
    env(c.cfg, true); if naive { manage::init_naive(); } else { manage::init_dcg(); } env(c.cfg, false);
    let mut ed = Edt { ents: c.init.clone(), head: None, cells: vec![], layout: c.layout, which: 0 };
    let mut ed2 = Edt { ents: c.second.clone(), head: None, cells: vec![], layout: [0, 3, 2, 0][c.layout as usize % 4], which: 1 };
    let guard = |f: &mut dyn FnMut()| -> Result<(), Fail> { catch_unwind(AssertUnwindSafe(|| f())).map_err(classify) };
    let mut viols: Vec<Viol> = vec![];
    let pipes = Rc::new(c.pipes.clone());
    let mut last: Vec<Option<(Out, Want)>> = vec![None; c.pipes.len()];
    let mut seen: Vec<Option<Vec<Vec<Seg>>>> = vec![None; c.pipes.len()]; let (mut bounded, mut tight) = (0u64, 0u64);
    let mut dead = false; let mut h = DefaultHasher::new();
    let (mut since_edit, mut edits, mut after, mut partial, mut injected) = (false, 0u64, 0u64, 0u64, 0u64);
    if let Err(f) = guard(&mut || if !naive { ed.rebuild(); ed2.rebuild() }) { viols.push(Viol { class: Class::Panic, op: 0, msg: format!("building the input panicked: {:?}", f) }); dead = true }
    for (i, op) in c.ops.iter().enumerate() {
        if dead { break }
        let mut viol = |class: Class, msg: String| if viols.len() < 20 { viols.push(Viol { class, op: i, msg }) };
        out.stats.ops += 1; crate::threads::point();
        let mut line = String::new();
        match op {
            LOp::Edit(e, how, which) => {
                edits += 1; out.stats.edits += 1; since_edit = true;
                for l in last.iter_mut() { *l = None }
                if let Err(f) = guard(&mut || if *which == 0 { ed.edit(e, *how, naive) } else { ed2.edit(e, *how, naive) }) { viol(Class::Panic, format!("{:?} panicked: {:?}", e, f)); dead = true }
            }
            LOp::Demand(p, limit, fault) => {
                let p = *p as usize; if p >= c.pipes.len() { continue }
                let limit = *limit;
                let seq: Seq = ed.ents.iter().map(ne).collect(); let seq2: Seq = ed2.ents.iter().map(ne).collect();
                let want = reference(&c.pipes[p].stages, &seq, &seq2);
                out.stats.demands += 1;
                ST.with(|s| { let s = &mut *s.borrow_mut(); s.steps = 0; s.fault = *fault; s.fired = 0 });
                let (head, ps, top) = (ed.head.clone(), pipes.clone(), c.pipes[p].top || naive);
                let ents = ed.ents.clone(); let layout = c.layout; let (head2, ents2, layout2) = (ed2.head.clone(), ed2.ents.clone(), ed2.layout);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let inp: L = match &head { Some(h) => list_art(h.clone()), None => build(&ents, layout, &mut vec![]) };
                    let inp2: L = match &head2 { Some(h) => list_art(h.clone()), None => build(&ents2, layout2, &mut vec![]) };
                    let o = if top { ns(name_pair(name_of_string("pipe".into()), name_of_usize(p)), || eval(&ps[p].stages, inp, inp2)) } else {
                        let ps = ps.clone();
                        let a = engine::thunk(NameChoice::Nominal(name_pair(name_of_string("root".into()), name_of_usize(p))), ProgPt { symbol: "coll::root" }, Rc::new(Box::new(move |a: RootArg, _: ()| ns(name_pair(name_of_string("pipe".into()), name_of_usize(a.0)), || eval(&ps[a.0].stages, a.1, a.2)))), RootArg(p, inp, inp2), ());
                        engine::force(&a)
                    };
                    let look = look(&o, limit);
                    (o, look)
                })).map_err(classify);
                let (fired, steps) = ST.with(|s| { let s = &mut *s.borrow_mut(); s.fault = None; (s.fired, s.steps) });
                injected += fired; if steps == 0 { out.stats.reuse += 1 } if since_edit { after += 1 } if limit.is_some() { partial += 1 }
                match r {
                    Err(Fail::Injected) if fired > 0 => { line = "injected".into(); last[p] = None; seen[p] = None }
                    Err(Fail::Engine(s)) if matches!(want, Want::Panic) && s.contains("empty stack") => { out.stats.organic += 1; line = "empty".into() }
                    Err(f) => { viol(Class::Panic, format!("demanding pipeline {} on {:?} panicked: {:?}", p, els(&seq), f)); dead = true }
                    Ok((o, l)) => {
                        line = format!("{:?}", l.digest());
                        let c_stages = &c.pipes[p].stages;
                        if !naive && c.layout % 4 != 1 {
                            if let (Some(k), Some(lim)) = (lazy_allowed(c_stages, &seq, limit.unwrap_or(255) as usize), limit) { bounded += 1; if steps == k { tight += 1 } if steps > k { viol(Class::Outside, format!("demanding {} entries of pipeline {} ({:?}) on {:?} visited {} elements; only {} come before the name after the last entry", lim, p, c_stages, seq, steps, k)) } }
                            let now = stage_segs(c_stages, &seq);
                            if let (Some(old), Some(new)) = (&seen[p], &now) { let k = allowed(old, new); bounded += 1; if steps == k { tight += 1 } if steps > k { viol(Class::Reexec, format!("pipeline {} ({:?}) on {:?} visited {} elements again; its changed parts have {}", p, c_stages, seq, steps, k)) } }
                            seen[p] = now;
                        }
                        if let Some(m) = judge(&c.pipes[p].stages, &l, &want, limit, naive) { viol(Class::Value, format!("pipeline {} ({:?}) on {:?}: {}", p, c.pipes[p].stages, seq, m)) }
                        // tree shapes do not depend on history
                        if !naive { if let Out::T(_) = &o { if c.pipes[p].stages.len() <= 2 {
                            let parked = manage::init_dcg();
                            let r = catch_unwind(AssertUnwindSafe(|| { let inp: L = list_art(engine::cell(Edt::head_name(0), build(&ed.ents, c.layout, &mut vec![]))); let inp2: L = list_art(engine::cell(Edt::head_name(1), build(&ed2.ents, ed2.layout, &mut vec![]))); match ns(name_pair(name_of_string("pipe".into()), name_of_usize(p)), || eval(&c.pipes[p].stages, inp, inp2)) { Out::T(t) => walked(&t).shape, _ => String::new() } }));
                            let _ = manage::use_engine(parked);
                            match r { Ok(s) => if let Look::T(w) = &l { if w.shape != s { viol(Class::Value, format!("pipeline {} on {:?}: tree {} but a fresh engine builds {}", p, seq, w.shape, s)) } }, Err(p2) => viol(Class::Panic, format!("fresh engine panicked: {:?}", classify(p2))) }
                        } } }
                        last[p] = Some((o, want));
                    }
                }
                if !naive && (fired > 0 || i % 5 == 4) { match reflect_now() { Ok(d) => { for (cl, m) in well_formed(&d, false) { viol(cl, m) } out.stats.reflects += 1 } Err(e) => viol(Class::Graph, e) } }
                steps.hash(&mut h);
            }
            LOp::Look(p, limit) => {
                // look again, perhaps further, into the last result; nothing has changed since
                let p = *p as usize; if p >= c.pipes.len() { continue }
                if let Some((o, want)) = &last[p] {
                    ST.with(|s| s.borrow_mut().fault = None);
                    match catch_unwind(AssertUnwindSafe(|| look(o, *limit))).map_err(classify) {
                        Ok(l) => { line = l.digest(); if let Some(m) = judge(&c.pipes[p].stages, &l, want, *limit, naive) { viol(Class::Value, format!("looking again at pipeline {} ({:?}): {}", p, c.pipes[p].stages, m)) } }
                        Err(f) => { viol(Class::Panic, format!("looking again at pipeline {} panicked: {:?}", p, f)); dead = true }
                    }
                }
            }
        }
        line.hash(&mut h); out.states.push(h.finish());
        out.digest.push((0, format!("{:?} {}", op, line)));
    }
    out.viols = viols;
    out.stats.steps = ST.with(|s| s.borrow().total); out.stats.injected = injected;
    out.extra.push(("demands_after_edit", after)); out.extra.push(("partial_demands", partial)); out.extra.push(("cost_bounds_checked", bounded)); out.extra.push(("cost_bounds_met_exactly", tight));
    for p in &c.pipes { for s in &p.stages { let n = stage_stat(s); match out.extra.iter_mut().find(|x| x.0 == n) { Some(x) => x.1 += 1, None => out.extra.push((n, 1)) } } }
    out.nontrivial = edits > 0 && after > 0 && out.stats.demands > 1 && c.pipes.iter().any(|p| !p.stages.is_empty());
    install(None);
    let _ = manage::use_engine(Engine::Naive);
    out
}
fn stage_stat(s: &Stage) -> &'static str {
    use Stage::*;
    match s { Gen(..) => "op_list_gen", Wrap(_) => "op_wrap", MapE(_) => "op_map_eager", MapE2(_) => "op_map_eager2", MapL(_) => "op_map_lazy", FilE(_) => "op_filter_eager", FilL(_) => "op_filter_lazy", Rev => "op_reverse", App => "op_append", Merge(_) => "op_merge", ToT(_) => "op_tree_of_list", FilT(_) => "op_filter_tree", Prune => "op_prune", EagerT => "op_eager_tree",
        OfT(_) => "op_list_of_tree", FilLT(_) => "op_filter_list_of_tree", Sort(..) => "op_mergesort", Fold => "op_fold", Empty => "op_is_empty", IsName => "op_is_name", Pop => "op_pop", Push(_) => "op_push", Assoc(_) => "op_assoc", Sets(..) => "op_sets", Inside => "op_vec_inside", Mono(_) => "op_monoid", FoldSeq(_) => "op_fold_seq", FoldNm(_) => "op_fold_up_nm_dn", TEmpty => "op_tree_is_empty", FoldUp => "op_fold_up", App2(_) => "op_append_second", Merge2(_) => "op_merge_second", WrapT(_) => "op_wrap_tree", CopyT => "op_copy_tree" }
}
enum Look { S(Seq), T(Walk), I(Vec<i64>) }
impl Look { fn digest(&self) -> String { match self { Look::S(s) => format!("{:?}", s), Look::T(w) => w.shape.clone(), Look::I(v) => format!("{:?}", v) } } }
fn look(o: &Out, limit: Option<u8>) -> Look {
    match o { Out::L(l) => Look::S(match limit { Some(k) => list_demand(l.clone(), k as usize), None => vec_of_list(l.clone(), None) }), Out::T(t) => Look::T(walked(t)), Out::I(v) => Look::I(v.clone()), Out::V(v) => Look::S(v.clone()) }
}
fn judge(st: &[Stage], l: &Look, want: &Want, limit: Option<u8>, _naive: bool) -> Option<String> {
    match (l, want) {
        (Look::S(s), Want::List(r)) => check_seq(s, r, if matches!(st.last(), Some(Stage::Inside) | Some(Stage::FoldSeq(_)) | Some(Stage::FoldUp)) { None } else { limit }),
        (Look::T(w), Want::Tree(r)) => {
            if let Some(m) = &w.elim { return Some(m.clone()) }
            if !w.heap { return Some(format!("levels increase downwards in {}", w.shape)) }
            match st.last() {
                Some(Stage::EagerT) if w.arts > 0 => return Some("articulations in an eager tree".into()),
                Some(Stage::Prune) if w.nils > 1 || (w.nils == 1 && !w.seq.is_empty()) => return Some(format!("empty subtrees in a pruned tree: {}", w.shape)),
                Some(Stage::Prune) if w.bare > 0 => return Some(format!("named subtrees without articulation in a pruned tree: {}", w.shape)),
                _ => {}
            }
            if r.names == NR::Any && !subseq(&names(&w.seq), &names(&r.seq)) && !names(&r.seq).is_empty() { return Some(format!("names {:?} are not among {:?} in order", names(&w.seq), names(&r.seq))) }
            check_seq(&w.seq, r, None)
        }
        (Look::I(v), Want::Ints(w)) => {
            if matches!(st.last(), Some(Stage::IsName)) && w == &[-1] { return None }
if let Some(Stage::FoldNm(_)) = st.last() { if v == w { return None } if anynames(st) { let f = |v: &[i64]| -> Vec<i64> { v.iter().cloned().filter(|x| *x < 1_000_000).collect() }; if f(v) == f(w) { return None } } return Some(format!("{:?}, expected {:?}", v, w)) }
            if v == w { None } else { Some(format!("{:?}, expected {:?}", v, w)) }
        }
        (_, Want::Panic) => Some("succeeded, but popping an empty list should panic".into()),
        _ => Some("another kind of result".into()),
    }
}

/// Are the names left in the result unspecified?
fn anynames(st: &[Stage]) -> bool { st.iter().any(|s| matches!(s, Stage::FilT(_) | Stage::Prune | Stage::FilLT(_) | Stage::Sort(..) | Stage::Rev | Stage::Merge(_) | Stage::Merge2(_))) }

// ---- generation ----
fn ent(r: &mut Rng, i: usize, pn: usize) -> Ent { if r.chance(pn) { Ent::N(i as u8) } else { Ent::E(r.below(12) as i64) } }
fn gen(r: &mut Rng, trees: bool) -> Sx {
    use Stage::*;
    let hi = if r.chance(20) { 24 } else { 9 }; let n = r.range(0, hi); let pn = [10, 35, 50, 70][r.below(4)];
    let init: Vec<Ent> = (0..n).map(|i| ent(r, i, pn)).collect();
    let second: Vec<Ent> = { let n = r.range(0, 7); (0..n).map(|i| ent(r, i + SECOND as usize, pn)).collect() };
    let np = r.range(1, 3);
    let pipes = (0..np).map(|_| {
        let mut st: Vec<Stage> = vec![];
        let k = |r: &mut Rng| r.below(6) as u8;
        let list_stage = |r: &mut Rng, st: &mut Vec<Stage>| { let x = match r.below(27) { 21 | 22 | 23 if !st.iter().any(|s| matches!(s, App2(_) | Merge2(_))) => App2(r.chance(40)), 24 | 25 | 26 if !st.iter().any(|s| matches!(s, App2(_) | Merge2(_))) => Merge2(r.below(8) as u8), 21..=26 => Rev, 18 => Gen(r.below(7) as u8, k(r)), 19 | 20 => Wrap(r.below(8) as u8), x => match x / 2 { 0 => MapE(k(r)), 1 => MapE2(k(r)), 2 => MapL(k(r)), 3 => FilE(k(r)), 4 => FilL(k(r)), 5 => Rev, 6 => App, 7 => Merge(r.below(8) as u8), _ => Push(r.below(9) as i64) } }; st.push(x) };
        if trees {
            if r.chance(25) { let x = match r.below(4) { 0 => MapE(k(r)), 1 => FilE(k(r)), 2 => MapE2(k(r)), _ => if r.chance(50) { App2(r.chance(50)) } else { App } }; st.push(x) }
            st.push(ToT(r.chance(50)));
            if r.chance(12) { st.push(WrapT(k(r))) }
            if r.chance(35) { let x = match r.below(7) { 0 | 1 => FilT(k(r)), 2 | 3 => Prune, 4 => CopyT, _ => EagerT }; st.push(x) }
            if r.chance(8) { st.push(WrapT(k(r))) }
            match r.below(10) { 9 => st.push(FoldUp), 0 => st.push(Mono(k(r))), 1 => st.push(FoldSeq(r.chance(50))), 2 => st.push(FoldNm(r.chance(50))), 3 => st.push(TEmpty), 4 => {} 5 => st.push(OfT(r.chance(50))), 6 => st.push(FilLT(k(r))), _ => st.push(Sort(r.below(3) as u8, r.chance(50))) }
            if matches!(typed(&st), Ok('L')) && r.chance(20) { match r.below(4) { 0 => st.push(Inside), 1 => st.push(Fold), 2 if !matches!(st.last(), Some(Sort(..))) => st.push(ToT(r.chance(50))), _ => list_stage(r, &mut st) } }
        } else {
            for _ in 0..r.below(4) { list_stage(r, &mut st) }
            match r.below(16) { 0 => st.push(Fold), 1 => st.push(Empty), 2 => st.push(IsName), 3 => st.push(Pop), 4 => st.push(Assoc(k(r))), 5 => st.push(Sets(k(r), k(r))), 6 => st.push(Inside), _ => {} }
        }
        Pipe { stages: st, top: r.chance(30) }
    }).collect();
    let cfg = match r.below(20) { 0..=2 => 1, 3 => 16, _ => 0 };
    let layout = [0, 0, 3, 1, 2][r.below(5)] as u8;
    let pipes: Vec<Pipe> = pipes; let has2 = pipes.iter().any(|p| p.stages.iter().any(|s| matches!(s, App2(_) | Merge2(_))));
    let mut ops = vec![];
    let fault = if r.chance(40) { 20 } else { 0 };
    let hi = if r.chance(20) { 30 } else { 12 };
    for _ in 0..r.range(3, hi) {
        let o = match r.weighted(&[45, 45, 10]) {
            0 => { let p = r.below(32) as u8; let x = r.below(12) as i64; let e = match r.weighted(&[30, 20, 20, 14, 8, 4, 2, 6]) { 0 => Ed::Ins(p, x), 1 => Ed::Name(p, r.below(30) as u8), 2 => Ed::Del(p), 3 => Ed::Rep(p, x), 4 => Ed::Swap(p, r.below(32) as u8), 5 => Ed::Trunc(p), 6 => Ed::Clear, _ => Ed::Grow(x) }; LOp::Edit(e, r.below(3) as u8, (has2 && r.chance(30)) as u8) }
            1 => LOp::Demand(r.below(np) as u8, if r.chance(30) { Some(r.range(0, 6) as u8) } else { None }, if r.chance(fault) { Some(r.range(1, 14) as u32) } else { None }),
            _ => LOp::Look(r.below(np) as u8, if r.chance(50) { Some(r.range(0, 9) as u8) } else { None }),
        };
        ops.push(o);
    }
    for p in 0..np { ops.push(LOp::Demand(p as u8, None, None)) }
    Coll { cfg, layout, init, second, pipes, ops }.to_sx()
}
/// Pipelines whose element steps are bounded: eager maps and filters, or one lazy stage.
pub fn gen_cost(r: &mut Rng) -> Sx {
    use Stage::*;
    let mut c = match Coll::from_sx(&gen(r, false)) { Ok(c) => c, Err(e) => panic!("{}", e) };
    if c.layout == 1 { c.layout = 0 } c.cfg &= !16;
    for p in c.pipes.iter_mut() {
        let k = |r: &mut Rng| r.below(6) as u8;
        p.stages = if r.chance(30) { vec![if r.chance(50) { MapL(k(r)) } else { FilL(k(r)) }] } else { (0..r.range(1, 4)).map(|_| match r.below(3) { 0 => MapE(k(r)), 1 => MapE2(k(r)), _ => FilE(k(r)) }).collect() };
    }
    c.to_sx()
}
/// Demands that are interrupted, and the same demands again.
pub fn gen_faulty(r: &mut Rng) -> Sx {
    let trees = r.chance(50);
    let mut c = match Coll::from_sx(&gen(r, trees)) { Ok(c) => c, Err(e) => panic!("{}", e) };
    c.cfg &= !16;
    let mut ops = vec![];
    for o in c.ops { if let LOp::Demand(p, l, None) = o { if r.chance(45) { ops.push(LOp::Demand(p, l, Some(r.range(1, 30) as u32))); if r.chance(40) { continue } } } ops.push(o) }
    for p in 0..c.pipes.len() { ops.push(LOp::Demand(p as u8, None, None)) }
    c.ops = ops;
    c.to_sx()
}
pub fn gen_any(r: &mut Rng) -> Sx { if r.chance(50) { gen(r, false) } else { gen(r, true) } }
pub fn gen_lists(r: &mut Rng) -> Sx { gen(r, false) }
pub fn gen_trees(r: &mut Rng) -> Sx { gen(r, true) }
