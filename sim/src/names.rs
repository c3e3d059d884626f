//! Names and identities (C06): random name terms, allocated under random
//! namespaces by editors and thunks, nominally and structurally, compared with
//! canonical terms.
use crate::graph::{reflect_now, well_formed};
use crate::prog::Prog;
use crate::real::{classify, install, Class, Ctx, Mode, Viol};
use crate::rng::Rng;
use crate::run::Outcome;
use crate::sx;
use crate::sx::{PResult, Sx};
use adapton::engine::{self, manage, Art, Engine, Name, NameChoice};
use adapton::macros::ProgPt;
use std::any::Any;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

const STR: [&str; 9] = ["", "x", "a b", "1", "-1", "x-l", "▲", "(Hash64)", "Usize(1)"];
#[derive(Clone, PartialEq, Debug)]
pub enum Tm { Unit, U(usize), I(isize), S(u8), St(u8), H(u64), P(Box<Tm>, Box<Tm>), F(u8, Box<Tm>), F3(u8, Box<Tm>), F4(u8, Box<Tm>) }
use Tm::*;
impl Tm {
    fn sx(&self) -> Sx { match self { Unit => sx!("unit"), U(x) => sx!("usize", *x), I(x) => sx!("isize", *x as i64), S(x) => sx!("string", *x), St(x) => sx!("str", *x), H(x) => sx!("hash", *x), P(a, b) => sx!("pair", a.sx(), b.sx()), F(k, a) => sx!("fork", *k, a.sx()), F3(k, a) => sx!("fork3", *k, a.sx()), F4(k, a) => sx!("fork4", *k, a.sx()) } }
    fn parse(s: &Sx) -> PResult<Tm> {
        let sub = |i: usize| -> PResult<Box<Tm>> { Ok(Box::new(Tm::parse(s.at(i)?)?)) }; let k = |m: u8| -> PResult<u8> { let k: u8 = s.at(1)?.num()?; if k < m { Ok(k) } else { Err("range".into()) } };
        Ok(match s.head()? { "unit" => Unit, "usize" => U(s.at(1)?.num()?), "isize" => I(s.at(1)?.num()?), "string" => S(k(9)?), "str" => St(k(9)?), "hash" => H(s.at(1)?.num()?), "pair" => P(sub(1)?, sub(2)?), "fork" => F(k(2)?, sub(2)?), "fork3" => F3(k(3)?, sub(2)?), "fork4" => F4(k(4)?, sub(2)?), x => return Err(x.into()) })
    }
    /// The sequence of constructors; three- and four-way forks are chains of forks.
    fn canon(&self) -> String {
        let l = |s: String| format!("L({})", s); let r = |s: String| format!("R({})", s);
        match self {
            Unit => "()".into(), U(x) => format!("u{}", x), I(x) => format!("i{}", x), S(x) | St(x) => format!("s{}", x), H(x) => format!("h{}", x), P(a, b) => format!("({},{})", a.canon(), b.canon()),
            F(0, a) => l(a.canon()), F(_, a) => r(a.canon()),
            F3(0, a) => l(a.canon()), F3(1, a) => l(r(a.canon())), F3(_, a) => r(r(a.canon())),
            F4(0, a) => l(a.canon()), F4(1, a) => l(r(a.canon())), F4(2, a) => l(r(r(a.canon()))), F4(_, a) => r(r(r(a.canon()))),
        }
    }
    fn mk(&self) -> Name {
        match self {
            Unit => engine::name_unit(), U(x) => engine::name_of_usize(*x), I(x) => engine::name_of_isize(*x), S(x) => engine::name_of_string(STR[*x as usize].to_string()), St(x) => engine::name_of_str(STR[*x as usize]), H(x) => engine::name_of_hash64(hash_like(*x)), P(a, b) => engine::name_pair(a.mk(), b.mk()),
            F(k, a) => { let (l, r) = engine::name_fork(a.mk()); if *k == 0 { l } else { r } }
            F3(k, a) => { let (x, y, z) = engine::name_fork3(a.mk()); [x, y, z][*k as usize].clone() }
            F4(k, a) => { let (x, y, z, w) = engine::name_fork4(a.mk()); [x, y, z, w][*k as usize].clone() }
        }
    }
}
/// Arguments of structural articulations, of several types that look alike.
#[derive(Clone, PartialEq, Debug)]
pub enum Va { I(i64), U(usize), S(u8), Nm(u8), Two(u8, u8), Vn(Vec<u8>), Vi(Vec<i64>), Ar(u8), Unit }
#[derive(Clone, PartialEq, Debug)]
pub enum Op { Cell(Vec<u8>, u8, i64, u8), Thunk(Vec<u8>, u8, i64, u8), Set(u8, i64), SCell(Vec<u8>, u8, Va), SThunk(Vec<u8>, u8, Va, bool), NThunk(u8, u8, u8, Va) }
#[derive(Clone, PartialEq, Debug)]
pub struct Nms { pub terms: Vec<Tm>, pub ops: Vec<Op> }
fn v_sx(v: &Va) -> Sx { match v { Va::I(x) => sx!("i64", *x), Va::U(x) => sx!("usize", *x), Va::S(x) => sx!("string", *x), Va::Nm(x) => sx!("name", *x), Va::Two(a, b) => sx!("names2", *a, *b), Va::Vn(v) => Sx::L(std::iter::once("names".into()).chain(v.iter().map(|x| Sx::from(*x))).collect()), Va::Vi(v) => Sx::L(std::iter::once("ints".into()).chain(v.iter().map(|x| Sx::from(*x))).collect()), Va::Ar(x) => sx!("art", *x), Va::Unit => sx!("unit") } }
fn v_parse(s: &Sx) -> PResult<Va> { Ok(match s.head()? { "i64" => Va::I(s.at(1)?.num()?), "usize" => Va::U(s.at(1)?.num()?), "string" => Va::S(s.at(1)?.num::<u8>()? % 9), "name" => Va::Nm(s.at(1)?.num()?), "names2" => Va::Two(s.at(1)?.num()?, s.at(2)?.num()?), "names" => Va::Vn(s.list()?[1..].iter().map(|x| x.num()).collect::<PResult<_>>()?), "ints" => Va::Vi(s.list()?[1..].iter().map(|x| x.num()).collect::<PResult<_>>()?), "art" => Va::Ar(s.at(1)?.num()?), "unit" => Va::Unit, x => return Err(x.into()) }) }
fn p_sx(p: &[u8]) -> Sx { Sx::L(p.iter().map(|x| Sx::from(*x)).collect()) }
fn p_parse(s: &Sx) -> PResult<Vec<u8>> { s.list()?.iter().map(|x| x.num()).collect() }
impl Nms {
    pub fn to_sx(&self) -> Sx {
        sx!("names", Sx::L(self.terms.iter().map(|t| t.sx()).collect()), Sx::L(std::iter::once("ops".into()).chain(self.ops.iter().map(|o| match o { Op::Cell(p, n, v, k) => sx!("cell", p_sx(p), *n, *v, *k), Op::Thunk(p, n, v, k) => sx!("thunk", p_sx(p), *n, *v, *k), Op::Set(h, v) => sx!("set", *h, *v), Op::SCell(p, n, v) => sx!("scell", p_sx(p), *n, v_sx(v)), Op::SThunk(p, c, v, b) => sx!("sthunk", p_sx(p), *c, v_sx(v), *b as u8), Op::NThunk(k, i, c, v) => sx!("nthunk", *k, *i, *c, v_sx(v)) })).collect()))
    }
    pub fn from_sx(s: &Sx) -> PResult<Nms> {
        if s.head()? != "names" { return Err("names".into()) }
        let terms = s.at(1)?.list()?.iter().map(Tm::parse).collect::<PResult<Vec<_>>>()?; if terms.is_empty() { return Err("no terms".into()) }
        let ops = s.at(2)?.list()?.iter().skip(1).map(|o| Ok(match o.head()? { "cell" => Op::Cell(p_parse(o.at(1)?)?, o.at(2)?.num()?, o.at(3)?.num()?, o.at(4)?.num()?), "thunk" => Op::Thunk(p_parse(o.at(1)?)?, o.at(2)?.num()?, o.at(3)?.num()?, o.at(4)?.num()?), "set" => Op::Set(o.at(1)?.num()?, o.at(2)?.num()?), "scell" => Op::SCell(p_parse(o.at(1)?)?, o.at(2)?.num()?, v_parse(o.at(3)?)?), "sthunk" => Op::SThunk(p_parse(o.at(1)?)?, o.at(2)?.num::<u8>()? % 3, v_parse(o.at(3)?)?, o.at(4)?.num::<u8>()? == 1), "nthunk" => Op::NThunk(o.at(1)?.num::<u8>()? % 4, o.at(2)?.num()?, o.at(3)?.num::<u8>()? % 3, v_parse(o.at(4)?)?), x => return Err(x.into()) })).collect::<PResult<Vec<_>>>()?;
        Ok(Nms { terms, ops })
    }
}
fn in_path<T>(p: &[Name], f: Box<dyn FnOnce() -> T + '_>) -> T { match p.split_first() { None => f(), Some((n, rest)) => engine::ns(n.clone(), || in_path(rest, f)) } }
/// An articulation of some type, with the key that says what it denotes.
trait Hnd { fn same(&self, o: &dyn Hnd) -> Option<bool>; fn any(&self) -> &dyn Any; fn read(&self) -> String; fn hash(&self) -> u64; }
struct TH<T>(Art<T>);
fn h_of<T: Hash>(x: &T) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }
impl<T: Hash + Eq + Debug + Clone + 'static> Hnd for TH<T> {
    fn same(&self, o: &dyn Hnd) -> Option<bool> { o.any().downcast_ref::<TH<T>>().map(|o| o.0 == self.0) }
    fn any(&self) -> &dyn Any { self }
    fn read(&self) -> String { format!("{:?}", engine::force(&self.0)) }
    fn hash(&self) -> u64 { h_of(&self.0) }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
struct Ky { path: Vec<String>, id: String }
struct Hd { h: Rc<dyn Hnd>, key: Ky, nom: bool, want: Option<String> }
/// A name made of a hash has that hash, so a small number there is a collision the user made:
/// the pair of the hashes 3 and 3 hashes like the `usize` 3.
fn hash_like(x: u64) -> u64 { (x ^ 0xD1B5_4A32_D192_ED03).wrapping_mul(0x9E37_79B9_7F4A_7C15) }
const PT: [&str; 3] = ["names::a", "names::b", "names::c"];
fn scell<T: Hash + Eq + Debug + Clone + 'static>(path: &[Name], nm: Name, v: T) -> Rc<dyn Hnd> { Rc::new(TH(in_path(path, Box::new(|| engine::structural(|| engine::cell(nm, v)))))) }
fn sthunk<T: Hash + Eq + Debug + Clone + 'static>(path: &[Name], code: u8, nomblock: bool, v: T) -> Rc<dyn Hnd> {
    Rc::new(TH(in_path(path, Box::new(|| {
        let mk = || engine::thunk(if nomblock { NameChoice::Nominal(engine::name_of_usize(0)) } else { NameChoice::Structural }, ProgPt { symbol: PT[code as usize] }, Rc::new(Box::new(move |a: T, _: ()| format!("{}{:?}", PT[code as usize], a))), v, ());
        if nomblock { engine::structural(mk) } else { mk() }
    }))))
}
/// Thunks that have no node: kind 0 by request, 1 and 2 (with and without a name) made under the naive engine, 3 evaluated at once.
fn nthunk<T: Hash + Eq + Debug + Clone + 'static>(kind: u8, nm: Name, code: u8, v: T) -> Rc<dyn Hnd> {
    let id = match kind { 0 => NameChoice::Naive, 1 => NameChoice::Nominal(nm), 2 => NameChoice::Structural, _ => NameChoice::Eager };
    let mk = || engine::thunk(id, ProgPt { symbol: PT[code as usize] }, Rc::new(Box::new(move |a: T, _: ()| format!("{}{:?}", PT[code as usize], a))), v, ());
    Rc::new(TH(if kind == 1 || kind == 2 { let e = manage::use_engine(Engine::Naive); let a = mk(); manage::use_engine(e); a } else { mk() }))
}
fn f(x: i64) -> i64 { x * 7 + 3 }

pub fn run(n: &Nms) -> Outcome {
    install(Some(Ctx::new(Rc::new(Prog::default()), Mode::Structural, 1)));
    let mut out = Outcome::default();
    manage::init_dcg();
    let mut viols: Vec<Viol> = vec![];
    let canon: Vec<String> = n.terms.iter().map(|t| t.canon()).collect();
    let mut h = DefaultHasher::new();
    // name terms: built twice, compared in pairs
    let (nm, nm2): (Vec<Name>, Vec<Name>) = (n.terms.iter().map(|t| t.mk()).collect(), n.terms.iter().rev().map(|t| t.mk()).collect::<Vec<_>>().into_iter().rev().collect());
    let mut pairs = 0u64; let mut table: HashMap<Name, String> = HashMap::new();
    for i in 0..nm.len() {
        for j in 0..nm.len() {
            pairs += 1;
            if (nm[i] == nm2[j]) != (canon[i] == canon[j]) { viols.push(Viol { class: Class::Identity, op: 0, msg: format!("names {} and {} compare {}", canon[i], canon[j], nm[i] == nm2[j]) }) }
            if canon[i] == canon[j] && h_of(&nm[i]) != h_of(&nm2[j]) { viols.push(Viol { class: Class::Identity, op: 0, msg: format!("name {} hashes in two ways", canon[i]) }) }
        }
        let (a, b) = engine::name_fork(nm[i].clone()); let (c, d, e) = engine::name_fork3(nm[i].clone()); let (w, x, y, z) = engine::name_fork4(nm[i].clone());
        for g in [vec![nm[i].clone(), a, b], vec![nm[i].clone(), c, d, e], vec![nm[i].clone(), w, x, y, z]] { for p in 0..g.len() { for q in 0..p { if g[p] == g[q] { viols.push(Viol { class: Class::Identity, op: 0, msg: format!("forking {} gives a name twice", canon[i]) }) } } } }
        if let Some(o) = table.insert(nm[i].clone(), canon[i].clone()) { if o != canon[i] { viols.push(Viol { class: Class::Identity, op: 0, msg: format!("{} found as {}", canon[i], o) }) } }
    }
    let k = nm.len();
    let (mut hs, mut cont): (Vec<Hd>, BTreeMap<Ky, (bool, i64)>) = (vec![], BTreeMap::new());
    let mut nom_arts: Vec<(Art<i64>, Ky)> = vec![];
    let mut extra: BTreeSet<Ky> = BTreeSet::new(); let mut skeys: BTreeSet<Ky> = BTreeSet::new();
    let mut eqs = 0u64; let mut over = 0u64;
    'ops: for (oi, op) in n.ops.iter().enumerate() {
        if !viols.is_empty() { break }
        out.stats.ops += 1;
        let mut viol = |class: Class, msg: String| if viols.len() < 10 { viols.push(Viol { class, op: oi, msg }) };
        let path_of = |p: &[u8]| -> (Vec<Name>, Vec<String>) { p.iter().take(3).map(|i| (nm[*i as usize % k].clone(), canon[*i as usize % k].clone())).unzip() };
        let r = catch_unwind(AssertUnwindSafe(|| -> Option<Hd> {
            match op {
                Op::Cell(p, i, v, how) | Op::Thunk(p, i, v, how) => {
                    let (pn, pc) = path_of(p); let i = *i as usize % k; let key = Ky { path: pc.clone(), id: canon[i].clone() };
                    let cell = matches!(op, Op::Cell(..)); let v = *v; let name = nm[i].clone();
                    let alloc = move |nm: Name| if cell { engine::cell(nm, v) } else { engine::thunk(NameChoice::Nominal(nm), ProgPt { symbol: "names::f" }, Rc::new(Box::new(|x: i64, _: ()| f(x))), v, ()) };
                    let art: Art<i64> = match how % 4 {
                        // by the editor, directly or with one more namespace entered and left
                        0 => in_path(&pn, Box::new(|| alloc(name))),
                        1 => in_path(&pn, Box::new(|| { let _ = engine::ns(nm[(i + 1) % k].clone(), || engine::name_unit()); alloc(name) })),
                        // by a thunk allocated in the namespace and forced there or outside
                        w => {
                            let an = engine::name_of_string(format!("by{}", oi)); extra.insert(Ky { path: pc.clone(), id: format!("by{}", oi) });
                            let mk = || engine::thunk(NameChoice::Nominal(an), ProgPt { symbol: "names::alloc" }, Rc::new(Box::new(move |nm: Name, _: ()| alloc(nm))), name, ());
                            if w == 2 { let t = in_path(&pn, Box::new(mk)); engine::ns(nm[0].clone(), || engine::force(&t)) } else { in_path(&pn, Box::new(|| engine::force(&mk()))) }
                        }
                    };
                    if cont.insert(key.clone(), (cell, if cell { v } else { f(v) })).is_some() { over += 1 }
                    nom_arts.push((art.clone(), key.clone()));
                    Some(Hd { h: Rc::new(TH(art)), key, nom: true, want: None })
                }
                Op::Set(i, v) => { if nom_arts.is_empty() { return None } let (a, key) = nom_arts[*i as usize % nom_arts.len()].clone(); if let Some((true, c)) = cont.get_mut(&key) { engine::set(&a, *v); *c = *v; out.stats.edits += 1 } None }
                Op::SCell(_, _, va) | Op::SThunk(_, _, va, _) | Op::NThunk(_, _, _, va) => {
                    let no: Vec<u8> = vec![];
                    let p = match op { Op::SCell(p, ..) | Op::SThunk(p, ..) => p, _ => &no };
                    let naive = if let Op::NThunk(k, i, ..) = op { Some((*k, *i as usize % nm.len())) } else { None };
                    let (pn, pc) = path_of(p); let cell = matches!(op, Op::SCell(..));
                    let (tag, c, b, nmi) = match op { Op::SCell(_, n, _) => ("cell", 0, false, *n as usize % k), Op::SThunk(_, c, _, b) => ("thunk", *c, *b, 0), Op::NThunk(_, _, c, _) => ("naive", *c, false, 0), _ => unreachable!() };
                    macro_rules! go { ($ty:expr, $v:expr, $canon:expr) => {{ let v = $v; let dbg = format!("{:?}", v); let want = if cell { Some(dbg.clone()) } else { Some(format!("{:?}", format!("{}{}", PT[c as usize], dbg))) };
                        if let Some((kind, i)) = naive { let id = if kind == 3 { format!("value:{}", want.clone().unwrap()) } else { format!("naive{}:{}:{}:{}:{}", kind, if kind == 1 { &canon[i] } else { "" }, c, $ty, $canon) }; (nthunk(kind, nm[i].clone(), c, v), id, want) } else {
                        let h = if cell { scell(&pn, nm[nmi].clone(), v) } else { sthunk(&pn, c, b, v) }; (h, format!("{}{}:{}:{}", tag, c, $ty, $canon), want) } }} }
                    let n_ = |x: u8| nm[x as usize % k].clone(); let c_ = |x: u8| canon[x as usize % k].clone();
                    let (h, id, want) = match va {
                        Va::I(x) => go!("i64", *x, x), Va::U(x) => go!("usize", *x, x), Va::S(x) => go!("string", STR[*x as usize].to_string(), x), Va::Nm(x) => go!("name", n_(*x), c_(*x)), Va::Two(x, y) => go!("names2", (n_(*x), n_(*y)), format!("{} {}", c_(*x), c_(*y))),
                        Va::Vn(v) => go!("names", v.iter().map(|x| n_(*x)).collect::<Vec<_>>(), v.iter().map(|x| c_(*x)).collect::<Vec<_>>().join(" ")), Va::Vi(v) => go!("ints", v.clone(), format!("{:?}", v)), Va::Unit => go!("unit", (), ""),
                        Va::Ar(x) => { if nom_arts.is_empty() { return None } let (a, k) = nom_arts[*x as usize % nom_arts.len()].clone(); go!("art", a, format!("{:?}", k)) }
                    };
                    let key = Ky { path: pc, id }; if naive.is_none() { skeys.insert(key.clone()); }
                    // debug forms of hash names do not tell them apart, and contents of articulations show in them
                    Some(Hd { h, key, nom: false, want: if let Va::Ar(_) = va { None } else { want } })
                }
            }
        }));
        match r {
            Err(e) => { viol(Class::Panic, format!("{:?} panicked: {:?}", op, classify(e))); break 'ops }
            Ok(None) => {}
            Ok(Some(hd)) => {
                for o in &hs {
                    if hd.nom == o.nom || hd.h.same(&*o.h).is_some() {
                        if let Some(same) = hd.h.same(&*o.h) {
                            let want = if hd.key == o.key && hd.nom == o.nom { Some(true) } else if !hd.nom && !o.nom && hd.key.id == o.key.id { None } else { Some(false) };
                            eqs += 1;
                            if want.map(|w| w != same).unwrap_or(false) { viol(Class::Identity, format!("articulations {:?} and {:?} compare {}", hd.key, o.key, same)) }
                            if want == Some(true) && hd.h.hash() != o.h.hash() { viol(Class::Identity, format!("articulation {:?} hashes in two ways", hd.key)) }
                        }
                    }
                }
                hs.push(hd);
            }
        }
        for hd in &hs {
            out.stats.demands += 1;
            match catch_unwind(AssertUnwindSafe(|| hd.h.read())) {
                Err(e) => { viol(Class::Panic, format!("reading {:?} panicked: {:?}", hd.key, classify(e))); break 'ops }
                Ok(got) => { let want = if hd.nom { Some(format!("{}", cont[&hd.key].1)) } else { hd.want.clone() }; if let Some(w) = want { if got != w { viol(Class::Value, format!("{:?} holds {}, expected {}", hd.key, got, w)) } } got.hash(&mut h) }
            }
        }
        out.digest.push((0, format!("{:?} {}", op, h.finish()))); out.states.push(h.finish());
    }
    if viols.is_empty() {
        match reflect_now() {
            Err(e) => viols.push(Viol { class: Class::State, op: n.ops.len(), msg: e }),
            Ok(d) => {
                out.stats.reflects += 1;
                for (c, m) in well_formed(&d, false) { viols.push(Viol { class: c, op: n.ops.len(), msg: m }) }
                // the table has exactly the nodes that were named, where they were named
                let mut want = 0; let back: HashMap<Name, String> = nm.iter().cloned().zip(canon.iter().cloned()).collect();
                for key in cont.keys().chain(extra.iter()) {
                    want += 1;
                    let hit = d.table.keys().any(|l| l.path.len() == key.path.len() && l.path.iter().zip(&key.path).all(|(a, b)| back.get(a) == Some(b)) && (back.get(&l.name) == Some(&key.id) || l.name == engine::name_of_string(key.id.clone())));
                    if !hit { viols.push(Viol { class: Class::Identity, op: n.ops.len(), msg: format!("no node at {:?}", key) }) }
                }
                if viols.is_empty() && d.table.len() < want { viols.push(Viol { class: Class::Identity, op: n.ops.len(), msg: format!("{} nodes for {} names", d.table.len(), want) }) }
                if viols.is_empty() && d.table.len() > want + skeys.len() { viols.push(Viol { class: Class::Identity, op: n.ops.len(), msg: format!("{} nodes for {} names and {} structural keys", d.table.len(), want, skeys.len()) }) }
            }
        }
    }
    // every pair of names as (part of) an argument, as a namespace, and as a name
    if viols.is_empty() {
        let at = |f: &dyn Fn(usize) -> Rc<dyn Hnd>| -> Vec<Rc<dyn Hnd>> { (0..k).map(|i| f(i)).collect() };
        let groups: Vec<(&str, Vec<Rc<dyn Hnd>>)> = match catch_unwind(AssertUnwindSafe(|| vec![
            ("structural thunks of", at(&|i| sthunk(&[], 0, i % 2 == 0, nm[i].clone()))),
            ("structural thunks of a list with", at(&|i| sthunk(&[], 1, i % 2 == 0, vec![nm[0].clone(), nm2[i].clone()]))),
            ("structural cells of", at(&|i| scell(&[], nm[(i + 1) % k].clone(), Some(nm[i].clone())))),
            ("cells in namespaces", at(&|i| in_path(&[nm[i].clone()], Box::new(|| Rc::new(TH(engine::cell(engine::name_of_str("swept"), 0i64))) as Rc<dyn Hnd>)))),
            ("structural thunks in namespaces", at(&|i| sthunk(&[nm[i].clone()], 2, i % 2 == 0, 1u8))),
            ("cells in a namespace at", at(&|i| in_path(&[engine::name_of_str("sweep")], Box::new(|| Rc::new(TH(engine::cell(nm[i].clone(), 0i64))) as Rc<dyn Hnd>)))),
        ])) { Ok(g) => g, Err(e) => { viols.push(Viol { class: Class::Panic, op: n.ops.len(), msg: format!("allocating for every name panicked: {:?}", classify(e)) }); vec![] } };
        for (what, g) in &groups { for i in 0..g.len() { for j in 0..=i {
            eqs += 1;
            // where a structural articulation was made is not promised to tell it from others
            if *what == "structural thunks in namespaces" && canon[i] != canon[j] { continue }
            if g[i].same(&*g[j]) != Some(canon[i] == canon[j]) && viols.len() < 10 { viols.push(Viol { class: Class::Identity, op: n.ops.len(), msg: format!("{} {} and {} compare {}", what, canon[i], canon[j], canon[i] != canon[j]) }) }
        } } }
    }
    out.viols = viols; out.stats.steps = pairs + eqs;
    out.extra.push(("name_pairs_compared", pairs)); out.extra.push(("articulation_pairs_compared", eqs)); out.extra.push(("locations_overwritten", over));
    out.nontrivial = hs.len() > 1 && pairs > 3;
    install(None);
    let _ = manage::use_engine(Engine::Naive);
    out
}

// ---- generation ----
fn leaf(r: &mut Rng) -> Tm { let x = [0usize, 1, 2, 63, usize::MAX][r.below(5)]; match r.below(7) { 0 => Unit, 1 | 2 => U(x), 3 => I(if r.chance(30) { -1 } else { x as isize }), 4 => S(r.below(9) as u8), 5 => St(r.below(9) as u8), _ => H(if r.chance(30) { h_of(&U_(1)) } else { x as u64 }) } }
#[derive(Hash)]
struct U_(usize);
fn term(r: &mut Rng, d: usize) -> Tm {
    if d == 0 || r.chance(30) { return leaf(r) }
    let a = Box::new(term(r, d - 1));
    match r.below(6) { 0 | 1 => P(a, Box::new(term(r, d - 1))), 2 | 3 => F(r.below(2) as u8, a), 4 => F3(r.below(3) as u8, a), _ => F4(r.below(4) as u8, a) }
}
/// A term close to `t`: one constructor or datum changed, or wrapped, or unwrapped.
fn near(r: &mut Rng, t: &Tm) -> Tm {
    if r.chance(25) { return match r.below(5) { 0 => F(r.below(2) as u8, Box::new(t.clone())), 1 => P(Box::new(Unit), Box::new(t.clone())), 2 => P(Box::new(t.clone()), Box::new(Unit)), 3 => F3(r.below(3) as u8, Box::new(t.clone())), _ => P(Box::new(t.clone()), Box::new(t.clone())) } }
    match t {
        U(x) => match r.below(3) { 0 => I(*x as isize), 1 => H(*x as u64), _ => U(x.wrapping_add(1)) }, I(x) => match r.below(3) { 0 => U(*x as usize), 1 => H(*x as u64), _ => I(x.wrapping_neg()) }, H(x) => U(*x as usize), Unit => H(0), S(x) => if r.chance(50) { St(*x) } else { S((x + 1) % 9) }, St(x) => S(*x),
        P(a, b) => match r.below(4) { 0 => P(b.clone(), a.clone()), 1 => P(Box::new(near(r, a)), b.clone()), 2 => P(a.clone(), Box::new(near(r, b))), _ => match &**a { P(x, y) => P(x.clone(), Box::new(P(y.clone(), b.clone()))), _ => (**b).clone() } },
        F(k, a) => match r.below(4) { 0 => F(1 - k, a.clone()), 1 => F(*k, Box::new(near(r, a))), 2 => F3(*k, a.clone()), _ => (**a).clone() },
        F3(k, a) => match r.below(3) { 0 => F3((k + 1) % 3, a.clone()), 1 => F4(*k, a.clone()), _ => F3(*k, Box::new(near(r, a))) },
        F4(k, a) => match r.below(3) { 0 => F4((k + 1) % 4, a.clone()), 1 => F3(k % 3, a.clone()), _ => F4(*k, Box::new(near(r, a))) },
    }
}
pub fn gen(r: &mut Rng) -> Sx {
    let mut terms: Vec<Tm> = vec![];
    let nt = r.range(2, 9); let d = r.range(0, 4);
    while terms.len() < nt { let t = if terms.is_empty() || r.chance(35) { term(r, d) } else { let t = r.pick(&terms).clone(); if r.chance(15) { t } else { near(r, &t) } }; terms.push(t) }
    let path = |r: &mut Rng| -> Vec<u8> { (0..[0, 0, 1, 1, 2, 3][r.below(6)]).map(|_| r.below(nt) as u8).collect() };
    let small = |r: &mut Rng| r.below(4) as i64 - 1;
    let val = |r: &mut Rng| -> Va { let n = |r: &mut Rng| r.below(nt) as u8; match r.below(10) { 0 => Va::I(small(r)), 1 => Va::U(r.below(3)), 2 => Va::S(r.below(9) as u8), 3 | 4 => Va::Nm(n(r)), 5 => Va::Two(n(r), n(r)), 6 => Va::Vn((0..r.below(4)).map(|_| n(r)).collect()), 7 => Va::Vi((0..r.below(4)).map(|_| small(r)).collect()), 8 => Va::Ar(r.below(8) as u8), _ => Va::Unit } };
    let ops = (0..r.range(2, 16)).map(|_| match r.weighted(&[30, 16, 10, 14, 20, 16]) {
        0 => Op::Cell(path(r), r.below(nt) as u8, small(r), r.below(4) as u8), 1 => Op::Thunk(path(r), r.below(nt) as u8, small(r), r.below(4) as u8), 2 => Op::Set(r.below(16) as u8, small(r)), 3 => Op::SCell(path(r), r.below(nt) as u8, val(r)), 5 => Op::NThunk(r.below(4) as u8, r.below(nt) as u8, r.below(2) as u8, val(r)), _ => Op::SThunk(path(r), r.below(3) as u8, val(r), r.chance(50)),
    }).collect();
    Nms { terms, ops }.to_sx()
}
