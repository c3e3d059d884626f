//! Programs written with the library's macros, every form of them, over an
//! editable expression tree whose nodes say which form evaluates them.
use crate::graph::{reflect_now, well_formed};
use crate::prog::Prog;
use crate::real::{classify, install, Class, Ctx, Fail, InjectedPanic, Mode, Viol};
use crate::rng::Rng;
use crate::run::Outcome;
use crate::sx;
use crate::sx::{PResult, Sx};
use adapton::engine::*;
use adapton::macros::*;
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

#[derive(Clone, PartialEq, Debug)]
pub enum Ex { K(i64), In(u8), Op { id: u8, tpl: u8, f: u8, l: Box<Ex>, r: Box<Ex> } }
/// The same with the input cells in place, as programs see it.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum RX { K(i64), In(Art<i64>), Op(u8, u8, u8, Box<RX>, Box<RX>) }
#[derive(Clone, PartialEq, Debug)]
pub enum MOp { Set(u8, i64), Func(u8, u8), Form(u8, u8), Swap(u8), Leaf(u8, Ex), Demand(u8, Option<u32>), Clash(u8, u8, i64, bool) }
#[derive(Clone, PartialEq, Debug)]
pub struct Macs { pub mode: u8, pub ins: Vec<i64>, pub tree: Ex, pub ops: Vec<MOp> }
const FORMS: u8 = 32;

#[derive(Default)]
struct S { steps: u32, runs: u64, fault: Option<u32>, fired: u64, bad: Vec<String> }
thread_local!(static ST: RefCell<S> = RefCell::new(S::default()));
thread_local!(static STRUCT: Cell<bool> = Cell::new(false));
fn tick() {
    crate::threads::point();
    let fire = ST.with(|s| { let s = &mut *s.borrow_mut(); s.steps += 1; s.runs += 1; if s.fault == Some(s.steps) { s.fault = None; s.fired += 1; true } else { false } });
    if fire { panic_any(InjectedPanic) }
}
fn same(form: u8, a: i64, b: i64) -> i64 { if a != b { ST.with(|s| s.borrow_mut().bad.push(format!("form {}: the articulation holds {} but its result was {}", form, b, a))) } a }
fn op(f: u8, a: i64, b: i64) -> i64 { let v = match f % 6 { 0 => a + b, 1 => a - b, 2 => a.max(b), 3 => a * 3 + b * 7, 4 => if a > 0 { b } else { -b }, _ => a * b }; v.rem_euclid(10_007) - 5000 }
fn opf(f: u8) -> Rc<dyn Fn(i64, i64) -> i64> { Rc::new(move |a, b| op(f, a, b)) }
fn pure_ev(e: &Ex, ins: &[i64]) -> i64 { match e { Ex::K(k) => *k, Ex::In(i) => ins[*i as usize % ins.len()], Ex::Op { tpl, f, l, r, .. } if flipped(*tpl % FORMS) => op(*f, pure_ev(r, ins), pure_ev(l, ins)), Ex::Op { f, l, r, .. } => op(*f, pure_ev(l, ins), pure_ev(r, ins)) } }
/// The operator at a node; the only user code that counts as a step.
fn bin(f: u8, l: RX, r: RX) -> i64 { tick(); let (a, b) = (ev(l), ev(r)); op(f, a, b) }
fn sp(f: u8, l: RX, r: RX, g: Rc<dyn Fn(i64, i64) -> i64>) -> i64 { tick(); let _ = f; let (a, b) = (ev(l), ev(r)); g(a, b) }
/// The same types, other code: only the program point tells a structural thunk of one from the other.
fn bin2(f: u8, l: RX, r: RX) -> i64 { tick(); let (a, b) = (ev(l), ev(r)); op(f, b, a) }
fn sp2(f: u8, l: RX, r: RX, g: Rc<dyn Fn(i64, i64) -> i64>) -> i64 { tick(); let _ = f; let (a, b) = (ev(l), ev(r)); g(b, a) }
fn flipped(form: u8) -> bool { form >= 28 }
fn eqv<T: PartialEq + std::fmt::Debug>(form: u8, a: &T, b: &T) { if a != b { ST.with(|s| s.borrow_mut().bad.push(format!("form {}: {:?} should be {:?}", form, a, b))) } }
fn gbin<T: 'static>(f: u8, l: RX, r: RX) -> i64 { bin(f, l, r) }
fn gsp<T: 'static>(f: u8, l: RX, r: RX, g: Rc<dyn Fn(i64, i64) -> i64>) -> i64 { sp(f, l, r, g) }
/// A node's three parts behind a named cell, for the forms whose thunks take no arguments.
fn held(n: &Name, f: u8, l: RX, r: RX) -> Art<(u8, RX, RX)> { cell(name_pair(n.clone(), name_of_str("held")), (f, l, r)) }
fn bin3(x: (u8, RX, RX)) -> i64 { bin(x.0, x.1, x.2) }
fn ev(e: RX) -> i64 {
    let (id, form, f, l, r) = match e { RX::K(k) => return k, RX::In(a) => return get!(a), RX::Op(id, form, f, l, r) => (id, form % FORMS, f, *l, *r) };
    // one name per node and form: different code under one name is a clash
    let n = name_pair(name_of_usize(id as usize), name_of_usize(form as usize));
    // arguments behind `;;` must follow from the name: they are never updated
    let n = if let 8..=11 | 31 = form { name_pair(n, name_of_usize(f as usize)) } else { n };
    // a structural thunk is known by its code and arguments, not by what it captures
    let form = if STRUCT.with(|s| s.get()) && matches!(form, 17 | 19 | 23 | 26) { 0 } else { form };
    match form {
        0 => memo!(n =>> bin, f:f, l:l, r:r),
        1 => { let (t, x) = memo!([Some(n)]? bin; f:f, l:l, r:r); same(1, x, get!(t)) }
        2 => { let (t, x) = memo!([None]? bin; f:f, l:l, r:r); same(2, x, get!(t)) }
        3 => get!(thunk!([Some(n)]? bin; f:f, l:l, r:r)),
        4 => { let t: Art<i64> = thunk!(n =>> bin, f:f, l:l, r:r); let x = get!(t); same(4, x, get!(t)) }
        5 => { let (t, x) = eager!(n =>> bin, f:f, l:l, r:r); same(5, x, force(&t)) }
        6 => { let (t, x) = eager!(n =>> gbin::<i64>, f:f, l:l, r:r); same(6, x, force(&t)) }
        7 => { let (t, x) = eager!(gbin::<i64>, f:f, l:l, r:r); same(7, x, force(&t)) }
        8 => memo!(n =>> sp, f:f, l:l, r:r ;; g:opf(f)),
        9 => { let (t, x) = memo!([Some(n)]? sp; f:f, l:l, r:r ;; g:opf(f)); same(9, x, get!(t)) }
        10 => get!(thunk!([Some(n)]? sp; f:f, l:l, r:r ;; g:opf(f))),
        11 => { let (t, x) = eager!(n =>> gsp =>> <i64>, f:f, l:l, r:r ;; g:opf(f)); same(11, x, force(&t)) }
        12 => { tick(); let (n1, n2) = fork!(n.clone()); eqv(12, &(n1.clone(), n2.clone()), &name_fork(n)); let a = memo!(n1 =>> ev, e:l); let b = memo!(n2 =>> ev, e:r); op(f, a, b) }
        13 => { tick(); let (n1, n2) = forko!(Some(n.clone())); let (m1, m2) = name_fork(n); eqv(13, &(n1.clone(), n2.clone()), &(Some(m1), Some(m2))); let (_, a) = memo!([n1]? ev; e:l); let (_, b) = memo!([n2]? ev; e:r); op(f, a, b) }
        14 => { tick(); let none: Option<Name> = None; let (n1, n2) = forko!(none); eqv(14, &(n1.clone(), n2.clone()), &(None, None)); let (_, a) = memo!([n1]? ev; e:l); let (_, b) = memo!([n2]? ev; e:r); op(f, a, b) }
        15 => { let c = cell_call!(n.clone() =>> bin, f:f, l:l, r:r); let x = get!(c); eqv(15, &c, &cell(n, x)); x }
        16 => get!(cell_call!(n =>> gbin::<i64>, f:f, l:l, r:r)),
        17 => { let h = held(&n, f, l, r); ns(n, || { let_memo!{x =(t)= {let h = h.clone(); bin3(get!(h))}; same(17, x, get!(t))} }) }
        18 => ns(n, || { let_cell!{v = bin(f, l, r); { let x = get!(v); eqv(18, &v, &cell(name_of_str("v"), x)); x }} }),
        19 => { let h = held(&n, f, l, r); ns(n, || { let_thunk!{t = bin3(get!(h)); get!(t)} }) }
        20 => { let c = cell!([Some(n.clone())]? bin(f, l, r)); let x = get!(c); eqv(20, &c, &cell(n, x)); x }
        21 => { let none: Option<Name> = None; let c = cell!([none]? bin(f, l, r)); let x = get!(c); eqv(21, &c, &put(x)); x }
        22 => ns(n, || { let c = cell!([c] bin(f, l, r)); let x = get!(c); eqv(22, &c, &cell(name_of_str("c"), x)); x }),
        23 => { let h = held(&n, f, l, r); get!(thunk![[Some(n)]? bin3(get!(h))]) }
        24 => ns(n, || { let (l2, r2) = (l.clone(), r.clone()); let t: Art<i64> = thunk!([t] bin; f:f, l:l, r:r); let x = get!(t); eqv(24, &t, &thunk!([Some(name_of_str("t"))]? bin; f:f, l:l2, r:r2)); x }),
        25 => { let t: Art<i64> = thunk!([Some(n)]? bin; f:f, l:l, r:r); let x = get!(t, -77777); same(25, x, get!(t)) }
        28 => memo!(n =>> bin2, f:f, l:l, r:r),
        29 => { let (t, x) = eager!(n =>> bin2, f:f, l:l, r:r); same(29, x, force(&t)) }
        30 => { let (t, x) = memo!([Some(n)]? bin2; f:f, l:l, r:r); same(30, x, get!(t)) }
        31 => memo!(n =>> sp2, f:f, l:l, r:r ;; g:opf(f)),
        26 => { tick(); let h = held(&n, f, l, r); ns(n, || { let (hl, hr) = (h.clone(), h.clone()); let_memo!{a =(tl)= ev(get!(hl).1); b =(tr)= ev(get!(hr).2); op(f, same(26, a, get!(tl)), same(26, b, get!(tr)))} }) }
        _ => { tick(); ns(n, || { let_cell!{a = ev(l); b = ev(r); op(f, get!(a), get!(b))} }) }
    }
}
// ---- one name, used in two ways ----
enum H { I(Art<i64>), S(Art<String>) }
impl H { fn read(&self) -> String { match self { H::I(a) => format!("{}", get!(a)), H::S(a) => get!(a) } } fn eq(&self, o: &H) -> bool { match (self, o) { (H::I(a), H::I(b)) => a == b, (H::S(a), H::S(b)) => a == b, _ => false } } }
trait Num { fn num(self) -> i64; }
impl Num for u8 { fn num(self) -> i64 { self as i64 } }
impl Num for i64 { fn num(self) -> i64 { self } }
impl Num for (u8, u8) { fn num(self) -> i64 { self.0 as i64 * 1000 + self.1 as i64 } }
impl Num for Vec<i64> { fn num(self) -> i64 { self.iter().sum() } }
fn one(a: i64) -> i64 { a + 1 }
fn one2(a: i64, b: i64) -> i64 { a * 10 + b }
fn conv<T: Num>(a: T) -> i64 { a.num() }
const USES: u8 = 20;
/// A way to allocate at the name `x`; `v` is between 0 and 9.
fn use_of(k: u8, v: i64) -> H {
    match k {
        0 => H::I(thunk![[x] 1i64 + 2]), 1 => H::I(thunk![[x] 5i64]), 2 => H::I(let_thunk! {x = 7i64; x}), 3 => H::I(thunk!([x] one; a:v)),
        4 => H::I(thunk!([Some(name_of_str("x"))]? one2; a:v, b:2i64)), 5 => H::I(thunk!(name_of_str("x") =>> one2, a:v ;; b:2i64)),
        6 => H::I(thunk!([x] conv; a:v as u8)), 7 => H::I(thunk!([x] conv; a:v)), 8 => H::I(thunk!([x] conv; a:(v as u8, 3u8))), 9 => H::I(thunk!([x] conv; a:vec![v, v])),
        10 => H::I(cell!([x] v)), 11 => H::I(cell(name_of_str("x"), v)), 12 => H::S(cell!([x] format!("s{}", v))), 13 => H::S(thunk![[x] String::from("p")]), 14 => H::I(let_cell! {x = v; x}),
        15 => H::S(let_thunk! {x = String::from("q"); x}), 16 => H::I(eager!(name_of_str("x") =>> one, a:v).0), 17 => H::I(thunk![[Some(name_of_str("x"))]? 1i64 + 2]), 18 => H::I(memo!([Some(name_of_str("x"))]? one2; a:v, b:2i64).0),
        _ => H::S(let_cell! {x = format!("s{}", v); x}),
    }
}
/// What it holds, whether that is text, and which code a thunk has.
fn use_is(k: u8, v: i64) -> (String, bool, Option<&'static str>) {
    match k {
        0 | 17 => ("3".into(), false, Some("1i64 + 2")), 1 => ("5".into(), false, Some("5i64")), 2 => ("7".into(), false, Some("7i64")), 3 | 16 => (format!("{}", v + 1), false, Some("one")),
        4 | 18 => (format!("{}", v * 10 + 2), false, Some("one2")), 5 => (format!("{}", v * 10 + 2), false, Some("one2 with a spurious argument")),
        6 => (format!("{}", v), false, Some("conv of u8")), 7 => (format!("{}", v), false, Some("conv of i64")), 8 => (format!("{}", v * 1000 + 3), false, Some("conv of a pair")), 9 => (format!("{}", v * 2), false, Some("conv of a vector")),
        10 | 11 | 14 => (format!("{}", v), false, None), 13 => ("p".into(), true, Some("p")), 15 => ("q".into(), true, Some("q")), _ => (format!("s{}", v), true, None),
    }
}
/// The first use, then the second at the same name; reports what is wrong.
fn clash(k1: u8, k2: u8, v: i64, inside: bool) -> (bool, Vec<(Class, String)>) {
    let mut bad = vec![];
    let ((w1, t1, c1), (w2, t2, c2)) = (use_is(k1, 1), use_is(k2, v));
    let want = t1 != t2 || c1.is_some() && c2.is_some() && c1 != c2;
    // a thunk may not change what it has read
    if inside && !want { return (want, bad) }
    // whether `eager!` shares a thunk with the other forms is not promised
    if (k1 == 16) != (k2 == 16) && c1 == c2 { return (want, bad) }
    let a = use_of(k1, 1);
    let r = a.read(); if r != w1 { bad.push((Class::Value, format!("use {} holds {}, expected {}", k1, r, w1))) }
    match catch_unwind(AssertUnwindSafe(|| use_of(k2, v))).map_err(classify) {
        Err(Fail::Engine(_)) if want => {}
        Err(f) => bad.push((Class::Panic, format!("use {} after use {} of one name panicked: {:?}", k2, k1, f))),
        Ok(_) if want => bad.push((Class::Clash, format!("use {} after use {} of one name was accepted", k2, k1))),
        Ok(b) => { if !a.eq(&b) { bad.push((Class::Identity, format!("uses {} and {} of one name give different articulations", k1, k2))) } }
    }
    if bad.is_empty() { let r = a.read(); let w = if want { w1 } else { w2 }; if r != w { bad.push((Class::Value, format!("after use {} and {} of one name it holds {}, expected {}", k1, k2, r, w))) } }
    (want, bad)
}
fn gclash(k1: u8, k2: u8, v: i64, inside: bool) -> usize { let (_, bad) = clash(k1, k2, v, inside); let n = bad.len(); CL.with(|c| c.borrow_mut().extend(bad)); n }
thread_local!(static CL: RefCell<Vec<(Class, String)>> = RefCell::new(vec![]));
// ---- scenario text ----
fn ex_sx(e: &Ex) -> Sx { match e { Ex::K(k) => sx!("k", *k), Ex::In(i) => sx!("in", *i), Ex::Op { id, tpl, f, l, r } => sx!("op", *id, *tpl, *f, ex_sx(l), ex_sx(r)) } }
fn ex_p(s: &Sx) -> PResult<Ex> { Ok(match s.head()? { "k" => Ex::K(s.at(1)?.num()?), "in" => Ex::In(s.at(1)?.num()?), "op" => Ex::Op { id: s.at(1)?.num()?, tpl: s.at(2)?.num()?, f: s.at(3)?.num()?, l: Box::new(ex_p(s.at(4)?)?), r: Box::new(ex_p(s.at(5)?)?) }, x => return Err(x.into()) }) }
fn ids(e: &Ex, o: &mut Vec<u8>) { if let Ex::Op { id, l, r, .. } = e { o.push(*id); ids(l, o); ids(r, o) } }
impl Macs {
    pub fn to_sx(&self) -> Sx {
        sx!("macros", self.mode, Sx::L(self.ins.iter().map(|x| Sx::from(*x)).collect()), ex_sx(&self.tree), Sx::L(std::iter::once("ops".into()).chain(self.ops.iter().map(|o| match o {
            MOp::Set(i, v) => sx!("set", *i, *v), MOp::Func(i, f) => sx!("function", *i, *f), MOp::Form(i, f) => sx!("form", *i, *f), MOp::Swap(i) => sx!("swap", *i), MOp::Leaf(i, e) => sx!("leaf", *i, ex_sx(e)), MOp::Clash(a, b, v, i) => sx!("clash", *a, *b, *v, *i as u8), MOp::Demand(h, f) => sx!("demand", *h, Sx::L(f.iter().map(|x| Sx::from(*x)).collect())) })).collect()))
    }
    pub fn from_sx(s: &Sx) -> PResult<Macs> {
        let ops = s.at(4)?.list()?.iter().skip(1).map(|o| Ok(match o.head()? { "set" => MOp::Set(o.at(1)?.num()?, o.at(2)?.num()?), "function" => MOp::Func(o.at(1)?.num()?, o.at(2)?.num()?), "form" => MOp::Form(o.at(1)?.num()?, o.at(2)?.num()?), "swap" => MOp::Swap(o.at(1)?.num()?),
            "clash" => MOp::Clash(o.at(1)?.num::<u8>()? % USES, o.at(2)?.num::<u8>()? % USES, o.at(3)?.num::<i64>()?.rem_euclid(10), o.at(4)?.num::<u8>()? == 1),
            "leaf" => MOp::Leaf(o.at(1)?.num()?, match ex_p(o.at(2)?)? { Ex::Op { .. } => return Err("leaf".into()), e => e }), "demand" => MOp::Demand(o.at(1)?.num()?, match o.at(2)?.list()? { [] => None, [x] => Some(x.num()?), _ => return Err("fault".into()) }), x => return Err(x.into()) })).collect::<PResult<Vec<_>>>()?;
        let m = Macs { mode: s.at(1)?.num()?, ins: s.at(2)?.list()?.iter().map(|x| x.num()).collect::<PResult<_>>()?, tree: ex_p(s.at(3)?)?, ops };
        let mut v = vec![]; ids(&m.tree, &mut v); let n = v.len(); v.sort(); v.dedup();
        if v.len() != n || m.ins.is_empty() || m.mode > 6 { return Err("not a valid scenario".into()) }
        Ok(m)
    }
}
/// Apply `g` to the k-th operator node (modulo their number).
fn at(e: &mut Ex, k: &mut i64, g: &mut dyn FnMut(&mut Ex)) { if let Ex::Op { .. } = e { if *k == 0 { g(e); *k = -1; return } *k -= 1 } if *k < 0 { return } if let Ex::Op { l, r, .. } = e { at(l, k, g); if *k >= 0 { at(r, k, g) } } }
fn at_leaf(e: &mut Ex, k: &mut i64, v: &Ex) { match e { Ex::Op { l, r, .. } => { at_leaf(l, k, v); if *k >= 0 { at_leaf(r, k, v) } } e => { if *k == 0 { *e = v.clone() } *k -= 1 } } }
fn rx(e: &Ex, ins: &[Art<i64>]) -> RX { match e { Ex::K(k) => RX::K(*k), Ex::In(i) => RX::In(ins[*i as usize % ins.len()].clone()), Ex::Op { id, tpl, f, l, r } => RX::Op(*id, *tpl, *f, Box::new(rx(l, ins)), Box::new(rx(r, ins))) } }
fn forms(e: &Ex, o: &mut Vec<u8>) { if let Ex::Op { tpl, l, r, .. } = e { o.push(*tpl % FORMS); forms(l, o); forms(r, o) } }
/// Modes: 0-2 ordinary, 3 no purity, 4 naive, 5 inside a structural block, 6 checking well-formedness.
pub fn run(m: &Macs) -> Outcome {
    install(Some(Ctx::new(Rc::new(Prog::default()), Mode::Structural, 1)));
    ST.with(|s| *s.borrow_mut() = S::default());
    let mut out = Outcome::default();
    STRUCT.with(|s| s.set(m.mode == 5));
    let env = match m.mode { 3 => Some("ADAPTON_NO_PURITY"), 6 => Some("ADAPTON_CHECK_DCG"), _ => None };
    if let Some(k) = env { std::env::set_var(k, "1") }
    if m.mode == 4 { manage::init_naive(); } else { manage::init_dcg(); }
    if let Some(k) = env { std::env::remove_var(k) }
    let fresh_inputs = m.mode == 4 || m.mode == 5;
    let mut ins = m.ins.clone(); let mut tree = m.tree.clone();
    // the editor's own cells come from the name counter
    let cells: Vec<Art<i64>> = ins.iter().map(|v| cell!(*v)).collect();
    let mut nops = { let mut v = vec![]; ids(&tree, &mut v); v.len() as i64 }; if nops == 0 { nops = 1 }
    let mut clean = false; let mut last_held = 9; let mut h = DefaultHasher::new();
    let (mut edits, mut after, mut pend, mut injected) = (0u64, 0u64, false, 0u64);
    for (i, o) in m.ops.iter().enumerate() {
        out.stats.ops += 1; crate::threads::point();
        let mut line = String::new();
        let before = (tree.clone(), ins.clone());
        match o {
            MOp::Set(k, v) => { let k = *k as usize % ins.len(); ins[k] = *v; if !fresh_inputs { if let Err(p) = catch_unwind(AssertUnwindSafe(|| set(&cells[k], *v))) { out.viols.push(Viol { class: Class::Panic, op: i, msg: format!("set panicked: {:?}", classify(p)) }) } } }
            MOp::Func(k, f) => at(&mut tree, &mut (*k as i64 % nops), &mut |e| if let Ex::Op { f: g, .. } = e { *g = *f }),
            MOp::Form(k, t) => at(&mut tree, &mut (*k as i64 % nops), &mut |e| if let Ex::Op { tpl, .. } = e { *tpl = *t }),
            MOp::Swap(k) => at(&mut tree, &mut (*k as i64 % nops), &mut |e| if let Ex::Op { l, r, .. } = e { std::mem::swap(l, r) }),
            MOp::Clash(k1, k2, v, inside) => if m.mode != 4 {
                out.stats.clashes += 1;
                let r = catch_unwind(AssertUnwindSafe(|| ns(name_pair(name_of_str("clash"), name_of_usize(i)), || if *inside { memo!(name_of_str("by") =>> gclash, k1:*k1, k2:*k2, v:*v, inside:true); } else { gclash(*k1, *k2, *v, false); })));
                if let Err(p) = r { out.viols.push(Viol { class: Class::Panic, op: i, msg: format!("using a name twice panicked: {:?}", classify(p)) }) }
                for (c, s) in CL.with(|c| std::mem::take(&mut *c.borrow_mut())) { out.viols.push(Viol { class: c, op: i, msg: s }) }
                match reflect_now() { Ok(d) => { for (cl, s) in well_formed(&d, false) { out.viols.push(Viol { class: cl, op: i, msg: s }) } } Err(e) => out.viols.push(Viol { class: Class::Graph, op: i, msg: e }) }
            },
            MOp::Leaf(k, e) => at_leaf(&mut tree, &mut (*k as i64 % (nops + 1)), e),
            MOp::Demand(how, fault) => {
                out.stats.demands += 1; if pend { after += 1 } pend = false;
                ST.with(|s| { let s = &mut *s.borrow_mut(); s.steps = 0; s.fault = *fault; s.fired = 0; s.bad.clear() });
                let arts: Vec<Art<i64>> = if fresh_inputs { ins.iter().map(|v| put(*v)).collect() } else { cells.clone() };
                let e = rx(&tree, &arts); let how = *how % 3;
                let go = || ns(name_of_str("program"), || match how { 0 => { let (t, x) = memo!([Some(name_of_str("root"))]? ev; e:e); same(100, x, get!(t)) } 1 => memo!(name_of_str("root2") =>> ev, e:e), _ => ev(e) });
                let r = catch_unwind(AssertUnwindSafe(|| if m.mode == 5 { structural(go) } else { go() })).map_err(classify);
                let (steps, fired, bad) = ST.with(|s| { let s = &mut *s.borrow_mut(); s.fault = None; (s.steps, s.fired, std::mem::take(&mut s.bad)) });
                injected += fired;
                for b in bad { out.viols.push(Viol { class: Class::Value, op: i, msg: b }) }
                match r {
                    Err(Fail::Injected) if fired > 0 => { clean = false; line = "injected".into() }
                    Err(f) => { out.viols.push(Viol { class: Class::Panic, op: i, msg: format!("demand panicked: {:?}", f) }); break }
                    Ok(x) => {
                        let w = pure_ev(&tree, &ins); line = format!("{}", x);
                        if x != w { out.viols.push(Viol { class: Class::Value, op: i, msg: format!("got {}, from scratch {}", x, w) }) }
                        let mut v = vec![]; ids(&tree, &mut v);
                        if steps as usize > v.len() && m.mode < 4 { out.viols.push(Viol { class: Class::Twice, op: i, msg: format!("{} node evaluations for {} nodes", steps, v.len()) }) }
                        if clean && how == last_held && how < 2 && m.mode < 4 && steps > 0 { out.viols.push(Viol { class: Class::Reexec, op: i, msg: format!("{} node evaluations although nothing changed", steps) }) }
                        if steps == 0 { out.stats.reuse += 1 }
                        clean = true; last_held = how;
                    }
                }
                if m.mode != 4 && m.mode != 5 && i % 4 == 3 { match reflect_now() { Ok(d) => { for (cl, s) in well_formed(&d, false) { out.viols.push(Viol { class: cl, op: i, msg: s }) } out.stats.reflects += 1 } Err(e) => out.viols.push(Viol { class: Class::Graph, op: i, msg: e }) } }
                steps.hash(&mut h);
            }
        }
        if !matches!(o, MOp::Demand(..) | MOp::Clash(..)) { edits += 1; pend = true; if (tree.clone(), ins.clone()) != before { clean = false } }
        line.hash(&mut h); out.states.push(h.finish()); out.digest.push((0, format!("{:?} {}", o, line)));
    }
    out.stats.edits = edits; out.stats.steps = ST.with(|s| s.borrow().runs); out.stats.injected = injected;
    let mut fs = vec![]; forms(&m.tree, &mut fs); fs.sort(); fs.dedup(); out.extra.push(("macro_forms_in_programs", fs.len() as u64));
    out.nontrivial = edits > 0 && after > 0 && !fs.is_empty();
    install(None);
    let _ = manage::use_engine(Engine::Naive);
    out
}
// ---- generation ----
fn leaf(r: &mut Rng, n: usize) -> Ex { if r.chance(70) { Ex::In(r.below(n) as u8) } else { Ex::K(r.below(9) as i64 - 4) } }
fn tree(r: &mut Rng, n: usize, ops: usize, id: &mut u8, pick: &mut dyn FnMut(&mut Rng) -> u8) -> Ex {
    if ops == 0 { return leaf(r, n) }
    let left = r.below(ops); let me = *id; *id += 1;
    Ex::Op { id: me, tpl: pick(r), f: r.below(6) as u8, l: Box::new(tree(r, n, left, id, pick)), r: Box::new(tree(r, n, ops - 1 - left, id, pick)) }
}
pub fn gen(r: &mut Rng) -> Sx {
    let n = r.range(1, 5); let ops = if r.chance(15) { r.range(6, 16) } else { r.range(1, 7) };
    let mode = [0, 0, 0, 0, 0, 0, 3, 4, 5, 6][r.below(10)];
    // structural thunks of the same arguments, which only their code tells apart
    let some: Vec<u8> = if mode == 5 && r.chance(60) { vec![0, 1, 3, 5, 28, 29, 30] } else { (0..1 + r.below(5)).map(|_| r.below(FORMS as usize) as u8).collect() };
    let wform = if mode == 5 { 30 } else { 6 };
    let wclash = if r.chance(40) { 12 } else { 0 };
    let uniform = r.chance(50);
    let mut pick = |r: &mut Rng| if uniform { r.below(FORMS as usize) as u8 } else { *r.pick(&some) };
    let t = tree(r, n, ops, &mut 0, &mut pick);
    let fault = if r.chance(30) { 20 } else { 0 };
    let hows = if r.chance(60) { r.below(3) as u8 } else { 9 };
    let mut dem = |r: &mut Rng| MOp::Demand(if hows < 3 { hows } else { r.below(3) as u8 }, if r.chance(fault) { Some(r.range(1, 10) as u32) } else { None });
    let mut os = vec![dem(r)];
    for _ in 0..r.range(2, 14) {
        let o = match r.weighted(&[40, 24, 8, wform, 6, 8, wclash]) { 0 => dem(r), 1 => MOp::Set(r.below(n) as u8, r.below(9) as i64 - 4), 2 => MOp::Func(r.below(16) as u8, r.below(6) as u8), 3 => MOp::Form(r.below(16) as u8, pick(r)), 4 => MOp::Swap(r.below(16) as u8), 6 => MOp::Clash(r.below(USES as usize) as u8, r.below(USES as usize) as u8, r.below(10) as i64, r.chance(40)), _ => MOp::Leaf(r.below(16) as u8, leaf(r, n)) };
        os.push(o);
    }
    os.push(dem(r)); os.push(MOp::Demand(0, None)); os.push(MOp::Demand(0, None));
    Macs { mode, ins: (0..n).map(|_| r.below(9) as i64 - 4).collect(), tree: t, ops: os }.to_sx()
}
