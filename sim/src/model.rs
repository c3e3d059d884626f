//! The from-scratch reference: evaluates the same program over plain maps,
//! with no engine, no dependency graph and no reuse across demands.
use crate::prog::*;
use std::collections::HashMap;
use std::rc::Rc;

pub type Path = Rc<Vec<NameC>>;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct ArgM { pub head: Head, pub args: Vec<MVal> }
/// Identity of an articulation.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Key { Nom(Path, NameC), StrT(Path, Rc<ArgM>), StrC(Path, MVal), Rc(MVal), Map(Rc<Key>, u8), Naive(Rc<ArgM>) }
impl Key {
    /// Does the engine keep a graph node for it?
    pub fn tracked(&self) -> bool { matches!(self, Key::Nom(..) | Key::StrT(..) | Key::StrC(..)) }
    pub fn structural(&self) -> bool { matches!(self, Key::StrT(..) | Key::StrC(..)) }
    pub fn show(&self) -> String {
        let p = |p: &Path| p.iter().map(show_name).collect::<Vec<_>>().join("/");
        match self {
            Key::Nom(q, n) => format!("{}:{}", p(q), show_name(n)),
            Key::StrT(q, a) => format!("{}:structural-thunk[def {} {}]", p(q), a.head.def, a.args.iter().map(|v| v.show()).collect::<Vec<_>>().join(" ")),
            Key::StrC(q, v) => format!("{}:structural-cell[{}]", p(q), v.show()), Key::Rc(v) => format!("put[{}]", v.show()),
            Key::Map(k, m) => format!("map{}[{}]", m, k.show()), Key::Naive(a) => format!("naive[def {}]", a.head.def),
        }
    }
}
pub fn show_name(n: &NameC) -> String {
    match n { NameC::Unit => "()".into(), NameC::U(u) => format!("u{}", u), NameC::I(i) => format!("i{}", i), NameC::S(s) => s.clone(),
              NameC::P(a, b) => format!("<{}.{}>", show_name(a), show_name(b)), NameC::L(a) => format!("L{}", show_name(a)), NameC::R(a) => format!("R{}", show_name(a)) }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum MVal { N, I(i64), T(Rc<Vec<MVal>>), A(Rc<Key>), Nm(NameC) }
impl MVal {
    pub fn show(&self) -> String {
        match self { MVal::N => "n".into(), MVal::I(i) => i.to_string(), MVal::T(v) => format!("({})", v.iter().map(|x| x.show()).collect::<Vec<_>>().join(" ")),
                     MVal::A(k) => format!("@{}", k.show()), MVal::Nm(n) => show_name(n) }
    }
}
impl ValT for MVal {
    fn i(n: i64) -> Self { MVal::I(n) }
    fn n() -> Self { MVal::N }
    fn t(v: Vec<Self>) -> Self { MVal::T(Rc::new(v)) }
    fn int(&self) -> i64 { match self { MVal::N => 0, MVal::I(i) => *i, MVal::T(v) => int_tup(v.iter().map(|x| x.int())), MVal::A(_) => 7, MVal::Nm(n) => name_int(n) } }
    fn proj(&self, k: usize) -> Self { match self { MVal::T(v) => v.get(k).cloned().unwrap_or(MVal::N), x if k == 0 => x.clone(), _ => MVal::N } }
    fn is_art(&self) -> bool { matches!(self, MVal::A(_)) }
    fn view(&self) -> View<Self> { match self { MVal::N => View::N, MVal::I(i) => View::I(*i), MVal::T(v) => View::T(v.to_vec()), MVal::A(_) => View::A, MVal::Nm(n) => View::Nm(n.clone()) } }
}
/// What one body observed and allocated, in order.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Obs { Full(Rc<Key>, MVal), Mapped(Rc<Key>, u8, MVal), Abs(Rc<Key>, u8, MVal) }
impl Obs { pub fn key(&self) -> &Rc<Key> { match self { Obs::Full(k, _) | Obs::Mapped(k, _, _) | Obs::Abs(k, _, _) => k } } }
#[derive(Clone, Default, Debug)]
pub struct MTrace { pub obs: Vec<Obs>, pub allocs: Vec<Rc<Key>>, pub res: Option<MVal> }

#[derive(Clone, PartialEq, Debug)]
pub enum RootSt { Thunk(u8, Vec<i64>), Cell(i64) }
/// What the editor has put in place so far.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct EdState { pub inputs: Vec<MVal>, pub ptrs: Vec<u8>, pub roots: Vec<RootSt> }

pub fn top() -> Path { Rc::new(vec![]) }
pub fn in_key(k: u8) -> Rc<Key> { Rc::new(Key::Nom(top(), in_name(k))) }
pub fn ptr_key(k: u8) -> Rc<Key> { Rc::new(Key::Nom(top(), ptr_name(k))) }
pub fn root_key(k: u8) -> Rc<Key> { Rc::new(Key::Nom(top(), root_name(k))) }
pub fn root_arg(k: u8, d: u8, a: &[i64]) -> ArgM { ArgM { head: Head { def: d, nm: Some(Rc::new(root_name(k))), how: TMode::Nom }, args: a.iter().map(|x| MVal::I(wrap(*x))).collect() } }

#[derive(Clone, Debug)]
pub enum Cont { Cell(MVal), Comp(Rc<ArgM>) }
/// One from-scratch session: a demand and the look into its result.
pub struct Sess {
    pub prog: Rc<Prog>, pub store: HashMap<Rc<Key>, Cont>, pub res: HashMap<Rc<Key>, R<MVal>>,
    pub traces: HashMap<Rc<Key>, MTrace>, frames: Vec<(Rc<Key>, MTrace)>, path: Path, pub steps: usize, tab: (usize, usize, usize),
    /// The naive engine runs the body of an eager thunk only when it is forced.
    pub lazy_eager: bool,
}
pub const MODEL_STEPS: usize = 6000;
impl Sess {
    pub fn new(prog: &Rc<Prog>, ed: &EdState) -> Sess {
        let mut store = HashMap::new();
        for (k, v) in ed.inputs.iter().enumerate() { store.insert(in_key(k as u8), Cont::Cell(v.clone())); }
        for (k, r) in ed.ptrs.iter().enumerate() { store.insert(ptr_key(k as u8), Cont::Cell(MVal::A(root_key(*r)))); }
        for (k, r) in ed.roots.iter().enumerate() {
            store.insert(root_key(k as u8), match r { RootSt::Cell(x) => Cont::Cell(MVal::I(*x)), RootSt::Thunk(d, a) => Cont::Comp(Rc::new(root_arg(k as u8, *d, a))) });
        }
        Sess { prog: prog.clone(), store, res: HashMap::new(), traces: HashMap::new(), frames: vec![], path: top(), steps: 0, tab: (ed.inputs.len(), ed.ptrs.len(), ed.roots.len()), lazy_eager: false }
    }
    pub fn put_store(&mut self, k: Rc<Key>, c: Cont) -> R<()> {
        let same = match (self.store.get(&k), &c) {
            (None, _) => true,
            (Some(Cont::Cell(a)), Cont::Cell(b)) => a == b,
            (Some(Cont::Comp(a)), Cont::Comp(b)) => a == b,
            _ => false,
        };
        if !same { return Err(Stop::Discipline(format!("two contents for {}", k.show()))) }
        self.store.insert(k, c); Ok(())
    }
    fn obs(&mut self, o: Obs) { if let Some(f) = self.frames.last_mut() { f.1.obs.push(o) } }
    fn comp(&mut self, k: &Rc<Key>, a: &Rc<ArgM>, path: &Path) -> R<MVal> {
        if let Some(r) = self.res.get(k) { return r.clone() }
        if self.frames.iter().any(|f| f.0 == *k) { return Err(Stop::Discipline("cycle".into())) }
        if self.frames.len() > 60 { return Err(Stop::Budget) }
        let saved = std::mem::replace(&mut self.path, path.clone());
        self.frames.push((k.clone(), MTrace::default()));
        let prog = self.prog.clone();
        let r = run_def(self, &prog, &a.head, a.args.clone());
        let (_, mut t) = self.frames.pop().unwrap();
        self.path = saved;
        if let Ok(v) = &r { t.res = Some(v.clone()) }
        self.traces.insert(k.clone(), t);
        self.res.insert(k.clone(), r.clone());
        r
    }
    pub fn force_key(&mut self, k: &Rc<Key>) -> R<MVal> {
        match &**k {
            Key::Nom(p, _) => match self.store.get(k).cloned() {
                None => Err(Stop::Discipline(format!("dangling {}", k.show()))),
                Some(Cont::Cell(v)) => { self.obs(Obs::Full(k.clone(), v.clone())); Ok(v) }
                Some(Cont::Comp(a)) => { let v = self.comp(k, &a, p)?; self.obs(Obs::Full(k.clone(), v.clone())); Ok(v) }
            },
            Key::StrT(p, a) => { let v = self.comp(k, a, p)?; self.obs(Obs::Full(k.clone(), v.clone())); Ok(v) }
            Key::StrC(_, v) => { self.obs(Obs::Full(k.clone(), v.clone())); Ok(v.clone()) }
            Key::Rc(v) => Ok(v.clone()),
            Key::Map(k2, m) => { let v = self.force_key(k2)?; mapped(*m, &v) }
            Key::Naive(a) => { let prog = self.prog.clone(); if self.frames.len() > 60 { return Err(Stop::Budget) } run_def(self, &prog, &a.head, a.args.clone()) }
        }
    }
    fn cell_of(&self, k: &Rc<Key>) -> Option<MVal> { match &**k { Key::Nom(..) => match self.store.get(k) { Some(Cont::Cell(v)) => Some(v.clone()), _ => None }, Key::StrC(_, v) => Some(v.clone()), _ => None } }
    pub fn in_ns<T>(&mut self, nm: NameC, f: impl FnOnce(&mut Self) -> T) -> T {
        let saved = self.path.clone(); let mut p = (*saved).clone(); p.push(nm); self.path = Rc::new(p);
        let r = f(self); self.path = saved; r
    }
    pub fn cur_path(&self) -> Path { self.path.clone() }
}
fn mapped(m: u8, v: &MVal) -> R<MVal> { if map_stops(m, v) { Err(Stop::Organic(200)) } else { Ok(apply_map(m, v)) } }
fn key_of(v: &MVal) -> Rc<Key> { match v { MVal::A(k) => k.clone(), _ => unreachable!() } }
impl Be for Sess {
    type V = MVal;
    fn name_val(&mut self, c: NameC) -> MVal { MVal::Nm(c) }
    fn table(&mut self, a: ARef) -> Option<MVal> {
        match a { ARef::In(k) if (k as usize) < self.tab.0 => Some(MVal::A(in_key(k))), ARef::Ptr(k) if (k as usize) < self.tab.1 => Some(MVal::A(ptr_key(k))),
                  ARef::Root(k) if (k as usize) < self.tab.2 => Some(MVal::A(root_key(k))), _ => None }
    }
    fn step(&mut self) -> R<()> { self.steps += 1; if self.steps > MODEL_STEPS { Err(Stop::Budget) } else { Ok(()) } }
    fn force(&mut self, v: &MVal) -> R<MVal> { self.force_key(&key_of(v)) }
    fn force_cyc(&mut self, v: &MVal, _: MVal) -> R<MVal> { self.force_key(&key_of(v)) }
    fn force_map(&mut self, v: &MVal, m: u8) -> R<MVal> {
        let k = key_of(v);
        match self.cell_of(&k) { Some(c) => { let r = mapped(m, &c)?; self.obs(Obs::Mapped(k, m, r.clone())); Ok(r) } None => { let c = self.force_key(&k)?; mapped(m, &c) } }
    }
    fn force_abs(&mut self, v: &MVal, m: u8) -> R<MVal> {
        let k = key_of(v);
        match self.cell_of(&k) { Some(c) => { let r = apply_abs(m, &c); self.obs(Obs::Abs(k, m, r.clone())); Ok(r) } None => { let c = self.force_key(&k)?; Ok(apply_abs(m, &c)) } }
    }
    fn cell(&mut self, structural: bool, nm: NameC, v: MVal) -> R<MVal> {
        let k = Rc::new(if structural { Key::StrC(self.path.clone(), v.clone()) } else { Key::Nom(self.path.clone(), nm) });
        if !structural { self.put_store(k.clone(), Cont::Cell(v))? }
        if let Some(f) = self.frames.last_mut() { f.1.allocs.push(k.clone()) }
        Ok(MVal::A(k))
    }
    fn put(&mut self, v: MVal) -> MVal { MVal::A(Rc::new(Key::Rc(v))) }
    fn thunk(&mut self, nm: Option<NameC>, head: Head, args: Vec<MVal>) -> R<MVal> {
        match head.how {
            TMode::Eager if self.lazy_eager => Ok(MVal::A(Rc::new(Key::Naive(Rc::new(ArgM { head, args }))))),
            TMode::Eager => { let prog = self.prog.clone(); let v = run_def(self, &prog, &head, args)?; Ok(MVal::A(Rc::new(Key::Rc(v)))) }
            TMode::Naive => Ok(MVal::A(Rc::new(Key::Naive(Rc::new(ArgM { head, args }))))),
            how => {
                let a = Rc::new(ArgM { head, args });
                let k = Rc::new(if matches!(how, TMode::Nom | TMode::Fam) { Key::Nom(self.path.clone(), nm.unwrap()) } else { Key::StrT(self.path.clone(), a.clone()) });
                if !k.structural() { self.put_store(k.clone(), Cont::Comp(a))? }
                if let Some(f) = self.frames.last_mut() { f.1.allocs.push(k.clone()) }
                Ok(MVal::A(k))
            }
        }
    }
    fn tmap(&mut self, v: &MVal, m: u8) -> MVal { MVal::A(Rc::new(Key::Map(key_of(v), m))) }
    fn ns<F: FnOnce(&mut Self) -> R<()>>(&mut self, nm: NameC, f: F) -> R<()> { self.in_ns(nm, f) }
    fn organic(&mut self, def: u8) -> Stop { Stop::Organic(def) }
    fn clash(&mut self, _: NameC, _: u8) {}
}
