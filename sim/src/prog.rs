//! The mini language that thunk bodies are written in, shared by the real
//! engine (real.rs) and the from-scratch reference (model.rs).
use crate::sx;
use crate::sx::{PResult, Sx};
use std::rc::Rc;

pub type Reg = u8;
pub const NREG: usize = 48;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ARef { In(u8), Ptr(u8), Root(u8), Reg(Reg) }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CMode { Nom, Put, SBlk, Pool }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum TMode { Nom, Struct, StructU, SBlk, Eager, Naive, Fam, Pool }
#[derive(Clone, PartialEq, Debug)]
pub enum Op {
    Const(i64), Arg(u8), NameVal(u8), Bin(u8, Reg, Reg), Tup(Vec<Reg>), Proj(Reg, u8),
    Art(ARef), Force(ARef), ForceCyc(ARef, Reg), ForceMap(ARef, u8), ForceAbs(ARef, u8),
    Cell(CMode, u16, Reg), Thunk(TMode, u16, u8, Vec<Reg>), TMap(ARef, u8),
    If(Reg, Vec<Stmt>, Vec<Stmt>), Ns(u16, Vec<Stmt>), Panic(Reg, u8), Clash(u16, u8),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Stmt { pub dst: Reg, pub op: Op }
#[derive(Clone, PartialEq, Debug)]
pub struct Def { pub level: u8, pub body: Vec<Stmt>, pub ret: Reg }

pub const NMAPS: u8 = 8;
pub const NBIN: u8 = 8;
pub const MAXI: i64 = 24;

// ---- names as syntax ----
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum NameC { Unit, U(usize), I(isize), S(String), P(Rc<NameC>, Rc<NameC>), L(Rc<NameC>), R(Rc<NameC>) }
impl NameC {
    pub fn size(&self) -> usize { match self { NameC::P(a, b) => 1 + a.size() + b.size(), NameC::L(a) | NameC::R(a) => 1 + a.size(), _ => 1 } }
}
/// Name of allocation site `site` in a body whose own name is `nm`. Distinct
/// sites and distinct `nm`s give distinct names (see DESIGN: naming discipline).
pub fn child_name(nm: &Rc<NameC>, site: u16) -> NameC {
    match site % 4 {
        0 | 1 => NameC::P(nm.clone(), Rc::new(NameC::U(site as usize))),
        2 => { let mut n = nm.clone(); for _ in 0..(site / 4 % 4) { n = Rc::new(NameC::R(n)) }
               // fork-chains are unique per site because the chain length is; beyond four, pair with the site too
               if site / 16 > 0 { n = Rc::new(NameC::P(Rc::new(NameC::U(site as usize)), n)) }
               NameC::L(n) }
        _ => NameC::P(Rc::new(NameC::S(format!("s{}", site))), nm.clone()),
    }
}
pub fn fam_name(def: u8, n: i64) -> NameC {
    NameC::P(Rc::new(NameC::S("fam".into())), Rc::new(NameC::P(Rc::new(NameC::U(def as usize)), Rc::new(if n % 2 == 0 { NameC::U(n as usize) } else { NameC::I(n as isize) }))))
}
/// Names that belong to no thunk: whichever body runs may hold something there.
pub fn pool_name(k: u16) -> NameC { NameC::P(Rc::new(NameC::S("pool".into())), Rc::new(NameC::U(k as usize % 4))) }
pub fn in_name(k: u8) -> NameC { NameC::P(Rc::new(NameC::S("in".into())), Rc::new(NameC::U(k as usize))) }
pub fn ptr_name(k: u8) -> NameC { NameC::P(Rc::new(NameC::S("ptr".into())), Rc::new(NameC::I(k as isize))) }
pub fn root_name(k: u8) -> NameC { NameC::P(Rc::new(NameC::U(k as usize)), Rc::new(NameC::S("root".into()))) }
pub fn ns_name(nm: &Option<Rc<NameC>>, site: u16) -> NameC {
    match nm { Some(n) if site % 2 == 0 => child_name(n, site), _ => NameC::S(format!("ns{}", site)) }
}
/// Small set of name values with look-alikes (same number or text, different constructor).
pub fn name_val(k: u8) -> NameC {
    match k % 8 { 0 => NameC::U(1), 1 => NameC::I(1), 2 => NameC::S("1".into()), 3 => NameC::Unit,
                  4 => NameC::L(Rc::new(NameC::U(1))), 5 => NameC::R(Rc::new(NameC::U(1))),
                  6 => NameC::L(Rc::new(NameC::I(1))), _ => NameC::P(Rc::new(NameC::U(1)), Rc::new(NameC::I(1))) }
}

// ---- values ----
pub trait ValT: Clone {
    fn i(n: i64) -> Self;
    fn n() -> Self;
    fn t(v: Vec<Self>) -> Self;
    fn int(&self) -> i64;
    fn proj(&self, k: usize) -> Self;
    fn is_art(&self) -> bool;
    fn view(&self) -> View<Self>;
}
pub enum View<V> { N, I(i64), T(Vec<V>), A, Nm(NameC) }
/// Follow the articulations inside a value; both back ends use this, so the
/// two renderings are comparable.
pub fn deep<B: Be>(be: &mut B, v: &B::V, depth: usize, fuel: &mut usize) -> R<String> {
    Ok(match v.view() {
        View::N => "n".into(), View::I(i) => i.to_string(), View::Nm(c) => format!("{:?}", c),
        View::T(vs) => { let mut o = String::from("("); for x in vs.iter() { o.push_str(&deep(be, x, depth, fuel)?); o.push(' ') } o.push(')'); o }
        View::A => { if depth == 0 || *fuel == 0 { return Ok("@".into()) } *fuel -= 1; let x = be.force(v)?; format!("@{}", deep(be, &x, depth - 1, fuel)?) }
    })
}
pub fn wrap(n: i64) -> i64 { n.rem_euclid(MAXI) }
pub fn int_tup(xs: impl Iterator<Item = i64>) -> i64 { let mut h = 3; for x in xs { h = wrap(h * 5 + x + 1) } h }
pub fn name_int(n: &NameC) -> i64 {
    wrap(match n { NameC::Unit => 1, NameC::U(u) => 2 + 7 * *u as i64, NameC::I(i) => 3 + 7 * *i as i64, NameC::S(s) => 4 + 7 * s.len() as i64,
                   NameC::P(a, b) => 5 + 3 * name_int(a) + 5 * name_int(b), NameC::L(a) => 6 + 7 * name_int(a), NameC::R(a) => 11 + 5 * name_int(a) })
}
pub fn apply_map<V: ValT>(m: u8, v: &V) -> V {
    match m % NMAPS {
        0 => v.clone(),
        1 => V::i(v.int() % 2),
        2 => V::i(v.int() / 3),
        3 => V::i(0),
        4 => v.proj(0),
        5 => V::i((v.int() > 2) as i64),
        7 => V::i(v.int() % 4),
        _ => V::t(vec![V::i(v.int() % 3), V::i(9)]),
    }
}
/// Mapping function 7 is partial.
pub fn map_stops<V: ValT>(m: u8, v: &V) -> bool { m % NMAPS == 7 && v.int() % 5 == 3 }
/// The mapping family used with force_abs: member `arg` extracts one digit.
pub fn apply_abs<V: ValT>(arg: u8, v: &V) -> V { V::i((v.int() >> (arg % 4)) & 1) }
pub fn apply_bin<V: ValT>(o: u8, a: &V, b: &V) -> V {
    let (x, y) = (a.int(), b.int());
    match o % NBIN { 0 => V::i(wrap(x + y)), 1 => V::i(wrap(x - y)), 2 => V::i(wrap(x * y)), 3 => V::i((x < y) as i64), 4 => V::i((x == y) as i64),
                     5 => V::i(x.min(y)), 6 => V::i(x.max(y)), _ => V::i(wrap(x % (y + 1))) }
}

// ---- back ends ----
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Stop { Organic(u8), Budget, Discipline(String) }
pub type R<T> = Result<T, Stop>;

/// What a thunk is made of (besides its identity).
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Head { pub def: u8, pub nm: Option<Rc<NameC>>, pub how: TMode }

pub trait Be: Sized {
    type V: ValT;
    fn name_val(&mut self, c: NameC) -> Self::V;
    fn table(&mut self, a: ARef) -> Option<Self::V>;
    fn step(&mut self) -> R<()>;
    fn force(&mut self, v: &Self::V) -> R<Self::V>;
    fn force_cyc(&mut self, v: &Self::V, out: Self::V) -> R<Self::V>;
    fn force_map(&mut self, v: &Self::V, m: u8) -> R<Self::V>;
    fn force_abs(&mut self, v: &Self::V, m: u8) -> R<Self::V>;
    fn cell(&mut self, structural: bool, nm: NameC, v: Self::V) -> R<Self::V>;
    fn put(&mut self, v: Self::V) -> Self::V;
    fn thunk(&mut self, nm: Option<NameC>, head: Head, args: Vec<Self::V>) -> R<Self::V>;
    fn tmap(&mut self, v: &Self::V, m: u8) -> Self::V;
    fn ns<F: FnOnce(&mut Self) -> R<()>>(&mut self, nm: NameC, f: F) -> R<()>;
    fn organic(&mut self, def: u8) -> Stop;
    fn clash(&mut self, nm: NameC, kind: u8);
}
pub struct Env<'a, V> { pub prog: &'a Prog, pub def: u8, pub nm: Option<Rc<NameC>>, pub how: TMode, pub args: Vec<V>, pub regs: Vec<V> }

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Prog { pub defs: Vec<Def>, pub ptr_levels: Vec<u8>, pub root_levels: Vec<u8> }

pub fn run_def<B: Be>(be: &mut B, prog: &Prog, head: &Head, args: Vec<B::V>) -> R<B::V> {
    be.step()?;
    let d = match prog.defs.get(head.def as usize) { Some(d) => d, None => return Ok(B::V::n()) };
    let mut env = Env { prog, def: head.def, nm: head.nm.clone(), how: head.how, args, regs: vec![B::V::n(); NREG] };
    stmts(be, &mut env, &d.body)?;
    Ok(env.regs[d.ret as usize % NREG].clone())
}
fn resolve<B: Be>(be: &mut B, env: &Env<B::V>, a: ARef) -> Option<B::V> {
    let lvl = env.prog.defs[env.def as usize].level;
    match a {
        ARef::Reg(r) => Some(env.regs[r as usize % NREG].clone()),
        ARef::In(_) => be.table(a),
        ARef::Ptr(k) => match env.prog.ptr_levels.get(k as usize) { Some(l) if *l < lvl => be.table(a), _ => None },
        ARef::Root(k) => match env.prog.root_levels.get(k as usize) { Some(l) if *l < lvl => be.table(a), _ => None },
    }
}
fn stmts<B: Be>(be: &mut B, env: &mut Env<B::V>, ss: &[Stmt]) -> R<()> { for s in ss { stmt(be, env, s)? } Ok(()) }
fn stmt<B: Be>(be: &mut B, env: &mut Env<B::V>, s: &Stmt) -> R<()> {
    be.step()?;
    let g = |env: &Env<B::V>, r: Reg| env.regs[r as usize % NREG].clone();
    let v: B::V = match &s.op {
        Op::Const(c) => B::V::i(wrap(*c)),
        Op::Arg(k) => env.args.get(*k as usize).cloned().unwrap_or_else(B::V::n),
        Op::NameVal(k) => be.name_val(name_val(*k)),
        Op::Bin(o, x, y) => apply_bin(*o, &g(env, *x), &g(env, *y)),
        Op::Tup(rs) => B::V::t(rs.iter().map(|r| g(env, *r)).collect()),
        Op::Proj(r, k) => g(env, *r).proj(*k as usize),
        Op::Art(a) => resolve(be, env, *a).unwrap_or_else(B::V::n),
        Op::Force(a) => match resolve(be, env, *a) { Some(v) if v.is_art() => be.force(&v)?, Some(v) => v, None => B::V::n() },
        Op::ForceCyc(a, o) => { let out = g(env, *o); match resolve(be, env, *a) { Some(v) if v.is_art() => be.force_cyc(&v, out)?, Some(v) => v, None => B::V::n() } }
        Op::ForceMap(a, m) => match resolve(be, env, *a) { Some(v) if v.is_art() => be.force_map(&v, *m)?, Some(v) => apply_map(*m, &v), None => B::V::n() },
        Op::ForceAbs(a, m) => match resolve(be, env, *a) { Some(v) if v.is_art() => be.force_abs(&v, *m)?, Some(v) => apply_abs(*m, &v), None => B::V::n() },
        Op::Cell(mode, site, r) => {
            let v = g(env, *r);
            match (mode, &env.nm) {
                (CMode::Put, _) => be.put(v),
                (CMode::Pool, _) => be.cell(false, pool_name(*site), v)?,
                (CMode::Nom, Some(nm)) => be.cell(false, child_name(nm, *site), v)?,
                (CMode::SBlk, Some(nm)) => be.cell(true, child_name(nm, *site), v)?,
                (_, None) => be.cell(true, NameC::S(format!("x{}", site)), v)?,
            }
        }
        Op::Thunk(mode, site, d, rs) => {
            let args: Vec<B::V> = rs.iter().map(|r| g(env, *r)).collect();
            let ok = match env.prog.defs.get(*d as usize) { None => false, Some(dd) => dd.level <= env.prog.defs[env.def as usize].level && (*d < env.def || (*mode == TMode::Fam && *d == env.def && env.how == TMode::Fam)) };
            if !ok { B::V::n() } else {
                let child = env.nm.as_ref().map(|nm| Rc::new(child_name(nm, *site)));
                match (mode, child) {
                    (TMode::Fam, _) => {
                        let mut n = args.get(0).map(|a| a.int()).unwrap_or(0) % 4;
                        if *d == env.def { let own = env.args.get(0).map(|a| a.int()).unwrap_or(0); if own <= 0 { n = -1 } else { n = own - 1 } }
                        if n < 0 { B::V::i(1) } else {
                            let nm = fam_name(*d, n);
                            be.thunk(Some(nm.clone()), Head { def: *d, nm: Some(Rc::new(nm)), how: TMode::Fam }, vec![B::V::i(n)])?
                        }
                    }
                    (TMode::Pool, _) => { let c = Rc::new(pool_name(*site)); be.thunk(Some((*c).clone()), Head { def: *d, nm: Some(c), how: TMode::Nom }, args)? }
                    (TMode::Nom, Some(c)) => be.thunk(Some((*c).clone()), Head { def: *d, nm: Some(c), how: TMode::Nom }, args)?,
                    (TMode::SBlk, Some(c)) => be.thunk(Some((*c).clone()), Head { def: *d, nm: None, how: TMode::SBlk }, args)?,
                    (TMode::StructU, Some(c)) => be.thunk(None, Head { def: *d, nm: Some(c), how: TMode::Struct }, args)?,
                    (TMode::Eager, Some(c)) => be.thunk(None, Head { def: *d, nm: Some(c), how: TMode::Eager }, args)?,
                    (TMode::Naive, _) => be.thunk(None, Head { def: *d, nm: None, how: TMode::Naive }, args)?,
                    (TMode::Eager, None) => be.thunk(None, Head { def: *d, nm: None, how: TMode::Eager }, args)?,
                    (_, _) => be.thunk(None, Head { def: *d, nm: None, how: TMode::Struct }, args)?,
                }
            }
        }
        Op::TMap(a, m) => match resolve(be, env, *a) { Some(v) if v.is_art() => be.tmap(&v, *m), Some(v) => v, None => B::V::n() },
        Op::If(r, t, e) => { let c = g(env, *r).int() % 2 == 1; stmts(be, env, if c { t } else { e })?; return Ok(()) }
        Op::Ns(site, b) => { let nm = ns_name(&env.nm, *site); be.ns(nm, |be| stmts(be, env, b))?; return Ok(()) }
        Op::Clash(site, kind) => { if let Some(nm) = &env.nm { let c = child_name(nm, *site); be.clash(c, *kind) } B::V::n() }
        Op::Panic(r, k) => { if g(env, *r).int() % 5 == *k as i64 { return Err(be.organic(env.def)) } B::V::n() }
    };
    env.regs[s.dst as usize % NREG] = v;
    Ok(())
}

// ---- scenario ----
#[derive(Clone, PartialEq, Debug)]
pub enum How { Plain, Map(u8), Abs(u8), Ns(u8), InNs(u8) }
#[derive(Clone, PartialEq, Debug)]
pub enum EK {
    Set(u8, i64), SetTup(u8, i64, i64), CellIn(u8, i64), SetPtr(u8, u8), ReadIn(u8),
    Demand(u8, How, Option<u32>),
    ReRoot(u8, u8, Vec<i64>), RootCell(u8, i64), RootSet(u8, i64),
    Clash(u8, u8), AbortBlock(u8, u8), Auto(i64), TraceBegin, TraceEnd, WfFlag(bool), NaivePoke(i64), Over(u8, i64),
    /// During the next operation, the k-th call that the engine makes to user code other than bodies panics.
    /// An operation of the editor is then repeated.
    Trip(u32),
}
#[derive(Clone, PartialEq, Debug)]
pub struct EOp { pub client: u8, pub eng: u8, pub k: EK }
pub const CFG_NOPURITY: u8 = 1;
pub const CFG_STRUCTURAL: u8 = 2;
pub const CFG_WF: u8 = 4;
pub const CFG_WRITE: u8 = 8;
pub const CFG_NAIVE: u8 = 16;
/// Switches are on when their variables are set, to anything.
pub const CFG_EMPTY: u8 = 32;
/// All integers print alike.
pub const CFG_OPAQUE: u8 = 64;
#[derive(Clone, PartialEq, Debug)]
pub struct Scn {
    pub prog: Prog,
    pub inputs: Vec<i64>,
    pub ptrs: Vec<u8>,              // initial target root
    pub roots: Vec<(u8, Vec<i64>)>, // def, literal args
    pub engines: u8,
    pub cfg: u8, // bit set, see CFG_*
    pub ops: Vec<EOp>,
}

fn sx_aref(a: &ARef) -> Sx { match a { ARef::In(k) => sx!("in", *k), ARef::Ptr(k) => sx!("ptr", *k), ARef::Root(k) => sx!("root", *k), ARef::Reg(k) => sx!("reg", *k) } }
fn p_aref(s: &Sx) -> PResult<ARef> { let k = s.at(1)?.num()?; Ok(match s.head()? { "in" => ARef::In(k), "ptr" => ARef::Ptr(k), "root" => ARef::Root(k), "reg" => ARef::Reg(k), x => return Err(format!("aref {}", x)) }) }
fn nums<T: Copy>(v: &[T]) -> Sx where Sx: From<T> { Sx::L(v.iter().map(|x| Sx::from(*x)).collect()) }
fn p_nums<T: std::str::FromStr>(s: &Sx) -> PResult<Vec<T>> { s.list()?.iter().map(|x| x.num()).collect() }
fn sx_cmode(m: CMode) -> &'static str { match m { CMode::Nom => "nom", CMode::Put => "put", CMode::SBlk => "sblk", CMode::Pool => "pool" } }
fn p_cmode(s: &Sx) -> PResult<CMode> { Ok(match s.atom()? { "nom" => CMode::Nom, "put" => CMode::Put, "sblk" => CMode::SBlk, "pool" => CMode::Pool, x => return Err(x.into()) }) }
pub fn sx_tmode(m: TMode) -> &'static str { match m { TMode::Nom => "nom", TMode::Struct => "struct", TMode::StructU => "structu", TMode::SBlk => "sblk", TMode::Eager => "eager", TMode::Naive => "naive", TMode::Fam => "fam", TMode::Pool => "pool" } }
fn p_tmode(s: &Sx) -> PResult<TMode> { Ok(match s.atom()? { "nom" => TMode::Nom, "struct" => TMode::Struct, "structu" => TMode::StructU, "sblk" => TMode::SBlk, "eager" => TMode::Eager, "naive" => TMode::Naive, "fam" => TMode::Fam, "pool" => TMode::Pool, x => return Err(x.into()) }) }
fn sx_stmts(v: &[Stmt]) -> Sx { Sx::L(v.iter().map(sx_stmt).collect()) }
fn p_stmts(s: &Sx) -> PResult<Vec<Stmt>> { s.list()?.iter().map(p_stmt).collect() }
fn sx_stmt(s: &Stmt) -> Sx {
    let op = match &s.op {
        Op::Const(c) => sx!("const", *c), Op::Arg(k) => sx!("arg", *k), Op::NameVal(k) => sx!("nameval", *k),
        Op::Bin(o, x, y) => sx!("bin", *o, *x, *y), Op::Tup(r) => sx!("tup", nums(r)), Op::Proj(r, k) => sx!("proj", *r, *k),
        Op::Art(a) => sx!("art", sx_aref(a)), Op::Force(a) => sx!("force", sx_aref(a)), Op::ForceCyc(a, r) => sx!("forcecyc", sx_aref(a), *r),
        Op::ForceMap(a, m) => sx!("forcemap", sx_aref(a), *m), Op::ForceAbs(a, m) => sx!("forceabs", sx_aref(a), *m),
        Op::Cell(m, s, r) => sx!("cell", sx_cmode(*m), *s, *r), Op::Thunk(m, s, d, rs) => sx!("thunk", sx_tmode(*m), *s, *d, nums(rs)),
        Op::TMap(a, m) => sx!("tmap", sx_aref(a), *m), Op::If(r, t, e) => sx!("if", *r, sx_stmts(t), sx_stmts(e)),
        Op::Ns(s, b) => sx!("ns", *s, sx_stmts(b)), Op::Panic(r, k) => sx!("panic", *r, *k), Op::Clash(s, k) => sx!("clash", *s, *k),
    };
    sx!(s.dst, op)
}
fn p_stmt(s: &Sx) -> PResult<Stmt> {
    let dst = s.at(0)?.num()?; let o = s.at(1)?;
    let n = |i: usize| -> PResult<u8> { o.at(i)?.num() };
    let op = match o.head()? {
        "const" => Op::Const(o.at(1)?.num()?), "arg" => Op::Arg(n(1)?), "nameval" => Op::NameVal(n(1)?), "bin" => Op::Bin(n(1)?, n(2)?, n(3)?),
        "tup" => Op::Tup(p_nums(o.at(1)?)?), "proj" => Op::Proj(n(1)?, n(2)?), "art" => Op::Art(p_aref(o.at(1)?)?), "force" => Op::Force(p_aref(o.at(1)?)?),
        "forcecyc" => Op::ForceCyc(p_aref(o.at(1)?)?, n(2)?), "forcemap" => Op::ForceMap(p_aref(o.at(1)?)?, n(2)?), "forceabs" => Op::ForceAbs(p_aref(o.at(1)?)?, n(2)?),
        "cell" => Op::Cell(p_cmode(o.at(1)?)?, o.at(2)?.num()?, n(3)?), "thunk" => Op::Thunk(p_tmode(o.at(1)?)?, o.at(2)?.num()?, n(3)?, p_nums(o.at(4)?)?),
        "tmap" => Op::TMap(p_aref(o.at(1)?)?, n(2)?), "if" => Op::If(n(1)?, p_stmts(o.at(2)?)?, p_stmts(o.at(3)?)?), "ns" => Op::Ns(o.at(1)?.num()?, p_stmts(o.at(2)?)?),
        "panic" => Op::Panic(n(1)?, n(2)?), "clash" => Op::Clash(o.at(1)?.num()?, n(2)?), x => return Err(format!("op {}", x)),
    };
    Ok(Stmt { dst, op })
}
fn sx_how(h: &How) -> Sx { match h { How::Plain => sx!("plain"), How::Map(m) => sx!("map", *m), How::Abs(m) => sx!("abs", *m), How::Ns(n) => sx!("ns", *n), How::InNs(n) => sx!("inns", *n) } }
fn p_how(s: &Sx) -> PResult<How> { Ok(match s.head()? { "plain" => How::Plain, "map" => How::Map(s.at(1)?.num()?), "abs" => How::Abs(s.at(1)?.num()?), "ns" => How::Ns(s.at(1)?.num()?), "inns" => How::InNs(s.at(1)?.num()?), x => return Err(x.into()) }) }
pub fn sx_eop(o: &EOp) -> Sx {
    let mut v = vec![Sx::from(format!("c{}", o.client)), Sx::from(format!("e{}", o.eng))];
    v.extend(match &o.k {
        EK::Set(k, x) => vec!["set".into(), (*k).into(), (*x).into()], EK::SetTup(k, x, y) => vec!["settup".into(), (*k).into(), (*x).into(), (*y).into()],
        EK::CellIn(k, x) => vec!["cellin".into(), (*k).into(), (*x).into()], EK::SetPtr(k, r) => vec!["setptr".into(), (*k).into(), (*r).into()],
        EK::ReadIn(k) => vec!["readin".into(), (*k).into()],
        EK::Demand(r, h, f) => { let mut v: Vec<Sx> = vec!["demand".into(), (*r).into(), sx_how(h)]; if let Some(f) = f { v.push(sx!("panic-at-step", *f)) } v }
        EK::ReRoot(r, d, a) => vec!["reroot".into(), (*r).into(), (*d).into(), nums(a)], EK::RootCell(r, x) => vec!["rootcell".into(), (*r).into(), (*x).into()],
        EK::RootSet(r, x) => vec!["rootset".into(), (*r).into(), (*x).into()],
        EK::Clash(a, b) => vec!["clash".into(), (*a).into(), (*b).into()], EK::AbortBlock(a, b) => vec!["abortblock".into(), (*a).into(), (*b).into()],
        EK::Auto(x) => vec!["auto".into(), (*x).into()], EK::TraceBegin => vec!["tracebegin".into()], EK::TraceEnd => vec!["traceend".into()],
        EK::WfFlag(b) => vec!["wfflag".into(), (*b).into()], EK::Over(a, b) => vec!["over".into(), (*a).into(), (*b).into()], EK::Trip(x) => vec!["trip".into(), (*x).into()], EK::NaivePoke(x) => vec!["naivepoke".into(), (*x).into()],
    });
    Sx::L(v)
}
fn p_eop(s: &Sx) -> PResult<EOp> {
    let lab = |i: usize| -> PResult<u8> { let a = s.at(i)?.atom()?; if a.is_empty() || !a.is_char_boundary(1) { return Err("label".into()) } a[1..].parse().map_err(|_| "label".to_string()) };
    let (client, eng) = (lab(0)?, lab(1)?);
    let n = |i: usize| -> PResult<u8> { s.at(i)?.num() };
    let z = |i: usize| -> PResult<i64> { s.at(i)?.num() };
    let k = match s.at(2)?.atom()? {
        "set" => EK::Set(n(3)?, z(4)?), "settup" => EK::SetTup(n(3)?, z(4)?, z(5)?), "cellin" => EK::CellIn(n(3)?, z(4)?), "setptr" => EK::SetPtr(n(3)?, n(4)?), "readin" => EK::ReadIn(n(3)?),
        "demand" => EK::Demand(n(3)?, p_how(s.at(4)?)?, match s.list()?.get(5) { Some(f) => Some(f.at(1)?.num()?), None => None }),
        "reroot" => EK::ReRoot(n(3)?, n(4)?, p_nums(s.at(5)?)?), "rootcell" => EK::RootCell(n(3)?, z(4)?), "rootset" => EK::RootSet(n(3)?, z(4)?),
        "clash" => EK::Clash(n(3)?, n(4)?), "abortblock" => EK::AbortBlock(n(3)?, n(4)?), "auto" => EK::Auto(z(3)?), "tracebegin" => EK::TraceBegin, "traceend" => EK::TraceEnd,
        "wfflag" => EK::WfFlag(s.at(3)?.num()?), "naivepoke" => EK::NaivePoke(z(3)?), "trip" => EK::Trip(s.at(3)?.num()?), "over" => EK::Over(n(3)?, z(4)?), x => return Err(format!("eop {}", x)),
    };
    Ok(EOp { client, eng, k })
}
impl Scn {
    pub fn to_sx(&self) -> Sx {
        sx!("graph", sx!("engines", self.engines, self.cfg),
            Sx::L(std::iter::once("defs".into()).chain(self.prog.defs.iter().map(|d| sx!(d.level, sx_stmts(&d.body), d.ret))).collect()),
            sx!("inputs", nums(&self.inputs)), sx!("ptrs", nums(&self.prog.ptr_levels), nums(&self.ptrs)),
            Sx::L(std::iter::once("roots".into()).chain(self.roots.iter().zip(self.prog.root_levels.iter()).map(|((d, a), l)| sx!(*l, *d, nums(a)))).collect()),
            Sx::L(std::iter::once("ops".into()).chain(self.ops.iter().map(sx_eop)).collect()))
    }
    pub fn from_sx(s: &Sx) -> PResult<Scn> {
        if s.head()? != "graph" { return Err("graph expected".into()) }
        let mut prog = Prog::default();
        for d in &s.at(2)?.list()?[1..] { prog.defs.push(Def { level: d.at(0)?.num()?, body: p_stmts(d.at(1)?)?, ret: d.at(2)?.num()? }) }
        let inputs = p_nums(s.at(3)?.at(1)?)?;
        prog.ptr_levels = p_nums(s.at(4)?.at(1)?)?; let ptrs: Vec<u8> = p_nums(s.at(4)?.at(2)?)?;
        if ptrs.len() != prog.ptr_levels.len() { return Err("ptrs".into()) }
        let mut roots = vec![];
        for r in &s.at(5)?.list()?[1..] { prog.root_levels.push(r.at(0)?.num()?); roots.push((r.at(1)?.num()?, p_nums(r.at(2)?)?)) }
        let ops = s.at(6)?.list()?; if ops.is_empty() { return Err("ops".into()) }
        let ops = ops[1..].iter().map(p_eop).collect::<PResult<_>>()?;
        let engines: u8 = s.at(1)?.at(1)?.num()?;
        if engines == 0 || engines > 8 { return Err("engines".into()) }
        Ok(Scn { prog, inputs, ptrs, roots, engines, cfg: s.at(1)?.at(2)?.num()?, ops })
    }
}
