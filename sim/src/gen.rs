//! Scenario generator for the graph workload: random programs in the mini
//! language, random edit histories, random faults.
use crate::prog::*;
use crate::rng::Rng;

/// Weights; 0 switches a feature off.
#[derive(Clone, Debug)]
pub struct Prof {
    pub pool: usize, pub flip: usize, pub chase: usize,
    pub force: usize, pub map: usize, pub abs: usize, pub dup: usize, pub cyc: usize,
    pub cell: [usize; 3],  // nom, put, sblk
    pub thunk: [usize; 7], // nom, struct, structu, sblk, eager, naive, fam
    pub tmap: usize, pub ifs: usize, pub ns: usize, pub panics: usize, pub clash_in: usize, pub nameval: usize, pub arts_out: usize,
    pub set: usize, pub settup: usize, pub cellin: usize, pub setptr: usize, pub readin: usize, pub demand: usize, pub reroot: usize, pub rootcell: usize,
    pub clash: usize, pub abort: usize, pub auto: usize, pub trace: usize, pub wfflag: usize, pub poke: usize, pub over: usize, pub revert: usize,
    pub trip: usize, // percent of operations during which a call of the engine to the user's Clone, Eq, Hash or a mapping function panics
    pub opaque: usize, // percent of runs in which all integers print alike
    pub fault: usize, // percent of demands with an injected panic
    pub how: [usize; 5], // plain map abs ns inns
    pub engines: (u8, u8), pub cfgs: &'static [u8],
}
pub fn base() -> Prof {
    Prof { pool: 0, flip: 3, chase: 35, force: 30, map: 6, abs: 4, dup: 8, cyc: 2, cell: [6, 2, 2], thunk: [14, 4, 3, 2, 1, 2, 3], tmap: 3, ifs: 8, ns: 4, panics: 1, clash_in: 0, nameval: 2, arts_out: 20,
           set: 30, settup: 4, cellin: 6, setptr: 8, readin: 2, demand: 40, reroot: 6, rootcell: 0, clash: 0, abort: 1, auto: 1, trace: 0, wfflag: 0, poke: 0, over: 3, revert: 10,
           trip: 0, opaque: 4, fault: 4, how: [30, 3, 2, 3, 3], engines: (1, 1), cfgs: &[0] }
}
#[derive(Clone, Copy, PartialEq)]
enum K { Int, Art, Any }
struct G<'a> { r: &'a mut Rng, p: &'a Prof, prog: Prog, ret: Vec<K>, nin: usize, ptr_lv: Vec<u8>, root_lv: Vec<u8>, chain: bool }
struct B { regs: Vec<(Reg, K)>, next: Reg, site: u16, def: usize, level: u8, fam: bool, left: isize, last: Option<ARef> }
impl B { fn fresh(&mut self, k: K) -> Reg { let r = self.next; if (self.next as usize) < NREG - 1 { self.next += 1 } self.regs.push((r, k)); r } }

pub fn small(r: &mut Rng) -> i64 { if r.chance(75) { r.below(5) as i64 } else { r.below(MAXI as usize) as i64 } }
impl<'a> G<'a> {
    fn pick(&mut self, b: &B, k: K) -> Option<Reg> {
        let c: Vec<Reg> = b.regs.iter().filter(|(_, x)| *x == k).map(|x| x.0).collect();
        if c.is_empty() { return None }
        // recent registers more often
        if self.r.chance(50) { let n = c.len().min(3); Some(c[c.len() - 1 - self.r.below(n)]) } else { Some(*self.r.pick(&c)) }
    }
    fn any(&mut self, b: &B) -> Reg { if b.regs.is_empty() { 0 } else { b.regs[self.r.below(b.regs.len())].0 } }
    fn int(&mut self, b: &B) -> Reg { match self.pick(b, K::Int) { Some(r) => r, None => self.any(b) } }
    fn source(&mut self, b: &B) -> ARef {
        if let (Some(a), true) = (b.last, self.r.chance(self.p.dup)) { return a }
        let mut c: Vec<ARef> = vec![];
        for k in 0..self.nin { c.push(ARef::In(k as u8)) }
        for (k, l) in self.ptr_lv.iter().enumerate() { if *l < b.level { c.push(ARef::Ptr(k as u8)) } }
        for (k, l) in self.root_lv.iter().enumerate() { if *l < b.level { c.push(ARef::Root(k as u8)) } }
        if let (Some(r), true) = (self.pick(b, K::Art), self.r.chance(55)) { return ARef::Reg(r) }
        if c.is_empty() { return ARef::Reg(self.any(b)) }
        if self.p.rootcell > 0 && self.r.chance(30) { if let Some(x) = c.iter().rev().find(|x| matches!(x, ARef::Root(_))) { return *x } }
        *self.r.pick(&c)
    }
    fn kind_of(&mut self, a: ARef) -> K { match a { ARef::Ptr(_) => K::Art, ARef::In(_) => K::Int, _ => K::Any } }
    fn stmts(&mut self, b: &mut B, n: usize, depth: usize) -> Vec<Stmt> {
        let mut out = vec![];
        for _ in 0..n { if b.left <= 0 { break } b.left -= 1; self.stmt(b, depth, &mut out) }
        out
    }
    fn stmt(&mut self, b: &mut B, depth: usize, out: &mut Vec<Stmt>) {
        let p = self.p.clone();
        let w = [p.force, p.map, p.abs, p.cyc, p.cell.iter().sum(), if b.def > 0 || b.fam { p.thunk.iter().sum() } else { 0 }, p.tmap,
                 if depth < 3 { p.ifs } else { 0 }, if depth < 3 { p.ns } else { 0 }, p.panics, p.clash_in, p.nameval, 14, 3, 3, 2, if b.def > 0 && depth < 3 { p.flip } else { 0 }, p.pool];
        match self.r.weighted(&w) {
            i @ 0..=3 => {
                let a = self.source(b);
                let k = self.kind_of(a);
                b.last = Some(a);
                let (k, op) = match i {
                    0 => (k, Op::Force(a)),
                    1 => { let m = self.mapno(); (if m == 0 { k } else { K::Int }, Op::ForceMap(a, m)) }
                    2 => (K::Int, Op::ForceAbs(a, self.r.below(4) as u8)),
                    _ => { let o = self.int(b); (k, Op::ForceCyc(a, o)) }
                };
                let d = b.fresh(if k == K::Any { K::Int } else { k });
                out.push(Stmt { dst: d, op });
                // follow what was read, if it is an articulation
                if k == K::Any && self.r.chance(p.chase) {
                    let d2 = b.fresh(K::Int);
                    let op = match self.r.below(4) { 1 if p.map > 0 => Op::ForceMap(ARef::Reg(d), self.mapno()), 2 if p.abs > 0 => Op::ForceAbs(ARef::Reg(d), self.r.below(4) as u8), _ => Op::Force(ARef::Reg(d)) };
                    out.push(Stmt { dst: d2, op })
                }
                // use what was read
                if k != K::Art && self.r.chance(60) { let x = self.int(b); let o = self.r.below(NBIN as usize) as u8; let d2 = b.fresh(K::Int); out.push(Stmt { dst: d2, op: Op::Bin(o, d, x) }) }
                if k == K::Art && self.r.chance(70) { let d2 = b.fresh(K::Int); out.push(Stmt { dst: d2, op: Op::Force(ARef::Reg(d)) }) }
                // observe the same thing again, another way
                if self.r.chance(p.dup) {
                    let op = match self.r.below(4) { 0 => Op::Force(a), 1 if p.map > 0 => Op::ForceMap(a, self.mapno()), 2 if p.abs > 0 => Op::ForceAbs(a, self.r.below(4) as u8), _ => Op::Force(a) };
                    let d = b.fresh(K::Int); out.push(Stmt { dst: d, op })
                }
            }
            4 => {
                let m = [CMode::Nom, CMode::Put, CMode::SBlk][self.r.weighted(&p.cell)];
                let v = if self.r.chance(25) { self.any(b) } else { self.int(b) };
                b.site += 1; let s = b.site; let d = b.fresh(K::Art);
                out.push(Stmt { dst: d, op: Op::Cell(m, s, v) });
                if self.r.chance(40) { let d2 = b.fresh(K::Int); out.push(Stmt { dst: d2, op: Op::Force(ARef::Reg(d)) }) }
            }
            5 => {
                let mut m = [TMode::Nom, TMode::Struct, TMode::StructU, TMode::SBlk, TMode::Eager, TMode::Naive, TMode::Fam][self.r.weighted(&p.thunk)];
                let mut dd = if b.def > 0 { self.r.below(b.def) } else { 0 };
                if b.fam && self.r.chance(30) && p.thunk[6] > 0 { m = TMode::Fam; dd = b.def }
                if b.def == 0 && !(m == TMode::Fam && dd == 0) { return }
                if self.prog.defs.get(dd).map(|x| x.level > b.level).unwrap_or(false) { return }
                let na = self.r.below(4);
                let args: Vec<Reg> = (0..na).map(|i| if i == 0 || self.r.chance(60) { self.int(b) } else { self.any(b) }).collect();
                b.site += 1; let s = b.site; let d = b.fresh(K::Art);
                out.push(Stmt { dst: d, op: Op::Thunk(m, s, dd as u8, args) });
                if self.r.chance(65) { let k = self.ret.get(dd).copied().unwrap_or(K::Int); let d2 = b.fresh(if k == K::Any { K::Int } else { k }); out.push(Stmt { dst: d2, op: Op::Force(ARef::Reg(d)) }); b.last = Some(ARef::Reg(d)) }
            }
            6 => { let a = self.source(b); let d = b.fresh(K::Art); out.push(Stmt { dst: d, op: Op::TMap(a, self.mapno()) }); if self.r.chance(60) { let d2 = b.fresh(K::Int); out.push(Stmt { dst: d2, op: Op::Force(ARef::Reg(d)) }) } }
            7 => {
                let c = self.int(b);
                let (n1, n2) = (self.r.range(1, 4), self.r.below(4));
                let t = self.stmts(b, n1, depth + 1); let e = self.stmts(b, n2, depth + 1);
                out.push(Stmt { dst: 0, op: Op::If(c, t, e) })
            }
            8 => { b.site += 1; let s = b.site; let n = self.r.range(1, 4); let t = self.stmts(b, n, depth + 1); out.push(Stmt { dst: 0, op: Op::Ns(s, t) }) }
            9 => { let c = self.int(b); out.push(Stmt { dst: 0, op: Op::Panic(c, self.r.below(5) as u8) }) }
            10 => { if b.site > 0 { let s = 1 + self.r.below(b.site as usize) as u16; let k = self.r.below(8) as u8; out.push(Stmt { dst: 0, op: Op::Clash(s, k) }) } }
            11 => { let d = b.fresh(K::Any); out.push(Stmt { dst: d, op: Op::NameVal(self.r.below(8) as u8) }) }
            12 => { let (x, y) = (self.int(b), self.int(b)); let d = b.fresh(K::Int); out.push(Stmt { dst: d, op: Op::Bin(self.r.below(NBIN as usize) as u8, x, y) }) }
            13 => { let n = self.r.range(1, 3); let rs = (0..n).map(|_| self.any(b)).collect(); let d = b.fresh(K::Any); out.push(Stmt { dst: d, op: Op::Tup(rs) }) }
            14 => { let d = b.fresh(K::Int); out.push(Stmt { dst: d, op: Op::Const(small(self.r)) }) }
            15 => { let a = self.source(b); let d = b.fresh(K::Art); out.push(Stmt { dst: d, op: Op::Art(a) }) }
            // a name that any thunk may use: always, or when an input says that it is this one's turn
            17 => {
                let s = if self.r.chance(60) { 0 } else { self.r.below(4) as u16 }; let d = b.fresh(K::Art);
                let x = if b.def == 0 || self.r.chance(65) { let v = self.int(b); Stmt { dst: d, op: Op::Cell(CMode::Pool, s, v) } } else {
                    let n = self.r.below(3); let args = (0..n).map(|_| self.int(b)).collect(); let dd = self.r.below(b.def);
                    Stmt { dst: d, op: if self.prog.defs.get(dd).map(|x| x.level > b.level).unwrap_or(false) { Op::Cell(CMode::Pool, s, self.int(b)) } else { Op::Thunk(TMode::Pool, s, dd as u8, args) } } };
                if self.r.chance(50) {
                    let c = b.fresh(K::Int); let k = s as usize % self.nin;
                    out.push(Stmt { dst: c, op: Op::ForceMap(ARef::In(k as u8), 1) });
                    let other = Stmt { dst: d, op: Op::Const(0) };
                    out.push(Stmt { dst: 0, op: if self.r.chance(50) { Op::If(c, vec![x], vec![other]) } else { Op::If(c, vec![other], vec![x]) } });
                } else { out.push(x) }
                if self.r.chance(25) { let d2 = b.fresh(K::Int); out.push(Stmt { dst: d2, op: Op::Force(ARef::Reg(d)) }) }
            }
            // the same name, holding a cell or a thunk (or one of two thunks), as an observation decides
            _ => {
                let c = self.int(b); b.site += 1; let s = b.site; let d = b.fresh(K::Art); let v = self.int(b);
                let mut alloc = |g: &mut Self, b: &B, cell: bool| {
                    let dd = g.r.below(b.def);
                    if cell || g.prog.defs.get(dd).map(|x| x.level > b.level).unwrap_or(false) { Stmt { dst: d, op: Op::Cell(CMode::Nom, s, v) } } else { let n = g.r.below(3); let args = (0..n).map(|_| g.int(b)).collect(); Stmt { dst: d, op: Op::Thunk(TMode::Nom, s, dd as u8, args) } }
                };
                let cell = self.r.chance(75);
                let (x, y) = (alloc(self, b, cell), alloc(self, b, false));
                out.push(Stmt { dst: 0, op: if self.r.chance(50) { Op::If(c, vec![x], vec![y]) } else { Op::If(c, vec![y], vec![x]) } });
                if self.r.chance(40) { let d2 = b.fresh(K::Int); out.push(Stmt { dst: d2, op: Op::Force(ARef::Reg(d)) }) }
            }
        }
    }
    fn mapno(&mut self) -> u8 { mapno(self.r, self.p) }
    fn def(&mut self, i: usize, level: u8, size: usize) {
        let mut b = B { regs: vec![], next: 1, site: 0, def: i, level, fam: self.r.chance(30), left: (size * 2) as isize, last: None };
        let mut body = vec![];
        for k in 0..self.r.below(3) { let d = b.fresh(K::Int); body.push(Stmt { dst: d, op: Op::Arg(k as u8) }) }
        if self.chain && i > 0 && self.r.chance(92) {
            let args: Vec<Reg> = (0..self.r.below(3)).map(|_| self.int(&b)).collect();
            b.site += 1; let d = b.fresh(K::Art); let d2 = b.fresh(K::Int);
            body.push(Stmt { dst: d, op: Op::Thunk(TMode::Nom, b.site, i as u8 - 1, args) });
            body.push(Stmt { dst: d2, op: Op::Force(ARef::Reg(d)) }); b.last = Some(ARef::Reg(d));
        }
        let n = self.r.range(1, size.max(1));
        let rest = self.stmts(&mut b, n, 0);
        body.extend(rest);
        let (ret, k) = if self.r.chance(self.p.arts_out) { match self.pick(&b, K::Art) { Some(r) if self.r.chance(if self.p.pool > 0 { 85 } else { 50 }) => (r, K::Art), _ => (self.any(&b), K::Any) } }
                       else { // fold a few registers together
                           let mut acc = self.int(&b);
                           for _ in 0..self.r.below(3) { let x = self.int(&b); let d = b.fresh(K::Int); body.push(Stmt { dst: d, op: Op::Bin(self.r.below(3) as u8, acc, x) }); acc = d }
                           (acc, K::Int) };
        self.prog.defs.push(Def { level, body, ret });
        self.ret.push(k);
    }
}
/// A mapping function; the partial one only where programs may panic.
fn mapno(r: &mut Rng, p: &Prof) -> u8 { if p.panics > 0 && r.chance(12) { 7 } else { r.below(NMAPS as usize - 1) as u8 } }
pub fn gen(r: &mut Rng, p: &Prof) -> Scn {
    // half of the programs concentrate on some of the constructs (swarm)
    let mut q = p.clone();
    if r.chance(50) {
        for x in [&mut q.map, &mut q.abs, &mut q.dup, &mut q.cyc, &mut q.tmap, &mut q.ifs, &mut q.ns, &mut q.nameval, &mut q.flip, &mut q.panics] { *x = match r.below(5) { 0 | 1 => 0, 2 => *x * 4, _ => *x } }
        for x in q.cell.iter_mut().chain(q.thunk.iter_mut()) { *x = match r.below(5) { 0 => 0, 1 => *x * 4, _ => *x } }
        if q.cell.iter().sum::<usize>() == 0 { q.cell = p.cell } if q.thunk.iter().sum::<usize>() == 0 { q.thunk = p.thunk }
    }
    // A few programs are deep chains, or have bodies with many statements; not where programs
    // share nothing, nor with the well-formedness check, which walks every path of the graph.
    let (chain, wide) = match r.below(40) { _ if p.wfflag > 0 || p.cfgs.iter().any(|c| c & (CFG_NAIVE | CFG_WRITE | CFG_WF) != 0) => (false, false), 0 => (true, false), 1 => (false, true), _ => (false, false) };
    if chain { q.thunk = [14, 1, 1, 1, 0, 1, 1]; q.panics = 0 }
    let p = &q;
    let (ndef, size, nops) = match r.below(10) { _ if chain && r.chance(30) => (r.range(30, 64), 3, r.range(4, 14)), _ if chain => (r.range(10, 36), 3, r.range(4, 14)), _ if wide && r.chance(50) => (r.range(1, 3), 90, r.range(4, 14)), _ if wide => (r.range(2, 4), 34, r.range(4, 20)), 0 | 1 => (r.range(1, 2), 4, r.range(3, 8)), 2..=7 => (r.range(2, 5), 7, r.range(5, 25)), _ => (r.range(4, 9), 11, r.range(15, 60)) };
    let nin = if size > 80 { r.range(20, 44) } else if wide { r.range(3, 12) } else { r.range(1, 4) };
    let nlev = r.range(1, 3) as u8;
    let levels: Vec<u8> = (0..ndef).map(|i| (i * nlev as usize / ndef.max(1)) as u8).collect();
    let nroot = r.range(if p.pool > 0 { 2 } else { 1 }, 4);
    let mut roots = vec![]; let mut root_lv = vec![];
    for k in 0..nroot {
        let d = if k == 0 { ndef - 1 } else { r.below(ndef) };
        roots.push((d as u8, (0..r.below(3)).map(|_| small(r)).collect::<Vec<i64>>()));
        root_lv.push(levels[d]);
    }
    let nptr = r.below(4);
    let mut ptrs = vec![]; let mut ptr_lv = vec![];
    for _ in 0..nptr { let t = r.below(nroot); ptrs.push(t as u8); ptr_lv.push(root_lv[t]) }
    let engines = r.range(p.engines.0 as usize, p.engines.1 as usize) as u8;
    let cfg = *r.pick(p.cfgs); let cfg = if cfg != 0 && r.chance(25) { cfg | CFG_EMPTY } else { cfg };
    let cfg = if p.opaque > 0 && r.chance(p.opaque) { cfg | CFG_OPAQUE } else { cfg };
    let mut g = G { r, p, prog: Prog { defs: vec![], ptr_levels: ptr_lv.clone(), root_levels: root_lv.clone() }, ret: vec![], nin, ptr_lv, root_lv, chain };
    for i in 0..ndef { let s = g.r.range(2, size); g.def(i, levels[i], s) }
    let prog = g.prog.clone();
    let inputs: Vec<i64> = (0..nin).map(|_| small(r)).collect();
    // history
    let mut ops = vec![];
    let mut eng = 0u8; let mut client = 0u8;
    let mut cur: Vec<Vec<i64>> = (0..engines).map(|_| inputs.clone()).collect();
    let mut open = false;
    let push = |ops: &mut Vec<EOp>, client: u8, eng: u8, k: EK| ops.push(EOp { client, eng, k });
    if r.chance(70) { for e in 0..engines { for k in 0..nroot { if r.chance(60) { push(&mut ops, client, e, EK::Demand(k as u8, How::Plain, None)) } } } }
    let w = [p.set, p.settup, p.cellin, if nptr > 0 { p.setptr } else { 0 }, p.readin, p.demand, p.reroot, p.rootcell, p.clash, p.abort, p.auto, p.trace, p.wfflag, p.poke, p.over, p.revert, p.rootcell];
    // one run concentrates on a few kinds of operation (swarm)
    let w: Vec<usize> = w.iter().enumerate().map(|(i, x)| if i == 5 || i == 0 { *x } else if r.chance(25) { 0 } else { *x * r.range(1, 3) }).collect();
    let hows: Vec<usize> = p.how.iter().enumerate().map(|(i, x)| if i == 0 { *x } else if r.chance(40) { 0 } else { *x }).collect();
    let fault = if r.chance(40) { 0 } else { p.fault * 2 };
    let hot = r.below(nroot) as u8;
    for _ in 0..nops {
        if engines > 1 && r.chance(40) { eng = r.below(engines as usize) as u8 }
        if r.chance(30) { client = r.below(3) as u8 }
        let k = match r.weighted(&w) {
            0 => { let k = r.below(nin); let v = small(r); cur[eng as usize][k] = v; EK::Set(k as u8, v) }
            1 => { let k = r.below(nin); EK::SetTup(k as u8, small(r), small(r)) }
            2 => { let k = r.below(nin); let v = small(r); cur[eng as usize][k] = v; EK::CellIn(k as u8, v) }
            3 => EK::SetPtr(r.below(nptr) as u8, r.below(nroot) as u8),
            4 => EK::ReadIn(r.below(nin) as u8),
            5 => {
                let root = if r.chance(50) { hot } else { r.below(nroot) as u8 };
                let how = match r.weighted(&hows) { 0 => How::Plain, 1 => How::Map(mapno(r, p)), 2 => How::Abs(r.below(4) as u8), 3 => How::Ns(r.below(3) as u8), _ => How::InNs(r.below(3) as u8) };
                let f = if r.chance(fault) { let hi = [4usize, 20, 80, 300][r.below(4)]; Some(r.range(1, hi) as u32) } else { None };
                EK::Demand(root, how, f)
            }
            6 => { let d = r.below(ndef) as u8; EK::ReRoot(r.below(nroot) as u8, d, (0..r.below(3)).map(|_| small(r)).collect()) }
            7 => if r.chance(50) { EK::RootCell(r.below(nroot) as u8, small(r)) } else { EK::RootSet(r.below(nroot) as u8, small(r)) },
            8 => EK::Clash(r.below(40) as u8, r.below(9) as u8),
            9 => EK::AbortBlock(r.below(5) as u8, r.below(3) as u8),
            10 => EK::Auto(small(r)),
            11 => { if r.chance(if open { 60 } else { 90 }) { open = !open } if open { EK::TraceBegin } else { EK::TraceEnd } }
            12 => EK::WfFlag(r.chance(70)),
            13 => EK::NaivePoke(small(r)),
            14 => EK::Over(r.below(250) as u8, small(r)),
            16 => {
                // a root that is a cell and a thunk by turns, with a demand between
                let k = r.below(nroot) as u8; let d = r.below(ndef) as u8;
                let a: Vec<i64> = (0..r.below(3)).map(|_| small(r)).collect();
                let (x, y) = (EK::RootCell(k, small(r)), EK::ReRoot(k, d, a));
                let (x, y) = if r.chance(70) { (x, y) } else { (y, x) };
                push(&mut ops, client, eng, x);
                push(&mut ops, client, eng, EK::Demand(if r.chance(60) { hot } else { r.below(nroot) as u8 }, How::Plain, None));
                push(&mut ops, client, eng, y);
                if r.chance(40) { push(&mut ops, client, eng, EK::Demand(k, How::Plain, None)) }
                EK::Demand(if r.chance(60) { hot } else { r.below(nroot) as u8 }, How::Plain, None)
            }
            _ => {
                // change something and change it back, sometimes with a demand between
                let k = r.below(nin); let old = cur[eng as usize][k];
                push(&mut ops, client, eng, EK::Set(k as u8, small(r)));
                if r.chance(40) { push(&mut ops, client, eng, EK::Demand(r.below(nroot) as u8, How::Plain, None)) }
                EK::Set(k as u8, old)
            }
        };
        let trippable = matches!(k, EK::Set(..) | EK::SetTup(..) | EK::CellIn(..) | EK::SetPtr(..) | EK::ReRoot(..) | EK::RootCell(..) | EK::RootSet(..) | EK::Over(..) | EK::Demand(..));
        if trippable && p.trip > 0 && r.chance(p.trip) { let hi = if matches!(k, EK::Demand(..)) { [4usize, 12, 40, 120][r.below(4)] } else { [2usize, 4, 10][r.below(3)] }; push(&mut ops, client, eng, EK::Trip(r.range(1, hi) as u32)) }
        push(&mut ops, client, eng, k);
    }
    for e in 0..engines { push(&mut ops, client, e, EK::Demand(hot, How::Plain, None)); if r.chance(30) { for k in 0..nroot { push(&mut ops, client, e, EK::Demand(k as u8, How::Plain, None)) } } }
    Scn { prog, inputs, ptrs, roots, engines, cfg, ops }
}
