//! Several real threads, each with engines of its own, stepped one at a time:
//! a token passes between them at every point where user code runs (body
//! statements, editor operations, and the equality, hashing and printing of
//! user values from inside the engine), as the scenario's schedule says. Each
//! thread must produce exactly what it produces when it runs alone. A thread
//! may also die: from some point on everything it does panics, and the others
//! must not notice.
use crate::real::{Class, InjectedPanic, Viol};
use std::panic::panic_any;
use crate::rng::Rng;
use crate::run::Outcome;
use crate::sx;
use crate::sx::{PResult, Sx};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

thread_local!(static YIELD: RefCell<Option<Rc<dyn Fn()>>> = RefCell::new(None));
/// A place where another thread may run.
pub fn point() { let f = YIELD.with(|y| y.borrow().clone()); if let Some(f) = f { f() } }

struct St { turn: usize, alive: Vec<bool>, pos: usize, left: u32, switches: u64, points: u64 }
struct Tok { m: Mutex<St>, cv: Condvar, sched: Vec<(u8, u32)> }
impl Tok {
    fn next(&self, s: &mut St) {
        let n = s.alive.len();
        for _ in 0..1 + self.sched.len() {
            let (t, k) = self.sched[s.pos % self.sched.len()]; s.pos += 1;
            let t = t as usize % n;
            if s.alive[t] { if t != s.turn { s.switches += 1 } s.turn = t; s.left = k.max(1); self.cv.notify_all(); return }
        }
        if let Some(t) = (0..n).find(|t| s.alive[*t]) { if t != s.turn { s.switches += 1 } s.turn = t; s.left = 3 }
        self.cv.notify_all();
    }
    fn wait(&self, me: usize) { let mut s = self.m.lock().unwrap(); while s.turn != me { s = self.cv.wait(s).unwrap() } }
    fn pass(&self, me: usize) {
        { let mut s = self.m.lock().unwrap(); s.points += 1; if s.left > 1 { s.left -= 1; return } self.next(&mut s); if s.turn == me { return } }
        self.wait(me)
    }
    fn leave(&self, me: usize) { let mut s = self.m.lock().unwrap(); s.alive[me] = false; self.next(&mut s) }
}
/// Run `f` as thread `me` of `tok`.
struct Seat { tok: Arc<Tok>, me: usize }
impl Drop for Seat { fn drop(&mut self) { YIELD.with(|y| *y.borrow_mut() = None); self.tok.leave(self.me) } }

pub struct Thr { pub sched: Vec<(u8, u32)>, pub subs: Vec<Sx>, pub deaths: Vec<(u8, u32)> }
impl Thr {
    pub fn to_sx(&self) -> Sx {
        sx!("threads", Sx::L(self.sched.iter().map(|(t, k)| sx!(*t, *k)).collect()), Sx::L(self.subs.clone()), Sx::L(self.deaths.iter().map(|(t, k)| sx!(*t, *k)).collect()))
    }
    pub fn from_sx(s: &Sx) -> PResult<Thr> {
        let pairs = |k: usize| s.at(k)?.list()?.iter().map(|x| Ok((x.at(0)?.num()?, x.at(1)?.num()?))).collect::<PResult<Vec<(u8, u32)>>>();
        let (sched, deaths) = (pairs(1)?, pairs(3)?);
        let subs = s.at(2)?.list()?.to_vec();
        if sched.is_empty() || subs.is_empty() || subs.len() > 8 { return Err("threads".into()) }
        for x in &subs { crate::props::plain(x)?; }
        Ok(Thr { sched, subs, deaths })
    }
}
pub fn run(t: &Thr) -> Outcome {
    let n = t.subs.len();
    let tok = Arc::new(Tok { m: Mutex::new(St { turn: t.sched[0].0 as usize % n, alive: vec![true; n], pos: 1, left: t.sched[0].1.max(1), switches: 0, points: 0 }), cv: Condvar::new(), sched: t.sched.clone() });
    let hs: Vec<_> = t.subs.iter().enumerate().map(|(i, s)| {
        let f = crate::props::plain(s).unwrap(); let tok = tok.clone(); let dies = t.deaths.iter().find(|d| d.0 as usize == i).map(|d| d.1);
        std::thread::Builder::new().stack_size(crate::props::STACK).spawn(move || {
            tok.wait(i);
            let _seat = Seat { tok: tok.clone(), me: i };
            { let t2 = tok.clone(); let left = std::cell::Cell::new(dies); YIELD.with(|y| *y.borrow_mut() = Some(Rc::new(move || { t2.pass(i); if let Some(k) = left.get() { if k > 0 { left.set(Some(k - 1)) } else if !std::thread::panicking() { panic_any(InjectedPanic) } } }))) }
            f()
        }).expect("spawn")
    }).collect();
    let together: Vec<Outcome> = hs.into_iter().map(|h| h.join().unwrap_or_else(|p| Outcome { viols: vec![Viol { class: Class::Panic, op: 0, msg: format!("uncaught panic: {:?}", crate::real::classify(p)) }], ..Outcome::default() })).collect();
    let mut out = Outcome::default();
    let (sw, pts) = { let s = tok.m.lock().unwrap(); (s.switches, s.points) };
    let (mut died, mut survived) = (0, 0);
    for (i, s) in t.subs.iter().enumerate() {
        if t.deaths.iter().any(|d| d.0 as usize == i) { died += 1; continue }
        survived += 1;
        let alone = crate::props::fresh_thread(crate::props::plain(s).unwrap());
        let o = &together[i];
        out.stats.add(&o.stats);
        out.states.extend(o.states.iter().map(|h| h ^ (i as u64)));
        out.nontrivial |= o.nontrivial;
        for v in o.viols.iter().take(3) { out.viols.push(Viol { class: v.class, op: v.op, msg: format!("thread {}: {}", i, v.msg) }) }
        for v in alone.viols.iter().take(3) { if !o.viols.iter().any(|w| w.msg == v.msg) { out.viols.push(Viol { class: v.class, op: v.op, msg: format!("thread {} alone: {}", i, v.msg) }) } }
        if o.viols.is_empty() && alone.viols.is_empty() {
            if let Some(k) = (0..o.digest.len().max(alone.digest.len())).find(|k| o.digest.get(*k) != alone.digest.get(*k)) {
                out.viols.push(Viol { class: Class::Iso, op: k, msg: format!("thread {} among others: {:?}; alone: {:?}", i, o.digest.get(k), alone.digest.get(k)) })
            } else if o.states != alone.states { out.viols.push(Viol { class: Class::Iso, op: 0, msg: format!("thread {} went through other states among others than alone", i) }) }
            else if format!("{:?}", o.stats) != format!("{:?}", alone.stats) { out.viols.push(Viol { class: Class::Iso, op: 0, msg: format!("thread {} among others: {:?}; alone: {:?}", i, o.stats, alone.stats) }) }
        }
        out.digest.extend(o.digest.iter().cloned());
    }
    out.stats.switches = sw;
    out.extra.push(("points_where_threads_could_switch", pts));
    out.extra.push(("threads_killed", died));
    out.nontrivial = survived > 0 && n > 1 && sw > 4 && out.stats.demands > 1;
    out
}
pub fn gen(r: &mut Rng, sub: &mut dyn FnMut(&mut Rng) -> Sx) -> Sx {
    let n = r.range(2, 4);
    let subs: Vec<Sx> = if r.chance(25) { let s = sub(r); (0..n).map(|_| s.clone()).collect() } else { (0..n).map(|_| sub(r)).collect() };
    let hi = *r.pick(&[1u32, 3, 10, 60, 400]);
    let sched = (0..r.range(2, 60)).map(|_| (r.below(n) as u8, 1 + r.below(hi as usize) as u32)).collect();
    let deaths = if r.chance(25) { vec![(r.below(n) as u8, { let m = if r.chance(50) { 40 } else { 400 }; r.below(m) as u32 })] } else { vec![] };
    Thr { sched, subs, deaths }.to_sx()
}
