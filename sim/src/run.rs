//! Runs one graph scenario against the real engine.
use crate::graph::*;
use crate::model::*;
use crate::prog::*;
use crate::real::*;
use adapton::engine::{self, manage};
use adapton::reflect;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum GraphChk { End, Some, Every }
pub struct Opts { pub graph: GraphChk, pub only: Option<u8>, pub strip_trace: bool }
impl Default for Opts { fn default() -> Self { Opts { graph: GraphChk::End, only: None, strip_trace: false } } }
#[derive(Default, Clone, Debug)]
pub struct Outcome { pub viols: Vec<Viol>, pub digest: Vec<(u8, String)>, pub stats: Stats, pub states: Vec<u64>, pub extra: Vec<(&'static str, u64)>, pub nontrivial: bool }

fn ed_ns(n: u8) -> NameC { NameC::P(Rc::new(NameC::S("ed".into())), Rc::new(NameC::U((n % 3) as usize))) }
fn demand<B: Be>(be: &mut B, root: Option<B::V>, r: u8, st: &RootSt, how: &How) -> R<(Option<B::V>, String)> {
    let root = match root { Some(r) => r, None => return Ok((None, "none".into())) };
    let mut out = None;
    let v = match how {
        How::Plain => be.force(&root)?,
        How::Map(m) => be.force_map(&root, *m)?,
        How::Abs(m) => be.force_abs(&root, *m)?,
        How::Ns(n) => { be.ns(ed_ns(*n), |be| { out = Some(be.force(&root)?); Ok(()) })?; out.unwrap() }
        How::InNs(n) => {
            be.ns(ed_ns(*n), |be| {
                let a = match st {
                    RootSt::Cell(x) => be.cell(false, root_name(r), B::V::i(*x))?,
                    RootSt::Thunk(d, a) => be.thunk(Some(root_name(r)), root_arg(r, *d, a).head, a.iter().map(|x| B::V::i(wrap(*x))).collect())?,
                };
                out = Some(be.force(&a)?); Ok(())
            })?;
            out.unwrap()
        }
    };
    let mut fuel = 24;
    let s = deep(be, &v, 4, &mut fuel)?;
    Ok((Some(v), s))
}
fn set_env(cfg: u8, on: bool) {
    for (b, k) in [(CFG_NOPURITY, "ADAPTON_NO_PURITY"), (CFG_WF, "ADAPTON_CHECK_DCG"), (CFG_WRITE, "ADAPTON_WRITE_DCG"), (CFG_STRUCTURAL, "ADAPTON_STRUCTURAL")] {
        if cfg & b != 0 { if on { std::env::set_var(k, if cfg & CFG_EMPTY == 0 { "1" } else { ["", "0", "false"][cfg as usize % 3] }) } else { std::env::remove_var(k) } }
    }
}
fn alloc_tables(scn: &Scn) {
    // cells first, then thunks, then cells that point at thunks
    for (k, v) in scn.inputs.iter().enumerate() {
        let rv = RV::I(wrap(*v));
        let a = RealBe.cell(false, in_name(k as u8), rv.clone()).ok().unwrap();
        ctx(|c| { if let RV::A(a) = a { c.e().ins.push(a) } c.e().ed.inputs.push(rv.to_m()) });
    }
    for (k, (d, a)) in scn.roots.iter().enumerate() { put_root(k as u8, *d, a) }
    for (k, r) in scn.ptrs.iter().enumerate() {
        let t = ctx(|c| c.e().roots.get(*r as usize).cloned());
        let a = RealBe.cell(false, ptr_name(k as u8), t.map(RV::A).unwrap_or(RV::N)).ok().unwrap();
        ctx(|c| { if let RV::A(a) = a { c.e().ptrs.push(a) } c.e().ed.ptrs.push(*r) });
    }
}
fn put_root(k: u8, d: u8, a: &[i64]) {
    let ra = root_arg(k, d, a);
    let v = RealBe.thunk(Some(root_name(k)), ra.head, a.iter().map(|x| RV::I(wrap(*x))).collect()).ok().unwrap();
    ctx(|c| { let e = c.e(); let st = RootSt::Thunk(d, a.to_vec()); if let RV::A(a) = v { if (k as usize) < e.roots.len() { e.roots[k as usize] = a; e.ed.roots[k as usize] = st } else { e.roots.push(a); e.ed.roots.push(st) } } });
}
pub fn valid(scn: &Scn) -> bool {
    let p = &scn.prog;
    let nr = scn.roots.len();
    !p.defs.is_empty() && nr > 0
        && scn.roots.iter().zip(&p.root_levels).all(|((d, _), l)| p.defs.get(*d as usize).map(|x| x.level <= *l).unwrap_or(false))
        && scn.ptrs.iter().zip(&p.ptr_levels).all(|(r, l)| (*r as usize) < nr && p.root_levels[*r as usize] <= *l)
        && (scn.cfg & CFG_NAIVE == 0 || scn.engines == 1)
}
fn wf_toggle(b: bool) { with_flags(|f| f.check_dcg_is_wf = b) }

pub fn run_scn(scn: &Scn, opts: &Opts) -> Outcome {
    if !valid(scn) { return Outcome::default() }
    let mode = if scn.cfg & CFG_NAIVE != 0 { Mode::Naive } else if scn.cfg & CFG_STRUCTURAL != 0 { Mode::Structural } else { Mode::Nominal };
    let prog = Rc::new(scn.prog.clone());
    let mut c0 = Ctx::new(prog.clone(), mode, scn.engines as usize);
    c0.mid = match opts.graph { GraphChk::Every => 67, GraphChk::Some => 311, GraphChk::End => 0 };
    install(Some(c0));
    OPAQUE.with(|o| o.set(scn.cfg & CFG_OPAQUE != 0));
    let mut out = Outcome::default();
    for i in 0..scn.engines as usize {
        if opts.only.map(|o| o as usize != i).unwrap_or(false) { continue }
        set_env(scn.cfg, true);
        let old = if mode == Mode::Naive { manage::init_naive() } else { manage::init_dcg() };
        set_env(scn.cfg, false);
        // the environment decides the engine's flags
        if mode != Mode::Naive { crate::graph::with_flags(|f| {
            let (have, want) = ((!f.use_purity_optimization, f.check_dcg_is_wf, f.write_dcg, f.ignore_nominal_use_structural), (scn.cfg & CFG_NOPURITY != 0, scn.cfg & CFG_WF != 0, scn.cfg & CFG_WRITE != 0, scn.cfg & CFG_STRUCTURAL != 0));
            if have != want { ctx(|c| c.viol(Class::Config, format!("flags (no purity, check, write, structural) of a new engine are {:?}, the environment asks for {:?}", have, want))) }
            f.ignore_nominal_use_structural = false;
        }) }
        ctx(|c| { let p = c.cur; if i > 0 && opts.only.is_none() { c.engs[p].parked = Some(old) } c.cur = i });
        if mode == Mode::Naive { let ed = init_naive_state(scn); ctx(|c| c.e().ed = ed) } else { if let Err(f) = guarded(|| { alloc_tables(scn); Ok(()) }) { ctx(|c| c.viol(Class::Panic, format!("panic while setting up: {:?}", f))); break } }
    }
    let mut dead = !ctx(|c| c.viols.is_empty());
    // window bookkeeping
    let mut win_dbg: Vec<Dbg> = vec![]; let mut win_before: Option<reflect::DCG> = None;
    let mut win_panic = false;
    let mut hasher = DefaultHasher::new();
    let mut todo: Vec<(usize, &EOp, u32)> = vec![];
    for (i, op) in scn.ops.iter().enumerate() {
        if let EK::Trip(_) = op.k { continue }
        let trip = match i.checked_sub(1).and_then(|j| scn.ops.get(j)) { Some(EOp { k: EK::Trip(n), eng, .. }) if eng % scn.engines == op.eng % scn.engines => *n, _ => 0 };
        let edit = matches!(op.k, EK::Set(..) | EK::SetTup(..) | EK::CellIn(..) | EK::SetPtr(..) | EK::ReRoot(..) | EK::RootCell(..) | EK::RootSet(..) | EK::Over(..));
        if trip > 0 && (edit || matches!(op.k, EK::Demand(..))) { todo.push((i, op, trip)); if edit { todo.push((i, op, 0)) } } else { todo.push((i, op, 0)) }
    }
    for (i, op, trip) in todo {
        if dead { break }
        let eng = op.eng % scn.engines;
        if let Some(o) = opts.only { if o != eng { continue } }
        ctx(|c| { c.op = i; c.stats.ops += 1 });
        crate::threads::point();
        switch_engine(eng as usize);
        let mut demanded: Option<(Rc<Key>, Option<RV>)> = None;
        let mut forced_reflect = false;
        let mut line = String::new();
        let naive = mode == Mode::Naive;
        let inj0 = ctx(|c| c.stats.injected);
        if !matches!(op.k, EK::Demand(..)) { arm(trip) }
        let r: Result<(), Fail> = match &op.k {
            EK::Set(k, _) | EK::SetTup(k, _, _) => {
                let v = match &op.k { EK::SetTup(_, x, y) => RV::t(vec![RV::I(wrap(*x)), RV::I(wrap(*y))]), EK::Set(_, x) => RV::I(wrap(*x)), _ => unreachable!() };
                guarded(|| { set_input(*k, v, naive, false); Ok(()) })
            }
            EK::CellIn(k, x) => guarded(|| { set_input(*k, RV::I(wrap(*x)), naive, true); Ok(()) }),
            EK::SetPtr(k, r) => guarded(|| {
                let ok = (*k as usize) < scn.ptrs.len() && (*r as usize) < scn.roots.len() && scn.prog.root_levels[*r as usize] <= scn.prog.ptr_levels[*k as usize];
                if !ok { return Ok(()) }
                if naive { ctx(|c| c.e().ed.ptrs[*k as usize] = *r); return Ok(()) }
                let (p, t) = ctx(|c| (c.e().ptrs[*k as usize].clone(), c.e().roots[*r as usize].clone()));
                let v = RV::A(t);
                note_set(&p.key, &v);
                allocating(&p.key, || engine::set(&p.art, v));
                ctx(|c| c.e().ed.ptrs[*k as usize] = *r);
                Ok(())
            }),
            EK::ReadIn(k) => guarded(|| {
                if naive || (*k as usize) >= scn.inputs.len() { return Ok(()) }
                let a = ctx(|c| c.e().ins[*k as usize].clone());
                let v = RealBe.force(&RV::A(a))?;
                ctx(|c| if v.to_m() != c.e().ed.inputs[*k as usize] { let m = format!("input {} reads {:?}", k, v); c.viol(Class::Value, m) });
                line = format!("{:?}", v); Ok(())
            }),
            EK::ReRoot(r, d, a) => guarded(|| {
                let ok = (*r as usize) < scn.roots.len() && scn.prog.defs.get(*d as usize).map(|x| x.level <= scn.prog.root_levels[*r as usize]).unwrap_or(false);
                if !ok { return Ok(()) }
                if naive { ctx(|c| c.e().ed.roots[*r as usize] = RootSt::Thunk(*d, a.clone())); return Ok(()) }
                put_root(*r, *d, a); Ok(())
            }),
            EK::RootCell(r, x) => guarded(|| {
                if (*r as usize) >= scn.roots.len() { return Ok(()) }
                if !naive {
                    let v = RealBe.cell(false, root_name(*r), RV::I(wrap(*x)))?;
                    ctx(|c| if let RV::A(a) = v { c.e().roots[*r as usize] = a });
                }
                ctx(|c| c.e().ed.roots[*r as usize] = RootSt::Cell(wrap(*x)));
                Ok(())
            }),
            EK::RootSet(r, x) => guarded(|| {
                if (*r as usize) >= scn.roots.len() || !matches!(ctx(|c| c.e().ed.roots[*r as usize].clone()), RootSt::Cell(_)) { return Ok(()) }
                if !naive { let a = ctx(|c| c.e().roots[*r as usize].clone()); let v = RV::I(wrap(*x)); note_set(&a.key, &v); allocating(&a.key, || engine::set(&a.art, v)) }
                ctx(|c| c.e().ed.roots[*r as usize] = RootSt::Cell(wrap(*x)));
                Ok(())
            }),
            EK::Demand(r, how, fault) => {
                if (*r as usize) >= scn.roots.len() { continue }
                let ed = ctx(|c| c.e().ed.clone());
                let mut s = Sess::new(&prog, &ed); s.lazy_eager = naive;
                let st = ed.roots[*r as usize].clone();
                let m = demand(&mut s, Some(MVal::A(root_key(*r))), *r, &st, how);
                if let Err(Stop::Discipline(_)) | Err(Stop::Budget) = &m { ctx(|c| c.stats.skipped += 1); continue }
                ctx(|c| { c.stats.demands += 1; c.sess = Some(Rc::new(std::mem::take(&mut s.traces))); c.ran.clear(); c.ran_set.clear(); c.steps = 0; c.fault = *fault; c.in_demand = true; c.map_seen.clear() });
                arm(trip);
                let flag = mode == Mode::Structural;
                let res = guarded(|| {
                    if naive { rebuild_naive(scn) }
                    if flag { with_flags(|f| f.ignore_nominal_use_structural = true) }
                    let root = ctx(|c| c.e().roots.get(*r as usize).cloned()).map(RV::A);
                    let x = demand(&mut RealBe, root, *r, &st, how)?;
                    Ok(x)
                });
                if flag { with_flags(|f| f.ignore_nominal_use_structural = false) }
                disarm();
                let fired = ctx(|c| { c.fault = None; c.in_demand = false; c.sess = None; c.stats.injected != inj0 });
                if fired || res.is_err() { win_panic = true; forced_reflect = true }
                let mut ret = Ok(());
                match (&m, &res) {
                    (Ok((_, a)), Ok((v, b))) => {
                        if a != b { ctx(|c| c.viol(Class::Value, format!("demanding root {} ({:?}) returned {}, from scratch it is {}", r, how, b, a))) }
                        if !matches!(how, How::InNs(_)) { demanded = Some((root_key(*r), if matches!(how, How::Plain | How::Ns(_)) { v.clone() } else { None })) }
                        line = b.clone();
                    }
                    (_, Err(Fail::Injected)) => { line = "injected".into() }
                    (Err(Stop::Organic(_)), Err(Fail::Stop(Stop::Organic(_)))) => { line = "organic".into() }
                    (Err(Stop::Organic(d)), Ok((_, b))) => { ctx(|c| c.viol(Class::Value, format!("demanding root {} returned {}, from scratch it panics in def {}", r, b, d))) }
                    (_, Err(f)) => { ctx(|c| c.viol(Class::Panic, format!("demanding root {} ({:?}) panicked: {:?}; from scratch: {:?}", r, how, f, m.as_ref().map(|x| &x.1)))); ret = Err(f.clone()) }
                    (Err(_), _) => unreachable!(),
                }
                ctx(|c| {
                    if !c.frames.is_empty() { c.viol(Class::State, "frames left".into()); c.frames.clear() }
                    if c.ran.is_empty() { c.stats.reuse += 1 }
                    for k in c.ran.iter() { k.hash(&mut hasher) }
                    line.push_str(&format!(" ran={}", c.ran.len()));
                });
                line.hash(&mut hasher);
                ret
            }
            EK::Clash(a, b) => guarded(|| {
                if mode != Mode::Nominal { return Ok(()) }
                let keys: Vec<Rc<Key>> = ctx(|c| c.e().order.iter().filter(|k| matches!(***k, Key::Nom(..))).cloned().collect());
                if keys.is_empty() { return Ok(()) }
                let key = keys[*a as usize % keys.len()].clone();
                if ctx(|c| c.is_fuzzy(&key)) { return Ok(()) }
                let d0 = reflect_now().map(|d| format!("{:?}", sorted(&d))).unwrap_or_default();
                if b % 9 == 4 { wrong_type_demand(&key) } else { at_path(&key, || clash_here(&key, b % 9 - (b % 9 > 4) as u8)) }
                let d1 = reflect_now().map(|d| format!("{:?}", sorted(&d))).unwrap_or_default();
                if d0 != d1 { ctx(|c| { let m = format!("a rejected conflicting use of {} changed the graph", key.show()); c.viol(Class::Clash, m) }) }
                forced_reflect = true;
                Ok(())
            }),
            // someone else allocates at a name the program uses too; whoever
            // allocated there has to allocate again before the name is used
            EK::Over(a, b) => guarded(|| {
                if mode != Mode::Nominal { return Ok(()) }
                let keys: Vec<Rc<Key>> = ctx(|c| c.e().order.iter().filter(|k| match &***k { Key::Nom(p, n) => !p.is_empty() || !editor_name(n), _ => false }).cloned().collect());
                if keys.is_empty() { return Ok(()) }
                let key = keys[*a as usize % keys.len()].clone();
                let (st, nm) = match (ctx(|c| c.e().nodes.get(&key).cloned()), &*key) { (Some(s), Key::Nom(_, n)) => (s, n.clone()), _ => return Ok(()) };
                let mut r = Ok(());
                at_path(&key, || r = match &st.kind {
                    Kind::Comp(am) if *b % 4 != 3 => RealBe.thunk(Some(nm), am.head.clone(), vec![RV::I(wrap(*b)), RV::I(wrap(*b / 2))]).map(|_| ()),
                    _ => RealBe.cell(false, nm, RV::I(wrap(*b))).map(|_| ()),
                });
                r
            }),
            EK::AbortBlock(a, b) => {
                let nm = ed_ns(*b);
                let r = guarded(|| -> R<()> {
                    let boom = || -> () { std::panic::panic_any(InjectedPanic) };
                    match a % 5 {
                        0 => in_ns(&nm, boom), 1 => engine::structural(boom), 2 => in_ns(&nm, || engine::structural(boom)), 3 => engine::structural(|| in_ns(&nm, boom)),
                        _ => in_ns(&nm, || in_ns(&NameC::Unit, || { engine::structural(|| ()); boom() })),
                    }
                    Ok(())
                });
                ctx(|c| { c.stats.aborts += 1; c.stats.injected += 1 });
                if r != Err(Fail::Injected) { ctx(|c| c.viol(Class::State, format!("panic out of a block surfaced as {:?}", r))) }
                if mode != Mode::Naive && structural_flag() { ctx(|c| c.viol(Class::State, "structural naming still on after a panic left the block".into())) }
                forced_reflect = true;
                Ok(())
            }
            EK::Auto(x) => guarded(|| {
                use adapton::cell;
                use adapton::engine::cell;
                use adapton::macros::bump_name_counter;
                use adapton::engine::name_of_usize;
                if naive { return Ok(()) }
                let v = RV::I(wrap(*x));
                // sometimes many names have been drawn since
                let skip = match wrap(*x) { 23 => 300, 22 => 70_000, _ => 0 };
                for _ in 0..skip { bump_name_counter(); }
                let (n, path) = ctx(|c| { c.autos += skip + 1; (c.autos - 1, c.path.clone()) });
                let key = Rc::new(Key::Nom(path, NameC::U(n)));
                ctx(|c| if c.mode == Mode::Nominal { c.note_cell(&key, &v); });
                let art = cell!(v.clone());
                ctx(|c| c.register(&key, &art));
                let again = engine::cell(name_of_usize(n), v.clone());
                ctx(|c| { if c.mode == Mode::Nominal { c.note_cell(&key, &v); } if again != art { let m = format!("implicit name number {} gave {:?}", n, art); c.viol(Class::Identity, m) } });
                line = format!("{:?}", art);
                Ok(())
            }),
            EK::TraceBegin if win_before.is_some() => {
                // a recording is under way: a second one is refused, or a debugging extent begins
                if win_dbg.len() % 2 == 0 {
                    let r = guarded(|| { reflect::dcg_reflect_begin(); Ok(()) });
                    if !matches!(r, Err(Fail::Engine(_))) { ctx(|c| c.viol(Class::Trace, format!("dcg_reflect_begin during a recording: {:?}", r))) }
                }
                win_dbg.push(Dbg::new(true));
                Ok(())
            }
            EK::TraceBegin => if opts.strip_trace || mode != Mode::Nominal { Ok(()) } else {
                let d = reflect_now();
                guarded(|| { reflect::dcg_reflect_begin(); Ok(()) }).map(|_| { win_before = d.ok(); win_panic = false; ctx(|c| { c.win = Some(vec![]); c.loose = false; c.stats.windows += 1 }) })
            },
            EK::TraceEnd if win_before.is_some() && win_dbg.len() % 3 == 1 => { win_dbg.pop(); Ok(()) }
            EK::TraceEnd => end_window(&mut win_before, win_panic, &mut win_dbg),
            EK::Trip(_) => Ok(()),
            EK::WfFlag(b) => { if !naive { wf_toggle(*b) } Ok(()) }
            EK::NaivePoke(x) => guarded(|| {
                let saved = manage::init_naive();
                let v = wrap(*x);
                let t = engine::thunk(engine::NameChoice::Nominal(engine::name_unit()), adapton::macros::ProgPt { symbol: "sim::poke" }, Rc::new(Box::new(|a: i64, _: ()| a + 1)), v, ());
                let cl = engine::cell(engine::name_unit(), v);
                if engine::ns(engine::name_unit(), || engine::force(&t)) != v + 1 || engine::force(&cl) != v { ctx(|c| c.viol(Class::Iso, "naive engine computed a wrong value".into())) }
                let back = manage::use_engine(saved);
                if !matches!(back, engine::Engine::Naive) { ctx(|c| c.viol(Class::Iso, "swapping in gave back another engine".into())) }
                ctx(|c| c.stats.swaps += 2);
                Ok(())
            }),
        };
        disarm();
        if trip > 0 && r == Err(Fail::Injected) { win_panic = true; out.digest.push((eng, format!("{} tripped", sx_eop(op))));
            if !naive { match reflect_now() { Ok(d) => { let h = check_graph(&d, None); out.states.push(h) } Err(e) => ctx(|c| c.viol(Class::Graph, e)) } }
            continue
        }
        if let Err(f) = r {
            match f {
                Fail::Engine(_) | Fail::Stop(_) => { if !ctx(|c| c.viols.iter().any(|v| v.op == i && v.class == Class::Panic)) { ctx(|c| c.viol(Class::Panic, format!("operation {:?} panicked: {:?}", op.k, f))) } dead = true }
                Fail::Injected => {}
            }
        }
        if manage::engine_is_naive() != naive || manage::engine_is_dcg() == naive { ctx(|c| c.viol(Class::State, "another kind of engine is installed".into())) }
        let chk = mode != Mode::Naive && match opts.graph { GraphChk::Every => true, GraphChk::Some => forced_reflect || i % 4 == 3, GraphChk::End => forced_reflect };
        if chk && !dead {
            match reflect_now() {
                Ok(d) => { let h = check_graph(&d, demanded.as_ref().map(|(k, v)| (k, v.as_ref()))); out.states.push(h) }
                Err(e) => ctx(|c| c.viol(Class::Graph, e)),
            }
        }
        if forced_reflect && !dead && mode == Mode::Nominal && structural_flag() { ctx(|c| c.viol(Class::State, "structural naming left on".into())) }
        out.states.push(hasher.finish());
        out.digest.push((eng, format!("{} {}", sx_eop(op), line)));
    }
    if !dead { if let Err(f) = end_window(&mut win_before, win_panic, &mut win_dbg) { ctx(|c| c.viol(Class::Trace, format!("{:?}", f))) } }
    if mode != Mode::Naive && !dead {
        for i in 0..scn.engines {
            if opts.only.map(|o| o != i).unwrap_or(false) { continue }
            switch_engine(i as usize);
            match reflect_now() { Ok(d) => { let h = check_graph(&d, None); out.digest.push((i, format!("graph {:x}", h))) } Err(e) => ctx(|c| c.viol(Class::Graph, e)) }
        }
    }
    for d in win_dbg.drain(..) { std::mem::forget(d) }
    let _ = manage::use_engine(engine::Engine::Naive);
    let c = install(None).unwrap();
    out.viols = c.viols.clone(); out.stats = c.stats.clone();
    out
}
fn end_window(win: &mut Option<reflect::DCG>, panicked: bool, dbg: &mut Vec<Dbg>) -> Result<(), Fail> {
    if win.is_none() || !dbg.is_empty() {
        // no recording, or one with open debugging extents: ending it is refused
        let r = guarded(|| { reflect::dcg_reflect_end(); Ok(()) });
        if !matches!(r, Err(Fail::Engine(_))) { ctx(|c| c.viol(Class::Trace, format!("dcg_reflect_end with {} open extents: {:?}", dbg.len(), r))) }
        while let Some(d) = dbg.pop() { drop(d) }
    }
    if let Some(before) = win.take() {
        let evs = ctx(|c| c.win.take()).unwrap_or_default();
        match guarded(|| Ok(reflect::dcg_reflect_end())) {
            Ok(_) if ctx(|c| c.loose) => {}
            Ok(trs) => { if let Ok(after) = reflect_now() { crate::tracechk::check(&trs, &evs, panicked, &before, &after) } }
            Err(f) => { ctx(|c| c.viol(Class::Trace, format!("dcg_reflect_end: {:?}", f))); return Err(f) }
        }
    }
    Ok(())
}
fn note_set(key: &Rc<Key>, v: &RV) {
    ctx(|c| {
        c.stats.edits += 1;
        if c.mode != Mode::Nominal { return }
        let mut diff = false;
        if c.e().fuzzy.remove(key) { c.loose = true }
        if let Some(n) = c.e().nodes.get_mut(key) { if let Kind::Cell(o) = &n.kind { if o != v { n.kind = Kind::Cell(v.clone()); n.ver += 1; diff = true } } }
        if diff { c.ev(Ev::SetDiff) }
    })
}
fn set_input(k: u8, v: RV, naive: bool, realloc: bool) {
    let n = ctx(|c| c.e().ed.inputs.len());
    if naive { ctx(|c| { let e = c.e(); if (k as usize) < e.ed.inputs.len() { e.ed.inputs[k as usize] = v.to_m() } }); return }
    if k as usize >= n { return }
    ctx(|c| c.e().ed.inputs[k as usize] = v.to_m());
    if realloc { if let Ok(RV::A(a)) = RealBe.cell(false, in_name(k), v) { ctx(|c| { c.stats.edits += 1; c.e().ins[k as usize] = a }) } }
    else { let a = ctx(|c| c.e().ins[k as usize].clone()); note_set(&a.key, &v); allocating(&a.key, || engine::set(&a.art, v)) }
}
fn to_r(v: &MVal) -> RV { match v { MVal::I(i) => RV::I(*i), MVal::T(v) => RV::t(v.iter().map(to_r).collect()), _ => RV::N } }
/// Under the naive engine everything is rebuilt for each demand.
fn rebuild_naive(scn: &Scn) {
    let ed = ctx(|c| { let e = c.e(); e.ins.clear(); e.ptrs.clear(); e.roots.clear(); e.ed.clone() });
    for (k, v) in ed.inputs.iter().enumerate() { if let Ok(RV::A(a)) = RealBe.cell(false, in_name(k as u8), to_r(v)) { ctx(|c| c.e().ins.push(a)) } }
    for (k, r) in ed.roots.iter().enumerate() {
        let v = match r { RootSt::Thunk(d, a) => RealBe.thunk(Some(root_name(k as u8)), root_arg(k as u8, *d, a).head, a.iter().map(|x| RV::I(wrap(*x))).collect()), RootSt::Cell(x) => RealBe.cell(false, root_name(k as u8), RV::I(*x)) };
        if let Ok(RV::A(a)) = v { ctx(|c| c.e().roots.push(a)) }
    }
    for (k, r) in ed.ptrs.iter().enumerate() {
        let t = ctx(|c| c.e().roots.get(*r as usize).cloned()).map(RV::A).unwrap_or(RV::N);
        if let Ok(RV::A(a)) = RealBe.cell(false, ptr_name(k as u8), t) { ctx(|c| c.e().ptrs.push(a)) }
    }
    let _ = scn;
}
pub fn init_naive_state(scn: &Scn) -> EdState {
    EdState { inputs: scn.inputs.iter().map(|v| MVal::I(wrap(*v))).collect(), ptrs: scn.ptrs.clone(), roots: scn.roots.iter().map(|(d, a)| RootSt::Thunk(*d, a.clone())).collect() }
}
fn editor_name(n: &NameC) -> bool { (0..64u8).any(|k| *n == in_name(k) || *n == ptr_name(k) || *n == root_name(k)) }
fn at_path(key: &Rc<Key>, f: impl FnOnce()) {
    fn go(p: &[NameC], f: Box<dyn FnOnce() + '_>) { match p.split_first() { None => f(), Some((n, rest)) => in_ns(n, || go(rest, f)) } }
    if let Key::Nom(p, _) = &**key { go(p, Box::new(f)) }
}
/// Demand at `key`'s name through an articulation of another type, obtained
/// from another engine where that name means something else.
fn wrong_type_demand(key: &Rc<Key>) {
    let n = match &**key { Key::Nom(_, n) => n.clone(), _ => return };
    let mine = manage::init_dcg();
    let mut art = None;
    at_path(key, || art = Some(engine::cell(mk_name(&n), 99u64)));
    let _ = manage::use_engine(mine);
    let art = art.unwrap();
    ctx(|c| c.stats.clashes += 3);
    let rs = [guarded(|| { engine::force(&art); Ok(()) }), guarded(|| { engine::force_map(&art, |_, x: u64| x); Ok(()) }), guarded(|| { engine::set(&art, 7u64); Ok(()) })];
    for (i, r) in rs.iter().enumerate() { if !matches!(r, Err(Fail::Engine(_))) { ctx(|c| { let m = format!("{} of {} at another type was accepted", ["force", "force_map", "set"][i], key.show()); c.viol(Class::Clash, m) }) } }
}
fn sorted(d: &reflect::DCG) -> Vec<String> { let mut v: Vec<String> = d.table.iter().map(|(l, n)| format!("{:?} {:?}", l, n)).collect(); v.sort(); v.push(format!("{:?}", d.path)); v.push(format!("{}", d.stack.len())); v }
