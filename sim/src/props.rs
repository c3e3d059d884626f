//! What each property's check runs and which kinds of violation it owns.
use crate::gen::{self, Prof};
use crate::prog::*;
use crate::real::Class::{self, *};
use crate::rng::Rng;
use crate::run::{self, GraphChk, Opts, Outcome};
use crate::sx::{PResult, Sx};
use std::rc::Rc;

pub struct Lane { pub name: &'static str, pub weight: usize, pub make: fn(&mut Rng) -> Sx }
pub struct Spec { pub id: &'static str, pub owned: &'static [Class], pub lanes: Vec<Lane>, pub quick: u64, pub thorough: u64, pub nontrivial: &'static str }

fn scn(r: &mut Rng, p: &Prof) -> Sx { gen::gen(r, p).to_sx() }
// ---- graph profiles ----
fn p_c01(r: &mut Rng) -> Sx { let mut p = gen::base(); if r.chance(25) { p.pool = 30; p.arts_out = 70; p.demand = 70 } p.rootcell = if r.chance(30) { 5 } else { 0 }; if r.chance(30) { p.panics = 3; p.fault = 8 } if r.chance(20) { p.trip = 8 } if r.chance(20) { p.cfgs = &[CFG_NOPURITY] } scn(r, &p) }
fn p_c02(r: &mut Rng) -> Sx { let mut p = gen::base(); p.force = 15; p.map = 22; p.abs = 14; p.dup = 25; p.tmap = 6; p.settup = 12; p.how = [20, 10, 8, 2, 2]; p.cell = [12, 3, 3]; p.fault = 2; p.panics = if r.chance(25) { 2 } else { 0 }; p.revert = 14; scn(r, &p) }
fn p_c03(r: &mut Rng) -> Sx { let mut p = gen::base(); p.revert = 25; p.fault = 3; p.cell = [12, 2, 2]; p.panics = 0; p.ifs = 12; if r.chance(30) { p.map = 0; p.abs = 0 } scn(r, &p) }
fn p_c04(r: &mut Rng) -> Sx { let mut p = gen::base(); p.ifs = 18; p.setptr = 14; p.panics = 4; p.thunk = [14, 6, 4, 4, 1, 3, 3]; scn(r, &p) }
fn p_c05(r: &mut Rng) -> Sx { let mut p = gen::base(); if r.chance(25) { p.trip = 12; p.map = 14 } p.rootcell = if r.chance(40) { 6 } else { 0 }; p.fault = 8; p.abort = 3; p.dup = 20; p.ifs = 14; p.cell = [12, 3, 3]; p.reroot = 10; if r.chance(30) { p.wfflag = 3 } if r.chance(15) { p.cfgs = &[CFG_NOPURITY] } scn(r, &p) }
fn p_c06(r: &mut Rng) -> Sx { let mut p = gen::base(); p.ns = 12; p.nameval = 10; p.cell = [14, 3, 6]; p.thunk = [16, 8, 6, 6, 1, 2, 5]; p.rootcell = 6; p.auto = 6; p.how = [20, 2, 1, 8, 8]; p.abort = 3; scn(r, &p) }
fn p_c07(r: &mut Rng) -> Sx { let mut p = gen::base(); if r.chance(50) { p.trip = 22; p.map = 14; p.rootcell = 3; p.over = 6 } p.fault = 35; p.panics = 6; p.abort = 8; p.ns = 8; p.rootcell = if r.chance(20) { 4 } else { 0 }; if r.chance(30) { p.trace = 8 } scn(r, &p) }
fn p_c08(r: &mut Rng) -> Sx { let mut p = gen::base(); p.engines = (2, 4); p.poke = 4; p.fault = 6; p.auto = 0; p.abort = 3; if r.chance(20) { p.cfgs = &[CFG_NOPURITY, CFG_WF] } scn(r, &p) }
fn p_thr(r: &mut Rng) -> Sx {
    crate::threads::gen(r, &mut |r| match r.below(10) {
        0 | 1 => crate::coll::gen_any(r), 2 => crate::cycles::gen_traced(r), 4 => crate::macs::gen(r),
        k => { let mut p = gen::base(); p.fault = 6; p.auto = 12; p.abort = 3; p.ns = 8; p.trace = if k == 3 { 10 } else { 0 }; p.engines = (1, 2); p.rootcell = if r.chance(20) { 3 } else { 0 }; if r.chance(20) { p.cfgs = &[CFG_NOPURITY, CFG_WF, 0]; p.wfflag = 2 } scn(r, &p) }
    })
}
fn p_c09(r: &mut Rng) -> Sx { let mut p = gen::base(); p.clash = 16; p.clash_in = 6; p.rootcell = if r.chance(20) { 3 } else { 0 }; p.ns = 8; p.fault = 6; if r.chance(30) { p.engines = (1, 3) } scn(r, &p) }
fn p_c11(r: &mut Rng) -> Sx {
    let mut p = gen::base(); p.fault = 0; p.panics = 1; p.abort = 2;
    match r.below(10) {
        0 | 1 => { p.cfgs = &[CFG_NAIVE]; p.auto = 0; p.clash_in = 0; p.how = [30, 3, 2, 0, 0] }
        2 | 3 => { p.cfgs = &[CFG_NOPURITY, CFG_NOPURITY | CFG_WF] }
        4 | 5 => { p.cfgs = &[CFG_STRUCTURAL, CFG_STRUCTURAL | CFG_NOPURITY, CFG_STRUCTURAL | CFG_WF]; p.auto = 0 }
        6 => { p.cfgs = &[CFG_WF]; p.wfflag = 4 }
        7 => { p.cfgs = &[CFG_WRITE, CFG_WRITE | CFG_WF]; }
        _ => { p.cfgs = &[0]; p.cell = [6, 2, 12]; p.thunk = [10, 6, 4, 12, 1, 2, 2]; p.abort = 8 }
    }
    scn(r, &p)
}
fn p_c12(r: &mut Rng) -> Sx { let mut p = gen::base(); p.trace = 22; p.fault = 8; p.panics = 2; p.dup = 12; p.reroot = 10; p.rootcell = if r.chance(20) { 3 } else { 0 }; p.cell = [12, 3, 3]; scn(r, &p) }

pub fn specs() -> Vec<Spec> {
    fn g(f: fn(&mut Rng) -> Sx) -> Lane { Lane { name: "graph", weight: 10, make: f } }
    fn mac(w: usize) -> Lane { Lane { name: "macros", weight: w, make: crate::macs::gen } }
    fn coll(w: usize, f: fn(&mut Rng) -> Sx) -> Lane { Lane { name: "collections", weight: w, make: f } }
    const GRAPH_RULE: &str = "a run counts when, after its first demand, it changed something and demanded again with a cached thunk reused or re-run; runs are distinct by the hash of the whole scenario (program, history, faults)";
    vec![
        Spec { id: "C01", owned: &[Value, Observed, Panic, Hang], lanes: vec![g(p_c01), mac(1)], quick: 300_000, thorough: 2_000_000, nontrivial: GRAPH_RULE },
        Spec { id: "C02", owned: &[Value, Observed, Panic, Hang, MapArg, Reexec], lanes: vec![g(p_c02)], quick: 300_000, thorough: 2_000_000, nontrivial: GRAPH_RULE },
        Spec { id: "C03", owned: &[Reexec, Twice, Hang], lanes: vec![g(p_c03), coll(2, crate::coll::gen_cost), mac(1)], quick: 300_000, thorough: 2_000_000, nontrivial: GRAPH_RULE },
        Spec { id: "C04", owned: &[Outside, Extra, Hang], lanes: vec![g(p_c04), coll(1, crate::coll::gen_cost)], quick: 300_000, thorough: 2_000_000, nontrivial: GRAPH_RULE },
        Spec { id: "C05", owned: &[Graph, State, Hang], lanes: vec![g(p_c05), coll(1, crate::coll::gen_any)], quick: 120_000, thorough: 1_500_000, nontrivial: GRAPH_RULE },
        Spec { id: "C06", owned: &[Identity, Value, Observed, Panic, State, Hang], lanes: vec![g(p_c06), Lane { name: "names", weight: 5, make: crate::names::gen }, mac(1)], quick: 200_000, thorough: 1_500_000, nontrivial: GRAPH_RULE },
        Spec { id: "C07", owned: &[Value, Observed, Panic, State, Graph, Trace, Twice, Hang], lanes: vec![g(p_c07), coll(2, crate::coll::gen_faulty), Lane { name: "cyclic", weight: 2, make: crate::cycles::gen_faulty }], quick: 160_000, thorough: 1_500_000, nontrivial: GRAPH_RULE },
        Spec { id: "C08", owned: &[Iso, Value, Panic, Identity, State, Hang], lanes: vec![g(p_c08), Lane { name: "threads", weight: 5, make: p_thr }], quick: 80_000, thorough: 600_000, nontrivial: GRAPH_RULE },
        Spec { id: "C09", owned: &[Clash, Outside, Value, Panic, State, Hang], lanes: vec![g(p_c09), mac(2)], quick: 120_000, thorough: 1_000_000, nontrivial: GRAPH_RULE },
        Spec { id: "C10", owned: &[Value, Panic, Hang, Reexec, Twice, State, Graph], lanes: vec![Lane { name: "cyclic_trees_with_edits", weight: 6, make: crate::cycles::gen_tree }, Lane { name: "cyclic_digraphs", weight: 6, make: crate::cycles::gen_digraph }], quick: 700_000, thorough: 3_000_000,
               nontrivial: "a run counts when a cycle value was returned and, in the lane with edits, one was returned after an edit, or, in the lane without, the graph has at least three nodes and two demands were made; runs are distinct by the hash of the whole scenario" },
        Spec { id: "C11", owned: &[Config, Value, Observed, Panic, State, Hang], lanes: vec![g(p_c11), mac(3)], quick: 160_000, thorough: 1_200_000, nontrivial: GRAPH_RULE },
        Spec { id: "C12", owned: &[Trace, Hang], lanes: vec![g(p_c12), Lane { name: "cyclic", weight: 4, make: crate::cycles::gen_traced }], quick: 100_000, thorough: 800_000, nontrivial: GRAPH_RULE },
        Spec { id: "C13", owned: &[Value, Panic, Hang], lanes: vec![Lane { name: "lists", weight: 1, make: crate::coll::gen_lists }], quick: 200_000, thorough: 1_500_000, nontrivial: COLL_RULE },
        Spec { id: "C14", owned: &[Value, Panic, Hang], lanes: vec![Lane { name: "trees", weight: 1, make: crate::coll::gen_trees }], quick: 200_000, thorough: 1_500_000, nontrivial: COLL_RULE },
    ]
}
const COLL_RULE: &str = "a run counts when at least one edit was made and a pipeline of at least one library operation was demanded after it and, in all, more than once; runs are distinct by the hash of the whole scenario";
fn digests(o: &Outcome, e: Option<u8>) -> Vec<&String> { o.digest.iter().filter(|d| e.map(|e| d.0 == e).unwrap_or(true)).map(|d| &d.1).collect() }
/// Run one scenario for one property. Deterministic in (prop, scenario).
pub fn exec(prop: &str, s: &Sx) -> PResult<Outcome> {
    crate::real::OPAQUE.with(|o| o.set(false));
    match s.head()? {
        "graph" => {
            let scn = Scn::from_sx(s)?;
            if !run::valid(&scn) { return Err("not a valid scenario".into()) }
            let graph = match prop { "C05" => GraphChk::Every, "C07" | "C09" | "C11" | "C12" => GraphChk::Some, _ => GraphChk::End };
            let run = |only, strip| run_isolated(scn.clone(), graph, only, strip);
            let mut o = run(None, false);
            match prop {
                "C12" if !o.viols.iter().any(|v| v.class == Trace) => {
                    let t = run(None, true);
                    if t.viols.is_empty() { if let Some(v) = o.viols.get(0).cloned() { o.viols.push(crate::real::Viol { class: Trace, op: v.op, msg: format!("only while recording: {}", v.msg) }) } }
                    if !o.viols.is_empty() { return Ok(o) }
                    let (a, b) = (digests(&o, None), digests(&t, None));
                    if let Some(i) = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)) {
                        let m = format!("with tracing: {:?}; without: {:?}", a.get(i), b.get(i));
                        o.viols.push(crate::real::Viol { class: Trace, op: i, msg: m });
                    }
                }
                "C08" if scn.engines > 1 && !o.viols.is_empty() => {
                    if (0..scn.engines).all(|e| run(Some(e), false).viols.is_empty()) { let v = o.viols[0].clone(); o.viols.push(crate::real::Viol { class: Iso, op: v.op, msg: format!("only alongside other engines: {}", v.msg) }) }
                }
                "C08" => for e in 0..scn.engines {
                    let t = run(Some(e), false);
                    let (a, b) = (digests(&o, Some(e)), digests(&t, None));
                    if let Some(i) = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)) {
                        let m = format!("engine {} alongside others: {:?}; alone: {:?}", e, a.get(i), b.get(i));
                        o.viols.push(crate::real::Viol { class: Iso, op: i, msg: m });
                    }
                },
                _ => {}
            }
            Ok(o)
        }
        "cyc" => { let c = crate::cycles::Cyc::from_sx(s)?; 
            let c2 = c.clone();
            let mut o = fresh_thread(move || crate::cycles::run(&c, false));
            if c2.cfg & 2 != 0 && !o.viols.iter().any(|v| v.class == Trace) {
                let t = fresh_thread(move || crate::cycles::run(&c2, true));
                if t.viols.is_empty() { if let Some(v) = o.viols.get(0).cloned() { o.viols.push(crate::real::Viol { class: Trace, op: v.op, msg: format!("only while recording: {}", v.msg) }) } }
                if !o.viols.is_empty() { return Ok(o) }
                if o.digest != t.digest { o.viols.push(crate::real::Viol { class: Trace, op: 0, msg: format!("with tracing: {:?}; without: {:?}", o.digest, t.digest) }) }
            }
            Ok(o)
        }
        "coll" => { let c = crate::coll::Coll::from_sx(s)?; Ok(fresh_thread(move || crate::coll::run(&c))) }
        "names" => { let c = crate::names::Nms::from_sx(s)?; Ok(fresh_thread(move || crate::names::run(&c))) }
        "macros" => { let c = crate::macs::Macs::from_sx(s)?; Ok(fresh_thread(move || crate::macs::run(&c))) }
        "threads" => Ok(crate::threads::run(&crate::threads::Thr::from_sx(s)?)),
        x => Err(format!("unknown workload {}", x)),
    }
}
/// The run of a scenario that needs one thread only.
pub fn plain(s: &Sx) -> PResult<Box<dyn FnOnce() -> Outcome + Send>> {
    Ok(match s.head()? {
        "graph" => {
            let scn = Scn::from_sx(s)?;
            if !run::valid(&scn) || scn.cfg & CFG_WRITE != 0 { return Err("not a valid scenario".into()) }
            Box::new(move || run::run_scn(&scn, &Opts::default()))
        }
        "cyc" => { let c = crate::cycles::Cyc::from_sx(s)?; Box::new(move || crate::cycles::run(&c, false)) }
        "coll" => { let c = crate::coll::Coll::from_sx(s)?; Box::new(move || crate::coll::run(&c)) }
        "macros" => { let c = crate::macs::Macs::from_sx(s)?; Box::new(move || crate::macs::run(&c)) }
        x => return Err(format!("no single-threaded workload {}", x)),
    })
}
pub const STACK: usize = 192 << 20;
/// Each run gets a fresh thread: the library keeps all its state in
/// thread-local variables.
pub fn fresh_thread(f: impl FnOnce() -> Outcome + Send + 'static) -> Outcome {
    match std::thread::Builder::new().stack_size(STACK).spawn(f).expect("spawn").join() {
        Ok(v) => v,
        // a library call at a place where the harness expects none to panic
        Err(p) => Outcome { viols: vec![crate::real::Viol { class: Panic, op: 0, msg: format!("uncaught panic: {:?}", crate::real::classify(p)) }], ..Outcome::default() },
    }
}
fn run_isolated(scn: Scn, graph: GraphChk, only: Option<u8>, strip: bool) -> Outcome {
    fresh_thread(move || run::run_scn(&scn, &Opts { graph, only, strip_trace: strip }))
}
pub fn is_nontrivial(p: &str, o: &Outcome) -> bool { if let "C10" | "C13" | "C14" = p { return o.nontrivial } let s = &o.stats; o.nontrivial || (s.demands > 1 && s.edits + s.reroots + s.kindchg > 0 && s.reruns + s.reuse > 0) }
#[allow(dead_code)]
fn _k(_: Rc<()>) {}
