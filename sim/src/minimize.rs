//! Generic minimisation of a failing scenario: works on the S-expression, so
//! it shrinks programs, histories and fault positions alike. A candidate that
//! no longer parses, is not valid, or fails in another way is rejected.
use crate::sx::Sx;
use std::time::{Duration, Instant};

fn get<'a>(s: &'a Sx, p: &[usize]) -> &'a Sx { let mut x = s; for i in p { if let Sx::L(v) = x { x = &v[*i] } } x }
fn edit(s: &Sx, p: &[usize], f: &dyn Fn(&Sx) -> Sx) -> Sx {
    match p.split_first() { None => f(s), Some((i, rest)) => match s { Sx::L(v) => { let mut v = v.clone(); v[*i] = edit(&v[*i], rest, f); Sx::L(v) } x => x.clone() } }
}
fn paths(s: &Sx, cur: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, usize)>) {
    out.push((cur.clone(), s.size()));
    if let Sx::L(v) = s { for (i, x) in v.iter().enumerate() { cur.push(i); paths(x, cur, out); cur.pop(); } }
}
/// `fails` must say whether the candidate still shows the same violation.
pub fn minimize(start: &Sx, budget: Duration, max_tries: usize, fails: &mut dyn FnMut(&Sx) -> bool) -> (Sx, usize) {
    let t0 = Instant::now();
    let mut best = start.clone();
    let mut tries = 0;
    let mut ok = |c: &Sx, tries: &mut usize| -> bool { *tries += 1; *tries <= max_tries && t0.elapsed() < budget && fails(c) };
    loop {
        let before = best.size();
        let before_s = best.to_string();
        // remove runs of elements, big lists first
        let mut ps = vec![]; paths(&best, &mut vec![], &mut ps);
        ps.sort_by_key(|x| std::cmp::Reverse(x.1));
        for (p, _) in ps {
            // the path may have gone away since
            let mut cur = &best; let mut alive = true;
            for i in &p { match cur { Sx::L(v) if *i < v.len() => cur = &v[*i], _ => { alive = false; break } } }
            if !alive { continue }
            if let Sx::L(v) = get(&best, &p) {
                let n = v.len(); let mut chunk = n / 2;
                while chunk >= 1 {
                    let mut i = match get(&best, &p) { Sx::L(v) => v.len().saturating_sub(chunk), _ => 0 };
                    loop {
                        let len = match get(&best, &p) { Sx::L(v) => v.len(), _ => 0 };
                        if i + chunk <= len && len > 0 {
                            let c = edit(&best, &p, &|s| match s { Sx::L(v) => { let mut v = v.clone(); v.drain(i..i + chunk); Sx::L(v) } x => x.clone() });
                            if ok(&c, &mut tries) { best = c }
                        }
                        if i == 0 { break }
                        i = i.saturating_sub(chunk);
                    }
                    chunk /= 2;
                }
            }
        }
        // hoist the body of a nested statement list over its statement; shrink numbers
        let mut ps = vec![]; paths(&best, &mut vec![], &mut ps);
        for (p, _) in ps {
            let mut cur = &best; let mut alive = true;
            for i in &p { match cur { Sx::L(v) if *i < v.len() => cur = &v[*i], _ => { alive = false; break } } }
            if !alive { continue }
            if let Sx::A(a) = get(&best, &p) {
                if let Ok(n) = a.parse::<i64>() {
                    let mut cands = vec![0, 1, n / 2, n - 1]; cands.retain(|c| *c < n && *c >= 0); cands.dedup();
                    for c in cands { let c = edit(&best, &p, &|_| Sx::A(c.to_string())); if ok(&c, &mut tries) { best = c; break } }
                } else if a.starts_with('c') || a.starts_with('e') {
                    if a.len() > 1 && a[1..].parse::<u8>().map(|n| n > 0).unwrap_or(false) { let z = format!("{}0", &a[..1]); let c = edit(&best, &p, &|_| Sx::A(z.clone())); if ok(&c, &mut tries) { best = c } }
                }
            } else if p.len() >= 1 {
                // replace a statement (dst (if r T E)) or (dst (ns s T)) by the elements of T or E
                let nested: Vec<Vec<Sx>> = match get(&best, &p) {
                    Sx::L(v) if v.len() == 2 => match &v[1] { Sx::L(o) if matches!(o.first(), Some(Sx::A(h)) if h == "if" || h == "ns") => o.iter().skip(2).filter_map(|x| x.list().ok().map(|l| l.to_vec())).collect(), _ => vec![] },
                    _ => vec![],
                };
                let (last, parent) = p.split_last().unwrap();
                for n in nested {
                    let c = edit(&best, parent, &|s| match s { Sx::L(v) => { let mut w = v[..*last].to_vec(); w.extend(n.clone()); w.extend(v[*last + 1..].to_vec()); Sx::L(w) } x => x.clone() });
                    if ok(&c, &mut tries) { best = c; break }
                }
            }
        }
        if (best.size() >= before && best.to_string() == before_s) || t0.elapsed() >= budget || tries > max_tries { break }
    }
    (best, tries)
}
