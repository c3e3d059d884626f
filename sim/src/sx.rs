//! S-expressions: the replay-file format. Scenarios are printed to and parsed
//! from this form, and the minimiser works on it generically.
use std::fmt;
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Sx { A(String), L(Vec<Sx>) }
pub type PResult<T> = Result<T, String>;
pub fn a<T: fmt::Display>(x: T) -> Sx { Sx::A(x.to_string()) }
pub fn l(xs: Vec<Sx>) -> Sx { Sx::L(xs) }
#[macro_export]
macro_rules! sx { ($($e:expr),* $(,)?) => { $crate::sx::Sx::L(vec![$($crate::sx::Sx::from($e)),*]) } }
impl From<&str> for Sx { fn from(s: &str) -> Sx { Sx::A(s.to_string()) } }
impl From<String> for Sx { fn from(s: String) -> Sx { Sx::A(s) } }
impl From<Vec<Sx>> for Sx { fn from(s: Vec<Sx>) -> Sx { Sx::L(s) } }
macro_rules! num { ($($t:ty),*) => { $(impl From<$t> for Sx { fn from(s: $t) -> Sx { Sx::A(s.to_string()) } })* } }
num!(u8, u16, u32, u64, i64, usize, isize, bool);
impl Sx {
    pub fn list(&self) -> PResult<&[Sx]> { match self { Sx::L(v) => Ok(v), Sx::A(s) => Err(format!("list expected, got {}", s)) } }
    pub fn atom(&self) -> PResult<&str> { match self { Sx::A(s) => Ok(s), _ => Err("atom expected".into()) } }
    pub fn num<T: std::str::FromStr>(&self) -> PResult<T> { self.atom()?.parse().map_err(|_| format!("number expected: {:?}", self)) }
    pub fn at(&self, i: usize) -> PResult<&Sx> { self.list()?.get(i).ok_or_else(|| format!("missing element {} in {}", i, self)) }
    /// Head atom of a list.
    pub fn head(&self) -> PResult<&str> { self.at(0)?.atom() }
    pub fn size(&self) -> usize { match self { Sx::A(_) => 1, Sx::L(v) => 1 + v.iter().map(|x| x.size()).sum::<usize>() } }
}
impl fmt::Display for Sx {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Sx::A(s) => write!(f, "{}", s),
            Sx::L(v) => { write!(f, "(")?; for (i, x) in v.iter().enumerate() { if i > 0 { write!(f, " ")? } write!(f, "{}", x)? } write!(f, ")") }
        }
    }
}
/// Two-level pretty print: one line per second/third-level form.
pub fn pretty(s: &Sx) -> String {
    fn go(s: &Sx, ind: usize, out: &mut String) {
        let flat = s.to_string();
        if flat.len() + ind <= 110 { out.push_str(&flat); return }
        match s {
            Sx::A(x) => out.push_str(x),
            Sx::L(v) => {
                out.push('(');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { out.push('\n'); for _ in 0..ind + 1 { out.push(' ') } }
                    go(x, ind + 1, out)
                }
                out.push(')')
            }
        }
    }
    let mut o = String::new(); go(s, 0, &mut o); o.push('\n'); o
}
pub fn parse(src: &str) -> PResult<Sx> {
    let mut st: Vec<Vec<Sx>> = vec![vec![]];
    let mut tok = String::new();
    let mut comment = false;
    let flush = |tok: &mut String, st: &mut Vec<Vec<Sx>>| { if !tok.is_empty() { st.last_mut().unwrap().push(Sx::A(std::mem::take(tok))) } };
    for c in src.chars() {
        if comment { if c == '\n' { comment = false } continue }
        match c {
            ';' => { flush(&mut tok, &mut st); comment = true }
            '(' => { flush(&mut tok, &mut st); st.push(vec![]) }
            ')' => { flush(&mut tok, &mut st); let v = st.pop().unwrap(); match st.last_mut() { Some(t) => t.push(Sx::L(v)), None => return Err("unbalanced )".into()) } }
            c if c.is_whitespace() => flush(&mut tok, &mut st),
            c => tok.push(c),
        }
    }
    flush(&mut tok, &mut st);
    if st.len() != 1 { return Err("unbalanced (".into()) }
    let v = st.pop().unwrap();
    if v.len() != 1 { return Err(format!("expected one form, got {}", v.len())) }
    Ok(v.into_iter().next().unwrap())
}
