// compares model/regex with the real crate: random patterns of the supported syntax, random texts
use std::panic::catch_unwind;
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}
fn atom(r: &mut Rng, d: usize) -> String {
    match r.below(if d == 0 { 14 } else { 17 }) {
        0 | 1 => "\\d".into(),
        2 => "\\s".into(),
        3 => "\\w".into(),
        4 => ".".into(),
        5 => "a".into(),
        6 => "#".into(),
        7 => "[0-9]".into(),
        8 => "[^ ]".into(),
        9 => " ".into(),
        10 => "\\S".into(),
        11 => "[a-c\\d]".into(),
        12 => "x".into(),
        13 => ["^", "$", "\\D", "\\W", "[^\\s#]", "b"][r.below(6)].into(),
        14 => format!("({})", pat(r, d - 1)),
        15 => format!("(?:{})", pat(r, d - 1)),
        _ => format!("({}|{})", pat(r, d - 1), pat(r, d - 1)),
    }
}
fn pat(r: &mut Rng, d: usize) -> String {
    let n = 1 + r.below(4);
    let mut s = String::new();
    for _ in 0..n {
        let a = atom(r, d);
        s += &a;
        if !matches!(a.as_str(), "^" | "$" | "\\b") {
            s += ["", "", "", "*", "+", "?", "+?", "*?", "{1,2}", "{2}", "{1,}"][r.below(11)];
        }
    }
    s
}
fn text(r: &mut Rng) -> String {
    let n = r.below(9);
    (0..n).map(|_| ['0', '1', '9', 'a', 'b', 'Z', ' ', '\t', '#', '\n', '_', '-', '\u{661}', '\u{a0}', 'é'][r.below(15)]).collect()
}
fn main() {
    let n: usize = std::env::args().nth(1).and_then(|x| x.parse().ok()).unwrap_or(20000);
    let mut r = Rng(88172645463325252);
    let fixed = [r"^AddVertex (\d+)$", r"^AddEdge (\d+)\s+(\d+)$", r"^RemoveVertex (\d+)$", r"^RemoveEdge (\d+)\s+(\d+)$", r"^(\d+)(.*)$", r"^(\d+)\s+(\d+)(.*)$", r"^(?P<a>\d+)\s*(?:#.*)?$", r"(?i)^add(vertex|edge)\s"];
    let (mut both, mut bad, mut matched) = (0, 0, 0);
    for k in 0..n {
        let p = if k % 4 == 0 { fixed[r.below(fixed.len())].to_string() } else { let mut p = pat(&mut r, 2); if r.below(2) == 0 { p = format!("^{}$", p) } p };
        // an unbounded repetition of something that can be empty: the engines differ in corner cases, no source uses it
        if p.contains(")*") || p.contains(")+") || p.contains("){1,}") {
            continue;
        }
        let a = real::Regex::new(&p);
        let b = catch_unwind(|| model::Regex::new(&p)).unwrap_or(Err(model::Error::Syntax("panic".into())));
        let (a, b) = match (a, b) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(_), Err(_)) => continue,
            (a, b) => {
                println!("DIFF pattern {:?}: real ok={} model ok={}", p, a.is_ok(), b.is_ok());
                bad += 1;
                continue;
            }
        };
        both += 1;
        for _ in 0..25 {
            let mut t = text(&mut r);
            if k % 4 == 0 && r.below(2) == 0 {
                t = ["AddVertex ", "AddEdge ", "RemoveVertex ", "RemoveEdge ", "12 ", "ADDedge "][r.below(6)].to_string() + &t;
            }
            let x: Vec<Vec<Option<(usize, usize)>>> = a.captures_iter(&t).map(|c| (0..c.len()).map(|i| c.get(i).map(|m| (m.start(), m.end()))).collect()).collect();
            let y: Vec<Vec<Option<(usize, usize)>>> = b.captures_iter(&t).map(|c| (0..c.len()).map(|i| c.get(i).map(|m| (m.start(), m.end()))).collect()).collect();
            matched += x.len().min(1);
            if x != y || a.is_match(&t) != b.is_match(&t) || a.replace_all(&t, "<$0-${1}>") != b.replace_all(&t, "<$0-${1}>") || a.replace(&t, "$$x") != b.replace(&t, "$$x") || a.split(&t).collect::<Vec<_>>() != b.split(&t).collect::<Vec<_>>() {
                println!("DIFF {:?} on {:?}: real {:?} model {:?}", p, t, x, y);
                bad += 1;
                break;
            }
        }
    }
    println!("patterns {} (both accept {}), texts with a match {}, differences {}", n, both, matched, bad);
    std::process::exit((bad > 0) as i32)
}
