//! C03 gcmd files, C04 TGF files
use crate::gen::*;
use crate::harness;
use crate::store::agree;
use crate::sx;
use gc_core::directed_graph::DirectedGraph;
use gc_core::format::{gcmd, tgf};
use gc_core::graph_command::GraphCommand;
use gc_core::graph_command::GraphCommand::*;
use std::fs::File;

#[derive(Clone, Copy, PartialEq)]
enum F {
    Gcmd,
    Tgf,
}
fn read(f: F, name: &str) -> Result<DirectedGraph, String> {
    let h = File::open(sx::path(name)).map_err(|e| e.to_string())?;
    match f {
        F::Gcmd => gcmd::read(h),
        F::Tgf => tgf::read(h),
    }
}
fn read_cmds(f: F, name: &str) -> Result<Vec<GraphCommand>, String> {
    let h = File::open(sx::path(name)).map_err(|e| e.to_string())?;
    match f {
        F::Gcmd => gcmd::read_as_commands(h),
        F::Tgf => tgf::read_as_commands(h),
    }
}
fn save(f: F, g: &DirectedGraph, name: &str) -> bool {
    match f {
        F::Gcmd => gcmd::save(g, &sx::path(name)).is_ok(),
        F::Tgf => tgf::save(g, sx::path(name)).is_ok(),
    }
}
/// initialise the lazily built tables before any input is chosen
fn warm(f: F) {
    sx::put("warm", b"# nothing\n\nx\n");
    let _ = read_cmds(f, "warm");
    let t: &[u8] = match f {
        F::Gcmd => b"RemoveVertex 1\n",
        F::Tgf => b"1\n",
    };
    sx::put("warm", t);
    let _ = read_cmds(f, "warm");
}
/// a graph over ids 0..=max
fn small(m: usize, extra: usize, max: u64) -> (SG, DirectedGraph) {
    let mut s = SG::new();
    for _ in 0..sx::choose(extra + 1) {
        s.vertex(sx::upto(max));
    }
    for _ in 0..sx::choose(m + 1) {
        let (a, b) = (sx::upto(max), sx::upto(max));
        s.edge(a, b);
    }
    let g = s.build();
    (s, g)
}
/// m edges between extreme ids
fn extreme(m: usize) -> (SG, DirectedGraph) {
    let l = [0, 9, 10, 1 << 32, (1 << 63) - 1, 9999999999999999999, 10000000000000000000, u64::MAX];
    let mut s = SG::new();
    for _ in 0..m {
        let (a, b) = (l[sx::choose(8)], l[sx::choose(8)]);
        s.edge(a, b);
    }
    s.vertex(l[sx::choose(8)]);
    let g = s.build();
    (s, g)
}
/// more than one buffer of data, with one symbolic edge
fn large(n: u64) -> (SG, DirectedGraph) {
    let mut s = SG::new();
    for i in 0..n {
        s.vertex(1000000 + i);
    }
    for i in 0..n {
        for k in 1..6 {
            let (a, b) = (i as usize, ((i * k + 1) % n) as usize);
            s.adj[a][b] = true;
        }
    }
    let x = sx::upto(9);
    s.edge(1000000, x);
    let g = s.build();
    (s, g)
}
/// saving a graph and reading the file back gives the same graph
fn round(f: F, s: &SG, g: &DirectedGraph) {
    sx::order_any2();
    // a file that is already there is replaced
    sx::put("g", b"AddVertex 77\n77\n");
    sx::check(save(f, g, "g"), "saving succeeds");
    match read(f, "g") {
        Ok(g2) => agree(s, &g2),
        Err(_) => sx::check(false, "a saved graph can be read back"),
    }
    sx::cover(0);
}
fn cmd(max: u64) -> GraphCommand {
    let op = sx::choose(4);
    let a = v(sx::upto(max));
    match op {
        0 => AddVertex(a),
        1 => RemoveVertex(a),
        2 => AddEdge(a, v(sx::upto(max))),
        _ => RemoveEdge(a, v(sx::upto(max))),
    }
}
/// commands appended to a file come after the ones it had, in order
fn append(k: usize, l: usize, max: u64) {
    let (a, b): (Vec<_>, Vec<_>) = ((0..k).map(|_| cmd(max)).collect(), (0..l).map(|_| cmd(max)).collect());
    sx::put("g", b"");
    sx::check(gcmd::add_commands(&sx::path("g"), a.clone()).is_ok(), "appending succeeds");
    sx::check(gcmd::add_commands(&sx::path("g"), b.clone()).is_ok(), "appending succeeds");
    let mut want = a;
    want.extend(b);
    match read_cmds(F::Gcmd, "g") {
        Err(_) => sx::check(false, "appended commands can be read back"),
        Ok(got) => {
            sx::check(got.len() == want.len(), "as many commands are read as were written");
            for i in 0..want.len() {
                sx::check(got[i] == want[i], "the commands are read in the order they were written");
            }
        }
    }
    sx::cover(0);
}
/// appending to a missing file is an error and does not create it
fn append_missing() {
    sx::check(gcmd::add_commands(&sx::path("none"), vec![AddVertex(v(1))]).is_err(), "appending to a missing file fails");
    sx::check(sx::get("none").is_none(), "appending does not create the file");
    sx::cover(0);
}

// ---------------------------------------------------------------- grammar
fn ws(b: u8) -> bool {
    (b >= 9 && b <= 13) || b == 32
}
fn dig(b: u8) -> bool {
    b >= b'0' && b <= b'9'
}
/// decimal number at position i: (value or overflow, end)
fn num(l: &[u8], mut i: usize) -> Option<(Option<u64>, usize)> {
    let st = i;
    let mut v: Option<u64> = Some(0);
    while i < l.len() && dig(l[i]) {
        v = v.and_then(|x| x.checked_mul(10)).and_then(|x| x.checked_add((l[i] - b'0') as u64));
        i += 1;
    }
    if i == st {
        None
    } else {
        Some((v, i))
    }
}
fn spaces(l: &[u8], mut i: usize) -> usize {
    while i < l.len() && ws(l[i]) {
        i += 1;
    }
    i
}
fn starts(l: &[u8], p: &str) -> bool {
    l.len() >= p.len() && l[..p.len()] == *p.as_bytes()
}
/// reference reading of one non-empty line of ASCII text; None: not a valid line
fn line(f: F, l: &[u8]) -> Option<GraphCommand> {
    if f == F::Tgf {
        let (a, i) = num(l, 0)?;
        let j = spaces(l, i);
        if j > i {
            if let Some((b, _)) = num(l, j) {
                return Some(AddEdge(v(a?), v(b?)));
            }
        }
        return Some(AddVertex(v(a?)));
    }
    for (k, p) in ["AddVertex ", "RemoveVertex ", "AddEdge ", "RemoveEdge "].iter().enumerate() {
        if starts(l, p) {
            let (a, i) = num(l, p.len())?;
            if k < 2 {
                if i != l.len() {
                    return None;
                }
                return Some(if k == 0 { AddVertex(v(a?)) } else { RemoveVertex(v(a?)) });
            }
            let j = spaces(l, i);
            if j == i {
                return None;
            }
            let (b, q) = num(l, j)?;
            if q != l.len() {
                return None;
            }
            return Some(if k == 2 { AddEdge(v(a?), v(b?)) } else { RemoveEdge(v(a?), v(b?)) });
        }
    }
    None
}
/// reference reading of a file of ASCII text
fn file(f: F, t: &[u8]) -> Option<Vec<GraphCommand>> {
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        let mut j = i;
        while j < t.len() && t[j] != b'\n' {
            j += 1;
        }
        let mut e = j;
        if j < t.len() && e > i && t[e - 1] == b'\r' {
            e -= 1;
        }
        let l = &t[i..e];
        i = j + 1;
        if l.is_empty() {
            continue;
        }
        let s = spaces(l, 0);
        if s < l.len() && l[s] == b'#' {
            continue;
        }
        out.push(line(f, l)?);
    }
    Some(out)
}
fn grammar(f: F, pre: &[&str], n: usize, post: &[&str]) {
    warm(f);
    let mut t: Vec<u8> = pre[sx::choose(pre.len())].bytes().collect();
    let k = sx::choose(n + 1);
    for _ in 0..k {
        let b = sx::u8v();
        sx::assume(b < 128);
        t.push(b);
    }
    t.extend(post[sx::choose(post.len())].bytes());
    sx::put("g", &t);
    let got = read_cmds(f, "g");
    let want = file(f, &t);
    match (got, want) {
        (Ok(g), Some(w)) => {
            sx::cover(0);
            sx::check(g.len() == w.len(), "one command per line");
            for i in 0..w.len() {
                sx::check(g[i] == w[i], "a line is read as the command it says");
            }
        }
        (Err(_), None) => sx::cover(1),
        (Ok(_), None) => sx::check(false, "a malformed line is accepted"),
        (Err(_), Some(_)) => sx::check(false, "a well-formed file is rejected"),
    }
}
/// arbitrary bytes: reading ends with a value or an error
fn total(f: F, pre: &[&str], n: usize) {
    warm(f);
    let mut t: Vec<u8> = pre[sx::choose(pre.len())].bytes().collect();
    let k = sx::choose(n + 1);
    for _ in 0..k {
        t.push(sx::u8v());
    }
    sx::put("g", &t);
    let a = read_cmds(f, "g");
    let b = read(f, "g");
    sx::check(a.is_ok() == b.is_ok(), "both readers accept the same files");
    if std::str::from_utf8(&t).is_err() {
        sx::check(a.is_err(), "text in an invalid encoding is reported");
    }
    sx::cover(a.is_ok() as u32);
}
/// ids around and beyond the range of ids, as text
fn long_ids(f: F, n: usize) {
    warm(f);
    // n symbolic digits after a fixed leading part
    let heads = ["", "1844674407370955", "18446744073709551", "0000000000000000", "1844674407370955161"];
    let mut t: Vec<u8> = match f {
        F::Gcmd => ["AddVertex ", "RemoveVertex ", "AddEdge 1 ", "RemoveEdge 1\t"][sx::choose(4)].bytes().collect(),
        F::Tgf => ["", "1 "][sx::choose(2)].bytes().collect(),
    };
    t.extend(heads[sx::choose(heads.len())].bytes());
    for _ in 0..n {
        let b = sx::u8v();
        sx::assume(dig(b));
        t.push(b);
    }
    sx::put("g", &t);
    let got = read_cmds(f, "g");
    let want = file(f, &t);
    match (got, want) {
        (Ok(g), Some(w)) => {
            sx::cover(0);
            sx::check(g.len() == 1 && g[0] == w[0], "an id is read as its decimal value");
        }
        (Err(_), None) => sx::cover(1),
        (Ok(_), None) => sx::check(false, "an id out of range is accepted"),
        (Err(_), Some(_)) => sx::check(false, "a valid id is rejected"),
    }
}
const GP: [&str; 6] = ["", "AddVertex ", "AddEdge 1", "RemoveEdge 1 ", "RemoveVertex ", "AddVertex 1\n"];
harness! {
    c03_round_any => { sx::order(0); warm(F::Gcmd); let (s, g) = small(0, 1, u64::MAX); round(F::Gcmd, &s, &g) };
    c03_round_e1 => { sx::order(0); warm(F::Gcmd); let (s, g) = small(1, 0, 99999); round(F::Gcmd, &s, &g) };
    c03_round_e2 => { sx::order(2); warm(F::Gcmd); let (s, g) = small(2, 1, 99); round(F::Gcmd, &s, &g) };
    c03_round_e2s => { sx::order(2); warm(F::Gcmd); let (s, g) = small(2, 1, 9); round(F::Gcmd, &s, &g) };
    c03_round_lim => { sx::order(0); warm(F::Gcmd); let (s, g) = extreme(1); round(F::Gcmd, &s, &g) };
    c03_round_lim2 => { sx::order(0); warm(F::Gcmd); let (s, g) = extreme(2); round(F::Gcmd, &s, &g) };
    c03_large => { sx::order(0); warm(F::Gcmd); let (s, g) = large(60); round(F::Gcmd, &s, &g) };
    c03_round_e3 => { sx::order(0); warm(F::Gcmd); let (s, g) = small(3, 1, 9); round(F::Gcmd, &s, &g) };
    c03_append11 => { sx::order(0); warm(F::Gcmd); append(1, 1, 999) };
    c03_append1 => { sx::order(0); warm(F::Gcmd); append(0, 1, u64::MAX) };
    c03_append22 => { sx::order(0); warm(F::Gcmd); append(2, 2, 9) };
    c03_missing => append_missing();
    c03_grammar2 => grammar(F::Gcmd, &GP, 2, &["", "\n", "2\n", " 3\nAddVertex 4"]);
    c03_grammar3 => grammar(F::Gcmd, &GP, 3, &["", "2"]);
    c03_word => grammar(F::Gcmd, &["Add", "Remove"], 3, &["tex 1", "ge 1 2"]);
    c03_total2 => total(F::Gcmd, &GP, 2);
    c03_total3 => total(F::Gcmd, &["", "AddVertex 1", "AddEdge 1 ", "#"], 3);
    c03_ids2 => long_ids(F::Gcmd, 2);
    c03_ids3 => long_ids(F::Gcmd, 4);
    c04_round_any => { sx::order(0); warm(F::Tgf); let (s, g) = small(0, 1, u64::MAX); round(F::Tgf, &s, &g) };
    c04_round_e1 => { sx::order(0); warm(F::Tgf); let (s, g) = small(1, 0, 99999); round(F::Tgf, &s, &g) };
    c04_round_e2 => { sx::order(2); warm(F::Tgf); let (s, g) = small(2, 1, 99); round(F::Tgf, &s, &g) };
    c04_round_e2s => { sx::order(2); warm(F::Tgf); let (s, g) = small(2, 1, 9); round(F::Tgf, &s, &g) };
    c04_round_lim => { sx::order(0); warm(F::Tgf); let (s, g) = extreme(1); round(F::Tgf, &s, &g) };
    c04_round_lim2 => { sx::order(0); warm(F::Tgf); let (s, g) = extreme(2); round(F::Tgf, &s, &g) };
    c04_large => { sx::order(0); warm(F::Tgf); let (s, g) = large(60); round(F::Tgf, &s, &g) };
    c04_round_e3 => { sx::order(0); warm(F::Tgf); let (s, g) = small(3, 1, 9); round(F::Tgf, &s, &g) };
    c04_grammar2 => grammar(F::Tgf, &["", "1", "1 ", "12\n", "1 2 "], 2, &["", "\n", "2\n", " 3 label\n4"]);
    c04_grammar3 => grammar(F::Tgf, &["", "1", "1 "], 3, &["", "2"]);
    c04_total2 => total(F::Tgf, &["", "1", "1 ", "1 2", "#"], 2);
    c04_total3 => total(F::Tgf, &["", "1", "1 "], 3);
    c04_ids2 => long_ids(F::Tgf, 2);
    c04_ids3 => long_ids(F::Tgf, 4);
}
