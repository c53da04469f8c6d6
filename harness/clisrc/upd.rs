//! C20 gc-add and gc-delete
use crate::base::*;
use crate::cli::Bin::*;
use crate::cli::*;
use crate::gen::*;
use crate::harness;
use crate::sx;

#[derive(Clone, Copy, PartialEq)]
pub enum Opt {
    Vertex,
    Edge,
    Chain,
    Cycle,
    Star,
    Clique,
}
pub const OPTS: [Opt; 6] = [Opt::Vertex, Opt::Edge, Opt::Chain, Opt::Cycle, Opt::Star, Opt::Clique];
pub fn flag(o: Opt, long: bool) -> &'static [u8] {
    match (o, long) {
        (Opt::Vertex, true) => b"--vertex",
        (Opt::Vertex, false) => b"-v",
        (Opt::Edge, true) => b"--edge",
        (Opt::Edge, false) => b"-e",
        (Opt::Chain, true) => b"--chain",
        (Opt::Chain, false) => b"-c",
        (Opt::Cycle, true) => b"--cycle",
        (Opt::Cycle, false) => b"-O",
        (Opt::Star, true) => b"--star",
        (Opt::Star, false) => b"-X",
        (Opt::Clique, true) => b"--clique",
        (Opt::Clique, false) => b"-C",
    }
}
/// what an option adds
pub fn added(o: Opt, ids: &[u64], rev: bool, s: &mut SG) {
    let mut e: Vec<(u64, u64)> = vec![];
    let n = ids.len();
    match o {
        Opt::Vertex => {
            for a in ids {
                s.vertex(*a);
            }
        }
        Opt::Edge => {
            for i in 0..n / 2 {
                e.push((ids[2 * i], ids[2 * i + 1]));
            }
        }
        Opt::Chain => {
            for i in 1..n {
                e.push((ids[i - 1], ids[i]));
            }
        }
        Opt::Cycle => {
            for i in 0..n {
                e.push((ids[i], ids[(i + 1) % n]));
            }
        }
        Opt::Star => {
            for i in 1..n {
                e.push((ids[0], ids[i]));
            }
        }
        Opt::Clique => {
            for i in 0..n {
                for j in 0..n {
                    if i != j {
                        e.push((ids[i], ids[j]));
                    }
                }
            }
        }
    }
    for (a, b) in e {
        if rev && o != Opt::Clique {
            s.edge(b, a);
        } else {
            s.edge(a, b);
        }
    }
}
/// an option with symbolic ids: the arguments, the ids
fn option(o: Opt, n: usize, max: u8, long: bool) -> (Vec<Vec<u8>>, Vec<u64>) {
    let mut a = vec![flag(o, long).to_vec()];
    let mut ids = vec![];
    for _ in 0..n {
        let (t, x) = digit(max);
        a.push(t);
        ids.push(x);
    }
    (a, ids)
}
pub fn call(b: Bin, a: &[Vec<u8>]) -> Out {
    let r: Vec<&[u8]> = a.iter().map(|x| &x[..]).collect();
    run(b, &r)
}
/// one option of n ids on a stored graph of up to k commands
fn add_one(kinds: &[Opt], n: usize, k: usize, max: u8) {
    let (mut s, _) = stored(k, max);
    let o = kinds[sx::choose(kinds.len())];
    let n = if o == Opt::Edge { n & !1 } else { n };
    let rev = if o == Opt::Vertex { false } else { sx::choose(2) == 1 };
    let (mut a, ids) = option(o, n, max, sx::choose(2) == 1);
    if rev {
        match sx::choose(3) {
            0 => a.push(b"--reverse".to_vec()),
            1 => a.push(b"-r".to_vec()),
            _ => a.insert(0, b"-r".to_vec()),
        }
    }
    let r = call(Add, &a);
    sx::check(r.code == 0, "gc-add succeeds");
    added(o, &ids, rev, &mut s);
    holds(&s);
    unlocked();
    sx::cover(0);
    if rev {
        sx::cover(1);
    }
}
/// long lists of ids: distinct or with repetitions, two of them symbolic
fn add_many(kinds: &[Opt], n: usize) {
    put_graph(b"AddEdge 1 2\nAddVertex 30\n");
    let mut s = SG::new();
    s.edge(1, 2);
    s.vertex(30);
    let o = kinds[sx::choose(kinds.len())];
    let rep = sx::choose(2) == 1;
    let rev = if o == Opt::Vertex { false } else { sx::choose(2) == 1 };
    let at = [0, 1, n / 2, n - 1][sx::choose(4)];
    let mut a = vec![flag(o, false).to_vec()];
    let mut ids = vec![];
    for i in 0..n {
        if i == at {
            let (t, x) = digit(9);
            a.push(t);
            ids.push(x);
        } else {
            let x = if rep { [1, 2, 1, 3, 2, 2, 4, 1, 3][i % 9] } else { 10 + 7 * i as u64 };
            a.push(x.to_string().into_bytes());
            ids.push(x);
        }
    }
    if rev {
        a.push(b"-r".to_vec());
    }
    let r = call(Add, &a);
    sx::check(r.code == 0, "gc-add succeeds");
    added(o, &ids, rev, &mut s);
    holds(&s);
    unlocked();
    sx::cover(0);
}
/// several edges or vertices removed from a complete graph of 4 vertices
fn del_many(n: usize, vertices: bool) {
    let mut s = SG::new();
    let mut t = vec![];
    for i in 0..4u64 {
        for j in 0..4 {
            s.edge(i, j);
            t.extend_from_slice(b"AddEdge ");
            t.push(b'0' + i as u8);
            t.push(b' ');
            t.push(b'0' + j as u8);
            t.push(b'\n');
        }
    }
    put_graph(&t);
    if vertices {
        let (a, ids) = option(Opt::Vertex, n, 4, true);
        let r = call(Delete, &a);
        sx::check(r.code == 0, "gc-delete succeeds");
        for x in ids {
            remove_vertex(&mut s, x);
        }
    } else {
        let (mut a, mut ids) = option(Opt::Edge, 4, 3, false);
        for i in 2..n as u64 {
            for x in [i % 4, (2 * i + 1) % 4] {
                a.push(x.to_string().into_bytes());
                ids.push(x);
            }
        }
        let r = call(Delete, &a);
        sx::check(r.code == 0, "gc-delete succeeds");
        for i in 0..n {
            remove_edge(&mut s, ids[2 * i], ids[2 * i + 1]);
        }
    }
    holds(&s);
    unlocked();
    sx::cover(0);
}
/// two options in one call
fn add_two(n: usize, m: usize, max: u8) {
    let (mut s, _) = stored(0, max);
    let i = sx::choose(6);
    let j = sx::choose(6);
    sx::assume(i != j);
    let rev = sx::choose(2) == 1;
    let (o, p) = (OPTS[i], OPTS[j]);
    let (mut a, x) = option(o, n, max, true);
    let (b, y) = option(p, m, max, false);
    a.extend(b);
    if rev {
        a.push(b"-r".to_vec());
    }
    let r = call(Add, &a);
    sx::check(r.code == 0, "gc-add succeeds");
    added(o, &x, rev, &mut s);
    added(p, &y, rev, &mut s);
    holds(&s);
    unlocked();
    sx::cover(0);
}
/// ids of several digits, with leading zeros
fn add_wide(w: usize) {
    put_graph(b"");
    let (x, a) = digits(w);
    let (y, b) = digits(w);
    let r = run(Add, &[b"-e", &x, &y]);
    sx::check(r.code == 0, "gc-add succeeds");
    let mut s = SG::new();
    s.edge(a, b);
    holds(&s);
    sx::cover(0);
}
fn del_vertices(n: usize, k: usize, max: u8) {
    let (mut s, _) = stored(k, max);
    let (a, ids) = option(Opt::Vertex, n, max, sx::choose(2) == 1);
    let r = call(Delete, &a);
    sx::check(r.code == 0, "gc-delete succeeds");
    for x in ids {
        remove_vertex(&mut s, x);
    }
    holds(&s);
    unlocked();
    sx::cover(0);
}
fn del_edges(n: usize, k: usize, max: u8) {
    let (mut s, _) = stored(k, max);
    let (a, ids) = option(Opt::Edge, 2 * n, max, sx::choose(2) == 1);
    let r = call(Delete, &a);
    sx::check(r.code == 0, "gc-delete succeeds");
    for i in 0..n {
        remove_edge(&mut s, ids[2 * i], ids[2 * i + 1]);
    }
    holds(&s);
    unlocked();
    sx::cover(0);
}
/// vertices and edges removed in one call
fn del_both(k: usize, max: u8) {
    let (mut s, _) = stored(k, max);
    let (mut a, x) = option(Opt::Edge, 2, max, true);
    let (b, y) = option(Opt::Vertex, 1, max, false);
    a.extend(b);
    let r = call(Delete, &a);
    sx::check(r.code == 0, "gc-delete succeeds");
    remove_edge(&mut s, x[0], x[1]);
    remove_vertex(&mut s, y[0]);
    holds(&s);
    unlocked();
    sx::cover(0);
}
/// arbitrary text of n bytes that does not look like an option
pub fn word(n: usize) -> (Vec<u8>, Option<u64>) {
    let t: Vec<u8> = (0..n).map(|_| sx::u8v()).collect();
    for b in &t {
        sx::assume(*b != 0 && *b != b',');
    }
    sx::assume(t[0] != b'-');
    let d = if t[0] == b'+' { &t[1..] } else { &t[..] };
    let x = number(d);
    (t, x)
}
/// one of the ids is an arbitrary text
fn add_word(b: Bin, kinds: &[Opt], n: usize, w: usize) {
    put_graph(b"AddEdge 1 2\n");
    let o = kinds[sx::choose(kinds.len())];
    let at = sx::choose(n);
    let (mut a, mut ids) = option(o, n, 9, true);
    let (t, x) = word(w);
    a[1 + at] = t;
    let r = call(b, &a);
    unlocked();
    match x {
        Some(x) => {
            sx::check(r.code == 0, "a valid id is accepted");
            ids[at] = x;
            let mut s = SG::new();
            s.edge(1, 2);
            if b == Add {
                added(o, &ids, false, &mut s);
            } else if o == Opt::Vertex {
                for x in ids {
                    remove_vertex(&mut s, x);
                }
            } else {
                for i in 0..n / 2 {
                    remove_edge(&mut s, ids[2 * i], ids[2 * i + 1]);
                }
            }
            holds(&s);
            sx::cover(0);
        }
        None => {
            sx::check(r.code != 0, "an invalid id is reported");
            bytes_are(b"AddEdge 1 2\n");
            sx::cover(1);
        }
    }
}
/// numbers around the limit of 64 bits
fn add_limit(b: Bin) {
    put_graph(b"AddVertex 7\n");
    let mut t = b"184467440737095516".to_vec();
    for _ in 0..2 {
        t.push(b'0' + sx::choose(10) as u8);
    }
    let over = (t[18] - b'0') as u32 * 10 + (t[19] - b'0') as u32 > 15;
    let r = run(b, &[b"-v", &t, b"7"]);
    unlocked();
    if over {
        sx::check(r.code != 0, "an id above 64 bits is reported");
        bytes_are(b"AddVertex 7\n");
        sx::cover(1);
    } else {
        sx::check(r.code == 0, "every 64-bit id is accepted");
        let mut s = SG::new();
        if b == Add {
            s.vertex(7);
            let mut x = 18446744073709551600u64;
            x += (t[18] - b'0') as u64 * 10 + (t[19] - b'0') as u64;
            s.vertex(x);
        }
        holds(&s);
        sx::cover(0);
    }
}
/// an odd number of ids is no list of edges
fn odd(b: Bin) {
    put_graph(b"AddEdge 1 2\n");
    let (a, _) = option(Opt::Edge, 3, 9, sx::choose(2) == 1);
    let r = call(b, &a);
    sx::check(r.code != 0, "an odd number of ids is reported");
    bytes_are(b"AddEdge 1 2\n");
    unlocked();
    sx::cover(0);
}

use Opt::{Chain, Clique, Edge, Star, Vertex};
harness! {
    c20_one2 => add_one(&OPTS, 2, 1, 9);
    c20_one3 => add_one(&OPTS, 3, 0, 9);
    c20_one4 => add_one(&[Edge, Chain, Opt::Cycle, Star], 4, 0, 9);
    c20_one4q => add_one(&[Clique], 4, 0, 9);
    c20_many10 => add_many(&OPTS, 10);
    c20_many40 => add_many(&[Vertex, Edge, Chain, Opt::Cycle, Star], 40);
    c20_many80 => add_many(&[Vertex], 80);
    c20_delm => del_many(2, false);
    c20_delm5 => del_many(5, false);
    c20_delmv => del_many(3, true);
    c20_two22 => add_two(2, 2, 9);
    c20_two24 => add_two(2, 4, 3);
    c20_wide3 => add_wide(3);
    c20_wide8 => add_wide(8);
    c20_delv => del_vertices(1, 2, 9);
    c20_delv2 => del_vertices(2, 2, 9);
    c20_dele => del_edges(1, 2, 9);
    c20_dele2 => del_edges(2, 2, 9);
    c20_delb => del_both(2, 9);
    c20_word1 => add_word(Add, &OPTS, 2, 1);
    c20_word2 => add_word(Add, &[Vertex], 2, 2);
    c20_word3 => add_word(Add, &[Vertex], 2, 3);
    c20_wordd1 => add_word(Delete, &[Vertex, Edge], 2, 1);
    c20_wordd2 => add_word(Delete, &[Vertex, Edge], 2, 2);
    c20_limit => add_limit(Add);
    c20_limitd => add_limit(Delete);
    c20_odd => odd(Add);
    c20_oddd => odd(Delete);
}
