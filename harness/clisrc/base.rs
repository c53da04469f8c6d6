//! Shared by the harnesses of the command-line tools
use crate::cli::*;
use crate::gen::*;
use crate::sx;
use gc_core::directed_graph::DirectedGraph;
use gc_core::format::gcmd;
use gc_core::graph::Edge;

pub const FILE: &str = ".graph/commands";

/// decimal text of n digits and its value (leading zeros included)
pub fn digits(n: usize) -> (Vec<u8>, u64) {
    let mut t = vec![];
    let mut x = 0u64;
    for _ in 0..n {
        let b = sx::u8v();
        sx::assume(b >= b'0' && b <= b'9');
        x = x * 10 + (b - b'0') as u64;
        t.push(b);
    }
    (t, x)
}
/// decimal digits of limited value: one digit 0..=max
pub fn digit(max: u8) -> (Vec<u8>, u64) {
    let b = sx::u8v();
    sx::assume(b >= b'0' && b <= b'0' + max);
    (vec![b], (b - b'0') as u64)
}
pub fn remove_vertex(s: &mut SG, id: u64) {
    if let Some(i) = s.find(id) {
        s.ids.remove(i);
        s.adj.remove(i);
        for r in s.adj.iter_mut() {
            r.remove(i);
        }
    }
}
pub fn remove_edge(s: &mut SG, a: u64, b: u64) {
    if let (Some(i), Some(j)) = (s.find(a), s.find(b)) {
        s.adj[i][j] = false;
    }
}
/// stores a graph of up to k commands (vertex and edge additions over one-digit ids); its text
pub fn stored(k: usize, max: u8) -> (SG, Vec<u8>) {
    let mut s = SG::new();
    let mut t: Vec<u8> = vec![];
    for _ in 0..sx::choose(k + 1) {
        if sx::choose(2) == 0 {
            let (x, a) = digit(max);
            t.extend_from_slice(b"AddVertex ");
            t.extend(x);
            s.vertex(a);
        } else {
            let ((x, a), (y, b)) = (digit(max), digit(max));
            t.extend_from_slice(b"AddEdge ");
            t.extend(x);
            t.push(b' ');
            t.extend(y);
            s.edge(a, b);
        }
        t.push(b'\n');
    }
    put_graph(&t);
    (s, t)
}
/// the commands that build a graph with concrete ids
pub fn text(s: &SG) -> Vec<u8> {
    let mut t = String::new();
    for x in &s.ids {
        t.push_str(&format!("AddVertex {}\n", x));
    }
    for (i, j) in s.edges() {
        t.push_str(&format!("AddEdge {} {}\n", s.ids[i], s.ids[j]));
    }
    t.into_bytes()
}
pub fn put_graph(t: &[u8]) {
    mkdir(".graph");
    sx::put(FILE, t);
}
pub fn load() -> Option<DirectedGraph> {
    let f = std::fs::File::open(sx::path(FILE)).ok()?;
    gcmd::read(f).ok()
}
/// the stored graph is exactly s
pub fn holds(s: &SG) {
    let g = match load() {
        Some(g) => g,
        None => return sx::check(false, "the stored graph can be read"),
    };
    same(s, &g)
}
pub fn same(s: &SG, g: &DirectedGraph) {
    let n = s.n();
    sx::check(g.vertex_count() == n, "number of vertices of the stored graph");
    sx::check(g.edge_count() == s.m(), "number of edges of the stored graph");
    for x in g.vertices() {
        sx::check(s.find(x.0).is_some(), "the stored graph has a vertex it should not have");
    }
    for Edge(a, b) in g.edges() {
        let ok = match (s.find(a.0), s.find(b.0)) {
            (Some(i), Some(j)) => s.adj[i][j],
            _ => false,
        };
        sx::check(ok, "the stored graph has an edge it should not have");
    }
    for i in 0..n {
        sx::check(g.contains_vertex(v(s.ids[i])), "the stored graph misses a vertex");
        for j in 0..n {
            if s.adj[i][j] {
                sx::check(g.contains_edge(e(s.ids[i], s.ids[j])), "the stored graph misses an edge");
            }
        }
    }
}
/// the stored bytes are exactly t
pub fn bytes_are(t: &[u8]) {
    match sx::get(FILE) {
        None => sx::check(false, "the stored file is still there"),
        Some(f) => {
            sx::check(f.len() == t.len(), "the stored file is unchanged (length)");
            for i in 0..t.len() {
                sx::check(f[i] == t[i], "the stored file is unchanged");
            }
        }
    }
}
pub fn unlocked() {
    sx::check(sx::get("lock").is_none(), "no lock is left behind");
}
/// lines of an output (a last line without newline counts)
pub fn lines(o: &[u8]) -> Vec<Vec<u8>> {
    let mut r = vec![];
    let mut c = vec![];
    for b in o {
        if *b == b'\n' {
            r.push(std::mem::take(&mut c));
        } else {
            c.push(*b);
        }
    }
    if !c.is_empty() {
        r.push(c);
    }
    r
}
/// a text that is exactly a number
pub fn number(t: &[u8]) -> Option<u64> {
    if t.is_empty() || t.len() > 20 {
        return None;
    }
    let mut x = 0u64;
    for b in t {
        if *b < b'0' || *b > b'9' {
            return None;
        }
        x = x * 10 + (*b - b'0') as u64;
    }
    Some(x)
}
pub fn starts(t: &[u8], p: &str) -> bool {
    t.len() >= p.len() && t[..p.len()] == *p.as_bytes()
}
pub fn is(t: &[u8], p: &str) -> bool {
    t.len() == p.len() && t == p.as_bytes()
}
/// the first number in a text after position `from`, and the position after it
pub fn next_number(t: &[u8], from: usize) -> Option<(u64, usize)> {
    let mut i = from;
    while i < t.len() && !(t[i] >= b'0' && t[i] <= b'9') {
        i += 1;
    }
    let mut x = 0u64;
    let st = i;
    while i < t.len() && t[i] >= b'0' && t[i] <= b'9' {
        x = x * 10 + (t[i] - b'0') as u64;
        i += 1;
    }
    if i == st {
        None
    } else {
        Some((x, i))
    }
}
pub fn numbers(t: &[u8]) -> Vec<u64> {
    let mut r = vec![];
    let mut i = 0;
    while let Some((x, k)) = next_number(t, i) {
        r.push(x);
        i = k;
    }
    r
}
