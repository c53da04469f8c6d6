//! C14 cycle enumeration, C15 cycle summaries, C16 Hamiltonian paths, C27 paths and cycles as values
use crate::gen::*;
use crate::harness;
use crate::sem::promised;
use crate::sx;
use gc_core::algorithm::cycle;
use gc_core::algorithm::hamiltonian::*;
use gc_core::directed_graph::DirectedGraph;
use gc_core::graph::*;
use gc_core::iter::iter_cycle::*;
use gc_core::path::*;

/// index form of a cycle, rotated so that the smallest index comes first; asserts that it is a
/// simple cycle of the graph
fn norm(s: &SG, c: &Cycle) -> Vec<usize> {
    let vs: Vec<VertexId> = c.iter().map(|x| *x).collect();
    let mut p = indices(s, &vs);
    sx::check(!p.is_empty() && c.len() == p.len(), "an empty cycle");
    for i in 0..p.len() {
        for j in 0..i {
            sx::check(p[i] != p[j], "a cycle repeats a vertex");
        }
    }
    sx::check(is_walk(s, &p) && s.adj[*p.last().unwrap()][p[0]], "a cycle that is not in the graph");
    let m = (0..p.len()).min_by_key(|i| p[*i]).unwrap();
    p.rotate_left(m);
    p
}
fn iter_ok(s: &SG, g: &DirectedGraph) -> Vec<Vec<usize>> {
    let all = s.cycles();
    let got: Vec<Cycle> = cycle_iter(g).take(all.len() + 1).collect();
    let mut ix = vec![];
    for c in &got {
        let p = norm(s, c);
        sx::check(!ix.contains(&p), "a cycle is returned twice");
        ix.push(p);
        let first = c.iter().next().unwrap().0;
        let mut min = true;
        for x in c.iter() {
            min &= first <= x.0;
        }
        sx::check(min, "a cycle is not in canonical form (smallest vertex first)");
        sx::check(c.is_canonical(), "is_canonical");
    }
    for p in promised(s) {
        sx::check(ix.contains(&p), "a reachable cycle is missing");
    }
    ix
}
/// the count is determined only when every cycle is among the promised ones
fn note_count(s: &SG, n: usize) {
    sx::note(1, if promised(s).len() == s.cycles().len() { n as u64 } else { 999 });
}
fn enumerate(s: &SG, g: &DirectedGraph) {
    sx::order_any2();
    let ix = iter_ok(s, g);
    sx::cover(if ix.is_empty() { 0 } else { 1 });
    note_count(s, ix.len());
}
/// the summaries agree with the enumeration
fn summaries(s: &SG, g: &DirectedGraph) {
    sx::order_any2();
    let it: Vec<Vec<usize>> = cycle_iter(g).take(200).map(|c| norm(s, &c)).collect();
    let len: Vec<usize> = it.iter().map(|c| c.len()).collect();
    sx::check(cycle::count(g) == it.len(), "count is the number of cycles");
    sx::check(cycle::girth(g) == len.iter().min().map(|x| *x), "girth is the length of a shortest cycle");
    match cycle::first(g) {
        None => sx::check(it.is_empty(), "first is None although there is a cycle"),
        Some(c) => sx::check(it.contains(&norm(s, &c)), "first is a cycle of the graph"),
    }
    match cycle::shortest(g) {
        None => sx::check(it.is_empty(), "shortest is None although there is a cycle"),
        Some(c) => {
            sx::check(it.contains(&norm(s, &c)), "shortest is a cycle of the graph");
            sx::check(Some(&c.len()) == len.iter().min(), "a shorter cycle exists");
        }
    }
    match cycle::longest(g) {
        None => sx::check(it.is_empty(), "longest is None although there is a cycle"),
        Some(c) => {
            sx::check(it.contains(&norm(s, &c)), "longest is a cycle of the graph");
            sx::check(Some(&c.len()) == len.iter().max(), "a longer cycle exists");
        }
    }
    match cycle::hamiltonian(g) {
        None => sx::check(!len.contains(&s.n()), "hamiltonian is None although a cycle visits every vertex"),
        Some(c) => {
            norm(s, &c);
            sx::check(c.len() == s.n(), "the Hamiltonian cycle does not visit every vertex");
        }
    }
    let n = sx::choose(4);
    let t: Vec<Vec<usize>> = cycle::take(g, n).iter().map(|c| norm(s, c)).collect();
    sx::check(t.len() == n.min(it.len()), "take returns n cycles, or all of them");
    let a: Vec<Vec<usize>> = cycle::take_all(g).iter().map(|c| norm(s, c)).collect();
    sx::check(a.len() == it.len(), "take_all returns every cycle");
    for l in [&t, &a] {
        for i in 0..l.len() {
            sx::check(it.contains(&l[i]), "an unknown cycle");
            for j in 0..i {
                sx::check(l[i] != l[j], "a cycle is returned twice");
            }
        }
    }
    sx::cover(if it.is_empty() { 0 } else { 1 });
    note_count(s, it.len());
}

// ---------------------------------------------------------------- Hamiltonian paths
fn ham(s: &SG, g: &DirectedGraph) {
    sx::order_any2();
    let n = s.n();
    let mut want = vec![];
    for i in 0..n {
        for p in s.simple_paths(i) {
            if p.len() == n {
                want.push(p);
            }
        }
    }
    let got: Vec<Vec<usize>> = iter_hamiltonian_paths(g).take(want.len() + 1).map(|p| indices(s, &p.vertices)).collect();
    sx::check(got.len() == want.len(), "every Hamiltonian path is returned once");
    for i in 0..got.len() {
        sx::check(want.contains(&got[i]), "a path that is not Hamiltonian is returned");
        for j in 0..i {
            sx::check(got[i] != got[j], "a Hamiltonian path is returned twice");
        }
    }
    sx::check(is_hamiltonian(g) == (n == 0 || !want.is_empty()), "is_hamiltonian");
    match first_path(g) {
        None => sx::check(want.is_empty(), "first_path is None although a Hamiltonian path exists"),
        Some(p) => sx::check(want.contains(&indices(s, &p.vertices)), "first_path is not Hamiltonian"),
    }
    sx::cover(if want.is_empty() { 0 } else { 1 });
}
/// is_path_hamiltonian on every walk of the graph
fn ham_path(s: &SG, g: &DirectedGraph, k: usize) {
    let l = sx::choose(k + 1);
    let mut p = vec![];
    for _ in 0..l {
        p.push(sx::choose(s.n()));
    }
    sx::assume(is_walk(s, &p));
    let path = Path { vertices: p.iter().map(|i| v(s.ids[*i])).collect() };
    let mut seen = vec![0; s.n()];
    for i in &p {
        seen[*i] += 1;
    }
    let h = seen.iter().all(|x| *x == 1);
    sx::check(is_path_hamiltonian(&path, g) == h, "is_path_hamiltonian iff the path visits every vertex exactly once");
    sx::cover(h as u32);
}
/// is_path_hamiltonian on long walks: round a cycle, or in and out of the hub of a star
fn ham_long(n: usize) {
    let star = sx::choose(2) == 1;
    let (s, g) = skeleton(if star { 8 } else { 1 }, n, 0);
    let from = sx::choose(3);
    let l = n - 2 + sx::choose(5);
    let p: Vec<usize> = (0..l).map(|i| if !star { (i + from) % n } else if i % 2 == from % 2 { 0 } else { 1 + (i / 2) % (n - 1) }).collect();
    sx::check(is_walk(&s, &p), "harness: a walk");
    let path = Path { vertices: p.iter().map(|i| v(s.ids[*i])).collect() };
    let h = !star && l == n;
    sx::check(is_path_hamiltonian(&path, &g) == h, "is_path_hamiltonian iff the path visits every vertex exactly once");
    sx::cover(h as u32);
}

// ---------------------------------------------------------------- values
fn anypath(k: usize) -> Vec<u64> {
    let n = sx::choose(k + 1);
    (0..n).map(|_| sx::u64v()).collect()
}
/// k different vertices but for one that is arbitrary
fn longpath(k: usize) -> Vec<u64> {
    let mut p: Vec<u64> = (0..k as u64).map(|i| 100 + (7 * i) % k as u64).collect();
    p[[0, k / 2, k - 1][sx::choose(3)]] = sx::u64v();
    p
}
fn path_queries(ids: Vec<u64>) {
    sx::order_any2();
    let p = Path::from(&ids.iter().map(|x| v(*x)).collect::<Vec<_>>());
    sx::check(p.size() == ids.len() && p.is_empty() == ids.is_empty(), "size");
    sx::check(p.first().map(|x| x.0) == ids.first().cloned() && p.last().map(|x| x.0) == ids.last().cloned(), "first and last");
    let vs: Vec<u64> = p.to_vertex_list().map(|x| x.0).collect();
    sx::check(vs.len() == ids.len() && vs.iter().zip(&ids).all(|(a, b)| a == b), "to_vertex_list");
    let es: Vec<Edge> = p.to_edge_list().collect();
    sx::check(es.len() == ids.len().saturating_sub(1), "to_edge_list has one edge per step");
    let mut ok = true;
    for i in 0..es.len() {
        ok &= (es[i].0).0 == ids[i];
        ok &= (es[i].1).0 == ids[i + 1];
    }
    sx::check(ok, "to_edge_list gives the steps in order");
    let (a, b) = (sx::u64v(), sx::u64v());
    let mut cv = false;
    let mut ce = false;
    let mut cyc = false;
    for i in 0..ids.len() {
        cv |= ids[i] == a;
        if i + 1 < ids.len() {
            ce |= (ids[i] == a) & (ids[i + 1] == b);
        }
        for j in 0..i {
            cyc |= ids[i] == ids[j];
        }
    }
    sx::check(p.contains_vertex(&v(a)) == cv, "contains_vertex");
    sx::check(p.contains_edge(&e(a, b)) == ce, "contains_edge");
    sx::check(p.contains_cycle() == cyc, "contains_cycle iff a vertex repeats");
    let q = p.append(v(a));
    sx::check(q.size() == ids.len() + 1 && q.last().map(|x| x.0) == Some(a), "append adds the vertex at the end");
    let mut same = p.size() == ids.len();
    for i in 0..ids.len() {
        same &= q.vertices[i].0 == ids[i];
        same &= p.vertices[i].0 == ids[i];
    }
    sx::check(same, "append keeps the vertices before and leaves the original path alone");
    sx::cover(cyc as u32);
}
fn cycle_values(ids: Vec<u64>) {
    sx::order_any2();
    let vs: Vec<VertexId> = ids.iter().map(|x| v(*x)).collect();
    let mut dup = false;
    for i in 0..ids.len() {
        for j in 0..i {
            dup |= ids[i] == ids[j];
        }
    }
    let c = Cycle::from_vertices(&vs);
    let c2 = Cycle::from_path(&Path::from(&vs));
    sx::check(c == c2, "from_path and from_vertices agree");
    sx::check(c.is_some() == (ids.len() >= 2 && !dup), "a cycle is built from at least two distinct vertices");
    if let Some(c) = c {
        sx::cover(0);
        sx::check(c.len() == ids.len(), "len");
        let got: Vec<u64> = c.iter().map(|x| x.0).collect();
        sx::check(got == ids, "iter lists the vertices in order");
        let can = c.canonical();
        let cg: Vec<u64> = can.iter().map(|x| x.0).collect();
        sx::check(cg.len() == ids.len(), "canonical keeps the length");
        // canonical is a rotation
        let mut rot = false;
        for r in 0..ids.len() {
            let mut eq = true;
            for i in 0..ids.len() {
                eq &= cg[i] == ids[(i + r) % ids.len()];
            }
            rot |= eq;
        }
        sx::check(rot, "canonical is a rotation of the cycle");
        let mut min = true;
        for x in &cg {
            min &= cg[0] <= *x;
        }
        sx::check(min, "canonical starts with the smallest vertex");
        sx::check(can.is_canonical() && can.canonical() == can, "canonical is idempotent");
        let mut m0 = true;
        for x in &ids {
            m0 &= ids[0] <= *x;
        }
        sx::check(c.is_canonical() == m0, "is_canonical iff the smallest vertex comes first");
        // every rotation has the same canonical form
        let r = sx::choose(ids.len());
        let rv: Vec<VertexId> = (0..ids.len()).map(|i| v(ids[(i + r) % ids.len()])).collect();
        match Cycle::from_vertices(&rv) {
            Some(d) => sx::check(d.canonical() == can, "rotations of a cycle have the same canonical form"),
            None => sx::check(false, "a rotation of a cycle is a cycle"),
        }
    } else {
        sx::cover(1);
    }
}
/// scored paths are totally ordered by score; equality of paths is equality of vertices and score
fn scored_order() {
    let mk = |i: u64| ScoredPath { path: Path::from(&vec![v(i)]), score: sx::u64v() as i64 };
    let (a, b, c) = (mk(sx::u64v()), mk(sx::u64v()), mk(sx::u64v()));
    sx::check((a < b) == (a.score < b.score) && (a > b) == (a.score > b.score), "scored paths are compared by score");
    sx::check((a <= b) == (a.score <= b.score) && (a >= b) == (a.score >= b.score), "scored paths are compared by score");
    sx::check(a.cmp(&b) == a.score.cmp(&b.score), "the total order of scored paths is that of their scores");
    sx::check(a.cmp(&b) == b.cmp(&a).reverse(), "the order is antisymmetric");
    sx::check(a.partial_cmp(&b) == Some(a.cmp(&b)), "partial and total order agree");
    if a.cmp(&b) == std::cmp::Ordering::Less && b.cmp(&c) == std::cmp::Ordering::Less {
        sx::check(a.cmp(&c) == std::cmp::Ordering::Less, "the order is transitive");
        sx::cover(0);
    }
    let eq = (a.path.vertices[0].0 == b.path.vertices[0].0) & (a.score == b.score);
    sx::check((a == b) == eq, "equality of scored paths");
}
fn edges_values() {
    let (a, b, c, d) = (sx::u64v(), sx::u64v(), sx::u64v(), sx::u64v());
    let x = e(a, b);
    let y = e(c, d);
    sx::check((x == y) == ((a == c) & (b == d)), "edges are equal iff both endpoints are");
    sx::check((x.reverse().0).0 == b && (x.reverse().1).0 == a, "reverse swaps the endpoints");
    sx::check(x.reverse().reverse() == x, "reverse twice");
    sx::check(Edge::from((v(a), v(b))) == x, "from a pair");
    sx::check((v(a) == v(c)) == (a == c) && (v(a) < v(c)) == (a < c), "vertices compare like their ids");
    sx::check((x < y) == ((a < c) | ((a == c) & (b < d))), "edges compare lexicographically");
    sx::cover(0);
}
harness! {
    c14_e3 => { sx::order(2); let (s, g) = edges(3); enumerate(&s, &g) };
    c14_e4 => { sx::order(0); let (s, g) = edges(4); enumerate(&s, &g) };
    c14_e5 => { sx::order(0); let (s, g) = edges(5); enumerate(&s, &g) };
    c14_n3 => { sx::order(2); let (s, g) = matrix(3, true); enumerate(&s, &g) };
    c14_n4 => { sx::order(0); let (s, g) = matrix(4, false); enumerate(&s, &g) };
    c14_big2 => { let sh = [4, 6, 7, 8][sx::choose(4)]; let (s, g) = skeleton(sh, 7, 1); enumerate(&s, &g) };
    c14_big => { let sh = [0, 1, 2, 3, 5][sx::choose(5)]; let (s, g) = skeleton(sh, 12, 1); enumerate(&s, &g) };
    c14_known => {
        // a connected graph with a cycle that no vertex without inbound edges leads to
        let mut s = SG::new();
        for i in 1..5 { s.vertex(i); }
        for (a, b) in [(0, 1), (2, 3), (3, 2), (3, 1)].iter() { s.adj[*a][*b] = true; }
        let g = s.build();
        let got: Vec<Vec<usize>> = cycle_iter(&g).take(4).map(|c| norm(&s, &c)).collect();
        sx::check(got.contains(&vec![2, 3]), "the cycle 3 -> 4 -> 3 is missing");
    };
    c14_empty => { let s = SG::new(); let g = s.build(); enumerate(&s, &g) };
    c15_e3 => { sx::order(2); let (s, g) = edges(3); summaries(&s, &g) };
    c15_e4 => { sx::order(0); let (s, g) = edges(4); summaries(&s, &g) };
    c15_n3 => { sx::order(0); let (s, g) = matrix(3, true); summaries(&s, &g) };
    c15_n4 => { sx::order(0); let (s, g) = matrix(4, false); summaries(&s, &g) };
    c15_big2 => { let sh = [4, 6, 7, 8][sx::choose(4)]; let (s, g) = skeleton(sh, 7, 1); summaries(&s, &g) };
    c15_big => { let sh = [0, 1, 2, 3, 5][sx::choose(5)]; let (s, g) = skeleton(sh, 12, 1); summaries(&s, &g) };
    c15_empty => { let s = SG::new(); let g = s.build(); summaries(&s, &g) };
    c16_e3 => { sx::order(2); let (s, g) = edges(3); ham(&s, &g) };
    c16_e4 => { sx::order(0); let (s, g) = edges(4); ham(&s, &g) };
    c16_n3 => { sx::order(2); let (s, g) = matrix(3, true); ham(&s, &g) };
    c16_n4 => { sx::order(0); let (s, g) = matrix(4, false); ham(&s, &g) };
    c16_big2 => { let sh = [3, 4, 5, 6, 7, 8][sx::choose(6)]; let (s, g) = skeleton(sh, 7, 2); ham(&s, &g) };
    c16_big => { let sh = [0, 1, 2][sx::choose(3)]; let (s, g) = skeleton(sh, 9, 1); ham(&s, &g) };
    c16_path_n3 => { sx::order(0); let (s, g) = matrix(3, true); ham_path(&s, &g, 4) };
    c16_empty => { let s = SG::new(); let g = s.build(); ham(&s, &g) };
    c27_path4 => { sx::order(2); path_queries(anypath(4)) };
    c27_path6 => { sx::order(0); path_queries(anypath(6)) };
    c27_cycle4 => { sx::order(0); cycle_values(anypath(4)) };
    c27_cycle5 => { sx::order(0); cycle_values(anypath(5)) };
    c27_plong => { sx::order(0); path_queries(longpath(24)) };
    c27_clong => { sx::order(0); cycle_values(longpath(20)) };
    c14_tiny => { sx::order(2); let (s, g) = tiny(); enumerate(&s, &g) };
    c15_tiny => { sx::order(2); let (s, g) = tiny(); summaries(&s, &g) };
    c16_tiny => { sx::order(2); let (s, g) = tiny(); ham(&s, &g) };
    c14_huge => { let (s, g) = huge(1, 130); enumerate(&s, &g) };
    c15_huge => { let (sh, n) = [(1, 130), (8, 110)][sx::choose(2)]; let (s, g) = huge(sh, n); summaries(&s, &g) };
    c16_long => ham_long([9, 20, 70][sx::choose(3)]);
    c16_huge => { let sh = [0, 1][sx::choose(2)]; let (s, g) = huge(sh, 130); ham(&s, &g) };
    c14_wide => { let (sh, n) = [(1, 68), (8, 40)][sx::choose(2)]; let (s, g) = wide(sh, n); enumerate(&s, &g) };
    c15_wide => { let sh = [1, 8][sx::choose(2)]; let (s, g) = wide(sh, 68); summaries(&s, &g) };
    c16_wide => { let sh = [0, 1][sx::choose(2)]; let (s, g) = wide(sh, 68); ham(&s, &g) };
    c14_big3 => { let sh = [1, 3, 5][sx::choose(3)]; let (s, g) = skeleton(sh, 24, 1); enumerate(&s, &g) };
    c15_big3 => { let sh = [1, 3, 5][sx::choose(3)]; let (s, g) = skeleton(sh, 20, 1); summaries(&s, &g) };
    c27_scored => scored_order();
    c27_edge => edges_values();
}
