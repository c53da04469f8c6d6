//! C05, C06 breadth-first and depth-first traversals; C08 best-first / A*
use crate::gen::*;
use crate::harness;
use crate::sx;
use gc_core::directed_graph::DirectedGraph;
use gc_core::graph::*;
use gc_core::iter::iter_best::*;
use gc_core::iter::iter_breadth::*;
use gc_core::iter::iter_depth::*;
use gc_core::path::*;
use gc_core::search::a_star;

fn exactly_reachable(s: &SG, from: usize, got: &[usize], what: &str) {
    let r = s.reach(from);
    let mut seen = vec![false; s.n()];
    for i in got {
        sx::check(!seen[*i], what);
        seen[*i] = true;
    }
    for i in 0..s.n() {
        sx::check(seen[i] == r[i], what);
    }
}
fn trav(s: &SG, g: &DirectedGraph, k: usize) {
    sx::order_any2();
    let st = v(s.ids[k]);
    let lim = s.n() + 1;
    let b: Vec<VertexId> = bfs_iter_from(g, st).take(lim).collect();
    let bi = indices(s, &b);
    exactly_reachable(s, k, &bi, "bfs visits each reachable vertex exactly once");
    let d = s.dist(k);
    for w in bi.windows(2) {
        sx::check(d[w[0]] <= d[w[1]], "bfs visits vertices by non-decreasing distance");
    }
    let f: Vec<VertexId> = dfs_iter_from(g, st).take(lim).collect();
    let fi = indices(s, &f);
    exactly_reachable(s, k, &fi, "dfs visits each reachable vertex exactly once");
    sx::check(bi.first() == Some(&k), "bfs starts at the start vertex");
    sx::check(fi.first() == Some(&k), "dfs starts at the start vertex");
    // every visited vertex was reached over an edge from a vertex visited before
    for (p, x) in fi.iter().enumerate().skip(1) {
        sx::check(fi[..p].iter().any(|y| s.adj[*y][*x]), "dfs visits a vertex before any predecessor");
    }
    if s.reach(k).iter().all(|x| *x) {
        sx::cover(1)
    } else {
        sx::cover(2)
    }
    sx::note(1, bi.len() as u64);
    sx::note(2, fi.len() as u64);
}
fn trav_any(s: &SG, g: &DirectedGraph) {
    let k = sx::choose(s.n());
    trav(s, g, k);
}
/// the start-less variants begin at some vertex of the graph
fn trav_head(s: &SG, g: &DirectedGraph) {
    sx::order_any2();
    let b: Vec<VertexId> = bfs_iter(g).take(s.n() + 1).collect();
    let f: Vec<VertexId> = dfs_iter(g).take(s.n() + 1).collect();
    let (bi, fi) = (indices(s, &b), indices(s, &f));
    sx::check(bi.is_empty() == (s.n() == 0), "bfs_iter is empty iff the graph is");
    sx::check(fi.is_empty() == (s.n() == 0), "dfs_iter is empty iff the graph is");
    if s.n() > 0 {
        exactly_reachable(s, bi[0], &bi, "bfs_iter visits what its first vertex reaches");
        exactly_reachable(s, fi[0], &fi, "dfs_iter visits what its first vertex reaches");
        let d = s.dist(bi[0]);
        for w in bi.windows(2) {
            sx::check(d[w[0]] <= d[w[1]], "bfs visits vertices by non-decreasing distance");
        }
    }
    sx::cover(1);
}

fn same_paths(want: &[Vec<usize>], got: &[Vec<usize>], what: &str) {
    sx::check(want.len() == got.len(), what);
    for p in got {
        sx::check(want.contains(p), what);
    }
    for i in 0..got.len() {
        for j in 0..i {
            sx::check(got[i] != got[j], what);
        }
    }
}
fn paths_from(s: &SG, g: &DirectedGraph, k: usize) {
    sx::order_any2();
    let want = s.simple_paths(k);
    let lim = want.len() + 1;
    let st = v(s.ids[k]);
    let b: Vec<Vec<usize>> = bfs_path_iter_from(g, st).take(lim).map(|p| indices(s, &p.vertices)).collect();
    same_paths(&want, &b, "bfs paths are exactly the simple paths, each once");
    for w in b.windows(2) {
        sx::check(w[0].len() <= w[1].len(), "bfs paths come by non-decreasing length");
    }
    let d: Vec<Vec<usize>> = dfs_iter_path_from(g, st).take(lim).map(|p| indices(s, &p.vertices)).collect();
    same_paths(&want, &d, "dfs paths are exactly the simple paths, each once");
    // depth first: when the next path is not a child of the current one, the current subtree is done
    for i in 0..d.len() {
        let mut out = false;
        for q in &d[i + 1..] {
            let below = q.len() > d[i].len() && q[..d[i].len()] == d[i][..];
            sx::check(!(below && out), "dfs leaves a path before all its extensions have been visited");
            if !below {
                out = true;
            }
        }
    }
    sx::cover(1);
    sx::note(1, b.len() as u64);
    sx::note(2, d.len() as u64);
}
fn paths_any(s: &SG, g: &DirectedGraph) {
    let k = sx::choose(s.n());
    paths_from(s, g, k);
}

// ---------------------------------------------------------------- best first

fn cost<'a>(w: &'a W) -> impl Fn(&DirectedGraph, &Path) -> i64 + 'a {
    move |_: &DirectedGraph, p: &Path| {
        let mut t = 0;
        for k in p.vertices.windows(2) {
            t += w.of(k[0], k[1]);
        }
        t
    }
}
/// best_iter yields every reachable vertex once, by non-decreasing score, with a real path of that score
fn best(s: &SG, g: &DirectedGraph, hi: i64) {
    sx::order_any2();
    let k = sx::choose(s.n());
    let w = W::new(s, 0, hi);
    let got: Vec<ScoredPath> = best_iter_from(g, cost(&w), v(s.ids[k])).take(s.n() + 1).collect();
    let mut ends = vec![];
    for sp in &got {
        let p = indices(s, &sp.path.vertices);
        sx::check(!p.is_empty() && p[0] == k && is_walk(s, &p), "best_iter yields a path of the graph from the start");
        sx::check(w.sum(&p) == sp.score, "the score is the cost of the path");
        ends.push(*p.last().unwrap());
    }
    exactly_reachable(s, k, &ends, "best_iter reaches each reachable vertex exactly once");
    for x in got.windows(2) {
        sx::check(x[0].score <= x[1].score, "best_iter yields paths by non-decreasing score");
    }
    for (i, sp) in got.iter().enumerate() {
        for p in s.simple_paths(k) {
            if *p.last().unwrap() == ends[i] {
                sx::check(sp.score <= w.sum(&p), "best_iter yields a path that is not the cheapest to its end");
            }
        }
    }
    sx::cover(1);
}
/// A* with the zero heuristic: optimal and complete
fn astar(s: &SG, g: &DirectedGraph, hi: i64) {
    sx::order_any2();
    let k = sx::choose(s.n());
    let t = sx::choose(s.n());
    let w = W::new(s, 0, hi);
    let r = a_star::shortest_path(g, cost(&w), a_star::zero_heuristic, v(s.ids[k]), v(s.ids[t]));
    astar_result(s, &w, k, t, r);
}
fn astar_result(s: &SG, w: &W, k: usize, t: usize, r: Option<ScoredPath>) {
    let reach = s.reach(k);
    sx::check(r.is_some() == reach[t], "a path is found iff the target is reachable");
    match r {
        Some(sp) => {
            sx::cover(1);
            let p = indices(s, &sp.path.vertices);
            sx::check(p.first() == Some(&k) && p.last() == Some(&t) && is_walk(s, &p), "the result is a path of the graph from start to end");
            sx::check(w.sum(&p) == sp.score, "the score is the cost of the path");
            for q in s.simple_paths(k) {
                if *q.last().unwrap() == t {
                    sx::check(sp.score <= w.sum(&q), "a cheaper path exists");
                }
            }
        }
        None => sx::cover(2),
    }
}
/// A* with an arbitrary consistent heuristic (h(end) = 0, h(u) <= w(u,v) + h(v))
fn astar_h(s: &SG, g: &DirectedGraph, hi: i64) {
    sx::order_any2();
    let k = sx::choose(s.n());
    let t = sx::choose(s.n());
    let w = W::new(s, 0, hi);
    let mut h = vec![];
    for i in 0..s.n() {
        h.push(if i == t { 0 } else { sx::range(0, hi) });
    }
    for (i, j) in s.edges() {
        sx::assume(h[i] <= w.ix[i][j] + h[j]);
    }
    let hf = |_: &DirectedGraph, p: &Path| {
        let l = p.last().unwrap().0;
        let mut r = 0;
        for i in 0..s.n() {
            if s.ids[i] == l {
                r = h[i];
            }
        }
        r
    };
    let r = a_star::shortest_path(g, cost(&w), hf, v(s.ids[k]), v(s.ids[t]));
    astar_result(s, &w, k, t, r);
}
/// unit weights, as used by gc-short-path
fn astar_unit(s: &SG, g: &DirectedGraph) {
    let k = sx::choose(s.n());
    let t = sx::choose(s.n());
    astar_between(s, g, k, t)
}
fn astar_between(s: &SG, g: &DirectedGraph, k: usize, t: usize) {
    sx::order_any2();
    let r = a_star::shortest_path(g, a_star::one_weighted_edge, a_star::zero_heuristic, v(s.ids[k]), v(s.ids[t]));
    let d = s.dist(k)[t];
    match r {
        None => sx::check(d == usize::MAX, "no path although the target is reachable"),
        Some(sp) => {
            let p = indices(s, &sp.path.vertices);
            sx::check(p.first() == Some(&k) && p.last() == Some(&t) && is_walk(s, &p), "the result is a path of the graph from start to end");
            sx::check(p.len() == d + 1, "the path does not have the minimal number of edges");
            sx::check(sp.score == d as i64, "the score is the number of edges");
            sx::cover(1);
            sx::note(1, sp.score as u64);
        }
    }
}
const HI: i64 = 1 << 58;
harness! {
    c05_edges3 => { sx::order(2); let (s, g) = edges(3); trav_any(&s, &g) };
    c05_edges4 => { sx::order(0); let (s, g) = edges(4); trav_any(&s, &g) };
    c05_edges5 => { sx::order(0); let (s, g) = edges(5); trav_any(&s, &g) };
    c05_n3 => { sx::order(2); let (s, g) = matrix(3, true); trav_any(&s, &g) };
    c05_n4 => { sx::order(0); let (s, g) = matrix(4, false); trav_any(&s, &g) };
    c05_n4l => { sx::order(0); let (s, g) = matrix(4, true); trav_any(&s, &g) };
    c05_head3 => { sx::order(2); let (s, g) = edges(3); trav_head(&s, &g) };
    c05_head0 => { let s = SG::new(); let g = s.build(); trav_head(&s, &g) };
    c05_tiny => { sx::order(2); let (s, g) = tiny(); trav_any(&s, &g) };
    c05_huge => { let sh = [0, 2, 8][sx::choose(3)]; let (s, g) = huge(sh, 260); trav(&s, &g, 0) };
    c05_wide => { let sh = [0, 2, 8][sx::choose(3)]; let (s, g) = wide(sh, 80); trav(&s, &g, 0) };
    c05_big => { let sh = sx::choose(9); let (s, g) = skeleton(sh, 12, 1); trav_any(&s, &g) };
    c05_big2 => { let sh = sx::choose(9); let (s, g) = skeleton(sh, 24, 1); trav(&s, &g, 0) };

    c06_edges3 => { sx::order(2); let (s, g) = edges(3); paths_any(&s, &g) };
    c06_edges4 => { sx::order(0); let (s, g) = edges(4); paths_any(&s, &g) };
    c06_edges5 => { sx::order(0); let (s, g) = edges(5); paths_any(&s, &g) };
    c06_n3 => { sx::order(2); let (s, g) = matrix(3, true); paths_any(&s, &g) };
    c06_n4 => { sx::order(0); let (s, g) = matrix(4, false); paths_any(&s, &g) };
    c06_n4l => { sx::order(0); let (s, g) = matrix(4, true); paths_any(&s, &g) };
    c06_big2 => { let sh = [3, 8][sx::choose(2)]; let (s, g) = skeleton(sh, 12, 1); let k = sx::choose(3); paths_from(&s, &g, k) };
    c06_tiny => { sx::order(2); let (s, g) = tiny(); paths_any(&s, &g) };
    c06_huge => { let sh = [0, 2][sx::choose(2)]; let (s, g) = huge(sh, 260); paths_from(&s, &g, 0) };
    c06_wide => { let sh = [0, 2][sx::choose(2)]; let (s, g) = wide(sh, 72); paths_from(&s, &g, 0) };
    c06_big3 => { let sh = [4, 6, 7][sx::choose(3)]; let (s, g) = skeleton(sh, 7, 1); paths_from(&s, &g, 0) };
    c06_big => { let sh = [0, 1, 2, 5][sx::choose(4)]; let (s, g) = skeleton(sh, 12, 1); paths_from(&s, &g, 0) };

    c08_best_e3 => { sx::order(2); let (s, g) = edges(3); best(&s, &g, HI) };
    c08_best_e4 => { sx::order(0); let (s, g) = edges(4); best(&s, &g, HI) };
    c08_best_n3 => { sx::order(2); let (s, g) = matrix(3, false); best(&s, &g, HI) };
    c08_astar_e4 => { sx::order(0); let (s, g) = edges(4); astar(&s, &g, HI) };
    c08_astar_e5 => { sx::order(0); let (s, g) = edges(5); astar(&s, &g, HI) };
    c08_astar_n3 => { sx::order(2); let (s, g) = matrix(3, true); astar(&s, &g, HI) };
    c08_astar_n4 => { sx::order(0); let (s, g) = matrix(4, false); astar(&s, &g, HI) };
    c08_h_e3 => { sx::order(0); let (s, g) = edges(3); astar_h(&s, &g, HI) };
    c08_h_e4 => { sx::order(0); let (s, g) = edges(4); astar_h(&s, &g, HI) };
    c08_h_n3 => { sx::order(0); let (s, g) = matrix(3, false); astar_h(&s, &g, HI) };
    c08_unit_e4 => { sx::order(0); let (s, g) = edges(4); astar_unit(&s, &g) };
    c08_unit_e5 => { sx::order(0); let (s, g) = edges(5); astar_unit(&s, &g) };
    c08_unit_n4 => { sx::order(0); let (s, g) = matrix(4, false); astar_unit(&s, &g) };
    c08_fan_b => { sx::order(0); let (s, g) = fan(5, true); best(&s, &g, HI) };
    c08_fan_a => { sx::order(0); let (s, g) = fan(5, true); astar(&s, &g, HI) };
    c08_fan_h => { sx::order(0); let (s, g) = fan(4, true); astar_h(&s, &g, HI) };
    c08_b_tiny => { sx::order(2); let (s, g) = tiny(); best(&s, &g, HI) };
    c08_a_tiny => { sx::order(2); let (s, g) = tiny(); astar(&s, &g, HI) };
    c08_u_tiny => { sx::order(2); let (s, g) = tiny(); astar_unit(&s, &g) };
    c08_huge => { let sh = [0, 2, 8][sx::choose(3)]; let (s, g) = huge(sh, 260); let t = [1, 130, 259][sx::choose(3)]; astar_between(&s, &g, 0, t) };
    c08_wide => { let sh = [0, 2, 8][sx::choose(3)]; let (s, g) = wide(sh, 80); let t = [1, 40, 79][sx::choose(3)]; astar_between(&s, &g, 0, t) };
    c08_big2 => { let sh = 6 + sx::choose(3); let (s, g) = skeleton(sh, 10, 1); astar_unit(&s, &g) };
    c08_big => { let sh = sx::choose(6); let (s, g) = skeleton(sh, 14, 1); astar_unit(&s, &g) };
}
