//! C12 shortest / longest paths of a DAG, C13 Bellman-Ford and SPFA
use crate::gen::*;
use crate::harness;
use crate::sx;
use gc_core::algorithm::longest_path::*;
use gc_core::algorithm::shortest_path::*;
use gc_core::algorithm::topo_sort::try_dag;
use gc_core::directed_graph::DirectedGraph;
use gc_core::graph::*;
use gc_core::path::*;

/// `r` maps exactly the vertices reachable from k to a path of optimal score (`sign` 1 shortest, -1 longest)
fn optimal(s: &SG, w: &W, k: usize, r: &[(VertexId, ScoredPath)], sign: i64) {
    let reach = s.reach(k);
    let mut seen = vec![false; s.n()];
    let all = s.simple_paths(k);
    for (x, sp) in r {
        let i = match s.find(x.0) {
            Some(i) => i,
            None => {
                sx::check(false, "a vertex that is not in the graph");
                return;
            }
        };
        sx::check(reach[i], "an unreachable vertex has a score");
        seen[i] = true;
        let p = indices(s, &sp.path.vertices);
        sx::check(p.first() == Some(&k) && p.last() == Some(&i) && is_walk(s, &p), "the path leads from the start to the vertex");
        sx::check(w.sum(&p) == sp.score, "the score is the cost of the path");
        for q in &all {
            if *q.last().unwrap() == i {
                sx::check(sign * sp.score <= sign * w.sum(q), "a better path exists");
            }
        }
    }
    for i in 0..s.n() {
        sx::check(seen[i] == reach[i], "a reachable vertex has no score");
    }
}
fn dag(s: &SG, g: &DirectedGraph, longest: bool) {
    sx::assume(s.acyclic());
    sx::order_any2();
    let k = sx::choose(s.n());
    let w = W::new(s, -HI, HI);
    let f = |e: &Edge| w.of(e.0, e.1);
    let d = match try_dag(g) {
        Some(d) => d,
        None => {
            sx::check(false, "an acyclic graph is not accepted as a DAG");
            return;
        }
    };
    let r = if longest { dag_longest_paths(d, f, v(s.ids[k])) } else { dag_shortest_paths(d, f, v(s.ids[k])) };
    let r: Vec<(VertexId, ScoredPath)> = r.into_iter().collect();
    sx::cover(1);
    optimal(s, &w, k, &r, if longest { -1 } else { 1 });
    // single-target variants
    let t = sx::choose(s.n());
    let one = if longest {
        dag_longest_path(try_dag(g).unwrap(), f, v(s.ids[k]), v(s.ids[t]))
    } else {
        dag_shortest_path(try_dag(g).unwrap(), f, v(s.ids[k]), v(s.ids[t]))
    };
    let mut exp = None;
    for (x, sp) in &r {
        if x.0 == s.ids[t] {
            exp = Some(sp.score);
        }
    }
    sx::check(one.is_some() == exp.is_some(), "the single-target variant finds a path iff the target is reachable");
    if let (Some(a), Some(b)) = (one, exp) {
        sx::check(a.score == b, "the single-target variant returns the optimal score");
        sx::check(a.path.first().map(|x| x.0) == Some(s.ids[k]) && a.path.last().map(|x| x.0) == Some(s.ids[t]), "the single-target path joins start and end");
    }
}
/// is there a cycle of negative total weight reachable from k (symbolic, no fork)
fn negative(s: &SG, w: &W, k: usize) -> bool {
    let reach = s.reach(k);
    let mut any = false;
    for c in s.cycles() {
        if reach[c[0]] {
            let mut t = w.sum(&c);
            t += w.ix[*c.last().unwrap()][c[0]];
            any |= t < 0;
        }
    }
    any
}
fn bf(s: &SG, g: &DirectedGraph) {
    sx::order_any2();
    let k = sx::choose(s.n());
    let w = W::new(s, -HI, HI);
    let neg = negative(s, &w, k);
    let r = bellman_ford(g, |e: &Edge| w.of(e.0, e.1), v(s.ids[k]));
    match r {
        None => {
            sx::cover(1);
            sx::check(neg, "None although no negative cycle is reachable from the start");
        }
        Some(m) => {
            sx::cover(2);
            sx::check(!neg, "scores although a negative cycle is reachable from the start");
            let r: Vec<(VertexId, ScoredPath)> = m.into_iter().collect();
            optimal(s, &w, k, &r, 1);
        }
    }
}
fn sp(s: &SG, g: &DirectedGraph) {
    sx::order_any2();
    let k = sx::choose(s.n());
    let w = W::new(s, -HI, HI);
    sx::assume(!negative(s, &w, k));
    let m = spfa(g, |e: &Edge| w.of(e.0, e.1), v(s.ids[k]));
    sx::cover(1);
    let r: Vec<(VertexId, ScoredPath)> = m.into_iter().collect();
    optimal(s, &w, k, &r, 1);
}
fn unit(s: &SG, g: &DirectedGraph, k: usize) {
    // larger graphs, weight 1: distances
    sx::order_any2();
    let d = s.dist(k);
    let chk = |r: Vec<(VertexId, ScoredPath)>| {
        let mut n = 0;
        for (x, sp) in &r {
            let p = indices(s, &sp.path.vertices);
            let i = s.find(x.0).unwrap();
            sx::check(p.first() == Some(&k) && p.last() == Some(&i) && is_walk(s, &p), "the path leads from the start to the vertex");
            sx::check(d[i] != usize::MAX && sp.score == d[i] as i64 && p.len() == d[i] + 1, "the score is the distance");
            n += 1;
        }
        sx::check(n == d.iter().filter(|x| **x != usize::MAX).count(), "every reachable vertex has a score");
    };
    if let Some(m) = bellman_ford(g, |_: &Edge| 1, v(s.ids[k])) {
        chk(m.into_iter().collect());
    } else {
        sx::check(false, "negative cycle reported for positive weights");
    }
    chk(spfa(g, |_: &Edge| 1, v(s.ids[k])).into_iter().collect());
    sx::cover(1);
}
fn unit_dag(s: &SG, g: &DirectedGraph, k: usize) {
    sx::assume(s.acyclic());
    sx::order_any2();
    let d = s.dist(k);
    // longest distance by dynamic programming over all orders (Bellman)
    let n = s.n();
    let mut l: Vec<i64> = vec![i64::MIN; n];
    l[k] = 0;
    for _ in 0..n {
        for (i, j) in s.edges() {
            if l[i] != i64::MIN && l[i] + 1 > l[j] {
                l[j] = l[i] + 1;
            }
        }
    }
    let a: Vec<(VertexId, ScoredPath)> = match try_dag(g) {
        Some(x) => dag_shortest_paths(x, |_: &Edge| 1, v(s.ids[k])).into_iter().collect(),
        None => {
            sx::check(false, "an acyclic graph is not accepted as a DAG");
            return;
        }
    };
    let b: Vec<(VertexId, ScoredPath)> = dag_longest_paths(try_dag(g).unwrap(), |_: &Edge| 1, v(s.ids[k])).into_iter().collect();
    sx::check(a.len() == b.len() && a.len() == d.iter().filter(|x| **x != usize::MAX).count(), "every reachable vertex has a score");
    for (x, sp) in &a {
        let i = s.find(x.0).unwrap();
        sx::check(sp.score == d[i] as i64 && is_walk(s, &indices(s, &sp.path.vertices)), "shortest distance");
    }
    for (x, sp) in &b {
        let i = s.find(x.0).unwrap();
        sx::check(sp.score == l[i] && is_walk(s, &indices(s, &sp.path.vertices)), "longest distance");
    }
    sx::cover(1);
}
const HI: i64 = 1 << 58;
harness! {
    c12_s_e3 => { sx::order(2); let (s, g) = edges(3); dag(&s, &g, false) };
    c12_s_e4 => { sx::order(0); let (s, g) = edges(4); dag(&s, &g, false) };
    c12_s_n4 => { sx::order(0); let (s, g) = matrix(4, false); dag(&s, &g, false) };
    c12_l_e3 => { sx::order(2); let (s, g) = edges(3); dag(&s, &g, true) };
    c12_l_e4 => { sx::order(0); let (s, g) = edges(4); dag(&s, &g, true) };
    c12_l_n4 => { sx::order(0); let (s, g) = matrix(4, false); dag(&s, &g, true) };
    c12_big => { let sh = [0, 2, 3, 4, 5, 6, 7][sx::choose(7)]; let (s, g) = skeleton(sh, 14, 1); let k = sx::choose(2); unit_dag(&s, &g, k) };
    c12_s_tiny => { sx::order(2); let (s, g) = tiny(); dag(&s, &g, false) };
    c12_l_tiny => { sx::order(2); let (s, g) = tiny(); dag(&s, &g, true) };
    c12_huge => { let sh = [0, 2][sx::choose(2)]; let (s, g) = huge(sh, 130); unit_dag(&s, &g, 0) };
    c12_wide => { let sh = [0, 2][sx::choose(2)]; let (s, g) = wide(sh, 72); unit_dag(&s, &g, 0) };
    c12_s_fan => { sx::order(0); let (s, g) = fan(5, false); dag(&s, &g, false) };
    c12_l_fan => { sx::order(0); let (s, g) = fan(4, false); dag(&s, &g, true) };
    c13_bf_fan => { sx::order(0); let (s, g) = fan(4, false); bf(&s, &g) };
    c13_bf_fan5 => { sx::order(0); let (s, g) = fan(5, false); bf(&s, &g) };
    c13_bf_fan6 => { sx::order(0); let (s, g) = fan(6, false); bf(&s, &g) };
    c13_bf_fanb5 => { sx::order(0); let (s, g) = fan(5, true); bf(&s, &g) };
    c13_sp_fan6 => { sx::order(0); let (s, g) = fan(6, false); sp(&s, &g) };
    c13_sp_fanb5 => { sx::order(0); let (s, g) = fan(5, true); sp(&s, &g) };
    c13_bf_fanb => { sx::order(0); let (s, g) = fan(4, true); bf(&s, &g) };
    c13_sp_fan => { sx::order(0); let (s, g) = fan(4, false); sp(&s, &g) };
    c13_sp_fan5 => { sx::order(0); let (s, g) = fan(5, false); sp(&s, &g) };
    c13_sp_fanb => { sx::order(0); let (s, g) = fan(4, true); sp(&s, &g) };
    c13_bf_e3 => { sx::order(2); let (s, g) = edges(3); bf(&s, &g) };
    c13_bf_e4 => { sx::order(0); let (s, g) = edges(4); bf(&s, &g) };
    c13_bf_n3 => { sx::order(0); let (s, g) = matrix(3, true); bf(&s, &g) };
    c13_bf_n4 => { sx::order(0); let (s, g) = matrix(4, false); bf(&s, &g) };
    c13_sp_e3 => { sx::order(2); let (s, g) = edges(3); sp(&s, &g) };
    c13_sp_e4 => { sx::order(0); let (s, g) = edges(4); sp(&s, &g) };
    c13_sp_n3 => { sx::order(0); let (s, g) = matrix(3, true); sp(&s, &g) };
    c13_sp_n4 => { sx::order(0); let (s, g) = matrix(4, false); sp(&s, &g) };
    c13_bf_tiny => { sx::order(2); let (s, g) = tiny(); bf(&s, &g) };
    c13_sp_tiny => { sx::order(2); let (s, g) = tiny(); sp(&s, &g) };
    c13_huge => { let sh = [0, 2][sx::choose(2)]; let (s, g) = huge(sh, 220); unit(&s, &g, 0) };
    c13_wide => { let sh = [0, 2][sx::choose(2)]; let (s, g) = wide(sh, 72); unit(&s, &g, 0) };
    c13_big => { let sh = sx::choose(9); let (s, g) = skeleton(sh, 12, 1); unit(&s, &g, 0) };
}
