//! C07 topological sort
use crate::gen::*;
use crate::harness;
use crate::sx;
use gc_core::algorithm::topo_sort::*;
use gc_core::directed_graph::DirectedGraph;

fn check_topo(s: &SG, g: &DirectedGraph) {
    sx::order_any2();
    let t = topological_sort(g);
    let acyclic = s.acyclic();
    sx::check(t.is_some() == acyclic, "topological_sort is Some iff the graph is acyclic");
    sx::check(is_dag(g) == acyclic, "is_dag");
    sx::check(try_dag(g).is_some() == acyclic, "try_dag");
    if acyclic {
        sx::cover(0);
    } else {
        sx::cover(1);
    }
    if let Some(o) = t {
        sx::check(o.len() == s.n(), "the order lists every vertex once");
        let mut pos = vec![usize::MAX; s.n()];
        for (k, x) in o.iter().enumerate() {
            match s.find(x.0) {
                Some(i) => {
                    sx::check(pos[i] == usize::MAX, "the order repeats a vertex");
                    pos[i] = k;
                }
                None => sx::check(false, "the order lists an unknown vertex"),
            }
        }
        for (i, j) in s.edges() {
            sx::check(pos[i] < pos[j], "an edge goes backwards in the order");
        }
    }
}
harness! {
    c07_edges3 => { sx::order(2); let (s, g) = edges(3); check_topo(&s, &g) };
    c07_edges4 => { sx::order(0); let (s, g) = edges(4); check_topo(&s, &g) };
    c07_big => { let sh = sx::choose(9); let (s, g) = skeleton(sh, 14, 1); check_topo(&s, &g) };
    c07_tiny => { sx::order(2); let (s, g) = tiny(); check_topo(&s, &g) };
    c07_huge => { let sh = [1, 2, 3, 8, 0][sx::choose(5)]; let (s, g) = huge(sh, 260); check_topo(&s, &g) };
    c07_wide => { let sh = [1, 2, 3, 8][sx::choose(4)]; let (s, g) = wide(sh, 72); check_topo(&s, &g) };
    c07_big2 => { let sh = [0, 4, 5][sx::choose(3)]; let (s, g) = skeleton(sh, 40, 0); check_topo(&s, &g) };
    c07_n3 => { sx::order(2); let (s, g) = matrix(3, true); check_topo(&s, &g) };
    c07_n4 => { sx::order(0); let (s, g) = matrix(4, false); check_topo(&s, &g) };
}
