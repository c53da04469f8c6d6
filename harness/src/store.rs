//! C01 the graph store behaves as a set of vertices and a set of edges
use crate::gen::*;
use crate::harness;
use crate::sx;
use gc_core::directed_graph::DirectedGraph;
use gc_core::graph::*;

/// every observation agrees with the abstract graph
pub fn agree(s: &SG, g: &DirectedGraph) {
    let n = s.n();
    sx::check(g.vertex_count() == n, "vertex_count");
    sx::check(g.edge_count() == s.m(), "edge_count");
    sx::check(g.is_empty() == (n == 0), "is_empty");
    match g.head_option() {
        None => sx::check(n == 0, "head_option is None on a non-empty graph"),
        Some(h) => sx::check(s.find(h.0).is_some(), "head_option is not a vertex"),
    }
    let mut seen = vec![false; n];
    for x in g.vertices() {
        match s.find(x.0) {
            Some(i) => {
                sx::check(!seen[i], "vertices() repeats a vertex");
                seen[i] = true;
            }
            None => sx::check(false, "vertices() yields an unknown vertex"),
        }
    }
    sx::check(seen.iter().all(|b| *b), "vertices() misses a vertex");
    let mut es = vec![vec![false; n]; n];
    for Edge(a, b) in g.edges() {
        match (s.find(a.0), s.find(b.0)) {
            (Some(i), Some(j)) => {
                sx::check(s.adj[i][j], "edges() yields an edge that is not in the graph");
                sx::check(!es[i][j], "edges() repeats an edge");
                es[i][j] = true;
            }
            _ => sx::check(false, "edges() yields an unknown vertex"),
        }
    }
    for i in 0..n {
        sx::check(g.contains_vertex(v(s.ids[i])), "contains_vertex false on a vertex");
        let mut out = vec![false; n];
        for Edge(a, b) in g.outbound_edges(v(s.ids[i])) {
            sx::check(a.0 == s.ids[i], "outbound edge of another vertex");
            match s.find(b.0) {
                Some(j) => {
                    sx::check(s.adj[i][j] && !out[j], "outbound_edges yields a wrong or repeated edge");
                    out[j] = true;
                }
                None => sx::check(false, "outbound edge to an unknown vertex"),
            }
        }
        let mut inn = vec![false; n];
        for Edge(a, b) in g.inbound_edges(v(s.ids[i])) {
            sx::check(b.0 == s.ids[i], "inbound edge of another vertex");
            match s.find(a.0) {
                Some(j) => {
                    sx::check(s.adj[j][i] && !inn[j], "inbound_edges yields a wrong or repeated edge");
                    inn[j] = true;
                }
                None => sx::check(false, "inbound edge from an unknown vertex"),
            }
        }
        let mut dout = 0;
        let mut din = 0;
        for j in 0..n {
            sx::check(es[i][j] == s.adj[i][j], "edges() misses an edge");
            sx::check(out[j] == s.adj[i][j], "outbound_edges misses an edge");
            sx::check(inn[j] == s.adj[j][i], "inbound_edges misses an edge");
            sx::check(g.contains_edge(e(s.ids[i], s.ids[j])) == s.adj[i][j], "contains_edge");
            dout += s.adj[i][j] as usize;
            din += s.adj[j][i] as usize;
        }
        sx::check(g.degree_out(v(s.ids[i])) == dout, "degree_out");
        sx::check(g.degree_in(v(s.ids[i])) == din, "degree_in");
    }
}

pub fn remove_vertex(s: &mut SG, id: u64) -> bool {
    match s.find(id) {
        None => false,
        Some(i) => {
            s.ids.remove(i);
            s.adj.remove(i);
            for r in s.adj.iter_mut() {
                r.remove(i);
            }
            true
        }
    }
}

pub fn step(s: &mut SG, g: &mut DirectedGraph) {
    let op = sx::choose(4);
    let a = sx::u64v();
    match op {
        0 => {
            s.vertex(a);
            g.add_vertex(v(a));
        }
        1 => {
            let b = sx::u64v();
            let new = s.edge(a, b);
            sx::check(g.add_edge(e(a, b)) == new, "add_edge reports whether the edge is new");
        }
        2 => {
            let had = remove_vertex(s, a);
            sx::check(g.remove_vertex(v(a)) == had, "remove_vertex reports whether the vertex existed");
        }
        _ => {
            let b = sx::u64v();
            if let (Some(i), Some(j)) = (s.find(a), s.find(b)) {
                s.adj[i][j] = false;
            }
            g.remove_edge(e(a, b));
        }
    }
}
fn history(k: usize, order: u8) {
    sx::order(order);
    let mut s = SG::new();
    let mut g = DirectedGraph::new();
    for _ in 0..k {
        step(&mut s, &mut g);
    }
    sx::cover(0);
    agree(&s, &g);
}
fn one_step(n: usize) {
    let (mut s, mut g) = matrix(n, true);
    step(&mut s, &mut g);
    sx::cover(0);
    agree(&s, &g);
}
/// nothing is known of an id that is not in the graph
fn foreign(s: &SG, g: &DirectedGraph) {
    let p = sx::u64v();
    sx::assume(s.find(p).is_none());
    sx::check(!g.contains_vertex(v(p)), "contains_vertex true on an unknown id");
    sx::check(!g.contains_edge(e(p, p)), "contains_edge true on an unknown id");
    for x in &s.ids {
        sx::check(!g.contains_edge(e(p, *x)) && !g.contains_edge(e(*x, p)), "contains_edge true on an unknown id");
    }
    sx::check(g.degree_in(v(p)) == 0 && g.degree_out(v(p)) == 0, "an unknown id has edges");
}
/// one operation at the hub of a star, or on an arbitrary vertex, and perhaps its opposite
fn wide_step(sh: usize, k: usize) {
    let (mut s, mut g) = skeleton(sh, k, 0);
    if sh == 8 {
        // the edges from the hub and those to it come in different orders
        let how = sx::choose(4);
        if how > 0 {
            g = DirectedGraph::new();
        }
        for i in 1..k {
            if how == 1 || how == 2 {
                g.add_edge(e(s.ids[i], s.ids[0]));
            }
            if how == 2 || how == 3 {
                g.add_edge(e(s.ids[0], s.ids[i]));
            }
            if how == 3 {
                g.add_edge(e(s.ids[i], s.ids[0]));
            }
        }
        if how == 1 {
            for i in 1..k {
                g.add_edge(e(s.ids[0], s.ids[i]));
            }
        }
    }
    let hub = s.ids[0];
    let mut a = sx::u64v();
    let mut b = hub;
    let op = sx::choose(5);
    if op == 4 {
        a = hub;
    } else if op % 2 == 1 {
        b = a;
        a = hub;
    }
    match op {
        0 | 1 => {
            let new = s.edge(a, b);
            sx::check(g.add_edge(e(a, b)) == new, "add_edge reports whether the edge is new");
        }
        2 | 3 => {
            if let (Some(i), Some(j)) = (s.find(a), s.find(b)) {
                s.adj[i][j] = false;
            }
            g.remove_edge(e(a, b));
        }
        _ => {
            let had = remove_vertex(&mut s, a);
            sx::check(g.remove_vertex(v(a)) == had, "remove_vertex reports whether the vertex existed");
        }
    }
    sx::cover(0);
    agree(&s, &g);
}
fn big_step(sh: usize, k: usize) {
    let (mut s, mut g) = skeleton(sh, k, 0);
    step(&mut s, &mut g);
    sx::cover(0);
    agree(&s, &g);
}

harness! {
    c01_big => { let sh = sx::choose(9); big_step(sh, 12) };
    c01_big2 => { let sh = [2, 3, 8][sx::choose(3)]; big_step(sh, 36) };
    c01_huge => { let sh = [2, 3, 8][sx::choose(3)]; let (s, g) = huge(sh, 130); agree(&s, &g); sx::cover(0) };
    c01_wide => { let sh = [2, 3, 8][sx::choose(3)]; wide_step(sh, 68) };
    c01_foreign => { sx::order(0); let (mut s, mut g) = tiny(); step(&mut s, &mut g); foreign(&s, &g); sx::cover(0) };
    c01_foreign0 => { let (s, g) = (SG::new(), DirectedGraph::new()); foreign(&s, &g); agree(&s, &g); sx::cover(0) };
    c01_hist2 => history(2, 2);
    c01_hist3 => history(3, 2);
    c01_hist4 => history(4, 0);
    c01_step2 => one_step(2);
    c01_two2 => { let (mut s, mut g) = matrix(2, true); step(&mut s, &mut g); step(&mut s, &mut g); sx::cover(0); agree(&s, &g) };
    c01_step3 => one_step(3);
}
