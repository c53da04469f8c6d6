//! C17 maximum flow
use crate::gen::*;
use crate::harness;
use crate::sx;
use gc_core::algorithm::max_flow::max_flow;
use gc_core::directed_graph::DirectedGraph;
use gc_core::graph::*;

fn flow(s: &SG, g: &DirectedGraph, hi: i64) {
    let n = s.n();
    let a = sx::choose(n);
    let b = sx::choose(n);
    sx::assume(a != b);
    let w = W::new(s, 0, hi);
    flow_w(s, g, a, b, w)
}
fn flow_w(s: &SG, g: &DirectedGraph, a: usize, b: usize, w: W) {
    sx::order_any2();
    let n = s.n();
    let (val, fl) = max_flow(g, |e: &Edge| w.of(e.0, e.1) as u64, v(s.ids[a]), v(s.ids[b]));
    let mut f: Vec<Vec<Option<u64>>> = vec![vec![None; n]; n];
    for (Edge(x, y), (q, c)) in fl.iter() {
        match (s.find(x.0), s.find(y.0)) {
            (Some(i), Some(j)) if s.adj[i][j] => {
                sx::check(f[i][j].is_none(), "an edge has two flows");
                f[i][j] = Some(*q);
                sx::check(*c == w.ix[i][j] as u64, "the reported capacity is that of the edge");
                sx::check(*q <= *c, "the flow exceeds the capacity of an edge");
            }
            _ => sx::check(false, "a flow on an edge that is not in the graph"),
        }
    }
    for i in 0..n {
        for j in 0..n {
            sx::check(f[i][j].is_some() == s.adj[i][j], "an edge has no flow");
        }
    }
    let get = |i: usize, j: usize| f[i][j].unwrap_or(0);
    for i in 0..n {
        let mut o = 0u64;
        let mut p = 0u64;
        for j in 0..n {
            o += get(i, j);
            p += get(j, i);
        }
        if i == a {
            sx::check(o == p + val, "the value is the net flow out of the source");
        } else if i == b {
            sx::check(p == o + val, "the value is the net flow into the target");
        } else {
            sx::check(o == p, "flow is not conserved at an inner vertex");
        }
    }
    if n > 10 {
        // optimality: no augmenting path in the residual network
        let mut seen = vec![false; n];
        let mut todo = vec![a];
        seen[a] = true;
        while let Some(i) = todo.pop() {
            for j in 0..n {
                if !seen[j] && (s.adj[i][j] && get(i, j) < w.ix[i][j] as u64 || s.adj[j][i] && get(j, i) > 0) {
                    seen[j] = true;
                    todo.push(j);
                }
            }
        }
        sx::check(!seen[b], "the flow is not maximal: more can be sent");
        sx::cover(1);
        return;
    }
    // optimality: the value equals the capacity of some cut
    let mut hit = false;
    for set in 0..1usize << n {
        if set >> a & 1 == 1 && set >> b & 1 == 0 {
            let mut c = 0u64;
            for (i, j) in s.edges() {
                if set >> i & 1 == 1 && set >> j & 1 == 0 {
                    c += w.ix[i][j] as u64;
                }
            }
            hit |= c == val;
        }
    }
    sx::check(hit, "the flow is not maximal: its value is below every cut");
    if s.reach(a)[b] {
        sx::cover(1)
    } else {
        sx::cover(0)
    }
}
const HI: i64 = 1 << 58;
/// a diamond with a cross edge: the augmenting path has to push flow back
fn diamond(extra: usize, hi: i64) {
    let mut s = SG::new();
    let mut g = DirectedGraph::new();
    for (a, b) in [(1, 2), (1, 3), (2, 3), (2, 4), (3, 4)] {
        s.edge(a, b);
        g.add_edge(e(a, b));
    }
    for _ in 0..extra {
        let (a, b) = (sx::choose(4) as u64 + 1, sx::choose(4) as u64 + 1);
        s.edge(a, b);
        g.add_edge(e(a, b));
    }
    flow(&s, &g, hi)
}
/// two long chains joined by a rung, on which the shortest augmenting path uses the rung
fn ladder(hi: i64) {
    let mut s = SG::new();
    let mut g = DirectedGraph::new();
    for (a, b) in [(1, 2), (2, 3), (3, 8), (1, 4), (4, 5), (5, 6), (6, 3), (2, 7), (7, 9), (9, 8)] {
        s.edge(a, b);
        g.add_edge(e(a, b));
    }
    flow(&s, &g, hi)
}
/// networks of 6 to 8 vertices with given capacities, two of which are arbitrary
fn net(two: bool) {
    let nets: [(&[(u64, u64, i64)], u64, u64); 6] = [
        (&[(1, 2, 16), (1, 3, 13), (2, 3, 10), (3, 2, 4), (2, 4, 12), (4, 3, 9), (3, 5, 14), (5, 4, 7), (4, 6, 20), (5, 6, 4)], 1, 6),
        (&[(1, 2, 10), (1, 3, 5), (1, 4, 15), (2, 5, 9), (2, 6, 15), (2, 3, 4), (3, 6, 8), (3, 4, 4), (4, 7, 16), (5, 6, 15), (5, 8, 10), (6, 8, 10), (6, 7, 15), (7, 3, 6), (7, 8, 10)], 1, 8),
        (&[(1, 2, 7), (1, 3, 7), (2, 4, 7), (3, 4, 7), (4, 5, 14), (5, 6, 3), (5, 7, 9), (6, 8, 9), (7, 8, 9), (8, 1, 5), (4, 1, 2)], 1, 8),
        (&[(1, 2, 3), (2, 1, 4), (2, 3, 5), (3, 2, 1), (3, 4, 2), (4, 3, 6), (4, 1, 2), (1, 4, 7), (1, 3, 1), (3, 1, 1), (2, 4, 1), (4, 2, 3)], 1, 3),
        (&[(1, 2, 1), (2, 3, 1), (3, 8, 1), (1, 4, 1), (4, 5, 1), (5, 3, 1), (2, 6, 1), (6, 7, 1), (7, 8, 1)], 1, 8),
        (&[(1, 2, 5), (2, 3, 5), (3, 2, 2), (3, 8, 5), (1, 4, 5), (4, 3, 5), (2, 7, 5), (7, 8, 5)], 1, 8),
    ];
    let (l, a, b) = nets[sx::choose(6)];
    let mut s = SG::new();
    let mut g = DirectedGraph::new();
    for (x, y, _) in l {
        s.edge(*x, *y);
        g.add_edge(e(*x, *y));
    }
    let n = s.n();
    let i = sx::choose(l.len());
    let j = if two { sx::choose(l.len()) } else { i };
    sx::assume(j <= i);
    let mut w = W { w: vec![], ix: vec![vec![0; n]; n] };
    for (k, (x, y, c)) in l.iter().enumerate() {
        let c = if k == i || k == j { sx::range(0, 20) } else { *c };
        w.w.push((*x, *y, c));
        w.ix[s.find(*x).unwrap()][s.find(*y).unwrap()] = c;
    }
    let (a, b) = (s.find(a).unwrap(), s.find(b).unwrap());
    flow_w(&s, &g, a, b, w)
}
/// a source joined to a target over many vertices, or by a long chain; one capacity is arbitrary
fn wide_net() {
    sx::order_any2();
    let mut l: Vec<(u64, u64, i64)> = vec![];
    let chain = sx::choose(2) == 0;
    let m = 24;
    for i in 0..m {
        let c = (i * 7 % 5) as i64;
        if chain {
            l.push((i, i + 1, c + 9));
        } else {
            l.push((100, i, c + 1));
            l.push((i, 200, (c * 3) % 7 + 1));
            if i % 6 == 5 {
                l.push((i, i - 1, 2));
            }
        }
    }
    let (a, b) = if chain { (0, m) } else { (100, 200) };
    let mut s = SG::new();
    let mut g = DirectedGraph::new();
    let n = l.len();
    let k = [0, n / 2, n - 3][sx::choose(3)];
    l[k].2 = sx::range(0, 12);
    for (x, y, _) in &l {
        s.edge(*x, *y);
        g.add_edge(e(*x, *y));
    }
    let n = s.n();
    let mut w = W { w: vec![], ix: vec![vec![0; n]; n] };
    for (x, y, c) in l {
        w.w.push((x, y, c));
        w.ix[s.find(x).unwrap()][s.find(y).unwrap()] = c;
    }
    let (a, b) = (s.find(a).unwrap(), s.find(b).unwrap());
    flow_w(&s, &g, a, b, w)
}
harness! {
    c17_wide => wide_net();
    c17_tiny => { sx::order(2); let (s, g) = matrix(2, true); flow(&s, &g, HI) };
    c17_net => { sx::order(0); net(false) };
    c17_net2 => { sx::order(0); net(true) };
    c17_e2 => { sx::order(2); let (s, g) = edges(2); flow(&s, &g, HI) };
    c17_e3 => { sx::order(0); let (s, g) = edges(3); flow(&s, &g, HI) };
    c17_e4 => { sx::order(0); let (s, g) = edges(4); flow(&s, &g, HI) };
    c17_n3 => { sx::order(0); let (s, g) = matrix(3, false); flow(&s, &g, HI) };
    c17_diamond => { sx::order(0); diamond(0, 1 << 32) };
    c17_diamond1 => { sx::order(0); diamond(1, 3) };
    c17_ladder => { sx::order(0); ladder(2) };
}
