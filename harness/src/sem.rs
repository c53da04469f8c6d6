//! Reference semantics shared by the harnesses
use crate::gen::*;
use gc_core::constraint::constraint::Constraint;
use gc_core::constraint::constraint::Constraint::*;
use gc_core::graph::*;

/// what a constraint means for a complete path (without forking)
pub fn sat(c: &Constraint, p: &[u64], score: i64) -> bool {
    match c {
        ContainsVertex(x) => {
            let mut r = false;
            for y in p {
                r |= *y == x.0;
            }
            r
        }
        ContainsEdge(Edge(x, y)) => {
            let mut r = false;
            for i in 1..p.len() {
                r |= (p[i - 1] == x.0) & (p[i] == y.0);
            }
            r
        }
        OrderedVertices(l) => {
            // no listed vertex appears after a vertex listed later
            let mut ok = true;
            for i in 0..p.len() {
                for j in i + 1..p.len() {
                    for a in 0..l.len() {
                        for b in a + 1..l.len() {
                            ok &= !((p[i] == l[b].0) & (p[j] == l[a].0));
                        }
                    }
                }
            }
            ok
        }
        ContainsCycle => {
            let mut r = false;
            for i in 0..p.len() {
                for j in 0..i {
                    r |= p[i] == p[j];
                }
            }
            r
        }
        MinLength(n) => p.len() >= *n,
        MaxLength(n) => p.len() <= *n,
        MinScore(x) => score >= *x,
        MaxScore(x) => score <= *x,
        Or(a, b) => sat(a, p, score) | sat(b, p, score),
        Xor(a, b) => sat(a, p, score) ^ sat(b, p, score),
        And(a, b) => sat(a, p, score) & sat(b, p, score),
        Not(a) => !sat(a, p, score),
    }
}
/// the cycles that enumeration promises: all those reachable from the vertices without inbound edge,
/// or all of them when every vertex can reach every other
pub fn promised(s: &SG) -> Vec<Vec<usize>> {
    let n = s.n();
    let mut start = vec![false; n];
    let mut any = false;
    for i in 0..n {
        if (0..n).all(|j| !s.adj[j][i]) {
            start[i] = true;
            any = true;
        }
    }
    let strong = n == 0 || s.reach(0).iter().all(|b| *b) && s.coreach(0).iter().all(|b| *b);
    let mut ok = vec![strong && !any; n];
    for i in 0..n {
        if start[i] {
            for (j, b) in s.reach(i).iter().enumerate() {
                ok[j] = ok[j] || *b;
            }
        }
    }
    s.cycles().into_iter().filter(|c| ok[c[0]]).collect()
}
