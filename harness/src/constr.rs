//! C09 constrained shortest path, C10 partial checks, C11 complete checks, C18 validation of constraint lists
use crate::gen::*;
use crate::harness;
use crate::sx;
use gc_core::constraint::checker::validate;
use gc_core::constraint::constraint::Constraint;
use gc_core::constraint::constraint::Constraint::*;
use gc_core::directed_graph::DirectedGraph;
use gc_core::graph::*;
use gc_core::path::*;
use gc_core::search::a_star;

pub use crate::sem::sat;
/// an arbitrary leaf constraint: kind decided, parameters symbolic
pub fn leaf(id: &dyn Fn() -> u64) -> Constraint {
    match sx::choose(8) {
        0 => ContainsVertex(v(id())),
        1 => ContainsEdge(e(id(), id())),
        2 => {
            let n = 2 + sx::choose(2);
            let l: Vec<u64> = (0..n).map(|_| id()).collect();
            for i in 0..n {
                for j in 0..i {
                    sx::assume(l[i] != l[j]);
                }
            }
            OrderedVertices(l.iter().map(|x| v(*x)).collect())
        }
        3 => ContainsCycle,
        4 => MinLength(sx::u64v() as usize),
        5 => MaxLength(sx::u64v() as usize),
        6 => MinScore(sx::u64v() as i64),
        _ => MaxScore(sx::u64v() as i64),
    }
}
pub fn small_leaf(id: &dyn Fn() -> u64) -> Constraint {
    match sx::choose(5) {
        0 => ContainsVertex(v(id())),
        1 => ContainsEdge(e(id(), id())),
        2 => MaxLength(sx::u64v() as usize),
        3 => MinScore(sx::u64v() as i64),
        _ => ContainsCycle,
    }
}
fn tree(depth: usize, l: &dyn Fn() -> Constraint) -> Constraint {
    if depth == 0 {
        return l();
    }
    match sx::choose(5) {
        0 => l(),
        1 => Or(Box::new(tree(depth - 1, l)), Box::new(tree(depth - 1, l))),
        2 => Xor(Box::new(tree(depth - 1, l)), Box::new(tree(depth - 1, l))),
        3 => And(Box::new(tree(depth - 1, l)), Box::new(tree(depth - 1, l))),
        _ => Not(Box::new(tree(depth - 1, l))),
    }
}
fn scored(p: &[u64], score: i64) -> ScoredPath {
    ScoredPath { path: Path { vertices: p.iter().map(|x| v(*x)).collect() }, score }
}
fn complete(c: Constraint, k: usize) {
    let n = sx::choose(k + 1);
    let p: Vec<u64> = (0..n).map(|_| sx::u64v()).collect();
    let score = sx::u64v() as i64;
    let got = c.check_complete(&scored(&p, score));
    sx::check(got == sat(&c, &p, score), "check_complete is what the constraint means");
    sx::cover(got as u32);
}
fn partial(c: Constraint, k: usize, ext: usize) {
    let n = 1 + sx::choose(k);
    let m = sx::choose(ext + 1);
    let p: Vec<u64> = (0..n + m).map(|_| sx::u64v()).collect();
    let score = sx::u64v() as i64;
    let full = sx::u64v() as i64;
    sx::assume(full >= score);
    let part = c.check_partial(&scored(&p[..n], score));
    if !part {
        // rejected: then no extension satisfies the constraint
        sx::check(!sat(&c, &p, full), "a partial path that can still satisfy the constraint is rejected");
        sx::check(!c.check_complete(&scored(&p, full)), "a partial path that can still satisfy the constraint is rejected");
        sx::cover(0);
    } else {
        sx::cover(1);
    }
}
/// a list of 0, 1, 4 or 5 different vertices in order
fn ordered(id: &dyn Fn() -> u64) -> Constraint {
    let n = [0, 1, 4, 5][sx::choose(4)];
    let l: Vec<u64> = (0..n).map(|_| id()).collect();
    for i in 0..n {
        for j in 0..i {
            sx::assume(l[i] != l[j]);
        }
    }
    OrderedVertices(l.iter().map(|x| v(*x)).collect())
}
/// long paths: k vertices (different, or the first half twice), one of them arbitrary
fn long_path(k: usize) -> Vec<u64> {
    let twice = sx::choose(2) == 1;
    let mut p: Vec<u64> = (0..k as u64).map(|i| 100 + (7 * i) % k as u64).collect();
    if twice {
        for i in k / 2..k {
            p[i] = p[i - k / 2];
        }
    }
    let at = [0, k / 2, k - 1][sx::choose(3)];
    p[at] = sx::u64v();
    p
}
fn complete_long(c: Constraint, k: usize) {
    let p = long_path(k);
    let score = sx::u64v() as i64;
    let got = c.check_complete(&scored(&p, score));
    sx::check(got == sat(&c, &p, score), "check_complete is what the constraint means");
    sx::cover(got as u32);
}
fn partial_long(c: Constraint, k: usize) {
    let p = long_path(k);
    let n = [1, k / 2, k - 1][sx::choose(3)];
    let score = sx::u64v() as i64;
    let full = sx::u64v() as i64;
    sx::assume(full >= score);
    if !c.check_partial(&scored(&p[..n], score)) {
        sx::check(!sat(&c, &p, full), "a partial path that can still satisfy the constraint is rejected");
        sx::cover(0);
    } else {
        sx::cover(1);
    }
}
// ---------------------------------------------------------------- validation
fn lit(m: u64) -> Constraint {
    lit_of(sx::choose(13), m)
}
fn lit_of(kind: usize, m: u64) -> Constraint {
    match kind {
        0 => ContainsVertex(v(sx::upto(m))),
        1 => Not(Box::new(ContainsVertex(v(sx::upto(m))))),
        2 => ContainsEdge(e(sx::upto(m), sx::upto(m))),
        3 => Not(Box::new(ContainsEdge(e(sx::upto(m), sx::upto(m))))),
        4 => ContainsCycle,
        5 => Not(Box::new(ContainsCycle)),
        6 => MinLength(sx::upto(m) as usize),
        7 => MaxLength(sx::upto(m) as usize),
        8 => MinScore(any_score(m)),
        9 => MaxScore(any_score(m)),
        10 => Not(Box::new(MinLength(sx::upto(m) as usize))),
        11 => Or(Box::new(ContainsVertex(v(sx::upto(m)))), Box::new(ContainsCycle)),
        _ => And(Box::new(MaxLength(sx::upto(m) as usize)), Box::new(Not(Box::new(ContainsVertex(v(sx::upto(m))))))),
    }
}
fn any_score(m: u64) -> i64 {
    if m == u64::MAX {
        sx::u64v() as i64
    } else {
        sx::range(-(m as i64), m as i64)
    }
}
/// the documented conflicts between two constraints of a list
fn conflict(a: &Constraint, b: &Constraint) -> bool {
    match (a, b) {
        (ContainsVertex(x), Not(c)) => match **c {
            ContainsVertex(y) => *x == y,
            _ => false,
        },
        (ContainsEdge(x), Not(c)) => match **c {
            ContainsVertex(y) => x.0 == y || x.1 == y,
            ContainsEdge(y) => *x == y,
            _ => false,
        },
        (ContainsCycle, Not(c)) => match **c {
            ContainsCycle => true,
            _ => false,
        },
        (MinLength(x), MaxLength(y)) => x > y,
        (MinScore(x), MaxScore(y)) => x > y,
        (MinLength(_), MinLength(_)) | (MaxLength(_), MaxLength(_)) => true,
        (MinScore(_), MinScore(_)) | (MaxScore(_), MaxScore(_)) => true,
        _ => false,
    }
}
fn validation(k: usize, m: u64) {
    let n = sx::choose(k + 1);
    validation_of((0..n).map(|_| lit(m)).collect())
}
/// two constraints over the whole range of ids, lengths and scores
fn validation_ext() {
    let kinds = [(0, 1), (2, 1), (2, 3), (6, 7), (8, 9), (7, 6), (9, 8), (6, 9)];
    let (a, b) = kinds[sx::choose(kinds.len())];
    validation_of(vec![lit_of(a, u64::MAX), lit_of(b, u64::MAX)])
}
/// lists in which the constraints that matter stand between others
fn validation_far(k: usize) {
    let kinds = [(0, 1), (2, 1), (2, 3), (4, 5), (6, 7), (8, 9), (6, 6), (7, 7), (8, 8), (9, 9), (7, 9), (1, 3), (2, 0)];
    let (a, b) = kinds[sx::choose(kinds.len())];
    let i = sx::choose(k);
    let j = sx::choose(k);
    sx::assume(i != j);
    let mut l = vec![];
    for x in 0..k {
        l.push(if x == i {
            lit_of(a, 9)
        } else if x == j {
            lit_of(b, 9)
        } else {
            // different vertices and edges, which conflict with nothing above
            match x % 3 {
                0 => ContainsVertex(v(100 + x as u64)),
                1 => Not(Box::new(ContainsVertex(v(200 + x as u64)))),
                _ => ContainsEdge(e(300 + x as u64, 301)),
            }
        });
    }
    validation_of(l)
}
fn validation_of(l: Vec<Constraint>) {
    sx::order_any2();
    let n = l.len();
    let mut bad = false;
    for i in 0..n {
        for j in 0..n {
            if i != j && conflict(&l[i], &l[j]) {
                bad = true;
            }
        }
    }
    let r = validate(&l);
    sx::check(r.is_err() == bad, "validate fails iff the list has a documented conflict");
    sx::cover(bad as u32);
}
// ---------------------------------------------------------------- search
/// all walks from k with at most l vertices
fn walks(s: &SG, k: usize, l: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![k]];
    let mut from = 0;
    for _ in 1..l {
        let to = out.len();
        for i in from..to {
            let p = out[i].clone();
            for y in 0..s.n() {
                if s.adj[*p.last().unwrap()][y] {
                    let mut q = p.clone();
                    q.push(y);
                    out.push(q);
                }
            }
        }
        from = to;
    }
    out
}
/// bound: 0 a MaxLength of l, 1 no cycle, 2 a MaxScore of l - 1 (unit weights only), 3 none (acyclic graphs)
fn search(s: &SG, g: &DirectedGraph, l: usize, bound: usize, hi: i64, cs: Vec<Constraint>) {
    search_from(s, g, l, bound, hi, cs, None)
}
fn search_from(s: &SG, g: &DirectedGraph, l: usize, bound: usize, hi: i64, cs: Vec<Constraint>, ends: Option<(usize, usize)>) {
    sx::order_any2();
    let (k, t) = match ends {
        Some(e) => e,
        None => {
            let k = sx::choose(s.n());
            (k, sx::choose(s.n()))
        }
    };
    let w = if hi > 0 { Some(W::new(s, 0, hi)) } else { None };
    let mut cs = cs;
    match bound {
        0 => cs.push(MaxLength(l)),
        1 => cs.push(Not(Box::new(ContainsCycle))),
        2 => cs.push(MaxScore(l as i64 - 1)),
        // nothing bounds the walk but the graph
        _ => sx::assume(s.acyclic()),
    }
    let cost = |p: &[usize]| match &w {
        Some(w) => w.sum(p),
        None => p.len() as i64 - 1,
    };
    let all = if bound == 1 || bound == 3 { s.simple_paths(k) } else { walks(s, k, l) };
    let gf = |_: &DirectedGraph, p: &Path| {
        let mut t = 0;
        for k in p.vertices.windows(2) {
            t += match &w {
                Some(w) => w.of(k[0], k[1]),
                None => 1,
            };
        }
        t
    };
    let r = a_star::constrained_shortest_path(g, gf, a_star::zero_heuristic, v(s.ids[k]), v(s.ids[t]), cs.clone());
    let ok = |p: &[usize], sc: i64| {
        let ids: Vec<u64> = p.iter().map(|i| s.ids[*i]).collect();
        let mut r = true;
        for c in &cs {
            r &= sat(c, &ids, sc);
        }
        r
    };
    match r {
        Some(sp) => {
            sx::cover(1);
            let p = indices(s, &sp.path.vertices);
            sx::check(p.first() == Some(&k) && p.last() == Some(&t) && is_walk(s, &p), "the result is a path of the graph from start to end");
            sx::check(cost(&p) == sp.score, "the score is the cost of the path");
            sx::check(ok(&p, sp.score), "the result violates a constraint");
            for q in &all {
                if *q.last().unwrap() == t {
                    let c = cost(q);
                    sx::check(!(ok(q, c) & (c < sp.score)), "a cheaper path satisfies the constraints");
                }
            }
        }
        None => {
            sx::cover(0);
            for q in &all {
                if *q.last().unwrap() == t {
                    sx::check(!ok(q, cost(q)), "no result although a path satisfies the constraints");
                }
            }
        }
    }
}
/// one constraint (or its negation) over the ids of the graph and one foreign id
fn one(s: &SG) -> Vec<Constraint> {
    let id = || {
        let k = sx::choose(s.n());
        s.ids[k]
    };
    let c = leaf(&id);
    if sx::choose(2) == 1 {
        vec![Not(Box::new(c))]
    } else {
        vec![c]
    }
}
fn two(s: &SG) -> Vec<Constraint> {
    let id = || {
        let k = sx::choose(s.n());
        s.ids[k]
    };
    let c = tree(1, &|| small_leaf(&id));
    vec![c, small_leaf(&id)]
}
/// several constraints at once on a chain with short cuts (or a cycle with chords), one parameter of each kind symbolic
fn many(k: usize) {
    let (s, g) = skeleton(4, k, 0);
    let i = sx::choose(k);
    let j = sx::choose(k);
    let mut cs = vec![];
    match sx::choose(4) {
        0 => {
            cs.push(ContainsVertex(v(s.ids[i])));
            cs.push(Not(Box::new(ContainsVertex(v(s.ids[j])))));
            cs.push(MinLength(sx::upto(9) as usize));
        }
        1 => {
            cs.push(ContainsVertex(v(s.ids[i])));
            cs.push(ContainsVertex(v(s.ids[j])));
            cs.push(MinScore(sx::range(0, 9)));
            cs.push(MaxLength(sx::upto(9) as usize));
        }
        2 => {
            cs.push(Or(Box::new(ContainsVertex(v(s.ids[i]))), Box::new(ContainsVertex(v(s.ids[j])))));
            cs.push(Not(Box::new(ContainsEdge(e(s.ids[0], s.ids[1])))));
            cs.push(MinLength(sx::upto(9) as usize));
            cs.push(MaxScore(sx::range(0, 9)));
        }
        _ => {
            cs.push(Xor(Box::new(ContainsVertex(v(s.ids[i]))), Box::new(ContainsVertex(v(s.ids[j])))));
            cs.push(Not(Box::new(MaxLength(sx::upto(9) as usize))));
            cs.push(Not(Box::new(ContainsVertex(v(s.ids[2])))));
        }
    }
    search_from(&s, &g, 0, 3, 0, cs, Some((0, k - 1)))
}
const HI: i64 = 1 << 58;
harness! {
    c11_leaf4 => { sx::order(0); let c = leaf(&sx::u64v); complete(c, 4) };
    c11_leaf3o => { sx::order(2); let c = leaf(&sx::u64v); complete(c, 3) };
    c11_tree1 => { sx::order(0); let c = tree(1, &|| leaf(&sx::u64v)); complete(c, 2) };
    c11_tree2 => { sx::order(0); let c = tree(2, &|| small_leaf(&sx::u64v)); complete(c, 2) };
    c11_leaf5 => { sx::order(0); let c = leaf(&sx::u64v); complete(c, 5) };
    c10_leaf => { sx::order(0); let c = leaf(&sx::u64v); partial(c, 3, 2) };
    c10_not => { sx::order(0); let c = Not(Box::new(leaf(&sx::u64v))); partial(c, 3, 2) };
    c10_tree1 => { sx::order(0); let c = tree(1, &|| leaf(&sx::u64v)); partial(c, 2, 1) };
    c10_tree2 => { sx::order(0); let c = tree(2, &|| small_leaf(&sx::u64v)); partial(c, 1, 1) };
    c10_tree3 => { sx::order(0); let c = tree(3, &|| match sx::choose(2) { 0 => MaxLength(sx::u64v() as usize), _ => ContainsVertex(v(sx::u64v())) }); partial(c, 1, 1) };
    c18_l2 => { sx::order(2); validation(2, 999) };
    c18_l4 => { sx::order(0); validation(4, 2) };
    c18_ext => { sx::order(0); validation_ext() };
    c18_far5 => { sx::order(0); validation_far(5) };
    c18_far9 => { sx::order(0); validation_far(9) };
    c18_l3 => { sx::order(0); validation(3, 9) };
    c09_len_e2 => { sx::order(0); let (s, g) = edges(2); let c = one(&s); search(&s, &g, 4, 0, 0, c) };
    c09_len_e3 => { sx::order(0); let (s, g) = edges(3); let c = one(&s); search(&s, &g, 3, 0, 0, c) };
    c09_w_e3 => { sx::order(0); let (s, g) = edges(3); let c = one(&s); search(&s, &g, 3, 0, HI, c) };
    c09_acyclic_e3 => { sx::order(0); let (s, g) = edges(3); let c = one(&s); search(&s, &g, 0, 1, HI, c) };
    c09_acyclic_e4 => { sx::order(0); let (s, g) = edges(4); let c = one(&s); search(&s, &g, 0, 1, HI, c) };
    c09_score_e3 => { sx::order(0); let (s, g) = edges(3); let c = one(&s); search(&s, &g, 3, 2, 0, c) };
    c09_two_e2 => { sx::order(0); let (s, g) = edges(2); let c = two(&s); search(&s, &g, 3, 0, 0, c) };
    c09_two_e3 => { sx::order(0); let (s, g) = edges(3); let c = two(&s); search(&s, &g, 0, 1, 0, c) };
    c09_single_e3 => { sx::order(0); let (s, g) = edges(3); let b = sx::choose(3); let h = if b == 2 { 0 } else { HI }; search(&s, &g, 3, b, h, vec![]) };
    c09_none_e3 => { sx::order(0); let (s, g) = edges(3); search(&s, &g, 0, 3, HI, vec![]) };
    c09_dag_e3 => { sx::order(0); let (s, g) = edges(3); let c = one(&s); search(&s, &g, 0, 3, HI, c) };
    c09_many5 => { many(5) };
    c09_many9 => { many(9) };
    c09_big => { let sh = sx::choose(9); let (s, g) = skeleton(sh, 5, 0); let c = one(&s); search_from(&s, &g, 0, 1, 0, c, None) };
    c09_biglen => { let sh = [0, 1, 2, 3, 5, 8][sx::choose(6)]; let (s, g) = skeleton(sh, 8, 0); let c = one(&s); search_from(&s, &g, 4, 0, 0, c, Some((0, 3))) };
    c09_many7 => { many(7) };
    c11_ord => { sx::order(0); let c = ordered(&sx::u64v); complete(c, 3) };
    c10_ord => { sx::order(0); let c = ordered(&sx::u64v); let c = if sx::choose(2) == 1 { Not(Box::new(c)) } else { c }; partial(c, 2, 1) };
    c11_long => { sx::order(0); let c = leaf(&sx::u64v); let c = if sx::choose(2) == 1 { Not(Box::new(c)) } else { c }; complete_long(c, 20) };
    c10_long => { sx::order(0); let c = leaf(&sx::u64v); let c = if sx::choose(2) == 1 { Not(Box::new(c)) } else { c }; partial_long(c, 20) };
    c09_known => {
        // an unsatisfiable constraint, nothing that bounds the walk
        let mut g = DirectedGraph::new();
        g.add_edge(e(1, 2));
        g.add_edge(e(2, 1));
        let r = a_star::constrained_shortest_path(&g, a_star::one_weighted_edge, a_star::zero_heuristic, v(1), v(2), vec![ContainsVertex(v(9))]);
        sx::check(r.is_none(), "a walk through a vertex that is not in the graph");
    };
    c09_n3 => { sx::order(0); let (s, g) = matrix(3, false); let c = one(&s); search(&s, &g, 0, 1, HI, c) };
}
