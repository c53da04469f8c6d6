//! C22 the query commands answer for the stored graph and the given options
use crate::base::*;
use crate::cli::Bin::*;
use crate::cli::*;
use crate::gen::*;
use crate::harness;
use crate::sem::{promised, sat};
use crate::sx;
use crate::upd::{call, word};
use gc_core::constraint::constraint::Constraint;
use gc_core::constraint::constraint::Constraint::*;

/// stores a graph of up to k edges over one-digit ids
fn graph(k: usize) -> SG {
    let mut s = SG::new();
    let mut t: Vec<u8> = vec![];
    for _ in 0..1 + sx::choose(k) {
        let ((x, a), (y, b)) = (digit(9), digit(9));
        t.extend_from_slice(b"AddEdge ");
        t.extend(x);
        t.push(b' ');
        t.extend(y);
        t.push(b'\n');
        s.edge(a, b);
    }
    put_graph(&t);
    s
}
/// stores one of the larger families of graphs (9 or more vertices) with one arbitrary extra edge
fn big(shapes: &[usize], n: usize) -> SG {
    let (mut s, _) = skeleton(shapes[sx::choose(shapes.len())], n, 0);
    let mut t: Vec<u8> = text(&s);
    let k = [0, 1, n / 2, n - 2, n - 1];
    let c = || if n > 20 { 3 + sx::choose(2) } else { sx::choose(5) };
    let (i, j) = (k[c()], k[c()]);
    // the edge is there, was removed, or is added
    let (a, b) = (s.ids[i], s.ids[j]);
    let line = format!("Edge {} {}\n", a, b);
    t.extend_from_slice(if sx::choose(2) == 0 { b"Add" } else { b"Remove" });
    s.adj[i][j] = t[t.len() - 1] == b'd';
    t.extend(line.into_bytes());
    put_graph(&t);
    s
}
/// the text of one of the vertices: index and text
fn pick(s: &SG) -> (usize, Vec<u8>) {
    if s.n() > 8 {
        let k = [0, 1, s.n() / 2, s.n() - 1];
        let i = k[sx::choose(4)];
        return (i, s.ids[i].to_string().into_bytes());
    }
    let i = sx::choose(s.n());
    (i, vec![b'0' + s.ids[i] as u8])
}
fn walks(s: &SG, k: usize, l: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![k]];
    let mut from = 0;
    for _ in 1..l {
        let to = out.len();
        for i in from..to {
            let p = out[i].clone();
            for y in 0..s.n() {
                if s.adj[*p.last().unwrap()][y] {
                    let mut q = p.clone();
                    q.push(y);
                    out.push(q);
                }
            }
        }
        from = to;
    }
    out
}
fn find(s: &SG, t: &[u8]) -> Option<usize> {
    number(t).and_then(|x| s.find(x))
}
/// the printed path: header with the two vertices and the cost, one vertex per line
fn printed(s: &SG, l: &[Vec<u8>], k: usize, t: usize) -> Option<(Vec<usize>, u64)> {
    let h = numbers(&l[0]);
    sx::check(h.len() == 3, "the header names the two vertices and the cost");
    sx::check(h[0] == s.ids[k] && h[1] == s.ids[t], "the header names the two vertices");
    let mut p = vec![];
    for x in &l[1..] {
        match find(s, x) {
            Some(i) => p.push(i),
            None => {
                sx::check(false, "every line of the path is a vertex of the graph");
                return None;
            }
        }
    }
    sx::check(p.first() == Some(&k) && p.last() == Some(&t) && is_walk(s, &p), "the path goes from start to end along edges of the graph");
    sx::check(h[2] == p.len() as u64 - 1, "the cost is the number of edges of the path");
    Some((p, h[2]))
}
fn short_path(s: SG) {
    sx::order_any2();
    let ((i, a), (j, b)) = (pick(&s), pick(&s));
    let o = match sx::choose(2) {
        0 => run(ShortPath, &[b"-s", &a, b"-e", &b]),
        _ => run(ShortPath, &[b"--end", &b, b"--start", &a, b"--path", b"."]),
    };
    sx::check(o.code == 0, "gc-short-path succeeds");
    let l = lines(&o.out);
    let d = s.dist(i)[j];
    if starts(&l[0], "Shortest path from vertex ") {
        if let Some((_, c)) = printed(&s, &l, i, j) {
            sx::check(c == d as u64, "the path is a shortest one");
        }
        sx::cover(0);
    } else {
        sx::check(starts(&l[0], "Vertex ") && l.len() == 1, "an unreachable vertex is reported");
        sx::check(!s.reach(i)[j], "a reachable vertex is reported as unreachable");
        let h = numbers(&l[0]);
        sx::check(h.len() == 2 && h[0] == s.ids[j] && h[1] == s.ids[i], "the report names the two vertices");
        sx::cover(1);
    }
}
/// start or end is not in the graph
fn absent() {
    let s = graph(2);
    let ((_, b), (t, x)) = (pick(&s), digit(9));
    sx::assume(s.find(x).is_none());
    let o = match sx::choose(2) {
        0 => run(ShortPath, &[b"-s", &t, b"-e", &b]),
        _ => run(ShortPath, &[b"-s", &b, b"-e", &t]),
    };
    sx::check(o.code == 0 && starts(&o.out, "Vertex "), "a vertex that is not in the graph is not reachable");
    sx::cover(0);
}
fn num(max: u8) -> (Vec<u8>, u64) {
    digit(max)
}
/// one option of gc-csp: its arguments, its meaning
fn csp_option(s: &SG, kind: usize) -> (Vec<Vec<u8>>, Vec<Constraint>) {
    let id = || {
        let (i, t) = pick(s);
        (t, v(s.ids[i]))
    };
    let f = |x: &[u8]| x.to_vec();
    match kind {
        0 => {
            let (t, x) = id();
            (vec![f(b"--include"), t], vec![ContainsVertex(x)])
        }
        1 => {
            let (t, x) = id();
            let (u, y) = id();
            (vec![f(b"--include"), t, u], vec![ContainsVertex(x), ContainsVertex(y)])
        }
        2 => {
            let (t, x) = id();
            (vec![f(b"--exclude"), t], vec![Not(Box::new(ContainsVertex(x)))])
        }
        3 => {
            let (t, x) = id();
            let (u, y) = id();
            (vec![f(b"--exclude"), t, u], vec![Not(Box::new(ContainsVertex(x))), Not(Box::new(ContainsVertex(y)))])
        }
        4 => {
            let (t, x) = id();
            let (u, y) = id();
            sx::assume(x != y);
            (vec![f(b"--ordered"), t, u], vec![OrderedVertices(vec![x, y])])
        }
        5 => (vec![f(b"--include-cycle")], vec![ContainsCycle]),
        6 => (vec![f(b"--no-cycle")], vec![Not(Box::new(ContainsCycle))]),
        7 => {
            let (t, x) = num(9);
            (vec![f(b"--min-length"), t], vec![MinLength(x as usize)])
        }
        8 => {
            let (t, x) = num(9);
            (vec![f(b"--exact-length"), t], vec![MinLength(x as usize), MaxLength(x as usize)])
        }
        9 => {
            let (t, x) = num(9);
            (vec![f(b"--min-score"), t], vec![MinScore(x as i64)])
        }
        10 => {
            let (t, x) = num(9);
            (vec![f(b"--max-score"), t], vec![MaxScore(x as i64)])
        }
        11 => {
            let (t, x) = num(9);
            (vec![f(b"--exact-score"), t], vec![MinScore(x as i64), MaxScore(x as i64)])
        }
        _ => {
            let (t, x) = num(9);
            (vec![f(b"--max-length"), t], vec![MaxLength(x as usize)])
        }
    }
}
/// bound: 0 --max-length l, 1 --no-cycle, 2 --max-score l-1, 3 --exact-length l, 4 --exact-score l-1
fn csp(s: SG, l: usize, bounds: &[usize], kinds: &[usize]) {
    let ((i, a), (j, b)) = (pick(&s), pick(&s));
    let mut args = vec![b"-s".to_vec(), a, b"--end".to_vec(), b];
    let mut cs = vec![];
    let bound = bounds[sx::choose(bounds.len())];
    match bound {
        0 => {
            args.push(b"--max-length".to_vec());
            args.push(vec![b'0' + l as u8]);
            cs.push(MaxLength(l));
        }
        1 => {
            args.push(b"--no-cycle".to_vec());
            cs.push(Not(Box::new(ContainsCycle)));
        }
        2 => {
            args.push(b"--max-score".to_vec());
            args.push(vec![b'0' + l as u8 - 1]);
            cs.push(MaxScore(l as i64 - 1));
        }
        3 => {
            args.push(b"--exact-length".to_vec());
            args.push(vec![b'0' + l as u8]);
            cs.push(MinLength(l));
            cs.push(MaxLength(l));
        }
        _ => {
            args.push(b"--exact-score".to_vec());
            args.push(vec![b'0' + l as u8 - 1]);
            cs.push(MinScore(l as i64 - 1));
            cs.push(MaxScore(l as i64 - 1));
        }
    }
    if !kinds.is_empty() {
        let kind = kinds[sx::choose(kinds.len())];
        let (x, c) = csp_option(&s, kind);
        // an option can be given once
        sx::assume(!args.iter().any(|y| *y == x[0]));
        args.extend(x);
        cs.extend(c);
    }
    csp_answer(&s, &args, &cs, i, j, if bound == 1 { s.simple_paths(i) } else { walks(&s, i, l) });
}
fn csp_answer(s: &SG, args: &[Vec<u8>], cs: &[Constraint], i: usize, j: usize, all: Vec<Vec<usize>>) {
    let o = call(Csp, args);
    sx::check(o.code == 0, "gc-csp succeeds");
    let ls = lines(&o.out);
    let ok = |p: &[usize]| {
        let ids: Vec<u64> = p.iter().map(|i| s.ids[*i]).collect();
        let mut r = true;
        for c in cs {
            r &= sat(c, &ids, p.len() as i64 - 1);
        }
        r
    };
    match ls.iter().position(|x| starts(x, "Constrained shortest path from vertex ")) {
        Some(at) => {
            if let Some((p, c)) = printed(s, &ls[at..], i, j) {
                sx::check(ok(&p), "the path satisfies every option");
                for q in &all {
                    if *q.last().unwrap() == j && (q.len() as u64 - 1) < c {
                        sx::check(!ok(q), "no cheaper path satisfies the options");
                    }
                }
            }
            sx::cover(0);
        }
        None => {
            sx::check(ls.iter().any(|x| starts(x, "Vertex ")), "an answer is printed");
            for q in &all {
                if *q.last().unwrap() == j {
                    sx::check(!ok(q), "no path is found although one satisfies the options");
                }
            }
            sx::cover(1);
        }
    }
}
/// many options with many values at once, on a chain of 9 vertices with short cuts
fn csp_multi() {
    let (s, _) = skeleton(4, 9, 0);
    put_graph(&text(&s));
    let name = |i: usize| s.ids[i].to_string().into_bytes();
    let (i, j) = (0, [8, 6][sx::choose(2)]);
    let mut args = vec![b"-s".to_vec(), name(i), b"-e".to_vec(), name(j)];
    let mut cs = vec![];
    let all = if sx::choose(2) == 0 {
        args.push(b"--no-cycle".to_vec());
        cs.push(Not(Box::new(ContainsCycle)));
        s.simple_paths(i)
    } else {
        args.push(b"--max-length".to_vec());
        args.push(b"7".to_vec());
        cs.push(MaxLength(7));
        walks(&s, i, 7)
    };
    let n = sx::choose(5);
    if n > 0 {
        args.push(b"--include".to_vec());
        for k in [2, 4, 5, 1].into_iter().take(n) {
            args.push(name(k));
            cs.push(ContainsVertex(v(s.ids[k])));
        }
    }
    let n = sx::choose(4);
    if n > 0 {
        args.push(b"--exclude".to_vec());
        for k in [8, 3, 7].into_iter().take(n) {
            args.push(name(k));
            cs.push(Not(Box::new(ContainsVertex(v(s.ids[k])))));
        }
    }
    let n = sx::choose(3);
    if n > 0 {
        let l: Vec<usize> = if n == 1 { vec![2, 4, 6] } else { vec![1, 2, 3, 5] };
        args.push(b"--ordered".to_vec());
        for k in &l {
            args.push(name(*k));
        }
        cs.push(OrderedVertices(l.iter().map(|k| v(s.ids[*k])).collect()));
    }
    let n = sx::choose(5);
    if n > 0 {
        let (t, x) = digit(9);
        args.push([&b"--min-length"[..], b"--exact-length", b"--exact-score", b"--min-score"][n - 1].to_vec());
        args.push(t);
        if n == 1 || n == 2 {
            cs.push(MinLength(x as usize));
        }
        if n == 2 {
            cs.push(MaxLength(x as usize));
        }
        if n == 3 || n == 4 {
            cs.push(MinScore(x as i64));
        }
        if n == 3 {
            cs.push(MaxScore(x as i64));
        }
    }
    csp_answer(&s, &args, &cs, i, j, all);
}
/// one constraint option of gc-cycle
fn cycle_option(s: &SG, kind: usize) -> (Vec<Vec<u8>>, Vec<Constraint>) {
    let id = || {
        let (i, t) = pick(s);
        (t, v(s.ids[i]))
    };
    let f = |x: &[u8]| x.to_vec();
    let n = |x: Constraint| Not(Box::new(x));
    let one = |c: fn(u64) -> Vec<Constraint>, o: &[u8]| {
        let (t, x) = digit(5);
        (vec![o.to_vec(), t], c(x))
    };
    match kind {
        0 => {
            let (t, x) = id();
            (vec![f(b"--include-all"), t], vec![ContainsVertex(x)])
        }
        1 => {
            let ((t, x), (u, y)) = (id(), id());
            (vec![f(b"--include-all"), t, u], vec![ContainsVertex(x), ContainsVertex(y)])
        }
        2 => {
            let (t, x) = id();
            (vec![f(b"--exclude-all"), t], vec![n(ContainsVertex(x))])
        }
        3 => {
            let ((t, x), (u, y)) = (id(), id());
            (vec![f(b"--include-all-edges"), t, u], vec![ContainsEdge(e(x.0, y.0))])
        }
        4 => {
            let ((t, x), (u, y)) = (id(), id());
            (vec![f(b"--exclude-all-edges"), t, u], vec![n(ContainsEdge(e(x.0, y.0)))])
        }
        5 => one(|x| vec![MinLength(x as usize)], b"--min-length"),
        6 => one(|x| vec![MaxLength(x as usize)], b"--max-length"),
        7 => one(|x| vec![MinLength(x as usize), MaxLength(x as usize)], b"--exact-length"),
        8 => one(|x| vec![MinScore(x as i64)], b"--min-score"),
        9 => one(|x| vec![MaxScore(x as i64)], b"--max-score"),
        _ => one(|x| vec![MinScore(x as i64), MaxScore(x as i64)], b"--exact-score"),
    }
}
/// a cycle (without repeated end) satisfies the options: lengths and scores count its vertices, its edges include the closing one
fn cycle_ok(s: &SG, cs: &[Constraint], c: &[usize]) -> bool {
    let mut ids: Vec<u64> = c.iter().map(|i| s.ids[*i]).collect();
    let mut r = true;
    for x in cs {
        let edge = match x {
            ContainsEdge(_) => true,
            Not(y) => matches!(**y, ContainsEdge(_)),
            _ => false,
        };
        if edge {
            ids.push(ids[0]);
            r &= sat(x, &ids, c.len() as i64);
            ids.pop();
        } else {
            r &= sat(x, &ids, c.len() as i64);
        }
    }
    r
}
/// canonical form: starts at its smallest index
fn canon(c: &[usize]) -> Vec<usize> {
    let mut at = 0;
    for i in 0..c.len() {
        if c[i] < c[at] {
            at = i;
        }
    }
    (0..c.len()).map(|i| c[(at + i) % c.len()]).collect()
}
/// a printed cycle "[1, 2]"
fn parse_cycle(s: &SG, t: &[u8]) -> Option<Vec<usize>> {
    if t.len() < 3 || t[0] != b'[' || t[t.len() - 1] != b']' {
        sx::check(false, "a cycle is printed as a list");
        return None;
    }
    let mut c = vec![];
    for x in numbers(t) {
        match s.find(x) {
            Some(i) => c.push(i),
            None => {
                sx::check(false, "a cycle has an unknown vertex");
                return None;
            }
        }
    }
    let mut w = c.clone();
    w.push(c[0]);
    sx::check(is_walk(s, &w), "a cycle goes along edges of the graph");
    for i in 0..c.len() {
        for j in 0..i {
            sx::check(c[i] != c[j], "a cycle repeats a vertex");
        }
    }
    Some(c)
}
fn count<T: PartialEq>(l: &[T], x: &T) -> usize {
    l.iter().filter(|y| *y == x).count()
}
/// action: 0 all, 1 count, 2 head, 3 take-n, 4 shortest, 5 longest
fn cycle(s: SG, actions: &[usize], kinds: &[usize]) {
    let mut args: Vec<Vec<u8>> = vec![];
    let action = actions[sx::choose(actions.len())];
    let mut take = usize::MAX;
    match action {
        0 => args.push(b"--all".to_vec()),
        1 => args.push(b"--count".to_vec()),
        2 => {
            args.push(b"--head".to_vec());
            take = 1;
        }
        3 => {
            args.push(b"-n".to_vec());
            take = sx::choose(4);
            args.push(vec![b'0' + take as u8]);
        }
        4 => args.push(b"-s".to_vec()),
        _ => args.push(b"-L".to_vec()),
    }
    let mut cs = vec![];
    if !kinds.is_empty() {
        let kind = kinds[sx::choose(kinds.len())];
        let (a, c) = cycle_option(&s, kind);
        if action == 3 {
            // the number of take-n comes right after it
        }
        args.extend(a);
        cs = c;
    }
    cycle_answer(&s, &args, &cs, action, take);
}
/// lengths and scores of long cycles
fn cycle_long(n: usize) {
    let s = big(&[1], n);
    let k = [2, n - 1, n, n + 1][sx::choose(4)];
    let (o, cs) = match sx::choose(6) {
        0 => ("--min-length", vec![MinLength(k)]),
        1 => ("--max-length", vec![MaxLength(k)]),
        2 => ("--exact-length", vec![MinLength(k), MaxLength(k)]),
        3 => ("--min-score", vec![MinScore(k as i64)]),
        4 => ("--max-score", vec![MaxScore(k as i64)]),
        _ => ("--exact-score", vec![MinScore(k as i64), MaxScore(k as i64)]),
    };
    let args = vec![b"--count".to_vec(), o.as_bytes().to_vec(), k.to_string().into_bytes()];
    cycle_answer(&s, &args, &cs, 1, usize::MAX);
}
fn cycle_answer(s: &SG, args: &[Vec<u8>], cs: &[Constraint], action: usize, take: usize) {
    let o = call(Cycle, args);
    sx::check(o.code == 0, "gc-cycle succeeds");
    let ls = lines(&o.out);
    let every: Vec<Vec<usize>> = s.cycles().iter().map(|c| canon(c)).filter(|c| cycle_ok(s, cs, c)).collect();
    let sure: Vec<Vec<usize>> = promised(s).iter().map(|c| canon(c)).filter(|c| cycle_ok(s, cs, c)).collect();
    match action {
        0 | 2 | 3 => {
            let mut got: Vec<Vec<usize>> = vec![];
            for l in &ls {
                if let Some(c) = parse_cycle(s, l) {
                    let c = canon(&c);
                    sx::check(count(&every, &c) > 0, "a printed cycle violates an option");
                    sx::check(count(&got, &c) == 0, "a cycle is printed twice");
                    got.push(c);
                }
            }
            sx::check(got.len() <= take, "more cycles are printed than asked for");
            sx::check(got.len() >= take.min(sure.len()), "fewer cycles are printed than there are");
            if action == 0 {
                for c in &sure {
                    sx::check(count(&got, c) > 0, "a cycle is missing");
                }
            }
        }
        1 => {
            sx::check(ls.len() == 1 && starts(&ls[0], "count: "), "the count is printed");
            let n = number(&ls[0][7..]);
            match n {
                Some(n) => sx::check(n as usize >= sure.len() && n as usize <= every.len(), "the number of cycles"),
                None => sx::check(false, "the count is a number"),
            }
        }
        _ => {
            let p = if action == 4 { "shortest cycle: " } else { "longest cycle: " };
            sx::check(ls.len() == 1 && starts(&ls[0], p), "the cycle is printed");
            let t = &ls[0][p.len()..];
            if is(t, "N/A") {
                sx::check(sure.is_empty(), "no cycle is printed although there is one");
                sx::cover(1);
            } else if let Some(c) = parse_cycle(s, t) {
                sx::check(count(&every, &canon(&c)) > 0, "the printed cycle violates an option");
                for d in &sure {
                    sx::check(if action == 4 { c.len() <= d.len() } else { c.len() >= d.len() }, "the printed cycle is the shortest/longest");
                }
                sx::cover(2);
            }
        }
    }
    sx::cover(0);
}
/// many constraint options at once on the complete graph of n vertices
fn cycle_multi(n: usize, loops: bool) {
    let mut s = SG::new();
    for i in 0..n as u64 {
        for j in 0..n as u64 {
            if i != j || (loops && i < 2) {
                s.edge(i, j);
            }
        }
    }
    put_graph(&text(&s));
    let action = [0, 1, 4, 5][sx::choose(4)];
    let mut args = vec![[&b"--all"[..], b"--count", b"", b"", b"-s", b"-L"][action].to_vec()];
    let mut cs = vec![];
    let name = |i: u64| vec![b'0' + i as u8];
    let no = |x: Constraint| Not(Box::new(x));
    let k = sx::choose(4);
    if k > 0 {
        args.push(b"--include-all".to_vec());
        for x in [2, 0, 3].into_iter().take(k) {
            args.push(name(x));
            cs.push(ContainsVertex(v(x)));
        }
    }
    let k = sx::choose(3);
    if k > 0 {
        args.push(b"--exclude-all".to_vec());
        for x in [1, 4].into_iter().take(k) {
            args.push(name(x));
            cs.push(no(ContainsVertex(v(x))));
        }
    }
    let k = sx::choose(4);
    if k > 0 {
        args.push(if k < 3 { b"--include-all-edges".to_vec() } else { b"--exclude-all-edges".to_vec() });
        for (x, y) in [(0, 2), (2, 3), (3, 0)].into_iter().take(k) {
            args.push(name(x));
            args.push(name(y));
            let c = ContainsEdge(e(x, y));
            cs.push(if k < 3 { c } else { no(c) });
        }
    }
    let k = sx::choose(4);
    if k > 0 {
        let (t, x) = digit(6);
        args.push([&b"--min-length"[..], b"--max-score", b"--exact-length"][k - 1].to_vec());
        args.push(t);
        match k {
            1 => cs.push(MinLength(x as usize)),
            2 => cs.push(MaxScore(x as i64)),
            _ => {
                cs.push(MinLength(x as usize));
                cs.push(MaxLength(x as usize));
            }
        }
    }
    cycle_answer(&s, &args, &cs, action, usize::MAX);
}
/// girth and hamiltonian cycle
fn girth(s: SG) {
    let all = s.cycles();
    if sx::choose(2) == 0 {
        let o = run(Cycle, &[b"--girth"]);
        let ls = lines(&o.out);
        sx::check(o.code == 0 && ls.len() == 1 && starts(&ls[0], "girth: "), "gc-cycle --girth answers");
        let m = promised(&s).iter().map(|c| c.len()).min();
        if is(&ls[0][7..], "Infinity") {
            sx::check(m.is_none(), "infinite girth although there is a cycle");
        } else {
            let n = number(&ls[0][7..]).unwrap_or(0) as usize;
            sx::check(all.iter().any(|c| c.len() == n), "the girth is the length of a cycle");
            sx::check(m.map_or(true, |m| n <= m), "the girth is the length of the shortest cycle");
            sx::cover(0);
        }
    } else {
        let o = run(Cycle, &[b"--hamiltonian"]);
        let ls = lines(&o.out);
        sx::check(o.code == 0 && ls.len() == 1 && starts(&ls[0], "hamiltonian: "), "gc-cycle --hamiltonian answers");
        let t = &ls[0][13..];
        let any = all.iter().any(|c| c.len() == s.n());
        if is(t, "N/A") {
            sx::check(!any, "a hamiltonian cycle is missed");
        } else if let Some(c) = parse_cycle(&s, t) {
            sx::check(c.len() == s.n(), "the cycle visits every vertex");
            sx::cover(1);
        }
    }
}
/// invalid values of options are reported
fn bad(w: usize) {
    put_graph(b"AddEdge 1 2\nAddEdge 2 1\n");
    let (t, x) = word(w);
    sx::assume(x.is_none());
    let opts: [(Bin, &[&[u8]]); 9] = [
        (ShortPath, &[b"-e", b"1", b"-s"]),
        (ShortPath, &[b"-s", b"1", b"-e"]),
        (Csp, &[b"-s", b"1", b"--no-cycle", b"-e"]),
        (Csp, &[b"-s", b"1", b"-e", b"2", b"--no-cycle", b"--include"]),
        (Csp, &[b"-s", b"1", b"-e", b"2", b"--no-cycle", b"--max-length"]),
        (Csp, &[b"-s", b"1", b"-e", b"2", b"--no-cycle", b"--exact-score"]),
        (Cycle, &[b"-c", b"--include-all"]),
        (Cycle, &[b"-c", b"--min-length"]),
        (Cycle, &[b"--take-n"]),
    ];
    let (b, a) = opts[sx::choose(9)];
    let mut a: Vec<&[u8]> = a.to_vec();
    a.push(&t);
    let o = run(b, &a);
    sx::check(o.code != 0, "an invalid value is reported");
    bytes_are(b"AddEdge 1 2\nAddEdge 2 1\n");
    sx::cover(0);
}
/// scores below zero, given with "="
fn negative() {
    let s = graph(2);
    let (t, x) = digit(9);
    let opt = |o: &[u8]| {
        let mut a = o.to_vec();
        a.extend_from_slice(b"=-");
        a.extend(&t);
        a
    };
    let x = -(x as i64);
    let (o, cs) = match sx::choose(3) {
        0 => (opt(b"--min-score"), vec![MinScore(x)]),
        1 => (opt(b"--max-score"), vec![MaxScore(x)]),
        _ => (opt(b"--exact-score"), vec![MinScore(x), MaxScore(x)]),
    };
    if sx::choose(2) == 0 {
        let ((i, a), (j, b)) = (pick(&s), pick(&s));
        let mut cs = cs;
        cs.push(Not(Box::new(ContainsCycle)));
        csp_answer(&s, &[b"--start".to_vec(), a, b"-e".to_vec(), b, b"--no-cycle".to_vec(), o], &cs, i, j, s.simple_paths(i));
    } else {
        let action = [0, 1, 4, 5][sx::choose(4)];
        let a = [&b"-a"[..], b"-c", b"", b"", b"--shortest", b"--longest"][action].to_vec();
        cycle_answer(&s, &[o, a], &cs, action, usize::MAX);
    }
}
/// the largest ids
fn extreme_ids() {
    let ids = [u64::MAX, 1 << 63, (1 << 32) + 1, 1];
    let mut s = SG::new();
    for (i, j) in [(0, 1), (1, 2), (2, 3), (3, 0)] {
        s.edge(ids[i], ids[j]);
    }
    let (i, j) = (sx::choose(4), sx::choose(4));
    s.edge(ids[i], ids[j]);
    put_graph(&text(&s));
    let name = |i: usize| ids[i].to_string().into_bytes();
    let (i, k) = (sx::choose(4), sx::choose(4));
    let j = k;
    let l = i;
    let f = |x: &[u8]| x.to_vec();
    match sx::choose(4) {
        0 => {
            let o = call(ShortPath, &[f(b"-s"), name(i), f(b"-e"), name(j)]);
            sx::check(o.code == 0, "gc-short-path succeeds");
            let l = lines(&o.out);
            if let Some((_, c)) = printed(&s, &l, i, j) {
                sx::check(c == s.dist(i)[j] as u64, "the path is a shortest one");
            }
        }
        1 => {
            let k = sx::choose(4);
            let (args, cs) = if sx::choose(2) == 0 {
                (vec![f(b"--include"), name(k)], vec![ContainsVertex(v(ids[k]))])
            } else {
                (vec![f(b"--exclude"), name(k)], vec![Not(Box::new(ContainsVertex(v(ids[k]))))])
            };
            let mut a = vec![f(b"-s"), name(i), f(b"-e"), name(j), f(b"--max-length"), f(b"6")];
            a.extend(args);
            let mut cs = cs;
            cs.push(MaxLength(6));
            csp_answer(&s, &a, &cs, i, j, walks(&s, i, 6));
        }
        2 => cycle_answer(&s, &[f(b"--all"), f(b"--include-all"), name(k)], &[ContainsVertex(v(ids[k]))], 0, usize::MAX),
        _ => cycle_answer(&s, &[f(b"--longest"), f(b"--exclude-all-edges"), name(k), name(l)], &[Not(Box::new(ContainsEdge(e(ids[k], ids[l]))))], 5, usize::MAX),
    }
    sx::cover(0);
}
/// each name of an option of gc-cycle
fn names() {
    let s = graph(2);
    let n = sx::choose(4);
    let d = vec![b'0' + n as u8];
    let (a, action, take): (Vec<Vec<u8>>, usize, usize) = match sx::choose(9) {
        0 => (vec![b"--take-n".to_vec(), d], 3, n),
        1 => (vec![[&b"--take-n="[..], &d].concat()], 3, n),
        2 => (vec![b"--path".to_vec(), b".".to_vec(), b"--head".to_vec()], 2, 1),
        3 => (vec![b"-a".to_vec()], 0, usize::MAX),
        4 => (vec![b"-c".to_vec()], 1, usize::MAX),
        5 => (vec![b"--shortest".to_vec()], 4, usize::MAX),
        6 => (vec![b"--longest".to_vec()], 5, usize::MAX),
        7 => (vec![b"--all".to_vec(), b"-p".to_vec(), b".".to_vec()], 0, usize::MAX),
        _ => (vec![b"-L".to_vec()], 5, usize::MAX),
    };
    cycle_answer(&s, &a, &[], action, take);
}
const K: [usize; 13] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12];
const C: [usize; 11] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10];
harness! {
    c22_path2 => short_path(graph(2));
    c22_path3 => short_path(graph(3));
    c22_path4 => short_path(graph(4));
    c22_absent => absent();
    c22_csp2 => csp(graph(2), 3, &[0, 1, 2, 3, 4], &[]);
    c22_csp2o => csp(graph(2), 3, &[0], &K);
    c22_csp2n => csp(graph(2), 3, &[1], &K);
    c22_csp2s => csp(graph(2), 3, &[2], &K);
    c22_csp3 => csp(graph(3), 4, &[0, 1, 2, 3, 4], &[]);
    c22_csp3o => csp(graph(3), 3, &[0, 1], &K);
    c22_cyc2 => cycle(graph(2), &[0, 1, 2, 3, 4, 5], &[]);
    c22_cyc2o => cycle(graph(2), &[0, 1, 2, 4, 5], &C);
    c22_cyc3 => cycle(graph(3), &[0, 1, 2, 3, 4, 5], &[]);
    c22_cyc3o => cycle(graph(3), &[0], &C);
    c22_girth2 => girth(graph(2));
    c22_girth3 => girth(graph(3));
    c22_pathb => short_path(big(&[0, 1, 2, 3, 4, 5, 6, 7, 8], 12));
    c22_cspb => csp(big(&[0, 1, 4, 5, 8], 9), 5, &[0, 1], &[]);
    c22_cspbo => csp(big(&[0, 4], 9), 4, &[1], &[0, 2]);
    c22_pathw => short_path(big(&[0, 2, 4, 8], 70));
    c22_cspw => csp(big(&[0, 8], 70), 3, &[1], &[]);
    c22_cycw => cycle(big(&[1, 8], 60), &[0, 1, 2, 3, 4, 5], &[]);
    c22_cycl => cycle_long(70);
    c22_cspm => csp_multi();
    c22_cycm => cycle_multi(4, true);
    c22_cycm5 => cycle_multi(5, false);
    c22_cycb => cycle(big(&[0, 1, 2, 3, 5, 8], 10), &[0, 1, 2, 3, 4, 5], &[]);
    c22_cycbo => cycle(big(&[1, 8], 9), &[0, 1, 4, 5], &C);
    c22_girthb => girth(big(&[0, 1, 4, 8], 9));
    c22_neg => negative();
    c22_ext => extreme_ids();
    c22_names => names();
    c22_bad1 => bad(1);
    c22_bad2 => bad(2);
}
