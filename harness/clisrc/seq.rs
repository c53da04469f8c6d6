//! C21 a sequence of commands works on one persistent graph
use crate::base::*;
use crate::cli::Bin::*;
use crate::cli::*;
use crate::gen::*;
use crate::harness;
use crate::sx;
use gc_core::format::gcmd;

/// the graphs stored under "." and "d"
struct World {
    g: [Option<SG>; 2],
}
const DIRS: [&str; 2] = [".", "d"];
fn file(d: usize) -> String {
    format!("{}/.graph/commands", DIRS[d])
}
fn check_world(w: &World) {
    for d in 0..2 {
        match &w.g[d] {
            None => sx::check(sx::get(&file(d)).is_none(), "no graph is stored"),
            Some(s) => match std::fs::File::open(sx::path(&file(d))).ok().and_then(|f| gcmd::read(f).ok()) {
                None => sx::check(false, "the stored graph can be read"),
                Some(g) => same(s, &g),
            },
        }
        sx::check(sx::get(&format!("{}/lock", DIRS[d])).is_none(), "no lock is left behind");
    }
}
fn go(b: Bin, d: usize, explicit: bool, rest: &[&[u8]]) -> Out {
    let mut a: Vec<&[u8]> = vec![];
    if d != 0 || explicit {
        a.push(b"-p");
        a.push(DIRS[d].as_bytes());
    }
    a.extend_from_slice(rest);
    run(b, &a)
}
/// what gc-desc prints
fn desc_ok(s: &SG, o: &Out) {
    let l = lines(&o.out);
    let find = |p: &str| l.iter().find(|x| starts(x, p)).map(|x| x[p.len()..].to_vec());
    sx::check(find("Vertices: ").and_then(|x| number(&x)) == Some(s.n() as u64), "gc-desc reports the number of vertices");
    sx::check(find("Edges: ").and_then(|x| number(&x)) == Some(s.m() as u64), "gc-desc reports the number of edges");
    let (lo, hi) = (find("Min vertex id: "), find("Max vertex id: "));
    if s.n() == 0 {
        sx::check(lo.map_or(false, |x| is(&x, "-")) && hi.map_or(false, |x| is(&x, "-")), "gc-desc reports no smallest and largest id of an empty graph");
    } else {
        let (lo, hi) = (lo.and_then(|x| number(&x)), hi.and_then(|x| number(&x)));
        let (lo, hi) = match (lo, hi) {
            (Some(a), Some(b)) => (a, b),
            _ => return sx::check(false, "gc-desc reports the smallest and largest id"),
        };
        let (mut ilo, mut ihi, mut all) = (false, false, true);
        for x in &s.ids {
            ilo |= *x == lo;
            ihi |= *x == hi;
            all &= lo <= *x && *x <= hi;
        }
        sx::check(ilo && ihi && all, "gc-desc reports the smallest and largest id");
    }
}
/// what gc-topo-sort prints
fn topo_ok(s: &SG, o: &Out) {
    let l = lines(&o.out);
    sx::check(l.len() == 1, "gc-topo-sort prints one line");
    if starts(&l[0], "Topological order:") {
        sx::check(s.acyclic(), "an order is printed for a cyclic graph");
        let ids = numbers(&l[0]);
        sx::check(ids.len() == s.n(), "the order has every vertex once");
        let mut pos = vec![None; s.n()];
        for (k, x) in ids.iter().enumerate() {
            match s.find(*x) {
                Some(i) => {
                    sx::check(pos[i].is_none(), "the order repeats a vertex");
                    pos[i] = Some(k);
                }
                None => sx::check(false, "the order has an unknown vertex"),
            }
        }
        for (i, j) in s.edges() {
            sx::check(pos[i] < pos[j], "an edge goes backwards in the order");
        }
        sx::cover(2);
    } else {
        sx::check(!s.acyclic(), "no order is printed for an acyclic graph");
        sx::check(is(&l[0], "Graph is not a DAG."), "a cyclic graph is reported");
        sx::cover(3);
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Op {
    Init,
    AddV,
    AddE,
    DelV,
    DelE,
    Build,
    Clean,
    Desc,
    Topo,
}
use Op::*;
const ALL: [Op; 9] = [Op::Init, AddV, AddE, DelV, DelE, Op::Build, Op::Clean, Op::Desc, Topo];
/// an operand: an arbitrary one-digit id, or (max 10) also one of the ids of the larger families
fn operand(max: u8) -> (Vec<u8>, u64) {
    if max == 10 {
        let x = [0, 990, 20, 5][sx::choose(4)];
        if x != 5 {
            return (format!("{}", x).into_bytes(), x);
        }
        return digit(9);
    }
    digit(max)
}
/// one or two arbitrary commands on one of the larger families, stored with a longer history
fn from_big(shapes: &[usize], n: usize, k: usize) {
    let mut w = world();
    sx::order_any2();
    let (mut s, _) = skeleton(shapes[sx::choose(shapes.len())], n, 0);
    let mut t = text(&s);
    t.extend_from_slice(b"AddEdge 31 0\nAddEdge 0 32\nRemoveVertex 31\nRemoveEdge 0 32\nRemoveVertex 32\nAddVertex 990\nRemoveEdge 20 20\nAddEdge 0 100000\n");
    s.edge(0, 100000);
    put_graph(&t);
    w.g[0] = Some(s);
    for _ in 0..k {
        step(&mut w, ALL[sx::choose(9)], 0, false, 10);
    }
    sx::cover(0);
}
fn step(w: &mut World, op: Op, d: usize, ex: bool, max: u8) {
    match op {
        Op::Init => {
            let o = go(Bin::Init, d, ex, &[]);
            sx::check(o.code == 0, "gc-init succeeds");
            if w.g[d].is_none() {
                w.g[d] = Some(SG::new());
            }
        }
        AddV | DelV => {
            let (t, a) = operand(max);
            let o = go(if op == AddV { Add } else { Delete }, d, ex, &[b"-v", &t]);
            sx::check((o.code == 0) == w.g[d].is_some(), "an update succeeds exactly if there is a graph");
            if let Some(s) = &mut w.g[d] {
                if op == AddV {
                    s.vertex(a);
                } else {
                    remove_vertex(s, a);
                }
            }
        }
        AddE | DelE => {
            let ((t, a), (u, b)) = (operand(max), operand(max));
            let o = go(if op == AddE { Add } else { Delete }, d, ex, &[b"-e", &t, &u]);
            sx::check((o.code == 0) == w.g[d].is_some(), "an update succeeds exactly if there is a graph");
            if let Some(s) = &mut w.g[d] {
                if op == AddE {
                    s.edge(a, b);
                } else {
                    remove_edge(s, a, b);
                }
            }
        }
        Op::Build => {
            let o = go(Bin::Build, d, ex, &[]);
            sx::check((o.code == 0) == w.g[d].is_some(), "gc-build succeeds exactly if there is a graph");
            if let Some(s) = &w.g[d] {
                let t = sx::get(&file(d)).unwrap_or(vec![]);
                sx::check(lines(&t).len() <= s.n() + s.m(), "gc-build leaves one command per vertex and edge");
            }
        }
        Op::Clean => {
            let o = go(Bin::Clean, d, ex, &[b"-f"]);
            sx::check((o.code == 0) == w.g[d].is_some(), "gc-clean succeeds exactly if there is a graph");
            w.g[d] = None;
        }
        Op::Desc => {
            let o = go(Bin::Desc, d, ex, &[]);
            sx::check((o.code == 0) == w.g[d].is_some(), "gc-desc succeeds exactly if there is a graph");
            if let Some(s) = &w.g[d] {
                desc_ok(s, &o);
                sx::cover(1);
            }
        }
        Topo => {
            let o = go(TopoSort, d, ex, &[]);
            sx::check((o.code == 0) == w.g[d].is_some(), "gc-topo-sort succeeds exactly if there is a graph");
            if let Some(s) = &w.g[d] {
                topo_ok(s, &o);
            }
        }
    }
    check_world(w);
}
fn world() -> World {
    mkdir("d");
    World { g: [None, None] }
}
/// k arbitrary commands from nothing
fn from_nothing(k: usize, two: bool) {
    let mut w = world();
    sx::order_any2();
    for _ in 0..k {
        let op = ALL[sx::choose(9)];
        let (d, ex) = match if two { sx::choose(3) } else { 0 } {
            0 => (0, false),
            1 => (0, true),
            _ => (1, true),
        };
        step(&mut w, op, d, ex, 9);
    }
    sx::cover(0);
}
/// k arbitrary commands on a stored graph of n commands in either directory
fn from_graph(k: usize, n: usize, dir: bool) {
    let mut w = world();
    sx::order_any2();
    let (s, t) = stored(n, 9);
    let mut d = 0;
    if dir {
        d = sx::choose(2);
    }
    if d == 1 {
        mkdir("d/.graph");
        sx::put("d/.graph/commands", &t);
        w.g[1] = Some(s.clone());
    }
    w.g[0] = Some(s);
    for _ in 0..k {
        step(&mut w, ALL[sx::choose(9)], d, d == 1, 9);
    }
    sx::cover(0);
}
/// gc-clean asks first: the graph is removed exactly if the answer is yes
fn confirm(n: usize) {
    put_graph(b"AddVertex 3\n");
    let k = sx::choose(n + 1);
    let mut t: Vec<u8> = vec![];
    match sx::choose(4) {
        0 => t.extend_from_slice(b"yes"),
        1 => t.push(b'y'),
        2 => t.extend_from_slice(b"no"),
        _ => {
            for _ in 0..k {
                let b = sx::u8v();
                sx::assume(b > 32 && b < 127);
                t.push(b);
            }
        }
    }
    let yes = t == b"yes" || t == b"y";
    if sx::choose(2) == 0 {
        t.push(b'\n');
    }
    let o = run_with(Bin::Clean, &[], &t, 0, 0);
    sx::check(o.code == 0, "gc-clean succeeds");
    if yes {
        sx::check(sx::get(FILE).is_none(), "the confirmed graph is removed");
        sx::cover(0);
    } else {
        bytes_are(b"AddVertex 3\n");
        sx::cover(1);
    }
    unlocked();
}
/// other files of the directory are left alone
fn others() {
    put_graph(b"AddVertex 3\n");
    sx::put("keep", b"x");
    let mut w = world();
    w.g[0] = Some(SG::new());
    w.g[0].as_mut().unwrap().vertex(3);
    step(&mut w, ALL[sx::choose(9)], 0, false, 9);
    sx::check(sx::get("keep") == Some(b"x".to_vec()), "other files are left alone");
    sx::cover(0);
}
/// a file as someone may have written it: comments, empty lines, repeated commands, no newline at the end
fn odd() {
    let mut w = world();
    let (t, a) = digit(9);
    let mut s = SG::new();
    let mut f: Vec<u8> = vec![];
    let k = sx::choose(6);
    let end = sx::choose(2) == 0;
    f.extend_from_slice([&b""[..], b"", b"# a comment\n\n", b"\n\n\n", b"#", b"RemoveEdge 1 2\n"][k]);
    if k > 0 && k != 4 {
        f.extend_from_slice(b"AddVertex ");
        f.extend(t);
        s.vertex(a);
    }
    if k == 3 {
        f.extend_from_slice(b"\nAddEdge 1 1\nAddEdge 1 1");
        s.edge(1, 1);
    }
    if end {
        f.push(b'\n');
    }
    put_graph(&f);
    w.g[0] = Some(s);
    let op = ALL[sx::choose(9)];
    // a command appended to an unfinished line
    sx::assume(end || f.is_empty() || !(op == AddV || op == AddE || op == DelV || op == DelE));
    step(&mut w, op, 0, false, 9);
    if op == Op::Init || op == Op::Desc || op == Topo {
        bytes_are(&f);
        sx::cover(0);
    }
}
harness! {
    c21_odd => odd();
    c21_seq2 => from_nothing(2, true);
    c21_seq3 => from_nothing(3, false);
    c21_seq4 => from_nothing(4, false);
    c21_graph11 => from_graph(1, 1, true);
    c21_graph12 => from_graph(1, 2, true);
    c21_graph13 => from_graph(1, 3, false);
    c21_graph21 => from_graph(2, 1, false);
    c21_graph22 => from_graph(2, 2, false);
    c21_big1 => from_big(&[0, 1, 2, 3, 4, 5, 6, 7, 8], 12, 1);
    c21_wide => from_big(&[0, 1, 2, 8], 70, 1);
    c21_big2 => from_big(&[1, 8], 6, 2);
    c21_confirm => confirm(3);
    c21_others => others();
}
