//! C25 gc-random
use crate::base::*;
use crate::cli::Bin::*;
use crate::cli::*;
use crate::harness;
use crate::sx;
use gc_core::graph::Edge;

/// -v n -e m, at most k numbers drawn, each at most max
fn random(n: usize, m: usize, k: usize, max: u64, force: bool) {
    draws(k, max);
    generate(n, m, force)
}
/// many vertices and edges; one of the numbers drawn is arbitrary up to max
fn large(n: usize, m: usize, max: u64) {
    let free = [0, 1, n - 2, n + 3][sx::choose(4)];
    draws_given(2 * m + 3 * n, max, free);
    generate(n, m, true)
}
/// numbers that join every vertex to another in both ways, if directions were not fixed by the ids
fn mirror() {
    let n = [24, 70, 132][sx::choose(3)];
    let free = [0, n / 2, n - 2][sx::choose(3)];
    draws_mirror(3 * n, n, n as u64 + 9, free);
    generate(n, n / 4, true)
}
fn generate(n: usize, m: usize, force: bool) {
    put_graph(b"AddEdge 1 2\nAddEdge 2 1\n");
    let mut a: Vec<Vec<u8>> = vec![b"-v".to_vec(), n.to_string().into_bytes()];
    let dflt = sx::choose(2) == 0 && m == 3 * n;
    if !dflt {
        a.push(b"-e".to_vec());
        a.push(m.to_string().into_bytes());
    }
    let mut yes = true;
    let mut stdin: &[u8] = b"";
    if force {
        a.push(b"-f".to_vec());
    } else {
        yes = sx::choose(2) == 1;
        stdin = if yes { b"yes\n" } else { b"no\n" };
    }
    let r: Vec<&[u8]> = a.iter().map(|x| &x[..]).collect();
    let o = run_with(Random, &r, stdin, 0, 0);
    sx::check(o.code == 0, "gc-random succeeds");
    unlocked();
    if !yes {
        bytes_are(b"AddEdge 1 2\nAddEdge 2 1\n");
        sx::cover(1);
        return;
    }
    let g = match load() {
        Some(g) => g,
        None => return sx::check(false, "the stored graph can be read"),
    };
    sx::check(g.edge_count() >= m, "at least the requested number of edges");
    sx::check(g.edge_count() < m.max(1) + n, "the number of edges is about what was requested");
    // acyclic: removing vertices without inbound edge removes all of them
    let l: Vec<u64> = g.vertices().map(|x| x.0).collect();
    let e: Vec<(u64, u64)> = g.edges().map(|Edge(a, b)| (a.0, b.0)).collect();
    let mut left = l;
    loop {
        let next: Vec<u64> = left.iter().cloned().filter(|x| e.iter().any(|(a, b)| b == x && left.contains(a))).collect();
        if next.len() == left.len() {
            break;
        }
        left = next;
    }
    sx::check(left.is_empty(), "the random graph has no cycle");
    sx::cover(0);
}
fn nograph() {
    draws(9, 99);
    let o = run_with(Random, &[b"-f", b"-v", b"3", b"-e", b"1"], b"", 0, 0);
    sx::check(o.code != 0, "gc-random without a graph fails");
    sx::check(sx::get(FILE).is_none(), "no graph is stored");
    unlocked();
    sx::cover(0);
}
fn locked() {
    put_graph(b"AddEdge 1 2\n");
    sx::put("lock", b"");
    draws(9, 99);
    let o = run_with(Random, &[b"-f", b"-v", b"3", b"-e", b"1"], b"", 0, 0);
    sx::check(o.code != 0, "gc-random on a locked graph fails");
    bytes_are(b"AddEdge 1 2\n");
    sx::check(sx::get("lock").is_some(), "the lock of another command is left alone");
    sx::cover(0);
}
harness! {
    c25_v2e1 => random(2, 1, 4, 99, true);
    c25_v3e0 => random(3, 0, 4, 99, true);
    c25_v3e2 => random(3, 2, 4, 9, true);
    c25_v3e3 => random(3, 3, 4, 9, true);
    c25_v3e2w => random(3, 2, 4, 99, true);
    c25_v4e3 => random(4, 3, 6, 9, true);
    c25_v2e6 => random(2, 6, 7, 9, true);
    c25_v2e3 => random(2, 3, 4, 99, true);
    c25_v40 => large(40, 50, 60);
    c25_v25 => large(25, 75, 30);
    c25_v70 => large(70, 20, 99);
    c25_mirror => mirror();
    c25_v11e1 => random(11, 1, 10, 9, true);
    c25_ask => random(3, 1, 4, 9, false);
    c25_nograph => nograph();
    c25_locked => locked();
}
