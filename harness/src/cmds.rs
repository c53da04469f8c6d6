//! C02 a graph is equivalent to its command list; commands apply like set operations and can be reverted
use crate::gen::*;
use crate::harness;
use crate::store::{agree, remove_vertex};
use crate::sx;
use gc_core::directed_graph::DirectedGraph;
use gc_core::graph_command::GraphCommand;
use gc_core::graph_command::GraphCommand::*;

/// an arbitrary command (kind decided, ids symbolic)
pub fn any_command() -> GraphCommand {
    let op = sx::choose(4);
    let a = sx::u64v();
    match op {
        0 => AddVertex(v(a)),
        1 => RemoveVertex(v(a)),
        2 => AddEdge(v(a), v(sx::u64v())),
        _ => RemoveEdge(v(a), v(sx::u64v())),
    }
}
/// reference semantics of a command
pub fn apply(s: &mut SG, c: &GraphCommand) {
    match c {
        AddVertex(a) => {
            s.vertex(a.0);
        }
        RemoveVertex(a) => {
            remove_vertex(s, a.0);
        }
        AddEdge(a, b) => {
            s.edge(a.0, b.0);
        }
        RemoveEdge(a, b) => {
            if let (Some(i), Some(j)) = (s.find(a.0), s.find(b.0)) {
                s.adj[i][j] = false;
            }
        }
    }
}
fn round(s: &SG, g: &DirectedGraph) {
    sx::order_any2();
    let c = GraphCommand::as_commands(g);
    let mut g2 = DirectedGraph::new();
    GraphCommand::apply_commands(c, &mut g2);
    sx::cover(0);
    agree(s, &g2);
}
fn apply_list(k: usize) {
    let mut s = SG::new();
    let mut l = vec![];
    for _ in 0..k {
        let c = any_command();
        apply(&mut s, &c);
        l.push(c);
    }
    let mut g = DirectedGraph::new();
    GraphCommand::apply_commands(l, &mut g);
    sx::cover(0);
    agree(&s, &g);
}
/// a long list of commands over few ids, one of them arbitrary
fn apply_long(k: usize) {
    let at = [k - 1, 0, k / 2][sx::choose(3)];
    let mut s = SG::new();
    let mut l = vec![];
    for i in 0..k {
        let (a, b) = ((i * i + 3 * i) as u64 % 7, (5 * i + 1) as u64 % 8);
        let c = if i == at {
            any_command()
        } else {
            match i % 5 {
                3 => RemoveEdge(v(a), v(b)),
                4 if i % 3 == 0 => RemoveVertex(v(a)),
                1 => AddVertex(v(20 + a)),
                _ => AddEdge(v(a), v(b)),
            }
        };
        apply(&mut s, &c);
        l.push(c);
    }
    let mut g = DirectedGraph::new();
    if sx::choose(2) == 0 {
        GraphCommand::apply_commands(l, &mut g);
    } else {
        // in two parts
        let r = l.split_off(k / 2);
        GraphCommand::apply_commands(l, &mut g);
        GraphCommand::apply_commands(r, &mut g);
    }
    sx::cover(0);
    agree(&s, &g);
}
/// applying a command that changes exactly the element it names, then its reverse, restores the graph
fn revert(s: &SG, mut g: DirectedGraph) {
    let c = any_command();
    let r = GraphCommand::revert(c);
    sx::check(GraphCommand::revert(r) == c, "reverting twice gives the command back");
    let effective = match c {
        AddVertex(a) => s.find(a.0).is_none(),
        RemoveVertex(a) => match s.find(a.0) {
            Some(i) => (0..s.n()).all(|j| !s.adj[i][j] && !s.adj[j][i]),
            None => false,
        },
        AddEdge(a, b) => match (s.find(a.0), s.find(b.0)) {
            (Some(i), Some(j)) => !s.adj[i][j],
            _ => false,
        },
        RemoveEdge(a, b) => match (s.find(a.0), s.find(b.0)) {
            (Some(i), Some(j)) => s.adj[i][j],
            _ => false,
        },
    };
    sx::assume(effective);
    sx::cover(0);
    c.apply_to(&mut g);
    let mut s2 = s.clone();
    apply(&mut s2, &c);
    agree(&s2, &g);
    r.apply_to(&mut g);
    agree(s, &g);
}
harness! {
    c02_round_e3 => { sx::order(2); let (s, g) = edges(3); round(&s, &g) };
    c02_round_e4 => { sx::order(0); let (s, g) = edges(4); round(&s, &g) };
    c02_round_n3 => { sx::order(2); let (s, g) = matrix(3, true); round(&s, &g) };
    c02_round_n4 => { sx::order(0); let (s, g) = matrix(4, false); round(&s, &g) };
    c02_round_big => { let sh = sx::choose(9); let (s, g) = skeleton(sh, 16, 1); round(&s, &g) };
    c02_apply3 => { sx::order(2); apply_list(3) };
    c02_apply4 => { sx::order(0); apply_list(4) };
    c02_long => { sx::order(0); apply_long(45) };
    c02_revert_big => { let sh = sx::choose(9); let (s, g) = skeleton(sh, 10, 0); revert(&s, g) };
    c02_apply5 => { sx::order(0); apply_list(5) };
    c02_revert_e2 => { sx::order(2); let (s, g) = edges(2); revert(&s, g) };
    c02_revert_n2 => { sx::order(2); let (s, g) = matrix(2, true); revert(&s, g) };
    c02_revert_n3 => { sx::order(0); let (s, g) = matrix(3, true); revert(&s, g) };
}
