//! Symbolic graphs and reference (oracle) computations on their index form.
use crate::sx;
use gc_core::directed_graph::DirectedGraph;
use gc_core::graph::{Edge, VertexId};

/// Abstract graph: vertex ids are arbitrary u64 values, `adj[i][j]` is concrete on each path.
#[derive(Clone)]
pub struct SG {
    pub ids: Vec<u64>,
    pub adj: Vec<Vec<bool>>,
}
pub fn v(x: u64) -> VertexId {
    VertexId(x)
}
pub fn e(a: u64, b: u64) -> Edge {
    Edge(VertexId(a), VertexId(b))
}
impl SG {
    pub fn new() -> SG {
        SG { ids: vec![], adj: vec![] }
    }
    pub fn n(&self) -> usize {
        self.ids.len()
    }
    /// index of an id (decides its equality with every known id)
    pub fn find(&self, id: u64) -> Option<usize> {
        for i in 0..self.ids.len() {
            if self.ids[i] == id {
                return Some(i);
            }
        }
        None
    }
    pub fn vertex(&mut self, id: u64) -> usize {
        match self.find(id) {
            Some(i) => i,
            None => {
                self.ids.push(id);
                for r in self.adj.iter_mut() {
                    r.push(false);
                }
                let n = self.ids.len();
                self.adj.push(vec![false; n]);
                n - 1
            }
        }
    }
    pub fn edge(&mut self, a: u64, b: u64) -> bool {
        let i = self.vertex(a);
        let j = self.vertex(b);
        let new = !self.adj[i][j];
        self.adj[i][j] = true;
        new
    }
    pub fn edges(&self) -> Vec<(usize, usize)> {
        let mut r = vec![];
        for i in 0..self.n() {
            for j in 0..self.n() {
                if self.adj[i][j] {
                    r.push((i, j));
                }
            }
        }
        r
    }
    pub fn m(&self) -> usize {
        self.edges().len()
    }
    /// reflexive-transitive reachability from s
    pub fn reach(&self, s: usize) -> Vec<bool> {
        let mut r = vec![false; self.n()];
        let mut st = vec![s];
        r[s] = true;
        while let Some(x) = st.pop() {
            for y in 0..self.n() {
                if self.adj[x][y] && !r[y] {
                    r[y] = true;
                    st.push(y);
                }
            }
        }
        r
    }
    /// the vertices from which s can be reached
    pub fn coreach(&self, s: usize) -> Vec<bool> {
        let mut r = vec![false; self.n()];
        let mut st = vec![s];
        r[s] = true;
        while let Some(x) = st.pop() {
            for y in 0..self.n() {
                if self.adj[y][x] && !r[y] {
                    r[y] = true;
                    st.push(y);
                }
            }
        }
        r
    }
    /// number of edges of a shortest path, usize::MAX when unreachable
    pub fn dist(&self, s: usize) -> Vec<usize> {
        let mut d = vec![usize::MAX; self.n()];
        d[s] = 0;
        let mut cur = vec![s];
        while !cur.is_empty() {
            let mut nx = vec![];
            for &x in &cur {
                for y in 0..self.n() {
                    if self.adj[x][y] && d[y] == usize::MAX {
                        d[y] = d[x] + 1;
                        nx.push(y);
                    }
                }
            }
            cur = nx;
        }
        d
    }
    pub fn acyclic(&self) -> bool {
        for i in 0..self.n() {
            for j in 0..self.n() {
                if self.adj[i][j] && self.reach(j)[i] {
                    return false;
                }
            }
        }
        true
    }
    /// all simple paths starting at s (including the one-vertex path)
    pub fn simple_paths(&self, s: usize) -> Vec<Vec<usize>> {
        let mut out = vec![];
        let mut p = vec![s];
        self.sp(&mut p, &mut out);
        out
    }
    fn sp(&self, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        out.push(p.clone());
        let l = *p.last().unwrap();
        for y in 0..self.n() {
            if self.adj[l][y] && !p.contains(&y) {
                p.push(y);
                self.sp(p, out);
                p.pop();
            }
        }
    }
    /// every simple cycle once, each starting with its smallest index
    pub fn cycles(&self) -> Vec<Vec<usize>> {
        let mut out = vec![];
        for s in 0..self.n() {
            for p in self.simple_paths(s) {
                if p.iter().all(|x| *x >= s) && self.adj[*p.last().unwrap()][s] {
                    out.push(p);
                }
            }
        }
        out
    }
    pub fn build(&self) -> DirectedGraph {
        let mut g = DirectedGraph::new();
        for i in 0..self.n() {
            g.add_vertex(v(self.ids[i]));
        }
        for (i, j) in self.edges() {
            g.add_edge(e(self.ids[i], self.ids[j]));
        }
        g
    }
}

/// m edges with arbitrary endpoints, added in sequence: every graph of at most m edges, with every
/// sharing pattern of endpoints, duplicate edges and self loops.
pub fn edges(m: usize) -> (SG, DirectedGraph) {
    let mut s = SG::new();
    let mut g = DirectedGraph::new();
    for _ in 0..m {
        let a = sx::u64v();
        let b = sx::u64v();
        s.edge(a, b);
        g.add_edge(e(a, b));
    }
    (s, g)
}
/// every graph on n vertices with arbitrary distinct ids; `loops`: with self loops
pub fn matrix(n: usize, loops: bool) -> (SG, DirectedGraph) {
    let s = matrix_sg(n, loops);
    let g = s.build();
    (s, g)
}
pub fn matrix_sg(n: usize, loops: bool) -> SG {
    let mut s = SG::new();
    for _ in 0..n {
        let a = sx::u64v();
        for k in 0..s.n() {
            sx::assume(s.ids[k] != a);
        }
        s.ids.push(a);
    }
    s.adj = vec![vec![false; n]; n];
    for i in 0..n {
        for j in 0..n {
            if i != j || loops {
                s.adj[i][j] = sx::flag();
            }
        }
    }
    s
}
/// chain of k+1 vertices with arbitrary distinct ids plus `extra` edges with arbitrary endpoints
pub fn chain(k: usize, extra: usize) -> (SG, DirectedGraph) {
    let mut s = SG::new();
    for _ in 0..=k {
        let a = sx::u64v();
        for k in 0..s.n() {
            sx::assume(s.ids[k] != a);
        }
        s.ids.push(a);
    }
    s.adj = vec![vec![false; k + 1]; k + 1];
    for i in 0..k {
        s.adj[i][i + 1] = true;
    }
    let mut g = s.build();
    for _ in 0..extra {
        let a = sx::u64v();
        let b = sx::u64v();
        s.edge(a, b);
        g.add_edge(e(a, b));
    }
    (s, g)
}

/// k-vertex skeletons with concrete ids (not in index order), larger than the exhaustive bounds,
/// with `extra` edges whose endpoints are arbitrary. shape: 0 chain, 1 cycle, 2 star out, 3 star in,
/// 4 chain with short cuts (i -> i+1, i -> i+2), 5 binary tree, 6 dense acyclic
/// (i -> j for i < j), 7 complete bipartite, 8 star both ways
pub fn skeleton(shape: usize, k: usize, extra: usize) -> (SG, DirectedGraph) {
    sx::order_any2();
    let mut s = SG::new();
    for i in 0..k {
        // 0, 10, 20, .. interleaved so that ids are neither sorted nor contiguous
        let id = if i % 2 == 0 { 10 * i as u64 } else { (if k > 90 { 9000 } else { 1000 }) - 10 * i as u64 };
        s.ids.push(id);
    }
    s.adj = vec![vec![false; k]; k];
    for i in 0..k {
        match shape {
            0 | 1 => {
                if i + 1 < k {
                    s.adj[i][i + 1] = true;
                } else if shape == 1 {
                    s.adj[i][0] = true;
                }
            }
            2 => {
                if i > 0 {
                    s.adj[0][i] = true
                }
            }
            3 => {
                if i > 0 {
                    s.adj[i][0] = true
                }
            }
            4 => {
                for d in 1..3 {
                    if i + d < k {
                        s.adj[i][i + d] = true;
                    }
                }
            }
            6 => {
                for j in i + 1..k {
                    s.adj[i][j] = true;
                }
            }
            7 => {
                for j in k / 2..k {
                    if i < k / 2 {
                        s.adj[i][j] = true;
                    }
                }
            }
            8 => {
                if i > 0 {
                    s.adj[i][0] = true;
                    s.adj[0][i] = true;
                }
            }
            _ => {
                for d in 1..3 {
                    if 2 * i + d < k {
                        s.adj[i][2 * i + d] = true;
                    }
                }
            }
        }
    }
    let mut g = s.build();
    for _ in 0..extra {
        let a = sx::u64v();
        let b = sx::u64v();
        s.edge(a, b);
        g.add_edge(e(a, b));
    }
    (s, g)
}
/// every graph of one or two vertices
pub fn tiny() -> (SG, DirectedGraph) {
    matrix(1 + sx::choose(2), true)
}
/// a family of graphs of many vertices, with an edge from the last of them to an arbitrary vertex
pub fn wide(shape: usize, k: usize) -> (SG, DirectedGraph) {
    let (mut s, mut g) = skeleton(shape, k, 0);
    let a = s.ids[k - 1];
    let b = sx::u64v();
    s.edge(a, b);
    g.add_edge(e(a, b));
    (s, g)
}
/// a family of graphs of very many vertices; there may be an edge from the last of them to the first,
/// to one in the middle, to the one before, or to a further vertex, or one from the second to the third
pub fn huge(shape: usize, k: usize) -> (SG, DirectedGraph) {
    let (mut s, mut g) = skeleton(shape, k, 0);
    let c = sx::choose(6);
    if c > 0 {
        let a = if c == 5 { s.ids[1] } else { s.ids[k - 1] };
        let b = [5, s.ids[0], s.ids[k / 2], s.ids[k - 2], s.ids[2]][c - 1];
        s.edge(a, b);
        g.add_edge(e(a, b));
    }
    (s, g)
}
/// start -> every other vertex, and a chain through them: every direct edge may be beaten by a detour
/// of any length; `back`: also one edge back to the start
pub fn fan(n: usize, back: bool) -> (SG, DirectedGraph) {
    sx::order_any2();
    let mut s = SG::new();
    for i in 0..n {
        s.ids.push([7, 3, 9, 1, 5, 8][i]);
    }
    s.adj = vec![vec![false; n]; n];
    for i in 1..n {
        s.adj[0][i] = true;
        if i + 1 < n {
            s.adj[i][i + 1] = true;
        }
    }
    s.adj[n - 1][0] = back;
    let g = s.build();
    (s, g)
}
/// indices of a vertex sequence; asserts that every vertex is known
pub fn indices(s: &SG, p: &[VertexId]) -> Vec<usize> {
    let mut r = vec![];
    for x in p {
        match s.find(x.0) {
            Some(i) => r.push(i),
            None => sx::check(false, "a vertex that is not in the graph"),
        }
    }
    r
}
/// consecutive vertices are joined by edges
pub fn is_walk(s: &SG, p: &[usize]) -> bool {
    p.windows(2).all(|w| s.adj[w[0]][w[1]])
}
/// symbolic edge weights, one per edge of the graph
pub struct W {
    pub w: Vec<(u64, u64, i64)>,
    pub ix: Vec<Vec<i64>>,
}
impl W {
    pub fn new(s: &SG, lo: i64, hi: i64) -> W {
        let mut w = vec![];
        let mut ix = vec![vec![0; s.n()]; s.n()];
        for (i, j) in s.edges() {
            let x = sx::range(lo, hi);
            w.push((s.ids[i], s.ids[j], x));
            ix[i][j] = x;
        }
        W { w, ix }
    }
    pub fn of(&self, a: VertexId, b: VertexId) -> i64 {
        for (x, y, w) in &self.w {
            if *x == a.0 && *y == b.0 {
                return *w;
            }
        }
        // asked for an edge that does not exist
        sx::check(false, "the cost of an edge that is not in the graph was requested");
        0
    }
    pub fn sum(&self, p: &[usize]) -> i64 {
        let mut t = 0;
        for k in p.windows(2) {
            t += self.ix[k[0]][k[1]];
        }
        t
    }
}
