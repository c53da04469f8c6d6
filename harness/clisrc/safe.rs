//! C23 the lock, C24 failing file operations, C28 crashes
use crate::base::*;
use crate::cli::Bin::*;
use crate::cli::*;
use crate::gen::*;
use crate::harness;
use crate::sx;
use crate::upd::{added, call, flag, Opt, OPTS};
use gc_core::format::{gcmd, tgf};
use gc_core::graph_command::GraphCommand;

#[derive(Clone, Copy, PartialEq, Debug)]
enum U {
    AddV,
    AddE,
    DelV,
    DelE,
    Build,
    Clean,
}
use U::{AddE, AddV, DelE, DelV};
const UPD: [U; 6] = [AddV, AddE, DelV, DelE, U::Build, U::Clean];
struct Cmd {
    u: U,
    b: Bin,
    args: Vec<Vec<u8>>,
    ids: Vec<u64>,
}
fn update(u: U, max: u8) -> Cmd {
    let (b, o, n) = match u {
        AddV => (Add, "-v", 1),
        AddE => (Add, "-e", 2),
        DelV => (Delete, "-v", 1),
        DelE => (Delete, "-e", 2),
        U::Build => (Build, "", 0),
        U::Clean => (Clean, "-f", 0),
    };
    let mut args: Vec<Vec<u8>> = vec![];
    if !o.is_empty() {
        args.push(o.as_bytes().to_vec());
    }
    let mut ids = vec![];
    for _ in 0..n {
        let (t, x) = digit(max);
        args.push(t);
        ids.push(x);
    }
    Cmd { u, b, args, ids }
}
/// the effect of a command on the stored graph; None: there is none (any more)
fn apply(c: &Cmd, s: Option<SG>) -> Option<SG> {
    let mut s = s?;
    match c.u {
        AddV => {
            s.vertex(c.ids[0]);
        }
        AddE => {
            s.edge(c.ids[0], c.ids[1]);
        }
        DelV => remove_vertex(&mut s, c.ids[0]),
        DelE => remove_edge(&mut s, c.ids[0], c.ids[1]),
        U::Build => (),
        U::Clean => return None,
    }
    Some(s)
}
fn slices(c: &Cmd) -> Vec<&[u8]> {
    c.args.iter().map(|x| &x[..]).collect()
}
fn equals(s: &Option<SG>) -> bool {
    match s {
        None => sx::get(FILE).is_none(),
        Some(s) => match load() {
            None => false,
            Some(g) => {
                let mut ok = g.vertex_count() == s.n() && g.edge_count() == s.m();
                for i in 0..s.n() {
                    ok = ok && g.contains_vertex(v(s.ids[i]));
                    for j in 0..s.n() {
                        ok = ok && g.contains_edge(e(s.ids[i], s.ids[j])) == s.adj[i][j];
                    }
                }
                ok
            }
        },
    }
}
/// two updates at the same time
fn race(kinds: &[(U, U)], k: usize, switches: u64) {
    let (s, _) = stored(k, 9);
    let (x, y) = kinds[sx::choose(kinds.len())];
    let (a, b) = (update(x, 9), update(y, 9));
    let o = run_par((a.b, &slices(&a)), (b.b, &slices(&b)), switches);
    unlocked();
    let (p, q) = (o[0].code == 0, o[1].code == 0);
    sx::check(p || q, "one of two simultaneous updates succeeds");
    // an update that reported failure changed nothing, one that reported success is not lost
    let base = Some(s);
    if p && q {
        let r1 = apply(&b, apply(&a, base.clone()));
        let r2 = apply(&a, apply(&b, base));
        let ok = equals(&r1) || equals(&r2);
        sx::check(ok, "both updates succeeded: both are in the stored graph");
        sx::cover(0);
    } else {
        let r = apply(if p { &a } else { &b }, base);
        sx::check(equals(&r), "the stored graph holds exactly the update that succeeded");
        sx::cover(1);
    }
}
/// the graph is locked: updates fail and change nothing
fn locked(k: usize) {
    let (_, t) = stored(k, 9);
    sx::put("lock", b"");
    let c = update(UPD[sx::choose(6)], 9);
    let o = run(c.b, &slices(&c));
    sx::check(o.code != 0, "an update of a locked graph fails");
    bytes_are(&t);
    sx::check(sx::get("lock").is_some(), "the lock of another command is left alone");
    sx::cover(0);
}
/// the same while file operations fail
fn locked_fault(n: u64) {
    let (_, t) = stored(1, 9);
    sx::put("lock", b"");
    let c = update(UPD[sx::choose(6)], 9);
    let o = run_with(c.b, &slices(&c), b"", n, 0);
    sx::check(o.code != 0, "an update of a locked graph fails");
    bytes_are(&t);
    sx::check(sx::get("lock").is_some(), "the lock of another command is left alone");
    sx::cover(0);
}
/// reading a locked graph changes nothing
fn locked_read() {
    let (_, t) = stored(1, 9);
    sx::put("lock", b"");
    let (b, a): (Bin, &[&[u8]]) = match sx::choose(5) {
        0 => (Desc, &[]),
        1 => (TopoSort, &[]),
        2 => (Cycle, &[b"-a"]),
        3 => (ShortPath, &[b"-s", b"1", b"-e", b"2"]),
        _ => (Csp, &[b"-s", b"1", b"-e", b"2", b"--no-cycle"]),
    };
    let _ = run(b, a);
    bytes_are(&t);
    sx::check(sx::get("lock").is_some(), "the lock of another command is left alone");
    sx::cover(0);
}
/// the stored file cannot be read or there is none: the command fails and the lock is released
fn fails() {
    let bad = sx::choose(2) == 1;
    let t = b"AddEdge 1 2\nAddEdgeX\n";
    if bad {
        put_graph(t);
        let o = run(Build, &[]);
        sx::check(o.code != 0, "a file that is not valid is reported");
        bytes_are(t);
    } else {
        let c = update(UPD[sx::choose(6)], 9);
        let o = run(c.b, &slices(&c));
        sx::check(o.code != 0, "an update without a graph fails");
        sx::check(sx::get(FILE).is_none(), "no graph is created");
    }
    unlocked();
    sx::cover(0);
}
/// arguments that are not valid: the command fails and the lock is released
fn bad_args() {
    let (_, t) = stored(1, 9);
    let a: (Bin, &[&[u8]]) = match sx::choose(8) {
        0 => (Add, &[b"-v", b"1", b"x"]),
        1 => (Add, &[b"-e", b"1", b"2", b"3"]),
        2 => (Add, &[b"-c", b"1", b"2", b"x"]),
        3 => (Add, &[b"-X", b"x", b"2"]),
        4 => (Add, &[b"-C", b"1", b"18446744073709551616"]),
        5 => (Add, &[b"--cycle", b"1", b"-2"]),
        6 => (Delete, &[b"-v", b"x"]),
        _ => (Delete, &[b"-e", b"1", b"2", b"3"]),
    };
    let o = run(a.0, a.1);
    sx::check(o.code != 0, "arguments that are not valid are reported");
    bytes_are(&t);
    unlocked();
    sx::cover(0);
}
/// file operations other than the removal of a file fail: the lock is released all the same
fn fault_lock(n: u64) {
    let (s, t) = stored(1, 9);
    let c = update(UPD[sx::choose(6)], 9);
    let o = run_with(c.b, &slices(&c), b"", n | SPARE, 0);
    unlocked();
    if o.code == 0 {
        let r = apply(&c, Some(s));
        sx::check(equals(&r), "success: the update is stored");
        sx::cover(0);
    } else {
        let _ = t;
        sx::cover(1);
    }
}
/// the flag of run_with's number of faults that keeps removals of files from failing
const SPARE: u64 = 1 << 16;
// ---------------------------------------------------------------- C24
/// up to n file operations fail: success is reported only if the data is there
fn faulty(kinds: &[U], k: usize, n: u64) {
    let (s, _) = stored(k, 9);
    let c = update(kinds[sx::choose(kinds.len())], 9);
    let o = run_with(c.b, &slices(&c), b"", n, 0);
    if o.code == 0 {
        let r = apply(&c, Some(s));
        match &r {
            Some(r) => holds(r),
            None => sx::check(sx::get(FILE).is_none(), "the graph is removed"),
        }
        unlocked();
        sx::cover(0);
    } else {
        sx::cover(1);
    }
}
/// gc-init with failing operations
fn faulty_init(n: u64) {
    let old = sx::choose(2) == 1;
    if old {
        put_graph(b"AddEdge 1 2\n");
    }
    let o = run_with(Init, &[], b"", n, 0);
    if o.code == 0 {
        let mut s = SG::new();
        if old {
            s.edge(1, 2);
        }
        holds(&s);
        sx::cover(0);
    } else {
        sx::cover(1);
    }
}
/// a pattern whose commands do not fit into one buffer (8 KiB)
fn faulty_big(build: bool, m: usize, n: u64) {
    let ids: Vec<u64> = (0..m as u64).map(|i| 1000000 + i).collect();
    let mut s = SG::new();
    added(Opt::Clique, &ids, false, &mut s);
    let mut a: Vec<Vec<u8>> = vec![];
    let b = if build {
        let mut t: Vec<u8> = vec![];
        for (i, j) in s.edges() {
            t.extend_from_slice(format!("AddEdge {} {}\n", ids[i], ids[j]).as_bytes());
        }
        put_graph(&t);
        Build
    } else {
        put_graph(b"");
        a.push(flag(Opt::Clique, false).to_vec());
        for x in &ids {
            a.push(x.to_string().into_bytes());
        }
        Add
    };
    let r: Vec<&[u8]> = a.iter().map(|x| &x[..]).collect();
    let o = run_with(b, &r, b"", n, 0);
    if o.code == 0 {
        let g = match load() {
            Some(g) => g,
            None => return sx::check(false, "the stored graph can be read"),
        };
        sx::check(g.vertex_count() == m && g.edge_count() == m * (m - 1), "success: the whole graph is stored");
        unlocked();
        sx::cover(0);
    } else {
        sx::cover(1);
    }
}
/// the lines that are numbers
fn walk(o: &[u8]) -> Vec<u64> {
    lines(o).iter().filter_map(|x| number(x)).collect()
}
/// reading commands with failing operations: an answer is given only for the whole graph
fn faulty_read(n: u64) {
    put_graph(b"AddEdge 1 2\nAddEdge 2 3\n");
    match sx::choose(5) {
        0 => {
            let o = run_with(Desc, &[], b"", n, 0);
            if o.code == 0 {
                let l = lines(&o.out);
                sx::check(l.iter().any(|x| is(x, "Vertices: 3")) && l.iter().any(|x| is(x, "Edges: 2")), "gc-desc describes the stored graph");
                sx::cover(0);
            } else {
                sx::cover(1);
            }
        }
        1 => {
            let o = run_with(TopoSort, &[], b"", n, 0);
            if o.code == 0 {
                sx::check(numbers(&o.out) == vec![1, 2, 3], "gc-topo-sort orders the stored graph");
            }
        }
        2 => {
            let o = run_with(Csp, &[b"-s", b"1", b"-e", b"3", b"--no-cycle"], b"", n, 0);
            if o.code == 0 {
                sx::check(walk(&o.out) == vec![1, 2, 3], "gc-csp answers for the stored graph");
            }
        }
        3 => {
            let o = run_with(Cycle, &[b"-c"], b"", n, 0);
            if o.code == 0 {
                sx::check(numbers(&o.out) == vec![0], "gc-cycle answers for the stored graph");
            }
        }
        _ => {
            let o = run_with(ShortPath, &[b"-s", b"1", b"-e", b"3"], b"", n, 0);
            if o.code == 0 {
                sx::check(walk(&o.out) == vec![1, 2, 3], "gc-short-path answers for the stored graph");
            }
        }
    }
    bytes_are(b"AddEdge 1 2\nAddEdge 2 3\n");
}
/// gc-random with failing operations
fn faulty_random(n: u64) {
    put_graph(b"AddEdge 1 2\nAddEdge 2 1\n");
    draws(4, 9);
    let o = run_with(Random, &[b"-f", b"-v", b"3", b"-e", b"2"], b"", n, 0);
    if o.code == 0 {
        match load() {
            Some(g) => {
                sx::check(g.edge_count() >= 2 && g.edge_count() < 5, "success: the whole random graph is stored");
                sx::check(!(g.contains_edge(e(1, 2)) && g.contains_edge(e(2, 1))), "success: the earlier graph is replaced");
            }
            None => sx::check(false, "the stored graph can be read"),
        }
        unlocked();
        sx::cover(0);
    } else {
        sx::cover(1);
    }
}
/// the save functions of the library, on a graph of up to k commands
fn faulty_save(k: usize, n: u64) {
    let (s, _) = stored(k, 9);
    let kind = sx::choose(2);
    sx::put("out", b"AddVertex 77\n77\n");
    let o = run_with(Lib, &[if kind == 0 { b"tgf" } else { b"gcmd" }, FILE.as_bytes(), b"out"], b"", n, 0);
    if o.code == 0 {
        match std::fs::File::open(sx::path("out")).ok().and_then(|f| if kind == 0 { tgf::read(f).ok() } else { gcmd::read(f).ok() }) {
            Some(g) => same(&s, &g),
            None => sx::check(false, "the saved graph can be read"),
        }
        sx::cover(0);
    } else {
        sx::cover(1);
    }
}
/// the same with more than one buffer of data
fn big_save(m: usize, iso: usize, n: u64) {
    let kind = sx::choose(3);
    let mut t: Vec<u8> = vec![];
    for i in 0..m {
        if kind == 2 {
            t.extend_from_slice(format!("{} {}\n", 1000000 + i, 1000001 + i).as_bytes());
        } else {
            t.extend_from_slice(format!("AddEdge {} {}\n", 1000000 + i, 1000001 + i).as_bytes());
        }
    }
    // more than one buffer of isolated vertices as well
    for i in 0..iso {
        t.extend_from_slice(format!("{}{}\n", if kind == 2 { "" } else { "AddVertex " }, 2000000000 + i).as_bytes());
    }
    sx::put("in", &t);
    let o = run_with(Lib, &[[&b"tgf"[..], b"gcmd", b"fromtgf"][kind], b"in", b"out"], b"", n, 0);
    if o.code == 0 {
        match std::fs::File::open(sx::path("out")).ok().and_then(|f| if kind == 0 { tgf::read(f).ok() } else { gcmd::read(f).ok() }) {
            Some(g) => sx::check(g.vertex_count() == m + 1 + iso && g.edge_count() == m, "success: the whole graph is saved"),
            None => sx::check(false, "the saved graph can be read"),
        }
        sx::cover(0);
    } else {
        sx::cover(1);
    }
}
// ---------------------------------------------------------------- C28
fn commands(b: Bin, o: Opt, ids: &[u64], rev: bool) -> Vec<GraphCommand> {
    use GraphCommand::*;
    let n = ids.len();
    let mut e: Vec<(u64, u64)> = vec![];
    match o {
        Opt::Vertex => return ids.iter().map(|x| if b == Add { AddVertex(v(*x)) } else { RemoveVertex(v(*x)) }).collect(),
        Opt::Edge => {
            for i in 0..n / 2 {
                e.push((ids[2 * i], ids[2 * i + 1]));
            }
        }
        Opt::Chain => {
            for i in 1..n {
                e.push((ids[i - 1], ids[i]));
            }
        }
        _ => {
            for i in 1..n {
                e.push((ids[0], ids[i]));
            }
        }
    }
    e.into_iter().map(|(x, y)| if rev { (y, x) } else { (x, y) }).map(|(x, y)| if b == Add { AddEdge(v(x), v(y)) } else { RemoveEdge(v(x), v(y)) }).collect()
}
/// the process dies at any file operation of gc-add or gc-delete, or inside a write
fn crash(k: usize, n: usize) {
    let (_, t) = stored(k, 9);
    let b = [Add, Delete][sx::choose(2)];
    let o = if b == Add { [Opt::Vertex, Opt::Edge, Opt::Chain, Opt::Star][sx::choose(4)] } else { [Opt::Vertex, Opt::Edge][sx::choose(2)] };
    let rev = b == Add && o != Opt::Vertex && sx::choose(2) == 1;
    let mut a = vec![];
    if rev {
        a.push(b"--reverse".to_vec());
    }
    a.push(flag(o, false).to_vec());
    let mut ids = vec![];
    for _ in 0..n {
        let (x, i) = digit(9);
        a.push(x);
        ids.push(i);
    }
    let r: Vec<&[u8]> = a.iter().map(|x| &x[..]).collect();
    let out = run_with(b, &r, b"", 0, 1);
    after(&t, &commands(b, o, &ids, rev), out.code == 0);
}
/// the stored file starts with t: the commands of the complete lines after it; is the last one complete
fn complete_lines(t: &[u8]) -> Option<(Vec<GraphCommand>, bool)> {
    let f = match sx::get(FILE) {
        Some(f) => f,
        None => {
            sx::check(false, "the stored file is still there");
            return None;
        }
    };
    if f.len() < t.len() {
        sx::check(false, "the earlier content is still there");
        return None;
    }
    for i in 0..t.len() {
        sx::check(f[i] == t[i], "the earlier content is unchanged");
    }
    let mut end = t.len();
    for i in t.len()..f.len() {
        if f[i] == b'\n' {
            end = i + 1;
        }
    }
    sx::put("copy", &f[t.len()..end]);
    match std::fs::File::open(sx::path("copy")).ok().and_then(|f| gcmd::read_as_commands(f).ok()) {
        Some(l) => Some((l, end == f.len())),
        None => {
            sx::check(false, "every complete line is a command");
            None
        }
    }
}
/// the file holds the old content and complete lines for the first requested commands
fn after(t: &[u8], want: &[GraphCommand], ended: bool) {
    let (l, whole) = match complete_lines(t) {
        Some(x) => x,
        None => return,
    };
    sx::check(l.len() <= want.len(), "more commands are stored than were requested");
    for i in 0..l.len().min(want.len()) {
        sx::check(l[i] == want[i], "the complete lines are the requested commands in order");
    }
    if ended {
        sx::check(l.len() == want.len() && whole, "success: every command is stored");
        sx::cover(0);
    } else if !whole {
        sx::cover(2);
    } else {
        sx::cover(1);
    }
}
/// the other patterns, two options at once: the order of the commands is not told
fn crash_any(k: usize) {
    let (_, t) = stored(k, 9);
    let kind = sx::choose(5);
    let mut ids = vec![];
    let mut a: Vec<Vec<u8>> = vec![];
    let mut want: Vec<GraphCommand> = vec![];
    let bin = if kind == 4 { Delete } else { Add };
    let opts: &[(&[u8], Opt, usize)] = match kind {
        0 => &[(b"--cycle", Opt::Cycle, 3)],
        1 => &[(b"--clique", Opt::Clique, 3)],
        2 => &[(b"-v", Opt::Vertex, 2), (b"-e", Opt::Edge, 2)],
        3 => &[(b"-c", Opt::Chain, 2), (b"-X", Opt::Star, 3)],
        _ => &[(b"-v", Opt::Vertex, 1), (b"-e", Opt::Edge, 2)],
    };
    for (f, o, n) in opts {
        a.push(f.to_vec());
        ids.clear();
        for _ in 0..*n {
            let (x, i) = digit(9);
            a.push(x);
            ids.push(i);
        }
        match o {
            Opt::Cycle => {
                for i in 0..*n {
                    want.push(GraphCommand::AddEdge(v(ids[i]), v(ids[(i + 1) % n])));
                }
            }
            Opt::Clique => {
                for i in 0..*n {
                    for j in 0..*n {
                        if i != j {
                            want.push(GraphCommand::AddEdge(v(ids[i]), v(ids[j])));
                        }
                    }
                }
            }
            _ => want.extend(commands(bin, *o, &ids, false)),
        }
    }
    let r: Vec<&[u8]> = a.iter().map(|x| &x[..]).collect();
    let out = run_with(bin, &r, b"", 0, 1);
    let (l, whole) = match complete_lines(&t) {
        Some(x) => x,
        None => return,
    };
    for c in &l {
        let ok = want.contains(c);
        sx::check(ok, "a complete line is no requested command");
    }
    if out.code == 0 {
        sx::check(whole, "success: the last line is complete");
        for c in &want {
            let ok = l.contains(c);
            sx::check(ok, "success: every command is stored");
        }
        sx::cover(0);
    } else {
        sx::cover(if whole { 1 } else { 2 });
    }
}
/// the commands do not fit into one buffer
fn crash_big(m: usize) {
    let t = b"AddEdge 1 2\n";
    put_graph(t);
    let ids: Vec<u64> = (0..m as u64).map(|i| 1000000000000 + i).collect();
    let mut a = vec![flag(Opt::Star, false).to_vec()];
    for x in &ids {
        a.push(x.to_string().into_bytes());
    }
    let r: Vec<&[u8]> = a.iter().map(|x| &x[..]).collect();
    let out = run_with(Add, &r, b"", 0, 1);
    after(t, &commands(Add, Opt::Star, &ids, false), out.code == 0);
}
const PAIRS_ADD: [(U, U); 4] = [(AddV, AddV), (AddV, AddE), (AddE, DelV), (DelE, AddE)];
const PAIRS_BUILD: [(U, U); 3] = [(U::Build, AddV), (U::Build, AddE), (DelV, U::Build)];
const PAIRS_REST: [(U, U); 5] = [(U::Build, U::Build), (U::Clean, AddE), (U::Clean, U::Build), (U::Clean, U::Clean), (DelV, U::Clean)];
harness! {
    c23_add2 => race(&PAIRS_ADD, 1, 2);
    c23_add => race(&PAIRS_ADD, 1, 4);
    c23_build2 => race(&PAIRS_BUILD, 1, 2);
    c23_build => race(&PAIRS_BUILD, 1, 4);
    c23_rest2 => race(&PAIRS_REST, 1, 2);
    c23_rest => race(&PAIRS_REST, 1, 4);
    c23_any => race(&[(AddE, AddV)], 0, 99);
    c23_locked => locked(2);
    c23_lockedf => locked_fault(2);
    c23_read => locked_read();
    c23_fails => fails();
    c23_badargs => bad_args();
    c23_fault1 => fault_lock(1);
    c23_fault2 => fault_lock(2);
    c24_upd1 => faulty(&[AddV, AddE, DelV, DelE], 1, 1);
    c24_upd2 => faulty(&[AddV, AddE, DelV, DelE], 1, 2);
    c24_build1 => faulty(&[U::Build], 2, 1);
    c24_build2 => faulty(&[U::Build], 1, 2);
    c24_clean1 => faulty(&[U::Clean], 1, 1);
    c24_clean2 => faulty(&[U::Clean], 1, 2);
    c24_init => faulty_init(2);
    c24_bigadd => faulty_big(false, 20, 1);
    c24_bigbuild => faulty_big(true, 20, 1);
    c24_save1 => faulty_save(1, 1);
    c24_save2 => faulty_save(2, 2);
    c24_bigsave => if sx::choose(2) == 0 { big_save(350, 0, 1) } else { big_save(1, 800, 1) };
    c24_rnd => faulty_random(1);
    c24_read1 => faulty_read(1);
    c24_read2 => faulty_read(2);
    c28_one => crash(1, 2);
    c28_four => crash(1, 4);
    c28_big => crash_big(270);
    c28_any => crash_any(1);
}
