//! C19 search queues, C26 attribute mappings
use crate::gen::*;
use crate::harness;
use crate::sx;
use gc_core::attribute::attribute_command::AttributeCommand;
use gc_core::attribute::attribute_command::AttributeCommand::*;
use gc_core::attribute::mapping::*;
use gc_core::graph::*;
use gc_core::iter::iter_datastructure::*;
use gc_core::path::*;

fn pushes_pops(k: usize, kind: usize) {
    let mut st = Stack::<u64>::new::<u64>();
    let mut q = Queue::<u64>::new::<u64>();
    let mut mn = MinPriorityQueue::<i64>::new::<i64>();
    let mut mx = MaxPriorityQueue::<i64>::new::<i64>();
    let mut model: Vec<u64> = vec![];
    for step in 0..k + 1 {
        let push = step < k && sx::choose(2) == 0;
        if push {
            let x = sx::u64v();
            model.push(x);
            match kind {
                0 => st.push(x),
                1 => q.push(x),
                2 => mn.push(x as i64),
                _ => mx.push(x as i64),
            }
        } else {
            loop {
                // the last step drains the queue
                let got = match kind {
                    0 => st.pop(),
                    1 => q.pop(),
                    2 => mn.pop().map(|x| x as u64),
                    _ => mx.pop().map(|x| x as u64),
                };
                match got {
                    None => {
                        sx::check(model.is_empty(), "pop returns None on a non-empty queue");
                        sx::cover(0);
                        break;
                    }
                    Some(x) => {
                        sx::check(!model.is_empty(), "pop returns a value on an empty queue");
                        let i = match kind {
                            0 => model.len() - 1,
                            1 => 0,
                            _ => {
                                let mut best = 0;
                                for i in 1..model.len() {
                                    let (a, b) = (model[i] as i64, model[best] as i64);
                                    if (kind == 2 && a < b) || (kind == 3 && a > b) {
                                        best = i;
                                    }
                                }
                                best
                            }
                        };
                        let m = model.remove(i);
                        sx::check(m == x, "pop returns the wrong element");
                        sx::cover(1);
                    }
                }
                if step < k {
                    break;
                }
            }
        }
    }
}
/// long histories: k pushes, `h` pops in between, then drained; all values symbolic for the stack and
/// the queue, one symbolic among concrete ones for the priority queues
fn long(k: usize, h: usize, kind: usize) {
    let mut st = Stack::<u64>::new::<u64>();
    let mut q = Queue::<u64>::new::<u64>();
    let mut mn = MinPriorityQueue::<i64>::new::<i64>();
    let mut mx = MaxPriorityQueue::<i64>::new::<i64>();
    let mut model: Vec<u64> = vec![];
    let at = [0, k / 2, k - 1][sx::choose(3)];
    let mut pops = 0;
    for i in 0..k {
        let x = if kind < 2 || i == at { sx::u64v() } else { (i as u64 * 37) % 101 * 10 };
        model.push(x);
        match kind {
            0 => st.push(x),
            1 => q.push(x),
            2 => mn.push(x as i64),
            _ => mx.push(x as i64),
        }
        let n = if i + 1 == k { k } else { (i % 3 == 2 && pops < h) as usize };
        for _ in 0..n {
            if model.is_empty() {
                break;
            }
            pops += 1;
            let got = match kind {
                0 => st.pop(),
                1 => q.pop(),
                2 => mn.pop().map(|x| x as u64),
                _ => mx.pop().map(|x| x as u64),
            };
            match got {
                None => {
                    sx::check(false, "pop returns None on a non-empty queue");
                    return;
                }
                Some(x) => {
                    let p = match kind {
                        0 => model.len() - 1,
                        1 => 0,
                        _ => {
                            let mut best = 0;
                            for i in 1..model.len() {
                                let (a, b) = (model[i] as i64, model[best] as i64);
                                if (kind == 2 && a < b) || (kind == 3 && a > b) {
                                    best = i;
                                }
                            }
                            best
                        }
                    };
                    sx::check(model[p] == x, "pop returns the wrong element");
                    model.remove(p);
                }
            }
        }
    }
    let rest = match kind {
        0 => st.pop().is_none(),
        1 => q.pop().is_none(),
        2 => mn.pop().is_none(),
        _ => mx.pop().is_none(),
    };
    sx::check(rest, "pop returns a value on an empty queue");
    sx::cover(1);
}
/// scored paths leave the priority queues by score, none is lost or invented
fn scored(k: usize, min: bool) {
    let mut mn = MinPriorityQueue::<ScoredPath>::new::<ScoredPath>();
    let mut mx = MaxPriorityQueue::<ScoredPath>::new::<ScoredPath>();
    let mut sc = vec![];
    for i in 0..k {
        let s = sx::u64v() as i64;
        sc.push(s);
        let p = ScoredPath { path: Path::from(&vec![v(i as u64)]), score: s };
        if min {
            mn.push(p)
        } else {
            mx.push(p)
        }
    }
    let mut seen = vec![false; k];
    let mut last: Option<i64> = None;
    for _ in 0..k {
        match if min { mn.pop() } else { mx.pop() } {
            None => sx::check(false, "an element was lost"),
            Some(p) => {
                let i = p.path.first().unwrap().0 as usize;
                sx::check(i < k && !seen[i], "an element was repeated");
                seen[i] = true;
                sx::check(p.score == sc[i], "an element was altered");
                if let Some(l) = last {
                    sx::check(if min { l <= p.score } else { l >= p.score }, "elements do not leave in score order");
                }
                last = Some(p.score);
            }
        }
    }
    sx::check(if min { mn.pop() } else { mx.pop() }.is_none(), "an element was invented");
    sx::cover(0);
}

// ---------------------------------------------------------------- attributes
fn vertex_attr(k: usize) {
    let mut m = no_vertex_mapping::<u64>();
    let mut model: Vec<(u64, u64)> = vec![];
    for _ in 0..k {
        let op = sx::choose(3);
        let a = sx::u64v();
        let pos = model.iter().position(|x| x.0 == a);
        match op {
            0 => {
                let x = sx::u64v();
                let r = AttributeCommand::<u64>::apply_vertex_command_to(AddVertexAttr(v(a), x), &mut m);
                sx::check(r, "adding an attribute reports success");
                match pos {
                    Some(i) => model[i].1 = x,
                    None => model.push((a, x)),
                }
            }
            1 => {
                let r = AttributeCommand::<u64>::apply_vertex_command_to(RemoveVertexAttr(v(a)), &mut m);
                sx::check(r == pos.is_some(), "removing reports whether an attribute was there");
                if let Some(i) = pos {
                    model.remove(i);
                }
            }
            _ => {
                // edge commands do not touch vertex attributes
                let b = sx::u64v();
                let r = AttributeCommand::<u64>::apply_vertex_command_to(
                    if sx::choose(2) == 0 { AddEdgeAttr(v(a), v(b), 1) } else { RemoveEdgeAttr(v(a), v(b)) },
                    &mut m,
                );
                sx::check(!r, "an edge command applies to a vertex mapping");
            }
        }
    }
    let d = sx::u64v();
    let q = sx::u64v();
    let want = model.iter().find(|x| x.0 == q).map(|x| x.1);
    let f = m.as_closure();
    sx::check(f(&v(q)).map(|x| *x) == want, "the mapping returns the last value added for a vertex");
    let g = m.as_closure_with_defaults(&d);
    sx::check(*g(&v(q)) == want.unwrap_or(d), "the default is returned only for a vertex with no attribute");
    sx::cover(if want.is_some() { 0 } else { 1 });
}
fn edge_attr(k: usize) {
    let mut m: EdgeAttrMapping<u64> = no_edge_mapping::<u64>();
    let mut model: Vec<(u64, u64, u64)> = vec![];
    for _ in 0..k {
        let op = sx::choose(3);
        let (a, b) = (sx::u64v(), sx::u64v());
        let pos = model.iter().position(|x| x.0 == a && x.1 == b);
        match op {
            0 => {
                let x = sx::u64v();
                AttributeCommand::<u64>::apply_edge_commands_to(vec![AddEdgeAttr(v(a), v(b), x)], &mut m);
                match pos {
                    Some(i) => model[i].2 = x,
                    None => model.push((a, b, x)),
                }
            }
            1 => {
                let r = AttributeCommand::<u64>::apply_edge_command_to(RemoveEdgeAttr(v(a), v(b)), &mut m);
                sx::check(r == pos.is_some(), "removing reports whether an attribute was there");
                if let Some(i) = pos {
                    model.remove(i);
                }
            }
            _ => {
                let r = AttributeCommand::<u64>::apply_edge_command_to(
                    if sx::choose(2) == 0 { AddVertexAttr(v(a), 1) } else { RemoveVertexAttr(v(a)) },
                    &mut m,
                );
                sx::check(!r, "a vertex command applies to an edge mapping");
            }
        }
    }
    let d = sx::u64v();
    let (p, q) = (sx::u64v(), sx::u64v());
    let want = model.iter().find(|x| x.0 == p && x.1 == q).map(|x| x.2);
    let f = m.as_closure();
    let key: Edge = Edge::from((v(p), v(q)));
    sx::check(f(&key).map(|x| *x) == want, "the mapping returns the last value added for an edge");
    let g = m.as_closure_with_defaults(&d);
    sx::check(*g(&key) == want.unwrap_or(d), "the default is returned only for an edge with no attribute");
    sx::cover(if want.is_some() { 0 } else { 1 });
}
fn vertex_list(k: usize) {
    // a list of commands is applied in order
    let mut m = no_vertex_mapping::<u64>();
    let mut l = vec![];
    let mut model: Vec<(u64, u64)> = vec![];
    for _ in 0..k {
        let a = sx::u64v();
        let pos = model.iter().position(|x| x.0 == a);
        if sx::choose(2) == 0 {
            let x = sx::u64v();
            l.push(AddVertexAttr(v(a), x));
            match pos {
                Some(i) => model[i].1 = x,
                None => model.push((a, x)),
            }
        } else {
            l.push(RemoveVertexAttr(v(a)));
            if let Some(i) = pos {
                model.remove(i);
            }
        }
    }
    AttributeCommand::<u64>::apply_vertex_commands_to(l, &mut m);
    let q = sx::u64v();
    let want = model.iter().find(|x| x.0 == q).map(|x| x.1);
    sx::check(m.as_closure()(&v(q)).map(|x| *x) == want, "commands are applied in order");
    sx::cover(0);
}
fn edge_list(k: usize) {
    // a list of commands is applied in order
    let mut m = no_edge_mapping::<u64>();
    let mut l = vec![];
    let mut model: Vec<(u64, u64, u64)> = vec![];
    for _ in 0..k {
        let (a, b) = (sx::u64v(), sx::u64v());
        let pos = model.iter().position(|x| x.0 == a && x.1 == b);
        if sx::choose(2) == 0 {
            let x = sx::u64v();
            l.push(AddEdgeAttr(v(a), v(b), x));
            match pos {
                Some(i) => model[i].2 = x,
                None => model.push((a, b, x)),
            }
        } else {
            l.push(RemoveEdgeAttr(v(a), v(b)));
            if let Some(i) = pos {
                model.remove(i);
            }
        }
    }
    AttributeCommand::<u64>::apply_edge_commands_to(l, &mut m);
    let (p, q) = (sx::u64v(), sx::u64v());
    let key: Edge = Edge::from((v(p), v(q)));
    let want = model.iter().find(|x| x.0 == p && x.1 == q).map(|x| x.2);
    sx::check(m.as_closure()(&key).map(|x| *x) == want, "commands are applied in order");
    sx::cover(0);
}
/// many entries, one of them arbitrary, and one arbitrary removal
fn attr_long(k: usize) {
    let mut m = no_vertex_mapping::<u64>();
    let mut n: EdgeAttrMapping<u64> = no_edge_mapping::<u64>();
    let mut vm: Vec<(u64, u64)> = vec![];
    let mut em: Vec<(u64, u64, u64)> = vec![];
    let at = [0, k / 2, k - 1][sx::choose(3)];
    let (mut cv, mut ce) = (vec![], vec![]);
    for i in 0..k {
        let (a, b) = if i == at { (sx::u64v(), sx::u64v()) } else { ((i * 7 % 31) as u64, (i * 5 % 29) as u64) };
        let x = sx::u64v();
        cv.push(AddVertexAttr(v(a), x));
        ce.push(AddEdgeAttr(v(a), v(b), x));
        match vm.iter().position(|z| z.0 == a) {
            Some(i) => vm[i].1 = x,
            None => vm.push((a, x)),
        }
        match em.iter().position(|z| z.0 == a && z.1 == b) {
            Some(i) => em[i].2 = x,
            None => em.push((a, b, x)),
        }
    }
    AttributeCommand::<u64>::apply_vertex_commands_to(cv, &mut m);
    AttributeCommand::<u64>::apply_edge_commands_to(ce, &mut n);
    let (a, b) = (7, 5);
    let pv = vm.iter().position(|z| z.0 == a);
    let pe = em.iter().position(|z| z.0 == a && z.1 == b);
    sx::check(AttributeCommand::<u64>::apply_vertex_command_to(RemoveVertexAttr(v(a)), &mut m) == pv.is_some(), "removing reports whether an attribute was there");
    sx::check(AttributeCommand::<u64>::apply_edge_command_to(RemoveEdgeAttr(v(a), v(b)), &mut n) == pe.is_some(), "removing reports whether an attribute was there");
    if let Some(i) = pv {
        vm.remove(i);
    }
    if let Some(i) = pe {
        em.remove(i);
    }
    let (p, q) = if sx::choose(2) == 0 { (sx::u64v(), sx::u64v()) } else { (5, 7) };
    let want = vm.iter().find(|x| x.0 == p).map(|x| x.1);
    sx::check(m.as_closure()(&v(p)).map(|x| *x) == want, "the mapping returns the last value added for a vertex");
    let want = em.iter().find(|x| x.0 == p && x.1 == q).map(|x| x.2);
    let key: Edge = Edge::from((v(p), v(q)));
    sx::check(n.as_closure()(&key).map(|x| *x) == want, "the mapping returns the last value added for an edge");
    sx::cover(if want.is_some() { 0 } else { 1 });
}
harness! {
    c26_long => { sx::order(0); attr_long(40) };
    c19_long_st => { long(80, 8, 0) };
    c19_long_q => { long(80, 8, 1) };
    c19_long_min => { long(76, 6, 2) };
    c19_long_max => { long(76, 6, 3) };
    c19_stack => pushes_pops(7, 0);
    c19_queue => pushes_pops(7, 1);
    c19_min => pushes_pops(5, 2);
    c19_max => pushes_pops(5, 3);
    c19_min7 => pushes_pops(7, 2);
    c19_max7 => pushes_pops(7, 3);
    c19_scored_min => scored(5, true);
    c19_scored_max => scored(5, false);
    c19_scored_min6 => scored(6, true);
    c19_scored_max6 => scored(6, false);
    x_fp => { fp() };
    c26_vertex => { sx::order(2); vertex_attr(3) };
    c26_edge => { sx::order(2); edge_attr(3) };
    c26_elist3 => { sx::order(0); edge_list(3) };
    c26_elist4 => { sx::order(0); edge_list(4) };
    c26_list => { sx::order(2); vertex_list(4) };
    c26_vertex5 => { sx::order(0); vertex_attr(5) };
    c26_edge4 => { sx::order(0); edge_attr(4) };
}

// ---------------------------------------------------------------- the engine's own float encoding
/// symbolic conversions and comparisons agree with the concrete ones (a test of the engine, run by
/// hand: tools/m.sh core 60 x_fp)
fn fp() {
    let c = [0u64, 1, 0xff_ffff, 0x1ff_ffff, 0x3ff_fffe, 0x1f_ffff_ffff_fffc, 0x3f_ffff_ffff_fffe, 0x7fff_ffff_ffff_fffc, 0xffff_ff7f_ffff_fffc, 0xffff_ffff_ffff_fffc, 1 << 40, (1 << 60) + (1 << 36)];
    let b = c[sx::choose(c.len())];
    let k = [4u64, 1 << 36, 1 << 10][sx::choose(3)];
    let y = sx::upto(3);
    let x = b ^ (y * k);
    let mut t = [0u32; 4];
    let mut u = [0u64; 4];
    let mut p = [0u32; 4];
    let mut q = [0u64; 4];
    for i in 0..4u64 {
        let z = b ^ (i * k);
        t[i as usize] = (z as f32).to_bits();
        u[i as usize] = (z as f64).to_bits();
        p[i as usize] = (z as i64 as f32).to_bits();
        q[i as usize] = (z as i64 as f64).to_bits();
    }
    let (a, bb, cc, d) = ((x as f32).to_bits(), (x as f64).to_bits(), (x as i64 as f32).to_bits(), (x as i64 as f64).to_bits());
    for i in 0..4u64 {
        let z = b ^ (i * k);
        let lt = (x as i64 as f32) < (b as i64 as f32);
        let ge = (x as f64) >= (b as f64);
        let rel = (z as i64 as f32) < (b as i64 as f32);
        let reg = (z as f64) >= (b as f64);
        let j = i as usize;
        sx::check(!(y == i) | ((a == t[j]) & (bb == u[j]) & (cc == p[j]) & (d == q[j]) & (lt == rel) & (ge == reg)), "float encoding");
    }
    sx::cover(0);
}
