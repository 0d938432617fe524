//! C21: the structures: appending, conversions, equality and hashing.
use crate::gen::*;
use crate::show;
use crate::sym;
use crate::util::*;
use dot_structures::*;
use std::hash::{Hash, Hasher};

/// Records what a value feeds to its hasher.
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn fed<T: Hash>(x: &T) -> Vec<u8> {
    let mut r = Rec(Vec::with_capacity(64));
    x.hash(&mut r);
    r.0
}
fn text(n: usize) -> String {
    st(utf8_window(n))
}
fn id_of(k: usize, t: String) -> Id {
    match k {
        0 => Id::Html(t),
        1 => Id::Escaped(t),
        2 => Id::Plain(t),
        _ => Id::Anonymous(t),
    }
}
/// Any identifier with a symbolic text of up to two bytes.
fn id() -> Id {
    let k = sym::pick(4);
    let n = sym::pick(3);
    id_of(k, st(window(n)))
}
fn port() -> Option<Port> {
    if sym::pick(4) == 0 {
        return None;
    }
    let i = if sym::pick(2) == 0 { None } else { Some(id_of(sym::pick(4), st(window(1)))) };
    let n = sym::pick(2);
    let d = if sym::pick(2) == 0 { None } else { Some(st(window(n))) };
    Some(Port(i, d))
}
fn same(a: Vec<u8>, b: Vec<u8>, m: &'static str) {
    sym::observe(&a);
    sym::check(a == b, m)
}
/// Equality is equality of all parts, also after cloning.
macro_rules! equality {
    ($f:ident $a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        let e = show!($f a) == show!($f b);
        sym::cover(e as u32);
        sym::check((a == b) == e, "two values are equal exactly when their parts are");
        sym::check((a != b) != e, "two values differ exactly when their parts do");
        let c = a.clone();
        same(show!($f a), show!($f c), "a clone is another value");
    }};
}
fn stmt_with(k: usize, t: Id) -> Stmt {
    match k {
        0 => node(t, a1()),
        1 => Stmt::Node(Node { id: nid_p(plain("a"), Some(t), Some("n")), attributes: vec![] }),
        2 => node(plain("a"), vec![attr(plain("b"), t), attr(plain("c"), plain("d"))]),
        3 => Stmt::Attribute(attr(t, plain("b"))),
        4 => Stmt::GAttribute(GraphAttributes::Graph(vec![attr(t, plain("x"))])),
        5 => Stmt::GAttribute(GraphAttributes::Node(vec![attr(plain("b"), t)])),
        6 => pair(vn(t), vn(plain("b")), vec![]),
        7 => pair(vn(plain("a")), vs(t, vec![]), a1()),
        8 => chain(vec![vn(plain("a")), vn(plain("b")), vn(t)], vec![]),
        9 => subg(t, vec![node(plain("x"), vec![])]),
        10 => subg(anon(), vec![subg(plain("s"), vec![node(t, vec![])])]),
        11 => Stmt::GAttribute(GraphAttributes::Edge(vec![])),
        _ => pair(vn(plain("a")), vn(plain("b")), vec![attr(t, plain("x"))]),
    }
}
/// `w` with each letter in either case.
fn any_case(w: &str) -> String {
    st(w.bytes()
        .map(|c| {
            let b = byte();
            sym::assume(b == c || b == c.to_ascii_uppercase());
            b
        })
        .collect())
}

entries! {
    h_c21_q_display {
        // the display form of an identifier: the mark of its kind and its text
        let n = sym::pick(5);
        let t = st(utf8_window(n));
        let (i, want) = match sym::pick(4) {
            0 => (Id::Plain(t.clone()), t),
            1 => (Id::Escaped(t.clone()), ["esc ", &t].concat()),
            2 => (Id::Html(t.clone()), ["html ", &t].concat()),
            _ => (Id::Anonymous(t.clone()), ["anon ", &t].concat()),
        };
        let s = i.to_string();
        sym::observe(s.as_bytes());
        sym::check(s == want, "the display form of an identifier");
    }
    h_c21_q_append {
        // any sequence of up to three appends to a graph
        let (di, strict) = (sym::pick(2) == 1, sym::pick(2) == 1);
        let n = sym::pick(3);
        let i = id_of(sym::pick(4), st(window(1)));
        let mut g = mk(di, strict, i.clone(), if sym::pick(2) == 1 { vec![stmt(12), stmt(5)] } else { vec![] });
        let mut want = parts(&g).3.clone();
        for _ in 0..n {
            let s = stmt(sym::pick(KINDS));
            want.push(s.clone());
            g.add_stmt(s);
        }
        same(show!(graph g), show!(graph mk(di, strict, i, want)), "appending changed something else");
    }
    h_c21_q_append_subgraph {
        let n = sym::pick(3);
        let i = id_of(sym::pick(4), st(window(1)));
        let mut g = Subgraph { id: i.clone(), stmts: if sym::pick(2) == 1 { vec![stmt(12), stmt(5)] } else { vec![] } };
        let mut want = g.stmts.clone();
        for _ in 0..n {
            let s = stmt(sym::pick(KINDS));
            want.push(s.clone());
            g.add_stmt(s);
        }
        same(show!(sub g), show!(sub Subgraph { id: i, stmts: want }), "appending changed something else");
    }
    h_c21_q_combined {
        combined(121, 16384);
    }
    h_c21_t_combined {
        combined(1121, 32768);
    }
    h_c21_q_append_many {
        // the same statement may be appended again and again
        let n = 3 + sym::pick(40);
        let x = letter();
        let mut g = mk(sym::pick(2) == 1, sym::pick(2) == 1, plain("g"), vec![]);
        let mut s = Subgraph { id: plain("s"), stmts: vec![] };
        for i in 0..n {
            let k = if i % 3 == 0 { x.clone() } else { plain("y") };
            g.add_stmt(node(k.clone(), vec![]));
            s.add_stmt(if i % 2 == 0 { node(k, vec![]) } else { Stmt::Attribute(attr(k, plain("v"))) });
        }
        let want: Vec<Stmt> = (0..n).map(|i| node(if i % 3 == 0 { x.clone() } else { plain("y") }, vec![])).collect();
        same(show!(stmts *parts(&g).3), show!(stmts want), "appending lost or changed a statement");
        let want: Vec<Stmt> = (0..n).map(|i| { let k = if i % 3 == 0 { x.clone() } else { plain("y") }; if i % 2 == 0 { node(k, vec![]) } else { Stmt::Attribute(attr(k, plain("v"))) } }).collect();
        same(show!(stmts s.stmts), show!(stmts want), "appending lost or changed a statement");
    }
    h_c21_q_into_stmt {
        let s = stmt_with(sym::pick(13), id());
        let w = show!(stmt s);
        let t = match s {
            Stmt::Node(x) => Stmt::from(x),
            Stmt::Subgraph(x) => Stmt::from(x),
            Stmt::Attribute(x) => Stmt::from(x),
            Stmt::GAttribute(x) => Stmt::from(x),
            Stmt::Edge(x) => Stmt::from(x),
        };
        same(show!(stmt t), w, "a conversion changed its operand");
    }
    h_c21_q_into_kinds {
        let s = stmt(sym::pick(KINDS));
        let w = show!(stmt s);
        let t: Stmt = match s {
            Stmt::Node(x) => x.into(),
            Stmt::Subgraph(x) => x.into(),
            Stmt::Attribute(x) => x.into(),
            Stmt::GAttribute(x) => x.into(),
            Stmt::Edge(x) => x.into(),
        };
        same(show!(stmt t), w, "a conversion changed its operand");
    }
    h_c21_q_into_vertex {
        if sym::pick(2) == 0 {
            let n = NodeId(id(), port());
            let w = show!(node_id n);
            match Vertex::from(n) {
                Vertex::N(m) => same(show!(node_id m), w, "a conversion changed its operand"),
                _ => sym::fail("a node became a subgraph"),
            }
        } else {
            let k = sym::pick(KINDS);
            let s = Subgraph { id: id(), stmts: vec![stmt(k), stmt(0)] };
            let w = show!(sub s);
            match Vertex::from(s) {
                Vertex::S(m) => same(show!(sub m), w, "a conversion changed its operand"),
                _ => sym::fail("a subgraph became a node"),
            }
        }
    }
    h_c21_q_node {
        let i = NodeId(id(), port());
        let a = [vec![], a1(), a3()][sym::pick(3)].clone();
        let n = Node::new(i.clone(), a.clone());
        same(show!(node n), show!(node Node { id: i, attributes: a }), "a node with other parts");
    }
    h_c21_q_default_attributes {
        // every spelling of the three names in upper and lower case
        let k = sym::pick(3);
        let w = any_case(["graph", "node", "edge"][k]);
        let a = match sym::pick(4) { 0 => vec![], 1 => vec![attr(id(), plain("x"))], 2 => a2(), _ => a3() };
        let g = GraphAttributes::new(&w, a.clone());
        let want = match k { 0 => GraphAttributes::Graph(a), 1 => GraphAttributes::Node(a), _ => GraphAttributes::Edge(a) };
        same(show!(gattrs g), show!(gattrs want), "default attributes of another kind");
    }
    h_c21_q_hash {
        let (a, b) = (NodeId(id(), port()), NodeId(id(), port()));
        sym::assume(a == b);
        sym::cover(1);
        let (x, y) = (fed(&a), fed(&b));
        sym::observe(&x);
        sym::check(x == y, "equal values hash differently");
    }
    h_c21_q_hash_id {
        let (a, b) = (id_of(sym::pick(4), text(3)), id_of(sym::pick(4), text(3)));
        if a == b {
            sym::cover(1);
            let (x, y) = (fed(&a), fed(&b));
            sym::observe(&x);
            sym::check(x == y, "equal values hash differently");
        }
    }
    h_c21_q_hash_port {
        let p = || { let (i, d) = (sym::pick(3), sym::pick(3)); Port(if i == 0 { None } else { Some(id_of(sym::pick(4), st(window(i)))) }, if d == 0 { None } else { Some(st(window(d))) }) };
        let (a, b) = (p(), p());
        let e = show!(port a) == show!(port b);
        sym::check((a == b) == e, "two values are equal exactly when their parts are");
        if e {
            sym::cover(1);
            sym::check(fed(&a) == fed(&b), "equal values hash differently");
        }
    }
    h_c21_q_equal_id {
        equality!(id id(), id());
    }
    h_c21_q_equal_node_id {
        equality!(node_id NodeId(id_of(2, st(window(1))), port()), NodeId(id_of(2 + sym::pick(2), st(window(1))), port()));
    }
    h_c21_q_equal_stmt {
        let k = sym::pick(13);
        equality!(stmt stmt_with(k, id_of(sym::pick(4), st(window(1)))), stmt_with(k, id_of(sym::pick(4), st(window(1)))));
    }
    h_c21_q_equal_kinds {
        equality!(stmt stmt(sym::pick(KINDS)), stmt(sym::pick(KINDS)));
    }
    h_c21_q_equal_graph {
        let f = || { let (d, s, n) = (sym::pick(2) == 1, sym::pick(2) == 1, sym::pick(3)); mk(d, s, id_of(1 + sym::pick(3), st(window(1))), (0..n).map(|_| node(letter(), vec![])).collect()) };
        equality!(graph f(), f());
    }
    h_c21_q_equal_long {
        // longer texts: any bytes, equal or not
        let n = [4, 7, 12][sym::pick(3)];
        let f = || id_of(sym::pick(4), st(window(n)));
        equality!(id f(), f());
    }
    h_c21_q_hash_long {
        let n = [4, 7, 12][sym::pick(3)];
        let k = sym::pick(4);
        let (a, b) = (NodeId(id_of(k, st(window(n))), None), NodeId(id_of(k, st(window(n))), None));
        if a == b {
            sym::cover(1);
            let (x, y) = (fed(&a), fed(&b));
            sym::observe(&x);
            sym::check(x == y, "equal values hash differently");
        }
    }
    h_c21_q_equal_lists {
        // statement and attribute lists of different lengths
        let f = || { let n = sym::pick(4); Subgraph { id: plain("s"), stmts: (0..n).map(|j| node(plain("x"), (0..j).map(|_| attr(letter(), plain("v"))).collect())).collect() } };
        equality!(sub f(), f());
    }
    h_c21_q_equal_edge {
        let v = || match sym::pick(3) { 0 => vn(letter()), 1 => vs(letter(), vec![]), _ => Vertex::N(nid_p(letter(), None, Some("n"))) };
        let f = || match sym::pick(3) { 0 => pair(v(), vn(plain("b")), vec![]), 1 => chain(vec![v(), vn(plain("b"))], vec![]), _ => pair(vn(plain("b")), v(), a1()) };
        equality!(stmt f(), f());
    }
    h_c21_q_equal_orders {
        // lists with the same parts in any order
        let n = 1 + sym::pick(3);
        let k = sym::pick(5);
        let l = || plain(["a", "b", "c"][sym::pick(3)]);
        let f = || {
            let v: Vec<Id> = (0..n).map(|_| l()).collect();
            match k {
                0 => subg(plain("s"), v.into_iter().map(|i| node(i, vec![])).collect()),
                1 => node(plain("n"), v.into_iter().map(|i| attr(i, plain("v"))).collect()),
                2 => chain(v.into_iter().map(vn).collect(), vec![]),
                3 => pair(vs(anon(), v.into_iter().map(|i| Stmt::Attribute(attr(i, plain("v")))).collect()), vn(plain("x")), vec![]),
                _ => Stmt::GAttribute(GraphAttributes::Node(v.into_iter().map(|i| attr(plain("k"), i)).collect())),
            }
        };
        equality!(stmt f(), f());
    }
    h_c21_q_append_long {
        // statements whose names are words
        let n = [5, 9][sym::pick(2)];
        let (mut g, mut s) = (mk(sym::pick(2) == 1, sym::pick(2) == 1, plain("g"), vec![]), Subgraph { id: plain("s"), stmts: vec![] });
        let k = sym::pick(13);
        let a = stmt_with(k, id_of(sym::pick(4), word(n)));
        for _ in 0..2 { g.add_stmt(a.clone()); s.add_stmt(a.clone()) }
        g.add_stmt(stmt(0));
        let mut want = vec![a.clone(), a];
        same(show!(stmts s.stmts), show!(stmts want), "appending lost or changed a statement");
        let last = parts(&g).3[2].clone();
        want.push(last);
        same(show!(stmts *parts(&g).3), show!(stmts want), "appending lost or changed a statement");
    }
    h_c21_q_into_long {
        let s = stmt_with(sym::pick(13), id_of(sym::pick(4), word(7)));
        let w = show!(stmt s);
        let t = match s {
            Stmt::Node(x) => Stmt::from(x),
            Stmt::Subgraph(x) => Stmt::from(x),
            Stmt::Attribute(x) => Stmt::from(x),
            Stmt::GAttribute(x) => Stmt::from(x),
            Stmt::Edge(x) => Stmt::from(x),
        };
        same(show!(stmt t), w, "a conversion changed its operand");
    }
    h_c21_q_big {
        // hundreds of appends, long texts
        let n = big();
        let x = Id::Plain(st(fill(300, b'x')));
        let (mut g, mut s) = (mk(sym::pick(2) == 1, sym::pick(2) == 1, plain("g"), vec![]), Subgraph { id: plain("s"), stmts: vec![] });
        let k = sym::pick(3);
        let f = |i: usize| match k {
            0 => node(if i + 1 == n { x.clone() } else { plain("y") }, vec![]),
            1 => subg(if i + 1 == n { x.clone() } else { anon() }, vec![]),
            _ => pair(vn(plain("a")), vn(if i + 1 == n { x.clone() } else { plain("y") }), vec![]),
        };
        for i in 0..n { g.add_stmt(f(i)); s.add_stmt(f(i)) }
        let want: Vec<Stmt> = (0..n).map(f).collect();
        same(show!(stmts *parts(&g).3), show!(stmts want), "appending lost or changed a statement");
        same(show!(stmts s.stmts), show!(stmts want), "appending lost or changed a statement");
    }
    h_c21_q_big_parts {
        // large operands
        let n = big();
        let x = letter();
        let a: Vec<Attribute> = (0..n).map(|i| attr(plain("k"), if i + 1 == n { x.clone() } else { plain("v") })).collect();
        let b: Vec<Stmt> = a.iter().map(|a| Stmt::Attribute(a.clone())).collect();
        match sym::pick(8) {
            0 => { let i = NodeId(x, None); let m = Node::new(i.clone(), a.clone()); same(show!(node m), show!(node Node { id: i, attributes: a }), "a node with other parts") }
            1 => { let k = sym::pick(3); let g = GraphAttributes::new(["graph", "node", "edge"][k], a.clone()); let w = match k { 0 => GraphAttributes::Graph(a), 1 => GraphAttributes::Node(a), _ => GraphAttributes::Edge(a) }; same(show!(gattrs g), show!(gattrs w), "default attributes of another kind") }
            2 => { let s = subg(x, b); let w = show!(stmt s); let Stmt::Subgraph(s) = s else { return }; same(show!(stmt Stmt::from(s)), w, "a conversion changed its operand") }
            3 => { let s = node(x, a); let w = show!(stmt s); let Stmt::Node(s) = s else { return }; same(show!(stmt Stmt::from(s)), w, "a conversion changed its operand") }
            4 => { let s = chain((0..n).map(|_| vn(plain("y"))).collect(), a); let w = show!(stmt s); let Stmt::Edge(s) = s else { return }; same(show!(stmt Stmt::from(s)), w, "a conversion changed its operand") }
            5 => { let s = Subgraph { id: x, stmts: b }; let w = show!(sub s); match Vertex::from(s) { Vertex::S(m) => same(show!(sub m), w, "a conversion changed its operand"), _ => sym::fail("a subgraph became a node") } }
            6 => { let y = letter(); let mut c = a.clone(); c[n / 2] = attr(plain("k"), y); equality!(stmt node(plain("z"), a.clone()), node(plain("z"), c.clone())) }
            _ => { let (t, mut u) = (fill(n, b'x'), fill(n, b'x')); u[0] = byte(); sym::assume(u[0] < 0x80); let k = sym::pick(4); equality!(id id_of(k, st(t.clone())), id_of(k, st(u.clone()))) }
        }
    }
    h_c21_q_big_hash {
        let n = big();
        let k = sym::pick(4);
        let f = || { let mut v = fill(n, b'x'); v[0] = byte(); sym::assume(v[0] < 0x80); NodeId(id_of(k, st(v)), None) };
        let (a, b) = (f(), f());
        if a == b {
            sym::cover(1);
            let (x, y) = (fed(&a), fed(&b));
            sym::observe(&x);
            sym::check(x == y, "equal values hash differently");
        }
    }
    h_c21_t_append {
        let mut g = mk(sym::pick(2) == 1, true, anon(), vec![]);
        let mut want = vec![];
        for _ in 0..3 {
            let s = stmt(sym::pick(KINDS));
            want.push(s.clone());
            g.add_stmt(s);
        }
        same(show!(stmts *parts(&g).3), show!(stmts want), "appending changed something else");
    }
    h_c21_t_hash {
        let (a, b) = (NodeId(id_of(sym::pick(4), text(4)), port()), NodeId(id_of(sym::pick(4), text(4)), port()));
        if a == b {
            sym::check(fed(&a) == fed(&b), "equal values hash differently");
        }
    }
}

/// Graphs of a covering family: built by appending, cloned, compared with
/// themselves and with graphs that differ in one attribute, name or statement.
fn combined(family: u64, n: usize) {
    let mut q = crate::combo::row(family, n);
    let g = crate::combo::graph(&mut q);
    let (di, strict, id, body) = parts(&g);
    let mut h = mk(di, strict, id.clone(), vec![]);
    for s in body {
        h.add_stmt(s.clone());
    }
    same(show!(graph g), show!(graph h), "appending changed something else");
    sym::check(g == h && !(g != h), "equal parts, yet the graphs differ");
    let c = g.clone();
    same(show!(graph g), show!(graph c), "a clone is another value");
    sym::check(g == c, "a graph differs from its clone");
    // one attribute, or one name of a graph or subgraph, is another
    let at = q.f(12);
    let (mut k, mut m) = (0, 0);
    let (names, value) = (q.on(), q.on());
    let d = crate::combo::map(
        &g,
        &mut |a| {
            k += 1;
            if names || k != at + 1 {
                return a.clone();
            }
            let o = Id::Plain("other_text".to_string());
            if value { attr(a.0.clone(), o) } else { attr(o, a.1.clone()) }
        },
        &mut |i| {
            m += 1;
            if !names || m != at + 1 { i.clone() } else { Id::Plain("other_text".to_string()) }
        },
    );
    let e = show!(graph g) == show!(graph d);
    sym::cover(e as u32);
    sym::check((g == d) == e && (g != d) != e, "two graphs are equal exactly when their parts are");
    // one statement less, or the other kind of header
    let mut b = body.clone();
    if !b.is_empty() {
        let x = q.f(b.len());
        b.remove(x);
        sym::check(g != mk(di, strict, id.clone(), b), "graphs with different statements are equal");
    }
    sym::check(g != mk(!di, strict, id.clone(), body.clone()) && g != mk(di, !strict, id.clone(), body.clone()), "graphs with different headers are equal");
    // subgraphs and statements
    let s = Subgraph { id: id.clone(), stmts: vec![] };
    let mut s2 = s.clone();
    for x in body {
        s2.add_stmt(x.clone());
    }
    same(show!(sub s2), show!(sub Subgraph { id: id.clone(), stmts: body.clone() }), "appending changed something else");
    for x in body {
        sym::check(*x == x.clone(), "a statement differs from its clone");
    }
}
