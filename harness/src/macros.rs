//! C20: every form of the construction macros against the structure written
//! out by hand.
use crate::show;
use crate::sym;
use crate::util::*;
use dot_structures::*;
use graphviz_rust::dot_generator::*;

/// A symbolic text of up to two bytes.
fn t() -> String {
    let n = sym::pick(3);
    st(utf8_window(n))
}
/// One symbolic byte.
fn c() -> String {
    st(vec![range(b'!', b'~')])
}
fn p(s: &str) -> Id {
    Id::Plain(s.to_string())
}
fn e(s: &str) -> Id {
    Id::Escaped(["\"", s, "\""].concat())
}
fn h(s: &str) -> Id {
    Id::Html(s.to_string())
}
fn none() -> Id {
    Id::Anonymous(String::new())
}
fn at(a: Id, b: Id) -> Attribute {
    Attribute(a, b)
}
fn nd(i: Id, q: Option<Port>, attributes: Vec<Attribute>) -> Node {
    Node { id: NodeId(i, q), attributes }
}
fn sg(id: Id, stmts: Vec<Stmt>) -> Subgraph {
    Subgraph { id, stmts }
}
fn same(a: Vec<u8>, b: Vec<u8>) {
    sym::observe(&a);
    sym::check(a == b, "the macro builds something else");
}
fn pr(a: Vertex, b: Vertex, attributes: Vec<Attribute>) -> Edge {
    Edge { ty: EdgeTy::Pair(a, b), attributes }
}
fn ch(v: Vec<Vertex>, attributes: Vec<Attribute>) -> Edge {
    Edge { ty: EdgeTy::Chain(v), attributes }
}
fn n(i: Id) -> Vertex {
    Vertex::N(NodeId(i, None))
}

entries! {
    h_c20_q_id {
        let x = t();
        match sym::pick(6) {
            0 => same(show!(id id!()), show!(id none())),
            1 => same(show!(id id!(x)), show!(id p(&x))),
            2 => same(show!(id id!(&x[..])), show!(id p(&x))),
            3 => same(show!(id id!(esc x)), show!(id e(&x))),
            4 => same(show!(id id!(html x)), show!(id h(&x))),
            _ => same(show!(id id!(html &x)), show!(id h(&x))),
        }
    }
    h_c20_q_id_values {
        // contents that are not text
        let b = byte();
        match sym::pick(5) {
            0 => same(show!(id id!(b)), show!(id p(&b.to_string()))),
            1 => same(show!(id id!(b as i64 - 100)), show!(id p(&(b as i64 - 100).to_string()))),
            2 => { let x = sym::pick(2) == 1; same(show!(id id!(x)), show!(id p(if x { "true" } else { "false" }))) }
            3 => same(show!(id id!(esc b)), show!(id e(&b.to_string()))),
            _ => same(show!(id id!(0.5)), show!(id p("0.5"))),
        }
    }
    h_c20_q_port {
        let (x, y) = (t(), t());
        let i = [p(&x), e(&x), h(&x), none()][sym::pick(4)].clone();
        match sym::pick(5) {
            0 => same(show!(port port!()), show!(port Port(None, None))),
            1 => same(show!(port port!(, y)), show!(port Port(None, Some(y.clone())))),
            2 => same(show!(port port!(i.clone(), y)), show!(port Port(Some(i.clone()), Some(y.clone())))),
            3 => same(show!(port port!(i.clone())), show!(port Port(Some(i.clone()), None))),
            _ => same(show!(port port!(id!(x), "ne")), show!(port Port(Some(p(&x)), Some("ne".to_string())))),
        }
    }
    h_c20_q_node_id {
        let x = t();
        let q = [Port(None, Some(x.clone())), Port(Some(p(&x)), None), Port(Some(e("q")), Some("n".to_string())), Port(None, None)][sym::pick(4)].clone();
        let (g, w) = match sym::pick(7) {
            0 => (node_id!(), NodeId(none(), None)),
            1 => (node_id!(x), NodeId(p(&x), None)),
            2 => (node_id!(x, q.clone()), NodeId(p(&x), Some(q))),
            3 => (node_id!(esc x), NodeId(e(&x), None)),
            4 => (node_id!(html x), NodeId(h(&x), None)),
            5 => (node_id!(esc x, q.clone()), NodeId(e(&x), Some(q))),
            _ => (node_id!(html x, q.clone()), NodeId(h(&x), Some(q))),
        };
        same(show!(node_id g), show!(node_id w));
    }
    h_c20_q_attr {
        let (x, y) = (t(), t());
        let (g, w) = match sym::pick(10) {
            0 => (attr!(x, y), at(p(&x), p(&y))),
            1 => (attr!(esc x, y), at(e(&x), p(&y))),
            2 => (attr!(html x, y), at(h(&x), p(&y))),
            3 => (attr!(x, esc y), at(p(&x), e(&y))),
            4 => (attr!(x, html y), at(p(&x), h(&y))),
            5 => (attr!(esc x, esc y), at(e(&x), e(&y))),
            6 => (attr!(esc x, html y), at(e(&x), h(&y))),
            7 => (attr!(html x, esc y), at(h(&x), e(&y))),
            8 => (attr!(html x, html y), at(h(&x), h(&y))),
            _ => (attr!("color", y), at(p("color"), p(&y))),
        };
        same(show!(attr g), show!(attr w));
    }
    h_c20_q_attrs {
        let x = c();
        let (a, b, d) = (at(p(&x), p("1")), at(e("k"), p(&x)), at(p("z"), h(&x)));
        let v = vec![a.clone(), b.clone(), d.clone()];
        let (g, w) = match sym::pick(13) {
            0 => (attrs!(), GraphAttributes::Graph(vec![])),
            1 => (attrs!(graph v.clone()), GraphAttributes::Graph(v)),
            2 => (attrs!(node v.clone()), GraphAttributes::Node(v)),
            3 => (attrs!(edge v.clone()), GraphAttributes::Edge(v)),
            4 => (attrs!(graph; a.clone()), GraphAttributes::Graph(vec![a])),
            5 => (attrs!(node; a.clone()), GraphAttributes::Node(vec![a])),
            6 => (attrs!(edge; a.clone()), GraphAttributes::Edge(vec![a])),
            7 => (attrs!(graph; a.clone(), b.clone(), d.clone()), GraphAttributes::Graph(v)),
            8 => (attrs!(node; a.clone(), b.clone(), d.clone()), GraphAttributes::Node(v)),
            9 => (attrs!(edge; a.clone(), b.clone(), d.clone()), GraphAttributes::Edge(v)),
            10 => (attrs!(edge; a.clone(), a.clone()), GraphAttributes::Edge(vec![a.clone(), a])),
            11 => (attrs!(graph vec![]), GraphAttributes::Graph(vec![])),
            _ => (attrs!(node; d.clone(), attr!(x, "q"), d.clone(), b.clone()), GraphAttributes::Node(vec![d.clone(), at(p(&x), p("q")), d, b])),
        };
        same(show!(gattrs g), show!(gattrs w));
    }
    h_c20_q_node {
        let x = t();
        let (a, b) = (at(p("a"), p("1")), at(p("b"), e("2")));
        let v = vec![b.clone(), a.clone()];
        let (g, w) = match sym::pick(14) {
            0 => (node!(), nd(none(), None, vec![])),
            1 => (node!(x), nd(p(&x), None, vec![])),
            2 => (node!(esc x), nd(e(&x), None, vec![])),
            3 => (node!(html x), nd(h(&x), None, vec![])),
            4 => (node!(x, v.clone()), nd(p(&x), None, v)),
            5 => (node!(esc x, v.clone()), nd(e(&x), None, v)),
            6 => (node!(html x, v.clone()), nd(h(&x), None, v)),
            7 => (node!(x; a.clone()), nd(p(&x), None, vec![a])),
            8 => (node!(x; a.clone(), b.clone(), a.clone()), nd(p(&x), None, vec![a.clone(), b, a])),
            9 => (node!(esc x; a.clone()), nd(e(&x), None, vec![a])),
            10 => (node!(html x; a.clone(), b.clone(), b.clone()), nd(h(&x), None, vec![a, b.clone(), b])),
            11 => (node!(esc x; b.clone(), a.clone(), b.clone()), nd(e(&x), None, vec![b.clone(), a, b])),
            12 => (node!(x, vec![]), nd(p(&x), None, vec![])),
            _ => (node!(html x; attr!(esc x, x)), nd(h(&x), None, vec![at(e(&x), p(&x))])),
        };
        same(show!(node g), show!(node w));
    }
    h_c20_q_node_port {
        let (x, y) = (t(), c());
        let (a, b) = (at(p("a"), p("1")), at(p("b"), e("2")));
        let v = vec![b.clone(), a.clone()];
        let q = || Port(Some(p(&y)), Some("n".to_string()));
        let (g, w) = match sym::pick(10) {
            0 => (node!(x => port!(id!(y), "n"), v.clone()), nd(p(&x), Some(q()), v)),
            1 => (node!(esc x => port!(id!(y), "n"), v.clone()), nd(e(&x), Some(q()), v)),
            2 => (node!(html x => port!(id!(y), "n"), v.clone()), nd(h(&x), Some(q()), v)),
            3 => (node!(x => q(); a.clone()), nd(p(&x), Some(q()), vec![a])),
            4 => (node!(esc x => q(); a.clone()), nd(e(&x), Some(q()), vec![a])),
            5 => (node!(html x => q(); a.clone()), nd(h(&x), Some(q()), vec![a])),
            6 => (node!(x => q(); a.clone(), b.clone(), a.clone()), nd(p(&x), Some(q()), vec![a.clone(), b, a])),
            7 => (node!(esc x => q(); a.clone(), b.clone(), a.clone()), nd(e(&x), Some(q()), vec![a.clone(), b, a])),
            8 => (node!(html x => port!(, y); b.clone(), a.clone()), nd(h(&x), Some(Port(None, Some(y.clone()))), vec![b, a])),
            _ => (node!(x => port!(id!(esc y)); b.clone(), a.clone()), nd(p(&x), Some(Port(Some(e(&y)), None)), vec![b, a])),
        };
        same(show!(node g), show!(node w));
    }
    h_c20_q_edge_pair {
        let (x, y) = (t(), c());
        let (a, b) = (at(p("a"), p("1")), at(p("b"), e("2")));
        let v = vec![b.clone(), a.clone()];
        let s = || sg(p(&y), vec![Stmt::Node(nd(p(&y), None, vec![]))]);
        let (g, w) = match sym::pick(10) {
            0 => (edge!(node_id!(x) => node_id!(y)), pr(n(p(&x)), n(p(&y)), vec![])),
            1 => (edge!(node_id!(esc x) => s()), pr(n(e(&x)), Vertex::S(s()), vec![])),
            2 => (edge!(s() => node_id!(html x)), pr(Vertex::S(s()), n(h(&x)), vec![])),
            3 => (edge!(s() => subgraph!()), pr(Vertex::S(s()), Vertex::S(sg(none(), vec![])), vec![])),
            4 => (edge!(node_id!(x) => node_id!(y), v.clone()), pr(n(p(&x)), n(p(&y)), v)),
            5 => (edge!(s() => node_id!(y), v.clone()), pr(Vertex::S(s()), n(p(&y)), v)),
            6 => (edge!(node_id!(x) => node_id!(y); a.clone()), pr(n(p(&x)), n(p(&y)), vec![a])),
            7 => (edge!(node_id!(x) => s(); a.clone(), b.clone(), a.clone()), pr(n(p(&x)), Vertex::S(s()), vec![a.clone(), b, a])),
            8 => (edge!(node_id!(x, port!(, y)) => node_id!(y); b.clone(), a.clone()), pr(Vertex::N(NodeId(p(&x), Some(Port(None, Some(y.clone()))))), n(p(&y)), v)),
            _ => (edge!(node_id!(x) => node_id!(x), vec![]), pr(n(p(&x)), n(p(&x)), vec![])),
        };
        same(show!(edge g), show!(edge w));
    }
    h_c20_q_edge_chain {
        let (x, y) = (t(), c());
        let (a, b) = (at(p("a"), p("1")), at(p("b"), e("2")));
        let v = vec![b.clone(), a.clone()];
        let s = || sg(p(&y), vec![Stmt::Node(nd(p(&y), None, vec![]))]);
        let three = vec![n(p(&x)), Vertex::S(s()), n(p(&y))];
        let five = vec![n(p(&x)), n(p(&y)), Vertex::S(s()), n(e(&x)), n(p("z"))];
        let (g, w) = match sym::pick(9) {
            0 => (edge!(node_id!(x) => s() => node_id!(y)), ch(three, vec![])),
            1 => (edge!(node_id!(x) => node_id!(y) => s() => node_id!(esc x) => node_id!("z")), ch(five, vec![])),
            2 => (edge!(node_id!(x) => s() => node_id!(y), v.clone()), ch(three, v)),
            3 => (edge!(node_id!(x) => node_id!(y) => s() => node_id!(esc x) => node_id!("z"), v.clone()), ch(five, v)),
            4 => (edge!(node_id!(x) => s() => node_id!(y); a.clone()), ch(three, vec![a])),
            5 => (edge!(node_id!(x) => s() => node_id!(y); a.clone(), b.clone(), b.clone()), ch(three, vec![a, b.clone(), b])),
            6 => (edge!(node_id!(x) => node_id!(y) => s() => node_id!(esc x) => node_id!("z"); b.clone(), a.clone()), ch(five, v)),
            7 => (edge!(subgraph!() => subgraph!(y) => subgraph!(esc x)), ch(vec![Vertex::S(sg(none(), vec![])), Vertex::S(sg(p(&y), vec![])), Vertex::S(sg(e(&x), vec![]))], vec![])),
            _ => (edge!(node_id!(x) => node_id!(y) => node_id!(x) => node_id!(y), vec![a.clone()]), ch(vec![n(p(&x)), n(p(&y)), n(p(&x)), n(p(&y))], vec![a])),
        };
        same(show!(edge g), show!(edge w));
    }
    h_c20_q_stmt {
        let x = t();
        let (g, w) = match sym::pick(8) {
            0 => (stmt!(node!(x)), Stmt::Node(nd(p(&x), None, vec![]))),
            1 => (stmt!(subgraph!(esc x)), Stmt::Subgraph(sg(e(&x), vec![]))),
            2 => (stmt!(attr!(x, html x)), Stmt::Attribute(at(p(&x), h(&x)))),
            3 => (stmt!(attrs!(edge; attr!(x, "1"))), Stmt::GAttribute(GraphAttributes::Edge(vec![at(p(&x), p("1"))]))),
            4 => (stmt!(edge!(node_id!(x) => node_id!("b"))), Stmt::Edge(pr(n(p(&x)), n(p("b")), vec![]))),
            5 => (stmt!(stmt!(node!(x))), Stmt::Node(nd(p(&x), None, vec![]))),
            6 => (stmt!(GraphAttributes::new("node", vec![attr!(x, x)])), Stmt::GAttribute(GraphAttributes::Node(vec![at(p(&x), p(&x))]))),
            _ => (stmt!(edge!(node_id!(x) => subgraph!(x), vec![attr!(esc "k", x)])), Stmt::Edge(pr(n(p(&x)), Vertex::S(sg(p(&x), vec![])), vec![at(e("k"), p(&x))]))),
        };
        same(show!(stmt g), show!(stmt w));
    }
    h_c20_q_subgraph {
        let x = t();
        let all = || vec![Stmt::Node(nd(p("a"), None, vec![])), Stmt::Attribute(at(p(&x), p("1"))), Stmt::Subgraph(sg(none(), vec![])), Stmt::Edge(pr(n(p("a")), n(p(&x)), vec![])), Stmt::GAttribute(GraphAttributes::Node(vec![]))];
        let (g, w) = match sym::pick(14) {
            0 => (subgraph!(), sg(none(), vec![])),
            1 => (subgraph!(x), sg(p(&x), vec![])),
            2 => (subgraph!(esc x), sg(e(&x), vec![])),
            3 => (subgraph!(html x), sg(h(&x), vec![])),
            4 => (subgraph!(x, all()), sg(p(&x), all())),
            5 => (subgraph!(esc x, all()), sg(e(&x), all())),
            6 => (subgraph!(html x, all()), sg(h(&x), all())),
            7 => (subgraph!(x; node!("a")), sg(p(&x), all()[..1].to_vec())),
            8 => (subgraph!(x; node!("a"), attr!(x, "1"), subgraph!(), edge!(node_id!("a") => node_id!(x)), attrs!(node vec![])), sg(p(&x), all())),
            9 => (subgraph!(esc x; node!("a"), attr!(x, "1"), subgraph!(), edge!(node_id!("a") => node_id!(x)), attrs!(node vec![])), sg(e(&x), all())),
            10 => (subgraph!(html x; node!("a"), attr!(x, "1"), subgraph!()), sg(h(&x), all()[..3].to_vec())),
            11 => (subgraph!(; node!("a"), attr!(x, "1"), subgraph!(), edge!(node_id!("a") => node_id!(x)), attrs!(node vec![])), sg(none(), all())),
            12 => (subgraph!(; attr!(x, "1")), sg(none(), all()[1..2].to_vec())),
            _ => (subgraph!(esc x; subgraph!(x; subgraph!(; node!("a")))), sg(e(&x), vec![Stmt::Subgraph(sg(p(&x), vec![Stmt::Subgraph(sg(none(), vec![Stmt::Node(nd(p("a"), None, vec![]))]))]))])),
        };
        same(show!(sub g), show!(sub w));
    }
    h_c20_q_graph {
        let x = t();
        let i = [p(&x), e(&x), h(&x), none()][sym::pick(4)].clone();
        let all = || vec![Stmt::Node(nd(p("a"), None, vec![])), Stmt::Attribute(at(p("k"), p("1"))), Stmt::Edge(pr(n(p("a")), n(p("b")), vec![])), Stmt::Subgraph(sg(none(), vec![])), Stmt::GAttribute(GraphAttributes::Edge(vec![]))];
        let di = sym::pick(2) == 1;
        let strict = sym::pick(2) == 1;
        let k = sym::pick(5);
        let j = i.clone();
        let g = match (di, strict, k) {
            (false, false, 0) => graph!(j),
            (false, true, 0) => graph!(strict j),
            (true, false, 0) => graph!(di j),
            (true, true, 0) => graph!(strict di j),
            (false, false, 1) => graph!(j, all()),
            (false, true, 1) => graph!(strict j, all()),
            (true, false, 1) => graph!(di j, all()),
            (true, true, 1) => graph!(strict di j, all()),
            (false, false, 2) => graph!(j; node!("a"), attr!("k", "1"), edge!(node_id!("a") => node_id!("b")), subgraph!(), attrs!(edge vec![])),
            (false, true, 2) => graph!(strict j; node!("a"), attr!("k", "1"), edge!(node_id!("a") => node_id!("b")), subgraph!(), attrs!(edge vec![])),
            (true, false, 2) => graph!(di j; node!("a"), attr!("k", "1"), edge!(node_id!("a") => node_id!("b")), subgraph!(), attrs!(edge vec![])),
            (true, true, 2) => graph!(strict di j; node!("a"), attr!("k", "1"), edge!(node_id!("a") => node_id!("b")), subgraph!(), attrs!(edge vec![])),
            (false, false, 4) => graph!(j, vec![]),
            (false, true, 4) => graph!(strict j, Vec::<Stmt>::new()),
            (true, false, 4) => graph!(di j, Vec::<Stmt>::new()),
            (true, true, 4) => graph!(strict di j, Vec::<Stmt>::new()),
            (false, false, _) => graph!(j; node!("a")),
            (false, true, _) => graph!(strict j; node!("a")),
            (true, false, _) => graph!(di j; node!("a")),
            (true, true, _) => graph!(strict di j; node!("a")),
        };
        let s = match k { 0 | 4 => vec![], 3 => all()[..1].to_vec(), _ => all() };
        same(show!(graph g), show!(graph mk(di, strict, i, s)));
    }
    h_c20_q_graph_ids {
        // the identifier macro inside the graph macro, and symbolic statements
        let (x, y) = (t(), c());
        let (g, w) = match sym::pick(8) {
            0 => (graph!(id!(x)), mk(false, false, p(&x), vec![])),
            1 => (graph!(di id!(esc x)), mk(true, false, e(&x), vec![])),
            2 => (graph!(strict id!(html x)), mk(false, true, h(&x), vec![])),
            3 => (graph!(strict di id!()), mk(true, true, none(), vec![])),
            4 => (graph!(di id!(x); node!(y), node!(x)), mk(true, false, p(&x), vec![Stmt::Node(nd(p(&y), None, vec![])), Stmt::Node(nd(p(&x), None, vec![]))])),
            5 => (graph!(strict id!(esc x), vec![stmt!(attr!(y, x)), stmt!(node!(x))]), mk(false, true, e(&x), vec![Stmt::Attribute(at(p(&y), p(&x))), Stmt::Node(nd(p(&x), None, vec![]))])),
            6 => (graph!(id!(); subgraph!(x; node!(y))), mk(false, false, none(), vec![Stmt::Subgraph(sg(p(&x), vec![Stmt::Node(nd(p(&y), None, vec![]))]))])),
            _ => (graph!(strict di id!(x); edge!(node_id!(y) => node_id!(x) => node_id!(y); attr!(x, y))), mk(true, true, p(&x), vec![Stmt::Edge(ch(vec![n(p(&y)), n(p(&x)), n(p(&y))], vec![at(p(&x), p(&y))]))])),
        };
        same(show!(graph g), show!(graph w));
    }
    h_c20_q_once {
        // every argument is evaluated exactly once
        let n = std::cell::Cell::new(0u8);
        let x = c();
        let i = || { n.set(n.get() + 1); p(&x) };
        let v = || { n.set(n.get() + 1); &x[..] };
        let a = || { n.set(n.get() + 1); at(p("a"), p("b")) };
        let q = || { n.set(n.get() + 1); Port(None, None) };
        let d = || { n.set(n.get() + 1); NodeId(p("n"), None) };
        let w = || { n.set(n.get() + 1); vec![at(p("a"), p("b"))] };
        let s = || { n.set(n.get() + 1); nd(p("n"), None, vec![]) };
        let t = || { n.set(n.get() + 1); vec![Stmt::Node(nd(p("n"), None, vec![]))] };
        let g = || { n.set(n.get() + 1); sg(p("n"), vec![]) };
        let k = match sym::pick(96) {
            0 => { let _ = id!(&v()); 1 }
            1 => { let _ = id!(esc v()); 1 }
            2 => { let _ = id!(html v()); 1 }
            3 => { let _ = port!(i(), &v()); 2 }
            4 => { let _ = port!(, &v()); 1 }
            5 => { let _ = port!(i()); 1 }
            6 => { let _ = node_id!(&v()); 1 }
            7 => { let _ = node_id!(esc v()); 1 }
            8 => { let _ = node_id!(html v()); 1 }
            9 => { let _ = node_id!(&v(), q()); 2 }
            10 => { let _ = node_id!(esc v(), q()); 2 }
            11 => { let _ = node_id!(html v(), q()); 2 }
            12 => { let _ = attr!(&v(), &v()); 2 }
            13 => { let _ = attr!(esc v(), &v()); 2 }
            14 => { let _ = attr!(html v(), &v()); 2 }
            15 => { let _ = attr!(&v(), esc v()); 2 }
            16 => { let _ = attr!(&v(), html v()); 2 }
            17 => { let _ = attr!(esc v(), esc v()); 2 }
            18 => { let _ = attr!(esc v(), html v()); 2 }
            19 => { let _ = attr!(html v(), esc v()); 2 }
            20 => { let _ = attr!(html v(), html v()); 2 }
            21 => { let _ = attrs!(graph w()); 1 }
            22 => { let _ = attrs!(node w()); 1 }
            23 => { let _ = attrs!(edge w()); 1 }
            24 => { let _ = attrs!(graph; a(), a(), a()); 3 }
            25 => { let _ = attrs!(node; a(), a(), a()); 3 }
            26 => { let _ = attrs!(edge; a(), a()); 2 }
            27 => { let _ = attrs!(graph; a()); 1 }
            28 => { let _ = attrs!(node; a()); 1 }
            29 => { let _ = attrs!(edge; a()); 1 }
            30 => { let _ = node!(&v()); 1 }
            31 => { let _ = node!(&v(), w()); 2 }
            32 => { let _ = node!(&v(); a()); 2 }
            33 => { let _ = node!(&v(); a(), a()); 3 }
            34 => { let _ = node!(&v() => q(), w()); 3 }
            35 => { let _ = node!(&v() => q(); a()); 3 }
            36 => { let _ = node!(&v() => q(); a(), a()); 4 }
            37 => { let _ = node!(esc v()); 1 }
            38 => { let _ = node!(esc v(), w()); 2 }
            39 => { let _ = node!(esc v(); a()); 2 }
            40 => { let _ = node!(esc v(); a(), a()); 3 }
            41 => { let _ = node!(esc v() => q(), w()); 3 }
            42 => { let _ = node!(esc v() => q(); a()); 3 }
            43 => { let _ = node!(esc v() => q(); a(), a()); 4 }
            44 => { let _ = node!(html v()); 1 }
            45 => { let _ = node!(html v(), w()); 2 }
            46 => { let _ = node!(html v(); a()); 2 }
            47 => { let _ = node!(html v(); a(), a()); 3 }
            48 => { let _ = node!(html v() => q(), w()); 3 }
            49 => { let _ = node!(html v() => q(); a()); 3 }
            50 => { let _ = node!(html v() => q(); a(), a()); 4 }
            51 => { let _ = edge!(d() => d()); 2 }
            52 => { let _ = edge!(d() => g()); 2 }
            53 => { let _ = edge!(d() => d(), w()); 3 }
            54 => { let _ = edge!(d() => d(); a()); 3 }
            55 => { let _ = edge!(d() => d(); a(), a()); 4 }
            56 => { let _ = edge!(d() => d() => d()); 3 }
            57 => { let _ = edge!(d() => g() => d() => d()); 4 }
            58 => { let _ = edge!(d() => d() => d(), w()); 4 }
            59 => { let _ = edge!(d() => d() => d() => g(), w()); 5 }
            60 => { let _ = edge!(d() => d() => d(); a()); 4 }
            61 => { let _ = edge!(d() => d() => d(); a(), a()); 5 }
            62 => { let _ = edge!(d() => d() => d() => d(); a(), a(), a()); 7 }
            63 => { let _ = stmt!(s()); 1 }
            64 => { let _ = stmt!(a()); 1 }
            65 => { let _ = stmt!(g()); 1 }
            66 => { let _ = subgraph!(&v()); 1 }
            67 => { let _ = subgraph!(&v(), t()); 2 }
            68 => { let _ = subgraph!(&v(); s()); 2 }
            69 => { let _ = subgraph!(&v(); s(), a(), g()); 4 }
            70 => { let _ = subgraph!(esc v()); 1 }
            71 => { let _ = subgraph!(esc v(), t()); 2 }
            72 => { let _ = subgraph!(esc v(); s()); 2 }
            73 => { let _ = subgraph!(esc v(); s(), a(), g()); 4 }
            74 => { let _ = subgraph!(html v()); 1 }
            75 => { let _ = subgraph!(html v(), t()); 2 }
            76 => { let _ = subgraph!(html v(); s()); 2 }
            77 => { let _ = subgraph!(html v(); s(), a(), g()); 4 }
            78 => { let _ = subgraph!(; s()); 1 }
            79 => { let _ = subgraph!(; s(), s()); 2 }
            80 => { let _ = graph!(i()); 1 }
            81 => { let _ = graph!(i(), t()); 2 }
            82 => { let _ = graph!(i(); s()); 2 }
            83 => { let _ = graph!(i(); s(), a(), g()); 4 }
            84 => { let _ = graph!(di i()); 1 }
            85 => { let _ = graph!(di i(), t()); 2 }
            86 => { let _ = graph!(di i(); s()); 2 }
            87 => { let _ = graph!(di i(); s(), a(), g()); 4 }
            88 => { let _ = graph!(strict i()); 1 }
            89 => { let _ = graph!(strict i(), t()); 2 }
            90 => { let _ = graph!(strict i(); s()); 2 }
            91 => { let _ = graph!(strict i(); s(), a(), g()); 4 }
            92 => { let _ = graph!(strict di i()); 1 }
            93 => { let _ = graph!(strict di i(), t()); 2 }
            94 => { let _ = graph!(strict di i(); s()); 2 }
            _ => { let _ = graph!(strict di i(); s(), a(), g()); 4 }
        };
        sym::observe(&[n.get()]);
        sym::check(n.get() == k, "an argument is evaluated more or less than once");
    }
    h_c20_q_texts {
        // longer texts of any ASCII bytes
        let x = st(window([3, 5, 8, 11][sym::pick(4)]));
        let y = c();
        match sym::pick(14) {
            0 => same(show!(id id!(x)), show!(id p(&x))),
            1 => same(show!(id id!(esc x)), show!(id e(&x))),
            2 => same(show!(id id!(html x)), show!(id h(&x))),
            3 => same(show!(node node!(esc x; attr!(x, html x))), show!(node nd(e(&x), None, vec![at(p(&x), h(&x))]))),
            4 => same(show!(sub subgraph!(html x; node!(x))), show!(sub sg(h(&x), vec![Stmt::Node(nd(p(&x), None, vec![]))]))),
            5 => same(show!(sub subgraph!(x)), show!(sub sg(p(&x), vec![]))),
            6 => same(show!(graph graph!(strict di id!(x); node!(x), node!(y))), show!(graph mk(true, true, p(&x), vec![Stmt::Node(nd(p(&x), None, vec![])), Stmt::Node(nd(p(&y), None, vec![]))]))),
            7 => same(show!(node_id node_id!(x, port!(id!(y), x))), show!(node_id NodeId(p(&x), Some(Port(Some(p(&y)), Some(x.clone())))))),
            8 => same(show!(attr attr!(x, esc x)), show!(attr at(p(&x), e(&x)))),
            9 => same(show!(attr attr!(esc y, x)), show!(attr at(e(&y), p(&x)))),
            10 => same(show!(node node!(x)), show!(node nd(p(&x), None, vec![]))),
            11 => same(show!(node node!(html x)), show!(node nd(h(&x), None, vec![]))),
            12 => same(show!(edge edge!(node_id!(x) => node_id!(esc x); attr!(y, x))), show!(edge pr(n(p(&x)), n(e(&x)), vec![at(p(&y), p(&x))]))),
            _ => same(show!(graph graph!(di id!(esc x), vec![stmt!(subgraph!(x)), stmt!(attr!(x, y))])), show!(graph mk(true, false, e(&x), vec![Stmt::Subgraph(sg(p(&x), vec![])), Stmt::Attribute(at(p(&x), p(&y)))]))),
        }
    }
    h_c20_q_empty {
        // empty vectors in every form that takes one
        let x = c();
        let q = || Port(Some(p(&x)), None);
        match sym::pick(15) {
            0 => same(show!(gattrs attrs!(graph vec![])), show!(gattrs GraphAttributes::Graph(vec![]))),
            1 => same(show!(gattrs attrs!(node vec![])), show!(gattrs GraphAttributes::Node(vec![]))),
            2 => same(show!(gattrs attrs!(edge vec![])), show!(gattrs GraphAttributes::Edge(vec![]))),
            3 => same(show!(node node!(x, vec![])), show!(node nd(p(&x), None, vec![]))),
            4 => same(show!(node node!(esc x, vec![])), show!(node nd(e(&x), None, vec![]))),
            5 => same(show!(node node!(html x, vec![])), show!(node nd(h(&x), None, vec![]))),
            6 => same(show!(node node!(x => q(), vec![])), show!(node nd(p(&x), Some(q()), vec![]))),
            7 => same(show!(node node!(esc x => q(), vec![])), show!(node nd(e(&x), Some(q()), vec![]))),
            8 => same(show!(node node!(html x => q(), vec![])), show!(node nd(h(&x), Some(q()), vec![]))),
            9 => same(show!(edge edge!(node_id!(x) => subgraph!(), vec![])), show!(edge pr(n(p(&x)), Vertex::S(sg(none(), vec![])), vec![]))),
            10 => same(show!(edge edge!(node_id!(x) => node_id!(x) => node_id!(x), vec![])), show!(edge ch(vec![n(p(&x)), n(p(&x)), n(p(&x))], vec![]))),
            11 => same(show!(sub subgraph!(x, vec![])), show!(sub sg(p(&x), vec![]))),
            12 => same(show!(sub subgraph!(esc x, vec![])), show!(sub sg(e(&x), vec![]))),
            13 => same(show!(sub subgraph!(html x, vec![])), show!(sub sg(h(&x), vec![]))),
            _ => same(show!(stmt stmt!(attrs!(node vec![]))), show!(stmt Stmt::GAttribute(GraphAttributes::Node(vec![])))),
        }
    }
    h_c20_q_long_lists {
        // many arguments
        let x = c();
        let b = |k: &str| at(p(k), p(&x));
        let m = |k: &str| Stmt::Node(nd(p(k), None, vec![]));
        match sym::pick(6) {
            0 => same(show!(gattrs attrs!(edge; b("0"), b("1"), b("2"), b("3"), b("4"), b("5"), b("6"), b("7"), b("8"), b("9"))), show!(gattrs GraphAttributes::Edge(["0", "1", "2", "3", "4", "5", "6", "7", "8", "9"].iter().map(|k| b(k)).collect()))),
            1 => same(show!(node node!(x; b("0"), b("1"), b("2"), b("3"), b("4"), b("5"), b("6"))), show!(node nd(p(&x), None, ["0", "1", "2", "3", "4", "5", "6"].iter().map(|k| b(k)).collect()))),
            2 => same(show!(edge edge!(node_id!("0") => node_id!("1") => node_id!("2") => node_id!("3") => node_id!("4") => node_id!("5") => node_id!("6") => node_id!(x); b("0"), b("1"), b("2"), b("3"))), show!(edge ch(["0", "1", "2", "3", "4", "5", "6", &x].iter().map(|k| n(p(k))).collect(), ["0", "1", "2", "3"].iter().map(|k| b(k)).collect()))),
            3 => same(show!(sub subgraph!(x; node!("0"), node!("1"), node!("2"), node!("3"), node!("4"), node!("5"), node!("6"))), show!(sub sg(p(&x), ["0", "1", "2", "3", "4", "5", "6"].iter().map(|k| m(k)).collect()))),
            4 => same(show!(graph graph!(di id!(x); node!("0"), node!("1"), node!("2"), node!("3"), node!("4"), node!("5"), node!("6"))), show!(graph mk(true, false, p(&x), ["0", "1", "2", "3", "4", "5", "6"].iter().map(|k| m(k)).collect()))),
            _ => same(show!(graph graph!(strict id!(x); node!("0"), node!("1"), node!("2"), node!("3"), node!("4"), node!("5"), node!("6"))), show!(graph mk(false, true, p(&x), ["0", "1", "2", "3", "4", "5", "6"].iter().map(|k| m(k)).collect()))),
        }
    }
    h_c20_q_big {
        // long texts, long lists given as one argument
        let m = big();
        let x = st(fill(m, [b'x', b' ', b'"', b'\n'][sym::pick(4)]));
        let av = || (0..m).map(|i| at(p(if i + 1 == m { &x } else { "k" }), p("v"))).collect::<Vec<Attribute>>();
        let sv = || (0..m).map(|i| Stmt::Node(nd(p(if i + 1 == m { &x } else { "k" }), None, vec![]))).collect::<Vec<Stmt>>();
        match sym::pick(16) {
            0 => same(show!(id id!(x)), show!(id p(&x))),
            1 => same(show!(id id!(esc x)), show!(id e(&x))),
            2 => same(show!(id id!(html x)), show!(id h(&x))),
            3 => same(show!(node_id node_id!(x, port!(id!(esc x), x))), show!(node_id NodeId(p(&x), Some(Port(Some(e(&x)), Some(x.clone())))))),
            4 => same(show!(attr attr!(x, esc x)), show!(attr at(p(&x), e(&x)))),
            5 => same(show!(attr attr!(html x, x)), show!(attr at(h(&x), p(&x)))),
            6 => same(show!(gattrs attrs!(graph av())), show!(gattrs GraphAttributes::Graph(av()))),
            7 => same(show!(gattrs attrs!(node av())), show!(gattrs GraphAttributes::Node(av()))),
            8 => same(show!(gattrs attrs!(edge av())), show!(gattrs GraphAttributes::Edge(av()))),
            9 => same(show!(node node!(esc x, av())), show!(node nd(e(&x), None, av()))),
            10 => same(show!(node node!(x => port!(, x), av())), show!(node nd(p(&x), Some(Port(None, Some(x.clone()))), av()))),
            11 => same(show!(edge edge!(node_id!(x) => node_id!("b"), av())), show!(edge pr(n(p(&x)), n(p("b")), av()))),
            12 => same(show!(edge edge!(node_id!(x) => node_id!("b") => node_id!(esc x), av())), show!(edge ch(vec![n(p(&x)), n(p("b")), n(e(&x))], av()))),
            13 => same(show!(sub subgraph!(html x, sv())), show!(sub sg(h(&x), sv()))),
            14 => same(show!(graph graph!(strict di id!(esc x), sv())), show!(graph mk(true, true, e(&x), sv()))),
            _ => same(show!(graph graph!(id!(x), sv())), show!(graph mk(false, false, p(&x), sv()))),
        }
    }
    h_c20_q_big_lists {
        // more arguments
        let x = c();
        let b = |k: &str| at(p(k), p(&x));
        let k: Vec<String> = (0..24).map(|i: usize| i.to_string()).collect();
        let m = || k.iter().map(|k| Stmt::Node(nd(p(k), None, vec![]))).collect::<Vec<Stmt>>();
        let a = || k.iter().map(|k| b(k)).collect::<Vec<Attribute>>();
        match sym::pick(9) {
            0 => same(show!(gattrs attrs!(graph; b("0"), b("1"), b("2"), b("3"), b("4"), b("5"), b("6"), b("7"), b("8"), b("9"), b("10"), b("11"), b("12"), b("13"), b("14"), b("15"), b("16"), b("17"), b("18"), b("19"), b("20"), b("21"), b("22"), b("23"))), show!(gattrs GraphAttributes::Graph(a()))),
            1 => same(show!(gattrs attrs!(node; b("0"), b("1"), b("2"), b("3"), b("4"), b("5"), b("6"), b("7"), b("8"), b("9"), b("10"), b("11"), b("12"), b("13"), b("14"), b("15"), b("16"), b("17"), b("18"), b("19"), b("20"), b("21"), b("22"), b("23"))), show!(gattrs GraphAttributes::Node(a()))),
            2 => same(show!(node node!(x; b("0"), b("1"), b("2"), b("3"), b("4"), b("5"), b("6"), b("7"), b("8"), b("9"), b("10"), b("11"), b("12"), b("13"), b("14"), b("15"), b("16"), b("17"), b("18"), b("19"), b("20"), b("21"), b("22"), b("23"))), show!(node nd(p(&x), None, a()))),
            3 => same(show!(node node!(html x => port!(, x); b("0"), b("1"), b("2"), b("3"), b("4"), b("5"), b("6"), b("7"), b("8"), b("9"), b("10"), b("11"), b("12"), b("13"), b("14"), b("15"), b("16"), b("17"), b("18"), b("19"), b("20"), b("21"), b("22"), b("23"))), show!(node nd(h(&x), Some(Port(None, Some(x.clone()))), a()))),
            4 => same(show!(edge edge!(node_id!(x) => node_id!("b"); b("0"), b("1"), b("2"), b("3"), b("4"), b("5"), b("6"), b("7"), b("8"), b("9"), b("10"), b("11"), b("12"), b("13"), b("14"), b("15"), b("16"), b("17"), b("18"), b("19"), b("20"), b("21"), b("22"), b("23"))), show!(edge pr(n(p(&x)), n(p("b")), a()))),
            5 => same(show!(edge edge!(node_id!("0") => node_id!("1") => node_id!("2") => node_id!("3") => node_id!("4") => node_id!("5") => node_id!("6") => node_id!("7") => node_id!("8") => node_id!("9") => node_id!("10") => node_id!("11") => node_id!("12") => node_id!("13") => node_id!("14") => node_id!("15") => node_id!("16") => node_id!("17") => node_id!("18") => node_id!("19") => node_id!("20") => node_id!("21") => node_id!("22") => node_id!("23") => node_id!(x); b("0"), b("1"), b("2"), b("3"), b("4"), b("5"), b("6"), b("7"), b("8"), b("9"), b("10"), b("11"), b("12"), b("13"), b("14"), b("15"), b("16"), b("17"), b("18"), b("19"), b("20"), b("21"), b("22"), b("23"))), show!(edge ch(k.iter().map(|k| n(p(k))).chain([n(p(&x))]).collect(), a()))),
            6 => same(show!(sub subgraph!(; node!("0"), node!("1"), node!("2"), node!("3"), node!("4"), node!("5"), node!("6"), node!("7"), node!("8"), node!("9"), node!("10"), node!("11"), node!("12"), node!("13"), node!("14"), node!("15"), node!("16"), node!("17"), node!("18"), node!("19"), node!("20"), node!("21"), node!("22"), node!("23"))), show!(sub sg(none(), m()))),
            7 => same(show!(graph graph!(strict di id!(x); node!("0"), node!("1"), node!("2"), node!("3"), node!("4"), node!("5"), node!("6"), node!("7"), node!("8"), node!("9"), node!("10"), node!("11"), node!("12"), node!("13"), node!("14"), node!("15"), node!("16"), node!("17"), node!("18"), node!("19"), node!("20"), node!("21"), node!("22"), node!("23"))), show!(graph mk(true, true, p(&x), m()))),
            _ => same(show!(graph graph!(id!(html x); node!("0"), node!("1"), node!("2"), node!("3"), node!("4"), node!("5"), node!("6"), node!("7"), node!("8"), node!("9"), node!("10"), node!("11"), node!("12"), node!("13"), node!("14"), node!("15"), node!("16"), node!("17"), node!("18"), node!("19"), node!("20"), node!("21"), node!("22"), node!("23"))), show!(graph mk(false, false, h(&x), m()))),
        }
    }
    h_c20_t_texts {
        let x = st(utf8_window(5));
        match sym::pick(5) {
            0 => same(show!(id id!(x)), show!(id p(&x))),
            1 => same(show!(id id!(esc x)), show!(id e(&x))),
            2 => same(show!(id id!(html x)), show!(id h(&x))),
            3 => same(show!(node node!(esc x; attr!(x, html x))), show!(node nd(e(&x), None, vec![at(p(&x), h(&x))]))),
            _ => same(show!(sub subgraph!(html x; node!(x))), show!(sub sg(h(&x), vec![Stmt::Node(nd(p(&x), None, vec![]))]))),
        }
    }
}
