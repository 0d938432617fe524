//! Comparison up to anonymous names, observation, and small builders.
use crate::sym;
use dot_structures::*;

pub fn eq_id(a: &Id, b: &Id) -> bool {
    match (a, b) {
        (Id::Html(x), Id::Html(y)) | (Id::Escaped(x), Id::Escaped(y)) | (Id::Plain(x), Id::Plain(y)) => x == y,
        (Id::Anonymous(_), Id::Anonymous(_)) => true,
        _ => false,
    }
}
pub fn eq_port(a: &Option<Port>, b: &Option<Port>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(Port(i, d)), Some(Port(j, e))) => {
            d == e
                && match (i, j) {
                    (None, None) => true,
                    (Some(i), Some(j)) => eq_id(i, j),
                    _ => false,
                }
        }
        _ => false,
    }
}
pub fn eq_node_id(a: &NodeId, b: &NodeId) -> bool {
    eq_id(&a.0, &b.0) && eq_port(&a.1, &b.1)
}
pub fn eq_attr(a: &Attribute, b: &Attribute) -> bool {
    eq_id(&a.0, &b.0) && eq_id(&a.1, &b.1)
}
pub fn eq_attrs(a: &[Attribute], b: &[Attribute]) -> bool {
    a.len() == b.len() && (0..a.len()).all(|i| eq_attr(&a[i], &b[i]))
}
pub fn eq_vertex(a: &Vertex, b: &Vertex) -> bool {
    match (a, b) {
        (Vertex::N(x), Vertex::N(y)) => eq_node_id(x, y),
        (Vertex::S(x), Vertex::S(y)) => eq_sub(x, y),
        _ => false,
    }
}
pub fn eq_sub(a: &Subgraph, b: &Subgraph) -> bool {
    eq_id(&a.id, &b.id) && eq_stmts(&a.stmts, &b.stmts)
}
pub fn eq_stmts(a: &[Stmt], b: &[Stmt]) -> bool {
    a.len() == b.len() && (0..a.len()).all(|i| eq_stmt(&a[i], &b[i]))
}
pub fn eq_stmt(a: &Stmt, b: &Stmt) -> bool {
    match (a, b) {
        (Stmt::Node(x), Stmt::Node(y)) => eq_node_id(&x.id, &y.id) && eq_attrs(&x.attributes, &y.attributes),
        (Stmt::Subgraph(x), Stmt::Subgraph(y)) => eq_sub(x, y),
        (Stmt::Attribute(x), Stmt::Attribute(y)) => eq_attr(x, y),
        (Stmt::GAttribute(x), Stmt::GAttribute(y)) => match (x, y) {
            (GraphAttributes::Graph(x), GraphAttributes::Graph(y))
            | (GraphAttributes::Node(x), GraphAttributes::Node(y))
            | (GraphAttributes::Edge(x), GraphAttributes::Edge(y)) => eq_attrs(x, y),
            _ => false,
        },
        (Stmt::Edge(x), Stmt::Edge(y)) => {
            eq_attrs(&x.attributes, &y.attributes)
                && match (&x.ty, &y.ty) {
                    (EdgeTy::Pair(a, b), EdgeTy::Pair(c, d)) => eq_vertex(a, c) && eq_vertex(b, d),
                    (EdgeTy::Chain(a), EdgeTy::Chain(b)) => {
                        a.len() == b.len() && (0..a.len()).all(|i| eq_vertex(&a[i], &b[i]))
                    }
                    _ => false,
                }
        }
        _ => false,
    }
}
pub fn parts(g: &Graph) -> (bool, bool, &Id, &Vec<Stmt>) {
    match g {
        Graph::Graph { id, strict, stmts } => (false, *strict, id, stmts),
        Graph::DiGraph { id, strict, stmts } => (true, *strict, id, stmts),
    }
}
pub fn eq_graph(a: &Graph, b: &Graph) -> bool {
    let (d1, s1, i1, b1) = parts(a);
    let (d2, s2, i2, b2) = parts(b);
    d1 == d2 && s1 == s2 && eq_id(i1, i2) && eq_stmts(b1, b2)
}
pub fn mk(di: bool, strict: bool, id: Id, stmts: Vec<Stmt>) -> Graph {
    if di {
        Graph::DiGraph { id, strict, stmts }
    } else {
        Graph::Graph { id, strict, stmts }
    }
}

pub fn plain(s: &str) -> Id {
    Id::Plain(s.to_string())
}
pub fn anon() -> Id {
    Id::Anonymous(String::new())
}
pub fn utf8(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}
pub fn st(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}

fn o_id(i: &Id) {
    match i {
        Id::Html(s) | Id::Escaped(s) | Id::Plain(s) => sym::observe(s.as_bytes()),
        Id::Anonymous(_) => sym::observe(b"?"),
    }
    sym::observe(b" ");
}
fn o_attrs(a: &[Attribute]) {
    for x in a {
        o_id(&x.0);
        o_id(&x.1);
    }
    sym::observe(b"]");
}
fn o_node(n: &NodeId) {
    o_id(&n.0);
    if let Some(Port(i, d)) = &n.1 {
        if let Some(i) = i {
            o_id(i)
        }
        if let Some(d) = d {
            sym::observe(b":");
            sym::observe(d.as_bytes());
        }
    }
}
fn o_vertex(v: &Vertex) {
    match v {
        Vertex::N(n) => o_node(n),
        Vertex::S(s) => {
            o_id(&s.id);
            o_stmts(&s.stmts)
        }
    }
}
fn o_stmts(v: &[Stmt]) {
    for s in v {
        match s {
            Stmt::Node(n) => {
                o_node(&n.id);
                o_attrs(&n.attributes)
            }
            Stmt::Subgraph(s) => {
                o_id(&s.id);
                o_stmts(&s.stmts)
            }
            Stmt::Attribute(a) => {
                o_id(&a.0);
                o_id(&a.1)
            }
            Stmt::GAttribute(g) => match g {
                GraphAttributes::Graph(a) => o_attrs(a),
                GraphAttributes::Node(a) => o_attrs(a),
                GraphAttributes::Edge(a) => o_attrs(a),
            },
            Stmt::Edge(e) => {
                match &e.ty {
                    EdgeTy::Pair(a, b) => {
                        o_vertex(a);
                        o_vertex(b)
                    }
                    EdgeTy::Chain(v) => {
                        for x in v {
                            o_vertex(x)
                        }
                    }
                }
                o_attrs(&e.attributes)
            }
        }
        sym::observe(b";");
    }
    sym::observe(b"}");
}
/// Feeds the whole graph (but no anonymous name) to the observation hash.
pub fn observe_graph(g: &Graph) {
    let (d, s, i, b) = parts(g);
    sym::observe(&[d as u8, s as u8]);
    o_id(i);
    o_stmts(b);
}

pub enum Outcome {
    Agree(Graph),
    BothReject,
}
/// The parser and the reference parser must agree on `doc`.
pub fn differential(doc: &[u8]) -> Outcome {
    let r = graphviz_rust::parse(utf8(doc));
    let e = crate::refp::parse(doc);
    match (r, e) {
        (Ok(g), Some(x)) => {
            observe_graph(&g);
            sym::check(eq_graph(&g, &x), "parsed graph differs from the document");
            sym::cover(1);
            Outcome::Agree(g)
        }
        (Err(m), None) => {
            sym::observe(m.as_bytes());
            sym::cover(2);
            Outcome::BothReject
        }
        (Ok(_), None) => sym::fail("a text that is not a document was accepted"),
        (Err(_), Some(_)) => sym::fail("a document was rejected"),
    }
}
pub fn accepted(doc: &[u8]) -> Graph {
    match differential(doc) {
        Outcome::Agree(g) => g,
        Outcome::BothReject => sym::fail("the carrier document is not in the language"),
    }
}
/// A symbolic ASCII byte.
pub fn ascii() -> u8 {
    let mut b = [0u8];
    sym::bytes(&mut b);
    sym::assume(b[0] < 0x80);
    b[0]
}
pub fn byte() -> u8 {
    let mut b = [0u8];
    sym::bytes(&mut b);
    b[0]
}
/// A symbolic byte out of an inclusive range.
pub fn range(lo: u8, hi: u8) -> u8 {
    let b = byte();
    sym::assume(b >= lo && b <= hi);
    b
}
pub fn cat(parts: &[&[u8]]) -> Vec<u8> {
    let mut v = Vec::with_capacity(64);
    for p in parts {
        v.extend_from_slice(p)
    }
    v
}
/// `n` symbolic ASCII bytes.
pub fn window(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    sym::bytes(&mut v);
    for x in &v {
        sym::assume(*x < 0x80);
    }
    v
}
/// `n` symbolic bytes that are well-formed UTF-8.
pub fn utf8_window(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    sym::bytes(&mut v);
    sym::assume(std::str::from_utf8(&v).is_ok());
    v
}

/// Exact text of a value, anonymous names included (injective).
pub struct Show(pub Vec<u8>);
impl Show {
    fn tag(&mut self, t: &[u8]) {
        self.0.extend_from_slice(t)
    }
    fn text(&mut self, t: &str) {
        self.0.push(t.len() as u8);
        self.0.push((t.len() >> 8) as u8);
        self.0.extend_from_slice(t.as_bytes())
    }
    pub fn id(&mut self, i: &Id) {
        let (t, s) = match i {
            Id::Html(s) => (b"H", s),
            Id::Escaped(s) => (b"E", s),
            Id::Plain(s) => (b"P", s),
            Id::Anonymous(s) => (b"A", s),
        };
        self.tag(t);
        self.text(s)
    }
    pub fn port(&mut self, p: &Port) {
        match &p.0 {
            Some(i) => self.id(i),
            None => self.tag(b"-"),
        }
        match &p.1 {
            Some(d) => self.text(d),
            None => self.tag(b"--"),
        }
    }
    pub fn node_id(&mut self, n: &NodeId) {
        self.id(&n.0);
        match &n.1 {
            Some(p) => {
                self.tag(b":");
                self.port(p)
            }
            None => self.tag(b"."),
        }
    }
    pub fn attr(&mut self, a: &Attribute) {
        self.id(&a.0);
        self.id(&a.1)
    }
    pub fn attrs(&mut self, v: &[Attribute]) {
        self.tag(b"[");
        self.0.push(v.len() as u8);
        for a in v {
            self.attr(a)
        }
    }
    pub fn gattrs(&mut self, g: &GraphAttributes) {
        let (t, v) = match g {
            GraphAttributes::Graph(v) => (b"g", v),
            GraphAttributes::Node(v) => (b"n", v),
            GraphAttributes::Edge(v) => (b"e", v),
        };
        self.tag(t);
        self.attrs(v)
    }
    pub fn vertex(&mut self, v: &Vertex) {
        match v {
            Vertex::N(n) => {
                self.tag(b"N");
                self.node_id(n)
            }
            Vertex::S(s) => {
                self.tag(b"S");
                self.sub(s)
            }
        }
    }
    pub fn node(&mut self, n: &Node) {
        self.node_id(&n.id);
        self.attrs(&n.attributes)
    }
    pub fn edge(&mut self, e: &Edge) {
        match &e.ty {
            EdgeTy::Pair(a, b) => {
                self.tag(b"2");
                self.vertex(a);
                self.vertex(b)
            }
            EdgeTy::Chain(v) => {
                self.tag(b"C");
                self.0.push(v.len() as u8);
                for x in v {
                    self.vertex(x)
                }
            }
        }
        self.attrs(&e.attributes)
    }
    pub fn sub(&mut self, s: &Subgraph) {
        self.id(&s.id);
        self.stmts(&s.stmts)
    }
    pub fn stmts(&mut self, v: &[Stmt]) {
        self.tag(b"{");
        self.0.push(v.len() as u8);
        for s in v {
            self.stmt(s)
        }
    }
    pub fn stmt(&mut self, s: &Stmt) {
        match s {
            Stmt::Node(n) => {
                self.tag(b"n");
                self.node(n)
            }
            Stmt::Subgraph(s) => {
                self.tag(b"s");
                self.sub(s)
            }
            Stmt::Attribute(a) => {
                self.tag(b"a");
                self.attr(a)
            }
            Stmt::GAttribute(g) => {
                self.tag(b"g");
                self.gattrs(g)
            }
            Stmt::Edge(e) => {
                self.tag(b"e");
                self.edge(e)
            }
        }
    }
    pub fn graph(&mut self, g: &Graph) {
        let (d, s, i, b) = parts(g);
        self.0.push(d as u8);
        self.0.push(s as u8);
        self.id(i);
        self.stmts(b)
    }
}
/// The exact text of any value.
#[macro_export]
macro_rules! show {
    ($f:ident $e:expr) => {{
        let mut s = $crate::util::Show(Vec::with_capacity(256));
        s.$f(&$e);
        s.0
    }};
}

/// A size past the usual limits.
pub fn big() -> usize {
    [33, 65, 101, 129, 257, 1025][crate::sym::pick(6)]
}
/// `n` bytes, all `c` but one or two symbolic letters.
pub fn fill(n: usize, c: u8) -> Vec<u8> {
    let mut v = vec![c; n];
    v[n / 2] = range(b'a', b'z');
    v[n - 1] = range(b'a', b'z');
    v
}
