//! Combined values: each row of a covering family fixes one choice for every
//! feature (statement forms, kinds of identifiers, ports, attributes, nesting,
//! options, and for texts the spacing and optional punctuation), so that most
//! triples of choices meet somewhere in the family. Up to four identifiers of
//! a row have a symbolic letter or digit.
use crate::gen::*;
use crate::refq::Opt;
use crate::sym;
use crate::util::*;
use dot_structures::*;
use graphviz_rust::printer::PrinterContext;

pub struct Row {
    pub s: u64,
    /// symbolic characters and statements still to be placed
    pub symbolic: usize,
    /// how many of them may be whole words instead
    pub words: usize,
    pub room: usize,
}
/// One of `n` (a multiple of 128) rows; `family` tells the families apart.
pub fn row(family: u64, n: usize) -> Row {
    let r = sym::pick(n / 128) * 128 + sym::pick(128);
    // printing decides nothing about letters; a parser tells words from keywords letter by letter
    let words = match family % 1000 { 213 | 215..=218 => 4, _ => (r % 4 == 0) as usize };
    Row { s: (family << 32) + r as u64 * 0x9e37_79b9, symbolic: 4, words, room: 14 }
}
impl Row {
    /// The choice for the next feature.
    pub fn f(&mut self, n: usize) -> usize {
        self.s = self.s.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        ((z ^ (z >> 31)) >> 16) as usize % n
    }
    pub fn on(&mut self) -> bool {
        self.f(2) == 1
    }
}
const P: u8 = 0;
const N: u8 = 1;
const Q: u8 = 2;
const H: u8 = 3;
/// Kind, text before and text after a symbolic character.
const IDS: [(u8, &str, &str); 30] = [
    (P, "", ""), (P, "x", ""), (P, "node", ""), (P, "_", ""), (P, "", "9_"), (P, "graph", "s"), (P, "e", ""), (P, "A_b", "C"), (P, "Sub", "graph"),
    (N, "", ""), (N, "1", ".5"), (N, "-", ""), (N, "-.", ""), (N, ".", ""), (N, "", "."), (N, "00", "7"), (N, "-1", "."),
    (Q, "\"", "\""), (Q, "\"a ", "\""), (Q, "\"\\\"", "\\\\\""), (Q, "\"/*", "*/ // #\n\""), (Q, "\"{}[];=,:->", "--\""), (Q, "\"node", "\""), (Q, "\"\u{e9}", "\u{10000}\\n\""), (Q, "\"", "\\\n<b>\""),
    (H, "<", ">"), (H, "<<b>", "</b>>"), (H, "<\"", ">"), (H, "<<i/>", " &lt;\n>"), (H, "<<a b=\"", "\"><c></c></a>;>"),
];
/// An identifier; a port's must not read as a compass point.
pub fn ident(q: &mut Row, port: bool) -> Id {
    let k = q.f(IDS.len() + 2);
    if k >= IDS.len() {
        return if q.on() { Id::Escaped("\"\"".to_string()) } else { Id::Html("<>".to_string()) };
    }
    let (mut kind, mut a, b) = IDS[k];
    if port && (a, b) == ("", "") {
        kind = P;
        a = "p"
    }
    let number = kind == N;
    let c: Vec<u8> = if q.symbolic > 0 && q.f(3) == 0 {
        q.symbolic -= 1;
        let n = if q.words > 0 { q.words -= 1; 1 + q.f(12) } else { 1 };
        (0..n).map(|_| if number { range(b'0', b'9') } else { range(b'a', b'z') }).collect()
    } else if number {
        vec![b'3']
    } else {
        vec![[b'k', b'v', b'b', b'u'][q.f(4)]]
    };
    let s = st(cat(&[a.as_bytes(), &c, b.as_bytes()]));
    no_keyword(&s);
    match kind {
        P | N => Id::Plain(s),
        Q => Id::Escaped(s),
        _ => Id::Html(s),
    }
}
pub fn attrs(q: &mut Row) -> Vec<Attribute> {
    let n = [0, 0, 1, 1, 2, 3, 6][q.f(7)];
    (0..n).map(|_| { let k = ident(q, false); attr(k, ident(q, false)) }).collect()
}
fn node_id(q: &mut Row) -> NodeId {
    let i = ident(q, false);
    match q.f(6) {
        0 => { let p = ident(q, true); NodeId(i, Some(Port(Some(p), None))) }
        1 => { let p = ident(q, true); NodeId(i, Some(Port(Some(p), Some(COMPASS[q.f(10)].to_string())))) }
        2 => NodeId(i, Some(Port(None, Some(COMPASS[q.f(10)].to_string())))),
        _ => NodeId(i, None),
    }
}
fn sub(q: &mut Row, depth: usize) -> Subgraph {
    let id = if q.on() { anon() } else { ident(q, false) };
    let n = if depth > 2 { 0 } else { q.f(4) };
    Subgraph { id, stmts: stmts(q, n, depth + 1) }
}
fn end(q: &mut Row, depth: usize) -> Vertex {
    if q.f(3) == 0 { Vertex::S(sub(q, depth)) } else { Vertex::N(node_id(q)) }
}
fn stmts(q: &mut Row, n: usize, depth: usize) -> Vec<Stmt> {
    let mut v = vec![];
    for _ in 0..n {
        if q.room == 0 { break }
        q.room -= 1;
        v.push(match q.f(9) {
            0 => { let id = node_id(q); Stmt::Node(Node { id, attributes: attrs(q) }) }
            1 => { let (a, b) = (end(q, depth), end(q, depth)); pair(a, b, attrs(q)) }
            2 => { let n = 3 + q.f(3); let e = (0..n).map(|_| end(q, depth)).collect(); chain(e, attrs(q)) }
            3 => Stmt::GAttribute(GraphAttributes::Graph(attrs(q))),
            4 => Stmt::GAttribute(GraphAttributes::Node(attrs(q))),
            5 => Stmt::GAttribute(GraphAttributes::Edge(attrs(q))),
            6 => { let k = ident(q, false); Stmt::Attribute(attr(k, ident(q, false))) }
            7 => Stmt::Subgraph(sub(q, depth)),
            _ => node(ident(q, false), vec![]),
        })
    }
    v
}
pub fn graph(q: &mut Row) -> Graph {
    let (di, strict) = (q.on(), q.on());
    let id = if q.f(3) == 0 { anon() } else { ident(q, false) };
    let n = 1 + q.f(4);
    let s = stmts(q, n, 0);
    mk(di, strict, id, s)
}
/// A context set through the builder, and what it means.
pub fn options(q: &mut Row) -> (PrinterContext, Opt) {
    let o = Opt {
        semi: q.on(),
        mult: q.on(),
        comma: q.on(),
        step: [0, 1, 2, 5, 3, 17, 33, 70][q.f(8)],
        sep: ["\n", "", " ", "\r\n", "\n\n", "\n\t\n", "\n                                 "][q.f(7)].to_string(),
        size: [0, 10, 40, 90, usize::MAX, 20, 200][q.f(7)],
    };
    (context(&o, q.on()), o)
}
pub fn context(o: &Opt, order: bool) -> PrinterContext {
    let mut c = PrinterContext::default();
    if order { c.with_inline_size(o.size).with_indent_step(o.step); }
    if o.semi { c.with_semi(); }
    if !o.comma { c.with_no_node_mult_attr_s_l_comma(); }
    if o.mult { c.with_node_mult_attr_s_l(); }
    if o.sep.is_empty() && order { c.always_inline(); } else { c.with_line_sep(o.sep.clone()); }
    if !order { c.with_inline_size(o.size).with_indent_step(o.step); }
    c
}

/// A text that stands for `g`, with the row's spacing and punctuation.
pub fn text(q: &mut Row, g: &Graph) -> Vec<u8> {
    let mut w = W { v: vec![], word: false, style: q.f(4), q };
    let (di, strict, id, body) = parts(g);
    w.gap();
    if strict { w.keyword("strict") }
    w.keyword(if di { "digraph" } else { "graph" });
    w.id(id);
    w.body(body);
    w.gap();
    w.v
}
struct W<'a> {
    v: Vec<u8>,
    /// the last token was a name, numeral, string or keyword
    word: bool,
    style: usize,
    q: &'a mut Row,
}
impl W<'_> {
    fn gap(&mut self) {
        let n = [1, 3, 8, 14][self.style];
        let s: &[u8] = [&b""[..], b" ", b"\n", b"\t ", b"\r", b"/**/", b"//x\n", b"#\r\n", b" /* \" */ ", b"/*\n}*/", b"#{\n#\n", b"// \r\n\t", b"\n\n", b"  "][self.q.f(n)];
        self.v.extend_from_slice(s)
    }
    fn tok(&mut self, t: &[u8], word: bool) {
        let n = self.v.len();
        self.gap();
        if self.v.len() == n && (word && self.word || t[0] == b'-' && self.v.last() == Some(&b'-')) {
            self.v.push(b' ')
        }
        self.v.extend_from_slice(t);
        self.word = word
    }
    fn p(&mut self, t: &str) {
        self.tok(t.as_bytes(), false)
    }
    fn keyword(&mut self, t: &str) {
        self.tok(t.as_bytes(), true)
    }
    fn id(&mut self, i: &Id) {
        match i {
            Id::Anonymous(_) => {}
            _ => self.tok(crate::refq::id(i).as_bytes(), true),
        }
    }
    fn node_id(&mut self, n: &NodeId) {
        self.id(&n.0);
        if let Some(Port(i, d)) = &n.1 {
            if let Some(i) = i { self.p(":"); self.id(i) }
            if let Some(d) = d { self.p(":"); self.tok(d.as_bytes(), true) }
        }
    }
    /// `must`: a list has to be written even if it is empty.
    fn attrs(&mut self, a: &[Attribute], must: bool) {
        if a.is_empty() && !must && self.q.f(4) > 0 { return }
        if self.q.f(6) == 0 { self.p("["); self.p("]") }
        self.p("[");
        for (i, x) in a.iter().enumerate() {
            self.id(&x.0);
            self.p("=");
            self.id(&x.1);
            match self.q.f(if i + 1 < a.len() { 6 } else { 4 }) {
                0 => self.p(","),
                1 => self.p(";"),
                4 => { self.p("]"); self.p("[") }
                5 => { self.p(","); self.p("]"); self.p("["); self.p("]"); self.p("[") }
                _ => {}
            }
        }
        self.p("]");
        if self.q.f(6) == 0 { self.p("["); self.p("]") }
    }
    fn sub(&mut self, s: &Subgraph) {
        self.keyword("subgraph");
        self.id(&s.id);
        self.body(&s.stmts)
    }
    fn end(&mut self, v: &Vertex) {
        match v {
            Vertex::N(n) => self.node_id(n),
            Vertex::S(s) => self.sub(s),
        }
    }
    fn body(&mut self, v: &[Stmt]) {
        self.p("{");
        for s in v {
            match s {
                Stmt::Node(n) => { self.node_id(&n.id); self.attrs(&n.attributes, false) }
                Stmt::Subgraph(s) => self.sub(s),
                Stmt::Attribute(a) => { self.id(&a.0); self.p("="); self.id(&a.1) }
                Stmt::GAttribute(g) => {
                    let (k, a) = match g {
                        GraphAttributes::Graph(a) => ("graph", a),
                        GraphAttributes::Node(a) => ("node", a),
                        GraphAttributes::Edge(a) => ("edge", a),
                    };
                    self.keyword(k);
                    self.attrs(a, true)
                }
                Stmt::Edge(e) => {
                    let v: Vec<&Vertex> = match &e.ty { EdgeTy::Pair(a, b) => vec![a, b], EdgeTy::Chain(v) => v.iter().collect() };
                    for (i, x) in v.iter().enumerate() {
                        if i > 0 { let op = ["--", "->"][self.q.f(2)]; self.p(op) }
                        self.end(x)
                    }
                    self.attrs(&e.attributes, false)
                }
            }
            if self.q.on() { self.p(";") }
        }
        self.p("}")
    }
}

/// `g` with every attribute and every name of a graph or subgraph replaced.
pub fn map(g: &Graph, a: &mut dyn FnMut(&Attribute) -> Attribute, n: &mut dyn FnMut(&Id) -> Id) -> Graph {
    let (di, strict, id, v) = parts(g);
    let id = n(id);
    mk(di, strict, id, map_stmts(v, a, n))
}
fn map_sub(s: &Subgraph, a: &mut dyn FnMut(&Attribute) -> Attribute, n: &mut dyn FnMut(&Id) -> Id) -> Subgraph {
    let id = n(&s.id);
    Subgraph { id, stmts: map_stmts(&s.stmts, a, n) }
}
fn map_end(v: &Vertex, a: &mut dyn FnMut(&Attribute) -> Attribute, n: &mut dyn FnMut(&Id) -> Id) -> Vertex {
    match v {
        Vertex::N(n) => Vertex::N(n.clone()),
        Vertex::S(s) => Vertex::S(map_sub(s, a, n)),
    }
}
fn map_stmts(v: &[Stmt], a: &mut dyn FnMut(&Attribute) -> Attribute, n: &mut dyn FnMut(&Id) -> Id) -> Vec<Stmt> {
    v.iter()
        .map(|s| match s {
            Stmt::Node(x) => Stmt::Node(Node { id: x.id.clone(), attributes: x.attributes.iter().map(|x| a(x)).collect() }),
            Stmt::Subgraph(s) => Stmt::Subgraph(map_sub(s, a, n)),
            Stmt::Attribute(x) => Stmt::Attribute(a(x)),
            Stmt::GAttribute(GraphAttributes::Graph(v)) => Stmt::GAttribute(GraphAttributes::Graph(v.iter().map(|x| a(x)).collect())),
            Stmt::GAttribute(GraphAttributes::Node(v)) => Stmt::GAttribute(GraphAttributes::Node(v.iter().map(|x| a(x)).collect())),
            Stmt::GAttribute(GraphAttributes::Edge(v)) => Stmt::GAttribute(GraphAttributes::Edge(v.iter().map(|x| a(x)).collect())),
            Stmt::Edge(e) => {
                let ty = match &e.ty {
                    EdgeTy::Pair(x, y) => EdgeTy::Pair(map_end(x, a, n), map_end(y, a, n)),
                    EdgeTy::Chain(v) => EdgeTy::Chain(v.iter().map(|x| map_end(x, a, n)).collect()),
                };
                Stmt::Edge(Edge { ty, attributes: e.attributes.iter().map(|x| a(x)).collect() })
            }
        })
        .collect()
}
