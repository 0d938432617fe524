//! Reference printer: the documented layout, written as a stateless function
//! of the options (no mutable context), independently of `printer.rs`.
use dot_structures::*;

#[derive(Clone)]
pub struct Opt {
    pub semi: bool,
    pub mult: bool,
    pub comma: bool,
    pub step: usize,
    /// the line separator; empty when everything goes on one line
    pub sep: String,
    pub size: usize,
}
impl Opt {
    pub fn default() -> Opt {
        Opt { semi: false, mult: false, comma: true, step: 2, sep: "\n".to_string(), size: 90 }
    }
}
#[derive(Clone, Copy)]
struct At {
    /// on one line
    flat: bool,
    depth: usize,
    di: bool,
}
pub fn id(i: &Id) -> &str {
    match i {
        Id::Html(s) | Id::Escaped(s) | Id::Plain(s) => s,
        Id::Anonymous(_) => "",
    }
}
fn node_id(n: &NodeId) -> String {
    let mut s = id(&n.0).to_string();
    if let Some(Port(i, d)) = &n.1 {
        if let Some(i) = i {
            s += ":";
            s += id(i)
        }
        if let Some(d) = d {
            s += ":";
            s += d
        }
    }
    s
}
fn sep(o: &Opt, at: At) -> &str {
    if at.flat {
        ""
    } else {
        &o.sep
    }
}
fn margin(o: &Opt, at: At) -> String {
    let mut s = String::new();
    if !at.flat {
        for _ in 0..at.depth * o.step {
            s.push(' ')
        }
    }
    s
}
fn attrs(v: &[Attribute], o: &Opt, at: At) -> String {
    let one = |a: &Attribute| {
        let mut s = id(&a.0).to_string();
        s += "=";
        s += id(&a.1);
        s
    };
    if v.is_empty() {
        return String::new();
    }
    let mut s = "[".to_string();
    if v.len() > 1 && o.mult {
        let inner = At { depth: at.depth + 1, ..at };
        for (i, a) in v.iter().enumerate() {
            if i > 0 && (at.flat || o.comma) {
                s += ","
            }
            s += sep(o, at);
            s += &margin(o, inner);
            s += &one(a)
        }
        s += sep(o, at);
        s += &margin(o, at)
    } else {
        for (i, a) in v.iter().enumerate() {
            if i > 0 {
                s += " "
            }
            s += &one(a)
        }
    }
    s += "]";
    s
}
fn sub(g: &Subgraph, o: &Opt, at: At) -> String {
    let mut s = "subgraph ".to_string();
    s += id(&g.id);
    s += " {";
    s += sep(o, at);
    s += &body(&g.stmts, o, At { depth: at.depth + 1, ..at });
    s += sep(o, at);
    s += &margin(o, at);
    s += "}";
    s
}
fn body(v: &[Stmt], o: &Opt, at: At) -> String {
    let mut s = String::new();
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s += sep(o, at);
            if sep(o, at).is_empty() && !matches!(s.as_bytes()[s.len() - 1], b']' | b'}' | b';') {
                s += " "
            }
        }
        s += &margin(o, at);
        s += &stmt(x, o, at);
        if o.semi {
            s += ";"
        }
    }
    s
}
fn ends(e: &Edge) -> Vec<&Vertex> {
    match &e.ty {
        EdgeTy::Pair(a, b) => vec![a, b],
        EdgeTy::Chain(v) => v.iter().collect(),
    }
}
fn edge_in(e: &Edge, o: &Opt, at: At) -> String {
    let mut s = String::new();
    for (i, v) in ends(e).into_iter().enumerate() {
        if i > 0 {
            s += if at.di { " -> " } else { " -- " }
        }
        s += &match v {
            Vertex::N(n) => node_id(n),
            Vertex::S(g) => sub(g, o, at),
        }
    }
    if matches!(e.ty, EdgeTy::Pair(..)) && !e.attributes.is_empty() {
        s += " "
    }
    s += &attrs(&e.attributes, o, at);
    s
}
fn stmt(x: &Stmt, o: &Opt, at: At) -> String {
    match x {
        Stmt::Node(n) => node_id(&n.id) + &attrs(&n.attributes, o, at),
        Stmt::Subgraph(g) => sub(g, o, at),
        Stmt::Attribute(a) => [id(&a.0), "=", id(&a.1)].concat(),
        Stmt::GAttribute(g) => {
            let (k, v) = match g {
                GraphAttributes::Graph(v) => ("graph", v),
                GraphAttributes::Node(v) => ("node", v),
                GraphAttributes::Edge(v) => ("edge", v),
            };
            let a = attrs(v, o, at);
            k.to_string() + if a.is_empty() { "[]" } else { &a }
        }
        Stmt::Edge(e) => {
            let long = edge_in(e, o, at);
            if !at.flat && long.len() <= o.size {
                edge_in(e, o, At { flat: true, ..at })
            } else {
                long
            }
        }
    }
}
pub fn print(g: &Graph, o: &Opt) -> String {
    let (di, strict, i, v) = crate::util::parts(g);
    let at = At { flat: o.sep.is_empty(), depth: 1, di };
    let mut s = String::new();
    if strict {
        s += "strict "
    }
    s += if di { "digraph " } else { "graph " };
    s += id(i);
    s += " {";
    s += sep(o, at);
    s += &body(v, o, at);
    s += sep(o, at);
    s += "}";
    s
}
/// A statement on its own at a depth.
pub fn print_stmt(x: &Stmt, o: &Opt, depth: usize, di: bool) -> String {
    let at = At { flat: o.sep.is_empty(), depth, di };
    margin(o, at) + &stmt(x, o, at) + if o.semi { ";" } else { "" }
}
