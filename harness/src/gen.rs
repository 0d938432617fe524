//! Symbolic graph values: structure by case split, text by symbolic bytes.
use crate::sym;
use crate::util::*;
use dot_structures::*;

pub fn letter() -> Id {
    Id::Plain(st(vec![range(b'a', b'z')]))
}
/// `n` symbolic lower-case letters.
pub fn word(n: usize) -> String {
    st((0..n).map(|_| range(b'a', b'z')).collect())
}
/// A symbolic word, bare, quoted or HTML.
pub fn word_id(n: usize) -> Id {
    let w = word(n);
    match sym::pick(3) {
        0 => Id::Plain(w),
        1 => Id::Escaped(["\"", &w, "\""].concat()),
        _ => Id::Html(["<", &w, ">"].concat()),
    }
}
/// An attribute value or key of each kind, with a symbolic byte.
pub fn value(k: usize) -> Id {
    match k {
        0 => letter(),
        1 => Id::Plain(st(vec![b'-', range(b'0', b'9'), b'.', range(b'0', b'9')])),
        2 => Id::Escaped(st(vec![b'"', range(b'#', b'['), b' ', range(b'#', b'['), b'"'])),
        _ => Id::Html(st(vec![b'<', b'<', range(b'a', b'z'), b'>', range(b'?', b'z'), b'>'])),
    }
}
/// Two or three attributes whose keys and values are of any kinds.
pub fn mixed(n: usize) -> Vec<Attribute> {
    (0..n).map(|j| attr(value(sym::pick(4)), if j + 1 < n { value(sym::pick(4)) } else { letter() })).collect()
}
/// A statement that carries an attribute list.
pub fn host(k: usize, a: Vec<Attribute>) -> Stmt {
    match k {
        0 => node(plain("a"), a),
        1 => pair(vn(plain("a")), vn(plain("b")), a),
        2 => Stmt::GAttribute(GraphAttributes::Graph(a)),
        3 => chain(vec![vn(plain("a")), vs(anon(), vec![]), vn(plain("b"))], a),
        4 => Stmt::GAttribute(GraphAttributes::Node(a)),
        _ => subg(plain("s"), vec![Stmt::GAttribute(GraphAttributes::Edge(a))]),
    }
}
pub fn esc(s: &str) -> Id {
    Id::Escaped(s.to_string())
}
pub fn html(s: &str) -> Id {
    Id::Html(s.to_string())
}
pub fn attr(k: Id, v: Id) -> Attribute {
    Attribute(k, v)
}
pub fn a1() -> Vec<Attribute> {
    vec![attr(plain("k"), letter())]
}
pub fn a2() -> Vec<Attribute> {
    vec![attr(letter(), esc("\"x, y\"")), attr(plain("l"), plain("-1.5"))]
}
pub fn a3() -> Vec<Attribute> {
    vec![attr(letter(), html("<<b>h</b>>")), attr(plain("l"), plain("2")), attr(esc("\"m m\""), letter())]
}
pub fn nid(i: Id) -> NodeId {
    NodeId(i, None)
}
pub fn nid_p(i: Id, p: Option<Id>, d: Option<&str>) -> NodeId {
    NodeId(i, Some(Port(p, d.map(|d| d.to_string()))))
}
pub fn node(i: Id, a: Vec<Attribute>) -> Stmt {
    Stmt::Node(Node { id: nid(i), attributes: a })
}
pub fn vn(i: Id) -> Vertex {
    Vertex::N(nid(i))
}
pub fn vs(i: Id, s: Vec<Stmt>) -> Vertex {
    Vertex::S(Subgraph { id: i, stmts: s })
}
pub fn pair(a: Vertex, b: Vertex, at: Vec<Attribute>) -> Stmt {
    Stmt::Edge(Edge { ty: EdgeTy::Pair(a, b), attributes: at })
}
pub fn chain(v: Vec<Vertex>, at: Vec<Attribute>) -> Stmt {
    Stmt::Edge(Edge { ty: EdgeTy::Chain(v), attributes: at })
}
pub fn subg(i: Id, s: Vec<Stmt>) -> Stmt {
    Stmt::Subgraph(Subgraph { id: i, stmts: s })
}
pub const COMPASS: [&str; 10] = ["n", "ne", "e", "se", "s", "sw", "w", "nw", "c", "_"];

pub const KINDS: usize = 24;
/// One statement of each form.
pub fn stmt(k: usize) -> Stmt {
    match k {
        0 => node(letter(), vec![]),
        1 => node(letter(), a1()),
        2 => Stmt::Node(Node { id: nid_p(letter(), Some(plain("p")), Some("ne")), attributes: a2() }),
        3 => Stmt::Attribute(attr(letter(), plain("v"))),
        4 => Stmt::GAttribute(GraphAttributes::Graph(a1())),
        5 => Stmt::GAttribute(GraphAttributes::Node(a2())),
        6 => Stmt::GAttribute(GraphAttributes::Edge(vec![])),
        7 => pair(vn(letter()), vn(plain("b")), vec![]),
        8 => pair(Vertex::N(nid_p(letter(), None, Some("sw"))), Vertex::N(nid_p(plain("b"), Some(esc("\"n\"")), None)), a1()),
        9 => chain(vec![vn(letter()), vn(plain("b")), vn(plain("c"))], a2()),
        10 => subg(anon(), vec![]),
        11 => subg(letter(), vec![node(plain("x"), vec![])]),
        12 => pair(vn(letter()), vs(anon(), vec![node(plain("x"), vec![]), node(plain("y"), vec![])]), vec![]),
        13 => pair(vs(anon(), vec![node(letter(), vec![])]), vn(plain("b")), a1()),
        14 => chain(
            vec![vs(plain("s"), vec![pair(vn(plain("u")), vn(letter()), a2()), node(plain("v"), vec![])]), vn(plain("b")), vs(anon(), vec![])],
            a1(),
        ),
        15 => subg(plain("t"), vec![subg(anon(), vec![node(letter(), a3()), Stmt::Attribute(attr(plain("i"), plain("j")))]), pair(vn(plain("u")), vn(plain("v")), vec![])]),
        16 => node(esc("\"q r\\\"\""), vec![attr(letter(), esc("\"\""))]),
        17 => node(html("<<i>x</i>>"), a3()),
        18 => node(plain("-.5"), vec![]),
        19 => chain(vec![vn(letter()), vn(plain("b")), vn(plain("c"))], vec![]),
        20 => pair(vs(plain("w"), vec![pair(vn(letter()), vs(anon(), vec![node(plain("x"), a2()), node(plain("y"), vec![])]), vec![])]), vs(anon(), vec![]), a2()),
        21 => Stmt::GAttribute(GraphAttributes::Node(vec![])),
        22 => Stmt::GAttribute(GraphAttributes::Edge(a3())),
        _ => Stmt::GAttribute(GraphAttributes::Graph(vec![])),
    }
}
/// A well-formed identifier of any kind with symbolic text of about `n` bytes.
pub fn any_id(n: usize) -> Id {
    let w = |first: bool| {
        let c = byte();
        sym::assume(c.is_ascii_alphabetic() || c == b'_' || (!first && c.is_ascii_digit()));
        c
    };
    match sym::pick(6) {
        0 => {
            let v: Vec<u8> = (0..n).map(|i| w(i == 0)).collect();
            Id::Plain(st(v))
        }
        1 => {
            let v = (0..n).map(|_| range(b'0', b'9')).collect();
            Id::Plain(st(v))
        }
        2 => {
            let mut v: Vec<u8> = vec![];
            if sym::pick(2) == 1 {
                v.push(b'-')
            }
            let dot = sym::pick(n + 1);
            for i in 0..n {
                if i == dot {
                    v.push(b'.')
                }
                v.push(range(b'0', b'9'))
            }
            if dot == n {
                v.push(b'.')
            }
            Id::Plain(st(v))
        }
        3 | 4 => {
            // a quoted string: no bare quote, no backslash before the end
            let w = utf8_window(n);
            let mut i = 0;
            while i < n {
                sym::assume(w[i] != b'"');
                if w[i] == b'\\' {
                    sym::assume(i + 1 < n);
                    i += 1
                }
                i += 1
            }
            Id::Escaped(st(cat(&[b"\"", &w, b"\""])))
        }
        _ => {
            let w = utf8_window(n);
            for c in &w {
                sym::assume(*c != b'<' && *c != b'>')
            }
            let (a, b): (&[u8], &[u8]) = [(&b"<"[..], &b">"[..]), (b"<<b>", b"</b>>"), (b"<x<i/>", b">")][sym::pick(3)];
            Id::Html(st(cat(&[a, &w, b])))
        }
    }
}
/// Names that are keywords in the position they would be printed in.
pub fn is_keyword(i: &Id) -> bool {
    matches!(i, Id::Plain(s) if ["graph", "digraph", "strict", "node", "edge", "subgraph"].contains(&s.as_str()))
}

pub fn no_keyword(s: &str) {
    for w in ["node", "edge", "graph", "strict", "digraph", "subgraph"] {
        if s.len() == w.len() {
            sym::assume(s.bytes().zip(w.bytes()).fold(false, |d, (x, y)| d | (x != y)))
        }
    }
}
/// Names that mean something to Graphviz.
pub const NAMES: [&str; 64] = [
    "label", "xlabel", "headlabel", "taillabel", "color", "fillcolor", "fontcolor", "bgcolor", "pencolor", "colorscheme", "fontname", "fontsize", "shape", "style", "dir", "arrowhead",
    "arrowtail", "arrowsize", "weight", "len", "minlen", "constraint", "rank", "rankdir", "ranksep", "nodesep", "splines", "layout", "size", "ratio", "width", "height",
    "margin", "pad", "pos", "id", "class", "comment", "URL", "href", "tooltip", "target", "image", "peripheries", "penwidth", "regular", "sides", "skew",
    "charset", "compound", "concentrate", "overlap", "start", "K", "Damping", "_background", "headport", "tailport", "lhead", "ltail", "cluster", "name", "samehead", "group",
];
/// A key and its value, one or both of them whole symbolic words.
pub fn pair_of_words() -> (Id, Id) {
    let values = [
        plain("v"), plain("4294967296"), plain("99999999999999999999999"), plain("-0.5"), plain("1.7976931348623157000"), plain(".0"), plain("007"), esc("\"\""), esc("\"a b\""),
        esc("\"1\""), esc("\"\\\"\""), html("<>"), html("<<b>x</b>>"), esc("\"\u{e9}\""), plain("true"), plain("_9"),
    ];
    let (k, v) = match sym::pick(5) {
        3 => (plain(NAMES[sym::pick(64)]), escaped()),
        4 => (plain(NAMES[sym::pick(64)]), if sym::pick(2) == 0 { literal(2) } else { plain(&st(vec![range(b'0', b'9'), b'.', range(b'0', b'9')])) }),
        0 => (plain(&word(1 + sym::pick(12))), values[sym::pick(16)].clone()),
        1 => {
            let v = word(1 + sym::pick(12));
            (plain(NAMES[sym::pick(64)]), if sym::pick(2) == 0 { plain(&v) } else { esc(&["\"", &v, "\""].concat()) })
        }
        _ => {
            let (k, v) = (word(1 + sym::pick(10)), word(1 + sym::pick(10)));
            // (a parser has to tell these from subgraph, letter by letter)
            sym::assume((k.as_bytes()[0] != b's') & (v.as_bytes()[0] != b's'));
            (plain(&k), plain(&v))
        }
    };
    for i in [&k, &v] {
        if let Id::Plain(s) = i { no_keyword(s) }
    }
    (k, v)
}
/// An attribute list with the pair alone, first or last.
pub fn list_with(k: Id, v: Id) -> Vec<Attribute> {
    let a = attr(k, v);
    match sym::pick(3) {
        0 => vec![a],
        1 => vec![a, attr(plain("y"), plain("2"))],
        _ => vec![attr(plain("y"), plain("2")), a],
    }
}

/// A quoted or HTML string all of whose bytes are symbolic: any character that
/// neither ends it nor needs care.
pub fn literal(n: usize) -> Id {
    let q = sym::pick(2) == 0;
    let mut v = vec![if q { b'"' } else { b'<' }];
    for _ in 0..n {
        let c = byte();
        sym::assume(if q { (c < 128) & (c != b'"') & (c != b'\\') } else { (c < 128) & (c != b'<') & (c != b'>') });
        v.push(c)
    }
    v.push(if q { b'"' } else { b'>' });
    if q { Id::Escaped(st(v)) } else { Id::Html(st(v)) }
}
/// A string with a symbolic escape in it.
pub fn escaped() -> Id {
    let (a, b) = [("", ""), ("x", ""), ("", " y"), ("a b", "c\\n"), ("\\\\", "\\\"")][sym::pick(5)];
    let c = byte();
    sym::assume(c < 128);
    Id::Escaped(["\"", a, "\\", &st(vec![c]), b, "\""].concat())
}
/// Two names that differ little: a letter's case, one letter, one more letter, or not at all.
pub fn alike() -> (String, String) {
    let n = 2 + sym::pick(4);
    let w: Vec<u8> = word(n).into_bytes();
    let mut x = w.clone();
    match sym::pick(5) {
        0 => {}
        1 => { let i = sym::pick(n); x[i] -= 32 }
        2 => { let i = sym::pick(n); x[i] = range(b'a', b'z') }
        3 => x.push(range(b'a', b'z')),
        _ => x.insert(0, b'_'),
    }
    no_keyword(utf8(&w));
    no_keyword(utf8(&x));
    (st(w), st(x))
}

/// A long quoted or HTML string with two symbolic characters, an escape or a
/// wide character at its start, in its middle or at its end.
pub fn long_text(sizes: &[usize]) -> Id {
    let n = sizes[sym::pick(sizes.len())];
    let q = sym::pick(2) == 0;
    let (o, c) = if q { (b'"', b'"') } else { (b'<', b'>') };
    let mut v: Vec<u8> = (0..n).map(|i| b"some text, and more; "[i % 21]).collect();
    let free = |c: u8| if q { (c < 128) & (c != b'"') & (c != b'\\') } else { (c < 128) & (c != b'<') & (c != b'>') };
    let w = match sym::pick(3) {
        0 => {
            let (a, b) = (byte(), byte());
            sym::assume(free(a) & free(b));
            vec![a, b]
        }
        1 => {
            let a = byte();
            sym::assume(a < 128);
            if !q { sym::assume(free(a)) }
            vec![b'\\', a]
        }
        _ => ["\u{e9}", "\u{2019}", "\u{1f600}", "\u{feff}", "e\u{301}"][sym::pick(5)].as_bytes().to_vec(),
    };
    let i = [0, n / 2, n][sym::pick(3)];
    v.splice(i..i, w);
    v.insert(0, o);
    v.push(c);
    if q { Id::Escaped(st(v)) } else { Id::Html(st(v)) }
}

/// A quoted text with a wide character at any of its first places, for code that cuts texts.
pub fn wide_text() -> Id {
    let a = ["#", "/", "0x", "ab", "%"][sym::pick(5)];
    let n = sym::pick(9);
    let w = ["\u{e9}", "\u{2019}", "\u{1f600}"][sym::pick(3)];
    esc(&["\"", a, &"12345678"[..n], w, "4567890\""].concat())
}

/// Statements that name each other, or repeat each other's parts.
pub fn related() -> Vec<Stmt> {
    let l = || plain(["a", "b"][sym::pick(2)]);
    (0..2)
        .map(|_| match sym::pick(8) {
            0 => node(l(), vec![]),
            1 => node(l(), vec![attr(plain("a"), l())]),
            2 => subg(l(), vec![]),
            3 => subg(l(), vec![node(l(), vec![])]),
            4 => pair(vn(l()), vn(l()), vec![]),
            5 => Stmt::Attribute(attr(l(), l())),
            6 => chain(vec![vn(l()), vs(l(), vec![]), vn(l())], vec![]),
            _ => Stmt::Node(Node { id: NodeId(l(), Some(Port(Some(l()), None))), attributes: vec![attr(plain("k"), l()), attr(plain("k"), l())] }),
        })
        .collect()
}
