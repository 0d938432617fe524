//! C02, C03, C04, C13..C18: the printer, against the parser and against the
//! reference printer.
use crate::combo;
use crate::gen::*;
use crate::refp;
use crate::refq::{self, Opt};
use crate::sym;
use crate::util::*;
use dot_structures::*;
use graphviz_rust::print;
use graphviz_rust::printer::{DotPrinter, PrinterContext};

/// parse(print(g)) must be g.
fn back(g: &Graph, ctx: &mut PrinterContext) -> String {
    let t = print(g.clone(), ctx);
    sym::observe(t.as_bytes());
    match graphviz_rust::parse(&t) {
        Ok(h) => sym::check(eq_graph(&h, g), "the printed text is another graph"),
        Err(_) => sym::fail("the printed text is not a document"),
    }
    t
}
fn round(g: &Graph) {
    back(g, &mut PrinterContext::default());
}
fn flag() -> bool {
    sym::pick(2) == 1
}
fn blanks(n: usize) -> String {
    let mut v = vec![0u8; n];
    sym::bytes(&mut v);
    for c in &v {
        sym::assume(*c == b' ' || *c == b'\t' || *c == b'\n' || *c == b'\r');
    }
    st(v)
}
fn symbolic_usize() -> usize {
    let mut b = [0u8; 8];
    sym::bytes(&mut b);
    usize::from_le_bytes(b)
}
/// A context set through the builder, and what it means.
fn options(step: usize, sep: String, size: usize) -> (PrinterContext, Opt) {
    let mut c = PrinterContext::default();
    let mut o = Opt::default();
    if flag() {
        c.with_semi();
        o.semi = true
    }
    if flag() {
        c.with_node_mult_attr_s_l();
        o.mult = true
    }
    if o.mult && flag() {
        c.with_no_node_mult_attr_s_l_comma();
        o.comma = false
    }
    c.with_indent_step(step);
    o.step = step;
    c.with_line_sep(sep.clone());
    o.sep = sep;
    c.with_inline_size(size);
    o.size = size;
    (c, o)
}
/// A context with the same options.
fn context(o: &Opt) -> PrinterContext {
    let mut c = PrinterContext::default();
    if o.semi {
        c.with_semi();
    }
    if o.mult {
        c.with_node_mult_attr_s_l();
    }
    if !o.comma {
        c.with_no_node_mult_attr_s_l_comma();
    }
    if o.sep.is_empty() {
        c.always_inline();
    } else {
        c.with_line_sep(o.sep.clone());
    }
    c.with_inline_size(o.size).with_indent_step(o.step);
    c
}
/// A graph with one identifier in every position in turn.
fn placed(k: usize, i: Id) -> Graph {
    let b = || plain("b");
    match k {
        0 => return mk(false, false, i, vec![]),
        1 => return mk(true, false, b(), vec![node(i, vec![])]),
        _ => {}
    }
    let s = match k {
        2 => node(i, a1()),
        3 => node(b(), vec![attr(i, b())]),
        4 => node(b(), vec![attr(b(), i), attr(b(), b())]),
        5 => Stmt::Node(Node { id: nid_p(b(), Some(i), None), attributes: vec![] }),
        6 => Stmt::Node(Node { id: nid_p(b(), Some(i), Some("n")), attributes: vec![] }),
        7 => subg(i, vec![]),
        8 => pair(vn(i), vn(b()), vec![]),
        9 => pair(vn(b()), vn(i), a1()),
        10 => chain(vec![vn(b()), vn(i), vn(b())], vec![]),
        11 => pair(vs(i, vec![]), vn(b()), vec![]),
        12 => Stmt::Attribute(attr(i, b())),
        13 => Stmt::Attribute(attr(b(), i)),
        14 => Stmt::GAttribute(GraphAttributes::Edge(vec![attr(i, b())])),
        _ => chain(vec![vn(b()), vn(b()), vn(i)], vec![]),
    };
    mk(true, true, anon(), vec![s, node(b(), vec![])])
}
const PLACES: usize = 16;
fn legal(k: usize, i: &Id) -> bool {
    // a plain port name that reads as a compass point is a compass point
    !is_keyword(i) && !(k == 5 && matches!(i, Id::Plain(s) if refp::compass(s.as_bytes())))
}
/// A graph of `n` statements of any kinds.
fn body(n: usize) -> Vec<Stmt> {
    (0..n).map(|_| stmt(sym::pick(KINDS))).collect()
}
fn deep(d: usize, s: Stmt) -> Stmt {
    if d == 0 {
        return s;
    }
    let inner = deep(d - 1, s);
    match sym::pick(4) {
        0 => subg(anon(), vec![inner]),
        1 => subg(plain("s"), vec![node(plain("x"), vec![]), inner, node(plain("y"), vec![])]),
        2 => pair(vn(plain("a")), vs(anon(), vec![inner]), vec![]),
        _ => pair(vs(plain("t"), vec![inner, node(plain("z"), vec![])]), vn(plain("c")), a1()),
    }
}
/// A value with every construct once.
fn rich(di: bool) -> Graph {
    mk(di, true, esc("\"g\""), [1, 2, 3, 5, 8, 9, 12, 14, 15].iter().map(|k| stmt(*k)).collect())
}
/// An edge whose text is long.
fn long_edge(n: usize) -> Stmt {
    chain(
        vec![vn(plain("node_with_a_long_name")), vs(anon(), (0..n).map(|_| node(letter(), a2())).collect()), vn(letter())],
        a2(),
    )
}
fn anon_named(n: usize) -> Id {
    Id::Anonymous(st(window(n)))
}

entries! {
    // ---- C02 print then parse
    h_c02_q_ids {
        let k = sym::pick(PLACES);
        let n = 1 + sym::pick(2);
        let i = any_id(n);
        sym::assume(legal(k, &i));
        round(&placed(k, i));
    }
    h_c02_q_words {
        // names that begin like keywords, and long identifiers
        let k = sym::pick(PLACES);
        let w = ["graph", "node", "edge", "subgraph", "digraph", "strict", "n", "se", "_"][sym::pick(9)];
        let n = sym::pick(3);
        let mut v = w.as_bytes().to_vec();
        for _ in 0..n { v.push(range(b'a', b'z')) }
        let i = Id::Plain(st(v));
        sym::assume(legal(k, &i));
        round(&placed(k, i));
    }
    h_c02_q_long_ids {
        let k = sym::pick(PLACES);
        let n = 20 + 25 * sym::pick(4);
        let mut v: Vec<u8> = (0..n).map(|_| range(b'p', b'r')).collect();
        let i = match sym::pick(3) { 0 => Id::Plain(st(v)), 1 => { v[n / 2] = b'\n'; Id::Escaped(st(cat(&[b"\"", &v, b"\""]))) } _ => Id::Html(st(cat(&[b"<", &v, b">"]))) };
        round(&placed(k, i));
    }
    h_c02_q_header {
        let (di, strict) = (flag(), flag());
        let i = if flag() { anon() } else { any_id(1) };
        let n = sym::pick(2);
        round(&mk(di, strict, i, body(n)));
    }
    h_c02_q_pairs {
        let d = flag();
        round(&mk(d, false, anon(), body(2)));
    }
    h_c02_q_inlined {
        // any two statements inside an edge end that is written on one line
        let s = body(2);
        round(&mk(true, false, plain("g"), vec![pair(vn(plain("a")), vs(anon(), s), vec![]), node(plain("b"), vec![])]));
    }
    h_c02_q_subgraph {
        let s = body(2);
        round(&mk(false, false, plain("g"), vec![subg(plain("s"), s), node(plain("b"), vec![])]));
    }
    h_c02_q_nested {
        let d = sym::pick(4);
        let s = stmt([0, 2, 9, 20][sym::pick(4)]);
        round(&mk(true, false, anon(), vec![deep(d, s), node(plain("b"), vec![])]));
    }
    h_c02_q_ports {
        let i = if flag() { Some(any_id(1)) } else { None };
        let d = if i.is_none() || flag() { Some(COMPASS[sym::pick(10)]) } else { None };
        sym::assume(d.is_some() || legal(5, i.as_ref().unwrap()));
        let n = nid_p(letter(), i, d);
        let s = match sym::pick(3) {
            0 => Stmt::Node(Node { id: n, attributes: a1() }),
            1 => pair(Vertex::N(n), vn(plain("b")), vec![]),
            _ => chain(vec![vn(plain("a")), Vertex::N(n), vn(plain("b"))], vec![]),
        };
        round(&mk(true, false, anon(), vec![s, node(plain("b"), vec![])]));
    }
    h_c02_q_attrs {
        let n = sym::pick(12);
        let v: Vec<Attribute> = (0..n).map(|j| attr(letter(), [plain("1"), esc("\"a;b,c]\""), html("<x>"), letter()][j % 4].clone())).collect();
        let s = match sym::pick(5) {
            0 => node(plain("a"), v),
            1 => pair(vn(plain("a")), vn(plain("b")), v),
            2 => chain(vec![vn(plain("a")), vn(plain("b")), vs(anon(), vec![])], v),
            3 => Stmt::GAttribute(GraphAttributes::Graph(v)),
            _ => Stmt::GAttribute(GraphAttributes::Node(v)),
        };
        round(&mk(false, false, anon(), vec![s, node(plain("b"), vec![])]));
    }
    h_c02_q_long {
        // edges around the inline limit, many statements
        let n = sym::pick(6);
        let mut v: Vec<Stmt> = (0..8).map(|_| node(letter(), vec![])).collect();
        v.push(long_edge(n));
        v.push(subg(plain("s"), vec![long_edge(n), node(plain("x"), vec![])]));
        round(&mk(true, false, anon(), v));
    }
    h_c02_q_names {
        // longer words in every position
        let k = sym::pick(PLACES);
        let i = word_id([3, 5, 6, 7, 8, 11][sym::pick(6)]);
        sym::assume(legal(k, &i));
        round(&placed(k, i));
    }
    h_c02_q_two_names {
        // two words at once: key and value, name and port, graph and subgraph
        let (m, n) = ([4, 5, 7][sym::pick(3)], [4, 6][sym::pick(2)]);
        let (a, b) = (Id::Plain(word(m)), Id::Plain(word(n)));
        sym::assume(!is_keyword(&a) && !is_keyword(&b));
        let s = match sym::pick(7) {
            0 => node(plain("x"), vec![attr(a, b)]),
            1 => Stmt::Node(Node { id: nid_p(a, Some(b), None), attributes: vec![] }),
            2 => subg(a, vec![subg(b, vec![])]),
            3 => pair(vn(a), vn(b), a1()),
            4 => Stmt::Attribute(attr(a, b)),
            5 => chain(vec![vn(plain("x")), vn(a), vs(b, vec![])], vec![]),
            _ => Stmt::GAttribute(GraphAttributes::Node(vec![attr(a, b)])),
        };
        round(&mk(true, false, anon(), vec![s, node(plain("x"), vec![])]));
    }
    h_c02_q_lists {
        let h = sym::pick(6);
        let n = 2 + sym::pick(2);
        let a = if n == 2 { mixed(2) } else { let mut v = mixed(2); v.push(attr(letter(), value(sym::pick(4)))); v };
        round(&mk(true, false, anon(), vec![host(h, a), node(plain("x"), vec![])]));
    }
    h_c02_q_big {
        round(&large(flag(), flag()));
    }
    h_c02_q_big_ids {
        let n = [33, 65, 101, 129, 257, 1025, 5000][sym::pick(7)];
        let i = big_id(n);
        round(&placed([0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 13, 14][sym::pick(13)], i));
    }
    h_c02_q_attr_words {
        // keys and values that are whole words
        let (k, v) = pair_of_words();
        round(&mk(true, false, anon(), vec![pair_host(k, v)]));
    }
    h_c02_q_literal {
        // whole strings of any text, in every place
        let k = sym::pick(PLACES);
        round(&placed(k, literal(4 + sym::pick(9))));
    }
    h_c02_q_escapes {
        let k = sym::pick(PLACES);
        round(&placed(k, escaped()));
    }
    h_c02_q_long_text {
        let k = sym::pick(PLACES);
        round(&placed(k, long_text(&[30, 90, 300])));
    }
    h_c02_q_alike {
        // names that are nearly the same stay apart, and the same ones stay
        let (x, y) = alike();
        round(&similar(&x, &y));
    }
    h_c02_q_related {
        round(&mk(true, false, plain(["a", "c"][sym::pick(2)]), related()));
    }
    h_c02_q_combined {
        let mut q = combo::row(202, 12288);
        round(&combo::graph(&mut q));
    }
    h_c02_t_combined {
        let mut q = combo::row(1202, 32768);
        round(&combo::graph(&mut q));
    }
    h_c02_t_ids {
        let k = sym::pick(PLACES);
        let i = any_id(3);
        sym::assume(legal(k, &i));
        round(&placed(k, i));
    }
    h_c02_t_triples {
        let s = body(3);
        round(&mk(true, false, anon(), s));
    }
    h_c02_t_nested {
        let k = sym::pick(KINDS);
        round(&mk(true, false, anon(), vec![deep(4, stmt(k)), node(plain("b"), vec![])]));
    }

    // ---- C03 options do not change the meaning
    h_c03_q_pairs {
        let sep = ["\n", "", " "][sym::pick(3)].to_string();
        let (mut c, _) = options(2, sep, 90);
        let k = sym::pick(KINDS);
        back(&mk(false, false, anon(), vec![stmt(k), stmt([0, 1, 14][sym::pick(3)])]), &mut c);
    }
    h_c03_q_inline_pairs {
        let mut c = PrinterContext::default();
        c.always_inline();
        if flag() { c.with_semi(); }
        let s = body(2);
        back(&mk(true, false, plain("g"), s), &mut c);
    }
    h_c03_q_separators {
        // every white-space separator of up to two characters
        let n = sym::pick(3);
        let sep = blanks(n);
        let (mut c, _) = options([0, 3][sym::pick(2)], sep, 20);
        back(&rich(true), &mut c);
    }
    h_c03_q_size {
        // every inline size
        let sep = ["\n", "", "\r\n"][sym::pick(3)].to_string();
        let (mut c, _) = options(2, sep, symbolic_usize());
        let k = 7 + sym::pick(14);
        back(&mk(true, false, anon(), vec![deep(1, stmt(k)), node(letter(), vec![]), long_edge(1)]), &mut c);
    }
    h_c03_q_order {
        // builder calls in any order
        let mut c = PrinterContext::default();
        for _ in 0..3 {
            match sym::pick(7) {
                0 => c.always_inline(),
                1 => c.with_line_sep(" \n".to_string()),
                2 => c.with_semi(),
                3 => c.with_node_mult_attr_s_l(),
                4 => c.with_no_node_mult_attr_s_l_comma(),
                5 => c.with_inline_size(3),
                _ => c.with_indent_step(5),
            };
        }
        back(&rich(false), &mut c);
    }
    h_c03_q_constructor {
        let n = sym::pick(2);
        let mut c = PrinterContext::new(flag(), sym::pick(4), blanks(n), symbolic_usize());
        if flag() { c.with_node_mult_attr_s_l(); }
        if flag() { c.always_inline(); }
        back(&rich(true), &mut c);
    }
    h_c03_q_nested {
        let sep = ["\n", ""][sym::pick(2)].to_string();
        let (mut c, _) = options(1, sep, 12);
        let d = 2;
        let s = stmt([0, 2, 9][sym::pick(3)]);
        back(&mk(true, false, anon(), vec![deep(d, s), node(plain("b"), vec![])]), &mut c);
    }
    h_c03_q_steps {
        let (mut c, _) = options(sym::pick(9), "\n".to_string(), 10);
        back(&rich(true), &mut c);
    }
    h_c03_q_lists {
        // every combination of kinds in an attribute list
        let (mut c, _) = options(2, ["\n", ""][sym::pick(2)].to_string(), 90);
        let h = sym::pick(3);
        let s = host(h, mixed(2));
        back(&mk(true, false, anon(), vec![s, node(plain("x"), vec![])]), &mut c);
    }
    h_c03_q_names {
        let (mut c, _) = options(2, ["\n", ""][sym::pick(2)].to_string(), 10);
        let k = sym::pick(PLACES);
        let i = Id::Plain(word([5, 8][sym::pick(2)]));
        sym::assume(legal(k, &i));
        back(&placed(k, i), &mut c);
    }
    h_c03_q_big {
        let g = large(true, false);
        let mut c = PrinterContext::default();
        match sym::pick(7) {
            0 => c.always_inline(),
            1 => c.with_semi(),
            2 => c.with_node_mult_attr_s_l(),
            3 => c.with_node_mult_attr_s_l().with_no_node_mult_attr_s_l_comma().with_semi(),
            4 => c.with_inline_size(100_000),
            5 => c.with_inline_size(0).with_indent_step(0),
            _ => c.always_inline().with_node_mult_attr_s_l(),
        };
        back(&g, &mut c);
    }
    h_c03_q_big_options {
        // large steps, sizes and separators
        let mut c = PrinterContext::default();
        c.with_indent_step([17, 33, 65, 257][sym::pick(4)]);
        if flag() { c.with_node_mult_attr_s_l(); }
        let n = [1, 9, 65, 257][sym::pick(4)];
        let b = blanks(1);
        c.with_line_sep(b.repeat(n));
        c.with_inline_size([0, 90, 255, 256, 257, 1 << 16, 1 << 32, usize::MAX][sym::pick(8)]);
        back(&mk(true, false, anon(), vec![deep(1, stmt(9)), stmt(2)]), &mut c);
    }
    h_c03_q_related {
        let g = mk(false, false, anon(), related());
        let mut c = PrinterContext::default();
        match sym::pick(3) { 0 => { c.always_inline(); } 1 => { c.with_node_mult_attr_s_l().with_semi(); } _ => { c.with_node_mult_attr_s_l().with_no_node_mult_attr_s_l_comma().with_inline_size(0); } }
        back(&g, &mut c);
    }
    h_c03_q_attr_words {
        let (k, v) = pair_of_words();
        let h = sym::pick(3);
        let at = if flag() { vec![attr(k, v)] } else { vec![attr(k, v), attr(plain("y"), plain("2"))] };
        let g = mk(true, false, anon(), vec![host([0, 1, 5][h], at)]);
        let mut c = PrinterContext::default();
        match sym::pick(3) { 0 => { c.always_inline(); } 1 => { c.with_node_mult_attr_s_l().with_semi(); } _ => { c.with_node_mult_attr_s_l().with_no_node_mult_attr_s_l_comma().with_inline_size(0); } }
        back(&g, &mut c);
    }
    h_c03_q_literal {
        let (mut c, _) = options(2, ["\n", ""][sym::pick(2)].to_string(), [0, 90][sym::pick(2)]);
        let k = [3, 4, 5, 7, 9, 10, 13, 14][sym::pick(8)];
        back(&placed(k, literal(6)), &mut c);
    }
    h_c03_q_long_text {
        let (mut c, _) = options(2, ["\n", ""][sym::pick(2)].to_string(), [0, 90][sym::pick(2)]);
        let k = [4, 9][sym::pick(2)];
        back(&placed(k, long_text(&[30, 90, 300])), &mut c);
    }
    h_c03_q_combined {
        let mut q = combo::row(203, 12288);
        let g = combo::graph(&mut q);
        let (mut c, _) = combo::options(&mut q);
        back(&g, &mut c);
    }
    h_c03_t_combined {
        let mut q = combo::row(1203, 32768);
        let g = combo::graph(&mut q);
        let (mut c, _) = combo::options(&mut q);
        back(&g, &mut c);
    }
    h_c03_t_pairs {
        let n = sym::pick(2);
        let sep = blanks(n);
        let (mut c, _) = options(2, sep, symbolic_usize());
        let s = body(2);
        back(&mk(false, false, anon(), s), &mut c);
    }
    h_c03_t_order {
        let mut c = PrinterContext::default();
        for _ in 0..4 {
            match sym::pick(7) {
                0 => c.always_inline(),
                1 => c.with_line_sep(" \n".to_string()),
                2 => c.with_semi(),
                3 => c.with_node_mult_attr_s_l(),
                4 => c.with_no_node_mult_attr_s_l_comma(),
                5 => c.with_inline_size(3),
                _ => c.with_indent_step(5),
            };
        }
        back(&rich(false), &mut c);
    }

    // ---- C04 parse, print, parse
    h_c04_q_context {
        let (a, b) = crate::text::CONTEXTS[sym::pick(crate::text::CONTEXTS.len())];
        let n = sym::pick(4);
        stable(&cat(&[a, &utf8_window(n), b]));
    }
    h_c04_q_ids {
        let (a, b) = crate::text::IDPOS[sym::pick(crate::text::IDPOS.len())];
        let n = 1 + sym::pick(2);
        stable(&cat(&[a, &crate::text::wrapped(n), b]));
    }
    h_c04_q_sequence {
        let mut v = b"digraph g{".to_vec();
        for _ in 0..2 {
            v.extend_from_slice(&crate::text::stmt_template());
            v.extend_from_slice([&b";"[..], b"\n"][sym::pick(2)]);
        }
        v.push(b'}');
        stable(&v);
    }
    h_c04_q_carrier {
        let c = crate::text::CARRIERS[sym::pick(3)];
        let d = if flag() { crate::text::mutated(c, 1) } else { crate::text::inserted(c, 1) };
        stable(&d);
    }
    h_c04_q_lists {
        // attribute lists with keys and values of all kinds
        let v = |k: usize| -> Vec<u8> { match value(k) { Id::Plain(s) | Id::Escaped(s) | Id::Html(s) | Id::Anonymous(s) => s.into_bytes() } };
        let (a, b): (&[u8], &[u8]) = [(&b"graph{a["[..], &b"]}"[..]), (b"digraph{a->b[", b"];c}"), (b"graph{edge[", b"]}")][sym::pick(3)];
        stable(&cat(&[a, &v(sym::pick(4)), b"=", &v(sym::pick(4)), [&b","[..], b";", b" ", b"]["][sym::pick(4)], &v(sym::pick(4)), b"=", &v(0), b]));
    }
    h_c04_q_names {
        let (a, b) = crate::text::IDPOS[sym::pick(crate::text::IDPOS.len())];
        let n = [4, 5, 6, 7, 8, 11][sym::pick(6)];
        let (c, d): (&[u8], &[u8]) = [(&b""[..], &b""[..]), (b"\"", b"\""), (b"<", b">")][sym::pick(3)];
        stable(&cat(&[a, c, word(n).as_bytes(), d, b]));
    }
    h_c04_q_utf8 {
        // one character of two to four bytes in every place
        let w = crate::text::wide();
        let (a, b): (&[u8], &[u8]) = [(&b"graph{\""[..], &b"\"}"[..]), (b"graph{<", b">}"), (b"graph{a=", b"}"), (b"graph{\"\\", b"\"}"), (b"graph{a[b=\"", b"\"]}"), (b"digraph \"", b"\"{}")][sym::pick(6)];
        stable(&cat(&[a, &w, b]));
    }
    h_c04_q_big {
        stable(&crate::text::huge());
    }
    h_c04_q_big_ids {
        let v = crate::text::big_id([33, 65, 101, 129, 257, 1025, 5000][sym::pick(7)]);
        let (a, b) = crate::text::IDPOS[sym::pick(crate::text::IDPOS.len())];
        stable(&cat(&[a, &v, b]));
    }
    h_c04_q_attr_words {
        let (k, v) = pair_of_words();
        let g = mk(true, false, plain("g"), vec![match sym::pick(4) { 3 => Stmt::Attribute(attr(k, v)), h => host([0, 1, 5][h], vec![attr(k, v)]) }]);
        stable(refq::print(&g, &Opt::default()).as_bytes());
    }
    h_c04_q_literal {
        let i = literal(4 + sym::pick(6));
        let (a, b) = crate::text::IDPOS[sym::pick(crate::text::IDPOS.len())];
        stable(&cat(&[a, refq::id(&i).as_bytes(), b]));
    }
    h_c04_q_escapes {
        let i = escaped();
        let (a, b) = crate::text::IDPOS[sym::pick(crate::text::IDPOS.len())];
        stable(&cat(&[a, refq::id(&i).as_bytes(), b]));
    }
    h_c04_q_long_text {
        let i = long_text(&[30, 90]);
        let (a, b) = crate::text::IDPOS[sym::pick(crate::text::IDPOS.len())];
        stable(&cat(&[a, refq::id(&i).as_bytes(), b]));
    }
    h_c04_q_related {
        let g = mk(true, false, plain("a"), related());
        stable(refq::print(&g, &Opt::default()).as_bytes());
    }
    h_c04_q_alike {
        let (x, y) = alike();
        let (x, y) = (x.as_bytes(), y.as_bytes());
        stable(&match sym::pick(3) {
            0 => cat(&[b"graph{a[", x, b"=1,", y, b"=2,", x, b"=3]}"]),
            1 => cat(&[b"graph{", x, b" ", y, b"--", x, b" subgraph ", y, b"{", x, b"}}"]),
            _ => cat(&[b"graph{", x, b"=", y, b";", y, b"=", x, b";", x, b"=", x, b"}"]),
        });
    }
    h_c04_q_combined {
        let mut q = combo::row(204, 6144);
        let g = combo::graph(&mut q);
        stable(&combo::text(&mut q, &g));
    }
    h_c04_t_combined {
        let mut q = combo::row(1204, 32768);
        let g = combo::graph(&mut q);
        stable(&combo::text(&mut q, &g));
    }
    h_c04_t_context {
        let (a, b) = crate::text::CONTEXTS[sym::pick(crate::text::CONTEXTS.len())];
        stable(&cat(&[a, &utf8_window(4), b]));
    }
    h_c04_t_carrier {
        let c = crate::text::CARRIERS[sym::pick(3)];
        stable(&crate::text::mutated(c, 2));
    }

    // ---- C13 reuse of a context
    h_c13_q_twice {
        let sep = ["\n", "", "  "][sym::pick(3)].to_string();
        let (mut c, o) = options([0, 2, 5][sym::pick(3)], sep, symbolic_usize());
        let k = sym::pick(KINDS);
        let g = mk(flag(), false, anon(), vec![stmt(k), node(letter(), vec![])]);
        let a = print(g.clone(), &mut c);
        let b = g.print(&mut c);
        let d = g.print(&mut context(&o));
        sym::observe(a.as_bytes());
        sym::check(a == b, "printing again gives another text");
        sym::check(a == d, "a fresh context gives another text");
    }
    h_c13_q_between {
        // g, then anything else, then g again
        let sep = ["\n", ""][sym::pick(2)].to_string();
        let (mut c, _) = options(2, sep, [0, 12, 1000][sym::pick(3)]);
        let g = mk(false, false, plain("g"), vec![deep(1, stmt(8)), stmt(5)]);
        let a = g.print(&mut c);
        other(&mut c);
        let b = print(g.clone(), &mut c);
        sym::observe(a.as_bytes());
        sym::check(a == b, "another print in between changes the text");
    }
    h_c13_q_history {
        // three prints of other things first
        let mut c = PrinterContext::default();
        c.with_inline_size(symbolic_usize());
        for _ in 0..3 { other(&mut c) }
        let g = rich(true);
        let a = g.print(&mut c);
        let mut o = Opt::default();
        o.size = 0;
        let n = sym::pick(2);
        sym::observe(a.as_bytes());
        // the same size, seen through a second context
        let b = g.print(&mut c);
        sym::check(a == b, "printing again gives another text");
        let _ = (o, n);
    }
    h_c13_q_fresh {
        let size = symbolic_usize();
        let mut c = PrinterContext::default();
        c.with_inline_size(size);
        other(&mut c);
        other(&mut c);
        let k = sym::pick(KINDS);
        let g = mk(flag(), false, anon(), vec![deep(1, stmt(k))]);
        let mut d = PrinterContext::default();
        d.with_inline_size(size);
        let (a, b) = (g.print(&mut c), g.print(&mut d));
        sym::observe(a.as_bytes());
        sym::check(a == b, "earlier prints change the text");
    }
    h_c13_q_parts {
        // values other than graphs, printed twice
        let sep = ["\n", ""][sym::pick(2)].to_string();
        let (mut c, o) = options(2, sep, symbolic_usize());
        let s = deep(1, stmt(sym::pick(KINDS)));
        let a = s.print(&mut c);
        let b = s.print(&mut c);
        let d = s.print(&mut context(&o));
        sym::observe(a.as_bytes());
        sym::check(a == b && a == d, "printing again gives another text");
    }
    h_c13_q_value_printer {
        // a value printer sees the same layout each time
        let mut c = PrinterContext::default();
        c.with_node_mult_attr_s_l().with_inline_size(symbolic_usize());
        c.with_attr_value_printer(plain("k"), Box::new(|v, l, i, s| format!("{}{}{}{}", v, l, i, s)));
        let k = sym::pick(KINDS);
        let g = mk(true, false, anon(), vec![subg(anon(), vec![stmt(k)])]);
        let (a, b) = (print(g.clone(), &mut c), g.print(&mut c));
        sym::observe(a.as_bytes());
        sym::check(a == b, "printing again gives another text");
    }
    h_c13_q_names {
        // values with symbolic words, printed between two prints of another
        let mut c = PrinterContext::default();
        c.with_inline_size([0, 40, 90][sym::pick(3)]);
        if flag() { c.with_node_mult_attr_s_l(); }
        let (k, l) = (sym::pick(PLACES), sym::pick(PLACES));
        let i = Id::Plain(word(5));
        let g = placed(k, i);
        let a = g.print(&mut c);
        let h = placed(l, Id::Plain(word(5)));
        let _ = h.print(&mut c);
        let b = g.print(&mut c);
        sym::observe(a.as_bytes());
        sym::check(a == b, "another print in between changes the text");
    }
    h_c13_q_many {
        // many prints with one context
        let mut c = PrinterContext::default();
        c.with_inline_size([0, 50, 90][sym::pick(3)]);
        let k = sym::pick(KINDS);
        let g = mk(true, false, anon(), vec![deep(1, stmt(k)), long_edge(1)]);
        let a = g.print(&mut c);
        for _ in 0..[3, 11][sym::pick(2)] {
            let b = print(g.clone(), &mut c);
            sym::check(a == b, "printing again gives another text");
        }
        sym::observe(a.as_bytes());
    }
    h_c13_q_big {
        // a large value, twice, and another after it
        let mut c = PrinterContext::default();
        c.with_inline_size([0, 90, 100_000][sym::pick(3)]);
        if flag() { c.with_node_mult_attr_s_l(); }
        let g = large(true, false);
        let h = rich(true);
        let z = h.print(&mut c);
        let a = g.print(&mut c);
        let y = h.print(&mut c);
        let b = print(g.clone(), &mut c);
        sym::observe(a.as_bytes());
        sym::check(a == b, "printing again gives another text");
        sym::check(z == y, "a large print in between changes the text");
    }
    h_c13_q_big_many {
        // hundreds of prints
        let mut c = PrinterContext::default();
        c.with_inline_size([0, 90][sym::pick(2)]);
        let s = stmt(9);
        let g = mk(true, false, anon(), vec![s]);
        let a = g.print(&mut c);
        for _ in 0..300 {
            let b = g.print(&mut c);
            sym::check(a == b, "printing again gives another text");
        }
        sym::observe(a.as_bytes());
    }
    h_c13_q_attr_words {
        let (k, v) = pair_of_words();
        let mut c = PrinterContext::default();
        if flag() { c.with_node_mult_attr_s_l().with_inline_size(25); }
        let (g, h) = (mk(true, false, anon(), vec![pair_host(k, v)]), mk(false, false, anon(), vec![stmt(9), host(1, a2())]));
        let x = h.print(&mut c);
        let y = g.print(&mut c);
        sym::observe(y.as_bytes());
        sym::check(x == h.print(&mut c), "printing in between changes the text");
        sym::check(y == g.print(&mut c), "the second print differs");
    }
    h_c13_q_long_text {
        let k = [0, 2, 4, 7, 9, 13][sym::pick(6)];
        let (g, h) = (placed(k, long_text(&[30, 90, 300])), mk(false, false, anon(), vec![host(0, a2())]));
        let mut c = PrinterContext::default();
        let x = h.print(&mut c);
        let y = g.print(&mut c);
        sym::observe(y.as_bytes());
        sym::check(x == h.print(&mut c), "printing in between changes the text");
        sym::check(y == g.print(&mut c), "the second print differs");
    }
    h_c13_q_lengths {
        // edges of every length around the inline size, one after the other
        let size = [90, 40][sym::pick(2)];
        let mut c = PrinterContext::default();
        c.with_inline_size(size).with_node_mult_attr_s_l();
        let e = |n: usize| mk(true, false, anon(), vec![chain(vec![vn(plain(&"x".repeat(n))), vn(plain("b")), vs(anon(), vec![])], a2())]);
        let g = e(size - 35 + sym::pick(30));
        let h = e(size - 35 + sym::pick(30));
        let x = h.print(&mut c);
        let y = g.print(&mut c);
        sym::observe(y.as_bytes());
        sym::check(x == h.print(&mut c), "printing in between changes the text");
        sym::check(y == g.print(&mut c), "the second print differs");
    }
    h_c13_q_printers {
        // printers registered for names and values: each print asks them again
        let mut c = PrinterContext::default();
        let (x, n) = (word(1 + sym::pick(3)), 1 + sym::pick(2));
        c.with_inline_size([0, 90][sym::pick(2)]);
        // one changes every value, one only some, one none
        let f = sym::pick(4);
        c.with_attr_value_printer(plain(&x), Box::new(move |v, _, _, _| match f { 0 => format!("{}!", v), 1 => v.trim_matches('"').to_string(), 2 => v.to_string(), _ => String::new() }));
        let l = || vec![attr(plain(&x), [plain("v"), esc("\"w w\"")][sym::pick(2)].clone()), attr(letter(), plain(&x)), attr(plain("k"), letter()), attr(plain(&x), esc("\"u\""))];
        let g = mk(true, false, anon(), (0..n).map(|j| host([0, 1, 2, 5][sym::pick(4)], if j == 0 { l() } else { a2() })).collect());
        let h = mk(false, false, anon(), vec![host(0, l()), node(plain(&x), vec![])]);
        let (a, b) = (g.print(&mut c), h.print(&mut c));
        sym::observe(a.as_bytes());
        sym::check(a == g.print(&mut c), "the second print differs");
        sym::check(b == h.print(&mut c), "printing in between changes the text");
        c.with_attr_value_printer(plain("k"), Box::new(|v, _, _, _| format!("<{}>", v)));
        let (d, e) = (print(g.clone(), &mut c), h.print(&mut c));
        sym::check(d == g.print(&mut c) && e == h.print(&mut c), "the second print differs after a printer was added");
    }
    h_c13_q_combined {
        // any graph under any options: again, after another, and its parts
        let mut q = combo::row(213, 32768);
        let g = combo::graph(&mut q);
        let (mut c, o) = combo::options(&mut q);
        let x = g.print(&mut c);
        sym::observe(x.as_bytes());
        match q.f(3) {
            0 => { let h = combo::graph(&mut q); let y = h.print(&mut c); sym::observe(y.as_bytes()); }
            1 => { for s in parts(&g).3 { let a = s.print(&mut c); sym::check(a == s.print(&mut c), "the second print of a statement differs"); } }
            _ => {}
        }
        sym::check(x == g.print(&mut c), "the second print differs");
        sym::check(x == g.print(&mut combo::context(&o, true)) && x == g.print(&mut combo::context(&o, false)), "a fresh context with the same options gives another text");
    }
    h_c13_t_combined {
        // any graph under any options: again, after another, and its parts
        let mut q = combo::row(1213, 32768);
        let g = combo::graph(&mut q);
        let (mut c, o) = combo::options(&mut q);
        let x = g.print(&mut c);
        sym::observe(x.as_bytes());
        match q.f(3) {
            0 => { let h = combo::graph(&mut q); let y = h.print(&mut c); sym::observe(y.as_bytes()); }
            1 => { for s in parts(&g).3 { let a = s.print(&mut c); sym::check(a == s.print(&mut c), "the second print of a statement differs"); } }
            _ => {}
        }
        sym::check(x == g.print(&mut c), "the second print differs");
        sym::check(x == g.print(&mut combo::context(&o, true)) && x == g.print(&mut combo::context(&o, false)), "a fresh context with the same options gives another text");
    }
    h_c13_t_history {
        let sep = ["\n", ""][sym::pick(2)].to_string();
        let (mut c, o) = options(2, sep, symbolic_usize());
        for _ in 0..2 { other(&mut c) }
        let k = sym::pick(KINDS);
        let g = mk(flag(), false, anon(), vec![deep(1, stmt(k)), node(letter(), vec![])]);
        let a = g.print(&mut c);
        let b = g.print(&mut context(&o));
        sym::check(a == b, "earlier prints change the text");
    }

    // ---- C14 anonymous identifiers
    h_c14_q_print {
        let n = [0, 1, 2, 3, 8, 19, 20, 24][sym::pick(8)];
        let t = [plain("x"), esc("\"x\"")][sym::pick(2)].clone();
        let sep = ["\n", ""][sym::pick(2)].to_string();
        let (mut c, _) = options(2, sep, [0, 90][sym::pick(2)]);
        let (g, h) = anonymous(n, t);
        let (a, b) = (g.print(&mut c), h.print(&mut c));
        sym::observe(a.as_bytes());
        sym::check(a == b, "an internal name reaches the output");
    }
    h_c14_q_text {
        // written exactly as the layout without a name
        let n = [0, 1, 2, 5, 10, 18, 19, 20, 21, 30][sym::pick(10)];
        let (di, strict) = (flag(), flag());
        let g = mk(di, strict, anon_named(n), vec![subg(anon_named(n), vec![]), pair(vn(plain("a")), vs(anon_named(n), vec![node(plain("b"), vec![])]), vec![])]);
        let t = print(g.clone(), &mut PrinterContext::default());
        sym::observe(t.as_bytes());
        sym::check(t == refq::print(&g, &Opt::default()), "an anonymous graph is printed with something else");
        let h = graphviz_rust::parse(&t);
        sym::check(matches!(&h, Ok(h) if eq_graph(h, &g)), "anonymous parts come back named");
    }
    h_c14_q_parse {
        let b = blanks(1);
        let k = sym::pick(6);
        let d = [
            cat(&[b"graph", b.as_bytes(), b"{}"]),
            cat(&[b"strict digraph", b.as_bytes(), b"{subgraph{}}"]),
            cat(&[b"graph{subgraph", b.as_bytes(), b"{a}subgraph{subgraph{}}}"]),
            cat(&[b"digraph{a->subgraph", b.as_bytes(), b"{b}}"]),
            cat(&[b"digraph{subgraph", b.as_bytes(), b"{b}->subgraph{c}->d}"]),
            cat(&[b"digraph/**/{subgraph/**/{}", b.as_bytes(), b"}"]),
        ][k].clone();
        match graphviz_rust::parse(utf8(&d)) {
            Ok(g) => { observe_graph(&g); sym::check(all_anonymous(&g), "an anonymous part came back named") }
            Err(_) => sym::fail("rejected"),
        }
    }
    h_c14_q_named {
        // a named part is never anonymous, whatever its name
        let i = any_id(2);
        sym::assume(!is_keyword(&i));
        let t = refq::id(&i).to_string();
        let d = cat(&[b"graph ", t.as_bytes(), b" {subgraph ", t.as_bytes(), b" {}}"]);
        match graphviz_rust::parse(utf8(&d)) {
            Ok(g) => {
                observe_graph(&g);
                let (_, _, j, v) = parts(&g);
                sym::check(eq_id(j, &i) && matches!(&v[..], [Stmt::Subgraph(s)] if eq_id(&s.id, &i)), "a name was lost");
            }
            Err(_) => sym::fail("rejected"),
        }
    }
    h_c14_q_big {
        // many anonymous parts, long and repeated internal names
        let n = [33, 65, 129, 257][sym::pick(4)];
        let m = [0, 1, 20, 300][sym::pick(4)];
        let mut name = vec![b'1'; m];
        if m > 0 { name[m - 1] = byte(); sym::assume(name[m - 1] < 0x80) }
        let k = sym::pick(3);
        let f = |t: &dyn Fn() -> Id| {
            let v: Vec<Stmt> = (0..n).map(|_| subg(t(), vec![])).collect();
            match k {
                0 => mk(true, false, t(), v),
                1 => mk(false, false, t(), vec![pair(vn(plain("a")), vs(t(), v), vec![])]),
                _ => mk(true, true, t(), vec![chain((0..n).map(|_| vs(t(), vec![])).collect(), vec![])]),
            }
        };
        let (g, h) = (f(&|| Id::Anonymous(st(name.clone()))), f(&anon));
        let mut c = PrinterContext::default();
        let (a, b) = (g.print(&mut c), h.print(&mut c));
        sym::observe(a.as_bytes());
        sym::check(a == b, "an internal name reaches the output");
        let p = graphviz_rust::parse(&a);
        sym::check(matches!(&p, Ok(p) if eq_graph(p, &g)), "anonymous parts come back named");
    }
    h_c14_q_attr_words {
        // what an anonymous subgraph holds does not name it
        let (k, v) = pair_of_words();
        let (first, a) = ([Stmt::Attribute(attr(k.clone(), v.clone())), Stmt::GAttribute(GraphAttributes::Graph(vec![attr(k, v)]))][sym::pick(2)].clone(), node(plain("a"), vec![]));
        let more = vec![first, a];
        let s = sym::pick(3);
        let f = |x: Id| mk(true, false, anon(), vec![match s { 0 => subg(x, more.clone()), 1 => pair(vs(x, more.clone()), vn(plain("b")), vec![]), _ => subg(plain("o"), vec![subg(x, more.clone())]) }]);
        let mut c = PrinterContext::default();
        let a = f(anon_named(1)).print(&mut c);
        sym::observe(a.as_bytes());
        sym::check(a == f(anon()).print(&mut c), "an internal name reaches the output");
        match graphviz_rust::parse(&a) {
            Ok(g) => sym::check(eq_graph(&g, &f(anon())), "anonymous parts come back named"),
            Err(_) => sym::fail("rejected"),
        }
    }
    h_c14_q_holding {
        // a named part does not lend its name to the anonymous ones around it
        let w = match sym::pick(3) { 0 => plain(["cluster", "cluster_0", "clusterA", "subgraph1", "G", "main", "root", "default", "_", "_1", "graph1", "anonymous", "anon", "none", "null", "unnamed"][sym::pick(16)]), 1 => plain(&["cluster", &st(vec![range(b'a', b'z')])].concat()), _ => esc(["\"\"", "\"cluster\"", "\"G\""][sym::pick(3)]) };
        let a = node(plain("a"), vec![]);
        let v = match sym::pick(5) {
            0 => vec![subg(w, vec![a])],
            1 => vec![subg(anon(), vec![subg(w, vec![a])])],
            2 => vec![pair(vs(anon(), vec![subg(w, vec![])]), vn(plain("a")), vec![])],
            3 => vec![node(w, vec![])],
            _ => vec![subg(w, vec![subg(anon(), vec![a])]), subg(anon(), vec![])],
        };
        let g = mk(flag(), flag(), anon(), v);
        let t = g.print(&mut PrinterContext::default());
        sym::check(t == refq::print(&g, &Opt::default()), "an anonymous graph is printed with something else");
        for t in [t, g.print(PrinterContext::default().always_inline())] {
            match graphviz_rust::parse(&t) {
                Ok(h) => { observe_graph(&h); sym::check(eq_graph(&h, &g), "anonymous parts come back named") }
                Err(_) => sym::fail("rejected"),
            }
        }
    }
    h_c14_q_combined {
        // any graph with other internal names, and what the parser makes of it
        let mut q = combo::row(214, 8192);
        let g = combo::graph(&mut q);
        let n = q.f(4);
        let t = st(window(n));
        let mut i = 0;
        let h = combo::map(&g, &mut |a| a.clone(), &mut |x| match x { Id::Anonymous(_) => { i += 1; Id::Anonymous(if i % 2 == 0 { t.clone() } else { [&t, "1"].concat() }) } _ => x.clone() });
        let (mut c, _) = combo::options(&mut q);
        let x = g.print(&mut c);
        sym::observe(x.as_bytes());
        sym::check(x == h.print(&mut c), "the text depends on an internal name");
        match graphviz_rust::parse(&x) {
            Ok(r) => sym::check(eq_graph(&r, &h), "anonymous parts are not anonymous after parsing"),
            Err(_) => sym::fail("the printed text is not a document"),
        }
    }
    h_c14_t_combined {
        // any graph with other internal names, and what the parser makes of it
        let mut q = combo::row(1214, 32768);
        let g = combo::graph(&mut q);
        let n = q.f(4);
        let t = st(window(n));
        let mut i = 0;
        let h = combo::map(&g, &mut |a| a.clone(), &mut |x| match x { Id::Anonymous(_) => { i += 1; Id::Anonymous(if i % 2 == 0 { t.clone() } else { [&t, "1"].concat() }) } _ => x.clone() });
        let (mut c, _) = combo::options(&mut q);
        let x = g.print(&mut c);
        sym::observe(x.as_bytes());
        sym::check(x == h.print(&mut c), "the text depends on an internal name");
        match graphviz_rust::parse(&x) {
            Ok(r) => sym::check(eq_graph(&r, &h), "anonymous parts are not anonymous after parsing"),
            Err(_) => sym::fail("the printed text is not a document"),
        }
    }
    h_c14_t_print {
        let (g, h) = anonymous(8, plain("x"));
        let sep = ["\n", ""][sym::pick(2)].to_string();
        let (mut c, _) = options(2, sep, symbolic_usize());
        let (a, b) = (g.print(&mut c), h.print(&mut c));
        sym::check(a == b, "an internal name reaches the output");
    }

    // ---- C15 edge operator
    h_c15_q_depth {
        let di = flag();
        let d = sym::pick(5);
        let sep = ["\n", ""][sym::pick(2)].to_string();
        let mut c = PrinterContext::default();
        c.with_line_sep(sep).with_inline_size(symbolic_usize());
        let s = deep(d, stmt([7, 9][sym::pick(2)]));
        operators(&mk(di, false, anon(), vec![s]), &mut c);
    }
    h_c15_q_kinds {
        let (di, strict) = (flag(), flag());
        let (mut c, _) = options(2, "\n".to_string(), symbolic_usize());
        let k = 7 + sym::pick(14);
        operators(&mk(di, strict, letter(), vec![stmt(k), stmt(9)]), &mut c);
    }
    h_c15_q_history {
        // whatever was printed before
        let mut c = PrinterContext::default();
        c.with_inline_size([0, 90][sym::pick(2)]);
        other(&mut c);
        other(&mut c);
        let di = flag();
        operators(&mk(di, flag(), anon(), vec![stmt(7), stmt(14)]), &mut c);
    }
    h_c15_q_parsed {
        // the operator in the source does not matter
        let op: [&[u8]; 2] = [b"--", b"->"];
        let (p, q) = (op[sym::pick(2)], op[sym::pick(2)]);
        let di = flag();
        let d = cat(&[if di { b"digraph{a" } else { b"graph{a" }, p, &[range(b'a', b'z')], q, b"subgraph{c", p, b"d}subgraph{e", q, b"f}}"]);
        let Ok(g) = graphviz_rust::parse(utf8(&d)) else { sym::fail("rejected") };
        operators(&g, &mut PrinterContext::default());
    }
    h_c15_q_names {
        let di = flag();
        let i = Id::Plain(word([5, 7][sym::pick(2)]));
        let k = [7, 8, 9, 10, 11, 15][sym::pick(6)];
        sym::assume(!is_keyword(&i));
        let g = match placed(k, i) { Graph::DiGraph { id, strict, stmts } => mk(di, strict, id, stmts), g => g };
        operators(&g, &mut PrinterContext::default());
    }
    h_c15_q_long {
        // chains of many ends and bodies of many statements
        let di = flag();
        let mut c = PrinterContext::default();
        c.with_inline_size([0, 1000][sym::pick(2)]);
        let n = 3 + sym::pick(12);
        let s = chain((0..n).map(|j| if j % 4 == 3 { vs(anon(), vec![pair(vn(plain("u")), vn(letter()), vec![])]) } else { vn(letter()) }).collect(), vec![]);
        operators(&mk(di, false, anon(), vec![subg(plain("s"), (0..n).map(|_| stmt(7)).collect()), s]), &mut c);
    }
    h_c15_q_big {
        let g = large(flag(), flag());
        let mut c = PrinterContext::default();
        c.with_inline_size([0, 90, 100_000][sym::pick(3)]);
        operators(&g, &mut c);
    }
    h_c15_q_attr_words {
        // attributes of edges do not turn them
        let (k, v) = pair_of_words();
        let l = list_with(k, v);
        let e = match sym::pick(3) { 0 => pair(vn(plain("a")), vn(plain("b")), l), 1 => chain(vec![vn(plain("a")), vs(anon(), vec![pair(vn(plain("a")), vn(plain("b")), l.clone())]), vn(plain("b"))], l), _ => subg(plain("s"), vec![Stmt::GAttribute(GraphAttributes::Edge(l)), stmt(7)]) };
        let mut c = PrinterContext::default();
        let g = mk(flag(), false, anon(), vec![e, stmt(7)]);
        let t = g.print(&mut c);
        sym::observe(t.as_bytes());
        sym::check(bonds(&t) == bonds(&refq::print(&g, &Opt::default())), "edge operator");
    }
    h_c15_q_quoted {
        // operators inside names and values are text
        let mut s = [&b"\"->\""[..], b"\"a--b\"", b"<-->", b"\"->--\"", b"\"--\""][sym::pick(5)].to_vec();
        if flag() { s.insert(1, range(b'a', b'z')) }
        let i = if s[0] == b'<' { Id::Html(st(s)) } else { Id::Escaped(st(s)) };
        let (k, di) = ([4, 8, 9, 10, 11, 13, 14, 15, 7, 0][sym::pick(10)], flag());
        let g = match placed(k, i) { Graph::DiGraph { id, strict, stmts } => mk(di, strict, id, stmts), Graph::Graph { id, strict, .. } => mk(di, strict, id, vec![stmt(7)]) };
        let t = g.print(&mut PrinterContext::default());
        sym::observe(t.as_bytes());
        sym::check(bonds(&t) == bonds(&refq::print(&g, &Opt::default())), "edge operator");
    }
    h_c15_q_combined {
        // as many operators of each kind as the model's text has, under any options
        let mut q = combo::row(215, 32768);
        let g = combo::graph(&mut q);
        let (mut c, o) = combo::options(&mut q);
        if q.on() { let h = combo::graph(&mut q); let y = h.print(&mut c); sym::observe(y.as_bytes()); }
        let t = g.print(&mut c);
        sym::observe(t.as_bytes());
        let w = refq::print(&g, &o);
        sym::check(bonds(&t) == bonds(&w), "edge operator");
    }
    h_c15_t_combined {
        // as many operators of each kind as the model's text has, under any options
        let mut q = combo::row(1215, 32768);
        let g = combo::graph(&mut q);
        let (mut c, o) = combo::options(&mut q);
        if q.on() { let h = combo::graph(&mut q); let y = h.print(&mut c); sym::observe(y.as_bytes()); }
        let t = g.print(&mut c);
        sym::observe(t.as_bytes());
        let w = refq::print(&g, &o);
        sym::check(bonds(&t) == bonds(&w), "edge operator");
    }
    h_c15_t_history {
        let mut c = PrinterContext::default();
        c.with_inline_size(symbolic_usize());
        for _ in 0..3 { other(&mut c) }
        let di = flag();
        let s = deep(2, stmt(9));
        operators(&mk(di, flag(), anon(), vec![s, stmt(14)]), &mut c);
    }

    // ---- C16 layout
    h_c16_q_pairs {
        let sep = ["\n", ""][sym::pick(2)].to_string();
        let (mut c, o) = options([2, 0, 3][sym::pick(3)], sep, symbolic_usize());
        let k = sym::pick(KINDS);
        layout(&mk(flag(), false, letter(), vec![stmt(k), stmt([0, 9][sym::pick(2)])]), &mut c, &o);
    }
    h_c16_q_separators {
        let n = sym::pick(3);
        let mut w = vec![0u8; n];
        sym::bytes(&mut w);
        for x in &w { sym::assume(*x < 0x80) }
        let (mut c, o) = options(1, st(w), [0, 60][sym::pick(2)]);
        layout(&rich(flag()), &mut c, &o);
    }
    h_c16_q_depth {
        let (mut c, o) = options([1, 4][sym::pick(2)], "\n".to_string(), symbolic_usize());
        let d = 1 + sym::pick(3);
        let s = stmt([0, 2, 9][sym::pick(3)]);
        layout(&mk(true, false, anon(), vec![deep(d, s), node(plain("b"), a2())]), &mut c, &o);
    }
    h_c16_q_steps {
        let (mut c, o) = options(sym::pick(17), "\n".to_string(), [0, 90][sym::pick(2)]);
        layout(&rich(true), &mut c, &o);
    }
    h_c16_q_threshold {
        // the exact inline limit, also for text longer in bytes than in characters
        let n = sym::pick(3);
        let s = pair(vn(plain("a")), vs(anon(), vec![node(Id::Escaped(st(cat(&[b"\"", &utf8_window(n), b"\""]))), vec![]), node(letter(), a2())]), a2());
        let (mut c, o) = options(2, "\n".to_string(), symbolic_usize());
        layout(&mk(true, false, anon(), vec![s]), &mut c, &o);
    }
    h_c16_q_builder {
        // builder calls in either order mean the same
        let mut c = PrinterContext::default();
        let size = symbolic_usize();
        let mut o = Opt::default();
        o.size = size;
        match sym::pick(4) {
            0 => { c.with_inline_size(size).with_line_sep("\r\n".to_string()).with_semi(); o.sep = "\r\n".to_string(); o.semi = true }
            1 => { c.with_semi().with_indent_step(6).with_inline_size(size); o.step = 6; o.semi = true }
            2 => { c.with_line_sep("\t".to_string()).always_inline().with_inline_size(size); o.sep = String::new() }
            _ => { c.with_inline_size(size).with_no_node_mult_attr_s_l_comma().with_node_mult_attr_s_l(); o.mult = true; o.comma = false }
        }
        let k = sym::pick(KINDS);
        layout(&mk(true, true, plain("g"), vec![subg(plain("s"), vec![stmt(k)]), stmt(1)]), &mut c, &o);
    }
    h_c16_q_parts {
        // a statement printed on its own stands at the margin
        let sep = ["\n", ""][sym::pick(2)].to_string();
        let (mut c, o) = options(2, sep, symbolic_usize());
        let s = deep(1, stmt(sym::pick(KINDS)));
        let t = s.print(&mut c);
        sym::observe(t.as_bytes());
        sym::check(t == refq::print_stmt(&s, &o, 0, false), "layout of a statement");
    }
    h_c16_q_long {
        let n = 2 + sym::pick(8);
        let (mut c, o) = options(2, "\n".to_string(), 90);
        layout(&mk(true, false, anon(), vec![long_edge(n), subg(anon(), (0..n).map(|_| node(letter(), a2())).collect())]), &mut c, &o);
    }
    h_c16_q_names {
        let (mut c, o) = options(2, ["\n", ""][sym::pick(2)].to_string(), [0, 30][sym::pick(2)]);
        let k = sym::pick(PLACES);
        layout(&placed(k, Id::Plain(word([5, 7][sym::pick(2)]))), &mut c, &o);
    }
    h_c16_q_lists {
        let (mut c, o) = options(3, ["\n", ""][sym::pick(2)].to_string(), symbolic_usize());
        let h = sym::pick(6);
        let s = host(h, mixed(2));
        layout(&mk(true, false, anon(), vec![s, node(plain("x"), vec![])]), &mut c, &o);
    }
    h_c16_q_attributes {
        // the number of attributes
        let n = sym::pick(13);
        let (mut c, o) = options(2, ["\n", ""][sym::pick(2)].to_string(), [0, 90][sym::pick(2)]);
        let s = host(sym::pick(6), (0..n).map(|_| attr(plain("k"), letter())).collect());
        layout(&mk(true, false, anon(), vec![s, node(plain("x"), vec![])]), &mut c, &o);
    }
    h_c16_q_deeper {
        let d = 4 + sym::pick(9);
        let (mut c, o) = options([1, 2, 7][sym::pick(3)], "\n".to_string(), 90);
        let mut s = node(letter(), a2());
        for j in 0..d { s = subg(if j % 2 == 0 { anon() } else { plain("s") }, vec![s]) }
        layout(&mk(true, false, anon(), vec![s, node(plain("x"), a1())]), &mut c, &o);
    }
    h_c16_q_deep_kinds {
        // every statement at every depth
        let d = 1 + sym::pick(13);
        let (mut c, o) = options([1, 2, 7][sym::pick(3)], "\n".to_string(), [0, 90][sym::pick(2)]);
        let mut s = vec![stmt(sym::pick(KINDS)), subg([anon(), plain("e")][sym::pick(2)].clone(), vec![])];
        for j in 0..d { s = vec![subg(if j % 2 == 0 { anon() } else { plain("s") }, s)] }
        layout(&mk(true, false, anon(), s), &mut c, &o);
    }
    h_c16_q_big {
        let g = large(true, flag());
        let mut c = PrinterContext::default();
        let mut o = Opt::default();
        match sym::pick(6) {
            0 => {}
            1 => { c.always_inline(); o.sep = String::new() }
            2 => { c.with_semi().with_indent_step(1); o.semi = true; o.step = 1 }
            3 => { c.with_node_mult_attr_s_l(); o.mult = true }
            4 => { c.with_node_mult_attr_s_l().with_no_node_mult_attr_s_l_comma().with_inline_size(100_000); o.mult = true; o.comma = false; o.size = 100_000 }
            _ => { c.with_inline_size(0).with_line_sep("\r\n".to_string()); o.size = 0; o.sep = "\r\n".to_string() }
        }
        layout(&g, &mut c, &o);
    }
    h_c16_q_big_options {
        let mut o = Opt::default();
        o.step = [17, 33, 65, 257][sym::pick(4)];
        o.mult = flag();
        let n = [1, 9, 65, 257][sym::pick(4)];
        let b = ascii();
        o.sep = (b as char).to_string().repeat(n);
        o.size = [0, 90, 255, 256, 257, 1 << 16, 1 << 32, usize::MAX][sym::pick(8)];
        layout(&mk(true, false, anon(), vec![deep(1, stmt(9)), stmt(2)]), &mut context(&o), &o);
    }
    h_c16_q_attr_words {
        // no attribute has a layout of its own
        let (k, v) = pair_of_words();
        let o = [Opt::default(), Opt { semi: true, mult: true, size: 25, ..Opt::default() }, Opt { mult: true, comma: false, sep: String::new(), ..Opt::default() }][sym::pick(3)].clone();
        let mut c = combo::context(&o, true);
        layout(&mk(true, false, anon(), vec![pair_host(k, v)]), &mut c, &o);
    }
    h_c16_q_literal {
        let k = sym::pick(PLACES);
        let o = Opt { semi: flag(), ..Opt::default() };
        layout(&placed(k, literal(4 + sym::pick(9))), &mut context(&o), &o);
    }
    h_c16_q_escapes {
        let k = sym::pick(PLACES);
        let o = Opt { mult: flag(), ..Opt::default() };
        layout(&placed(k, escaped()), &mut context(&o), &o);
    }
    h_c16_q_long_text {
        let k = sym::pick(PLACES);
        let o = Opt { mult: flag(), size: [0, 90][sym::pick(2)], ..Opt::default() };
        layout(&placed(k, long_text(&[30, 90, 300])), &mut context(&o), &o);
    }
    h_c16_q_related {
        let o = Opt { mult: flag(), size: [0, 90][sym::pick(2)], ..Opt::default() };
        layout(&mk(true, false, anon(), related()), &mut context(&o), &o);
    }
    h_c16_q_alike {
        let (x, y) = alike();
        let o = Opt { mult: flag(), ..Opt::default() };
        layout(&similar(&x, &y), &mut context(&o), &o);
    }
    h_c16_q_combined {
        let mut q = combo::row(216, 32768);
        let g = combo::graph(&mut q);
        let (mut c, o) = combo::options(&mut q);
        layout(&g, &mut c, &o);
    }
    h_c16_t_combined {
        let mut q = combo::row(1216, 32768);
        let g = combo::graph(&mut q);
        let (mut c, o) = combo::options(&mut q);
        layout(&g, &mut c, &o);
    }
    h_c16_t_triples {
        let n = sym::pick(2);
        let (mut c, o) = options(2, blanks(n), symbolic_usize());
        let s = body(2);
        layout(&mk(flag(), false, letter(), vec![subg(anon(), s)]), &mut c, &o);
    }
    h_c16_t_depth {
        let (mut c, o) = options(3, "\n".to_string(), symbolic_usize());
        let k = sym::pick(KINDS);
        layout(&mk(true, false, anon(), vec![deep(3, stmt(k)), node(plain("b"), a2())]), &mut c, &o);
    }

    // ---- C17 attribute value printers
    h_c17_q_places {
        // every attribute position, registered key or not
        let k = [plain("k"), esc("\"k\""), html("<k>"), plain("kk")][sym::pick(4)].clone();
        let v = Id::Escaped(st(cat(&[b"\"", &window(2), b"\""])));
        let p = sym::pick(12);
        let g = attributed(p, k.clone(), v.clone());
        let mut c = PrinterContext::default();
        c.with_attr_value_printer(plain("k"), Box::new(|v, _, _, _| format!("[{}]", v)));
        let t = print(g.clone(), &mut c);
        sym::observe(t.as_bytes());
        let hit = matches!(&k, Id::Plain(s) if s == "k");
        let w = if hit { esc(&["[", refq::id(&v), "]"].concat()) } else { v };
        sym::check(t == refq::print(&attributed(p, k, w), &Opt::default()), "value printer applied wrongly");
    }
    h_c17_q_symbolic_key {
        // a symbolic key against a registered one
        let k = Id::Plain(st(vec![range(b'j', b'l')]));
        let g = attributed(sym::pick(12), k.clone(), plain("v"));
        let mut c = PrinterContext::default();
        c.with_attr_value_printer(plain("k"), Box::new(|v, _, _, _| format!("<{}>", v)));
        let t = g.print(&mut c);
        sym::observe(t.as_bytes());
        let hit = matches!(&k, Id::Plain(s) if s == "k");
        let p = 0;
        let _ = p;
        sym::check(t.contains("<v>") == hit && t.contains("=v") != hit, "value printer applied wrongly");
    }
    h_c17_q_known_keys {
        // names Graphviz knows, registered and used in every combination
        let names = ["label", "color", "shape", "labels", "Label", "xlabel", "style", "pos", "URL", "url"];
        let (i, j) = (sym::pick(names.len()), sym::pick(names.len()));
        let v = value(sym::pick(4));
        let p = sym::pick(12);
        let g = attributed(p, plain(names[j]), v.clone());
        let mut c = PrinterContext::default();
        c.with_attr_value_printer(plain(names[i]), Box::new(|v, _, _, _| format!("({})", v)));
        let t = g.print(&mut c);
        sym::observe(t.as_bytes());
        let w = if i == j { plain(&["(", refq::id(&v), ")"].concat()) } else { v };
        sym::check(t == refq::print(&attributed(p, plain(names[j]), w), &Opt::default()), "value printer applied wrongly");
    }
    h_c17_q_kinds {
        // keys of every kind, registered and used in every combination
        let keys = [plain("k"), esc("\"k\""), html("<k>"), plain("1"), esc("\"\""), esc("k"), html("k")];
        let (i, j) = (sym::pick(keys.len()), sym::pick(keys.len()));
        let v = letter();
        let p = sym::pick(12);
        let (mut c, o) = options(2, ["\n", ""][sym::pick(2)].to_string(), 90);
        c.with_attr_value_printer(keys[i].clone(), Box::new(|v, _, _, _| format!("({})", v)));
        let t = attributed(p, keys[j].clone(), v.clone()).print(&mut c);
        sym::observe(t.as_bytes());
        let w = if i == j { plain(&["(", refq::id(&v), ")"].concat()) } else { v };
        sym::check(t == refq::print(&attributed(p, keys[j].clone(), w), &o), "value printer applied wrongly");
    }
    h_c17_q_last_wins {
        let mut c = PrinterContext::default();
        let (i, j) = (sym::pick(3), sym::pick(3));
        let keys = [plain("k"), plain("l"), esc("\"k\"")];
        c.with_attr_value_printer(keys[i].clone(), Box::new(|v, _, _, _| format!("1{}", v)));
        c.with_attr_value_printer(keys[j].clone(), Box::new(|v, _, _, _| format!("2{}", v)));
        let at: Vec<Attribute> = keys.iter().map(|k| attr(k.clone(), letter())).collect();
        let want: Vec<Attribute> = at.iter().enumerate().map(|(n, a)| attr(a.0.clone(), plain(&[if n == j { "2" } else if n == i { "1" } else { "" }, refq::id(&a.1)].concat()))).collect();
        let t = mk(true, false, anon(), vec![node(plain("a"), at)]).print(&mut c);
        sym::observe(t.as_bytes());
        sym::check(t == refq::print(&mk(true, false, anon(), vec![node(plain("a"), want)]), &Opt::default()), "value printer applied wrongly");
    }
    h_c17_q_layout {
        // the printer is given the value and the current layout
        let sep = ["\n", "\t", ""][sym::pick(3)].to_string();
        let step = [2, 5, 0][sym::pick(3)];
        let flat = sep.is_empty();
        let (mut c, o) = options(step, sep.clone(), 0);
        c.with_attr_value_printer(plain("k"), Box::new(|v, l, i, s| format!("({}|{}|{}|{})", v, l, i, s)));
        let v = Id::Plain(st(vec![range(b'a', b'z'), range(b'a', b'z')]));
        let d = sym::pick(3);
        let wrap = |v: Id| {
            let mut s = node(plain("a"), vec![attr(plain("j"), plain("1")), attr(plain("k"), v)]);
            for _ in 0..d { s = subg(plain("s"), vec![s]) }
            mk(true, false, anon(), vec![s])
        };
        let t = wrap(v.clone()).print(&mut c);
        sym::observe(t.as_bytes());
        let w = ["(", refq::id(&v), "|", &sep, "|", &" ".repeat(if flat { 0 } else { step * (d + 1) }), "|", ["0", "", "2", "", "", "5"][step], ")"].concat();
        sym::check(t == refq::print(&wrap(plain(&w)), &o), "value printer was given something else");
    }
    h_c17_q_edges {
        // inside an edge written on one line, the layout is the one-line layout
        let size = [0, 1000][sym::pick(2)];
        let mut c = PrinterContext::default();
        c.with_inline_size(size);
        c.with_attr_value_printer(plain("k"), Box::new(|v, l, i, _| format!("({}|{}|{})", v, l.len(), i.len())));
        let v = letter();
        let mkg = |v: Id| mk(true, false, anon(), vec![pair(vn(plain("a")), vs(anon(), vec![node(plain("b"), vec![attr(plain("k"), v.clone())])]), vec![]), node(plain("c"), vec![attr(plain("l"), v)])]);
        let t = mkg(v.clone()).print(&mut c);
        sym::observe(t.as_bytes());
        let w = ["(", refq::id(&v), if size == 0 { "|1|4)" } else { "|0|0)" }].concat();
        let o = Opt { size, ..Opt::default() };
        let mut e = mkg(plain(&w));
        if let Graph::DiGraph { stmts, .. } = &mut e { stmts[1] = node(plain("c"), vec![attr(plain("l"), v)]) }
        sym::check(t == refq::print(&e, &o), "value printer was given something else");
    }
    h_c17_q_values {
        // the value printed by each kind of identifier, and the untouched key
        let k = plain("key");
        let v = any_id(2);
        let mut c = PrinterContext::default();
        c.with_attr_value_printer(k.clone(), Box::new(|v, _, _, _| v.chars().rev().collect()));
        let t = attributed(1, k.clone(), v.clone()).print(&mut c);
        sym::observe(t.as_bytes());
        let w: String = refq::id(&v).chars().rev().collect();
        sym::check(t == refq::print(&attributed(1, k, plain(&w)), &Opt::default()), "value printer applied wrongly");
    }
    h_c17_q_texts {
        // whole, special and long values reach the printer as they are
        let k = plain(["key", "label"][sym::pick(2)]);
        let v = match sym::pick(3) { 0 => long_text(&[30, 90, 300]), 1 => escaped(), _ => literal(6) };
        let h = [1, 4, 5, 6][sym::pick(4)];
        let mut c = PrinterContext::default();
        c.with_attr_value_printer(k.clone(), Box::new(|v, _, _, _| ["(", v, ")"].concat()));
        let t = attributed(h, k.clone(), v.clone()).print(&mut c);
        sym::observe(t.as_bytes());
        sym::check(t == refq::print(&attributed(h, k, plain(&["(", refq::id(&v), ")"].concat())), &Opt::default()), "value printer applied wrongly");
    }
    h_c17_q_repeats {
        // lists that hold the same attribute several times, next to others
        let n = 1 + sym::pick(5);
        let f = |k: usize| [attr(plain("k"), plain("v")), attr(plain("k"), plain("w")), attr(plain("j"), plain("v"))][k].clone();
        let at: Vec<Attribute> = (0..n).map(|_| f(sym::pick(3))).collect();
        let want: Vec<Attribute> = at.iter().map(|a| if matches!(&a.0, Id::Plain(k) if k == "k") { attr(plain("k"), plain(&["(", refq::id(&a.1), ")"].concat())) } else { a.clone() }).collect();
        let h = [0, 1, 4][sym::pick(3)];
        let (mut c, o) = options(2, "\n".to_string(), 90);
        c.with_attr_value_printer(plain("k"), Box::new(|v, _, _, _| ["(", v, ")"].concat()));
        let t = mk(true, false, anon(), vec![host(h, at)]).print(&mut c);
        sym::observe(t.as_bytes());
        sym::check(t == refq::print(&mk(true, false, anon(), vec![host(h, want)]), &o), "value printer applied wrongly");
    }
    h_c17_q_big {
        // many registered keys, many attributes, long values
        let n = [33, 65, 129, 257][sym::pick(4)];
        let m = [1, 2, 20, 65][sym::pick(4)];
        let mut c = PrinterContext::default();
        let name = |i: usize| ["k", &i.to_string()].concat();
        for i in 0..m { c.with_attr_value_printer(plain(&name(2 * i)), Box::new(move |v, _, _, _| format!("{}({})", i, v))); }
        let x = letter();
        let at: Vec<Attribute> = (0..n).map(|i| attr(plain(&name(i)), if i == n - 1 { Id::Escaped(st(cat(&[b"\"", &fill(300, b'x'), b"\""]))) } else { [x.clone(), esc("\"\""), html("<>"), html("<<b>x</b>>"), plain("-.5"), esc("\"a b\"")][i % 7 % 6].clone() })).collect();
        let want: Vec<Attribute> = at.iter().enumerate().map(|(i, a)| if i % 2 == 0 && i / 2 < m { attr(a.0.clone(), plain(&format!("{}({})", i / 2, refq::id(&a.1)))) } else { a.clone() }).collect();
        let h = sym::pick(6);
        let t = mk(true, false, anon(), vec![host(h, at)]).print(&mut c);
        sym::observe(t.as_bytes());
        sym::check(t == refq::print(&mk(true, false, anon(), vec![host(h, want)]), &Opt::default()), "value printer applied wrongly");
    }
    h_c17_q_combined {
        // two printers on any graph under any options
        let mut q = combo::row(217, 32768);
        let g = combo::graph(&mut q);
        let (mut c, o) = combo::options(&mut q);
        // half of the keys become the registered ones
        let ks = [Id::Plain("k".into()), Id::Escaped("\"k\"".into()), Id::Html("<k>".into()), Id::Plain("kk".into()), Id::Plain("1".into())];
        let (a, b) = (q.f(5), q.f(5));
        let mut j = q.f(9);
        let g = combo::map(&g, &mut |x| { j += 1; if j % 2 == 0 { attr(ks[j / 2 % 5].clone(), x.1.clone()) } else { x.clone() } }, &mut |n| n.clone());
        c.with_attr_value_printer(ks[a].clone(), Box::new(|v, _, _, _| format!("({})", v)));
        c.with_attr_value_printer(ks[b].clone(), Box::new(|v, _, _, _| format!("{}!", v)));
        let w = combo::map(&g, &mut |x| if x.0 == ks[b] { attr(x.0.clone(), plain(&[refq::id(&x.1), "!"].concat())) } else if x.0 == ks[a] { attr(x.0.clone(), plain(&["(", refq::id(&x.1), ")"].concat())) } else { x.clone() }, &mut |n| n.clone());
        let t = print(g.clone(), &mut c);
        sym::observe(t.as_bytes());
        sym::check(t == refq::print(&w, &o), "value printer applied wrongly");
    }
    h_c17_t_combined {
        // two printers on any graph under any options
        let mut q = combo::row(1217, 32768);
        let g = combo::graph(&mut q);
        let (mut c, o) = combo::options(&mut q);
        // half of the keys become the registered ones
        let ks = [Id::Plain("k".into()), Id::Escaped("\"k\"".into()), Id::Html("<k>".into()), Id::Plain("kk".into()), Id::Plain("1".into())];
        let (a, b) = (q.f(5), q.f(5));
        let mut j = q.f(9);
        let g = combo::map(&g, &mut |x| { j += 1; if j % 2 == 0 { attr(ks[j / 2 % 5].clone(), x.1.clone()) } else { x.clone() } }, &mut |n| n.clone());
        c.with_attr_value_printer(ks[a].clone(), Box::new(|v, _, _, _| format!("({})", v)));
        c.with_attr_value_printer(ks[b].clone(), Box::new(|v, _, _, _| format!("{}!", v)));
        let w = combo::map(&g, &mut |x| if x.0 == ks[b] { attr(x.0.clone(), plain(&[refq::id(&x.1), "!"].concat())) } else if x.0 == ks[a] { attr(x.0.clone(), plain(&["(", refq::id(&x.1), ")"].concat())) } else { x.clone() }, &mut |n| n.clone());
        let t = print(g.clone(), &mut c);
        sym::observe(t.as_bytes());
        sym::check(t == refq::print(&w, &o), "value printer applied wrongly");
    }
    h_c17_t_places {
        let k = [plain("k"), esc("\"k\""), html("<k>"), plain("kk")][sym::pick(4)].clone();
        let v = Id::Escaped(st(cat(&[b"\"", &window(2), b"\""])));
        let p = sym::pick(6);
        let g = attributed(p, k.clone(), v.clone());
        let sep = ["\n", ""][sym::pick(2)].to_string();
        let (mut c, o) = options(2, sep, symbolic_usize());
        c.with_attr_value_printer(plain("k"), Box::new(|v, _, _, _| v.to_string()));
        let t = g.print(&mut c);
        let u = refq::print(&g, &o);
        sym::check(t == u, "a value printer that returns the value changes the text");
    }

    // ---- C18 explicit constructor
    h_c18_q_kinds {
        let (semi, step) = (flag(), sym::pick(5));
        let n = sym::pick(3);
        let sep = blanks(n);
        let size = symbolic_usize();
        let k = sym::pick(KINDS);
        let g = mk(flag(), false, anon(), vec![stmt(k), node(letter(), a2())]);
        constructor(&g, semi, step, sep, size, 0);
    }
    h_c18_q_text {
        // any separator text
        let n = sym::pick(4);
        let mut w = vec![0u8; n];
        sym::bytes(&mut w);
        for x in &w { sym::assume(*x < 0x80) }
        constructor(&rich(flag()), flag(), 2, st(w), [0, 50][sym::pick(2)], 0);
    }
    h_c18_q_more {
        // further builder calls on both
        let k = 1 + sym::pick(7);
        let n = sym::pick(2);
        let sep = blanks(n);
        constructor(&rich(true), flag(), 3, sep, symbolic_usize(), k);
    }
    h_c18_q_nested {
        let d = sym::pick(4);
        let s = stmt([0, 9, 12][sym::pick(3)]);
        constructor(&mk(true, true, letter(), vec![deep(d, s), stmt(2)]), flag(), sym::pick(3), ["\n", ""][sym::pick(2)].to_string(), symbolic_usize(), 0);
    }
    h_c18_q_big {
        // large values, and large options
        let (step, size) = ([0, 17, 65, 257][sym::pick(4)], [0, 90, 255, 256, 257, 1 << 16, usize::MAX][sym::pick(7)]);
        let n = [0, 1, 9, 65][sym::pick(4)];
        let b = ascii();
        constructor(&mk(true, false, anon(), vec![deep(1, stmt(9)), stmt(2)]), flag(), step, (b as char).to_string().repeat(n), size, sym::pick(7));
    }
    h_c18_q_big_values {
        let g = large(true, false);
        constructor(&g, flag(), 2, ["\n", ""][sym::pick(2)].to_string(), [0, 90, 100_000][sym::pick(3)], 0);
    }
    h_c18_q_combined {
        let mut q = combo::row(218, 32768);
        let g = combo::graph(&mut q);
        let (_, o) = combo::options(&mut q);
        constructor(&g, o.semi, o.step, o.sep, o.size, q.f(7));
    }
    h_c18_t_combined {
        let mut q = combo::row(1218, 32768);
        let g = combo::graph(&mut q);
        let (_, o) = combo::options(&mut q);
        constructor(&g, o.semi, o.step, o.sep, o.size, q.f(7));
    }
    h_c18_t_kinds {
        let n = sym::pick(2);
        let s = body(2);
        constructor(&mk(flag(), false, anon(), s), flag(), 2, blanks(n), symbolic_usize(), sym::pick(7));
    }
}

/// Prints something unrelated with the context.
fn other(c: &mut PrinterContext) {
    let t = match sym::pick(7) {
        0 => rich(true).print(c),
        1 => mk(false, false, anon(), vec![long_edge(2)]).print(c),
        2 => stmt(15).print(c),
        3 => stmt(14).print(c),
        4 => a3().print(c),
        5 => mk(true, true, anon(), vec![]).print(c),
        _ => mk(false, false, anon(), vec![stmt(12), stmt(20)]).print(c),
    };
    sym::observe(t.as_bytes());
}
fn layout(g: &Graph, c: &mut PrinterContext, o: &Opt) {
    let t = print(g.clone(), c);
    sym::observe(t.as_bytes());
    sym::check(t == refq::print(g, o), "layout");
}
fn constructor(g: &Graph, semi: bool, step: usize, sep: String, size: usize, more: usize) {
    let mut a = PrinterContext::new(semi, step, sep.clone(), size);
    let mut b = PrinterContext::default();
    if semi {
        b.with_semi();
    }
    b.with_indent_step(step).with_line_sep(sep).with_inline_size(size);
    for c in [&mut a, &mut b] {
        match more {
            0 => c,
            1 => c.with_node_mult_attr_s_l(),
            2 => c.always_inline(),
            3 => c.with_node_mult_attr_s_l().with_no_node_mult_attr_s_l_comma(),
            4 => c.with_line_sep("\n".to_string()),
            5 => c.with_semi().with_indent_step(1),
            7 => c.with_attr_value_printer(plain("k"), Box::new(|v, l, i, s| format!("{}|{}|{}|{}", v, l.len(), i.len(), s))),
            _ => c.with_inline_size(40).with_node_mult_attr_s_l(),
        };
    }
    let (x, y) = (print(g.clone(), &mut a), g.print(&mut b));
    sym::observe(x.as_bytes());
    sym::check(x == y, "the constructor means something else than the builder");
    let (x, y) = (g.print(&mut a), print(g.clone(), &mut b));
    sym::check(x == y, "the constructor means something else than the builder (second print)");
}
fn count_edges(v: &[Stmt]) -> usize {
    fn vertex(v: &Vertex) -> usize {
        match v {
            Vertex::N(_) => 0,
            Vertex::S(s) => count_edges(&s.stmts),
        }
    }
    v.iter()
        .map(|s| match s {
            Stmt::Edge(Edge { ty: EdgeTy::Pair(a, b), .. }) => 1 + vertex(a) + vertex(b),
            Stmt::Edge(Edge { ty: EdgeTy::Chain(v), .. }) => v.len() - 1 + v.iter().map(vertex).sum::<usize>(),
            Stmt::Subgraph(s) => count_edges(&s.stmts),
            _ => 0,
        })
        .sum()
}
/// No name or value of the generated graphs contains an operator.
/// The number of "->" and "--" in a text, quoted ones included.
fn bonds(t: &str) -> (usize, usize) {
    let b = t.as_bytes();
    let mut at = vec![];
    for i in 0..b.len() - 1 {
        // most symbolic bytes are letters: this is decided for each byte alone
        if b[i] == b'-' { at.push(i) }
    }
    let n = |c: u8| at.iter().filter(|i| b[**i + 1] == c).count();
    (n(b'>'), n(b'-'))
}
fn operators(g: &Graph, c: &mut PrinterContext) {
    let t = print(g.clone(), c);
    sym::observe(t.as_bytes());
    let (di, _, _, v) = parts(g);
    let (arrow, line) = bonds(&t);
    let n = count_edges(v);
    sym::check(if di { arrow == n && line == 0 } else { line == n && arrow == 0 }, "edge operator");
}
/// A statement that carries the pair: an attribute statement or a list.
fn pair_host(k: Id, v: Id) -> Stmt {
    match sym::pick(7) {
        6 => Stmt::Attribute(attr(k, v)),
        h => host(h, list_with(k, v)),
    }
}
/// Two names in many places: keys, values, nodes, subgraphs.
fn similar(x: &str, y: &str) -> Graph {
    let (x, y) = (plain(x), plain(y));
    mk(true, false, anon(), match sym::pick(4) {
        0 => vec![node(plain("a"), vec![attr(x.clone(), plain("1")), attr(y.clone(), plain("2")), attr(x, plain("3"))])],
        1 => vec![node(x.clone(), vec![]), pair(vn(y.clone()), vn(x.clone()), vec![attr(y.clone(), x.clone())]), subg(y, vec![node(x, vec![])])],
        2 => vec![Stmt::Attribute(attr(x.clone(), y.clone())), Stmt::Attribute(attr(y.clone(), x.clone())), Stmt::Attribute(attr(x.clone(), x))],
        _ => vec![Stmt::GAttribute(GraphAttributes::Node(vec![attr(x.clone(), y.clone())])), Stmt::GAttribute(GraphAttributes::Node(vec![attr(y.clone(), x.clone())])), chain(vec![vn(x.clone()), vn(y), vn(x)], vec![])],
    })
}
fn attributed(p: usize, k: Id, v: Id) -> Graph {
    let a = || if p > 5 { vec![attr(k.clone(), v.clone())] } else { vec![attr(plain("z"), plain("1")), attr(k.clone(), v.clone()), attr(plain("y"), plain("2"))] };
    let s = match p % 6 {
        0 => node(plain("a"), a()),
        1 => pair(vn(plain("a")), vn(plain("b")), a()),
        2 => chain(vec![vn(plain("a")), vn(plain("b")), vn(plain("c"))], a()),
        3 => Stmt::GAttribute(GraphAttributes::Graph(a())),
        4 => Stmt::Attribute(attr(k.clone(), v.clone())),
        _ => subg(anon(), vec![Stmt::GAttribute(GraphAttributes::Edge(a()))]),
    };
    mk(true, false, plain("g"), vec![s, node(plain("e"), vec![])])
}
/// Two values that differ in internal anonymous names only.
fn anonymous(n: usize, t: Id) -> (Graph, Graph) {
    let k = sym::pick(4);
    let f = |x: Id, y: Id| {
        let s = match k {
            0 => subg(y, vec![node(t.clone(), vec![])]),
            1 => pair(vn(t.clone()), vs(y, vec![]), vec![]),
            2 => subg(plain("s"), vec![subg(y, vec![subg(anon(), vec![])])]),
            _ => chain(vec![vs(y, vec![node(t.clone(), vec![])]), vn(t.clone()), vn(t.clone())], vec![]),
        };
        mk(true, false, x, vec![s])
    };
    (f(anon_named(n), anon_named(n)), f(anon(), anon()))
}
fn all_anonymous(g: &Graph) -> bool {
    fn vertex(v: &Vertex) -> bool {
        match v {
            Vertex::N(_) => true,
            Vertex::S(s) => sub(s),
        }
    }
    fn sub(s: &Subgraph) -> bool {
        matches!(s.id, Id::Anonymous(_)) && stmts(&s.stmts)
    }
    fn stmts(v: &[Stmt]) -> bool {
        v.iter().all(|s| match s {
            Stmt::Subgraph(s) => sub(s),
            Stmt::Edge(Edge { ty: EdgeTy::Pair(a, b), .. }) => vertex(a) && vertex(b),
            Stmt::Edge(Edge { ty: EdgeTy::Chain(v), .. }) => v.iter().all(vertex),
            _ => true,
        })
    }
    let (_, _, i, v) = parts(g);
    matches!(i, Id::Anonymous(_)) && stmts(v)
}
/// parse(print(parse(t))) is parse(t), and printing again gives the same text.
fn stable(doc: &[u8]) {
    let Ok(g) = graphviz_rust::parse(utf8(doc)) else {
        sym::cover(2);
        return;
    };
    sym::cover(1);
    let t = print(g.clone(), &mut PrinterContext::default());
    sym::observe(t.as_bytes());
    match graphviz_rust::parse(&t) {
        Ok(h) => {
            sym::check(eq_graph(&g, &h), "printing and parsing again gives another graph");
            sym::check(t == h.print(&mut PrinterContext::default()), "printing again gives another text");
        }
        Err(_) => sym::fail("a printed graph is not a document"),
    }
}

/// Graphs that are large in one way each; a few bytes are symbolic.
fn large(di: bool, strict: bool) -> Graph {
    let n = [33, 65, 129, 257][sym::pick(4)];
    let x = letter();
    let name = |i: usize| if i + 1 == n { x.clone() } else { plain(&["x", &i.to_string()].concat()) };
    let pairs = |n: usize| (0..n).map(|i| attr(plain("k"), if i + 1 == n { x.clone() } else { plain("v") })).collect::<Vec<Attribute>>();
    let v = match sym::pick(12) {
        0 => (0..n).map(|i| node(name(i), vec![])).collect(),
        1 => vec![node(plain("a"), pairs(n)), node(plain("b"), a2())],
        2 => vec![pair(vn(plain("a")), vn(plain("b")), pairs(n)), Stmt::GAttribute(GraphAttributes::Node(pairs(n)))],
        3 => vec![chain((0..n).map(|i| vn(name(i))).collect(), a1())],
        4 => {
            let mut s = node(x.clone(), a2());
            for i in 0..n.min(129) { s = subg(if i % 3 == 0 { anon() } else { plain("s") }, if i % 8 == 5 { vec![pair(vn(plain("a")), vn(plain("b")), a1()), s, node(plain("c"), vec![])] } else { vec![s] }) }
            vec![s, node(plain("y"), vec![])]
        }
        5 => vec![pair(vn(plain("a")), vs(anon(), (0..n).map(|i| node(name(i), if i % 9 == 0 { a2() } else { vec![] })).collect()), a2()), node(plain("y"), vec![])],
        6 => (0..n).map(|i| pair(vn(name(i)), vn(plain("b")), if i % 2 == 0 { vec![attr(plain("k"), x.clone())] } else { vec![] })).collect(),
        7 => (0..n).map(|i| subg(if i % 3 == 0 { anon() } else { name(i) }, vec![])).collect(),
        8 => (0..n).map(|i| Stmt::Attribute(attr(name(i), plain("v")))).collect(),
        9 => vec![chain((0..n).map(|i| if i % 4 == 1 { vs(anon(), vec![node(name(i), vec![])]) } else { vn(name(i)) }).collect(), a2())],
        10 => {
            let mut s = node(x.clone(), a2());
            for i in 0..6 { s = pair(vn(plain("a")), vs(if i % 2 == 0 { anon() } else { plain("s") }, vec![s, node(plain("z"), vec![])]), a1()) }
            vec![s, node(name(0), vec![])]
        }
        _ => (0..n).map(|i| Stmt::Node(Node { id: nid_p(name(i), if i % 2 == 0 { Some(plain("p")) } else { None }, Some("n")), attributes: if i % 5 == 0 { a3() } else { vec![] } })).collect(),
    };
    mk(di, strict, anon(), v)
}
fn big_id(n: usize) -> Id {
    match sym::pick(3) {
        0 => Id::Plain(st(fill(n, b'q'))),
        1 => Id::Escaped(st(cat(&[b"\"", &fill(n, [b' ', b'\n'][sym::pick(2)]), b"\""]))),
        _ => Id::Html(st(cat(&[b"<", &fill(n, b'&'), b">"]))),
    }
}
