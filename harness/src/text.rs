//! C01, C05..C12: the parser on symbolic texts, against the reference parser.
use crate::combo;
use crate::gen::{value, word};
use crate::refp;
use crate::sym;
use crate::util::*;
use dot_structures::*;

pub const CONTEXTS: &[(&[u8], &[u8])] = &[
    (b"", b""),
    (b"", b"graph{}"),
    (b"graph{", b"}"),
    (b"graph", b"{}"),
    (b"digraph a{}", b""),
    (b"strict", b"graph{}"),
    (b"graph{a[", b"]}"),
    (b"graph{node[b=", b"]}"),
    (b"graph{\"", b"\"}"),
    (b"graph{<", b">}"),
    (b"graph{/*", b"*/}"),
    (b"graph{//", b"\na}"),
    (b"graph{a:", b"}"),
    (b"graph{a:b:", b"}"),
    (b"graph{a--", b"}"),
    (b"graph{subgraph ", b"{}}"),
    (b"graph{subgraph{a", b"}}"),
    (b"graph{subgraph{}", b"}"),
    (b"graph{a->b[", b"]}"),
    (b"graph{a", b""),
    (b"graph{a=", b""),
    (b"graph{-1", b"}"),
];

/// Carrier documents that use every construct.
pub const CARRIERS: &[&[u8]] = &[
    b"strict digraph \"g\" {graph [a=b, c=\"d\\\" e\";f=1.5] node[x=y];a->b:p:ne -> subgraph s {c;d->e}[k=<<b>h</b>>] /*c*/ x=y//z\n subgraph { n:sw } -7.5}",
    b"graph g{a--b--c[l=\"x\"][m=2];edge[w=_1];z:\"q\":c;subgraph{subgraph t{u}} -- v # k\n\"i\"=\"j\"}",
    b"digraph{a:n[p=.5 q=<r>]subgraph s{}->subgraph{t}node[]}",
];
/// Documents in which every part is there twice.
pub const REPEATED: &[&[u8]] = &[
    b"graph a{a;a;a--b;a--b a[k=v,k=v][k=v];a[k=v]a[k=v]subgraph s{x}subgraph s{x}k=v;k=v;node[k=v]node[k=v]}",
    b"digraph{a->a->a:n:n->b:n subgraph{a a}subgraph{}subgraph{}edge[][]edge[]edge[]a;a;}",
    b"strict digraph \"a\"{\"a\" \"a\";<a> <a>;1 1;1.0 1.0 subgraph \"a\"{subgraph \"a\"{subgraph{\"a\"}}}a:\"a\":c a:a:_ graph[a=a a=a]}",
];

fn parse_total(doc: &[u8]) {
    match graphviz_rust::parse(utf8(doc)) {
        Ok(g) => {
            observe_graph(&g);
            sym::cover(1)
        }
        Err(e) => {
            sym::observe(e.as_bytes());
            sym::cover(2)
        }
    }
}
fn in_context(n: usize) -> Vec<u8> {
    let (a, b) = CONTEXTS[sym::pick(CONTEXTS.len())];
    cat(&[a, &utf8_window(n), b])
}
/// A carrier document with `n` adjacent bytes replaced by symbolic ones.
pub fn mutated(c: &[u8], n: usize) -> Vec<u8> {
    let i = sym::pick(c.len() - n + 1);
    let mut v = c.to_vec();
    v[i..i + n].copy_from_slice(&window(n));
    v
}
/// A carrier document with `n` symbolic bytes inserted.
pub fn inserted(c: &[u8], n: usize) -> Vec<u8> {
    let i = sym::pick(c.len() + 1);
    cat(&[&c[..i], &window(n), &c[i..]])
}
fn nested(depth: usize, mid: &[u8]) -> Vec<u8> {
    let mut v = b"digraph{".to_vec();
    for _ in 0..depth {
        v.extend_from_slice(b"subgraph{")
    }
    v.extend_from_slice(mid);
    for _ in 0..=depth {
        v.push(b'}')
    }
    v
}

entries! {
    h_c01_q_context {
        let n = sym::pick(4);
        parse_total(&in_context(n));
    }
    h_c01_q_carrier {
        let c = CARRIERS[sym::pick(3)];
        let d = if sym::pick(2) == 0 { mutated(c, 1) } else { inserted(c, 1) };
        parse_total(&d);
    }
    h_c01_q_cut {
        let c = CARRIERS[sym::pick(3)];
        let i = sym::pick(c.len());
        parse_total(&cat(&[&c[..i], &window(1)]));
    }
    h_c01_q_nested {
        let d = sym::pick(9);
        parse_total(&nested(d, &window(1)));
    }
    h_c01_q_long {
        // long identifiers in every position
        let n = 6 + sym::pick(30);
        let v = long_id(n);
        let (a, b) = IDPOS[sym::pick(IDPOS.len())];
        parse_total(&cat(&[a, &v, b]));
    }
    h_c01_q_words {
        let (a, b) = IDPOS[sym::pick(IDPOS.len())];
        let n = 4 + sym::pick(8);
        parse_total(&cat(&[a, word(n).as_bytes(), b]));
    }
    h_c01_q_utf8 {
        // one character of two to four bytes in every place
        let w = wide();
        let (a, b) = CONTEXTS[sym::pick(CONTEXTS.len())];
        parse_total(&cat(&[a, &w, b]));
    }
    h_c01_q_sequence {
        // statements of all forms, and an unfinished one
        let mut v = b"digraph{".to_vec();
        for _ in 0..2 { v.extend_from_slice(&stmt_template()); v.push(b';') }
        v.extend_from_slice([&b"}"[..], b"a[", b"", b"a->", b"subgraph", b"a:"][sym::pick(6)]);
        parse_total(&v);
    }
    h_c01_q_big {
        parse_total(&huge());
    }
    h_c01_q_big_broken {
        // a large document with something wrong at its end
        let mut d = huge();
        let n = d.len();
        match sym::pick(4) {
            0 => d.truncate(n - 1),
            1 => d.extend_from_slice(&window(1)),
            2 => { let b = ascii(); d[n - 2] = b }
            _ => d.extend_from_slice([&"\u{e9}"[..], "\n}", "\u{10000}x"][sym::pick(3)].as_bytes()),
        }
        parse_total(&d);
    }
    h_c01_q_attr_words {
        let (k, v) = crate::gen::pair_of_words();
        let (k, v) = (crate::refq::id(&k), crate::refq::id(&v));
        let (a, b): (&[u8], &[u8]) = [(&b"graph{a["[..], &b"]}"[..]), (b"digraph{a->b[", b"];c}"), (b"strict digraph g{edge[", b"]}"), (b"graph{subgraph{", b"}}"), (b"graph{a[x=y][", b""), (b"graph{", b"=}")][sym::pick(6)];
        parse_total(&cat(&[a, k.as_bytes(), b"=", v.as_bytes(), b]));
    }
    h_c01_q_literal {
        let i = crate::gen::literal(2 + sym::pick(3));
        let (a, b) = CONTEXTS[sym::pick(CONTEXTS.len())];
        parse_total(&cat(&[a, crate::refq::id(&i).as_bytes(), b]));
    }
    h_c01_q_wide_values {
        // wide characters at each place of the values of known attributes
        let k = crate::gen::NAMES[sym::pick(64)];
        let v = crate::gen::wide_text();
        parse_total(&cat(&[b"digraph{a[", k.as_bytes(), b"=", crate::refq::id(&v).as_bytes(), b"]}"]));
    }
    h_c01_q_wide_places {
        let v = crate::gen::wide_text();
        let (a, b) = IDPOS[sym::pick(IDPOS.len())];
        parse_total(&cat(&[a, crate::refq::id(&v).as_bytes(), b]));
    }
    h_c01_q_wide_error {
        // something wrong at any distance after a wide character
        let w = ["\u{e9}", "\u{2019}", "\u{1f600}", "\u{301}"][sym::pick(4)];
        let n = sym::pick(82);
        let e = ["?", "", "x]}", "=", "\n?", "\r\n}", "\t]]", "]}\u{e9}"][sym::pick(8)];
        let d = ["graph{a[k=\"", w, &"abcdefghi ".repeat(9)[..n], "\"", e].concat();
        sym::check(graphviz_rust::parse(&d).is_err(), "accepted");
    }
    h_c01_q_deep {
        // deep nesting
        let n = [16, 33, 65, 129][sym::pick(4)];
        parse_total(&nested(n, &[range(b'a', b'z')]));
    }
    h_c01_q_combined {
        // combined documents with one character replaced, inserted or cut off
        let mut q = combo::row(101, 3072);
        let g = combo::graph(&mut q);
        let mut d = combo::text(&mut q, &g);
        while !std::str::from_utf8(&d).is_ok_and(|s| s.is_ascii()) { let i = d.iter().position(|c| *c > 127).unwrap(); d[i] = b'~' }
        let i = q.f(d.len());
        match q.f(3) {
            0 => d[i] = ascii(),
            1 => d.insert(i, ascii()),
            _ => { d.truncate(i); d.push(ascii()) }
        }
        parse_total(&d);
    }
    h_c01_t_combined {
        // combined documents with one character replaced, inserted or cut off
        let mut q = combo::row(1101, 32768);
        let g = combo::graph(&mut q);
        let mut d = combo::text(&mut q, &g);
        while !std::str::from_utf8(&d).is_ok_and(|s| s.is_ascii()) { let i = d.iter().position(|c| *c > 127).unwrap(); d[i] = b'~' }
        let i = q.f(d.len());
        match q.f(3) {
            0 => d[i] = ascii(),
            1 => d.insert(i, ascii()),
            _ => { d.truncate(i); d.push(ascii()) }
        }
        parse_total(&d);
    }
    h_c01_t_context {
        parse_total(&in_context(4));
    }
    h_c01_t_body5 {
        parse_total(&cat(&[b"graph{", &window(5), b"}"]));
    }
    h_c01_t_carrier {
        let c = CARRIERS[sym::pick(3)];
        parse_total(&mutated(c, 2));
    }

    // ---- C05 identifiers
    h_c05_q_window {
        // an identifier position filled with up to four symbolic bytes
        let n = 1 + sym::pick(4);
        let (a, b) = IDPOS[sym::pick(if n == 4 { 2 } else { IDPOS.len() })];
        differential(&cat(&[a, &window(n), b]));
    }
    h_c05_q_string {
        let n = sym::pick(5);
        let (a, b) = IDPOS[sym::pick(IDPOS.len())];
        differential(&cat(&[a, b"\"", &window(n), b"\"", b]));
    }
    h_c05_q_utf8 {
        let n = 1 + sym::pick(4);
        let (a, b): (&[u8], &[u8]) = [(&b"graph{\""[..], &b"\"}"[..]), (b"graph{<", b">}"), (b"graph{a=", b"}"), (b"graph{\"\\", b"\"}")][sym::pick(4)];
        differential(&cat(&[a, &utf8_window(n), b]));
    }
    h_c05_q_html {
        let n = sym::pick(5);
        let (a, b) = IDPOS[sym::pick(IDPOS.len())];
        differential(&cat(&[a, b"<", &window(n), b">", b]));
    }
    h_c05_q_html_tags {
        // nested tags with symbolic contents, and something after the string
        let mut v = b"graph{a[l=<".to_vec();
        let k = 1 + sym::pick(3);
        for _ in 0..k {
            match sym::pick(4) {
                0 => v.extend_from_slice(&cat(&[b"<b>", &[text_byte()], b"</b>"])),
                1 => v.extend_from_slice(&cat(&[&[text_byte()], b" "])),
                2 => v.extend_from_slice(b"<<i/> >"),
                _ => v.extend_from_slice(&cat(&[b"<br/", &[text_byte()], b">\n"])),
            }
        }
        v.extend_from_slice([&b">]}"[..], b"> m=<x>]}", b"> m=<<y>>];b}"][sym::pick(3)]);
        accepted(&v);
    }
    h_c05_q_long {
        // long names and numerals: every byte symbolic within its class
        let n = 6 + sym::pick(30);
        let v = long_id(n);
        let (a, b) = IDPOS[sym::pick(IDPOS.len())];
        let g = accepted(&cat(&[a, &v, b]));
        sym::check(holds_id(&g, utf8(&v)), "the identifier was not kept verbatim");
    }
    h_c05_q_number {
        // numeral-like windows
        let n = 1 + sym::pick(5);
        let mut v = vec![];
        for _ in 0..n {
            v.push([b'-', b'.', range(b'0', b'9'), b'0', b'a', b' '][sym::pick(6)]);
        }
        differential(&cat(&[b"graph{", &v, b"}"]));
    }
    h_c05_q_words {
        // whole words: any letters, also those that spell a keyword
        let (a, b) = IDPOS[sym::pick(IDPOS.len())];
        let n = 4 + sym::pick(9);
        let v = cased(n);
        differential(&cat(&[a, &v, b]));
    }
    h_c05_q_quoted_words {
        let (a, b) = IDPOS[sym::pick(IDPOS.len())];
        let n = 4 + sym::pick(5);
        let (c, d): (&[u8], &[u8]) = [(&b"\""[..], &b"\""[..]), (b"<", b">"), (b"<<", b">x</>>"), (b"\"\\", b"\\n\"")][sym::pick(4)];
        let v = cat(&[c, &cased(n), d]);
        let g = accepted(&cat(&[a, &v, b]));
        sym::check(holds_id(&g, utf8(&v)), "the identifier was not kept verbatim");
    }
    h_c05_q_html_deep {
        // deep and wide nesting of brackets
        let d = 1 + sym::pick(7);
        let mut v = vec![];
        for _ in 0..d { v.extend_from_slice(&[b'<', range(b'a', b'z')]) }
        for i in 0..d { v.extend_from_slice([&b">"[..], b"/>", b" >"][i % 3]); if i + 1 < d && (d > 4 && i % 2 == 0 || d <= 4 && sym::pick(2) == 1) { v.extend_from_slice(b"<x>") } }
        let (a, b) = IDPOS[sym::pick(IDPOS.len())];
        let g = accepted(&cat(&[a, &v, b]));
        sym::check(holds_id(&g, utf8(&v)), "the identifier was not kept verbatim");
    }
    h_c05_q_wide {
        // one character of two to four bytes in a name, a string, an HTML string
        let w = wide();
        let (a, b) = IDPOS[sym::pick(IDPOS.len())];
        let (c, d): (&[u8], &[u8]) = [(&b""[..], &b""[..]), (b"\"", b"\""), (b"<", b">"), (b"a", b"b"), (b"\"\\", b"\""), (b"1", b"")][sym::pick(6)];
        differential(&cat(&[a, c, &w, d, b]));
    }
    h_c05_q_big {
        // identifiers of up to thousands of bytes
        let n = [33, 65, 101, 129, 257, 1025, 5000, 66000][sym::pick(8)];
        let v = big_id(n);
        let (a, b) = IDPOS[if n > 9999 { 4 } else { sym::pick(IDPOS.len()) }];
        let g = accepted(&cat(&[a, &v, b]));
        sym::check(holds_id(&g, utf8(&v)), "the identifier was not kept verbatim");
    }
    h_c05_q_big_nested {
        // HTML strings with deep nesting
        let d = [9, 17, 33, 65, 129, 257][sym::pick(6)];
        let mut v = vec![b'<'; d];
        v.extend_from_slice(&[range(b'a', b'z')]);
        v.extend_from_slice(&vec![b'>'; d]);
        let k = sym::pick(3);
        let v = match k { 0 => v, 1 => cat(&[b"<", &v, b" ", &v, b">"]), _ => { v.truncate(2 * d); v } };
        let (a, b) = IDPOS[sym::pick(IDPOS.len())];
        let d = cat(&[a, &v, b]);
        if k < 2 {
            let g = accepted(&d);
            sym::check(holds_id(&g, utf8(&v)), "the identifier was not kept verbatim");
        } else {
            differential(&d);
        }
    }
    h_c05_q_literal {
        // whole strings of any text that does not end them, in every place
        let i = crate::gen::literal(4 + sym::pick(9));
        let (a, b) = IDPOS[sym::pick(IDPOS.len())];
        let v = crate::refq::id(&i);
        let g = accepted(&cat(&[a, v.as_bytes(), b]));
        sym::check(holds_id(&g, v), "the identifier was not kept verbatim");
    }
    h_c05_q_long_text {
        let i = crate::gen::long_text(&[30, 90, 300]);
        let (a, b) = IDPOS[sym::pick(IDPOS.len())];
        let v = crate::refq::id(&i);
        let g = accepted(&cat(&[a, v.as_bytes(), b]));
        sym::check(holds_id(&g, v), "the identifier was not kept verbatim");
    }
    h_c05_q_escapes {
        // an escape of any character, among others
        let i = crate::gen::escaped();
        let (a, b) = IDPOS[sym::pick(IDPOS.len())];
        let v = crate::refq::id(&i);
        let g = accepted(&cat(&[a, v.as_bytes(), b]));
        sym::check(holds_id(&g, v), "the identifier was not kept verbatim");
    }
    h_c05_q_combined {
        combined(105, 6144);
    }
    h_c05_t_combined {
        combined(1105, 32768);
    }
    h_c05_t_window {
        let n = 5;
        let (a, b) = [IDPOS[0], IDPOS[4]][sym::pick(2)];
        differential(&cat(&[a, &window(n), b]));
    }
    h_c05_t_string {
        let (a, b) = IDPOS[sym::pick(IDPOS.len())];
        differential(&cat(&[a, b"\"", &window(6), b"\"", b]));
    }
    h_c05_t_html {
        let (a, b) = IDPOS[sym::pick(IDPOS.len())];
        differential(&cat(&[a, b"<", &window(6), b">", b]));
    }

    // ---- C06 filler
    h_c06_q_filler {
        let (toks, want) = base();
        let i = sym::pick(toks.len() + 1);
        let mut v = vec![];
        for (j, t) in toks.iter().enumerate() {
            if j == i { v.extend_from_slice(&filler()) } else { v.push(b' ') }
            v.extend_from_slice(t);
        }
        if i == toks.len() { v.extend_from_slice(&filler()) }
        same(&v, &want);
    }
    h_c06_q_two {
        let (toks, want) = base();
        let i = sym::pick(toks.len());
        let k = 1 + sym::pick(3);
        let mut v = vec![];
        for (j, t) in toks.iter().enumerate() {
            if j == i || j == i + k { v.extend_from_slice(&short_filler()) } else { v.push(b' ') }
            v.extend_from_slice(t);
        }
        same(&v, &want);
    }
    h_c06_q_everywhere {
        // the same filler between all tokens
        let (toks, want) = base();
        let f = filler();
        let mut v = vec![];
        for t in toks.iter() {
            v.extend_from_slice(&f);
            v.extend_from_slice(t);
        }
        v.extend_from_slice(&f);
        same(&v, &want);
    }
    h_c06_q_strings {
        // comment and blank characters inside a quoted string are text
        let f = [&b"/*"[..], b"*/", b"//", b"#", b" ", b"\n", b"\t", b"\r"][sym::pick(8)];
        let (a, b) = (window(1), window(1));
        sym::assume(a[0] != b'"' && a[0] != b'\\' && b[0] != b'"' && b[0] != b'\\');
        let s = cat(&[b"\"", &a, f, &b, b"\""]);
        let g = accepted(&cat(&[b"graph{n[l=", &s, b"]}"]));
        sym::check(holds_id(&g, utf8(&s)), "text inside a quoted string was changed");
    }
    h_c06_q_tight {
        // no filler where two tokens cannot run together
        let (toks, want) = base();
        let mut v: Vec<u8> = vec![];
        for t in toks.iter() {
            let glue = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.';
            if !v.is_empty() && glue(v[v.len() - 1]) && (glue(t[0])) { v.extend_from_slice(&short_filler()) }
            v.extend_from_slice(t);
        }
        same(&v, &want);
    }
    h_c06_q_window {
        // free text between two tokens: either filler or something else
        let n = sym::pick(4);
        let (a, b): (&[u8], &[u8]) = [(&b"graph"[..], &b"{a}"[..]), (b"graph{a", b"=b}"), (b"graph{a[", b"]}"), (b"graph{a--", b"b}"), (b"graph{}", b"")][sym::pick(5)];
        differential(&cat(&[a, &window(n), b]));
    }
    h_c06_q_long_comment {
        // longer comments of any bytes
        let (toks, want) = base();
        let i = [1, 7, 12, toks.len()][sym::pick(4)];
        let f = match sym::pick(3) {
            0 => {
                let b = window(6);
                for k in 0..5 { sym::assume(!(b[k] == b'*' && b[k + 1] == b'/')) }
                cat(&[b"/*", &b, b"*/"])
            }
            1 => {
                let b = window(12);
                for c in &b { sym::assume(*c != b'\n' && *c != b'\r') }
                cat(&[b"//", &b, b"\n"])
            }
            _ => {
                let b = window(12);
                for c in &b { sym::assume(*c != b'\n' && *c != b'\r') }
                cat(&[b"#", &b, b"\r\n"])
            }
        };
        let mut v = vec![];
        for (j, t) in toks.iter().enumerate() {
            if j == i { v.extend_from_slice(&f) } else { v.push(b' ') }
            v.extend_from_slice(t);
        }
        if i == toks.len() { v.extend_from_slice(&f) }
        same(&v, &want);
    }
    h_c06_q_many {
        // several comments and blanks in a row
        let (toks, want) = base();
        let i = [0, 3, 11, 20, toks.len()][sym::pick(5)];
        let mut f = vec![];
        for _ in 0..3 { f.extend_from_slice(&short_filler()) }
        let mut v = vec![];
        for (j, t) in toks.iter().enumerate() {
            if j == i { v.extend_from_slice(&f) } else { v.push(b' ') }
            v.extend_from_slice(t);
        }
        if i == toks.len() { v.extend_from_slice(&f) }
        same(&v, &want);
    }
    h_c06_q_long_string {
        let s = window(8);
        for c in &s { sym::assume(*c != b'"' && *c != b'\\') }
        let s = cat(&[b"\"", &s, b"\""]);
        let (a, b) = IDPOS[sym::pick(IDPOS.len())];
        let g = accepted(&cat(&[a, &s, b]));
        sym::check(holds_id(&g, utf8(&s)), "text inside a quoted string was changed");
    }
    h_c06_q_big {
        // a long comment, many comments, many blanks
        let (toks, want) = base();
        let i = [0, 7, 12, toks.len()][sym::pick(4)];
        let n = [33, 65, 129, 257, 1025, 5000][sym::pick(6)];
        let x = range(b'a', b'z');
        let f = match sym::pick(6) {
            0 => cat(&[b"/*", &fill(n, b'*'), b"*/"]),
            1 => cat(&[b"//", &fill(n, b'/'), b"\n"]),
            2 => cat(&[b"#", &fill(n, b'#'), b"\r\n"]),
            3 => (0..n).map(|i| b" \n\t\r"[i % 4]).collect(),
            4 => (0..n / 5).flat_map(|i| cat(&[if i % 2 == 0 { b"/*" } else { b" //" }, &[x], if i % 2 == 0 { b"*/" } else { b"\n" }])).collect(),
            _ => cat(&[b"/*", &(0..n / 4).flat_map(|_| *b"\n// ").collect::<Vec<u8>>(), &[x], b"*/"]),
        };
        let mut v = vec![];
        for (j, t) in toks.iter().enumerate() {
            if j == i { v.extend_from_slice(&f) } else { v.push(b' ') }
            v.extend_from_slice(t);
        }
        if i == toks.len() { v.extend_from_slice(&f) }
        same(&v, &want);
    }
    h_c06_q_big_string {
        // a long quoted or HTML string that holds everything filler is made of
        let n = [33, 65, 129, 257, 1025, 5000, 9000][sym::pick(7)];
        let mut s: Vec<u8> = (0..n).map(|i| b"/* // # */\n\r\t "[i % 14]).collect();
        s[n / 2] = range(b' ', b'!');
        let (o, c) = [(b"\"", b"\""), (b"<", b">")][sym::pick(2)];
        let s = cat(&[o, &s, &[range(b'#', b';')], c]);
        let (a, b) = IDPOS[sym::pick(IDPOS.len())];
        let g = accepted(&cat(&[a, &s, b]));
        sym::check(holds_id(&g, utf8(&s)), "text inside a quoted string was changed");
    }
    h_c06_q_string_lines {
        // strings with line breaks, comment openers and blanks at any place
        let i = crate::gen::literal(4 + sym::pick(5));
        let v = crate::refq::id(&i);
        let (toks, want) = base();
        let mut d = vec![];
        let s = [b"/* \" */"[..].as_ref(), b" ", b"// <\n"][sym::pick(3)];
        d.extend_from_slice(&toks[..toks.len() - 1].join(&b' '));
        d.extend_from_slice(&cat(&[s, v.as_bytes(), s, b"}"]));
        let g = accepted(&d);
        let (x, y) = (parts(&g).3, parts(&want).3);
        sym::check(x.len() == y.len() + 1 && eq_stmts(&x[..y.len()], y), "other statements changed");
        sym::check(holds_id(&g, v), "text inside a string was changed");
    }
    h_c06_q_big_document {
        // a large document and one string or comment that looks like another thing
        let n = [300, 1100][sym::pick(2)];
        let x = range(b'a', b'z');
        let f: Vec<u8> = (0..n).flat_map(|_| *b"x=y;").collect();
        let s = [&b"\"/*x*/\""[..], b"</*x*/>", b"\"//x\"", b"<//x>", b"\"#\"", b"<#x>", b"\"\n#x\"", b"<\n#x>"][sym::pick(8)];
        let s: Vec<u8> = s.iter().map(|c| if *c == b'x' { x } else { *c }).collect();
        let m = if n > 300 { 0 } else { sym::pick(3) };
        let d = match sym::pick(2) { 0 => cat(&[b"graph{a=", &s, b";", &f, b"b}"]), _ => cat(&[b"graph{", &f, b"a=", &s, b";b}"]) };
        let d = match m { 0 => d, 1 => cat(&[b"/*\"*/", &d]), _ => cat(&[&d, b"//<"]) };
        let g = accepted(&d);
        sym::check(parts(&g).3.len() == n + 2, "statements were lost or changed");
        sym::check(holds_id(&g, utf8(&s)), "text inside a string was changed");
    }
    h_c06_q_combined {
        // one graph, spelt in two ways
        let mut q = combo::row(111, 6144);
        let g = combo::graph(&mut q);
        let (a, b) = (combo::text(&mut q, &g), combo::text(&mut q, &g));
        same(&a, &g);
        same(&b, &g);
    }
    h_c06_t_combined {
        // one graph, spelt in two ways
        let mut q = combo::row(1111, 32768);
        let g = combo::graph(&mut q);
        let (a, b) = (combo::text(&mut q, &g), combo::text(&mut q, &g));
        same(&a, &g);
        same(&b, &g);
    }
    h_c06_t_comment {
        let (toks, want) = base();
        let i = sym::pick(toks.len() + 1);
        let n = 3 + sym::pick(2);
        let b = window(n);
        for k in 0..n - 1 { sym::assume(!(b[k] == b'*' && b[k + 1] == b'/')) }
        let f = cat(&[b"/*", &b, b"*/"]);
        let mut v = vec![];
        for (j, t) in toks.iter().enumerate() {
            if j == i { v.extend_from_slice(&f) } else { v.push(b' ') }
            v.extend_from_slice(t);
        }
        if i == toks.len() { v.extend_from_slice(&f) }
        same(&v, &want);
    }
    h_c06_t_window {
        let (a, b): (&[u8], &[u8]) = [(&b"graph"[..], &b"{a}"[..]), (b"graph{a", b"=b}"), (b"graph{a[", b"]}"), (b"graph{a--", b"b}"), (b"graph{}", b"")][sym::pick(5)];
        differential(&cat(&[a, &window(4), b]));
    }

    // ---- C07 statements
    h_c07_q_window {
        let n = 1 + sym::pick(4);
        differential(&cat(&[b"graph{", &window(n), b"}"]));
    }
    h_c07_q_after {
        // a window after a complete statement of each kind
        let s = stmt_template();
        differential(&cat(&[b"digraph{", &s, &window(2), b"}"]));
    }
    h_c07_q_sequence {
        let mut v = b"graph g{".to_vec();
        let k = sym::pick(3);
        for _ in 0..k {
            v.extend_from_slice(&stmt_template());
            v.extend_from_slice([&b";"[..], b"\n", b" ; "][sym::pick(3)]);
        }
        v.push(b'}');
        let g = accepted(&v);
        sym::check(parts(&g).3.len() == k, "number of statements");
    }
    h_c07_q_carrier {
        let c = CARRIERS[sym::pick(3)];
        let d = match sym::pick(3) {
            0 => mutated(c, 1),
            1 => inserted(c, 1),
            _ => { let i = sym::pick(c.len()); cat(&[&c[..i], &c[i + 1..]]) }
        };
        differential(&d);
    }
    h_c07_q_nested {
        let mut v = b"graph{".to_vec();
        let d = 1 + sym::pick(4);
        for i in 0..d {
            if sym::pick(2) == 1 { v.extend_from_slice(&[b'x', b';']) }
            v.extend_from_slice([&b"subgraph{"[..], b"subgraph s{", b"a--subgraph{", b"subgraph\"q\"{"][if i == 0 { sym::pick(4) } else { (i + 1) % 4 }]);
        }
        v.push(range(b'a', b'z'));
        for _ in 0..d {
            v.push(b'}');
            if sym::pick(2) == 1 { v.extend_from_slice(&[b'y', b' ']) }
        }
        v.push(b'}');
        accepted(&v);
    }
    h_c07_q_keywords {
        // words that begin like or equal a keyword, in statement position
        let w: &[u8] = [&b"graph"[..], b"node", b"edge", b"subgraph", b"digraph", b"strict"][sym::pick(6)];
        let n = sym::pick(3);
        let t: &[u8] = [&b""[..], b"[a=b]", b"=b", b"--b", b"{}", b" x{}", b" [a=b][c=d]", b":n", b"--subgraph{}[k=v]"][sym::pick(9)];
        differential(&cat(&[b"graph{", w, &window(n), t, b"}"]));
    }
    h_c07_q_long {
        // long bodies
        let n = 5 + sym::pick(20);
        let mut v = b"digraph{".to_vec();
        for i in 0..n {
            v.extend_from_slice(&[range(b'a', b'z'), b'0' + (i % 10) as u8]);
            v.extend_from_slice([&b";"[..], b"->q;", b"[k=v]", b"=1 ", b"\n"][i % 5]);
        }
        v.push(b'}');
        let g = accepted(&v);
        sym::check(parts(&g).3.len() == n, "number of statements");
    }
    h_c07_q_names {
        // statements whose names are whole words
        let (m, n) = (4 + sym::pick(5), 1 + 4 * sym::pick(2));
        let (a, b) = (cased(m), word(n));
        let t: (&[u8], &[u8], &[u8]) = [
            (&b""[..], &b";"[..], &b""[..]), (b"", b"[k=v]", b"{}"), (b"", b"=", b";"), (b"", b"--", b"[k=v]"), (b"", b" ", b"[]"),
            (b"subgraph ", b"{", b"}"), (b"", b":", b":ne"), (b"x;", b"[", b"=y]"), (b"", b"\n[", b"=\"y\"];z"), (b"subgraph{", b"}", b"=1"),
        ][sym::pick(10)];
        differential(&cat(&[b"graph{", t.0, &a, t.1, b.as_bytes(), t.2, b"}"]));
    }
    h_c07_q_repeated {
        // the same statement several times
        let s = stmt_template();
        let n = 2 + sym::pick(3);
        let mut v = b"graph{".to_vec();
        for _ in 0..n { v.extend_from_slice(&s); v.extend_from_slice([&b";"[..], b"\n"][sym::pick(2)]) }
        v.push(b'}');
        let g = accepted(&v);
        sym::check(parts(&g).3.len() == n, "number of statements");
    }
    h_c07_q_related {
        // statements that name each other, in any order
        const T: [&str; 9] = ["a", "subgraph a{}", "subgraph a{b}", "a=b", "a[b=a]", "a--b", "b--a", "node[a=b]", "subgraph{a}"];
        let n = 2 + sym::pick(2);
        let mut v = [&b"graph{"[..], b"graph a{", b"strict graph{subgraph b{"][sym::pick(3)].to_vec();
        let b = v.iter().filter(|c| **c == b'{').count();
        for _ in 0..n { v.extend_from_slice(T[sym::pick(9)].as_bytes()); v.extend_from_slice([&b";"[..], b" "][sym::pick(2)]) }
        for _ in 0..b { v.push(b'}') }
        differential(&v);
    }
    h_c07_q_big {
        // bodies of up to a thousand statements
        let n = big();
        let mut v = b"digraph{".to_vec();
        let k = sym::pick(7);
        let x = range(b'a', b'z');
        for i in 0..n {
            let y = [b'x', b'0' + (i / 100 % 10) as u8, b'0' + (i / 10 % 10) as u8, b'0' + (i % 10) as u8];
            v.extend_from_slice(if i == n / 2 { b"q" } else { &y });
            if i == n - 1 { v.push(x) }
            v.extend_from_slice([&b";"[..], b"->q;", b"[k=v]", b"=1 ", b"\n", b";subgraph{};", b":p;"][if k == 6 { i % 4 } else { k }]);
        }
        v.push(b'}');
        let g = accepted(&v);
        sym::check(parts(&g).3.len() == if k == 5 { 2 * n } else { n }, "number of statements");
    }
    h_c07_q_big_nested {
        let d = [9, 17, 33, 65, 101][sym::pick(5)];
        let mut v = b"graph{".to_vec();
        let k = sym::pick(3);
        for _ in 0..d { v.extend_from_slice([&b"subgraph{"[..], b"x;subgraph s{", b"node[a=b]subgraph"][k]); if k == 2 { v.extend_from_slice(b" t {") } }
        v.push(range(b'a', b'z'));
        for i in 0..d { v.extend_from_slice([&b"}"[..], b"};", b"}y "][(i + k) % 3]) }
        v.push(b'}');
        accepted(&v);
    }
    h_c07_q_alike {
        // names that are nearly the same are different names
        let (x, y) = crate::gen::alike();
        let (x, y) = (x.as_bytes(), y.as_bytes());
        accepted(&match sym::pick(4) {
            0 => cat(&[b"graph{", x, b";", y, b";", x, b"}"]),
            1 => cat(&[b"digraph{", x, b"->", y, b" ", y, b"->", x, b"}"]),
            2 => cat(&[b"graph{", x, b"=1;", y, b"=2 ", x, b"=3}"]),
            _ => cat(&[b"graph ", x, b"{subgraph ", y, b"{", x, b"}subgraph ", x, b"{", y, b"}}"]),
        });
    }
    h_c07_q_combined {
        combined(106, 6144);
    }
    h_c07_t_combined {
        combined(1106, 32768);
    }
    h_c07_t_sequence {
        let mut v = b"graph g{".to_vec();
        for _ in 0..3 {
            v.extend_from_slice(&stmt_template());
            v.extend_from_slice([&b";"[..], b"\n"][sym::pick(2)]);
        }
        v.push(b'}');
        let g = accepted(&v);
        sym::check(parts(&g).3.len() == 3, "number of statements");
    }
    h_c07_t_window {
        differential(&cat(&[b"graph{", &window(5), b"}"]));
    }
    h_c07_t_after {
        let s = stmt_template();
        differential(&cat(&[b"digraph{", &s, &window(3), b"}"]));
    }
    h_c07_t_carrier {
        let c = CARRIERS[sym::pick(3)];
        differential(&mutated(c, 2));
    }

    // ---- C08 header
    h_c08_q_header {
        let strict = sym::pick(2) == 1;
        let di = sym::pick(2) == 1;
        let id: Vec<u8> = match sym::pick(6) {
            0 => vec![],
            1 => vec![range(b'A', b'Z'), range(b'0', b'9')],
            2 => cat(&[b"\"", &[text_byte(), text_byte()], b"\""]),
            3 => cat(&[b"<", &[text_byte()], b">"]),
            4 => vec![b'-', range(b'0', b'9'), b'.', range(b'0', b'9')],
            _ => vec![b'_', range(b'a', b'z'), range(b'a', b'z'), range(b'a', b'z'), range(b'a', b'z'), range(b'a', b'z')],
        };
        let sp: [&[u8]; 4] = [b" ", b"\n\t", b"/**/", b"//x\n"];
        let mut v = vec![];
        if strict { v.extend_from_slice(b"strict"); v.extend_from_slice(sp[sym::pick(4)]) }
        v.extend_from_slice(if di { b"digraph" } else { b"graph" });
        v.extend_from_slice(sp[sym::pick(4)]);
        v.extend_from_slice(&id);
        v.extend_from_slice([&b"{}"[..], b" { a }", b"{b;}\n"][sym::pick(3)]);
        let g = accepted(&v);
        let (d, s, i, _) = parts(&g);
        sym::check(d == di && s == strict, "kind or strictness");
        sym::check(match i { Id::Anonymous(_) => id.is_empty(), Id::Plain(t) | Id::Escaped(t) | Id::Html(t) => t.as_bytes() == &id[..] }, "graph identifier");
    }
    h_c08_q_window {
        let n = sym::pick(4);
        let (a, b): (&[u8], &[u8]) = [(&b""[..], &b"graph{}"[..]), (b"graph", b"{}"), (b"digraph", b"{}"), (b"strict", b"graph{}"), (b"strict graph", b"{}"), (b"strict digraph", b"{}"), (b"graph a", b"{}"), (b"", b" {}"), (b"str", b"graph{}"), (b"gra", b" a{}"), (b"strict ", b"graph{}"), (b"digraph \"a\"", b"{}"), (b"graph{", b"}")][sym::pick(13)];
        differential(&cat(&[a, &window(n), b]));
    }
    h_c08_q_keyword {
        // the keywords with one or two bytes replaced or inserted
        let c: &[u8] = [&b"strict digraph a{}"[..], b"strict graph{}", b"digraph 1{x}", b"graph \"q\"{}"][sym::pick(4)];
        let d = match sym::pick(3) { 0 => mutated(c, 1), 1 => mutated(c, 2), _ => inserted(c, 1) };
        differential(&d);
    }
    h_c08_q_names {
        // a whole word where the identifier, the kind or strict may stand
        let n = 4 + sym::pick(5);
        let v = cased(n);
        let (a, b): (&[u8], &[u8]) = [(&b"graph "[..], &b"{}"[..]), (b"strict digraph ", b"{a}"), (b"", b"{}"), (b"", b" a{}"), (b"strict ", b"{}"), (b"", b" graph a{}"), (b"digraph \"", b"\"{}"), (b"graph <", b">{}")][sym::pick(8)];
        differential(&cat(&[a, &v, b]));
    }
    h_c08_q_long {
        let n = 6 + sym::pick(20);
        let v = long_id(n);
        let (a, b): (&[u8], &[u8]) = [(&b"graph "[..], &b"{}"[..]), (b"strict digraph ", b"{a}"), (b"digraph/**/", b"\n{}")][sym::pick(3)];
        let g = accepted(&cat(&[a, &v, b]));
        sym::check(matches!(parts(&g).2, Id::Plain(t) | Id::Escaped(t) if t.as_bytes() == &v[..]), "graph identifier");
    }
    h_c08_q_wide {
        let w = wide();
        let (a, b): (&[u8], &[u8]) = [(&b"graph \""[..], &b"\"{}"[..]), (b"graph <", b">{}"), (b"graph ", b"{}"), (b"strict", b"graph{}"), (b"", b"graph{}")][sym::pick(5)];
        differential(&cat(&[a, &w, b]));
    }
    h_c08_q_words {
        // keywords as identifiers and in wrong places
        let w: [&[u8]; 9] = [b"strict", b"graph", b"digraph", b"node", b"subgraph", b"a", b"Graph", b"STRICT", b"graphs"];
        let n = 1 + sym::pick(4);
        let mut v = vec![];
        for _ in 0..n { v.extend_from_slice(w[sym::pick(9)]); v.push(b' ') }
        v.extend_from_slice(b"{}");
        differential(&v);
    }
    h_c08_q_big {
        // a long identifier, a long gap
        let v = big_id([33, 65, 101, 129, 257, 1025, 5000][sym::pick(7)]);
        let (a, b): (&[u8], &[u8]) = [(&b"graph "[..], &b"{}"[..]), (b"strict digraph ", b"{a}"), (b"digraph/**/", b"\n{}")][sym::pick(3)];
        let f: Vec<u8> = vec![b' '; [0, 70, 300][sym::pick(3)]];
        let g = accepted(&cat(&[&f, a, &f, &v, &f, b, &f]));
        sym::check(matches!(parts(&g).2, Id::Plain(t) | Id::Escaped(t) | Id::Html(t) if t.as_bytes() == &v[..]), "graph identifier");
    }
    h_c08_q_big_body {
        // what follows does not change the header
        let d = huge();
        let (strict, di) = (d.starts_with(b"strict"), d.windows(7).take(8).any(|w| w == b"digraph"));
        let g = accepted(&d);
        let (a, b, i, _) = parts(&g);
        sym::check(a == di && b == strict && matches!(i, Id::Plain(t) if t == "g"), "header");
    }
    h_c08_q_combined {
        combined(107, 6144);
    }
    h_c08_t_combined {
        combined(1107, 32768);
    }
    h_c08_t_window {
        let (a, b): (&[u8], &[u8]) = [(&b"graph"[..], &b"{}"[..]), (b"strict", b"graph{}"), (b"digraph a", b"{}"), (b"gra", b"{}"), (b"", b"graph{}")][sym::pick(5)];
        differential(&cat(&[a, &window(4), b]));
    }

    // ---- C09 attribute lists
    h_c09_q_window {
        let n = sym::pick(4);
        let (a, b): (&[u8], &[u8]) = [(&b"graph{a["[..], &b"]}"[..]), (b"graph{node[", b"]}"), (b"digraph{a->b[", b"]}"), (b"graph{a[b=", b"]}"), (b"graph{a[b=c", b"d=e]}"), (b"graph{a[b=c]", b"[d=e]}"), (b"graph{edge[b=c", b"]}"), (b"graph{graph", b"}")][sym::pick(8)];
        differential(&cat(&[a, &window(n), b]));
    }
    h_c09_q_lists {
        let mut v: Vec<u8> = [&b"graph{a"[..], b"graph{a:p:n ", b"graph{a--b", b"digraph{a->b->c ", b"digraph{a->subgraph{}", b"graph{node", b"graph{edge ", b"graph{graph", b"graph{subgraph{node"][sym::pick(9)].to_vec();
        let sub = v.starts_with(b"graph{sub");
        let n = sym::pick(4);
        v.push(b'[');
        for i in 0..n {
            v.extend_from_slice(&cat(&[&[range(b'a', b'z')], b"=", [&b"1"[..], b"\"x, y\"", b"<b;>"][i % 3]]));
            v.extend_from_slice([&b","[..], b";", b" ", b"][", b"] [ ", b"][]["][sym::pick(6)]);
        }
        v.extend_from_slice(b"]}");
        if sub { v.push(b'}') }
        let g = accepted(&v);
        sym::cover(10 + n as u32);
        let _ = g;
    }
    h_c09_q_many {
        let n = 4 + sym::pick(24);
        let mut v = b"graph{a[".to_vec();
        for i in 0..n {
            v.extend_from_slice(&[b'k', b'0' + (i / 10) as u8, b'0' + (i % 10) as u8, b'=', range(b'a', b'z')]);
            v.extend_from_slice([&b","[..], b";", b" "][i % 3]);
        }
        v.extend_from_slice(b"]}");
        let g = accepted(&v);
        sym::check(matches!(&parts(&g).3[..], [Stmt::Node(x)] if x.attributes.len() == n), "number of attributes");
    }
    h_c09_q_names {
        // keys and values that are whole words
        let (m, n) = (3 + sym::pick(6), [1, 5][sym::pick(2)]);
        let (a, b): (&[u8], &[u8]) = [(&b"graph{a["[..], &b"]}"[..]), (b"graph{a--b[", b"];c}"), (b"digraph{node[", b"]}"), (b"graph{graph[x=y,", b"]}"), (b"graph{edge[", b"][z=1]}")][sym::pick(5)];
        let (x, y) = if sym::pick(2) == 0 { (m, n) } else { (n, m) };
        differential(&cat(&[a, word(x).as_bytes(), b"=", word(y).as_bytes(), b]));
    }
    h_c09_q_kinds {
        // keys and values of all kinds, all separators
        let t = |k: usize| -> Vec<u8> { match value(k) { Id::Plain(s) | Id::Escaped(s) | Id::Html(s) | Id::Anonymous(s) => s.into_bytes() } };
        let (a, b): (&[u8], &[u8]) = [(&b"graph{a["[..], &b"]}"[..]), (b"digraph{a->b[", b"];c}"), (b"graph{edge[", b"]}")][sym::pick(3)];
        accepted(&cat(&[a, &t(sym::pick(4)), b"=", &t(sym::pick(4)), [&b","[..], b";", b" ", b"]["][sym::pick(4)], &t(sym::pick(4)), b"=", &t(0), b]));
    }
    h_c09_q_repeated {
        // the same key, or the same pair, several times
        let n = 2 + sym::pick(3);
        let (x, y) = (range(b'a', b'z'), range(b'a', b'z'));
        let mut v = [&b"graph{a["[..], b"graph{node[", b"digraph{a->b["][sym::pick(3)].to_vec();
        for i in 0..n {
            v.extend_from_slice(&[x, b'=', if sym::pick(2) == 0 { y } else { b'0' + i as u8 }]);
            v.extend_from_slice([&b","[..], b";", b" ", b"]["][sym::pick(4)]);
        }
        v.extend_from_slice(b"]}");
        let g = accepted(&v);
        let k = match &parts(&g).3[..] {
            [Stmt::Node(x)] => x.attributes.len(),
            [Stmt::Edge(x)] => x.attributes.len(),
            [Stmt::GAttribute(GraphAttributes::Node(x))] => x.len(),
            _ => 0,
        };
        sym::check(k == n, "number of attributes");
    }
    h_c09_q_related {
        // pairs that have a key, a value or both in common, in any order
        const T: [&str; 9] = ["k=v", "k=w", "k=\"\"", "k=\"v\"", "k=k", "v=k", "\"k\"=v", "k=<v>", "K=v"];
        let n = 2 + sym::pick(2);
        let mut v = [&b"graph{a["[..], b"graph{edge[", b"graph{a--b["][sym::pick(3)].to_vec();
        for i in 0..n { if i > 0 { v.extend_from_slice([&b","[..], b"]["][sym::pick(2)]) } v.extend_from_slice(T[sym::pick(9)].as_bytes()) }
        v.extend_from_slice(b"]}");
        differential(&v);
    }
    h_c09_q_brackets {
        // many brackets, some of them empty
        let n = 1 + sym::pick(9);
        let mut v = [&b"graph{a"[..], b"graph{node", b"digraph{a->b "][sym::pick(3)].to_vec();
        for i in 0..n {
            v.push(b'[');
            if (i + n) % 3 != 0 { v.extend_from_slice(&[range(b'a', b'z'), b'=', b'0' + i as u8]) }
            v.extend_from_slice([&b"]"[..], b"] ", b"\n]"][i % 3]);
        }
        v.push(b'}');
        accepted(&v);
    }
    h_c09_q_reject {
        // ill-formed lists
        let w: [&[u8]; 10] = [b"a", b"=", b"1", b",", b";", b"]", b"[", b"\"s\"", b"<h>", b":"];
        let n = sym::pick(5);
        let mut v = b"graph{x[".to_vec();
        for _ in 0..n { v.extend_from_slice(w[sym::pick(10)]) ; v.push(b' ') }
        v.extend_from_slice(b"]}");
        differential(&v);
    }
    h_c09_q_big {
        // lists of up to a thousand attributes, in one bracket or many
        let n = big();
        let k = sym::pick(4);
        let mut v = [&b"graph{a["[..], b"graph{node[", b"digraph{a->b[", b"digraph{a->b->c["][sym::pick(4)].to_vec();
        for i in 0..n {
            v.extend_from_slice(&[b'k', b'0' + (i / 10 % 10) as u8, b'0' + (i % 10) as u8, b'=', if i == n - 1 || i == n / 2 { range(b'a', b'z') } else { b'v' }]);
            v.extend_from_slice([&b","[..], b";", b" ", b"]["][k]);
        }
        v.extend_from_slice(b"]}");
        let g = accepted(&v);
        let m = match &parts(&g).3[..] {
            [Stmt::Node(x)] => x.attributes.len(),
            [Stmt::Edge(x)] => x.attributes.len(),
            [Stmt::GAttribute(GraphAttributes::Node(x))] => x.len(),
            _ => 0,
        };
        sym::check(m == n, "number of attributes");
    }
    h_c09_q_big_text {
        // long keys and values
        let v = big_id([33, 65, 101, 129, 257, 1025, 5000][sym::pick(7)]);
        let (a, b): (&[u8], &[u8]) = [(&b"graph{a[b="[..], &b",c=d]}"[..]), (b"graph{a--b[", b"=c];c}"), (b"digraph{node[x=y ", b"=\"z\"]}"), (b"graph{graph[x=y,z=", b"]}"), (b"graph{edge[k=", b"][z=1]}")][sym::pick(5)];
        let g = accepted(&cat(&[a, &v, b]));
        sym::check(holds_id(&g, utf8(&v)), "the identifier was not kept verbatim");
    }
    h_c09_q_attr_words {
        // keys and values that are whole words
        let (k, v) = crate::gen::pair_of_words();
        let (k, v) = (crate::refq::id(&k), crate::refq::id(&v));
        let (a, b): (&[u8], &[u8]) = [(&b"graph{a["[..], &b"]}"[..]), (b"digraph{a->b[x=y ", b",k=v];c}"), (b"digraph{edge[", b";][k=v]}"), (b"graph{", b"}"), (b"graph{a b[x=y][", b"]c}")][sym::pick(5)];
        accepted(&cat(&[a, k.as_bytes(), b"=", v.as_bytes(), b]));
    }
    h_c09_q_literal {
        // whole strings of any text as a key or a value
        let i = crate::gen::literal(3 + sym::pick(8));
        let v = crate::refq::id(&i);
        let (a, b): (&[u8], &[u8]) = [(&b"graph{a[k="[..], &b"]}"[..]), (b"graph{a[", b"=v]}"), (b"digraph{a->b[x=y,k=", b" z=w]}"), (b"graph{node[x=y;", b"=\"\"]}"), (b"graph{a[x=y][k=", b"]b}")][sym::pick(5)];
        let g = accepted(&cat(&[a, v.as_bytes(), b]));
        sym::check(holds_id(&g, v), "a key or value was not kept");
    }
    h_c09_q_alike {
        // keys that are nearly the same are kept apart, and the same ones twice
        let (x, y) = crate::gen::alike();
        let (x, y) = (x.as_bytes(), y.as_bytes());
        accepted(&match sym::pick(3) {
            0 => cat(&[b"graph{a[", x, b"=1,", y, b"=2,", x, b"=3]}"]),
            1 => cat(&[b"digraph{a->b[", x, b"=", y, b"][", y, b"=", x, b"]}"]),
            _ => cat(&[b"graph{node[", x, b"=1 ", y, b"=1]edge[", x, b"=1;", y, b"=1;]}"]),
        });
    }
    h_c09_q_combined {
        combined(108, 6144);
    }
    h_c09_t_combined {
        combined(1108, 32768);
    }
    h_c09_t_window {
        let (a, b): (&[u8], &[u8]) = [(&b"graph{a["[..], &b"]}"[..]), (b"graph{a[b=c", b"d=e]}"), (b"graph{a[b=c]", b"[d=e]}"), (b"graph{edge", b"}")][sym::pick(4)];
        differential(&cat(&[a, &window(4), b]));
    }

    // ---- C10 ports
    h_c10_q_window {
        let n = 1 + sym::pick(3);
        let (a, b): (&[u8], &[u8]) = [(&b"graph{a:"[..], &b"}"[..]), (b"graph{a:b:", b"}"), (b"graph{a", b"b}"), (b"graph{a--b:", b"[x=y]}"), (b"graph{a:", b":ne}"), (b"graph{a:", b"--c:d:e}"), (b"graph{\"a\":\"b\"", b"}")][sym::pick(7)];
        differential(&cat(&[a, &window(n), b]));
    }
    h_c10_q_compass {
        // every compass name, alone or followed by something, in every slot
        let c: &[u8] = [&b"n"[..], b"ne", b"e", b"se", b"s", b"sw", b"w", b"nw", b"c", b"_"][sym::pick(10)];
        let n = sym::pick(3);
        let (a, b): (&[u8], &[u8]) = [(&b"graph{a:"[..], &b"}"[..]), (b"graph{a:p:", b"}"), (b"graph{a:\"p\":", b"--b}"), (b"graph{x--a:p:", b"[k=v]}"), (b"graph{a:", b":n}")][sym::pick(5)];
        let d = cat(&[a, c, &window(n), b]);
        let o = differential(&d);
        if n == 0 { sym::check(matches!(o, Outcome::Agree(_)), "a compass name was rejected") }
    }
    h_c10_q_two_letters {
        // ':x' and ':p:x' for every name of one to three symbolic name bytes
        let n = 1 + sym::pick(3);
        let w = window(n);
        for (i, c) in w.iter().enumerate() {
            sym::assume(c.is_ascii_alphabetic() || *c == b'_' || (i > 0 && c.is_ascii_digit()));
        }
        let port = sym::pick(2) == 1;
        let o = differential(&cat(&[b"digraph{a", if port { b":p:" } else { b":" }, &w, b" -> b}"]));
        if !port {
            let Outcome::Agree(g) = o else { sym::fail("port rejected") };
            let isc = refp::compass(&w);
            match &parts(&g).3[..] {
                [Stmt::Edge(Edge { ty: EdgeTy::Pair(Vertex::N(NodeId(_, Some(Port(i, d)))), _), .. })] => {
                    sym::check(i.is_none() == isc && d.is_some() == isc, "compass or port name");
                    let t = match (i, d) { (Some(Id::Plain(t)), _) => t, (_, Some(t)) => t, _ => sym::fail("no port") };
                    sym::check(t.as_bytes() == &w[..], "port text");
                }
                _ => sym::fail("shape"),
            }
        } else {
            sym::check(matches!(o, Outcome::Agree(_)) == refp::compass(&w), "only a compass name may follow a port name");
        }
    }
    h_c10_q_names {
        // longer port names
        let n = 4 + sym::pick(5);
        let v = cased(n);
        let (a, b): (&[u8], &[u8]) = [(&b"graph{a:"[..], &b"}"[..]), (b"graph{a:", b":se}"), (b"digraph{b->a:", b"[k=v]}"), (b"digraph{a:", b"->b:n}"), (b"graph{a:p:", b"}"), (b"graph{", b":n}"), (b"graph{", b":p:c--x}")][sym::pick(7)];
        differential(&cat(&[a, &v, b]));
    }
    h_c10_q_case {
        // compass names in any case, and with a digit
        let mut v: Vec<u8> = [&b"n"[..], b"ne", b"se", b"c", b"center", b"north"][sym::pick(6)].iter().map(|c| { let b = byte(); sym::assume(b == *c || b == c.to_ascii_uppercase()); b }).collect();
        if sym::pick(2) == 1 { v.push(range(b'0', b'9')) }
        let (a, b): (&[u8], &[u8]) = [(&b"graph{a:"[..], &b"}"[..]), (b"graph{a:p:", b"}"), (b"digraph{x->a:", b"}")][sym::pick(3)];
        differential(&cat(&[a, &v, b]));
    }
    h_c10_q_kinds {
        // quoted, HTML and numeral ports are never compass points
        let p: Vec<u8> = match sym::pick(4) {
            0 => cat(&[b"\"", [&b"n"[..], b"se", b"_"][sym::pick(3)], b"\""]),
            1 => cat(&[b"<", &[text_byte()], b">"]),
            2 => vec![range(b'0', b'9'), range(b'0', b'9')],
            _ => cat(&[b"\"", &[text_byte(), text_byte()], b"\""]),
        };
        let (a, b): (&[u8], &[u8]) = [(&b"graph{a:"[..], &b"}"[..]), (b"graph{a:", b":sw}"), (b"graph{b--a:", b"}")][sym::pick(3)];
        let g = accepted(&cat(&[a, &p, b]));
        sym::check(holds_id(&g, utf8(&p)), "port identifier");
    }
    h_c10_q_spaced {
        let f = [&b" "[..], b"\n", b"/*x*/"];
        let mut v = b"graph{a".to_vec();
        v.extend_from_slice(f[sym::pick(3)]);
        v.push(b':');
        v.extend_from_slice(f[sym::pick(3)]);
        v.push(range(b'a', b'z'));
        v.extend_from_slice(f[sym::pick(3)]);
        if sym::pick(2) == 1 {
            v.push(b':');
            v.extend_from_slice(f[sym::pick(3)]);
            v.push(range(b'a', b'z'));
        }
        v.extend_from_slice(b" --b}");
        differential(&v);
    }
    h_c10_q_big {
        // long port names, and many ports
        let n = [33, 65, 101, 129, 257, 1025][sym::pick(6)];
        let v = big_id(n);
        let (a, b): (&[u8], &[u8]) = [(&b"graph{a:"[..], &b"}"[..]), (b"graph{a:", b":se}"), (b"digraph{b->a:", b"[k=v]}"), (b"digraph{a:", b"->b:n}"), (b"graph{", b":n}"), (b"graph{", b":p:c--x}")][sym::pick(6)];
        let g = accepted(&cat(&[a, &v, b]));
        sym::check(holds_id(&g, utf8(&v)), "port identifier");
    }
    h_c10_q_big_many {
        let n = [33, 65, 129, 257][sym::pick(4)];
        let k = sym::pick(2);
        let mut v = b"digraph{".to_vec();
        for i in 0..n {
            v.extend_from_slice(&[b'a', b'0' + (i % 10) as u8]);
            v.extend_from_slice([&b":n"[..], b":p", b":p:sw", b":\"c\"", b":_"][i % 5]);
            if i == n - 1 { v.extend_from_slice(&[range(b'x', b'z')]) }
            v.extend_from_slice(if k == 0 || i == n - 1 { b";" } else { b"->" });
        }
        v.push(b'}');
        differential(&v);
    }
    h_c10_q_combined {
        combined(109, 6144);
    }
    h_c10_t_combined {
        combined(1109, 32768);
    }
    h_c10_t_window {
        let (a, b): (&[u8], &[u8]) = [(&b"graph{a:"[..], &b"}"[..]), (b"graph{a:b:", b"}"), (b"graph{a", b"b}"), (b"graph{a:", b":ne}")][sym::pick(4)];
        differential(&cat(&[a, &window(4), b]));
    }

    // ---- C11 edges
    h_c11_q_chain {
        let mut v = b"digraph{".to_vec();
        let k = 2 + sym::pick(4);
        let w = sym::pick(3);
        for i in 0..k {
            if i > 0 { v.extend_from_slice([&b"->"[..], b" -> ", b"--"][w]) }
            if k <= 3 || i == 0 || i == k - 1 { v.extend_from_slice(&edge_end()) } else { v.extend_from_slice(&[range(b'a', b'z')]) }
        }
        v.extend_from_slice([&b""[..], b"[a=b]", b" [a=b,c=d][e=f];", b"; x [z=1]"][sym::pick(4)]);
        v.push(b'}');
        let g = accepted(&v);
        let n = match parts(&g).3.first() {
            Some(Stmt::Edge(Edge { ty: EdgeTy::Pair(..), .. })) => 2,
            Some(Stmt::Edge(Edge { ty: EdgeTy::Chain(v), .. })) => v.len(),
            _ => 0,
        };
        sym::check(n == k, "number of edge ends");
    }
    h_c11_q_long {
        let k = 2 + sym::pick(20);
        let mut v = b"graph{".to_vec();
        for i in 0..k {
            if i > 0 { v.extend_from_slice(if i % 5 == 4 { b"->" } else { b"--" }) }
            v.push(range(b'a', b'z'));
            if i % 4 == 3 { v.extend_from_slice(b":p") }
        }
        v.extend_from_slice(b"[k=v]}");
        accepted(&v);
    }
    h_c11_q_names {
        // ends that are whole words
        let n = 4 + sym::pick(5);
        let v = cased(n);
        let (a, b): (&[u8], &[u8]) = [(&b"graph{"[..], &b"--b}"[..]), (b"digraph{a->", b"}"), (b"digraph{a->b->", b"[k=v]}"), (b"graph{a--", b"--c}"), (b"digraph{a->subgraph ", b"{b}}"), (b"graph{a--", b"{b}}"), (b"digraph{subgraph ", b"{}->b}"), (b"digraph{a->b:", b"->c}")][sym::pick(8)];
        differential(&cat(&[a, &v, b]));
    }
    h_c11_q_repeated {
        // the same end several times
        let k = 2 + sym::pick(4);
        let (x, y) = (range(b'a', b'z'), range(b'a', b'z'));
        let mut v = b"digraph{".to_vec();
        for i in 0..k { if i > 0 { v.extend_from_slice(b"->") } v.push(if sym::pick(2) == 0 { x } else { y }) }
        v.extend_from_slice(b";x->x}");
        accepted(&v);
    }
    h_c11_q_related {
        // ends that have a name, a port or both in common, in any order
        const T: [&str; 7] = ["a", "b", "a:p", "a:n", "subgraph a{}", "subgraph{}", "subgraph{a--b}"];
        let n = 2 + sym::pick(4);
        let mut v = b"graph{".to_vec();
        let m = if n < 5 { 7 } else { 3 };
        for i in 0..n { if i > 0 { v.extend_from_slice(b"--") } v.extend_from_slice(T[sym::pick(m)].as_bytes()) }
        v.push(b'}');
        differential(&v);
    }
    h_c11_q_attributes {
        // attribute lists after edges, and the statement after them
        let e: &[u8] = [&b"a->b"[..], b"a->b->c", b"a->subgraph{b}", b"subgraph{b}->c", b"a:p->b:q:n"][sym::pick(5)];
        let mut v = cat(&[b"digraph{", e]);
        for _ in 0..sym::pick(4) {
            v.extend_from_slice([&b"["[..], b" [", b"/**/["][sym::pick(3)]);
            if sym::pick(2) == 1 { v.extend_from_slice(&[range(b'a', b'z'), b'=', b'1']) }
            v.push(b']');
        }
        v.extend_from_slice([&b"}"[..], b";x[y=z]}", b" x->y}"][sym::pick(3)]);
        accepted(&v);
    }
    h_c11_q_window {
        let n = sym::pick(4);
        let (a, b): (&[u8], &[u8]) = [(&b"graph{a--"[..], &b"}"[..]), (b"graph{a", b"b}"), (b"digraph{a->b", b"c}"), (b"digraph{subgraph{}", b"a}"), (b"digraph{a->subgraph{", b"}}"), (b"digraph{a->b", b"}"), (b"graph{a--b--", b"[x=y]}"), (b"graph{a-", b"b}")][sym::pick(8)];
        differential(&cat(&[a, &window(n), b]));
    }
    h_c11_q_heads {
        // an edge that starts with a subgraph
        let mut v = b"digraph{".to_vec();
        v.extend_from_slice([&b"subgraph{}"[..], b"subgraph s{a;b}", b"subgraph \"s\"{subgraph{x}->y}", b"subgraph t {subgraph{}}", b"subgraph{a[b=c]}"][sym::pick(5)]);
        v.extend_from_slice([&b"->"[..], b" --\n", b" /*c*/-> "][sym::pick(3)]);
        v.extend_from_slice(&edge_end());
        if sym::pick(2) == 1 { v.extend_from_slice(b"->"); v.extend_from_slice(&edge_end()) }
        v.extend_from_slice([&b""[..], b"[a=b]", b";c[d=e]"][sym::pick(3)]);
        v.push(b'}');
        accepted(&v);
    }
    h_c11_q_big {
        // chains of up to a thousand ends
        let n = big();
        let k = sym::pick(4);
        let mut v = b"digraph{".to_vec();
        for i in 0..n {
            if i > 0 { v.extend_from_slice(if k == 1 { b"--" } else { b"->" }) }
            v.extend_from_slice(&[b'x', if i == n / 2 || i == n - 1 { range(b'a', b'z') } else { b'0' + (i % 10) as u8 }]);
            if k == 2 { v.extend_from_slice(b":p") }
            if k == 3 && i % 16 == 7 { v.extend_from_slice(b"->subgraph{}") }
        }
        v.extend_from_slice(b"[k=v];y}");
        let g = accepted(&v);
        sym::check(matches!(&parts(&g).3[0], Stmt::Edge(Edge { ty: EdgeTy::Chain(v), .. }) if v.len() >= n), "number of edge ends");
    }
    h_c11_q_big_many {
        // many edges, and edges to a large subgraph
        let n = big();
        let mut v = b"graph{".to_vec();
        let k = sym::pick(3);
        if k > 0 { v.extend_from_slice(if k == 1 { b"a--subgraph{" } else { b"subgraph s{" }) }
        for i in 0..n { v.extend_from_slice(&[b'x', if i == n - 1 { range(b'a', b'z') } else { b'0' + (i % 10) as u8 }, b'-', b'-', b'b', b';']) }
        if k > 0 { v.extend_from_slice(if k == 1 { b"}" } else { b"}--a" }) }
        v.extend_from_slice(b"}");
        accepted(&v);
    }
    h_c11_q_combined {
        combined(110, 6144);
    }
    h_c11_t_combined {
        combined(1110, 32768);
    }
    h_c11_t_window {
        let (a, b): (&[u8], &[u8]) = [(&b"graph{a--"[..], &b"}"[..]), (b"graph{a", b"b}"), (b"digraph{a->b", b"c}"), (b"digraph{subgraph{}", b"a}")][sym::pick(4)];
        differential(&cat(&[a, &window(4), b]));
    }

    // ---- C12 truncation and trailing text
    h_c12_q_cut {
        let c = CARRIERS[sym::pick(3)];
        let i = sym::pick(c.len());
        let r = graphviz_rust::parse(utf8(&c[..i]));
        sym::check(r.is_err(), "a truncated document was accepted");
    }
    h_c12_q_cut_symbolic {
        // every proper prefix of a short document with symbolic names
        let x = range(b'a', b'z');
        let d = match sym::pick(4) {
            0 => cat(&[b"graph ", &[x], b"{a[k=\"", &[text_byte()], b"\"]}"]),
            1 => cat(&[b"digraph{", &[x], b"->subgraph{", &[x], b"};}"]),
            2 => cat(&[b"strict graph{", &[x], b"=<", &[text_byte()], b"<b>>/*", &[text_byte()], b"*/}"]),
            _ => cat(&[b"graph{", &[x], b":", &[x], b":n;node[", &[x], b"=1]}"]),
        };
        accepted(&d);
        let i = sym::pick(d.len());
        sym::check(graphviz_rust::parse(utf8(&d[..i])).is_err(), "a truncated document was accepted");
    }
    h_c12_q_trailing {
        let c: &[u8] = [&b"graph{}"[..], b"digraph g{a->b}", b"strict graph{subgraph{}}"][sym::pick(3)];
        let n = 1 + sym::pick(4);
        let w = window(n);
        let r = graphviz_rust::parse(utf8(&cat(&[c, &w])));
        sym::check(r.is_ok() == blank_or_comment(&w), "text after the document");
        sym::cover(if r.is_ok() { 1 } else { 2 });
    }
    h_c12_q_open {
        // something is opened and not closed
        let o: &[u8] = [&b"\""[..], b"<", b"/*", b"[", b"{", b"subgraph{", b"a[b=\"", b"a[", b"a=<"][sym::pick(9)];
        let n = sym::pick(4);
        let p: &[u8] = [&b"graph{"[..], b"digraph{a->b;"][sym::pick(2)];
        let d = cat(&[p, o, &window(n), [&b"}"[..], b"", b"]}"][sym::pick(3)]]);
        differential(&d);
    }
    h_c12_q_two_documents {
        let a = CARRIERS[1 + sym::pick(2)];
        let d = cat(&[a, [&b""[..], b" ", b"\n", b";"][sym::pick(4)], [&b"graph{}"[..], b"}", b"a", b"{", b"strict"][sym::pick(5)]]);
        sym::check(graphviz_rust::parse(utf8(&d)).is_err(), "text after the document");
    }
    h_c12_q_open_long {
        // something is opened and followed by a longer text
        let o: &[u8] = [&b"\""[..], b"<", b"/*", b"a[b=\"", b"a=<<b>", b"a[l=\"x\\"][sym::pick(6)];
        let v = window(7);
        for c in &v { sym::assume(*c != b'"' && *c != b'>' && *c != b'*' && *c != b'<' && *c != b'\\') }
        let d = cat(&[b"graph{", o, &v, [&b"}"[..], b"", b"]}", b"\n}\n"][sym::pick(4)]]);
        differential(&d);
    }
    h_c12_q_braces {
        // more or fewer braces than needed
        let (m, n) = (1 + sym::pick(4), sym::pick(5));
        let mut v = b"graph{".to_vec();
        for _ in 1..m { v.extend_from_slice([&b"subgraph{"[..], b"subgraph s{a;", b"a--subgraph{"][sym::pick(3)]) }
        v.extend_from_slice(&[range(b'a', b'z')]);
        for _ in 0..n { v.extend_from_slice([&b"}"[..], b";}"][sym::pick(2)]) }
        let r = graphviz_rust::parse(utf8(&v));
        sym::check(r.is_ok() == (m == n), "braces do not match");
    }
    h_c12_q_trailing_long {
        // blanks and comments after the document, and something after them
        let mut v = [&b"graph{}"[..], b"digraph g{a->b}"][sym::pick(2)].to_vec();
        let n = sym::pick(4);
        for _ in 0..n { v.extend_from_slice(&short_filler()) }
        let w = window(sym::pick(2));
        v.extend_from_slice(&w);
        let r = graphviz_rust::parse(utf8(&v));
        sym::check(r.is_ok() == blank_or_comment(&w), "text after the document");
    }
    h_c12_q_trailing_texts {
        // what stands after documents elsewhere: separators, ends of other formats, signatures
        const T: [&str; 40] = ["---", "--", "===", "...", "%%", "%", "__END__", "EOF", "EOT", "END", "end", "\0", "\u{1a}", "\u{c}", "\u{feff}", "\u{a0}", "\u{2028}", "```", "~~~", "\"\"\"", "'", "@enduml", "</svg>", "-->",
            "<!---->", "*/", ";;", ";", ",", ".", ":", ")", "]", ">", "\\", "\\n", "$", "&", "|", "~"];
        let c = [&b"graph{}"[..], b"digraph g{a->b}\n", b"strict graph{subgraph{}}\r\n", b"graph{a}\n\n"][sym::pick(4)];
        let t = T[sym::pick(40)];
        let e = match sym::pick(4) { 0 => vec![], 1 => b"\n".to_vec(), 2 => b"\ngraph{b}\n".to_vec(), _ => vec![b'\n', ascii(), b'\n'] };
        let d = cat(&[c, t.as_bytes(), &e]);
        sym::check(graphviz_rust::parse(utf8(&d)).is_err(), "text after the document");
    }
    h_c12_q_cut_words {
        // documents that end after a keyword, a name or the sign after it
        let w = ["graph", "digraph", "strict", "strict graph", "subgraph", "node", "edge", "graph{", "graph g{", "graph{a", "graph{a=", "graph{a:", "graph{a--", "graph{a[", "graph{a[k", "graph{a[k=", "graph{a[k=v", "graph{a[k=v]", "graph{a[k=v];", "graph{subgraph", "graph{subgraph s", "graph{subgraph{}", "graph{node", "graph{node[", "graph{node[]"][sym::pick(25)];
        let n = sym::pick(3);
        let x = window(n);
        for c in &x { sym::assume(*c != b'}') }
        sym::check(graphviz_rust::parse(utf8(&cat(&[w.as_bytes(), &x]))).is_err(), "a truncated document was accepted");
    }
    h_c12_q_big {
        // a large document, blanks and comments after it, and something after them
        let mut v = if sym::pick(2) == 0 { b"graph{}".to_vec() } else { huge_of(33) };
        let n = [0, 33, 65, 129, 257, 1025, 5000][sym::pick(7)];
        match sym::pick(4) {
            0 => v.extend_from_slice(&vec![b' '; n]),
            1 => v.extend_from_slice(&vec![b'\n'; n]),
            2 => { v.extend_from_slice(b"//"); v.extend_from_slice(&vec![b'x'; n]); v.push(b'\n') }
            _ => { v.extend_from_slice(b"/*"); v.extend_from_slice(&vec![b'}'; n]); v.extend_from_slice(b"*/") }
        }
        let w = window(sym::pick(2));
        v.extend_from_slice(&w);
        let r = graphviz_rust::parse(utf8(&v));
        sym::check(r.is_ok() == blank_or_comment(&w), "text after the document");
    }
    h_c12_q_big_open {
        // something large that is not closed
        let n = [33, 65, 129, 257, 1025][sym::pick(5)];
        let o: &[u8] = [&b"\""[..], b"<", b"/*", b"a[b=\"", b"a=<<b>", b"subgraph{", b"a[", b""][sym::pick(8)];
        let f: Vec<u8> = (0..n / 4).flat_map(|_| *b"x=y;").collect();
        let d = cat(&[b"graph{", o, &f, &[range(b'a', b'z')]]);
        sym::check(graphviz_rust::parse(utf8(&d)).is_err(), "a truncated document was accepted");
    }
    h_c26_q_context {
        // the same text again, with others in between
        let d = in_context(sym::pick(3));
        again(&d, sym::pick(2));
    }
    h_c26_q_carrier {
        let c = CARRIERS[sym::pick(3)];
        let d = if sym::pick(2) == 0 { mutated(c, 1) } else { inserted(c, 1) };
        again(&d, 0);
    }
    h_c26_q_statements {
        let mut v = b"digraph{".to_vec();
        for _ in 0..2 { v.extend_from_slice(&stmt_template()); v.push(b';') }
        v.extend_from_slice([&b"}"[..], b"a[", b"}}"][sym::pick(3)]);
        again(&v, 1);
    }
    h_c26_q_similar {
        // texts that differ in a few symbolic bytes only, each after the other
        let n = 1;
        let (a, b) = CONTEXTS[sym::pick(CONTEXTS.len())];
        let x = cat(&[a, &window(n), b]);
        let y = cat(&[a, &window(n), b]);
        let r = graphviz_rust::parse(utf8(&x));
        observe_result(&r);
        differential(&y);
        again_same(&x, &r);
    }
    h_c26_q_similar_carrier {
        // and texts that share a long beginning, end or both
        let c = CARRIERS[sym::pick(3)];
        let i = sym::pick(c.len());
        let r = graphviz_rust::parse(utf8(c));
        let y = match sym::pick(4) {
            0 => { let mut v = c.to_vec(); v[i] = ascii(); v }
            1 => cat(&[&c[..i], &window(1)]),
            2 => cat(&[&window(1), &c[i..]]),
            _ => cat(&[&c[..i], &window(1), &c[i..]]),
        };
        differential(&y);
        again_same(c, &r);
    }
    h_c26_q_ids {
        // the same names in other places and of other kinds
        let t = [range(b'a', b'z'), byte()];
        sym::assume(t[1] < 0x80);
        let k = sym::pick(4);
        let f = |k: usize| match k { 0 => t.to_vec(), 1 => cat(&[b"\"", &t, b"\""]), 2 => cat(&[b"<", &t, b">"]), _ => cat(&[&t, b"_"]) };
        let (a, b) = IDPOS[sym::pick(IDPOS.len())];
        let x = cat(&[a, &f(k), b]);
        let r = graphviz_rust::parse(utf8(&x));
        observe_result(&r);
        let (c, d) = IDPOS[sym::pick(IDPOS.len())];
        differential(&cat(&[c, &f(sym::pick(4)), d]));
        again_same(&x, &r);
    }
    h_c26_q_many {
        // a long history, of one text or of many
        let n = [5, 17, 33, 65, 129, 257][sym::pick(6)];
        let k = sym::pick(3);
        let x = range(b'a', b'z');
        for i in 0..n {
            let y = [b'a', b'0' + (i / 100) as u8, b'0' + (i / 10 % 10) as u8, b'0' + (i % 10) as u8];
            let d = match k { 0 => cat(&[b"graph{", &[x], b"[k=v]subgraph{}}"]), 1 => cat(&[b"graph ", &y, b"{", &y, b":", &y, b"}"]), _ => cat(&[b"graph{", &y, b"["]) };
            let r = graphviz_rust::parse(utf8(&d));
            sym::check(r.is_ok() == (k < 2), "a text was judged differently after others");
        }
        differential(&cat(&[b"digraph{subgraph{", &[x], b"}->b:n[k=v];a000}"]));
        differential(&cat(&[b"digraph{", &[x], b"->"]));
    }
    h_c26_q_late {
        // what a late call gives: documents with repeated parts after 300 others
        let k = sym::pick(3);
        for i in 0..300 {
            let y = [b'a' + (i % 26) as u8, b'0' + (i / 100) as u8, b'0' + (i / 10 % 10) as u8, b'0' + (i % 10) as u8];
            let d = match k { 0 => b"graph{a;a[k=v]subgraph{a--b}}".to_vec(), 1 => cat(&[b"graph ", &y, b"{", &y, b"}"]), _ => cat(&[b"graph{", &y, b"["]) };
            sym::check(graphviz_rust::parse(utf8(&d)).is_ok() == (k < 2), "a text was judged differently after others");
        }
        let c = REPEATED[sym::pick(REPEATED.len())];
        let i = sym::pick(c.len());
        match sym::pick(3) {
            0 => differential(c),
            1 => differential(&cat(&[&c[..i], &window(1), &c[i + 1..]])),
            _ => differential(&cat(&[&c[..i], &window(1)])),
        };
    }
    h_c26_q_long_ids {
        // long names that differ at one place only
        let n = [9, 17, 24, 33, 65, 300][sym::pick(6)];
        let i = [0, 1, n / 3, n / 2, n - 9, n - 2, n - 1][sym::pick(7)];
        let k = sym::pick(3);
        let f = |c: u8| { let mut v: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect(); v[i] = c; match k { 0 => v, 1 => cat(&[b"\"", &v, b"\""]), _ => cat(&[b"<", &v, b">"]) } };
        let (x, y) = (f(range(b'a', b'z')), f(range(b'A', b'z')));
        let (a, b) = IDPOS[sym::pick(IDPOS.len())];
        let d = cat(&[a, &x, b]);
        let r = graphviz_rust::parse(utf8(&d));
        observe_result(&r);
        differential(&cat(&[a, &y, b]));
        again_same(&d, &r);
    }
    h_c26_q_print {
        // prints in between
        let d = in_context(1);
        let r = graphviz_rust::parse(utf8(&d));
        observe_result(&r);
        if let Ok(g) = &r {
            let mut c = graphviz_rust::printer::PrinterContext::default();
            if sym::pick(2) == 0 { c.always_inline(); }
            let t = graphviz_rust::print(g.clone(), &mut c);
            sym::observe(t.as_bytes());
        }
        again_same(&d, &r);
    }
    h_c26_q_headers {
        // documents that start in the same or another way, one after the other
        const H: [&[u8]; 8] = [b"strict digraph{a->b}", b"strict graph{a}", b"digraph{a->b}", b"graph a{}", b"strict graph a{b}", b"strict", b"/**/graph{", b"digraph a{b:n}"];
        let x = range(b'a', b'z');
        let d = [b"strict digraph "[..].as_ref(), b"graph ", b"strict graph "][sym::pick(3)];
        let d = cat(&[d, &[x], b"{a}"]);
        let r = graphviz_rust::parse(utf8(&d));
        observe_result(&r);
        for _ in 0..3 {
            let o = H[sym::pick(8)];
            differential(o);
        }
        again_same(&d, &r);
    }
    h_c26_q_combined {
        let (mut p, mut q) = { let a = combo::row(126, 3072); let b = combo::Row { s: a.s ^ 0xabcd, symbolic: 1, words: 0, room: 8 }; (a, b) };
        let (g, h) = (combo::graph(&mut p), combo::graph(&mut q));
        let (mut d, e) = (combo::text(&mut p, &g), combo::text(&mut q, &h));
        if p.f(4) == 0 { d.pop(); while std::str::from_utf8(&d).is_err() { d.pop(); } }
        let r = graphviz_rust::parse(utf8(&d));
        observe_result(&r);
        match graphviz_rust::parse(utf8(&e)) {
            Ok(x) => sym::check(eq_graph(&x, &h), "a text gives another graph after another text"),
            Err(_) => sym::fail("a text is rejected after another one"),
        }
        again_same(&d, &r);
    }
    h_c26_t_combined {
        let (mut p, mut q) = { let a = combo::row(1126, 32768); let b = combo::Row { s: a.s ^ 0xabcd, symbolic: 1, words: 0, room: 8 }; (a, b) };
        let (g, h) = (combo::graph(&mut p), combo::graph(&mut q));
        let (mut d, e) = (combo::text(&mut p, &g), combo::text(&mut q, &h));
        if p.f(4) == 0 { d.pop(); while std::str::from_utf8(&d).is_err() { d.pop(); } }
        let r = graphviz_rust::parse(utf8(&d));
        observe_result(&r);
        match graphviz_rust::parse(utf8(&e)) {
            Ok(x) => sym::check(eq_graph(&x, &h), "a text gives another graph after another text"),
            Err(_) => sym::fail("a text is rejected after another one"),
        }
        again_same(&d, &r);
    }
    h_c26_t_context {
        let d = in_context(3);
        again(&d, 2);
    }
    h_c26_t_similar_pairs {
        let (a, b) = CONTEXTS[sym::pick(CONTEXTS.len())];
        let x = cat(&[a, &window(2), b]);
        let y = cat(&[a, &window(1), b]);
        let r = graphviz_rust::parse(utf8(&x));
        observe_result(&r);
        differential(&y);
        again_same(&x, &r);
    }
    h_c26_t_similar {
        let c = CARRIERS[sym::pick(3)];
        let d = mutated(c, 2);
        let r = graphviz_rust::parse(utf8(&d));
        observe_result(&r);
        differential(&mutated(c, 1));
        again_same(&d, &r);
    }
    h_c12_q_combined {
        // combined documents cut anywhere before the last brace, or with something behind them
        let mut q = combo::row(112, 6144);
        let g = combo::graph(&mut q);
        let mut d = combo::text(&mut q, &g);
        let mut end = d.len();
        while !blank_or_comment(&d[end..]) || d[end - 1] != b'}' { end -= 1 }
        // the last brace of the document is the first one with nothing but filler behind it
        for i in (0..end).rev() { if d[i] == b'}' && blank_or_comment(&d[i + 1..]) { end = i + 1 } }
        if q.on() {
            let mut i = q.f(end);
            while !std::str::from_utf8(&d[..i]).is_ok() { i -= 1 }
            d.truncate(i);
            let s = d.clone();
            d.extend_from_slice(&[&b""[..], b" ", b"\n/**/"][q.f(3)]);
            sym::check(graphviz_rust::parse(utf8(&s)).is_err() && graphviz_rust::parse(utf8(&d)).is_err(), "a truncated document was accepted");
        } else {
            d.truncate(end);
            let w = cat(&[[&b""[..], b" ", b"/*x*/", b"\n"][q.f(4)], &[ascii()], [&b""[..], b"x", b"}", b"{}"][q.f(4)]]);
            d.extend_from_slice(&w);
            sym::check(graphviz_rust::parse(utf8(&d)).is_ok() == blank_or_comment(&w), "text after the document");
        }
    }
    h_c12_t_combined {
        // combined documents cut anywhere before the last brace, or with something behind them
        let mut q = combo::row(1112, 32768);
        let g = combo::graph(&mut q);
        let mut d = combo::text(&mut q, &g);
        let mut end = d.len();
        while !blank_or_comment(&d[end..]) || d[end - 1] != b'}' { end -= 1 }
        // the last brace of the document is the first one with nothing but filler behind it
        for i in (0..end).rev() { if d[i] == b'}' && blank_or_comment(&d[i + 1..]) { end = i + 1 } }
        if q.on() {
            let mut i = q.f(end);
            while !std::str::from_utf8(&d[..i]).is_ok() { i -= 1 }
            d.truncate(i);
            let s = d.clone();
            d.extend_from_slice(&[&b""[..], b" ", b"\n/**/"][q.f(3)]);
            sym::check(graphviz_rust::parse(utf8(&s)).is_err() && graphviz_rust::parse(utf8(&d)).is_err(), "a truncated document was accepted");
        } else {
            d.truncate(end);
            let w = cat(&[[&b""[..], b" ", b"/*x*/", b"\n"][q.f(4)], &[ascii()], [&b""[..], b"x", b"}", b"{}"][q.f(4)]]);
            d.extend_from_slice(&w);
            sym::check(graphviz_rust::parse(utf8(&d)).is_ok() == blank_or_comment(&w), "text after the document");
        }
    }
    h_c12_t_trailing {
        let w = window(5);
        let r = graphviz_rust::parse(utf8(&cat(&[b"graph{}", &w])));
        sym::check(r.is_ok() == blank_or_comment(&w), "text after the document");
    }
    h_c12_t_open {
        let o: &[u8] = [&b"\""[..], b"<", b"/*", b"[", b"{", b"subgraph{", b"a[b=\"", b"a[", b"a=<"][sym::pick(9)];
        differential(&cat(&[b"graph{", o, &window(4), [&b"}"[..], b"", b"]}"][sym::pick(3)]]));
    }
    h_c12_t_cut {
        let c = CARRIERS[sym::pick(3)];
        let i = sym::pick(c.len());
        let w = window(1);
        differential(&cat(&[&c[..i], &w]));
    }
}

/// Positions where an identifier may stand.
pub const IDPOS: &[(&[u8], &[u8])] = &[
    (b"graph{", b"}"),
    (b"graph ", b"{}"),
    (b"graph{subgraph ", b"{}}"),
    (b"graph{a[", b"=v]}"),
    (b"graph{a[k=", b"]}"),
    (b"digraph{a->", b"[k=v]}"),
    (b"graph{a:", b"}"),
    (b"graph{", b"=v}"),
];

/// A symbolic byte that is ordinary inside strings and HTML strings.
fn text_byte() -> u8 {
    let b = ascii();
    sym::assume(b != b'"' && b != b'\\' && b != b'<' && b != b'>' && b != b'*' && b != b'/');
    b
}

fn ids_of<'a>(v: &'a [Stmt], out: &mut Vec<&'a Id>) {
    fn node<'a>(n: &'a NodeId, out: &mut Vec<&'a Id>) {
        out.push(&n.0);
        if let Some(Port(Some(i), _)) = &n.1 {
            out.push(i)
        }
    }
    fn attrs<'a>(a: &'a [Attribute], out: &mut Vec<&'a Id>) {
        for x in a {
            out.push(&x.0);
            out.push(&x.1)
        }
    }
    fn vertex<'a>(v: &'a Vertex, out: &mut Vec<&'a Id>) {
        match v {
            Vertex::N(n) => node(n, out),
            Vertex::S(s) => {
                out.push(&s.id);
                ids_of(&s.stmts, out)
            }
        }
    }
    for s in v {
        match s {
            Stmt::Node(n) => {
                node(&n.id, out);
                attrs(&n.attributes, out)
            }
            Stmt::Subgraph(s) => {
                out.push(&s.id);
                ids_of(&s.stmts, out)
            }
            Stmt::Attribute(a) => {
                out.push(&a.0);
                out.push(&a.1)
            }
            Stmt::GAttribute(GraphAttributes::Graph(a) | GraphAttributes::Node(a) | GraphAttributes::Edge(a)) => attrs(a, out),
            Stmt::Edge(e) => {
                match &e.ty {
                    EdgeTy::Pair(a, b) => {
                        vertex(a, out);
                        vertex(b, out)
                    }
                    EdgeTy::Chain(v) => v.iter().for_each(|x| vertex(x, out)),
                }
                attrs(&e.attributes, out)
            }
        }
    }
}
/// Some identifier of the graph has exactly this text.
fn holds_id(g: &Graph, t: &str) -> bool {
    let (_, _, i, b) = parts(g);
    let mut v = vec![i];
    ids_of(b, &mut v);
    v.iter().any(|i| matches!(i, Id::Plain(s) | Id::Escaped(s) | Id::Html(s) if s == t))
}

/// A long identifier: every byte symbolic within its class.
fn long_id(n: usize) -> Vec<u8> {
    let mut v = vec![];
    match sym::pick(4) {
        0 => for i in 0..n { v.push(if i % 7 == 5 { range(b'0', b'9') } else if i % 7 == 3 { b'_' } else { range(b'o', b'r') }) },
        1 => for i in 0..n { v.push(if i == n / 2 { b'.' } else { range(b'0', b'9') }) },
        2 => { v.push(b'"'); for i in 0..n { v.push(if i % 9 == 4 { b'\\' } else if i % 7 == 2 || i + 1 == n { range(b'#', b'Z') } else { range(b'@', b'Z') }) } v.push(b'p'); v.push(b'"') }
        _ => { v.push(b'-'); for _ in 0..n { v.push(range(b'0', b'9')) } }
    }
    v
}
/// A word of lower-case letters, or of letters in any case.
fn cased(n: usize) -> Vec<u8> {
    if n > 7 || sym::pick(2) == 0 {
        return word(n).into_bytes();
    }
    (0..n).map(|_| { let b = byte(); sym::assume(b.is_ascii_alphabetic()); b }).collect()
}
/// One character of two, three or four bytes.
pub fn wide() -> Vec<u8> {
    let n = 2 + sym::pick(3);
    let mut v = vec![0u8; n];
    sym::bytes(&mut v);
    sym::assume(v[0] >= [0xc2, 0xe0, 0xf0][n - 2] && v[0] <= [0xdf, 0xef, 0xf4][n - 2]);
    for c in &v[1..] { sym::assume(*c >= 0x80 && *c <= 0xbf) }
    // no overlong forms, surrogates, or values past the last
    sym::assume(!(v[0] == 0xe0 && v[1] < 0xa0) && !(v[0] == 0xed && v[1] > 0x9f) && !(v[0] == 0xf0 && v[1] < 0x90) && !(v[0] == 0xf4 && v[1] > 0x8f));
    v
}
/// The tokens of a document that has every kind of token boundary, and the
/// graph it stands for.
fn base() -> (Vec<&'static [u8]>, Graph) {
    let t: &[&[u8]] = match sym::pick(2) {
        0 => &[b"strict", b"digraph", b"g", b"{", b"a", b":", b"p", b":", b"ne", b"->", b"subgraph", b"s", b"{", b"x", b"}", b"[", b"k", b"=", b"v", b",", b"\"q\"", b"=", b"<h>", b"]", b"[", b"]", b";", b"node", b"[", b"c", b"=", b"1.5", b";", b"]", b"}"],
        _ => &[b"graph", b"{", b"u", b"=", b"-2", b"subgraph", b"{", b"}", b"b", b"--", b"c", b"--", b"\"d\"", b"edge", b"[", b"e", b"=", b"f", b"]", b"z", b":", b"w", b"[", b"i", b"=", b"j", b"m", b"=", b"n", b"]", b"}"],
    };
    let g = crate::refp::parse(&t.join(&b' '));
    (t.to_vec(), g.unwrap())
}
fn same(doc: &[u8], want: &Graph) {
    match graphviz_rust::parse(utf8(doc)) {
        Ok(g) => {
            observe_graph(&g);
            sym::check(eq_graph(&g, want), "the document is read as another graph")
        }
        Err(_) => sym::fail("a valid document is rejected"),
    }
}
fn blank() -> u8 {
    let b = byte();
    sym::assume(b == b' ' || b == b'\t' || b == b'\n' || b == b'\r');
    b
}
fn newline() -> &'static [u8] {
    [&b"\n"[..], b"\r\n", b"\r"][sym::pick(3)]
}
/// A symbolic non-empty piece of white space or comment.
fn filler() -> Vec<u8> {
    match sym::pick(5) {
        0 => (0..1 + sym::pick(3)).map(|_| blank()).collect(),
        1 => {
            let n = sym::pick(3);
            let b = utf8_window(n);
            for k in 1..n {
                sym::assume(!(b[k - 1] == b'*' && b[k] == b'/'))
            }
            cat(&[b"/*", &b, b"*/"])
        }
        2 | 3 => {
            let n = sym::pick(3);
            let b = utf8_window(n);
            for c in &b {
                sym::assume(*c != b'\n' && *c != b'\r')
            }
            cat(&[if sym::pick(2) == 0 { b"//" } else { b"#" }, &b, newline()])
        }
        _ => cat(&[&[blank()], [&b"/**/"[..], b"//\n", b"#/*\n", b"/*//*/", b"/***/"][sym::pick(5)], &[blank()]]),
    }
}
fn short_filler() -> Vec<u8> {
    match sym::pick(4) {
        0 => vec![blank()],
        1 => {
            let b = ascii();
            cat(&[b"/*", &[b], b"*/"])
        }
        2 => {
            let b = ascii();
            sym::assume(b != b'\n' && b != b'\r');
            cat(&[b"//", &[b], b"\n"])
        }
        _ => {
            let b = ascii();
            sym::assume(b != b'\n' && b != b'\r');
            cat(&[b"#", &[b], b"\r\n"])
        }
    }
}
/// Blanks and complete comments only (a line comment may end at the end).
fn blank_or_comment(s: &[u8]) -> bool {
    let mut i = 0;
    while i < s.len() {
        let two = |k: &[u8]| i + 1 < s.len() && &s[i..i + 2] == k;
        if s[i] == b' ' || s[i] == b'\t' || s[i] == b'\n' || s[i] == b'\r' {
            i += 1
        } else if s[i] == b'#' || two(b"//") {
            while i < s.len() && s[i] != b'\n' && s[i] != b'\r' {
                i += 1
            }
        } else if two(b"/*") {
            i += 2;
            while !(i + 1 < s.len() && &s[i..i + 2] == b"*/") {
                if i >= s.len() {
                    return false;
                }
                i += 1
            }
            i += 2
        } else {
            return false;
        }
    }
    true
}

/// One statement of each form, with a symbolic name.
pub fn stmt_template() -> Vec<u8> {
    let x = range(b'a', b'z');
    let k = sym::pick(18);
    let t: (&[u8], &[u8]) = [
        (&b""[..], &b""[..]),
        (b"", b"[k=v]"),
        (b"", b":p:sw [k=\"v\" l=2]"),
        (b"\"", b"\"[]"),
        (b"", b"=1"),
        (b"", b" = <x>"),
        (b"graph[", b"=1]"),
        (b"node [", b"=a,b=c;]"),
        (b"edge[q=", b"2]"),
        (b"", b"--b"),
        (b"", b":n->b:q--c[k=v]"),
        (b"", b"--subgraph{t;u}[k=v]"),
        (b"subgraph{", b"}"),
        (b"subgraph ", b"{r;s=t}"),
        (b"subgraph{", b"}--v"),
        (b"subgraph w{", b"}->subgraph{}->x[k=v]"),
        (b"_", b"3 "),
        (b"<", b">"),
    ][k];
    cat(&[t.0, &[x], t.1])
}
fn edge_end() -> Vec<u8> {
    let x = range(b'a', b'z');
    let t: (&[u8], &[u8]) = [
        (&b""[..], &b""[..]),
        (b"", b":p"),
        (b"", b":q:nw"),
        (b"a:", b""),
        (b"\"", b"\""),
        (b"subgraph{", b"}"),
        (b"subgraph ", b"{c;d}"),
        (b"subgraph{a->", b"}"),
        (b"_1", b" /**/"),
        (b"graph", b""),
    ][sym::pick(9)];
    cat(&[t.0, &[x], t.1])
}

/// A quoted or HTML string around a symbolic text, or the bare text.
pub fn wrapped(n: usize) -> Vec<u8> {
    let w = utf8_window(n);
    let (a, b): (&[u8], &[u8]) = [(&b""[..], &b""[..]), (b"\"", b"\""), (b"<", b">"), (b"\"\\", b"\""), (b"<<a>", b"</a>>")][sym::pick(5)];
    cat(&[a, &w, b])
}

/// A large document, named g.
pub fn huge() -> Vec<u8> {
    huge_of([33, 129, 513][sym::pick(3)])
}
fn huge_of(n: usize) -> Vec<u8> {
    let mut v = [&b"digraph g{"[..], b"strict graph g{"][sym::pick(2)].to_vec();
    for i in 0..n {
        v.extend_from_slice(&[b'x', b'0' + (i / 10 % 10) as u8, b'0' + (i % 10) as u8]);
        v.extend_from_slice([&b";"[..], b"->y;", b"[k=\"a, b\" l=<b>]", b"=1 ", b":p:n\n", b"->subgraph{z};", b"/*x*/[]"][i % 7]);
    }
    v.push(range(b'a', b'z'));
    v.push(b'}');
    v
}
/// An identifier of `n` bytes or more of every form; a few bytes are symbolic.
pub fn big_id(n: usize) -> Vec<u8> {
    match sym::pick(6) {
        0 => fill(n, b'q'),
        1 => cat(&[b"\"", &fill(n, b' '), b"\""]),
        2 => cat(&[b"<", &fill(n, b'&'), b">"]),
        3 => cat(&[if n % 2 == 0 { b"-" } else { b"1" }, &vec![b'7'; n], &[range(b'0', b'9')]]),
        4 => cat(&[b"\"", &(0..n / 2).flat_map(|_| *b"\\\"").collect::<Vec<u8>>(), &[range(b'a', b'z')], b"\""]),
        _ => cat(&[b"\"", "\u{e9}".repeat(n / 2).as_bytes(), &[range(b'a', b'z')], b"\""]),
    }
}

fn observe_result(r: &Result<Graph, String>) {
    match r {
        Ok(g) => observe_graph(g),
        Err(e) => sym::observe(e.as_bytes()),
    }
}
/// Parses `d` once more and compares with what it gave before.
fn again_same(d: &[u8], r: &Result<Graph, String>) {
    match (graphviz_rust::parse(utf8(d)), r) {
        (Ok(a), Ok(b)) => sym::check(eq_graph(&a, b), "the same text gives another graph"),
        (Err(a), Err(b)) => sym::check(a == *b, "the same text gives another error"),
        _ => sym::fail("the same text is judged differently the second time"),
    }
}
/// Parses `d`, `n` other texts, and `d` again.
fn again(d: &[u8], n: usize) {
    let r = graphviz_rust::parse(utf8(d));
    observe_result(&r);
    for _ in 0..n {
        let o: &[u8] = [CARRIERS[0], CARRIERS[1], CARRIERS[2], b"", b"graph{", b"strict digraph{subgraph{}}", b"graph{a:b:"][sym::pick(7)];
        let x = graphviz_rust::parse(utf8(o));
        sym::check(x.is_ok() == (o.last() == Some(&b'}')), "another text is judged differently after this one");
    }
    again_same(d, &r);
}

/// A row's graph, spelt with the row's spacing and punctuation.
fn combined(family: u64, n: usize) {
    let mut q = combo::row(family, n);
    let g = combo::graph(&mut q);
    let d = combo::text(&mut q, &g);
    same(&d, &g);
}
