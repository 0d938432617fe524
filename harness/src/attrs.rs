//! C19: typed attributes.
use crate::attrtab;
use crate::sym;
use crate::util::*;
use dot_structures::{Attribute, Id};
use graphviz_rust::attributes::{color_name, NodeAttributes};
use crate::gen;
use graphviz_rust::into_attr::IntoAttribute;
use graphviz_rust::printer::{DotPrinter, PrinterContext};

/// `a` is the attribute `k` with the plain text `v`.
/// (the keywords of DOT in quotes, as they are no identifiers without).
pub fn is(a: &Attribute, k: &str, v: &str) {
    match a {
        Attribute(Id::Plain(x), Id::Escaped(y)) if matches!(v, "node" | "graph" | "edge") => {
            sym::observe(x.as_bytes());
            sym::observe(y.as_bytes());
            sym::check(x == k, "the attribute has another key");
            sym::check(y.strip_prefix('"').and_then(|y| y.strip_suffix('"')) == Some(v), "the attribute has another value");
        }
        Attribute(Id::Plain(x), Id::Plain(y)) => {
            sym::observe(x.as_bytes());
            sym::observe(b"=");
            sym::observe(y.as_bytes());
            sym::check(x == k, "the attribute has another key");
            sym::check(y == v, "the attribute has another value");
        }
        _ => sym::fail("a typed attribute is not plain text"),
    }
}
const FLOATS: &[(f32, &str)] = &[
    (0.0, "0"),
    (-0.0, "-0"),
    (1.0, "1"),
    (-25.0, "-25"),
    (0.25, "0.25"),
    (0.1, "0.1"),
    (1.5, "1.5"),
    (-4.75, "-4.75"),
    (14.0, "14"),
    (100.0, "100"),
    (0.0555, "0.0555"),
    (16777216.0, "16777216"),
    (123456.79, "123456.79"),
    (1e10, "10000000000"),
    (1.25e-7, "0.000000125"),
    (f32::INFINITY, "inf"),
];
fn float() -> (f32, &'static str) {
    FLOATS[sym::pick(FLOATS.len())]
}

/// Legal DOT by itself: a name that is no keyword, a numeral or a quoted string.
fn legal(i: &Id) -> bool {
    match i {
        Id::Plain(t) => {
            let b = t.as_bytes();
            let name = !b.is_empty() && !b[0].is_ascii_digit() && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c >= 0x80);
            let d = if b.first() == Some(&b'-') { &b[1..] } else { b };
            let points = d.iter().filter(|c| **c == b'.').count();
            let number = points <= 1 && d.len() > points && d.iter().all(|c| c.is_ascii_digit() || *c == b'.');
            let keyword = ["node", "edge", "graph", "digraph", "subgraph", "strict"].iter().any(|k| t.eq_ignore_ascii_case(k));
            number || (name && !keyword)
        }
        Id::Escaped(t) => {
            let b = t.as_bytes();
            let n = b.len();
            let mut i = 1;
            while i + 1 < n && b[i] != b'"' {
                i += if b[i] == b'\\' { 2 } else { 1 }
            }
            n >= 2 && b[0] == b'"' && b[n - 1] == b'"' && i == n - 1
        }
        _ => false,
    }
}
/// `a` in a printed graph is legal DOT and comes back unchanged.
fn printable(a: Attribute) {
    sym::check(legal(&a.0) && legal(&a.1), "a typed attribute is not legal DOT");
    let g = mk(false, false, plain("g"), vec![gen::host(sym::pick(3), vec![a.clone(), gen::attr(plain("z"), plain("1"))]), dot_structures::Stmt::Attribute(a)]);
    let t = g.print(&mut PrinterContext::default());
    sym::observe(t.as_bytes());
    match graphviz_rust::parse(&t) {
        Ok(h) => sym::check(eq_graph(&g, &h), "a typed attribute comes back changed"),
        Err(_) => sym::fail("a graph with a typed attribute does not parse"),
    }
}

entries! {
    h_c25_q_bool {
        printable(attrtab::bools(sym::pick(2) == 1).0)
    }
    h_c25_q_int {
        let v = match sym::pick(4) {
            0 => {
                let mut b = [0u8; 2];
                sym::bytes(&mut b);
                i16::from_le_bytes(b) as i32
            }
            1 => [i32::MIN, i32::MAX, 1_000_000, -1_000_000, 999_999_999, -100_000][sym::pick(6)],
            2 => 10 * (range(0, 99) as i32),
            _ => -(range(1, 9) as i32) * 1_000_000,
        };
        printable(attrtab::ints(v).0)
    }
    h_c25_q_float {
        printable(attrtab::floats(float().0).0)
    }
    h_c25_q_margin {
        printable(NodeAttributes::margin_separate(float().0, 2.5))
    }
    h_c25_q_enum {
        printable(attrtab::enumerated())
    }
    h_c25_q_color {
        let n = sym::pick(27) * 26 + sym::pick(26);
        sym::assume(n < attrtab::COLORS.len());
        printable(NodeAttributes::color((attrtab::COLORS[n].0)()))
    }
    h_c25_q_colored {
        printable(attrtab::colors((attrtab::COLORS[[0, 100, 300, 677][sym::pick(4)]].0)()).0)
    }
    h_c25_q_default {
        // defaults that are no texts
        let v = attrtab::defaults();
        let (f, _, s) = v[sym::pick(v.len())];
        sym::assume(!matches!(s, "" | "<none>" | "UTF-8" | "Times-Roman" | "<system-dependent>" | "," | ":\t "));
        printable(f())
    }
    h_c19_q_bool {
        let v = sym::pick(2) == 1;
        let (a, k) = attrtab::bools(v);
        is(&a, k, if v { "true" } else { "false" });
    }
    h_c19_q_int {
        // every 32-bit integer
        let mut b = [0u8; 4];
        sym::bytes(&mut b);
        let v = i32::from_le_bytes(b);
        let (a, k) = attrtab::ints(v);
        is(&a, k, &v.to_string());
    }
    h_c19_q_digits {
        // the decimal notation itself, digit by digit
        let n = 1 + sym::pick(9);
        let neg = sym::pick(2) == 1;
        let mut t = if neg { vec![b'-'] } else { vec![] };
        let mut v = 0i32;
        for i in 0..n {
            let d = if i == 0 { range(b'1', b'9') } else if i + 2 >= n { range(b'0', b'9') } else { b'7' };
            t.push(d);
            v = v * 10 + (d - b'0') as i32;
        }
        let (a, k) = attrtab::ints(if neg { -v } else { v });
        is(&a, k, &st(t));
    }
    h_c19_q_string {
        let n = sym::pick(4);
        let v = st(utf8_window(n));
        let (a, k) = attrtab::strings(v.clone());
        is(&a, k, &v);
    }
    h_c19_q_long_string {
        let n = 40 + sym::pick(3);
        let v = st((0..n).map(|i| if i % 8 == 7 { ascii() } else { range(b' ', b'z') }).collect());
        let (a, k) = attrtab::strings(v.clone());
        is(&a, k, &v);
    }
    h_c19_q_word {
        let n = 4 + sym::pick(6);
        let v = st(window(n));
        let (a, k) = attrtab::strings(v.clone());
        is(&a, k, &v);
    }
    h_c19_q_float {
        let (v, t) = float();
        let (a, k) = attrtab::floats(v);
        is(&a, k, t);
    }
    h_c19_q_margin {
        let ((x, s), (y, t)) = (float(), float());
        is(&NodeAttributes::margin_separate(x, y), "margin", &[s, ",", t].concat());
    }
    h_c19_q_enum {
        attrtab::enumerations();
    }
    h_c19_q_color {
        // every constructor with some colours, and every colour
        let n = sym::pick(27) * 26 + sym::pick(26);
        sym::assume(n < attrtab::COLORS.len());
        let (c, s) = attrtab::COLORS[n];
        let t = c().to_string();
        sym::observe(t.as_bytes());
        sym::check(t == s, "the colour prints as another name");
        let (a, k) = attrtab::colors(c());
        is(&a, k, s);
    }
    h_c19_q_default {
        let v = attrtab::defaults();
        let (f, k, s) = v[sym::pick(v.len())];
        is(&f(), k, s);
    }
    h_c19_q_derived {
        // the derive on types of one's own
        use derived::*;
        let n = sym::pick(3);
        match sym::pick(17) {
            0 => { let v = st(utf8_window(n)); is(&my_text(v.clone()).into_attr(), "my_text", &v) }
            1 => { let b = byte(); is(&small(b).into_attr(), "small", &b.to_string()) }
            2 => { let b = range(0, 200) as i64 - 100; is(&W9(b).into_attr(), "W9", &b.to_string()) }
            3 => { let v = sym::pick(2) == 1; is(&flag_(v).into_attr(), "flag_", if v { "true" } else { "false" }) }
            4 => is(&kind::plain.into_attr(), "kind", "plain"),
            5 => is(&kind::type_.into_attr(), "kind", "type"),
            6 => is(&kind::x_y.into_attr(), "kind", "x_y"),
            7 => is(&kind::a_b_.into_attr(), "kind", "a_b"),
            8 => is(&kind::Upper.into_attr(), "kind", "Upper"),
            9 => is(&kind::_lead.into_attr(), "kind", "_lead"),
            10 => is(&kind::n12.into_attr(), "kind", "n12"),
            11 => is(&kind::nodes.into_attr(), "kind", "nodes"),
            12 => is(&Tail_::one.into_attr(), "Tail_", "one"),
            13 => is(&Tail_::a_very_long_name_of_an_enumeration_value_with_many_parts_in_it.into_attr(), "Tail_", "a_very_long_name_of_an_enumeration_value_with_many_parts_in_it"),
            14 => { let (v, t) = float(); is(&real(v).into_attr(), "real", t) }
            15 => { let b = range(b'!', b'~'); is(&letter(b as char).into_attr(), "letter", &(b as char).to_string()) }
            _ => is(&Tail_::X_.into_attr(), "Tail_", "X"),
        }
    }
    h_c19_q_big {
        // long texts
        let n = [101, 257, 1025, 5000][sym::pick(4)];
        let mut v = fill(n, [b'x', b' ', b'"', b'_'][sym::pick(4)]);
        v[0] = ascii();
        let v = st(v);
        let (a, k) = attrtab::strings(v.clone());
        is(&a, k, &v);
    }
    h_c19_t_string {
        let v = st(utf8_window(6));
        let (a, k) = attrtab::strings(v.clone());
        is(&a, k, &v);
    }
}

#[allow(non_camel_case_types)]
mod derived {
    use dot_generator::*;
    use dot_structures::*;
    use into_attr::IntoAttribute;
    use into_attr_derive::IntoAttribute;
    #[derive(IntoAttribute)]
    pub struct my_text(pub String);
    #[derive(IntoAttribute)]
    pub struct small(pub u8);
    #[derive(IntoAttribute)]
    pub struct W9(pub i64);
    #[derive(IntoAttribute)]
    pub struct flag_(pub bool);
    #[derive(IntoAttribute)]
    pub struct real(pub f32);
    #[derive(IntoAttribute)]
    pub struct letter(pub char);
    #[derive(Debug, IntoAttribute)]
    pub enum kind {
        plain,
        type_,
        x_y,
        a_b_,
        Upper,
        _lead,
        n12,
        nodes,
    }
    #[derive(Debug, IntoAttribute)]
    pub enum Tail_ {
        one,
        a_very_long_name_of_an_enumeration_value_with_many_parts_in_it,
        X_,
    }
}
