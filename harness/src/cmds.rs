//! C22..C24: running dot, with the operating system replaced by a model.
use crate::osmodel::*;
use crate::sym;
use crate::util::*;
use graphviz_rust::cmd::*;
use graphviz_rust::exec_dot;

const LAYOUTS: [(Layout, &str); 8] = [
    (Layout::Dot, "dot"),
    (Layout::Neato, "neato"),
    (Layout::Twopi, "twopi"),
    (Layout::Circo, "circo"),
    (Layout::Fdp, "fdp"),
    (Layout::Asage, "osage"),
    (Layout::Patchwork, "patchwork"),
    (Layout::Sfdp, "sfdp"),
];
const FORMATS: [(Format, &str); 55] = [
    (Format::Bmp, "bmp"),
    (Format::Cgimage, "cgimage"),
    (Format::Canon, "canon"),
    (Format::Dot, "dot"),
    (Format::Gv, "gv"),
    (Format::Xdot, "xdot"),
    (Format::Xdot12, "xdot1.2"),
    (Format::Xdot14, "xdot1.4"),
    (Format::Eps, "eps"),
    (Format::Exr, "exr"),
    (Format::Fig, "fig"),
    (Format::Gd, "gd"),
    (Format::Gd2, "gd2"),
    (Format::Gif, "gif"),
    (Format::Gtk, "gtk"),
    (Format::Ico, "ico"),
    (Format::Cmap, "cmap"),
    (Format::Ismap, "ismap"),
    (Format::Imap, "imap"),
    (Format::Cmapx, "cmapx"),
    (Format::ImapNp, "imap_np"),
    (Format::CmapxNp, "cmapx_np"),
    (Format::Jpg, "jpg"),
    (Format::Jpeg, "jpeg"),
    (Format::Jpe, "jpe"),
    (Format::Jp2, "jp2"),
    (Format::Json, "json"),
    (Format::Json0, "json0"),
    (Format::DotJson, "dot_json"),
    (Format::XdotJson, "xdot_json"),
    (Format::Pdf, "pdf"),
    (Format::Pic, "pic"),
    (Format::Pct, "pct"),
    (Format::Pict, "pict"),
    (Format::Plain, "plain"),
    (Format::PlainExt, "plain-ext"),
    (Format::Png, "png"),
    (Format::Pov, "pov"),
    (Format::Ps, "ps"),
    (Format::Ps2, "ps2"),
    (Format::Psd, "psd"),
    (Format::Sgi, "sgi"),
    (Format::Svg, "svg"),
    (Format::Svgz, "svgz"),
    (Format::Tga, "tga"),
    (Format::Tif, "tif"),
    (Format::Tiff, "tiff"),
    (Format::Tk, "tk"),
    (Format::Vml, "vml"),
    (Format::Vmlz, "vmlz"),
    (Format::Vrml, "vrml"),
    (Format::Vbmp, "wbmp"),
    (Format::Webp, "webp"),
    (Format::Xlib, "xlib"),
    (Format::X11, "x11"),
];

/// `n` symbolic bytes, none of them NUL.
fn text(n: usize) -> Vec<u8> {
    let v = window(n);
    for b in &v {
        sym::assume(*b != 0 && *b < 0x80)
    }
    v
}
fn one(arg: CommandArg, want: Vec<u8>) {
    start(Os::default());
    let r = exec_dot("graph {}".to_string(), vec![arg]);
    stop();
    sym::check(r.is_ok(), "the run is reported as failed");
    let o = os();
    sym::check(o.spawns.len() == 1 && o.spawns[0].argv.len() == 3, "the number of arguments");
    sym::observe(&o.spawns[0].argv[1]);
    sym::check(o.spawns[0].argv[1] == want, "the command line argument");
}

fn raw(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    sym::bytes(&mut v);
    v
}
/// The child's behaviour: any exit status, any short output.
fn child(out: usize, err: usize) -> Os {
    let mut o = Os::default();
    o.child_out = raw(out);
    o.child_err = raw(err);
    let mut s = [0u8; 2];
    sym::bytes(&mut s);
    // exited with code s[1], or killed by a signal
    sym::assume(s[0] == 0 || (s[0] & 0x7f != 0 && s[0] & 0x7f <= 64 && s[1] == 0));
    o.status = (s[1] as i32) << 8 | s[0] as i32;
    o
}
/// What holds after every run, whatever failed.
fn tidy(runs: usize) {
    let o = os();
    sym::check(o.spawns.len() <= runs, "more than one child per run");
    for s in &o.spawns {
        sym::check(s.wait_tried, "a child is never waited for");
    }
    sym::check(o.fds.iter().all(|f| !f.open), "an open descriptor is left behind");
    sym::check(o.files.iter().all(|f| f.pre || !f.linked || f.unlink_tried), "a temporary file is left behind");
}
/// A run during which no call failed.
fn clean_run(k: usize, text: &[u8], args: &[Vec<u8>], r: &std::io::Result<Vec<u8>>) {
    let o = os();
    sym::check(o.spawns.len() == k + 1, "exactly one child per run");
    let s = &o.spawns[k];
    sym::check(s.prog == b"dot", "the program is dot");
    sym::check(s.argv.len() == args.len() + 2, "the number of arguments");
    for (i, a) in args.iter().enumerate() {
        sym::check(&s.argv[i + 1] == a, "the arguments in order");
    }
    sym::check(s.env_ok, "the environment and directory of the caller");
    match &s.at_start {
        None => sym::fail("the last argument names no file when dot starts"),
        Some(d) => sym::check(d[..] == *text, "the file holds the text when dot starts"),
    }
    match &s.at_end {
        None => sym::fail("the file is gone before dot has ended"),
        Some(d) => sym::check(d[..] == *text, "the file holds the text until dot has ended"),
    }
    sym::check(s.waited, "the child is waited for");
    sym::check(o.files.iter().all(|f| f.pre || !f.linked), "a temporary file is left behind");
    if o.status == 0 {
        match r {
            Ok(v) => {
                sym::observe(v);
                sym::check(*v == o.child_out, "the child's standard output is returned")
            }
            Err(_) => sym::fail("a successful run is reported as failed"),
        }
    } else {
        match r {
            Ok(_) => sym::fail("a failed run is reported as successful"),
            Err(e) => {
                let m = e.to_string();
                sym::observe(m.as_bytes());
                let want = String::from_utf8_lossy(&o.child_err);
                sym::check(m.as_bytes() == want.as_bytes(), "the error carries the child's standard error")
            }
        }
    }
    tidy(k + 1);
}
fn args3() -> (Vec<CommandArg>, Vec<Vec<u8>>) {
    let (mut a, mut w) = (vec![], vec![]);
    for _ in 0..sym::pick(4) {
        match sym::pick(4) {
            0 => {
                let t = text(1);
                a.push(CommandArg::Custom(st(t.clone())));
                w.push(t)
            }
            1 => {
                let t = text(1);
                a.push(CommandArg::Output(st(t.clone())));
                w.push([b"-o", &t[..]].concat())
            }
            2 => {
                a.push(Layout::Neato.into());
                w.push(b"-Kneato".to_vec())
            }
            _ => {
                a.push(Format::Svg.into());
                w.push(b"-Tsvg".to_vec())
            }
        }
    }
    (a, w)
}
/// Runs once with the given faulty calls.
fn faulty(mut o: Os, faults: Vec<u8>, arg: CommandArg) {
    o.faults = faults;
    let t = window(2);
    for b in &t {
        sym::assume(*b < 0x80)
    }
    start(o);
    let r = exec_dot(st(t.clone()), vec![arg]);
    stop();
    tidy(1);
    let o = os();
    for s in &o.spawns {
        sym::check(s.at_start.as_deref() == Some(&t[..]), "dot starts although its input is incomplete");
    }
    match &r {
        Ok(v) => {
            sym::check(o.hard.is_empty(), "a failed call goes unreported");
            sym::check(o.status == 0 && *v == o.child_out, "success without the child's success");
            sym::check(o.spawns.len() == 1 && o.spawns[0].waited, "success without a child");
            sym::check(o.files.iter().all(|f| f.pre || !f.linked), "a temporary file is left behind");
            sym::observe(b"ok")
        }
        Err(e) => {
            sym::check(!o.hard.is_empty() || o.status != 0, "a run in which nothing failed is reported as failed");
            if o.hard.len() == 1 && o.hard[0] != 0 && o.status == 0 {
                let k = std::io::Error::from_raw_os_error(o.hard[0] as i32).kind();
                sym::check(e.kind() == k, "the error kind is that of the failed call")
            }
            sym::observe(b"err")
        }
    }
}
fn at(n: u8) -> u8 {
    let mut f = [0u8];
    sym::bytes(&mut f);
    sym::assume(f[0] < n);
    f[0]
}

entries! {
    h_c22_q_layouts {
        let (l, want) = LAYOUTS[sym::pick(LAYOUTS.len())];
        let a: CommandArg = if sym::pick(2) == 0 { l.into() } else { CommandArg::Layout(l) };
        one(a, [b"-K", want.as_bytes()].concat())
    }
    h_c22_q_formats {
        let (f, want) = FORMATS[sym::pick(FORMATS.len())];
        let a: CommandArg = if sym::pick(2) == 0 { f.into() } else { CommandArg::Format(f) };
        one(a, [b"-T", want.as_bytes()].concat())
    }
    h_c22_q_custom {
        let t = arg_text(sym::pick(5));
        one(CommandArg::Custom(st(t.clone())), t)
    }
    h_c22_q_output {
        let t = arg_text(sym::pick(5));
        one(CommandArg::Output(st(t.clone())), [b"-o", &t[..]].concat())
    }
    h_c22_q_custom_long {
        let t = text([6, 9, 14][sym::pick(3)]);
        one(CommandArg::Custom(st(t.clone())), t)
    }
    h_c22_q_output_long {
        let t = text([6, 9, 14][sym::pick(3)]);
        one(CommandArg::Output(st(t.clone())), [b"-o", &t[..]].concat())
    }
    // several arguments, the same one too
    h_c22_q_several {
        let n = 2 + sym::pick(3);
        let (mut a, mut w): (Vec<CommandArg>, Vec<Vec<u8>>) = (vec![], vec![]);
        for i in 0..n {
            match sym::pick(5) {
                0 => { let (l, s) = LAYOUTS[i % 8]; a.push(l.into()); w.push([b"-K", s.as_bytes()].concat()) }
                1 => { let (f, s) = FORMATS[42 + i % 2]; a.push(f.into()); w.push([b"-T", s.as_bytes()].concat()) }
                2 => { let t = text(2); a.push(CommandArg::Custom(st(t.clone()))); w.push(t) }
                3 => { let t = text(2); a.push(CommandArg::Output(st(t.clone()))); w.push([b"-o", &t[..]].concat()) }
                _ => { a.push(CommandArg::Custom("-Gdpi=50".to_string())); w.push(b"-Gdpi=50".to_vec()) }
            }
        }
        start(Os::default());
        let r = exec_dot("graph {}".to_string(), a);
        stop();
        clean_run(0, b"graph {}", &w, &r)
    }
    // long arguments, and many
    h_c22_q_big {
        let n = [33, 65, 129, 257, 1025, 5000][sym::pick(6)];
        let mut t = fill(n, [b'x', b' ', b'/', b'\''][sym::pick(4)]);
        t[n - 1] = text(1)[0];
        if sym::pick(2) == 0 {
            one(CommandArg::Custom(st(t.clone())), t)
        } else {
            one(CommandArg::Output(st(t.clone())), [b"-o", &t[..]].concat())
        }
    }
    h_c22_q_big_many {
        let n = [9, 17, 33, 65, 129, 257][sym::pick(6)];
        let t = text(1);
        let k = sym::pick(2);
        let (mut a, mut w): (Vec<CommandArg>, Vec<Vec<u8>>) = (vec![], vec![]);
        for i in 0..n {
            match if k == 0 { 4 } else { i % 5 } {
                0 => { let (l, s) = LAYOUTS[i % 8]; a.push(l.into()); w.push([b"-K", s.as_bytes()].concat()) }
                1 => { let (f, s) = FORMATS[i % FORMATS.len()]; a.push(f.into()); w.push([b"-T", s.as_bytes()].concat()) }
                2 => { a.push(CommandArg::Custom(st(t.clone()))); w.push(t.clone()) }
                3 => { a.push(CommandArg::Output(st(t.clone()))); w.push([b"-o", &t[..]].concat()) }
                _ => { let u = format!("-G{}", i).into_bytes(); a.push(CommandArg::Custom(st(u.clone()))); w.push(u) }
            }
        }
        start(Os::default());
        let r = exec_dot("graph {}".to_string(), a);
        stop();
        clean_run(0, b"graph {}", &w, &r)
    }
    h_c22_t_custom {
        let t = arg_text(5 + sym::pick(4));
        one(CommandArg::Custom(st(t.clone())), t)
    }
    h_c22_t_output {
        let t = arg_text(5 + sym::pick(4));
        one(CommandArg::Output(st(t.clone())), [b"-o", &t[..]].concat())
    }

    h_c23_q_args {
        let (a, w) = args3();
        start(Os::default());
        let r = exec_dot("digraph { a }".to_string(), a);
        stop();
        clean_run(0, b"digraph { a }", &w, &r)
    }
    h_c23_q_text {
        let t = utf8_window(sym::pick(5));
        start(Os::default());
        let r = exec_dot(st(t.clone()), vec![Format::Svg.into()]);
        stop();
        clean_run(0, &t, &[b"-Tsvg".to_vec()], &r)
    }
    h_c23_q_result {
        let o = child(sym::pick(4), sym::pick(3));
        start(o);
        let r = exec_dot("graph {}".to_string(), vec![]);
        stop();
        clean_run(0, b"graph {}", &[], &r)
    }
    h_c23_q_schedule {
        let mut o = child(2, 2);
        for b in &o.child_err { sym::assume(*b < 0x80) }
        o.split_out = sym::pick(3);
        o.split_err = sym::pick(3);
        o.schedule = true;
        start(o);
        let r = exec_dot("graph {}".to_string(), vec![]);
        stop();
        clean_run(0, b"graph {}", &[], &r)
    }
    // more than any buffer on the way holds
    h_c23_q_large {
        let n = [31, 32, 33, 64, 100, 1500, 9000, 70_000][sym::pick(8)];
        let mut o = Os::default();
        for i in 0..n { o.child_out.push((i % 251) as u8) }
        o.child_out[n / 2] = byte();
        for i in 0..n { o.child_err.push((i % 120) as u8) }
        let mut t = vec![];
        for i in 0..n { t.push(b'a' + (i % 26) as u8) }
        t[n - 1] = ascii();
        if sym::pick(2) == 1 { o.status = 0x100 }
        start(o);
        let r = exec_dot(st(t.clone()), vec![Layout::Dot.into()]);
        stop();
        clean_run(0, &t, &[b"-Kdot".to_vec()], &r)
    }
    h_c23_q_tmpdir {
        let mut d = b"/t".to_vec();
        let v = raw(2);
        for b in &v { sym::assume(*b != 0) }
        d.extend_from_slice(&v);
        d.push(0);
        let mut o = Os::default();
        o.tmpdir = Some(d);
        start(o);
        let r = exec_dot("graph {}".to_string(), vec![Format::Svg.into()]);
        stop();
        clean_run(0, b"graph {}", &[b"-Tsvg".to_vec()], &r)
    }
    h_c23_q_twice {
        let (t, u) = (text(2), text(1));
        start(child(1, 1));
        let r = exec_dot(st(t.clone()), vec![Format::Svg.into()]);
        clean_run(0, &t, &[b"-Tsvg".to_vec()], &r);
        let r = exec_dot(st(u.clone()), vec![Layout::Fdp.into()]);
        stop();
        clean_run(1, &u, &[b"-Kfdp".to_vec()], &r)
    }
    h_c23_q_long_text {
        let t = window([5, 8, 13, 21][sym::pick(4)]);
        start(Os::default());
        let r = exec_dot(st(t.clone()), vec![Format::Svg.into()]);
        stop();
        clean_run(0, &t, &[b"-Tsvg".to_vec()], &r)
    }
    // short writes and interrupted calls: the run is as any other
    h_c23_q_interrupted {
        let (f, g) = (at(40), at(40));
        sym::assume(f <= g);
        let mut o = Os::default();
        o.faults = vec![f, g];
        o.child_out = raw(1);
        let t = window(3);
        start(o);
        let r = exec_dot(st(t.clone()), vec![Format::Svg.into()]);
        stop();
        if os().hard.is_empty() {
            sym::cover(1);
            clean_run(0, &t, &[b"-Tsvg".to_vec()], &r)
        } else {
            sym::cover(2);
            for s in &os().spawns { sym::check(s.at_start.as_deref() == Some(&t[..]), "dot starts on another text") }
            sym::check(r.is_err(), "a failed run is reported as successful")
        }
    }
    // the same temporary name is never used twice at once, arguments are not mixed up
    h_c23_q_many {
        let n = 3 + sym::pick(4);
        let t = text(1);
        start(child(1, 1));
        for k in 0..n {
            let u = cat(&[&t, &[b'0' + k as u8]]);
            let r = exec_dot(st(u.clone()), vec![CommandArg::Custom(st(u.clone()))]);
            clean_run(k, &u, &[u.clone()], &r)
        }
        stop();
    }
    h_c23_q_big_many {
        let n = [20, 70][sym::pick(2)];
        let t = text(1);
        start(child(1, 1));
        for k in 0..n {
            let u = cat(&[&t, &[b'0' + k as u8]]);
            let r = exec_dot(st(u.clone()), vec![]);
            clean_run(k, &u, &[], &r)
        }
        stop();
    }
    // exec prints the graph with the caller's context and runs it
    h_c23_q_messages {
        // what the child writes does not decide what the call returns
        const M: [&str; 24] = ["Error: ", "error: ", "ERROR", "Warning: ", "warning: ", "Fatal: ", "fatal error", "Usage: ", "dot: ", "Format: ", "syntax error in line 1", "can't open", "No such file", "\0", "\n", "\r\n", "\u{feff}", "\u{1b}[31m", "%PDF-", "\u{89}PNG\r\n", "<?xml", "<svg", "{", "panic"];
        let m = M[sym::pick(24)];
        let e = match sym::pick(3) { 0 => vec![], 1 => vec![byte()], _ => b": x\n".to_vec() };
        let m = cat(&[m.as_bytes(), &e]);
        let mut o = Os::default();
        o.status = [0, 0x100, 0x200][sym::pick(3)];
        if e.len() == 1 { sym::assume(e[0] < 0x80) }
        match sym::pick(3) { 0 => o.child_out = m, 1 => o.child_err = m, _ => { o.child_out = m.clone(); o.child_err = m } }
        start(o);
        let r = exec_dot("graph {}".to_string(), vec![Format::Svg.into()]);
        stop();
        clean_run(0, b"graph {}", &[b"-Tsvg".to_vec()], &r)
    }
    h_c23_q_sources {
        // the text is handed over as it is, whatever it looks like
        const M: [&str; 20] = ["", " ", "\n", "\r\n", "\u{feff}graph{}", "graph{}\n\n", "  graph{}  ", "graph {\r\n}", "\0", "-", "-Tpng", "--version", "/etc/passwd", "a.dot", "#!x\n", "digraph", "graph{a[label=\"\\n\"]}", "\t", "$HOME", "%s%n"];
        let m = M[sym::pick(20)];
        let e = match sym::pick(3) { 0 => vec![], 1 => vec![ascii()], _ => b"\n".to_vec() };
        let t = if sym::pick(2) == 0 { cat(&[m.as_bytes(), &e]) } else { cat(&[&e, m.as_bytes()]) };
        start(Os::default());
        let r = exec_dot(st(t.clone()), vec![Format::Svg.into()]);
        stop();
        clean_run(0, &t, &[b"-Tsvg".to_vec()], &r)
    }
    h_c23_q_exec {
        use dot_structures::*;
        use graphviz_rust::printer::*;
        let t = text(1);
        let id = |s: &str| Id::Plain(s.to_string());
        let mk = |t: &[u8]| Graph::DiGraph { id: Id::Escaped(st([b"\"", t, b"\""].concat())), strict: sym_strict(t), stmts: vec![
            Stmt::Node(Node { id: NodeId(id("a"), None), attributes: vec![Attribute(id("color"), id("red")), Attribute(id("x"), id("y"))] }),
            Stmt::Edge(Edge { ty: EdgeTy::Pair(Vertex::N(NodeId(id("a"), None)), Vertex::N(NodeId(id("b"), None))), attributes: vec![] }),
        ] };
        let ctx = |k: usize| {
            let mut c = PrinterContext::default();
            match k {
                0 => {}
                1 => { c.always_inline(); }
                2 => { c.with_semi(); }
                3 => { c.with_indent_step(5); }
                4 => { c.with_line_sep("\r\n".to_string()); }
                _ => { c.with_inline_size(200); }
            }
            c
        };
        let k = sym::pick(6);
        let want = mk(&t).print(&mut ctx(k));
        start(child(1, 1));
        let r = graphviz_rust::exec(mk(&t), &mut ctx(k), vec![Format::Svg.into(), Layout::Dot.into()]);
        stop();
        clean_run(0, want.as_bytes(), &[b"-Tsvg".to_vec(), b"-Kdot".to_vec()], &r)
    }

    h_c23_q_combined {
        exec_combined(123, 4096);
    }
    h_c23_t_combined {
        exec_combined(1123, 16384);
    }

    // one failing call, whichever and however
    h_c24_q_one {
        let f = at(40);
        faulty(child(1, 1), vec![f], Format::Svg.into())
    }
    // two failing calls
    h_c24_q_two {
        let (f, g) = (at(40), at(40));
        sym::assume(f < g);
        faulty(Os::default(), vec![f, g], Format::Svg.into())
    }
    h_c24_t_three {
        let (f, g, h) = (at(40), at(40), at(40));
        sym::assume(f < g && g < h);
        faulty(Os::default(), vec![f, g, h], Format::Svg.into())
    }
    h_c24_q_large {
        // a long text and long output; each written and read in several calls
        let n = [1500, 20_000][sym::pick(2)];
        let mut o = Os::default();
        for i in 0..n { o.child_out.push((i % 251) as u8) }
        let mut t = vec![b'x'; n];
        t[n - 1] = ascii();
        o.faults = vec![at(40)];
        start(o);
        let r = exec_dot(st(t.clone()), vec![]);
        stop();
        tidy(1);
        let o = os();
        for s in &o.spawns { sym::check(s.at_start.as_deref() == Some(&t[..]), "dot starts although its input is incomplete") }
        match &r {
            Ok(v) => sym::check(o.hard.is_empty() && *v == o.child_out, "a failed call goes unreported"),
            Err(_) => sym::check(!o.hard.is_empty(), "a run in which nothing failed is reported as failed"),
        }
    }
    // failing calls when dot fails too
    h_c24_q_status {
        let mut o = child(0, 1);
        sym::assume(o.status != 0);
        o.faults = vec![];
        let (f, g) = (at(40), at(40));
        sym::assume(f < g);
        faulty(o, vec![f, g], Format::Svg.into())
    }
    // arguments the operating system cannot pass on
    // whatever dot writes and however it ends, with and without a failing call
    h_c24_q_outcomes {
        let (a, b) = (sym::pick(3), sym::pick(3));
        faulty(child(a, b), vec![], Layout::Neato.into())
    }
    h_c24_q_outcomes_fault {
        let mut o = Os::default();
        o.child_out = raw(sym::pick(2));
        o.child_err = [&b""[..], b"Error: x\n", b"\xff"][sym::pick(3)].to_vec();
        o.status = [0, 0x100, 0x8b, 9, 0xff00][sym::pick(5)];
        let f = at(40);
        faulty(o, vec![f], CommandArg::Custom("-v".to_string()))
    }
    // several runs, one call of which fails: each run answers for itself
    h_c24_q_runs {
        let mut o = Os::default();
        o.child_out = raw(1);
        let f = at(100);
        o.faults = vec![f];
        start(o);
        for _ in 0..3 {
            let n = os().hard.len();
            let r = exec_dot("graph {}".to_string(), vec![Format::Png.into()]);
            sym::check(r.is_err() == (os().hard.len() > n), "a run answers for another");
            if let Ok(v) = &r { sym::check(*v == os().child_out, "the output of another run") }
        }
        stop();
        tidy(3);
        sym::observe(&[os().spawns.len() as u8]);
    }
    // other directories, no arguments, many arguments
    h_c24_q_places {
        let mut o = Os::default();
        o.tmpdir = [None, Some(b"/t\0".to_vec()), Some(b"/t/u/\0".to_vec()), Some(b"\0".to_vec())][sym::pick(4)].clone();
        let n = [0, 1, 5][sym::pick(3)];
        let f = at(40);
        o.faults = vec![f];
        start(o);
        let r = exec_dot("graph {}".to_string(), (0..n).map(|_| Layout::Circo.into()).collect());
        stop();
        tidy(1);
        sym::check(r.is_err() != os().hard.is_empty(), "a failed call goes unreported, or one that did not fail is reported");
        sym::observe(&[r.is_ok() as u8]);
    }
    h_c24_q_nul {
        let v = window(3);
        for b in &v { sym::assume(*b < 0x80) }
        let a = if sym::pick(2) == 0 { CommandArg::Custom(st(v.clone())) } else { CommandArg::Output(st(v.clone())) };
        start(Os::default());
        let r = exec_dot("graph {}".to_string(), vec![a]);
        stop();
        tidy(1);
        let nul = v.iter().any(|b| *b == 0);
        sym::check(r.is_err() == nul, "an argument with a NUL byte is an error, any other is not");
        sym::check(!nul || os().spawns.is_empty(), "dot runs with arguments that were not given");
    }
}
fn sym_strict(t: &[u8]) -> bool {
    t[0] & 1 == 1
}
fn arg_text(n: usize) -> Vec<u8> {
    let v = utf8_window(n);
    for b in &v {
        sym::assume(*b != 0)
    }
    v
}

/// `exec` with a graph and options of a covering family: dot gets the text
/// that printing the graph gives.
fn exec_combined(family: u64, n: usize) {
    use graphviz_rust::printer::DotPrinter;
    let mut q = crate::combo::row(family, n);
    let g = crate::combo::graph(&mut q);
    let (mut c, o) = crate::combo::options(&mut q);
    let order = q.on();
    let (l, f) = (q.f(LAYOUTS.len()), q.f(FORMATS.len()));
    let want = g.print(&mut crate::combo::context(&o, order));
    let mut a: Vec<CommandArg> = vec![LAYOUTS[l].0.clone().into(), FORMATS[f].0.clone().into()];
    let mut w = vec![["-K", LAYOUTS[l].1].concat().into_bytes(), ["-T", FORMATS[f].1].concat().into_bytes()];
    if q.on() {
        a.push(CommandArg::Custom("-n2".to_string()));
        w.push(b"-n2".to_vec())
    }
    let n = q.f(a.len());
    a.rotate_left(n);
    w.rotate_left(n);
    let k = q.f(3);
    start(child(k, 1));
    let r = graphviz_rust::exec(g, &mut c, a);
    stop();
    clean_run(0, want.as_bytes(), &w, &r)
}
