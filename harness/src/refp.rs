//! Reference parser: the DOT dialect of this crate, written from the Graphviz
//! language page with a tokenizer and one-token lookahead, independently of
//! the pest grammar.
use dot_structures::*;

#[derive(Clone, Copy, PartialEq)]
enum K {
    Eof,
    Sym(u8),
    Arrow,
    Name,
    Num,
    Str,
    Html,
}
#[derive(Clone, Copy)]
struct Tok {
    k: K,
    a: usize,
    b: usize,
}
struct P<'a> {
    s: &'a [u8],
    i: usize,
    t: Tok,
}
type R<T> = Result<T, ()>;

fn word_start(c: u8) -> bool {
    c.is_ascii_alphabetic() || c == b'_'
}
fn word_byte(c: u8) -> bool {
    word_start(c) || c.is_ascii_digit()
}

/// End of the numeral starting at `i`, if there is one.
pub fn numeral(s: &[u8], mut i: usize) -> Option<usize> {
    let at = |i: usize| s.get(i).copied().unwrap_or(0);
    if at(i) == b'-' {
        i += 1;
    }
    if at(i).is_ascii_digit() {
        while at(i).is_ascii_digit() {
            i += 1
        }
        if at(i) == b'.' {
            i += 1;
            while at(i).is_ascii_digit() {
                i += 1
            }
        }
        Some(i)
    } else if at(i) == b'.' && at(i + 1).is_ascii_digit() {
        i += 1;
        while at(i).is_ascii_digit() {
            i += 1
        }
        Some(i)
    } else {
        None
    }
}

impl<'a> P<'a> {
    fn at(&self, i: usize) -> u8 {
        // 0xff never occurs in UTF-8 text
        self.s.get(i).copied().unwrap_or(0xff)
    }
    fn line(&mut self) {
        while self.i < self.s.len() {
            let c = self.s[self.i];
            self.i += 1;
            if c == b'\n' || c == b'\r' {
                break;
            }
        }
    }
    fn advance(&mut self) -> R<()> {
        loop {
            match self.at(self.i) {
                b' ' | b'\t' | b'\n' | b'\r' => self.i += 1,
                b'#' => self.line(),
                b'/' => match self.at(self.i + 1) {
                    b'/' => self.line(),
                    b'*' => {
                        self.i += 2;
                        loop {
                            if self.i + 1 >= self.s.len() {
                                return Err(());
                            }
                            if self.s[self.i] == b'*' && self.s[self.i + 1] == b'/' {
                                break;
                            }
                            self.i += 1;
                        }
                        self.i += 2;
                    }
                    _ => return Err(()),
                },
                _ => break,
            }
        }
        let a = self.i;
        if a >= self.s.len() {
            self.t = Tok { k: K::Eof, a, b: a };
            return Ok(());
        }
        let c = self.s[a];
        let (k, b) = match c {
            b'{' | b'}' | b'[' | b']' | b'=' | b';' | b',' | b':' => (K::Sym(c), a + 1),
            b'-' if self.at(a + 1) == b'-' || self.at(a + 1) == b'>' => (K::Arrow, a + 2),
            b'-' | b'.' | b'0'..=b'9' => match numeral(self.s, a) {
                Some(b) => (K::Num, b),
                None => return Err(()),
            },
            b'"' => {
                let mut i = a + 1;
                loop {
                    match self.at(i) {
                        0xff => return Err(()),
                        b'"' => break,
                        b'\\' => {
                            if i + 1 >= self.s.len() {
                                return Err(());
                            }
                            i += 2
                        }
                        _ => i += 1,
                    }
                }
                (K::Str, i + 1)
            }
            b'<' => {
                let (mut i, mut n) = (a + 1, 1);
                while n > 0 {
                    match self.at(i) {
                        0xff => return Err(()),
                        b'<' => n += 1,
                        b'>' => n -= 1,
                        _ => {}
                    }
                    i += 1;
                }
                (K::Html, i)
            }
            _ if word_start(c) => {
                let mut i = a + 1;
                while word_byte(self.at(i)) {
                    i += 1
                }
                (K::Name, i)
            }
            _ => return Err(()),
        };
        self.i = b;
        self.t = Tok { k, a, b };
        Ok(())
    }
    fn text(&self) -> &'a [u8] {
        &self.s[self.t.a..self.t.b]
    }
    fn name(&self, n: &[u8]) -> bool {
        self.t.k == K::Name && self.text() == n
    }
    fn sym(&self, c: u8) -> bool {
        self.t.k == K::Sym(c)
    }
    fn is_id(&self) -> bool {
        match self.t.k {
            K::Name => self.text() != b"subgraph",
            K::Num | K::Str | K::Html => true,
            _ => false,
        }
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.sym(c) {
            self.advance()
        } else {
            Err(())
        }
    }
    fn id(&mut self) -> R<Id> {
        if !self.is_id() {
            return Err(());
        }
        let t = unsafe { std::str::from_utf8_unchecked(self.text()) }.to_string();
        let id = match self.t.k {
            K::Str => Id::Escaped(t),
            K::Html => Id::Html(t),
            _ => Id::Plain(t),
        };
        self.advance()?;
        Ok(id)
    }
    fn body(&mut self) -> R<Vec<Stmt>> {
        self.expect(b'{')?;
        let mut v = vec![];
        while !self.sym(b'}') {
            v.push(self.stmt()?);
            if self.sym(b';') {
                self.advance()?;
            }
        }
        self.advance()?;
        Ok(v)
    }
    fn attrs(&mut self) -> R<Vec<Attribute>> {
        let mut v = vec![];
        while self.sym(b'[') {
            self.advance()?;
            while !self.sym(b']') {
                let k = self.id()?;
                self.expect(b'=')?;
                let x = self.id()?;
                v.push(Attribute(k, x));
                if self.sym(b',') || self.sym(b';') {
                    self.advance()?;
                }
            }
            self.advance()?;
        }
        Ok(v)
    }
    fn port(&mut self) -> R<Option<Port>> {
        if !self.sym(b':') {
            return Ok(None);
        }
        self.advance()?;
        let p = self.id()?;
        if self.sym(b':') {
            self.advance()?;
            if self.t.k == K::Name && compass(self.text()) {
                let Id::Plain(d) = self.id()? else { return Err(()) };
                return Ok(Some(Port(Some(p), Some(d))));
            }
            return Err(());
        }
        Ok(Some(match p {
            Id::Plain(d) if compass(d.as_bytes()) => Port(None, Some(d)),
            p => Port(Some(p), None),
        }))
    }
    fn vertex(&mut self) -> R<Vertex> {
        if self.name(b"subgraph") {
            return Ok(Vertex::S(self.subgraph()?));
        }
        let id = self.id()?;
        Ok(Vertex::N(NodeId(id, self.port()?)))
    }
    fn subgraph(&mut self) -> R<Subgraph> {
        self.advance()?;
        let id = if self.is_id() { self.id()? } else { Id::Anonymous(String::new()) };
        Ok(Subgraph { id, stmts: self.body()? })
    }
    fn stmt(&mut self) -> R<Stmt> {
        let kw = if self.name(b"graph") {
            1
        } else if self.name(b"node") {
            2
        } else if self.name(b"edge") {
            3
        } else {
            0
        };
        let first = self.vertex()?;
        if let Vertex::N(NodeId(id, None)) = &first {
            if kw > 0 && self.sym(b'[') {
                let a = self.attrs()?;
                return Ok(Stmt::GAttribute(match kw {
                    1 => GraphAttributes::Graph(a),
                    2 => GraphAttributes::Node(a),
                    _ => GraphAttributes::Edge(a),
                }));
            }
            if self.sym(b'=') {
                self.advance()?;
                let v = self.id()?;
                return Ok(Stmt::Attribute(Attribute(id.clone(), v)));
            }
        }
        if self.t.k != K::Arrow {
            return Ok(match first {
                Vertex::S(s) => Stmt::Subgraph(s),
                Vertex::N(id) => Stmt::Node(Node { id, attributes: self.attrs()? }),
            });
        }
        let mut ends = vec![first];
        while self.t.k == K::Arrow {
            self.advance()?;
            ends.push(self.vertex()?);
        }
        let attributes = self.attrs()?;
        let ty = if ends.len() == 2 {
            let r = ends.pop().unwrap();
            let l = ends.pop().unwrap();
            EdgeTy::Pair(l, r)
        } else {
            EdgeTy::Chain(ends)
        };
        Ok(Stmt::Edge(Edge { ty, attributes }))
    }
    fn file(&mut self) -> R<Graph> {
        self.advance()?;
        let strict = self.name(b"strict");
        if strict {
            self.advance()?;
        }
        let di = self.name(b"digraph");
        if !di && !self.name(b"graph") {
            return Err(());
        }
        self.advance()?;
        let id = if self.is_id() { self.id()? } else { Id::Anonymous(String::new()) };
        let stmts = self.body()?;
        if self.t.k != K::Eof {
            return Err(());
        }
        Ok(if di { Graph::DiGraph { id, strict, stmts } } else { Graph::Graph { id, strict, stmts } })
    }
}

pub fn compass(d: &[u8]) -> bool {
    matches!(d, b"n" | b"ne" | b"e" | b"se" | b"s" | b"sw" | b"w" | b"nw" | b"c" | b"_")
}

pub fn parse(s: &[u8]) -> Option<Graph> {
    let mut p = P { s, i: 0, t: Tok { k: K::Eof, a: 0, b: 0 } };
    p.file().ok()
}
