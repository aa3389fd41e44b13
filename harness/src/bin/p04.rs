//! P04-P06: bracketed formats.
use lumberjack::io::{PTBFormat, PTBLineFormat, PTBReader, PTBWriter};
use lumberjack::{Tree, WriteTree};
use std::io::{BufReader, Read};
use symh::*;

const KEY: &str = "node_annotation";

fn fmt(f: usize) -> PTBFormat {
    match f {
        0 => PTBFormat::Simple,
        1 => PTBFormat::PTB,
        _ => PTBFormat::TueBa,
    }
}

/// what a field may contain
#[derive(Clone, Copy, PartialEq)]
enum Field {
    Label,
    Tag,
    Word,
    Edge,
    Ann,
}

/// text of 1..=len printable characters the format can express in this field
fn field(f: usize, k: Field, len: usize) -> String {
    if len == 1 {
        // (the bytes h and i make the searcher of str::replace look twice)
        return sym_char(b'k', b'z');
    }
    let kind = choose(len + 2);
    if kind == len {
        // a two-byte character between ASCII ones
        return string(vec![byte(b'a', b'z'), byte(0xc3, 0xc5), byte(0x80, 0xbf), byte(b'0', b'9')]);
    }
    if kind == len + 1 {
        let special: &[&str] = match k {
            Field::Label => &["LBR", "VROOT", "%", "NONE"],
            Field::Tag => &["-NONE-", "$(", "-", "RBR"],
            Field::Word => &["*T*-1", "--", "a=b:c-d", "(", "%"],
            Field::Edge => &["-", "=", "NONE", "---"],
            Field::Ann => &["-", "SBJ-1", "0"],
        };
        let s = special[choose(special.len())];
        if f == 2 && k == Field::Ann {
            return s.replace("=", "");
        }
        return s.to_string();
    }
    let n = kind + 1;
    let mut b = vec![];
    for i in 0..n {
        let c = byte(0x21, 0x7e);
        if k != Field::Word && k != Field::Tag {
            assume((c != b'(') & (c != b')'));
        }
        if f == 1 && (k == Field::Label || k == Field::Tag) {
            assume(c != b'-');
        }
        if f == 2 && k != Field::Word {
            assume(c != b':');
            if k != Field::Edge {
                assume(c != b'=');
            }
        }
        let _ = i;
        b.push(c);
    }
    if f == 2 && k == Field::Edge && n == 2 {
        assume((b[0] != b'-') | (b[1] != b'-'));
    }
    string(b)
}

fn paren(s: &str) -> String {
    let mut o = vec![];
    for c in s.as_bytes() {
        match *c {
            b'(' => o.extend_from_slice(b"LBR"),
            b')' => o.extend_from_slice(b"RBR"),
            c => o.push(c),
        }
    }
    string(o)
}

/// what reading the written tree must give
fn expected(x: &X, f: usize) -> X {
    let mut r = x.clone();
    if r.term {
        r.form = paren(&r.form);
        r.label = paren(&r.label);
    }
    if f != 2 {
        r.edge = None;
    }
    if f == 0 {
        r.ann = None;
    }
    r.kids = x.kids.iter().map(|k| expected(k, f)).collect();
    r
}

/// fill in random field texts: one node is varied
fn decorate(t: &mut Tree, m: &mut Model, f: usize, len: usize) -> Vec<Option<String>> {
    let mut ann = vec![None; m.n.len()];
    // short fields only: two fixed patterns of missing annotations and edge labels
    let pat = if len == 1 { Some(choose(2)) } else { None };
    let odd = if len == 1 { m.n.len() } else { pick(m.n.len()) };
    let what = if len > 1 { choose(3) } else { 3 };
    for i in 0..m.n.len() {
        let id = m.n[i].id;
        let l = |w: usize| if i == odd && w == what { len } else { 1 };
        if m.n[i].term {
            let (w, p) = if dull(param(0), i) { (lit('w', i), lit('p', i)) } else { (field(f, Field::Word, l(0)), field(f, Field::Tag, l(1))) };
            t[id].set_label(p.clone());
            t[id].terminal_mut().unwrap().set_form(w.clone());
            m.n[i].form = w;
            m.n[i].label = p;
        } else {
            let n = if dull(param(0), i) { lit('N', i) } else { field(f, Field::Label, l(0)) };
            t[id].set_label(n.clone());
            m.n[i].label = n;
            let a = match pat.map(|p| (i + p) % 3).unwrap_or_else(|| if i == odd && what == 1 { choose(3) } else { i % 2 }) {
                0 => None,
                1 if dull(param(0), i) => Some(Some(lit('a', i))),
                1 => Some(Some(field(f, Field::Ann, l(1)))),
                _ => Some(None),
            };
            if let Some(a) = a {
                t[id].features_mut().insert("other", Some("x"));
                t[id].features_mut().insert(KEY, a.clone());
                ann[i] = a;
            }
        }
        if let Some((_, e)) = t.parent(id) {
            let e2 = if pat.map(|p| (i + p) % 2 == 1).unwrap_or_else(|| i == odd && what == 2 && flip()) { None } else if dull(param(0), i) { Some(lit('e', i)) } else { Some(field(f, Field::Edge, l(2))) };
            t[e].set_label(e2.clone());
            m.n[i].edge = e2;
        }
    }
    ann
}

fn with_ann(m: &Model, i: usize, ann: &[Option<String>]) -> X {
    to_x_with(m, i, &mut |i, x| x.ann = ann[i].clone())
}

/// params: terminals, nonterminals, format, creation order, field length, mode
/// mode 0: strings, 1: writer and readers
#[no_mangle]
pub extern "C" fn p04_trip() {
    let f = param(2);
    let mut g = Gen::new(param(0), param(1));
    g.in_order = param(3) == 0;
    g.chain_order = param(3) == 1;
    g.disc = param(3) == 2;
    g.edges = 0;
    let (mut t, mut m) = gen(&g);
    let ann = decorate(&mut t, &mut m, f, param(4));
    let r = fmt(f).tree_to_string(&t);
    if !m.projective() {
        check(r.is_err(), "writing a discontinuous tree is an error");
        let mut out: Vec<u8> = vec![];
        check(PTBWriter::new(&mut out, fmt(f)).write_tree(&t).is_err(), "writing a discontinuous tree is an error");
        check(out.is_empty(), "nothing is written for a discontinuous tree");
        reach(2);
        return;
    }
    check(r.is_ok(), "projective trees can be written");
    let s = r.unwrap();
    note(1, s.as_bytes());
    let x = expected(&with_ann(&m, m.root, &ann), f);
    if param(5) == 0 {
        let b = fmt(f).string_to_tree(&s);
        check(b.is_ok(), "written trees can be read");
        let b = b.unwrap();
        expect(&b, &x, true, Some(KEY));
        let s2 = fmt(f).tree_to_string(&b);
        check(s2.is_ok() && s2.unwrap() == s, "writing the re-read tree gives the identical text");
        reach(1);
        return;
    }
    let two = Tree::new("v", "w");
    let x2 = X::leaf("v".into(), "w".into(), 0);
    let mut out: Vec<u8> = vec![];
    {
        let mut w = PTBWriter::new(&mut out, fmt(f));
        check(w.write_tree(&t).is_ok(), "write");
        check(w.write_tree(&two).is_ok(), "write");
        check(w.write_tree(&t).is_ok(), "write");
    }
    let lf = if flip() { PTBLineFormat::SingleLine } else { PTBLineFormat::MultiLine };
    let mut rd = PTBReader::new(out.as_slice(), fmt(f), lf);
    for i in 0..3 {
        match rd.next() {
            Some(Ok(b)) => expect(&b, if i == 1 { &x2 } else { &x }, true, Some(KEY)),
            _ => check(false, "every written tree is read"),
        }
    }
    check(rd.next().is_none(), "nothing else is read");
    reach(1);
}

// ---- P05: reference parser ----

struct P<'a> {
    s: &'a [u8],
    i: usize,
    words: usize,
}

fn ws(c: u8) -> bool {
    (c == b' ') | (c == b'\n') | (c == b'\r')
}

impl<'a> P<'a> {
    fn skip(&mut self) {
        while self.i < self.s.len() && ws(self.s[self.i]) {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        let r = self.i < self.s.len() && self.s[self.i] == c;
        if r {
            self.i += 1;
        }
        r
    }
    fn token(&mut self) -> Option<&'a [u8]> {
        let a = self.i;
        while self.i < self.s.len() && !(ws(self.s[self.i]) | (self.s[self.i] == b'(') | (self.s[self.i] == b')')) {
            self.i += 1;
        }
        if a == self.i {
            None
        } else {
            Some(&self.s[a..self.i])
        }
    }
    fn node(&mut self, f: usize) -> Option<X> {
        if !self.eat(b'(') {
            return None;
        }
        self.skip();
        let (label, edge, ann) = split(self.token()?, f);
        self.skip();
        if let Some(w) = self.token() {
            self.skip();
            if !self.eat(b')') {
                return None;
            }
            let mut x = X::leaf(text(w), label, self.words);
            x.edge = edge;
            self.words += 1;
            return Some(x);
        }
        let mut x = X::inner(label, vec![]);
        x.edge = edge;
        x.ann = ann;
        while !self.eat(b')') {
            let k = self.node(f)?;
            x.kids.push(k);
            self.skip();
        }
        if x.kids.is_empty() {
            return None;
        }
        Some(x)
    }
}

fn text(b: &[u8]) -> String {
    string(b.to_vec())
}

fn find(b: &[u8], c: u8) -> Option<usize> {
    (0..b.len()).find(|i| b[*i] == c)
}

/// label, edge label, annotation
fn split(b: &[u8], f: usize) -> (String, Option<String>, Option<String>) {
    match f {
        0 => (text(b), None, None),
        1 => match find(b, b'-') {
            Some(i) if i > 0 => (text(&b[..i]), None, Some(text(&b[i + 1..]))),
            _ => (text(b), None, None),
        },
        _ => {
            let (tag, edge) = match find(b, b':') {
                None => (b, None),
                Some(i) => {
                    let e = &b[i + 1..];
                    let e = &e[..find(e, b':').unwrap_or(e.len())];
                    (&b[..i], if e == b"--" { None } else { Some(text(e)) })
                }
            };
            match find(tag, b'=') {
                None => (text(tag), edge, None),
                Some(i) => {
                    let a = &tag[i + 1..];
                    (text(&tag[..i]), edge, Some(text(&a[..find(a, b'=').unwrap_or(a.len())])))
                }
            }
        }
    }
}

fn reference(s: &[u8], f: usize) -> Option<X> {
    let mut p = P { s, i: 0, words: 0 };
    p.skip();
    let mut x = p.node(f)?;
    p.skip();
    if p.i < s.len() {
        return None;
    }
    x.edge = None;
    Some(x)
}

fn compare(s: Vec<u8>, f: usize) {
    let want = reference(&s, f);
    note(2, &s);
    let text = string(s);
    match fmt(f).string_to_tree(&text) {
        Ok(t) => {
            check(want.is_some(), "only complete bracketed trees are accepted");
            expect(&t, &want.unwrap(), true, Some(KEY));
            note_tree(&t);
            reach(1);
        }
        Err(_) => {
            check(want.is_none(), "every complete bracketed tree is accepted");
            reach(2);
        }
    }
}

/// any string over the significant characters.  params: length, format
#[no_mangle]
pub extern "C" fn p05_text() {
    let mut s = vec![];
    for _ in 0..param(0) {
        let c = byte(0, 0x7f);
        assume((c == b'(') | (c == b')') | (c == b' ') | (c == b'\n') | (c == b'\r') | (c == b'\t') | (c == b'-') | (c == b':') | (c == b'=') | (c == b'a'));
        s.push(c);
    }
    compare(s, param(1));
}

const TMPL: [&str; 8] = [
    "(A b)",
    "(A (B c))",
    "(A (B c)(D e))",
    " (A(B (C d)) \n(E f)) ",
    "(A-x (B-y c)\r\n(D e))",
    "(A=x:u (B:v c)(D=y e))",
    "(A=x=y:u:w(B:-- c))",
    "(A(B c)(D(E f)(G h))(I j))",
];

/// a complete tree with bytes replaced by, or inserted as, arbitrary ones.
/// params: template, format, bytes
#[no_mangle]
pub extern "C" fn p05_edit() {
    let mut s: Vec<u8> = TMPL[param(0)].as_bytes().to_vec();
    let mut from = 0;
    for _ in 0..param(2) {
        match choose(3) {
            0 => {
                let i = from + choose(s.len() - from);
                s[i] = byte(0, 0x7f);
                from = i;
            }
            1 => {
                let i = from + choose(s.len() + 1 - from);
                s.insert(i, byte(0, 0x7f));
                from = i;
            }
            _ => {
                let i = from + choose(s.len() - from);
                s.remove(i);
                from = i;
            }
        }
        if from >= s.len() {
            from = s.len() - 1;
        }
    }
    compare(s, param(1));
}

/// a complete tree with a character of two or three bytes inserted anywhere.
/// params: template, format, bytes of the character
#[no_mangle]
pub extern "C" fn p05_utf8() {
    let k = if param(0) == 8 { choose(8) } else { param(0) };
    let s = TMPL[k].as_bytes();
    let i = choose(s.len() + 1);
    let mut t = s[..i].to_vec();
    if param(2) == 2 {
        t.push(byte(0xc2, 0xdf));
    } else {
        t.push(byte(0xe1, 0xe9));
        t.push(byte(0x80, 0xbf));
    }
    t.push(byte(0x80, 0xbf));
    t.extend_from_slice(&s[i..]);
    compare(t, param(1));
}

// ---- P06: streams ----

/// reader that fails at some point
struct Failing<'a> {
    s: &'a [u8],
    i: usize,
    at: Option<usize>,
}

impl<'a> Read for Failing<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.at == Some(self.i) {
            self.at = None;
            use std::io::ErrorKind::*;
            let kind = [Other, UnexpectedEof, InvalidData, WouldBlock, BrokenPipe][choose(5)];
            return Err(std::io::Error::new(kind, "disk"));
        }
        let mut n = 0;
        while n < buf.len() && self.i < self.s.len() && self.at != Some(self.i) {
            buf[n] = self.s[self.i];
            n += 1;
            self.i += 1;
        }
        Ok(n)
    }
}

fn eol(b: &mut Vec<u8>, crlf: bool) {
    b.extend_from_slice(if crlf { b"\r\n" } else { b"\n" });
}

/// a tree text with a symbolic word and the tree it stands for
fn piece(k: usize) -> (Vec<u8>, X) {
    let c = byte(b'!', b'~');
    assume((c != b'(') & (c != b')'));
    let mut s = vec![];
    let w = string(vec![c]);
    let x = match k {
        0 => {
            s.extend_from_slice(b"(A ");
            s.push(c);
            s.push(b')');
            X::leaf(w, "A".into(), 0)
        }
        1 => {
            s.extend_from_slice(b"(A (B ");
            s.push(c);
            s.extend_from_slice(b") (C d))");
            X::inner("A".into(), vec![X::leaf(w, "B".into(), 0), X::leaf("d".into(), "C".into(), 1)])
        }
        _ => {
            s.extend_from_slice(b"(A(B(C ");
            s.push(c);
            s.extend_from_slice(b")))");
            X::inner("A".into(), vec![X::inner("B".into(), vec![X::leaf(w, "C".into(), 0)])])
        }
    };
    (s, x)
}

/// any sequence of lines in single-line or multi-line mode.  params: lines, multi-line, all lines but one are trees
#[no_mangle]
pub extern "C" fn p06_lines() {
    let n = param(0);
    let multi = param(1) == 1;
    let mut b: Vec<u8> = vec![];
    let mut want: Vec<Option<X>> = vec![];
    let crlf = flip();
    let mut cut = false;
    // long streams: all lines but one are trees
    let odd = if param(2) == 1 { pick(n) } else { n };
    for i in 0..n {
        let kind = if odd < n && i != odd { i % 3 } else { choose(11) };
        match kind {
            0 | 1 | 2 => {
                let (s, x) = piece(kind);
                b.extend_from_slice(&s);
                want.push(Some(x));
            }
            3 => {
                // comment
                b.push(b'%');
                let c = byte(0x20, 0x7e);
                b.push(c);
                b.extend_from_slice(b"(x");
            }
            4 => {
                // surplus closing bracket
                let (s, _) = piece(1);
                b.extend_from_slice(&s);
                b.push(b')');
                want.push(None);
            }
            5 => {
                // junk without brackets
                let c = byte(b'&', b'~');
                assume((c != b'(') & (c != b')'));
                b.push(c);
                b.extend_from_slice(b"x y");
                want.push(None);
            }
            6 => {
                // two trees on one line, or junk after a tree
                let (s, _) = piece(0);
                b.extend_from_slice(&s);
                b.extend_from_slice(if flip() { b" (B c)" } else { b" x" });
                want.push(None);
            }
            7 => {
                // a node without content
                b.extend_from_slice(if flip() { b"(A)" } else { b"()" });
                want.push(None);
            }
            8 if multi => {
                // a tree on three lines
                let (s, x) = piece(1);
                b.extend_from_slice(&s[..3]);
                eol(&mut b, crlf);
                b.extend_from_slice(&s[3..8]);
                eol(&mut b, crlf);
                b.extend_from_slice(&s[8..]);
                want.push(Some(x));
            }
            9 if multi => {
                // surplus closing brackets on a later line
                let (s, _) = piece(1);
                b.extend_from_slice(&s[..8]);
                eol(&mut b, crlf);
                b.extend_from_slice(&s[8..]);
                b.extend_from_slice(if flip() { b")" } else { b"))" });
                want.push(None);
            }
            10 if multi => {
                // balanced, but not a tree
                let (s, _) = piece(1);
                b.extend_from_slice(&s[..8]);
                eol(&mut b, crlf);
                b.extend_from_slice(if flip() { b"x (C))" } else { b"() y)" });
                want.push(None);
            }
            8 => {
                // missing closing bracket
                let (mut s, _) = piece(1);
                s.pop();
                b.extend_from_slice(&s);
                want.push(None);
            }
            9 => {
                // comments start with '%'
                b.extend_from_slice(b" % x");
                want.push(None);
            }
            _ => {
                // not UTF-8
                b.extend_from_slice(b"(A \xff)");
                want.push(None);
            }
        }
        if multi && !cut && i + 1 == n && flip() {
            // cut off inside a tree, possibly followed by complete trees
            eol(&mut b, crlf);
            b.extend_from_slice([&b"(A (B c)"[..], b"(A", b"(A\n(B c)\n(D"][choose(3)]);
            cut = true;
        }
        if i + 1 < n || flip() {
            eol(&mut b, crlf);
        }
    }
    note(3, &b);
    // single-line mode reads a comment even if the last line has no line break
    let lf = if multi { PTBLineFormat::MultiLine } else { PTBLineFormat::SingleLine };
    let mut rd = PTBReader::new(b.as_slice(), fmt(0), lf);
    for w in &want {
        match (rd.next(), w) {
            (Some(Ok(t)), Some(x)) => {
                expect(&t, x, true, Some(KEY));
                reach(1);
            }
            (Some(Err(_)), None) => reach(2),
            _ => check(false, "one item per tree, in order; malformed ones are errors"),
        }
    }
    if cut {
        check(matches!(rd.next(), Some(Err(_))), "a tree cut off at the end of input is an error");
        reach(3);
    }
    check(rd.next().is_none(), "no further items");
    check(rd.next().is_none(), "the end of the stream stays the end");
}

const TOK: [&[&[u8]]; 4] = [
    &[b"(", b"A", b"w", b")"],
    &[b"(", b"A", b"(", b"B", b"w", b")", b"(", b"C", b"d", b")", b")"],
    &[b"(", b"A", b"(", b"B", b"(", b"C", b"w", b")", b")", b"(", b"D", b"e", b")", b")"],
    &[b"(", b"A", b"(", b"B", b"%", b")", b"(", b"%x", b"w", b")", b")"],
];

/// a tree split over lines in every way, followed by another tree.
/// params: token sequence, format, breaks that are decided freely (0: all)
#[no_mangle]
pub extern "C" fn p06_split() {
    let toks = TOK[param(0)];
    let f = param(1);
    let c = byte(b'!', b'~');
    assume((c != b'(') & (c != b')'));
    let mut one: Vec<u8> = vec![];
    let mut b: Vec<u8> = vec![];
    let brk: &[u8] = [&b"\n"[..], b"\r\n", b"\n\n", b" \n", b"\n  ", b"\n\n\n "][choose(6)];
    let freq = param(2);
    if flip() {
        b.extend_from_slice(b"%c (\n");
    }
    if flip() {
        b.extend_from_slice(b"\n");
    }
    let at = if freq > 0 { choose(toks.len()) } else { 0 };
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let tight = *t == b")" || *t == b"(" || toks[i - 1] == b"(";
            let d = if freq == 0 { flip() } else { i >= at && i < at + freq };
            if d {
                b.extend_from_slice(brk);
            } else if !tight {
                b.push(b' ');
            }
            one.push(b' ');
        }
        if *t == b"w" {
            b.push(c);
            one.push(c);
        } else {
            b.extend_from_slice(t);
            one.extend_from_slice(t);
        }
    }
    b.extend_from_slice(b"\n");
    b.extend_from_slice(if flip() { b"(X\ny)" } else { b"(X y)\n" });
    note(3, &b);
    let want = reference(&one, f);
    let want = match want {
        Some(w) => w,
        None => return check(false, "reference"),
    };
    let mut rd = PTBReader::new(b.as_slice(), fmt(f), PTBLineFormat::MultiLine);
    match rd.next() {
        Some(Ok(t)) => {
            expect(&t, &want, true, Some(KEY));
            reach(1);
        }
        _ => check(false, "a tree over several lines is read as if it were on one"),
    }
    match rd.next() {
        Some(Ok(t)) => expect(&t, &X::leaf("y".into(), "X".into(), 0), true, Some(KEY)),
        _ => check(false, "the following tree is read"),
    }
    check(rd.next().is_none(), "no further items");
}

/// a stream cut off or failing at any byte.  params: mode (0 single line, 1 multi line), fail (0 cut, 1 error)
#[no_mangle]
pub extern "C" fn p06_cut() {
    let multi = param(0) == 1;
    let (s1, x1) = piece(1);
    let (s2, x2) = piece(2);
    let mut b: Vec<u8> = s1.clone();
    b.push(b'\n');
    if multi {
        // the second tree is written over two lines
        for (i, c) in s2.iter().enumerate() {
            if i == 4 {
                b.push(b'\n');
            }
            b.push(*c);
        }
    } else {
        b.extend_from_slice(&s2);
    }
    b.push(b'\n');
    let (e1, e2) = (s1.len(), b.len() - 1);
    let at = choose(b.len() + 1);
    note(3, &b[..at]);
    let fail = param(1) == 1;
    let lf = if multi { PTBLineFormat::MultiLine } else { PTBLineFormat::SingleLine };
    let full = b.len();
    let src = Failing { s: if fail { &b[..] } else { &b[..at] }, i: 0, at: if fail { Some(at) } else { None } };
    let mut rd = PTBReader::new(BufReader::with_capacity(64, src), fmt(0), lf);
    // complete trees before the cut; an error needs the whole line, a cut only the bracket
    let slack = if fail { 1 } else { 0 };
    let mut n = 0;
    if at >= e1 + slack {
        n += 1;
    }
    if at >= e2 + slack {
        n += 1;
    }
    for i in 0..n {
        match rd.next() {
            Some(Ok(t)) => expect(&t, if i == 0 { &x1 } else { &x2 }, true, Some(KEY)),
            _ => check(false, "trees before the end are read"),
        }
    }
    let line_start = at == 0 || (at == e1 && !fail) || at == e1 + 1 || (at == e2 && !fail) || at == full;
    if fail {
        check(matches!(rd.next(), Some(Err(_))), "a read error is an error item");
        reach(1);
        // whatever follows, the reader ends
        let mut k = 0;
        while rd.next().is_some() {
            k += 1;
            check(k < 4, "the reader ends");
        }
    } else {
        if !line_start {
            check(matches!(rd.next(), Some(Err(_))), "a tree cut off at the end of input is an error");
            reach(2);
        }
        check(rd.next().is_none(), "no further items");
    }
}

entries!(p04_trip, p05_text, p05_edit, p05_utf8, p06_lines, p06_split, p06_cut);
