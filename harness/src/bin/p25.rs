//! P25: trees are transferred completely, whatever the pieces the output accepts or the input delivers.
use conllx::io::Writer;
use lumberjack::io::{NegraReader, NegraWriter, PTBFormat, PTBLineFormat, PTBReader, PTBWriter};
use lumberjack::{Tree, WriteTree};
use std::cell::RefCell;
use std::io::{BufRead, Error, ErrorKind, Read, Write};
use std::rc::Rc;
use symh::*;

/// What happens at a position of the transferred text.
#[derive(Clone, Copy, PartialEq)]
enum Event {
    Pieces,
    Interrupted,
    Failing(ErrorKind),
    Once(ErrorKind),
    Zero,
}
const EVENTS: [Event; 8] = [
    Event::Pieces,
    Event::Interrupted,
    Event::Failing(ErrorKind::Other),
    Event::Once(ErrorKind::Other),
    Event::Zero,
    Event::Failing(ErrorKind::BrokenPipe),
    Event::Once(ErrorKind::WouldBlock),
    Event::Once(ErrorKind::UnexpectedEof),
];

struct State {
    got: Vec<u8>,
    plan: Vec<(usize, Event)>,
    next: usize,
    hard: bool,
    broken: bool,
}

#[derive(Clone)]
struct Sink(Rc<RefCell<State>>);

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let s = &mut *self.0.borrow_mut();
        if s.broken {
            return Err(Error::from(ErrorKind::Other));
        }
        let mut n = b.len();
        while n > 0 && s.next < s.plan.len() {
            let (at, e) = s.plan[s.next];
            if at > s.got.len() {
                n = n.min(at - s.got.len());
                break;
            }
            s.next += 1;
            match e {
                Event::Pieces => (),
                Event::Interrupted => return Err(Error::from(ErrorKind::Interrupted)),
                Event::Zero => {
                    s.hard = true;
                    return Ok(0);
                }
                Event::Failing(k) | Event::Once(k) => {
                    s.hard = true;
                    s.broken = e == Event::Failing(k);
                    return Err(Error::from(k));
                }
            }
        }
        s.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn tree(k: usize, disc: bool) -> Tree {
    let w = string(vec![byte(b'a', b'z'), 0xc3, 0xa4]);
    if k == 0 {
        let mut t = Tree::new(w, "T");
        let r = t.root();
        t.insert_unary_above(r, "S");
        return t;
    }
    let mut t = Tree::new("u", "U");
    let r = t.root();
    let x = t.insert_unary_above(r, "X");
    t.insert_unary_above(x, "S");
    t.push_terminal(w, "V").unwrap();
    if disc {
        t.insert_terminal(x, lumberjack::Terminal::new("y", "Y", 2));
    }
    t
}

fn writer<'a, W: Write + 'a>(f: usize, w: W) -> Box<dyn WriteTree + 'a> {
    match f {
        0 => Box::new(PTBWriter::new(w, PTBFormat::PTB)),
        1 => Box::new(PTBWriter::new(w, PTBFormat::Simple)),
        2 => Box::new(PTBWriter::new(w, PTBFormat::TueBa)),
        3 => Box::new(NegraWriter::new(w)),
        _ => Box::new(Writer::new(w)),
    }
}

/// params: format, number of events, first tree (0 small, 1 larger), number of trees
#[no_mangle]
pub extern "C" fn p25_write() {
    let f = param(0);
    let mut ts = vec![tree(param(2), f > 2)];
    if param(3) == 2 {
        ts.push(tree(0, false));
    }
    let mut full = vec![];
    {
        let mut w = writer(f, &mut full);
        for t in &ts {
            w.write_tree(t).unwrap();
        }
    }
    let mut plan = vec![];
    let mut at = 0;
    for _ in 0..param(1) {
        at += choose(full.len() + 1 - at);
        plan.push((at, EVENTS[choose(if param(1) == 1 { 8 } else { 5 })]));
    }
    let s = Rc::new(RefCell::new(State { got: vec![], plan, next: 0, hard: false, broken: false }));
    let mut ok = true;
    {
        let mut w = writer(f, Sink(s.clone()));
        for t in &ts {
            if w.write_tree(t).is_err() {
                ok = false;
                break;
            }
        }
    }
    let s = s.borrow();
    check(ok == !s.hard, "a failing output is reported, and only that");
    if ok {
        check(s.got.len() == full.len(), "everything is delivered");
        reach(1);
    } else {
        check(s.got.len() <= full.len(), "nothing else is delivered");
        reach(2);
    }
    check(s.got[..] == full[..s.got.len().min(full.len())], "delivered text");
}

struct Source<'a> {
    data: &'a [u8],
    pos: usize,
    plan: Vec<(usize, bool)>,
    next: usize,
}

impl Read for Source<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let p = self.fill_buf()?;
        let n = p.len().min(b.len());
        b[..n].copy_from_slice(&p[..n]);
        self.consume(n);
        Ok(n)
    }
}

impl BufRead for Source<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        while self.next < self.plan.len() && self.plan[self.next].0 <= self.pos {
            self.next += 1;
            if self.plan[self.next - 1].1 {
                return Err(Error::from(ErrorKind::Interrupted));
            }
        }
        let end = if self.next < self.plan.len() { self.plan[self.next].0 } else { self.data.len() };
        Ok(&self.data[self.pos..end])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}

const NEGRA: &str = "%% c\n#BOS 1\nxx l NN -- HD 500\ny\u{e4}z\t--\tVV\tm\tOA\t501 R 500\n#500 -- X -- D 501\n#501 -- S -- -- 0\n#EOS 1\n#BOS 2\nq q Q -- -- 500\n#500 -- S -- -- 0\n#EOS 2\n";
const LINES: &str = "% c\n(S (N xy\u{e4})(P (V \u{20ac})))\n)(\n(S (A b))\n";
const MULTI: &str = "% c\n(S (N xy\u{e4})\n (P\n(V\n\u{20ac})))\n(S (A b))\n";

fn items(f: usize, r: impl BufRead + 'static) -> Vec<Option<Tree>> {
    match f {
        0 => NegraReader::new(r).map(|r| r.ok()).collect(),
        1 => PTBReader::new(r, PTBFormat::Simple, PTBLineFormat::SingleLine).map(|r| r.ok()).collect(),
        _ => PTBReader::new(r, PTBFormat::TueBa, PTBLineFormat::MultiLine).map(|r| r.ok()).collect(),
    }
}

/// params: reader, number of cuts
#[no_mangle]
pub extern "C" fn p25_read() {
    let f = param(0);
    let text: &'static str = [NEGRA, LINES, MULTI][f];
    let mut data = text.as_bytes().to_vec();
    if let Some(i) = data.iter().position(|b| *b == b'x') {
        data[i] = byte(b'p', b'w');
    }
    let data: &'static [u8] = data.leak();
    let mut plan = vec![];
    let mut at = 0;
    for _ in 0..param(1) {
        at += choose(data.len() + 1 - at);
        plan.push((at, flip()));
    }
    let want = items(f, data);
    let got = items(f, Source { data, pos: 0, plan, next: 0 });
    check(got.len() == want.len(), "number of items");
    check(want.iter().flatten().count() == 2, "both trees are read");
    for (a, b) in got.iter().zip(&want) {
        check(a.is_some() == b.is_some(), "kind of item");
        if let (Some(a), Some(b)) = (a, b) {
            check(a == b, "tree");
            let (x, y): (Vec<_>, Vec<_>) = (words_in_order(a), words_in_order(b));
            check(x.len() == y.len(), "words");
            for (i, j) in x.iter().zip(&y) {
                check(node_text(a, *i) == node_text(b, *j), "word");
            }
            note_tree(a);
            reach(1);
        }
    }
}

fn node_text(t: &Tree, n: petgraph::prelude::NodeIndex) -> Vec<u8> {
    let w = t[n].terminal().unwrap();
    let mut v = w.form().as_bytes().to_vec();
    v.push(b' ');
    v.extend_from_slice(w.label().as_bytes());
    v
}

symh::entries!(p25_write, p25_read);
