//! P23: the conversion program. The program's real source runs against virtual files: `open64`,
//! `read`, `write`, `close` and `exit` are defined here, its arguments come from std's own start-up hook.
#[macro_use]
extern crate failure;

use conllx::io::{ReadSentence, Reader, Writer};
use lumberjack::io::{Decode, Encode, NegraReader, NegraWriter, PTBFormat, PTBLineFormat, PTBReader, PTBWriter, TryFromConllx, WriteTree};
use lumberjack::{AnnotatePOS, Projectivize, Terminal, Tree, TreeOps, UnaryChains};
use petgraph::prelude::NodeIndex;
use symh::*;

#[allow(warnings)]
mod cli {
    include!(concat!(env!("OUT_DIR"), "/cli.rs"));
}

// ---------------------------------------------------------------- operating system

const FIRST: i32 = 1000;
const N_FILES: usize = 6;
const PATHS: [&str; N_FILES] = ["/v/in", "/v/out", "/v/filter", "/v/insert", "/v/ids", "/v/pos"];
const IN: usize = 0;
const OUT: usize = 1;

struct World {
    data: [Vec<u8>; N_FILES],
    at: [usize; N_FILES],
    opened: [bool; N_FILES],
    /// the contents of the files have been made up
    prepared: bool,
    case: Option<Case>,
    fault: Option<Fault>,
    /// file that can't be opened
    closed: usize,
    refused: bool,
}

/// an event of the operating system at a position of the input or output
struct Fault {
    file: usize,
    at: usize,
    kind: usize,
    /// the failure has been reported to the program
    failed: bool,
    done: bool,
}

impl World {
    /// number of bytes that may be transferred now; negative: error
    fn transfer(&mut self, i: usize, at: usize, n: usize) -> isize {
        if let Some(f) = self.fault.as_mut() {
            if f.file == i && !f.done && n > 0 {
                if f.at > at {
                    return n.min(f.at - at) as isize;
                }
                f.done = f.kind != 2 && f.kind != 4;
                match f.kind {
                    1 => return fail(4) as isize,
                    2 | 3 => {
                        f.failed = true;
                        return fail(if i == OUT { 28 } else { 5 }) as isize;
                    }
                    4 => {
                        f.failed = true;
                        return fail(if i == OUT { 32 } else { 11 }) as isize;
                    }
                    _ => (),
                }
            }
        }
        n as isize
    }
}
static mut WORLD: Option<World> = None;

#[allow(static_mut_refs)]
fn world() -> &'static mut World {
    unsafe { WORLD.as_mut().unwrap() }
}

extern "C" {
    fn __errno_location() -> *mut i32;
    fn __sym_raw_write(fd: i32, p: *const u8, n: usize) -> isize;
    fn __sym_init_fn(i: u64) -> *const u8;
    fn sym_rt_done() -> !;
}

fn fail(errno: i32) -> i32 {
    unsafe { *__errno_location() = errno };
    -1
}

/// virtual file with this path
unsafe fn named(path: *const u8) -> Option<usize> {
    let mut n = 0;
    while *path.add(n) != 0 {
        n += 1;
    }
    let p = std::slice::from_raw_parts(path, n);
    (0..N_FILES).find(|&i| p == PATHS[i].as_bytes())
}

/// Fills in a `stat64` for a regular file.
unsafe fn attributes(i: usize, p: *mut u8) -> i32 {
    let w = world();
    if i != OUT {
        prepare(w);
    }
    if i == w.closed && i != OUT || i == OUT && !w.opened[i] && w.data[i].is_empty() {
        return fail(2);
    }
    for k in 0..144 {
        *p.add(k) = 0;
    }
    *(p.add(16) as *mut u64) = 1;
    *(p.add(24) as *mut u32) = 0o100644;
    *(p.add(48) as *mut u64) = w.data[i].len() as u64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const u8, p: *mut u8) -> i32 {
    match named(path) {
        Some(i) => attributes(i, p),
        None => fail(2),
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const u8, p: *mut u8) -> i32 {
    stat64(path, p)
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const u8, _mode: i32) -> i32 {
    let mut b = [0u64; 18];
    stat64(path, b.as_mut_ptr() as *mut u8)
}
/// not there, so that std uses the above
#[no_mangle]
pub unsafe extern "C" fn statx(_fd: i32, _path: *const u8, _flags: i32, _mask: u32, _p: *mut u8) -> i32 {
    fail(38)
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, _mode: u32) -> i32 {
    if let Some(i) = named(path) {
        let w = world();
        if i == w.closed {
            w.refused = true;
            return fail(if i == OUT { 13 } else { 2 });
        }
        if flags & 3 == 0 {
            if i != OUT {
                prepare(w);
            }
            w.at[i] = 0;
        } else if i != OUT {
            return fail(13);
        } else if flags & 0o1000 != 0 {
            w.data[i].clear();
        }
        w.opened[i] = true;
        return FIRST + i as i32;
    }
    fail(2)
}

/// virtual file behind a descriptor; standard input and output are the first two
fn file(fd: i32) -> usize {
    match fd {
        0 => IN,
        1 => OUT,
        _ => (fd - FIRST) as usize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    let i = file(fd);
    if i >= N_FILES {
        return fail(9) as isize;
    }
    let w = world();
    if i == IN && !w.opened[i] {
        prepare(w);
        w.opened[i] = true;
    }
    let k = n.min(w.data[i].len() - w.at[i]);
    let k = w.transfer(i, w.at[i], k);
    if k < 0 {
        return k;
    }
    let k = k as usize;
    std::ptr::copy_nonoverlapping(w.data[i].as_ptr().add(w.at[i]), buf, k);
    w.at[i] += k;
    k as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    let i = file(fd);
    if i >= N_FILES || WORLD.is_none() {
        return __sym_raw_write(fd, buf, n);
    }
    let w = world();
    let k = w.transfer(i, w.data[i].len(), n);
    if k > 0 {
        w.data[i].extend_from_slice(std::slice::from_raw_parts(buf, k as usize));
    }
    k
}

/// the text of an error number, printed on standard error
#[no_mangle]
pub unsafe extern "C" fn __xpg_strerror_r(_errno: i32, buf: *mut u8, _n: usize) -> i32 {
    *buf = b'E';
    *buf.add(1) = 0;
    0
}
#[no_mangle]
pub unsafe extern "C" fn close(_fd: i32) -> i32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(_fd: i32, _cmd: i32, _arg: usize) -> i32 {
    1
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, p: *mut u8) -> i32 {
    if fd < FIRST || file(fd) >= N_FILES {
        return fail(9);
    }
    attributes(file(fd), p)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(_fd: i32, _o: i64, _w: i32) -> i64 {
    fail(29) as i64
}
#[no_mangle]
pub unsafe extern "C" fn isatty(_fd: i32) -> i32 {
    0
}
#[no_mangle]
pub unsafe extern "C" fn exit(code: i32) -> ! {
    finish(code);
    sym_rt_done()
}

/// Runs the program with the arguments.
fn start(args: &[String]) {
    let mut v: Vec<*const u8> = vec![];
    for a in args {
        let mut b = a.clone().into_bytes();
        b.push(0);
        v.push(b.leak().as_ptr());
    }
    let argc = v.len();
    v.push(std::ptr::null());
    let argv = v.leak().as_ptr();
    let env: *const *const u8 = Box::leak(Box::new(std::ptr::null()));
    let mut i = 0;
    loop {
        let f = unsafe { __sym_init_fn(i) };
        if f.is_null() {
            break;
        }
        let f: extern "C" fn(i32, *const *const u8, *const *const u8) = unsafe { std::mem::transmute(f) };
        f(argc as i32, argv, env);
        i += 1;
    }
    cli::run();
    std::process::exit(0);
}

// ---------------------------------------------------------------- input

#[derive(Clone)]
struct Case {
    infmt: usize,
    outfmt: usize,
    multiline: bool,
    dummies: bool,
    project: bool,
    sec: bool,
    pos: bool,
    reattach: bool,
    ids: bool,
    filter: bool,
    insert: bool,
    parent: bool,
    id_name: bool,
    label: bool,
    broken: usize,
    /// way the set files are written
    sets: usize,
    prefix: usize,
    terms: usize,
    nts: usize,
    tags: Vec<Vec<String>>,
}

const IN_NAMES: [&str; 6] = ["absolute", "negra", "ptb", "relative", "simple", "tueba"];
const OUT_NAMES: [&str; 7] = ["absolute", "conllx", "negra", "ptb", "relative", "simple", "tueba"];
const NEGRA: usize = 1;
const FILTER: [&str; 2] = ["N", "P"];
const INSERT: [&str; 2] = ["P", "Q"];
const IDS: [&str; 2] = ["P", "Q"];
const PREFIX: [&str; 3] = ["$", "$m", ""];

fn brackets(f: usize) -> Option<PTBFormat> {
    match f {
        2 => Some(PTBFormat::PTB),
        4 => Some(PTBFormat::Simple),
        5 => Some(PTBFormat::TueBa),
        _ => None,
    }
}

/// the trees the input is made of
fn trees(c: &Case) -> Vec<Tree> {
    let mut g = Gen::new(c.terms, c.nts);
    g.lab = (0, 0);
    g.form = (b'k', b'z');
    g.edges = 0;
    g.disc = c.infmt == NEGRA;
    g.in_order = true;
    g.chain_order = false;
    g.need_nt = true;
    let (mut t, _) = gen(&g);
    let names = ["P", "N", "Q", "DUMMY"];
    // labels matter only to the operations that look at them
    let k = if c.dummies { 4 } else if c.filter { 3 } else if c.ids || c.insert { 2 } else { 1 };
    let root = t.root();
    let nts: Vec<NodeIndex> = t.nonterminals().collect();
    for n in nts {
        let l = if n == root { if c.dummies && flip() { "DUMMY" } else { "S" } } else { names[choose(k)] };
        t[n].set_label(l);
    }
    let ws: Vec<NodeIndex> = t.terminals().collect();
    for w in ws {
        let tag = if c.reattach && flip() { string(vec![b'$', byte(b'k', b'z')]) } else { string(vec![byte(b'K', b'Z'), b'$']) };
        t[w].set_label(tag);
        if let Some((_, e)) = t.parent(w) {
            if c.sec || c.outfmt == 6 {
                t[e].set_label(Some("e"));
            }
        }
    }
    let mut v = vec![t];
    // S(N(P(u) v) w Q(x)), Q discontinuous where the format and the options allow it
    let mut u = Tree::new("u", "U");
    let r = u.root();
    let p = u.insert_unary_above(r, "P");
    let n = u.insert_unary_above(p, "N");
    let s = u.insert_unary_above(n, "S");
    u.insert_terminal(n, Terminal::new("v", "$V", 1));
    let x = u.push_terminal("x", "X").unwrap();
    let q = u.insert_unary_above(x, "Q");
    let w = u.insert_terminal(s, Terminal::new("w", "W", 2));
    if c.dummies {
        u.insert_unary_above(w, "DUMMY");
    }
    if c.ids && !c.pos && flip() {
        // labelled like the root
        u[n].set_label("S");
    }
    if c.infmt == NEGRA && (c.project || c.outfmt == 2) {
        u.insert_terminal(q, Terminal::new("y", "Y", 1));
    }
    if c.sec || c.outfmt == 6 {
        for (k, l) in [(p, "f"), (q, "g"), (r, "h")] {
            if let Some((_, e)) = u.parent(k) {
                u[e].set_label(Some(l));
            }
        }
    }
    v.push(u);
    v
}

fn text(c: &Case, ts: &[Tree]) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    for t in ts {
        match c.infmt {
            0 | 3 => {
                let mut t = t.clone();
                t.collapse_unary_chains("_").unwrap();
                if c.infmt == 0 {
                    t.annotate_absolute().unwrap();
                } else {
                    t.annotate_relative().unwrap();
                }
                Writer::new(&mut o).write_tree(&t).unwrap();
                o.extend_from_slice(b"\n\n");
            }
            NEGRA => NegraWriter::new(&mut o).write_tree(t).unwrap(),
            f => {
                let s = brackets(f).unwrap().tree_to_string(t).unwrap();
                if c.multiline {
                    // one token per line
                    for b in s.bytes() {
                        o.push(if b == b' ' { b'\n' } else { b });
                    }
                } else {
                    o.extend_from_slice(s.as_bytes());
                }
                o.push(b'\n');
            }
        }
    }
    o
}

fn words(v: &[&str], form: usize) -> Vec<u8> {
    let seps: [&str; 3] = [["", " ", "\n"], ["\n\t", "\r\n \n", ""]][form & 1];
    let mut o = vec![];
    if form == 2 {
        return o;
    }
    for (i, w) in v.iter().enumerate() {
        o.extend_from_slice(seps[i].as_bytes());
        o.extend_from_slice(w.as_bytes());
    }
    o.extend_from_slice(seps[2].as_bytes());
    o
}

/// called when the program opens a file it reads
fn prepare(w: &mut World) {
    if w.prepared {
        return;
    }
    w.prepared = true;
    let c = w.case.as_mut().unwrap();
    if c.broken == 8 {
        return;
    }
    let ts = trees(c);
    w.data[IN] = text(c, &ts);
    if c.broken == 1 {
        w.data[IN].extend_from_slice(match c.infmt {
            NEGRA => b"#BOS 9\n#EOS 8\n",
            0 | 3 => b"1\tw\t_\tT\tT\t_\t_\t_\t_\t_\n\n",
            _ => b"(S (A\n",
        });
    }
    w.data[2] = words(&FILTER, c.sets);
    w.data[3] = words(&INSERT, c.sets);
    w.data[4] = words(&IDS, c.sets);
    for (i, t) in ts.iter().enumerate() {
        let mut tags = vec![];
        let mut n = t.n_terminals();
        if c.broken == 2 && i == 1 {
            n -= 1;
        }
        if c.broken == 3 && i == 1 {
            n += 1;
        }
        if c.broken == 4 && i == 1 {
            break;
        }
        for k in 0..n {
            let tag = if c.reattach && k > 0 { "$p".to_string() } else { string(vec![b'T', byte(b'k', b'z')]) };
            w.data[5].extend_from_slice(format!("{}\tx\t_\t{}\t{}\t_\t_\t_\t_\t_\n", k + 1, tag, tag).as_bytes());
            tags.push(tag);
        }
        w.data[5].push(b'\n');
        c.tags.push(tags);
    }
}

// ---------------------------------------------------------------- oracle

fn read_all(c: &Case, data: &[u8]) -> Vec<Result<Tree, String>> {
    let ml = || if c.multiline { PTBLineFormat::MultiLine } else { PTBLineFormat::SingleLine };
    match c.infmt {
        0 => Reader::new(data).sentences().map(|s| Tree::try_from_conllx_with_absolute_encoding(&s.unwrap()).map_err(|e| e.to_string())).collect(),
        3 => Reader::new(data).sentences().map(|s| Tree::try_from_conllx_with_relative_encoding(&s.unwrap()).map_err(|e| e.to_string())).collect(),
        NEGRA => NegraReader::new(data).map(|r| r.map_err(|e| e.to_string())).collect(),
        f => PTBReader::new(data, brackets(f).unwrap(), ml()).map(|r| r.map_err(|e| e.to_string())).collect(),
    }
}

fn has(c: &Case, set: &[&str], l: &str) -> bool {
    c.sets != 2 && set.iter().any(|s| *s == l)
}

/// the documented operations, in the documented order
fn apply(c: &Case, i: usize, t: &mut Tree) -> Result<(), ()> {
    if c.dummies {
        t.remove_dummy_nodes().map_err(|_| ())?;
    }
    if c.project {
        let moved = t.projectivize();
        if c.sec {
            for (p, e, ch) in moved.unwrap_or_default() {
                let mut l = String::from("np");
                if let Some(x) = e.label() {
                    l.push('_');
                    l.push_str(x);
                }
                t.add_secondary_edge(p, ch, Some(l));
            }
        }
    }
    if c.pos {
        let tags = c.tags.get(i).ok_or(())?;
        t.annotate_pos(tags.clone()).map_err(|_| ())?;
    }
    if c.reattach {
        let root = t.root();
        t.reattach_terminals(root, |t, n| {
            let (l, p) = (t[n].label().as_bytes(), PREFIX[c.prefix].as_bytes());
            l.len() >= p.len() && (0..p.len()).all(|i| l[i] == p[i])
        });
    }
    if c.ids {
        let root = t.root();
        t.project_ids(if c.id_name { "uid" } else { "id" }, |t, n| n == root || has(c, &IDS, t[n].label()));
    }
    if c.filter {
        t.filter_nonterminals(|t, n| has(c, &FILTER, t[n].label())).map_err(|_| ())?;
    }
    if c.insert {
        let l = if c.label { "NEW" } else { "UNK" };
        t.insert_intermediate(|t, n| if has(c, &INSERT, t[n].label()) { None } else { Some(l.to_string()) }).map_err(|_| ())?;
    }
    if c.parent {
        t.annotate_parent_tag("up").map_err(|_| ())?;
    }
    if c.outfmt == 0 {
        t.collapse_unary_chains("_").map_err(|_| ())?;
        t.annotate_absolute().map_err(|_| ())?;
    }
    if c.outfmt == 4 {
        t.collapse_unary_chains("_").map_err(|_| ())?;
        t.annotate_relative().map_err(|_| ())?;
    }
    Ok(())
}

fn emit<W: std::io::Write>(c: &Case, o: W) -> Box<dyn WriteTree>
where
    W: 'static,
{
    match c.outfmt {
        0 | 1 | 4 => Box::new(Writer::new(o)),
        2 => Box::new(NegraWriter::new(o)),
        3 => Box::new(PTBWriter::new(o, PTBFormat::PTB)),
        5 => Box::new(PTBWriter::new(o, PTBFormat::Simple)),
        _ => Box::new(PTBWriter::new(o, PTBFormat::TueBa)),
    }
}

struct Shared(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);
impl std::io::Write for Shared {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn finish(code: i32) {
    let w = world();
    let c = w.case.as_ref().unwrap();
    check(w.opened[IN] || w.refused, "the input is read");
    let want = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let mut out = emit(c, Shared(want.clone()));
    let mut ok = true;
    for (i, t) in read_all(c, &w.data[IN]).into_iter().enumerate() {
        let r = match t {
            Ok(mut t) => apply(c, i, &mut t).and_then(|_| out.write_tree(&t).map_err(|_| ())),
            Err(_) => Err(()),
        };
        if r.is_err() {
            ok = false;
            break;
        }
    }
    note(1, code.to_string().as_bytes());
    if w.refused {
        check(code != 0, "exit status if a file can't be opened");
        reach(3);
        return;
    }
    if w.fault.as_ref().map(|f| f.failed).unwrap_or(false) {
        check(code != 0, "exit status after a failed transfer");
        reach(3);
        return;
    }
    check((code == 0) == ok, "exit status");
    if ok {
        let want = want.borrow();
        note(2, &w.data[OUT]);
        check(w.data[OUT].len() == want.len(), "size of the output");
        if w.data[OUT].len() == want.len() {
            check(w.data[OUT] == *want, "output");
        }
        reach(1);
    } else {
        reach(2);
    }
}

// ---------------------------------------------------------------- entry

/// params: terminals, nonterminals, input format (6: any), output format (7: any), most options
/// at once, kind of broken input, fixed options (bit mask), positions of a failed transfer
#[no_mangle]
pub extern "C" fn p23_run() {
    let infmt = if param(2) == 6 { choose(6) } else { param(2) };
    let outfmt = if param(3) == 7 { choose(7) } else { param(3) };
    let most = param(4);
    let fixed = param(6);
    let mut left = most;
    let mut opt = |i: usize| -> bool {
        if fixed >> i & 1 == 1 {
            return true;
        }
        if left == 0 {
            return false;
        }
        let b = flip();
        if b {
            left -= 1;
        }
        b
    };
    let dummies = opt(0);
    let project = opt(1);
    let sec = project && opt(2);
    let pos = opt(3);
    let reattach = opt(4);
    let ids = opt(5);
    let filter = opt(6);
    let insert = opt(7);
    let parent = opt(8);
    let c = Case {
        infmt,
        outfmt,
        multiline: infmt != NEGRA && infmt != 0 && infmt != 3 && flip(),
        dummies,
        project,
        sec,
        pos,
        reattach,
        ids,
        filter,
        insert,
        parent,
        id_name: ids && flip(),
        label: insert && flip(),
        broken: param(5),
        sets: if param(4) == 1 && (ids | filter | insert) { choose(3) } else { 0 },
        prefix: if param(4) == 1 && reattach { choose(3) } else { 0 },
        terms: param(0),
        nts: param(1),
        tags: vec![],
    };
    let fault = match c.broken {
        5 => Some(Fault { file: OUT, at: choose(param(7)), kind: choose(5), failed: false, done: false }),
        6 => Some(Fault { file: IN, at: choose(param(7)), kind: choose(5), failed: false, done: false }),
        _ => None,
    };
    let closed = if c.broken == 7 { [IN, OUT, 5][choose(3)] } else { N_FILES };
    let (std_in, std_out) = (most == 0 && flip(), most == 0 && flip());
    let mut a: Vec<String> = vec!["lumberjack-conversion".into()];
    {
        let mut add = |s: &str| a.push(s.to_string());
        if !std_in {
            add("--input_file");
            add(PATHS[IN]);
        }
        if !std_out {
            add("--output_file");
            add(PATHS[OUT]);
        }
        if infmt != 5 {
            add("--input_format");
            add(IN_NAMES[infmt]);
        }
        if outfmt != 5 {
            add("--output_format");
            add(OUT_NAMES[outfmt]);
        }
        if c.multiline {
            add("--multiline_brackets");
        }
        if c.parent {
            add("--parent");
            add("up");
        }
        if c.insert {
            add("--insertion_set");
            add("/v/insert");
        }
        if c.label {
            add("--insertion_label");
            add("NEW");
        }
        if c.ids {
            add("--id_set");
            add("/v/ids");
        }
        if c.id_name {
            add("--id_feature");
            add("uid");
        }
        if c.filter {
            add("--filter");
            add("/v/filter");
        }
        if c.project {
            add("--projectivize");
        }
        if c.sec {
            add("--sec_edges");
        }
        if c.reattach {
            add("--reattach");
            add(PREFIX[c.prefix]);
        }
        if c.dummies {
            add("--remove_dummies");
        }
        if c.pos {
            add("--pos");
            add("/v/pos");
        }
    }
    unsafe {
        WORLD = Some(World { data: Default::default(), at: [0; N_FILES], opened: [false; N_FILES], prepared: false, case: Some(c), fault, closed, refused: false });
        if !std_out {
            // an existing file is replaced
            world().data[OUT].extend_from_slice(b"old");
        }
    }
    start(&a);
}

symh::entries!(p23_run);
