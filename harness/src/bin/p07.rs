//! P07, P08, P24: Negra export format.
use lumberjack::io::{NegraReader, NegraWriter};
use lumberjack::{Tree, WriteTree};
use petgraph::prelude::NodeIndex;
use std::io::{BufReader, Read};
use symh::*;

const KEY: &str = "node_annotation";

#[derive(Clone, Copy, PartialEq)]
enum Field {
    Word,
    Lemma,
    Tag,
    Morph,
    Label,
    Ann,
    Edge,
    Sec,
}

const LENS: [usize; 14] = [3, 4, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33];

/// text the format can express in this field.  kind 0: one character, 1: two arbitrary
/// ASCII characters, 2: long, 3: with two-byte characters, 4: special tokens
fn field(k: Field, kind: usize) -> String {
    let missing = k == Field::Lemma || k == Field::Morph || k == Field::Edge || k == Field::Sec;
    let any = || {
        let c = byte(0x21, 0x7e);
        if k == Field::Label || k == Field::Ann {
            assume(c != b'=');
        }
        c
    };
    let first = || {
        let c = any();
        if k == Field::Word {
            assume(c != b'#');
        }
        if k == Field::Sec {
            assume(c != b'%');
        }
        c
    };
    match kind {
        0 => sym_char(b'a', b'z'),
        1 => {
            let b = match choose(3) {
                0 => vec![first()],
                1 => vec![first(), any()],
                _ => vec![first(), any(), any()],
            };
            if missing && b.len() == 2 {
                assume((b[0] != b'-') | (b[1] != b'-'));
            }
            string(b)
        }
        2 => {
            let mut b = vec![b'x'; if flip() { LENS[choose(14)] } else { 40 }];
            let n = b.len();
            b[0] = first();
            b[n - 1] = any();
            string(b)
        }
        3 => {
            let mut b = vec![byte(b'a', b'z'), 0xc3, byte(0x80, 0xbf)];
            for _ in 0..choose(2) * 10 {
                b.extend_from_slice(&[0xc3, 0xa4]);
            }
            string(b)
        }
        _ => {
            let s: &[&str] = match k {
                Field::Word => &["--", "%%", "\"", "(", "0"],
                Field::Lemma => &["-", "%x", "#1", "---"],
                Field::Tag => &["--", "$.", "$(", "%"],
                Field::Morph => &["***", "-", "%"],
                Field::Label => &["--", "VROOT", "", "#500"],
                Field::Ann => &["", "--", "PER-x"],
                Field::Edge => &["-", "---", "500", "%"],
                Field::Sec => &["-", "0", "#"],
            };
            let s = s[choose(s.len())];
            if s.is_empty() && k == Field::Label {
                return "X".to_string();
            }
            s.to_string()
        }
    }
}

struct Full {
    t: Tree,
    m: Model,
    lemma: Vec<Option<String>>,
    morph: Vec<Option<String>>,
    ann: Vec<Option<String>>,
}

fn x_of(f: &Full, i: usize) -> X {
    to_x_with(&f.m, i, &mut |i, x| {
        x.ann = f.ann[i].clone();
        if !x.term {
            x.form = i.to_string();
        }
    })
}

/// corresponding nodes of the tree read and the expected tree
fn pair(t: &Tree, id: NodeIndex, x: &X, out: &mut Vec<(String, NodeIndex)>) {
    out.push((x.form.clone(), id));
    let mut kids: Vec<NodeIndex> = t.children(id).map(|k| k.0).collect();
    for a in 1..kids.len() {
        let mut b = a;
        while b > 0 && t[kids[b - 1]].span().start > t[kids[b]].span().start {
            kids.swap(b - 1, b);
            b -= 1;
        }
    }
    for (k, c) in kids.into_iter().enumerate() {
        if !x.kids[k].term {
            pair(t, c, &x.kids[k], out);
        }
    }
}

fn build(terms: usize, nts: usize, order: usize, kind: usize, secs: usize) -> Full {
    let mut g = Gen::new(terms, nts);
    g.in_order = order == 0;
    g.chain_order = order == 2;
    g.need_nt = true;
    g.edges = 0;
    let (mut t, mut m) = gen(&g);
    let n = m.n.len();
    let (mut lemma, mut morph, mut ann) = (vec![None; n], vec![None; n], vec![None; n]);
    let root = m.root;
    t[m.n[root].id].set_label("VROOT");
    m.n[root].label = "VROOT".into();
    // one field of one node is varied; without variation two patterns of missing fields
    let pat = if order >= 10 { order % 2 } else { choose(2) };
    let odd = if kind > 0 { pick(n) } else { n };
    let what = if kind > 0 { choose(6) } else { 6 };
    if kind > 0 {
        assume(odd != root && if m.n[odd].term { what < 5 } else { what < 3 });
    }
    let text = |i: usize, f: Field, kind: usize| {
        if kind == 0 && dull(terms, i) {
            return lit('t', i);
        }
        field(f, kind)
    };
    for i in 0..n {
        if i == root {
            continue;
        }
        let id = m.n[i].id;
        let k = |w: usize| if i == odd && w == what { kind } else { 0 };
        let has = |w: usize| (i == odd && w == what) || (i + w + pat) % 2 == 0;
        if m.n[i].term {
            let (w, p) = (text(i, Field::Word, k(0)), text(i, Field::Tag, k(1)));
            t[id].set_label(p.clone());
            t[id].terminal_mut().unwrap().set_form(w.clone());
            m.n[i].form = w;
            m.n[i].label = p;
            if has(3) {
                lemma[i] = Some(text(i, Field::Lemma, k(3)));
                t[id].terminal_mut().unwrap().set_lemma(lemma[i].clone());
            }
            if has(4) {
                morph[i] = Some(text(i, Field::Morph, k(4)));
                t[id].features_mut().insert("morph", morph[i].clone());
            }
        } else {
            let l = text(i, Field::Label, k(0));
            t[id].set_label(l.clone());
            m.n[i].label = l;
            if has(1) {
                ann[i] = Some(text(i, Field::Ann, k(1)));
                t[id].features_mut().insert(KEY, ann[i].clone());
            }
        }
        let (_, e) = t.parent(id).unwrap();
        if has(2) {
            m.n[i].edge = Some(text(i, Field::Edge, k(2)));
        }
        t[e].set_label(m.n[i].edge.clone());
    }
    for s in 0..secs {
        let c = pick(n);
        let nts = m.nts();
        let p = nts[pick(nts.len())];
        assume(c != root && m.sec.iter().all(|s| s.child != c));
        let label = if s == 0 && flip() { None } else { Some(field(Field::Sec, if s == 0 { kind } else { 0 })) };
        let id = t.add_secondary_edge(m.n[p].id, m.n[c].id, label.clone());
        m.sec.push(Sec { id, parent: p, child: c, label, alive: true });
    }
    Full { t, m, lemma, morph, ann }
}

fn feature(t: &Tree, id: NodeIndex, k: &str) -> Option<String> {
    t[id].features().and_then(|f| f.get_val(k)).and_then(|v| v.map(|v| v.to_string()))
}

fn same(a: &Option<String>, b: &Option<String>) -> bool {
    same_opt(a.as_deref(), b.as_deref())
}

/// the tree read is the tree written
fn equal(b: &Tree, f: &Full, id: &str, meta: Option<&str>) {
    let x = x_of(f, f.m.root);
    expect(b, &x, true, Some(KEY));
    let ws = words_in_order(b);
    let mut map = vec![];
    pair(b, b.root(), &x, &mut map);
    for (p, i) in f.m.sentence().into_iter().enumerate() {
        let w = b[ws[p]].terminal().unwrap();
        check(same_opt(w.lemma(), f.lemma[i].as_deref()), "lemma");
        check(same(&feature(b, ws[p], "morph"), &f.morph[i]), "morphology");
        map.push((i.to_string(), ws[p]));
    }
    check(same_opt(feature(b, b.root(), "sentence_id").as_deref(), Some(id)), "sentence id");
    check(same_opt(feature(b, b.root(), "metadata").as_deref(), meta), "metadata");
    let find = |i: usize| {
        let k = i.to_string();
        map.iter().find(|m| m.0 == k).unwrap().1
    };
    check(b.graph().edge_count() == f.m.n.len() - 1 + f.m.sec.len(), "number of edges");
    for s in &f.m.sec {
        match b.secondary_parent(find(s.child)) {
            Some((p, e)) => {
                check(p == find(s.parent), "secondary parent");
                check(same_opt(b[e].label(), s.label.as_deref()), "label of the secondary edge");
            }
            None => check(false, "secondary edge is kept"),
        }
    }
}

fn write(t: &Tree) -> Option<Vec<u8>> {
    let mut out: Vec<u8> = vec![];
    let r = NegraWriter::new(&mut out).write_tree(t);
    if r.is_ok() {
        Some(out)
    } else {
        check(out.is_empty(), "nothing is written for a tree the format cannot express");
        None
    }
}

const META: [&str; 4] = ["2 1202391857 0 %% HEADLINE", "x", "%% a  b", "#EOS 0"];

/// params: terminals, nonterminals, creation order, kind of the varied field, secondary edges
#[no_mangle]
pub extern "C" fn p07_trip() {
    let mut f = build(param(0), param(1), param(2), param(3), param(4));
    let root = f.m.n[f.m.root].id;
    let num = param(3) == 0 && (param(0) < 1000 || param(4) == 0);
    let id = if num { choose(if param(0) == 2 && param(5) == 0 { 7 } else { 4 }) } else { 1 };
    let meta = if num && id > 0 && id < 4 { choose(6) } else { 0 };
    let ids = ["", "0", "7", "12345", "65536", "4294967296", "18446744073709551615"][id];
    if id > 0 {
        f.t[root].features_mut().insert("sentence_id", Some(ids));
    }
    let any = string(vec![byte(b'!', b'~'), byte(b' ', b'~'), byte(b' ', b'~'), byte(b'!', b'~')]);
    let meta = match meta {
        0 => None,
        5 => Some(any.as_str()),
        i => Some(META[i - 1]),
    };
    if let Some(m) = meta {
        f.t[root].features_mut().insert("metadata", Some(m));
    }
    let out = match write(&f.t) {
        Some(o) => o,
        None => return check(false, "trees with an inner root can be written"),
    };
    note(1, &out);
    let mut rd = NegraReader::new(out.as_slice());
    match rd.next() {
        Some(Ok(b)) => {
            equal(&b, &f, if id == 0 { "0" } else { ids }, meta);
            if id > 0 {
                check((b == f.t) & (f.t == b), "the tree read equals the tree written");
            }
            reach(1);
            if !f.m.projective() {
                reach(2);
            }
        }
        _ => check(false, "written trees can be read"),
    }
    check(rd.next().is_none(), "one tree is read");
}

/// several trees in one stream, some of them numbered.  params: trees, all but one are unnumbered
#[no_mangle]
pub extern "C" fn p07_stream() {
    let n = param(0);
    let mut out: Vec<u8> = vec![];
    let mut fs = vec![];
    let mut ids = vec![];
    let mut next = 0;
    {
        let mut w = NegraWriter::new(&mut out);
        let odd = if param(1) == 1 { pick(n) } else { n };
        for i in 0..n {
            let mut f = if param(1) == 1 { build(302, 1, 10 + i % 2, 0, 0) } else if i == 0 { build(2, 2, 1, 0, 0) } else { build(1, 1, 0, 0, 0) };
            let root = f.m.n[f.m.root].id;
            match if odd < n && i != odd { 3 } else { choose(4) } {
                0 => {
                    f.t[root].features_mut().insert("sentence_id", Some("42"));
                    ids.push(42);
                }
                1 => {
                    let bad = Tree::new("a", "b");
                    check(w.write_tree(&bad).is_err(), "a single word cannot be written");
                    ids.push(next);
                    next += 1;
                }
                2 => {
                    f.t[root].features_mut().insert("sentence_id", None::<String>);
                    ids.push(next);
                    next += 1;
                }
                _ => {
                    ids.push(next);
                    next += 1;
                }
            }
            check(w.write_tree(&f.t).is_ok(), "write");
            fs.push(f);
        }
    }
    note(1, &out);
    let mut rd = NegraReader::new(out.as_slice());
    for i in 0..n {
        match rd.next() {
            Some(Ok(b)) => equal(&b, &fs[i], &ids[i].to_string(), None),
            _ => check(false, "every tree written is read"),
        }
    }
    check(rd.next().is_none(), "nothing else is read");
    reach(1);
}

/// what the format cannot express.  params: terminals, nonterminals
#[no_mangle]
pub extern "C" fn p07_bad() {
    let single = Tree::new(sym_char(b'a', b'z'), "T");
    check(write(&single).is_none(), "a tree without inner root is an error");
    let mut f = build(param(0), param(1), 1, 0, choose(2));
    let ts = f.m.terms();
    let s = ts[pick(ts.len())];
    let n = f.m.n.len();
    let c = pick(n);
    assume(c != f.m.root);
    f.t.add_secondary_edge(f.m.n[s].id, f.m.n[c].id, Some("x"));
    check(write(&f.t).is_none(), "a secondary edge below a word is an error");
    reach(1);
}

// ---- P08: reference reader ----

enum Out {
    Tree(Ref),
    Bad,
    /// the property leaves the result open
    Open,
}

struct Row {
    word: bool,
    id: usize,
    form: Vec<u8>,
    lemma: Vec<u8>,
    label: Vec<u8>,
    morph: Vec<u8>,
    edge: Vec<u8>,
    parent: usize,
    sec: Option<(Vec<u8>, usize)>,
}

struct Ref {
    rows: Vec<Row>,
    x: X,
    id: Vec<u8>,
    meta: Option<Vec<u8>>,
}

fn ws(c: u8) -> bool {
    (c == b' ') | ((c >= 9) & (c <= 13))
}

fn trim(mut b: &[u8]) -> &[u8] {
    while !b.is_empty() && ws(b[0]) {
        b = &b[1..];
    }
    while !b.is_empty() && ws(b[b.len() - 1]) {
        b = &b[..b.len() - 1];
    }
    b
}

fn words(b: &[u8]) -> Vec<&[u8]> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if ws(b[i]) {
            i += 1;
            continue;
        }
        let a = i;
        while i < b.len() && !ws(b[i]) {
            i += 1;
        }
        v.push(&b[a..i]);
    }
    v
}

/// None: not a number; the second component: left open
fn number(b: &[u8]) -> (Option<usize>, bool) {
    if b.is_empty() {
        return (None, false);
    }
    if b[0] == b'+' || (b.len() > 1 && b[0] == b'0') || b.len() > 20 {
        return (None, true);
    }
    let mut n: usize = 0;
    for c in b {
        if *c < b'0' || *c > b'9' {
            return (None, false);
        }
        n = match n.checked_mul(10).and_then(|n| n.checked_add((*c - b'0') as usize)) {
            Some(n) => n,
            // not representable
            None => return (None, true),
        };
    }
    (Some(n), false)
}

fn txt(b: &[u8]) -> String {
    string(b.to_vec())
}

fn opt(b: &[u8]) -> Option<String> {
    if b == b"--" {
        None
    } else {
        Some(txt(b))
    }
}

fn subtree(rows: &[Row], r: usize) -> X {
    let mut x;
    if rows[r].word {
        x = X::leaf(txt(&rows[r].form), txt(&rows[r].label), r);
    } else {
        x = X::inner(String::new(), kids(rows, rows[r].id));
        let (l, a) = label(&rows[r].label);
        x.label = l;
        x.ann = a;
        x.form = rows[r].id.to_string();
    }
    x.edge = opt(&rows[r].edge);
    x
}

fn kids(rows: &[Row], id: usize) -> Vec<X> {
    let mut v: Vec<(usize, X)> = vec![];
    for r in 0..rows.len() {
        if rows[r].parent == id {
            let x = subtree(rows, r);
            v.push((x.cover().min(), x));
        }
    }
    for a in 1..v.len() {
        let mut b = a;
        while b > 0 && v[b - 1].0 > v[b].0 {
            v.swap(b - 1, b);
            b -= 1;
        }
    }
    v.into_iter().map(|x| x.1).collect()
}

fn label(b: &[u8]) -> (String, Option<String>) {
    match (0..b.len()).find(|i| b[*i] == b'=') {
        None => (txt(b), None),
        Some(i) => (txt(&b[..i]), Some(txt(&b[i + 1..]))),
    }
}

/// the table of rows is a tree over all of them
fn table(rows: Vec<Row>, id: Vec<u8>, meta: Option<Vec<u8>>) -> Out {
    let nodes: Vec<usize> = rows.iter().filter(|r| !r.word).map(|r| r.id).collect();
    if rows.iter().all(|r| !r.word) {
        return Out::Bad;
    }
    for (i, n) in nodes.iter().enumerate() {
        if *n == 0 || nodes[..i].contains(n) || rows.iter().all(|r| r.parent != *n) {
            return Out::Bad;
        }
    }
    for r in &rows {
        if r.parent != 0 && !nodes.contains(&r.parent) {
            return Out::Bad;
        }
        if let Some((_, s)) = &r.sec {
            if *s != 0 && !nodes.contains(s) {
                return Out::Bad;
            }
        }
    }
    for r in &rows {
        // climb
        let mut p = r.parent;
        let mut k = 0;
        while p != 0 {
            p = rows.iter().find(|r| !r.word && r.id == p).unwrap().parent;
            k += 1;
            if k > rows.len() {
                return Out::Bad;
            }
        }
    }
    let x = X::inner("VROOT".into(), kids(&rows, 0));
    let mut x = x;
    x.form = "0".into();
    Out::Tree(Ref { rows, x, id, meta })
}

fn reference(s: &[u8]) -> Out {
    let mut lines: Vec<&[u8]> = s.split(|c| *c == b'\n').collect();
    if lines.last().map(|l| l.is_empty()).unwrap_or(false) {
        lines.pop();
    }
    let lines: Vec<&[u8]> = lines.into_iter().map(trim).collect();
    if lines.len() < 2 {
        return Out::Open;
    }
    let (head, foot) = (lines[0], lines[lines.len() - 1]);
    if head.len() < 4 || &head[..4] != b"#BOS" || foot.len() < 4 || &foot[..4] != b"#EOS" {
        return Out::Open;
    }
    let body = &lines[1..lines.len() - 1];
    let mut open = false;
    let mut bad = false;
    // header
    let mut id: &[u8] = b"";
    let mut meta = None;
    if head.len() == 4 {
        bad = true;
    } else if !ws(head[4]) || ws(head[5]) {
        open = true;
    } else {
        let e = (5..head.len()).find(|i| ws(head[*i])).unwrap_or(head.len());
        id = &head[5..e];
        let (n, o) = number(id);
        open |= o;
        bad |= n.is_none();
        if e < head.len() {
            meta = Some(trim(&head[e..]).to_vec());
        }
    }
    // footer
    if foot.len() > 4 && !ws(foot[4]) {
        open = true;
    } else {
        let w = words(foot);
        if w.len() > 2 {
            open = true;
        } else if w.len() < 2 || w[1] != id {
            bad = true;
        }
    }
    let mut rows: Vec<Row> = vec![];
    let mut nodes = false;
    for l in body {
        let w = words(l);
        if w.is_empty() {
            open = true;
            continue;
        }
        if l.len() >= 4 && (&l[..4] == b"#BOS" || &l[..4] == b"#EOS") {
            open = true;
            continue;
        }
        let node = w[0][0] == b'#';
        let at = if node { 4 } else { 4 };
        if w.len() < at + 2 {
            bad = true;
            continue;
        }
        if node {
            nodes = true;
        } else if nodes {
            bad = true;
        }
        let (self_id, o) = if node { number(&w[0][1..]) } else { (Some(0), false) };
        open |= o;
        let (parent, o) = number(w[at + 1]);
        open |= o;
        let mut sec = None;
        if w.len() > at + 2 && w[at + 2][0] != b'%' {
            if w.len() == at + 3 {
                bad = true;
            } else {
                let (n, o) = number(w[at + 3]);
                open |= o;
                bad |= n.is_none();
                sec = Some((w[at + 2].to_vec(), n.unwrap_or(0)));
                // anything after a secondary edge but a comment is left open
                open |= w.len() > at + 4 && w[at + 4][0] != b'%';
            }
        }
        let (self_id, parent) = match (self_id, parent) {
            (Some(a), Some(b)) => (a, b),
            _ => {
                bad = true;
                continue;
            }
        };
        if node {
            open |= w[2].iter().filter(|c| **c == b'=').count() > 1;
        }
        rows.push(Row {
            word: !node,
            id: self_id,
            form: w[0].to_vec(),
            lemma: w[1].to_vec(),
            label: w[2].to_vec(),
            morph: w[3].to_vec(),
            edge: w[4].to_vec(),
            parent,
            sec,
        });
    }
    if open {
        return Out::Open;
    }
    if bad {
        return Out::Bad;
    }
    table(rows, id.to_vec(), meta)
}

/// read everything; compare with the expected result
fn judge(text: &[u8], want: Out) {
    note(2, text);
    let mut rd = NegraReader::new(text);
    let mut oks = 0;
    let mut errs = 0;
    while let Some(r) = rd.next() {
        match r {
            Ok(t) => {
                oks += 1;
                match &want {
                    Out::Tree(r) => matches_ref(&t, r),
                    Out::Bad => check(false, "malformed sentences are errors"),
                    Out::Open => wf(&t),
                }
            }
            Err(_) => errs += 1,
        }
        check(oks + errs < 12, "the reader ends");
    }
    match want {
        Out::Tree(_) => {
            check(oks == 1 && errs == 0, "well-formed sentences are read");
            reach(1);
        }
        Out::Bad => {
            check(errs > 0, "malformed sentences are reported");
            reach(2);
        }
        Out::Open => reach(3),
    }
}

fn matches_ref(t: &Tree, r: &Ref) {
    expect(t, &r.x, true, Some(KEY));
    note_tree(t);
    let ws = words_in_order(t);
    let mut map = vec![];
    pair(t, t.root(), &r.x, &mut map);
    check(same(&feature(t, t.root(), "sentence_id"), &Some(txt(&r.id))), "sentence id");
    check(same(&feature(t, t.root(), "metadata"), &r.meta.as_ref().map(|m| txt(m))), "metadata");
    let mut secs = 0;
    for (i, row) in r.rows.iter().enumerate() {
        let id = if row.word {
            let w = t[ws[i]].terminal().unwrap();
            check(same_opt(w.lemma(), opt(&row.lemma).as_deref()), "lemma");
            check(same(&feature(t, ws[i], "morph"), &opt(&row.morph)), "morphology");
            ws[i]
        } else {
            let k = row.id.to_string();
            map.iter().find(|m| m.0 == k).unwrap().1
        };
        if let Some((l, s)) = &row.sec {
            secs += 1;
            let k = s.to_string();
            let p = map.iter().find(|m| m.0 == k).unwrap().1;
            match t.secondary_parent(id) {
                Some((q, e)) => {
                    check(p == q, "secondary parent");
                    check(same_opt(t[e].label(), opt(l).as_deref()), "label of the secondary edge");
                }
                None => check(false, "secondary edge"),
            }
        }
    }
    check(t.graph().edge_count() == r.rows.len() + secs, "number of edges");
}

fn put(b: &mut Vec<u8>, s: &str) {
    b.extend_from_slice(s.as_bytes());
}

/// arbitrary parent tables.  params: words, nodes, mode
/// mode 0: any ids, 1: ids in order or reversed, 2: also one secondary edge, 3: a word after a node
#[no_mangle]
pub extern "C" fn p08_table() {
    let (n, k, mode) = (param(0), param(1), param(2));
    let mut rows = vec![];
    // ids 500.. are the nodes, 500+k is never defined
    let pick = |x: usize| if x == 0 { 0 } else { 499 + x };
    let c = || vec![byte(b'a', b'z')];
    let rev = mode > 0 && flip();
    for i in 0..n + k {
        let word = i < n;
        let id = if word {
            0
        } else if mode == 0 {
            500 + choose(k)
        } else if rev {
            500 + (n + k - 1 - i)
        } else {
            500 + i - n
        };
        let parent = pick(choose(if mode == 0 && word { k + 2 } else { k + 1 }));
        rows.push(Row { word, id, form: c(), lemma: c(), label: c(), morph: c(), edge: c(), parent, sec: None });
    }
    let mut late = None;
    if mode == 2 && n + k > 0 {
        let r = choose(n + k);
        rows[r].sec = Some((if flip() { c() } else { b"--".to_vec() }, pick(choose(k + 2))));
    }
    if mode == 3 && n > 0 && k > 0 {
        late = Some(choose(n));
    }
    let mut b = vec![];
    put(&mut b, "#BOS 3\n");
    let mut order: Vec<usize> = (0..n + k).collect();
    if let Some(l) = late {
        order.remove(l);
        order.insert(n - 1 + 1 + choose(k), l);
    }
    for i in order {
        let r = &rows[i];
        if r.word {
            b.extend_from_slice(&r.form);
        } else {
            put(&mut b, &format!("#{}", r.id));
        }
        for f in [&r.lemma, &r.label, &r.morph, &r.edge] {
            b.push(b'\t');
            b.extend_from_slice(f);
        }
        put(&mut b, &format!(" {}", r.parent));
        if let Some((l, s)) = &r.sec {
            b.push(b' ');
            b.extend_from_slice(l);
            put(&mut b, &format!(" {} %% x", s));
        }
        b.push(b'\n');
    }
    put(&mut b, "#EOS 3\n");
    let want = if late.is_some() { Out::Bad } else { table(rows, b"3".to_vec(), None) };
    judge(&b, want);
}

const IDS: [usize; 12] = [1, 255, 256, 500, 65535, 65536, 66036, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, usize::MAX];

/// large numbers for sentences and nodes, and references that agree in their lower bits only.
#[no_mangle]
pub extern "C" fn p08_ids() {
    let (s, a, b) = if flip() { (IDS[choose(12)], 500, 65536) } else { (1, IDS[choose(12)], IDS[choose(12)]) };
    assume(a != b);
    let off = [0, 1 << 8, 1 << 16, 1 << 32][choose(4)];
    let p = match a.checked_add(off) {
        Some(p) => p,
        None => return,
    };
    let c = || vec![byte(b'a', b'z')];
    let row = |word: bool, id: usize, parent: usize, sec: Option<usize>| Row {
        word,
        id,
        form: c(),
        lemma: b"--".to_vec(),
        label: c(),
        morph: b"m".to_vec(),
        edge: b"E".to_vec(),
        parent,
        sec: sec.map(|s| (b"S".to_vec(), s)),
    };
    let sec = if flip() { Some(if flip() { b } else { p }) } else { None };
    let mut rows = vec![row(true, 0, a, sec), row(true, 0, p, None), row(true, 0, b, None)];
    rows.push(row(false, a, b, None));
    rows.push(row(false, b, 0, None));
    let mut t = vec![];
    put(&mut t, &format!("#BOS {}\n", s));
    for r in &rows {
        if r.word {
            t.extend_from_slice(&r.form);
        } else {
            put(&mut t, &format!("#{}", r.id));
        }
        for f in [&r.lemma, &r.label, &r.morph, &r.edge] {
            t.push(b'\t');
            t.extend_from_slice(f);
        }
        put(&mut t, &format!("\t{}", r.parent));
        if let Some((l, s)) = &r.sec {
            t.push(b'\t');
            t.extend_from_slice(l);
            put(&mut t, &format!("\t{}", s));
        }
        t.push(b'\n');
    }
    put(&mut t, &format!("#EOS {}\n", s));
    judge(&t, table(rows, s.to_string().into_bytes(), None));
}

const TMPL: [&str; 6] = [
    "#BOS 1\na b c d e 0\n#EOS 1",
    "#BOS 12  2 0 %% X\nV v T -- HD 500\n#500 -- N=O -- - 0\n#EOS 12\n",
    "#BOS 0\na b c d e 500\nf g h i j 501\n#500 -- N -- - 501\n#501 -- M -- K 0\n#EOS 0\n",
    "#BOS 5 m\na b c d e 500 s 0 %c\nf -- h -- -- 0\n#500 -- N -- -- 0 -- 500\n#EOS 5\n",
    "#BOS 7\r\n\ta\tb\tc\td\te\t510 % c\r\n #510 -- N -- - 0\r\n #EOS 7",
    "#BOS 0\nw - T -- - 1\n#1 - A - - 2\n#2 - B - - 0\n#EOS 0\n",
];

/// a complete sentence with bytes replaced, inserted or deleted.  params: template, edits, first, last position
#[no_mangle]
pub extern "C" fn p08_edit() {
    let mut s: Vec<u8> = TMPL[param(0)].as_bytes().to_vec();
    let mut from = param(2).min(s.len() - 1);
    let to = param(3);
    // digits are case-split: they end up as hash keys
    let any = || {
        if flip() {
            let c = byte(0, 0x7f);
            assume((c < b'0') | (c > b'9'));
            c
        } else {
            b"0157"[choose(4)]
        }
    };
    for _ in 0..param(1) {
        let end = if to == 0 { s.len() } else { to.min(s.len()) };
        let i = from + choose(end - from);
        match choose(3) {
            0 => s[i] = any(),
            1 => s.insert(i, any()),
            _ => {
                s.remove(i);
            }
        }
        from = i.min(s.len() - 1).min(end - 1);
    }
    let want = reference(&s);
    judge(&s, want);
}

/// one line with any number of fields, each field missing or arbitrary.  params: kind of line, fields, short
#[no_mangle]
pub extern "C" fn p08_fields() {
    let mut b = vec![];
    put(&mut b, "#BOS 2\n");
    let node = param(0) == 1;
    let nf = param(1);
    if node {
        put(&mut b, "a b c d e 500\n");
    }
    let short = param(2) == 1;
    let sep = [&b" "[..], b"\t\t", b" \t "][if short { 1 } else { choose(3) }];
    let odd = choose(nf + 1);
    for i in 0..nf {
        if i > 0 {
            b.extend_from_slice(sep);
        }
        if node && i == 0 {
            put(&mut b, ["#500", "#0", "#501", "#", "#+500", "#5x"][choose(6)]);
        } else if i == 5 || i == 7 {
            let v: &[&str] = if node { &["0", "500", "501", "x", "-1", "18446744073709551616"] } else { &["0", "500", "x", "-1", "0x", "18446744073709551616"] };
            put(&mut b, v[choose(6)]);
        } else if i == odd {
            let n = if short { 1 } else { 1 + choose(2) };
            for j in 0..n {
                let c = byte(0x21, 0x7e);
                if !node && i == 0 && j == 0 {
                    assume(c != b'#');
                }
                b.push(c);
            }
        } else {
            b.push(byte(b'a', b'z'));
        }
    }
    put(&mut b, "\n#EOS 2\n");
    let want = reference(&b);
    judge(&b, want);
}

// ---- P24: streams ----

struct Failing<'a> {
    s: &'a [u8],
    i: usize,
    at: Option<usize>,
}

impl<'a> Read for Failing<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.at == Some(self.i) {
            self.at = None;
            use std::io::ErrorKind::*;
            let kind = [Other, UnexpectedEof, InvalidData, WouldBlock, BrokenPipe][choose(5)];
            return Err(std::io::Error::new(kind, "disk"));
        }
        let mut n = 0;
        while n < buf.len() && self.i < self.s.len() && self.at != Some(self.i) {
            buf[n] = self.s[self.i];
            n += 1;
            self.i += 1;
        }
        Ok(n)
    }
}

/// a well-formed sentence and its tree
fn good(k: usize, id: usize, b: &mut Vec<u8>) -> X {
    let c = byte(0x21, 0x7e);
    assume(c != b'#');
    let w = string(vec![c]);
    put(b, &format!("#BOS {}{}\n", id, ["", "  1 2 0 %% x"][k % 2]));
    b.push(c);
    let x;
    if k == 0 {
        put(b, " l T m - 0\n");
        x = vec![X::leaf(w, "T".into(), 0)];
    } else {
        put(b, " l T m - 500\nv l S m - 0\nu l S m - 500\n#500 -- N -- - 0\n");
        let n = X::inner("N".into(), vec![X::leaf(w, "T".into(), 0), X::leaf("u".into(), "S".into(), 2)]);
        x = vec![n, X::leaf("v".into(), "S".into(), 1)];
    }
    put(b, &format!("#EOS {}\n", id));
    let mut x = X::inner("VROOT".into(), x);
    for a in x.kids.iter_mut() {
        a.edge = Some("-".into());
        for b in a.kids.iter_mut() {
            b.edge = Some("-".into());
        }
    }
    x
}

/// a malformed sentence that ends with its own #EOS
fn bad(k: usize, b: &mut Vec<u8>) {
    let c = sym_char(b'a', b'z');
    match k {
        0 => put(b, &format!("#BOS 8\n{} l T m -\nv l T m - 0\n#EOS 8\n", c)),
        1 => put(b, &format!("#BOS 8\n{} l T m - 0\n#EOS 9\n", c)),
        2 => put(b, "#BOS 8\n#EOS 8\n"),
        3 => put(b, &format!("#BOS 8\n{} l T m - 500\n#EOS 8\n", c)),
        4 => put(b, &format!("#BOS 8\n{} l T m - 0\n#500 -- N -- - 500\n#EOS 8\n", c)),
        5 => put(b, &format!("#BOS 8\n{} l T m - 500\n#500 -- N -- - 0\nw l T m - 0\n#EOS 8\n", c)),
        6 => put(b, &format!("#BOS x{}\nw l T m - 0\n#EOS 8\n", c)),
        7 => {
            put(b, "#BOS 8\n");
            b.push(0xff);
            put(b, " l T m - 0\n#EOS 8\n");
        }
        _ => put(b, "#EOS 8\n"),
    }
}

const JUNK: [&str; 5] = ["", "\n", "%% #BOS\n#FORMAT 4\n", "a b c d e 0\n#500 -- N -- - 0\n", " \t\n#BOT\nEOS\n"];

/// any sequence of good, malformed and unfinished sentences with text in between.
/// params: pieces, junk everywhere (0) or before one piece (1), all pieces but one are good
#[no_mangle]
pub extern "C" fn p24_seq() {
    let n = param(0);
    let mut b: Vec<u8> = vec![];
    // 0 bad, 1 good, 2 unfinished
    let mut seq: Vec<(usize, Option<X>)> = vec![];
    let junk = choose(JUNK.len());
    let at = if param(1) == 1 { pick(n + 1) } else { n + 1 };
    let odd = if param(2) == 1 { pick(n) } else { n };
    for i in 0..n {
        if at == i || at > n {
            put(&mut b, JUNK[junk]);
        }
        match if odd < n && i != odd { i % 2 } else { choose(12) } {
            k @ 0..=1 => {
                let x = good(k, i, &mut b);
                seq.push((1, Some(x)));
            }
            2 => {
                put(&mut b, "#BOS 4\n");
                b.push(byte(b'a', b'z'));
                put(&mut b, " l T m - 0\n");
                seq.push((2, None));
            }
            k => {
                bad(k - 3, &mut b);
                seq.push((0, None));
            }
        }
    }
    if at == n || at > n {
        // junk after an unfinished sentence belongs to it
        put(&mut b, JUNK[junk]);
    }
    note(3, &b);
    follow(&b, &seq);
}

fn follow(b: &[u8], seq: &[(usize, Option<X>)]) {
    let mut rd = NegraReader::new(b);
    let n = seq.len();
    // next piece that has not been accounted for, errors since the last tree
    let (mut next, mut errs, mut items) = (0, 0, 0);
    loop {
        let r = rd.next();
        items += 1;
        check(items <= 4 * n + 4, "the reader ends");
        let i = match &r {
            Some(Err(_)) => {
                errs += 1;
                continue;
            }
            // good sentences are numbered by their place
            Some(Ok(t)) => feature(t, t.root(), "sentence_id").and_then(|s| s.parse::<usize>().ok()).unwrap_or(n),
            None => n,
        };
        // everything between two trees is an error
        check(i >= next && (i < n || r.is_none()), "trees come in order");
        let mut open = false;
        for k in next..i {
            // a sentence that starts inside an unfinished one may be lost with it
            check(seq[k].0 != 1 || (k > 0 && seq[k - 1].0 == 2), "complete sentences are read whatever precedes them");
            open |= seq[k].0 != 0;
        }
        let run = i - next;
        check(errs >= if open { (run + 1) / 2 } else { run }, "every malformed sentence is reported");
        check(run > 0 || errs == 0, "well-formed sentences cause no error");
        if run > 0 {
            reach(2);
        }
        if open {
            reach(3);
        }
        let t = match r {
            Some(Ok(t)) => t,
            _ => break,
        };
        match &seq[i] {
            (1, Some(x)) => expect(&t, x, true, None),
            _ => check(false, "malformed sentences are errors"),
        }
        reach(1);
        next = i + 1;
        errs = 0;
    }
    check(rd.next().is_none(), "the end of the stream stays the end");
}

/// a stream cut off, or failing, at any byte.  params: fail
#[no_mangle]
pub extern "C" fn p24_cut() {
    let mut b = vec![];
    let x1 = good(1, 1, &mut b);
    let first = b.len();
    let x2 = good(0, 12, &mut b);
    let fail = param(0) == 1;
    let at = choose(b.len() + 1);
    note(3, &b[..at]);
    let src = Failing { s: if fail { &b[..] } else { &b[..at] }, i: 0, at: if fail { Some(at) } else { None } };
    let mut rd = NegraReader::new(BufReader::with_capacity(256, src));
    // the line break after the last #EOS line may be missing, but a failing read loses the line
    let slack = if fail { 0 } else { 1 };
    let done = if at + slack >= b.len() { 2 } else if at + slack >= first { 1 } else { 0 };
    for i in 0..done {
        match rd.next() {
            Some(Ok(t)) => expect(&t, if i == 0 { &x1 } else { &x2 }, true, None),
            _ => check(false, "complete sentences before the end are read"),
        }
    }
    if fail {
        check(matches!(rd.next(), Some(Err(_))), "a read error is reported");
        reach(1);
        let mut k = 0;
        while rd.next().is_some() {
            k += 1;
            check(k < 8, "the reader ends");
        }
        return;
    }
    let rest = if done == 2 { 0 } else if done == 1 { at.saturating_sub(first) } else { at };
    // up to three bytes of "#BOS" are text between sentences
    if rest >= 4 {
        check(matches!(rd.next(), Some(Err(_))), "a sentence cut off at the end of input is reported");
        reach(2);
    }
    check(rd.next().is_none(), "no further items");
}

entries!(p07_trip, p07_stream, p07_bad, p08_table, p08_ids, p08_edit, p08_fields, p24_seq, p24_cut);
