//! P09: tag-sequence encoding round trip.  P10: relative / absolute labels.
//! P11: decoding arbitrary label sequences.
use lumberjack::io::{AbsoluteEncoding, Decode, Encode, RelativeEncoding};
use lumberjack::{Terminal, Tree, UnaryChains};
use std::convert::TryInto;
use symh::*;

fn leaves<'a>(x: &'a X, v: &mut Vec<&'a X>) {
    if x.term {
        v.push(x);
    }
    for k in &x.kids {
        leaves(k, v);
    }
}

fn shift_x(x: &mut X) {
    x.pos += 1;
    for k in x.kids.iter_mut() {
        shift_x(k);
    }
}

fn fresh_words(x: &X) -> Vec<Terminal> {
    let mut v = vec![];
    leaves(x, &mut v);
    v.iter().enumerate().map(|(i, w)| Terminal::new(w.form.clone(), w.label.clone(), i)).collect()
}

/// number of common ancestors of word `i` and `i+1` and the lowest one's full label, from the definition
fn common(x: &X, i: usize) -> Option<(usize, String)> {
    let c = x.cover();
    if x.term || !c.has(i) || !c.has(i + 1) {
        return None;
    }
    for k in &x.kids {
        if let Some((n, l)) = common(k, i) {
            return Some((n + 1, l));
        }
    }
    let l = match &x.ann {
        Some(a) => {
            let mut s = a.clone();
            s.push('_');
            s.push_str(&x.label);
            s
        }
        None => x.label.clone(),
    };
    Some((1, l))
}

fn num(n: isize) -> String {
    n.to_string()
}

/// textual forms of the absolute and relative labels, from the definition
fn texts(x: &X) -> Vec<(String, String)> {
    let mut v = vec![];
    leaves(x, &mut v);
    let mut prev = 0isize;
    let mut out = vec![];
    for (i, w) in v.iter().enumerate() {
        let (mut a, mut r) = ("NONE".to_string(), "NONE".to_string());
        if let Some((n, l)) = common(x, i) {
            let n = n as isize;
            a = l.clone();
            a.push('+');
            a.push_str(&num(n));
            r = l;
            if n != 1 {
                r.push('+');
                r.push_str(&num(n - prev));
            }
            prev = n;
        }
        if let Some(c) = &w.ann {
            for s in [&mut a, &mut r] {
                s.push('~');
                s.push_str(c);
            }
        }
        out.push((a, r));
    }
    out
}

fn round_trip(t: &Tree, x: &X, own_words: bool) {
    let abs = t.encode_absolute();
    let rel = t.encode_relative();
    check(abs.is_ok() && rel.is_ok(), "projective trees can be encoded");
    let (abs, rel) = (abs.unwrap(), rel.unwrap());
    let words = if own_words {
        let mut v = vec![];
        for id in words_in_order(t) {
            v.push(t[id].terminal().unwrap().clone());
        }
        v
    } else {
        fresh_words(x)
    };
    let want = texts(x);
    check(abs.len() == want.len() && rel.len() == want.len(), "one label per word");
    for i in 0..want.len() {
        let f = |l: Option<String>, c: &Option<String>| {
            let mut s = l.unwrap_or_else(|| "NONE".to_string());
            if let Some(c) = c {
                s.push('~');
                s.push_str(c);
            }
            s
        };
        check(f(abs[i].0.as_ref().map(|a| a.to_string()), &abs[i].1) == want[i].0, "absolute label is the lowest common ancestor");
        check(f(rel[i].0.as_ref().map(|a| a.to_string()), &rel[i].1) == want[i].1, "relative label is the difference");
        note(3, want[i].0.as_bytes());
        note(3, want[i].1.as_bytes());
    }
    let d = Tree::decode(abs.clone(), words.clone());
    expect(&d, x, false, Some("unary_chain"));
    reach(1);
    check(RelativeEncoding::from(abs.clone()) == rel, "absolute to relative");
    let conv = AbsoluteEncoding::try_from_relative(rel).into_result();
    check(conv.is_ok(), "encoded relative labels convert");
    let conv = conv.unwrap();
    check(conv == abs, "relative and absolute encoding agree");
    let d = Tree::decode(conv, words);
    expect(&d, x, false, Some("unary_chain"));

    let mut t2 = t.clone();
    check(t2.annotate_absolute().is_ok() && t2.annotate_relative().is_ok(), "projective trees can be annotated");
    expect(&t2, x, false, Some("unary_chain"));
    for id in t.graph().node_indices() {
        match (t.parent(id), t2.parent(id)) {
            (None, None) => (),
            (Some((p, e)), Some((p2, e2))) => check(p == p2 && t[e] == t2[e2], "annotating changes no edge"),
            _ => check(false, "annotating changes no edge"),
        }
        check(t[id].is_terminal() || t[id] == t2[id], "annotating changes no inner node");
    }
    for (i, id) in words_in_order(&t2).into_iter().enumerate() {
        let f = t2[id].features().unwrap();
        check(f.get_val("abs_ancestor") == Some(Some(want[i].0.as_str())), "absolute annotation is the label's text");
        check(f.get_val("rel_ancestor") == Some(Some(want[i].1.as_str())), "relative annotation is the label's text");
        check(f.inner().len() == 2 + v_len(x, i), "no other features");
    }
}

fn v_len(x: &X, i: usize) -> usize {
    let mut v = vec![];
    leaves(x, &mut v);
    if v[i].ann.is_some() {
        1
    } else {
        0
    }
}

/// params: terminals, nonterminals, creation order, discontinuous
#[no_mangle]
pub extern "C" fn p09_code() {
    let mut g = Gen::new(param(0), param(1));
    g.in_order = param(2) == 0;
    g.chain_order = false;
    g.disc = param(3) == 1;
    let (mut t, m) = gen(&g);
    if !m.projective() {
        check(t.encode_absolute().is_err() && t.encode_relative().is_err(), "discontinuous trees can't be encoded");
        let t2 = t.clone();
        check(t.annotate_absolute().is_err() && t.annotate_relative().is_err(), "discontinuous trees can't be annotated");
        check_tree(&t, &m);
        check(t == t2, "tree unchanged");
        reach(2);
        return;
    }
    let own = flip();
    check(t.collapse_unary_chains("_").is_ok(), "collapse");
    let x = collapse(&to_x(&m, m.root), "_");
    expect(&t, &x, false, Some("unary_chain"));
    round_trip(&t, &x, own);
}

/// deep trees: a spine of inner nodes, each with one more word to the left or to the right.
/// params: number of words, shape (0 right-branching, 1 left-branching, 2 alternating, 3 symbolic, 4 right-branching below a few left-branching nodes), unary chains
#[no_mangle]
pub extern "C" fn p09_spine() {
    let n = param(0);
    let mut x = X::leaf(sym_char(b'a', b'z'), sym_char(b'a', b'z'), 0);
    let mut left = vec![];
    let outer = if param(1) == 4 { 1 + choose(3) } else { 0 };
    for i in 1..n {
        left.push(match param(1) {
            0 => true,
            1 => false,
            2 => i % 2 == 0,
            4 => i < n - outer,
            _ => flip(),
        });
    }
    let nl = left.iter().filter(|l| **l).count();
    let (mut lo, mut hi) = (nl, nl);
    let mut t = Tree::new(x.form.clone(), x.label.clone());
    let root = t.root();
    let mut top = root;
    for l in left {
        if param(2) == 1 && l {
            let c = sym_char(b'A', b'Z');
            top = t.insert_unary_above(top, c.clone());
            x = X::inner(c, vec![x]);
        }
        let c = sym_char(b'A', b'Z');
        top = t.insert_unary_above(top, c.clone());
        let (form, tag) = (sym_char(b'a', b'z'), sym_char(b'a', b'z'));
        if l {
            lo -= 1;
            t.insert_terminal(top, Terminal::new(form.clone(), tag.clone(), 0));
            shift_x(&mut x);
            x = X::inner(c, vec![X::leaf(form, tag, 0), x]);
        } else {
            hi += 1;
            t.insert_terminal(top, Terminal::new(form.clone(), tag.clone(), hi - lo));
            x = X::inner(c, vec![x, X::leaf(form, tag, hi - lo)]);
        }
    }
    check(t.collapse_unary_chains("_").is_ok(), "collapse");
    round_trip(&t, &collapse(&x, "_"), false);
}

// ---------------------------------------------------------------- P10

/// label text, `plus`: may contain '+'
fn label(max: usize, plus: bool) -> String {
    let n = 1 + choose(max);
    let mut v = vec![];
    for _ in 0..n {
        let b = byte(0x20, 0x7e);
        if !plus {
            assume(b != b'+');
        }
        v.push(b);
    }
    string(v)
}

/// as `label`, or ending in a two-byte character
fn label8(max: usize, plus: bool) -> String {
    let mut l = label(max, plus);
    if flip() {
        l.push_str(&string(vec![byte(0xc3, 0xcf), byte(0x80, 0xbf)]));
    }
    l
}

/// a number of up to `max` digits without leading zeros
fn number(lo: u8, hi: u8, max: usize) -> (usize, String) {
    let n = choose(max);
    let a = byte(lo, hi);
    let mut v = vec![a];
    let mut k = (a - b'0') as usize;
    if n > 0 {
        assume(a != b'0');
    }
    for _ in 0..n {
        let b = byte(b'0', b'9');
        k = k * 10 + (b - b'0') as usize;
        v.push(b);
    }
    (k, string(v))
}

fn digits(lo: u8, hi: u8, two: bool) -> (usize, String) {
    let a = byte(lo, hi);
    if two {
        let b = byte(b'0', b'9');
        assume(a != b'0');
        ((a - b'0') as usize * 10 + (b - b'0') as usize, string(vec![a, b]))
    } else {
        ((a - b'0') as usize, string(vec![a]))
    }
}

/// one relative label: (offset or root, label)
fn rel_text(two: bool, l: &str) -> (Option<isize>, String) {
    let mut s = l.to_string();
    match choose(3) {
        0 => (None, s),
        k => {
            s.push('+');
            let (v, d) = digits(b'0', b'9', two && flip());
            if k == 2 {
                s.push('-');
            }
            s.push_str(&d);
            (Some(if k == 2 { -(v as isize) } else { v as isize }), s)
        }
    }
}

fn chain() -> Option<String> {
    if flip() {
        Some(sym_char(b'A', b'Z'))
    } else {
        None
    }
}

/// arbitrary relative labels.  params: length, two-digit offsets, all words with labels and chains,
/// fixed offsets (1), all but one fixed (2) or extreme ones (3)
#[no_mangle]
pub extern "C" fn p10_rel() {
    let n = param(0);
    let empty = RelativeEncoding::from(AbsoluteEncoding::new(vec![]));
    let mut v = (*empty).clone();
    let mut model: Vec<Option<(Option<isize>, String, Option<String>)>> = vec![];
    let mut chains = vec![];
    let odd = if param(3) == 2 { pick(n) } else { n };
    for i in 0..n {
        let l = sym_char(b'A', b'Z');
        let c = if i == 0 && param(2) == 0 { chain() } else { Some(sym_char(b'A', b'Z')) };
        chains.push(c.clone());
        if param(2) == 0 && choose(4) == 0 {
            v.push((None, c));
            model.push(None);
            continue;
        }
        let (off, text) = if param(3) == 3 {
            // the largest and smallest numbers
            let o = [1, 2, isize::MAX, isize::MAX - 1, isize::MIN, isize::MIN + 1, -1][choose(7)];
            (Some(o), format!("{}+{}", l, o))
        } else if param(3) > 0 {
            // long sequences: a fixed offset per place
            let o = [3isize, -1, 250, -2, -300, 1, 0, -9][i % 8];
            let o = if param(3) == 2 && i % 8 == 4 { -200 } else { o };
            match if odd < n && i != odd { (i > 0) as usize } else { choose(3) } {
                0 => (None, l.clone()),
                1 => (Some(o), format!("{}+{}", l, o)),
                _ => (Some(1 - o), format!("{}+{}", l, 1 - o)),
            }
        } else {
            rel_text(param(1) == 1, &l)
        };
        let r = text.as_str().try_into();
        check(r.is_ok(), "relative labels parse");
        v.push((Some(r.unwrap()), c.clone()));
        model.push(Some((off, l, c)));
    }
    let rel = RelativeEncoding::from_labels(v.clone());
    // reference: running sums
    let mut sum = 0isize;
    let mut first_bad = false;
    let mut want: Vec<Option<(isize, String)>> = vec![];
    for x in &model {
        match x {
            None => want.push(None),
            Some((None, l, _)) => {
                sum = 1;
                want.push(Some((1, l.clone())));
            }
            Some((Some(o), l, _)) => {
                // sums that are not representable are invalid as well
                if *o > isize::MAX - sum {
                    sum = 0;
                } else {
                    sum += o;
                }
                if concretize((sum < 1) as usize) == 1 {
                    sum = 2;
                    first_bad = true;
                }
                want.push(Some((sum, l.clone())));
            }
        }
    }
    let res = AbsoluteEncoding::try_from_relative(rel.clone());
    let ok = res.clone().into_result();
    check(ok.is_err() == first_bad, "conversion reports a running sum below 1");
    let fixed = res.unwrap_or_fix();
    let direct = match ok {
        Ok(e) => {
            reach(1);
            e
        }
        Err(e) => {
            reach(2);
            e.fix()
        }
    };
    check(direct == fixed, "fixing the error is what unwrap_or_fix does");
    check(fixed.len() == n, "length kept");
    for i in 0..n {
        check(fixed[i].1 == chains[i], "leaf chains are kept");
        match (&fixed[i].0, &want[i]) {
            (None, None) => (),
            (Some(a), Some((c, l))) => {
                check(a.n_common() as isize == *c, "number of common ancestors is the running sum");
                check(a.label() == l.as_str(), "label kept");
                note(2, &[a.n_common() as u8]);
            }
            _ => check(false, "missing labels stay missing"),
        }
    }
    // back to relative: same sums
    let again = RelativeEncoding::from(fixed.clone());
    check(AbsoluteEncoding::try_from_relative(again).into_result().ok() == Some(fixed), "absolute to relative and back");
}

/// arbitrary absolute labels.  params: length, two-digit counts, fixed counts,
/// extreme counts
#[no_mangle]
pub extern "C" fn p10_abs() {
    let n = param(0);
    let mut v = (*AbsoluteEncoding::new(vec![])).clone();
    let mut m = vec![];
    for i in 0..n {
        let c = if i == 0 { chain() } else { Some(sym_char(b'A', b'Z')) };
        if choose(3) == 0 {
            v.push((None, c.clone()));
            m.push((None, c));
            continue;
        }
        let l = sym_char(b'A', b'Z');
        let two = param(1) == 1 && flip();
        let (k, d) = if param(2) == 1 {
            let k = if flip() { 1 } else { if param(3) == 1 { isize::MAX as usize - i % 3 } else { [2usize, 12, 7, 300, 5, 9, 65536, 40][i % 8] } };
            (k, k.to_string())
        } else {
            digits(b'1', if two { b'2' } else { b'9' }, two)
        };
        // differences of two-digit counts are printed case by case
        let k = if two { concretize(k) } else { k };
        let mut s = l.clone();
        s.push('+');
        s.push_str(&d);
        let a = s.as_str().try_into();
        check(a.is_ok(), "absolute labels parse");
        v.push((Some(a.unwrap()), c.clone()));
        m.push((Some((k, l)), c));
    }
    let abs = AbsoluteEncoding::new(v.clone());
    let rel = RelativeEncoding::from(abs.clone());
    check(rel.len() == n, "length kept");
    let mut prev = 0isize;
    for i in 0..n {
        check(rel[i].1 == m[i].1, "leaf chains are kept");
        match (&rel[i].0, &m[i].0) {
            (None, None) => (),
            (Some(r), Some((k, l))) => {
                let k = *k as isize;
                let mut s = l.clone();
                if k != 1 {
                    s.push('+');
                    s.push_str(&num(k - prev));
                }
                prev = k;
                check(r.to_string() == s, "relative label is the difference, or a root label");
                note(2, s.as_bytes());
            }
            _ => check(false, "missing labels stay missing"),
        }
    }
    let back = AbsoluteEncoding::try_from_relative(rel).into_result();
    check(back.ok() == Some(abs), "absolute to relative and back is the identity");
    reach(1);
}

/// parsing and printing single labels
#[no_mangle]
pub extern "C" fn p10_text() {
    let mut av = (*AbsoluteEncoding::new(vec![])).clone();
    let mut rv = (*RelativeEncoding::from(AbsoluteEncoding::new(vec![]))).clone();
    let case = choose(6);
    let l = if case < 2 { label8(2, case == 0) } else { label(2, false) };
    match case {
        0 => {
            let (k, d) = number(b'1', b'9', 3);
            let mut s = l.clone();
            s.push('+');
            s.push_str(&d);
            let a = s.as_str().try_into();
            check(a.is_ok(), "absolute label parses");
            av.push((Some(a.unwrap()), None));
            let a = av[0].0.as_ref().unwrap();
            check(a.label() == l.as_str() && a.n_common() == k, "absolute label and count");
            check(a.to_string() == s, "absolute label prints as it was");
            let (k2, l2) = a.clone().into_parts();
            check(k2 == k && l2 == l, "parts");
            reach(1);
        }
        1 => {
            let mut s = l.clone();
            let o = match choose(3) {
                0 => None,
                k => {
                    let (v, d) = number(b'0', b'9', if l.len() == 1 { 3 } else { 2 });
                    s.push_str(if k == 2 { "+-" } else { "+" });
                    s.push_str(&d);
                    Some(if k == 2 { -(v as isize) } else { v as isize })
                }
            };
            let r = s.as_str().try_into();
            check(r.is_ok(), "relative label parses");
            rv.push((Some(r.unwrap()), None));
            let r = rv[0].0.as_ref().unwrap();
            // "+-0" and "+0" print alike, everything else prints as it was
            let mut w = l.clone();
            if let Some(o) = o {
                w.push('+');
                w.push_str(&num(o));
            }
            check(r.to_string() == w, "relative label prints as it was");
            let again = r.to_string().as_str().try_into();
            check(again.is_ok(), "printed relative label parses");
            rv.push((Some(again.unwrap()), None));
            check(rv[0] == rv[1], "printing and parsing gives the label back");
            if let Some(o) = o {
                // labels with '+' keep their text when an offset follows
                let mut s = String::from("A+");
                s.push_str(&w);
                let r = s.as_str().try_into();
                check(r.is_ok(), "relative label with '+' parses");
                rv.push((Some(r.unwrap()), None));
                check(rv[2].0.as_ref().unwrap().to_string() == s && o == o, "relative label with '+' prints as it was");
            }
            reach(2);
        }
        2 => {
            // counts that are no positive number
            let n = choose(3);
            let mut b = vec![];
            for _ in 0..n {
                let c = byte(0x20, 0x7e);
                assume(c != b'+');
                b.push(c);
            }
            let mut good = n > 0;
            let mut zero = true;
            for c in b.iter() {
                good &= (*c >= b'0') & (*c <= b'9');
                zero &= *c == b'0';
            }
            let mut s = l.clone();
            s.push('+');
            let d = string(b);
            s.push_str(&d);
            let a = s.as_str().try_into();
            if a.is_ok() {
                av.push((Some(a.unwrap()), None));
                check(good & !zero, "malformed counts are errors");
            } else {
                check(!good | zero, "well-formed counts are accepted");
            }
            reach(3);
        }
        3 => {
            // no count at all
            let big = ["", "+9223372036854775808", "+18446744073709551615", "+18446744073709551616", "+-1"][choose(5)];
            let s = l + big;
            let a = s.as_str().try_into();
            check(a.is_err(), "an absolute label needs a count in range");
            if let Ok(a) = a {
                av.push((Some(a), None));
            }
        }
        4 => {
            let mut s = String::from("+");
            let (_, d) = digits(b'0', b'9', false);
            s.push_str(&d);
            let r = match choose(4) {
                0 => s.as_str().try_into(),
                1 => "".try_into(),
                2 => "A+9223372036854775808".try_into(),
                _ => "A+-9223372036854775809".try_into(),
            };
            check(r.is_err(), "a relative label needs a label and an offset in range");
            if let Ok(r) = r {
                rv.push((Some(r), None));
            }
        }
        _ => {
            let c = byte(0x20, 0x7e);
            assume((c < b'0') | (c > b'9'));
            let mut s = l.clone();
            s.push('+');
            s.push_str(&string(vec![c]));
            let r = s.as_str().try_into();
            check(r.is_err(), "malformed offsets are errors");
            if let Ok(r) = r {
                rv.push((Some(r), None));
            }
        }
    }
}

// ---------------------------------------------------------------- P11

fn words(n: usize) -> (Vec<Terminal>, Vec<(String, String)>) {
    let mut v = vec![];
    let mut w = vec![];
    for i in 0..n {
        let (f, p) = (sym_char(b'a', b'z'), sym_char(b'a', b'z'));
        v.push(Terminal::new(f.clone(), p.clone(), i));
        w.push((f, p));
    }
    (v, w)
}

fn some_label() -> String {
    match choose(4) {
        0 => "DUMMY".to_string(),
        1 => {
            let mut s = sym_char(b'A', b'Z');
            s.push('_');
            s.push_str(&sym_char(b'A', b'Z'));
            s
        }
        2 => "C_DUMMY".to_string(),
        _ => sym_char(b'A', b'Z'),
    }
}

fn well_formed(t: &Tree, w: &[(String, String)]) {
    wf(t);
    check(t.n_terminals() == w.len(), "one word per label");
    for id in t.terminals() {
        let x = t[id].terminal().unwrap();
        check(x.form() == w[x.idx()].0.as_str() && x.label() == w[x.idx()].1.as_str(), "words in the given order");
    }
    note_tree(t);
}

/// `remove_dummy_nodes` deletes exactly the dummy-labelled nodes
fn dummies(mut t: Tree) {
    let model = from_tree(&t);
    let mut m = model.clone();
    for i in m.nts() {
        if i != m.root && m.n[i].label == "DUMMY" {
            splice_in_model(&mut m, i);
            reach(3);
        }
    }
    if !m.n[m.root].term && m.n[m.root].label == "DUMMY" && m.children(m.root).len() == 1 {
        let r = m.root;
        splice_in_model(&mut m, r);
        reach(4);
    }
    check(t.remove_dummy_nodes().is_ok(), "dummy removal succeeds");
    check_tree(&t, &m);
}

/// params: words, largest count, label mode (0 plain labels, 1 special ones), fixed counts for all words but one
#[no_mangle]
pub extern "C" fn p11_decode() {
    let n = param(0);
    let (ts, w) = words(n);
    let mut v = (*AbsoluteEncoding::new(vec![])).clone();
    let mut ch = vec![];
    let odd = if param(3) == 1 { pick(n) } else { n };
    for i in 0..n {
        let c = if i == 0 && flip() { None } else { Some(sym_char(b'A', b'Z')) };
        ch.push(c.clone());
        let k = if odd < n && i != odd { [1, 5, 2, 40, 3, 0, 9, 2][i % 8] } else { choose(param(1) + 1) };
        if k == 0 {
            v.push((None, c));
            continue;
        }
        let mut s = if param(2) == 1 { some_label() } else { sym_char(b'A', b'Z') };
        s.push('+');
        s.push_str(&k.to_string());
        v.push((Some(s.as_str().try_into().unwrap()), c));
    }
    let t = Tree::decode(AbsoluteEncoding::new(v), ts);
    well_formed(&t, &w);
    for id in t.terminals() {
        let i = t[id].terminal().unwrap().idx();
        let f = t[id].features().and_then(|f| f.get_val("unary_chain"));
        check(f == ch[i].as_ref().map(|c| Some(c.as_str())), "leaf chains are attached to their words");
    }
    reach(1);
    dummies(t);
}

/// repaired relative sequences.  params: words
#[no_mangle]
pub extern "C" fn p11_repair() {
    let n = param(0);
    let (ts, w) = words(n);
    let mut v = (*RelativeEncoding::from(AbsoluteEncoding::new(vec![]))).clone();
    for _ in 0..n {
        let l = sym_char(b'A', b'Z');
        let k = choose(7);
        if k == 0 {
            v.push((None, None));
            continue;
        }
        let mut s = l;
        if k > 1 {
            s.push_str(["+-2", "+-1", "+0", "+1", "+2"][k - 2]);
        }
        v.push((Some(s.as_str().try_into().unwrap()), None));
    }
    let abs = AbsoluteEncoding::try_from_relative(RelativeEncoding::from_labels(v)).unwrap_or_fix();
    let mut t = Tree::decode(abs, ts);
    well_formed(&t, &w);
    reach(1);
    check(t.restore_unary_chains("_").is_ok(), "restoring");
    well_formed(&t, &w);
    dummies(t);
}

/// dummy removal on arbitrary trees.  params: terminals, nonterminals, creation order
#[no_mangle]
pub extern "C" fn p11_dummy() {
    let mut g = Gen::new(param(0), param(1));
    g.in_order = param(2) == 0;
    let (mut t, mut m) = gen(&g);
    let nts = m.nts();
    let odd = if param(0) >= 1000 { nts[pick(nts.len())] } else { 0 };
    for i in nts {
        // one label is a symbolic neighbour of the dummy label
        let l = match if param(0) >= 1000 && i != odd { (i % 5 < 2) as usize } else { choose(if i == m.root { 5 } else { 4 }) } {
            0 => continue,
            1 => "DUMMY".to_string(),
            2 => string(vec![b'D', b'U', b'M', b'M', b'Y', byte(0x20, 0x7e)]),
            3 => string(vec![b'D', b'U', byte(0x20, 0x7e), b'M', b'Y']),
            _ => string(vec![byte(0x20, 0x7e), b'D', b'U', b'M', b'M', b'Y']),
        };
        m.n[i].label = l.clone();
        t[m.n[i].id].set_label(l);
    }
    // words tagged DUMMY are words, not dummy nodes
    if flip() {
        let i = m.terms()[0];
        m.n[i].label = "DUMMY".to_string();
        t[m.n[i].id].set_label("DUMMY");
    }
    check_tree(&t, &m);
    dummies(t);
}

entries!(p09_code, p09_spine, p10_rel, p10_abs, p10_text, p11_decode, p11_repair, p11_dummy);
