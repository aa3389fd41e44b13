//! P19: tree equality.  P20: feature sets.
use lumberjack::{Features, Tree};
use symh::*;

struct Deco {
    lemma: Vec<Option<String>>,
    feats: Vec<Option<Vec<(String, Option<String>)>>>,
}

fn plain(m: &Model) -> Deco {
    Deco { lemma: vec![None; m.n.len()], feats: vec![None; m.n.len()] }
}

fn eq1(a: &str, b: &str) -> bool {
    // labels of the same length are compared without branching
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}

fn eqo(a: &Option<String>, b: &Option<String>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => eq1(a, b),
        (None, None) => true,
        _ => false,
    }
}

fn feq(a: &Option<Vec<(String, Option<String>)>>, b: &Option<Vec<(String, Option<String>)>>) -> bool {
    let e = vec![];
    let (a, b) = (a.as_ref().unwrap_or(&e), b.as_ref().unwrap_or(&e));
    let mut ok = a.len() == b.len();
    if ok {
        for k in 0..a.len() {
            ok &= eq1(&a[k].0, &b[k].0) & eqo(&a[k].1, &b[k].1);
        }
    }
    ok
}

/// labelled isomorphism of the two models
fn iso(a: &Model, da: &Deco, ka: &[Vec<usize>], i: usize, b: &Model, db: &Deco, kb: &[Vec<usize>], j: usize) -> bool {
    let (x, y) = (&a.n[i], &b.n[j]);
    if x.term != y.term || (x.term && x.pos != y.pos) {
        return false;
    }
    let mut ok = eq1(&x.label, &y.label) & feq(&da.feats[i], &db.feats[j]);
    if x.term {
        ok &= eq1(&x.form, &y.form) & eqo(&da.lemma[i], &db.lemma[j]);
    }
    if i != a.root && j != b.root {
        ok &= eqo(&x.edge, &y.edge);
    }
    let (c, d) = (&ka[i], &kb[j]);
    if c.len() != d.len() {
        return false;
    }
    for k in 0..c.len() {
        ok &= iso(a, da, ka, c[k], b, db, kb, d[k]);
    }
    ok
}

fn verdict(t: &Tree, m: &Model, d: &Deco, t2: &Tree, m2: &Model, d2: &Deco) {
    let same = m.n_terms() == m2.n_terms() && iso(m, d, &m.kids(), m.root, m2, d2, &m2.kids(), m2.root);
    let e = t == t2;
    check(e == same, "trees are equal iff their labelled structures are");
    check((t2 == t) == e, "equality is symmetric");
    check(t == t && t2 == t2, "equality is reflexive");
    reach(if e { 1 } else { 2 });
    note(1, if e { b"equal" } else { b"different" });
}

fn cfg(edges: usize) -> Gen {
    let mut g = Gen::new(param(0), param(1));
    g.in_order = param(2) == 0;
    g.chain_order = param(2) == 1;
    g.lab = (b'A', b'C');
    g.form = (b'a', b'c');
    g.edges = edges;
    g
}

/// nothing, the empty text, a letter, any two printable characters
fn some(all: bool) -> Option<String> {
    match choose(if all { 4 } else { 2 }) {
        0 => Some(sym_char(b'a', b'c')),
        1 => None,
        2 => Some(String::new()),
        _ => Some(string(vec![byte(0x20, 0x7e), byte(0x20, 0x7e)])),
    }
}

/// two independent trees.  params: terminals, nonterminals, creation order, edge mode
#[no_mangle]
pub extern "C" fn p19_two() {
    let g = cfg(param(3));
    let (t, m) = gen(&g);
    let mut g2 = g.clone();
    if choose(3) == 0 {
        g2.terms += 1;
        g2.nts = 1;
    }
    let (t2, m2) = gen(&g2);
    verdict(&t, &m, &plain(&m), &t2, &m2, &plain(&m2));
}

fn feats(t: &mut Tree, m: &Model, d: &mut Deco, i: usize, how: usize) {
    let mut v = vec![];
    match how {
        0 => return,
        1 => (),
        2 => v.push((sym_char(b'a', b'c'), None)),
        3 => v.push((sym_char(b'a', b'c'), Some(sym_char(b'a', b'c')))),
        4 => v.push((sym_char(b'a', b'c'), Some(String::new()))),
        _ => {
            v.push(("a".to_string(), None));
            v.push(("b".to_string(), Some(sym_char(b'a', b'c'))));
        }
    }
    let mut f = Features::new();
    for (k, x) in v.iter() {
        f.insert(k.clone(), x.clone());
    }
    t[m.n[i].id].set_features(Some(f));
    d.feats[i] = Some(v);
}

/// the same shape with independent labels, lemmas and features.
/// params: terminals, nonterminals, creation order, which attributes differ
#[no_mangle]
pub extern "C" fn p19_attr() {
    let (mut t, mut m) = gen(&cfg(1));
    let mut t2 = t.clone();
    let mut m2 = m.clone();
    let (mut d, mut d2) = (plain(&m), plain(&m2));
    let k = pick(m.n.len());
    match param(3) {
        0 => {
            for (i, x) in m2.n.iter_mut().enumerate() {
                if i != k && dull(param(0), i) {
                    continue;
                }
                x.label = if x.id == m.n[k].id && flip() { some(true).unwrap_or_default() } else { sym_char(b'A', b'c') };
                t2[x.id].set_label(x.label.clone());
            }
        }
        1 => {
            for (i, x) in m2.n.iter_mut().enumerate() {
                if x.term && (i == k || !dull(param(0), i)) {
                    x.form = if x.id == m.n[k].id { some(true).unwrap_or_default() } else { sym_char(b'a', b'c') };
                    t2[x.id].terminal_mut().unwrap().set_form(x.form.clone());
                }
            }
        }
        2 => {
            if m.n[k].parent.is_some() {
                m.n[k].edge = some(true);
                let (_, e) = t.parent(m.n[k].id).unwrap();
                t[e].set_label(m.n[k].edge.clone());
            }
            for (i, x) in m2.n.iter_mut().enumerate() {
                if x.parent.is_some() && (i == k || param(0) < 1000) {
                    x.edge = some(x.id == m.n[k].id);
                    let (_, e) = t2.parent(x.id).unwrap();
                    t2[e].set_label(x.edge.clone());
                }
            }
        }
        3 => {
            if m.n[k].term {
                let l = some(true);
                t[m.n[k].id].terminal_mut().unwrap().set_lemma(l.clone());
                d.lemma[k] = l;
                let l = some(true);
                t2[m.n[k].id].terminal_mut().unwrap().set_lemma(l.clone());
                d2.lemma[k] = l;
            }
        }
        _ => {
            let (a, b) = (choose(6), choose(6));
            feats(&mut t, &m, &mut d, k, a);
            feats(&mut t2, &m2, &mut d2, k, b);
        }
    }
    verdict(&t, &m, &d, &t2, &m2, &d2);
}

// ---------------------------------------------------------------- P20

fn any_text(max: usize, colon: bool) -> String {
    let n = choose(max + 1);
    let mut v = vec![];
    for _ in 0..n {
        let b = byte(0x20, 0x7e);
        assume((b != b'|') & (colon | (b != b':')));
        v.push(b);
    }
    string(v)
}

/// a key: any character but the separators
fn fresh(max: usize) -> String {
    any_text(max, false)
}

type Map = Vec<(String, Option<String>)>;

/// replaces or inserts keeping `m` sorted by key; gives the old value
fn put(m: &mut Map, k: &str, v: Option<String>) -> Option<String> {
    for i in 0..m.len() {
        if m[i].0 == k {
            return std::mem::replace(&mut m[i].1, v);
        }
        if m[i].0.as_str() > k {
            m.insert(i, (k.to_string(), v));
            return None;
        }
    }
    m.push((k.to_string(), v));
    None
}

fn show(m: &Map) -> String {
    let mut s = String::new();
    for i in 0..m.len() {
        if i > 0 {
            s.push('|');
        }
        s.push_str(&m[i].0);
        if let Some(v) = &m[i].1 {
            s.push(':');
            s.push_str(v);
        }
    }
    s
}

fn same(f: &Features, m: &Map) {
    check(f.inner().len() == m.len(), "number of keys");
    let mut i = 0;
    for (k, v) in f.inner().iter() {
        check(*k == m[i].0 && same_opt(v.as_deref(), m[i].1.as_deref()), "keys in order with their values");
        i += 1;
    }
    // an empty key without value has no textual form
    if m.first().map(|x| x.0.is_empty() && x.1.is_none()).unwrap_or(false) {
        return;
    }
    check(f.to_string() == show(m), "printing lists the sorted keys with their values");
}

/// parse a text made of parts.  params: parts, longest key, longest value
#[no_mangle]
pub extern "C" fn p20_parse() {
    let n = choose(param(0) + 1);
    let mut text = String::new();
    let mut m: Map = vec![];
    for i in 0..n {
        if i > 0 {
            text.push('|');
        }
        let k = fresh(param(1));
        let has = flip();
        text.push_str(&k);
        let mut v = None;
        if has {
            let x = any_text(param(2), true);
            text.push(':');
            text.push_str(&x);
            v = Some(x);
        }
        if k.is_empty() && v.is_none() {
            continue; // empty parts are ignored
        }
        put(&mut m, &k, v);
    }
    let f = Features::from(text.as_str());
    same(&f, &m);
    let printed = f.to_string();
    check(Features::from(printed.as_str()) == f, "printing and parsing gives the set back");
    check(Features::from(printed.clone()).to_string() == printed, "printing is stable");
    reach(1);
    note(1, printed.as_bytes());
}

/// a sequence of map operations.  params: operations, longest key
#[no_mangle]
pub extern "C" fn p20_ops() {
    let mut f = Features::new();
    let mut m: Map = vec![];
    for _ in 0..param(0) {
        let k = fresh(param(1));
        match choose(3) {
            0 => {
                let v = any_text(1, true);
                check(f.insert(k.clone(), Some(v.clone())) == put(&mut m, &k, Some(v)), "insertion returns the old value");
            }
            1 => check(f.insert(k.clone(), None::<String>) == put(&mut m, &k, None), "insertion returns the old value"),
            _ => {
                let mut want = None;
                for i in 0..m.len() {
                    if m[i].0 == k {
                        want = Some(m.remove(i).1);
                        break;
                    }
                }
                check(f.remove(&k) == want, "removal returns the removed value");
                reach(2);
            }
        }
    }
    let q = fresh(param(1));
    let want = m.iter().find(|x| x.0 == q).map(|x| x.1.as_deref());
    check(f.get_val(&q) == want, "lookup gives the last value");
    same(&f, &m);
    let g: Features = m.iter().rev().map(|(k, v)| (k.clone(), v.clone())).collect();
    check(g == f, "collecting the pairs gives the same set");
    reach(1);
    note(1, f.to_string().as_bytes());
}

/// many keys with longer texts, one of them symbolic.  params: keys
#[no_mangle]
pub extern "C" fn p20_many() {
    let n = param(0);
    let mut keys: Vec<String> = (0..n).map(|i| format!("{}{}", ["k", "Key", "\u{e4}", "a b"][i * 3 % 4], i * 7 % n)).collect();
    let odd = pick(n);
    keys[odd] = match choose(3) {
        0 => string(vec![b'k', byte(0x20, 0x39)]),
        1 => keys[pick(n)].clone(),
        _ => string(vec![byte(0xc3, 0xc4), byte(0x80, 0xbf)]),
    };
    let mut t = String::new();
    let mut m: Map = vec![];
    let mut f = Features::new();
    for (i, k) in keys.iter().enumerate() {
        let v = match i % 3 {
            0 => None,
            1 => Some(format!("v:{}:", i)),
            _ => Some(string(vec![0xe2, 0x82, byte(0xa0, 0xaf), byte(0x20, 0x7b)])),
        };
        t.push_str(if i > 0 { "||" } else { "" });
        t.push_str(k);
        if let Some(v) = &v {
            t.push(':');
            t.push_str(v);
        }
        check(f.insert(k.clone(), v.clone()) == put(&mut m, k, v), "insertion returns the old value");
    }
    same(&f, &m);
    let g = Features::from(t.as_str());
    same(&g, &m);
    check(g == f, "parsing and inserting agree");
    check(Features::from(f.to_string()) == f, "printing and parsing gives the set back");
    for (k, v) in m.iter() {
        check(f.get_val(k) == Some(v.as_deref()), "lookup");
    }
    let gone = pick(m.len());
    let (k, v) = m.remove(gone);
    check(f.remove(&k) == Some(v), "removal returns the removed value");
    check(f.get_val(&k).is_none() && f.remove(&k).is_none(), "removed keys are gone");
    same(&f, &m);
    reach(1);
    note(1, f.to_string().as_bytes());
}

// ---------------------------------------------------------------- P26

fn opt(s: Option<&str>) -> Option<String> {
    s.map(str::to_string)
}

fn take(m: &mut Map, k: &str) -> Option<Option<String>> {
    let i = m.iter().position(|x| x.0 == k)?;
    Some(m.remove(i).1)
}

fn as_set(f: Option<&Features>) -> Map {
    f.map(|f| f.inner().iter().map(|(k, v)| (k.clone(), v.clone())).collect()).unwrap_or_default()
}

/// a sequence of attribute changes.  params: terminals, nonterminals, changes, creation order, longest text
#[no_mangle]
pub extern "C" fn p26_set() {
    let mut g = Gen::new(param(0), param(1));
    g.in_order = param(3) == 0;
    g.chain_order = param(3) == 1;
    g.edges = 0;
    let (mut t, mut m) = gen(&g);
    let mut d = plain(&m);
    let text = |_: usize| -> String { string((0..choose(param(4) + 1)).map(|_| byte(0x20, 0x7e)).collect()) };
    let maybe = |i: usize| -> Option<String> { if flip() { Some(text(i)) } else { None } };
    // a secondary edge beside the tree
    if m.n.len() > 2 {
        let (a, b) = (m.root, (m.root + 1) % m.n.len());
        let id = t.add_secondary_edge(m.n[a].id, m.n[b].id, Some("sec"));
        m.sec.push(Sec { id, parent: a, child: b, label: Some("sec".to_string()), alive: true });
    }
    for _ in 0..param(2) {
        let i = pick(m.n.len());
        let (id, term) = (m.n[i].id, m.n[i].term);
        let mut f: Map = d.feats[i].clone().unwrap_or_default();
        match choose(8) {
            0 => {
                let l = text(0);
                let old = if flip() {
                    t[id].set_label(l.clone())
                } else if term {
                    t[id].terminal_mut().unwrap().set_label(l.clone())
                } else {
                    t[id].nonterminal_mut().unwrap().set_label(l.clone())
                };
                check(old == std::mem::replace(&mut m.n[i].label, l), "the old label is returned");
            }
            1 => {
                if term {
                    let l = text(0);
                    let old = t[id].terminal_mut().unwrap().set_form(l.clone());
                    check(old == std::mem::replace(&mut m.n[i].form, l), "the old form is returned");
                } else {
                    check(t[id].terminal_mut().is_none() && t[id].terminal().is_none(), "an inner node is no word");
                }
            }
            2 => {
                if term {
                    let l = maybe(0);
                    let old = t[id].terminal_mut().unwrap().set_lemma(l.clone());
                    check(old == std::mem::replace(&mut d.lemma[i], l), "the old lemma is returned");
                } else {
                    check(t[id].nonterminal().is_some(), "an inner node");
                }
            }
            3 => {
                let new: Option<Map> = match choose(3) {
                    0 => None,
                    1 => Some(vec![]),
                    _ => Some(vec![(sym_char(b'a', b'c'), maybe(0))]),
                };
                let set = new.as_ref().map(|m| {
                    let mut f = Features::new();
                    for (k, v) in m {
                        f.insert(k.clone(), v.clone());
                    }
                    f
                });
                let old = if flip() {
                    t[id].set_features(set)
                } else if term {
                    t[id].terminal_mut().unwrap().set_features(set)
                } else {
                    t[id].nonterminal_mut().unwrap().set_features(set)
                };
                check(as_set(old.as_ref()) == f, "the old features are returned");
                f = new.unwrap_or_default();
            }
            4 => {
                let (k, v) = (sym_char(b'a', b'c'), maybe(0));
                let old = t[id].features_mut().insert(k.clone(), v.clone());
                check(old == put(&mut f, &k, v), "the old value is returned");
            }
            5 => {
                let k = sym_char(b'a', b'c');
                let old = t[id].features_mut().remove(&k);
                check(old == take(&mut f, &k), "the removed value is returned");
            }
            6 => {
                if let Some((_, e)) = t.parent(id) {
                    let l = maybe(0);
                    let old = t[e].set_label(l.clone());
                    check(old == std::mem::replace(&mut m.n[i].edge, l), "the old edge label is returned");
                }
            }
            _ => {
                if !m.sec.is_empty() {
                    let l = maybe(0);
                    let old = t[m.sec[0].id].set_label(l.clone());
                    check(old == std::mem::replace(&mut m.sec[0].label, l), "the old edge label is returned");
                }
            }
        }
        d.feats[i] = Some(f);
    }
    check_tree(&t, &m);
    for i in 0..m.n.len() {
        let (x, node) = (&m.n[i], &t[m.n[i].id]);
        check(as_set(node.features()) == d.feats[i].clone().unwrap_or_default(), "features");
        let shown = node.to_string();
        if x.term {
            let w = node.terminal().unwrap();
            check(w.label() == x.label && w.form() == x.form, "label and form of the word");
            check(opt(w.lemma()) == d.lemma[i], "lemma");
            check(w.features() == node.features() && w.span() == node.span(), "the node shows its word's attributes");
            check(shown == format!("{} {}", x.label, x.form), "a word is shown as tag and form");
            check(node.nonterminal().is_none(), "a word is no inner node");
        } else {
            let n = node.nonterminal().unwrap();
            check(n.label() == x.label, "label of the inner node");
            check(n.features() == node.features() && n.span() == node.span(), "the node shows the inner node's attributes");
            check(shown == x.label && n.to_string() == x.label, "an inner node is shown as its label");
            check(node.terminal().is_none(), "an inner node is no word");
        }
        if let Some((_, e)) = t.parent(x.id) {
            check(t[e].to_string() == x.edge.as_deref().unwrap_or("--"), "an edge is shown as its label");
        }
        note(1, shown.as_bytes());
    }
    reach(1);
}

entries!(p26_set, p19_two, p19_attr, p20_parse, p20_ops, p20_many);
