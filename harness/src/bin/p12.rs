//! P12: collapsing unary chains records exactly the removed labels, restoring brings them back.
use lumberjack::{Tree, UnaryChains};
use symh::*;

/// labels of the unary chain directly above `i`, bottom-up
fn chain_above(m: &Model, i: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut c = m.n[i].parent;
    while let Some(p) = c {
        if m.children(p).len() != 1 {
            break;
        }
        v.push(p);
        c = m.n[p].parent;
    }
    v
}

fn collapsed(m: &Model) -> (Model, Vec<(usize, Vec<String>)>) {
    let mut r = m.clone();
    let mut rec = vec![];
    for i in m.alive() {
        if !m.n[i].term && m.children(i).len() == 1 {
            continue;
        }
        let ch = chain_above(m, i);
        rec.push((i, ch.iter().map(|c| m.n[*c].label.clone()).collect()));
        for c in ch {
            splice_in_model(&mut r, c);
        }
    }
    (r, rec)
}

fn feature_is(t: &Tree, m: &Model, rec: &[(usize, Vec<String>)], delim: &str) {
    for (i, labels) in rec {
        let f = t[m.n[*i].id].features().and_then(|f| f.get_val("unary_chain"));
        if labels.is_empty() {
            check(f.is_none(), "nodes without chain carry no chain annotation");
        } else {
            let want = labels.join(delim);
            check(f == Some(Some(want.as_str())), "chain annotation lists the removed labels bottom-up");
            reach(1);
        }
    }
}

/// params: terminals, nonterminals, general order, longest chain, delimiter,
/// one node with an unusual label
#[no_mangle]
pub extern "C" fn p12_chain() {
    let mut g = Gen::new(param(0), param(1));
    g.in_order = param(2) == 0;
    g.chain_order = param(2) == 1;
    g.max_chain = param(3);
    g.edges = 0;
    let delim = match param(4) {
        0 => "_".to_string(),
        1 => "::".to_string(),
        2 => "ab".to_string(),
        _ => sym_char(b'!', b'/'),
    };
    let (mut t, mut m) = gen(&g);
    mark(&mut t, &mut m);
    if param(5) > 0 && m.n_nts() > 0 {
        // unusual labels: empty, or of several characters
        let nts = m.nts();
        let i = nts[pick(nts.len())];
        let l = if param(5) == 1 { String::new() } else { sym_char(b'0', b'9') + &sym_char(b'0', b'9') + "\u{e4}" };
        t[m.n[i].id].set_label(l.clone());
        m.n[i].label = l;
    }
    let m = m;
    let (c, rec) = collapsed(&m);
    t.collapse_unary_chains(&delim).unwrap();
    check_tree(&t, &c);
    feature_is(&t, &m, &rec, &delim);
    for i in c.nts() {
        check(t.children(c.n[i].id).count() > 1, "no unary node is left");
    }
    note_tree(&t);
    // nothing left to collapse
    t.collapse_unary_chains(&delim).unwrap();
    check_tree(&t, &c);
    feature_is(&t, &m, &rec, &delim);
    t.restore_unary_chains(&delim).unwrap();
    // the removed nodes come back under new indices
    let mut r = c.clone();
    for (i, labels) in rec {
        let mut at = i;
        for l in labels {
            let id = match t.parent(r.n[at].id) {
                Some((p, _)) => p,
                None => return check(false, "restored chain is complete"),
            };
            at = above_in_model(&mut r, at, id, l);
        }
        check(t[m.n[i].id].features().and_then(|f| f.get_val("unary_chain")).is_none(), "annotation is consumed");
    }
    for i in r.alive() {
        r.n[i].edge_open = true;
    }
    check_tree(&t, &r);
    reach(2);
    note_tree(&t);
}

/// a restored chain: one node per recorded label above node `i`, lowest first
fn restored(t: &Tree, r: &mut Model, i: usize, labels: &[String]) {
    let mut at = i;
    for l in labels {
        let id = match t.parent(r.n[at].id) {
            Some((p, _)) => p,
            None => return check(false, "restored chain is complete"),
        };
        check(r.of(id).is_none(), "restored nodes are new");
        at = above_in_model(r, at, id, l.clone());
    }
}

/// Recorded chains on any nodes of any tree, also next to existing unary chains.
/// params: terminals, nonterminals, general order, delimiter, longest recorded chain
#[no_mangle]
pub extern "C" fn p12_restore() {
    let mut g = Gen::new(param(0), param(1));
    g.in_order = param(2) == 0;
    g.chain_order = false;
    g.edges = 0;
    let delim = ["_", "::"][param(3)];
    let (mut t, mut m) = gen(&g);
    mark(&mut t, &mut m);
    let a = pick(m.n.len());
    let b = pick(m.n.len());
    let mut rec: Vec<(usize, Vec<String>)> = vec![];
    let mut broken = false;
    for i in if a == b { vec![a] } else { vec![a, b] } {
        let n = 1 + choose(param(4));
        let labels: Vec<String> = (0..n).map(|k| if k == 1 { String::new() } else { sym_char(b'A', b'Z') }).collect();
        let v = if i == a && b == 0 && flip() {
            broken = true;
            None
        } else {
            Some(labels.join(delim))
        };
        t[m.n[i].id].features_mut().insert("unary_chain", v);
        rec.push((i, labels));
    }
    let r = t.restore_unary_chains(delim);
    if broken {
        check(r.is_err(), "a chain annotation without value is an error");
        reach(2);
        return;
    }
    check(r.is_ok(), "restoring succeeds");
    let mut r = m.clone();
    for (i, labels) in &rec {
        restored(&t, &mut r, *i, labels);
        check(t[m.n[*i].id].features().and_then(|f| f.get_val("unary_chain")).is_none(), "annotation is consumed");
    }
    for i in r.alive() {
        r.n[i].edge_open = true;
    }
    check_tree(&t, &r);
    reach(1);
    note_tree(&t);
}

/// Collapsing a tree that has been collapsed before and has since grown another unary node.
/// params: terminals, nonterminals, general order, delimiter
#[no_mangle]
pub extern "C" fn p12_again() {
    let mut g = Gen::new(param(0), param(1));
    g.in_order = param(2) == 0;
    g.chain_order = false;
    g.edges = 0;
    let delim = ["_", "::"][param(3)];
    let (mut t, mut m) = gen(&g);
    mark(&mut t, &mut m);
    let (mut c, mut rec) = collapsed(&m);
    t.collapse_unary_chains(delim).unwrap();
    let on = c.alive();
    let i = on[pick(on.len())];
    let l = sym_char(b'A', b'Z');
    let id = t.insert_unary_above(c.n[i].id, l.clone());
    let ni = above_in_model(&mut c, i, id, l.clone());
    t.collapse_unary_chains(delim).unwrap();
    splice_in_model(&mut c, ni);
    for (k, v) in rec.iter_mut() {
        if *k == i {
            v.push(l.clone());
        }
    }
    for x in c.alive() {
        c.n[x].edge_open = true;
    }
    check_tree(&t, &c);
    feature_is(&t, &c, &rec, delim);
    t.restore_unary_chains(delim).unwrap();
    for (i, labels) in &rec {
        restored(&t, &mut c, *i, labels);
    }
    for i in c.alive() {
        c.n[i].edge_open = true;
    }
    check_tree(&t, &c);
    reach(2);
    note_tree(&t);
}

entries!(p12_chain, p12_restore, p12_again);
