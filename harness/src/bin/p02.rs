//! P02: each editing operation changes exactly what it documents; Err leaves the tree alone.
use symh::*;
use lumberjack::{Terminal, Tree};

fn cfg() -> Gen {
    let mut g = Gen::new(param(1), param(2));
    g.edges = 1;
    g
}

/// params: op, terminals, max nonterminals
#[no_mangle]
pub extern "C" fn p02_op() {
    let g = cfg();
    let (mut t, mut m) = gen(&g);
    mark(&mut t, &mut m);
    check_tree(&t, &m);
    if m.n.len() > 1 && param(3) == 1 {
        // one secondary edge between arbitrary nodes
        let nts = m.nts();
        let p = nts[pick(nts.len())];
        let c = pick(m.n.len());
        let l = sym_char(b'a', b'z');
        let id = t.add_secondary_edge(m.n[p].id, m.n[c].id, Some(l.clone()));
        m.sec.push(Sec { id, parent: p, child: c, label: Some(l), alive: true });
    }
    apply(param(0), &mut t, &mut m);
    check_tree(&t, &m);
}

fn apply(op: usize, t: &mut Tree, m: &mut Model) {
    match op {
        0 => {
            let nts = m.nts();
            assume(!nts.is_empty());
            let p = nts[pick(nts.len())];
            let pos = pick(m.n_terms() + 1);
            let (f, l) = (sym_char(b'a', b'z'), sym_char(b'a', b'z'));
            let id = t.insert_terminal(m.n[p].id, Terminal::new(f.clone(), l.clone(), pos));
            shift(m, pos);
            m.add(id, Some(p), true, l, f, pos);
            reach(1);
        }
        1 => {
            let (f, l) = (sym_char(b'a', b'z'), sym_char(b'a', b'z'));
            match t.push_terminal(f.clone(), l.clone()) {
                Ok(id) => {
                    check(!m.n[m.root].term, "push_terminal: Err if the root is a terminal");
                    let (r, n) = (m.root, m.n_terms());
                    m.add(id, Some(r), true, l, f, n);
                    reach(1);
                }
                Err(_) => {
                    check(m.n[m.root].term, "push_terminal: Ok if the root is a nonterminal");
                    reach(2);
                }
            }
        }
        2 => {
            let i = pick(m.n.len());
            let l = sym_char(b'A', b'Z');
            let id = t.insert_unary_above(m.n[i].id, l.clone());
            let had_parent = m.n[i].parent.is_some();
            let ni = above_in_model(m, i, id, l);
            // "returns the index of the inserted node": the old edge stays on the child
            m.n[i].edge_open = had_parent;
            let _ = ni;
            reach(1);
        }
        3 => {
            let i = pick(m.n.len());
            let l = sym_char(b'A', b'Z');
            match t.insert_unary_below(m.n[i].id, l.clone()) {
                Ok(id) => {
                    check(!m.n[i].term, "insert_unary_below: Err on terminals");
                    let ch = m.children(i);
                    let ni = m.add(id, Some(i), false, l, String::new(), 0);
                    for c in ch {
                        m.n[c].parent = Some(ni);
                        m.n[c].edge_open = true;
                    }
                    reach(1);
                }
                Err(_) => {
                    check(m.n[i].term, "insert_unary_below: Ok on nonterminals");
                    reach(2);
                }
            }
        }
        4 => {
            let i = pick(m.n.len());
            let legal = if m.n[i].term {
                m.n[i].parent.map(|p| m.children(p).len() > 1).unwrap_or(false)
            } else {
                m.n[i].parent.is_some() || m.children(i).len() == 1
            };
            match t.remove_node(m.n[i].id) {
                Ok(n) => {
                    check(legal, "remove_node: Err when the structure would break");
                    check(node_is(&n, &m.n[i]) && has_mark(&n, &m.n[i], i), "remove_node: returns the removed node");
                    if m.n[i].term {
                        let pos = m.n[i].pos;
                        remove_in_model(m, i);
                        unshift(m, pos);
                        reach(1);
                    } else {
                        splice_in_model(m, i);
                        reach(2);
                    }
                }
                Err(_) => {
                    check(!legal, "remove_node: Ok when the structure stays intact");
                    reach(3);
                }
            }
        }
        5 => {
            let i = pick(m.n.len());
            assume(m.n[i].parent.is_some());
            let p = pick(m.n.len());
            let (old, e) = t.parent(m.n[i].id).unwrap();
            let oldp = m.n[i].parent.unwrap();
            check(old == m.n[oldp].id, "parent");
            let legal = !m.n[p].term && !m.dominates(i, p) && (p == oldp || m.children(oldp).len() > 1);
            match t.reattach_node(m.n[p].id, e) {
                Ok((ne, oe)) => {
                    check(legal, "reattach_node: Err when the structure would break");
                    check(edge_eq(&oe, true, m.n[i].edge.as_deref()), "reattach_node: returns the old edge");
                    m.n[i].parent = Some(p);
                    m.n[i].edge = None;
                    check(t.parent(m.n[i].id) == Some((m.n[p].id, ne)), "reattach_node: returns the new edge's index");
                    reach(1);
                }
                Err(_) => {
                    check(!legal, "reattach_node: Ok when the structure stays intact");
                    reach(2);
                }
            }
        }
        6 => {
            let ts = m.terms();
            let i = ts[pick(ts.len())];
            let to = pick(ts.len());
            t.move_terminal(m.n[i].id, to);
            let from = m.n[i].pos;
            m.n[i].pos = usize::MAX - 1;
            unshift_except(m, i, from);
            shift_except(m, i, to);
            m.n[i].pos = to;
            reach(1);
        }
        7 => {
            // secondary edges: reattach, remove
            assume(!m.sec.is_empty());
            let e = m.sec[0].id;
            if flip() {
                let p = pick(m.n.len());
                assume(!m.n[p].term);
                match t.reattach_node(m.n[p].id, e) {
                    Ok((ne, oe)) => {
                        check(edge_eq(&oe, false, m.sec[0].label.as_deref()), "reattach_node: returns the old secondary edge");
                        check(p != m.sec[0].child, "reattach_node: Err when attaching a node to itself");
                        m.sec[0] = Sec { id: ne, parent: p, child: m.sec[0].child, label: None, alive: true };
                        reach(1);
                    }
                    Err(_) => {
                        check(p == m.sec[0].child, "reattach_node: Ok for secondary edges");
                        reach(2);
                    }
                }
            } else {
                if flip() {
                    match t.remove_secondary_edge(e) {
                        Some(w) => {
                            check(edge_eq(&w, false, m.sec[0].label.as_deref()), "remove_secondary_edge: returns the edge");
                            m.sec[0].alive = false;
                        }
                        None => check(false, "remove_secondary_edge: removes secondary edges"),
                    }
                    reach(3);
                } else {
                    // primary edges are not removable this way
                    let i = pick(m.n.len());
                    assume(m.n[i].parent.is_some());
                    let (_, pe) = t.parent(m.n[i].id).unwrap();
                    check(t.remove_secondary_edge(pe).is_none(), "remove_secondary_edge: None for primary edges");
                    reach(4);
                }
            }
        }
        _ => assume(false),
    }
}

fn unshift_except(m: &mut Model, i: usize, pos: usize) {
    for (k, x) in m.n.iter_mut().enumerate() {
        if k != i && x.alive && x.term && x.pos > pos {
            x.pos -= 1;
        }
    }
}
fn shift_except(m: &mut Model, i: usize, pos: usize) {
    for (k, x) in m.n.iter_mut().enumerate() {
        if k != i && x.alive && x.term && x.pos >= pos {
            x.pos += 1;
        }
    }
}

entries!(p02_op);
