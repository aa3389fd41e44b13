//! P03: projectivization fills the gaps of discontinuous nodes and changes nothing else.
use lumberjack::{Projectivize, Terminal};
use symh::*;

/// params: terminals, nonterminals, general node order, edge label mode
#[no_mangle]
pub extern "C" fn p03_proj() {
    let mut g = Gen::new(param(0), param(1));
    g.in_order = param(2) == 0;
    g.chain_order = false;
    g.edges = param(3);
    g.need_nt = true;
    let (mut t, mut m) = gen(&g);
    mark(&mut t, &mut m);
    let orig = m.clone();
    // a second instance of the same tree whose position sets are hashed differently
    let mut u = t.clone();
    let (root, n) = (u.root(), u.n_terminals());
    if !m.n[m.root].term {
        let x = u.insert_terminal(root, Terminal::new("x", "X", n));
        u.remove_node(x).unwrap();
    }
    let was_projective = m.projective();
    match t.projectivize() {
        None => {
            check(was_projective, "discontinuous trees are projectivized");
            reach(1);
        }
        Some(moved) => {
            check(!was_projective, "projective trees are reported as such");
            for k in 0..moved.len() {
                let (parent, ref edge, child) = moved[k];
                let (p, c) = match (m.of(parent), m.of(child)) {
                    (Some(p), Some(c)) => (p, c),
                    _ => return check(false, "moved nodes are tree nodes"),
                };
                check(m.n[c].parent == Some(p), "listed parent is the former parent");
                check(edge_eq(edge, true, orig.n[c].edge.as_deref()), "listed edge is the former edge");
                // where did it go: its parent at the next move, or its parent in the result
                let next = (k + 1..moved.len()).find(|j| moved[*j].2 == child).map(|j| moved[j].0);
                let to = next.or(t.parent(child).map(|x| x.0)).and_then(|x| m.of(x));
                let d = match to {
                    Some(d) if !m.n[d].term => d,
                    _ => return check(false, "moved nodes go below inner nodes"),
                };
                let (cd, cc) = (m.cover(d), m.cover(c));
                let gap = (cd.min()..cd.end()).any(|i| !cd.has(i) && cc.has(i));
                check(gap, "moved content lies in a gap of the new parent");
                check(m.dominates(p, d) && !m.dominates(c, d), "the largest constituent not containing the new parent moves");
                m.n[c].parent = Some(d);
                reach(2);
            }
            if moved.len() >= 3 {
                reach(3);
            }
        }
    }
    check(m.projective(), "result is projective");
    check(t.is_projective(), "result reports itself projective");
    check_tree(&t, &m);
    // independent of hash order
    let second = u.projectivize();
    check(second.is_none() == was_projective, "second run agrees");
    for i in m.alive() {
        check(u.parent(m.n[i].id).map(|x| x.0) == t.parent(m.n[i].id).map(|x| x.0), "result does not depend on hash order");
    }
    note_tree(&t);
}

entries!(p03_proj);
