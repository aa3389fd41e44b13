//! P14: filtering removes exactly the rejected inner nodes.  P15: intermediate nodes.
//! P16: reattaching words.
use lumberjack::TreeOps;
use symh::*;

fn cfg() -> Gen {
    let mut g = Gen::new(param(0), param(1));
    g.in_order = param(2) == 0;
    g.chain_order = param(2) == 1;
    g.lab = (b'A', b'C');
    g.form = (b'a', b'c');
    g.edges = 1;
    g
}

/// params: terminals, nonterminals, general order
#[no_mangle]
pub extern "C" fn p14_filter() {
    let (mut t, mut m) = gen(&cfg());
    mark(&mut t, &mut m);
    let m = m;
    let (a, b) = (sym_char(b'A', b'C'), sym_char(b'A', b'C'));
    let r = t.filter_nonterminals(|t, n| {
        check(!t[n].is_terminal(), "predicate is asked about inner nodes");
        t[n].label() == a || t[n].label() == b
    });
    check(r.is_ok(), "filtering succeeds");
    let mut want = m.clone();
    for i in m.nts() {
        if i != m.root && m.n[i].label != a && m.n[i].label != b {
            splice_in_model(&mut want, i);
            reach(1);
        }
    }
    check_tree(&t, &want);
    note_tree(&t);
}

/// The selector depends on the label only; the new label is `with`.
/// params: terminals, nonterminals, general order
#[no_mangle]
pub extern "C" fn p15_insert() {
    let (mut t, mut m) = gen(&cfg());
    mark(&mut t, &mut m);
    let m = m;
    let sel = sym_char(b'A', b'C');
    let neg = flip();
    let with = sym_char(b'A', b'C');
    let r = t.insert_intermediate(|t, n| if (t[n].label() == sel) != neg { Some(with.clone()) } else { None });
    if m.n[m.root].term {
        check(r.is_err(), "a word without parent is an error");
        reach(2);
        return;
    }
    check(r.is_ok(), "insertion succeeds");
    let mut want = m.clone();
    for p in m.nts() {
        if (m.n[p].label == sel) == neg {
            continue;
        }
        let mut ts: Vec<usize> = m.ordered_children(p).into_iter().filter(|c| m.n[*c].term).collect();
        ts.push(usize::MAX);
        let mut run: Vec<usize> = vec![];
        for c in ts {
            let adjacent = c != usize::MAX && run.last().map(|l| m.n[*l].pos + 1 == m.n[c].pos).unwrap_or(false);
            if !run.is_empty() && !adjacent {
                // all words of the run share one new node below `p`
                let id = match t.parent(m.n[run[0]].id) {
                    Some((id, _)) => id,
                    None => return check(false, "words keep a parent"),
                };
                check(m.of(id).is_none(), "a new node is inserted above the run");
                let ni = want.add(id, Some(p), false, with.clone(), String::new(), 0);
                want.n[ni].edge_open = true;
                for x in run.drain(..) {
                    want.n[x].parent = Some(ni);
                    want.n[x].edge_open = true;
                    reach(1);
                }
            }
            if c != usize::MAX {
                run.push(c);
            }
        }
    }
    check_tree(&t, &want);
    note_tree(&t);
}

/// params: terminals, nonterminals, general order
#[no_mangle]
pub extern "C" fn p16_reattach() {
    let mut g = cfg();
    g.need_nt = true;
    let (mut t, mut m) = gen(&g);
    mark(&mut t, &mut m);
    let m = m;
    let l = sym_char(b'a', b'c');
    let neg = flip();
    let nts = m.nts();
    let at = nts[pick(nts.len())];
    t.reattach_terminals(m.n[at].id, |t, n| {
        check(t[n].is_terminal(), "predicate is asked about words");
        (t[n].label() == l) != neg
    });
    let mut want = m.clone();
    for x in m.terms() {
        if (m.n[x].label == l) != neg {
            want.n[x].parent = Some(at);
            want.n[x].edge = None;
            // "reattaches with an empty edge"; a word already below the attachment may keep its label
            if m.n[x].parent == Some(at) {
                want.n[x].edge = m.n[x].edge.clone();
                want.n[x].edge_open = true;
            }
            reach(1);
        }
    }
    // inner nodes left without words disappear
    for i in m.nts() {
        if want.cover(i).empty() {
            check(i != at, "the attachment node keeps words");
            want.n[i].alive = false;
            reach(2);
        }
    }
    if m.n[m.root].alive && !want.n[m.root].alive {
        check(false, "the root dominates all words");
    }
    // a node whose siblings vanished may still hang off the same parent: parents are unchanged
    check_tree(&t, &want);
    note_tree(&t);
}

entries!(p14_filter, p15_insert, p16_reattach);
