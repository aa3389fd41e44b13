//! P21: structure queries.  P22: span queries.
use lumberjack::util::{Climber, LabelSet};
use lumberjack::{Continuity, Span, Terminal, Tree};
use petgraph::prelude::NodeIndex;
use std::cmp::Ordering;
use symh::*;

fn as_set(m: &Model, v: Vec<NodeIndex>) -> Option<Set> {
    let mut s = Set::new();
    for x in v {
        let i = m.of(x)?;
        if s.has(i) {
            return None;
        }
        s.insert(i);
    }
    Some(s)
}

fn same_set(m: &Model, got: Vec<NodeIndex>, want: &[usize]) -> bool {
    match as_set(m, got) {
        None => false,
        Some(s) => s.count() == want.len() && want.iter().all(|i| s.has(*i)),
    }
}

/// params: terminals, nonterminals, secondary edges, general order, a node inserted afterwards
#[no_mangle]
pub extern "C" fn p21_query() {
    let mut g = Gen::new(param(0), param(1));
    g.in_order = param(3) == 0;
    g.chain_order = param(3) == 1;
    let (mut t, mut m) = gen(&g);
    if m.n.len() > 1 {
        for _ in 0..param(2) {
            let p = pick(m.n.len());
            let c = pick(m.n.len());
            let l = if flip() { Some(sym_char(b'a', b'z')) } else { None };
            let id = t.add_secondary_edge(m.n[p].id, m.n[c].id, l.clone());
            m.sec.push(Sec { id, parent: p, child: c, label: l, alive: true });
        }
    }
    if param(4) == 1 {
        // a node above another one: its edge to the parent is newer than its secondary edges
        let i = pick(m.n.len());
        let id = t.insert_unary_above(m.n[i].id, "U");
        above_in_model(&mut m, i, id, "U".to_string());
    }
    check_tree(&t, &m);
    check(same_set(&m, t.terminals().collect(), &m.terms()), "terminals");
    check(same_set(&m, t.nonterminals().collect(), &m.nts()), "nonterminals");
    for i in m.alive() {
        let id = m.n[i].id;
        check(same_set(&m, t.children(id).map(|x| x.0).collect(), &m.children(i)), "children");
        for (c, e) in t.children(id) {
            check(t.graph().edge_endpoints(e) == Some((id, c)), "edge to the child");
            check(t.parent(c) == Some((id, e)), "parent is the inverse of children");
        }
        let sib: Vec<usize> = match m.n[i].parent {
            Some(p) => m.children(p).into_iter().filter(|c| *c != i).collect(),
            None => vec![],
        };
        check(same_set(&m, t.siblings(id).map(|x| x.0).collect(), &sib), "siblings");
        for (s, e) in t.siblings(id) {
            check(t.graph().edge_endpoints(e).map(|x| x.1) == Some(s), "edge to the sibling");
        }
        let below: Vec<usize> = m.terms().into_iter().filter(|w| m.dominates(i, *w)).collect();
        check(same_set(&m, t.descendent_terminals(id).collect(), &below), "words below a node");
        // path to the root
        let mut want = vec![];
        let mut c = m.n[i].parent;
        while let Some(p) = c {
            want.push(m.n[p].id);
            c = m.n[p].parent;
        }
        let (mut c1, mut c2) = (Climber::new(id, &t), Climber::new(id, &t));
        let mut below = id;
        for w in want {
            check(c1.next(&t) == Some(w), "climbing visits the ancestors bottom-up");
            match c2.next_with_edge(&t) {
                Some((p, e)) => check(p == w && t.graph().edge_endpoints(e) == Some((w, below)), "climbing returns the traversed edge"),
                None => check(false, "climbing with edges visits the ancestors"),
            }
            below = w;
        }
        check(c1.next(&t).is_none() && c2.next_with_edge(&t).is_none(), "climbing ends at the root");
        check(c1.next(&t).is_none(), "climbing stays at the root");
        // secondary edges
        let sp: Vec<usize> = m.sec.iter().filter(|s| s.child == i).map(|s| s.parent).collect();
        match t.secondary_parent(id) {
            None => check(sp.is_empty(), "secondary parent is found"),
            Some((p, e)) => {
                check(m.of(p).map(|p| sp.contains(&p)).unwrap_or(false), "secondary parent");
                check(t.graph().edge_endpoints(e) == Some((p, id)) && !t[e].is_primary(), "secondary edge");
                reach(1);
            }
        }
        let sc: Vec<usize> = m.sec.iter().filter(|s| s.parent == i).map(|s| s.child).collect();
        let mut got: Vec<usize> = vec![];
        for (c, e) in t.secondary_children(id) {
            check(t.graph().edge_endpoints(e) == Some((id, c)) && !t[e].is_primary(), "secondary edge to the child");
            got.push(m.of(c).unwrap_or(usize::MAX));
        }
        check(got.len() == sc.len() && sc.iter().all(|c| got.contains(c)), "secondary children");
        for j in m.alive() {
            let want = m.n[i].parent.is_some() && m.n[i].parent == m.n[j].parent;
            check(t.are_siblings(id, m.n[j].id) == want, "are_siblings");
        }
    }
}

#[no_mangle]
pub extern "C" fn p21_labels() {
    let all = ["a", "b", "ab", "B", ""];
    let mut set = std::collections::HashSet::new();
    let mut mask = 0;
    for i in 0..all.len() {
        if flip() {
            mask |= 1 << i;
            set.insert(all[i].to_string());
        }
    }
    let q = pick(all.len());
    let neg = flip();
    let s = if neg { LabelSet::Negative(set) } else { LabelSet::Positive(set) };
    check(s.matches(all[q]) == ((mask >> q & 1 == 1) != neg), "label sets match exactly the listed labels");
    check(s.matches("abc") == neg, "unlisted labels");
    check(s.clone().matches(all[q]) == s.matches(all[q].to_string()), "owned and borrowed queries agree");
    reach(1);
}

/// tree over `n` words with one inner node covering exactly `mask`
fn cover_tree(n: usize, mask: &Set) -> (Tree, NodeIndex) {
    let mut t = Tree::new("w", "p");
    let r0 = t.root();
    let (mut x, mut root) = (None, t.insert_unary_above(r0, "R"));
    if mask.has(0) {
        x = Some(t.insert_unary_above(r0, "X"));
    }
    for i in 1..n {
        let id = t.insert_terminal(root, Terminal::new("w", "p", i));
        if mask.has(i) {
            match x {
                None => x = Some(t.insert_unary_above(id, "X")),
                Some(x) => {
                    let (_, e) = t.parent(id).unwrap();
                    t.reattach_node(x, e).unwrap();
                }
            }
        }
    }
    // a node covering everything needs no X
    if x.is_none() {
        root = t.root();
    }
    (t, x.unwrap_or(root))
}

fn key(m: &Set) -> (usize, usize, usize) {
    (m.min(), m.end(), m.count())
}

/// all positions of `mask`, moved behind `off` others of which those in `front` are added
fn place(mask: u64, off: usize, front: std::ops::Range<usize>) -> Set {
    let mut s = Set::new();
    for i in front {
        s.insert(i);
    }
    for i in 0..8 {
        if mask >> i & 1 == 1 {
            s.insert(off + i);
        }
    }
    s
}

/// params: positions, words in front of them, which of those the two nodes cover (0 none, 1 all, 2 one node the first, 3 one node all)
#[no_mangle]
pub extern "C" fn p22_span() {
    let (k, off) = (param(0), param(1));
    let a = 1 + choose((1 << k) - 1) as u64;
    let b = 1 + choose((1 << k) - 1) as u64;
    // words in front: none, outside or inside of the node
    let n = k + off;
    let (a, b) = match param(2) {
        0 => (place(a, off, 0..0), place(b, off, 0..0)),
        1 => (place(a, off, 0..off), place(b, off, 0..off)),
        2 => (place(a, off, 0..1), place(b, off, 0..0)),
        _ => (place(a, off, 0..off), place(b, off, 0..0)),
    };
    let (ta, xa) = cover_tree(n, &a);
    let (tb, xb) = cover_tree(n, &b);
    let (sa, sb) = (ta[xa].span(), tb[xb].span());
    check(span_is(sa, &a, n), "span reports the covered positions");
    check(span_is(sb, &b, n), "span reports the covered positions");
    let mut both = a.clone();
    both.join(&b);
    check(sa.covers_span(sb) == (both == a), "covers_span is the superset relation");
    check((sa == sb) == (a == b), "spans are equal iff they cover the same positions");
    check(sa.cmp(sb) == key(&a).cmp(&key(&b)), "order by start, end, number of positions");
    check(sa.partial_cmp(sb) == Some(sa.cmp(sb)), "partial order agrees");
    let mut gaps = Set::new();
    for i in a.min()..a.end() {
        if !a.has(i) {
            gaps.insert(i);
        }
    }
    let mut seen = Set::new();
    if let Some(s) = sa.skips() {
        for i in s {
            seen.insert(*i);
        }
        reach(1);
    }
    check(seen == gaps, "skipped positions are the gaps");
    check((ta[xa].continuity() == Continuity::Continuous) == gaps.empty(), "continuity");
    if let Some(nt) = ta[xa].nonterminal() {
        check(nt.span() == sa && nt.continuity() == ta[xa].continuity(), "inner node accessors agree");
    }
    let w: Vec<NodeIndex> = ta.terminals().collect();
    for x in w {
        let term = ta[x].terminal().unwrap();
        check(ta[x].span() == &Span::from(term.idx()) && term.span().bounds() == (term.idx(), term.idx() + 1), "a word covers its position");
        check(sa.covers_span(term.span()) == a.has(term.idx()), "coverage of a word");
    }
    let c = sa.clone();
    check(&c == sa && c.cmp(sa) == Ordering::Equal, "clones are equal");
    note(1, &[sa.start as u8, sa.end as u8, sa.n_indices() as u8]);
}

/// Every subset relation survives merging and removing: params: positions, words in front of them
#[no_mangle]
pub extern "C" fn p22_edit() {
    // X covers `a`; words are moved out of and into X one by one until it covers `b`
    let (k, off) = (param(0), param(1));
    let a = 1 + choose((1 << k) - 1) as u64;
    let b = 1 + choose((1 << k) - 1) as u64;
    let n = k + off;
    assume(a & b != 0 && (off > 0 || a != (1 << n) - 1 && b != (1 << n) - 1));
    let (mut t, x) = cover_tree(n, &place(a, off, 0..0));
    let root = t.root();
    let all = place(0, 0, 0..n);
    let down = flip();
    let ws: Vec<NodeIndex> = t.terminals().collect();
    let mut cur = a;
    for i in 0..k {
        let i = if down { k - 1 - i } else { i };
        let bit = 1u64 << i;
        if cur & bit == b & bit {
            continue;
        }
        let w = ws.iter().cloned().find(|w| t[*w].terminal().unwrap().idx() == off + i).unwrap();
        let (_, e) = t.parent(w).unwrap();
        let r = if b & bit != 0 { t.reattach_node(x, e) } else { t.reattach_node(root, e) };
        if r.is_err() {
            // the last word below a node cannot move
            check(t.siblings(w).next().is_none(), "moves fail for last words only");
            return;
        }
        cur ^= bit;
        check(span_is(t[x].span(), &place(cur, off, 0..0), n), "span follows every move");
        check(span_is(t[root].span(), &all, n), "the root covers all");
        check(t.is_projective() == contiguous(cur), "projectivity follows every move");
        reach(1);
    }
    check(cur == b, "all moves applied");
}

/// Several positions leave a span at once and come back: params: positions, words in front of them
#[no_mangle]
pub extern "C" fn p22_block() {
    // X covers `a`; Z below X takes the words in `g`, is moved out of X and into it again
    let (k, off) = (param(0), param(1));
    let a = 1 + choose((1 << k) - 1) as u64;
    let g = 1 + choose((1 << k) - 1) as u64;
    let n = k + off;
    assume(a & g == g && a != g && (off > 0 || a != (1 << n) - 1));
    let (mut t, x) = cover_tree(n, &place(a, off, 0..0));
    let root = t.root();
    let all = place(0, 0, 0..n);
    let ws: Vec<NodeIndex> = t.terminals().collect();
    let mut z = None;
    for i in 0..k {
        if g >> i & 1 == 1 {
            let w = ws.iter().cloned().find(|w| t[*w].terminal().unwrap().idx() == off + i).unwrap();
            match z {
                None => z = Some(t.insert_unary_above(w, "Z")),
                Some(z) => {
                    let (_, e) = t.parent(w).unwrap();
                    t.reattach_node(z, e).unwrap();
                }
            }
        }
    }
    let z = z.unwrap();
    for (to, left) in [(root, a & !g), (x, a)] {
        let (_, e) = t.parent(z).unwrap();
        t.reattach_node(to, e).unwrap();
        check(span_is(t[x].span(), &place(left, off, 0..0), n), "the span loses and regains the positions");
        check(span_is(t[z].span(), &place(g, off, 0..0), n), "the moved span stays");
        check(span_is(t[root].span(), &all, n), "the root covers all");
        check(t.is_projective() == (contiguous(left) & contiguous(g)), "projectivity follows every move");
    }
    reach(1);
}

entries!(p21_query, p21_labels, p22_span, p22_edit, p22_block);
