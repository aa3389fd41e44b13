//! Tree generator (through lumberjack's public editing API), shadow model and oracles.

use crate::sym::*;
use lumberjack::{Continuity, Edge, Node, Span, Terminal, Tree};
use petgraph::prelude::{Direction, EdgeIndex, NodeIndex};

#[derive(Clone)]
pub struct MNode {
    pub id: NodeIndex,
    pub parent: Option<usize>,
    pub term: bool,
    pub label: String,
    pub form: String,
    pub pos: usize,
    pub edge: Option<String>,
    /// the documentation leaves this node's edge label open after the last operation
    pub edge_open: bool,
    pub alive: bool,
    /// carries the lemma and the feature given by `mark`
    pub mark: bool,
}

#[derive(Clone)]
pub struct Sec {
    pub id: EdgeIndex,
    pub parent: usize,
    pub child: usize,
    pub label: Option<String>,
    pub alive: bool,
}

/// A set of sentence positions.
#[derive(Clone, PartialEq)]
pub struct Set {
    lo: u64,
    /// positions from 64 on
    hi: Vec<u64>,
}

impl Set {
    pub fn new() -> Set {
        Set { lo: 0, hi: vec![] }
    }
    pub fn of(lo: u64) -> Set {
        Set { lo, hi: vec![] }
    }
    pub fn one(i: usize) -> Set {
        let mut s = Set::new();
        s.insert(i);
        s
    }
    pub fn insert(&mut self, i: usize) {
        if i < 64 {
            self.lo |= 1 << i;
            return;
        }
        while self.hi.len() < i / 64 {
            self.hi.push(0);
        }
        self.hi[i / 64 - 1] |= 1 << (i % 64);
    }
    pub fn has(&self, i: usize) -> bool {
        if i < 64 {
            return self.lo >> i & 1 == 1;
        }
        i / 64 <= self.hi.len() && self.hi[i / 64 - 1] >> (i % 64) & 1 == 1
    }
    pub fn join(&mut self, o: &Set) {
        self.lo |= o.lo;
        for k in 0..o.hi.len() {
            if k == self.hi.len() {
                self.hi.push(0);
            }
            self.hi[k] |= o.hi[k];
        }
    }
    pub fn empty(&self) -> bool {
        self.lo == 0 && self.hi.iter().all(|x| *x == 0)
    }
    pub fn count(&self) -> usize {
        self.lo.count_ones() as usize + self.hi.iter().map(|x| x.count_ones() as usize).sum::<usize>()
    }
    /// smallest element (of a non-empty set)
    pub fn min(&self) -> usize {
        if self.lo != 0 {
            return self.lo.trailing_zeros() as usize;
        }
        for k in 0..self.hi.len() {
            if self.hi[k] != 0 {
                return 64 * (k + 1) + self.hi[k].trailing_zeros() as usize;
            }
        }
        usize::MAX
    }
    /// one more than the largest element
    pub fn end(&self) -> usize {
        for k in (0..self.hi.len()).rev() {
            if self.hi[k] != 0 {
                return 64 * (k + 2) - self.hi[k].leading_zeros() as usize;
            }
        }
        64 - self.lo.leading_zeros() as usize
    }
    pub fn contiguous(&self) -> bool {
        if self.hi.is_empty() {
            return contiguous(self.lo);
        }
        self.empty() || self.end() - self.min() == self.count()
    }
    pub fn bits(&self) -> u64 {
        assert!(self.hi.iter().all(|x| *x == 0));
        self.lo
    }
}

/// Shadow model: the labelled ordered tree the API calls are documented to produce.
#[derive(Clone)]
pub struct Model {
    pub n: Vec<MNode>,
    pub root: usize,
    pub sec: Vec<Sec>,
}

impl Model {
    pub fn add(&mut self, id: NodeIndex, parent: Option<usize>, term: bool, label: String, form: String, pos: usize) -> usize {
        self.n.push(MNode { id, parent, term, label, form, pos, edge: None, edge_open: false, alive: true, mark: false });
        self.n.len() - 1
    }
    pub fn n_terms(&self) -> usize {
        self.n.iter().filter(|x| x.alive && x.term).count()
    }
    pub fn n_nts(&self) -> usize {
        self.n.iter().filter(|x| x.alive && !x.term).count()
    }
    pub fn alive(&self) -> Vec<usize> {
        (0..self.n.len()).filter(|i| self.n[*i].alive).collect()
    }
    pub fn nts(&self) -> Vec<usize> {
        (0..self.n.len()).filter(|i| self.n[*i].alive && !self.n[*i].term).collect()
    }
    pub fn terms(&self) -> Vec<usize> {
        (0..self.n.len()).filter(|i| self.n[*i].alive && self.n[*i].term).collect()
    }
    /// terminals in sentence order
    pub fn sentence(&self) -> Vec<usize> {
        let mut v = vec![usize::MAX; self.n_terms()];
        for t in self.terms() {
            v[self.n[t].pos] = t;
        }
        v
    }
    pub fn children(&self, i: usize) -> Vec<usize> {
        (0..self.n.len()).filter(|c| self.n[*c].alive && self.n[*c].parent == Some(i)).collect()
    }
    /// is `a` an ancestor of (or equal to) `b`
    pub fn dominates(&self, a: usize, b: usize) -> bool {
        let mut c = Some(b);
        while let Some(x) = c {
            if x == a {
                return true;
            }
            c = self.n[x].parent;
        }
        false
    }
    /// set of sentence positions below node `i`
    pub fn cover(&self, i: usize) -> Set {
        let mut m = Set::new();
        for t in self.terms() {
            if self.dominates(i, t) {
                m.insert(self.n[t].pos);
            }
        }
        m
    }
    /// `cover` of every node
    pub fn covers(&self) -> Vec<Set> {
        let mut v = vec![Set::new(); self.n.len()];
        for t in self.terms() {
            let mut c = Some(t);
            while let Some(x) = c {
                v[x].insert(self.n[t].pos);
                c = self.n[x].parent;
            }
        }
        v
    }
    pub fn continuous(&self, i: usize) -> bool {
        self.cover(i).contiguous()
    }
    pub fn projective(&self) -> bool {
        let c = self.covers();
        self.nts().into_iter().all(|i| c[i].contiguous())
    }
    pub fn depth(&self, i: usize) -> usize {
        let mut d = 0;
        let mut c = self.n[i].parent;
        while let Some(x) = c {
            d += 1;
            c = self.n[x].parent;
        }
        d
    }
    /// children ordered by the leftmost position they cover
    pub fn ordered_children(&self, i: usize) -> Vec<usize> {
        let mut v: Vec<(usize, usize)> = self.children(i).into_iter().map(|c| (self.cover(c).min(), c)).collect();
        // insertion sort: tiny inputs
        for a in 1..v.len() {
            let mut b = a;
            while b > 0 && v[b - 1].0 > v[b].0 {
                v.swap(b - 1, b);
                b -= 1;
            }
        }
        v.into_iter().map(|x| x.1).collect()
    }
    /// `ordered_children` of every node
    pub fn kids(&self) -> Vec<Vec<usize>> {
        let mut first = vec![usize::MAX; self.n.len()];
        let mut kids = vec![vec![]; self.n.len()];
        for t in self.terms() {
            let mut c = Some(t);
            while let Some(x) = c {
                first[x] = first[x].min(self.n[t].pos);
                c = self.n[x].parent;
            }
        }
        for c in self.alive() {
            if let Some(p) = self.n[c].parent {
                let v: &mut Vec<usize> = &mut kids[p];
                let at = v.iter().position(|x| first[*x] > first[c]).unwrap_or(v.len());
                v.insert(at, c);
            }
        }
        kids
    }
    pub fn of(&self, id: NodeIndex) -> Option<usize> {
        (0..self.n.len()).find(|i| self.n[*i].alive && self.n[*i].id == id)
    }
}

pub fn contiguous(m: u64) -> bool {
    if m == 0 {
        return true;
    }
    let m = m >> m.trailing_zeros();
    m & m.wrapping_add(1) == 0
}

pub fn same_opt(a: Option<&str>, b: Option<&str>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a == b,
        _ => false,
    }
}

/// The span's observable queries agree with the set `m` of sentence positions.
pub fn span_is(s: &Span, m: &Set, n: usize) -> bool {
    if m.empty() {
        return false;
    }
    if s.bounds() != (m.min(), m.end()) || s.n_indices() != m.count() {
        return false;
    }
    for i in 0..n + 2 {
        if s.contains(i) != m.has(i) {
            return false;
        }
    }
    let mut k = 0;
    let mut last = None;
    for i in s {
        if !m.has(i) || last.map(|l| l >= i).unwrap_or(false) {
            return false;
        }
        last = Some(i);
        k += 1;
    }
    k == m.count() && s.skips().is_none() == m.contiguous()
}

/// The tree equals the model: node set, labels, forms, order, spans, edges, projectivity.
pub fn check_tree(t: &Tree, m: &Model) {
    let nt = m.n_terms();
    check(t.root() == m.n[m.root].id, "root node");
    check(t.n_terminals() == nt, "number of terminals");
    let mut cnt = (0, 0);
    for id in t.terminals() {
        cnt.0 += 1;
        check(m.of(id).map(|i| m.n[i].term).unwrap_or(false), "terminals() yields only tree terminals");
    }
    for id in t.nonterminals() {
        cnt.1 += 1;
        check(m.of(id).map(|i| !m.n[i].term).unwrap_or(false), "nonterminals() yields only tree nonterminals");
    }
    check(cnt == (nt, m.n_nts()), "node set");
    check(t.graph().edge_count() == nt + m.n_nts() - 1 + m.sec.iter().filter(|s| s.alive).count(), "edge count");
    let mut projective = true;
    let covers = m.covers();
    let marked = m.n.iter().any(|x| x.mark);
    for i in m.alive() {
        let x = &m.n[i];
        let node = &t[x.id];
        check(node.is_terminal() == x.term, "node kind");
        check(node.label() == x.label.as_str(), "node label");
        let cover = &covers[i];
        if let Some(term) = node.terminal() {
            check(term.form() == x.form.as_str(), "terminal form");
            check(term.idx() == x.pos, "terminal position");
            if marked {
                check(same_opt(term.lemma(), mark_of(x, 'l', i).as_deref()), "terminal lemma");
            }
        } else if !cover.contiguous() {
            projective = false;
        }
        check(has_mark(node, x, i), "node features");
        check(span_is(node.span(), cover, nt), "span covers exactly the terminals below");
        check((node.continuity() == Continuity::Continuous) == cover.contiguous(), "continuity");
        match (t.parent(x.id), x.parent) {
            (None, None) => (),
            (Some((p, e)), Some(mp)) => {
                check(p == m.n[mp].id, "parent");
                check(t[e].is_primary(), "parent edge is primary");
                if !x.edge_open {
                    check(same_opt(t[e].label(), x.edge.as_deref()), "edge label");
                } else {
                    check(t[e].label().is_none() || same_opt(t[e].label(), x.edge.as_deref()), "edge label kept or dropped");
                }
            }
            _ => check(false, "parent presence"),
        }
        let mut k = 0;
        for (c, e) in t.children(x.id) {
            k += 1;
            check(m.of(c).map(|c| m.n[c].parent == Some(i)).unwrap_or(false), "children");
            check(t[e].is_primary(), "child edge is primary");
        }
        check(k == m.children(i).len(), "number of children");
    }
    check(t.is_projective() == projective, "is_projective iff no discontinuous node");
    for s in &m.sec {
        if !s.alive {
            continue;
        }
        let ok = t.graph().edge_endpoints(s.id) == Some((m.n[s.parent].id, m.n[s.child].id));
        check(ok, "secondary edge endpoints");
        let w = &t[s.id];
        check(!w.is_primary() && same_opt(w.label(), s.label.as_deref()), "secondary edge label");
    }
}

fn mark_of(x: &MNode, c: char, i: usize) -> Option<String> {
    if x.mark {
        Some(lit(c, i))
    } else {
        None
    }
}

/// the node has the feature given by `mark` iff it should
pub fn has_mark(n: &Node, x: &MNode, i: usize) -> bool {
    let f = n.features().and_then(|f| f.get_val("mark"));
    let want = mark_of(x, 'm', i);
    f.is_some() == x.mark && same_opt(f.and_then(|f| f), want.as_deref())
}

/// Give about half of the nodes a feature, words also a lemma; `check_tree` expects them to stay.
pub fn mark(t: &mut Tree, m: &mut Model) {
    for i in 0..m.n.len() {
        if (i + i / 2) % 2 == 0 {
            m.n[i].mark = true;
            let id = m.n[i].id;
            t[id].features_mut().insert("mark", mark_of(&m.n[i], 'm', i));
            if let Some(w) = t[id].terminal_mut() {
                w.set_lemma(mark_of(&m.n[i], 'l', i));
            }
        }
    }
}

/// Model-free well-formedness of an arbitrary tree.
pub fn wf(t: &Tree) {
    let n = t.n_terminals();
    check(n >= 1, "wf: at least one terminal");
    let ids: Vec<NodeIndex> = t.graph().node_indices().collect();
    let mut seen = Set::new();
    let mut cnt = 0;
    for id in t.terminals() {
        let term = t[id].terminal().unwrap();
        cnt += 1;
        let i = term.idx();
        check(i < n, "wf: terminal position in range");
        check(!seen.has(i), "wf: terminal positions distinct");
        seen.insert(i);
        check(t.children(id).next().is_none(), "wf: terminals have no children");
    }
    check(cnt == n, "wf: n_terminals counts the terminals");
    let maxid = ids.iter().map(|i| i.index()).max().unwrap_or(0) + 1;
    let mut cover = vec![Set::new(); maxid];
    let mut rooted = true;
    for &id in &ids {
        let mut prim = 0;
        for e in t.graph().edges_directed(id, Direction::Incoming) {
            if e.weight().is_primary() {
                prim += 1;
            }
        }
        if id == t.root() {
            check(prim == 0, "wf: root has no parent");
        } else {
            check(prim == 1, "wf: exactly one parent");
        }
        // climb to the root, collecting coverage
        let pos = t[id].terminal().map(|x| x.idx());
        let mut cur = id;
        let mut steps = 0;
        loop {
            if let Some(p) = pos {
                cover[cur.index()].insert(p);
            }
            match t.parent(cur) {
                Some((p, _)) => cur = p,
                None => break,
            }
            steps += 1;
            if steps > ids.len() {
                rooted = false;
                break;
            }
        }
        rooted = rooted && cur == t.root();
    }
    check(rooted, "wf: every node is below the root");
    let mut projective = true;
    for &id in &ids {
        if !t[id].is_terminal() {
            check(t.children(id).next().is_some(), "wf: nonterminals have children");
            projective = projective && cover[id.index()].contiguous();
        }
        check(span_is(t[id].span(), &cover[id.index()], n), "wf: span covers exactly the terminals below");
    }
    check(t.is_projective() == projective, "wf: is_projective iff no discontinuous node");
}

/// very large trees (shape * 1000 + words): only some nodes carry symbolic content
pub fn dull(terms: usize, i: usize) -> bool {
    terms >= 1000 && i % 31 != 7
}

#[derive(Clone)]
pub struct Gen {
    /// number of terminals
    pub terms: usize,
    /// upper bound on nonterminals
    pub nts: usize,
    /// allow discontinuous trees
    pub disc: bool,
    /// terminals arrive in sentence order (node indices follow the sentence)
    pub in_order: bool,
    /// both creation orders of unary chains
    pub chain_order: bool,
    /// label alphabet (symbolic, inclusive); 0 = distinct concrete labels
    pub lab: (u8, u8),
    /// form / tag alphabet
    pub form: (u8, u8),
    /// edge labels: 0 none, 1 every edge has a symbolic label, 2 presence is a case split
    pub edges: usize,
    /// longest chain above one terminal
    pub max_chain: usize,
    /// forbid a bare terminal as the tree
    pub need_nt: bool,
}

impl Gen {
    pub fn new(terms: usize, nts: usize) -> Gen {
        Gen { terms, nts, disc: true, in_order: false, chain_order: true, lab: (b'A', b'Z'), form: (b'a', b'z'), edges: 1, max_chain: 9, need_nt: false }
    }
    /// large trees over small alphabets: letters in turn, so that predicates need no case split
    fn turn(&self, a: (u8, u8), i: usize) -> Option<String> {
        if dull(self.terms, i) && a.0 != 0 {
            return Some(((a.0 + (i * 5 % (a.1 - a.0 + 1) as usize) as u8) as char).to_string());
        }
        if self.terms >= 100 && a.0 != 0 && a.1 - a.0 < 5 {
            return Some(((a.0 + (i * i % 7 % (a.1 - a.0 + 1) as usize) as u8) as char).to_string());
        }
        None
    }
    fn label(&self, i: usize) -> String {
        if let Some(l) = self.turn(self.lab, i) {
            return l;
        }
        if self.lab.0 == 0 {
            lit('N', i)
        } else {
            sym_char(self.lab.0, self.lab.1)
        }
    }
    fn tag(&self, i: usize) -> String {
        if let Some(l) = self.turn(self.form, i) {
            return l;
        }
        if self.form.0 == 0 {
            lit('p', i)
        } else {
            sym_char(self.form.0, self.form.1)
        }
    }
    fn word(&self, i: usize) -> String {
        if let Some(l) = self.turn(self.form, i) {
            return l;
        }
        if self.form.0 == 0 {
            lit('w', i)
        } else {
            sym_char(self.form.0, self.form.1)
        }
    }
}

/// Arbitrary tree with `g.terms` terminals and at most `g.nts` nonterminals, built
/// bottom-up leaf by leaf; every labelled (dis)continuous tree in the bound is produced.
pub fn gen(g: &Gen) -> (Tree, Model) {
    if g.terms >= 100 {
        return big(g);
    }
    let (form, tag) = (g.word(0), g.tag(0));
    let mut t = Tree::new(form.clone(), tag.clone());
    let mut m = Model { n: vec![], root: 0, sec: vec![] };
    m.add(t.root(), None, true, tag, form, 0);
    let mut left = g.nts;
    let min = if g.terms > 1 || g.need_nt { 1 } else { 0 };
    for i in 0..g.terms {
        let ti = if i == 0 {
            0
        } else {
            let nts = m.nts();
            let p = nts[choose(nts.len())];
            let pos = if g.in_order { i } else { choose(i + 1) };
            if !g.disc {
                // adding this leaf must keep every span continuous
                let mut m2 = m.clone();
                shift(&mut m2, pos);
                m2.add(NodeIndex::new(0), Some(p), true, String::new(), String::new(), pos);
                assume(m2.projective());
            }
            let (form, tag) = (g.word(i), g.tag(i));
            let id = t.insert_terminal(m.n[p].id, Terminal::new(form.clone(), tag.clone(), pos));
            shift(&mut m, pos);
            m.add(id, Some(p), true, tag, form, pos)
        };
        let lo = if i == 0 { min } else { 0 };
        let hi = left.min(g.max_chain);
        let k = lo + choose(hi - lo + 1);
        left -= k;
        let down = g.chain_order && k >= 2 && flip();
        let mut top = ti;
        for _ in 0..k {
            let l = g.label(m.n.len());
            let at = if down { ti } else { top };
            let id = t.insert_unary_above(m.n[at].id, l.clone());
            let par = m.n[at].parent;
            let pos = m.n[at].pos;
            let ni = m.add(id, par, false, l, String::new(), pos);
            m.n[at].parent = Some(ni);
            if par.is_none() {
                m.root = ni;
            }
            if !down {
                top = ni;
            }
        }
    }
    label_edges(g, &mut t, &mut m, 1);
    (t, m)
}

fn label_edges(g: &Gen, t: &mut Tree, m: &mut Model, every: usize) {
    if g.edges > 0 {
        for i in 0..m.n.len() {
            if m.n[i].parent.is_some() {
                let l = if dull(g.terms, i) {
                    if i % 3 == 0 { None } else { Some(lit('e', i)) }
                } else if g.edges == 1 || (i % every == 0 && flip()) {
                    Some(sym_char(b'a', b'z'))
                } else {
                    None
                };
                let (_, e) = t.parent(m.n[i].id).unwrap();
                t[e].set_label(l.clone());
                m.n[i].edge = l;
            }
        }
    }
}

/// Large trees of fixed shape, `g.terms` = 100 * shape + words, or 1000 * shape + words: 1 flat, 2 right-branching, 3 left-branching,
/// 4 `g.nts` interleaved constituents, 5 balanced with at most three children, 6 flat with a chain of `g.nts` nodes above
/// one word and another above the root. Words are created in sentence order, or back to front
/// (200 words and more: mixed).
fn big(g: &Gen) -> (Tree, Model) {
    let r = if g.terms >= 1000 { 1000 } else { 100 };
    let (shape, n) = (g.terms / r, g.terms % r);
    let (form, tag) = (g.word(0), g.tag(0));
    let mut t = Tree::new(form.clone(), tag.clone());
    let mut m = Model { n: vec![], root: 0, sec: vec![] };
    m.add(t.root(), None, true, tag, form, 0);
    let mut above = |t: &mut Tree, m: &mut Model, i: usize| {
        let l = g.label(m.n.len());
        let id = t.insert_unary_above(m.n[i].id, l.clone());
        above_in_model(m, i, id, l)
    };
    let word = |t: &mut Tree, m: &mut Model, p: usize, pos: usize| {
        let (form, tag) = (g.word(m.n.len()), g.tag(m.n.len()));
        let id = t.insert_terminal(m.n[p].id, Terminal::new(form.clone(), tag.clone(), pos));
        shift(m, pos);
        m.add(id, Some(p), true, tag, form, pos)
    };
    let at = |i: usize| if g.in_order { i } else if n >= 200 { [0, i, i / 2][i % 3] } else { 0 };
    match shape {
        2 | 3 => {
            let mut top = 0;
            for i in 1..n {
                top = above(&mut t, &mut m, top);
                word(&mut t, &mut m, top, if shape == 2 { 0 } else { i });
            }
        }
        4 => {
            // the root above a first constituent, further ones below the root
            let first = above(&mut t, &mut m, 0);
            let root = above(&mut t, &mut m, first);
            let mut parts = vec![first];
            for i in 1..n {
                if parts.len() < g.nts {
                    let w = word(&mut t, &mut m, root, at(i));
                    parts.push(above(&mut t, &mut m, w));
                } else {
                    word(&mut t, &mut m, parts[i % g.nts], at(i));
                }
            }
        }
        5 => {
            let root = above(&mut t, &mut m, 0);
            let mut open = vec![root];
            let mut k = 1;
            for i in 1..n {
                // fill the oldest constituent, opening a new one at every word
                let p = open[k - 1];
                let pos = if g.disc { at(i) } else { m.cover(p).end() };
                let w = word(&mut t, &mut m, p, pos);
                if i + 2 < n {
                    let c = above(&mut t, &mut m, w);
                    open.push(c);
                }
                if i % 2 == 0 && k < open.len() {
                    k += 1;
                }
            }
        }
        _ => {
            let root = above(&mut t, &mut m, 0);
            for i in 1..n {
                let w = word(&mut t, &mut m, root, at(i));
                if shape == 6 && i == n / 2 {
                    let mut c = w;
                    for _ in 0..g.nts {
                        c = above(&mut t, &mut m, c);
                    }
                }
            }
            if shape == 6 {
                let mut c = root;
                for _ in 0..g.nts {
                    c = above(&mut t, &mut m, c);
                }
            }
        }
    }
    if !g.disc {
        assume(m.projective());
    }
    label_edges(g, &mut t, &mut m, 7);
    (t, m)
}

/// make room at sentence position `pos`
pub fn shift(m: &mut Model, pos: usize) {
    for x in m.n.iter_mut() {
        if x.alive && x.term && x.pos >= pos {
            x.pos += 1;
        }
    }
}

/// drop sentence position `pos`
pub fn unshift(m: &mut Model, pos: usize) {
    for x in m.n.iter_mut() {
        if x.alive && x.term && x.pos > pos {
            x.pos -= 1;
        }
    }
}

pub fn remove_in_model(m: &mut Model, i: usize) {
    m.n[i].alive = false;
    for s in m.sec.iter_mut() {
        if s.parent == i || s.child == i {
            s.alive = false;
        }
    }
}

/// splice nonterminal `i` out of the model (children move up, edge labels left open)
pub fn splice_in_model(m: &mut Model, i: usize) {
    let p = m.n[i].parent;
    for c in m.children(i) {
        m.n[c].parent = p;
        if p.is_some() {
            m.n[c].edge_open = true;
        } else {
            m.n[c].edge = None;
            m.root = c;
        }
    }
    remove_in_model(m, i);
}

/// new unary nonterminal above `i` in the model
pub fn above_in_model(m: &mut Model, i: usize, id: NodeIndex, label: String) -> usize {
    let par = m.n[i].parent;
    let ni = m.add(id, par, false, label, String::new(), 0);
    m.n[i].parent = Some(ni);
    if par.is_none() {
        m.root = ni;
    }
    ni
}

pub fn edge_eq(e: &Edge, primary: bool, label: Option<&str>) -> bool {
    e.is_primary() == primary && same_opt(e.label(), label)
}

pub fn node_is(n: &Node, x: &MNode) -> bool {
    n.is_terminal() == x.term
        && n.label() == x.label.as_str()
        && n.terminal().map(|t| t.form() == x.form.as_str() && t.idx() == x.pos).unwrap_or(true)
}

fn num(b: &mut Vec<u8>, i: usize) {
    if i < 200 {
        b.push(b'0' + i as u8);
    } else {
        b.extend_from_slice(&[255, (i / 200) as u8, (i % 200) as u8]);
    }
}

/// record the tree's observable structure as an output of the path
pub fn note_tree(t: &Tree) {
    let mut b = vec![];
    for id in t.graph().node_indices() {
        b.push(b'n');
        num(&mut b, id.index());
        b.push(if t[id].is_terminal() { b't' } else { b'i' });
        b.extend_from_slice(t[id].label().as_bytes());
        b.push(b'^');
        match t.parent(id) {
            Some((p, e)) => {
                num(&mut b, p.index());
                b.extend_from_slice(t[e].label().unwrap_or("-").as_bytes());
            }
            None => b.push(b'-'),
        }
        b.push(b'[');
        for i in t[id].span() {
            num(&mut b, i);
        }
        b.push(b']');
    }
    note(1, &b);
}

/// An expected tree, compared with a real one by `expect`.
#[derive(Clone)]
pub struct X {
    pub term: bool,
    pub label: String,
    pub form: String,
    pub pos: usize,
    pub edge: Option<String>,
    /// value of the feature the caller looks at
    pub ann: Option<String>,
    pub kids: Vec<X>,
}

impl X {
    pub fn cover(&self) -> Set {
        let mut s = Set::new();
        self.cover_into(&mut s);
        s
    }
    fn cover_into(&self, s: &mut Set) {
        if self.term {
            s.insert(self.pos);
        }
        for k in &self.kids {
            k.cover_into(s);
        }
    }
    pub fn size(&self) -> usize {
        1 + self.kids.iter().map(X::size).sum::<usize>()
    }
    pub fn words(&self) -> usize {
        self.cover().count()
    }
    pub fn leaf(form: String, label: String, pos: usize) -> X {
        X { term: true, label, form, pos, edge: None, ann: None, kids: vec![] }
    }
    pub fn inner(label: String, kids: Vec<X>) -> X {
        X { term: false, label, form: String::new(), pos: 0, edge: None, ann: None, kids }
    }
}

pub fn to_x(m: &Model, i: usize) -> X {
    to_x_with(m, i, &mut |_, _| ())
}

/// the expected tree below `i`, each node adapted by `f`
pub fn to_x_with(m: &Model, i: usize, f: &mut dyn FnMut(usize, &mut X)) -> X {
    let kids = m.kids();
    x_below(m, i, &kids, f)
}

fn x_below(m: &Model, i: usize, kids: &[Vec<usize>], f: &mut dyn FnMut(usize, &mut X)) -> X {
    let n = &m.n[i];
    let mut x = X {
        term: n.term,
        label: n.label.clone(),
        form: n.form.clone(),
        pos: n.pos,
        edge: n.edge.clone(),
        ann: None,
        kids: vec![],
    };
    x.kids = kids[i].iter().map(|c| x_below(m, *c, kids, f)).collect();
    f(i, &mut x);
    x
}

/// drop unary inner nodes, recording their labels bottom-up in `ann`
pub fn collapse(x: &X, delim: &str) -> X {
    let mut chain: Vec<&str> = vec![];
    let mut c = x;
    while !c.term && c.kids.len() == 1 {
        chain.push(&c.label);
        c = &c.kids[0];
    }
    let mut r = c.clone();
    r.edge = x.edge.clone();
    r.kids = c.kids.iter().map(|k| collapse(k, delim)).collect();
    if !chain.is_empty() {
        chain.reverse();
        r.ann = Some(chain.join(delim));
    }
    r
}

/// The tree is exactly `x`: structure, order, words, tags, labels, spans, edge labels
/// (if `edges`) and the value of feature `key`.
pub fn expect(t: &Tree, x: &X, edges: bool, key: Option<&str>) {
    check(t.graph().node_count() == x.size(), "number of nodes");
    check(t.n_terminals() == x.words(), "number of words");
    check(t.parent(t.root()).is_none(), "root has no parent");
    expect_node(t, t.root(), x, edges, key, t.n_terminals());
    // projectivity
    check(t.is_projective() == all_cont(x), "projectivity");
}

pub fn all_cont(x: &X) -> bool {
    x.cover().contiguous() && x.kids.iter().all(all_cont)
}

fn expect_node(t: &Tree, id: NodeIndex, x: &X, edges: bool, key: Option<&str>, n: usize) {
    let node = &t[id];
    check(node.is_terminal() == x.term, "node kind");
    check(node.label() == x.label.as_str(), "label");
    if let Some(w) = node.terminal() {
        check(w.form() == x.form.as_str(), "word");
        check(w.idx() == x.pos, "word position");
    }
    check(span_is(node.span(), &x.cover(), n), "span");
    if let Some(k) = key {
        let v = node.features().and_then(|f| f.get_val(k));
        check(v == x.ann.as_ref().map(|a| Some(a.as_str())), "annotation");
    }
    let mut kids: Vec<(NodeIndex, EdgeIndex)> = t.children(id).collect();
    check(kids.len() == x.kids.len(), "number of children");
    for a in 1..kids.len() {
        let mut b = a;
        while b > 0 && t[kids[b - 1].0].span().start > t[kids[b].0].span().start {
            kids.swap(b - 1, b);
            b -= 1;
        }
    }
    for (k, (c, e)) in kids.into_iter().enumerate() {
        check(t.parent(c).map(|p| p.0) == Some(id), "parent of child");
        check(t[e].is_primary(), "child edge is primary");
        if edges {
            check(same_opt(t[e].label(), x.kids[k].edge.as_deref()), "edge label");
        }
        expect_node(t, c, &x.kids[k], edges, key, n);
    }
}

/// Model of an existing tree (read through the public API).
pub fn from_tree(t: &Tree) -> Model {
    let ids: Vec<NodeIndex> = t.graph().node_indices().collect();
    let mut m = Model { n: vec![], root: 0, sec: vec![] };
    for &id in &ids {
        let x = &t[id];
        let (form, pos) = x.terminal().map(|w| (w.form().to_string(), w.idx())).unwrap_or_default();
        m.add(id, None, x.is_terminal(), x.label().to_string(), form, pos);
    }
    for i in 0..ids.len() {
        if ids[i] == t.root() {
            m.root = i;
        }
        if let Some((p, e)) = t.parent(ids[i]) {
            m.n[i].parent = ids.iter().position(|x| *x == p);
            m.n[i].edge = t[e].label().map(|s| s.to_string());
        }
    }
    m
}

/// terminals of the tree by sentence position
pub fn words_in_order(t: &Tree) -> Vec<NodeIndex> {
    let mut v: Vec<NodeIndex> = t.terminals().collect();
    for a in 1..v.len() {
        let mut b = a;
        while b > 0 && t[v[b - 1]].span().start > t[v[b]].span().start {
            v.swap(b - 1, b);
            b -= 1;
        }
    }
    v
}
