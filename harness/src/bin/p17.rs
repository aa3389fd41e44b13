//! P17: ancestor projections.  P18: tag annotation.
use lumberjack::{AnnotatePOS, Features, Tree, TreeOps};
use symh::*;

fn cfg() -> Gen {
    let mut g = Gen::new(param(0), param(1));
    g.in_order = param(2) == 0;
    g.chain_order = param(2) == 1;
    g.lab = (b'A', b'C');
    g.edges = 1;
    g
}

fn feat<'a>(t: &'a Tree, m: &Model, i: usize, k: &str) -> Option<Option<&'a str>> {
    t[m.n[i].id].features().and_then(|f| f.get_val(k))
}

fn count(f: Option<&Features>) -> usize {
    f.map(|f| f.inner().len()).unwrap_or(0)
}

/// closest accepted ancestor of word `w`
fn closest(m: &Model, w: usize, ok: &dyn Fn(usize) -> bool) -> Option<usize> {
    let mut c = m.n[w].parent;
    while let Some(p) = c {
        if ok(p) {
            return Some(p);
        }
        c = m.n[p].parent;
    }
    None
}

/// params: terminals, nonterminals, general order, which projection
#[no_mangle]
pub extern "C" fn p17_project() {
    let (mut t, mut m) = gen(&cfg());
    mark(&mut t, &mut m);
    // one label of another length
    let inner = m.nts();
    if param(0) <= 3 && param(3) != 4 && !inner.is_empty() && flip() {
        let i = inner[choose(inner.len())];
        m.n[i].label = if flip() { String::new() } else { string(vec![byte(b'A', b'C'), byte(b'A', b'C')]) };
        t[m.n[i].id].set_label(m.n[i].label.clone());
    }
    let m = m;
    // words may carry other features already
    let other = sym_char(b'a', b'z');
    let pre = choose(3);
    for i in m.terms() {
        if pre > 0 {
            t[m.n[i].id].features_mut().insert("f0", Some(other.clone()));
        }
        if pre == 2 {
            t[m.n[i].id].features_mut().insert("key", Some("old"));
        }
    }
    let sel = sym_char(b'A', b'C');
    let neg = flip();
    let sentence = m.sentence();
    let ok = |i: usize| (m.n[i].label == sel) != neg;
    let got: Vec<Option<usize>> = sentence.iter().map(|w| closest(&m, *w, &ok)).collect();
    match param(3) {
        0 => {
            let v = t.project_nt_indices(|t, n| (t[n].label() == sel) != neg);
            check(v.len() == sentence.len(), "one entry per word");
            for k in 0..v.len() {
                check(v[k] == m.n[got[k].unwrap_or(m.root)].id, "closest accepted ancestor, or the root");
            }
            reach(1);
        }
        1 | 2 => {
            if param(3) == 1 {
                t.project_tag_set("key", |t, n| (t[n].label() == sel) != neg);
            } else {
                t.project_ids("key", |t, n| (t[n].label() == sel) != neg);
            }
            let mut ids: Vec<Option<usize>> = vec![];
            for k in 0..sentence.len() {
                let f = feat(&t, &m, sentence[k], "key");
                match got[k] {
                    None => {
                        check(f == if pre == 2 { Some(Some("old")) } else { None }, "no feature without accepted ancestor");
                        ids.push(None);
                        reach(3);
                    }
                    Some(a) if param(3) == 1 => {
                        check(f == Some(Some(m.n[a].label.as_str())), "label of the closest accepted ancestor");
                        reach(1);
                    }
                    Some(_) => {
                        let id = f.and_then(|x| x).and_then(|x| x.parse::<usize>().ok());
                        check(id.is_some(), "words with an accepted ancestor get a number");
                        ids.push(id);
                        reach(2);
                    }
                }
            }
            if param(3) == 2 {
                let mut distinct: Vec<usize> = vec![];
                for k in 0..ids.len() {
                    for j in 0..k {
                        if ids[k].is_some() && ids[j].is_some() {
                            check((ids[k] == ids[j]) == (got[k] == got[j]), "same number iff same ancestor");
                        }
                    }
                    if let Some(a) = got[k] {
                        if !distinct.contains(&a) {
                            distinct.push(a);
                        }
                    }
                }
                for x in ids {
                    check(x.map(|x| x < distinct.len()).unwrap_or(true), "numbers are consecutive from 0");
                }
            }
        }
        3 => {
            let r = t.annotate_parent_tag("key");
            if m.n[m.root].term {
                check(r.is_err(), "a word without parent is an error");
                return;
            }
            check(r.is_ok(), "parent tags");
            for &w in &sentence {
                check(feat(&t, &m, w, "key") == Some(Some(m.n[m.n[w].parent.unwrap()].label.as_str())), "label of the parent");
            }
            reach(1);
        }
        _ => {
            // the climber visits the ancestors bottom-up and stops where told
            let mut seen: Vec<(usize, usize)> = vec![];
            let mut bad = false;
            t.map_climber_path(|t, n, w| match (m.of(n), m.of(w)) {
                (Some(n), Some(w)) => {
                    seen.push((n, w));
                    (t[m.n[n].id].label() == sel) != neg
                }
                _ => {
                    bad = true;
                    true
                }
            });
            check(!bad, "closure is given tree nodes");
            for &w in &sentence {
                let mut want = vec![];
                let mut c = m.n[w].parent;
                while let Some(p) = c {
                    want.push(p);
                    if ok(p) {
                        break;
                    }
                    c = m.n[p].parent;
                }
                let path: Vec<usize> = seen.iter().filter(|x| x.1 == w).map(|x| x.0).collect();
                check(path == want, "ancestors bottom-up until accepted");
            }
            reach(1);
        }
    }
    for i in m.alive() {
        let f = t[m.n[i].id].features();
        if m.n[i].term {
            let has = feat(&t, &m, i, "key").is_some() as usize;
            check(count(f) == has + (pre > 0) as usize + m.n[i].mark as usize, "no other feature is added");
            check(feat(&t, &m, i, "f0") == if pre > 0 { Some(Some(other.as_str())) } else { None }, "other features are kept");
        } else {
            check(count(f) == m.n[i].mark as usize, "inner nodes are not annotated");
        }
    }
    check_tree(&t, &m);
    note_tree(&t);
}

/// params: terminals, nonterminals
#[no_mangle]
pub extern "C" fn p18_pos() {
    let mut g = Gen::new(param(0), param(1));
    g.edges = 1;
    let (mut t, mut m) = gen(&g);
    mark(&mut t, &mut m);
    let n = m.n_terms();
    let k = if n < 20 { choose(n + 2) } else { [0, n - 1, n, n + 1][choose(4)] };
    let mut tags: Vec<String> = (0..k).map(|_| sym_char(b'A', b'z')).collect();
    if k > 0 {
        // one tag of another length
        let o = if k < 20 { choose(k) } else { k * choose(2) / 2 };
        match choose(3) {
            0 => (),
            1 => tags[o] = String::new(),
            _ => tags[o] = string(vec![byte(0x20, 0x7e), byte(0x20, 0x7e), byte(0x20, 0x7e)]),
        }
    }
    let r = match choose(4) {
        0 => t.annotate_pos(tags.clone()),
        1 => t.annotate_pos(tags.iter().map(|s| s.as_str())),
        // iterators that cannot tell their length, or tell too little
        2 => {
            let mut i = tags.clone().into_iter();
            t.annotate_pos(std::iter::from_fn(move || i.next()))
        }
        _ => t.annotate_pos(tags.iter().cloned().filter(|_| true)),
    };
    if k != n {
        check(r.is_err(), "wrong number of tags is an error");
        reach(1);
        return;
    }
    check(r.is_ok(), "matching number of tags");
    for (i, w) in m.sentence().into_iter().enumerate() {
        m.n[w].label = tags[i].clone();
    }
    check_tree(&t, &m);
    reach(2);
    note_tree(&t);
}

entries!(p17_project, p18_pos);
