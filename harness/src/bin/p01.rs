//! P01: every editing operation keeps the tree well formed (spans, counts, single root,
//! projectivity flag), for sequences of operations from arbitrary valid trees.
use lumberjack::{AnnotatePOS, Projectivize, Terminal, Tree, TreeOps, UnaryChains};
use petgraph::prelude::NodeIndex;
use symh::*;

fn one(v: &[NodeIndex]) -> NodeIndex {
    assume(!v.is_empty());
    v[pick(v.len())]
}

fn step(t: &mut Tree, op: usize) {
    let all: Vec<NodeIndex> = t.graph().node_indices().collect();
    let nts: Vec<NodeIndex> = t.nonterminals().collect();
    let ts: Vec<NodeIndex> = t.terminals().collect();
    match op {
        0 => {
            let p = one(&nts);
            let pos = pick(t.n_terminals() + 1);
            t.insert_terminal(p, Terminal::new("x", "X", pos));
        }
        1 => {
            let _ = t.push_terminal("y", "Y");
        }
        2 => {
            t.insert_unary_above(one(&all), "U");
        }
        3 => {
            let _ = t.insert_unary_below(one(&all), "V");
        }
        4 => {
            let _ = t.remove_node(one(&all));
        }
        5 => {
            let c = one(&all);
            let p = one(&all);
            if let Some((_, e)) = t.parent(c) {
                let _ = t.reattach_node(p, e);
            } else {
                assume(false);
            }
        }
        6 => {
            let to = pick(ts.len());
            t.move_terminal(one(&ts), to);
        }
        7 => {
            t.projectivize();
        }
        8 => {
            t.collapse_unary_chains("_").unwrap();
        }
        9 => {
            t.restore_unary_chains("_").unwrap();
        }
        10 => {
            let l = sym_char(b'A', b'C');
            t.filter_nonterminals(|t, n| t[n].label() == l).unwrap();
        }
        11 => {
            let l = sym_char(b'A', b'C');
            let _ = t.insert_intermediate(|t, n| if t[n].label() == l { Some("I".to_string()) } else { None });
        }
        12 => {
            assume(!nts.is_empty());
            let l = sym_char(b'a', b'c');
            let p = one(&nts);
            t.reattach_terminals(p, |t, n| t[n].label() == l);
        }
        13 => {
            t.annotate_pos((0..ts.len()).map(|i| lit('q', i))).unwrap();
        }
        _ => assume(false),
    }
}

/// params: terminals, nonterminals, steps, first op (or 99), general node order
#[no_mangle]
pub extern "C" fn p01_seq() {
    let mut g = Gen::new(param(0), param(1));
    g.edges = 0;
    g.lab = (b'A', b'C');
    g.form = (b'a', b'c');
    g.chain_order = param(4) == 1;
    let (mut t, _) = gen(&g);
    wf(&t);
    let steps = param(2);
    for k in 0..steps {
        let op = if k == 0 && param(3) != 99 { param(3) } else { choose(14) };
        step(&mut t, op);
        wf(&t);
    }
    if steps > 0 {
        reach(1);
    }
    note_tree(&t);
}

entries!(p01_seq);
