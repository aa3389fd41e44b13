//! P13: CoNLL-X conversion.
use conllx::graph::{Node as CNode, Sentence};
use conllx::io::{ReadSentence, Reader, Writer};
use conllx::token::{Features as CFeatures, Token};
use lumberjack::io::{Encode, ToConllx, TryFromConllx};
use lumberjack::{Features, Tree, UnaryChains, WriteTree};
use symh::*;

fn tokens(s: &Sentence) -> Vec<Token> {
    s.iter().filter_map(CNode::token).cloned().collect()
}

struct W {
    form: String,
    pos: String,
    lemma: Option<String>,
    feats: Vec<(String, Option<String>)>,
}

fn check_sentence(s: &Sentence, w: &[W]) {
    let ts = tokens(s);
    check(ts.len() == w.len(), "one token per word");
    for (t, w) in ts.iter().zip(w) {
        check(t.form() == w.form.as_str(), "form");
        check(t.pos() == Some(w.pos.as_str()), "tag");
        check(same_opt(t.lemma(), w.lemma.as_deref()), "lemma");
        match t.features() {
            None => check(w.feats.is_empty(), "features"),
            Some(f) => {
                check(f.as_map().len() == w.feats.len(), "number of features");
                for (k, v) in &w.feats {
                    check(f.as_map().get(k) == Some(v), "feature");
                }
            }
        }
    }
}

fn feats(s: &[(String, Option<String>)]) -> String {
    if s.is_empty() {
        return "_".to_string();
    }
    let mut o = String::new();
    for (i, (k, v)) in s.iter().enumerate() {
        if i > 0 {
            o.push('|');
        }
        o.push_str(k);
        if let Some(v) = v {
            o.push(':');
            o.push_str(v);
        }
    }
    o
}

fn text(w: &[W]) -> String {
    let mut s = String::new();
    for (i, w) in w.iter().enumerate() {
        s.push_str(&(i + 1).to_string());
        for f in [w.form.as_str(), w.lemma.as_deref().unwrap_or("_"), "_", w.pos.as_str(), &feats(&w.feats)] {
            s.push('\t');
            s.push_str(f);
        }
        s.push_str("\t_\t_\t_\t_\n");
    }
    s
}

/// a text of several characters without white space or characters in `not`
fn longer(not: &[u8]) -> String {
    let c = || {
        let b = byte(b'!', b'~');
        for n in not {
            assume(b != *n);
        }
        b
    };
    match choose(4) {
        0 => string(vec![c(), c()]),
        1 => string(vec![c(), 0xc3, byte(0x80, 0xbf)]),
        2 => string(vec![0xe2, 0x82, byte(0x80, 0xbf), c()]),
        _ => {
            let mut v = vec![b'x'; [5, 16, 17, 32, 33, 70][choose(6)]];
            let n = v.len();
            v[0] = c();
            v[n - 1] = c();
            string(v)
        }
    }
}

/// params: terminals, nonterminals, creation order, longer texts
#[no_mangle]
pub extern "C" fn p13_tokens() {
    let mut g = Gen::new(param(0), param(1));
    g.in_order = param(2) == 0;
    let (mut t, mut m) = gen(&g);
    let mut w = vec![];
    let k = pick(m.n_terms());
    let (lem, fe) = (flip(), choose(5));
    // one attribute of the varied word has several characters
    let long = if param(3) == 1 { choose(5) } else { 9 };
    let free = |i: usize| if i == k { sym_char(b'!', b'~') } else if dull(param(0), i) { lit('l', i) } else { sym_char(b'a', b'z') };
    for (i, n) in m.sentence().into_iter().enumerate() {
        if i == k {
            let f = if long == 0 { longer(&[]) } else { free(i) };
            let l = if long == 1 { longer(&[]) } else { free(i) };
            t[m.n[n].id].set_label(l.clone());
            t[m.n[n].id].terminal_mut().unwrap().set_form(f.clone());
            m.n[n].label = l;
            m.n[n].form = f;
        }
        let x = &m.n[n];
        let mut lemma = None;
        let mut fs: Vec<(String, Option<String>)> = vec![];
        // one word is varied, the others have distinct fixed attributes
        if i != k || lem {
            lemma = Some(if i == k && long == 2 { longer(&[]) } else { free(i) });
            t[x.id].terminal_mut().unwrap().set_lemma(lemma.clone());
        }
        match if i == k { fe } else { 2 + i % 2 } {
            0 if long == 3 => fs.push((longer(b"|:"), Some("v".to_string()))),
            0 if long == 4 => fs.push(("key".to_string(), Some(longer(b"|:")))),
            0 => (),
            1 if long == 3 => fs.push((longer(b"|:"), None)),
            1 => {
                t[x.id].set_features(Some(Features::new()));
            }
            2 => fs.push((lit('k', i), None)),
            3 => fs.push((lit('k', i), Some(sym_char(b'a', b'z')))), // (values may not contain separators)
            _ => {
                fs.push(("a".to_string(), Some(sym_char(b'a', b'z'))));
                fs.push(("b".to_string(), None));
            }
        }
        for (k, v) in fs.iter().rev() {
            t[x.id].features_mut().insert(k.clone(), v.clone());
        }
        w.push(W { form: x.form.clone(), pos: x.label.clone(), lemma, feats: fs });
    }
    let s = Sentence::from(&t);
    check_sentence(&s, &w);
    check_sentence(&t.to_conllx(), &w);
    let mut out: Vec<u8> = vec![];
    {
        let mut wr = Writer::new(&mut out);
        check(wr.write_tree(&t).is_ok(), "writing succeeds");
        check(wr.write_tree(&t).is_ok(), "writing succeeds");
    }
    let one = text(&w);
    let mut two = one.clone();
    two.push('\n');
    two.push_str(&one);
    check(out.as_slice() == two.as_bytes(), "text has one line per word, sentences separated by an empty line");
    check_tree(&t, &m);
    note(4, one.as_bytes());
    reach(1);
    let s = Sentence::from(t);
    check_sentence(&s, &w);
}

fn back(s: &Sentence, rel: bool) -> Result<Tree, failure::Error> {
    if rel {
        Tree::try_from_conllx_with_relative_encoding(s)
    } else {
        Tree::try_from_conllx_with_absolute_encoding(s)
    }
}

/// annotate, convert, convert back.  params: terminals, nonterminals, creation order, through text,
/// longer labels
#[no_mangle]
pub extern "C" fn p13_code() {
    let mut g = Gen::new(param(0), param(1));
    g.in_order = param(2) == 0;
    g.chain_order = false;
    g.disc = false;
    g.edges = 0;
    let (mut t, m) = gen(&g);
    let (mut t, mut m) = (t, m);
    if param(4) == 1 && !m.nts().is_empty() {
        // longer labels for one node, among them neighbours of the special ones
        let ns = m.nts();
        let i = ns[pick(ns.len())];
        let b = byte(0x21, 0x7e);
        assume((b != b'+') & (b != b'~') & (b != b'_') & (b != b'|'));
        let l = match choose(6) {
            0 => vec![b'N', b'O', b'N', b'E', b],
            1 => vec![b, b'N', b'O', b'N', b'E'],
            2 => vec![b'N', b'O', b, b'E', b'S'],
            3 => vec![b'D', b'U', b'M', b'M', b'Y', b],
            4 => vec![b, b],
            _ => vec![b, 0xc3, 0xa4],
        };
        let l = string(l);
        m.n[i].label = l.clone();
        t[m.n[i].id].set_label(l);
    }
    let rel = flip();
    let pre = flip();
    if pre {
        for i in m.terms() {
            t[m.n[i].id].features_mut().insert("f", Some(sym_char(b'a', b'z')));
        }
    }
    if param(4) == 2 {
        // one word with unusual form and tag
        let ws = m.terms();
        let i = ws[pick(ws.len())];
        let any = || if flip() { sym_char(b'!', b'~') } else { longer(&[]) };
        let (f, l) = (any(), any());
        m.n[i].form = f.clone();
        m.n[i].label = l.clone();
        t[m.n[i].id].set_label(l);
        t[m.n[i].id].terminal_mut().unwrap().set_form(f);
    }
    check(t.collapse_unary_chains("_").is_ok(), "collapse");
    if rel {
        t.annotate_relative().unwrap();
    } else {
        t.annotate_absolute().unwrap();
    }
    let mut s = if flip() { Sentence::from(&t) } else { Sentence::from(t.clone()) };
    if param(3) == 1 {
        let mut out: Vec<u8> = vec![];
        {
            let mut wr = Writer::new(&mut out);
            wr.write_tree(&t).unwrap();
        }
        note(4, &out);
        let mut rd = Reader::new(out.as_slice());
        let r = rd.read_sentence();
        check(r.is_ok(), "written text is CoNLL-X");
        s = match r.unwrap() {
            Some(s) => s,
            None => return check(false, "one sentence written"),
        };
        check(tokens(&s).len() == m.n_terms(), "all words are in one sentence");
    }
    let b = back(&s, rel);
    check(b.is_ok(), "annotated sentences convert back");
    expect(&b.unwrap(), &to_x(&m, m.root), false, Some("unary_chain"));
    reach(1);
}

/// is `s` a label the format defines
fn good(s: &[u8], rel: bool) -> bool {
    let mut end = s.len();
    for i in (0..s.len()).rev() {
        if s[i] == b'~' {
            end = i;
        }
    }
    let s = &s[..end];
    if s == b"NONE" {
        return true;
    }
    let mut plus = None;
    for i in 0..s.len() {
        if s[i] == b'+' {
            plus = Some(i);
        }
    }
    let p = match plus {
        None => return rel && !s.is_empty(),
        Some(p) => p,
    };
    if rel && p == 0 {
        return false;
    }
    let mut num = &s[p + 1..];
    if rel && num.len() > 1 && num[0] == b'-' {
        num = &num[1..];
    }
    if num.is_empty() {
        return false;
    }
    let mut zero = true;
    for c in num {
        if *c < b'0' || *c > b'9' {
            return false;
        }
        zero = zero && *c == b'0';
    }
    rel || !zero
}

/// arbitrary labels.  params: tokens, label bytes
#[no_mangle]
pub extern "C" fn p13_bad() {
    let n = param(0);
    let rel = flip();
    let key = if rel { "rel_ancestor" } else { "abs_ancestor" };
    let mut s = Sentence::new();
    let mut ok = n > 0;
    let odd = if n > 0 { choose(n) } else { 0 };
    for i in 0..n {
        let mut t = Token::new(sym_char(b'a', b'z'));
        if i != odd || flip() {
            t.set_pos(Some(sym_char(b'a', b'z')));
        }
        let kind = if i == odd { choose(6) } else { 5 };
        match kind {
            0 => ok = false,
            1 => {
                ok = false;
                t.set_features(Some(CFeatures::from_string(if rel { "abs_ancestor:A+1" } else { "rel_ancestor:A" })));
            }
            2 => {
                ok = false;
                t.set_features(Some(CFeatures::from_string(key)));
            }
            3 => {
                ok = false;
                t.set_features(Some(CFeatures::from_string("")));
            }
            4 => {
                let len = choose(param(1) + 1);
                let mut b = vec![];
                for _ in 0..len {
                    let c = byte(0x20, 0x7e);
                    assume((c != b'|') & ((c < b'2') | (c > b'9')));
                    b.push(c);
                }
                ok = ok && good(&b, rel);
                let mut f = String::from("x|");
                f.push_str(key);
                f.push(':');
                f.push_str(&string(b));
                t.set_features(Some(CFeatures::from_string(f)));
                reach(3);
            }
            _ => {
                let l = if i == odd { choose(5) } else { 2 };
                let mut f = String::from(key);
                f.push_str([":NONE", ":NONE~A_B", ":A+1", ":B+2~C", ":A_B+3"][l]);
                t.set_features(Some(CFeatures::from_string(f)));
            }
        }
        s.push(t);
    }
    match back(&s, rel) {
        Ok(t) => {
            check(ok, "sentences with missing or malformed labels are errors");
            wf(&t);
            let w = words_in_order(&t);
            let ts = tokens(&s);
            check(w.len() == n, "one word per token");
            for i in 0..n {
                let x = t[w[i]].terminal().unwrap();
                check(x.form() == ts[i].form() && x.label() == ts[i].pos().unwrap_or("_"), "words and tags of the tokens");
            }
            note_tree(&t);
            reach(1);
        }
        Err(_) => {
            check(!ok, "well-formed labels convert");
            reach(2);
        }
    }
}

entries!(p13_tokens, p13_code, p13_bad);
