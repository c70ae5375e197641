//! C11, C12: edits of the child list against an ordered list; removal by predicate.
use crate::m::*;
use crate::{g, sym};
use kiss_xml::dom::*;
use kiss_xml::errors::IndexOutOfBounds;

fn txt(s: &str) -> M {
    M::T(s.to_string())
}
/// the reference list: what the children must be after each operation
fn settle(k: &mut Vec<M>) {
    let n = normalize(k);
    *k = n;
}
fn starts(w: usize) -> Vec<M> {
    match w {
        0 => vec![],
        1 => vec![txt("a")],
        2 => vec![txt("a"), el("b").m(), txt("c")],
        3 => vec![el("b").m(), M::C("c".to_string())],
        4 => vec![el("b").kid(txt("i")).m(), txt(" t "), M::D("d".to_string()), txt("u"), el("e").m()],
        _ => vec![M::C("c".to_string()), txt("x"), M::C("d".to_string()), txt("y")],
    }
}
/// a new node: text of symbolic content (blank or not), empty text, an element, a comment, CDATA
fn fresh(kinds: usize, uni: bool) -> M {
    match sym::choice(kinds) {
        0 => {
            let mut s = String::new();
            if uni {
                g::uni(&mut s);
            } else {
                g::ascii(&mut s);
            }
            M::T(s)
        }
        1 => el("n").m(),
        2 => M::C("k".to_string()),
        3 => txt(""),
        4 => txt(" \n"),
        _ => M::D("q".to_string()),
    }
}
fn compare(e: &Element, k: &Vec<M>) {
    let m = ME { prefix: None, name: "r".to_string(), attrs: vec![], kids: k.clone() };
    agree(e, &m, &vec![], "child list");
}
pub fn put(e: &mut Element, i: usize, m: &M) -> Result<(), IndexOutOfBounds> {
    match m {
        M::E(x) => e.insert(i, build(x, 0)),
        M::T(x) => e.insert(i, Text::new(x.as_str())),
        M::C(x) => e.insert(i, ok(Comment::new(x.as_str()), "constructor")),
        M::D(x) => e.insert(i, ok(CData::new(x.as_str()), "constructor")),
    }
}
fn app(e: &mut Element, m: &M) {
    match m {
        M::E(x) => e.append(build(x, 0)),
        M::T(x) => e.append(Text::new(x.as_str())),
        M::C(x) => e.append(ok(Comment::new(x.as_str()), "constructor")),
        M::D(x) => e.append(ok(CData::new(x.as_str()), "constructor")),
    }
}
/// one operation, applied to the element and to the list
fn step(e: &mut Element, k: &mut Vec<M>, ops: usize, kinds: usize) {
    match sym::choice(ops) {
        0 => {
            let m = fresh(kinds, false);
            // any 64-bit index
            let i = sym::var(64) as usize;
            let r = put(e, i, &m);
            if i <= k.len() {
                check!(r.is_ok(), "insert at a valid index failed");
                k.insert(i, m);
                settle(k);
            } else {
                check!(r.is_err(), "insert past the end did not fail");
                sym::cover(2);
            }
        }
        1 => {
            let i = sym::var(64) as usize;
            let r = e.remove(i);
            if i < k.len() {
                let x = k.remove(i);
                match r {
                    Ok(n) => agree_node(&n, &x, &vec![], "removed node"),
                    Err(_) => sym::fail("remove at a valid index failed"),
                }
                settle(k);
                sym::cover(3);
            } else {
                check!(r.is_err(), "remove past the end did not fail");
            }
        }
        2 => {
            let m = fresh(kinds, false);
            app(e, &m);
            k.push(m);
            settle(k);
        }
        3 => {
            let i = sym::var(64) as usize;
            let at: Vec<usize> = (0..k.len()).filter(|j| matches!(k[*j], M::E(_))).collect();
            let r = e.remove_element(i);
            if i < at.len() {
                let x = k.remove(at[i]);
                match (r, x) {
                    (Ok(n), M::E(x)) => agree(&n, &x, &vec![], "removed element"),
                    _ => sym::fail("remove_element at a valid index failed"),
                }
                settle(k);
            } else {
                check!(r.is_err(), "remove_element past the end did not fail");
            }
        }
        4 => {
            let mut v = vec![];
            for _ in 0..sym::choice(3) {
                v.push(fresh(kinds, false));
            }
            e.append_all(v.iter().map(|m| build_node(m, 0)).collect());
            k.extend(v);
            settle(k);
        }
        5 => {
            let mut s = String::new();
            if sym::choice(2) == 1 {
                g::ascii(&mut s);
            }
            e.set_text(s.as_str());
            k.clear();
            k.push(M::T(s));
            settle(k);
        }
        6 => {
            let m = fresh(kinds, false);
            e.append_boxed(build_node(&m, 0));
            k.push(m);
            settle(k);
        }
        _ => {
            e.clear_children();
            k.clear();
        }
    }
    compare(e, k);
}
fn ops(starts_n: usize, n: usize, ops: usize, kinds: usize) {
    let mut k = starts(sym::choice(starts_n));
    let m = ME { prefix: None, name: "r".to_string(), attrs: vec![], kids: k.clone() };
    let mut e = build(&m, 0);
    settle(&mut k);
    compare(&e, &k);
    for _ in 0..n {
        step(&mut e, &mut k, ops, kinds);
    }
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
pub fn c11_one() {
    ops(6, 1, 8, 6)
}
pub fn c11_two() {
    ops(6, 2, 4, 4)
}
pub fn c11_two_all() {
    ops(6, 2, 8, 6)
}
pub fn c11_three() {
    ops(3, 3, 4, 3)
}
pub fn c11_three_all() {
    ops(4, 3, 8, 4)
}
/// text of any character: blank or not decides whether it stays
pub fn c11_blank() {
    blank_edits(2)
}
pub fn c11_blankq() {
    blank_edits(1)
}
fn blank_edits(n: usize) {
    let mut s = String::new();
    for _ in 0..sym::choice(n + 1) {
        g::uni(&mut s);
    }
    let m = M::T(s.clone());
    let mut k = starts(sym::choice(4));
    let mut e = build(&ME { prefix: None, name: "r".to_string(), attrs: vec![], kids: k.clone() }, 0);
    match sym::choice(4) {
        0 => {
            app(&mut e, &m);
            k.push(m);
        }
        1 => {
            let i = sym::choice(k.len() + 1);
            ok(put(&mut e, i, &m), "insert");
            k.insert(i, m);
        }
        2 => {
            e.append_all(vec![Text::new(s.as_str()).boxed(), el_b(), Text::new(s.as_str()).boxed()]);
            k.push(m.clone());
            k.push(el("b").m());
            k.push(m);
        }
        _ => {
            e.set_text(s.as_str());
            k = vec![m];
        }
    }
    settle(&mut k);
    compare(&e, &k);
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
fn el_b() -> Box<dyn Node> {
    ok(Element::new_from_name("b"), "constructor").boxed()
}
/// runs of adjacent text of every length given at once
pub fn c11_runs() {
    let mut v = vec![];
    for i in 0..sym::choice(7) {
        v.push(match sym::choice(3) {
            0 => txt(["a", "b", "c", "d", "e", "f"][i]),
            1 => txt([" ", "\n"][i & 1]),
            _ => M::C("x".to_string()),
        });
    }
    let mut s = String::new();
    g::ascii(&mut s);
    v.push(M::T(s));
    let m = ME { prefix: None, name: "r".to_string(), attrs: vec![], kids: v.clone() };
    let how = sym::choice(2) * 2;
    let e = build(&m, how);
    compare(&e, &v);
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
/// the same runs pushed one by one: blank text is dropped before the next one comes
pub fn c11_pushes() {
    let mut k: Vec<M> = vec![];
    let mut e = ok(Element::new_from_name("r"), "constructor");
    for _ in 0..4 {
        let mut s = String::new();
        let m = if sym::choice(3) < 2 {
            g::ascii(&mut s);
            M::T(s)
        } else {
            el("b").m()
        };
        app(&mut e, &m);
        k.push(m);
        settle(&mut k);
        compare(&e, &k);
    }
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}

// ---------------------------------------------------------------- C12
/// names of one symbolic character out of {a, b, c}
fn nm() -> String {
    let mut s = String::new();
    g::one_of(&mut s, "abc");
    s
}
/// removes by `p` (on the children as they are) from the model; returns the count
pub fn cut(e: &mut ME, p: &dyn Fn(&M) -> bool, deep: bool) -> usize {
    let mut n = 0;
    let mut keep = vec![];
    for k in e.kids.drain(..) {
        if p(&k) {
            n += 1;
        } else {
            keep.push(k);
        }
    }
    e.kids = normalize(&keep);
    if deep {
        for k in e.kids.iter_mut() {
            if let M::E(x) = k {
                n += cut(x, p, true);
            }
        }
    }
    n
}
/// a tree with symbolic names; structure chosen
fn tree() -> ME {
    let shape = sym::choice(7);
    let t = |s: &str| txt(s);
    match shape {
        0 => el("r").kid(el(&nm()).m()).kid(el(&nm()).m()).kid(el(&nm()).m()),
        1 => el("r").kid(t("1")).kid(el(&nm()).m()).kid(t("2")).kid(el(&nm()).m()).kid(t("3")),
        2 => el("r").kid(el(&nm()).kid(el(&nm()).kid(el(&nm()).m()).m()).m()),
        3 => el("r").kid(el(&nm()).kid(t("x")).kid(el(&nm()).m()).kid(t("y")).m()).kid(M::C("c".to_string())).kid(el(&nm()).m()),
        4 => el("r").kid(el("z").kid(el(&nm()).m()).kid(el(&nm()).m()).m()).kid(el("z").kid(el(&nm()).kid(t("a")).m()).m()),
        5 => el("r").kid(t("a")).kid(M::D("d".to_string())).kid(el(&nm()).kid(M::C("c".to_string())).kid(t("b")).m()).kid(t("c")),
        _ => el("r"),
    }
}
fn is_el(m: &M, n: &str) -> bool {
    if let M::E(e) = m {
        e.name == n
    } else {
        false
    }
}
/// every `step`-th element gets the prefix p, some of them a default namespace
fn prefixed(e: &mut ME, n: &mut usize, step: usize) {
    if e.name == "r" {
        e.attrs.push(("xmlns:p".to_string(), "u".to_string()));
    } else {
        *n += 1;
        if *n % step == 0 {
            e.prefix = Some("p".to_string());
        }
        if *n % 3 == 1 {
            e.attrs.push(("xmlns".to_string(), "d".to_string()));
        }
    }
    for k in e.kids.iter_mut() {
        if let M::E(x) = k {
            prefixed(x, n, step);
        }
    }
}
/// every removal function with a name chosen by the solver
pub fn c12_name() {
    let mut m = tree();
    // prefixes and namespaces are no part of the name
    match sym::choice(4) {
        0 => {}
        1 => prefixed(&mut m, &mut 0, 1),
        2 => prefixed(&mut m, &mut 0, 2),
        _ => prefixed(&mut m, &mut 1, 2),
    }
    let mut e = build(&m, 0);
    let n = nm();
    let n2 = n.clone();
    let (got, want) = match sym::choice(6) {
        0 => (e.remove_elements_by_name(n.as_str()), cut(&mut m, &|k| is_el(k, &n2), false)),
        1 => (e.remove_elements(|x| x.name() == n), cut(&mut m, &|k| is_el(k, &n2), false)),
        2 => (e.remove_all_elements(|x| x.name() == n), cut(&mut m, &|k| is_el(k, &n2), true)),
        3 => (e.remove_by(&|x| x.as_element().map(|x| x.name() == n).unwrap_or(false)), cut(&mut m, &|k| is_el(k, &n2), false)),
        4 => (e.remove_all(&|x| x.as_element().map(|x| x.name() == n).unwrap_or(false)), cut(&mut m, &|k| is_el(k, &n2), true)),
        _ => (e.remove_all(&|x| !(x.as_element().map(|x| x.name() == n).unwrap_or(false))), cut(&mut m, &|k| !is_el(k, &n2), true)),
    };
    check!(got == want, "the number of removed nodes is wrong");
    agree(&e, &m, &vec![], "after a removal");
    sym::emit(e.to_string().as_bytes());
    sym::emit(&[got as u8]);
    sym::cover(if got > 0 { 1 } else { 2 });
}
/// any string given as a name removes the children with exactly this name, prefix or not
pub fn c12_query() {
    let p = |n: &str| {
        let mut e = el(n);
        e.prefix = Some("p".to_string());
        e
    };
    let mut m = el("r").at("xmlns:p", "u").kid(p("a").kid(el("ab").m()).m()).kid(el("a").kid(el("A").m()).m()).kid(txt("a")).kid(el("A").m());
    m = m.kid(el("e\u{e9}").m()).kid(txt("x")).kid(p("ab").m()).kid(txt("y")).kid(el("ab.").m()).kid(el("_").m()).kid(M::C("a".to_string())).kid(el("p").m());
    let mut e = build(&m, 0);
    let mut n = String::new();
    match sym::choice(5) {
        4 => {
            n.push('e');
            g::uni(&mut n);
        }
        k => {
            for _ in 0..k {
                g::ascii(&mut n);
            }
        }
    }
    let want = cut(&mut m, &|k| is_el(k, &n), false);
    check!(e.remove_elements_by_name(n.as_str()) == want, "the number of removed nodes is wrong");
    agree(&e, &m, &vec![], "after a removal");
    sym::emit(&[want as u8]);
    sym::cover(if want > 0 { 1 } else { 2 });
}
/// removal by kind and content of any node, predicate independent for every node: bit i of a symbolic
/// mask decides about the node with content i
fn mask(deep: bool, shape: usize) {
    let t = |s: &str| txt(s);
    let c = |s: &str| M::C(s.to_string());
    let d = |s: &str| M::D(s.to_string());
    let mut m = match shape {
        0 => el("r").kid(t("0")).kid(el("1").kid_none()).kid(t("2")).kid(c("3")).kid(t("4")).kid(d("5")).kid(t("6")),
        1 => el("r").kid(el("0").kid(t("1")).kid(el("2").m()).kid(t("3")).m()).kid(t("4")).kid(el("5").kid(c("6")).m()),
        2 => el("r").kid(el("0").kid(el("1").kid(el("2").kid(el("3").m()).m()).m()).m()).kid(el("4").m()),
        3 => el("r").kid(c("0")).kid(c("1")).kid(el("2").kid(c("3")).kid(c("4")).m()).kid(c("5")),
        // several children with descendants of their own
        4 => el("r").kid(el("0").kid(el("1").m()).m()).kid(el("2").kid(el("3").m()).m()).kid(el("4").kid(el("5").kid(el("6").m()).m()).m()).kid(el("7").m()),
        5 => el("r").kid(el("0").m()).kid(el("1").m()).kid(el("2").kid(t("3")).kid(el("4").m()).kid(t("5")).m()).kid(el("6").kid(d("7")).m()),
        // text around, so that survivors merge at several places
        _ => el("r").kid(t("0")).kid(c("1")).kid(t("2")).kid(el("3").kid(t("4")).kid(d("5")).kid(t("6")).m()).kid(t("7")),
    };
    rename(&mut m);
    let mut e = build(&m, 0);
    let v = sym::var(8);
    let bit = |s: &str| -> bool { (v >> ((s.as_bytes()[s.len() - 1] - b'0') & 7)) & 1 == 1 };
    let hit = |k: &M| match k {
        M::E(x) => bit(&x.name),
        M::T(x) => bit(x),
        M::C(x) => bit(x),
        M::D(x) => bit(x),
    };
    let lib = |n: &Box<dyn Node>| match n.node_type() {
        DomNodeType::ElementNode => bit(&n.as_element().unwrap().name()),
        DomNodeType::TextNode => bit(&n.as_text().unwrap().content),
        DomNodeType::CommentNode => bit(n.as_comment().unwrap().get_content()),
        DomNodeType::CDataNode => bit(n.as_cdata().unwrap().get_content()),
    };
    let (got, want);
    if deep {
        want = cut(&mut m, &hit, true);
        got = e.remove_all(&lib);
    } else if sym::choice(2) == 0 {
        want = cut(&mut m, &hit, false);
        got = e.remove_by(&lib);
    } else {
        let only = |k: &M| if let M::E(x) = k { bit(&x.name) } else { false };
        if sym::choice(2) == 0 {
            want = cut(&mut m, &only, false);
            got = e.remove_elements(|x| bit(&x.name()));
        } else {
            want = cut(&mut m, &only, true);
            got = e.remove_all_elements(|x| bit(&x.name()));
        }
    }
    check!(got == want, "the number of removed nodes is wrong");
    agree(&e, &m, &vec![], "after a removal");
    sym::emit(e.to_string().as_bytes());
    sym::emit(&[got as u8]);
    sym::cover(1);
}
impl ME {
    fn kid_none(self) -> M {
        self.m()
    }
}
/// element names cannot be digits: n0, n1, ...
fn rename(e: &mut ME) {
    if e.name != "r" {
        e.name = ["n", &e.name].concat();
    }
    for k in e.kids.iter_mut() {
        if let M::E(x) = k {
            rename(x);
        }
    }
}
pub fn c12_mask() {
    mask(true, sym::choice(7))
}
pub fn c12_mask_flat() {
    mask(false, sym::choice(7))
}
/// by attribute, namespace or text content; values symbolic
pub fn c12_content() {
    let mut t = String::new();
    g::ascii(&mut t);
    let mut u = String::new();
    g::ascii(&mut u);
    let mut want = String::new();
    g::ascii(&mut want);
    sym::assume(!blank(&t) & !blank(&u));
    let mut m = el("r").kid(el("a").at("k", &t).kid(M::T(u.clone())).m()).kid(M::T(t.clone())).kid(el("a").at("k", &u).kid(el("b").at("k", &t).m()).m()).kid(M::T(u.clone()));
    let mut e = build(&m, 0);
    let w = want.clone();
    let (got, exp) = match sym::choice(3) {
        0 => (e.remove_all_elements(|x| x.get_attr("k") == Some(&want)), cut(&mut m, &|k| if let M::E(x) = k { attr(&x.attrs, "k") == Some(&w) } else { false }, true)),
        1 => (e.remove_by(&|n| n.is_text() && n.text() == want), cut(&mut m, &|k| *k == M::T(w.clone()), false)),
        _ => (e.remove_all(&|n| n.is_text() && n.text() == want), cut(&mut m, &|k| *k == M::T(w.clone()), true)),
    };
    check!(got == exp, "the number of removed nodes is wrong");
    agree(&e, &m, &vec![], "after a removal");
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
