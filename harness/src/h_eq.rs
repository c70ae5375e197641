//! C16: equality, hashing and cloning.
use crate::gen::Gen;
use crate::m::*;
use crate::{g, sym};
use kiss_xml::dom::*;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

/// records everything that is hashed
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.len() as u8);
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn hashed<T: Hash>(x: &T) -> Vec<u8> {
    let mut r = Rec(vec![]);
    x.hash(&mut r);
    r.0
}
fn node_hash(n: &Box<dyn Node>) -> Vec<u8> {
    if let Ok(e) = n.as_element() {
        hashed(e)
    } else if let Ok(t) = n.as_text() {
        hashed(t)
    } else if let Ok(c) = n.as_comment() {
        hashed(c)
    } else {
        hashed(ok(n.as_cdata(), "a node of no kind"))
    }
}
/// equality of models, namespaces resolved in the scope of each
fn meq(a: &ME, sa: &Scope, b: &ME, sb: &Scope) -> bool {
    let (sa, sb) = (enter(a, sa), enter(b, sb));
    let ns = |e: &ME, s: &Scope| resolve(s, e.prefix.as_deref().unwrap_or("")).cloned();
    if a.name != b.name || a.prefix != b.prefix || ns(a, &sa) != ns(b, &sb) {
        return false;
    }
    for (k, _) in &a.attrs {
        if attr(&a.attrs, k) != attr(&b.attrs, k) {
            return false;
        }
    }
    for (k, _) in &b.attrs {
        if attr(&a.attrs, k) != attr(&b.attrs, k) {
            return false;
        }
    }
    let (x, y) = (normalize(&a.kids), normalize(&b.kids));
    x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| neq(p, &sa, q, &sb))
}
pub fn neq(a: &M, sa: &Scope, b: &M, sb: &Scope) -> bool {
    match (a, b) {
        (M::E(x), M::E(y)) => meq(x, sa, y, sb),
        (M::T(x), M::T(y)) => x == y,
        (M::C(x), M::C(y)) => x == y,
        (M::D(x), M::D(y)) => x == y,
        _ => false,
    }
}
pub fn judge(a: &Element, b: &Element, want: bool) {
    check!((a == b) == want, if want { "equal elements do not compare equal" } else { "different elements compare equal" });
    check!((b == a) == want, "equality is not symmetric");
    check!((a != b) == !want, "!= is not the negation of ==");
    #[allow(clippy::eq_op)]
    {
        check!(a == a && b == b, "equality is not reflexive");
    }
    if want {
        check!(hashed(a) == hashed(b), "equal elements hash differently");
        check!(a.to_string() == b.to_string(), "equal elements are serialized differently");
    }
    sym::emit(&[want as u8]);
    sym::cover(if want { 1 } else { 2 });
}
fn txt(s: &str) -> M {
    M::T(s.to_string())
}
fn sy(set: &str) -> String {
    let mut s = String::new();
    g::one_of(&mut s, set);
    s
}
/// an element in which one component (chosen by `w`) is symbolic; the same for both sides of a comparison
fn variant(w: usize) -> ME {
    let mut s = String::new();
    match w {
        0 => el(&sy("abc")),
        1 => el("e").at("k", {
            for _ in 0..sym::choice(3) {
                g::ascii(&mut s);
            }
            &s
        }),
        2 => el("e").at(&sy("abc"), "1").at("d", "2"),
        3 => {
            let mut e = el("e");
            for k in ["a", "b", "c"] {
                if sym::choice(2) == 1 {
                    e = e.at(k, &sy("xy"));
                }
            }
            e
        }
        4 => {
            for _ in 0..1 + sym::choice(2) {
                g::ascii(&mut s);
            }
            sym::assume(!blank(&s));
            let k = M::T(s);
            el("e").kid(el("x").kid(k).m())
        }
        5 => {
            for _ in 0..sym::choice(3) {
                g::ascii(&mut s);
            }
            // the same content in different kinds of nodes
            let k = match sym::choice(3) {
                0 => {
                    sym::assume(!blank(&s));
                    M::T(s)
                }
                1 => M::C(s),
                _ => M::D(s),
            };
            el("e").kid(k)
        }
        6 => {
            // order and number of children
            let mut e = el("e");
            for _ in 0..sym::choice(4) {
                let k = match sym::choice(3) {
                    0 => el("x").m(),
                    1 => txt("x"),
                    _ => M::C("x".to_string()),
                };
                e = e.kid(k);
            }
            e
        }
        7 => {
            // namespaces and prefixes
            let mut e = el("e").at("xmlns:p", &sy("uv"));
            if sym::choice(2) == 1 {
                e.prefix = Some("p".to_string());
            }
            e
        }
        8 => {
            let mut e = el("e").at("xmlns", &sy("uv")).at("xmlns:p", "u").at("xmlns:q", "u");
            let mut k = el("k");
            k.prefix = [None, Some("p".to_string()), Some("q".to_string())][sym::choice(3)].clone();
            e = e.kid(k.m());
            e
        }
        9 => {
            // depth: the same names, another nesting
            let a = el("a").kid(txt("1"));
            match sym::choice(4) {
                0 => el("e").kid(a.m()).kid(el("a").m()),
                1 => el("e").kid(el("a").m()).kid(a.m()),
                2 => el("e").kid(el("a").kid(a.m()).m()),
                _ => el("e").kid(el("a").kid(txt("1")).kid(el("a").m()).m()),
            }
        }
        10 => {
            g::uni(&mut s);
            el("e").at("k", &s)
        }
        11 => {
            g::uni(&mut s);
            sym::assume(!blank(&s));
            el("e").kid(M::T(s))
        }
        _ => {
            // deep below
            let mut e = el("d").kid(M::C(sy("xyz")));
            for i in 0..4 {
                e = el(["e", "f"][i % 2]).kid(txt("t")).kid(e.m());
            }
            e
        }
    }
}
fn pair(w: usize, how_b: usize) {
    let a = variant(w);
    let b = variant(w);
    let want = meq(&a, &vec![], &b, &vec![]);
    judge(&build(&a, 0), &build(&b, how_b), want)
}
/// every pair of elements that may differ in one component
pub fn c16_pairs() {
    pair(sym::choice(13), 0)
}
/// built in different ways
pub fn c16_routes() {
    let w = [1, 2, 3, 5, 6, 7][sym::choice(6)];
    sym::hash_mode(sym::choice(2) as u64);
    pair(w, 1 + sym::choice(3))
}
/// pairs of arbitrary small trees
fn trees(depth: usize, width: usize) {
    let mk = || {
        let mut gen = Gen::new(1);
        gen.hot = 0;
        gen.attrs = false;
        gen.elem("r", depth, width)
    };
    let a = mk();
    let b = mk();
    let want = meq(&a, &vec![], &b, &vec![]);
    // contents refused by a constructor are none of this property
    sym::assume(valid(&a) && valid(&b));
    judge(&build(&a, 0), &build(&b, 0), want)
}
fn valid(e: &ME) -> bool {
    e.kids.iter().all(|k| match k {
        M::E(x) => valid(x),
        _ => true,
    })
}
pub fn c16_trees12() {
    trees(1, 2)
}
pub fn c16_trees21() {
    trees(2, 1)
}
pub fn c16_trees22() {
    trees(2, 2)
}
fn any_node() -> (Box<dyn Node>, M) {
    let mut s = String::new();
    for _ in 0..sym::choice(3) {
        g::one_of(&mut s, "ab1");
    }
    let what = "constructor";
    match sym::choice(5) {
        0 => (Text::new(s.as_str()).boxed(), M::T(s)),
        1 => (ok(Comment::new(s.as_str()), what).boxed(), M::C(s)),
        2 => (ok(CData::new(s.as_str()), what).boxed(), M::D(s)),
        3 => {
            let n = sy("ab");
            let m = el(&n);
            (build(&m, 0).boxed(), m.m())
        }
        _ => {
            let n = sy("ab");
            let m = el("e").kid(el(&n).m());
            (build(&m, 0).boxed(), m.m())
        }
    }
}
/// boxed nodes of any two kinds
pub fn c16_nodes() {
    let (a, ma) = any_node();
    let (b, mb) = any_node();
    let none = vec![];
    let want = neq(&ma, &none, &mb, &none);
    check!(node_eq(&a, &b) == want, if want { "equal nodes do not compare equal" } else { "different nodes compare equal" });
    check!(node_eq(&b, &a) == want, "equality is not symmetric");
    check!(node_eq(&a, &a) && node_eq(&b, &b), "equality is not reflexive");
    if want {
        check!(node_hash(&a) == node_hash(&b), "equal nodes hash differently");
    }
    let c = clone_node(&a);
    check!(node_eq(&a, &c) && node_hash(&a) == node_hash(&c), "a clone differs from its original");
    agree_node(&c, &ma, &none, "clone");
    sym::emit(&[want as u8]);
    sym::cover(if want { 1 } else { 2 });
}
/// leaf nodes with any content
pub fn c16_leaves() {
    let mut s = String::new();
    let mut t = String::new();
    g::uni(&mut s);
    g::uni(&mut t);
    if sym::choice(2) == 1 {
        g::ascii(&mut s);
        if sym::choice(2) == 1 {
            g::ascii(&mut t);
        }
    }
    let want = s == t;
    let r = match sym::choice(5) {
        0 => {
            let (a, b) = (Text::new(s.as_str()), Text::new(t.as_str()));
            check!(a == a.clone() && hashed(&a) == hashed(&a.clone()), "a clone differs from its original");
            check!(!want || hashed(&a) == hashed(&b), "equal nodes hash differently");
            a == b
        }
        1 => {
            let (a, b) = (ok(Comment::new(s.as_str()), "constructor"), ok(Comment::new(t.as_str()), "constructor"));
            check!(a == a.clone() && hashed(&a) == hashed(&a.clone()), "a clone differs from its original");
            check!(!want || hashed(&a) == hashed(&b), "equal nodes hash differently");
            a == b
        }
        2 => {
            let (a, b) = (ok(CData::new(s.as_str()), "constructor"), ok(CData::new(t.as_str()), "constructor"));
            check!(a == a.clone() && hashed(&a) == hashed(&a.clone()), "a clone differs from its original");
            check!(!want || hashed(&a) == hashed(&b), "equal nodes hash differently");
            a == b
        }
        3 => {
            // a text that is not one well formed construct may be refused
            let mk = |x: &str| Declaration::from_str(&["<?xml ", x, "?>"].concat());
            let (Ok(a), Ok(b)) = (mk(&s), mk(&t)) else { return };
            check!(!want || hashed(&a) == hashed(&b), "equal declarations hash differently");
            a == b
        }
        _ => {
            let mk = |x: &str| DTD::from_string(["<!DOCTYPE ", x, " r>"].concat());
            let (Ok(a), Ok(b)) = (mk(&s), mk(&t)) else { return };
            check!(!want || hashed(&a) == hashed(&b), "equal document types hash differently");
            a == b
        }
    };
    check!(r == want, if want { "equal nodes do not compare equal" } else { "different nodes compare equal" });
    sym::emit(&[want as u8]);
    sym::cover(if want { 1 } else { 2 });
}
/// documents: declaration, document types and their order, root
pub fn c16_documents() {
    let mk = || {
        let decl = match sym::choice(4) {
            0 => None,
            1 => Some(["<?xml ", &sy("xy"), "?>"].concat()),
            2 => Some("<?xml version=\"1.0\" encoding=\"UTF-8\"?>".to_string()),
            _ => Some("<?xml?>".to_string()),
        };
        let mut dtds = vec![];
        for _ in 0..sym::choice(3) {
            dtds.push(["<!DOCTYPE ", &sy("ab"), ">"].concat());
        }
        let r = el(&sy("rs"));
        (decl, dtds, r)
    };
    let lib = |(decl, dtds, r): &(Option<String>, Vec<String>, ME)| {
        let d: Vec<DTD> = dtds.iter().map(|x| ok(DTD::from_string(x.as_str()), "constructor")).collect();
        Document::new_with_decl_dtd(build(r, 0), decl.as_ref().map(|x| ok(Declaration::from_str(x), "constructor")), if d.is_empty() { None } else { Some(&d) })
    };
    let a = mk();
    let b = mk();
    let want = a.0 == b.0 && a.1 == b.1 && a.2 == b.2;
    let (x, y) = (lib(&a), lib(&b));
    check!((x == y) == want, if want { "equal documents do not compare equal" } else { "different documents compare equal" });
    check!((y == x) == want, "equality is not symmetric");
    #[allow(clippy::eq_op)]
    {
        check!(x == x && y == y, "equality is not reflexive");
    }
    if want {
        check!(x.to_string() == y.to_string(), "equal documents are serialized differently");
    }
    sym::cover(if want { 1 } else { 2 });
}
/// parsed twice, or parsed and built
pub fn c16_parsed() {
    let s = sy("abc");
    let t = sy("abc");
    let u = g::set_text(1, "x&'");
    let doc = |a: &str| ["<r xmlns='", a, "' k=\"", &esc(&u), "\"><p:c xmlns:p='", a, "'>", a, "</p:c><!--", a, "--></r>"].concat();
    let m = |a: &str| {
        let mut c = el("c").at("xmlns:p", a).kid(txt(a));
        c.prefix = Some("p".to_string());
        el("r").at("xmlns", a).at("k", &u).kid(c.m()).kid(M::C(a.to_string()))
    };
    let x = ok(kiss_xml::parse_str(doc(&s)), "well-formed document refused");
    let want = s == t;
    match sym::choice(2) {
        0 => {
            let y = ok(kiss_xml::parse_str(doc(&t)), "well-formed document refused");
            check!((x == y) == want, "equality of parsed documents");
            judge(x.root_element(), y.root_element(), want)
        }
        _ => judge(x.root_element(), &build(&m(&t), sym::choice(2)), want),
    }
}
const RICH: usize = 3;
fn rich(w: usize, hot: &str) -> ME {
    match w {
        0 => el("r").at("a", hot).at("xmlns:p", "u").kid(el("b").kid(M::T(["t", hot].concat())).m()).kid(M::C(hot.to_string())).kid(txt("x")),
        1 => {
            let mut k = el("k").at("xmlns:q", "w").at("z", hot);
            k.prefix = Some("p".to_string());
            el("r").at("xmlns", "d").at("xmlns:p", "u").kid(k.kid(el("l").kid(M::D(hot.to_string())).m()).m())
        }
        _ => el("r").kid(txt("1")).kid(el("b").kid(el("c").kid(el("d").at("h", hot).m()).m()).m()).kid(M::D(hot.to_string())).kid(txt("2")).kid(el("b").m()),
    }
}
/// one edit of an element, in place at any depth; returns the model after it
fn edit(e: &mut Element, m: &ME, v: &str) -> ME {
    let mut m = m.clone();
    match sym::choice(10) {
        0 => {
            ok(e.set_attr("a", v), "set_attr");
            m.attrs.retain(|x| x.0 != "a");
            m.attrs.push(("a".to_string(), v.to_string()));
        }
        1 => {
            e.append(ok(Comment::new("new"), "constructor"));
            m.kids.push(M::C("new".to_string()));
        }
        2 => {
            ok(e.remove(0), "remove");
            m.kids.remove(0);
        }
        3 => {
            e.clear_children();
            m.kids.clear();
        }
        4 => {
            e.clear_attributes();
            m.attrs.clear();
            sym::assume(m.kids.iter().all(|k| if let M::E(x) = k { x.prefix.is_none() } else { true }));
        }
        5 => {
            e.set_text(["q", v].concat());
            m.kids = vec![M::T(["q", v].concat())];
        }
        6 => {
            // a leaf below is changed through the mutable iterators
            let mut it = m.kids.iter_mut();
            for c in e.children_mut() {
                let k = match it.next() {
                    Some(k) => k,
                    None => sym::fail("extra child"),
                };
                if let Ok(c) = c.as_comment_mut() {
                    ok(c.set_content("changed"), "set_content");
                    *k = M::C("changed".to_string());
                } else if let Ok(c) = c.as_cdata_mut() {
                    ok(c.set_text("changed"), "set_text");
                    *k = M::D("changed".to_string());
                } else if let Ok(c) = c.as_text_mut() {
                    c.content = "changed".to_string();
                    *k = txt("changed");
                }
            }
        }
        7 => {
            let mut it = m.kids.iter_mut().filter_map(|k| if let M::E(x) = k { Some(x) } else { None });
            for c in e.child_elements_mut() {
                c.append(Text::new("deep"));
                ok(c.set_attr("new", v), "set_attr");
                match it.next() {
                    Some(x) => {
                        x.kids.push(txt("deep"));
                        x.attrs.push(("new".to_string(), v.to_string()));
                    }
                    None => sym::fail("extra element"),
                }
            }
        }
        8 => {
            let n = e.remove_all(&|c: &Box<dyn Node>| !c.is_element());
            fn strip(m: &mut ME) -> usize {
                let before = m.kids.len();
                m.kids.retain(|k| matches!(k, M::E(_)));
                let mut n = before - m.kids.len();
                for k in &mut m.kids {
                    if let M::E(x) = k {
                        n += strip(x);
                    }
                }
                n
            }
            check!(n == strip(&mut m), "number of removed nodes");
        }
        _ => {
            let k = el("n").at("xmlns", "other").kid(el("o").m());
            ok(e.insert(0, build(&k, 0)), "insert");
            m.kids.insert(0, k.m());
        }
    }
    m
}
/// a clone equals its original, and an edit of either leaves the other as it was
pub fn c16_clone() {
    let mut v = String::new();
    g::ascii(&mut v);
    let mut h = String::from("h");
    g::ascii(&mut h);
    let m = rich(sym::choice(RICH), &h);
    let a = build(&m, 0);
    let boxed: Box<dyn Node>;
    let b = match sym::choice(2) {
        0 => a.clone(),
        _ => {
            let bx: Box<dyn Node> = a.clone().boxed();
            boxed = clone_node(&bx);
            ok(boxed.as_element(), "as_element").clone()
        }
    };
    check!(a == b && b == a, "a clone differs from its original");
    check!(hashed(&a) == hashed(&b), "a clone hashes differently");
    agree(&b, &m, &vec![], "clone");
    let (mut x, y) = if sym::choice(2) == 0 { (a, b) } else { (b, a) };
    let m2 = edit(&mut x, &m, &v);
    agree(&x, &m2, &vec![], "edited");
    agree(&y, &m, &vec![], "the other one");
    check!((x == y) == meq(&m, &vec![], &m2, &vec![]), "equality after an edit");
    sym::emit(x.to_string().as_bytes());
    sym::cover(1);
}
/// a clone of an element inside of a tree knows the namespaces in scope like its original
pub fn c16_scope() {
    let u = sy("uvw");
    let m = el("r").at("xmlns", "d").at("xmlns:p", &u).kid(el("a").kid(el("b").m()).m());
    let mut e = build(&m, sym::choice(4));
    if sym::choice(2) == 1 {
        let mut s = String::from("<r xmlns='d' xmlns:p='");
        s.push_str(&u);
        s.push_str("'><a><b/></a></r>");
        e = ok(kiss_xml::parse_str(s), "well-formed document refused").root_element().clone();
    }
    let a = ok(e.first_element_by_name_mut("a"), "first_element_by_name_mut");
    let mut c = a.clone();
    let none = Option::<HashMap<String, String>>::None;
    let k = ok(Element::new("k", None, none, None, Some("p".to_string()), None), "constructor");
    let mut m2 = el("a").kid(el("b").m());
    let mut km = el("k");
    km.prefix = Some("p".to_string());
    m2 = m2.kid(km.m()).kid(el("l").m());
    let scope = vec![(String::new(), "d".to_string()), ("p".to_string(), u)];
    a.append(k.clone());
    a.append(ok(Element::new_from_name("l"), "constructor"));
    check!(c != *a, "the clone was edited");
    c.append(k);
    c.append(ok(Element::new_from_name("l"), "constructor"));
    agree(a, &m2, &scope, "original");
    agree(&c, &m2, &scope, "clone");
    check!(c == *a, "the same edit of a clone and its original gives different elements");
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
/// lists of nodes cloned and put into another tree
pub fn c16_copies() {
    let mut h = String::from("h");
    g::uni(&mut h);
    let m = rich(2, &h);
    let a = build(&m, 0);
    let kids: Vec<Box<dyn Node>> = a.children().map(clone_node).collect();
    let b = ok(Element::new_with_children("r", kids), "constructor");
    agree(&b, &m, &vec![], "copy");
    check!(a == b, "copied children differ");
    let mut x = a.clone();
    for c in x.children_mut() {
        if let Ok(c) = c.as_cdata_mut() {
            ok(c.set_text("changed"), "set_text");
        }
    }
    check!(x != a || h == "changed", "an edit was not made");
    agree(&a, &m, &vec![], "original");
    agree(&b, &m, &vec![], "copy");
    sym::cover(1);
}
/// equal elements with different surroundings: the context is no part of an element, except for the namespace it gives
pub fn c16_context() {
    let u = sy("uv");
    let mut c = el(&sy("ab")).at("k", &sy("xy"));
    match sym::choice(3) {
        0 => {}
        1 => c = c.at("xmlns", &sy("uv")),
        _ => c = c.at("xmlns:q", "w"),
    }
    c = c.kid(el("d").m()).kid(txt("t"));
    let ctx = |k: usize| -> ME {
        match k {
            0 => el("r"),
            1 => el("r").at("xmlns:p", "u"),
            2 => el("r").at("xmlns", &u),
            3 => el("r").at("xmlns:p", "u").at("xmlns:q", "v").at("a", "b"),
            _ => el("r").at("xmlns:z", "w").at("xmlns", &u),
        }
    };
    let alone = build(&c, sym::choice(3));
    let none: Scope = vec![];
    let a = ctx(sym::choice(5)).kid(M::C("x".to_string())).kid(c.clone().m());
    let (b, sb);
    match sym::choice(3) {
        0 => {
            b = alone;
            sb = none.clone();
        }
        1 => {
            let m = ctx(sym::choice(5)).kid(el("in").kid(c.clone().m()).m());
            let e = build(&m, 2);
            let i = ok(e.first_element_by_name("in"), "first_element_by_name");
            b = match i.child_elements().next() {
                Some(x) => x.clone(),
                None => sym::fail("child is missing"),
            };
            sb = enter(&m, &none);
        }
        _ => {
            // removed from a parent again: it keeps no trace of it but its namespace
            let m = ctx(sym::choice(2)).kid(c.clone().m());
            let mut e = build(&m, 0);
            let x = ok(e.remove(0), "remove");
            b = ok(x.as_element(), "as_element").clone();
            sb = enter(&m, &none);
        }
    }
    let s = build(&a, sym::choice(3)).to_string();
    let d = ok(kiss_xml::parse_str(s), "the serialized form was refused");
    let x = match d.root_element().child_elements().next() {
        Some(x) => x,
        None => sym::fail("child is missing"),
    };
    let want = meq(&c, &enter(&a, &none), &c, &sb);
    check!((x == &b) == want, if want { "equal elements do not compare equal" } else { "different elements compare equal" });
    check!((&b == x) == want, "equality is not symmetric");
    if want {
        check!(hashed(x) == hashed(&b), "equal elements hash differently");
    }
    sym::cover(if want { 1 } else { 2 });
}

/// elements looked up in two documents: the namespaces of the ancestors take part through the names that use them
pub fn c16_lookup() {
    let mk = |with: usize| {
        let mut r = el("r");
        for k in ["xmlns:p", "xmlns"] {
            match sym::choice(3) {
                0 => {}
                v => r = r.at(k, ["u", "v"][v - 1]),
            }
        }
        let declared = |r: &ME, p: bool| r.attrs.iter().any(|a| (a.0 == "xmlns:p") == p);
        let mut c = el("c");
        let p = declared(&r, true);
        match with {
            0 => {}
            1 => {
                sym::assume(p);
                c.prefix = Some("p".to_string());
            }
            _ => {
                sym::assume(p);
                let mut d = el("d");
                d.prefix = Some("p".to_string());
                c = c.kid(d.m());
            }
        }
        let m = r.kid(c.clone().m());
        let e = match sym::choice(2) {
            0 => build(&m, 0),
            _ => ok(kiss_xml::parse_str(build(&m, 0).to_string()), "the serialized form was refused").root_element().clone(),
        };
        (m, c, e)
    };
    let with = sym::choice(3);
    let (m1, c1, e1) = mk(with);
    let (m2, c2, e2) = mk(with);
    let get = |e: &Element| match e.child_elements().next() {
        Some(x) => x.clone(),
        None => sym::fail("child is missing"),
    };
    let (a, b) = (get(&e1), get(&e2));
    let none: Scope = vec![];
    let want = meq(&c1, &enter(&m1, &none), &c2, &enter(&m2, &none));
    check!((a == b) == want, if want { "equal elements do not compare equal" } else { "different elements compare equal" });
    check!((b == a) == want, "equality is not symmetric");
    if want {
        check!(hashed(&a) == hashed(&b), "equal elements hash differently");
    }
    let (a, b) = (a.boxed(), b.boxed());
    check!(node_eq(&a, &b) == want, "boxed elements compare differently");
    sym::cover(if want { 1 } else { 2 });
}
