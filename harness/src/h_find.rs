//! C13: iteration, search and lookup.
use crate::m::*;
use crate::{g, sym};
use kiss_xml::dom::*;
use std::collections::HashMap;

fn txt(s: &str) -> M {
    M::T(s.to_string())
}
fn nm() -> String {
    let mut s = String::new();
    g::one_of(&mut s, "abc");
    s
}
/// the address of a node in its parent's list is its identity
type Id = *const Box<dyn Node>;
fn all<'a>(e: &'a Element, out: &mut Vec<&'a Box<dyn Node>>) {
    for c in e.children() {
        out.push(c);
        if let Ok(x) = c.as_element() {
            all(x, out);
        }
    }
}
fn once(got: &Vec<Id>, want: &Vec<Id>, what: &str) {
    for g in got {
        check!(want.contains(g), what);
    }
    for w in want {
        let n = got.iter().filter(|g| *g == w).count();
        if n != 1 {
            sym::fail(if n == 0 { "a node is missing" } else { "a node was visited more than once" });
        }
    }
}
fn id(b: &Box<dyn Node>) -> Id {
    b as Id
}
/// identity of an element, text or comment inside of its box
fn at<T>(x: &T) -> *const u8 {
    x as *const T as *const u8
}
fn inner(b: &Box<dyn Node>) -> *const u8 {
    (&**b) as *const dyn Node as *const u8
}
fn same_set(got: &Vec<*const u8>, want: &Vec<*const u8>) {
    for g in got {
        check!(want.contains(g), "a node that does not match was yielded");
    }
    for w in want {
        let n = got.iter().filter(|g| *g == w).count();
        if n != 1 {
            sym::fail(if n == 0 { "a matching node is missing" } else { "a node was yielded more than once" });
        }
    }
}
fn shape(k: usize) -> ME {
    let c = |s: &str| M::C(s.to_string());
    let d = |s: &str| M::D(s.to_string());
    match k {
        0 => el("r"),
        1 => el("r").kid(txt("0")),
        2 => el("r").kid(el(&nm()).kid(txt("0")).kid(el(&nm()).kid(c("1")).m()).m()).kid(txt("2")).kid(el(&nm()).m()).kid(d("3")),
        3 => el("r").kid(el("z").kid(el("z").kid(el("z").kid(el(&nm()).kid(txt("4")).m()).m()).m()).m()),
        4 => el("r").kid(c("0")).kid(el(&nm()).m()).kid(el(&nm()).kid(el(&nm()).m()).kid(el(&nm()).m()).m()).kid(c("5")),
        5 => el("r").kid(txt("0")).kid(el(&nm()).kid(txt("1")).kid(d("2")).kid(txt("3")).m()).kid(txt("4")).kid(el("a").kid(c("5")).kid(el("b").kid(txt("6")).m()).m()),
        6 => el("r").kid(el("z").kid(el(&nm()).kid(txt("1")).m()).kid(el(&nm()).m()).m()).kid(el("y").kid(el(&nm()).m()).kid(c("2")).kid(el("x").kid(el(&nm()).m()).m()).m()),
        _ => el("r").kid(el(&nm()).m()).kid(el(&nm()).m()).kid(txt("0")).kid(el(&nm()).m()),
    }
}
/// recursive forms
pub fn c13_recursive() {
    let m = shape(sym::choice(8));
    let e = build(&m, 0);
    agree(&e, &m, &vec![], "tree");
    let mut want = vec![];
    all(&e, &mut want);
    let ids: Vec<Id> = want.iter().map(|b| id(b)).collect();
    let nid: Vec<*const u8> = want.iter().map(|b| inner(b)).collect();
    let v = sym::var(7);
    let n = nm();
    // a predicate that is independent for every node
    let bit = |b: &Box<dyn Node>| {
        let p = inner(b);
        let k = nid.iter().position(|x| *x == p).unwrap_or(99);
        check!(k < 99, "a node was visited that is not in the tree");
        (v >> (k % 7)) & 1 == 1
    };
    match sym::choice(8) {
        0 => once(&e.children_recursive().map(id).collect(), &ids, "children_recursive: foreign node"),
        1 => once(&e.all_children().map(id).collect(), &ids, "all_children: foreign node"),
        2 => once(&e.search(|_| true).map(id).collect(), &ids, "search: foreign node"),
        3 => {
            let w: Vec<*const u8> = want.iter().filter(|b| bit(b)).map(|b| inner(b)).collect();
            same_set(&e.search(|b| bit(b)).map(inner).collect(), &w);
        }
        4 => {
            let w: Vec<*const u8> = want.iter().filter(|b| b.is_element() && bit(b)).map(|b| inner(b)).collect();
            let f = |x: &&Element| {
                let p = at(*x);
                let k = nid.iter().position(|y| *y == p).unwrap_or(99);
                check!(k < 99, "a node was visited that is not in the tree");
                (v >> (k % 7)) & 1 == 1
            };
            same_set(&e.search_elements(f).map(at).collect(), &w);
        }
        5 => {
            let w: Vec<*const u8> = want.iter().filter(|b| b.as_element().map(|x| x.name() == n).unwrap_or(false)).map(|b| inner(b)).collect();
            same_set(&e.search_elements_by_name(n.as_str()).map(at).collect(), &w);
        }
        6 => {
            let w: Vec<*const u8> = want.iter().filter(|b| b.is_text() && bit(b)).map(|b| inner(b)).collect();
            let f = |x: &&Text| {
                let p = at(*x);
                let k = nid.iter().position(|y| *y == p).unwrap_or(99);
                (v >> (k % 7)) & 1 == 1
            };
            same_set(&e.search_text(f).map(at).collect(), &w);
        }
        _ => {
            let w: Vec<*const u8> = want.iter().filter(|b| b.is_comment() && bit(b)).map(|b| inner(b)).collect();
            let f = |x: &&Comment| {
                let p = at(*x);
                let k = nid.iter().position(|y| *y == p).unwrap_or(99);
                (v >> (k % 7)) & 1 == 1
            };
            same_set(&e.search_comments(f).map(at).collect(), &w);
        }
    }
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
fn in_order(got: Vec<*const u8>, want: &Vec<*const u8>, what: &str) {
    if got != *want {
        bad(what, "does not yield exactly the matching direct children in document order");
    }
}
/// direct children with symbolic names, namespaces and prefixes
fn family() -> (Element, ME, Vec<(String, Option<String>, Option<String>)>) {
    // prefix p is bound to a symbolic URI, q to "v", the default namespace to nothing or to a symbolic URI
    let mut u = String::new();
    g::one_of(&mut u, "uvw");
    let root_default = sym::choice(2) == 1;
    let mut m = el("r").at("xmlns:p", &u).at("xmlns:q", "v");
    if root_default {
        m = m.at("xmlns", "w");
    }
    let mut e = build(&m, 2);
    let mut facts = vec![];
    let n = sym::choice(4);
    for i in 0..n {
        let name = nm();
        let kind = sym::choice(4);
        let none = Option::<HashMap<String, String>>::None;
        let (k, pre, ns) = match kind {
            0 => (ok(Element::new_from_name(&name), "constructor"), None, if root_default { Some("w".to_string()) } else { None }),
            1 => (ok(Element::new(name.as_str(), None, none, None, Some("p".to_string()), None), "constructor"), Some("p".to_string()), Some(u.clone())),
            2 => (ok(Element::new(name.as_str(), None, none, None, Some("q".to_string()), None), "constructor"), Some("q".to_string()), Some("v".to_string())),
            _ => {
                let mut x = String::new();
                g::one_of(&mut x, "uvw");
                (ok(Element::new(name.as_str(), None, none, Some(x.clone()), None, None), "constructor"), None, Some(x))
            }
        };
        let mut k = k;
        // a grandchild that must never be found by the non-recursive lookups
        k.append(ok(Element::new_from_name("a"), "constructor"));
        facts.push((name, pre, ns));
        if i == 1 {
            e.append(Text::new("t"));
            e.append(ok(Comment::new("c"), "constructor"));
        }
        e.append(k);
    }
    (e, m, facts)
}
pub fn c13_direct() {
    let (mut e, _m, facts) = family();
    let kids: Vec<*const u8> = e.children().filter(|b| b.is_element()).map(inner).collect();
    check!(kids.len() == facts.len(), "an appended element is missing");
    let pick = |f: &dyn Fn(&(String, Option<String>, Option<String>)) -> bool| -> Vec<*const u8> { (0..kids.len()).filter(|i| f(&facts[*i])).map(|i| kids[i]).collect() };
    let mode = sym::choice(6);
    let n = if sym::choice(4) == 3 { String::from(["", "p:a", "zz"][sym::choice(3)]) } else { nm() };
    // the namespace or prefix asked for: none, any of the ones used, the empty one, one that is not used
    let pick_of = |set: &str, on: bool| match if on { sym::choice(4) } else { 0 } {
        0 => None,
        1 => Some(String::new()),
        2 => Some("xmlns".to_string()),
        _ => {
            let mut x = String::new();
            g::one_of(&mut x, set);
            Some(x)
        }
    };
    let ns = pick_of("uvw", mode == 3);
    let pf = pick_of("pq", mode == 4);
    match mode {
        0 => {
            let w = pick(&|_| true);
            in_order(e.child_elements().map(at).collect(), &w, "child_elements");
            in_order(e.child_elements_mut().map(|x| at(x)).collect(), &w, "child_elements_mut");
        }
        1 => {
            let w = pick(&|f| f.0 == n);
            in_order(e.elements_by_name(n.as_str()).map(at).collect(), &w, "elements_by_name");
            in_order(e.elements_by_name_mut(n.as_str()).map(|x| at(x)).collect(), &w, "elements_by_name_mut");
        }
        2 => {
            let w = pick(&|f| f.0 == n);
            let a = e.first_element_by_name(n.as_str()).map(at).ok();
            let b = e.first_element_by_name_mut(n.as_str()).map(|x| at(x)).ok();
            check!(a == w.first().copied(), "first_element_by_name is not the first match");
            check!(b == w.first().copied(), "first_element_by_name_mut is not the first match");
        }
        3 => {
            let w = pick(&|f| f.2 == ns);
            in_order(e.elements_by_namespace(ns.as_deref()).map(at).collect(), &w, "elements_by_namespace");
            in_order(e.elements_by_namespace_mut(ns.as_deref()).map(|x| at(x)).collect(), &w, "elements_by_namespace_mut");
        }
        4 => {
            let w = pick(&|f| f.1 == pf);
            in_order(e.elements_by_namespace_prefix(pf.as_deref()).map(at).collect(), &w, "elements_by_namespace_prefix");
            in_order(e.elements_by_namespace_prefix_mut(pf.as_deref()).map(|x| at(x)).collect(), &w, "elements_by_namespace_prefix_mut");
        }
        _ => {
            let w: Vec<*const u8> = e.children().map(inner).collect();
            in_order(e.children_mut().map(|b| inner(b)).collect(), &w, "children_mut");
        }
    }
    sym::emit(&[facts.len() as u8]);
    sym::cover(1);
}
/// lookups by names of several characters of any kind: exact comparison
pub fn c13_names() {
    let mut a = String::from("n");
    let mut b = String::from("n");
    g::uni(&mut a);
    if sym::choice(2) == 1 {
        g::uni(&mut b);
    }
    let mk = |s: &str| match Element::new_from_name(s) {
        Ok(e) => Some(e),
        Err(_) => None,
    };
    let (x, y) = match (mk(&a), mk(&b)) {
        (Some(x), Some(y)) => (x, y),
        _ => return sym::cover(2),
    };
    let eq = a == b;
    let mut e = ok(Element::new_from_name("r"), "constructor");
    e.append(x);
    e.append(y);
    let want = if eq { 2 } else { 1 };
    check!(e.elements_by_name(b.as_str()).count() == want, "elements_by_name");
    check!(e.elements_by_name_mut(b.as_str()).count() == want, "elements_by_name_mut");
    check!(e.search_elements_by_name(a.as_str()).count() == want, "search_elements_by_name");
    let f = ok(e.first_element_by_name(b.as_str()), "first_element_by_name found nothing");
    check!(f.name() == b, "first_element_by_name");
    let second = e.child_elements().nth(1).map(at);
    let f = ok(e.first_element_by_name(b.as_str()), "first_element_by_name found nothing");
    check!((Some(at(f)) == second) == !eq, "first_element_by_name is not the first match");
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
/// a name with a colon in it names no prefixed element: names are compared without their prefix
pub fn c13_colon() {
    let k = el("a").kid(pre("p", "a").kid(el("b").m()).m()).m();
    let mut m = el("r").at("xmlns:p", "u").at("xmlns:a", "v").kid(k).kid(pre("a", "p").m()).kid(el("p").kid(txt("p:a")).m()).kid(M::C("p:a".to_string()));
    if sym::choice(2) == 1 {
        m.kids.push(pre("p", "p").m());
        m.kids.push(pre("p", "a").m());
    }
    let e = if sym::choice(2) == 0 {
        build(&m, 0)
    } else {
        let mut s = String::new();
        crate::h_ns::write(&m, &mut s);
        ok(kiss_xml::parse_str(s), "a well-formed document was refused").root_element().clone()
    };
    let mut n = String::new();
    for _ in 0..1 + sym::choice(3) {
        g::one_of(&mut n, "pa:bu");
    }
    found(e, &n);
}
/// any string asked for finds the elements with exactly this name (prefix, namespace)
pub fn c13_query() {
    let mut m = el("r").at("xmlns:p", "u").at("xmlns:A", "Ab").kid(pre("p", "a").kid(el("ab").m()).m()).kid(pre("A", "Ab").kid(el("a").m()).m());
    m = m.kid(el("a").kid(el("A").m()).m()).kid(el("e\u{e9}").m()).kid(el("ab").m()).kid(el("ab.").m()).kid(el("_").m()).kid(txt("a"));
    let e = build(&m, 0);
    let mut n = String::new();
    match sym::choice(5) {
        4 => {
            n.push('e');
            g::uni(&mut n);
        }
        k => {
            for _ in 0..k {
                g::ascii(&mut n);
            }
        }
    }
    found(e, &n);
}
fn found(e: Element, n: &str) {
    let mut want = vec![];
    all(&e, &mut want);
    let w: Vec<*const u8> = want.iter().filter(|b| b.as_element().map(|x| x.name() == n).unwrap_or(false)).map(|b| inner(b)).collect();
    same_set(&e.search_elements_by_name(n).map(at).collect(), &w);
    let d: Vec<*const u8> = e.children().filter(|b| b.as_element().map(|x| x.name() == n).unwrap_or(false)).map(|b| inner(b)).collect();
    same_set(&e.elements_by_name(n).map(at).collect(), &d);
    match e.first_element_by_name(n) {
        Ok(f) => check!(Some(&at(f)) == d.first(), "first_element_by_name"),
        Err(_) => check!(d.is_empty(), "first_element_by_name found nothing"),
    }
    let mut e = e;
    check!(e.elements_by_name_mut(n).count() == d.len(), "elements_by_name_mut");
    check!(e.first_element_by_name_mut(n).is_ok() == !d.is_empty(), "first_element_by_name_mut");
    // neither does a prefix with a colon, or a name as a prefix
    let p = e.children().filter(|b| b.as_element().map(|x| x.namespace_prefix().as_deref() == Some(n)).unwrap_or(false)).count();
    check!(e.elements_by_namespace_prefix(Some(n)).count() == p, "elements_by_namespace_prefix");
    let p = e.children().filter(|b| b.as_element().map(|x| x.namespace().as_deref() == Some(n)).unwrap_or(false)).count();
    check!(e.elements_by_namespace(Some(n)).count() == p, "elements_by_namespace");
    sym::emit(&[w.len() as u8, d.len() as u8, p as u8]);
    sym::cover(1);
}
fn pre(p: &str, n: &str) -> ME {
    let mut e = el(n);
    e.prefix = Some(p.to_string());
    e
}
/// a parsed document: every search at every element of the tree
pub fn c13_parsed() {
    let a = nm();
    let b = nm();
    let c = nm();
    let s = ["<r><", &a, ">1<!--2--><", &b, "><", &c, "/><", &a, "/>3</", &b, "></", &a, "><", &b, "><![CDATA[4]]></", &b, "></r>"].concat();
    let d = ok(kiss_xml::parse_str(s), "well-formed document refused");
    let n = nm();
    let mut todo: Vec<&Element> = vec![d.root_element()];
    while let Some(e) = todo.pop() {
        let mut want = vec![];
        all(e, &mut want);
        once(&e.children_recursive().map(id).collect(), &want.iter().map(|b| id(b)).collect(), "children_recursive: foreign node");
        let w: Vec<*const u8> = want.iter().filter(|b| b.as_element().map(|x| x.name() == n).unwrap_or(false)).map(|b| inner(b)).collect();
        same_set(&e.search_elements_by_name(n.as_str()).map(at).collect(), &w);
        let w: Vec<*const u8> = want.iter().filter(|b| b.is_text()).map(|b| inner(b)).collect();
        same_set(&e.search_text(|_| true).map(at).collect(), &w);
        let w: Vec<*const u8> = want.iter().filter(|b| b.is_comment()).map(|b| inner(b)).collect();
        same_set(&e.search_comments(|_| true).map(at).collect(), &w);
        for c in e.children() {
            if let Ok(x) = c.as_element() {
                todo.push(x);
            }
        }
    }
    sym::emit(d.to_string().as_bytes());
    sym::cover(1);
}
/// deep and wide trees of every size up to a bound
pub fn c13_size() {
    let n = sym::choice(8);
    let w = sym::choice(4);
    let mut name = String::new();
    g::one_of(&mut name, "ab");
    let mut cur = el(&name);
    for i in 0..n {
        let mut e = el(["a", "b"][i % 2]);
        for j in 0..w {
            e = e.kid(if j % 2 == 0 { el("a").m() } else { M::C("c".to_string()) });
        }
        cur = e.kid(cur.m());
    }
    let m = el("r").kid(cur.m()).kid(txt("end"));
    let e = build(&m, 0);
    let mut want = vec![];
    all(&e, &mut want);
    check!(want.len() == 2 + n * (w + 1), "size of the tree");
    once(&e.all_children().map(id).collect(), &want.iter().map(|b| id(b)).collect(), "all_children: foreign node");
    let k: Vec<*const u8> = want.iter().filter(|b| b.as_element().map(|x| x.name() == "a").unwrap_or(false)).map(|b| inner(b)).collect();
    same_set(&e.search_elements_by_name("a").map(at).collect(), &k);
    sym::emit(&[want.len() as u8]);
    sym::cover(1);
}
