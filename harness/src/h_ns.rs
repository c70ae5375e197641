//! C14: namespaces resolve to the nearest declaration in scope.
use crate::m::*;
use crate::{g, sym};
use kiss_xml::dom::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};

static SYMBOLIC: AtomicUsize = AtomicUsize::new(0);
static COUNT: AtomicUsize = AtomicUsize::new(0);
/// how many of the next URIs are symbolic
fn symbolic(n: usize) {
    SYMBOLIC.store(n, Ordering::Relaxed);
    COUNT.store(0, Ordering::Relaxed);
}
/// a URI for every declaration: the first ones any lower-case letter (so any two may be equal), then one of its own
fn uri() -> String {
    let mut s = String::new();
    let n = COUNT.fetch_add(1, Ordering::Relaxed);
    if n < SYMBOLIC.load(Ordering::Relaxed) {
        let v = g::ascii(&mut s);
        sym::assume((v >= b'a') & (v <= b'z'));
    } else {
        s.push((b'0' + n as u8) as char);
    }
    s
}
/// the declarations of one element
fn decl(mut e: ME, kinds: usize) -> ME {
    let k = sym::choice(kinds);
    if k == 0 {
        return e;
    }
    let u = uri();
    match k {
        1 => e = e.at("xmlns", &u),
        2 => e = e.at("xmlns:p", &u),
        3 => e = e.at("xmlns", &u).at("xmlns:p", &uri()),
        4 => e = e.at("xmlns:q", &u),
        5 => e = e.at("xmlns:p", &u).at("xmlns:q", &uri()),
        _ => e = e.at("xmlns", &u).at("xmlns:q", &uri()).at("k", "v").at("xmlns:p", &uri()),
    }
    e
}
/// an element with symbolic declarations and one of the prefixes (none, p, q)
fn ne(name: &str, decls: usize, prefixes: usize) -> ME {
    let mut e = decl(el(name), decls);
    e.prefix = match sym::choice(prefixes) {
        0 => None,
        1 => Some("p".to_string()),
        _ => Some("q".to_string()),
    };
    e
}
/// every prefix used is declared (nothing is claimed about undeclared prefixes)
fn declared(e: &ME, scope: &Scope) -> bool {
    let s = enter(e, scope);
    if let Some(p) = &e.prefix {
        if resolve(&s, p).is_none() {
            return false;
        }
    }
    e.kids.iter().all(|k| if let M::E(x) = k { declared(x, &s) } else { true })
}
pub fn write(e: &ME, o: &mut String) {
    let tag = match &e.prefix {
        Some(p) => [p.as_str(), ":", &e.name].concat(),
        None => e.name.clone(),
    };
    o.push('<');
    o.push_str(&tag);
    for (k, v) in &e.attrs {
        o.push(' ');
        o.push_str(k);
        o.push_str("=\"");
        o.push_str(&esc(v));
        o.push('"');
    }
    if e.kids.is_empty() {
        o.push_str("/>");
        return;
    }
    o.push('>');
    for k in &e.kids {
        match k {
            M::E(x) => write(x, o),
            M::T(t) => o.push_str(&esc(t)),
            M::C(t) => {
                o.push_str("<!--");
                o.push_str(t);
                o.push_str("-->");
            }
            M::D(t) => {
                o.push_str("<![CDATA[");
                o.push_str(t);
                o.push_str("]]>");
            }
        }
    }
    o.push_str("</");
    o.push_str(&tag);
    o.push('>');
}
fn parsed(m: &ME) {
    sym::assume(declared(m, &vec![]));
    let mut s = String::new();
    write(m, &mut s);
    let d = ok(kiss_xml::parse_str(s), "a document with declared prefixes was refused");
    agree(d.root_element(), m, &vec![], "parsed");
    sym::emit(d.to_string().as_bytes());
    sym::cover(1);
}
/// root > a > b, every element with its own declarations and prefix
pub fn c14_chain3() {
    symbolic(1);
    let b = ne("b", 6, 3);
    let a = ne("a", 6, 3).kid(b.m());
    let r = ne("r", 6, 3).kid(a.m());
    parsed(&r)
}
/// four levels, default and one prefix
pub fn c14_chain4() {
    symbolic(1);
    let c = ne("c", 2, 2);
    let b = ne("b", 4, 2).kid(c.m());
    let a = ne("a", 4, 2).kid(b.m());
    let r = ne("r", 4, 2).kid(a.m());
    parsed(&r)
}
/// four levels, everything
pub fn c14_chain4all() {
    symbolic(1);
    let c = ne("c", 4, 3);
    let b = ne("b", 6, 3).kid(c.m());
    let a = ne("a", 6, 3).kid(b.m());
    let r = ne("r", 6, 3).kid(a.m());
    parsed(&r)
}
/// scopes end with their element: siblings after closed or self-closing elements with declarations
pub fn c14_siblings() {
    symbolic(1);
    let inner = ne("i", 4, 2);
    let mut a = ne("a", 4, 2);
    if sym::choice(2) == 1 {
        a = a.kid(inner.m());
    }
    let b = ne("b", 2, 2).kid(ne("j", 1, 2).m());
    let r = ne("r", 4, 1).kid(a.m()).kid(M::T("t".to_string())).kid(b.m()).kid(ne("c", 1, 2).m());
    parsed(&r)
}
/// the prefix itself is symbolic, and so is that of the declaration
pub fn c14_prefix() {
    symbolic(4);
    let pre = |n: usize| {
        let mut p = String::new();
        g::one_of(&mut p, "abX_");
        if n == 1 {
            g::one_of(&mut p, "a-.1");
        }
        p
    };
    let n = sym::choice(2);
    let (p1, p2, p3, p4) = (pre(n), pre(0), pre(n), pre(sym::choice(2)));
    let xm = |p: &str| ["xmlns:", p].concat();
    let mut a = el("a").at(&xm(&p2), &uri());
    a.prefix = Some(p3);
    let mut b = el("b");
    b.prefix = Some(p4);
    let mut r = el("r").at(&xm(&p1), &uri()).at("xmlns", &uri());
    let c = el("c");
    if sym::choice(2) == 1 {
        r.prefix = Some(p1);
    }
    let a = a.kid(b.m()).kid(c.m());
    parsed(&r.kid(a.m()))
}
/// prefixes and URIs of any characters; the URI with entities
pub fn c14_chars() {
    let mut u = String::new();
    g::uni(&mut u);
    let mut p = String::from("p");
    g::uni(&mut p);
    // a ':' would be a second separator
    sym::assume(!p.contains(':'));
    let mut r = el("r").at(&["xmlns:", &p].concat(), &u).kid(el("c").m());
    let mut k = el("k").at("xmlns", &u).kid(el("l").m());
    k.prefix = Some(p.clone());
    r = r.kid(k.m());
    let mut s = String::new();
    write(&r, &mut s);
    let d = match kiss_xml::parse_str(s) {
        Ok(d) => d,
        Err(_) => {
            // then the character cannot be part of a prefix; the API must refuse it as well
            let none = Option::<HashMap<String, String>>::None;
            let x = Element::new("e", None, none, Some("u".to_string()), Some(p), None);
            check!(x.is_err(), "a prefix was refused by the parser but accepted by the constructor");
            sym::cover(2);
            return;
        }
    };
    agree(d.root_element(), &r, &vec![], "parsed");
    sym::emit(d.to_string().as_bytes());
    sym::cover(1);
}

/// put `k` into `e` in one of the possible ways; the list of children is kept in `m`
fn put(e: &mut Element, m: &mut ME, k: Element, km: ME, how: usize) {
    let n = m.kids.len();
    match how {
        0 => {
            e.append(k);
            m.kids.push(km.m());
        }
        1 => {
            e.append_boxed(k.boxed());
            m.kids.push(km.m());
        }
        2 => {
            e.append_all(vec![Text::new("t").boxed(), k.boxed(), ok(Element::new_from_name("z"), "constructor").boxed()]);
            m.kids.push(M::T("t".to_string()));
            m.kids.push(km.m());
            m.kids.push(el("z").m());
        }
        3 => {
            ok(e.insert(0, k), "insert");
            m.kids.insert(0, km.m());
        }
        4 => {
            ok(e.insert(n, k), "insert");
            m.kids.insert(n, km.m());
        }
        5 => {
            let i = if n > 0 { n - 1 } else { 0 };
            ok(e.insert(i, k), "insert");
            m.kids.insert(i, km.m());
        }
        6 => {
            // blank text in front of and behind it is dropped again
            e.append_all(vec![Text::new(" ").boxed(), k.boxed(), Text::new("\n").boxed()]);
            m.kids.push(km.m());
        }
        _ => {
            // several elements at once: each of them belongs to the scope
            let y = el("y").at("xmlns:q", "o");
            e.append_all(vec![build(&y, 0).boxed(), k.boxed()]);
            m.kids.push(y.m());
            m.kids.push(km.m());
        }
    }
}
fn starts(r: ME) -> ME {
    match sym::choice(4) {
        0 => r,
        1 => r.kid(M::T("x".to_string())).kid(el("s").m()),
        2 => r.kid(M::T("x".to_string())).kid(el("s").at("xmlns", "s").at("xmlns:p", "t").m()),
        _ => r.kid(el("s").at("xmlns", "s").m()).kid(M::C("c".to_string())),
    }
}
fn done(e: &Element, m: &ME) {
    agree(e, m, &vec![], "built");
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
/// top down: the parent is complete, the child with its own child is put into it in every way
pub fn c14_put() {
    symbolic(1);
    let mut m = starts(ne("r", 4, 2));
    let km = ne("k", 4, 2).kid(ne("l", 1, 2).m());
    sym::assume(declared(&m, &vec![]));
    let mut e = build(&m, sym::choice(2));
    let k = build(&km, 0);
    put(&mut e, &mut m, k, km, sym::choice(8));
    sym::assume(declared(&m, &vec![]));
    done(&e, &m)
}
/// bottom up: a prebuilt subtree three levels deep that uses prefixes of the future parents
pub fn c14_bottomup() {
    symbolic(1);
    let l = ne("l", 2, 3);
    let k = ne("k", 4, 3).kid(l.m());
    let j = ne("j", 2, 2).kid(k.m());
    let m = ne("r", 6, 2).kid(j.m());
    sym::assume(declared(&m, &vec![]));
    done(&build(&m, sym::choice(4)), &m)
}
/// the constructor's own namespace and prefix arguments override the attributes
pub fn c14_ctor() {
    symbolic(4);
    let none = Option::<HashMap<String, String>>::None;
    let u = uri();
    let w = uri();
    let mut m = el("r");
    let args: Option<HashMap<String, String>> = match sym::choice(3) {
        0 => none,
        1 => {
            m = m.at("xmlns", &w);
            Some([("xmlns".to_string(), w.clone())].into_iter().collect())
        }
        _ => {
            m = m.at("xmlns:p", &w).at("k", "v");
            Some([("xmlns:p".to_string(), w.clone()), ("k".to_string(), "v".to_string())].into_iter().collect())
        }
    };
    let pre = if sym::choice(2) == 1 { Some("p".to_string()) } else { None };
    m.prefix = pre.clone();
    let ns = if sym::choice(2) == 1 { Some(u.clone()) } else { None };
    if ns.is_some() {
        let key = if pre.is_some() { "xmlns:p" } else { "xmlns" };
        m.attrs.retain(|x| x.0 != key);
        m = m.at(key, &u);
    }
    sym::assume(declared(&m, &vec![]));
    let km = ne("k", 2, 2).kid(ne("l", 1, 2).m());
    let kids: Vec<Box<dyn Node>> = vec![Text::new("t").boxed(), build(&km, 0).boxed()];
    m = m.kid(M::T("t".to_string())).kid(km.m());
    sym::assume(declared(&m, &vec![]));
    let e = ok(Element::new("r", None, args, ns, pre, Some(kids)), "constructor");
    done(&e, &m)
}
/// an element deep inside of a finished tree gets a new child
pub fn c14_inside() {
    symbolic(1);
    let km = ne("k", 2, 2);
    let mut am = ne("a", 4, 2);
    let rm = ne("r", 4, 2);
    let mut e = build(&rm.clone().kid(am.clone().m()), 0);
    let parsed = sym::choice(2) == 1;
    sym::assume(declared(&rm.clone().kid(am.clone().m()), &vec![]));
    if parsed {
        let mut s = String::new();
        write(&rm.clone().kid(am.clone().m()), &mut s);
        let d = ok(kiss_xml::parse_str(s), "a document with declared prefixes was refused");
        e = d.root_element().clone();
    }
    let a = ok(e.first_element_by_name_mut("a"), "first_element_by_name_mut");
    put(a, &mut am, build(&km, 0), km, sym::choice(8));
    let m = rm.kid(am.m());
    sym::assume(declared(&m, &vec![]));
    done(&e, &m)
}
/// an element moves from one parent to another: only the new scope counts
pub fn c14_move() {
    symbolic(2);
    let km = ne("k", 2, 2).kid(ne("l", 1, 2).m());
    let am = ne("a", 4, 1);
    let mut bm = ne("b", 4, 1);
    let mut a = build(&am.clone().kid(km.clone().m()), 0);
    let mut b = build(&bm, 0);
    // the element has been in another scope before
    sym::assume(declared(&bm.clone().kid(km.clone().m()), &vec![]));
    let k = match sym::choice(2) {
        0 => {
            let x = ok(a.remove(0), "remove");
            ok(x.as_element(), "as_element").clone()
        }
        _ => {
            let x = a.child_elements().next();
            match x {
                Some(x) => x.clone(),
                None => sym::fail("the child is missing"),
            }
        }
    };
    put(&mut b, &mut bm, k, km, sym::choice(5));
    done(&b, &bm)
}
/// declarations are added, changed or removed afterwards
pub fn c14_redeclare() {
    symbolic(1);
    let km = ne("k", 4, 3).kid(ne("l", 1, 2).m());
    let mut m = ne("r", 6, 1).kid(km.m());
    let mut e = build(&m, 0);
    let key = ["xmlns", "xmlns:p", "xmlns:q", "other"][sym::choice(4)];
    let at_child = sym::choice(2) == 1;
    let op = sym::choice(3);
    let u = uri();
    let t = if at_child { ok(e.first_element_by_name_mut("k"), "first_element_by_name_mut") } else { &mut e };
    let tm = if at_child {
        match &mut m.kids[0] {
            M::E(x) => x,
            _ => return,
        }
    } else {
        &mut m
    };
    match op {
        0 => {
            ok(t.set_attr(key, u.as_str()), "set_attr");
            tm.attrs.retain(|x| x.0 != key);
            tm.attrs.push((key.to_string(), u));
        }
        1 => {
            t.remove_attr(key);
            tm.attrs.retain(|x| x.0 != key);
        }
        _ => {
            t.clear_attributes();
            tm.attrs.clear();
        }
    }
    sym::assume(declared(&m, &vec![]));
    done(&e, &m)
}
/// many elements at once, as an argument of append_all or of a constructor; each has its own namespace needs
pub fn c14_many() {
    symbolic(1);
    let mut m = ne("r", 4, 1);
    let n = 1 + sym::choice(6);
    let hot = sym::choice(n);
    let mut kids = vec![];
    for i in 0..n {
        if i % 3 == 2 {
            kids.push(M::T("t".to_string()));
        }
        let mut k = if i == hot { ne("k", 4, 2) } else { el(["a", "b"][i % 2]) };
        if i == hot {
            k = k.kid(ne("l", 1, 2).m());
        }
        kids.push(k.m());
    }
    let boxes: Vec<Box<dyn Node>> = kids.iter().map(|k| build_node(k, 0)).collect();
    let attrs: HashMap<String, String> = m.attrs.iter().cloned().collect();
    let what = "constructor";
    let mut e;
    match sym::choice(4) {
        0 => {
            e = ok(Element::new_with_attributes("r", attrs), what);
            e.append_all(boxes);
        }
        1 => e = ok(Element::new_with_attributes_and_children("r", attrs, boxes), what),
        2 => {
            e = build(&m, 0);
            for b in boxes {
                e.append_boxed(b);
            }
        }
        _ => {
            // below another element: the scope is that of the grandparent
            let mut top = build(&m, 0);
            top.append(ok(Element::new_from_name("in"), what));
            ok(top.first_element_by_name_mut("in"), "first_element_by_name_mut").append_all(boxes);
            let mut inner = el("in");
            inner.kids = kids;
            m.kids.push(inner.m());
            sym::assume(declared(&m, &vec![]));
            return done(&top, &m);
        }
    }
    m.kids = kids;
    sym::assume(declared(&m, &vec![]));
    done(&e, &m)
}

/// declarations set and removed on an element that has a prefix of its own, URIs that may coincide
fn set_ns(n: usize, deep: bool) -> (ME, Element, String) {
    let mut u = String::new();
    let mut w = String::new();
    for s in [&mut u, &mut w] {
        let v = g::ascii(s);
        sym::assume((v >= b'a') & (v <= b'z'));
    }
    let mut m = el("r").at("xmlns:p", &u);
    if sym::choice(2) == 1 {
        m.prefix = Some("p".to_string());
    }
    if sym::choice(2) == 1 {
        m = m.at("xmlns", &w);
    }
    let mut c = el("c").kid(el("d").m());
    c.prefix = Some("p".to_string());
    m = m.kid(el("b").kid(c.clone().m()).m());
    if deep {
        m = m.kid(c.at("xmlns", &u).m());
    }
    let (mut e, mut k) = match sym::choice(3) {
        0 => (build(&m, 0), 0),
        1 => (build(&m, 1), 0),
        _ => {
            let mut s = String::new();
            write(&m, &mut s);
            (ok(kiss_xml::parse_str(s), "a document with declared prefixes was refused").root_element().clone(), 0)
        }
    };
    for _ in 0..n {
        let a = ["xmlns", "xmlns:p", "xmlns:q", "k"][sym::choice(4)];
        let old = attr(&m.attrs, a).cloned();
        match sym::choice(3) {
            0 => {
                ok(e.set_attr(a, u.as_str()), "set_attr");
                m.attrs.retain(|x| x.0 != a);
                m = m.at(a, &u);
            }
            1 => {
                ok(e.set_attr(a, w.as_str()), "set_attr");
                m.attrs.retain(|x| x.0 != a);
                m = m.at(a, &w);
            }
            _ => {
                sym::assume(a != "xmlns:p");
                check!(e.remove_attr(a) == old, "the removed value");
                m.attrs.retain(|x| x.0 != a);
            }
        }
        k += 1;
        agree(&e, &m, &vec![], "after an edit of the declarations");
    }
    sym::emit(&[k]);
    (m, e, u)
}
fn setns(n: usize, deep: bool) {
    let (m, e, u) = set_ns(n, deep);
    let sc = vec![];
    let want = m.kids.iter().filter(|k| if let M::E(x) = k {
        let s = enter(x, &enter(&m, &sc));
        resolve(&s, x.prefix.as_deref().unwrap_or("")) == Some(&u)
    } else { false }).count();
    check!(e.elements_by_namespace(Some(u.as_str())).count() == want, "lookup by namespace after an edit of the declarations");
    let d = Document::new_with_decl_dtd(e, None, None);
    let p = ok(kiss_xml::parse_str(d.to_string()), "a serialized document does not parse");
    check!(p == d, "the parsed document differs");
    sym::emit(d.to_string().as_bytes());
    sym::cover(1);
}
pub fn c14_setns() {
    setns(1, true)
}
pub fn c14_setns2() {
    setns(2, false)
}
pub fn c14_setns3() {
    setns(3, true)
}
/// the edited element equals, and behaves like, one made that way
pub fn c26_setns() {
    let (m, e, u) = set_ns(1, true);
    let mut a = Document::new_with_decl_dtd(e, None, None);
    let mut b = Document::new_with_decl_dtd(build(&m, 0), None, None);
    crate::h_same::alike(&a, &b);
    for d in [&mut a, &mut b] {
        let mut x = el("n").kid(el("o").m());
        if sym::choice(1) == 0 && attr(&m.attrs, "xmlns:q").is_some() {
            x.prefix = Some("q".to_string());
        }
        d.root_element_mut().append(build(&x, 0));
        ok(d.root_element_mut().set_attr("xmlns", u.as_str()), "set_attr");
    }
    crate::h_same::alike(&a, &b);
    sym::cover(1);
}
