//! C25: a change through any mutable access reaches exactly the node it names.
use crate::m::*;
use crate::{g, sym};
use kiss_xml::dom::*;

fn txt(s: &str) -> M {
    M::T(s.to_string())
}
/// one child by choice; texts are separated by other nodes when the tree is laid out
fn kid(i: usize) -> M {
    match sym::choice(7) {
        0 => el("a").kid(txt("t")).m(),
        1 => el("b").at("k", "v").kid(el("a").m()).m(),
        2 => {
            let mut e = el("a").kid(M::C("i".to_string()));
            e.prefix = Some("p".to_string());
            e.m()
        }
        3 => el("a").at("xmlns", "u").kid(el("b").m()).m(),
        4 => txt(["x", "y", "z"][i % 3]),
        5 => M::C("c".to_string()),
        _ => M::D("d".to_string()),
    }
}
fn root(n: usize) -> ME {
    let mut r = el("r").at("xmlns:p", "u");
    for i in 0..n {
        r.kids.push(kid(i));
    }
    r.kids = normalize(&r.kids);
    r
}
fn ns_of(e: &ME, sc: &Scope) -> Option<String> {
    let s = enter(e, sc);
    match &e.prefix {
        Some(p) => resolve(&s, p).cloned(),
        None => resolve(&s, "").cloned(),
    }
}
/// change the element and the model alike
fn change(e: &mut Element, m: &mut ME, hot: &str) {
    match sym::choice(7) {
        0 => {
            ok(e.set_attr("k", hot), "set_attr");
            m.attrs.push(("k".to_string(), hot.to_string()));
        }
        1 => {
            e.set_text(hot);
            m.kids = vec![txt(hot)];
        }
        2 => {
            e.append(ok(Element::new_with_text("n", hot), "constructor"));
            m.kids.push(el("n").kid(txt(hot)).m());
        }
        3 => {
            e.clear_children();
            m.kids.clear();
        }
        4 => {
            let had = attr(&m.attrs, "k").cloned();
            check!(e.remove_attr("k") == had, "remove_attr through a mutable access");
            m.attrs.retain(|x| x.0 != "k");
        }
        5 => {
            ok(e.insert(0, ok(Comment::new(hot), "comment")), "insert");
            m.kids.insert(0, M::C(hot.to_string()));
        }
        _ => {
            if m.kids.is_empty() {
                check!(e.remove(0).is_err(), "nothing to remove");
            } else {
                ok(e.remove(0), "remove");
                m.kids.remove(0);
                m.kids = normalize(&m.kids);
            }
        }
    }
}
fn change_node(c: &mut Box<dyn Node>, m: &mut M, hot: &str) {
    let how = sym::choice(3);
    match m {
        M::E(x) => {
            let e = match how {
                0 => ok(c.as_element_mut(), "as_element_mut"),
                1 => ok(c.as_node_mut().as_element_mut(), "as_element_mut"),
                _ => match c.as_any_mut().downcast_mut::<Element>() {
                    Some(e) => e,
                    None => sym::fail("as_any_mut"),
                },
            };
            change(e, x, hot)
        }
        M::T(s) => {
            let t = match how {
                0 => ok(c.as_text_mut(), "as_text_mut"),
                1 => ok(c.as_node_mut().as_text_mut(), "as_text_mut"),
                _ => match c.as_any_mut().downcast_mut::<Text>() {
                    Some(e) => e,
                    None => sym::fail("as_any_mut"),
                },
            };
            t.content = hot.to_string();
            *s = hot.to_string();
        }
        M::C(s) => {
            let t = match how {
                0 => ok(c.as_comment_mut(), "as_comment_mut"),
                1 => ok(c.as_node_mut().as_comment_mut(), "as_comment_mut"),
                _ => match c.as_any_mut().downcast_mut::<Comment>() {
                    Some(e) => e,
                    None => sym::fail("as_any_mut"),
                },
            };
            ok(t.set_content(hot), "set_content");
            *s = hot.to_string();
        }
        M::D(s) => {
            let t = match how {
                0 => ok(c.as_cdata_mut(), "as_cdata_mut"),
                1 => ok(c.as_node_mut().as_cdata_mut(), "as_cdata_mut"),
                _ => match c.as_any_mut().downcast_mut::<CData>() {
                    Some(e) => e,
                    None => sym::fail("as_any_mut"),
                },
            };
            ok(t.set_text(hot), "set_text");
            *s = hot.to_string();
        }
    }
}
/// the model's children that an access yields
fn sel(m: &ME, f: impl Fn(&ME) -> bool) -> Vec<usize> {
    let mut v = vec![];
    for (i, k) in m.kids.iter().enumerate() {
        if let M::E(e) = k {
            if f(e) {
                v.push(i);
            }
        }
    }
    v
}
fn pick(v: &[usize]) -> (usize, usize) {
    sym::assume(!v.is_empty());
    let i = sym::choice(v.len());
    (i, v[i])
}
fn nth<'a, T>(mut it: impl Iterator<Item = T> + 'a, i: usize) -> T {
    for _ in 0..i {
        if it.next().is_none() {
            sym::fail("a mutable access misses a node");
        }
    }
    match it.next() {
        Some(x) => x,
        None => sym::fail("a mutable access misses a node"),
    }
}
/// one change through an access of choice, on element `e` with model `m`
fn access(e: &mut Element, m: &mut ME, sc: &Scope, hot: &str) {
    let s = enter(m, sc);
    let at;
    let x = match sym::choice(7) {
        0 => {
            sym::assume(!m.kids.is_empty());
            let i = sym::choice(m.kids.len());
            return change_node(nth(e.children_mut(), i), &mut m.kids[i], hot);
        }
        1 => {
            let (i, k) = pick(&sel(m, |_| true));
            at = k;
            nth(e.child_elements_mut(), i)
        }
        2 => {
            let n = ["a", "b"][sym::choice(2)];
            let (i, k) = pick(&sel(m, |x| x.name == n));
            at = k;
            nth(e.elements_by_name_mut(n), i)
        }
        3 => {
            let n = ["a", "b"][sym::choice(2)];
            let v = sel(m, |x| x.name == n);
            sym::assume(!v.is_empty());
            at = v[0];
            ok(e.first_element_by_name_mut(n), "first_element_by_name_mut")
        }
        4 => {
            let n = ["u", ""][sym::choice(2)];
            let want = if n.is_empty() { None } else { Some(n.to_string()) };
            let (i, k) = pick(&sel(m, |x| ns_of(x, &s) == want));
            at = k;
            nth(e.elements_by_namespace_mut(if n.is_empty() { None } else { Some(n) }), i)
        }
        5 => {
            let n = ["p", ""][sym::choice(2)];
            let want = if n.is_empty() { None } else { Some(n.to_string()) };
            let (i, k) = pick(&sel(m, |x| x.prefix == want));
            at = k;
            nth(e.elements_by_namespace_prefix_mut(if n.is_empty() { None } else { Some(n) }), i)
        }
        _ => return change(e, m, hot),
    };
    if let M::E(y) = &mut m.kids[at] {
        change(x, y, hot)
    }
}
/// everything else stays: the whole document is the model's
fn settled(d: &Document, m: &ME, decl: bool) {
    agree(d.root_element(), m, &vec![], "after a change through a mutable access");
    let mut mm = m.clone();
    mm.kids = normalize(&mm.kids);
    let defs = DEFS();
    let f = Document::new_with_decl_dtd(build(&mm, 0), d.declaration().clone(), if decl { Some(&defs) } else { None });
    check!(*d == f, "the document differs from one built like it");
    let s = d.to_string();
    check!(s == f.to_string(), "the text of the document differs from that of one built like it");
    sym::emit(s.as_bytes());
}
#[allow(non_snake_case)]
fn DEFS() -> Vec<DTD> {
    vec![ok(DTD::from_string("<!DOCTYPE a>"), "DTD"), ok(DTD::from_string("<!DOCTYPE b>"), "DTD")]
}
fn hot() -> String {
    let mut s = String::new();
    g::uni(&mut s);
    sym::assume(!blank(&s));
    s
}
fn hota() -> String {
    let mut s = String::from("h");
    g::ascii(&mut s);
    s
}
fn one(n: usize, uni: bool, how: usize) {
    let mut m = root(n);
    let mut d = if how == 4 {
        let mut s = String::new();
        crate::h_ns::write(&m, &mut s);
        ok(kiss_xml::parse_str(s), "a well-formed document was refused")
    } else {
        Document::new_with_decl_dtd(build(&m, how), None, None)
    };
    d.set_doctype_defs(Some(&DEFS()));
    let h = if uni { hot() } else { hota() };
    access(d.root_element_mut(), &mut m, &vec![], &h);
    settled(&d, &m, true);
    sym::cover(1);
}
pub fn c25_one() {
    one(2, false, 0)
}
pub fn c25_uni() {
    one(1, true, 4)
}
pub fn c25_parsed() {
    one(2, false, 4)
}
pub fn c25_three() {
    one(3, false, [0, 4][sym::choice(2)])
}
/// two changes, one after the other, through different accesses
pub fn c25_two() {
    let mut m = root(2);
    let mut d = Document::new_with_decl_dtd(build(&m, 0), Some(Declaration::new()), None);
    let h = hota();
    access(d.root_element_mut(), &mut m, &vec![], &h);
    m.kids = normalize(&m.kids);
    access(d.root_element_mut(), &mut m, &vec![], "w");
    settled(&d, &m, false);
    sym::cover(1);
}
/// a change two levels down
pub fn c25_nested() {
    let mut m = el("r").at("xmlns:p", "u").kid(root(1).m()).kid(txt("x")).kid(root(1).m()).kid(M::C("c".to_string()));
    if sym::choice(2) == 1 {
        m.kids.swap(0, 3);
    }
    let mut d = Document::new(build(&m, 0));
    let h = hota();
    let i = sym::choice(2);
    let k = sel(&m, |_| true)[i];
    let sc = enter(&m, &vec![]);
    let e = d.root_element_mut();
    let x = match sym::choice(3) {
        0 => nth(e.child_elements_mut(), i),
        1 => nth(e.elements_by_name_mut("r"), i),
        _ => ok(nth(e.children_mut(), k).as_element_mut(), "as_element_mut"),
    };
    if let M::E(y) = &mut m.kids[k] {
        access(x, y, &sc, &h);
    }
    settled(&d, &m, false);
    sym::cover(1);
}
/// looking through every mutable access changes nothing
fn look(e: &mut Element, depth: usize) -> usize {
    let mut n = 0;
    for c in e.children_mut() {
        let _ = c.as_node_mut();
        let _ = c.as_any_mut();
        let _ = (c.as_text_mut().is_ok(), c.as_comment_mut().is_ok(), c.as_cdata_mut().is_ok());
        n += 1;
        if depth > 0 {
            if let Ok(x) = c.as_element_mut() {
                n += look(x, depth - 1);
            }
        }
    }
    n += e.child_elements_mut().count();
    for x in ["a", "b", "q"] {
        n += e.elements_by_name_mut(x).count();
        n += e.first_element_by_name_mut(x).is_ok() as usize;
    }
    for x in [None, Some("u"), Some("w")] {
        n += e.elements_by_namespace_mut(x).count();
    }
    for x in [None, Some("p"), Some("q")] {
        n += e.elements_by_namespace_prefix_mut(x).count();
    }
    n
}
pub fn c25_look() {
    let mut m = root(2);
    let h = hot();
    m = m.at("k", &h);
    m.kids.push(el("e").kid(txt(&h)).m());
    let mut d = Document::new(build(&m, 0));
    d.set_doctype_defs(Some(&DEFS()));
    let n = look(d.root_element_mut(), 2);
    check!(d.doctype_defs_mut().count() == 2, "number of definitions");
    check!(look(d.root_element_mut(), 2) == n, "a second look finds something else");
    settled(&d, &m, true);
    sym::cover(1);
}
/// every node named by one access changed at once
pub fn c25_all() {
    let mut m = root(3);
    let mut d = Document::new(build(&m, 0));
    let h = hota();
    let s = enter(&m, &vec![]);
    let e = d.root_element_mut();
    let k: Vec<usize>;
    match sym::choice(5) {
        0 => {
            k = sel(&m, |_| true);
            for x in e.child_elements_mut() {
                ok(x.set_attr("n", h.as_str()), "set_attr");
            }
        }
        1 => {
            k = sel(&m, |x| x.name == "a");
            for x in e.elements_by_name_mut("a") {
                ok(x.set_attr("n", h.as_str()), "set_attr");
            }
        }
        2 => {
            k = sel(&m, |x| ns_of(x, &s).as_deref() == Some("u"));
            for x in e.elements_by_namespace_mut(Some("u")) {
                ok(x.set_attr("n", h.as_str()), "set_attr");
            }
        }
        3 => {
            k = sel(&m, |x| x.prefix.is_none());
            for x in e.elements_by_namespace_prefix_mut(None) {
                ok(x.set_attr("n", h.as_str()), "set_attr");
            }
        }
        _ => {
            for x in e.children_mut() {
                if let Ok(t) = x.as_text_mut() {
                    t.content.push_str(&h);
                }
                if let Ok(t) = x.as_comment_mut() {
                    let c = [t.get_content(), h.as_str()].concat();
                    ok(t.set_content(c), "set_content");
                }
            }
            for x in m.kids.iter_mut() {
                if let M::T(t) | M::C(t) = x {
                    t.push_str(&h);
                }
            }
            settled(&d, &m, false);
            return sym::cover(1);
        }
    }
    for i in k {
        if let M::E(x) = &mut m.kids[i] {
            x.attrs.push(("n".to_string(), h.clone()));
        }
    }
    settled(&d, &m, false);
    sym::cover(1);
}
/// the definitions and the declaration
pub fn c25_prolog() {
    let m = root(1);
    let mut d = Document::new_with_decl_dtd(build(&m, 0), Some(Declaration::new()), Some(&DEFS()));
    let mut t = String::from("<!DOCTYPE n");
    g::ascii(&mut t);
    t.push('>');
    let n = match DTD::from_string(t.as_str()) {
        Ok(n) => n,
        Err(_) => return sym::cover(2),
    };
    let i = sym::choice(2);
    *nth(d.doctype_defs_mut(), i) = n.clone();
    let mut want = DEFS();
    want[i] = n;
    let got: Vec<&DTD> = d.doctype_defs().collect();
    check!(got.len() == 2 && *got[0] == want[0] && *got[1] == want[1], "a definition changed in place");
    let f = Document::new_with_decl_dtd(build(&m, 0), Some(Declaration::new()), Some(&want));
    check!(d == f && d.to_string() == f.to_string(), "the document differs from one built like it");
    agree(d.root_element(), &m, &vec![], "after a change of a definition");
    sym::emit(d.to_string().as_bytes());
    sym::cover(1);
}
/// a long list: the node named in the middle of many
pub fn c25_big() {
    let n = [40, 130][sym::choice(2)];
    let mut m = el("r").at("xmlns:p", "u");
    for i in 0..n {
        m.kids.push(match i % 4 {
            0 => el(["a", "b"][i / 4 % 2]).m(),
            1 => M::C("c".to_string()),
            2 => txt("t"),
            _ => {
                let mut e = el("a");
                e.prefix = Some("p".to_string());
                e.m()
            }
        });
    }
    let mut d = Document::new(build(&m, 2));
    let h = hota();
    let e = d.root_element_mut();
    let (v, x);
    let last = sym::choice(3);
    let at = |v: &Vec<usize>| [0, v.len() / 2, v.len() - 1][last];
    match sym::choice(4) {
        0 => {
            v = sel(&m, |_| true);
            x = nth(e.child_elements_mut(), at(&v));
        }
        1 => {
            v = sel(&m, |x| x.name == "a");
            x = nth(e.elements_by_name_mut("a"), at(&v));
        }
        2 => {
            v = sel(&m, |x| x.prefix.is_some());
            x = nth(e.elements_by_namespace_mut(Some("u")), at(&v));
        }
        _ => {
            v = sel(&m, |x| x.prefix.is_none());
            x = nth(e.elements_by_namespace_prefix_mut(None), at(&v));
        }
    }
    x.append(Text::new(h.as_str()));
    let i = v[at(&v)];
    if let M::E(y) = &mut m.kids[i] {
        y.kids.push(txt(&h));
    }
    agree(d.root_element(), &m, &vec![], "after a change through a mutable access");
    sym::emit(d.to_string().as_bytes());
    sym::cover(1);
}
/// text blanked or emptied in place stays a node, whatever is looked at later
pub fn c25_blank() {
    let mut b = String::new();
    for _ in 0..sym::choice(2) {
        g::uni(&mut b);
    }
    let mut m = el("r").kid(txt("t")).kid(el("a").kid(txt("u")).m()).kid(M::C("c".to_string())).kid(txt("v"));
    if sym::choice(2) == 1 {
        m.kids.swap(0, 1);
    }
    let mut d = if sym::choice(2) == 0 {
        Document::new_with_decl_dtd(build(&m, 0), None, None)
    } else {
        let mut s = String::new();
        crate::h_ns::write(&m, &mut s);
        ok(kiss_xml::parse_str(s), "a well-formed document was refused")
    };
    let k = [0, 1, 2, 3][sym::choice(4)];
    let c = nth(d.root_element_mut().children_mut(), k);
    match &mut m.kids[k] {
        M::T(t) => {
            ok(c.as_text_mut(), "as_text_mut").content = b.clone();
            *t = b.clone();
        }
        M::C(t) => {
            ok(ok(c.as_comment_mut(), "as_comment_mut").set_content(b.as_str()), "set_content");
            *t = b.clone();
        }
        M::E(x) => {
            let e = ok(c.as_element_mut(), "as_element_mut");
            ok(nth(e.children_mut(), 0).as_text_mut(), "as_text_mut").content = b.clone();
            x.kids[0] = M::T(b.clone());
        }
        M::D(_) => {}
    }
    let exact = |d: &Document| {
        let r = d.root_element();
        check!(r.children().count() == m.kids.len(), "a node is gone");
        let sc = vec![];
        for (x, y) in r.children().zip(m.kids.iter()) {
            match (x.as_element(), y) {
                (Ok(e), M::E(z)) => {
                    check!(e.children().count() == 1, "a node is gone");
                    for w in e.children() {
                        agree_node(w, &z.kids[0], &sc, "after a change in place");
                    }
                }
                _ => agree_node(x, y, &sc, "after a change in place"),
            }
        }
    };
    exact(&d);
    look(d.root_element_mut(), 2);
    exact(&d);
    let _ = d.to_string();
    let _ = d.root_element().text();
    exact(&d);
    sym::emit(d.to_string().as_bytes());
    sym::cover(1);
}
/// text of any characters, reached through a cast
pub fn c25_text() {
    let mut t = String::from("x");
    for _ in 0..2 {
        g::ascii(&mut t);
    }
    let mut e = ok(Element::new_with_text("r", t.as_str()), "constructor");
    e.append(ok(CData::new("d"), "CData"));
    let mut n = 0;
    for c in e.children_mut() {
        match n {
            0 => check!(ok(c.as_text_mut(), "as_text_mut").content == t, "text through a cast"),
            _ => check!(c.as_text_mut().is_err(), "a CDATA section cast to text"),
        }
        n += 1;
    }
    check!(n == 2, "number of nodes");
    let m = el("r").kid(txt(&t)).kid(M::D("d".to_string()));
    agree(&e, &m, &vec![], "after casts");
    let mut b: Box<dyn Node> = Text::new(t.as_str()).boxed();
    let _ = b.as_text_mut();
    check!(ok(b.as_text(), "as_text").content == t, "text after a cast");
    ok(b.as_node_mut().as_text_mut(), "as_text_mut").content.push('z');
    t.push('z');
    check!(ok(b.as_text(), "as_text").content == t && b.text() == t, "text after a change");
    sym::emit(t.as_bytes());
    sym::cover(1);
}
/// definitions that are equal to each other, looked at and changed in place
pub fn c25_defs() {
    let mut t = String::from("<!DOCTYPE n");
    g::ascii(&mut t);
    t.push('>');
    let n = match DTD::from_string(t.as_str()) {
        Ok(n) => n,
        Err(_) => return sym::cover(2),
    };
    let a = DEFS()[0].clone();
    let mut v: Vec<DTD> = vec![];
    for _ in 0..3 {
        v.push(if sym::choice(2) == 0 { a.clone() } else { n.clone() });
    }
    let m = el("r").kid(txt("t"));
    let mut d = Document::new_with_decl_dtd(build(&m, 0), None, Some(&v));
    let i = sym::choice(4);
    if i < 3 {
        *nth(d.doctype_defs_mut(), i) = n.clone();
        v[i] = n;
    }
    check!(d.doctype_defs_mut().count() == 3, "number of definitions");
    let got: Vec<&DTD> = d.doctype_defs().collect();
    check!(got.len() == 3 && *got[0] == v[0] && *got[1] == v[1] && *got[2] == v[2], "definitions after a look at them");
    let f = Document::new_with_decl_dtd(build(&m, 0), None, Some(&v));
    check!(d == f && d.to_string() == f.to_string(), "the document differs from one built like it");
    sym::emit(d.to_string().as_bytes());
    sym::cover(1);
}
/// the first of several elements that share a local name, some with a prefix
pub fn c25_first() {
    let mut m = el("r").at("xmlns:p", "u");
    for i in 0..3 {
        let mut e = el(["a", "b"][sym::choice(2)]).at("n", ["0", "1", "2"][i]);
        if sym::choice(2) == 1 {
            e.prefix = Some("p".to_string());
        }
        m.kids.push(e.m());
        if i == 0 {
            m.kids.push(M::C("c".to_string()));
        }
    }
    let mut d = Document::new(build(&m, 0));
    let h = hota();
    let v = sel(&m, |x| x.name == "a");
    match d.root_element_mut().first_element_by_name_mut("a") {
        Err(_) => check!(v.is_empty(), "the first element of a name is not found"),
        Ok(e) => {
            check!(!v.is_empty(), "an element that is not there");
            ok(e.set_attr("k", h.as_str()), "set_attr");
            if let M::E(x) = &mut m.kids[v[0]] {
                x.attrs.push(("k".to_string(), h));
            }
        }
    }
    settled(&d, &m, false);
    sym::cover(1);
}
pub fn warm() {
    let mut m = root(2);
    let mut d = if sym::choice(2) == 0 {
        let mut s = String::new();
        crate::h_ns::write(&m, &mut s);
        ok(kiss_xml::parse_str(s), "a well-formed document was refused")
    } else {
        Document::new_with_decl_dtd(build(&m, 0), None, None)
    };
    d.set_doctype_defs(Some(&DEFS()));
    let h = hota();
    crate::h_same::alike(&d, &d);
    access(d.root_element_mut(), &mut m, &vec![], &h);
    settled(&d, &m, true);
    let mut mm = m.clone();
    mm.kids = normalize(&mm.kids);
    let f = Document::new_with_decl_dtd(build(&mm, 0), d.declaration().clone(), Some(&DEFS()));
    crate::h_same::alike(&d, &f);
    sym::cover(1);
}
