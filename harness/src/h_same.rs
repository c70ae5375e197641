//! C26: equal documents are interchangeable, whichever way they came about.
use crate::h_ns::write;
use crate::m::*;
use crate::{g, sym};
use kiss_xml::dom::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn txt(s: &str) -> M {
    M::T(s.to_string())
}
/// the document, in the way `how`
fn make(m: &ME, how: usize) -> Document {
    let mut d = bare(m, how);
    d.set_declaration(Some(Declaration::new()));
    d
}
fn bare(m: &ME, how: usize) -> Document {
    match how {
        0 => Document::new(build(m, 0)),
        1 => Document::new(build(m, 1)),
        2 => Document::new(build(m, 3)),
        3 => {
            let mut s = String::new();
            write(m, &mut s);
            ok(kiss_xml::parse_str(s), "a well-formed document was refused")
        }
        4 => ok(kiss_xml::parse_str(Document::new(build(m, 2)).to_string_with_indent("\t")), "a serialized document does not parse"),
        5 => {
            let mut s = String::new();
            write(m, &mut s);
            let d = ok(kiss_xml::parse_str(s), "a well-formed document was refused");
            Document::new(d.root_element().clone())
        }
        6 => {
            // with more than it needs, which is then removed
            let mut e = build(m, 0);
            ok(e.set_attr("xmlns:zz", "zz"), "set_attr");
            ok(e.set_attr("extra", "1"), "set_attr");
            ok(e.insert(0, ok(Element::new_with_text("extra", "x"), "constructor")), "insert");
            e.append(ok(Element::new_with_text("extra", "y"), "constructor"));
            let d0 = e.remove_attr("xmlns:zz");
            let d1 = e.remove_attr("extra");
            check!(d0.as_deref() == Some("zz") && d1.as_deref() == Some("1"), "removed attributes");
            check!(e.remove_elements_by_name("extra") == 2, "removed elements");
            Document::new(e)
        }
        7 => {
            // another element's content replaced
            let mut d = ok(kiss_xml::parse_str("<r><old xmlns='o'>text</old>t</r>"), "a well-formed document was refused");
            let e = d.root_element_mut();
            e.clear_children();
            for (k, v) in &m.attrs {
                ok(e.set_attr(k.as_str(), v.as_str()), "set_attr");
            }
            for k in &m.kids {
                e.append_boxed(build_node(k, 0));
            }
            d
        }
        _ => {
            // the root replaced, in a document that had another
            let mut d = ok(kiss_xml::parse_str("<q xmlns='o' xmlns:p='o'><old/></q>"), "a well-formed document was refused");
            *d.root_element_mut() = build(m, 0);
            d
        }
    }
}
const WAYS: usize = 9;
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
/// the same answer to every query
pub fn ask(a: &Element, b: &Element) {
    check!(a == b && b == a, "equality");
    check!(hash(a) == hash(b), "hash");
    check!(a.partial_cmp(b) == a.partial_cmp(a), "order");
    check!(a.tag_name() == b.tag_name() && a.name() == b.name() && a.namespace_prefix() == b.namespace_prefix(), "names");
    check!(a.namespace() == b.namespace(), "namespace");
    check!(a.default_namespace() == b.default_namespace(), "default namespace");
    check!(a.namespace_prefixes() == b.namespace_prefixes(), "declared prefixes");
    check!(a.attributes() == b.attributes(), "attributes");
    check!(a.text() == b.text(), "text");
    check!(a.to_string() == b.to_string() && a.to_string_with_indent("\t") == b.to_string_with_indent("\t"), "serialized text");
    check!(a.children().count() == b.children().count(), "number of children");
    check!(a.children_recursive().count() == b.children_recursive().count(), "number of nodes");
    let (mut x, mut y) = (a.children_recursive(), b.children_recursive());
    while let (Some(u), Some(v)) = (x.next(), y.next()) {
        check!(node_eq(u, v) && u.node_type() == v.node_type() && u.text() == v.text(), "nodes below");
        if let (Ok(u), Ok(v)) = (u.as_element(), v.as_element()) {
            check!(u.namespace() == v.namespace() && u.default_namespace() == v.default_namespace(), "namespace of an element below");
        }
    }
    for n in ["a", "b", "r", "q"] {
        check!(a.elements_by_name(n).count() == b.elements_by_name(n).count(), "elements by name");
        check!(a.search_elements_by_name(n).count() == b.search_elements_by_name(n).count(), "search by name");
        check!(a.first_element_by_name(n).ok() == b.first_element_by_name(n).ok(), "first element by name");
    }
    for n in [None, Some("u"), Some("w")] {
        check!(a.elements_by_namespace(n).count() == b.elements_by_namespace(n).count(), "elements by namespace");
    }
    for n in [None, Some("p"), Some("q")] {
        check!(a.elements_by_namespace_prefix(n).count() == b.elements_by_namespace_prefix(n).count(), "elements by prefix");
    }
    check!(a.search_text(|_| true).count() == b.search_text(|_| true).count(), "texts");
    check!(a.search_comments(|_| true).count() == b.search_comments(|_| true).count(), "comments");
    check!(a.child_elements().count() == b.child_elements().count(), "child elements");
}
fn new_child(hot: &str, k: usize) -> Box<dyn Node> {
    match k {
        0 => ok(Element::new_with_text("n", hot), "constructor").boxed(),
        1 => build(&pre("p", "n").kid(el("i").m()), 0).boxed(),
        2 => build(&pre("zz", "n"), 0).boxed(),
        3 => Text::new(hot).boxed(),
        _ => ok(Comment::new(hot), "comment").boxed(),
    }
}
fn pre(p: &str, n: &str) -> ME {
    let mut e = el(n);
    e.prefix = Some(p.to_string());
    e
}
/// one edit; what it returned
fn edit(e: &mut Element, op: usize, at: usize, hot: &str, k: usize) -> String {
    let mut r = String::new();
    match op {
        0 => e.append_boxed(new_child(hot, k)),
        1 => {
            let res = match k {
                0 | 1 | 2 => e.insert(at, ok(new_child(hot, k).as_element(), "element").clone()),
                3 => e.insert(at, Text::new(hot)),
                _ => e.insert(at, ok(Comment::new(hot), "comment")),
            };
            if let Err(x) = res {
                r = x.to_string();
            }
        }
        2 => match e.remove(at) {
            Ok(n) => r = n.to_string(),
            Err(x) => r = x.to_string(),
        },
        3 => match e.remove_element(at) {
            Ok(n) => r = n.to_string(),
            Err(x) => r = x.to_string(),
        },
        4 => {
            let n = ["xmlns", "xmlns:p", "k", "a b"][k % 4];
            if let Err(x) = e.set_attr(n, hot) {
                r = x.to_string();
            }
        }
        5 => r = e.remove_attr(["xmlns", "xmlns:p", "k"][k % 3]).unwrap_or_default(),
        6 => r = e.remove_elements_by_name(["a", "b"][k % 2]).to_string(),
        7 => r = e.remove_all(&|n| n.is_text() || n.is_comment()).to_string(),
        8 => e.set_text(hot),
        9 => e.append_all(vec![new_child(hot, k), Text::new("w").boxed()]),
        10 => {
            // a child moved into its next sibling
            if let Ok(n) = e.remove_element(0) {
                if e.child_elements().next().is_some() {
                    for x in e.child_elements_mut().take(1) {
                        x.append(n.clone());
                    }
                } else {
                    e.append(n);
                }
            }
        }
        _ => {
            e.clear_attributes();
            r = e.remove_elements(|x| x.namespace().is_none()).to_string();
        }
    }
    r
}
fn kid(k: usize) -> M {
    match k {
        0 => el("a").kid(txt("t")).m(),
        1 => pre("p", "b").at("k", "v").kid(el("a").m()).m(),
        2 => el("b").at("xmlns", "w").kid(pre("p", "a").m()).m(),
        3 => txt("x "),
        4 => M::C("c".to_string()),
        5 => M::D("d".to_string()),
        _ => el("a").at("xmlns:p", "w").kid(pre("p", "b").kid(el("a").m()).m()).m(),
    }
}
fn doc(n: usize) -> ME {
    let mut m = el("r").at("xmlns:p", "u");
    if sym::choice(2) == 1 {
        m = m.at("xmlns", "w").at("k", "1");
    }
    for _ in 0..n {
        m.kids.push(kid(sym::choice(7)));
    }
    m.kids = normalize(&m.kids);
    m
}
/// one edit: (which, index, variant)
fn op() -> (usize, usize, usize) {
    let o = sym::choice(12);
    let at = if (1..4).contains(&o) { sym::choice(4) } else { 0 };
    let k = match o {
        0 | 1 | 9 => sym::choice(5),
        4 => sym::choice(4),
        5 => sym::choice(3),
        6 => sym::choice(2),
        _ => 0,
    };
    (o, at, k)
}
pub fn alike(a: &Document, b: &Document) {
    check!(a == b && b == a, "documents with the same content are not equal");
    check!(a.to_string() == b.to_string(), "equal documents have different text");
    ask(a.root_element(), b.root_element());
}
fn hot() -> String {
    let mut s = String::from("h");
    g::ascii(&mut s);
    s
}
fn run(m: &ME, x: usize, y: usize, edits: usize, h: &str) {
    let (mut a, mut b) = (make(m, x), make(m, y));
    alike(&a, &b);
    for _ in 0..edits {
        let (o, at, k) = op();
        let p = edit(a.root_element_mut(), o, at, h, k);
        let q = edit(b.root_element_mut(), o, at, h, k);
        check!(p == q, "the same edit of equal documents returns something else");
        alike(&a, &b);
    }
    sym::emit(a.to_string().as_bytes());
    sym::cover(1);
}
pub fn c26_one() {
    let m = doc(1);
    let w = 1 + sym::choice(WAYS - 1);
    run(&m, 0, w, 1, &hot());
}
/// an edit one level down
pub fn c26_nested() {
    let mut m = el("r").at("xmlns:p", "u").kid(doc(1).m()).kid(txt("x")).kid(kid(sym::choice(7)));
    m.kids = normalize(&m.kids);
    let (mut a, mut b) = (make(&m, 0), make(&m, 1 + sym::choice(WAYS - 1)));
    alike(&a, &b);
    let h = hot();
    let (o, at, k) = op();
    let p = edit(ok(a.root_element_mut().first_element_by_name_mut("r"), "first"), o, at, &h, k);
    let q = edit(ok(b.root_element_mut().first_element_by_name_mut("r"), "first"), o, at, &h, k);
    check!(p == q, "the same edit of equal documents returns something else");
    alike(&a, &b);
    sym::emit(a.to_string().as_bytes());
    sym::cover(1);
}
pub fn c26_nestedq() {
    let mut m = el("r").at("xmlns:p", "u").kid(doc(1).m()).kid(kid(1));
    m.kids = normalize(&m.kids);
    let (mut a, mut b) = (make(&m, 1), make(&m, [3, 5, 6][sym::choice(3)]));
    let h = hot();
    let (o, at, k) = op();
    let p = edit(ok(a.root_element_mut().first_element_by_name_mut("r"), "first"), o, at, &h, k);
    let q = edit(ok(b.root_element_mut().first_element_by_name_mut("r"), "first"), o, at, &h, k);
    check!(p == q, "the same edit of equal documents returns something else");
    alike(&a, &b);
    sym::emit(a.to_string().as_bytes());
    sym::cover(1);
}
pub fn c26_two() {
    let m = doc(1);
    let w = 1 + sym::choice(WAYS - 1);
    run(&m, 0, w, 2, &hot());
}
pub fn c26_wide() {
    let m = doc(2);
    let w = 1 + sym::choice(WAYS - 1);
    run(&m, 0, w, 1, &hot());
}
/// no edit: contents with arbitrary characters
pub fn c26_uni() {
    let mut h = String::new();
    g::uni(&mut h);
    sym::assume(!blank(&h));
    let m = match sym::choice(4) {
        0 => el("r").kid(txt(&h)),
        1 => el("r").at("k", &h).kid(el("a").m()),
        2 => el("r").kid(M::C(h.clone())).kid(pre("p", "a").at("xmlns:p", &h).m()),
        _ => el("r").at("xmlns", &h).kid(M::D(h.clone())).kid(el("a").m()),
    };
    run(&m, 0, 1 + sym::choice(WAYS - 1), 0, "");
}
/// the way does not matter for what is written to a file and for a hash map of elements
pub fn c26_prolog() {
    let mut s = String::from("<?xml version='1.0' x='");
    g::ascii(&mut s);
    s.push_str("'?>\n<!DOCTYPE r>\n<!DOCTYPE s [<!ENTITY a 'b'>]>\n<r><a/>t</r>\n");
    let a = match kiss_xml::parse_str(s.as_str()) {
        Ok(a) => a,
        Err(_) => return sym::cover(2),
    };
    let mut b = Document::new(build(&el("r").kid(el("a").m()).kid(txt("t")), 0));
    b.set_declaration(a.declaration().clone());
    let defs: Vec<DTD> = a.doctype_defs().cloned().collect();
    b.set_doctype_defs(Some(&defs));
    let c = Document::new_with_decl_dtd(a.root_element().clone(), a.declaration().clone(), Some(&defs));
    alike(&a, &b);
    alike(&a, &c);
    alike(&b, &c);
    sym::emit(a.to_string().as_bytes());
    sym::cover(1);
}
/// long documents
pub fn c26_big() {
    big(&[30])
}
pub fn c26_big2() {
    big(&[40, 130])
}
fn big(sizes: &[usize]) {
    let n = sizes[sym::choice(sizes.len())];
    let mut m = el("r").at("xmlns:p", "u");
    for i in 0..n {
        m.kids.push(kid([0, 3, 1, 4, 2, 5, 6][i % 7]));
    }
    let w = 1 + sym::choice(WAYS - 1);
    let (mut a, mut b) = (make(&m, 2), make(&m, w));
    check!(a == b && a.to_string() == b.to_string(), "documents with the same content are not equal");
    let h = hot();
    let at = [1, n / 2, n - 1][sym::choice(3)];
    let o = [1, 2, 3, 4][sym::choice(4)];
    let p = edit(a.root_element_mut(), o, at, &h, 1);
    let q = edit(b.root_element_mut(), o, at, &h, 1);
    check!(p == q, "the same edit of equal documents returns something else");
    check!(a == b && a.to_string() == b.to_string(), "equal documents differ after the same edit");
    sym::emit(a.to_string().as_bytes());
    sym::cover(1);
}
