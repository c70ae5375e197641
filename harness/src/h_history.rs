//! Long histories: the schedule of edits comes from a chosen number, the contents are symbolic.
use crate::m::*;
use crate::{g, sym};
use kiss_xml::dom::*;
use std::collections::HashMap;

struct Rng(u32);
impl Rng {
    fn n(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(1664525).wrapping_add(1013904223);
        ((self.0 >> 12) % n as u32) as usize
    }
}
fn plain() -> String {
    let mut s = String::new();
    let c = g::ascii(&mut s);
    sym::assume((c > b' ') & (c < 127) & (c != b'-') & (c != b']'));
    s
}
fn letter() -> String {
    let mut s = String::new();
    let c = g::ascii(&mut s);
    sym::assume(((c | 32) >= b'a') & ((c | 32) <= b'z'));
    s
}
struct Hot {
    /// a character of a content
    c: String,
    /// a letter of a name
    l: String,
}
/// the element of a path, by one of the mutable accesses
fn down<'a>(e: &'a mut Element, path: &[usize], r: &mut Rng) -> &'a mut Element {
    let Some((&k, rest)) = path.split_first() else { return e };
    let x = match r.n(4) {
        0 => e.child_elements_mut().nth(k),
        1 => e.children_mut().filter(|c| c.is_element()).nth(k).and_then(|c| c.as_element_mut().ok()),
        2 => {
            let name = e.child_elements().nth(k).map(|x| x.name()).unwrap_or_default();
            let before = e.child_elements().take(k).filter(|x| x.name() == name).count();
            e.elements_by_name_mut(name).nth(before)
        }
        _ => {
            let p = e.child_elements().nth(k).and_then(|x| x.namespace_prefix());
            let before = e.child_elements().take(k).filter(|x| x.namespace_prefix() == p).count();
            e.elements_by_namespace_prefix_mut(p.as_deref()).nth(before)
        }
    };
    match x {
        Some(x) => down(x, rest, r),
        None => sym::fail("a child element is not found"),
    }
}
fn elems(m: &ME) -> usize {
    m.kids.iter().filter(|k| matches!(k, M::E(_))).count()
}
fn kid_mut(m: &mut ME, k: usize) -> &mut ME {
    m.kids.iter_mut().filter_map(|x| if let M::E(e) = x { Some(e) } else { None }).nth(k).unwrap()
}
fn down_m<'a>(m: &'a mut ME, path: &[usize]) -> &'a mut ME {
    match path.split_first() {
        None => m,
        Some((&k, rest)) => down_m(kid_mut(m, k), rest),
    }
}
fn path(m: &ME, r: &mut Rng) -> Vec<usize> {
    let mut v = vec![];
    let mut e = m;
    while elems(e) > 0 && r.n(3) > 0 && v.len() < 4 {
        let k = r.n(elems(e));
        v.push(k);
        e = e.kids.iter().filter_map(|x| if let M::E(e) = x { Some(e) } else { None }).nth(k).unwrap();
    }
    v
}
fn size(m: &ME) -> usize {
    1 + m.kids.iter().map(|k| if let M::E(e) = k { size(e) } else { 1 }).sum::<usize>()
}
fn new_node(r: &mut Rng, h: &Hot, kind: usize) -> (Box<dyn Node>, M) {
    match kind {
        0 => {
            let n = if r.n(4) == 0 { h.l.clone() } else { ["a", "b", "c"][r.n(3)].to_string() };
            let p = if r.n(3) == 0 { Some(["p", "q"][r.n(2)].to_string()) } else { None };
            let mut m = el(&n);
            m.prefix = p.clone();
            let e = ok(Element::new(&n, None, None::<HashMap<String, String>>, None, p, None), "an element was refused");
            (e.boxed(), m.m())
        }
        1 => {
            let t = if r.n(4) == 0 { h.c.clone() } else { ["x", " ", "y ", "\n"][r.n(4)].to_string() };
            (Text::new(t.as_str()).boxed(), M::T(t))
        }
        2 => (ok(Comment::new(h.c.as_str()), "a comment was refused").boxed(), M::C(h.c.clone())),
        _ => (ok(CData::new(h.c.as_str()), "a CDATA section was refused").boxed(), M::D(h.c.clone())),
    }
}
fn set(m: &mut ME, k: &str, v: &str) {
    match m.attrs.iter_mut().find(|x| x.0 == k) {
        Some(x) => x.1 = v.to_string(),
        None => m.attrs.push((k.to_string(), v.to_string())),
    }
}
/// what is emphasized
const LISTS: &[usize] = &[0, 0, 1, 1, 2, 2, 3, 3, 4, 6, 7, 8, 9, 10, 11];
const SPACES: &[usize] = &[0, 0, 1, 3, 4, 4, 4, 5, 5, 8, 9, 9, 12];
const ATTRS: &[usize] = &[0, 4, 4, 4, 5, 5, 13, 8, 12];
const ALL: &[usize] = &[0, 0, 0, 1, 2, 3, 4, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];

/// one edit of an element and of its model
fn step(d: &mut Document, m: &mut ME, r: &mut Rng, h: &Hot, ops: &[usize]) {
    let op = ops[r.n(ops.len())];
    let p = path(m, r);
    let big = size(m) > 14;
    let root = p.is_empty();
    let kind = [0, 0, 1, 1, 2, 3][r.n(6)];
    let (a, b, at) = (r.n(1000), r.n(1000), r.n(1000));
    let x = down_m(m, &p);
    let e = down(d.root_element_mut(), &p, r);
    match op {
        // append
        0 => {
            if !big {
                let (n, k) = new_node(r, h, kind);
                e.append_boxed(n);
                x.kids.push(k);
            }
        }
        // insert
        1 => {
            if !big {
                let i = at % (x.kids.len() + 1);
                let (n, k) = new_node(r, h, kind);
                let done = match &k {
                    M::E(_) => e.insert(i, n.as_element().unwrap().clone()),
                    M::T(t) => e.insert(i, Text::new(t.as_str())),
                    M::C(t) => e.insert(i, Comment::new(t.as_str()).unwrap()),
                    M::D(t) => e.insert(i, CData::new(t.as_str()).unwrap()),
                };
                ok(done, "an insertion was refused");
                x.kids.insert(i, k);
            }
        }
        // append several
        2 => {
            if !big {
                let (mut v, mut w) = (vec![], vec![]);
                for i in 0..1 + a % 3 {
                    let (n, k) = new_node(r, h, [0, 1, 2, 1, 3][(b + i) % 5]);
                    v.push(n);
                    w.push(k);
                }
                e.append_all(v);
                x.kids.extend(w);
            }
        }
        // remove by index
        3 => {
            let i = at % (x.kids.len() + 1);
            let got = e.remove(i);
            check!(got.is_ok() == (i < x.kids.len()), "removal by index");
            if i < x.kids.len() {
                x.kids.remove(i);
            }
        }
        // declarations and attributes
        4 | 13 => {
            let k = if op == 13 { ["k", "l", h.l.as_str()][a % 3] } else { ["xmlns", "xmlns:p", "xmlns:q", "k"][a % 4] };
            let v = if b % 4 == 0 { h.c.as_str() } else { ["u", "v", "w"][b % 3] };
            ok(e.set_attr(k, v), "an attribute was refused");
            set(x, k, v);
        }
        5 => {
            let k = ["xmlns", "xmlns:p", "xmlns:q", "k", h.l.as_str()][a % 5];
            let old = attr(&x.attrs, k).cloned();
            check!(e.remove_attr(k) == old, "the removed attribute");
            x.attrs.retain(|y| y.0 != k);
        }
        6 => {
            let t = if a % 2 == 0 { h.c.as_str() } else { " t" };
            e.set_text(t);
            x.kids = vec![M::T(t.to_string())];
        }
        7 => {
            if b % 2 == 0 && !root {
                e.clear_children();
                x.kids.clear();
            } else if b % 4 == 1 {
                e.clear_attributes();
                x.attrs.clear();
            }
        }
        // a copy of the subtree goes below the root
        8 => {
            if !big && !root {
                let (n, k) = (e.clone(), x.clone());
                d.root_element_mut().append(n);
                m.kids.push(k.m());
            }
        }
        // a child element moves
        9 => {
            if elems(x) > 0 {
                let i = at % elems(x);
                let n = ok(e.remove_element(i), "the removal of a child element was refused");
                let k = x.kids.iter().enumerate().filter(|(_, k)| matches!(k, M::E(_))).nth(i).unwrap().0;
                let k = x.kids.remove(k);
                x.kids = normalize(&x.kids);
                if b % 2 == 0 {
                    let q = path(m, r);
                    down(d.root_element_mut(), &q, r).append(n);
                    let y = down_m(m, &q);
                    y.kids.push(k);
                    y.kids = normalize(&y.kids);
                } else {
                    let q = a % (m.kids.len() + 1);
                    ok(d.root_element_mut().insert(q, n), "an insertion was refused");
                    m.kids.insert(q, k);
                }
                m.kids = normalize(&m.kids);
                return;
            }
        }
        10 => {
            let n = ["a", "b", h.l.as_str()][a % 3];
            let want = crate::h_edit::cut(x, &|k| matches!(k, M::E(y) if y.name == n), false);
            check!(e.remove_elements_by_name(n) == want, "removal by name");
        }
        11 => {
            let (got, want) = match a % 4 {
                0 => (e.remove_all(&|k| k.is_comment()), crate::h_edit::cut(x, &|k| matches!(k, M::C(_)), true)),
                1 => (e.remove_by(&|k| k.is_text()), crate::h_edit::cut(x, &|k| matches!(k, M::T(_)), false)),
                2 => (e.remove_all_elements(|k| k.name() == "c"), crate::h_edit::cut(x, &|k| matches!(k, M::E(y) if y.name == "c"), true)),
                _ => (e.remove_elements(|k| k.attributes().is_empty()), crate::h_edit::cut(x, &|k| matches!(k, M::E(y) if y.attrs.is_empty()), false)),
            };
            check!(got == want, "removal by predicate");
        }
        // written and read
        _ => {
            let s = d.to_string_with_indent(["  ", "\t", "", " "][a % 4]);
            *d = ok(kiss_xml::parse_str(s), "a written document was refused");
            return;
        }
    }
    let x = down_m(m, &p);
    x.kids = normalize(&x.kids);
    m.kids = normalize(&m.kids);
}
fn start() -> (Document, ME) {
    let m = el("r").at("xmlns:p", "u").kid(el("a").kid(M::T("t".to_string())).m()).kid(el("b").m());
    (Document::new(build(&m, 0)), m)
}
fn hots() -> Hot {
    let h = Hot { c: plain(), l: letter() };
    // (the letters of the fixed names are left to the other checks)
    h
}
fn tell(d: &Document) {
    sym::emit(d.to_string().as_bytes());
    sym::cover(1);
}
/// the tree is the model after a history
fn agrees(seeds: usize, n: usize, ops: &[usize]) {
    let mut r = Rng((sym::choice(seeds) as u32).wrapping_mul(2654435761).wrapping_add(17));
    let h = hots();
    let (mut d, mut m) = start();
    for _ in 0..n {
        step(&mut d, &mut m, &mut r, &h, ops);
    }
    agree(d.root_element(), &m, &vec![], "after a history");
    tell(&d);
}
pub fn c11_history() {
    agrees(512, 10, LISTS)
}
pub fn c11_history2() {
    agrees(4096, 10, LISTS)
}
pub fn c14_history() {
    agrees(512, 10, SPACES)
}
pub fn c14_history2() {
    agrees(4096, 10, SPACES)
}
pub fn c18_history() {
    agrees(512, 12, ATTRS)
}
pub fn c18_history2() {
    agrees(4096, 12, ATTRS)
}
pub fn c25_history() {
    agrees(512, 12, ALL)
}
pub fn c25_history2() {
    agrees(4096, 12, ALL)
}
/// and after it was written and read
pub fn c03_history() {
    history_c03(512)
}
pub fn c03_history2() {
    history_c03(4096)
}
fn history_c03(seeds: usize) {
    let mut r = Rng((sym::choice(seeds) as u32).wrapping_mul(7919).wrapping_add(5));
    let h = hots();
    let (mut d, mut m) = start();
    for _ in 0..9 {
        step(&mut d, &mut m, &mut r, &h, ALL);
    }
    let s = d.to_string();
    let e = ok(kiss_xml::parse_str(s.as_str()), "a document that was built is refused");
    agree(e.root_element(), &m, &vec![], "built, written and read");
    check!(e == d, "the document read differs from the one written");
    tell(&d);
}
/// every indent says the same
pub fn c10_history() {
    history_c10(256)
}
pub fn c10_history2() {
    history_c10(2048)
}
fn history_c10(seeds: usize) {
    let mut r = Rng((sym::choice(seeds) as u32).wrapping_mul(104729).wrapping_add(3));
    let h = hots();
    let (mut d, mut m) = start();
    for _ in 0..9 {
        step(&mut d, &mut m, &mut r, &h, LISTS);
    }
    for indent in ["", "\t", "   "] {
        let e = ok(kiss_xml::parse_str(d.to_string_with_indent(indent)), "an indented document is refused");
        agree(e.root_element(), &m, &vec![], "indented and read");
    }
    tell(&d);
}
fn texts(e: &Element, m: &ME) {
    check!(e.text() == crate::h_kind::elem_text(m), "the text of an element");
    let mut it = e.child_elements();
    for k in &m.kids {
        if let M::E(x) = k {
            match it.next() {
                Some(c) => texts(c, x),
                None => sym::fail("a child is missing"),
            }
        }
    }
}
pub fn c20_history() {
    history_c20(512)
}
pub fn c20_history2() {
    history_c20(4096)
}
fn history_c20(seeds: usize) {
    let mut r = Rng((sym::choice(seeds) as u32).wrapping_mul(611953).wrapping_add(11));
    let h = hots();
    let (mut d, mut m) = start();
    for _ in 0..10 {
        step(&mut d, &mut m, &mut r, &h, ALL);
    }
    texts(d.root_element(), &m);
    tell(&d);
}
fn count(m: &ME, f: &dyn Fn(&M) -> bool) -> usize {
    m.kids.iter().map(|k| f(k) as usize + if let M::E(e) = k { count(e, f) } else { 0 }).sum()
}
pub fn c13_history() {
    history_c13(512)
}
pub fn c13_history2() {
    history_c13(4096)
}
fn history_c13(seeds: usize) {
    let mut r = Rng((sym::choice(seeds) as u32).wrapping_mul(15485863).wrapping_add(7));
    let h = hots();
    let (mut d, mut m) = start();
    for _ in 0..10 {
        step(&mut d, &mut m, &mut r, &h, ALL);
        let e = d.root_element();
        check!(e.children_recursive().count() == count(&m, &|_| true), "number of descendants");
    }
    let e = d.root_element();
    check!(e.search_elements_by_name("a").count() == count(&m, &|k| matches!(k, M::E(x) if x.name == "a")), "number of elements of a name");
    check!(e.search_text(|_| true).count() == count(&m, &|k| matches!(k, M::T(_))), "number of texts");
    check!(e.search_comments(|c| c.get_content() == h.c).count() == count(&m, &|k| matches!(k, M::C(_))), "number of comments");
    check!(e.search(|k| k.is_cdata()).count() == count(&m, &|k| matches!(k, M::D(_))), "number of CDATA sections");
    tell(&d);
}
/// a clone taken on the way stays what it was
pub fn c16_history() {
    history_c16(512)
}
pub fn c16_history2() {
    history_c16(4096)
}
fn history_c16(seeds: usize) {
    let mut r = Rng((sym::choice(seeds) as u32).wrapping_mul(32452843).wrapping_add(1));
    let h = hots();
    let (mut d, mut m) = start();
    for _ in 0..5 {
        step(&mut d, &mut m, &mut r, &h, ALL);
    }
    let (c, k) = (d.root_element().clone(), m.clone());
    check!(c == *d.root_element() && *d.root_element() == c, "a clone differs from its original");
    for _ in 0..5 {
        step(&mut d, &mut m, &mut r, &h, ALL);
    }
    agree(&c, &k, &vec![], "a clone, after edits of its original");
    agree(d.root_element(), &m, &vec![], "an original, after it was cloned");
    // the clone goes the same way
    tell(&d);
}
/// a document and what was read from its text are edited alike
pub fn c26_history() {
    history_c26(512)
}
pub fn c26_history2() {
    history_c26(4096)
}
fn history_c26(seeds: usize) {
    let mut r = Rng((sym::choice(seeds) as u32).wrapping_mul(49979687).wrapping_add(9));
    let h = hots();
    let (mut d, mut m) = start();
    for _ in 0..4 {
        step(&mut d, &mut m, &mut r, &h, ALL);
    }
    let mut e = match r.n(2) {
        0 => ok(kiss_xml::parse_str(d.to_string()), "a written document was refused"),
        _ => Document::new(d.root_element().clone()),
    };
    e.set_declaration(d.declaration().clone());
    let mut k = m.clone();
    let mut q = Rng(r.0);
    for _ in 0..5 {
        step(&mut d, &mut m, &mut r, &h, ALL);
        step(&mut e, &mut k, &mut q, &h, ALL);
    }
    check!(d == e, "equal documents differ after the same edits");
    check!(d.to_string() == e.to_string(), "the texts of equal documents differ after the same edits");
    same(d.root_element(), e.root_element(), "equal documents after the same edits");
    tell(&d);
}
