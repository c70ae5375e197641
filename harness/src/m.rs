//! Reference model of a document tree, independent of the library, and its comparison with the library's tree.
use crate::sym;
use kiss_xml::dom::*;
use std::collections::HashMap;

#[derive(Clone, PartialEq)]
pub enum M {
    E(ME),
    T(String),
    C(String),
    D(String),
}
#[derive(Clone, PartialEq)]
pub struct ME {
    pub prefix: Option<String>,
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<M>,
}
pub fn el(name: &str) -> ME {
    ME { prefix: None, name: name.to_string(), attrs: vec![], kids: vec![] }
}
impl ME {
    pub fn kid(mut self, m: M) -> ME {
        self.kids.push(m);
        self
    }
    pub fn at(mut self, k: &str, v: &str) -> ME {
        self.attrs.push((k.to_string(), v.to_string()));
        self
    }
    pub fn m(self) -> M {
        M::E(self)
    }
}
pub fn blank(s: &str) -> bool {
    let mut b = true;
    for c in s.chars() {
        b &= c.is_whitespace();
    }
    b
}
/// adjacent text merged in order, then blank text dropped
pub fn normalize(k: &[M]) -> Vec<M> {
    let mut out: Vec<M> = vec![];
    for m in k {
        if let (M::T(t), Some(M::T(l))) = (m, out.last_mut()) {
            l.push_str(t);
            continue;
        }
        out.push(m.clone());
    }
    out.retain(|m| if let M::T(t) = m { !blank(t) } else { true });
    out
}
pub fn attr<'a>(v: &'a [(String, String)], k: &str) -> Option<&'a String> {
    // the last one set counts
    v.iter().rev().find(|x| x.0 == k).map(|x| &x.1)
}
/// the nearest declaration in scope; scope = (prefix or "", uri), innermost last
pub type Scope = Vec<(String, String)>;
pub fn enter(e: &ME, scope: &Scope) -> Scope {
    let mut s = scope.clone();
    for (k, v) in &e.attrs {
        if k == "xmlns" {
            s.push((String::new(), v.clone()));
        } else if let Some(p) = k.strip_prefix("xmlns:") {
            s.push((p.to_string(), v.clone()));
        }
    }
    s
}
pub fn resolve<'a>(s: &'a Scope, p: &str) -> Option<&'a String> {
    s.iter().rev().find(|x| x.0 == p).map(|x| &x.1)
}
/// the library's element agrees with the model in everything observable
pub fn agree(e: &Element, m: &ME, scope: &Scope, what: &str) {
    if e.name() != m.name {
        bad(what, "element name differs");
    }
    if e.namespace_prefix() != m.prefix {
        bad(what, "namespace prefix differs");
    }
    let sc = enter(m, scope);
    let want = match &m.prefix {
        Some(p) => resolve(&sc, p),
        None => resolve(&sc, ""),
    };
    if e.namespace() != want.cloned() {
        bad(what, "namespace is not the nearest declaration in scope");
    }
    let mut n = 0;
    for (i, (k, _)) in m.attrs.iter().enumerate() {
        if m.attrs[..i].iter().any(|x| x.0 == *k) {
            continue;
        }
        n += 1;
        match (e.get_attr(k.as_str()), attr(&m.attrs, k)) {
            (Some(a), Some(b)) => {
                if a != b {
                    bad(what, "attribute value differs");
                }
            }
            _ => bad(what, "attribute is missing"),
        }
    }
    if e.attributes().len() != n {
        bad(what, "number of attributes differs");
    }
    // adjacent text merged in order, blank text dropped
    let mut it = e.children();
    let mut i = 0;
    while i < m.kids.len() {
        let first = &m.kids[i];
        i += 1;
        let mut run = None;
        if let M::T(t) = first {
            let mut t = t.clone();
            while let Some(M::T(u)) = m.kids.get(i) {
                t.push_str(u);
                i += 1;
            }
            if blank(&t) {
                continue;
            }
            run = Some(M::T(t));
        }
        match it.next() {
            None => bad(what, "child is missing"),
            Some(c) => agree_node(c, run.as_ref().unwrap_or(first), &sc, what),
        }
    }
    if it.next().is_some() {
        bad(what, "extra child");
    }
}
pub fn agree_node(c: &Box<dyn Node>, k: &M, scope: &Scope, what: &str) {
    match k {
        M::E(x) => match c.as_element() {
            Ok(e) => agree(e, x, scope, what),
            Err(_) => bad(what, "kind of child differs (element expected)"),
        },
        M::T(x) => match c.as_text() {
            Ok(t) => {
                if t.content != *x {
                    bad(what, "text differs")
                }
            }
            Err(_) => bad(what, "kind of child differs (text expected)"),
        },
        M::C(x) => match c.as_comment() {
            Ok(t) => {
                if t.get_content() != x.as_str() {
                    bad(what, "comment differs")
                }
            }
            Err(_) => bad(what, "kind of child differs (comment expected)"),
        },
        M::D(x) => match c.as_cdata() {
            Ok(t) => {
                if t.get_content() != x.as_str() {
                    bad(what, "CDATA differs")
                }
            }
            Err(_) => bad(what, "kind of child differs (CDATA expected)"),
        },
    }
}
pub fn bad(what: &str, msg: &str) -> ! {
    let mut s = String::from(what);
    s.push_str(": ");
    s.push_str(msg);
    sym::fail(&s)
}
/// two library elements agree in everything observable (does not use the library's equality)
pub fn same(a: &Element, b: &Element, what: &str) {
    if a.name() != b.name() {
        bad(what, "element name differs");
    }
    if a.namespace_prefix() != b.namespace_prefix() {
        bad(what, "namespace prefix differs");
    }
    if a.namespace() != b.namespace() {
        bad(what, "namespace differs");
    }
    if a.attributes().len() != b.attributes().len() {
        bad(what, "number of attributes differs");
    }
    for (k, v) in a.attributes().iter() {
        match b.get_attr(k.as_str()) {
            None => bad(what, "attribute is missing"),
            Some(w) => {
                if v != w {
                    bad(what, "attribute value differs");
                }
            }
        }
    }
    let mut ib = b.children();
    for c in a.children() {
        match ib.next() {
            None => bad(what, "child is missing"),
            Some(d) => same_node(c, d, what),
        }
    }
    if ib.next().is_some() {
        bad(what, "extra child");
    }
}
pub fn same_node(c: &Box<dyn Node>, d: &Box<dyn Node>, what: &str) {
    if let (Ok(x), Ok(y)) = (c.as_element(), d.as_element()) {
        return same(x, y, what);
    }
    if let (Ok(x), Ok(y)) = (c.as_text(), d.as_text()) {
        if x.content != y.content {
            bad(what, "text differs");
        }
        return;
    }
    if let (Ok(x), Ok(y)) = (c.as_comment(), d.as_comment()) {
        if x.get_content() != y.get_content() {
            bad(what, "comment differs");
        }
        return;
    }
    if let (Ok(x), Ok(y)) = (c.as_cdata(), d.as_cdata()) {
        if x.get_content() != y.get_content() {
            bad(what, "CDATA differs");
        }
        return;
    }
    bad(what, "kind of child differs");
}
pub fn ok<T, E>(r: Result<T, E>, what: &str) -> T {
    match r {
        Ok(x) => x,
        Err(_) => sym::fail(what),
    }
}
/// build the library's element for a model through the public API
pub fn build(m: &ME, how: usize) -> Element {
    let attrs: HashMap<String, String> = m.attrs.iter().cloned().collect();
    let what = "a constructor refused valid content";
    if how > 2 && m.prefix.is_none() {
        // inserted in reverse order at the front
        let mut e = ok(Element::new_with_attributes(&m.name, attrs), what);
        for k in m.kids.iter().rev() {
            let r = match k {
                M::E(x) => e.insert(0, build(x, how)),
                M::T(t) => e.insert(0, Text::new(t.as_str())),
                M::C(t) => e.insert(0, ok(Comment::new(t.as_str()), what)),
                M::D(t) => e.insert(0, ok(CData::new(t.as_str()), what)),
            };
            ok(r, "insert at index 0 failed");
        }
        return e;
    }
    let kids: Vec<Box<dyn Node>> = m.kids.iter().map(|k| build_node(k, how)).collect();
    if m.prefix.is_some() {
        return ok(Element::new(m.name.as_str(), None, Some(attrs), None, m.prefix.clone(), Some(kids)), what);
    }
    match how {
        0 => ok(Element::new(m.name.as_str(), None, Some(attrs), None, None, Some(kids)), what),
        1 => {
            // everything edited in, in order
            let mut e = ok(Element::new_from_name(&m.name), what);
            if m.attrs.iter().any(|a| a.0.starts_with("xmlns")) {
                e = ok(Element::new_with_attributes(&m.name, attrs), what);
            } else {
                for (k, v) in &m.attrs {
                    ok(e.set_attr(k.as_str(), v.as_str()), what);
                }
            }
            for k in kids {
                e.append_boxed(k);
            }
            e
        }
        _ => {
            let mut e = ok(Element::new_with_attributes(&m.name, attrs), what);
            e.append_all(kids);
            e
        }
    }
}
pub fn build_node(k: &M, how: usize) -> Box<dyn Node> {
    let what = "a constructor refused valid content";
    match k {
        M::E(x) => build(x, how).boxed(),
        M::T(t) => Text::new(t.as_str()).boxed(),
        M::C(t) => ok(Comment::new(t.as_str()), what).boxed(),
        M::D(t) => ok(CData::new(t.as_str()), what).boxed(),
    }
}
/// escape for source text, independent of the library
pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' => o.push_str("&quot;"),
            '\'' => o.push_str("&apos;"),
            c => o.push(c),
        }
    }
    o
}
