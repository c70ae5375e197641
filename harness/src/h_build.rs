//! C03, C09, C10: documents built through the API and their serialization.
use crate::gen::Gen;
use crate::m::*;
use crate::{g, sym};
use kiss_xml::dom::*;
use std::collections::HashMap;

// ---------------------------------------------------------------- C03
/// serialize with the given indent, parse, compare with the model and with the document that was built
fn survive(d: &Document, m: &ME, indent: usize) {
    const I: [&str; 4] = ["  ", "\t", "", "   "];
    let s = if indent == 0 { d.to_string() } else { d.to_string_with_indent(I[indent]) };
    sym::note(&s);
    sym::emit(s.as_bytes());
    let p = ok(kiss_xml::parse_str(s.as_str()), "a serialized document does not parse");
    agree(d.root_element(), m, &vec![], "built document");
    agree(p.root_element(), m, &vec![], "after serializing and parsing");
    check!(*d == p, "the parsed document is not equal to the one that was built");
    sym::cover(1);
}
fn tree(depth: usize, width: usize, hot: usize, uni: bool, hot_len: usize) {
    let mut gen = Gen::new(hot).spiced();
    gen.uni = uni;
    gen.hot_len = hot_len;
    let m = gen.elem("r", depth, width);
    let how = sym::choice(4);
    let ind = sym::choice(4);
    let d = Document::new(build(&m, how));
    survive(&d, &m, ind);
}
pub fn c03_tree() {
    tree(2, 2, 3, false, 1)
}
/// the same without attributes, each way of building with its own indent
pub fn c03_treeq() {
    let mut gen = Gen::new(2).spiced();
    gen.attrs = false;
    let m = gen.elem("r", 2, 2);
    let how = sym::choice(4);
    let d = Document::new(build(&m, how));
    survive(&d, &m, how);
}
pub fn c03_wide() {
    tree(1, 3, 2, false, 1)
}
pub fn c03_uni() {
    tree(1, 1, 2, true, 2)
}
pub fn c03_uniq() {
    tree(1, 1, 2, true, 1)
}
pub fn c03_deep() {
    let mut gen = Gen::new(1).spiced();
    gen.attrs = false;
    let m = gen.elem("r", 4, 1);
    let how = sym::choice(4);
    survive(&Document::new(build(&m, how)), &m, sym::choice(4));
}
pub fn c03_tree3() {
    tree(2, 3, 2, false, 1)
}
/// comment and CDATA contents: everything the constructor accepts stays inside its section
pub fn c03_verbatim() {
    let mut v = String::new();
    for _ in 0..sym::choice(5) {
        g::ascii(&mut v);
    }
    let pre = ["", "x"][sym::choice(2)];
    let post = ["", "-->", "]]>", "y"][sym::choice(4)];
    let (n, k): (Box<dyn Node>, M) = if sym::choice(2) == 0 {
        match Comment::new(v.as_str()) {
            Ok(c) => (c.boxed(), M::C(v.clone())),
            Err(_) => return sym::cover(2),
        }
    } else {
        match CData::new(v.as_str()) {
            Ok(c) => (c.boxed(), M::D(v.clone())),
            Err(_) => return sym::cover(2),
        }
    };
    let mut e = ok(Element::new_with_text("r", pre), "constructor");
    e.append_boxed(n);
    e.append(Text::new(post));
    let m = el("r").kid(M::T(pre.to_string())).kid(k).kid(M::T(post.to_string()));
    survive(&Document::new(e), &m, 0);
}
/// names and attribute names: everything the constructors accept
pub fn c03_names() {
    let mut n = String::from("a");
    if sym::choice(2) == 1 {
        n.clear();
        g::ascii(&mut n);
    }
    g::uni(&mut n);
    let mut has_colon = false;
    for b in n.bytes() {
        has_colon |= b == b':';
    }
    let mut m;
    let mut e;
    if sym::choice(2) == 0 {
        // a prefix is given as such, not inside the name
        sym::assume(!has_colon);
        m = el(&n);
        e = match Element::new_from_name(&n) {
            Ok(e) => e,
            Err(_) => return sym::cover(2),
        };
    } else {
        m = el("r").at(&n, "v");
        e = ok(Element::new_from_name("r"), "constructor");
        if e.set_attr(n.as_str(), "v").is_err() {
            return sym::cover(2);
        }
    }
    e.append(Text::new("t"));
    m = m.kid(M::T("t".to_string()));
    survive(&Document::new(e), &m, 0);
}
/// namespaces: declared on the root or on a child, prefixed and default
pub fn c03_ns() {
    let mut u = String::from("u");
    g::uni(&mut u);
    let p = ["p", "q"];
    let a = sym::choice(2);
    let attrs: HashMap<String, String> = [(["xmlns:", p[a]].concat(), u.clone()), ("xmlns:z".to_string(), "zz".to_string())].into_iter().collect();
    let mut m = el("r").at(&["xmlns:", p[a]].concat(), &u).at("xmlns:z", "zz");
    let mut root = ok(Element::new_with_attributes("r", attrs), "constructor");
    if sym::choice(2) == 1 {
        // the root in a namespace of its own
        root = ok(Element::new("r", None, Some(root.attributes().clone()), Some("d".to_string()), None, None), "constructor");
        m = m.at("xmlns", "d");
    }
    let mut k = match sym::choice(3) {
        0 => ok(Element::new("k", None, Option::<HashMap<String, String>>::None, None, Some(p[a].to_string()), None), "constructor"),
        1 => ok(Element::new("k", None, Option::<HashMap<String, String>>::None, Some(u.clone()), Some("s".to_string()), None), "constructor"),
        _ => ok(Element::new("k", None, Option::<HashMap<String, String>>::None, Some(u.clone()), None, None), "constructor"),
    };
    let mut km = el("k");
    km.prefix = k.namespace_prefix();
    for (x, y) in k.attributes().iter() {
        km = km.at(x, y);
    }
    let leaf = ok(Element::new_with_text("l", "t"), "constructor");
    let lm = el("l").kid(M::T("t".to_string()));
    k.append(leaf);
    km = km.kid(lm.m());
    match sym::choice(3) {
        0 => root.append(k),
        1 => root.append_all(vec![Text::new("x").boxed(), k.boxed()]),
        _ => ok(root.insert(0, k), "insert"),
    }
    if let Some(c) = root.children().next() {
        if c.is_text() {
            m = m.kid(M::T("x".to_string()));
        }
    }
    m = m.kid(km.m());
    survive(&Document::new(root), &m, sym::choice(4));
}
/// edits after construction: set_text, set_attr, content of text/comment/CDATA changed in place, removal
pub fn c03_edit() {
    let mut m = el("r").at("a", "1").kid(el("b").kid(M::T("t".to_string())).m()).kid(M::C("c".to_string())).kid(M::D("d".to_string()));
    let mut e = build(&m, 0);
    let mut v = String::new();
    g::uni(&mut v);
    let mut w = String::from("w");
    g::ascii(&mut w);
    match sym::choice(6) {
        0 => {
            sym::assume(!blank(&v));
            e.set_text(v.as_str());
            m.kids = vec![M::T(v)];
        }
        1 => {
            ok(e.set_attr("a", v.as_str()), "set_attr");
            ok(e.set_attr("b", w.as_str()), "set_attr");
            m.attrs = vec![("a".to_string(), v), ("b".to_string(), w)];
        }
        2 => {
            sym::assume(!blank(&v));
            let b = ok(e.first_element_by_name_mut("b"), "first_element_by_name_mut");
            for c in b.children_mut() {
                ok(c.as_text_mut(), "as_text_mut").content = v.clone();
            }
            m.kids[0] = el("b").kid(M::T(v)).m();
        }
        3 => {
            for c in e.children_mut() {
                if let Ok(c) = c.as_comment_mut() {
                    ok(c.set_content(v.as_str()), "set_content");
                }
                if let Ok(c) = c.as_cdata_mut() {
                    ok(c.set_text(w.as_str()), "set_text");
                }
            }
            m.kids[1] = M::C(v);
            m.kids[2] = M::D(w);
        }
        4 => {
            ok(e.remove(1), "remove");
            e.append(Text::new(w.as_str()));
            e.append(ok(Element::new_with_text("z", w.as_str()), "constructor"));
            m.kids.remove(1);
            m.kids.push(M::T(w.clone()));
            m.kids.push(el("z").kid(M::T(w)).m());
        }
        _ => {
            let attrs = HashMap::from([("k", v.as_str())]);
            e = ok(Element::new_with_attributes_and_text("r", attrs.clone(), w.as_str()), "constructor");
            e.append(ok(Element::new_with_attributes_and_children("s", attrs, vec![Text::new(w.as_str()).boxed()]), "constructor"));
            m = el("r").at("k", &v).kid(M::T(w.clone())).kid(el("s").at("k", &v).kid(M::T(w)).m());
        }
    }
    survive(&Document::new(e), &m, sym::choice(4));
}

// ---------------------------------------------------------------- C09
fn name_char(s: &mut String, first: bool) {
    let v = g::ascii(s);
    let alpha = ((v | 32) >= b'a') & ((v | 32) <= b'z') | (v == b'_');
    let more = (v >= b'0') & (v <= b'9') | (v == b'-') | (v == b'.');
    sym::assume(alpha | (!first & more));
}
fn less(a: &str, b: &str) -> bool {
    let (x, y) = (a == "xmlns" || a.starts_with("xmlns:"), b == "xmlns" || b.starts_with("xmlns:"));
    if x != y {
        return x;
    }
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let mut i = 0;
    while i < a.len() && i < b.len() {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
        i += 1;
    }
    a.len() < b.len()
}
/// reference start tag
pub fn start_tag(name: &str, at: &[(String, String)]) -> String {
    let mut v: Vec<(String, String)> = vec![];
    for a in at {
        if let Some(x) = v.iter_mut().find(|x| x.0 == a.0) {
            x.1 = a.1.clone();
        } else {
            v.push(a.clone());
        }
    }
    for i in 1..v.len() {
        let mut j = i;
        while j > 0 && less(&v[j].0, &v[j - 1].0) {
            v.swap(j, j - 1);
            j -= 1;
        }
    }
    let mut s = ["<", name].concat();
    for (k, x) in &v {
        s.push(' ');
        s.push_str(k);
        s.push_str("=\"");
        s.push_str(&esc(x));
        s.push('"');
    }
    s
}
const PERM3: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
/// three attributes with symbolic names and values, two insertion orders, any hash order
fn order(l: [usize; 3], decl: bool) {
    sym::hash_mode(sym::choice(4) as u64);
    let mut at: Vec<(String, String)> = vec![];
    for i in 0..3 {
        let mut k = String::new();
        for j in 0..l[i] {
            name_char(&mut k, j == 0);
        }
        at.push((k, ["1", "\"'", "<&>"][i].to_string()));
    }
    if decl {
        // declarations go first
        at[2].0 = ["xmlns", "xmlns:b", "xmlns:p", "xmlns:A"][sym::choice(4)].to_string();
        if sym::choice(2) == 1 {
            at[1].0 = ["xmlns:p", "xmlns:a0"][sym::choice(2)].to_string();
        }
    }
    let (p, q) = (PERM3[sym::choice(6)], PERM3[sym::choice(6)]);
    // attributes with equal names: the last one counts, which is not a matter of order but of content
    let mut distinct = true;
    for i in 0..3 {
        for j in 0..i {
            distinct &= at[i].0 != at[j].0;
        }
    }
    sym::assume(distinct);
    let mut e;
    if decl {
        e = ok(Element::new_with_attributes("e", p.iter().map(|i| at[*i].clone()).collect::<HashMap<String, String>>()), "constructor");
    } else {
        e = ok(Element::new_from_name("e"), "constructor");
        for i in p {
            ok(e.set_attr(at[i].0.as_str(), at[i].1.as_str()), "set_attr");
        }
    }
    let mut f = ok(Element::new_with_attributes("e", [at[q[0]].clone()].into_iter().collect::<HashMap<String, String>>()), "constructor");
    if decl {
        f = ok(Element::new_with_attributes("e", q.iter().map(|i| at[*i].clone()).collect::<HashMap<String, String>>()), "constructor");
    } else {
        // set another value first, and remove one again
        ok(f.set_attr("zz", "0"), "set_attr");
        ok(f.set_attr(at[q[1]].0.as_str(), "old"), "set_attr");
        ok(f.set_attr(at[q[2]].0.as_str(), at[q[2]].1.as_str()), "set_attr");
        ok(f.set_attr(at[q[1]].0.as_str(), at[q[1]].1.as_str()), "set_attr");
        if at.iter().all(|a| a.0 != "zz") {
            f.remove_attr("zz");
        } else {
            ok(f.set_attr("zz", at.iter().find(|a| a.0 == "zz").unwrap().1.as_str()), "set_attr");
        }
    }
    let (s, t) = (e.to_string(), f.to_string());
    sym::note(&s);
    sym::note(&t);
    sym::emit(s.as_bytes());
    check!(e == f, "elements with the same content are not equal");
    check!(s == t, "the order of insertion shows in the serialized text");
    let mut want = start_tag("e", &at);
    want.push_str("/>");
    check!(s == want, "attributes are not in the documented order");
    sym::cover(1);
}
pub fn c09_order1() {
    order([1, 1, 1], false)
}
pub fn c09_order2() {
    order([2, 1, 2], false)
}
pub fn c09_prefix() {
    order([1, 2, 3], false)
}
pub fn c09_decl() {
    order([1, 2, 1], true)
}
/// attribute names around the spelling of a declaration
pub fn c09_names() {
    sym::hash_mode(sym::choice(2) as u64);
    const POOL: [&str; 12] = ["xmlns", "xmlns:a", "xmlns:xmlnsb", "xmlns:xmlns1", "xmlnsa", "xmlns-a", "xmlns.a", "XMLNS", "Xmlns:a", "a:xmlns", "_", "xmln"];
    let mut at: Vec<(String, String)> = vec![];
    let mut k = String::from("xmlns");
    name_char(&mut k, false);
    k.push('a');
    at.push((k, "1".to_string()));
    let mut k = String::from(["xmlns:", "xmlns:xmlns", "xmlns:x"][sym::choice(3)]);
    name_char(&mut k, true);
    at.push((k, "2".to_string()));
    at.push((POOL[sym::choice(12)].to_string(), "3".to_string()));
    sym::assume(at[0].0 != at[1].0 && at[0].0 != at[2].0 && at[1].0 != at[2].0);
    let mk = |p: [usize; 3]| ok(Element::new_with_attributes("e", p.iter().map(|i| at[*i].clone()).collect::<HashMap<String, String>>()), "constructor");
    let e = mk(PERM3[sym::choice(6)]);
    let mut f = mk([2, 1, 0]);
    if sym::choice(2) == 1 {
        let s = ["<e ", &at[0].0, "='1' ", &at[2].0, "='3' ", &at[1].0, "='2'/>"].concat();
        f = ok(kiss_xml::parse_str(s), "well-formed document refused").root_element().clone();
    }
    let (s, t) = (e.to_string(), f.to_string());
    sym::note(&s);
    sym::note(&t);
    sym::emit(s.as_bytes());
    check!(s == t, "the order of insertion shows in the serialized text");
    let mut want = start_tag("e", &at);
    want.push_str("/>");
    check!(s == want, "attributes are not in the documented order");
    sym::cover(1);
}
/// many attributes (a map that grows), one of them symbolic, built twice in opposite orders
pub fn c09_many() {
    sym::hash_mode(sym::choice(4) as u64);
    const N: [&str; 7] = ["m", "b", "xmlnz", "Z", "a.b", "a", "a-b"];
    let mut at: Vec<(String, String)> = N.iter().map(|k| (k.to_string(), k.to_string())).collect();
    let mut k = String::new();
    name_char(&mut k, true);
    name_char(&mut k, false);
    at.push((k, "s".to_string()));
    let (mut e, mut f) = (ok(Element::new_from_name("e"), "constructor"), ok(Element::new_from_name("e"), "constructor"));
    for a in &at {
        ok(e.set_attr(a.0.as_str(), a.1.as_str()), "set_attr");
    }
    for a in at.iter().rev() {
        ok(f.set_attr(a.0.as_str(), a.1.as_str()), "set_attr");
    }
    let (s, t) = (e.to_string(), f.to_string());
    sym::note(&s);
    check!(s == t, "the order of insertion shows in the serialized text");
    let mut want = start_tag("e", &at);
    want.push_str("/>");
    check!(s == want, "attributes are not in the documented order");
    sym::emit(s.as_bytes());
    sym::cover(1);
}
/// the same attributes in a source text in two orders parse to equal documents with identical text
pub fn c09_parsed() {
    sym::hash_mode(sym::choice(4) as u64);
    let mut at: Vec<(String, String)> = vec![];
    for i in 0..2 {
        let mut k = String::new();
        name_char(&mut k, true);
        let mut v = String::new();
        if i == 0 {
            g::ascii(&mut v);
        }
        at.push((k, v));
    }
    at.push(("xmlns:n".to_string(), "u".to_string()));
    sym::assume(at[0].0 != at[1].0);
    let doc = |p: [usize; 3]| {
        let mut s = String::from("<n:e");
        for i in p {
            s.push_str(&[" ", &at[i].0, "='", &esc(&at[i].1), "'"].concat());
        }
        s.push_str("><n:k/></n:e>");
        ok(kiss_xml::parse_str(s), "well-formed document refused")
    };
    let (a, b) = (doc(PERM3[sym::choice(6)]), doc(PERM3[sym::choice(6)]));
    check!(a == b, "documents with the same content are not equal");
    let (s, t) = (a.to_string(), b.to_string());
    sym::note(&s);
    sym::note(&t);
    sym::emit(s.as_bytes());
    check!(s == t, "equal documents serialize differently");
    let want = [start_tag("n:e", &at).as_str(), ">\n  <n:k/>\n</n:e>\n"].concat();
    check!(s == want, "attributes are not in the documented order");
    sym::cover(1);
}
/// equal documents serialize to identical text; different content to different text
pub fn c09_equal() {
    sym::hash_mode(sym::choice(2) as u64);
    let mk = |x: &str, y: &str, w: usize| {
        let m = match w {
            0 => el("r").at("a", x).at("b", y),
            1 => el("r").kid(el("k").at(x, "1").at("z", "2").m()).kid(M::T(y.to_string())),
            2 => el("r").kid(M::T(x.to_string())).kid(M::C(y.to_string())),
            _ => el("r").kid(el(x).m()).kid(M::D(y.to_string())),
        };
        Document::new(build(&m, 2))
    };
    let w = sym::choice(4);
    let mut s: Vec<String> = vec![];
    for _ in 0..4 {
        let mut k = String::new();
        name_char(&mut k, true);
        s.push(k);
    }
    let (a, b) = (mk(&s[0], &s[1], w), mk(&s[2], &s[3], w));
    let (t, u) = (a.to_string(), b.to_string());
    sym::note(&t);
    sym::note(&u);
    let eq = a == b;
    check!(eq == (t == u), "equality of documents and of their text differ");
    sym::emit(t.as_bytes());
    sym::cover(if eq { 1 } else { 2 });
}

// ---------------------------------------------------------------- C10
/// checks the layout of serialized text against the tree; `p` = position in `s`
struct Lay<'a> {
    s: &'a [u8],
    p: usize,
}
impl<'a> Lay<'a> {
    fn eat(&mut self, w: &str, what: &str) {
        let w = w.as_bytes();
        if !(self.s.len() >= self.p + w.len() && &self.s[self.p..self.p + w.len()] == w) {
            bad("serialized text", what);
        }
        self.p += w.len();
    }
    fn node(&mut self, m: &M, pre: &str, ind: &str, inline: bool) {
        match m {
            M::T(t) => self.eat(&text_esc(t), "text is not written exactly as stored"),
            M::C(t) => self.eat(&["<!--", t, "-->"].concat(), "a comment is not written verbatim"),
            M::D(t) => self.eat(&["<![CDATA[", t, "]]>"].concat(), "CDATA is not written verbatim"),
            M::E(e) => self.elem(e, pre, ind, inline),
        }
    }
    fn elem(&mut self, e: &ME, pre: &str, ind: &str, inline: bool) {
        let tag = match &e.prefix {
            Some(p) => [p, ":", &e.name].concat(),
            None => e.name.clone(),
        };
        self.eat(&start_tag(&tag, &e.attrs), "start tag");
        let kids = normalize(&e.kids);
        if kids.is_empty() {
            return self.eat("/>", "an empty element is written with an empty-element tag");
        }
        self.eat(">", "start tag");
        let inline = inline || kids.iter().any(|k| matches!(k, M::T(_)));
        let mut brk = !inline;
        if kids.len() == 1 && !matches!(kids[0], M::E(_)) && !(self.p < self.s.len() && self.s[self.p] == b'\n') {
            // a single comment or CDATA section may stay on the line
            brk = false;
        }
        let deeper = [pre, ind].concat();
        if brk {
            self.eat("\n", "line break before the first child");
        }
        for k in &kids {
            if brk {
                self.eat(&deeper, "indentation of a child");
            }
            self.node(k, &deeper, ind, !brk);
            if brk {
                self.eat("\n", "line break after a child");
            }
        }
        if brk {
            self.eat(pre, "indentation of an end tag");
        }
        self.eat(&["</", &tag, ">"].concat(), "end tag");
    }
}
fn text_esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            c => o.push(c),
        }
    }
    o
}
/// the indent a document is written with
fn effective(ind: &str) -> String {
    let mut spaces = true;
    for b in ind.bytes() {
        spaces &= b == b' ';
    }
    if ind == "\t" || spaces {
        ind.to_string()
    } else {
        "  ".to_string()
    }
}
pub fn layout(m: &ME, how: usize, ind: &str) {
    let e = build(m, how);
    let eff = effective(ind);
    let s = e.to_string_with_indent(ind);
    sym::note(&s);
    sym::emit(s.as_bytes());
    let mut l = Lay { s: s.as_bytes(), p: 0 };
    l.elem(m, "", &eff, false);
    check!(l.p == s.len(), "extra characters at the end of a serialized element");
    let d = Document::new_with_decl_dtd(e, None, None);
    let t = d.to_string_with_indent(ind);
    check!(t.len() == s.len() + 1 && t.starts_with(s.as_str()) && t.ends_with('\n'), "the document is not written like its root element");
    let def = d.to_string();
    let mut l = Lay { s: def.as_bytes(), p: 0 };
    l.elem(m, "", "  ", false);
    l.eat("\n", "line break at the end of a document");
    check!(l.p == def.len(), "extra characters at the end of a serialized document");
    sym::cover(1);
}
fn lay_tree(depth: usize, width: usize) {
    let mut gen = Gen::new(3).spiced();
    let m = gen.elem("r", depth, width);
    let ind = ["  ", "\t", "", "    ", "x"][sym::choice(5)];
    layout(&m, 0, ind);
}
pub fn c10_tree() {
    lay_tree(2, 2)
}
pub fn c10_treeq() {
    let mut gen = Gen::new(2).spiced();
    gen.attrs = false;
    let m = gen.elem("r", 2, 2);
    layout(&m, 0, ["\t", "   "][sym::choice(2)]);
}
pub fn c10_mixedq() {
    let mut gen = Gen::new(1).spiced();
    gen.attrs = false;
    gen.kinds = 2;
    let m = gen.elem("r", 3, 2);
    layout(&m, 0, "\t");
}
pub fn c10_sameq() {
    let mut gen = Gen::new(1).spiced();
    gen.attrs = false;
    let m = gen.elem("r", 2, 2);
    let d = Document::new_with_decl_dtd(build(&m, 0), None, None);
    let a = ok(kiss_xml::parse_str(d.to_string_with_indent(["\t", "\n"][sym::choice(2)])), "does not parse");
    agree(a.root_element(), &m, &vec![], "after serializing with an indent");
    sym::emit(a.to_string().as_bytes());
    sym::cover(1);
}
pub fn c10_tree3() {
    lay_tree(2, 3)
}
pub fn c10_deep() {
    let mut gen = Gen::new(2).spiced();
    gen.attrs = false;
    let m = gen.elem("r", 4, 1);
    layout(&m, 0, ["  ", "\t", "   "][sym::choice(3)]);
}
/// elements only, then a leaf, three levels of up to two children
pub fn c10_mixed() {
    let mut gen = Gen::new(2).spiced();
    gen.attrs = false;
    gen.kinds = 2;
    let m = gen.elem("r", 3, 2);
    layout(&m, 0, [" ", "\t"][sym::choice(2)]);
}
/// up to `n` children of one kind, at most one text at any position among them, the same one level down or not
pub fn c10_pos() {
    let n = 1 + sym::choice(9);
    let mut e = el("p");
    let k = sym::choice(3);
    let at = sym::choice(n + 1);
    let mut t = String::from("x");
    g::ascii(&mut t);
    for i in 0..n {
        e.kids.push(if i == at {
            M::T(t.clone())
        } else {
            match k {
                0 => el("c").kid(el("d").m()).kid(M::C("c".to_string())).m(),
                1 => M::C(t.clone()),
                _ => M::D(t.clone()),
            }
        });
    }
    // (comments cannot hold every character with a '-')
    sym::assume(k != 1 || !t.ends_with('-'));
    let m = match sym::choice(3) {
        0 => e,
        1 => el("r").kid(e.m()).kid(el("s").kid(el("u").m()).m()),
        _ => el("r").kid(M::T("t".to_string())).kid(e.m()),
    };
    layout(&m, 0, ["\t", "   "][sym::choice(2)]);
}
/// an arbitrary indent string
fn indent(n: usize, uni: bool) {
    let mut ind = String::new();
    for _ in 0..sym::choice(n + 1) {
        if uni {
            g::uni(&mut ind);
        } else {
            g::ascii(&mut ind);
        }
    }
    let m = el("r").kid(el("a").kid(el("b").m()).kid(M::C("c".to_string())).m()).kid(el("t").kid(M::T("x".to_string())).kid(el("u").kid(el("v").m()).m()).m());
    sym::note(&ind);
    layout(&m, 0, &ind);
}
pub fn c10_indent() {
    indent(4, false)
}
pub fn c10_indentu() {
    indent(2, true)
}
/// text and attribute values of any characters, in inline and in broken elements
pub fn c10_text() {
    let mut t = String::new();
    g::uni(&mut t);
    g::ascii(&mut t);
    sym::assume(!blank(&t));
    let m = match sym::choice(4) {
        0 => el("r").kid(M::T(t)),
        1 => el("r").kid(el("a").m()).kid(M::T(t)).kid(el("b").kid(el("c").m()).kid(M::C("x".to_string())).m()),
        2 => el("r").kid(el("a").at("k", &t).kid(M::T(t.clone())).m()).kid(M::D("d".to_string())),
        _ => el("r").at("k", &t).kid(el("a").kid(el("b").kid(M::T(t.clone())).kid(M::D("x".to_string())).m()).m()),
    };
    layout(&m, 0, ["\t", "  "][sym::choice(2)]);
}
/// the same content whatever the indent: parse the differently indented texts and compare
pub fn c10_same() {
    let mut gen = Gen::new(2).spiced();
    let m = gen.elem("r", 2, 2);
    let d = Document::new_with_decl_dtd(build(&m, 0), None, None);
    let a = ok(kiss_xml::parse_str(d.to_string_with_indent(["\t", "", "     ", "\n"][sym::choice(4)])), "does not parse");
    agree(a.root_element(), &m, &vec![], "after serializing with an indent");
    sym::emit(a.to_string().as_bytes());
    sym::cover(1);
}
