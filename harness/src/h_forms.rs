//! C24: all textual forms of a node or document are the same text, and leaves hold exactly what they were given.
use crate::gen::Gen;
use crate::m::*;
use crate::{g, sym};
use kiss_xml::dom::*;

fn both<T: std::fmt::Display + std::fmt::Debug + ?Sized>(x: &T, want: &str, what: &str) {
    if format!("{}", x) != want {
        bad(what, "the displayed text differs");
    }
    if format!("{:?}", x) != want {
        bad(what, "the debug text differs");
    }
    if x.to_string() != want {
        bad(what, "to_string differs");
    }
}
/// every way to the text of a node
fn forms(b: &Box<dyn Node>, want: &str) {
    both(b, want, "boxed node");
    both(b.as_ref(), want, "node");
    both(b.as_node(), want, "as_node");
    check!(b.to_string_with_indent("  ") == want, "the text with the default indent differs");
    check!(b.as_node().to_string_with_indent("  ") == want, "the text with the default indent differs");
    if let Ok(x) = b.as_element() {
        both(x, want, "element");
        check!(x.to_string_with_indent("  ") == want, "the text of an element with the default indent differs");
        both(&x.clone(), want, "cloned element");
        both(&x.clone().boxed(), want, "boxed element");
    }
    if let Ok(x) = b.as_text() {
        both(x, want, "text");
        both(&x.clone(), want, "cloned text");
    }
    if let Ok(x) = b.as_comment() {
        both(x, want, "comment");
        both(&x.clone(), want, "cloned comment");
    }
    if let Ok(x) = b.as_cdata() {
        both(x, want, "CDATA");
        both(&x.clone(), want, "cloned CDATA");
    }
    let c = clone_node(b);
    both(&c, want, "cloned node");
}
/// an indent that is accepted as such, or not at all
fn indent(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        g::ascii(&mut s);
    }
    s
}
fn accepted(s: &str) -> bool {
    if s == "\t" {
        return true;
    }
    let mut a = true;
    for b in s.bytes() {
        a &= b == b' ';
    }
    a
}
fn leaf(k: usize, how: usize, s: &str) -> Option<Box<dyn Node>> {
    Some(match (k, how) {
        (0, 0) => Text::new(s).boxed(),
        (0, 1) => Text::from(s).boxed(),
        (0, 2) => Text::from(s.to_string()).boxed(),
        (0, 3) => Text::new(s.to_string()).concat(&Text::new("")).boxed(),
        (0, _) => {
            let mut t = Text::new("old");
            t.content = s.to_string();
            t.boxed()
        }
        (1, 0) => match Comment::new(s) {
            Ok(c) => c.boxed(),
            Err(_) => return None,
        },
        (1, 1) | (1, 2) => {
            if Comment::new(s).is_err() {
                return None;
            }
            if how == 1 { Comment::from(s).boxed() } else { Comment::from(s.to_string()).boxed() }
        }
        (1, _) => {
            let mut c = ok(Comment::new("old"), "comment");
            if c.set_content(s).is_err() {
                return None;
            }
            c.boxed()
        }
        (_, 0) => match CData::new(s) {
            Ok(c) => c.boxed(),
            Err(_) => return None,
        },
        (_, 1) | (_, 2) => {
            if CData::new(s).is_err() {
                return None;
            }
            if how == 1 { CData::from(s).boxed() } else { CData::from(s.to_string()).boxed() }
        }
        (_, _) => {
            let mut c = ok(CData::new("old"), "CDATA");
            if c.set_text(s).is_err() {
                return None;
            }
            c.boxed()
        }
    })
}
fn held(b: &Box<dyn Node>, s: &str) {
    check!(b.text() == s, "the text of a leaf is not the string it was given");
    if let Ok(x) = b.as_text() {
        check!(x.content == s, "the content of a text is not the string it was given");
    }
    if let Ok(x) = b.as_comment() {
        check!(x.get_content() == s, "the content of a comment is not the string it was given");
    }
    if let Ok(x) = b.as_cdata() {
        check!(x.get_content() == s, "the content of a CDATA section is not the string it was given");
    }
}
/// the text of a leaf: its content between its delimiters, or escaped
fn written(b: &Box<dyn Node>, s: &str) -> String {
    if b.is_comment() {
        ["<!--", s, "-->"].concat()
    } else if b.is_cdata() {
        ["<![CDATA[", s, "]]>"].concat()
    } else {
        let mut o = String::new();
        for c in s.chars() {
            match c {
                '&' => o.push_str("&amp;"),
                '<' => o.push_str("&lt;"),
                '>' => o.push_str("&gt;"),
                c => o.push(c),
            }
        }
        o
    }
}
fn leaves(s: &str, ind: &str) {
    let k = sym::choice(3);
    let how = sym::choice(5);
    match leaf(k, how, s) {
        None => sym::cover(2),
        Some(b) => {
            held(&b, s);
            let w = written(&b, s);
            sym::emit(w.as_bytes());
            forms(&b, &w);
            // (no indent, accepted or not, makes a difference)
            check!(b.to_string_with_indent(ind) == w, "the text of a leaf depends on the indent");
            held(&clone_node(&b), s);
            sym::cover(1);
        }
    }
}
/// every leaf of up to two characters, made in every way
pub fn c24_leaf() {
    let s = g::text(2);
    leaves(&s, ["", "\t", "      ", "xx"][sym::choice(4)]);
}
pub fn c24_leafq() {
    let s = g::text(1);
    leaves(&s, ["\t", "   "][sym::choice(2)]);
}
pub fn c24_leafascii() {
    let n = sym::choice(4);
    let s = g::ascii_text(n);
    leaves(&s, "");
}
/// long contents with one arbitrary character somewhere
pub fn c24_leaflong() {
    let n = [7, 15, 16, 31, 64, 260][sym::choice(6)];
    let mut s = "x ".repeat(n);
    g::uni(&mut s);
    s.push_str([" \n", "y"][sym::choice(2)]);
    leaves(&s, "\t");
}
/// an invalid indent is like the default, for every node
fn indents(b: &Box<dyn Node>, n: usize) {
    let i = indent(n);
    let s = b.to_string_with_indent(i.as_str());
    if accepted(&i) {
        sym::cover(2);
    } else {
        check!(s == b.to_string(), "an invalid indent is not like the default");
        sym::cover(3);
    }
    sym::emit(s.as_bytes());
}
fn every(b: &Box<dyn Node>) {
    forms(b, &b.to_string_with_indent("  "));
    if let Ok(e) = b.as_element() {
        for c in e.children() {
            every(c);
        }
    }
}
/// all nodes of a tree
fn trees(depth: usize, width: usize, uni: bool, attrs: bool, hots: usize) {
    let mut x = Gen::new(hots).spiced();
    x.uni = uni;
    x.attrs = attrs;
    let m = x.elem("r", depth, width);
    let b = build(&m, if hots > 1 { sym::choice(4) } else { 0 }).boxed();
    every(&b);
    sym::emit(b.to_string().as_bytes());
    sym::cover(1);
}
pub fn c24_tree() {
    trees(2, 2, false, true, 2)
}
pub fn c24_treeq() {
    trees(2, 2, false, false, 1)
}
pub fn c24_uni() {
    trees(1, 2, true, true, 2)
}
pub fn c24_uniq() {
    trees(1, 1, true, true, 2)
}
pub fn c24_deep() {
    trees(4, 1, false, false, 2)
}
pub fn c24_indent() {
    let mut x = Gen::new(1).spiced();
    x.attrs = false;
    let m = x.elem("r", 2, 1);
    indents(&build(&m, 0).boxed(), 1 + sym::choice(2));
}
pub fn c24_indent3() {
    let m = el("r").kid(el("a").kid(el("b").m()).m()).kid(M::C("c".to_string()));
    indents(&build(&m, 0).boxed(), 3 + sym::choice(2));
}
const DTDS: [&str; 3] = ["<!DOCTYPE a>", "<!DOCTYPE b [\n <!ENTITY x \"y>\">\n]>", "<!DOCTYPE c SYSTEM 'd'>"];
/// the document: prolog lines, root element, line break
fn docs(m: &ME, hot: &str, ind: &str) {
    let e = build(m, 0);
    let nd = sym::choice(3);
    let mut dtds = vec![];
    let mut want = String::new();
    let decl = match sym::choice(3) {
        0 => None,
        1 => {
            want.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
            Some(Declaration::new())
        }
        _ => {
            let s = ["<?xml version='1.0' a='", hot, "'?>"].concat();
            want.push_str(&s);
            want.push('\n');
            match Declaration::from_str(s.as_str()) {
                Ok(d) => {
                    both(&d, &s, "declaration");
                    both(&d.clone(), &s, "cloned declaration");
                    Some(d)
                }
                Err(_) => return sym::cover(2),
            }
        }
    };
    for i in 0..nd {
        let d = ok(DTD::from_string(DTDS[i]), "DTD");
        check!(format!("{}", d) == DTDS[i] && d.to_string() == DTDS[i], "the text of a definition");
        want.push_str(DTDS[i]);
        want.push('\n');
        dtds.push(d);
    }
    let pro = want.len();
    want.push_str(&e.to_string());
    want.push('\n');
    let mut d = Document::new_with_decl_dtd(e, decl.clone(), Some(&dtds));
    both(&d, &want, "document");
    check!(d.to_string() == want, "Document::to_string differs");
    check!(d.to_string_with_indent("  ") == want, "the document with the default indent differs");
    check!(d.to_string_with_indent(ind.to_string()) == [&want[..pro], &d.root_element().to_string_with_indent(ind), "\n"].concat(), "a document is not written as its prolog, its root element and a line break");
    let mut out: Vec<u8> = vec![];
    ok(d.write_to_file(&mut out), "write_to_file");
    check!(out == want.as_bytes(), "the written document differs from its text");
    sym::emit(want.as_bytes());
    // the same text after its parts were set one by one
    let mut f = Document::new(Element::default());
    *f.root_element_mut() = d.root_element().clone();
    f.set_declaration(decl);
    f.set_doctype_defs(Some(&dtds));
    both(&f, &want, "document set part by part");
    // without its prolog it is the root element and a line break
    d.set_declaration(None);
    d.set_doctype_defs(None);
    both(&d, &want[pro..], "document without prolog");
    sym::cover(1);
}
pub fn c24_doc() {
    let mut x = Gen::new(2);
    x.attrs = false;
    let m = x.elem("r", 2, 1);
    let mut h = String::new();
    g::uni(&mut h);
    docs(&m, &h, ["\t", "", "zz"][sym::choice(3)]);
}
pub fn c24_docq() {
    let mut t = String::new();
    g::ascii(&mut t);
    let mut pre = el("r").at("xmlns:p", "u");
    pre.prefix = Some("p".to_string());
    let m = [el("r"), el("r").kid(M::T(["x", &t].concat())), el("r").at("k", &t).kid(el("a").m()).kid(M::C("c".to_string())), el("r").at("k", "v"), el("r").at("k", "v").at("xmlns", "u").kid(M::C("c".to_string())), el("r").kid(el("a").m()), pre][sym::choice(7)].clone();
    docs(&m, "x", ["\t", "zz"][sym::choice(2)]);
}
/// leaves are ordered by their content, consistently with equality
fn ordered(a: &str, b: &str) {
    use std::cmp::Ordering::*;
    let mut want = Equal;
    let (x, y) = (a.as_bytes(), b.as_bytes());
    for i in 0..x.len().min(y.len()) {
        if x[i] != y[i] {
            want = if x[i] < y[i] { Less } else { Greater };
            break;
        }
    }
    if want == Equal && x.len() != y.len() {
        want = if x.len() < y.len() { Less } else { Greater };
    }
    let (p, q, e) = match sym::choice(3) {
        0 => {
            let (s, t) = (Text::new(a), Text::new(b));
            (s.partial_cmp(&t), t.partial_cmp(&s), s == t)
        }
        1 => {
            let (s, t) = match (Comment::new(a), Comment::new(b)) {
                (Ok(s), Ok(t)) => (s, t),
                _ => return sym::cover(2),
            };
            (s.partial_cmp(&t), t.partial_cmp(&s), s == t)
        }
        _ => {
            let (s, t) = match (CData::new(a), CData::new(b)) {
                (Ok(s), Ok(t)) => (s, t),
                _ => return sym::cover(2),
            };
            (s.partial_cmp(&t), t.partial_cmp(&s), s == t)
        }
    };
    check!(p == Some(want), "leaves are not ordered by their content");
    check!(q == Some(want.reverse()), "the order of leaves is not symmetric");
    check!(e == (want == Equal), "order and equality of leaves disagree");
    sym::cover(1);
}
pub fn c24_order() {
    let (a, b) = (g::text(1), g::text(1));
    ordered(&a, &b)
}
pub fn c24_order3() {
    let (n, k) = (sym::choice(4), sym::choice(4));
    let (a, b) = (g::ascii_text(n), g::ascii_text(k));
    ordered(&a, &b)
}
/// elements are ordered by name, whatever else differs
pub fn c24_elements() {
    let side = || {
        let mut n = String::new();
        for _ in 0..1 + sym::choice(2) {
            let c = g::ascii(&mut n);
            sym::assume((c == b'_') | ((c | 32) >= b'a') & ((c | 32) <= b'z'));
        }
        let mut m = el(&n);
        match sym::choice(5) {
            0 => {}
            1 => {
                let mut p = String::new();
                let c = g::ascii(&mut p);
                sym::assume(((c | 32) >= b'a') & ((c | 32) <= b'z'));
                m = m.at(&["xmlns:", &p].concat(), "u");
                m.prefix = Some(p);
            }
            2 => m = m.at("xmlns", "v"),
            3 => m = m.at("k", "w"),
            _ => m = m.kid(M::T("t".to_string())),
        }
        (n, build(&m, 0))
    };
    let ((n, x), (k, y)) = (side(), side());
    check!(x.partial_cmp(&y) == Some(n.as_bytes().cmp(k.as_bytes())), "elements are not ordered by name");
    check!((x < y) == (n < k) && (x > y) == (n > k) && (x <= y) == (n <= k), "comparisons of elements");
    sym::emit(&[x.partial_cmp(&y).map(|o| o as i8 as u8).unwrap_or(9)]);
    sym::cover(1);
}
