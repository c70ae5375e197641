//! Whole words in every place a document has for one: no name, value or content is special.
use crate::h_build::layout;
use crate::h_mirror::mirror;
use crate::h_ns::write;
use crate::h_parse::roundtrip;
use crate::m::*;
use crate::{g, sym};
use kiss_xml::dom::*;
use std::collections::HashMap;

fn letters(s: &mut String, n: usize) {
    for _ in 0..n {
        let v = g::ascii(s);
        sym::assume(((v | 32) >= b'a') & ((v | 32) <= b'z'));
    }
}
/// any word of 2..=12 letters
fn word() -> String {
    let mut s = String::new();
    letters(&mut s, 2 + sym::choice(11));
    s
}
fn xml(s: &str) -> bool {
    let b = s.as_bytes();
    (b.len() >= 3) && ((b[0] | 32) == b'x') & ((b[1] | 32) == b'm') & ((b[2] | 32) == b'l')
}
/// an attribute name: a word, or two words with a colon
fn attr_name() -> String {
    if sym::choice(2) == 0 {
        let w = word();
        sym::assume(w != "xmlns");
        return w;
    }
    let mut s = String::new();
    letters(&mut s, 1 + sym::choice(5));
    sym::assume(s != "xmlns");
    s.push(':');
    letters(&mut s, 1 + sym::choice(8));
    s
}
fn txt(s: &str) -> M {
    M::T(s.to_string())
}
/// a word, or up to 40 printable characters (none that is escaped)
fn phrase() -> String {
    if sym::choice(2) == 0 {
        return word();
    }
    let mut s = String::new();
    for _ in 0..[1, 4, 10, 20, 36, 40][sym::choice(6)] {
        let v = g::ascii(&mut s);
        sym::assume((v > b' ') & (v < 127) & (v != b'&') & (v != b'<') & (v != b'>') & (v != b'"') & (v != b'\'') & (v != b'-'));
    }
    s
}
const PLACES: usize = 10;
/// a document with the word in one place
fn place(k: usize) -> ME {
    let base = |w: &str| el("r").kid(el("c").at("k", "1").kid(txt(w)).m());
    match k {
        0 => {
            let w = word();
            el("r").kid(el(&w).at("k", " v ").kid(txt(" t ")).m()).kid(el(&w).m())
        }
        1 => {
            let w = word();
            el(&w).kid(el("c").kid(txt("t")).m()).kid(M::C(" c ".to_string()))
        }
        2 => {
            let n = attr_name();
            el("r").at("k", "1").kid(el("c").at(&n, " a&b ").at("a", "2").kid(txt(" t ")).m()).kid(el("d").kid(el("e").m()).m())
        }
        3 => {
            let w = word();
            let mut e = el("c").kid(txt("t"));
            sym::assume(!xml(&w));
            e.prefix = Some(w.clone());
            el("r").at(&["xmlns:", &w].concat(), "u").kid(e.m()).kid(el("d").m())
        }
        4 => {
            let w = phrase();
            el("r").at("k", &w).kid(el("c").at("xml:space", &w).at("id", &w).kid(txt(" t ")).m())
        }
        5 => base(&phrase()),
        6 => {
            let w = phrase();
            el("r").kid(txt(&w)).kid(el("c").kid(el("d").m()).m()).kid(txt("x"))
        }
        7 => el("r").kid(M::C(phrase())).kid(el("c").m()),
        8 => el("r").kid(M::D(phrase())).kid(el("c").m()),
        _ => {
            let w = phrase();
            let mut e = el("c").kid(txt("t"));
            e.prefix = Some("p".to_string());
            el("r").at("xmlns:p", &w).kid(e.m()).kid(el("d").at("xmlns", &w).kid(el("f").m()).m())
        }
    }
}
fn all() -> ME {
    place(sym::choice(PLACES))
}
fn source(m: &ME) -> String {
    let mut s = String::new();
    write(m, &mut s);
    s
}
pub fn c02_words() {
    let s = match sym::choice(4) {
        0 => source(&all()),
        1 => ["<?xml version=\"1.0\" encoding=\"", &phrase(), "\"?><r/>"].concat(),
        2 => ["<?xml version=\"1.0\" ", &word(), "=\"yes\"?>\n<!DOCTYPE ", &word(), ">\n<r/>"].concat(),
        _ => ["<!DOCTYPE r [<!", &word(), " a \"b\">]>\n<r>t</r>"].concat(),
    };
    roundtrip(&s);
}
pub fn c03_words() {
    let m = all();
    let d = Document::new(build(&m, sym::choice(2)));
    let s = d.to_string();
    sym::note(&s);
    let p = ok(kiss_xml::parse_str(s.as_str()), "a serialized document does not parse");
    agree(d.root_element(), &m, &vec![], "built document");
    agree(p.root_element(), &m, &vec![], "after serializing and parsing");
    check!(d == p, "the parsed document is not equal to the one that was built");
    sym::emit(s.as_bytes());
    sym::cover(1);
}
pub fn c06_words() {
    let m = all();
    mirror(&source(&m), &m);
}
pub fn c10_words() {
    let m = all();
    layout(&m, sym::choice(2), ["  ", "\t"][sym::choice(2)]);
    sym::cover(1);
}
/// entities by any name: only the predefined five are replaced or refused
pub fn c04_words() {
    let w = word();
    let s = w.as_str();
    let m = el("r").at("k", &["&", s, ";", s].concat()).kid(txt(&["&", s, ";<", s].concat()));
    let d = Document::new(build(&m, 0));
    let p = ok(kiss_xml::parse_str(d.to_string()), "a serialized document does not parse");
    agree(p.root_element(), &m, &vec![], "escaped and unescaped");
    sym::emit(p.to_string().as_bytes());
    sym::cover(1);
}
/// edits of a list of children that share the word in one place
pub fn c11_words() {
    let m = all();
    let mut e = build(&m, 0);
    let w = word();
    let mut n = m.clone();
    match sym::choice(5) {
        0 => {
            e.append(ok(Element::new_with_text(&w, "t"), "constructor"));
            n.kids.push(el(&w).kid(txt("t")).m());
        }
        1 => {
            e.append(Text::new(w.as_str()));
            n.kids.push(txt(&w));
        }
        2 => {
            ok(e.insert(0, ok(Comment::new(w.as_str()), "comment")), "insert");
            n.kids.insert(0, M::C(w));
        }
        3 => {
            e.set_text(w.as_str());
            n.kids = vec![txt(&w)];
        }
        _ => {
            ok(e.remove(0), "remove");
            n.kids.remove(0);
        }
    }
    agree(&e, &n, &vec![], "after the edit");
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
pub fn c12_words() {
    let m = all();
    let e = build(&m, 0);
    check!(e.text() == crate::h_kind::elem_text(&m), "the text of an element");
    check!(e.text() == ok(kiss_xml::parse_str(source(&m)), "a well-formed document was refused").root_element().text(), "the text of a parsed element");
    sym::emit(e.text().as_bytes());
    sym::cover(1);
}
/// search by a word that may or may not be the name
pub fn c13_words() {
    let (w, v) = (word(), word());
    let x = el("x").kid(el(&v).m());
    let m = el("r").kid(el(&w).m()).kid(el(&v).kid(el(&w).m()).m()).kid(x.m());
    let e = build(&m, 0);
    let eq = w == v;
    let q = sym::choice(2) == 0;
    let s = if q { &w } else { &v };
    let direct = if eq { 2 } else { 1 };
    let deep = if eq { 4 } else { 2 };
    check!(e.elements_by_name(s.as_str()).count() == direct, "direct lookup by name");
    check!(e.search_elements_by_name(s.as_str()).count() == deep, "recursive search by name");
    check!(e.search_elements(|y| y.name() == *s).count() == deep, "recursive search by predicate");
    check!(ok(e.first_element_by_name(s.as_str()), "first").child_elements().count() == if q || eq { 0 } else { 1 }, "first element by name");
    check!(e.search(|_| true).count() == 5 && e.children_recursive().count() == 5, "number of nodes");
    sym::emit(&[direct as u8]);
    sym::cover(1);
}
pub fn c14_words() {
    let m = place([3, 9][sym::choice(2)]);
    let p = ok(kiss_xml::parse_str(source(&m)), "a well-formed document was refused");
    agree(p.root_element(), &m, &vec![], "parsed");
    let mut e = build(&m, sym::choice(3));
    agree(&e, &m, &vec![], "built");
    // the same URI under a prefix of its own
    let u = m.attrs[0].1.clone();
    let k = ok(Element::new("k", None, Option::<HashMap<String, String>>::None, Some(u.clone()), Some("z".to_string()), None), "constructor");
    e.append(k);
    check!(e.elements_by_namespace(Some(u.as_str())).count() == m.kids.len() - if m.kids.len() == 2 && m.attrs[0].0 != "xmlns:p" { 1 } else { 0 } + 1, "lookup by namespace");
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
/// equality sees every word, and a clone has it
pub fn c16_words() {
    let m = all();
    let (e, f) = (build(&m, 0), build(&m, 1));
    check!(e == f && e == e.clone() && f.clone() == e, "equal elements differ");
    let mut c = e.clone();
    ok(c.set_attr("zz", "1"), "set_attr");
    check!(e == f && c != e, "a change of a clone");
    let p = ok(kiss_xml::parse_str(source(&m)), "a well-formed document was refused");
    check!(*p.root_element() == e, "parsed and built differ");
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
/// two words of the same place: equal exactly if the words are
pub fn c16_words2() {
    let n = [2, 3, 5, 8, 13, 21, 34, 55][sym::choice(8)];
    let (mut w, mut v) = (String::new(), String::new());
    letters(&mut w, n);
    letters(&mut v, n);
    let k = sym::choice(5);
    let mk = |w: &str| match k {
        0 => el("r").kid(el(w).m()),
        1 => el("r").at("k", w),
        2 => el("r").kid(txt(w)),
        3 => el("r").kid(M::C(w.to_string())),
        _ => el("r").at("xmlns", w),
    };
    let (a, b) = (build(&mk(&w), 0), build(&mk(&v), 0));
    check!((a == b) == (w == v), "equality of elements with different words");
    sym::emit(&[(w == v) as u8]);
    sym::cover(1);
}
pub fn c18_words() {
    let (n, v) = (attr_name(), word());
    sym::assume(n != "a" && n != "b");
    let mut e = ok(Element::new_with_attributes("e", HashMap::from([("a", "1")])), "constructor");
    check!(e.get_attr(n.as_str()).is_none(), "an attribute that was not set");
    ok(e.set_attr(n.as_str(), "old"), "set_attr");
    ok(e.set_attr("b", "2"), "set_attr");
    ok(e.set_attr(n.as_str(), v.as_str()), "set_attr");
    check!(e.get_attr(n.as_str()) == Some(&v), "the value that was set last");
    check!(e.attributes().len() == 3, "number of attributes");
    let s = Document::new_with_decl_dtd(e.clone(), None, None).to_string();
    let p = ok(kiss_xml::parse_str(s.as_str()), "a serialized document does not parse");
    check!(p.root_element().get_attr(n.as_str()) == Some(&v) && p.root_element().attributes().len() == 3, "the value in the parsed document");
    if sym::choice(2) == 0 {
        check!(e.remove_attr(n.as_str()) == Some(v), "removal returns the value");
        check!(e.remove_attr(n.as_str()).is_none() && e.attributes().len() == 2, "removed twice");
    } else {
        e.clear_attributes();
        check!(e.attributes().is_empty() && e.get_attr(n.as_str()).is_none(), "cleared");
    }
    sym::emit(s.as_bytes());
    sym::cover(1);
}
/// words in the declaration and the definitions
pub fn c19_words() {
    let k = sym::choice(7);
    // a name or keyword is a word
    let w = if k >= 3 { word() } else { phrase() };
    let s = match k {
        0 => ["<?xml version=\"", &w, "\"?><!DOCTYPE r><r/>"].concat(),
        1 => ["<?xml version=\"1.0\" encoding=\"", &w, "\"?><!DOCTYPE r><r/>"].concat(),
        2 => ["<?xml version='1.0' standalone='", &w, "'?><!DOCTYPE r><r/>"].concat(),
        3 => ["<?xml ", &w, "='1'?><!DOCTYPE r><r/>"].concat(),
        4 => ["<!DOCTYPE ", &w, "><!DOCTYPE ", &w, "><r/>"].concat(),
        5 => ["<!DOCTYPE r ", &w, " \"a>b\"><!DOCTYPE x><r/>"].concat(),
        _ => ["<!DOCTYPE r [<!", &w, " a '>'>]><r/>"].concat(),
    };
    crate::h_prolog::compare(&s, "<r/>");
}
pub fn c20_words() {
    let m = all();
    let e = build(&m, 0);
    for (c, k) in e.children().zip(&m.kids) {
        let want = match k {
            M::E(_) => 0,
            M::T(_) => 1,
            M::C(_) => 2,
            M::D(_) => 3,
        };
        check!([c.is_element(), c.is_text(), c.is_comment(), c.is_cdata()] == [want == 0, want == 1, want == 2, want == 3], "kind of a node");
        check!([c.as_element().is_ok(), c.as_text().is_ok(), c.as_comment().is_ok(), c.as_cdata().is_ok()] == [want == 0, want == 1, want == 2, want == 3], "cast of a node");
    }
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
pub fn c23_words() {
    let (n, w) = (word(), word());
    let mut m = el(&n);
    let e = match sym::choice(4) {
        0 => ok(Element::new_from_name(&n), "constructor"),
        1 => {
            m.kids.push(txt(&w));
            ok(Element::new_with_text(&n, w.as_str()), "constructor")
        }
        2 => {
            m.attrs.push((w.clone(), n.clone()));
            ok(Element::new_with_attributes(&n, HashMap::from([(w, n.clone())])), "constructor")
        }
        _ => {
            m.attrs.push(("xmlns".to_string(), w.clone()));
            m.kids.push(txt(&n));
            ok(Element::new(n.as_str(), Some(n.clone()), Option::<HashMap<String, String>>::None, Some(w), None, None), "constructor")
        }
    };
    agree(&e, &m, &vec![], "constructor");
    check!(e.tag_name() == n, "tag name");
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
pub fn c24_words() {
    let m = all();
    let d = Document::new(build(&m, 0));
    let s = d.to_string();
    check!(s == d.to_string_with_indent("  ") && s == format!("{d}") && s == format!("{d:?}"), "the forms of a document differ");
    let r = d.root_element().to_string();
    check!(s.as_bytes() == ["<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", &r, "\n"].concat().as_bytes(), "the text of a document");
    sym::emit(s.as_bytes());
    sym::cover(1);
}
/// any word behind the markers of the syntax: no panic
pub fn c01_words() {
    markers(&word())
}
pub fn c01_phrases() {
    markers(&phrase())
}
fn markers(w: &str) {
    const C: [(&str, &str); 16] = [
        ("<!", ">"),
        ("<!", " r [<!ENTITY a 'b'>]><r/>"),
        ("<?", "?><r/>"),
        ("<?", " a='b'?><r/>"),
        ("<r><![", "[x]]></r>"),
        ("<r>&", ";</r>"),
        ("<r a='&", ";'/>"),
        ("<r>&#", ";</r>"),
        ("<r>&#x", ";</r>"),
        ("<", ":r/>"),
        ("<r xmlns:", "='u'/>"),
        ("<r ", ":a='b'/>"),
        ("<r></", ">"),
        ("<?xml version='1.0' encoding='", "'?><r/>"),
        ("", "<r/>"),
        ("<r/>", ""),
    ];
    let (a, b) = C[sym::choice(C.len())];
    let s = [a, w, b].concat();
    crate::h_parse::survive(&s);
}
/// numeric references of any length: digits of one kind each
pub fn c01_refs() {
    let s = ["<r a='x'>&#", &digits(), ";</r>"].concat();
    crate::h_parse::survive(&s);
}
fn digits() -> String {
    let mut s = String::from(["", "x", "0", "x0", "-", "+"][sym::choice(6)]);
    let n = [1, 3, 6, 7, 8, 9, 10, 12, 16, 17, 20, 33, 40][sym::choice(13)];
    for _ in 0..n {
        let v = g::ascii(&mut s);
        match n {
            0..=8 => sym::assume(((v >= b'0') & (v <= b'9')) | (((v | 32) >= b'a') & ((v | 32) <= b'f'))),
            _ => sym::assume((v >= b'0') & (v <= b'9')),
        }
    }
    s
}
/// long references of few symbolic digits
pub fn c05_refsq() {
    let mut s = String::from(["", "x", "X", "0", "-", "+"][sym::choice(6)]);
    let c = ["0", "1", "f", "F"][sym::choice(4)];
    s.push_str(&c.repeat([0, 1, 4, 5, 6, 7, 14, 30][sym::choice(8)]));
    for _ in 0..2 {
        let v = g::ascii(&mut s);
        sym::assume(((v >= b'0') & (v <= b'9')) | (((v | 32) >= b'a') & ((v | 32) <= b'g')));
    }
    crate::h_esc::dec(&["<&#", &s, ";\u{e9}"].concat());
}
pub fn c05_refs() {
    crate::h_esc::dec(&["<&#", &digits(), ";\u{e9}"].concat());
}
/// entities by any name and number
pub fn c05_words() {
    let k = sym::choice(5);
    let mut w = String::new();
    if k < 2 || k == 4 {
        w = word();
    } else {
        letters(&mut w, 1 + sym::choice(5));
    }
    let s = match k {
        0 => ["&", &w, ";"].concat(),
        1 => ["&amp;", &w, ";"].concat(),
        2 => ["a&#", &w, ";&lt;"].concat(),
        3 => ["&#x", &w, ";"].concat(),
        _ => ["&", &w, "&lt;", &w, ";"].concat(),
    };
    crate::h_esc::dec(&s);
}
/// start and end tags with names of any length that differ in one place
pub fn c07_words() {
    let k = [0, 0, 1, 7, 22, 25, 55, 118][sym::choice(8)];
    let mut w = "n".repeat(k);
    letters(&mut w, if k == 0 { 1 + sym::choice(5) } else { 10 });
    let n = w.len();
    let v = match sym::choice(5) {
        0 => {
            let mut v = w[..k].to_string();
            letters(&mut v, n - k);
            v
        }
        1 => {
            let mut v = w.clone();
            letters(&mut v, 1 + sym::choice(3));
            v
        }
        2 => {
            let k = 1 + sym::choice(3);
            sym::assume(k < n);
            w[..n - k].to_string()
        }
        3 => {
            let k = 1 + sym::choice(2);
            sym::assume(k < n);
            w[k..].to_string()
        }
        _ => {
            let mut v = w[..n / 2].to_string();
            letters(&mut v, 1);
            v.push_str(&w[n / 2 + 1..]);
            v
        }
    };
    let s = match sym::choice(3) {
        0 => ["<", &w, ">t</", &v, ">"].concat(),
        1 => ["<r><", &w, "></", &v, "></r>"].concat(),
        _ => ["<p:", &w, " xmlns:p='u'><c/></p:", &v, ">"].concat(),
    };
    sym::note(&s);
    let r = kiss_xml::parse_str(s);
    check!(r.is_ok() == (w == v), "start and end tag: accepted exactly if the names are the same");
    sym::emit(&[r.is_ok() as u8]);
    sym::cover(if w == v { 1 } else { 2 });
}
/// words without a value among attributes
pub fn c08_words() {
    let w = attr_name();
    let v = phrase();
    let (s, good) = match sym::choice(8) {
        0 => (["<r ", &w, "/>"].concat(), false),
        1 => (["<r a='1' ", &w, "></r>"].concat(), false),
        2 => (["<r ", &w, "=", &v, "/>"].concat(), false),
        3 => (["<r ", &w, "='", &v, "\"/>"].concat(), false),
        4 => (["<r ", &w, "='", &v, "'/>"].concat(), true),
        5 => (["<r a = \"1\"\n", &w, " =\t\"", &v, "\" ></r>"].concat(), true),
        6 => (["<r a='1' ", &w, "= b='2'/>"].concat(), false),
        _ => (["<r><", &v[..0], " ", &w, "='1'/></r>"].concat(), false),
    };
    sym::assume(w != "a" && w != "b");
    sym::note(&s);
    let r = kiss_xml::parse_str(s);
    check!(r.is_ok() == good, "attributes of the form name=value, and no other");
    sym::emit(&[good as u8]);
    sym::cover(if good { 1 } else { 2 });
}
/// access and change by any name
pub fn c25_words() {
    let (w, v) = (word(), word());
    let mut m = el("r").kid(el(&w).kid(txt("1")).m()).kid(txt("x")).kid(el(&v).kid(txt("2")).m());
    let mut e = build(&m, 0);
    let first = sym::choice(2);
    let s = if first == 0 { &w } else { &v };
    let at = if w == v { 0 } else { first * 2 };
    match sym::choice(3) {
        0 => ok(e.first_element_by_name_mut(s.as_str()), "first_element_by_name_mut").set_text("n"),
        1 => {
            for x in e.elements_by_name_mut(s.as_str()).take(1) {
                x.set_text("n");
            }
        }
        _ => {
            for x in e.child_elements_mut() {
                if x.name() == *s {
                    x.set_text("n");
                    break;
                }
            }
        }
    }
    if let M::E(x) = &mut m.kids[at] {
        x.kids = vec![txt("n")];
    }
    agree(&e, &m, &vec![], "after a change by name");
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
/// the same edit, with any word, of equal documents
pub fn c26_words() {
    let m = all();
    let (mut a, b) = (Document::new(build(&m, 0)), ok(kiss_xml::parse_str(source(&m)), "a well-formed document was refused"));
    let mut b = b;
    b.set_declaration(Some(Declaration::new()));
    check!(a == b && a.to_string() == b.to_string(), "built and parsed differ");
    let w = word();
    let k = sym::choice(4);
    let run = |d: &mut Document| {
        let e = d.root_element_mut();
        match k {
            0 => e.remove_elements_by_name(w.as_str()).to_string(),
            1 => e.set_attr(w.as_str(), "1").is_ok().to_string(),
            2 => e.remove_attr(w.as_str()).unwrap_or_default(),
            _ => e.remove_elements(|x| x.text() == w).to_string(),
        }
    };
    let (x, y) = (run(&mut a), run(&mut b));
    check!(x == y, "the same edit of equal documents returns something else");
    check!(a == b && a.to_string() == b.to_string(), "the same edit of equal documents leaves different ones");
    sym::emit(x.as_bytes());
    sym::cover(1);
}
