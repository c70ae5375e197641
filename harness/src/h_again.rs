//! Nothing is remembered between calls, and nothing depends on how far something is from the start.
use crate::h_big::{hot, rep};
use crate::h_ns::write;
use crate::m::*;
use crate::{fsm, g, sym};
use kiss_xml::dom::*;

fn txt(s: &str) -> M {
    M::T(s.to_string())
}
// ---------------------------------------------------------------- two inputs, one after the other
const FORM: [(&str, &str); 12] = [
    ("<a>", "</a>"),
    ("<a x", "='1'/>"),
    ("<a x=\"", "\"/>"),
    ("<a><!--", "--></a>"),
    ("<a><![CDATA[", "]]></a>"),
    ("<a><b", "/></a>"),
    ("<a></a", ">"),
    ("<a/>", ""),
    ("<?xml v", "?><a/>"),
    ("<!DOCTYPE", "><a/>"),
    ("<a>&", ";</a>"),
    ("", "<a/>"),
];
fn form(n: usize) -> String {
    let (a, b) = FORM[sym::choice(FORM.len())];
    let mut s = String::from(a);
    for _ in 0..n {
        g::ascii(&mut s);
    }
    s.push_str(b);
    s
}
/// a text of the same form as another
fn two(n: usize) -> (String, String) {
    let (a, b) = FORM[sym::choice(FORM.len())];
    let (mut s, mut t) = (String::from(a), String::from(a));
    for _ in 0..n {
        g::ascii(&mut s);
        g::ascii(&mut t);
    }
    s.push_str(b);
    t.push_str(b);
    (s, t)
}
pub fn c01_again() {
    let (s, t) = two(2);
    crate::h_parse::survive(&s);
    crate::h_parse::survive(&t);
    crate::h_parse::survive(&s);
}
pub fn c02_again() {
    let (s, t) = two(2);
    let _ = kiss_xml::parse_str(s.as_str());
    crate::h_parse::roundtrip(&t);
}
pub fn c04_again() {
    let (a, b) = (g::ascii_text(2), g::ascii_text(2));
    let w = sym::choice(3);
    crate::h_esc::one(w, &a);
    crate::h_esc::one((w + sym::choice(3)) % 3, &b);
    crate::h_esc::one(w, &a);
}
pub fn c05_again() {
    let mut v = vec![];
    for _ in 0..2 {
        let mut s = String::from(["&", "&l", "&#x4", "&#4", "x&am"][sym::choice(5)]);
        g::ascii(&mut s);
        s.push_str([";", "t;", "p;", ""][sym::choice(4)]);
        v.push(s);
    }
    crate::h_esc::dec(&v[0]);
    crate::h_esc::dec(&v[1]);
    crate::h_esc::dec(&v[0]);
}
/// a plain character of a content
fn plain() -> String {
    let mut s = String::new();
    let c = g::ascii(&mut s);
    sym::assume((c > b' ') & (c < 127) & (c != b'<') & (c != b'&') & (c != b'"') & (c != b'\'') & (c != b'-') & (c != b']') & (c != b'>'));
    s
}
fn letter() -> String {
    let mut s = String::new();
    let c = g::ascii(&mut s);
    sym::assume(((c | 32) >= b'a') & ((c | 32) <= b'z'));
    s
}
/// a small document of one of several kinds
fn small() -> ME {
    match sym::choice(7) {
        0 => el("r").kid(el("a").kid(txt(&plain())).m()).kid(el("b").m()),
        1 => el("r").kid(el("a").at("k", &plain()).m()),
        2 => el("r").kid(M::C(plain())).kid(el("a").m()),
        3 => el("r").kid(M::D(plain())).kid(el("a").m()),
        4 => el("r").kid(el(&letter()).kid(txt("t")).m()),
        5 => el("r").kid(el("a").at(&letter(), "v").m()),
        _ => el(&letter()).kid(el("a").m()),
    }
}
fn source(m: &ME) -> String {
    let mut s = String::new();
    write(m, &mut s);
    s
}
pub fn c06_again() {
    let (a, b) = (small(), small());
    let d = ok(kiss_xml::parse_str(source(&a)), "a well-formed document was refused");
    crate::h_mirror::mirror(&source(&b), &b);
    // and the first document is still what it was
    agree(d.root_element(), &a, &vec![], "a document after another was parsed");
}
pub fn c07_again() {
    let (s, t) = two(2);
    crate::h_reject::judge(&s, false, true);
    crate::h_reject::judge(&t, false, true);
    crate::h_reject::judge(&s, false, true);
}
/// a refused document before any other
pub fn c07_after() {
    let s = ["<a>", "<a></b>", "<a><b></a>", "<a/><b/>", "<a b/>", "<!--", "<a>\u{e9}<![CDATA[", "x"][sym::choice(8)];
    check!(kiss_xml::parse_str(s).is_err(), "a malformed document was accepted");
    let t = form(1);
    crate::h_reject::judge(&t, false, true);
}
pub fn c08_again() {
    let (a, b) = [("<a ", "/>"), ("<a k=", "></a>"), ("<a ", "='1'/>"), ("<a k='1' ", "='2'/>"), ("<a><", "/></a>"), ("<a", ">t</a>")][sym::choice(6)];
    let mut v = vec![];
    for _ in 0..2 {
        let mut s = String::from(a);
        for _ in 0..2 {
            g::ascii(&mut s);
        }
        s.push_str(b);
        v.push(s);
    }
    crate::h_reject::judge(&v[0], true, true);
    crate::h_reject::judge(&v[1], true, true);
}
pub fn c15_again() {
    let (a, b) = (g::ascii_text(2), g::ascii_text(2));
    crate::h_attr::name_routes(&a);
    crate::h_attr::name_routes(&b);
}
/// one element written, changed at depth and written again
pub fn c24_again() {
    let (x, y) = (letter(), plain());
    let mut m = el("r").kid(el("a").kid(el("b").kid(txt("t")).m()).m()).kid(M::C("c".to_string()));
    let mut e = build(&m, sym::choice(4));
    let inds = ["  ", "\t", "", "    "];
    let (i, j) = (inds[sym::choice(4)], inds[sym::choice(4)]);
    let s = (e.to_string(), format!("{}", e), e.to_string_with_indent(i), e.text());
    check!(s.0 == s.1 && s.3 == "t", "forms");
    let op = sym::choice(5);
    let b = ok(ok(e.first_element_by_name_mut("a"), "a").first_element_by_name_mut("b"), "b");
    let mb = match &mut m.kids[0] {
        M::E(a) => match &mut a.kids[0] {
            M::E(b) => b,
            _ => unreachable!(),
        },
        _ => unreachable!(),
    };
    match op {
        0 => {
            ok(b.set_attr(x.as_str(), y.as_str()), "set_attr");
            mb.attrs.push((x.clone(), y.clone()));
        }
        1 => {
            b.append(Text::new(y.as_str()));
            mb.kids = vec![txt(&["t", &y].concat())];
        }
        2 => {
            b.set_text(y.as_str());
            mb.kids = vec![txt(&y)];
        }
        3 => {
            ok(b.insert(0, ok(Element::new_from_name(x.as_str()), "name")), "insert");
            mb.kids.insert(0, el(&x).m());
        }
        _ => {
            for c in b.children_mut() {
                if let Ok(t) = c.as_text_mut() {
                    t.content = y.clone();
                }
            }
            mb.kids = vec![txt(&y)];
        }
    }
    let f = build(&m, 0);
    check!(e.to_string_with_indent(j) == f.to_string_with_indent(j), "the indented form after a change below");
    check!(e.to_string_with_indent(i) == f.to_string_with_indent(i), "the indented form after a change below");
    check!(e.to_string() == f.to_string() && format!("{:?}", e) == f.to_string(), "the text after a change below");
    check!(e.text() == f.text(), "the text content after a change below");
    check!(e == f, "equality after a change below");
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
/// the same file read before and after it was changed; written twice
pub fn c17_again() {
    fsm::reset();
    let (a, b) = (small(), small());
    let (s, t) = (source(&a), source(&b));
    fsm::add("/kxfs/d.xml", false, s.as_bytes());
    let d = ok(kiss_xml::parse_filepath("/kxfs/d.xml"), "a well-formed file was refused");
    agree(d.root_element(), &a, &vec![], "file");
    let i = fsm::find(b"/kxfs/d.xml").unwrap();
    fsm::fs().nodes[i].data = t.as_bytes().to_vec();
    let e = ok(kiss_xml::parse_filepath("/kxfs/d.xml"), "a well-formed file was refused");
    agree(e.root_element(), &b, &vec![], "the file after a change");
    ok(e.write_to_filepath("/kxfs/o.xml"), "write");
    ok(d.write_to_filepath("/kxfs/o.xml"), "write");
    check!(fsm::data("/kxfs/o.xml").map(|x| x.as_slice()) == Some(d.to_string().as_bytes()), "the file does not hold the document written last");
    let mut w: Vec<u8> = vec![];
    ok(e.write_to_file(&mut w), "write");
    ok(d.write_to_file_with_indent(&mut w, "\t"), "write");
    check!(w == [e.to_string(), d.to_string_with_indent("\t")].concat().as_bytes(), "two documents written to one stream");
    sym::emit(&w);
    sym::cover(1);
}
/// scopes of one document mean nothing in the next
pub fn c14_again() {
    let mut v = vec![];
    for _ in 0..2 {
        let mut r = el("r");
        for p in ["xmlns", "xmlns:p"] {
            if p.len() > 5 || sym::choice(2) == 1 {
                r = r.at(p, &plain());
            }
        }
        let mut a = el("a");
        a.prefix = [None, Some("p".to_string())][sym::choice(2)].clone();
        v.push(r.kid(a.kid(el("b").m()).m()));
    }
    let d = ok(kiss_xml::parse_str(source(&v[0])), "a well-formed document was refused");
    let e = ok(kiss_xml::parse_str(source(&v[1])), "a well-formed document was refused");
    agree(d.root_element(), &v[0], &vec![], "first document");
    agree(e.root_element(), &v[1], &vec![], "second document");
    let (x, y) = (build(&v[1], 1), build(&v[0], 2));
    agree(&x, &v[1], &vec![], "built like the second");
    agree(&y, &v[0], &vec![], "built like the first");
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
/// two errors: each says what was wrong in its own text
pub fn c22_again() {
    let mut v = vec![];
    for _ in 0..2 {
        let (bad, b) = [("<a b/>", "</r>"), ("</s>", ""), ("<!X>", "</r>"), ("<p:a/>", "</r>")][sym::choice(4)];
        let mut s = String::from("<r>");
        let mut line = 1;
        for _ in 0..2 {
            line += (g::one_of(&mut s, "\nx") == b'\n') as usize;
        }
        s.push_str(bad);
        s.push_str(b);
        v.push((s, line));
    }
    for i in [0, 1, 0] {
        match kiss_xml::parse_str(v[i].0.as_str()) {
            Ok(_) => sym::cover(2),
            Err(e) => {
                let t = e.to_string();
                if let Some(k) = crate::h_misc::number_after(&t, "on line ") {
                    check!(k == v[i].1, "the line in the message is not that of the offending construct");
                    sym::cover(1);
                }
                sym::emit(t.as_bytes());
            }
        }
    }
}
/// queries before a change through a mutable access, which must follow it
pub fn c25_warm() {
    crate::h_reach::warm()
}
/// several searches at a time, taken step by step
pub fn c13_lazy() {
    let mut h = String::new();
    g::one_of(&mut h, "ab");
    let m = el("r")
        .kid(el("a").kid(el(&h).kid(txt("t")).m()).kid(el("b").m()).m())
        .kid(M::C("c".to_string()))
        .kid(el(&h).kid(el("a").m()).m());
    let e = build(&m, 0);
    let id = |b: &Box<dyn Node>| b.as_node() as *const dyn Node as *const u8 as usize;
    let eid = |x: &Element| x as *const Element as usize;
    let all: Vec<usize> = e.children_recursive().map(id).collect();
    let els: Vec<usize> = e.search_elements(|_| true).map(eid).collect();
    let named: Vec<usize> = e.search_elements_by_name("a").map(eid).collect();
    let kids: Vec<usize> = e.child_elements().map(eid).collect();
    // interleaved
    let (mut x, mut y, mut z, mut k) = (e.children_recursive(), e.search_elements(|_| true), e.search_elements_by_name("a"), e.child_elements());
    let (mut gx, mut gy, mut gz, mut gk) = (vec![], vec![], vec![], vec![]);
    let turn = sym::choice(4);
    for i in 0..40 {
        match (i + turn * (i / 4)) % 4 {
            0 => gx.extend(x.next().map(id)),
            1 => gy.extend(y.next().map(eid)),
            2 => gz.extend(z.next().map(eid)),
            _ => gk.extend(k.next().map(eid)),
        }
    }
    gx.extend(x.map(id));
    gy.extend(y.map(eid));
    gz.extend(z.map(eid));
    gk.extend(k.map(eid));
    check!(gx == all && gy == els && gz == named && gk == kids, "searches taken step by step yield something else");
    // and in parts
    let n = sym::choice(8);
    check!(e.children_recursive().nth(n).map(id) == all.get(n).copied(), "nth");
    check!(e.children_recursive().skip(n).map(id).collect::<Vec<_>>() == all[n.min(all.len())..], "skip");
    check!(e.search_elements(|_| true).nth(n).map(eid) == els.get(n).copied(), "nth element");
    check!(e.children_recursive().count() == all.len() && e.children_recursive().last().map(id) == all.last().copied(), "count and last");
    let mut it = e.children_recursive();
    for _ in 0..n {
        it.next();
    }
    let (lo, hi) = it.size_hint();
    let rest = it.count();
    check!(lo <= rest && hi.unwrap_or(rest) >= rest, "size hint");
    let mut it = e.search_elements_by_name("a");
    for _ in 0..n {
        it.next();
    }
    let (lo, hi) = it.size_hint();
    let rest = it.count();
    check!(lo <= rest && hi.unwrap_or(rest) >= rest, "size hint of a search by name");
    sym::emit(&[gx.len() as u8, gy.len() as u8, gz.len() as u8]);
    sym::cover(1);
}

// ---------------------------------------------------------------- beyond 2^16
const FAR: usize = 65600;
fn far() -> ME {
    let r = el("r");
    let h = [rep("x", FAR).as_str(), &hot(), "y"].concat();
    match sym::choice(4) {
        0 => r.kid(txt(&h)),
        1 => r.at("k", &h),
        2 => r.kid(M::C(h)).kid(el("e").m()),
        _ => r.kid(M::D(h)).kid(el("e").m()),
    }
}
pub fn c06_far() {
    let m = far();
    crate::h_mirror::mirror(&source(&m), &m)
}
pub fn c03_far() {
    let m = far();
    let d = Document::new(build(&m, 0));
    let s = d.to_string();
    let p = ok(kiss_xml::parse_str(s.as_str()), "a serialized document does not parse");
    agree(p.root_element(), &m, &vec![], "after serializing and parsing");
    check!(d == p, "the parsed document is not equal to the one that was built");
    sym::cover(1);
}
pub fn c22_far() {
    let mut s = String::from("<r>");
    s.push_str(&rep(["\n", "x\n"][sym::choice(2)], FAR));
    let mut line = 1 + FAR;
    line += (g::one_of(&mut s, "\nx") == b'\n') as usize;
    s.push_str(["<a b/></r>", "<!X></r>"][sym::choice(2)]);
    match kiss_xml::parse_str(s) {
        Ok(_) => sym::fail("malformed text accepted"),
        Err(e) => {
            let t = e.to_string();
            if let Some(k) = crate::h_misc::number_after(&t, "on line ") {
                check!(k == line, "the line in the message is not that of the offending construct");
                sym::cover(1);
            }
            sym::emit(t.as_bytes());
        }
    }
}
pub fn c04_far() {
    let mut s = rep("x", FAR);
    g::uni(&mut s);
    crate::h_esc::one(sym::choice(3), &s)
}
