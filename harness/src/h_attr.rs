//! C15: names and contents accepted or refused; C18: attributes as a map, and parsed in every quoting style.
use crate::h_esc;
use crate::m::*;
use crate::{g, sym};
use kiss_xml::dom::*;
use kiss_xml::errors::KissXmlError;
use std::collections::HashMap;

type Map = HashMap<String, String>;
fn map(k: &str, v: &str) -> Map {
    [(k.to_string(), v.to_string())].into_iter().collect()
}
fn reserved(c: char) -> bool {
    matches!(c, '<' | '>' | '&' | '"' | '\'' | '/' | '=')
}
/// the statement says that it must be refused
fn must_refuse(s: &str) -> bool {
    let mut it = s.chars();
    match it.next() {
        None => return true,
        // of the characters beyond ASCII only white space is decided here: what counts as a letter is not
        Some(c) => {
            if c.is_ascii() && !(c.is_ascii_alphabetic() || c == '_') {
                return true;
            }
        }
    }
    let mut bad = false;
    for c in s.chars() {
        bad |= c.is_whitespace() | reserved(c);
    }
    bad
}
/// the statement says that it must be accepted
fn must_accept(s: &str) -> bool {
    let mut it = s.bytes();
    match it.next() {
        None => false,
        Some(c) => {
            let mut good = c.is_ascii_alphabetic() | (c == b'_');
            for c in it {
                good &= c.is_ascii_alphanumeric() | (c == b'_') | (c == b'-') | (c == b'.');
            }
            good
        }
    }
}
/// every way an element gets its name; None: refused
fn named(s: &str, how: usize) -> Option<Element> {
    let none = Option::<Map>::None;
    let r: Result<Element, KissXmlError> = match how {
        0 => Element::new_from_name(s),
        1 => Element::new(s, None, none, None, None, None),
        2 => Element::new_with_text(s, "t"),
        3 => Element::new_with_attributes(s, map("k", "v")),
        4 => Element::new_with_children(s, vec![Text::new("t").boxed()]),
        5 => Element::new_with_attributes_and_text(s, map("k", "v"), "t"),
        _ => Element::new_with_attributes_and_children(s, map("k", "v"), vec![Text::new("t").boxed()]),
    };
    r.ok()
}
/// every way an attribute gets its name; None: refused
fn attributed(s: &str, how: usize) -> Option<Element> {
    let none = Option::<Vec<Box<dyn Node>>>::None;
    let r: Result<Element, KissXmlError> = match how {
        0 => Element::new("e", None, Some(map(s, "v")), None, None, none),
        1 => Element::new_with_attributes("e", map(s, "v")),
        2 => Element::new_with_attributes_and_text("e", map(s, "v"), "t"),
        3 => Element::new_with_attributes_and_children("e", map(s, "v"), vec![]),
        _ => {
            let mut e = ok(Element::new_from_name("e"), "constructor");
            match e.set_attr(s, "v") {
                Ok(_) => Ok(e),
                Err(x) => {
                    check!(e.attributes().is_empty(), "a refused attribute was set");
                    Err(x.into())
                }
            }
        }
    };
    r.ok()
}
fn judge(s: &str, accepted: bool, what: &str) {
    if accepted {
        if must_refuse(s) {
            bad(what, "a name that cannot be serialized was accepted");
        }
    } else if must_accept(s) {
        bad(what, "a plain name was refused");
    }
}
pub fn name_routes(s: &str) {
    let how = sym::choice(12);
    if how < 7 {
        let e = named(s, how);
        judge(s, e.is_some(), "element name");
        if let Some(e) = &e {
            check!(e.name() == s, "the element has another name than it was given");
        }
        sym::emit(&[e.is_some() as u8]);
    } else {
        let e = attributed(s, how - 7);
        judge(s, e.is_some(), "attribute name");
        if let Some(e) = &e {
            check!(e.get_attr(s).map(|v| v.as_str()) == Some("v"), "the attribute is not there");
        }
        sym::emit(&[e.is_some() as u8]);
    }
    sym::cover(1);
}
/// every ASCII name of up to 3 characters
pub fn c15_ascii() {
    let n = sym::choice(4);
    name_routes(&g::ascii_text(n))
}
pub fn c15_ascii5() {
    name_routes(&g::ascii_text(5))
}
pub fn c15_ascii8() {
    name_routes(&g::ascii_text(8))
}
pub fn c15_ascii12() {
    name_routes(&g::ascii_text(12))
}
pub fn c15_uni3() {
    let mut s = String::new();
    g::uni(&mut s);
    g::uni(&mut s);
    g::uni(&mut s);
    name_routes(&s)
}
/// any character at each position of a name
pub fn c15_uni() {
    let mut s = String::new();
    let at = sym::choice(3);
    for i in 0..3 {
        if i == at {
            g::uni(&mut s);
        } else if sym::choice(2) == 1 {
            s.push(if i == 0 { 'n' } else { '\u{e9}' });
        }
    }
    name_routes(&s)
}
/// long names with one arbitrary character
pub fn c15_long() {
    let mut s = String::from("_");
    for _ in 0..[3, 14, 15, 16, 31][sym::choice(5)] {
        s.push('n');
    }
    g::ascii(&mut s);
    if sym::choice(2) == 1 {
        s.push_str("-9.z_");
    }
    name_routes(&s)
}
/// long words with one arbitrary character anywhere, as names, attribute names and prefixes
pub fn c15_words() {
    let n = [14, 17, 33, 65, 130][sym::choice(5)];
    let at = [0, 1, n / 2, n - 1][sym::choice(4)];
    let mut s = String::new();
    for i in 0..n {
        if i == at {
            g::ascii(&mut s);
        } else if i % 5 == 3 {
            let v = g::ascii(&mut s);
            sym::assume(((v | 32) >= b'a') & ((v | 32) <= b'z'));
        } else {
            s.push('n');
        }
    }
    if sym::choice(2) == 0 {
        return name_routes(&s);
    }
    let r = Element::new("a", None, Option::<Map>::None, Some("u".to_string()), Some(s.clone()), None);
    judge(&s, r.is_ok(), "prefix");
    sym::cover(1);
}
/// several attributes, one of them refused: no element
pub fn c15_among() {
    let mut s = String::from("k");
    g::ascii(&mut s);
    let mut m = map(&s, "v");
    m.insert("ok".to_string(), "1".to_string());
    m.insert("_x".to_string(), "2".to_string());
    sym::hash_mode(sym::choice(3) as u64);
    let r = Element::new_with_attributes("e", m);
    judge(&s, r.is_ok(), "attribute name");
    if let Ok(e) = r {
        check!(e.attributes().len() == 3 - (s == "ok") as usize, "an attribute is missing");
    }
    sym::cover(1);
}
/// a prefix is part of the tag as well
pub fn c15_prefix() {
    let mut s = String::new();
    for _ in 0..sym::choice(3) {
        g::uni(&mut s);
    }
    let r = Element::new("e", None, Option::<Map>::None, Some("u".to_string()), Some(s.clone()), None);
    judge(&s, r.is_ok(), "prefix");
    sym::emit(&[r.is_ok() as u8]);
    sym::cover(1);
}
/// a refused attribute leaves everything as it was
pub fn c15_refused() {
    let m = el("e").at("a", "1").at("xmlns", "u").at("xmlns:p", "v").kid(el("c").m()).kid(M::T("t".to_string()));
    let mut e = build(&m, 0);
    let before = e.clone();
    let text = e.to_string();
    let mut s = String::new();
    match sym::choice(4) {
        0 => {
            g::ascii(&mut s);
        }
        1 => {
            s.push('a');
            g::ascii(&mut s);
        }
        2 => {
            s.push_str("xmlns:");
            g::ascii(&mut s);
        }
        _ => {
            s.push_str("xmlns");
            g::ascii(&mut s);
        }
    }
    let mut v = String::new();
    g::ascii(&mut v);
    match e.set_attr(s.as_str(), v.as_str()) {
        Ok(_) => {
            judge(&s, true, "set_attr");
            check!(e.get_attr(s.as_str()) == Some(&v), "the value was not set");
            sym::cover(2);
        }
        Err(_) => {
            judge(&s, false, "set_attr");
            same(&e, &before, "refused edit");
            check!(e == before, "refused edit changed the element");
            check!(e.to_string() == text, "refused edit changed the serialized form");
            sym::cover(1);
        }
    }
}
/// the three texts that end the construct
pub fn content(s: &str, term: &str, which: usize) {
    let has = {
        let (b, t) = (s.as_bytes(), term.as_bytes());
        let mut r = false;
        let mut i = 0;
        while i + t.len() <= b.len() {
            r |= (b[i] == t[0]) & (b[i + 1] == t[1]) & (b[i + 2] == t[2]);
            i += 1;
        }
        r
    };
    let (refused, now) = match which {
        0 => match Comment::new(s) {
            Ok(c) => (false, c.get_content().to_string()),
            Err(_) => (true, s.to_string()),
        },
        1 => match CData::new(s) {
            Ok(c) => (false, c.get_content().to_string()),
            Err(_) => (true, s.to_string()),
        },
        2 => {
            let mut c = ok(Comment::new("old"), "constructor");
            let r = c.set_content(s).is_err();
            check!(!r || c.get_content() == "old", "a refused content replaced the old one");
            (r, if r { s.to_string() } else { c.get_content().to_string() })
        }
        _ => {
            let mut c = ok(CData::new("old"), "constructor");
            let r = c.set_text(s).is_err();
            check!(!r || c.get_content() == "old", "a refused content replaced the old one");
            (r, if r { s.to_string() } else { c.get_content().to_string() })
        }
    };
    check!(refused == has, "content must be refused exactly when it contains its terminator");
    check!(now == s, "the content is not what was given");
    sym::emit(&[refused as u8]);
    sym::cover(1);
}
pub fn terminator(w: usize) -> &'static str {
    ["-->", "]]>"][w % 2]
}
/// every ASCII content of up to 4 characters
pub fn c15_content() {
    let w = sym::choice(4);
    content(&g::ascii_text(sym::choice(5)), terminator(w), w)
}
pub fn c15_content6() {
    let w = sym::choice(4);
    content(&g::ascii_text(6), terminator(w), w)
}
pub fn c15_content10() {
    let w = sym::choice(4);
    content(&g::ascii_text(10), terminator(w), w)
}
/// characters of any length around a window
pub fn c15_contentu() {
    let w = sym::choice(4);
    let mut s = String::new();
    g::uni(&mut s);
    s.push_str(&g::set_text(3, "-]>"));
    if sym::choice(2) == 1 {
        g::uni(&mut s);
    }
    content(&s, terminator(w), w)
}
/// long contents: the terminator at any of several offsets
pub fn c15_contentlong() {
    let w = sym::choice(4);
    let mut s = String::new();
    for i in 0..[0, 1, 5, 13, 14, 15, 16, 17, 29, 30, 31, 32, 33, 61, 64][sym::choice(15)] {
        s.push(if i % 3 == 2 { ['-', ']'][w % 2] } else { 'x' });
    }
    for _ in 0..3 {
        g::ascii(&mut s);
    }
    for _ in 0..[0, 1, 7, 30][sym::choice(4)] {
        s.push('y');
    }
    content(&s, terminator(w), w)
}

// ---------------------------------------------------------------- C18

fn key() -> String {
    let mut s = String::new();
    g::one_of(&mut s, "abZ_");
    if sym::choice(2) == 1 {
        g::one_of(&mut s, "a1-.:");
    }
    s
}
/// a name that is special to namespaces
fn nkey() -> String {
    match sym::choice(3) {
        0 => key(),
        1 => "xmlns".to_string(),
        _ => {
            let mut s = String::from("xmlns:");
            g::one_of(&mut s, "ab");
            s
        }
    }
}
fn val() -> String {
    let mut s = String::new();
    match sym::choice(3) {
        0 => {}
        1 => {
            g::ascii(&mut s);
        }
        _ => {
            s.push('v');
            g::ascii(&mut s);
        }
    }
    s
}
fn set(m: &mut Vec<(String, String)>, k: &str, v: &str) {
    for x in m.iter_mut() {
        if x.0 == k {
            x.1 = v.to_string();
            return;
        }
    }
    m.push((k.to_string(), v.to_string()));
}
pub fn same_map(e: &Element, m: &Vec<(String, String)>) {
    check!(e.attributes().len() == m.len(), "number of attributes");
    for (k, v) in m {
        check!(e.get_attr(k.as_str()) == Some(v), "an attribute does not have the value last set");
        check!(e.attributes().get(k) == Some(v), "attributes() disagrees");
    }
    for (k, v) in e.attributes() {
        check!(attr(m, k) == Some(v), "attributes() yields an attribute that was not set");
    }
}
fn op(e: &mut Element, m: &mut Vec<(String, String)>, ops: usize) {
    op_with(e, m, ops, &key)
}
fn op_with(e: &mut Element, m: &mut Vec<(String, String)>, ops: usize, key: &dyn Fn() -> String) {
    match sym::choice(ops) {
        0 => {
            let (k, v) = (key(), val());
            ok(e.set_attr(k.as_str(), v.as_str()), "a plain attribute was refused");
            set(m, &k, &v);
        }
        1 => {
            let k = key();
            let old = attr(m, &k).cloned();
            m.retain(|x| x.0 != k);
            check!(e.remove_attr(k.as_str()) == old, "remove_attr does not return the old value");
            check!(e.get_attr(k.as_str()).is_none(), "a removed attribute is still there");
        }
        2 => {
            let k = key();
            check!(e.get_attr(k.as_str()) == attr(m, &k), "get_attr");
        }
        _ => {
            e.clear_attributes();
            m.clear();
        }
    }
}
fn ops(n: usize, start: usize, kinds: usize) {
    let mut m: Vec<(String, String)> = vec![];
    for i in 0..sym::choice(start + 1) {
        m.push((["a", "b1"][i].to_string(), ["1", "2"][i].to_string()));
    }
    let mut e = ok(Element::new_with_attributes("e", m.iter().cloned().collect::<Map>()), "constructor");
    for _ in 0..n {
        op(&mut e, &mut m, kinds);
    }
    same_map(&e, &m);
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
/// one, two or three operations with arbitrary names and values
pub fn c18_map1() {
    ops(1, 2, 4)
}
pub fn c18_map2() {
    ops(2, 2, 4)
}
pub fn c18_map3() {
    ops(3, 2, 4)
}
/// sets and removes with one-character names
pub fn c18_setremove() {
    let mut m: Vec<(String, String)> = vec![];
    let mut e = ok(Element::new_from_name("e"), "constructor");
    for i in 0..4 {
        let mut k = String::new();
        g::one_of(&mut k, "abc");
        if sym::choice(2) == 0 {
            let v = ["0", "1", "2", "3"][i];
            ok(e.set_attr(k.as_str(), v), "a plain attribute was refused");
            set(&mut m, &k, v);
        } else {
            let old = attr(&m, &k).cloned();
            m.retain(|x| x.0 != k);
            check!(e.remove_attr(k.as_str()) == old, "remove_attr does not return the old value");
        }
    }
    same_map(&e, &m);
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
/// many attributes (the table grows), arbitrary values
pub fn c18_many() {
    sym::hash_mode([0, 1, 100, 103][sym::choice(4)]);
    let n = [1, 3, 4, 7, 8, 14, 15][sym::choice(7)];
    let mut e = ok(Element::new_from_name("e"), "constructor");
    let mut m: Vec<(String, String)> = vec![];
    let hot = sym::choice(n);
    for i in 0..n {
        let mut k = String::from("k");
        for _ in 0..i % 5 {
            k.push('_');
        }
        k.push((b'a' + i as u8) as char);
        let mut v = String::from("v");
        if i == hot {
            g::uni(&mut v);
        }
        ok(e.set_attr(k.as_str(), v.as_str()), "a plain attribute was refused");
        m.push((k, v));
    }
    same_map(&e, &m);
    let gone = m.remove(sym::choice(n));
    check!(e.remove_attr(gone.0.as_str()) == Some(gone.1), "remove_attr does not return the old value");
    same_map(&e, &m);
    sym::cover(1);
}
/// constructors take over the map
pub fn c18_ctor() {
    let (a, b) = (key(), key());
    let (x, y) = (val(), val());
    sym::assume(a != b);
    let mp: Map = [(a.clone(), x.clone()), (b.clone(), y.clone())].into_iter().collect();
    let e = match sym::choice(4) {
        0 => Element::new_with_attributes("e", mp),
        1 => Element::new_with_attributes_and_text("e", mp, "t"),
        2 => Element::new_with_attributes_and_children("e", mp, vec![]),
        _ => Element::new("e", None, Some(mp), None, None, None),
    };
    let e = ok(e, "a plain attribute was refused");
    same_map(&e, &vec![(a, x), (b, y)]);
    sym::cover(1);
}
const WS: &str = " \t\n\r";
fn ws(s: &mut String) {
    if sym::choice(2) == 1 {
        g::one_of(s, WS);
    }
}
/// one attribute: white space around '=', either quote, arbitrary value
fn quoted(n: usize, uni: bool, full: bool) {
    let q = ['"', '\''][sym::choice(2)];
    let mut v = String::new();
    for _ in 0..n {
        if uni {
            g::uni(&mut v);
        } else {
            g::ascii(&mut v);
        }
    }
    let mut plain = true;
    for c in v.bytes() {
        plain &= (c != q as u8) & (c != b'<');
    }
    sym::assume(plain);
    let mut s = String::from("<r");
    g::one_of(&mut s, WS);
    s.push('k');
    if full {
        ws(&mut s);
    }
    s.push('=');
    if full {
        ws(&mut s);
    }
    s.push(q);
    s.push_str(&v);
    s.push(q);
    let kid = sym::choice(3);
    if full {
        ws(&mut s);
    }
    s.push_str(["/>", ">t</r>", "><c k='1'/></r>"][kid]);
    let d = ok(kiss_xml::parse_str(s), "a well-formed attribute was refused");
    let mut m = el("r").at("k", &h_esc::decode(&v));
    match kid {
        1 => m = m.kid(M::T("t".to_string())),
        2 => m = m.kid(el("c").at("k", "1").m()),
        _ => {}
    }
    agree(d.root_element(), &m, &vec![], "quoted");
    sym::emit(d.to_string().as_bytes());
    sym::cover(1);
}
pub fn c18_quote2() {
    quoted(sym::choice(3), false, true)
}
pub fn c18_quote3() {
    quoted(3, false, false)
}
pub fn c18_quote4() {
    quoted(4, false, false)
}
pub fn c18_quote6() {
    quoted(6, false, false)
}
pub fn c18_quoteu() {
    quoted(1, true, true)
}
pub fn c18_quoteu2() {
    quoted(2, true, false)
}
/// values made of the characters that have a meaning in tags
pub fn c18_marks() {
    let q = ['"', '\''][sym::choice(2)];
    let o = if q == '"' { "'" } else { "\"" };
    let set = ["=>/ &;", o].concat();
    let v = g::set_text(4, &set);
    let w = g::set_text(1, &set);
    let mut s = String::from("<r a=");
    s.push(q);
    s.push_str(&v);
    s.push(q);
    s.push_str(" b = ");
    let p = ['"', '\''][sym::choice(2)];
    let mut plain = true;
    for c in w.bytes() {
        plain &= c != p as u8;
    }
    sym::assume(plain);
    s.push(p);
    s.push_str(&w);
    s.push(p);
    let kid = sym::choice(2);
    s.push_str(["/>", "><c/></r>"][kid]);
    let d = ok(kiss_xml::parse_str(s), "a well-formed attribute was refused");
    let mut m = el("r").at("a", &h_esc::decode(&v)).at("b", &h_esc::decode(&w));
    if kid == 1 {
        m = m.kid(el("c").m());
    }
    agree(d.root_element(), &m, &vec![], "quoted");
    sym::emit(d.to_string().as_bytes());
    sym::cover(1);
}
/// three attributes with every mixture of quotes, names that are prefixes or suffixes of each other, values that look like attributes
pub fn c18_three() {
    let names = [["a", "ab", "b"], ["x", "_x", "x-x"], ["k", "K", "kk"]][sym::choice(3)];
    let mut s = String::from("<r");
    let mut m = el("r");
    for n in names {
        let q = ['"', '\''][sym::choice(2)];
        let o = if q == '"' { '\'' } else { '"' };
        let mut v = String::new();
        match sym::choice(4) {
            0 => {}
            1 => {
                g::ascii(&mut v);
                let mut plain = true;
                for c in v.bytes() {
                    plain &= (c != q as u8) & (c != b'<');
                }
                sym::assume(plain);
            }
            2 => {
                // looks like another attribute
                v.push_str(" b=");
                v.push(o);
                v.push_str("1");
                v.push(o);
            }
            _ => {
                v.push(o);
                v.push_str("/>");
            }
        }
        g::one_of(&mut s, WS);
        s.push_str(n);
        s.push('=');
        s.push(q);
        s.push_str(&v);
        s.push(q);
        m = m.at(n, &h_esc::decode(&v));
    }
    s.push_str(">t</r>");
    m = m.kid(M::T("t".to_string()));
    let d = ok(kiss_xml::parse_str(s), "a well-formed attribute was refused");
    agree(d.root_element(), &m, &vec![], "quoted");
    sym::emit(d.to_string().as_bytes());
    sym::cover(1);
}
/// an entity at each position of the value
pub fn c18_entity() {
    let q = ['"', '\''][sym::choice(2)];
    let mut v = String::from(["", "x", "\u{4e2d}"][sym::choice(3)]);
    v.push_str(["&lt;", "&quot;", "&apos;", "&#x41;", "&amp;lt;", "&gt;", "&unknown;", "&"][sym::choice(8)]);
    g::ascii(&mut v);
    let mut plain = true;
    for c in v.bytes() {
        plain &= (c != q as u8) & (c != b'<');
    }
    sym::assume(plain);
    let mut s = String::from("<r><c k=");
    s.push(q);
    s.push_str(&v);
    s.push(q);
    s.push_str("/></r>");
    let d = ok(kiss_xml::parse_str(s), "a well-formed attribute was refused");
    let m = el("r").kid(el("c").at("k", &h_esc::decode(&v)).m());
    agree(d.root_element(), &m, &vec![], "quoted");
    sym::emit(d.to_string().as_bytes());
    sym::cover(1);
}
/// namespace declarations are attributes like any other
pub fn c18_ns() {
    let mut m: Vec<(String, String)> = vec![];
    for (i, k) in ["xmlns", "xmlns:a", "k"].iter().enumerate() {
        if sym::choice(2) == 1 {
            m.push((k.to_string(), ["1", "2", "3"][i].to_string()));
        }
    }
    let mut e = ok(Element::new_with_attributes("e", m.iter().cloned().collect::<Map>()), "constructor");
    if sym::choice(2) == 1 {
        e.append(ok(Element::new_from_name("c"), "constructor"));
    }
    op_with(&mut e, &mut m, 4, &nkey);
    same_map(&e, &m);
    op_with(&mut e, &mut m, 4, &nkey);
    same_map(&e, &m);
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
