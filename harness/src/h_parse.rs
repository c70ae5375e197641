use crate::m::*;
use crate::{g, sym};

/// C01: the outcome is a document that can be written or an error that can be shown
pub fn survive(s: &str) {
    sym::note(s);
    match kiss_xml::parse_str(s) {
        Ok(d) => {
            let t = d.to_string();
            sym::emit(t.as_bytes());
            sym::cover(1);
        }
        Err(e) => {
            let t = e.to_string();
            sym::emit(t.as_bytes());
            sym::cover(2);
        }
    }
}
fn ascii(n: usize) {
    let n = sym::choice(n + 1);
    let s = g::ascii_text(n);
    survive(&s);
}
/// every text of up to 8 ASCII characters
pub fn c01_ascii8() {
    ascii(8)
}
pub fn c01_ascii10() {
    ascii(10)
}
pub fn c01_ascii12() {
    ascii(12)
}
/// every text of up to 4 characters, any Unicode scalar values
pub fn c01_any4() {
    let s = g::text(4);
    survive(&s);
}
pub fn c01_any5() {
    let s = g::text(5);
    survive(&s);
}
pub fn c01_any6() {
    let s = g::text(6);
    survive(&s);
}
pub fn c01_any7() {
    let s = g::text(7);
    survive(&s);
}
pub fn c01_ctxu3() {
    let (a, b) = CTX[sym::choice(CTX.len())];
    let mut s = String::from(a);
    for _ in 0..3 {
        g::uni(&mut s);
    }
    s.push_str(b);
    survive(&s);
}
fn tag(n: usize) {
    let mut s = String::from("<");
    let n = sym::choice(n + 1);
    s.push_str(&g::ascii_text(n));
    survive(&s);
}
/// "<" followed by any 8 ASCII characters
pub fn c01_tag8() {
    tag(8)
}
pub fn c01_tag10() {
    tag(10)
}
/// symbolic windows inside every kind of construct
pub const CTX: [(&str, &str); 22] = [
    ("<a>", "</a>"),
    ("<a ", "/>"),
    ("<a x", "='1'>t</a>"),
    ("<a x=", "></a>"),
    ("<a x=\"", "\" y='2'/>"),
    ("<a x='", "'>t</a>"),
    ("<a><!--", "--></a>"),
    ("<a><![CDATA[", "]]></a>"),
    ("<a><!", "></a>"),
    ("<a><", "</a>"),
    ("<a></a", ">"),
    ("<a></a>", ""),
    ("<a/>", ""),
    ("", "<a/>"),
    ("<?xml", "?><a/>"),
    ("<?xml version='1.0'?>", "<a/>"),
    ("<!DOCTYPE", "><a/>"),
    ("<!DOCTYPE a [<!ENTITY b '", "'>]><a/>"),
    ("<a><b>", "</b></a>"),
    ("<a>&", ";</a>"),
    ("<p:a xmlns:p='u' ", "><p:b/></p:a>"),
    ("<a", ":b xmlns:a='u'/>"),
];
pub fn c01_ctx4() {
    ctx(4)
}
pub fn c01_ctx5() {
    ctx(5)
}
pub fn c01_ctx6() {
    ctx(6)
}
fn ctx(n: usize) {
    let (a, b) = CTX[sym::choice(CTX.len())];
    let mut s = String::from(a);
    let n = sym::choice(n + 1);
    for _ in 0..n {
        g::ascii(&mut s);
    }
    s.push_str(b);
    survive(&s);
}
pub fn c01_ctxu() {
    let (a, b) = CTX[sym::choice(CTX.len())];
    let mut s = String::from(a);
    g::uni(&mut s);
    if sym::choice(2) == 1 {
        g::ascii(&mut s);
    }
    s.push_str(b);
    survive(&s);
}
/// long tags, comments and unsupported constructs of every length around the abbreviation limit,
/// with multi-byte characters at every offset
pub fn c01_long() {
    const O: [(&str, &str); 6] = [("<!--", "--><a/>"), ("<a><!", "></a>"), ("<!ELEMENT", "><a/>"), ("<a></a><!", ">"), ("<a ", "/>"), ("<a>t</b", ">")];
    let (a, b) = O[sym::choice(O.len())];
    let mut s = String::from(a);
    for _ in 0..sym::choice(24) {
        s.push('x');
    }
    g::uni(&mut s);
    s.push_str(["", "\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}", "yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy", "\u{4e2d}\u{4e2d}\u{4e2d}\u{4e2d}\u{4e2d}\u{4e2d}"][sym::choice(4)]);
    g::uni_len(&mut s, 1 + sym::choice(4));
    s.push_str(b);
    survive(&s);
}

// ---------------------------------------------------------------- C02
pub fn roundtrip(s: &str) {
    sym::note(s);
    let d = match kiss_xml::parse_str(s) {
        Err(_) => {
            sym::cover(2);
            return;
        }
        Ok(d) => d,
    };
    let s1 = d.to_string();
    sym::emit(s1.as_bytes());
    sym::note(&s1);
    let d2 = ok(kiss_xml::parse_str(s1.as_str()), "serialized document does not parse");
    same(d.root_element(), d2.root_element(), "after a round trip");
    match (d.declaration(), d2.declaration()) {
        (None, None) => {}
        (Some(a), Some(b)) => check!(a.to_string() == b.to_string(), "declaration changed in a round trip"),
        _ => sym::fail("declaration appeared or disappeared in a round trip"),
    }
    let t1: Vec<String> = d.doctype_defs().map(|x| x.to_string()).collect();
    let t2: Vec<String> = d2.doctype_defs().map(|x| x.to_string()).collect();
    check!(t1 == t2, "document type definitions changed in a round trip");
    check!(d == d2, "documents are not equal after a round trip");
    let s2 = d2.to_string();
    check!(s1 == s2, "second serialization differs from the first");
    sym::cover(1);
}
pub fn c02_ascii8() {
    let n = 3 + sym::choice(6);
    let s = g::ascii_text(n);
    roundtrip(&s);
}
pub const CTX2: [(&str, &str); 20] = [
    ("<a>", "</a>"),
    ("<a>t", "<b/>u</a>"),
    ("<a><b/>", "<c/></a>"),
    ("<a ", "/>"),
    ("<a x", "='1'>t</a>"),
    ("<a x=\"", "\" y='2'/>"),
    ("<a x='", "'>t</a>"),
    ("<a><!--", "--></a>"),
    ("<a>t<![CDATA[", "]]></a>"),
    ("<a><b>t</b><![CDATA[", "]]></a>"),
    ("<a><", "></a>"),
    ("<a/>", ""),
    ("", "<a/>"),
    ("<?xml", "?><a/>"),
    ("<?xml version='1.0'?>", "<!DOCTYPE a><a/>"),
    ("<!DOCTYPE", "><a/>"),
    ("<a>&", ";</a>"),
    ("<p:a xmlns:p='u' ", "><p:b/><c/></p:a>"),
    ("<a xmlns='", "'><b/></a>"),
    ("<a><b>", "</b>\n<c>x</c></a>"),
];
fn ctx2(n: usize) {
    let (a, b) = CTX2[sym::choice(CTX2.len())];
    let mut s = String::from(a);
    let n = sym::choice(n + 1);
    for _ in 0..n {
        g::ascii(&mut s);
    }
    s.push_str(b);
    roundtrip(&s);
}
pub fn c02_ctx3() {
    ctx2(3)
}
pub fn c02_ctx4() {
    ctx2(4)
}
pub fn c02_ctx5() {
    ctx2(5)
}
pub fn c02_ctx6() {
    ctx2(6)
}
pub fn c02_ctxu2() {
    let (a, b) = CTX2[sym::choice(CTX2.len())];
    let mut s = String::from(a);
    g::uni(&mut s);
    g::uni(&mut s);
    s.push_str(b);
    roundtrip(&s);
}
pub fn c02_ctxu3() {
    let (a, b) = CTX2[sym::choice(CTX2.len())];
    let mut s = String::from(a);
    g::ascii(&mut s);
    g::uni(&mut s);
    g::ascii(&mut s);
    s.push_str(b);
    roundtrip(&s);
}
pub fn c02_ctxu() {
    let (a, b) = CTX2[sym::choice(CTX2.len())];
    let mut s = String::from(a);
    g::uni(&mut s);
    if sym::choice(2) == 1 {
        g::ascii(&mut s);
    }
    s.push_str(b);
    roundtrip(&s);
}
/// two symbolic windows in one richer document
pub fn c02_doc() {
    let mut s = String::from("<?xml version='1.0'?>\n<!DOCTYPE r [<!ENTITY e \"v\">]>\n<r a='");
    g::ascii(&mut s);
    s.push_str("' b=\"x\">");
    if sym::choice(2) == 1 {
        g::ascii(&mut s);
    }
    s.push_str("<p:c xmlns:p='u' xmlns='d'><e>");
    g::ascii(&mut s);
    g::ascii(&mut s);
    s.push_str("</e><p:f/><!--");
    if sym::choice(2) == 1 {
        g::ascii(&mut s);
    }
    s.push_str("--></p:c>tail</r>\n");
    roundtrip(&s);
}
