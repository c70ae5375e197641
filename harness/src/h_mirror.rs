//! C06: the tree mirrors the source.
use crate::h_esc::decode;
use crate::m::*;
use crate::{g, sym};

/// parse a text of the supported subset and compare it with its model
pub fn mirror(src: &str, m: &ME) {
    sym::note(src);
    let d = match kiss_xml::parse_str(src) {
        Ok(d) => d,
        Err(_) => sym::fail("a well-formed document was refused"),
    };
    agree(d.root_element(), m, &vec![], "parsed tree");
    sym::emit(d.to_string().as_bytes());
    sym::cover(1);
}
/// a run of source text without '<': up to `n` characters
fn run(n: usize, uni: bool) -> String {
    let mut s = String::new();
    for _ in 0..sym::choice(n + 1) {
        let k = s.len();
        if uni {
            g::uni(&mut s);
        } else {
            g::ascii(&mut s);
        }
        sym::assume(s.as_bytes()[k] != b'<');
    }
    s
}
fn txt(s: &str) -> M {
    M::T(decode(s))
}
/// two runs of text around a child; the second inside it
fn text(n1: usize, n2: usize, uni: bool) {
    let a = run(n1, uni);
    let b = run(n2, uni);
    let at = sym::choice(3);
    let mut s = String::from("<r>");
    let mut m = el("r");
    if at != 1 {
        s.push_str(&a);
        m = m.kid(txt(&a));
    }
    match at {
        0 => {
            s.push_str("<b>");
            s.push_str(&b);
            s.push_str("</b>");
            m = m.kid(el("b").kid(txt(&b)).m());
        }
        1 => {
            s.push_str("<b/>");
            s.push_str(&a);
            s.push_str("<!--c-->");
            s.push_str(&b);
            m = m.kid(el("b").m()).kid(txt(&a)).kid(M::C("c".to_string())).kid(txt(&b));
        }
        _ => {
            s.push_str("<b></b>");
            s.push_str(&b);
            m = m.kid(el("b").m()).kid(txt(&b));
        }
    }
    s.push_str("</r>");
    mirror(&s, &m);
}
// kiss-xml judges whether a run is blank on the source text (before entities are decoded); a text node whose
// decoded content is blank is dropped as well when it is appended, so both orders agree with `normalize`.
pub fn c06_text() {
    text(2, 1, false)
}
pub fn c06_text4() {
    text(4, 1, false)
}
pub fn c06_text5() {
    text(5, 1, false)
}
pub fn c06_text6() {
    text(6, 1, false)
}
pub fn c06_textu() {
    text(2, 0, true)
}
/// runs with white space and entities around an arbitrary character
pub fn c06_textmix() {
    const P: [&str; 7] = [" ", "\n\t", "&amp;", "&lt;b/&gt;", "x\u{a0}", "&#26;#38;", "]]>"];
    let mut a = String::from(P[sym::choice(P.len())]);
    a.push_str(&run(1, true));
    a.push_str(P[sym::choice(P.len())]);
    let s = ["<r>", &a, "<b/>", "</r>"].concat();
    mirror(&s, &el("r").kid(txt(&a)).kid(el("b").m()));
}
/// attribute values in both quoting styles
fn attrs(n: usize, uni: bool) {
    let q = ["\"", "'"][sym::choice(2)];
    let mut v = String::new();
    for _ in 0..sym::choice(n + 1) {
        let k = v.len();
        if uni {
            g::uni(&mut v);
        } else {
            g::ascii(&mut v);
        }
        let c = v.as_bytes()[k];
        sym::assume((c != b'<') & (c != q.as_bytes()[0]));
    }
    let (kid, end) = [("", "/>"), ("", "></r>"), (" y='2'", ">t</r>")][sym::choice(3)];
    let s = ["<r x=", q, &v, q, kid, end].concat();
    let mut m = el("r").at("x", &decode(&v));
    if !kid.is_empty() {
        m = m.at("y", "2").kid(M::T("t".to_string()));
    }
    mirror(&s, &m);
}
pub fn c06_attr() {
    attrs(3, false)
}
pub fn c06_attru() {
    attrs(2, true)
}
pub fn c06_attr5() {
    attrs(5, false)
}
/// comments and CDATA sections verbatim
fn verbatim(n: usize, uni: bool) {
    let kind = sym::choice(2);
    let (o, t, c) = [("<!--", "-->", "-->"), ("<![CDATA[", "]]>", "]]>")][kind];
    let mut v = String::new();
    for _ in 0..sym::choice(n + 1) {
        if uni {
            g::uni(&mut v);
        } else {
            g::ascii(&mut v);
        }
    }
    let pre = ["", "x", " "][sym::choice(3)];
    // the section ends at the first terminator: the content must not contain one, nor form one with the closing
    let whole = [&v, c].concat();
    sym::assume(first(whole.as_bytes(), t.as_bytes()) == v.len());
    let s = ["<r>", pre, o, &v, c, "y</r>"].concat();
    let mut m = el("r").kid(M::T(pre.to_string()));
    m = m.kid(if kind == 0 { M::C(v.clone()) } else { M::D(v.clone()) }).kid(M::T("y".to_string()));
    mirror(&s, &m);
}
fn first(h: &[u8], n: &[u8]) -> usize {
    let mut i = 0;
    while i + n.len() <= h.len() {
        if &h[i..i + n.len()] == n {
            return i;
        }
        i += 1;
    }
    h.len()
}
pub fn c06_verbatim() {
    verbatim(4, false)
}
pub fn c06_verbatimu() {
    verbatim(2, true)
}
pub fn c06_verbatim6() {
    verbatim(6, false)
}
/// every sequence of up to n well-nested tokens, with one symbolic character in one text run
fn tokens(n: usize) {
    let mut s = String::from("<r>");
    let mut stack: Vec<ME> = vec![el("r")];
    let len = 1 + sym::choice(n);
    for i in 0..len {
        let top = stack.last_mut().unwrap();
        match sym::choice(7) {
            0 => {
                s.push_str("<e>");
                stack.push(el("e"));
            }
            1 => {
                sym::assume(stack.len() > 1);
                let e = stack.pop().unwrap();
                s.push_str(["</e>", "</e >"][i & 1]);
                stack.last_mut().unwrap().kids.push(e.m());
            }
            2 => {
                s.push_str("<f k='v'/>");
                top.kids.push(el("f").at("k", "v").m());
            }
            3 => {
                s.push_str(["a&lt;", " b ", "&apos;", "d\n", "e"][i % 5]);
                top.kids.push(M::T(["a<", " b ", "'", "d\n", "e"][i % 5].to_string()));
            }
            4 => {
                s.push_str("<!--<e>-->");
                top.kids.push(M::C("<e>".to_string()));
            }
            5 => {
                s.push_str("<![CDATA[</e>]]>");
                top.kids.push(M::D("</e>".to_string()));
            }
            _ => {
                s.push_str("\n  ");
                top.kids.push(M::T("\n  ".to_string()));
            }
        }
    }
    // one arbitrary character before the last end tag
    let top = stack.last_mut().unwrap();
    let k = s.len();
    let c = g::ascii(&mut s);
    sym::assume(c != b'<');
    let t = s[k..].to_string();
    top.kids.push(M::T(t));
    while stack.len() > 1 {
        let e = stack.pop().unwrap();
        s.push_str("</e>");
        stack.last_mut().unwrap().kids.push(e.m());
    }
    s.push_str("</r>");
    mirror(&s, &stack.pop().unwrap());
}
pub fn c06_tokens3() {
    tokens(3)
}
pub fn c06_tokens4() {
    tokens(4)
}
pub fn c06_tokens5() {
    tokens(5)
}
pub fn c06_tokens6() {
    tokens(6)
}
/// element and attribute names with symbolic characters, tag layout variants
fn name_char(s: &mut String, first: bool) {
    let v = g::ascii(s);
    let alpha = ((v | 32) >= b'a') & ((v | 32) <= b'z') | (v == b'_');
    let more = (v >= b'0') & (v <= b'9') | (v == b'-') | (v == b'.');
    sym::assume(alpha | (!first & more));
}
pub fn c06_names() {
    let mut n = String::new();
    name_char(&mut n, true);
    if sym::choice(2) == 1 {
        name_char(&mut n, false);
    }
    let mut k = String::new();
    name_char(&mut k, true);
    name_char(&mut k, false);
    let lay = sym::choice(4);
    let s = match lay {
        0 => ["<", &n, " ", &k, "='1'><", &n, "/></", &n, ">"].concat(),
        1 => ["<", &n, "\n", &k, " = \"1\"\t><", &n, " /></", &n, " >"].concat(),
        2 => ["<?xml version='1.0'?><", &n, " ", &k, "= '1' ><", &n, "></", &n, "></", &n, "\n>\n"].concat(),
        _ => ["<!-- c --><", &n, "  ", &k, " ='1'\r\n><", &n, "/></", &n, ">"].concat(),
    };
    let m = el(&n).at(&k, "1").kid(el(&n).m());
    mirror(&s, &m);
}
/// names with any character that XML allows in them (behind the first)
pub fn c06_uninames() {
    // https://www.w3.org/TR/REC-xml/#NT-NameChar, without the white space character U+1680
    const R: [(u32, u32); 15] = [(0xB7, 0xB7), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x300, 0x36F), (0x370, 0x37D), (0x37F, 0x167F), (0x1681, 0x1FFF), (0x200C, 0x200D), (0x203F, 0x2040), (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD)];
    let mut u = String::new();
    let l = 2 + sym::choice(3);
    g::uni_len(&mut u, l);
    let b = u.as_bytes();
    let c = match l {
        2 => (b[0] as u32 & 0x1f) << 6 | (b[1] as u32 & 0x3f),
        3 => (b[0] as u32 & 0xf) << 12 | (b[1] as u32 & 0x3f) << 6 | (b[2] as u32 & 0x3f),
        _ => (b[0] as u32 & 7) << 18 | (b[1] as u32 & 0x3f) << 12 | (b[2] as u32 & 0x3f) << 6 | (b[3] as u32 & 0x3f),
    };
    let mut allowed = (c >= 0x10000) & (c <= 0xEFFFF);
    for (x, y) in R {
        allowed |= (c >= x) & (c <= y);
    }
    sym::assume(allowed);
    let n = ["a", &u].concat();
    let (s, m) = match sym::choice(4) {
        0 => (["<r><", &n, ">t</", &n, "></r>"].concat(), el("r").kid(el(&n).kid(M::T("t".to_string())).m())),
        1 => (["<r ", &n, "='1'><e ", &n, "x = '2'/></r>"].concat(), el("r").at(&n, "1").kid(el("e").at(&[n.as_str(), "x"].concat(), "2").m())),
        2 => (["<", &n, "b/>"].concat(), el(&[n.as_str(), "b"].concat())),
        _ => {
            let mut e = el("e");
            e.prefix = Some(n.clone());
            (["<r xmlns:", &n, "='u'><", &n, ":e/></r>"].concat(), el("r").at(&["xmlns:", &n].concat(), "u").kid(e.m()))
        }
    };
    mirror(&s, &m);
}
/// deep nesting of every depth up to 12 with siblings on the way down or up
pub fn c06_deep() {
    let n = 1 + sym::choice(12);
    let mut c = String::new();
    let v = g::ascii(&mut c);
    sym::assume(v != b'<');
    let after = sym::choice(2) == 1;
    let mut s = String::new();
    for i in 0..n {
        s.push_str(["<a>", "<b>", "<c>"][i % 3]);
        if !after {
            s.push_str("<s/>");
            s.push_str(&c);
        }
    }
    let mut m: Option<ME> = None;
    for i in (0..n).rev() {
        let mut e = el(["a", "b", "c"][i % 3]);
        if !after {
            e = e.kid(el("s").m()).kid(M::T(decode(&c)));
        }
        if let Some(x) = m.take() {
            e = e.kid(x.m());
        }
        if after {
            s.push_str(&c);
            s.push_str("<s/>");
            e = e.kid(M::T(decode(&c))).kid(el("s").m());
        }
        s.push_str(["</a>", "</b>", "</c>"][i % 3]);
        m = Some(e);
    }
    mirror(&s, &m.unwrap());
}
/// many siblings: more children than any small fixed capacity
pub fn c06_wide() {
    let n = sym::choice(20);
    let mut s = String::from("<r>");
    let mut m = el("r");
    let hot = sym::choice(4) * 5;
    for i in 0..n {
        s.push_str("<e>");
        let k = s.len();
        if i == hot {
            let c = g::ascii(&mut s);
            sym::assume((c != b'<') & (c != b'&'));
        } else {
            s.push((b'a' + i as u8) as char);
        }
        let t = s[k..].to_string();
        s.push_str("</e>");
        m = m.kid(el("e").kid(M::T(t)).m());
        if i % 3 == 2 {
            s.push_str("mid");
            m = m.kid(M::T("mid".to_string()));
        }
    }
    s.push_str("</r>");
    mirror(&s, &m);
}
/// any character that may be part of a name
fn letter(s: &mut String) {
    let c = g::ascii(s);
    sym::assume(c.is_ascii_alphanumeric() | (c == b'_') | (c == b'.'));
}
/// sequences of up to `n` children; kind by kind, the first and the last with a symbolic character
fn kinds(n: usize, k: usize, nest: bool) {
    let n = sym::choice(n + 1);
    let mut s = String::from("<r>");
    let mut m = el("r");
    let mut open: Vec<ME> = vec![];
    for i in 0..n {
        let mut id = [["n", "o"][i % 2], ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m"][i]].concat();
        if i == 0 || i + 1 == n {
            letter(&mut id);
        }
        let node = match sym::choice(k) {
            0 => {
                s.push_str(&["<", &id, "/>"].concat());
                el(&id).m()
            }
            1 => {
                s.push_str(&["<!--", &id, "-->"].concat());
                M::C(id)
            }
            2 => {
                s.push_str(&["<![CDATA[", &id, "]]>"].concat());
                M::D(id)
            }
            3 => {
                s.push_str(&id);
                M::T(id)
            }
            _ => {
                s.push_str(&["<", &id, ">x<y/></", &id, ">"].concat());
                el(&id).kid(M::T("x".to_string())).kid(el("y").m()).m()
            }
        };
        m = m.kid(node);
        if nest && sym::choice(3) == 2 {
            // everything from here on is one level deeper
            s.push_str("<in>");
            open.push(std::mem::replace(&mut m, el("in")));
        }
    }
    while let Some(o) = open.pop() {
        s.push_str("</in>");
        m = o.kid(m.m());
    }
    s.push_str("</r>");
    mirror(&s, &m);
}
pub fn c06_kinds10() {
    kinds(10, 2, false)
}
pub fn c06_kinds12() {
    kinds(12, 2, false)
}
pub fn c06_kinds6() {
    kinds(6, 5, false)
}
pub fn c06_kinds5() {
    kinds(5, 4, true)
}
