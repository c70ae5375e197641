//! C07, C08: malformed documents and malformed tags are refused.
use crate::h_parse::CTX;
use crate::{g, sym};

/// What an independent scan of a text says about it.
#[derive(Default)]
pub struct Scan {
    /// one root element, properly nested, nothing unclosed
    pub nested: bool,
    /// 0: some tag is malformed, 1: some tag is of a form the properties leave open, 2: all tags are well-formed
    pub tags: u8,
    /// something besides white space stands outside of the root element, or an unsupported construct occurs
    pub other: bool,
    /// a name has a prefix
    pub colon: bool,
}
fn at(b: &[u8], i: usize, w: &[u8]) -> bool {
    b.len() >= i + w.len() && &b[i..i + w.len()] == w
}
fn find(b: &[u8], mut i: usize, w: &[u8]) -> Option<usize> {
    while i + w.len() <= b.len() {
        if at(b, i, w) {
            return Some(i);
        }
        i += 1;
    }
    None
}
/// the first position of `w` outside of quotes; with `nest`, also outside of nested angle brackets
fn find_unquoted(b: &[u8], mut i: usize, w: &[u8], nest: bool) -> Option<usize> {
    let mut q = 0u8;
    let mut depth = 0;
    while i < b.len() {
        let c = b[i];
        if q != 0 {
            if c == q {
                q = 0;
            }
        } else if c == b'"' || c == b'\'' {
            q = c;
        } else if nest && c == b'<' {
            depth += 1;
        } else if nest && depth > 0 && c == b'>' {
            depth -= 1;
        } else if at(b, i, w) {
            return Some(i);
        }
        i += 1;
    }
    None
}
/// length of the white space character at i, or 0
fn space(s: &str, i: usize) -> usize {
    let b = s.as_bytes();
    if i >= b.len() {
        return 0;
    }
    if b[i] < 128 {
        return ((b[i] == b' ') | ((b[i] >= 9) & (b[i] <= 13))) as usize;
    }
    if b[i] & 0xC0 == 0x80 {
        return 0; // inside of a character
    }
    match s[i..].chars().next() {
        Some(c) if c.is_whitespace() => c.len_utf8(),
        _ => 0,
    }
}
/// end of the name that starts at i (i itself if there is none)
fn name_end(s: &str, mut i: usize) -> usize {
    let b = s.as_bytes();
    if i >= b.len() {
        return i;
    }
    let c = b[i];
    if !((((c | 32) >= b'a') & ((c | 32) <= b'z')) | (c == b'_')) {
        return i;
    }
    i += 1;
    while i < b.len() {
        let c = b[i];
        if c < 128 {
            let w = (((c | 32) >= b'a') & ((c | 32) <= b'z')) | (c == b'_') | ((c >= b'0') & (c <= b'9')) | (c == b'-') | (c == b'.') | (c == b':');
            if !w {
                break;
            }
            i += 1;
        } else {
            if space(s, i) > 0 {
                break;
            }
            i += 1;
            while i < b.len() && b[i] & 0xC0 == 0x80 {
                i += 1;
            }
        }
    }
    i
}
fn has(b: &[u8], c: u8) -> bool {
    let mut r = false;
    for x in b {
        r |= *x == c;
    }
    r
}
/// does s[i..e] have the form of the inside of a start tag (without '<', '/', '>')?
fn tag_form(s: &str, mut i: usize, e: usize, colon: &mut bool) -> u8 {
    let b = s.as_bytes();
    let mut r = 2;
    let n = name_end(s, i);
    if n == i || n > e {
        return 0;
    }
    if has(&b[i..n], b':') {
        *colon = true;
    }
    for x in &b[i..n] {
        if *x >= 128 {
            r = 1;
        }
    }
    i = n;
    loop {
        let mut gap = false;
        while i < e && space(s, i) > 0 {
            if b[i] >= 128 || b[i] == 11 || b[i] == 12 {
                r = 1; // white space of Unicode, but not of XML
            }
            i += space(s, i);
            gap = true;
        }
        if i >= e {
            return r;
        }
        if !gap {
            r = 1; // attributes without white space between them
        }
        let n = name_end(s, i);
        if n == i {
            return 0;
        }
        if has(&b[i..n], b':') || at(b, i, b"xmlns") {
            *colon = true;
        }
        for x in &b[i..n] {
            if *x >= 128 {
                r = 1;
            }
        }
        i = n;
        while i < e && space(s, i) > 0 {
            if b[i] >= 128 || b[i] == 11 || b[i] == 12 {
                r = 1;
            }
            i += space(s, i);
        }
        if !(i < e && b[i] == b'=') {
            return 0;
        }
        i += 1;
        while i < e && space(s, i) > 0 {
            if b[i] >= 128 || b[i] == 11 || b[i] == 12 {
                r = 1;
            }
            i += space(s, i);
        }
        if !(i < e && (b[i] == b'"' || b[i] == b'\'')) {
            return 0;
        }
        let q = b[i];
        i += 1;
        while i < e && b[i] != q {
            if b[i] == b'<' {
                r = 1;
            }
            i += 1;
        }
        if i >= e {
            return 0;
        }
        i += 1;
    }
}
pub fn scan(s: &str) -> Scan {
    let b = s.as_bytes();
    let mut r = Scan { nested: false, tags: 2, other: false, colon: false };
    let mut stack: Vec<(usize, usize)> = vec![];
    let mut root = false;
    let mut i = 0;
    loop {
        while i < b.len() && b[i] != b'<' {
            if stack.is_empty() && !((b[i] == b' ') | (b[i] == b'\n')) {
                r.other = true;
            }
            i += 1;
        }
        if i >= b.len() {
            break;
        }
        if at(b, i, b"<!--") {
            if stack.is_empty() {
                r.other = true;
            }
            match find(b, i + 4, b"-->") {
                None => return r,
                Some(e) => i = e + 3,
            }
        } else if at(b, i, b"<![CDATA[") {
            if stack.is_empty() {
                r.other = true;
            }
            match find(b, i + 9, b"]]>") {
                None => return r,
                Some(e) => i = e + 3,
            }
        } else if at(b, i, b"<?") {
            r.other = true;
            match find_unquoted(b, i + 2, b"?>", false) {
                None => return r,
                Some(e) => i = e + 2,
            }
        } else if at(b, i, b"<!") {
            r.other = true;
            match find_unquoted(b, i + 2, b">", true) {
                None => return r,
                Some(e) => i = e + 1,
            }
        } else {
            let e = match find_unquoted(b, i + 1, b">", false) {
                None => return r,
                Some(e) => e,
            };
            if b[i + 1] == b'/' {
                let n = name_end(s, i + 2);
                let mut k = n;
                while k < e && space(s, k) > 0 {
                    if b[k] >= 128 || b[k] == 11 || b[k] == 12 {
                        r.tags = r.tags.min(1);
                    }
                    k += space(s, k);
                }
                if n == i + 2 || k != e {
                    r.tags = 0;
                }
                // the name as written: everything up to white space or the end
                let mut k = i + 2;
                while k < e && space(s, k) == 0 {
                    k += 1;
                }
                match stack.pop() {
                    None => return r,
                    Some((x, y)) => {
                        if b[x..y] != b[i + 2..k] {
                            return r;
                        }
                    }
                }
            } else {
                let empty = b[e - 1] == b'/' && e - 1 > i;
                let end = if empty { e - 1 } else { e };
                r.tags = r.tags.min(tag_form(s, i + 1, end, &mut r.colon));
                if stack.is_empty() {
                    if root {
                        return r;
                    }
                    root = true;
                }
                if !empty {
                    let mut k = i + 1;
                    while k < end && space(s, k) == 0 {
                        k += 1;
                    }
                    stack.push((i + 1, k));
                }
            }
            i = e + 1;
        }
    }
    r.nested = root && stack.is_empty();
    r
}
pub fn judge(s: &str, tags: bool, two_sided: bool) {
    sym::note(s);
    let ok = kiss_xml::parse_str(s).is_ok();
    let r = scan(s);
    if ok {
        if tags {
            check!(r.tags > 0, "a malformed tag was accepted");
        } else {
            check!(r.nested, "a structurally malformed document was accepted");
        }
        sym::cover(1);
    } else {
        if two_sided {
            check!(!(r.nested && r.tags == 2 && !r.other && !r.colon), "a well-formed document was refused");
        }
        sym::cover(2);
    }
    sym::emit(&[ok as u8]);
}
// ---------------------------------------------------------------- C07
const TOK: [&str; 11] = ["<a>", "</a>", "<b>", "</b>", "<a/>", "x", "<!--</a>-->", "<![CDATA[<b>]]>", "<!--", "<![CDATA[", " "];
fn tokens(n: usize, k: usize) {
    let mut s = String::new();
    for _ in 0..1 + sym::choice(n) {
        s.push_str(TOK[sym::choice(k)]);
    }
    // one symbolic character behind the last token
    g::ascii(&mut s);
    judge(&s, false, true);
}
/// every sequence of up to n tokens, then one arbitrary character
pub fn c07_tokens3() {
    tokens(3, 11)
}
pub fn c07_tokens4() {
    tokens(4, 11)
}
pub fn c07_tags6() {
    tokens(6, 5)
}
/// any character in place of, or between, the characters of a document; or the document cut short
const DOCS: [&str; 6] = ["<a><b>t</b><c/></a>", "<a x='>'><!-- <b> --></a>", "<p:a xmlns:p='u'><p:b/></p:a>", "<a><![CDATA[</a>]]>t</a>\n", "<?xml version='1.0'?><!DOCTYPE a [<!ENTITY e '>'>]><a><a><a/></a></a>", "<a><bc></bc ><bcd/></a >"];
fn edits(tags: bool, two: bool) {
    let d = DOCS[sym::choice(DOCS.len())];
    let k = sym::choice(d.len() + 1);
    let mut s = String::from(&d[..k]);
    match sym::choice(5) {
        0 => {
            // insert one or two
            g::ascii(&mut s);
            if two {
                g::ascii(&mut s);
            }
            s.push_str(&d[k..]);
        }
        1 => {
            // replace
            sym::assume(k < d.len());
            g::ascii(&mut s);
            s.push_str(&d[k + 1..]);
        }
        2 => {
            // delete
            sym::assume(k < d.len());
            s.push_str(&d[k + 1..]);
        }
        3 => {
            // cut short, one arbitrary character at the end
            g::ascii(&mut s);
        }
        _ => {
            // a piece repeated
            let j = sym::choice(d.len() + 1);
            sym::assume(j < k);
            s.push_str(&d[j..]);
        }
    }
    judge(&s, tags, false);
}
pub fn c07_edits() {
    edits(false, false)
}
pub fn c07_edits2() {
    edits(false, true)
}
/// tag names of one or two symbolic characters: matching end tags
fn names(long: bool) {
    let mut n: Vec<String> = vec![];
    for i in 0..4 {
        let mut s = String::new();
        g::ascii(&mut s);
        if long && (i == 0 || i == 3) {
            g::ascii(&mut s);
        }
        for b in s.bytes() {
            sym::assume((((b | 32) >= b'a') & ((b | 32) <= b'z')) | (b == b'_') | (b == b'/'));
        }
        n.push(s);
    }
    let s = ["<", &n[0], "><", &n[1], "></", &n[2], "></", &n[3], ">"].concat();
    judge(&s, false, true);
}
pub fn c07_names() {
    names(false)
}
pub fn c07_names2() {
    names(true)
}
/// a tag name with an arbitrary character in the end tag, the start tag or both
pub fn c07_endtag() {
    let mut a = String::from("ab");
    let mut b = String::from("ab");
    match sym::choice(4) {
        0 => g::uni(&mut b),
        1 => g::uni(&mut a),
        2 => {
            g::ascii(&mut a);
            g::ascii(&mut b);
        }
        _ => {
            b.clear();
            g::ascii(&mut b);
            g::ascii(&mut b);
        }
    }
    let s = ["<r><", &a, ">t</", &b, "></r>"].concat();
    judge(&s, false, true);
}
fn window(n: usize, tags: bool) {
    let (a, b) = CTX[sym::choice(CTX.len())];
    let mut s = String::from(a);
    for _ in 0..sym::choice(n + 1) {
        g::ascii(&mut s);
    }
    s.push_str(b);
    judge(&s, tags, false);
}
pub fn c07_window() {
    window(3, false)
}
pub fn c07_window4() {
    window(4, false)
}
pub fn c07_window5() {
    window(5, false)
}
pub fn c07_window6() {
    window(6, false)
}
pub fn c07_window7() {
    window(7, false)
}
/// every text of up to 9 characters out of the ones that make structure
fn alpha(n: usize) {
    let mut s = String::from("<");
    s.push_str(&g::set_text(sym::choice(n), "<>/a!-"));
    judge(&s, false, true);
}
pub fn c07_alpha8() {
    alpha(8)
}
pub fn c07_alpha10() {
    alpha(10)
}
pub fn c07_alpha13() {
    alpha(13)
}
pub fn c07_tokens5() {
    tokens(5, 11)
}
pub fn c07_tokens6() {
    tokens(6, 11)
}
pub fn c07_tags8() {
    tokens(8, 5)
}
/// deep nesting with the end tags of one level changed
pub fn c07_deep() {
    let n = 1 + sym::choice(8);
    let k = sym::choice(n);
    let mut s = String::new();
    for i in 0..n {
        s.push_str(["<a>", "<b>"][i % 2]);
    }
    for i in (0..n).rev() {
        if i == k {
            g::ascii(&mut s);
            g::ascii(&mut s);
            g::ascii(&mut s);
            s.push('>');
        } else {
            s.push_str(["</a>", "</b>"][i % 2]);
        }
    }
    judge(&s, false, true);
}
// ---------------------------------------------------------------- C08
pub const TAGS: [(&str, &str); 16] = [
    ("<", "/>"),
    ("<a ", "/>"),
    ("<a x", "'1'/>"),
    ("<a x", "/>"),
    ("<a x=", "/>"),
    ("<a x='1'", "/>"),
    ("<a x='1' ", " y=\"2\"/>"),
    ("<a x='", "/>"),
    ("<a x=\"1", "/>"),
    ("<a x", "='1'></a>"),
    ("<a", "x='1'/>"),
    ("<", " x='1'/>"),
    ("<a><", "/></a>"),
    ("<a></", ">"),
    ("<a><b ", "></b></a>"),
    ("<a x = ", " ></a>"),
];
fn tagw(n: usize) {
    let (a, b) = TAGS[sym::choice(TAGS.len())];
    let mut s = String::from(a);
    for _ in 0..sym::choice(n + 1) {
        g::ascii(&mut s);
    }
    s.push_str(b);
    judge(&s, true, true);
}
pub fn c08_tags3() {
    tagw(3)
}
pub fn c08_tags4() {
    tagw(4)
}
pub fn c08_tags5() {
    tagw(5)
}
pub fn c08_tags6() {
    tagw(6)
}
pub fn c08_tags7() {
    tagw(7)
}
pub fn c08_tagsu() {
    let (a, b) = TAGS[sym::choice(TAGS.len())];
    let mut s = String::from(a);
    g::uni(&mut s);
    if sym::choice(2) == 1 {
        g::ascii(&mut s);
    }
    s.push_str(b);
    judge(&s, true, true);
}
/// a whole tag of characters that matter in tags
fn alpha8(n: usize) {
    let s = ["<a", &g::set_text(sym::choice(n + 1), " x='\"/<1"), "/>"].concat();
    judge(&s, true, true);
}
pub fn c08_alpha6() {
    alpha8(6)
}
pub fn c08_alpha8() {
    alpha8(8)
}
pub fn c08_alpha10() {
    alpha8(10)
}
pub fn c08_alpha12() {
    alpha8(12)
}
pub fn c08_edits() {
    edits(true, false)
}
/// one malformed attribute at any place in a list of good ones
pub fn c08_list() {
    const GOOD: [&str; 4] = ["a='1'", "b=\"2\"", "c = '3'", "d='\"'"];
    let n = 1 + sym::choice(3);
    let k = sym::choice(n);
    let mut s = String::from(["<r", "<r><e", "<?xml version='1.0'?><r"][sym::choice(3)]);
    let inner = s.ends_with('e');
    for i in 0..n {
        s.push_str([" ", "\n", "  "][i]);
        if i == k {
            match sym::choice(4) {
                0 => {
                    g::ascii(&mut s);
                    g::ascii(&mut s);
                    s.push_str("'v'");
                }
                1 => {
                    s.push_str("k=");
                    g::ascii(&mut s);
                    s.push('v');
                    g::ascii(&mut s);
                }
                2 => {
                    s.push('k');
                    g::ascii(&mut s);
                    s.push('=');
                    g::ascii(&mut s);
                    s.push('\'');
                }
                _ => {
                    s.push_str("k");
                    g::ascii(&mut s);
                    s.push_str("\"\"");
                    g::ascii(&mut s);
                }
            }
        } else {
            s.push_str(GOOD[i]);
        }
    }
    s.push_str(if inner { "/></r>" } else { "/>" });
    judge(&s, true, true);
}
