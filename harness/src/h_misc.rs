//! C22: what errors tell; C23: what constructors build.
use crate::m::*;
use crate::{fsm, g, sym};
use kiss_xml::dom::*;
use kiss_xml::errors::*;
use std::collections::HashMap;

// ---------------------------------------------------------------- C22

fn kind(e: &KissXmlError) -> usize {
    match e {
        KissXmlError::ParsingError(_) => 0,
        KissXmlError::TypeCastError(_) => 1,
        KissXmlError::DoesNotExistError(_) => 2,
        KissXmlError::IndexOutOfBounds(_) => 3,
        KissXmlError::InvalidAttributeName(_) => 4,
        KissXmlError::InvalidElementName(_) => 5,
        KissXmlError::InvalidContent(_) => 6,
        KissXmlError::NotSupportedError(_) => 7,
        KissXmlError::IOError(_) => 8,
    }
}
fn is(e: KissXmlError, k: usize, msg: &str) {
    check!(kind(&e) == k, "the error is of another kind");
    check!(e.to_string() == msg, "the general error displays something else than the specific one");
    sym::emit(msg.as_bytes());
    sym::cover(1 + k as u64);
}
fn text() -> String {
    let mut s = String::new();
    for _ in 0..sym::choice(3) {
        g::uni(&mut s);
    }
    s
}
fn with(p: &str, s: &str) -> String {
    let mut t = String::from(p);
    t.push_str(s);
    t
}
/// every error value, its message and its conversion
pub fn c22_values() {
    let s = text();
    match sym::choice(8) {
        0 => {
            let e = ParsingError::new(s.as_str());
            check!(e.msg == s, "message");
            let w = with("ParsingError: ", &s);
            check!(e.to_string() == w, "message of a parsing error");
            // a message taken from a parsing error does not accumulate prefixes
            check!(ParsingError::new(e.to_string()).to_string() == w, "the prefix is repeated");
            is(e.clone().into(), 0, &w)
        }
        1 => {
            let e = TypeCastError::new(s.as_str());
            let w = with("TypeCastError: ", &s);
            check!(e.msg == s && e.to_string() == w, "message of a cast error");
            is(e.into(), 1, &w)
        }
        2 => {
            let e = DoesNotExistError::new(s.as_str());
            let w = with("DoesNotExistError: ", &s);
            check!(e.msg == s && e.to_string() == w, "message of a not-found error");
            is(e.into(), 2, &w)
        }
        3 => {
            let e = InvalidAttributeName::new(s.as_str());
            let w = with("InvalidAttributeName: ", &s);
            check!(e.msg == s && e.to_string() == w, "message of an attribute name error");
            is(e.into(), 4, &w)
        }
        4 => {
            let e = InvalidElementName::new(s.as_str());
            let w = with("InvalidElementName: ", &s);
            check!(e.msg == s && e.to_string() == w, "message of an element name error");
            is(e.into(), 5, &w)
        }
        5 => {
            let e = InvalidContent::new(s.as_str());
            let w = with("InvalidContent: ", &s);
            check!(e.msg == s && e.to_string() == w, "message of a content error");
            is(e.into(), 6, &w)
        }
        6 => {
            let e = NotSupportedError::new(s.as_str());
            let w = with("NotSupportedError: ", &s);
            check!(e.msg == s && e.to_string() == w, "message of an unsupported error");
            is(e.into(), 7, &w)
        }
        _ => {
            let e = std::io::Error::from([std::io::ErrorKind::NotFound, std::io::ErrorKind::InvalidData, std::io::ErrorKind::WouldBlock][sym::choice(3)]);
            let w = e.to_string();
            is(e.into(), 8, &w)
        }
    }
}
fn sample() -> Element {
    let m = el("r").at("k", "v").kid(el("a").m()).kid(M::T("t".to_string())).kid(M::C("c".to_string())).kid(el("b").m()).kid(M::D("d".to_string()));
    build(&m, 0)
}
/// an index error carries the index and the number of items, for any index
pub fn c22_index() {
    let mut e = sample();
    let i = sym::var(64) as usize;
    let (r, n) = match sym::choice(3) {
        0 => (e.remove(i).map(|_| ()), 5),
        1 => (e.insert(i, Comment::from("x")), 5),
        _ => (e.remove_element(i).map(|_| ()), 2),
    };
    if let Err(x) = r {
        check!(x.index == i as isize, "the index of the error is another one");
        check!(x.bounds == Some((0, n)), "the bounds of the error are not those of the list");
        let g: KissXmlError = x.into();
        match g {
            KissXmlError::IndexOutOfBounds(y) => check!(y.index == i as isize && y.bounds == Some((0, n)), "lost in the conversion"),
            _ => sym::fail("another kind of error"),
        }
        sym::cover(1);
    }
}
pub fn c22_indextext() {
    let i = [0isize, 5, -1, 1234567890, isize::MAX][sym::choice(5)];
    let (e, w) = match sym::choice(2) {
        0 => (IndexOutOfBounds::new(i, Some((0, 4))), format_index(i, " is out of bounds (valid range: 0 - 4)")),
        _ => (IndexOutOfBounds::new(i, None), format_index(i, " is out of bounds")),
    };
    check!(e.to_string() == w, "message of an index error");
    is(e.into(), 3, &w)
}
fn format_index(i: isize, tail: &str) -> String {
    let mut s = String::from("Index ");
    let mut n = i.unsigned_abs();
    if i < 0 {
        s.push('-');
    }
    let mut d = vec![];
    loop {
        d.push(b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            break;
        }
    }
    for c in d.iter().rev() {
        s.push(*c as char);
    }
    s.push_str(tail);
    s
}
fn pick<T>(r: Result<T, KissXmlError>) -> KissXmlError {
    match r {
        Ok(_) => {
            sym::assume(false);
            loop {}
        }
        Err(e) => e,
    }
}
/// the kind of a refusal is that of the operation, and names what was refused
pub fn c22_kinds() {
    let mut e = sample();
    let s = text();
    let none = Option::<HashMap<String, String>>::None;
    match sym::choice(12) {
        0 => {
            let x = pick(Element::new_from_name(&s));
            check!(kind(&x) == 5, "a refused element name is not an element name error");
            check!(x.to_string().contains(s.as_str()), "the refused name is not in the message");
        }
        1 => match e.set_attr(s.as_str(), "v") {
            Ok(_) => sym::assume(false),
            Err(x) => {
                check!(x.msg.contains(s.as_str()), "the refused name is not in the message");
                check!(kind(&x.into()) == 4, "a refused attribute name is not an attribute name error");
            }
        },
        2 => {
            let x = pick(Element::new("e", None, Some(HashMap::from([(s.clone(), "v")])), None, None, None));
            check!(kind(&x) == 4, "a refused attribute name is not an attribute name error");
            check!(x.to_string().contains(s.as_str()), "the refused name is not in the message");
        }
        3 => {
            let x = pick(Element::new("e", None, none, None, Some(s.clone()), None));
            check!(kind(&x) == 5, "a refused prefix is not an element name error");
        }
        4 => {
            let t = with(&s, "-->");
            match Comment::new(t.as_str()) {
                Ok(_) => sym::fail("accepted"),
                Err(x) => check!(kind(&x.into()) == 6, "a refused comment is not a content error"),
            }
        }
        5 => {
            let t = with(&s, "]]>");
            match CData::new(t.as_str()) {
                Ok(_) => sym::fail("accepted"),
                Err(x) => check!(kind(&x.into()) == 6, "refused CDATA is not a content error"),
            }
        }
        6 => {
            sym::assume(s != "a" && s != "b");
            match e.first_element_by_name(s.as_str()) {
                Ok(_) => sym::fail("found"),
                Err(x) => check!(kind(&x.into()) == 2, "a missing element is not a not-found error"),
            }
        }
        7 => {
            sym::assume(s != "a" && s != "b");
            match e.first_element_by_name_mut(s.as_str()) {
                Ok(_) => sym::fail("found"),
                Err(x) => check!(kind(&x.into()) == 2, "a missing element is not a not-found error"),
            }
        }
        8 => {
            let k = sym::choice(5);
            let mut b = ok(e.remove(k), "remove");
            let x = [b.as_element().err(), b.as_text().err(), b.as_comment().err(), b.as_cdata().err()];
            let y = [b.as_element_mut().err(), b.as_text_mut().err(), b.as_comment_mut().err(), b.as_cdata_mut().err()];
            let (from, to) = (["Element", "Text", "Comment", "Element", "CData"][k], ["Element", "Text", "Comment", "CData"]);
            for set in [x, y] {
                for (i, z) in set.into_iter().enumerate() {
                    if let Some(z) = z {
                        let mut w = String::from("Cannot cast ");
                        w.push_str(from);
                        w.push_str(" as ");
                        w.push_str(to[i]);
                        check!(z.msg == w, "a cast error does not say which cast failed");
                        check!(kind(&z.into()) == 1, "a failed cast is not a cast error");
                    }
                }
            }
        }
        9 => {
            let x = pick(Declaration::from_str(s.as_str()));
            check!(kind(&x) == 0, "a malformed declaration is not a parsing error");
        }
        10 => {
            let x = pick(DTD::from_string(s.as_str()));
            check!(kind(&x) == 0, "a malformed DTD is not a parsing error");
        }
        _ => {
            fsm::reset();
            let x = pick(kiss_xml::parse_filepath("/kxfs/none.xml"));
            check!(kind(&x) == 8, "a missing file is not an I/O error");
        }
    }
    sym::cover(1);
}
/// a refused text: the error is about the syntax, and its message displays
pub fn c22_parse() {
    let (a, b) = [("", ""), ("<r>", "</r>"), ("<r ", "/>"), ("<r a='1'", "/>"), ("<r/>", ""), ("<r><!", "</r>"), ("<r><", "/></r>"), ("<?xml", "<r/>")][sym::choice(8)];
    let mut s = String::from(a);
    for _ in 0..sym::choice(4) {
        g::ascii(&mut s);
    }
    s.push_str(b);
    let x = pick(kiss_xml::parse_str(s));
    let t = x.to_string();
    match kind(&x) {
        0 => check!(t.starts_with("ParsingError: "), "message of a parsing error"),
        4 => check!(t.starts_with("InvalidAttributeName: "), "message of an attribute name error"),
        5 => check!(t.starts_with("InvalidElementName: "), "message of an element name error"),
        6 => check!(t.starts_with("InvalidContent: "), "message of a content error"),
        7 => check!(t.starts_with("NotSupportedError: "), "message of an unsupported error"),
        _ => sym::fail("a syntax error is reported as something else"),
    }
    sym::emit(t.as_bytes());
    sym::cover(1);
}
pub fn number_after(t: &str, p: &str) -> Option<usize> {
    let i = t.find(p)? + p.len();
    let mut n = 0;
    let mut any = false;
    for c in t[i..].bytes() {
        if !c.is_ascii_digit() {
            break;
        }
        any = true;
        n = n * 10 + (c - b'0') as usize;
    }
    if any {
        Some(n)
    } else {
        None
    }
}
/// the line in a message is that of the offending construct
const BAD: [(&str, &str, &str); 16] = [
    ("<r>", "<\n>", "</r>"),
    ("<r>\n</r>", "</\nr>", "\n"),
    ("<r>\n<a>", "</b>", "</a></r>"),
    ("<r><!-- \n -->", "<a b/>", "</r>"),
    ("<r>\n\n", "<a b='1/>", "</r>"),
    ("<r>t", "<!ELEMENT x>", "\n</r>"),
    ("<r\na='\n'>", "<a a=1/>", "\n</r>"),
    ("<r>", "</r x>", ""),
    ("<r>\n</r>", "</r>", "\n"),
    ("<r>\n</r>", "<s/>", "\n"),
    ("<r/>", "<s>", "</s>"),
    ("<!-- \n -->", "</r>", ""),
    ("<?xml version='1.0'?>\n", "<?xml version='1.0'?>", "<r/>"),
    ("<!DOCTYPE r [\n\n]>", "<p:r/>", ""),
    ("<r><![CDATA[\n]]>", "<!--", "\n</r>"),
    ("<r>", "<a", "\n"),
];
pub fn c22_line() {
    let (a, bad, b) = BAD[sym::choice(BAD.len())];
    // any text where text does no harm: inside of a leading comment
    let lead = sym::choice(2) == 0 && !a.starts_with("<?");
    let mut s = String::new();
    if lead {
        s.push_str("<!--");
        for _ in 0..2 {
            g::uni(&mut s);
        }
        s.push_str("-->");
        sym::assume(!s[4..s.len() - 3].contains("-->"));
    }
    s.push_str(a);
    if !a.is_empty() && a.ends_with('>') && !a.starts_with("<!") {
        for _ in 0..2 {
            if a != "<r/>" && !a.ends_with("</r>") {
                g::one_of(&mut s, "x\n \r");
            } else {
                g::one_of(&mut s, "\n \r\t");
            }
        }
    }
    let mut line = 1;
    for c in s.bytes() {
        line += (c == b'\n') as usize;
    }
    s.push_str(bad);
    s.push_str(b);
    match kiss_xml::parse_str(s) {
        Ok(_) => sym::fail("malformed text accepted"),
        Err(e) => {
            let t = e.to_string();
            if let Some(n) = number_after(&t, "on line ") {
                check!(n == line, "the line in the message is not that of the offending construct");
                check!(number_after(&t, "column ").is_some(), "no column in the message");
                sym::cover(1);
            }
            sym::emit(t.as_bytes());
        }
    }
}
/// every character before the offending construct on its line moves the column by one, and nothing else does
pub fn c22_column() {
    const C: [&str; 13] = ["</b>", "<a b/>", "<a b='1/>", "<!ELEMENT x>", "<a a=1/>", "</r x>", "<!--", "<![CDATA[", "<a", "<!-->", "<>", "< a/>", "<a b='1'c=''"];
    let bad = C[sym::choice(C.len())];
    let a = ["<r>", "<r>\n", "<r>\u{e9}\n\n", "<r><!--\u{4e2d}--><b/>", "<r>x<![CDATA[\n]]>\n"][sym::choice(5)];
    let end = ["</r>", "\n</r>", ""][sym::choice(3)];
    let n = 1 + sym::choice(3);
    let mut t = String::new();
    for _ in 0..n {
        g::uni(&mut t);
    }
    let mut fine = true;
    for c in t.bytes() {
        fine &= (c != b'<') & (c != b'\n') & (c != b'&');
    }
    sym::assume(fine);
    let near = [a, bad, end].concat();
    let far = [a, &t, bad, end].concat();
    let (x, y) = (pick(kiss_xml::parse_str(near)).to_string(), pick(kiss_xml::parse_str(far)).to_string());
    check!(number_after(&x, "on line ") == number_after(&y, "on line "), "text on the line changes the line in the message");
    match (number_after(&x, "column "), number_after(&y, "column ")) {
        (Some(c), Some(d)) => {
            check!(d == c + n, "the column in the message does not follow the construct");
            sym::cover(1);
        }
        (None, None) => {}
        _ => sym::fail("a column in one of two messages"),
    }
    sym::emit(y.as_bytes());
}
/// lines and columns stay within the text
pub fn c22_within() {
    let (a, b) = [("", ""), ("<r>\n", "\n</r>"), ("<r\n", "/>"), ("<r/>\n", ""), ("\n<r>\u{e9}\u{4e2d}<", "/></r>")][sym::choice(5)];
    let mut s = String::from(a);
    for _ in 0..3 {
        g::ascii(&mut s);
    }
    s.push_str(b);
    let mut lines = 1;
    for c in s.bytes() {
        lines += (c == b'\n') as usize;
    }
    let len = s.len();
    let t = pick(kiss_xml::parse_str(s)).to_string();
    if let Some(n) = number_after(&t, "on line ") {
        check!(n >= 1 && n <= lines, "the line in the message is not a line of the text");
        match number_after(&t, "column ") {
            Some(c) => check!(c >= 1 && c <= len + 1, "the column in the message is not within the text"),
            None => sym::fail("a line without a column"),
        }
        sym::cover(1);
    }
    sym::emit(t.as_bytes());
}

// ---------------------------------------------------------------- C23

fn name() -> String {
    let mut s = String::new();
    let c = g::ascii(&mut s);
    sym::assume((c == b'_') | ((c | 32) >= b'a') & ((c | 32) <= b'z'));
    for _ in 0..sym::choice(2) {
        let c = g::ascii(&mut s);
        sym::assume((c == b'_') | (c == b'-') | (c == b'.') | ((c | 32) >= b'a') & ((c | 32) <= b'z') | (c >= b'0') & (c <= b'9'));
    }
    s
}
fn value() -> String {
    let mut s = String::new();
    for _ in 0..sym::choice(2) {
        g::uni(&mut s);
    }
    s
}
/// (whether blank text is dropped before or after merging is left open)
fn words() -> String {
    let s = value();
    sym::assume(s.is_empty() || !blank(&s));
    s
}
fn kid() -> (Box<dyn Node>, M) {
    let m = match sym::choice(6) {
        0 => M::T(words()),
        1 => M::T("lit".to_string()),
        2 => M::C("c".to_string()),
        3 => M::D(" ".to_string()),
        4 => el("e").at("x", "1").kid(M::T("in".to_string())).m(),
        _ => el("e").kid(el("f").m()).m(),
    };
    (build_node(&m, 0), m)
}
/// every constructor, compared with the model and with the element assembled by edits
fn ctor(kids_n: usize) {
    let n = name();
    let mut m = el(&n);
    let mut attrs: HashMap<String, String> = HashMap::new();
    let mut txt = String::new();
    let mut kids: Vec<Box<dyn Node>> = vec![];
    let mut add_attrs = |m: &mut ME| {
        for k in ["k", "l"].iter().take(sym::choice(3)) {
            let v = value();
            attrs.insert(k.to_string(), v.clone());
            m.attrs.push((k.to_string(), v));
        }
    };
    let how = sym::choice(8);
    let c = "a constructor refused valid content";
    if matches!(how, 1 | 3 | 5 | 6 | 7) {
        add_attrs(&mut m);
    }
    if matches!(how, 2 | 3 | 6) {
        txt = words();
        m.kids.push(M::T(txt.clone()));
    }
    if matches!(how, 4 | 5 | 6) {
        for _ in 0..sym::choice(kids_n + 1) {
            let (b, k) = kid();
            kids.push(b);
            m.kids.push(k);
        }
    }
    let e = match how {
        0 => ok(Element::new_from_name(&n), c),
        1 => ok(Element::new_with_attributes(&n, attrs), c),
        2 => match sym::choice(2) {
            0 => ok(Element::new_with_text(&n, txt.as_str()), c),
            _ => ok(Element::new_with_text(&n, txt), c),
        },
        3 => ok(Element::new_with_attributes_and_text(&n, attrs, txt), c),
        4 => ok(Element::new_with_children(&n, kids), c),
        5 => ok(Element::new_with_attributes_and_children(&n, attrs, kids), c),
        6 => ok(Element::new(n.as_str(), Some(txt), Some(attrs), None, None, Some(kids)), c),
        _ => {
            let borrowed: HashMap<&str, &str> = attrs.iter().map(|x| (x.0.as_str(), x.1.as_str())).collect();
            ok(Element::new(n.as_str(), None, Some(borrowed), None, None, None), c)
        }
    };
    agree(&e, &m, &vec![], "constructor");
    check!(e.tag_name() == n && e.namespace_prefix().is_none() && e.default_namespace().is_none(), "tag name or namespace of a new element");
    check!(e.child_elements().count() == normalize(&m.kids).iter().filter(|x| matches!(x, M::E(_))).count(), "number of child elements");
    // the same by edits
    let f = build(&m, 1);
    check!(e == f, "not equal to the element assembled by edits");
    check!(e.to_string() == f.to_string(), "serialized differently than the element assembled by edits");
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
pub fn c23_ctor1() {
    ctor(1)
}
pub fn c23_ctor2() {
    ctor(2)
}
pub fn c23_ctor3() {
    ctor(3)
}
/// namespace and prefix of the full constructor
pub fn c23_full() {
    let n = name();
    let p = name();
    let u = value();
    sym::assume(!u.is_empty());
    // reserved
    sym::assume(p != "xmlns");
    let e = ok(Element::new(n.as_str(), None, Option::<HashMap<String, String>>::None, Some(u.clone()), Some(p.clone()), None), "constructor");
    let mut tag = p.clone();
    tag.push(':');
    tag.push_str(&n);
    check!(e.tag_name() == tag, "the tag name is not prefix:name");
    check!(e.name() == n && e.namespace_prefix() == Some(p.clone()) && e.namespace() == Some(u.clone()), "name, prefix or namespace");
    let mut key = String::from("xmlns:");
    key.push_str(&p);
    check!(e.get_attr(key.as_str()) == Some(&u) && e.attributes().len() == 1, "the namespace is not declared");
    let f = ok(Element::new(n.as_str(), None, Option::<HashMap<String, String>>::None, Some(u.clone()), None, None), "constructor");
    check!(f.tag_name() == n && f.namespace() == Some(u.clone()) && f.default_namespace() == Some(u.clone()), "default namespace");
    check!(f.get_attr("xmlns") == Some(&u) && f.attributes().len() == 1, "the default namespace is not declared");
    sym::emit(tag.as_bytes());
    sym::cover(1);
}
/// a constructor refuses when, and only when, one of its names is refused
pub fn c23_refused() {
    let mut n = String::new();
    for _ in 0..2 {
        g::ascii(&mut n);
    }
    let good = Element::new_from_name(&n).is_ok();
    let mp: HashMap<&str, &str> = HashMap::from([("k", "<&>'\"")]);
    let kids: Vec<Box<dyn Node>> = vec![Text::new("]]>").boxed()];
    let none = Option::<HashMap<String, String>>::None;
    let r = match sym::choice(7) {
        0 => Element::new_with_text(&n, "<").is_ok(),
        1 => Element::new_with_attributes(&n, mp).is_ok(),
        2 => Element::new_with_attributes_and_text(&n, mp, "&").is_ok(),
        3 => Element::new_with_children(&n, kids).is_ok(),
        4 => Element::new_with_attributes_and_children(&n, mp, kids).is_ok(),
        5 => Element::new(n.as_str(), None, none, None, None, None).is_ok(),
        _ => Element::new("e", None, none, Some("u".to_string()), Some(n.clone()), None).is_ok(),
    };
    check!(r == good, "constructors disagree about a name");
    sym::emit(&[r as u8]);
    sym::cover(if r { 1 } else { 2 });
}
/// long lists of children of every kind through the constructors that take them
fn children(n: usize) {
    let mut m = el("r");
    let how = sym::choice(4);
    let mut attrs: HashMap<String, String> = HashMap::new();
    if how != 1 {
        attrs.insert("k".to_string(), "v".to_string());
        m = m.at("k", "v");
    }
    if how == 0 {
        m = m.kid(M::T("first".to_string()));
    }
    let mut kids: Vec<Box<dyn Node>> = vec![];
    for i in 0..sym::choice(n + 1) {
        let mut id = ["na", "nb", "nc", "nd", "ne", "nf"][i].to_string();
        if i < 2 {
            let c = g::ascii(&mut id);
            sym::assume((c >= b'a') & (c <= b'z'));
        }
        let k = match sym::choice(4) {
            0 => M::T(id),
            1 => M::C(id),
            2 => M::D(id),
            _ => el(&id).kid(M::T("x".to_string())).m(),
        };
        kids.push(build_node(&k, 0));
        m = m.kid(k);
    }
    let c = "a constructor refused valid content";
    let e = match how {
        0 => ok(Element::new("r", Some("first".to_string()), Some(attrs), None, None, Some(kids)), c),
        1 => ok(Element::new_with_children("r", kids), c),
        2 => ok(Element::new_with_attributes_and_children("r", attrs, kids), c),
        _ => ok(Element::new("r", None, Some(attrs), None, None, Some(kids)), c),
    };
    agree(&e, &m, &vec![], "constructor");
    let f = build(&m, 1);
    check!(e == f, "not equal to the element assembled by edits");
    check!(e.to_string() == f.to_string(), "serialized differently than the element assembled by edits");
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
pub fn c23_children4() {
    children(4)
}
pub fn c23_children6() {
    children(6)
}
/// many attributes through the constructors, one of them arbitrary
pub fn c23_attrs() {
    let mut m = el("r");
    let mut attrs: HashMap<String, String> = HashMap::new();
    let n = sym::choice(9);
    for i in 0..n {
        let mut k = String::from(["a", "B", "c-", "_d", "e.", "xmlns:f", "xmlns", "a1", "aa"][i]);
        let mut v = String::from(["", "1", " ", "&", "<", "u", "w", "'\"", "\n"][i]);
        if i + 1 == n {
            if i != 5 && i != 6 {
                k.push('x');
            }
            g::uni(&mut v);
        }
        m = m.at(&k, &v);
        attrs.insert(k, v);
    }
    let c = "a constructor refused valid content";
    let none = Option::<Vec<Box<dyn Node>>>::None;
    let e = match sym::choice(4) {
        0 => ok(Element::new_with_attributes("r", attrs), c),
        1 => {
            m = m.kid(M::T("t".to_string()));
            ok(Element::new_with_attributes_and_text("r", attrs, "t"), c)
        }
        2 => {
            m = m.kid(M::C("t".to_string()));
            ok(Element::new_with_attributes_and_children("r", attrs, vec![ok(Comment::new("t"), c).boxed()]), c)
        }
        _ => ok(Element::new("r", None, Some(attrs), None, None, none), c),
    };
    agree(&e, &m, &vec![], "constructor");
    let f = build(&m, 1);
    check!(e == f, "not equal to the element assembled by edits");
    check!(e.to_string() == f.to_string(), "serialized differently than the element assembled by edits");
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
/// the full constructor: declarations among the attributes, the namespace and prefix arguments, text and children together
fn full_ns(n: usize, light: bool) {
    let mut u = String::new();
    g::ascii(&mut u);
    let mut m = el("e");
    let mut attrs: HashMap<String, String> = HashMap::new();
    for (k, v) in [("xmlns", "d"), ("xmlns:p", "vp"), ("xmlns:q", u.as_str()), ("k", u.as_str())] {
        if sym::choice(2) == 1 {
            attrs.insert(k.to_string(), v.to_string());
            m.attrs.push((k.to_string(), v.to_string()));
        }
    }
    let prefix = [None, Some("p"), Some("q")][sym::choice(3)];
    let ns = match sym::choice(3) {
        0 => None,
        1 => Some("n".to_string()),
        _ => Some(u.clone()),
    };
    m.prefix = prefix.map(|x| x.to_string());
    if let Some(x) = &ns {
        let k = match prefix {
            None => "xmlns".to_string(),
            Some(p) => ["xmlns:", p].concat(),
        };
        m.attrs.retain(|a| a.0 != k);
        m.attrs.push((k, x.clone()));
    }
    let text = match sym::choice(if light { 2 } else { 3 }) {
        0 => None,
        1 if light => Some(" t\n".to_string()),
        1 => Some("t".to_string()),
        _ => {
            let mut t = String::new();
            g::ascii(&mut t);
            t.push('x');
            g::ascii(&mut t);
            Some(t)
        }
    };
    if let Some(t) = &text {
        m.kids.push(M::T(t.clone()));
    }
    let mut kids: Option<Vec<Box<dyn Node>>> = None;
    let k = sym::choice(n + 2);
    if k > 0 {
        let mut v = vec![];
        for _ in 1..k {
            let x = match sym::choice(if light { 2 } else { 4 }) {
                0 => el("a").kid(el("b").m()).m(),
                1 => {
                    let mut e = el("c");
                    e.prefix = Some("q".to_string());
                    e.m()
                }
                2 => M::C("c".to_string()),
                _ => M::T(" y ".to_string()),
            };
            v.push(build_node(&x, 0));
            m.kids.push(x);
        }
        kids = Some(v);
    }
    let e = ok(Element::new("e", text, Some(attrs), ns, m.prefix.clone(), kids), "a constructor refused valid content");
    agree(&e, &m, &vec![], "full constructor");
    check!(e.default_namespace().as_deref() == if m.prefix.is_some() { None } else { attr(&m.attrs, "xmlns").map(|x| x.as_str()) }, "default namespace of a new element");
    let s = Document::new_with_decl_dtd(e, None, None).to_string();
    let mut bound = m.prefix.is_none() || attr(&m.attrs, &["xmlns:", prefix.unwrap()].concat()).is_some();
    for x in &m.kids {
        if let M::E(y) = x {
            bound &= y.prefix.is_none() || attr(&m.attrs, "xmlns:q").is_some();
        }
    }
    if bound {
        let d = ok(kiss_xml::parse_str(s.as_str()), "the serialized element does not parse");
        agree(d.root_element(), &m, &vec![], "full constructor, after serializing and parsing");
    }
    sym::emit(s.as_bytes());
    sym::cover(1);
}
/// text with white space around it, before children
pub fn c23_both() {
    let mut t = String::new();
    for _ in 0..sym::choice(2) {
        g::uni(&mut t);
    }
    t.push('x');
    if sym::choice(2) == 1 {
        g::ascii(&mut t);
    }
    let mut m = el("e").kid(M::T(t.clone()));
    let mut kids = vec![];
    for _ in 0..sym::choice(3) {
        let (b, k) = kid();
        kids.push(b);
        m.kids.push(k);
    }
    let e = match sym::choice(2) {
        0 => ok(Element::new("e", Some(t), Option::<HashMap<String, String>>::None, None, None, Some(kids)), "a constructor refused valid content"),
        _ => {
            let mut e = ok(Element::new_with_text("e", t), "a constructor refused valid content");
            e.append_all(kids);
            e
        }
    };
    agree(&e, &m, &vec![], "constructor");
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
pub fn c23_ns() {
    full_ns(1, true)
}
pub fn c23_ns2() {
    full_ns(2, false)
}
