//! The properties at sizes far beyond the exhaustive bounds: one symbolic character (or index, or choice) in documents that are
//! deep, wide or long, so that a threshold in the code (a fixed capacity, a counter that wraps, a buffer boundary) is crossed.
use crate::h_ns::write;
use crate::m::*;
use crate::{g, sym};
use kiss_xml::dom::*;
use std::collections::HashMap;

type Map = HashMap<String, String>;
pub fn rep(s: &str, n: usize) -> String {
    let mut o = String::new();
    for _ in 0..n {
        o.push_str(s);
    }
    o
}
/// a name that is unique for `i` and sorted like `i`
fn num(p: &str, i: usize) -> String {
    let mut s = String::from(p);
    for d in [1000, 100, 10, 1] {
        s.push((b'0' + (i / d % 10) as u8) as char);
    }
    s
}
fn txt(s: &str) -> M {
    M::T(s.to_string())
}
const KINDS: usize = 13;
/// a document of size `n` with the text `hot` in one leaf
fn shape(kind: usize, n: usize, hot: &str) -> ME {
    let mut r = el("r");
    match kind {
        // deep
        0 => {
            let mut e = el("e").kid(txt(hot));
            for i in 1..n {
                e = el(["e", "f", "g"][i % 3]).kid(e.m());
            }
            r.kid(e.m())
        }
        // deep with siblings around
        1 => {
            let mut e = el("e").at("k", hot);
            for i in 1..n {
                let mut p = el("e");
                if i % 2 == 0 {
                    p = p.kid(M::C("c".to_string()));
                } else {
                    p = p.kid(txt("t"));
                }
                p = p.kid(e.m());
                if i % 3 == 0 {
                    p = p.kid(M::D("d".to_string()));
                }
                e = p;
            }
            r.kid(e.m())
        }
        // wide
        2 => {
            for i in 0..n {
                r.kids.push(el(&num("c", i)).m());
            }
            r.kid(el("h").at("k", hot).m())
        }
        3 => {
            // (appending cleans up the whole list each time)
            for i in 0..n.min(520) {
                r.kids.push(match i % 4 {
                    0 => txt(&num("t", i)),
                    1 => el("c").kid(txt("x")).m(),
                    2 => M::C(num("", i)),
                    _ => M::D(num("", i)),
                });
            }
            r.kids.insert(n.min(520) / 2, el("h").kid(txt(hot)).m());
            r
        }
        // attributes
        4 => {
            for i in 0..n {
                r = r.at(&num("a", i), &num("", i));
            }
            r.attrs[n - 1].1 = hot.to_string();
            r
        }
        // long contents
        5 => r.kid(txt(&[rep("x", n).as_str(), hot, "y"].concat())),
        6 => r.at("k", &[rep("x", n).as_str(), hot, "y"].concat()),
        7 => r.kid(M::C([rep("x", n).as_str(), hot, "y"].concat())).kid(el("e").m()),
        8 => r.kid(M::D([rep("x", n).as_str(), hot, "y"].concat())).kid(el("e").m()),
        9 => r.kid(txt(&[rep("\u{e9}\n", n / 2).as_str(), hot, "y"].concat())).kid(el("e").m()),
        // long names
        10 => {
            let name = rep("n", n);
            let mut e = el(&name).at(&rep("k", n), hot).at(&["xmlns:", &rep("p", n)].concat(), "u");
            e.prefix = Some(rep("p", n));
            r.kid(e.m())
        }
        // wide between others, below the root
        12 => {
            let mut w = el("w");
            for i in 0..n {
                w.kids.push(if i == n / 2 { el("h").at("k", hot).m() } else { el("c").m() });
            }
            r.kid(el("c").kid(txt("t")).m()).kid(w.m()).kid(M::C("c".to_string())).kid(el("c").kid(el("d").m()).m())
        }
        // many characters that are escaped
        // (escaping them is quadratic)
        _ => r.at("k", &rep("\"&", n.min(1100) / 2)).kid(txt(&[rep("<&", n.min(1100) / 2).as_str(), hot].concat())),
    }
}
/// kind and size by choice; the sizes of each kind are what one path can carry
fn pick(deep: &[usize], wide: &[usize], long: &[usize]) -> (usize, usize) {
    let k = sym::choice(KINDS);
    let s = match k {
        0 | 1 => deep,
        2 | 3 | 4 | 10 | 12 => wide,
        _ => long,
    };
    let n = s[sym::choice(s.len())];
    if n > 300 && matches!(k, 1 | 2 | 3 | 4 | 12) {
        // (maps of this size are not explored with colliding keys)
        sym::hash_mode(100);
    }
    (k, n)
}
/// one character of any kind that may stand in a comment or CDATA section, and is no white space
pub fn hot() -> String {
    let mut s = String::new();
    g::uni(&mut s);
    sym::assume(!blank(&s));
    s
}
/// the source text of a shape with one arbitrary raw ASCII character in it
fn source(kind: usize, n: usize) -> String {
    let mut s = String::new();
    write(&shape(kind, n, "\u{1}"), &mut s);
    let i = s.find('\u{1}').unwrap();
    let mut o = String::from(&s[..i]);
    g::ascii(&mut o);
    o.push_str(&s[i + 1..]);
    o
}

// ---------------------------------------------------------------- C01, C02
const PAT: [(&str, &str, &str, &str); 14] = [
    ("<!DOCTYPE r [", "<a ", ">", "]><r/>"),
    ("<r>", "<a>", "</a>", "</r>"),
    ("<r>", "&", ";", "</r>"),
    ("<r ", "a='1' ", " b=\"\"", "/>"),
    ("<r>", "x ", "\n", "</r>"),
    ("", "<!-- c -->", "\n", "<r/>"),
    ("<r/>", "<!-- c -->", " ", ""),
    ("<r>", "]]>", "-->", "</r>"),
    ("<r a='", "\"", ">", "'/>"),
    ("<r>", "</a>", "<a>", "</r>"),
    ("<r>", "<a/>", "t<!--c-->", "</r>"),
    ("<r>", "\u{e9}", "\u{1f600}", "</r>"),
    ("<!DOCTYPE r [", "<!E \"", "'>", "]><r/>"),
    ("<", "n", ":", "/>"),
];
fn survive(s: &str) {
    sym::note(s);
    match kiss_xml::parse_str(s) {
        Ok(d) => {
            sym::emit(d.to_string().as_bytes());
            sym::cover(1);
        }
        Err(e) => {
            sym::emit(e.to_string().as_bytes());
            sym::cover(2);
        }
    }
}
fn patterns(sizes: &[usize]) {
    let (a, b, c, d) = PAT[sym::choice(PAT.len())];
    let n = sizes[sym::choice(sizes.len())];
    let mut s = [a, &rep(b, n)].concat();
    g::ascii(&mut s);
    s.push_str(&rep(c, n));
    s.push_str(d);
    survive(&s)
}
pub fn c01_bigpat() {
    patterns(&[40, 300])
}
pub fn c01_big() {
    let (k, n) = pick(&[300], &[300], &[300, 4200]);
    survive(&source(k, n))
}
pub fn c02_big() {
    let (k, n) = pick(&[70, 140], &[130], &[300]);
    crate::h_parse::roundtrip(&source(k, n))
}
pub fn c02_big2() {
    let (k, n) = pick(&[260], &[300], &[2100])
    ;
    crate::h_parse::roundtrip(&source(k, n))
}

// ---------------------------------------------------------------- C03, C06
fn built(deep: &[usize], wide: &[usize], long: &[usize]) {
    let (k, n) = pick(deep, wide, long);
    let m = shape(k, n, &hot());
    let how = (k + n) % 4;
    let d = Document::new(build(&m, how));
    let s = if how % 2 == 0 { d.to_string() } else { d.to_string_with_indent("\t") };
    sym::emit(s.as_bytes());
    let p = ok(kiss_xml::parse_str(s.as_str()), "a serialized document does not parse");
    agree(d.root_element(), &m, &vec![], "built document");
    agree(p.root_element(), &m, &vec![], "after serializing and parsing");
    check!(d == p, "the parsed document is not equal to the one that was built");
    sym::cover(1);
}
pub fn c03_big() {
    built(&[70], &[130], &[300])
}
pub fn c03_big2() {
    built(&[140], &[300], &[4200])
}
fn mirrored(deep: &[usize], wide: &[usize], long: &[usize]) {
    let (k, n) = pick(deep, wide, long);
    let m = shape(k, n, &hot());
    let mut s = String::new();
    write(&m, &mut s);
    crate::h_mirror::mirror(&s, &m)
}
pub fn c06_big() {
    mirrored(&[70, 140], &[130], &[300])
}
pub fn c06_big2() {
    mirrored(&[300], &[300], &[4200])
}

// ---------------------------------------------------------------- C04, C05
pub fn c04_big() {
    let w = sym::choice(3);
    // (replacing is quadratic)
    let p = sym::choice(4);
    let n = [70, 260, 1030, 4100][sym::choice(if p == 0 { 4 } else { 3 })];
    let mut s = rep(["x", "&", "<\u{e9}", "'\""][p], n);
    g::uni(&mut s);
    s.push_str("&");
    crate::h_esc::one(w, &s)
}
pub fn c05_big() {
    let n = [70, 260, 1030][sym::choice(3)];
    let mut s = rep(["x", "&amp;", "&", "\u{e9};", "&#x41;", "&lt"][sym::choice(6)], n);
    s.push('&');
    s.push_str(["a", "l", "q", "#x4"][sym::choice(4)]);
    g::ascii(&mut s);
    s.push_str(["mp;", "t;", "uot;", ";"][sym::choice(4)]);
    crate::h_esc::dec(&s)
}

// ---------------------------------------------------------------- C07, C08
/// elements nested to a depth; one end tag has an arbitrary last character, is missing or is doubled
fn nest(sizes: &[usize]) {
    let n = sizes[sym::choice(sizes.len())];
    let at = [0, 1, n / 2, n - 2, n - 1][sym::choice(5)];
    let what = sym::choice(4);
    let mut s = String::from("<r>");
    for i in 0..n {
        s.push_str(["<a>", "<ab>", "<b k=''>"][i % 3]);
    }
    s.push_str("t");
    let mut good = true;
    for i in (0..n).rev() {
        let name = ["a", "ab", "b"][i % 3];
        let end = ["</", name, ">"].concat();
        if i == at {
            match what {
                0 => {
                    s.push_str(&end[..end.len() - 2]);
                    let c = g::ascii(&mut s);
                    sym::assume((c >= b'a') & (c <= b'z'));
                    good = name.ends_with(c as char);
                    s.push('>');
                }
                1 => good = false,
                2 => {
                    s.push_str(&end);
                    s.push_str(&end);
                    good = false;
                }
                _ => {
                    // a further child after the closed one, or an end tag that belongs to the parent
                    let mut x = String::new();
                    let c = g::ascii(&mut x);
                    sym::assume((c >= b'a') & (c <= b'z'));
                    s.push_str(&["<", &x, "/>", &end].concat());
                }
            }
        } else {
            s.push_str(&end);
        }
    }
    s.push_str("</r>");
    let r = kiss_xml::parse_str(s).is_ok();
    check!(r == good, if good { "a well-formed document was refused" } else { "a structurally malformed document was accepted" });
    sym::emit(&[r as u8]);
    sym::cover(if r { 1 } else { 2 });
}
pub fn c07_big() {
    nest(&[33, 70, 130])
}
pub fn c07_big2() {
    nest(&[260, 300])
}
/// many children, one of them not closed (or closed twice, or with another name)
pub fn c07_bigwide() {
    let n = [70, 260][sym::choice(2)];
    let at = [0, n / 2, n - 1][sym::choice(3)];
    let what = sym::choice(3);
    let mut s = String::from("<r>");
    let mut good = true;
    for i in 0..n {
        let name = ["a", "b"][i % 2];
        s.push_str(&["<", name, ">x</"].concat());
        if i == at && what == 0 {
            let c = g::ascii(&mut s);
            sym::assume((c >= b'a') & (c <= b'z'));
            good = name.as_bytes()[0] == c;
        } else {
            s.push_str(name);
        }
        s.push('>');
        if i == at && what == 1 {
            s.push_str("</a>");
            good = false;
        }
        if i == at && what == 2 {
            s.push_str("<c>");
            good = false;
        }
    }
    s.push_str("</r>");
    let r = kiss_xml::parse_str(s).is_ok();
    check!(r == good, if good { "a well-formed document was refused" } else { "a structurally malformed document was accepted" });
    sym::emit(&[r as u8]);
    sym::cover(if r { 1 } else { 2 });
}
/// a tag with many attributes, one of them with an arbitrary character in its place
pub fn c08_big() {
    let n = [33, 70, 140][sym::choice(3)];
    let at = [0, n / 2, n - 1][sym::choice(3)];
    let (a, b) = [("k", "='v'"), ("k=", "v'"), ("k='v", ""), ("k='v'", "l='w'"), ("", "k='v'"), ("k", "")][sym::choice(6)];
    let mut s = String::from(["<r", "<r><e"][sym::choice(2)]);
    let inner = s.ends_with('e');
    for i in 0..n {
        s.push(' ');
        if i == at {
            s.push_str(a);
            g::ascii(&mut s);
            s.push_str(b);
        } else {
            s.push_str(&num("a", i));
            s.push_str(["='1'", "=\"2\"", " = '>'"][i % 3]);
        }
    }
    s.push_str(if inner { "/></r>" } else { "/>" });
    crate::h_reject::judge(&s, true, true)
}
/// long names and values in a tag
pub fn c08_long() {
    let n = [33, 70, 260, 1030][sym::choice(4)];
    let mut s = String::from("<r><");
    match sym::choice(4) {
        0 => {
            s.push_str(&rep("n", n));
            g::ascii(&mut s);
            s.push_str("x");
        }
        1 => {
            s.push_str("e ");
            s.push_str(&rep("n", n));
            g::ascii(&mut s);
            s.push_str("='1'");
        }
        2 => {
            s.push_str("e k='");
            s.push_str(&rep("n>", n));
            g::ascii(&mut s);
            s.push_str("'");
        }
        _ => {
            s.push_str("e k='1'");
            s.push_str(&rep(" ", n));
            g::ascii(&mut s);
            s.push_str("='2'");
        }
    }
    s.push_str("/></r>");
    crate::h_reject::judge(&s, true, true)
}

// ---------------------------------------------------------------- C09, C10
fn attributes(sizes: &[usize]) {
    sym::hash_mode(sym::choice(3) as u64);
    let n = sizes[sym::choice(sizes.len())];
    let mut at: Vec<(String, String)> = (0..n).map(|i| (num("a", i), num("", i))).collect();
    let mut k = String::from(["a00", "xmlns"][sym::choice(2)]);
    g::one_of(&mut k, "1:bA");
    k.push('b');
    at.push((k, "s".to_string()));
    let mut e = ok(Element::new_with_attributes("e", at.iter().cloned().collect::<Map>()), "constructor");
    let f = ok(Element::new_with_attributes("e", at.iter().rev().cloned().collect::<Map>()), "constructor");
    let (s, t) = (e.to_string(), f.to_string());
    // (a repeated name: the value that was given last)
    let mut want = crate::h_build::start_tag("e", &at);
    want.push_str("/>");
    check!(s == want, "attributes are not in the documented order");
    if at.iter().all(|a| a.0 != at[n].0 || a.1 == "s") {
        check!(s == t, "the order of insertion shows in the serialized text");
    }
    if n < 100 {
        let p = ok(kiss_xml::parse_str(s.as_str()), "does not parse");
        check!(p.root_element().to_string() == s, "serialized differently after parsing");
    }
    for i in 0..n / 2 {
        e.remove_attr(num("a", i * 2));
    }
    let left: Vec<(String, String)> = at.iter().filter(|a| !(0..n / 2).any(|i| a.0 == num("a", i * 2))).cloned().collect();
    let mut want = crate::h_build::start_tag("e", &left);
    want.push_str("/>");
    check!(e.to_string() == want, "attributes are not in the documented order after removals");
    sym::emit(s.as_bytes());
    sym::cover(1);
}
pub fn c09_big() {
    attributes(&[33, 66])
}
pub fn c09_big2() {
    attributes(&[130, 260])
}
/// indents of any number of spaces, deep and wide trees
pub fn c10_big() {
    let mut h = String::from("t");
    g::ascii(&mut h);
    match sym::choice(3) {
        0 => {
            let m = el("r").kid(el("a").kid(el("b").kid(M::C("c".to_string())).kid(el("d").at("k", &h).m()).m()).m()).kid(el("t").kid(M::T(h)).kid(el("u").m()).m());
            crate::h_build::layout(&m, 0, &rep(" ", sym::choice(41)))
        }
        1 => {
            let n = [20, 40, 70][sym::choice(3)];
            crate::h_build::layout(&shape(sym::choice(2), n, &h), 0, ["\t", "  "][sym::choice(2)])
        }
        _ => {
            let (k, n) = (2 + sym::choice(KINDS - 2), [40, 130][sym::choice(2)]);
            crate::h_build::layout(&shape(k, n, &h), 0, "\t")
        }
    }
}
pub fn c10_big2() {
    let (k, n) = pick(&[140], &[300], &[1100]);
    crate::h_build::layout(&shape(k, n, &hot()), 0, ["\t", " "][sym::choice(2)])
}

// ---------------------------------------------------------------- C11, C12, C13
fn list(n: usize) -> Vec<M> {
    (0..n)
        .map(|i| match i % 4 {
            0 => el(&num("e", i)).m(),
            1 => txt(&num("t", i)),
            2 => M::C(num("c", i)),
            _ => M::D(num("d", i)),
        })
        .collect()
}
/// one edit at any place of a long child list
fn edit(sizes: &[usize]) {
    let n = sizes[sym::choice(sizes.len())];
    let mut k = list(n);
    let mut e = build(&ME { prefix: None, name: "r".to_string(), attrs: vec![], kids: k.clone() }, 2);
    let i = sym::var(64) as usize;
    match sym::choice(7) {
        0 => {
            let m = [txt("new"), el("new").m()][sym::choice(2)].clone();
            let r = crate::h_edit::put(&mut e, i, &m).is_ok();
            check!(r == (i <= n), "insert succeeds exactly for indexes up to the length");
            if r {
                k.insert(i, m);
            }
        }
        1 => {
            let r = e.remove(i);
            check!(r.is_ok() == (i < n), "remove succeeds exactly for indexes below the length");
            if let Ok(x) = r {
                agree_node(&x, &k.remove(i), &vec![], "removed node");
            }
        }
        2 => {
            let at: Vec<usize> = (0..n).filter(|j| j % 4 == 0).collect();
            let r = e.remove_element(i);
            check!(r.is_ok() == (i < at.len()), "remove_element succeeds exactly for the elements there are");
            if let Ok(x) = r {
                check!(x.name() == num("e", at[i]), "another element was removed");
                k.remove(at[i]);
            }
        }
        3 => {
            let more: Vec<M> = (0..n).map(|j| if j % 2 == 0 { el(&num("f", j)).m() } else { M::C(num("", j)) }).collect();
            e.append_all(more.iter().map(|m| build_node(m, 0)).collect());
            k.extend(more);
        }
        4 => {
            for j in 0..40 {
                // text nodes one after the other merge
                e.append(Text::new(num(" ", j)));
                k.push(M::T(num(" ", j)));
            }
        }
        5 => {
            // removed one by one, from the front or from the back
            let front = sym::choice(2) == 0;
            for _ in 0..n / 2 {
                let l = normalize(&k).len();
                let j = if front { 0 } else { l - 1 };
                check!(e.remove(j).is_ok(), "remove at a valid index failed");
                k = normalize(&k);
                k.remove(j);
            }
        }
        _ => {
            e.clear_children();
            k.clear();
            e.append(Text::new("x"));
            k.push(txt("x"));
        }
    }
    agree(&e, &ME { prefix: None, name: "r".to_string(), attrs: vec![], kids: k }, &vec![], "child list");
    sym::cover(1);
}
pub fn c11_big() {
    edit(&[20, 40])
}
pub fn c11_big2() {
    edit(&[70, 130, 260])
}
/// a large tree; two of its elements have a symbolic name
fn forest(sizes: &[usize], deep: &[usize]) -> ME {
    let nm = || {
        let mut s = String::new();
        g::one_of(&mut s, "ab");
        s
    };
    let (x, y) = (nm(), nm());
    match sym::choice(4) {
        3 => {
            // wide between others, below the root
            let n = sizes[sym::choice(sizes.len())] / 2;
            let mut w = el(&y);
            for i in 0..n {
                w.kids.push(el(if i == n / 2 { &x } else { ["c", "a", "b"][i % 3] }).m());
            }
            el("r").kid(el("c").kid(el("a").m()).m()).kid(w.m()).kid(txt("t")).kid(el("b").kid(el("a").kid(txt("u")).m()).m())
        }
        0 => {
            let n = sizes[sym::choice(sizes.len())];
            let mut r = el("r");
            for i in 0..n {
                let e = el(if i == n / 3 {
                    &x
                } else if i == n - 1 {
                    &y
                } else {
                    ["a", "b", "c"][i % 3]
                });
                r.kids.push(if i % 2 == 0 { e.m() } else { e.kid(txt("t")).m() });
                if i % 5 == 0 {
                    r.kids.push(M::C("c".to_string()));
                }
            }
            r
        }
        1 => {
            let n = deep[sym::choice(deep.len())];
            let mut e = el(&x);
            for i in 0..n {
                e = el(if i == n / 2 { &y } else { ["a", "b", "c"][i % 3] }).kid(e.m());
                if i % 7 == 0 {
                    e = e.kid(txt("t")).kid(el("b").m());
                }
            }
            el("r").kid(e.m())
        }
        _ => {
            // wide below wide
            let n = sizes[sym::choice(sizes.len())] / 8;
            let mut r = el("r");
            for i in 0..n {
                let mut e = el(if i == n - 1 { &x } else { "c" });
                for j in 0..7 {
                    e.kids.push(el(if j == 6 && i == n / 2 { &y } else { ["c", "a", "b"][j % 3] }).m());
                }
                r.kids.push(e.m());
            }
            r
        }
    }
}
fn name_is(m: &M, n: &str) -> bool {
    matches!(m, M::E(e) if e.name == n)
}
fn removed(sizes: &[usize], deep: &[usize]) {
    let mut m = forest(sizes, deep);
    let mut e = build(&m, 2);
    let n = ["a", "b"][sym::choice(2)];
    let (got, want) = match sym::choice(5) {
        0 => (e.remove_elements_by_name(n), crate::h_edit::cut(&mut m, &|k| name_is(k, n), false)),
        1 => (e.remove_elements(|x| x.name() == n), crate::h_edit::cut(&mut m, &|k| name_is(k, n), false)),
        2 => (e.remove_all_elements(|x| x.name() == n), crate::h_edit::cut(&mut m, &|k| name_is(k, n), true)),
        3 => (e.remove_by(&|x| x.is_comment() || x.as_element().map(|x| x.name() == n).unwrap_or(false)), crate::h_edit::cut(&mut m, &|k| matches!(k, M::C(_)) || name_is(k, n), false)),
        _ => (e.remove_all(&|x| x.is_text() || x.as_element().map(|x| x.name() == n).unwrap_or(false)), crate::h_edit::cut(&mut m, &|k| matches!(k, M::T(_)) || name_is(k, n), true)),
    };
    check!(got == want, "the number of removed nodes is wrong");
    agree(&e, &m, &vec![], "after a removal");
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
pub fn c12_big() {
    removed(&[40, 130], &[40])
}
pub fn c12_big2() {
    removed(&[300], &[140])
}
fn ptr<T>(x: &T) -> usize {
    x as *const T as *const u8 as usize
}
fn inner(b: &Box<dyn Node>) -> usize {
    (&**b) as *const dyn Node as *const u8 as usize
}
fn same_nodes(mut got: Vec<usize>, mut want: Vec<usize>) {
    check!(got.len() == want.len(), "the number of nodes found is not that of the matching nodes");
    got.sort_unstable();
    want.sort_unstable();
    check!(got == want, "the nodes found are not the matching nodes, each once");
}
fn found(sizes: &[usize], deep: &[usize]) {
    let m = forest(sizes, deep);
    let mut e = build(&m, 2);
    let n = ["a", "b"][sym::choice(2)];
    let mut all: Vec<&Box<dyn Node>> = vec![];
    let mut todo: Vec<&Element> = vec![&e];
    while let Some(x) = todo.pop() {
        for c in x.children() {
            all.push(c);
            if let Ok(y) = c.as_element() {
                todo.push(y);
            }
        }
    }
    let named = |b: &Box<dyn Node>| b.as_element().map(|x| x.name() == n).unwrap_or(false);
    let pick = |f: &dyn Fn(&Box<dyn Node>) -> bool| -> Vec<usize> { all.iter().filter(|b| f(b)).map(|b| inner(b)).collect() };
    let w = sym::choice(7);
    match w {
        0 => same_nodes(e.children_recursive().map(inner).collect(), pick(&|_| true)),
        1 => same_nodes(e.search(|b| named(b) || b.is_comment()).map(inner).collect(), pick(&|b| named(b) || b.is_comment())),
        2 => same_nodes(e.search_elements(|x| x.name() == n).map(ptr).collect(), pick(&named)),
        3 => same_nodes(e.search_elements_by_name(n).map(ptr).collect(), pick(&named)),
        4 => same_nodes(e.search_text(|_| true).map(ptr).collect(), pick(&|b| b.is_text())),
        5 => same_nodes(e.search_comments(|_| true).map(ptr).collect(), pick(&|b| b.is_comment())),
        _ => {
            let kids: Vec<usize> = e.children().filter(|b| named(b)).map(inner).collect();
            check!(e.elements_by_name(n).map(ptr).collect::<Vec<_>>() == kids, "elements_by_name");
            let els: Vec<usize> = e.children().filter(|b| b.is_element()).map(inner).collect();
            check!(e.child_elements().map(ptr).collect::<Vec<_>>() == els, "child_elements");
            check!(e.first_element_by_name(n).map(ptr).ok() == kids.first().copied(), "first_element_by_name");
            check!(e.elements_by_name_mut(n).map(|x| ptr(x)).collect::<Vec<_>>() == kids, "elements_by_name_mut");
            check!(e.child_elements_mut().map(|x| ptr(x)).collect::<Vec<_>>() == els, "child_elements_mut");
        }
    }
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}
pub fn c13_big() {
    found(&[40, 130], &[40])
}
pub fn c13_big2() {
    found(&[300], &[140])
}

// ---------------------------------------------------------------- C14
fn uri(set: &str) -> String {
    let mut s = String::from("u");
    g::one_of(&mut s, set);
    s
}
/// deep nesting with declarations at several levels; many declarations on one element; many children with their own
fn scopes(n: usize) -> ME {
    let (u, v) = (uri("xy"), uri("xy"));
    let pre = |mut e: ME, p: &str| {
        e.prefix = Some(p.to_string());
        e
    };
    match sym::choice(3) {
        0 => {
            let at = [0, n / 2, n - 2][sym::choice(3)];
            let which = ["xmlns", "xmlns:p"][sym::choice(2)];
            let mut e = pre(el("l"), "p").kid(el("m").m());
            for i in (0..n).rev() {
                let mut x = el("d");
                if i == at {
                    x = x.at(which, &v);
                }
                if i % 3 == 1 {
                    x = pre(x, "p");
                }
                e = x.kid(e.m());
            }
            el("r").at("xmlns:p", &u).at("xmlns", "d").kid(e.m())
        }
        1 => {
            let mut r = el("r");
            for i in 0..n {
                r = r.at(&num("xmlns:p", i), &num("u", i));
            }
            r.attrs[n / 2].1 = u;
            let k = [0, n / 2, n - 1][sym::choice(3)];
            r.kid(pre(el("a"), &num("p", k)).kid(pre(el("b"), &num("p", n / 2)).at(&num("xmlns:p", k), &v).m()).m()).kid(pre(el("c"), &num("p", k)).m())
        }
        _ => {
            let mut r = el("r").at("xmlns:p", &u).at("xmlns", "d");
            for i in 0..n {
                let x = match i % 4 {
                    0 => el("a"),
                    1 => pre(el("b"), "p"),
                    2 => pre(el("c"), "p").at("xmlns:p", &num("u", i)),
                    _ => el("d").at("xmlns", &v),
                };
                r.kids.push(x.kid(el("i").m()).m());
            }
            r
        }
    }
}
fn scoped(n: usize) {
    let m = scopes(n);
    match sym::choice(2) {
        0 => {
            let mut s = String::new();
            write(&m, &mut s);
            let d = ok(kiss_xml::parse_str(s), "a document with declared prefixes was refused");
            agree(d.root_element(), &m, &vec![], "parsed");
        }
        _ => {
            let e = build(&m, 2);
            agree(&e, &m, &vec![], "built");
            sym::emit(e.to_string().as_bytes());
        }
    }
    sym::cover(1);
}
pub fn c14_big() {
    scoped([20, 40, 70][sym::choice(3)])
}
pub fn c14_big2() {
    scoped([130, 260][sym::choice(2)])
}
/// an element's own declarations are listed, whatever way they were made
pub fn c14_listing() {
    let mut m = el("e");
    let n = sym::choice(4);
    for i in 0..n {
        let mut p = String::from("xmlns:");
        g::one_of(&mut p, "pqr");
        m.attrs.push((p, uri("xy")));
        if i == 1 {
            m.attrs.push(("k".to_string(), "v".to_string()));
        }
    }
    let def = sym::choice(3);
    if def == 1 {
        m.attrs.push(("xmlns".to_string(), uri("xy")));
    }
    let mut top = el("r").at("xmlns:z", "w");
    if def == 2 {
        top = top.at("xmlns", "t");
    }
    let whole = top.kid(m.clone().m());
    let mut want: Vec<(String, String)> = vec![];
    for (k, v) in &m.attrs {
        if let Some(p) = k.strip_prefix("xmlns:") {
            want.retain(|x| x.0 != p);
            want.push((p.to_string(), v.clone()));
        }
    }
    let judge = |e: &Element| {
        let got = e.namespace_prefixes();
        let len = got.as_ref().map(|x| x.len()).unwrap_or(0);
        check!(len == want.len(), "the declared prefixes listed are not those declared on the element");
        for (p, u) in &want {
            check!(got.as_ref().and_then(|x| x.get(p)) == Some(u), "a declared prefix is not listed with its namespace");
        }
        let d = attr(&m.attrs, "xmlns").cloned();
        if def < 2 {
            check!(e.default_namespace() == d, "the default namespace of the element");
        }
    };
    match sym::choice(3) {
        0 => judge(&build(&m, 2)),
        1 => {
            let e = build(&whole, sym::choice(2));
            match e.child_elements().next() {
                Some(x) => judge(x),
                None => sym::fail("child is missing"),
            };
        }
        _ => {
            // (a repeated attribute in a source text is none of this property)
            sym::assume(m.attrs.iter().enumerate().all(|(i, a)| m.attrs[..i].iter().all(|b| a.0 != b.0)));
            let mut s = String::new();
            write(&whole, &mut s);
            let d = ok(kiss_xml::parse_str(s), "a document with declared prefixes was refused");
            match d.root_element().child_elements().next() {
                Some(x) => judge(x),
                None => sym::fail("child is missing"),
            };
        }
    }
    sym::emit(&[want.len() as u8]);
    sym::cover(1);
}

// ---------------------------------------------------------------- C15
pub fn c15_big() {
    let n = [63, 64, 130, 255, 300][sym::choice(5)];
    let at = [1, n / 2, n][sym::choice(3)];
    let mut s = String::from("n");
    for i in 1..=n {
        if i == at {
            if sym::choice(2) == 0 {
                g::ascii(&mut s);
            } else {
                g::uni_len(&mut s, 2 + sym::choice(2));
            }
        } else {
            s.push('x');
        }
    }
    crate::h_attr::name_routes(&s)
}
pub fn c15_bigcontent() {
    let n = [70, 260, 1030, 4100][sym::choice(4)];
    let which = sym::choice(2);
    let mut s = rep(["x", "--", "]]", "-->>"][sym::choice(3)], n);
    if which == 0 && s.starts_with('-') {
        s.insert(0, 'a');
    }
    g::ascii(&mut s);
    g::ascii(&mut s);
    s.push_str([">", "->", "]>", "x"][sym::choice(4)]);
    crate::h_attr::content(&s, crate::h_attr::terminator(which), which)
}

// ---------------------------------------------------------------- C16
/// large trees that differ in at most one place
fn pair(deep: &[usize], wide: &[usize], long: &[usize]) {
    let (k, n) = pick(deep, wide, long);
    let (x, y) = (uri("ab"), uri("ab"));
    let (a, b) = (build(&shape(k, n, &x), 2), build(&shape(k, n, &y), (k + n) % 2));
    crate::h_eq::judge(&a, &b, x == y);
    let c = a.clone();
    check!(c == a, "a clone differs from the original");
    agree(&c, &shape(k, n, &x), &vec![], "clone");
    drop(a);
    agree(&c, &shape(k, n, &x), &vec![], "clone");
}
pub fn c16_big() {
    pair(&[40, 70], &[70], &[260])
}
pub fn c16_big2() {
    pair(&[140], &[130, 300], &[1100])
}
/// the free functions on boxed nodes
pub fn c16_boxed() {
    let s = |w: usize| {
        let mut x = String::from("a");
        g::one_of(&mut x, "bc");
        match w {
            0 => txt(&x),
            1 => M::C(x),
            2 => M::D(x),
            3 => el(&x).at("k", "v").m(),
            4 => el("e").at("k", &x).m(),
            5 => el("e").kid(el("f").kid(txt(&x)).m()).m(),
            _ => el("e").at("xmlns", &x).kid(el("g").m()).m(),
        }
    };
    let (a, b) = (s(sym::choice(7)), s(sym::choice(7)));
    let (x, y) = (build_node(&a, 0), build_node(&b, 1));
    let none: Scope = vec![];
    let want = crate::h_eq::neq(&a, &none, &b, &none);
    check!(node_eq(&x, &y) == want, if want { "equal nodes do not compare equal" } else { "different nodes compare equal" });
    check!(node_eq(&y, &x) == want, "equality is not symmetric");
    check!(node_eq(&x, &x), "equality is not reflexive");
    let mut c = clone_node(&x);
    check!(node_eq(&x, &c), "a clone differs from the original");
    agree_node(&c, &a, &none, "clone");
    let other = inner(&c) != inner(&x);
    check!(other, "a clone is the original");
    // an edit of the clone does not reach the original
    match &a {
        M::T(_) => ok(c.as_text_mut(), "as_text_mut").content.push('!'),
        M::C(_) => ok(ok(c.as_comment_mut(), "as_comment_mut").set_content("!"), "set_content"),
        M::D(_) => ok(ok(c.as_cdata_mut(), "as_cdata_mut").set_text("!"), "set_text"),
        M::E(_) => {
            let e = ok(c.as_element_mut(), "as_element_mut");
            match sym::choice(3) {
                0 => ok(e.set_attr("n", "w"), "set_attr"),
                1 => e.append(Text::new("t")),
                _ => e.set_text("!"),
            }
        }
    }
    check!(!node_eq(&x, &c), "an edit was not made, or reached the original");
    agree_node(&x, &a, &none, "original");
    sym::emit(x.to_string().as_bytes());
    sym::cover(if want { 1 } else { 2 });
}

// ---------------------------------------------------------------- C18
pub fn c18_big() {
    let n = [33, 70, 130][sym::choice(3)];
    let hot_at = [0, n / 2, n - 1][sym::choice(3)];
    let mut s = String::from("<r");
    let mut m: Vec<(String, String)> = vec![];
    for i in 0..n {
        let mut v = num("v>", i);
        let k = num("a", i);
        let q = ["'", "\""][(i % 3) / 2];
        if i == hot_at {
            let c = g::ascii(&mut v);
            sym::assume((c != b'&') & (c != b'<') & (c != q.as_bytes()[0]));
        }
        s.push_str([" ", "\n", "  \t"][i % 3]);
        s.push_str(&[&k, ["=", " = "][i % 2], q, &v, q].concat());
        m.push((k, v));
    }
    s.push_str("/>");
    sym::note(&s);
    let mut d = ok(kiss_xml::parse_str(s), "a well-formed tag was refused");
    crate::h_attr::same_map(d.root_element(), &m);
    let e = d.root_element_mut();
    let gone = m.remove(hot_at);
    check!(e.remove_attr(gone.0.as_str()) == Some(gone.1), "remove_attr does not return the old value");
    ok(e.set_attr("new", "x"), "set_attr");
    m.push(("new".to_string(), "x".to_string()));
    crate::h_attr::same_map(e, &m);
    e.clear_attributes();
    crate::h_attr::same_map(e, &vec![]);
    sym::cover(1);
}
pub fn c18_biglong() {
    let n = [70, 260, 1030, 4100][sym::choice(4)];
    let mut v = rep(["x", "\u{e9}", "a=\"b ", "> "][sym::choice(4)], n);
    let c = g::ascii(&mut v);
    sym::assume((c != b'&') & (c != b'<') & (c != b'\''));
    let k = rep("k", n % 300);
    let s = ["<r a=\"1\" ", &k, "='", &v, "' z='2'/>"].concat();
    let d = ok(kiss_xml::parse_str(s), "a well-formed tag was refused");
    crate::h_attr::same_map(d.root_element(), &vec![("a".to_string(), "1".to_string()), (k, v), ("z".to_string(), "2".to_string())]);
    sym::cover(1);
}

// ---------------------------------------------------------------- C19
pub fn c19_big() {
    let n = [20, 70, 140][sym::choice(3)];
    let mut s = String::new();
    let root = "<r/>";
    let mut x = String::new();
    g::ascii(&mut x);
    match sym::choice(5) {
        0 => {
            s.push_str("<?xml version='1.0'?>");
            for i in 0..n {
                s.push_str(&num("<!DOCTYPE r", i));
                if i == n - 1 || i == 1 {
                    s.push_str(&x);
                }
                s.push_str(">\n");
            }
        }
        1 => s.push_str(&["<?xml version='1.0' ", &rep("x", n * 8), &x, "?>"].concat()),
        2 => s.push_str(&["<!DOCTYPE r [\n", &rep("<!ENTITY a \"b>\">\n", n), &x, "]>"].concat()),
        3 => s.push_str(&["<!DOCTYPE r [", &rep("<a ", n), &x, &rep(">", n), "]>"].concat()),
        _ => s.push_str(&["<!DOCTYPE r '", &rep("\"> ", n), &x, "'>"].concat()),
    }
    s.push_str(root);
    crate::h_prolog::compare(&s, root)
}

// ---------------------------------------------------------------- C20
pub fn c20_big() {
    let (k, n) = pick(&[40, 70], &[130, 300], &[300, 2100]);
    let h = hot();
    let m = shape(k, n, &h);
    let e = build(&m, 2);
    let want = crate::h_kind::elem_text(&m);
    check!(e.text() == want, "the text of an element is not the concatenation of the text nodes below it");
    let p = ok(kiss_xml::parse_str(e.to_string()), "does not parse");
    check!(p.root_element().text() == want, "the text of a parsed element");
    sym::emit(want.as_bytes());
    sym::cover(1);
}
pub fn c20_display() {
    const W: [(&str, usize); 4] = [("Element", 0), ("Text", 1), ("Comment", 2), ("CDATA", 3)];
    let mut t = String::from("x");
    g::ascii(&mut t);
    let k = sym::choice(4);
    let m = match k {
        0 => el("e").at("k", &t).kid(txt(&t)).m(),
        1 => M::T(t),
        2 => {
            sym::assume(!t.ends_with('-'));
            M::C(t)
        }
        _ => M::D(t),
    };
    let b = build_node(&m, 0);
    let ty = b.node_type();
    let a = ty.to_string();
    let kind: DomNodeType = DomNodeType::from(clone_node(&b));
    check!(kind == ty, "the kind of a boxed node");
    check!(kind.to_string() == a, "the same kind is displayed differently");
    for (i, w) in W.iter().enumerate() {
        if i == k {
            check!(a.starts_with(w.0), "the name of a kind");
        }
    }
    sym::emit(a.as_bytes());
    sym::cover(1);
}

// ---------------------------------------------------------------- C22
/// the line of an error far down in a document
pub fn c22_big() {
    let n = [126, 254, 1022][sym::choice(3)];
    let mut s = String::from("<r>");
    let kind = sym::choice(4);
    match kind {
        0 => s.push_str(&rep("x\n", n)),
        1 => s.push_str(&rep("\n", n)),
        2 => s.push_str(&["<!--", &rep("\u{e9}\r\n", n), "-->"].concat()),
        _ => s.push_str(&["<a k='", &rep("\n", n), "'/>"].concat()),
    }
    for _ in 0..2 {
        g::one_of(&mut s, "\n x");
    }
    let mut line = 1;
    for c in s.bytes() {
        line += (c == b'\n') as usize;
    }
    s.push_str(["<a b/></r>", "</s>", "<!X></r>", "<a b='/></r>"][sym::choice(4)]);
    match kiss_xml::parse_str(s) {
        Ok(_) => sym::fail("malformed text accepted"),
        Err(e) => {
            let t = e.to_string();
            if let Some(k) = crate::h_misc::number_after(&t, "on line ") {
                check!(k == line, "the line in the message is not that of the offending construct");
                check!(crate::h_misc::number_after(&t, "column ").is_some(), "no column in the message");
                sym::cover(1);
            }
            sym::emit(t.as_bytes());
        }
    }
}
/// index errors on long lists
pub fn c22_bigindex() {
    let n = [40, 130, 260][sym::choice(3)];
    let mut e = build(&ME { prefix: None, name: "r".to_string(), attrs: vec![], kids: list(n) }, 2);
    let i = sym::var(64) as usize;
    sym::assume(i > n);
    let (r, b) = match sym::choice(3) {
        0 => (e.remove(i).map(|_| ()), n),
        1 => (e.insert(i, Comment::from("x")), n),
        _ => (e.remove_element(i).map(|_| ()), (n + 3) / 4),
    };
    match r {
        Ok(_) => sym::fail("an index past the end was accepted"),
        Err(x) => check!(x.index == i as isize && x.bounds == Some((0, b as isize)), "the index or the bounds of the error"),
    }
    sym::cover(1);
}
/// long messages are kept whole
pub fn c22_bigtext() {
    use kiss_xml::errors::*;
    let n = [70, 260, 1030, 4100][sym::choice(4)];
    let mut s = rep(["x", "\u{e9}", " "][sym::choice(3)], n);
    g::uni(&mut s);
    let k = sym::choice(6);
    let e: KissXmlError = match k {
        0 => ParsingError::new(s.as_str()).into(),
        1 => TypeCastError::new(s.as_str()).into(),
        2 => DoesNotExistError::new(s.as_str()).into(),
        3 => InvalidAttributeName::new(s.as_str()).into(),
        4 => InvalidElementName::new(s.as_str()).into(),
        _ => NotSupportedError::new(s.as_str()).into(),
    };
    let t = e.to_string();
    check!(t.ends_with(s.as_str()), "the message is not displayed whole");
    sym::emit(t.as_bytes());
    sym::cover(1);
}

// ---------------------------------------------------------------- C23
pub fn c23_big() {
    let n = [33, 70, 130][sym::choice(3)];
    let mut m = el("r");
    for i in 0..n {
        m = m.at(&num("a", i), &num("", i));
    }
    let h = hot();
    m.attrs[n / 2].1 = h.clone();
    m.kids = list(n);
    let attrs: Map = m.attrs.iter().cloned().collect();
    let kids: Vec<Box<dyn Node>> = m.kids.iter().map(|k| build_node(k, 0)).collect();
    let c = "a constructor refused valid content";
    let long = rep("t ", n).trim().to_string() + &h;
    let e = match sym::choice(6) {
        0 => ok(Element::new_with_attributes_and_children("r", attrs, kids), c),
        1 => {
            m.kids.clear();
            ok(Element::new_with_attributes("r", attrs), c)
        }
        2 => {
            m.attrs.clear();
            ok(Element::new_with_children("r", kids), c)
        }
        3 => {
            m.kids.insert(0, M::T(long.clone()));
            ok(Element::new("r", Some(long), Some(attrs), None, None, Some(kids)), c)
        }
        4 => {
            m.kids = vec![M::T(long.clone())];
            ok(Element::new_with_attributes_and_text("r", attrs, long), c)
        }
        _ => {
            let u = rep("u", n);
            let p = rep("p", n);
            m.name = rep("n", n);
            m.prefix = Some(p.clone());
            let e = ok(Element::new(m.name.as_str(), None, Some(attrs), Some(u.clone()), Some(p.clone()), Some(kids)), c);
            m.attrs.push((["xmlns:", &p].concat(), u));
            e
        }
    };
    agree(&e, &m, &vec![], "constructor");
    let f = build(&m, 1);
    check!(e == f, "not equal to the element assembled by edits");
    sym::emit(e.to_string().as_bytes());
    sym::cover(1);
}

// ---------------------------------------------------------------- larger still
pub fn c01_huge() {
    let (k, n) = pick(&[400], &[1100], &[17000]);
    survive(&source(k, n))
}
pub fn c02_huge() {
    let (k, n) = pick(&[300], &[1100], &[17000]);
    crate::h_parse::roundtrip(&source(k, n))
}
pub fn c03_huge() {
    built(&[300], &[1100], &[17000])
}
pub fn c06_huge() {
    mirrored(&[400], &[1100], &[17000])
}
pub fn c10_huge() {
    let (k, n) = pick(&[300], &[1100], &[17000]);
    crate::h_build::layout(&shape(k, n, &hot()), 0, "\t")
}
pub fn c20_huge() {
    let (k, n) = pick(&[300], &[1100], &[17000]);
    let m = shape(k, n, &hot());
    let e = build(&m, 2);
    check!(e.text() == crate::h_kind::elem_text(&m), "the text of an element is not the concatenation of the text nodes below it");
    sym::cover(1);
}
