//! C20: kinds, casts and the text of nodes.
use crate::gen::Gen;
use crate::m::*;
use crate::{g, sym};
use kiss_xml::dom::*;

fn addr<T: ?Sized>(x: &T) -> usize {
    x as *const T as *const u8 as usize
}
const KINDS: [(DomNodeType, &str); 4] = [(DomNodeType::ElementNode, "Element"), (DomNodeType::TextNode, "Text"), (DomNodeType::CommentNode, "Comment"), (DomNodeType::CDataNode, "CDATA")];
/// the node is of exactly kind `k` (0 element, 1 text, 2 comment, 3 CDATA), whoever asks and how
fn is_kind(n: &dyn Node, k: usize) {
    check!(n.is_element() == (k == 0), "is_element");
    check!(n.is_text() == (k == 1), "is_text");
    check!(n.is_comment() == (k == 2), "is_comment");
    check!(n.is_cdata() == (k == 3), "is_cdata");
    let t = n.node_type();
    check!(t == KINDS[k].0, "node_type differs from the kind");
    check!(t.to_string() == KINDS[k].1, "name of the node type");
    check!(n.as_element().is_ok() == (k == 0), "as_element");
    check!(n.as_text().is_ok() == (k == 1), "as_text");
    check!(n.as_comment().is_ok() == (k == 2), "as_comment");
    check!(n.as_cdata().is_ok() == (k == 3), "as_cdata");
    let a = n.as_any();
    check!(a.is::<Element>() == (k == 0) && a.is::<Text>() == (k == 1) && a.is::<Comment>() == (k == 2) && a.is::<CData>() == (k == 3), "as_any");
    // a cast yields the node itself
    let p = addr(n);
    if let Ok(x) = n.as_element() {
        check!(addr(x) == p, "a cast yields another node");
    }
    if let Ok(x) = n.as_text() {
        check!(addr(x) == p, "a cast yields another node");
        check!(x.content == n.text(), "the text of a text node is not its content");
    }
    if let Ok(x) = n.as_comment() {
        check!(addr(x) == p, "a cast yields another node");
        check!(x.get_content() == n.text(), "the text of a comment is not its content");
    }
    if let Ok(x) = n.as_cdata() {
        check!(addr(x) == p, "a cast yields another node");
        check!(x.get_content() == n.text(), "the text of a CDATA section is not its content");
    }
    check!(addr(n.as_node()) == p && n.as_node().node_type() == t, "as_node");
}
fn is_kind_mut(n: &mut dyn Node, k: usize) {
    let p = addr(n);
    check!(n.as_element_mut().is_ok() == (k == 0), "as_element_mut");
    check!(n.as_text_mut().is_ok() == (k == 1), "as_text_mut");
    check!(n.as_comment_mut().is_ok() == (k == 2), "as_comment_mut");
    check!(n.as_cdata_mut().is_ok() == (k == 3), "as_cdata_mut");
    if let Ok(x) = n.as_element_mut() {
        check!(addr(x) == p, "a cast yields another node");
    }
    if let Ok(x) = n.as_text_mut() {
        check!(addr(x) == p, "a cast yields another node");
    }
    if let Ok(x) = n.as_comment_mut() {
        check!(addr(x) == p, "a cast yields another node");
    }
    if let Ok(x) = n.as_cdata_mut() {
        check!(addr(x) == p, "a cast yields another node");
    }
    check!(addr(n.as_node_mut()) == p, "as_node_mut");
    is_kind(n.as_node_mut(), k);
    let a = n.as_any_mut();
    check!(a.is::<Element>() == (k == 0) && a.is::<Text>() == (k == 1) && a.is::<Comment>() == (k == 2) && a.is::<CData>() == (k == 3), "as_any_mut");
}
fn kind_of(m: &M) -> usize {
    match m {
        M::E(_) => 0,
        M::T(_) => 1,
        M::C(_) => 2,
        M::D(_) => 3,
    }
}
fn text_of(m: &M) -> String {
    match m {
        M::T(s) | M::C(s) | M::D(s) => s.clone(),
        M::E(e) => elem_text(e),
    }
}
/// all text nodes below, in document order
pub fn elem_text(e: &ME) -> String {
    let mut o = String::new();
    for k in normalize(&e.kids) {
        match k {
            M::T(s) => o.push_str(&s),
            M::E(x) => o.push_str(&elem_text(&x)),
            _ => {}
        }
    }
    o
}
/// kinds and texts of every node of the tree
fn tree(e: &Element, m: &ME) {
    is_kind(e, 0);
    check!(e.text() == elem_text(m), "the text of an element is not the concatenation of the text nodes below it");
    let kids = normalize(&m.kids);
    let mut it = e.children();
    for k in &kids {
        match it.next() {
            None => sym::fail("child is missing"),
            Some(c) => {
                is_kind(c.as_ref(), kind_of(k));
                check!(c.text() == text_of(k), "the text of a node differs");
                if let (M::E(x), Ok(y)) = (k, c.as_element()) {
                    tree(y, x);
                }
            }
        }
    }
    check!(it.next().is_none(), "extra child");
}
fn tree_mut(e: &mut Element, m: &ME) {
    is_kind_mut(e, 0);
    let kids = normalize(&m.kids);
    for (c, k) in e.children_mut().zip(kids.iter()) {
        is_kind_mut(c.as_mut(), kind_of(k));
        if let (M::E(x), Ok(y)) = (k, c.as_element_mut()) {
            tree_mut(y, x);
        }
    }
}
/// every constructor of every kind, cast every way
pub fn c20_single() {
    let mut s = String::new();
    let n = sym::choice(3);
    for _ in 0..n {
        g::uni(&mut s);
    }
    let how = sym::choice(3);
    let (mut b, k): (Box<dyn Node>, usize) = match sym::choice(5) {
        0 => (
            match how {
                0 => Text::new(s.as_str()).boxed(),
                1 => Text::from(s.as_str()).boxed(),
                _ => Text::from(s.clone()).boxed(),
            },
            1,
        ),
        1 => (
            match how {
                0 => match Comment::new(s.as_str()) {
                    Ok(c) => c.boxed(),
                    Err(_) => return,
                },
                1 => {
                    let mut c = ok(Comment::new("x"), "comment");
                    match c.set_content(s.as_str()) {
                        Ok(_) => c.boxed(),
                        Err(_) => return,
                    }
                }
                _ => Comment::from("fixed").boxed(),
            },
            2,
        ),
        2 => (
            match how {
                0 => match CData::new(s.as_str()) {
                    Ok(c) => c.boxed(),
                    Err(_) => return,
                },
                1 => CData::from("fixed".to_string()).boxed(),
                _ => CData::from("fixed").boxed(),
            },
            3,
        ),
        3 => (
            match how {
                0 => Element::default().boxed(),
                1 => ok(Element::new_from_name("e"), "constructor").boxed(),
                _ => ok(Element::new_with_text("e", s.as_str()), "constructor").boxed(),
            },
            0,
        ),
        _ => {
            // concatenated text
            let c = Text::new("a").concat(&Text::new(s.as_str())).concat(&Text::new("z"));
            let mut w = String::from("a");
            w.push_str(&s);
            w.push('z');
            check!(c.text() == w && c.content == w, "concatenated text");
            (c.boxed(), 1)
        }
    };
    let want = match (k, how) {
        (1, _) => b.text(),
        (2, 2) | (3, 1) | (3, 2) => String::from("fixed"),
        (0, 2) => {
            if blank(&s) {
                String::new()
            } else {
                s.clone()
            }
        }
        (0, _) => String::new(),
        _ => s.clone(),
    };
    check!(b.text() == want, "the text of a new node");
    is_kind(b.as_ref(), k);
    is_kind_mut(b.as_mut(), k);
    // clones and boxes keep the kind
    let c = clone_node(&b);
    is_kind(c.as_ref(), k);
    check!(c.text() == want, "the text of a clone");
    check!(addr(c.as_ref()) != addr(b.as_ref()) , "a clone is the node itself");
    check!(DomNodeType::from(c) == KINDS[k].0, "the node type of a box");
    let t: DomNodeType = b.into();
    check!(t == KINDS[k].0, "the node type of a box");
    sym::emit(want.as_bytes());
    sym::cover(1 + k as u64);
}
/// all nodes of any tree
fn trees(depth: usize, width: usize, hots: usize, uni: bool, hot_len: usize) {
    let mut x = Gen::new(hots).spiced();
    x.uni = uni;
    x.hot_len = hot_len;
    let m = x.elem("r", depth, width);
    sym::assume(x.n > x.hot);
    let mut e = build(&m, sym::choice(4));
    tree(&e, &m);
    tree_mut(&mut e, &m);
    sym::emit(e.text().as_bytes());
    sym::cover(1);
}
pub fn c20_treeq() {
    trees(2, 2, 2, false, 1)
}
pub fn c20_tree() {
    trees(2, 2, 4, true, 1)
}
pub fn c20_wide() {
    trees(1, 4, 4, false, 2)
}
pub fn c20_deep() {
    trees(4, 1, 4, false, 2)
}
pub fn c20_tree3() {
    trees(2, 3, 3, false, 1)
}
/// parsed documents: text runs with arbitrary characters between every kind of node
fn parsed(n: usize, uni: bool) {
    let mut m = el("r");
    let mut src = String::from("<r>");
    let hot = sym::choice(4);
    let mut order = [0usize; 4];
    for i in 0..4 {
        order[i] = sym::choice(4);
    }
    let mut inner = el("i").at("k", "no");
    let mut isrc = String::from("<i k='no'>");
    for i in 0..4 {
        let mut t = String::from(["p", " q\u{e9}", "\nr ", "s\u{4e2d}"][i]);
        if i == hot {
            for _ in 0..n {
                if uni {
                    g::uni(&mut t);
                } else {
                    g::ascii(&mut t);
                }
            }
        }
        let (to, s) = if i == 1 || i == 2 { (&mut inner, &mut isrc) } else { (&mut m, &mut src) };
        s.push_str(&esc(&t));
        to.kids.push(M::T(t));
        match order[i] {
            0 => {
                s.push_str("<e><!--no--></e>");
                to.kids.push(el("e").kid(M::C("no".to_string())).m());
            }
            1 => {
                s.push_str("<!--no-->");
                to.kids.push(M::C("no".to_string()));
            }
            2 => {
                s.push_str("<![CDATA[no]]>");
                to.kids.push(M::D("no".to_string()));
            }
            _ => {
                s.push_str("<e>u<e>v</e></e>");
                to.kids.push(el("e").kid(M::T("u".to_string())).kid(el("e").kid(M::T("v".to_string())).m()).m());
            }
        }
        if i == 2 {
            isrc.push_str("</i>");
            src.push_str(&isrc);
            m.kids.push(inner.clone().m());
        }
    }
    src.push_str("</r>");
    let mut d = ok(kiss_xml::parse_str(src), "a well-formed document was refused");
    tree(d.root_element(), &m);
    tree_mut(d.root_element_mut(), &m);
    sym::emit(d.root_element().text().as_bytes());
    sym::cover(1);
}
pub fn c20_parsed() {
    parsed(1, false)
}
pub fn c20_parsedu() {
    parsed(1, true)
}
pub fn c20_parsed3() {
    parsed(3, false)
}
/// the text follows every edit
fn edited(n: usize) {
    let mut m = el("r").kid(M::T("a".to_string())).kid(el("x").kid(M::T("b".to_string())).kid(M::C("c".to_string())).m()).kid(M::D("d".to_string())).kid(el("y").kid(el("z").kid(M::T("e".to_string())).m()).m());
    let mut e = build(&m, 0);
    for _ in 0..n {
        m.kids = normalize(&m.kids);
        let len = m.kids.len();
        let mut s = String::new();
        g::ascii(&mut s);
        let new = match sym::choice(4) {
            0 => {
                sym::assume(!blank(&s));
                el("n").kid(M::T(s)).m()
            }
            1 => M::T(s),
            2 => M::C(s),
            _ => M::D(s),
        };
        let at = sym::choice(5);
        sym::assume(at <= len);
        match sym::choice(5) {
            0 => {
                e.append_boxed(build_node(&new, 0));
                m.kids.push(new);
            }
            1 => {
                e.append_all(vec![build_node(&new, 0), Text::new("w").boxed()]);
                m.kids.push(new);
                m.kids.push(M::T("w".to_string()));
            }
            2 => {
                sym::assume(at < len);
                let r = ok(e.remove(at), "remove");
                is_kind(r.as_ref(), kind_of(&m.kids[at]));
                check!(r.text() == text_of(&m.kids[at]), "the text of the removed node");
                m.kids.remove(at);
            }
            3 => {
                // the content of a text node, through its mutable cast
                sym::assume(at < len);
                let t = text_of(&new);
                sym::assume(!blank(&t));
                for (i, c) in e.children_mut().enumerate() {
                    if i == at {
                        if let Ok(x) = c.as_text_mut() {
                            x.content = t.clone();
                            m.kids[at] = M::T(t.clone());
                        } else if let Ok(x) = c.as_comment_mut() {
                            ok(x.set_content(t.as_str()), "one character");
                            m.kids[at] = M::C(t.clone());
                        } else if let Ok(x) = c.as_element_mut() {
                            x.append(Text::new(t.as_str()));
                            if let M::E(y) = &mut m.kids[at] {
                                y.kids.push(M::T(t.clone()));
                            }
                        }
                    }
                }
            }
            _ => {
                let t = text_of(&new);
                e.set_text(t.as_str());
                m.kids = vec![M::T(t)];
            }
        }
        tree(&e, &m);
    }
    tree_mut(&mut e, &m);
    sym::emit(e.text().as_bytes());
    sym::cover(1);
}
pub fn c20_edit1() {
    edited(1)
}
pub fn c20_edit2() {
    edited(2)
}
pub fn c20_edit3() {
    edited(3)
}
/// long texts, a multi-byte character anywhere
pub fn c20_long() {
    let mut a = String::new();
    for _ in 0..sym::choice(9) {
        a.push('x');
    }
    g::uni_len(&mut a, 2 + sym::choice(3));
    a.push_str(&"yz".repeat(sym::choice(9)));
    sym::assume(!blank(&a));
    let m = el("r").kid(M::T(a.clone())).kid(el("i").kid(M::C(a.clone())).kid(M::T(a.clone())).m()).kid(M::D(a.clone())).kid(M::T(a.clone()));
    let e = build(&m, 0);
    tree(&e, &m);
    let mut w = a.clone();
    w.push_str(&a);
    w.push_str(&a);
    check!(e.text() == w, "the text of an element");
    sym::emit(w.as_bytes());
    sym::cover(1);
}
