//! C19: the XML declaration and the document type definitions.
use crate::m::*;
use crate::{g, sym};
use kiss_xml::dom::*;

const DEFAULT: &str = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>";

fn at(b: &[u8], i: usize, p: &str) -> bool {
    b.len() >= i + p.len() && b[i..i + p.len()].iter().zip(p.bytes()).all(|(x, y)| *x == y)
}
/// reference: where the construct that starts at `i` with '<?', '<!--' or '<!' ends
fn end_of(b: &[u8], i: usize) -> Option<usize> {
    if at(b, i, "<!--") {
        let mut j = i + 4;
        while !at(b, j, "-->") {
            j += 1;
            if j >= b.len() {
                return None;
            }
        }
        return Some(j + 3);
    }
    let pi = at(b, i, "<?");
    let mut quote = 0u8;
    let mut open = 0;
    let mut j = i + 2;
    while j < b.len() {
        let c = b[j];
        if quote != 0 {
            if c == quote {
                quote = 0;
            }
        } else if c == b'"' || c == b'\'' {
            quote = c;
        } else if pi {
            if at(b, j, "?>") {
                return Some(j + 2);
            }
        } else if at(b, j, "<!--") {
            j = end_of(b, j)?;
            continue;
        } else if c == b'<' {
            open += 1;
        } else if c == b'>' {
            if open == 0 {
                return Some(j + 1);
            }
            open -= 1;
        }
        j += 1;
    }
    None
}
struct Prolog {
    decl: Option<(usize, usize)>,
    dtds: Vec<(usize, usize)>,
    root: usize,
}
/// reference reading of the part before the root element; None: not a prolog
fn prolog(s: &str) -> Option<Prolog> {
    let b = s.as_bytes();
    let mut p = Prolog { decl: None, dtds: vec![], root: 0 };
    let mut i = 0;
    let mut first = true;
    loop {
        let start = i;
        while i < b.len() && b[i] != b'<' {
            i += 1;
        }
        if i >= b.len() || !blank(&s[start..i]) {
            return None;
        }
        if !at(b, i, "<?") && !at(b, i, "<!") {
            p.root = i;
            return Some(p);
        }
        let e = end_of(b, i)?;
        if at(b, i, "<?xml-") {
            // a style sheet instruction behind the declaration is skipped; in front of it, it is none of this property
            sym::assume(p.decl.is_some());
        } else if at(b, i, "<?xml") {
            // other processing instructions are none of this property
            sym::assume(matches!(b[i + 5], b' ' | b'\t' | b'\n' | b'\r' | b'?'));
            if !first {
                return None;
            }
            p.decl = Some((i, e));
        } else if at(b, i, "<?") {
            sym::assume(false);
        } else if at(b, i, "<!DOCTYPE") {
            p.dtds.push((i, e));
        } else {
            // comments and stray declarations are not kept
            sym::assume(at(b, i, "<!--"));
        }
        first = false;
        i = e;
    }
}
fn reparsed(d: &Document, out: &str) {
    match kiss_xml::parse_str(out) {
        Err(_) => sym::fail("the serialized document does not parse"),
        Ok(r) => check!(r == *d, "the prolog is not read back"),
    }
}
/// the document has exactly this prolog, and serializes it before `root`
fn has(d: &Document, decl: Option<&str>, dtds: &[&str], root: &str) {
    match (d.declaration(), decl) {
        (None, None) => {}
        (Some(a), Some(b)) => check!(a.to_string() == b, "the declaration differs"),
        (Some(_), None) => sym::fail("a declaration where there is none"),
        (None, Some(_)) => sym::fail("the declaration is lost"),
    }
    let mut it = d.doctype_defs();
    for x in dtds {
        match it.next() {
            None => sym::fail("a DTD is lost"),
            Some(y) => check!(y.to_string() == *x, "a DTD differs"),
        }
    }
    check!(it.next().is_none(), "an additional DTD");
    let mut want = String::new();
    if let Some(x) = decl {
        want.push_str(x);
        want.push('\n');
    }
    for x in dtds {
        want.push_str(x);
        want.push('\n');
    }
    want.push_str(root);
    want.push('\n');
    let out = d.to_string();
    check!(out == want, "the prolog is not written before the root element, verbatim, one construct per line");
    sym::emit(out.as_bytes());
}
pub fn compare(s: &str, rest: &str) {
    match (prolog(s), kiss_xml::parse_str(s)) {
        (None, Ok(_)) => sym::fail("a document with a malformed prolog was accepted"),
        (None, Err(_)) => {
            sym::cover(2);
            sym::emit(b"refused");
        }
        (Some(p), Err(_)) => {
            check!(s[p.root..] != *rest, "a document with a well-formed prolog was refused");
            sym::emit(b"root");
        }
        (Some(p), Ok(d)) => {
            let dtds: Vec<&str> = p.dtds.iter().map(|x| &s[x.0..x.1]).collect();
            let root = d.root_element().to_string();
            has(&d, p.decl.map(|x| &s[x.0..x.1]), &dtds, root.as_str());
            reparsed(&d, d.to_string().as_str());
            sym::cover(1);
        }
    }
}
const CTX: [&str; 16] = [
    "<?xml version=\"|\"?>\n<r/>",
    "<?xml version='1.0'|?><!DOCTYPE r><r/>",
    "<?xml |?>\n<!DOCTYPE r>\n<!DOCTYPE s [\n<!ENTITY a \"b\">\n]>\n<r/>",
    "<!DOCTYPE|><r/>",
    "<!DOCTYPE r|><r/>",
    "<!DOCTYPE r [<!ENTITY a \"|\">]>\n<!DOCTYPE s><r/>",
    "<!DOCTYPE r [<!ENTITY a '|'>]>\n<r/>",
    "<?xml ?><!DOCTYPE r [<!--|-->]><r/>",
    "<!DOCTYPE r [<!-- a |'\" > < -->]><!--'--><r/>",
    "<!DOCTYPE a>|<!DOCTYPE b><r/>",
    "<?xml ?>|<!DOCTYPE b><r/>",
    "|<?xml ?><!DOCTYPE b><r/>",
    "<!DOCTYPE a><!--|--><!DOCTYPE b><r/>",
    "<?xml ?>\n<!-- c -->\n<!DOCTYPE a [\n\t<!ELEMENT a (b|)>\n]>\n<!DOCTYPE b SYSTEM \"u>\">|<r/>",
    "<!DOCTYPE r [<!ATTLIST a b CDATA #IMPLIED>|]>\n<r/>",
    "<!-- c --><!DOCTYPE r>\n<!|>\n<!DOCTYPE s><r/>",
];
fn windows(n: usize, uni: bool) {
    let c = CTX[sym::choice(CTX.len())];
    let mut s = String::new();
    for ch in c.chars() {
        if ch == '|' {
            for _ in 0..n {
                if uni {
                    g::uni(&mut s);
                } else {
                    g::ascii(&mut s);
                }
            }
        } else {
            s.push(ch);
        }
    }
    compare(&s, "<r/>");
}
/// arbitrary characters anywhere in or between the constructs of the prolog
pub fn c19_windowq() {
    windows(1 + sym::choice(2), false)
}
pub fn c19_window() {
    windows(3, false)
}
pub fn c19_window4() {
    windows(4, false)
}
pub fn c19_windowu() {
    windows(1, true)
}
pub fn c19_windowu2() {
    windows(2, true)
}
/// an instruction like <?xml-stylesheet?> is not the declaration and not kept
pub fn c19_style() {
    let mut s = String::from(["<?xml version=\"1.0\"?>", "<?xml?>"][sym::choice(2)]);
    for _ in 0..2 {
        match sym::choice(5) {
            0 => {}
            1 => s.push_str("<!DOCTYPE a>"),
            2 => s.push_str("\n<!-- <?xml-a?> -->"),
            3 => {
                s.push_str("\n<?xml-stylesheet href='");
                g::one_of(&mut s, "a<>?&\" ");
                s.push_str("'?>");
            }
            _ => {
                s.push_str("<?xml-");
                g::ascii(&mut s);
                s.push_str(" a?>\n");
            }
        }
    }
    s.push_str("<r/>");
    compare(&s, "<r/>");
}
fn sequence(n: usize) {
    let mut s = String::new();
    for _ in 0..sym::choice(n + 1) {
        match sym::choice(8) {
            0 => s.push_str("<?xml version=\"1.0\"?>"),
            1 => {
                s.push_str("<?xml version='1.1' standalone='");
                g::one_of(&mut s, "yn<>?\"& ");
                s.push_str("'?>");
            }
            2 => s.push_str("<!DOCTYPE a>"),
            3 => {
                s.push_str("<!DOCTYPE r [\r\n  <!ENTITY e \"");
                g::one_of(&mut s, "x'<>]&");
                s.push_str("&lt;'>\">\n\t<!ELEMENT b (c,d)> ]>");
            }
            4 => s.push_str("<!DOCTYPE a SYSTEM 'x>y' >"),
            5 => s.push_str("<!-- <?xml ?> <!DOCTYPE no> ' -->"),
            6 => s.push_str("\n \t"),
            _ => s.push_str("<!DOCTYPE html PUBLIC \"-//\u{e9}\" \"\u{4e2d}\"[<!-- don't -->]>"),
        }
    }
    s.push_str("<r/>");
    compare(&s, "<r/>");
}
/// any sequence of declarations, DTDs, comments and white space
pub fn c19_seq3() {
    sequence(3)
}
pub fn c19_seq4() {
    sequence(4)
}
pub fn c19_seq5() {
    sequence(5)
}
fn some_decl() -> String {
    match sym::choice(3) {
        0 => String::from(DEFAULT),
        1 => {
            let mut s = String::from("<?xml version='");
            g::ascii(&mut s);
            s.push_str("'?>");
            sym::assume(s.as_bytes()[15] != b'\'');
            s
        }
        _ => String::from("<?xml?>"),
    }
}
fn some_dtd() -> String {
    match sym::choice(3) {
        0 => String::from("<!DOCTYPE a>"),
        1 => {
            let mut s = String::from("<!DOCTYPE r [<!ENTITY e \"");
            g::uni_len(&mut s, 2);
            s.push_str("\">]>");
            s
        }
        _ => String::from("<!DOCTYPE b\n[\n<!ELEMENT b (c)>\n]>"),
    }
}
fn decl_of(s: &str) -> Declaration {
    ok(Declaration::from_str(s), "a well-formed declaration was refused")
}
fn dtd_of(s: &str) -> DTD {
    ok(DTD::from_string(s), "a well-formed DTD was refused")
}
fn strs(v: &[String]) -> Vec<&str> {
    v.iter().map(|x| x.as_str()).collect()
}
/// setting, replacing and removing affects the prolog and nothing else
fn edits(n: usize) {
    let tree = el("r").at("k", "v").kid(el("a").kid(M::T("t".to_string())).m()).kid(M::C("c".to_string()));
    let root = "<r k=\"v\">\n  <a>t</a>\n  <!--c-->\n</r>";
    let mut decl: Option<String> = None;
    let mut dtds: Vec<String> = vec![];
    let mut d = match sym::choice(4) {
        0 => {
            decl = Some(String::from(DEFAULT));
            Document::new(build(&tree, 0))
        }
        1 => {
            dtds.push(some_dtd());
            dtds.push(String::from("<!DOCTYPE z>"));
            let v: Vec<DTD> = dtds.iter().map(|x| dtd_of(x)).collect();
            Document::new_with_decl_dtd(build(&tree, 0), None, Some(&v))
        }
        2 => {
            decl = Some(some_decl());
            Document::new_with_decl_dtd(build(&tree, 0), decl.as_ref().map(|x| decl_of(x)), None)
        }
        _ => {
            decl = Some(String::from("<?xml version='1.0'?>"));
            dtds.push(String::from("<!DOCTYPE p [<!ENTITY a '>'>]>"));
            dtds.push(String::from("<!DOCTYPE q>"));
            let mut s = String::new();
            s.push_str("<?xml version='1.0'?><!-- c --><!DOCTYPE p [<!ENTITY a '>'>]><!DOCTYPE q>");
            s.push_str(root);
            ok(kiss_xml::parse_str(s), "parse")
        }
    };
    has(&d, decl.as_deref(), &strs(&dtds), root);
    for _ in 0..n {
        match sym::choice(8) {
            0 => {
                d.set_declaration(None);
                decl = None;
            }
            1 => {
                let s = some_decl();
                d.set_declaration(Some(decl_of(&s)));
                decl = Some(s);
            }
            2 => {
                d.set_declaration(Some(if sym::choice(2) == 0 { Declaration::new() } else { Declaration::default() }));
                decl = Some(String::from(DEFAULT));
            }
            3 => {
                d.set_doctype_defs(None);
                dtds.clear();
            }
            4 => {
                dtds = vec![some_dtd()];
                d.set_doctype_defs(Some(&[dtd_of(&dtds[0])]));
            }
            5 => {
                dtds = vec![String::from("<!DOCTYPE 2>"), some_dtd(), String::from("<!DOCTYPE 1>")];
                let v: Vec<DTD> = dtds.iter().map(|x| dtd_of(x)).collect();
                d.set_doctype_defs(Some(&v));
            }
            6 => {
                let s = some_dtd();
                let k = sym::choice(3);
                for (i, x) in d.doctype_defs_mut().enumerate() {
                    if i == k {
                        *x = dtd_of(&s);
                    }
                }
                if k < dtds.len() {
                    dtds[k] = s;
                }
            }
            _ => {
                let v: Vec<DTD> = vec![];
                d.set_doctype_defs(Some(&v));
                dtds.clear();
            }
        }
        has(&d, decl.as_deref(), &strs(&dtds), root);
    }
    agree(d.root_element(), &tree, &vec![], "after the edit of the prolog");
    check!(d.doctype_defs_mut().count() == dtds.len(), "number of DTDs");
    // an edit of the tree leaves the prolog alone
    ok(d.root_element_mut().remove(0), "remove");
    has(&d, decl.as_deref(), &strs(&dtds), "<r k=\"v\"><!--c--></r>");
    reparsed(&d, d.to_string().as_str());
    sym::cover(1);
}
pub fn c19_edit1() {
    edits(1)
}
pub fn c19_edit2() {
    edits(2)
}
pub fn c19_edit3() {
    edits(3)
}
/// the strings the constructors accept: one construct, white space around it ignored
fn judge_decl(s: &str) {
    let t = s.trim();
    let b = t.as_bytes();
    let start = at(b, 0, "<?xml");
    if start && b.len() > 5 {
        // <?xmlfoo ...: none of this property
        sym::assume(matches!(b[5], b' ' | b'\t' | b'\n' | b'\r' | b'?'));
    }
    let want = start && end_of(b, 0) == Some(b.len());
    match Declaration::from_str(s) {
        Err(_) => {
            check!(!want, "a well-formed declaration was refused");
            sym::emit(b"refused");
            sym::cover(2);
        }
        Ok(d) => {
            check!(want, "a malformed declaration was accepted");
            let o = d.to_string();
            check!(o == t, "a declaration is not kept verbatim");
            check!(d == d.clone() && decl_of(&o) == d, "equality of declarations");
            sym::emit(o.as_bytes());
            sym::cover(1);
        }
    }
}
fn judge_dtd(s: &str) {
    let t = s.trim();
    let b = t.as_bytes();
    let want = at(b, 0, "<!DOCTYPE") && end_of(b, 0) == Some(b.len());
    match DTD::from_string(s) {
        Err(_) => {
            check!(!want, "a well-formed DTD was refused");
            sym::emit(b"refused");
            sym::cover(2);
        }
        Ok(d) => {
            check!(want, "a malformed DTD was accepted");
            let o = d.to_string();
            check!(o == t, "a DTD is not kept verbatim");
            check!(d == d.clone() && dtd_of(&o) == d, "equality of DTDs");
            sym::emit(o.as_bytes());
            sym::cover(1);
        }
    }
}
fn arbitrary(n: usize, uni: usize) {
    let mut s = String::new();
    let (a, b) = [("", ""), ("<?xml", "?>"), ("<?xml ", "?>"), ("<?x", "l?>"), ("<", ""), ("<?", ">"), ("<?xml a=\"", "\"?>"), ("<?xml", ""), ("<!DOCTYPE", ">"), ("<!DOCTYPE r", ">"), ("<!", ">"), ("<!DOCTYPE r [<!ENTITY a '", "'>]>"), ("<!DOCTYPE r [<!--", "-->]>"), ("<!DOCTYPE r ", ""), ("<!DOC", "TYPE>"), ("<!DOCTYPE r [<", ">]>")][sym::choice(16)];
    s.push_str(a);
    for _ in 0..sym::choice(n + 1) {
        if uni > 0 {
            g::uni(&mut s);
        } else {
            g::ascii(&mut s);
        }
    }
    s.push_str(b);
    if sym::choice(2) == 0 {
        judge_decl(&s);
    } else {
        judge_dtd(&s);
    }
}
pub fn c19_ctor3() {
    arbitrary(3, 0)
}
pub fn c19_ctor4() {
    arbitrary(4, 0)
}
pub fn c19_ctor5() {
    arbitrary(5, 0)
}
pub fn c19_ctoru() {
    arbitrary(2, 1)
}
pub fn c19_ctoru3() {
    arbitrary(3, 1)
}
/// white space (any Unicode character) around
pub fn c19_trim() {
    let mut s = String::new();
    if sym::choice(2) == 0 {
        g::uni(&mut s);
    }
    let d = sym::choice(2) == 0;
    s.push_str(if d { "<?xml v?>" } else { "<!DOCTYPE \u{e9}>" });
    if sym::choice(2) == 0 {
        g::uni(&mut s);
    }
    if d {
        judge_decl(&s)
    } else {
        judge_dtd(&s)
    }
}
/// a prolog written with any indent is the same
pub fn c19_indent() {
    let mut s = String::from("<?xml v='");
    g::ascii(&mut s);
    sym::assume(s.as_bytes()[9] != b'\'');
    let decl = format_decl(&s);
    let dtd = some_dtd();
    let mut d = Document::new(build(&el("r").kid(el("a").m()), 0));
    d.set_declaration(Some(decl_of(&decl)));
    d.set_doctype_defs(Some(&[dtd_of(&dtd), dtd_of("<!DOCTYPE e>")]));
    let i = sym::choice(4);
    let out = d.to_string_with_indent(["\t", "", "    ", "xx"][i]);
    let mut want = String::new();
    for x in [decl.as_str(), dtd.as_str(), "<!DOCTYPE e>", "<r>"] {
        want.push_str(x);
        want.push('\n');
    }
    want.push_str(["\t", "", "    ", "  "][i]);
    want.push_str("<a/>\n</r>\n");
    check!(out == want, "the prolog depends on the indent");
    sym::emit(out.as_bytes());
    sym::cover(1);
}
fn format_decl(s: &str) -> String {
    let mut t = String::from(s);
    t.push_str("'?>");
    t
}
/// the shortest constructs, through every way of giving them to a document
pub fn c19_minimal() {
    let mut t = String::from("<!DOCTYPE");
    for _ in 0..sym::choice(3) {
        g::ascii(&mut t);
    }
    t.push('>');
    let mut v = String::from("<?xml");
    if sym::choice(2) == 1 {
        v.push(' ');
        g::ascii(&mut v);
    }
    v.push_str("?>");
    let (a, b) = match (DTD::from_string(t.as_str()), Declaration::from_str(v.as_str())) {
        (Ok(a), Ok(b)) => (a, b),
        _ => return sym::cover(2),
    };
    let r = "<r/>";
    let mut e = vec![t.as_str()];
    let old = [dtd_of("<!DOCTYPE a>"), dtd_of("<!DOCTYPE b>")];
    let root = ok(Element::new_from_name("r"), "constructor");
    let mut d = match sym::choice(6) {
        0 => Document::new_with_decl_dtd(root, Some(b), Some(&[a])),
        1 => {
            let mut d = Document::new_with_decl_dtd(root, None, Some(&old));
            d.set_doctype_defs(Some(&[a]));
            d.set_declaration(Some(b));
            d
        }
        2 => {
            let mut d = Document::new(root);
            d.set_declaration(Some(b));
            e = vec![t.as_str(), "<!DOCTYPE b>", t.as_str()];
            d.set_doctype_defs(Some(&[a.clone(), old[1].clone(), a]));
            d
        }
        3 => {
            let mut d = Document::new_with_decl_dtd(root, Some(b), Some(&old));
            for x in d.doctype_defs_mut() {
                *x = a.clone();
            }
            e = vec![t.as_str(), t.as_str()];
            d
        }
        4 => {
            e = vec![t.as_str(), t.as_str()];
            Document::new_with_decl_dtd(root, Some(b), Some(&[a.clone(), a]))
        }
        _ => {
            let s = [v.as_str(), t.as_str(), r].concat();
            ok(kiss_xml::parse_str(s), "parse")
        }
    };
    has(&d, Some(v.as_str()), &e, r);
    // an access that changes nothing
    check!(d.doctype_defs_mut().count() == e.len(), "number of DTDs");
    has(&d, Some(v.as_str()), &e, r);
    reparsed(&d, d.to_string().as_str());
    sym::cover(1);
}
