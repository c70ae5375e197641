use crate::{g, sym};

fn esc_ok(orig: &str, esc: &str, quotes: bool) {
    // reference decoder, independent of the library: scan the escaped text
    let o = orig.as_bytes();
    let e = esc.as_bytes();
    let (mut i, mut j) = (0, 0);
    while j < e.len() {
        check!(i < o.len(), "escaped text is longer than its source");
        let c = e[j];
        check!((c != b'<') & (c != b'>'), "raw angle bracket in escaped text");
        if quotes {
            check!((c != b'"') & (c != b'\''), "raw quote in escaped text");
        }
        if c == b'&' {
            let rest = &e[j..];
            let (d, n) = if rest.starts_with(b"&amp;") {
                (b'&', 5)
            } else if rest.starts_with(b"&lt;") {
                (b'<', 4)
            } else if rest.starts_with(b"&gt;") {
                (b'>', 4)
            } else if rest.starts_with(b"&quot;") {
                (b'"', 6)
            } else if rest.starts_with(b"&apos;") {
                (b'\'', 6)
            } else {
                sym::fail("'&' that starts no entity in escaped text")
            };
            check!(o[i] == d, "escape changed a character");
            j += n;
        } else {
            check!(o[i] == c, "escape changed a character");
            j += 1;
        }
        i += 1;
    }
    check!(i == o.len(), "escape lost characters");
}

pub fn one(which: usize, s: &str) {
    let (e, name) = match which {
        0 => (kiss_xml::text_escape(s), "text_escape"),
        1 => (kiss_xml::attribute_escape(s), "attribute_escape"),
        _ => (kiss_xml::escape(s), "escape"),
    };
    sym::emit(e.as_bytes());
    sym::note(name);
    sym::note(s);
    sym::note(&e);
    esc_ok(s, &e, which > 0);
    check!(kiss_xml::unescape(e.as_str()) == s, "unescape(escaped) differs from the original");
    sym::cover(1);
}

/// every string of up to 2 characters (any Unicode scalar values), all three functions
pub fn c04_any2() {
    let w = sym::choice(3);
    let s = g::text(2);
    one(w, &s);
}
pub fn c04_any3() {
    let w = sym::choice(3);
    let mut s = String::new();
    g::uni(&mut s);
    g::uni(&mut s);
    g::uni(&mut s);
    one(w, &s);
}
pub fn c04_any4() {
    let w = sym::choice(3);
    let mut s = String::new();
    for _ in 0..4 {
        g::uni(&mut s);
    }
    one(w, &s);
}
pub fn c04_ascii6() {
    let w = sym::choice(3);
    let s = g::ascii_text(6);
    one(w, &s);
}
pub fn c04_any5() {
    let w = sym::choice(3);
    let mut s = String::new();
    for _ in 0..5 {
        g::uni(&mut s);
    }
    one(w, &s);
}
pub fn c04_ascii8() {
    let w = sym::choice(3);
    let s = g::ascii_text(8);
    one(w, &s);
}
/// symbolic characters around text that looks like an entity already
pub fn c04_frame() {
    let w = sym::choice(3);
    let mut s = String::new();
    const F: [&str; 12] = ["&", "&amp", "&#", "&#2", ";", "lt;", "<\u{1F600}", "\u{e9}&quot;", "&amp;lt", "''", "]]>", "#x41;"];
    g::ascii(&mut s);
    s.push_str(F[sym::choice(F.len())]);
    g::uni(&mut s);
    one(w, &s);
}
/// long text: the replacement loops over many occurrences, symbolic character at both ends
pub fn c04_long() {
    let w = sym::choice(3);
    let mut s = String::new();
    g::ascii(&mut s);
    for _ in 0..12 {
        s.push_str("a<b&c>\"'\u{e9}\u{4e2d}\u{1F600};&amp;");
    }
    g::uni(&mut s);
    s.push_str("&lt;tail\u{1F600}");
    one(w, &s);
}

/// reference decoder
pub fn decode(s: &str) -> String {
    let b = s.as_bytes();
    let mut out: Vec<u8> = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'&' {
            let mut j = i + 1;
            while j < b.len() && b[j] != b';' {
                j += 1;
            }
            if j < b.len() {
                let body = &b[i + 1..j];
                let c: Option<u32> = if body == b"amp" {
                    Some(38)
                } else if body == b"lt" {
                    Some(60)
                } else if body == b"gt" {
                    Some(62)
                } else if body == b"quot" {
                    Some(34)
                } else if body == b"apos" {
                    Some(39)
                } else if body.len() >= 2 && body[0] == b'#' {
                    hex(&body[1..])
                } else {
                    None
                };
                if let Some(c) = c {
                    let mut q = [0u8; 4];
                    let l = match char::from_u32(c) {
                        Some(c) => c.encode_utf8(&mut q).len(),
                        None => 0,
                    };
                    if l > 0 {
                        out.extend_from_slice(&q[..l]);
                        i = j + 1;
                        continue;
                    }
                }
            }
        }
        out.push(b[i]);
        i += 1;
    }
    unsafe { String::from_utf8_unchecked(out) }
}
fn hex(b: &[u8]) -> Option<u32> {
    let mut v: u64 = 0;
    for c in b {
        let d = if (*c >= b'0') & (*c <= b'9') {
            *c - b'0'
        } else if (*c >= b'a') & (*c <= b'f') {
            *c - b'a' + 10
        } else if (*c >= b'A') & (*c <= b'F') {
            *c - b'A' + 10
        } else {
            return None;
        };
        v = v * 16 + d as u64;
        if v > 0x10FFFF {
            return None;
        }
    }
    Some(v as u32)
}
pub fn dec(s: &str) {
    let u = kiss_xml::unescape(s);
    sym::emit(u.as_bytes());
    sym::note(s);
    sym::note(&u);
    check!(u == decode(s), "unescape differs from the reference decoding");
    sym::cover(1);
}
/// every string of up to 4 characters (any Unicode scalar values)
pub fn c05_any4() {
    let s = g::text(4);
    dec(&s);
}
pub fn c05_any5() {
    let s = g::text(5);
    dec(&s);
}
pub fn c05_any6() {
    let s = g::text(6);
    dec(&s);
}
pub fn c05_ascii9() {
    let s = g::ascii_text(9);
    dec(&s);
}
pub fn c05_ascii12() {
    let s = g::ascii_text(12);
    dec(&s);
}
/// "&" xyz ";" t : every named entity and everything near one
pub fn c05_named() {
    let mut s = String::new();
    if sym::choice(2) == 1 {
        g::uni(&mut s);
    }
    s.push('&');
    let n = sym::choice(5);
    for _ in 0..n {
        g::ascii(&mut s);
    }
    s.push(';');
    g::ascii(&mut s);
    dec(&s);
}
/// numeric references with up to 6 symbolic characters
pub fn c05_hex() {
    let mut s = String::new();
    s.push_str(["", "\u{1F600}", "&"][sym::choice(3)]);
    s.push_str("&#");
    let n = sym::choice(4);
    for _ in 0..n {
        g::ascii(&mut s);
    }
    s.push(';');
    s.push_str(["", "\u{4e2d};", "&lt;"][sym::choice(3)]);
    dec(&s);
}
/// numeric references of every magnitude, digits only
pub fn c05_digits() {
    let mut s = String::from("&#");
    s.push_str(["", "10", "d", "0000", "11", "1f60"][sym::choice(6)]);
    for _ in 0..3 {
        let v = sym::var(7) as u8;
        sym::assume((v >= b'0') & (v <= b'9') | (v >= b'a') & (v <= b'f') | (v >= b'A') & (v <= b'F'));
        s.push(v as char);
    }
    s.push_str(";a;");
    dec(&s);
}
/// entities next to each other and results that look like entities
pub fn c05_once() {
    const F: [&str; 14] = ["&amp;", "&lt;", "&", ";", "amp;", "#26;", "&#26;", "\u{1F600}", "\u{e9}", "lt;", "&quot", "&#1F600;", "&apos;gt;", "&#d800;"];
    let mut s = String::new();
    for _ in 0..3 {
        s.push_str(F[sym::choice(F.len())]);
        if sym::choice(2) == 1 {
            g::ascii(&mut s);
        }
    }
    dec(&s);
}
/// long input with a symbolic window at a symbolic place
pub fn c05_long() {
    let mut s = String::new();
    let at = sym::choice(8);
    for i in 0..8 {
        s.push_str("x &amp;lt; \u{4e2d}&#263c;& &unknown; \u{1F600};&lt;&gt;&apos;&quot;&&amp;");
        if i == at {
            g::ascii(&mut s);
            g::uni(&mut s);
        }
    }
    dec(&s);
}
/// numeric references padded with any number of zeros, and long entity-like texts
pub fn c05_pad() {
    let mut s = String::from(["", "\u{4e2d}", "&"][sym::choice(3)]);
    s.push_str("&#");
    for _ in 0..[0, 1, 5, 6, 8, 15, 16, 17, 18, 24, 31, 40, 64, 130][sym::choice(14)] {
        s.push('0');
    }
    for _ in 0..sym::choice(3) {
        g::ascii(&mut s);
    }
    s.push_str([";", "", ";;", "&gt;"][sym::choice(4)]);
    dec(&s);
}
/// an entity far behind a stray '&'
pub fn c05_far() {
    let mut s = String::from("&");
    let w = sym::choice(3);
    for _ in 0..[0, 1, 3, 7, 8, 15, 16, 20, 24, 31, 32, 33, 63, 64, 100][sym::choice(15)] {
        s.push(['x', ' ', '\u{e9}'][w]);
    }
    g::uni(&mut s);
    s.push_str(["&lt;", ";", "&#3c;&", "lt;&amp;"][sym::choice(4)]);
    dec(&s);
}
