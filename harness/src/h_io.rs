//! C17: readers, writers and files against the in-memory forms.
use crate::fsm;
use crate::m::*;
use crate::{g, sym};
use kiss_xml::dom::*;
use kiss_xml::errors::KissXmlError;
use std::io::{Error, ErrorKind, Read, Write};

const DOCS: [&str; 6] = [
    "<r>|</r>",
    "<?xml version=\"1.0\"?>\n<!DOCTYPE r>\n<r a='\u{e9}|'>t<!--\u{4e2d}--></r>\n",
    "<r><a k=\"|\"/></r>",
    "|<r/>",
    "<r><a>\u{1f600} text that is longer than the buffer the reader is probed with|</a></r>",
    "<r/>|",
];
/// a document with `n` arbitrary bytes in it
fn bytes(doc: usize, n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    for c in DOCS[doc].bytes() {
        if c == b'|' {
            for _ in 0..n {
                v.push(sym::var(8) as u8);
            }
        } else {
            v.push(c);
        }
    }
    v
}
/// independent decision whether these bytes are UTF-8 (Unicode, table 3-7)
fn utf8(b: &[u8]) -> bool {
    let at = |i: usize| if i < b.len() { b[i] } else { 0 };
    let mut i = 0;
    while i < b.len() {
        let (c, d, e, f) = (at(i), at(i + 1), at(i + 2), at(i + 3));
        let cont = |x: u8| (0x80..=0xbf).contains(&x);
        if c < 0x80 {
            i += 1;
        } else if (0xc2..=0xdf).contains(&c) && cont(d) {
            i += 2;
        } else if (0xe0..=0xef).contains(&c) && cont(d) && cont(e) && !(c == 0xe0 && d < 0xa0) && !(c == 0xed && d > 0x9f) {
            i += 3;
        } else if (0xf0..=0xf4).contains(&c) && cont(d) && cont(e) && cont(f) && !(c == 0xf0 && d < 0x90) && !(c == 0xf4 && d > 0x8f) {
            i += 4;
        } else {
            return false;
        }
    }
    true
}
/// an arbitrary transfer of 1..=max bytes
fn any_size(max: usize) -> usize {
    let v = sym::var(8) as usize;
    for i in 1..max {
        if v == i {
            return i;
        }
    }
    max
}
struct Reader {
    data: Vec<u8>,
    pos: usize,
    call: usize,
    chunk: [usize; 3],
    sizes: usize, // how many of the first calls transfer an arbitrary number of bytes
    intr: [usize; 2],
    fail: usize,
    kind: ErrorKind,
    failed: bool,
}
impl Read for Reader {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.call;
        self.call += 1;
        if self.intr.contains(&n) {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if n >= self.fail {
            self.failed = true;
            return Err(Error::from(self.kind));
        }
        let left = self.data.len() - self.pos;
        let mut k = if buf.len() < left { buf.len() } else { left };
        let c = if n < self.sizes { any_size(if buf.len() < left { buf.len() } else { left }) } else { self.chunk[n % 3] };
        if c > 0 && k > c {
            k = c;
        }
        buf[..k].copy_from_slice(&self.data[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}
fn reader(data: Vec<u8>) -> Reader {
    Reader { data, pos: 0, call: 0, chunk: [0; 3], sizes: 0, intr: [usize::MAX; 2], fail: usize::MAX, kind: ErrorKind::Other, failed: false }
}
const CHUNKS: [[usize; 3]; 6] = [[0, 0, 0], [1, 1, 1], [2, 1, 3], [5, 5, 5], [3, 0, 1], [12, 1, 0]];
/// the same result as parsing the whole content
fn same_result(r: Result<Document, KissXmlError>, data: &[u8]) {
    if !utf8(data) {
        match r {
            Err(KissXmlError::IOError(_)) => {
                sym::emit(b"invalid");
                sym::cover(2);
            }
            Err(_) => sym::fail("invalid UTF-8 is not an I/O error"),
            Ok(_) => sym::fail("invalid UTF-8 was accepted"),
        }
        return;
    }
    let s = unsafe { std::str::from_utf8_unchecked(data) };
    match (r, kiss_xml::parse_str(s)) {
        (Ok(a), Ok(b)) => {
            same(a.root_element(), b.root_element(), "read");
            check!(a == b, "the document read differs from the one parsed from a string");
            let t = a.to_string();
            check!(t == b.to_string(), "the document read is serialized differently");
            sym::emit(t.as_bytes());
            sym::cover(1);
        }
        (Err(a), Err(b)) => {
            check!(!matches!(a, KissXmlError::IOError(_)), "a syntax error is reported as an I/O error");
            check!(a.to_string() == b.to_string(), "another error than when parsed from a string");
            sym::emit(b"error");
            sym::cover(3);
        }
        (Ok(_), Err(_)) => sym::fail("accepted from the reader, refused as a string"),
        (Err(_), Ok(_)) => sym::fail("refused from the reader, accepted as a string"),
    }
}
/// arbitrary bytes, however the reader splits and interrupts them
fn stream(n: usize, docs: usize, chunks: usize) {
    let data = bytes(sym::choice(docs), n);
    let mut r = reader(data.clone());
    r.chunk = CHUNKS[sym::choice(chunks)];
    if sym::choice(2) == 1 {
        r.intr = [sym::choice(3), 4];
    }
    let res = match sym::choice(2) {
        0 => kiss_xml::parse_stream(r),
        _ => kiss_xml::parse_stream(&mut r),
    };
    same_result(res, &data)
}
pub fn c17_stream1() {
    stream(1, 6, 6)
}
pub fn c17_stream2() {
    stream(2, 6, 3)
}
pub fn c17_stream3() {
    stream(3, 2, 2)
}
pub fn c17_stream4() {
    stream(4, 2, 2)
}
/// any valid character split in the middle
pub fn c17_split() {
    let mut s = String::from("<r a='");
    for _ in 0..sym::choice(3) {
        s.push('x');
    }
    g::uni_len(&mut s, 2 + sym::choice(3));
    s.push_str("'>");
    s.push_str(["", "0123456789", "0123456789012345678901"][sym::choice(3)]);
    g::uni_len(&mut s, 2 + sym::choice(3));
    s.push_str("</r>");
    let data = s.as_bytes().to_vec();
    let mut r = reader(data.clone());
    r.chunk = sizes();
    same_result(kiss_xml::parse_stream(r), &data)
}
/// a failure of any kind at any call
pub fn c17_readfail() {
    let mut s = String::from("<r>");
    g::ascii(&mut s);
    s.push_str("</r>");
    let at = sym::choice(6);
    let mut r = reader(s.as_bytes().to_vec());
    r.chunk = sizes();
    r.fail = at;
    if sym::choice(2) == 1 {
        r.intr = [sym::choice(3), usize::MAX];
    }
    r.kind = [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::BrokenPipe, ErrorKind::PermissionDenied, ErrorKind::InvalidData][sym::choice(6)];
    let kind = r.kind;
    let res = kiss_xml::parse_stream(&mut r);
    if !r.failed {
        // everything had been read before
        return same_result(res, s.as_bytes());
    }
    match res {
        Ok(_) => sym::fail("a document although reading failed"),
        Err(KissXmlError::IOError(e)) => {
            check!(e.kind() == kind, "another kind of I/O error");
            sym::emit(b"failed");
            sym::cover(4);
        }
        Err(_) => sym::fail("a read failure is not an I/O error"),
    }
}
/// sizes of the transfers (0: everything), cyclic
fn sizes() -> [usize; 3] {
    match sym::choice(2) {
        0 => [1 + sym::choice(9), 0, 0],
        _ => CHUNKS[sym::choice(6)],
    }
}
struct Sink {
    got: Vec<u8>,
    call: usize,
    chunk: [usize; 3],
    sizes: usize,
    intr: [usize; 2],
    fail: usize,
    kind: Option<ErrorKind>, // None: accepts nothing (Ok(0))
    failed: bool,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.call;
        self.call += 1;
        if self.intr.contains(&n) {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if n >= self.fail && !b.is_empty() {
            self.failed = true;
            return match self.kind {
                None => Ok(0),
                Some(k) => Err(Error::from(k)),
            };
        }
        let c = if n < self.sizes { any_size(b.len()) } else { self.chunk[n % 3] };
        let k = if c > 0 && b.len() > c { c } else { b.len() };
        self.got.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn sink(chunk: [usize; 3]) -> Sink {
    Sink { got: vec![], call: 0, chunk, sizes: 0, intr: [usize::MAX; 2], fail: usize::MAX, kind: None, failed: false }
}
fn sample() -> Document {
    let mut s = String::from("v");
    // (what serialization does with other characters is none of this property)
    match sym::choice(3) {
        0 => g::uni_len(&mut s, 2),
        1 => g::uni_len(&mut s, 4),
        _ => s.push_str("a&\"<"),
    }
    let e = match sym::choice(3) {
        0 => el("r").at("k", &s).kid(el("c").m()),
        1 => el("r").kid(M::T(s)),
        _ => el("r").kid(el("a").kid(el("b").m()).m()).kid(M::C("long comment text 0123456789 0123456789".to_string())),
    };
    let mut d = Document::new(build(&e, 0));
    match sym::choice(3) {
        0 => {}
        1 => d.set_declaration(None),
        _ => d.set_doctype_defs(Some(&[ok(DTD::from_string("<!DOCTYPE r>"), "constructor")])),
    }
    d
}
const INDENTS: [&str; 4] = ["  ", "\t", "", "?"];
/// exactly the bytes of the string form arrive
pub fn c17_write() {
    let d = sample();
    let mut w = sink(sizes());
    if sym::choice(2) == 1 {
        w.intr = [sym::choice(3), 4];
    }
    let i = sym::choice(4);
    let (r, want) = match sym::choice(2) {
        0 => (d.write_to_file(&mut w), d.to_string()),
        _ => (d.write_to_file_with_indent(&mut w, INDENTS[i]), d.to_string_with_indent(INDENTS[i])),
    };
    check!(r.is_ok(), "writing failed although every write was accepted");
    check!(w.got == want.as_bytes(), "the bytes written are not those of the string form");
    sym::emit(&w.got);
    sym::cover(1);
}
/// a write that fails, or accepts nothing, at any call
pub fn c17_writefail() {
    let d = sample();
    let mut w = sink(CHUNKS[sym::choice(6)]);
    w.fail = sym::choice(5);
    w.kind = [None, Some(ErrorKind::Other), Some(ErrorKind::BrokenPipe), Some(ErrorKind::WouldBlock), Some(ErrorKind::StorageFull)][sym::choice(5)];
    if sym::choice(2) == 1 {
        w.intr = [sym::choice(2), usize::MAX];
    }
    let kind = w.kind.unwrap_or(ErrorKind::WriteZero);
    let i = sym::choice(4);
    let (r, want) = match sym::choice(2) {
        0 => (d.write_to_file(&mut w), d.to_string()),
        _ => (d.write_to_file_with_indent(&mut w, INDENTS[i]), d.to_string_with_indent(INDENTS[i])),
    };
    if !w.failed {
        check!(r.is_ok() && w.got == want.as_bytes(), "the bytes written are not those of the string form");
        sym::cover(1);
        return;
    }
    match r {
        Ok(_) => sym::fail("a failed write is not reported"),
        Err(e) => check!(e.kind() == kind, "another kind of I/O error"),
    }
    check!(want.as_bytes().starts_with(&w.got), "other bytes than those of the string form were written");
    sym::emit(&w.got);
    sym::cover(2);
}

/// every way to split a short document; interruptions and a failure at any call
pub fn c17_schedule() {
    let mut s = String::from("<r>");
    g::uni_len(&mut s, 2 + sym::choice(2));
    s.push_str("</r>");
    let mut r = reader(s.as_bytes().to_vec());
    r.sizes = 12;
    r.intr = [sym::var(8) as usize, usize::MAX];
    same_result(kiss_xml::parse_stream(&mut r), s.as_bytes());
}
pub fn c17_failat() {
    let s = ["<r/>", "<r>t</r>\n"][sym::choice(2)];
    let mut r = reader(s.as_bytes().to_vec());
    r.sizes = 12;
    r.fail = sym::var(8) as usize;
    r.kind = [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::InvalidData, ErrorKind::WriteZero][sym::choice(6)];
    let kind = r.kind;
    let res = kiss_xml::parse_stream(&mut r);
    if !r.failed {
        return same_result(res, s.as_bytes());
    }
    match res {
        Ok(_) => sym::fail("a document although reading failed"),
        Err(KissXmlError::IOError(e)) => {
            check!(e.kind() == kind, "another kind of I/O error");
            sym::emit(b"failed");
            sym::cover(4);
        }
        Err(_) => sym::fail("a read failure is not an I/O error"),
    }
}
pub fn c17_writeat() {
    let mut s = String::from("v");
    g::uni_len(&mut s, 2 + sym::choice(3));
    let e = el("r").at("k", &s).kid(el("c").m());
    let mut d = Document::new(build(&e, 0));
    d.set_declaration(None);
    let mut w = sink([0, 3, 1]);
    w.sizes = 2;
    w.intr = [sym::var(8) as usize, usize::MAX];
    w.fail = sym::var(8) as usize;
    w.kind = [None, Some(ErrorKind::Other), Some(ErrorKind::UnexpectedEof)][sym::choice(3)];
    let kind = w.kind.unwrap_or(ErrorKind::WriteZero);
    let r = d.write_to_file(&mut w);
    let want = d.to_string();
    if !w.failed {
        check!(r.is_ok() && w.got == want.as_bytes(), "the bytes written are not those of the string form");
        sym::cover(1);
        return;
    }
    match r {
        Ok(_) => sym::fail("a failed write is not reported"),
        Err(e) => check!(e.kind() == kind, "another kind of I/O error"),
    }
    check!(want.as_bytes().starts_with(&w.got), "other bytes than those of the string form were written");
    sym::emit(&w.got);
    sym::cover(2);
}

// ---------------------------------------------------------------- documents longer than any buffer
const EDGES: [usize; 7] = [128, 512, 1024, 4096, 8192, 16384, 65536];
/// a text with a multi-byte character across a buffer boundary
fn across(raw: bool) -> Vec<u8> {
    let n = if raw { [1024, 8192][sym::choice(2)] } else { EDGES[sym::choice(EDGES.len())] } - 3;
    let back = sym::choice(4);
    let mut s = String::from("<r>");
    for _ in 0..n - back {
        s.push('x');
    }
    if !raw {
        g::uni_len(&mut s, 2 + sym::choice(3));
        s.push_str("y</r>");
        return s.into_bytes();
    }
    let mut v = s.into_bytes();
    // two arbitrary bytes in a frame of a valid character
    let (a, b): (&[u8], &[u8]) = [(&b"\xe4"[..], &b""[..]), (b"", b"\xad"), (b"\xf0", b"\x80"), (b"", b"")][sym::choice(4)];
    v.extend_from_slice(a);
    v.push(sym::var(8) as u8);
    v.push(sym::var(8) as u8);
    v.extend_from_slice(b);
    v.extend_from_slice(b"y</r>");
    v
}
fn long_read(raw: bool) {
    let data = across(raw);
    let r = match sym::choice(3) {
        0 => {
            let mut r = reader(data.clone());
            r.chunk = [[0, 0, 0], [8192, 4096, 8192], [1000, 0, 3000]][sym::choice(3)];
            kiss_xml::parse_stream(r)
        }
        1 => kiss_xml::parse_stream(data.as_slice()),
        _ => {
            fsm::reset();
            fsm::add("/kxfs/d.xml", false, &data);
            fsm::fs().plan.chunk = [0, 1000][sym::choice(2)];
            let r = kiss_xml::parse_filepath("/kxfs/d.xml");
            all_closed();
            r
        }
    };
    same_result(r, &data)
}
pub fn c17_longread() {
    long_read(false)
}
pub fn c17_longraw() {
    long_read(true)
}
pub fn c17_longwrite() {
    let n = EDGES[sym::choice(EDGES.len())];
    let mut s = String::from("");
    for _ in 0..n - sym::choice(4) {
        s.push('x');
    }
    g::uni_len(&mut s, 2 + sym::choice(3));
    s.push('y');
    let e = match sym::choice(3) {
        0 => el("r").kid(M::T(s)),
        1 => el("r").at("k", &s).kid(el("c").m()),
        _ => el("r").kid(M::C(s)).kid(el("c").m()),
    };
    let mut d = Document::new(build(&e, 0));
    d.set_declaration(None);
    let want = d.to_string();
    match sym::choice(2) {
        0 => {
            let mut w = sink([[0, 0, 0], [1000, 0, 3000]][sym::choice(2)]);
            w.fail = [usize::MAX, 1, 2][sym::choice(3)];
            let r = d.write_to_file(&mut w);
            check!(r.is_ok() != w.failed, "a failed write is not reported, or a failure was");
            check!(want.as_bytes().starts_with(&w.got), "other bytes than those of the string form were written");
            check!(w.failed || w.got.len() == want.len(), "the bytes written are not those of the string form");
        }
        _ => {
            fsm::reset();
            fsm::fs().plan.chunk = [0, 1000][sym::choice(2)];
            if sym::choice(2) == 1 {
                fsm::fs().plan.fail = Some((1 + sym::choice(2), b'w', fsm::ENOSPC));
            }
            let r = d.write_to_filepath("/kxfs/new.xml");
            all_closed();
            check!(r.is_ok() != fsm::fs().failed, "a failed write is not reported, or a failure was");
            if r.is_ok() {
                check!(fsm::data("/kxfs/new.xml").map(|x| x.as_slice()) == Some(want.as_bytes()), "the file does not hold the string form");
            }
        }
    }
    sym::cover(1);
}

// ---------------------------------------------------------------- files

fn plan(interruptions: bool) {
    let f = fsm::fs();
    f.plan.chunk = [0, 1, 7][sym::choice(3)];
    if interruptions && sym::choice(2) == 1 {
        f.plan.intr = [sym::choice(3), 4];
    }
}
fn all_closed() {
    check!(fsm::fs().opened == fsm::fs().closed, "a file was left open");
}
/// arbitrary bytes in a file, short and interrupted reads, a wrong size hint
fn file(n: usize, docs: usize) {
    fsm::reset();
    let data = bytes(sym::choice(docs), n);
    fsm::add("/kxfs/d.xml", false, &data);
    plan(true);
    fsm::fs().plan.size_off = [0, -1000, 5][sym::choice(3)];
    let r = match sym::choice(3) {
        0 => kiss_xml::parse_filepath("/kxfs/d.xml"),
        1 => kiss_xml::parse_filepath(std::path::PathBuf::from("/kxfs/d.xml")),
        _ => kiss_xml::parse_stream(match std::fs::File::open("/kxfs/d.xml") {
            Ok(f) => f,
            Err(_) => sym::fail("open"),
        }),
    };
    all_closed();
    same_result(r, &data)
}
pub fn c17_file1() {
    file(1, 6)
}
pub fn c17_file2() {
    file(2, 2)
}
pub fn c17_file3() {
    file(3, 2)
}
/// any character before, in or behind the root element of a file (or stream)
pub fn c17_fileuni() {
    fsm::reset();
    let mut s = String::new();
    let w = sym::choice(4);
    if w == 0 {
        g::uni(&mut s);
    }
    if w == 3 {
        s.push_str("<?xml version='1.0'?>\n");
        g::uni(&mut s);
    }
    s.push_str("<r>x");
    if w == 1 {
        g::uni(&mut s);
    }
    s.push_str("</r>");
    if w == 2 {
        g::uni(&mut s);
    }
    fsm::add("/kxfs/d.xml", false, s.as_bytes());
    fsm::fs().plan.chunk = [0, 1][sym::choice(2)];
    let r = match sym::choice(3) {
        0 => kiss_xml::parse_filepath("/kxfs/d.xml"),
        1 => kiss_xml::parse_stream(s.as_bytes()),
        _ => kiss_xml::parse_stream(match std::fs::File::open("/kxfs/d.xml") {
            Ok(f) => f,
            Err(_) => sym::fail("open"),
        }),
    };
    all_closed();
    same_result(r, s.as_bytes())
}
/// no file, no directory, a directory, or a failure of the n-th read
pub fn c17_filefail() {
    fsm::reset();
    let mut s = String::from("<r>");
    g::ascii(&mut s);
    s.push_str("</r>");
    fsm::add("/kxfs/d.xml", false, s.as_bytes());
    fsm::add("/kxfs/dir", true, b"");
    plan(false);
    let mut path = "/kxfs/d.xml";
    let w = sym::choice(6);
    match w {
        0 => path = "/kxfs/no.xml",
        1 => path = "/kxfs/no/d.xml",
        2 => path = "/kxfs/d.xml/x",
        3 => path = "/kxfs/dir",
        4 => fsm::fs().plan.fail = Some((0, b'o', fsm::EACCES)),
        _ => fsm::fs().plan.fail = Some((sym::choice(4), b'r', fsm::EIO)),
    }
    let r = kiss_xml::parse_filepath(path);
    all_closed();
    if w == 5 && !fsm::fs().failed {
        return same_result(r, s.as_bytes());
    }
    match r {
        Ok(_) => sym::fail("a document although reading failed"),
        Err(KissXmlError::IOError(_)) => {
            sym::emit(&[w as u8]);
            sym::cover(4);
        }
        Err(_) => sym::fail("a read failure is not an I/O error"),
    }
}
/// written to a file: new, existing (longer) or in directories that do not exist yet
pub fn c17_save() {
    fsm::reset();
    fsm::add("/kxfs/old.xml", false, &[b'z'; 300]);
    fsm::add("/kxfs/short.xml", false, b"zz");
    fsm::add("/kxfs/dir", true, b"");
    let d = sample();
    plan(true);
    let path = ["/kxfs/new.xml", "/kxfs/old.xml", "/kxfs/short.xml", "/kxfs/dir/new.xml", "/kxfs/a/b/c.xml", "kxfs.xml"][sym::choice(6)];
    let i = sym::choice(2);
    let (r, want) = match sym::choice(2) {
        0 => (d.write_to_filepath(path), d.to_string()),
        _ => (d.write_to_filepath_with_indent(path, INDENTS[i]), d.to_string_with_indent(INDENTS[i])),
    };
    check!(r.is_ok(), "writing to a file failed");
    all_closed();
    match fsm::data(path) {
        None => sym::fail("no file was written"),
        Some(x) => check!(x == want.as_bytes(), "the file does not hold the string form"),
    }
    // and it can be read again
    let b = match (kiss_xml::parse_filepath(path), kiss_xml::parse_str(want.as_str())) {
        (Ok(a), Ok(b)) => a == b,
        (Err(_), Err(_)) => true,
        _ => false,
    };
    check!(b, "the file written is not read back as the string form is parsed");
    sym::emit(want.as_bytes());
    sym::cover(1);
}
/// failures while writing a file
pub fn c17_savefail() {
    fsm::reset();
    fsm::add("/kxfs/dir", true, b"");
    fsm::add("/kxfs/file", false, b"x");
    let d = sample();
    plan(false);
    let mut path = "/kxfs/new.xml";
    match sym::choice(6) {
        0 => path = "/kxfs/dir",
        1 => path = "/kxfs/file/x.xml",
        2 => fsm::fs().plan.fail = Some((0, b'o', fsm::EACCES)),
        3 => {
            path = "/kxfs/a/b/c.xml";
            fsm::fs().plan.fail = Some((sym::choice(3), b'm', fsm::EACCES));
        }
        4 => fsm::fs().plan.fail = Some((0, b'w', fsm::ENOSPC)),
        _ => {
            fsm::fs().plan.chunk = 7;
            fsm::fs().plan.fail = Some((1 + sym::choice(3), b'w', fsm::EIO));
        }
    }
    let r = d.write_to_filepath(path);
    all_closed();
    let planned = fsm::fs().plan.fail.is_some();
    if planned && !fsm::fs().failed {
        check!(r.is_ok(), "writing to a file failed");
        sym::cover(1);
        return;
    }
    check!(r.is_err(), "a failed write is not reported");
    check!(fsm::data("/kxfs/file").map(|x| x.as_slice()) == Some(b"x"), "another file was changed");
    sym::emit(&[1]);
    sym::cover(2);
}
