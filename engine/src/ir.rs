//! Reader for textual LLVM IR: module layout (globals, functions) up front, function bodies lazily.
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u8),
    Ptr,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u64, Box<Ty>),
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                b.next_power_of_two()
            }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                let mut al = 1;
                for t in f {
                    let a = if *packed { 1 } else { t.align() };
                    al = al.max(a);
                    o = (o + a - 1) / a * a + t.size();
                }
                (o + al - 1) / al * al
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// scalar slots: (byte offset, bit width)
    pub fn slots(&self) -> Vec<(u64, u8)> {
        let mut v = vec![];
        self.slots_at(0, &mut v);
        v
    }
    fn slots_at(&self, o: u64, v: &mut Vec<(u64, u8)>) {
        match self {
            Ty::Int(w) => v.push((o, *w)),
            Ty::Ptr => v.push((o, 64)),
            Ty::Arr(n, t) => {
                for i in 0..*n {
                    t.slots_at(o + i * t.size(), v)
                }
            }
            Ty::Vec(n, t) => {
                for i in 0..*n {
                    t.slots_at(o + i * t.size(), v)
                }
            }
            Ty::Struct(f, p) => {
                let mut off = 0;
                for t in f {
                    let a = if *p { 1 } else { t.align() };
                    off = (off + a - 1) / a * a;
                    t.slots_at(o + off, v);
                    off += t.size();
                }
            }
            _ => {}
        }
    }
    pub fn nslots(&self) -> usize {
        match self {
            Ty::Int(_) | Ty::Ptr => 1,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.nslots(),
            Ty::Struct(f, _) => f.iter().map(|t| t.nslots()).sum(),
            _ => 0,
        }
    }
    fn field_off(&self, i: usize) -> (u64, &Ty) {
        match self {
            Ty::Struct(f, p) => {
                let mut off = 0;
                for (j, t) in f.iter().enumerate() {
                    let a = if *p { 1 } else { t.align() };
                    off = (off + a - 1) / a * a;
                    if j == i {
                        return (off, t);
                    }
                    off += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i as u64 * t.size(), t),
            _ => panic!("field of scalar"),
        }
    }
    fn slot_range(&self, idx: &[usize]) -> (usize, &Ty) {
        let mut o = 0;
        let mut t = self;
        for &i in idx {
            match t {
                Ty::Struct(f, _) => {
                    o += f[..i].iter().map(|x| x.nslots()).sum::<usize>();
                    t = &f[i];
                }
                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                    o += i * e.nslots();
                    t = e;
                }
                _ => panic!(),
            }
        }
        (o, t)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    Loc(String),
    Glob(String),
    Num(String),
    Str(Vec<u8>),
    P(char),
    Meta,
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    fn quoted(b: &[u8], mut i: usize) -> (Vec<u8>, usize) {
        // b[i] == '"'
        i += 1;
        let mut out = vec![];
        while b[i] != b'"' {
            if b[i] == b'\\' && i + 2 < b.len() && (b[i + 1] as char).is_ascii_hexdigit() && (b[i + 2] as char).is_ascii_hexdigit() {
                out.push(u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap(), 16).unwrap());
                i += 3;
            } else if b[i] == b'\\' && b[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
            } else {
                out.push(b[i]);
                i += 1;
            }
        }
        (out, i + 1)
    }
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let (name, e) = if b[i + 1] == b'"' {
                    let (o, e) = quoted(b, i + 1);
                    (String::from_utf8_lossy(&o).into_owned(), e)
                } else {
                    let mut e = i + 1;
                    while e < b.len() && idc(b[e]) {
                        e += 1
                    }
                    (s[i + 1..e].to_string(), e)
                };
                v.push(if c == b'%' { Tok::Loc(name) } else { Tok::Glob(name) });
                i = e;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let (o, e) = quoted(b, i + 1);
                v.push(Tok::Str(o));
                i = e;
            }
            b'"' => {
                let (o, e) = quoted(b, i);
                v.push(Tok::Str(o));
                i = e;
            }
            b'!' | b'#' => {
                let mut e = i + 1;
                while e < b.len() && idc(b[e]) {
                    e += 1
                }
                v.push(Tok::Meta);
                i = e;
            }
            b'-' | b'0'..=b'9' => {
                let mut e = i + 1;
                while e < b.len() && (b[e].is_ascii_alphanumeric() || b[e] == b'.' || b[e] == b'+') {
                    e += 1
                }
                v.push(Tok::Num(s[i..e].to_string()));
                i = e;
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let mut e = i;
                while e < b.len() && idc(b[e]) {
                    e += 1
                }
                v.push(Tok::Id(s[i..e].to_string()));
                i = e;
            }
            _ => {
                v.push(Tok::P(c as char));
                i += 1
            }
        }
    }
    v
}

pub struct Ps<'a> {
    pub t: &'a [Tok],
    pub i: usize,
    pub m: &'a Module,
}

#[derive(Clone, Debug)]
pub enum Cv {
    /// local value name
    Loc(String),
    /// constant slots
    K(Vec<u128>),
}

type R<T> = Result<T, String>;

impl<'a> Ps<'a> {
    pub fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    pub fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == c)
    }
    pub fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == s)
    }
    pub fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn exp_p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {c} at {:?} in {:?}", self.peek(), &self.t[..self.t.len().min(30)]))
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        let t = match self.peek().cloned() {
            Some(Tok::Id(s)) => {
                self.i += 1;
                match s.as_str() {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.eat_id("addrspace") {
                            self.exp_p('(')?;
                            self.i += 1;
                            self.exp_p(')')?;
                        }
                        Ty::Ptr
                    }
                    "label" | "metadata" | "token" | "opaque" => Ty::Other,
                    "float" => Ty::Int(32),
                    "double" => Ty::Int(64),
                    s if s.starts_with('i') && s[1..].parse::<u32>().is_ok() => {
                        let w: u32 = s[1..].parse().unwrap();
                        if w > 128 {
                            return Err(format!("integer type i{w}"));
                        }
                        Ty::Int(w as u8)
                    }
                    _ => return Err(format!("type {s}")),
                }
            }
            Some(Tok::P('[')) => {
                self.i += 1;
                let n = self.num()?;
                self.eat_id("x");
                let t = self.ty()?;
                self.exp_p(']')?;
                Ty::Arr(n, Box::new(t))
            }
            Some(Tok::P('<')) => {
                self.i += 1;
                if self.is_p('{') {
                    let t = self.struct_body(true)?;
                    self.exp_p('>')?;
                    t
                } else {
                    let n = self.num()?;
                    self.eat_id("x");
                    let t = self.ty()?;
                    self.exp_p('>')?;
                    Ty::Vec(n, Box::new(t))
                }
            }
            Some(Tok::P('{')) => self.struct_body(false)?,
            Some(Tok::Loc(n)) => {
                self.i += 1;
                self.m.named.get(&n).cloned().ok_or(format!("named type {n}"))?
            }
            x => return Err(format!("type expected, got {x:?}")),
        };
        Ok(t)
    }
    fn struct_body(&mut self, packed: bool) -> R<Ty> {
        self.exp_p('{')?;
        let mut f = vec![];
        while !self.is_p('}') {
            f.push(self.ty()?);
            if !self.eat_p(',') {
                break;
            }
        }
        self.exp_p('}')?;
        Ok(Ty::Struct(f, packed))
    }
    pub fn num(&mut self) -> R<u64> {
        match self.peek() {
            Some(Tok::Num(n)) => {
                let r = n.parse::<u64>().map_err(|e| format!("{n}: {e}"));
                self.i += 1;
                r
            }
            x => Err(format!("number expected, got {x:?}")),
        }
    }
    /// skip a parameter / return attribute if one is here
    pub fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    let s = s.clone();
                    match s.as_str() {
                        "null" | "undef" | "poison" | "zeroinitializer" | "true" | "false" | "getelementptr" | "inttoptr" | "ptrtoint"
                        | "splat" | "bitcast" | "sub" | "add" | "trunc" | "asm" | "dso_local_equivalent" | "no_cfi" | "void" | "ptr"
                        | "label" | "metadata" | "float" | "double" => return,
                        _ => {}
                    }
                    if s.starts_with('i') && s[1..].parse::<u32>().is_ok() {
                        return;
                    }
                    self.i += 1;
                    if s == "align" || s == "dereferenceable_or_null" && !self.is_p('(') {
                        if matches!(self.peek(), Some(Tok::Num(_))) {
                            self.i += 1;
                            continue;
                        }
                    }
                    if self.is_p('(') {
                        self.skip_parens();
                    }
                }
                Some(Tok::Meta) => self.i += 1,
                Some(Tok::Str(_)) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    pub fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.peek() {
                Some(Tok::P('(')) => d += 1,
                Some(Tok::P(')')) => d -= 1,
                None => return,
                _ => {}
            }
            self.i += 1;
            if d == 0 {
                return;
            }
        }
    }
    pub fn val(&mut self, ty: &Ty) -> R<Cv> {
        let tok = self.peek().cloned().ok_or("value expected")?;
        Ok(match tok {
            Tok::Loc(n) => {
                self.i += 1;
                Cv::Loc(n)
            }
            Tok::Glob(n) => {
                self.i += 1;
                Cv::K(vec![self.m.sym(&n)? as u128])
            }
            Tok::Num(n) => {
                self.i += 1;
                let w = match ty {
                    Ty::Int(w) => *w,
                    _ => 64,
                };
                let v: u128 = if let Some(h) = n.strip_prefix("0x") {
                    u128::from_str_radix(h.trim_start_matches(|c: char| c.is_ascii_uppercase() && !c.is_ascii_hexdigit()), 16)
                        .map_err(|e| format!("{n} {e}"))?
                } else if n.starts_with('-') {
                    n.parse::<i128>().map_err(|e| format!("{n} {e}"))? as u128
                } else if n.contains('.') {
                    n.parse::<f64>().map_err(|e| format!("{n} {e}"))?.to_bits() as u128
                } else {
                    n.parse::<u128>().map_err(|e| format!("{n} {e}"))?
                };
                Cv::K(vec![v & crate::expr::mask(w)])
            }
            Tok::Str(b) => {
                self.i += 1;
                Cv::K(b.iter().map(|x| *x as u128).collect())
            }
            Tok::P('{') => {
                self.i += 1;
                let v = self.agg('}')?;
                Cv::K(v)
            }
            Tok::P('[') => {
                self.i += 1;
                Cv::K(self.agg(']')?)
            }
            Tok::P('<') => {
                self.i += 1;
                if self.eat_p('{') {
                    let v = self.agg('}')?;
                    self.exp_p('>')?;
                    Cv::K(v)
                } else {
                    Cv::K(self.agg('>')?)
                }
            }
            Tok::Id(s) => {
                self.i += 1;
                match s.as_str() {
                    "true" => Cv::K(vec![1]),
                    "false" | "null" => Cv::K(vec![0]),
                    "undef" | "poison" | "zeroinitializer" => Cv::K(vec![0; ty.nslots()]),
                    "none" => Cv::K(vec![0]),
                    "splat" => {
                        self.exp_p('(')?;
                        let t = self.ty()?;
                        let v = self.kval(&t)?;
                        self.exp_p(')')?;
                        Cv::K(vec![v; ty.nslots()])
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                        self.exp_p('(')?;
                        let t = self.ty()?;
                        let v = self.kval(&t)?;
                        self.eat_id("to");
                        let t2 = self.ty()?;
                        self.exp_p(')')?;
                        let w = t2.slots()[0].1;
                        Cv::K(vec![v & crate::expr::mask(w)])
                    }
                    "sub" | "add" | "xor" => {
                        while matches!(self.peek(), Some(Tok::Id(_))) {
                            self.i += 1
                        }
                        self.exp_p('(')?;
                        let t = self.ty()?;
                        let a = self.kval(&t)?;
                        self.exp_p(',')?;
                        let t2 = self.ty()?;
                        let b = self.kval(&t2)?;
                        self.exp_p(')')?;
                        let w = t.slots()[0].1;
                        let r = match s.as_str() {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            _ => a ^ b,
                        };
                        Cv::K(vec![r & crate::expr::mask(w)])
                    }
                    "getelementptr" => {
                        while let Some(Tok::Id(_)) = self.peek() {
                            self.i += 1;
                            if self.is_p('(') && matches!(self.t.get(self.i - 1), Some(Tok::Id(x)) if x == "inrange") {
                                self.skip_parens();
                            }
                        }
                        self.exp_p('(')?;
                        let t = self.ty()?;
                        self.exp_p(',')?;
                        let pt = self.ty()?;
                        let base = self.kval(&pt)?;
                        let mut off = 0i128;
                        let mut cur = t;
                        let mut first = true;
                        while self.eat_p(',') {
                            let it = self.ty()?;
                            let iv = self.kval(&it)?;
                            let iw = it.slots()[0].1;
                            let iv = crate::expr::sext(iv, iw);
                            if first {
                                off += iv * cur.size() as i128;
                                first = false;
                            } else {
                                let (o, nt) = cur.field_off(iv as usize);
                                off += o as i128;
                                cur = nt.clone();
                            }
                        }
                        self.exp_p(')')?;
                        Cv::K(vec![(base as i128 + off) as u128 & crate::expr::mask(64)])
                    }
                    _ => return Err(format!("value {s}")),
                }
            }
            x => return Err(format!("value {x:?}")),
        })
    }
    fn kval(&mut self, t: &Ty) -> R<u128> {
        match self.val(t)? {
            Cv::K(v) => v.first().copied().ok_or("empty const".into()),
            Cv::Loc(n) => Err(format!("local {n} in constant")),
        }
    }
    fn agg(&mut self, close: char) -> R<Vec<u128>> {
        let mut out = vec![];
        while !self.is_p(close) {
            let t = self.ty()?;
            match self.val(&t)? {
                Cv::K(v) => out.extend(v),
                _ => return Err("local in aggregate".into()),
            }
            if !self.eat_p(',') {
                break;
            }
        }
        self.exp_p(close)?;
        Ok(out)
    }
}

pub const GLOBAL_BASE: u64 = 0x10000;
pub const FUNC_BASE: u64 = 0x7000_0000_0000;

pub struct FnDecl {
    pub name: String,
    /// line range of the body (0..0 for a declaration)
    pub lines: (usize, usize),
    pub body: OnceLock<Result<Box<Func>, String>>,
    pub builtin: OnceLock<u32>,
}

pub struct Module {
    pub text: String,
    pub line_off: Vec<(usize, usize)>,
    pub named: HashMap<String, Ty>,
    pub syms: HashMap<String, u64>,
    pub funcs: Vec<FnDecl>,
    pub fidx: HashMap<String, usize>,
    pub image: Vec<u8>, // from GLOBAL_BASE
    pub const_ranges: Vec<(u64, u64)>,
}

impl Module {
    pub fn line(&self, i: usize) -> &str {
        let (a, b) = self.line_off[i];
        &self.text[a..b]
    }
    pub fn sym(&self, n: &str) -> R<u64> {
        self.syms.get(n).copied().ok_or(format!("symbol {n}"))
    }
    pub fn load(text: String) -> R<Module> {
        let mut line_off = vec![];
        let mut p = 0;
        for l in text.split('\n') {
            line_off.push((p, p + l.len()));
            p += l.len() + 1;
        }
        let mut m = Module {
            text,
            line_off,
            named: HashMap::new(),
            syms: HashMap::new(),
            funcs: vec![],
            fidx: HashMap::new(),
            image: vec![],
            const_ranges: vec![],
        };
        let n = m.line_off.len();
        let mut globals: Vec<(String, usize)> = vec![];
        let mut aliases: Vec<(String, usize)> = vec![];
        let mut i = 0;
        while i < n {
            let l = m.line(i);
            if l.starts_with('%') {
                let toks = lex(l);
                if let Tok::Loc(name) = &toks[0] {
                    let name = name.clone();
                    let mut ps = Ps { t: &toks, i: 3, m: &m };
                    let t = ps.ty()?;
                    m.named.insert(name, t);
                }
            } else if l.starts_with('@') {
                let toks = lex(&l[..l.len().min(600)].split(" = ").next().unwrap());
                if let Tok::Glob(name) = &toks[0] {
                    let rest = l.split_once(" = ").map(|x| x.1).unwrap_or("");
                    let head: Vec<&str> = rest.split(' ').take(6).collect();
                    if head.contains(&"alias") {
                        aliases.push((name.clone(), i));
                    } else {
                        globals.push((name.clone(), i));
                    }
                }
            } else if l.starts_with("define ") || l.starts_with("declare ") {
                let at = l.find('@').ok_or("no name")?;
                let toks = lex(&l[at..]);
                let name = match &toks[0] {
                    Tok::Glob(n) => n.clone(),
                    _ => return Err("fn name".into()),
                };
                let start = i;
                let mut end = i;
                if l.starts_with("define ") {
                    while m.line(end) != "}" {
                        end += 1;
                    }
                    i = end;
                }
                let id = m.funcs.len();
                m.syms.insert(name.clone(), FUNC_BASE + 16 * id as u64);
                m.fidx.insert(name.clone(), id);
                m.funcs.push(FnDecl {
                    name,
                    lines: if end > start { (start, end) } else { (start, start) },
                    body: OnceLock::new(),
                    builtin: OnceLock::new(),
                });
            }
            i += 1;
        }
        // lay out globals
        let mut addr = GLOBAL_BASE;
        let mut todo = vec![];
        for (name, li) in &globals {
            let l = m.line(*li);
            let toks = lex(l.split_once(" = ").unwrap().1);
            let mut k = 0;
            let mut is_const = false;
            let mut ext = false;
            loop {
                match &toks[k] {
                    Tok::Id(s) if s == "constant" || s == "global" => {
                        is_const = s == "constant";
                        k += 1;
                        break;
                    }
                    Tok::Id(s) => {
                        if s == "external" || s == "extern_weak" {
                            ext = true
                        }
                        k += 1;
                        if matches!(toks[k], Tok::P('(')) {
                            let mut ps = Ps { t: &toks, i: k, m: &m };
                            ps.skip_parens();
                            k = ps.i;
                        }
                    }
                    x => return Err(format!("global {name}: {x:?}")),
                }
            }
            let (ty, pos) = {
                let mut ps = Ps { t: &toks, i: k, m: &m };
                (ps.ty()?, ps.i)
            };
            if ext {
                m.syms.insert(name.clone(), 0);
                continue;
            }
            let al = ty.align().max(16);
            addr = (addr + al - 1) / al * al;
            m.syms.insert(name.clone(), addr);
            if is_const {
                m.const_ranges.push((addr, addr + ty.size()));
            }
            todo.push((addr, ty.clone(), toks, pos));
            addr += ty.size().max(1);
        }
        for (name, li) in &aliases {
            let l = m.line(*li);
            let toks = lex(l);
            let target = toks.iter().skip(1).rev().find_map(|t| if let Tok::Glob(g) = t { Some(g.clone()) } else { None });
            if let Some(t) = target {
                if let Some(&a) = m.syms.get(&t) {
                    m.syms.insert(name.clone(), a);
                    if let Some(&f) = m.fidx.get(&t) {
                        m.fidx.insert(name.clone(), f);
                    }
                }
            }
        }
        let mut image = vec![0u8; (addr - GLOBAL_BASE) as usize + 64];
        for (a, ty, toks, pos) in todo {
            let mut ps = Ps { t: &toks, i: pos, m: &m };
            let v = match ps.val(&ty)? {
                Cv::K(v) => v,
                _ => return Err("global init".into()),
            };
            let sl = ty.slots();
            if sl.len() != v.len() {
                return Err(format!("init slots {} vs {}", sl.len(), v.len()));
            }
            for ((o, w), x) in sl.iter().zip(v.iter()) {
                let nb = (*w as usize + 7) / 8;
                let p = (a - GLOBAL_BASE + o) as usize;
                image[p..p + nb].copy_from_slice(&x.to_le_bytes()[..nb]);
            }
        }
        m.image = image;
        Ok(m)
    }
    pub fn func(&self, id: usize) -> Result<&Func, &String> {
        self.funcs[id].body.get_or_init(|| compile(self, id).map(Box::new).map_err(|e| format!("{}: {e}", self.funcs[id].name))).as_ref().map(|f| &**f)
    }
}

// ---------------------------------------------------------------------------
pub type Opd = u32; // < CONST_BIT: register; otherwise constant pool index
pub const CB: u32 = 0x8000_0000;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Debug)]
pub struct Edge {
    pub to: u32,
    pub copies: Vec<(u32, Opd)>,
}
#[derive(Clone, Debug)]
pub enum Target {
    Fn(u32),
    Ind(Opd),
}
#[derive(Clone, Debug)]
pub enum Inst {
    Bin(Bop, u8, u32, Opd, Opd),
    Icmp(Pred, u8, u32, Opd, Opd),
    Trunc(u8, u32, Opd),
    Zext(u8, u8, u32, Opd),
    Sext(u8, u8, u32, Opd),
    Mov(u32, Opd),
    Select(u32, Opd, Opd, Opd, u8),
    Load1(u32, Opd, u8),
    Load(u32, Opd, Box<[(u64, u8)]>),
    Store1(Opd, Opd, u8),
    Store(Box<[Opd]>, Opd, Box<[(u64, u8)]>),
    Gep(u32, Opd, i64, Box<[(Opd, u64, u8)]>),
    Gep0(u32, Opd, i64),
    Alloca(u32, u64, u64),
    Call(Box<(u32, u32, Target, Vec<Opd>, Vec<u8>)>), // dst, nres, target, args, result widths
    Br(Box<Edge>),
    CondBr(Opd, Box<(Edge, Edge)>),
    Switch(Box<(Opd, u8, Vec<(u128, Edge)>, Edge)>),
    Ret(Box<[Opd]>),
    Pack(u32, Box<[Opd]>, u8, Box<[(u32, u8)]>), // bitcast between lanes: src operands, src width, (dst reg,width)
    AtomicRmw(u32, String, Opd, Opd, u8),
    CmpXchg(u32, Opd, Opd, Opd, u8),
    Unreachable,
    Unsupported(String),
}

pub struct Func {
    pub id: usize,
    pub name: String,
    pub nregs: u32,
    pub args: Vec<(u32, u32)>, // first reg, nslots
    pub insts: Vec<Inst>,
    pub consts: Vec<u128>,
}

struct Cx<'a> {
    m: &'a Module,
    regs: HashMap<String, (u32, Ty)>,
    nregs: u32,
    consts: Vec<u128>,
    cmap: HashMap<u128, u32>,
}
impl<'a> Cx<'a> {
    fn k(&mut self, v: u128) -> Opd {
        if let Some(i) = self.cmap.get(&v) {
            return *i;
        }
        let i = CB | self.consts.len() as u32;
        self.consts.push(v);
        self.cmap.insert(v, i);
        i
    }
    fn opds(&mut self, v: &Cv, ty: &Ty) -> R<Vec<Opd>> {
        match v {
            Cv::Loc(n) => {
                let (r, t) = self.regs.get(n).cloned().ok_or(format!("reg %{n}"))?;
                Ok((0..t.nslots().max(ty.nslots()) as u32).map(|i| r + i).collect())
            }
            Cv::K(v) => Ok(v.iter().map(|x| self.k(*x)).collect()),
        }
    }
    fn def(&mut self, n: &str, ty: &Ty) -> u32 {
        if let Some((r, _)) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += ty.nslots() as u32;
        self.regs.insert(n.to_string(), (r, ty.clone()));
        r
    }
}

/// a vector of single bits is packed in memory
fn bits_vec(t: &Ty) -> Option<u8> {
    match t {
        Ty::Vec(n, e) if matches!(**e, Ty::Int(1)) && *n <= 128 => Some(*n as u8),
        _ => None,
    }
}
fn lane_ty(t: &Ty) -> (u8, usize) {
    match t {
        Ty::Int(w) => (*w, 1),
        Ty::Ptr => (64, 1),
        Ty::Vec(n, e) => (lane_ty(e).0, *n as usize),
        _ => (0, t.nslots()),
    }
}

/// result type of an instruction, so that registers can be assigned before bodies are lowered
fn result_ty(m: &Module, toks: &[Tok]) -> R<Ty> {
    let mut ps = Ps { t: toks, i: 0, m };
    while ps.eat_id("tail") || ps.eat_id("musttail") || ps.eat_id("notail") {}
    let op = match ps.peek() {
        Some(Tok::Id(s)) => s.clone(),
        x => return Err(format!("opcode {x:?}")),
    };
    ps.i += 1;
    let skipflags = |ps: &mut Ps| {
        while let Some(Tok::Id(s)) = ps.peek() {
            match s.as_str() {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "atomic" | "fast" | "nnan"
                | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "weak" => ps.i += 1,
                _ => break,
            }
        }
    };
    match op.as_str() {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "freeze" | "load" | "phi"
        | "fadd" | "fsub" | "fmul" | "fdiv" | "fneg" => {
            skipflags(&mut ps);
            ps.ty()
        }
        "icmp" | "fcmp" => {
            skipflags(&mut ps);
            ps.i += 1;
            skipflags(&mut ps);
            Ok(match ps.ty()? {
                Ty::Vec(n, _) => Ty::Vec(n, Box::new(Ty::Int(1))),
                _ => Ty::Int(1),
            })
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext"
        | "fptrunc" | "addrspacecast" => {
            skipflags(&mut ps);
            let t = ps.ty()?;
            ps.val(&t)?;
            ps.eat_id("to");
            ps.ty()
        }
        "getelementptr" | "alloca" => Ok(Ty::Ptr),
        "select" => {
            skipflags(&mut ps);
            let t = ps.ty()?;
            ps.val(&t)?;
            ps.exp_p(',')?;
            ps.ty()
        }
        "extractvalue" => {
            let t = ps.ty()?;
            ps.val(&t)?;
            let mut idx = vec![];
            while ps.eat_p(',') {
                idx.push(ps.num()? as usize)
            }
            Ok(t.slot_range(&idx).1.clone())
        }
        "insertvalue" => ps.ty(),
        "extractelement" => match ps.ty()? {
            Ty::Vec(_, e) => Ok(*e),
            _ => Err("extractelement".into()),
        },
        "insertelement" => ps.ty(),
        "shufflevector" => {
            let t = ps.ty()?;
            ps.val(&t)?;
            ps.exp_p(',')?;
            let t2 = ps.ty()?;
            ps.val(&t2)?;
            ps.exp_p(',')?;
            let mt = ps.ty()?;
            match (t, mt) {
                (Ty::Vec(_, e), Ty::Vec(n, _)) => Ok(Ty::Vec(n, e)),
                _ => Err("shuffle".into()),
            }
        }
        "call" | "invoke" => {
            ps.skip_attrs_call();
            let t = ps.ty()?;
            Ok(t)
        }
        "landingpad" => ps.ty(),
        "atomicrmw" => {
            skipflags(&mut ps);
            ps.i += 1;
            ps.ty()?;
            ps.val(&Ty::Ptr)?;
            ps.exp_p(',')?;
            ps.ty()
        }
        "cmpxchg" => {
            skipflags(&mut ps);
            ps.ty()?;
            ps.val(&Ty::Ptr)?;
            ps.exp_p(',')?;
            let t = ps.ty()?;
            Ok(Ty::Struct(vec![t, Ty::Int(1)], false))
        }
        _ => Err(format!("opcode {op}")),
    }
}

impl<'a> Ps<'a> {
    fn skip_attrs_call(&mut self) {
        // calling convention and return attributes
        self.skip_attrs();
    }
}

fn compile(m: &Module, id: usize) -> R<Func> {
    let (s, e) = m.funcs[id].lines;
    let head = m.line(s);
    let toks = lex(head);
    let mut cx = Cx { m, regs: HashMap::new(), nregs: 0, consts: vec![], cmap: HashMap::new() };
    // parameters
    let mut ps = Ps { t: &toks, i: 0, m };
    while !matches!(ps.peek(), Some(Tok::Glob(_))) {
        ps.i += 1
    }
    ps.i += 1;
    ps.exp_p('(')?;
    let mut args = vec![];
    let mut argi = 0usize;
    while !ps.is_p(')') {
        if ps.eat_p('.') || matches!(ps.peek(), Some(Tok::Id(s)) if s.starts_with("...")) {
            ps.i += 1;
            continue;
        }
        let t = ps.ty()?;
        ps.skip_attrs();
        let name = match ps.peek() {
            Some(Tok::Loc(n)) => {
                let n = n.clone();
                ps.i += 1;
                n
            }
            _ => argi.to_string(),
        };
        argi += 1;
        let r = cx.def(&name, &t);
        args.push((r, t.nslots() as u32));
        if !ps.eat_p(',') {
            break;
        }
    }
    // split into blocks
    let mut blocks: Vec<(String, Vec<Vec<Tok>>)> = vec![];
    let mut cur: (String, Vec<Vec<Tok>>) = (argi.to_string(), vec![]);
    let mut i = s + 1;
    while i < e {
        let l = m.line(i);
        i += 1;
        if l.trim().is_empty() {
            continue;
        }
        if !l.starts_with(' ') {
            let name = if l.starts_with('"') {
                let q = l[1..].find('"').unwrap();
                l[1..q + 1].to_string()
            } else {
                match l.find(':') {
                    Some(c) => l[..c].to_string(),
                    None => return Err(format!("line {l}")),
                }
            };
            if !(cur.1.is_empty() && blocks.is_empty()) {
                blocks.push(cur);
            }
            cur = (name, vec![]);
            continue;
        }
        let mut text = l.to_string();
        // multi-line switch / landingpad clauses
        if text.trim_start().starts_with("switch ") && !text.contains(']') {
            loop {
                let n = m.line(i);
                i += 1;
                text.push(' ');
                text.push_str(n);
                if n.trim_start().starts_with(']') {
                    break;
                }
            }
        }
        if text.contains(" invoke ") && !text.contains(" unwind label") {
            text.push(' ');
            text.push_str(m.line(i));
            i += 1;
        }
        let tr = text.trim_start();
        if tr.starts_with("cleanup") || tr.starts_with("catch ") || tr.starts_with("filter ") {
            continue;
        }
        if let Some(p) = text.find(", !") {
            // attachments come last; a call's metadata argument is only on calls we ignore
            if !text.contains("(metadata") {
                text.truncate(p);
            }
        }
        cur.1.push(lex(&text));
    }
    blocks.push(cur);
    let bidx: HashMap<String, usize> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i)).collect();
    // assign result registers
    for (_, b) in &blocks {
        for t in b {
            if t.len() > 2 && t[1] == Tok::P('=') {
                if let Tok::Loc(n) = &t[0] {
                    let ty = result_ty(m, &t[2..])?;
                    cx.def(n, &ty);
                }
            }
        }
    }
    // phis per block: (dst, ty, [(val, pred)])
    struct Phi {
        dst: u32,
        ty: Ty,
        inc: Vec<(Cv, String)>,
    }
    let mut phis: Vec<Vec<Phi>> = vec![];
    for (_, b) in &blocks {
        let mut v = vec![];
        for t in b {
            if t.len() > 3 && t[1] == Tok::P('=') && t[2] == Tok::Id("phi".into()) {
                let n = match &t[0] {
                    Tok::Loc(n) => n.clone(),
                    _ => return Err("phi".into()),
                };
                let mut ps = Ps { t, i: 3, m };
                let ty = ps.ty()?;
                let mut inc = vec![];
                loop {
                    ps.exp_p('[')?;
                    let x = ps.val(&ty)?;
                    ps.exp_p(',')?;
                    let l = match ps.peek() {
                        Some(Tok::Loc(l)) => l.clone(),
                        x => return Err(format!("phi label {x:?}")),
                    };
                    ps.i += 1;
                    ps.exp_p(']')?;
                    inc.push((x, l));
                    if !ps.eat_p(',') {
                        break;
                    }
                }
                v.push(Phi { dst: cx.def(&n, &ty), ty, inc });
            }
        }
        phis.push(v);
    }
    let mut insts: Vec<Inst> = vec![];
    let mut starts = vec![0u32; blocks.len()];
    macro_rules! edge {
        ($from:expr, $to:expr) => {{
            let to: &String = $to;
            let ti = *bidx.get(to).ok_or(format!("label {to}"))?;
            let mut copies = vec![];
            for p in &phis[ti] {
                let (v, _) = p.inc.iter().find(|(_, l)| l == $from).ok_or(format!("phi from {} to {to}", $from))?;
                let o = cx.opds(v, &p.ty)?;
                for (j, x) in o.iter().enumerate() {
                    if *x != p.dst + j as u32 {
                        copies.push((p.dst + j as u32, *x));
                    }
                }
            }
            Edge { to: ti as u32, copies }
        }};
    }
    for (bi, (bname, b)) in blocks.iter().enumerate() {
        starts[bi] = insts.len() as u32;
        for t in b {
            let (dst, body): (Option<(u32, Ty)>, &[Tok]) = if t.len() > 2 && t[1] == Tok::P('=') {
                let n = match &t[0] {
                    Tok::Loc(n) => n.clone(),
                    _ => return Err("dst".into()),
                };
                (Some(cx.regs[&n].clone()), &t[2..])
            } else {
                (None, &t[..])
            };
            let mut ps = Ps { t: body, i: 0, m };
            while ps.eat_id("tail") || ps.eat_id("musttail") || ps.eat_id("notail") {}
            let op = match ps.peek() {
                Some(Tok::Id(s)) => s.clone(),
                x => return Err(format!("opcode {x:?}")),
            };
            ps.i += 1;
            let d = dst.as_ref().map(|x| x.0).unwrap_or(0);
            let flags = |ps: &mut Ps| {
                while let Some(Tok::Id(s)) = ps.peek() {
                    match s.as_str() {
                        "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "atomic" | "weak" => {
                            ps.i += 1
                        }
                        _ => break,
                    }
                }
            };
            match op.as_str() {
                "phi" => {}
                "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                    flags(&mut ps);
                    let ty = ps.ty()?;
                    let a = ps.val(&ty)?;
                    ps.exp_p(',')?;
                    let b = ps.val(&ty)?;
                    let (w, n) = lane_ty(&ty);
                    let (a, b) = (cx.opds(&a, &ty)?, cx.opds(&b, &ty)?);
                    let o = match op.as_str() {
                        "add" => Bop::Add,
                        "sub" => Bop::Sub,
                        "mul" => Bop::Mul,
                        "udiv" => Bop::UDiv,
                        "sdiv" => Bop::SDiv,
                        "urem" => Bop::URem,
                        "srem" => Bop::SRem,
                        "shl" => Bop::Shl,
                        "lshr" => Bop::LShr,
                        "ashr" => Bop::AShr,
                        "and" => Bop::And,
                        "or" => Bop::Or,
                        _ => Bop::Xor,
                    };
                    for j in 0..n {
                        insts.push(Inst::Bin(o, w, d + j as u32, a[j], b[j]));
                    }
                }
                "icmp" => {
                    flags(&mut ps);
                    let p = match ps.peek() {
                        Some(Tok::Id(s)) => match s.as_str() {
                            "eq" => Pred::Eq,
                            "ne" => Pred::Ne,
                            "ult" => Pred::Ult,
                            "ule" => Pred::Ule,
                            "ugt" => Pred::Ugt,
                            "uge" => Pred::Uge,
                            "slt" => Pred::Slt,
                            "sle" => Pred::Sle,
                            "sgt" => Pred::Sgt,
                            "sge" => Pred::Sge,
                            _ => return Err(format!("pred {s}")),
                        },
                        _ => return Err("pred".into()),
                    };
                    ps.i += 1;
                    let ty = ps.ty()?;
                    let a = ps.val(&ty)?;
                    ps.exp_p(',')?;
                    let b = ps.val(&ty)?;
                    let (w, n) = lane_ty(&ty);
                    let (a, b) = (cx.opds(&a, &ty)?, cx.opds(&b, &ty)?);
                    for j in 0..n {
                        insts.push(Inst::Icmp(p, w, d + j as u32, a[j], b[j]));
                    }
                }
                "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                    flags(&mut ps);
                    let ty = ps.ty()?;
                    let a = ps.val(&ty)?;
                    ps.eat_id("to");
                    let t2 = ps.ty()?;
                    let (fw, n) = lane_ty(&ty);
                    let (tw, _) = lane_ty(&t2);
                    let a = cx.opds(&a, &ty)?;
                    for j in 0..n {
                        let dj = d + j as u32;
                        insts.push(if tw == fw {
                            Inst::Mov(dj, a[j])
                        } else if tw < fw {
                            Inst::Trunc(tw, dj, a[j])
                        } else if op == "sext" {
                            Inst::Sext(fw, tw, dj, a[j])
                        } else {
                            Inst::Zext(fw, tw, dj, a[j])
                        });
                    }
                }
                "bitcast" => {
                    let ty = ps.ty()?;
                    let a = ps.val(&ty)?;
                    ps.eat_id("to");
                    let t2 = ps.ty()?;
                    let a = cx.opds(&a, &ty)?;
                    let (fw, _) = lane_ty(&ty);
                    let (tw, tn) = lane_ty(&t2);
                    if fw == tw {
                        for (j, x) in a.iter().enumerate() {
                            insts.push(Inst::Mov(d + j as u32, *x));
                        }
                    } else {
                        let ds = (0..tn as u32).map(|j| (d + j, tw)).collect::<Vec<_>>();
                        insts.push(Inst::Pack(0, a.into(), fw, ds.into()));
                    }
                }
                "freeze" => {
                    let ty = ps.ty()?;
                    let a = ps.val(&ty)?;
                    for (j, x) in cx.opds(&a, &ty)?.iter().enumerate() {
                        insts.push(Inst::Mov(d + j as u32, *x));
                    }
                }
                "select" => {
                    flags(&mut ps);
                    let ct = ps.ty()?;
                    let c = ps.val(&ct)?;
                    ps.exp_p(',')?;
                    let ty = ps.ty()?;
                    let a = ps.val(&ty)?;
                    ps.exp_p(',')?;
                    let ty2 = ps.ty()?;
                    let b = ps.val(&ty2)?;
                    let c = cx.opds(&c, &ct)?;
                    let (a, b) = (cx.opds(&a, &ty)?, cx.opds(&b, &ty)?);
                    let sl = ty.slots();
                    for j in 0..a.len() {
                        let cj = if c.len() == 1 { c[0] } else { c[j] };
                        insts.push(Inst::Select(d + j as u32, cj, a[j], b[j], sl[j].1));
                    }
                }
                "load" => {
                    flags(&mut ps);
                    let ty = ps.ty()?;
                    ps.exp_p(',')?;
                    ps.ty()?;
                    let p = ps.val(&Ty::Ptr)?;
                    let p = cx.opds(&p, &Ty::Ptr)?[0];
                    let sl = ty.slots();
                    if let Some(n) = bits_vec(&ty) {
                        let t = cx.nregs;
                        cx.nregs += 1;
                        insts.push(Inst::Load1(t, p, n));
                        let ds = (0..n as u32).map(|j| (d + j, 1)).collect::<Vec<_>>();
                        insts.push(Inst::Pack(0, vec![t].into(), n, ds.into()));
                    } else if sl.len() == 1 {
                        insts.push(Inst::Load1(d, p, sl[0].1));
                    } else {
                        insts.push(Inst::Load(d, p, sl.into()));
                    }
                }
                "store" => {
                    flags(&mut ps);
                    let ty = ps.ty()?;
                    let v = ps.val(&ty)?;
                    ps.exp_p(',')?;
                    ps.ty()?;
                    let p = ps.val(&Ty::Ptr)?;
                    let p = cx.opds(&p, &Ty::Ptr)?[0];
                    let v = cx.opds(&v, &ty)?;
                    let sl = ty.slots();
                    if let Some(n) = bits_vec(&ty) {
                        let t = cx.nregs;
                        cx.nregs += 1;
                        insts.push(Inst::Pack(0, v.into(), 1, vec![(t, n)].into()));
                        insts.push(Inst::Store1(t, p, n));
                    } else if sl.len() == 1 {
                        insts.push(Inst::Store1(v[0], p, sl[0].1));
                    } else {
                        insts.push(Inst::Store(v.into(), p, sl.into()));
                    }
                }
                "getelementptr" => {
                    flags(&mut ps);
                    let ty = ps.ty()?;
                    ps.exp_p(',')?;
                    let pt = ps.ty()?;
                    if pt != Ty::Ptr {
                        return Err("vector gep".into());
                    }
                    let base = ps.val(&Ty::Ptr)?;
                    let base = cx.opds(&base, &Ty::Ptr)?[0];
                    let mut k = 0i64;
                    let mut idx = vec![];
                    let mut cur = ty;
                    let mut first = true;
                    while ps.eat_p(',') {
                        let it = ps.ty()?;
                        let iv = ps.val(&it)?;
                        let iw = lane_ty(&it).0;
                        if first {
                            first = false;
                            match iv {
                                Cv::K(v) => k += crate::expr::sext(v[0], iw) as i64 * cur.size() as i64,
                                l => idx.push((cx.opds(&l, &it)?[0], cur.size(), iw)),
                            }
                        } else {
                            match (&cur.clone(), iv) {
                                (_, Cv::K(v)) => {
                                    let (o, nt) = {
                                        let (o, nt) = cur.field_off(crate::expr::sext(v[0], iw) as usize);
                                        (o, nt.clone())
                                    };
                                    k += o as i64;
                                    cur = nt;
                                }
                                (Ty::Arr(_, e), l) | (Ty::Vec(_, e), l) => {
                                    idx.push((cx.opds(&l, &it)?[0], e.size(), iw));
                                    cur = (**e).clone();
                                }
                                _ => return Err("gep index".into()),
                            }
                        }
                    }
                    insts.push(if idx.is_empty() { Inst::Gep0(d, base, k) } else { Inst::Gep(d, base, k, idx.into()) });
                }
                "alloca" => {
                    flags(&mut ps);
                    let ty = ps.ty()?;
                    let mut al = ty.align();
                    let mut cnt = 1;
                    while ps.eat_p(',') {
                        if ps.eat_id("align") {
                            al = al.max(ps.num()?);
                        } else {
                            let t = ps.ty()?;
                            match ps.val(&t)? {
                                Cv::K(v) => cnt = v[0] as u64,
                                _ => return Err("dynamic alloca".into()),
                            }
                        }
                    }
                    insts.push(Inst::Alloca(d, ty.size() * cnt, al));
                }
                "extractvalue" => {
                    let ty = ps.ty()?;
                    let v = ps.val(&ty)?;
                    let mut ix = vec![];
                    while ps.eat_p(',') {
                        ix.push(ps.num()? as usize)
                    }
                    let (o, t) = ty.slot_range(&ix);
                    let v = cx.opds(&v, &ty)?;
                    for j in 0..t.nslots() {
                        insts.push(Inst::Mov(d + j as u32, v[o + j]));
                    }
                }
                "insertvalue" => {
                    let ty = ps.ty()?;
                    let a = ps.val(&ty)?;
                    ps.exp_p(',')?;
                    let et = ps.ty()?;
                    let x = ps.val(&et)?;
                    let mut ix = vec![];
                    while ps.eat_p(',') {
                        ix.push(ps.num()? as usize)
                    }
                    let (o, _) = ty.slot_range(&ix);
                    let a = cx.opds(&a, &ty)?;
                    let x = cx.opds(&x, &et)?;
                    for j in 0..a.len() {
                        let src = if j >= o && j < o + x.len() { x[j - o] } else { a[j] };
                        insts.push(Inst::Mov(d + j as u32, src));
                    }
                }
                "extractelement" | "insertelement" => {
                    let ty = ps.ty()?;
                    let a = ps.val(&ty)?;
                    ps.exp_p(',')?;
                    let mut x = None;
                    if op == "insertelement" {
                        let et = ps.ty()?;
                        let v = ps.val(&et)?;
                        x = Some(cx.opds(&v, &et)?[0]);
                        ps.exp_p(',')?;
                    }
                    let it = ps.ty()?;
                    let k = match ps.val(&it)? {
                        Cv::K(v) => v[0] as usize,
                        _ => return Err("dynamic element index".into()),
                    };
                    let a = cx.opds(&a, &ty)?;
                    match x {
                        None => insts.push(Inst::Mov(d, a[k])),
                        Some(x) => {
                            for j in 0..a.len() {
                                insts.push(Inst::Mov(d + j as u32, if j == k { x } else { a[j] }));
                            }
                        }
                    }
                }
                "shufflevector" => {
                    let ty = ps.ty()?;
                    let a = ps.val(&ty)?;
                    ps.exp_p(',')?;
                    let ty2 = ps.ty()?;
                    let b = ps.val(&ty2)?;
                    ps.exp_p(',')?;
                    let mt = ps.ty()?;
                    let mk = match ps.val(&mt)? {
                        Cv::K(v) => v,
                        _ => return Err("mask".into()),
                    };
                    let mut a = cx.opds(&a, &ty)?;
                    a.extend(cx.opds(&b, &ty2)?);
                    for (j, x) in mk.iter().enumerate() {
                        insts.push(Inst::Mov(d + j as u32, a[*x as usize]));
                    }
                }
                "call" | "invoke" => {
                    ps.skip_attrs_call();
                    let rt = ps.ty()?;
                    // optional function type
                    if ps.is_p('(') {
                        ps.skip_parens();
                    }
                    if ps.is_id("asm") {
                        if matches!(dst, None) {
                            continue; // black_box and friends: no output
                        }
                        insts.push(Inst::Unsupported("asm".into()));
                        continue;
                    }
                    let callee = ps.val(&Ty::Ptr)?;
                    ps.exp_p('(')?;
                    let mut a: Vec<Opd> = vec![];
                    let mut meta = false;
                    while !ps.is_p(')') {
                        let t = ps.ty()?;
                        if t == Ty::Other {
                            meta = true;
                            // skip to , or )
                            let mut dep = 0;
                            loop {
                                match ps.peek() {
                                    Some(Tok::P('(')) => dep += 1,
                                    Some(Tok::P(')')) if dep > 0 => dep -= 1,
                                    Some(Tok::P(')')) | Some(Tok::P(',')) if dep == 0 => break,
                                    None => break,
                                    _ => {}
                                }
                                ps.i += 1;
                            }
                        } else {
                            ps.skip_attrs();
                            let v = ps.val(&t)?;
                            a.extend(cx.opds(&v, &t)?);
                        }
                        if !ps.eat_p(',') {
                            break;
                        }
                    }
                    ps.exp_p(')')?;
                    let mut ed = None;
                    if op == "invoke" {
                        while !matches!(ps.peek(), None) && !ps.is_id("to") {
                            ps.i += 1
                        }
                        ps.i += 2;
                        if let Some(Tok::Loc(l)) = ps.peek() {
                            let l = l.clone();
                            ed = Some(edge!(bname, &l));
                        } else {
                            return Err("invoke label".into());
                        }
                    }
                    macro_rules! cont {
                        () => {{
                            if let Some(e) = ed {
                                insts.push(Inst::Br(Box::new(e)));
                            }
                            continue;
                        }};
                    }
                    if meta {
                        cont!();
                    }
                    let target = match &callee {
                        Cv::K(v) => {
                            let ad = v[0] as u64;
                            if ad < FUNC_BASE {
                                insts.push(Inst::Unsupported("call of a null symbol".into()));
                                cont!();
                            }
                            let fi = ((ad - FUNC_BASE) / 16) as usize;
                            let nm = &m.funcs[fi].name;
                            if nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.assume") || nm.starts_with("llvm.experimental.noalias") {
                                cont!();
                            }
                            Target::Fn(fi as u32)
                        }
                        l => Target::Ind(cx.opds(l, &Ty::Ptr)?[0]),
                    };
                    let rs: Vec<u8> = rt.slots().iter().map(|x| x.1).collect();
                    let n = if dst.is_some() { rt.nslots() as u32 } else { 0 };
                    insts.push(Inst::Call(Box::new((d, n, target, a, rs))));
                    if let Some(e) = ed {
                        insts.push(Inst::Br(Box::new(e)));
                    }
                }
                "br" => {
                    if ps.eat_id("label") {
                        let l = match ps.peek() {
                            Some(Tok::Loc(l)) => l.clone(),
                            _ => return Err("br".into()),
                        };
                        let e = edge!(bname, &l);
                        insts.push(Inst::Br(Box::new(e)));
                    } else {
                        ps.ty()?;
                        let c = ps.val(&Ty::Int(1))?;
                        let c = cx.opds(&c, &Ty::Int(1))?[0];
                        let mut ls = vec![];
                        while ps.eat_p(',') {
                            if !ps.eat_id("label") {
                                break;
                            }
                            match ps.peek() {
                                Some(Tok::Loc(l)) => ls.push(l.clone()),
                                _ => return Err("br".into()),
                            }
                            ps.i += 1;
                        }
                        let (t, f) = (edge!(bname, &ls[0]), edge!(bname, &ls[1]));
                        insts.push(Inst::CondBr(c, Box::new((t, f))));
                    }
                }
                "switch" => {
                    let ty = ps.ty()?;
                    let v = ps.val(&ty)?;
                    let v = cx.opds(&v, &ty)?[0];
                    ps.exp_p(',')?;
                    ps.eat_id("label");
                    let dl = match ps.peek() {
                        Some(Tok::Loc(l)) => l.clone(),
                        _ => return Err("switch".into()),
                    };
                    ps.i += 1;
                    ps.exp_p('[')?;
                    let mut cases = vec![];
                    while !ps.is_p(']') {
                        let t = ps.ty()?;
                        let k = match ps.val(&t)? {
                            Cv::K(v) => v[0],
                            _ => return Err("case".into()),
                        };
                        ps.exp_p(',')?;
                        ps.eat_id("label");
                        let l = match ps.peek() {
                            Some(Tok::Loc(l)) => l.clone(),
                            _ => return Err("case".into()),
                        };
                        ps.i += 1;
                        cases.push((k, edge!(bname, &l)));
                    }
                    let de = edge!(bname, &dl);
                    insts.push(Inst::Switch(Box::new((v, lane_ty(&ty).0, cases, de))));
                }
                "ret" => {
                    let ty = ps.ty()?;
                    if ty == Ty::Void {
                        insts.push(Inst::Ret(Box::new([])));
                    } else {
                        let v = ps.val(&ty)?;
                        let v = cx.opds(&v, &ty)?;
                        insts.push(Inst::Ret(v.into()));
                    }
                }
                "unreachable" => insts.push(Inst::Unreachable),
                "resume" | "landingpad" => insts.push(Inst::Unsupported(op.clone())),
                "fence" => {}
                "atomicrmw" => {
                    flags(&mut ps);
                    let o = match ps.peek() {
                        Some(Tok::Id(s)) => s.clone(),
                        _ => return Err("rmw".into()),
                    };
                    ps.i += 1;
                    ps.ty()?;
                    let p = ps.val(&Ty::Ptr)?;
                    ps.exp_p(',')?;
                    let ty = ps.ty()?;
                    let v = ps.val(&ty)?;
                    let p = cx.opds(&p, &Ty::Ptr)?[0];
                    let v = cx.opds(&v, &ty)?[0];
                    insts.push(Inst::AtomicRmw(d, o, p, v, lane_ty(&ty).0));
                }
                "cmpxchg" => {
                    flags(&mut ps);
                    ps.ty()?;
                    let p = ps.val(&Ty::Ptr)?;
                    ps.exp_p(',')?;
                    let ty = ps.ty()?;
                    let a = ps.val(&ty)?;
                    ps.exp_p(',')?;
                    ps.ty()?;
                    let b = ps.val(&ty)?;
                    let p = cx.opds(&p, &Ty::Ptr)?[0];
                    let a = cx.opds(&a, &ty)?[0];
                    let b = cx.opds(&b, &ty)?[0];
                    insts.push(Inst::CmpXchg(d, p, a, b, lane_ty(&ty).0));
                }
                _ => insts.push(Inst::Unsupported(op.clone())),
            }
        }
    }
    // resolve edges to instruction indices
    let fix = |e: &mut Edge| e.to = starts[e.to as usize];
    for i in insts.iter_mut() {
        match i {
            Inst::Br(e) => fix(e),
            Inst::CondBr(_, b) => {
                fix(&mut b.0);
                fix(&mut b.1)
            }
            Inst::Switch(b) => {
                for (_, e) in b.2.iter_mut() {
                    fix(e)
                }
                fix(&mut b.3)
            }
            _ => {}
        }
    }
    Ok(Func { id, name: m.funcs[id].name.clone(), nregs: cx.nregs, args, insts, consts: cx.consts })
}
