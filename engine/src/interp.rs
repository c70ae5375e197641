//! Concolic interpreter: every value is a concrete number plus, when it depends on a symbolic
//! input, an expression. A path is run to its end; the branches it took on symbolic conditions
//! are recorded as events for the explorer.
use crate::expr::*;
use crate::ir::*;

#[derive(Clone, Copy, Default)]
pub struct Val {
    pub c: u128,
    pub e: E,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Assume,
    Panic(String),
    Fail(String),
    Steps,
    Error(String),
}

/// One decision of a path. `taken` is the condition that held; `alts` are the other sides.
pub enum Event {
    /// conditions of the sides not taken (each is a full alternative)
    Branch { taken: E, alts: Vec<E>, at: (u32, u32) },
    /// value of `e` was fixed; all other feasible values are alternatives
    Conc { e: E, taken: E, at: (u32, u32) },
    /// structural choice: input slot, number of alternatives
    Choice { slot: usize, n: u64 },
}

pub const STACK_SIZE: u64 = 64 << 20;
pub const ARENA: u64 = 320 << 20;
const PAGE: u64 = 4096;

struct Frame<'a> {
    f: &'a Func,
    pc: u32,
    base: u32,
    sp: u64,
    dst: u32,
    nres: u32,
}

pub struct Shared {
    pub m: Module,
    pub roles: Vec<Role>, // per function
    pub max_steps: u64,
    pub regexes: crate::rx::Cache,
    pub tables: std::collections::HashMap<&'static str, Vec<(u32, u32)>>,
    pub errno_addr: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Role {
    Normal,
    Builtin(B),
    CharTable(&'static str),
    /// external function modelled by a function of the harness
    Forward(u32),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B {
    SymVar,
    SymChoice,
    SymAssume,
    SymFail,
    SymCover,
    SymEmit,
    SymConc,
    SymHashMode,
    SymIsSym,
    SymNote,
    RegexMatch,
    RegexClassify,
    RegexFind,
    RegexExec,
    HashWrite,
    HashFinish,
    RandomKeys,
    ByteSet,
    SimdContains,
    MemchrAligned,
    Memrchr,
    PanicFmt,
    Nop,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcmp,
    Strlen,
    Errno,
    Abort,
    Write,
    Writev,
    Ret0,
    RetM1,
    Getenv,
    Memcpy,
    Memset,
    Ovf(Bop, bool),
    Sat(Bop),
    Umax,
    Umin,
    Smax,
    Smin,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    Abs,
    Ucmp,
    Scmp,
    ReduceAnd,
    ReduceOr,
    ThreadLocal,
    IsConst,
    Trap,
    Expect,
    ForkMatch,
    Missing,
}

pub struct Machine<'a> {
    pub sh: &'a Shared,
    pub d: Dag,
    mem: Vec<u8>,
    shadow: Vec<E>,
    dirty: Vec<u8>, // per page: 1 written, 2 has symbolic
    dirty_list: Vec<u32>,
    regs: Vec<Val>,
    frames: Vec<Frame<'a>>,
    heap: u64,
    heap_base: u64,
    sp: u64,
    stack_base: u64,
    // ---- per path
    pub inputs: Vec<u128>,
    pub ninputs: usize,
    pub input_kinds: Vec<(u8, bool)>, // width, is_choice
    pub events: Vec<(usize, Event)>,
    pub known: FxMap<E, bool>,
    pub pc: Vec<E>,
    pub steps: u64,
    pub emitted: Vec<u8>,
    pub covers: Vec<u32>,
    pub notes: Vec<String>,
    pub hash_mode: u64,
    pub touched: Vec<u8>, // per function executed
    pub edges: u64,
    pub branch_prof: FxMap<(u32, u32), u64>,
    pub profile: bool,
    allocs: FxMap<u64, u64>,
    bins: FxMap<u64, Vec<u64>>,
    loop_calls: u64,
}

type X<T> = Result<T, End>;
fn err<T>(s: impl Into<String>) -> X<T> {
    Err(End::Error(s.into()))
}

const BIG: u64 = 2048;
/// the size of the block that is reserved for `n` bytes
fn class(n: u64) -> u64 {
    if n < BIG {
        return n;
    }
    let q = (1u64 << (63 - n.leading_zeros())) / 4;
    (n + q - 1) / q * q
}

impl<'a> Machine<'a> {
    pub fn new(sh: &'a Shared) -> Machine<'a> {
        let img = &sh.m.image;
        let heap_base = (GLOBAL_BASE + img.len() as u64 + 0xffff) & !0xffff;
        let stack_base = ARENA - STACK_SIZE;
        let mut m = Machine {
            sh,
            d: Dag::new(),
            mem: vec![0; ARENA as usize],
            shadow: vec![0; ARENA as usize],
            dirty: vec![0; (ARENA / PAGE) as usize],
            dirty_list: vec![],
            regs: vec![Val::default(); 1 << 12],
            frames: vec![],
            heap: heap_base,
            heap_base,
            sp: stack_base,
            stack_base,
            inputs: vec![],
            ninputs: 0,
            input_kinds: vec![],
            events: vec![],
            known: FxMap::default(),
            pc: vec![],
            steps: 0,
            emitted: vec![],
            covers: vec![],
            notes: vec![],
            hash_mode: 0,
            touched: vec![0; sh.m.funcs.len()],
            edges: 0,
            branch_prof: FxMap::default(),
            profile: false,
            allocs: FxMap::default(),
            bins: FxMap::default(),
            loop_calls: 0,
        };
        let b = GLOBAL_BASE as usize;
        m.mem[b..b + img.len()].copy_from_slice(img);
        m
    }
    fn reset(&mut self) {
        let img = &self.sh.m.image;
        let gb = GLOBAL_BASE as usize;
        let ge = gb + img.len();
        for p in std::mem::take(&mut self.dirty_list) {
            let s = p as usize * PAGE as usize;
            let e = s + PAGE as usize;
            self.mem[s..e].fill(0);
            if s < ge && e > gb {
                let a = s.max(gb);
                let b = e.min(ge);
                self.mem[a..b].copy_from_slice(&img[a - gb..b - gb]);
            }
            if self.dirty[p as usize] & 2 != 0 {
                self.shadow[s..e].fill(0);
            }
            self.dirty[p as usize] = 0;
        }
        self.frames.clear();
        self.heap = self.heap_base;
        self.sp = self.stack_base;
        self.ninputs = 0;
        self.input_kinds.clear();
        self.events.clear();
        self.known.clear();
        self.pc.clear();
        self.steps = 0;
        self.emitted.clear();
        self.covers.clear();
        self.notes.clear();
        self.hash_mode = 0;
        self.allocs.clear();
        self.bins.clear();
        self.loop_calls = 0;
    }
    pub fn run(&mut self, entry: u32, inputs: Vec<u128>) -> End {
        self.reset();
        self.inputs = inputs;
        match self.call_fn(entry, &[], 0, 0) {
            Err(e) => return e,
            _ => {}
        }
        loop {
            match self.step_loop() {
                Ok(()) => return End::Ok,
                Err(e) => return e,
            }
        }
    }
    pub fn backtrace(&self) -> Vec<String> {
        self.frames.iter().rev().map(|f| f.f.name.clone()).collect()
    }
    fn at(&self) -> (u32, u32) {
        match self.frames.last() {
            Some(f) => (f.f.id as u32, f.pc),
            None => (0, 0),
        }
    }
    // ---- symbolic decisions --------------------------------------------
    /// take the side of `cond` given by its concrete value `v`
    fn decide(&mut self, cond: E, v: bool) {
        let n = self.d.n[cond as usize];
        if n.op == Op::Const {
            return;
        }
        if let Some(k) = self.known.get(&cond) {
            debug_assert_eq!(*k, v);
            return;
        }
        let neg = self.d.not(cond);
        let (taken, alt) = if v { (cond, neg) } else { (neg, cond) };
        let at = self.at();
        let pi = self.pc.len();
        self.learn(taken);
        if self.profile {
            *self.branch_prof.entry(at).or_default() += 1;
        }
        self.events.push((pi, Event::Branch { taken, alts: vec![alt], at }));
    }
    /// one decision with a side for each class of the byte
    /// one decision with a side for each class of the byte
    fn partition(&mut self, e: E, v: u8, cls: &dyn Fn(u8) -> usize) {
        if e == 0 {
            return;
        }
        let n = self.d.n[e as usize];
        let tab: Vec<usize> = (0..=255u8).map(|x| if x as u64 >= n.lo as u64 && x as u64 <= n.hi as u64 { cls(x) } else { usize::MAX - 1 }).collect();
        let mut ids: Vec<usize> = (n.lo as usize..=n.hi as usize).map(|x| tab[x]).collect();
        ids.sort();
        ids.dedup();
        if ids.len() < 2 {
            return;
        }
        let mine = tab[v as usize];
        let taken = self.byte_in(e, &|x| tab[x as usize] == mine);
        if self.d.n[taken as usize].op == Op::Const || self.known.get(&taken) == Some(&true) {
            return;
        }
        let mut alts = vec![];
        for i in ids {
            if i != mine {
                let c = self.byte_in(e, &|x| tab[x as usize] == i);
                if self.d.n[c as usize].op != Op::Const {
                    alts.push(c);
                }
            }
        }
        let at = self.at();
        let pi = self.pc.len();
        self.learn(taken);
        self.events.push((pi, Event::Branch { taken, alts, at }));
    }
    /// leftmost match in hay[from..]: the path is split by the states the automata go through, which fixes the match
    fn regex_find(&mut self, f: &crate::rx::Finder, hay: &[(u8, E)], from: usize) -> X<Option<(usize, usize)>> {
        use regex_automata::dfa::Automaton;
        use regex_automata::{util::start, Anchored};
        use regex_automata::util::primitives::StateID;
        let fw = f.forward();
        let rv = f.reverse();
        let id = |s: StateID| s.as_usize();
        let st = |d: &regex_automata::dfa::dense::DFA<Vec<u32>>, b: Option<u8>, a: Anchored| d.start_state(&start::Config::new().look_behind(b).anchored(a)).map_err(|e| End::Error(e.to_string()));
        // forward
        let mut s = if from == 0 {
            st(fw, None, Anchored::No)?
        } else {
            let (v, e) = hay[from - 1];
            let r = st(fw, Some(v), Anchored::No)?;
            if e != 0 {
                self.partition(e, v, &|x| fw.start_state(&start::Config::new().look_behind(Some(x)).anchored(Anchored::No)).map_or(usize::MAX, |s| s.as_usize()));
            }
            r
        };
        let mut end = None;
        let mut dead = false;
        for i in from..hay.len() {
            let (v, e) = hay[i];
            self.partition(e, v, &|x| id(fw.next_state(s, x)));
            s = fw.next_state(s, v);
            if fw.is_quit_state(s) {
                return err("regex quit state");
            }
            if fw.is_match_state(s) {
                end = Some(i);
            } else if fw.is_dead_state(s) {
                dead = true;
                break;
            }
        }
        if !dead && fw.is_match_state(fw.next_eoi_state(s)) {
            end = Some(hay.len());
        }
        let Some(end) = end else { return Ok(None) };
        if end == from {
            return Ok(Some((end, end)));
        }
        // backward from the end, anchored there
        let mut s = if end == hay.len() {
            st(rv, None, Anchored::Yes)?
        } else {
            let (v, e) = hay[end];
            if e != 0 {
                self.partition(e, v, &|x| rv.start_state(&start::Config::new().look_behind(Some(x)).anchored(Anchored::Yes)).map_or(usize::MAX, |s| s.as_usize()));
            }
            st(rv, Some(v), Anchored::Yes)?
        };
        let mut start = None;
        let mut dead = false;
        for i in (from..end).rev() {
            let (v, e) = hay[i];
            self.partition(e, v, &|x| id(rv.next_state(s, x)));
            s = rv.next_state(s, v);
            if rv.is_quit_state(s) {
                return err("regex quit state");
            }
            if rv.is_match_state(s) {
                start = Some(i + 1);
            } else if rv.is_dead_state(s) {
                dead = true;
                break;
            }
        }
        if !dead {
            let t = if from == 0 {
                rv.next_eoi_state(s)
            } else {
                let (v, e) = hay[from - 1];
                self.partition(e, v, &|x| id(rv.next_state(s, x)));
                rv.next_state(s, v)
            };
            if rv.is_match_state(t) {
                start = Some(from);
            }
        }
        match start {
            Some(a) => Ok(Some((a, end))),
            None => err("regex: no start of a match"),
        }
    }
    fn learn(&mut self, t: E) {
        if self.known.insert(t, true).is_none() {
            self.pc.push(t);
        }
        let n = self.d.not(t);
        self.known.insert(n, false);
        let node = self.d.n[t as usize];
        // conjunctions: learn the parts too
        if node.op == Op::And && node.w == 1 {
            self.known_only(node.a);
            self.known_only(node.b);
        }
        if node.op == Op::Not {
            let x = self.d.n[node.a as usize];
            if x.op == Op::Or && x.w == 1 {
                let (p, q) = (self.d.not(x.a), self.d.not(x.b));
                self.known_only(p);
                self.known_only(q);
            }
        }
    }
    fn known_only(&mut self, t: E) {
        self.known.insert(t, true);
        let n = self.d.not(t);
        self.known.insert(n, false);
        let node = self.d.n[t as usize];
        if node.op == Op::And && node.w == 1 {
            self.known_only(node.a);
            self.known_only(node.b);
        }
    }
    fn conc(&mut self, v: Val, w: u8) -> u128 {
        if v.e == 0 || self.d.is_const(v.e).is_some() {
            return v.c;
        }
        let k = self.d.cst(w, v.c);
        let c = self.d.eq(v.e, k);
        if self.d.is_const(c).is_some() || self.known.contains_key(&c) {
            return v.c;
        }
        let at = self.at();
        let pi = self.pc.len();
        self.learn(c);
        if self.profile {
            *self.branch_prof.entry(at).or_default() += 1;
        }
        self.events.push((pi, Event::Conc { e: v.e, taken: c, at }));
        v.c
    }
    fn ex(&mut self, v: Val, w: u8) -> E {
        if v.e != 0 {
            v.e
        } else {
            self.d.cst(w, v.c)
        }
    }
    fn wrap(&self, c: u128, e: E) -> Val {
        if self.d.op(e) == Op::Const {
            Val { c, e: 0 }
        } else {
            Val { c, e }
        }
    }
    // ---- memory ----------------------------------------------------------
    fn chk(&self, a: u64, n: u64) -> X<()> {
        if a < GLOBAL_BASE || a.checked_add(n).map_or(true, |e| e > ARENA) {
            return err(format!("memory access at {a:#x}+{n} ({})", self.backtrace().into_iter().take(6).collect::<Vec<_>>().join(" < ")));
        }
        Ok(())
    }
    fn touch(&mut self, a: u64, n: u64, sym: bool) {
        let p0 = a / PAGE;
        let p1 = (a + n - 1) / PAGE;
        for p in p0..=p1 {
            let d = &mut self.dirty[p as usize];
            if *d == 0 {
                self.dirty_list.push(p as u32);
            }
            *d |= if sym { 3 } else { 1 };
        }
    }
    fn page_sym(&self, a: u64, n: u64) -> bool {
        let p0 = a / PAGE;
        let p1 = (a + n - 1) / PAGE;
        (p0..=p1).any(|p| self.dirty[p as usize] & 2 != 0)
    }
    pub fn load_at(&mut self, a: u64, w: u8) -> X<Val> {
        let nb = (w as u64 + 7) / 8;
        self.chk(a, nb)?;
        let i = a as usize;
        let mut buf = [0u8; 16];
        buf[..nb as usize].copy_from_slice(&self.mem[i..i + nb as usize]);
        let c = u128::from_le_bytes(buf) & mask(w);
        if !self.page_sym(a, nb) || self.shadow[i..i + nb as usize].iter().all(|x| *x == 0) {
            return Ok(Val { c, e: 0 });
        }
        let mut e: Option<E> = None;
        for k in 0..nb as usize {
            let s = self.shadow[i + k];
            let b = if s != 0 { s } else { self.d.cst(8, buf[k] as u128) };
            e = Some(match e {
                None => b,
                Some(l) => self.d.concat(b, l),
            });
        }
        let mut e = e.unwrap();
        if self.d.w(e) != w {
            e = self.d.extract(e, 0, w);
        }
        Ok(self.wrap(c, e))
    }
    pub fn store_at(&mut self, a: u64, v: Val, w: u8) -> X<()> {
        let nb = (w as u64 + 7) / 8;
        self.chk(a, nb)?;
        let i = a as usize;
        let bytes = v.c.to_le_bytes();
        self.mem[i..i + nb as usize].copy_from_slice(&bytes[..nb as usize]);
        if v.e == 0 {
            let had = self.page_sym(a, nb);
            self.touch(a, nb, false);
            if had {
                self.shadow[i..i + nb as usize].fill(0);
            }
        } else {
            self.touch(a, nb, true);
            let mut e = v.e;
            if w as u64 != nb * 8 {
                e = self.d.zext(e, (nb * 8) as u8);
            }
            for k in 0..nb as usize {
                let b = self.d.extract(e, (k * 8) as u8, 8);
                self.shadow[i + k] = if self.d.op(b) == Op::Const { 0 } else { b };
            }
        }
        Ok(())
    }
    fn copy(&mut self, dst: u64, src: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        self.chk(dst, n)?;
        self.chk(src, n)?;
        let ssym = self.page_sym(src, n);
        let dsym = self.page_sym(dst, n);
        self.touch(dst, n, ssym);
        let (s, d, n) = (src as usize, dst as usize, n as usize);
        self.mem.copy_within(s..s + n, d);
        if ssym {
            self.shadow.copy_within(s..s + n, d);
        } else if dsym {
            self.shadow[d..d + n].fill(0);
        }
        Ok(())
    }
    pub fn bytes(&self, a: u64, n: u64) -> X<Vec<u8>> {
        if n == 0 {
            return Ok(vec![]);
        }
        self.chk(a, n)?;
        Ok(self.mem[a as usize..(a + n) as usize].to_vec())
    }
    fn sym_bytes(&self, a: u64, n: u64) -> X<Vec<(u8, E)>> {
        if n == 0 {
            return Ok(vec![]);
        }
        self.chk(a, n)?;
        Ok((a as usize..(a + n) as usize).map(|i| (self.mem[i], if self.dirty[i / PAGE as usize] & 2 != 0 { self.shadow[i] } else { 0 })).collect())
    }
    fn bexpr(&mut self, b: (u8, E)) -> E {
        if b.1 != 0 {
            b.1
        } else {
            self.d.cst(8, b.0 as u128)
        }
    }
    fn malloc(&mut self, n: u64, al: u64) -> X<u64> {
        let al = al.max(16);
        if n >= BIG && al == 16 {
            // large blocks are used again
            if let Some(a) = self.bins.get_mut(&class(n)).and_then(|v| v.pop()) {
                self.allocs.insert(a, n);
                return Ok(a);
            }
        }
        let a = (self.heap + al - 1) & !(al - 1);
        if n > 1 << 28 || a + class(n.max(1)) + 16 > self.stack_base {
            return Ok(0);
        }
        self.heap = a + if n >= BIG { class(n) } else { n.max(1) };
        self.allocs.insert(a, n);
        Ok(a)
    }
    fn free(&mut self, p: u64) {
        if let Some(n) = self.allocs.get(&p).copied() {
            if n >= BIG && p & 15 == 0 {
                self.allocs.remove(&p);
                self.bins.entry(class(n)).or_default().push(p);
            }
        }
    }
    /// load through an address that may be symbolic
    fn load_sym(&mut self, p: Val, w: u8) -> X<Val> {
        if p.e == 0 {
            return self.load_at(p.c as u64, w);
        }
        let n = self.d.n[p.e as usize];
        let nb = (w as u64 + 7) / 8;
        if n.hi - n.lo <= 4096 {
            let (lo, hi) = (n.lo as u64, n.hi as u64 + nb);
            let cr = &self.sh.m.const_ranges;
            let i = cr.partition_point(|r| r.0 <= lo);
            if i > 0 && hi <= cr[i - 1].1 {
                // read-only table: an if-then-else over runs of equal entries
                let mut stepz = 0u32;
                if let Op::Concat = n.op {
                    // low constant zero bits give the stride
                    let mut e = p.e;
                    while self.d.op(e) == Op::Concat {
                        e = self.d.n[e as usize].b
                    }
                    if self.d.is_const(e) == Some(0) {
                        stepz = self.d.w(e) as u32
                    }
                }
                let step = 1u64 << stepz.min(12);
                let mut runs: Vec<(u64, u128)> = vec![];
                let mut a = lo;
                while a <= n.hi as u64 {
                    let v = self.load_at(a, w)?;
                    if v.e != 0 {
                        runs.clear();
                        break;
                    }
                    if runs.last().map(|r| r.1) != Some(v.c) {
                        runs.push((a, v.c));
                    } 
                    a += step;
                }
                if !runs.is_empty() && runs.len() <= 256 {
                    let mut e = self.d.cst(w, runs[0].1);
                    for r in &runs[1..] {
                        let k = self.d.cst(64, r.0 as u128);
                        let c = self.d.ult(p.e, k);
                        let v = self.d.cst(w, r.1);
                        e = self.d.ite(c, e, v);
                    }
                    let c = self.load_at(p.c as u64, w)?.c;
                    return Ok(self.wrap(c, e));
                }
            }
        }
        let a = self.conc(p, 64) as u64;
        self.load_at(a, w)
    }
    // ---- scalar operations -------------------------------------------------
    pub fn bin(&mut self, o: Bop, w: u8, a: Val, b: Val) -> X<Val> {
        let m = mask(w);
        let c = match o {
            Bop::Add => a.c.wrapping_add(b.c) & m,
            Bop::Sub => a.c.wrapping_sub(b.c) & m,
            Bop::Mul => a.c.wrapping_mul(b.c) & m,
            Bop::And => a.c & b.c,
            Bop::Or => a.c | b.c,
            Bop::Xor => a.c ^ b.c,
            Bop::Shl => {
                if b.c >= w as u128 {
                    0
                } else {
                    (a.c << b.c) & m
                }
            }
            Bop::LShr => {
                if b.c >= w as u128 {
                    0
                } else {
                    a.c >> b.c
                }
            }
            Bop::AShr => (sext(a.c, w) >> b.c.min(w as u128 - 1)) as u128 & m,
            Bop::UDiv | Bop::URem => {
                if b.c == 0 {
                    return err("division by zero");
                }
                if o == Bop::UDiv {
                    a.c / b.c
                } else {
                    a.c % b.c
                }
            }
            Bop::SDiv | Bop::SRem => {
                if b.c == 0 {
                    return err("division by zero");
                }
                let (x, y) = (sext(a.c, w), sext(b.c, w));
                (if o == Bop::SDiv { x.wrapping_div(y) } else { x.wrapping_rem(y) }) as u128 & m
            }
        };
        if a.e == 0 && b.e == 0 {
            return Ok(Val { c, e: 0 });
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let op = match o {
            Bop::Add => Op::Add,
            Bop::Sub => Op::Sub,
            Bop::Mul => Op::Mul,
            Bop::And => Op::And,
            Bop::Or => Op::Or,
            Bop::Xor => Op::Xor,
            Bop::Shl => Op::Shl,
            Bop::LShr => Op::LShr,
            Bop::AShr => Op::AShr,
            Bop::UDiv => Op::UDiv,
            Bop::URem => Op::URem,
            Bop::SDiv => Op::SDiv,
            Bop::SRem => Op::SRem,
        };
        let e = self.d.bin(op, x, y);
        Ok(self.wrap(c, e))
    }
    fn icmp(&mut self, p: Pred, w: u8, a: Val, b: Val) -> Val {
        let c = match p {
            Pred::Eq => a.c == b.c,
            Pred::Ne => a.c != b.c,
            Pred::Ult => a.c < b.c,
            Pred::Ule => a.c <= b.c,
            Pred::Ugt => a.c > b.c,
            Pred::Uge => a.c >= b.c,
            Pred::Slt => sext(a.c, w) < sext(b.c, w),
            Pred::Sle => sext(a.c, w) <= sext(b.c, w),
            Pred::Sgt => sext(a.c, w) > sext(b.c, w),
            Pred::Sge => sext(a.c, w) >= sext(b.c, w),
        } as u128;
        if a.e == 0 && b.e == 0 {
            return Val { c, e: 0 };
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = match p {
            Pred::Eq => self.d.eq(x, y),
            Pred::Ne => {
                let t = self.d.eq(x, y);
                self.d.not(t)
            }
            Pred::Ult => self.d.ult(x, y),
            Pred::Ule => self.d.ule(x, y),
            Pred::Ugt => self.d.ult(y, x),
            Pred::Uge => self.d.ule(y, x),
            Pred::Slt => self.d.slt(x, y),
            Pred::Sle => self.d.sle(x, y),
            Pred::Sgt => self.d.slt(y, x),
            Pred::Sge => self.d.sle(y, x),
        };
        self.wrap(c, e)
    }
    fn not1(&mut self, v: Val) -> Val {
        if v.e == 0 {
            Val { c: v.c ^ 1, e: 0 }
        } else {
            let e = self.d.not(v.e);
            self.wrap(v.c ^ 1, e)
        }
    }
    fn zextv(&mut self, v: Val, w: u8) -> Val {
        if v.e == 0 {
            v
        } else {
            let e = self.d.zext(v.e, w);
            self.wrap(v.c, e)
        }
    }
    fn select(&mut self, c: Val, a: Val, b: Val, w: u8) -> Val {
        if c.e == 0 {
            return if c.c == 1 { a } else { b };
        }
        if let Some(k) = self.known.get(&c.e) {
            return if *k { a } else { b };
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = self.d.ite(c.e, x, y);
        let cc = if c.c == 1 { a.c } else { b.c };
        self.wrap(cc, e)
    }
    // ---- calls ---------------------------------------------------------------
    fn call_fn(&mut self, id: u32, args: &[Val], dst: u32, nres: u32) -> X<()> {
        let sh: &'a Shared = self.sh;
        let f = match sh.m.func(id as usize) {
            Ok(f) => f,
            Err(e) => return err(format!("cannot encode {e}")),
        };
        self.touched[id as usize] = 1;
        let base = match self.frames.last() {
            Some(fr) => fr.base + fr.f.nregs,
            None => 0,
        };
        let need = (base + f.nregs) as usize;
        if self.regs.len() < need {
            if need > 40_000_000 {
                return err("call depth");
            }
            self.regs.resize(need * 2, Val::default());
        }
        let mut k = 0;
        for (r, n) in &f.args {
            for j in 0..*n {
                if k < args.len() {
                    self.regs[(base + r + j) as usize] = args[k];
                    k += 1;
                }
            }
        }
        let sp = self.sp;
        self.frames.push(Frame { f, pc: 0, base, sp, dst, nres });
        Ok(())
    }
    #[inline(always)]
    fn rd(&self, f: &Func, base: u32, o: Opd) -> Val {
        if o & CB != 0 {
            Val { c: f.consts[(o & !CB) as usize], e: 0 }
        } else {
            self.regs[(base + o) as usize]
        }
    }
    fn take_edge(&mut self, f: &Func, base: u32, e: &Edge) {
        match e.copies.len() {
            0 => {}
            1 => {
                let (d, s) = e.copies[0];
                self.regs[(base + d) as usize] = self.rd(f, base, s);
            }
            _ => {
                let tmp: Vec<Val> = e.copies.iter().map(|(_, s)| self.rd(f, base, *s)).collect();
                for ((d, _), v) in e.copies.iter().zip(tmp) {
                    self.regs[(base + d) as usize] = v;
                }
            }
        }
    }
    fn step_loop(&mut self) -> X<()> {
        'outer: loop {
            let (f, base, mut pc) = {
                let fr = self.frames.last().unwrap();
                (fr.f, fr.base, fr.pc as usize)
            };
            macro_rules! rd {
                ($o:expr) => {
                    self.rd(f, base, $o)
                };
            }
            macro_rules! wr {
                ($r:expr, $v:expr) => {{
                    let v = $v;
                    self.regs[(base + $r) as usize] = v;
                }};
            }
            macro_rules! sync {
                () => {
                    self.frames.last_mut().unwrap().pc = pc as u32;
                };
            }
            loop {
                self.steps += 1;
                if self.steps > self.sh.max_steps {
                    sync!();
                    return Err(End::Steps);
                }
                let inst = &f.insts[pc];
                match inst {
                    Inst::Bin(o, w, d, a, b) => {
                        let (a, b) = (rd!(*a), rd!(*b));
                        if a.e == 0 && b.e == 0 {
                            let m = mask(*w);
                            let c = match o {
                                Bop::Add => a.c.wrapping_add(b.c) & m,
                                Bop::Sub => a.c.wrapping_sub(b.c) & m,
                                Bop::And => a.c & b.c,
                                Bop::Or => a.c | b.c,
                                Bop::Xor => a.c ^ b.c,
                                _ => self.bin(*o, *w, a, b)?.c,
                            };
                            wr!(*d, Val { c, e: 0 });
                        } else {
                            if b.e != 0 && matches!(o, Bop::UDiv | Bop::URem | Bop::SDiv | Bop::SRem) {
                                sync!();
                            }
                            wr!(*d, self.bin(*o, *w, a, b)?);
                        }
                    }
                    Inst::Icmp(p, w, d, a, b) => {
                        let (a, b) = (rd!(*a), rd!(*b));
                        wr!(*d, self.icmp(*p, *w, a, b));
                    }
                    Inst::Trunc(w, d, a) => {
                        let a = rd!(*a);
                        let c = a.c & mask(*w);
                        if a.e == 0 {
                            wr!(*d, Val { c, e: 0 });
                        } else {
                            let e = self.d.extract(a.e, 0, *w);
                            wr!(*d, self.wrap(c, e));
                        }
                    }
                    Inst::Zext(_, tw, d, a) => {
                        let a = rd!(*a);
                        wr!(*d, self.zextv(a, *tw));
                    }
                    Inst::Sext(fw, tw, d, a) => {
                        let a = rd!(*a);
                        let c = sext(a.c, *fw) as u128 & mask(*tw);
                        if a.e == 0 {
                            wr!(*d, Val { c, e: 0 });
                        } else {
                            let e = self.d.sextend(a.e, *tw);
                            wr!(*d, self.wrap(c, e));
                        }
                    }
                    Inst::Mov(d, a) => wr!(*d, rd!(*a)),
                    Inst::Select(d, c, a, b, w) => {
                        let (c, a, b) = (rd!(*c), rd!(*a), rd!(*b));
                        wr!(*d, self.select(c, a, b, *w));
                    }
                    Inst::Load1(d, p, w) => {
                        let p = rd!(*p);
                        if p.e == 0 {
                            wr!(*d, self.load_at(p.c as u64, *w)?);
                        } else {
                            sync!();
                            wr!(*d, self.load_sym(p, *w)?);
                        }
                    }
                    Inst::Load(d, p, sl) => {
                        let p = rd!(*p);
                        sync!();
                        let a = self.conc(p, 64) as u64;
                        for (j, (o, w)) in sl.iter().enumerate() {
                            wr!(*d + j as u32, self.load_at(a + o, *w)?);
                        }
                    }
                    Inst::Store1(v, p, w) => {
                        let (v, p) = (rd!(*v), rd!(*p));
                        sync!();
                        let a = self.conc(p, 64) as u64;
                        self.store_at(a, v, *w)?;
                    }
                    Inst::Store(v, p, sl) => {
                        let p = rd!(*p);
                        sync!();
                        let a = self.conc(p, 64) as u64;
                        for (j, (o, w)) in sl.iter().enumerate() {
                            let x = rd!(v[j]);
                            self.store_at(a + o, x, *w)?;
                        }
                    }
                    Inst::Gep0(d, b, k) => {
                        let b = rd!(*b);
                        let c = (b.c as u64).wrapping_add(*k as u64) as u128;
                        if b.e == 0 {
                            wr!(*d, Val { c, e: 0 });
                        } else {
                            let kk = self.d.cst(64, *k as u64 as u128);
                            let e = self.d.add(b.e, kk);
                            wr!(*d, self.wrap(c, e));
                        }
                    }
                    Inst::Gep(d, b, k, idx) => {
                        let mut r = rd!(*b);
                        r = self.bin(Bop::Add, 64, r, Val { c: *k as u64 as u128, e: 0 })?;
                        for (o, s, w) in idx.iter() {
                            let i = rd!(*o);
                            if i.e == 0 && r.e == 0 {
                                let x = (sext(i.c, *w) as i64).wrapping_mul(*s as i64);
                                r.c = (r.c as u64).wrapping_add(x as u64) as u128;
                            } else {
                                let mut x = i;
                                if *w < 64 {
                                    let c = sext(i.c, *w) as u64 as u128;
                                    if i.e != 0 {
                                        let e = self.d.sextend(i.e, 64);
                                        x = self.wrap(c, e);
                                    } else {
                                        x = Val { c, e: 0 };
                                    }
                                }
                                let x = self.bin(Bop::Mul, 64, x, Val { c: *s as u128, e: 0 })?;
                                r = self.bin(Bop::Add, 64, r, x)?;
                            }
                        }
                        wr!(*d, r);
                    }
                    Inst::Alloca(d, n, al) => {
                        let a = (self.sp + al - 1) & !(al - 1);
                        self.sp = a + n;
                        if self.sp > ARENA - 4096 {
                            sync!();
                            return Err(End::Panic("stack exhausted".into()));
                        }
                        wr!(*d, Val { c: a as u128, e: 0 });
                    }
                    Inst::Br(e) => {
                        self.take_edge(&f, base, e);
                        pc = e.to as usize;
                        continue;
                    }
                    Inst::CondBr(c, b) => {
                        let v = rd!(*c);
                        if v.e != 0 {
                            sync!();
                            self.decide(v.e, v.c == 1);
                        }
                        let e = if v.c == 1 { &b.0 } else { &b.1 };
                        self.take_edge(&f, base, e);
                        pc = e.to as usize;
                        continue;
                    }
                    Inst::Switch(b) => {
                        let (o, w, cases, de) = &**b;
                        let v = rd!(*o);
                        let hit = cases.iter().find(|(k, _)| *k == v.c).map(|x| &x.1).unwrap_or(de);
                        if v.e != 0 && self.d.is_const(v.e).is_none() {
                            sync!();
                            // group case values by destination
                            let mut groups: Vec<(usize, E)> = vec![];
                            for (k, ed) in cases {
                                let kc = self.d.cst(*w, *k);
                                let c = self.d.eq(v.e, kc);
                                let key = ed as *const Edge as usize;
                                // destinations with the same target and copies behave alike
                                let g = groups.iter().position(|(p, _)| {
                                    let q = unsafe { &*(*p as *const Edge) };
                                    q.to == ed.to && q.copies == ed.copies
                                });
                                match g {
                                    Some(i) => groups[i].1 = self.d.or(groups[i].1, c),
                                    None => groups.push((key, c)),
                                }
                            }
                            let mut any = self.d.cst(1, 0);
                            for (_, c) in &groups {
                                any = self.d.or(any, *c);
                            }
                            let none = self.d.not(any);
                            let mut conds: Vec<(bool, E)> = vec![];
                            let in_case = cases.iter().any(|(k, _)| *k == v.c);
                            for (p, c) in &groups {
                                let q = unsafe { &*(*p as *const Edge) };
                                let t = in_case && q.to == hit.to && q.copies == hit.copies;
                                conds.push((t, *c));
                            }
                            conds.push((!in_case, none));
                            let mut taken = None;
                            let mut alts = vec![];
                            for (t, c) in conds {
                                if t {
                                    taken = Some(c)
                                } else if self.d.is_const(c) != Some(0) && self.known.get(&c) != Some(&false) {
                                    alts.push(c)
                                }
                            }
                            let taken = taken.unwrap();
                            if self.d.is_const(taken).is_none() && self.known.get(&taken) != Some(&true) {
                                let at = self.at();
                                let pi = self.pc.len();
                                self.learn(taken);
                                self.events.push((pi, Event::Branch { taken, alts, at }));
                            }
                        }
                        self.take_edge(&f, base, hit);
                        pc = hit.to as usize;
                        continue;
                    }
                    Inst::Ret(v) => {
                        let fr = self.frames.pop().unwrap();
                        self.sp = fr.sp;
                        match self.frames.last() {
                            None => return Ok(()),
                            Some(caller) => {
                                let cb = caller.base + fr.dst;
                                for j in 0..fr.nres.min(v.len() as u32) {
                                    let x = self.rd(&f, base, v[j as usize]);
                                    self.regs[(cb + j) as usize] = x;
                                }
                            }
                        }
                        continue 'outer;
                    }
                    Inst::Call(c) => {
                        let (dst, nres, target, args, rw) = &**c;
                        let av: Vec<Val> = args.iter().map(|o| rd!(*o)).collect();
                        let id = match target {
                            Target::Fn(i) => *i,
                            Target::Ind(o) => {
                                let t = rd!(*o);
                                sync!();
                                let a = self.conc(t, 64) as u64;
                                let k = a.wrapping_sub(FUNC_BASE) / 16;
                                if a < FUNC_BASE || k as usize >= self.sh.m.funcs.len() {
                                    return err(format!("indirect call to {a:#x}"));
                                }
                                k as u32
                            }
                        };
                        sync!();
                        let id = match self.sh.roles[id as usize] {
                            Role::Forward(t) => t,
                            _ => id,
                        };
                        if self.sh.roles[id as usize] == Role::Normal {
                            self.frames.last_mut().unwrap().pc = pc as u32 + 1;
                            self.call_fn(id, &av, *dst, *nres)?;
                            continue 'outer;
                        }
                        let rv = self.role_call(id, &av, rw)?;
                        for (j, x) in rv.into_iter().enumerate().take(*nres as usize) {
                            wr!(*dst + j as u32, x);
                        }
                    }
                    Inst::Pack(_, src, fw, ds) => {
                        // little-endian concatenation, then split
                        let mut c = 0u128;
                        let mut e: Option<E> = None;
                        let symb = src.iter().any(|o| rd!(*o).e != 0);
                        let mut sh = 0u32;
                        for o in src.iter() {
                            let v = rd!(*o);
                            if sh < 128 {
                                c |= v.c << sh;
                            }
                            sh += *fw as u32;
                            if symb {
                                let x = self.ex(v, *fw);
                                e = Some(match e {
                                    None => x,
                                    Some(l) => self.d.concat(x, l),
                                });
                            }
                        }
                        if sh > 128 {
                            return err("bitcast wider than 128 bits");
                        }
                        let mut o = 0u32;
                        for (r, w) in ds.iter() {
                            let cc = (c >> o) & mask(*w);
                            let v = match e {
                                None => Val { c: cc, e: 0 },
                                Some(x) => {
                                    let y = self.d.extract(x, o as u8, *w);
                                    self.wrap(cc, y)
                                }
                            };
                            wr!(*r, v);
                            o += *w as u32;
                        }
                    }
                    Inst::AtomicRmw(d, op, p, v, w) => {
                        let (p, v) = (rd!(*p), rd!(*v));
                        sync!();
                        let a = self.conc(p, 64) as u64;
                        let old = self.load_at(a, *w)?;
                        let n = match op.as_str() {
                            "add" => self.bin(Bop::Add, *w, old, v)?,
                            "sub" => self.bin(Bop::Sub, *w, old, v)?,
                            "and" => self.bin(Bop::And, *w, old, v)?,
                            "or" => self.bin(Bop::Or, *w, old, v)?,
                            "xor" => self.bin(Bop::Xor, *w, old, v)?,
                            "xchg" => v,
                            _ => return err(format!("atomicrmw {op}")),
                        };
                        self.store_at(a, n, *w)?;
                        wr!(*d, old);
                    }
                    Inst::CmpXchg(d, p, x, n, w) => {
                        let (p, x, n) = (rd!(*p), rd!(*x), rd!(*n));
                        sync!();
                        let a = self.conc(p, 64) as u64;
                        let old = self.load_at(a, *w)?;
                        let o = self.conc(old, *w);
                        let xx = self.conc(x, *w);
                        let ok = o == xx;
                        if ok {
                            self.store_at(a, n, *w)?;
                        }
                        wr!(*d, old);
                        wr!(*d + 1, Val { c: ok as u128, e: 0 });
                    }
                    Inst::Unreachable => {
                        sync!();
                        return err(format!("unreachable in {}", f.name));
                    }
                    Inst::Unsupported(s) => {
                        sync!();
                        return err(format!("unsupported {s} in {}", f.name));
                    }
                }
                pc += 1;
            }
        }
    }
    // ---- builtins -------------------------------------------------------------
    fn role_call(&mut self, id: u32, a: &[Val], rw: &[u8]) -> X<Vec<Val>> {
        let role = self.sh.roles[id as usize].clone();
        match role {
            Role::CharTable(k) => self.char_table(k, a[0]),
            Role::Builtin(b) => self.builtin(b, id, a, rw),
            Role::Normal | Role::Forward(_) => unreachable!(),
        }
    }
    fn char_table(&mut self, k: &'static str, v: Val) -> X<Vec<Val>> {
        let r = &self.sh.tables[k];
        let cp = v.c as u32;
        let c = r.iter().any(|(a, b)| cp >= *a && cp <= *b) as u128;
        if v.e == 0 {
            return Ok(vec![Val { c, e: 0 }]);
        }
        let mut e = self.d.cst(1, 0);
        for (a, b) in r {
            let x = self.d.cst(32, *a as u128);
            let y = self.d.cst(32, *b as u128);
            let p = if a == b {
                self.d.eq(v.e, x)
            } else {
                let p = self.d.ule(x, v.e);
                let q = self.d.ule(v.e, y);
                self.d.and(p, q)
            };
            e = self.d.or(e, p);
        }
        Ok(vec![self.wrap(c, e)])
    }
    fn c64(&mut self, v: Val) -> u64 {
        self.conc(v, 64) as u64
    }
    fn k(c: u128) -> Val {
        Val { c, e: 0 }
    }
    fn fresh(&mut self, w: u8) -> Val {
        let slot = self.ninputs;
        self.ninputs += 1;
        self.input_kinds.push((w, false));
        if self.inputs.len() <= slot {
            self.inputs.push(0);
        }
        let c = self.inputs[slot] & mask(w);
        let e = self.d.var(slot, w);
        Val { c, e }
    }
    fn choice(&mut self, n: u64) -> u64 {
        let slot = self.ninputs;
        self.ninputs += 1;
        self.input_kinds.push((64, true));
        if self.inputs.len() <= slot {
            self.inputs.push(0);
        }
        let c = self.inputs[slot] as u64;
        let c = c.min(n - 1);
        self.inputs[slot] = c as u128;
        let pi = self.pc.len();
        self.events.push((pi, Event::Choice { slot, n }));
        c
    }
    fn str_at(&mut self, p: Val, n: Val) -> X<String> {
        let (p, n) = (self.c64(p), self.c64(n));
        Ok(String::from_utf8_lossy(&self.bytes(p, n)?).into_owned())
    }
    fn panic_msg(&mut self, id: u32, a: &[Val]) -> String {
        // the last pointer argument is the Location: { ptr file, len, line, col }
        let mut loc = String::new();
        if let Some(l) = a.last() {
            let p = l.c as u64;
            if p >= GLOBAL_BASE && p + 24 < ARENA {
                let f = self.load_at(p, 64).map(|v| v.c as u64).unwrap_or(0);
                let n = self.load_at(p + 8, 64).map(|v| v.c as u64).unwrap_or(0);
                let line = self.load_at(p + 16, 32).map(|v| v.c).unwrap_or(0);
                let col = self.load_at(p + 20, 32).map(|v| v.c).unwrap_or(0);
                if n < 300 && f >= GLOBAL_BASE && f + n < ARENA {
                    if let Ok(b) = self.bytes(f, n) {
                        loc = format!("{}:{}:{}", String::from_utf8_lossy(&b).trim_end_matches('\0'), line, col);
                    }
                }
            }
        }
        let bt: Vec<String> = self.backtrace().into_iter().take(40).map(|s| crate::demangle(&s)).collect();
        let inner = bt.iter().find(|s| s.starts_with("kiss_xml")).cloned().unwrap_or_default();
        format!("{} at {loc} in {inner}", crate::demangle(&self.sh.m.funcs[id as usize].name))
    }
    fn builtin(&mut self, b: B, id: u32, a: &[Val], rw: &[u8]) -> X<Vec<Val>> {
        let k = Self::k;
        Ok(match b {
            B::SymVar => {
                let w = self.c64(a[0]) as u8;
                let v = self.fresh(w);
                let v = self.zextv(v, 64);
                vec![v]
            }
            B::SymChoice => {
                let n = self.c64(a[0]);
                if n == 0 {
                    return err("choice of 0");
                }
                vec![k(self.choice(n) as u128)]
            }
            B::SymAssume => {
                let v = a[0];
                if v.e != 0 {
                    self.decide_bool(v, 8.min(64));
                }
                if v.c & 1 == 0 {
                    return Err(End::Assume);
                }
                vec![]
            }
            B::SymFail => {
                let m = self.str_at(a[0], a[1])?;
                return Err(End::Fail(m));
            }
            B::SymCover => {
                let c = self.c64(a[0]) as u32;
                if !self.covers.contains(&c) {
                    self.covers.push(c);
                }
                vec![]
            }
            B::SymEmit => {
                let (p, n) = (self.c64(a[0]), self.c64(a[1]));
                let b = self.bytes(p, n)?;
                self.emitted.extend(b);
                self.emitted.push(0xff);
                vec![]
            }
            B::SymNote => {
                let m = self.str_at(a[0], a[1])?;
                self.notes.push(m);
                vec![]
            }
            B::SymConc => vec![k(self.conc(a[0], 64))],
            B::SymIsSym => vec![k((a[0].e != 0) as u128)],
            B::SymHashMode => {
                self.hash_mode = self.c64(a[0]);
                vec![]
            }
            B::RegexMatch => {
                let p = self.str_at(a[0], a[1])?;
                let (hp, hn) = (self.c64(a[2]), self.c64(a[3]));
                let hay = self.sym_bytes(hp, hn)?;
                vec![self.regex_match(&p, &hay)?]
            }
            B::RegexClassify => {
                // split every symbolic byte into the equivalence classes of the pattern's automaton
                let p = self.str_at(a[0], a[1])?;
                let (hp, hn) = (self.c64(a[2]), self.c64(a[3]));
                let hay = self.sym_bytes(hp, hn)?;
                let cls = match self.sh.regexes.classes(&p) {
                    Ok(c) => c,
                    Err(e) => return err(e),
                };
                for (v, e) in hay {
                    if e != 0 {
                        self.partition(e, v, &|x| cls[x as usize] as usize);
                    }
                }
                vec![]
            }
            B::RegexFind => {
                // (pat,plen,hay,hlen,from,out*) -> 0 none, 1 found, 2 cannot tell (patterns with empty matches)
                let p = self.str_at(a[0], a[1])?;
                let (hp, hn, from, out) = (self.c64(a[2]), self.c64(a[3]), self.c64(a[4]), self.c64(a[5]));
                let hay = self.sym_bytes(hp, hn)?;
                let f = match self.sh.regexes.finder(&p) {
                    Ok(c) => c,
                    Err(e) => return err(e),
                };
                use regex_automata::dfa::Automaton;
                if f.forward().has_empty() {
                    vec![k(2)]
                } else {
                    let got = self.regex_find(&f, &hay, from as usize)?;
                    let conc: Vec<u8> = hay.iter().map(|x| x.0).collect();
                    let real = match self.sh.regexes.captures(&p, &conc, from as usize) {
                        Ok(r) => r.and_then(|g| g[0]),
                        Err(e) => return err(e),
                    };
                    if got != real {
                        return err(format!("regex {p:?}: {got:?} instead of {real:?}"));
                    }
                    match got {
                        None => vec![k(0)],
                        Some((s, e)) => {
                            self.store_at(out, k(s as u128), 64)?;
                            self.store_at(out + 8, k(e as u128), 64)?;
                            vec![k(1)]
                        }
                    }
                }
            }
            B::RegexExec => {
                // (pat,plen,hay,hlen,start,out*,max) -> number of slots or 0; groups written as pairs (usize::MAX = unset)
                let p = self.str_at(a[0], a[1])?;
                let (hp, hn, st, out, max) = (self.c64(a[2]), self.c64(a[3]), self.c64(a[4]), self.c64(a[5]), self.c64(a[6]));
                let hay = self.bytes(hp, hn)?;
                match self.sh.regexes.captures(&p, &hay, st as usize) {
                    Err(e) => return err(e),
                    Ok(None) => vec![k(0)],
                    Ok(Some(g)) => {
                        for (i, x) in g.iter().enumerate().take(max as usize) {
                            let (s, e) = x.map(|(s, e)| (s as u64, e as u64)).unwrap_or((u64::MAX, u64::MAX));
                            self.store_at(out + 16 * i as u64, k(s as u128), 64)?;
                            self.store_at(out + 16 * i as u64 + 8, k(e as u128), 64)?;
                        }
                        vec![k(g.len() as u128)]
                    }
                }
            }
            B::HashWrite => {
                self.hash_write(a)?;
                vec![k(0); rw.len()]
            }
            B::HashFinish => {
                let h = if self.hash_mode == 0 { 0 } else { self.load_at(a[0].c as u64, 64)?.c };
                vec![k(h)]
            }
            B::RandomKeys => vec![k(0); rw.len()],
            B::ByteSet => vec![k(1)],
            B::SimdContains => vec![k(2)], // Option<bool>::None
            B::MemchrAligned | B::Memrchr => {
                if a.len() != 3 || rw.len() != 2 {
                    return err("memchr signature");
                }
                let needle = a[0];
                let (p, n) = (self.c64(a[1]), self.c64(a[2]));
                let hay = self.sym_bytes(p, n)?;
                let order: Vec<usize> = if b == B::Memrchr { (0..hay.len()).rev().collect() } else { (0..hay.len()).collect() };
                let ne = self.ex(needle, 8);
                for i in order {
                    let hit = hay[i].0 as u128 == needle.c;
                    if hay[i].1 != 0 || needle.e != 0 {
                        let x = self.bexpr(hay[i]);
                        let c = self.d.eq(x, ne);
                        self.decide(c, hit);
                    }
                    if hit {
                        return Ok(vec![k(1), k(i as u128)]);
                    }
                }
                vec![k(0), k(0)]
            }
            B::PanicFmt => {
                let m = self.panic_msg(id, a);
                return Err(End::Panic(m));
            }
            B::Abort | B::Trap => return Err(End::Panic("abort".into())),
            B::Nop => vec![k(0); rw.len()],
            B::Ret0 => vec![k(0); rw.len()],
            B::RetM1 => rw.iter().map(|w| k(mask(*w))).collect(),
            B::Getenv => vec![k(0)],
            B::Malloc => {
                let n = self.c64(a[0]);
                vec![k(self.malloc(n, 16)? as u128)]
            }
            B::Calloc => {
                let (n, s) = (self.c64(a[0]), self.c64(a[1]));
                // fresh heap memory is zero
                let n = n.saturating_mul(s);
                let p = self.malloc(n, 16)?;
                if p != 0 && n >= BIG {
                    let had = self.page_sym(p, n);
                    self.touch(p, n, false);
                    self.mem[p as usize..(p + n) as usize].fill(0);
                    if had {
                        self.shadow[p as usize..(p + n) as usize].fill(0);
                    }
                }
                vec![k(p as u128)]
            }
            B::Realloc => {
                let (p, n) = (self.c64(a[0]), self.c64(a[1]));
                let q = self.malloc(n, 16)?;
                if q != 0 && p != 0 {
                    let old = self.allocs.get(&p).copied().unwrap_or(0);
                    self.copy(q, p, old.min(n))?;
                    self.free(p);
                }
                vec![k(q as u128)]
            }
            B::Free => {
                let p = self.c64(a[0]);
                self.free(p);
                vec![]
            }
            B::PosixMemalign => {
                let (o, al, n) = (self.c64(a[0]), self.c64(a[1]), self.c64(a[2]));
                let p = self.malloc(n, al)?;
                self.store_at(o, k(p as u128), 64)?;
                vec![k(0)]
            }
            B::Memcmp => {
                let n = self.c64(a[2]);
                let (p, q) = (self.c64(a[0]), self.c64(a[1]));
                let x = self.sym_bytes(p, n)?;
                let y = self.sym_bytes(q, n)?;
                let is_bcmp = self.sh.m.funcs[id as usize].name == "bcmp";
                let mut c = 0i32;
                for i in 0..n as usize {
                    if x[i].0 != y[i].0 {
                        c = if x[i].0 < y[i].0 { -1 } else { 1 };
                        break;
                    }
                }
                if is_bcmp && c != 0 {
                    c = 1
                }
                let cv = c as u32 as u128;
                if x.iter().chain(y.iter()).all(|b| b.1 == 0) {
                    return Ok(vec![k(cv)]);
                }
                if is_bcmp {
                    let mut eq = self.d.cst(1, 1);
                    for i in 0..n as usize {
                        let (p, q) = (self.bexpr(x[i]), self.bexpr(y[i]));
                        let t = self.d.eq(p, q);
                        eq = self.d.and(eq, t);
                        if self.d.is_const(eq) == Some(0) {
                            break;
                        }
                    }
                    let z = self.d.cst(32, 0);
                    let o = self.d.cst(32, 1);
                    let e = self.d.ite(eq, z, o);
                    vec![self.wrap(cv, e)]
                } else {
                    let mut r = self.d.cst(32, 0);
                    let lt = self.d.cst(32, u32::MAX as u128);
                    let gt = self.d.cst(32, 1);
                    for i in (0..n as usize).rev() {
                        let (p, q) = (self.bexpr(x[i]), self.bexpr(y[i]));
                        let t = self.d.eq(p, q);
                        let l = self.d.ult(p, q);
                        let o = self.d.ite(l, lt, gt);
                        r = self.d.ite(t, r, o);
                    }
                    vec![self.wrap(cv, r)]
                }
            }
            B::Strlen => {
                let p = self.c64(a[0]);
                let mut n = 0u64;
                loop {
                    let v = self.load_at(p + n, 8)?;
                    if v.e != 0 {
                        let z = self.d.cst(8, 0);
                        let c = self.d.eq(v.e, z);
                        self.decide(c, v.c == 0);
                    }
                    if v.c == 0 {
                        break;
                    }
                    n += 1;
                }
                vec![k(n as u128)]
            }
            B::Errno => vec![k(self.sh.errno_addr as u128)],
            B::Write => vec![a[2]],
            B::Writev => {
                let (p, n) = (self.c64(a[1]), self.c64(a[2]));
                let mut t = 0;
                for i in 0..n {
                    t += self.load_at(p + 16 * i + 8, 64)?.c;
                }
                vec![k(t)]
            }
            B::Memcpy => {
                let (d, s, n) = (self.c64(a[0]), self.c64(a[1]), self.c64(a[2]));
                self.copy(d, s, n)?;
                vec![a[0]]
            }
            B::Memset => {
                let (d, n) = (self.c64(a[0]), self.c64(a[2]));
                let v = a[1];
                if n > 0 {
                    self.chk(d, n)?;
                    if v.e == 0 {
                        let had = self.page_sym(d, n);
                        self.touch(d, n, false);
                        self.mem[d as usize..(d + n) as usize].fill(v.c as u8);
                        if had {
                            self.shadow[d as usize..(d + n) as usize].fill(0);
                        }
                    } else {
                        for i in 0..n {
                            self.store_at(d + i, v, 8)?;
                        }
                    }
                }
                vec![a[0]]
            }
            B::Ovf(o, signed) => {
                let w = rw[0];
                let r = self.bin(o, w, a[0], a[1])?;
                let of = if signed { self.sovf(o, w, a[0], a[1])? } else { self.uovf(o, w, a[0], a[1])? };
                vec![r, of]
            }
            B::Sat(o) => {
                let w = rw[0];
                let r = self.bin(o, w, a[0], a[1])?;
                let of = self.uovf(o, w, a[0], a[1])?;
                let lim = if o == Bop::Add { k(mask(w)) } else { k(0) };
                vec![self.select(of, lim, r, w)]
            }
            B::Umax | B::Umin | B::Smax | B::Smin => {
                let w = rw[0];
                let p = match b {
                    B::Umax => Pred::Ugt,
                    B::Umin => Pred::Ult,
                    B::Smax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.icmp(p, w, a[0], a[1]);
                vec![self.select(c, a[0], a[1], w)]
            }
            B::Ctlz | B::Cttz => {
                let w = rw[0];
                let v = a[0];
                let c = if b == B::Ctlz { v.c.leading_zeros() as u128 - (128 - w as u128) } else { (v.c.trailing_zeros() as u128).min(w as u128) };
                if v.e == 0 {
                    return Ok(vec![k(c)]);
                }
                let mut e = self.d.cst(w, w as u128);
                for i in 0..w {
                    let pos = if b == B::Ctlz { i } else { w - 1 - i };
                    let bit = self.d.extract(v.e, pos, 1);
                    let val = if b == B::Ctlz { w - 1 - pos } else { pos };
                    let kk = self.d.cst(w, val as u128);
                    e = self.d.ite(bit, kk, e);
                }
                vec![self.wrap(c, e)]
            }
            B::Ctpop => {
                let w = rw[0];
                let v = a[0];
                let c = v.c.count_ones() as u128;
                if v.e == 0 {
                    return Ok(vec![k(c)]);
                }
                let mut e = self.d.cst(w, 0);
                for i in 0..w {
                    let bit = self.d.extract(v.e, i, 1);
                    let z = if w > 1 { self.d.zext(bit, w) } else { bit };
                    e = self.d.add(e, z);
                }
                vec![self.wrap(c, e)]
            }
            B::Bswap | B::Bitrev => {
                let w = rw[0];
                let v = a[0];
                let unit = if b == B::Bswap { 8 } else { 1 };
                let n = w / unit;
                let mut c = 0u128;
                let mut e: Option<E> = None;
                for i in 0..n {
                    let piece = (v.c >> (i * unit)) & mask(unit);
                    c |= piece << ((n - 1 - i) * unit);
                    if v.e != 0 {
                        let x = self.d.extract(v.e, i * unit, unit);
                        e = Some(match e {
                            None => x,
                            Some(h) => self.d.concat(h, x),
                        });
                    }
                }
                match e {
                    None => vec![k(c)],
                    Some(e) => vec![self.wrap(c, e)],
                }
            }
            B::Fshl | B::Fshr => {
                let w = rw[0];
                let s = self.conc(a[2], w) % w as u128;
                let (hi, lo) = (a[0], a[1]);
                let s = if b == B::Fshl { s } else { w as u128 - s };
                if s == 0 {
                    return Ok(vec![hi]);
                }
                if s == w as u128 {
                    return Ok(vec![lo]);
                }
                let x = self.bin(Bop::Shl, w, hi, k(s))?;
                let y = self.bin(Bop::LShr, w, lo, k(w as u128 - s))?;
                vec![self.bin(Bop::Or, w, x, y)?]
            }
            B::Abs => {
                let w = rw[0];
                let n = self.bin(Bop::Sub, w, k(0), a[0])?;
                let c = self.icmp(Pred::Slt, w, a[0], k(0));
                vec![self.select(c, n, a[0], w)]
            }
            B::Ucmp | B::Scmp => {
                // operand width from the name suffix
                let nm = &self.sh.m.funcs[id as usize].name;
                let w: u8 = nm.rsplit(".i").next().and_then(|s| s.parse().ok()).unwrap_or(64);
                let rwid = rw[0];
                let lt = self.icmp(if b == B::Ucmp { Pred::Ult } else { Pred::Slt }, w, a[0], a[1]);
                let eq = self.icmp(Pred::Eq, w, a[0], a[1]);
                let t = self.select(eq, k(0), k(1), rwid);
                vec![self.select(lt, k(mask(rwid)), t, rwid)]
            }
            B::ReduceAnd | B::ReduceOr => {
                let w = rw[0];
                let mut r = a[0];
                for x in &a[1..] {
                    r = self.bin(if b == B::ReduceAnd { Bop::And } else { Bop::Or }, w, r, *x)?;
                }
                vec![r]
            }
            B::ThreadLocal | B::Expect => vec![a[0]],
            B::IsConst => vec![k(0)],
            B::ForkMatch => return err("forkmatch"),
            B::Missing => return err(format!("external function {}", self.sh.m.funcs[id as usize].name)),
        })
    }
    fn decide_bool(&mut self, v: Val, _w: u8) {
        let e = if self.d.w(v.e) == 1 { v.e } else { self.d.extract(v.e, 0, 1) };
        self.decide(e, v.c & 1 == 1);
    }
    fn uovf(&mut self, o: Bop, w: u8, a: Val, b: Val) -> X<Val> {
        Ok(match o {
            Bop::Add => {
                let r = self.bin(Bop::Add, w, a, b)?;
                self.icmp(Pred::Ult, w, r, a)
            }
            Bop::Sub => self.icmp(Pred::Ult, w, a, b),
            Bop::Mul => {
                let ww = (w as u32 * 2).min(128) as u8;
                if w > 64 {
                    let (x, y) = (self.conc(a, w), self.conc(b, w));
                    return Ok(Self::k(x.checked_mul(y).map_or(true, |v| v > mask(w)) as u128));
                }
                let (x, y) = (self.zextv(a, ww), self.zextv(b, ww));
                let r = self.bin(Bop::Mul, ww, x, y)?;
                self.icmp(Pred::Ugt, ww, r, Self::k(mask(w)))
            }
            _ => return err("ovf"),
        })
    }
    fn sovf(&mut self, o: Bop, w: u8, a: Val, b: Val) -> X<Val> {
        let ww = if o == Bop::Mul { w * 2 } else { w + 1 };
        let sx = |s: &mut Self, v: Val| {
            let c = sext(v.c, w) as u128 & mask(ww);
            if v.e == 0 {
                Val { c, e: 0 }
            } else {
                let e = s.d.sextend(v.e, ww);
                s.wrap(c, e)
            }
        };
        let (x, y) = (sx(self, a), sx(self, b));
        let r = self.bin(o, ww, x, y)?;
        let t = self.bin(o, w, a, b)?;
        let t = sx(self, t);
        Ok(self.icmp(Pred::Ne, ww, r, t))
    }
    /// condition "byte e is in the set"
    pub fn byte_in(&mut self, e: E, set: &dyn Fn(u8) -> bool) -> E {
        let n = self.d.n[e as usize];
        let (lo, hi) = (n.lo as u32, n.hi as u32);
        let mut r = self.d.cst(1, 0);
        let mut x = lo;
        while x <= hi {
            if set(x as u8) {
                let s = x;
                while x <= hi && set(x as u8) {
                    x += 1
                }
                let t = x - 1;
                let c = if s == t {
                    let kk = self.d.cst(8, s as u128);
                    self.d.eq(e, kk)
                } else {
                    let (ks, kt) = (self.d.cst(8, s as u128), self.d.cst(8, t as u128));
                    let p = self.d.ule(ks, e);
                    let q = self.d.ule(e, kt);
                    self.d.and(p, q)
                };
                r = self.d.or(r, c);
            } else {
                x += 1
            }
        }
        r
    }
    fn regex_match(&mut self, pat: &str, hay: &[(u8, E)]) -> X<Val> {
        let conc: Vec<u8> = hay.iter().map(|x| x.0).collect();
        let c = match self.sh.regexes.is_match(pat, &conc) {
            Ok(b) => b as u128,
            Err(e) => return err(e),
        };
        if hay.iter().all(|x| x.1 == 0) {
            return Ok(Self::k(c));
        }
        let dfa = match self.sh.regexes.dfa(pat) {
            Ok(d) => d,
            Err(e) => return err(e),
        };
        // state set with guards
        let one = self.d.cst(1, 1);
        let zero = self.d.cst(1, 0);
        let mut acc = zero;
        let mut cur: Vec<(usize, E)> = vec![(dfa.start, one)];
        for (i, b) in hay.iter().enumerate() {
            let _ = i;
            let mut next: Vec<(usize, E)> = vec![];
            for (s, g) in cur {
                let row = &dfa.rows[s];
                if b.1 == 0 {
                    let t = row.next[b.0 as usize];
                    push_state(&mut self.d, &mut next, &mut acc, &dfa, t, g);
                } else {
                    // group bytes by successor
                    let n = self.d.n[b.1 as usize];
                    let mut tg: Vec<usize> = vec![];
                    for x in n.lo..=n.hi {
                        let t = row.next[x as usize];
                        if !tg.contains(&t) {
                            tg.push(t)
                        }
                    }
                    for t in tg {
                        let cnd = self.byte_in(b.1, &|x| row.next[x as usize] == t);
                        let gg = self.d.and(g, cnd);
                        if self.d.is_const(gg) == Some(0) {
                            continue;
                        }
                        push_state(&mut self.d, &mut next, &mut acc, &dfa, t, gg);
                    }
                }
            }
            cur = next;
        }
        for (s, g) in cur {
            if dfa.rows[s].eoi_match {
                acc = self.d.or(acc, g);
            }
        }
        Ok(self.wrap(c, acc))
    }
    /// DefaultHasher::write: mode 0 ignores the data (every key collides); mode 1..99 uses the length of the
    /// data with the n-th mixing function, mode 100.. its (concrete) bytes, so that modes differ in iteration order
    fn hash_write(&mut self, a: &[Val]) -> X<()> {
        if self.hash_mode == 0 || a.len() != 3 {
            return Ok(());
        }
        let (st, p, n) = (self.c64(a[0]), self.c64(a[1]), self.c64(a[2]));
        let mut h = self.load_at(st, 64)?.c as u64 ^ self.hash_mode.wrapping_mul(0x9E3779B97F4A7C15);
        if self.hash_mode < 100 {
            // equal keys must have equal hashes whether their bytes are symbolic or not: the length alone counts
            h = (h ^ n).wrapping_mul(0xff51afd7ed558ccd);
            h ^= h >> 33;
        } else {
            for (b, e) in self.sym_bytes(p, n)? {
                // (a symbolic byte in a key: one path for each of its values)
                let b = self.conc(Val { c: b as u128, e }, 8);
                h = (h ^ b as u64).wrapping_mul(0xff51afd7ed558ccd);
                h ^= h >> 33;
            }
        }
        self.store_at(st, Self::k(h as u128), 64)
    }
}

fn push_state(d: &mut Dag, next: &mut Vec<(usize, E)>, acc: &mut E, dfa: &crate::rx::Dfa, t: usize, g: E) {
    if t == crate::rx::DEAD {
        return;
    }
    if dfa.rows[t].is_match {
        *acc = d.or(*acc, g);
        return;
    }
    match next.iter().position(|x| x.0 == t) {
        Some(i) => next[i].1 = d.or(next[i].1, g),
        None => next.push((t, g)),
    }
}
