mod expr;
mod interp;
mod ir;
mod rx;
mod z3;

use expr::*;
use interp::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// crude reader for v0 mangled names: the identifiers joined by "::"
pub fn demangle(s: &str) -> String {
    let b = s.as_bytes();
    if !s.starts_with("_R") {
        return s.to_string();
    }
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    let b62 = |c: u8| c.is_ascii_alphanumeric();
    while i < b.len() {
        let c = b[i];
        if c == b'C' && i + 1 < b.len() && b[i + 1] == b's' || c == b's' || c == b'B' {
            let mut j = i + 1;
            while j < b.len() && b62(b[j]) {
                j += 1
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
            i += 1;
        } else if c.is_ascii_digit() && c != b'0' {
            let mut j = i;
            let mut n = 0usize;
            while j < b.len() && b[j].is_ascii_digit() && n < 1000 {
                n = n * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1
            }
            if j + n <= b.len() {
                out.push(s[j..j + n].to_string());
                i = j + n;
            } else {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    out.join("::")
}

fn builtin_for(n: &str) -> Option<B> {
    use ir::Bop;
    use B::*;
    Some(match n {
        "__sym_var" => SymVar,
        "__sym_choice" => SymChoice,
        "__sym_assume" => SymAssume,
        "__sym_fail" => SymFail,
        "__sym_cover" => SymCover,
        "__sym_emit" => SymEmit,
        "__sym_note" => SymNote,
        "__sym_conc" => SymConc,
        "__sym_is_symbolic" => SymIsSym,
        "__sym_hash_mode" => SymHashMode,
        "__sym_regex_is_match" => RegexMatch,
        "__sym_regex_classify" => RegexClassify,
        "__sym_regex_find" => RegexFind,
        "__sym_regex_exec" => RegexExec,
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => PosixMemalign,
        "bcmp" | "memcmp" => Memcmp,
        "memcpy" | "memmove" => Memcpy,
        "memset" => Memset,
        "strlen" => Strlen,
        "__errno_location" => Errno,
        "abort" => Abort,
        "write" => Write,
        "writev" => Writev,
        "getenv" => Getenv,
        "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" => Ret0,
        "poll" | "close" | "munmap" | "fstat64" | "stat64" | "dl_iterate_phdr" => Ret0,
        "open64" | "read" | "lseek64" | "statx" | "syscall" | "getrandom" => RetM1,
        _ if n.starts_with("llvm.") => {
            let p = |s: &str| n[5..].starts_with(s);
            if p("memcpy") || p("memmove") {
                Memcpy
            } else if p("memset") {
                Memset
            } else if p("sadd.with") {
                Ovf(Bop::Add, true)
            } else if p("uadd.with") {
                Ovf(Bop::Add, false)
            } else if p("ssub.with") {
                Ovf(Bop::Sub, true)
            } else if p("usub.with") {
                Ovf(Bop::Sub, false)
            } else if p("smul.with") {
                Ovf(Bop::Mul, true)
            } else if p("umul.with") {
                Ovf(Bop::Mul, false)
            } else if p("uadd.sat") {
                Sat(Bop::Add)
            } else if p("usub.sat") {
                Sat(Bop::Sub)
            } else if p("umax") {
                Umax
            } else if p("umin") {
                Umin
            } else if p("smax") {
                Smax
            } else if p("smin") {
                Smin
            } else if p("ctlz") {
                Ctlz
            } else if p("cttz") {
                Cttz
            } else if p("ctpop") {
                Ctpop
            } else if p("bswap") {
                Bswap
            } else if p("bitreverse") {
                Bitrev
            } else if p("fshl") {
                Fshl
            } else if p("fshr") {
                Fshr
            } else if p("abs.") {
                Abs
            } else if p("ucmp") {
                Ucmp
            } else if p("scmp") {
                Scmp
            } else if p("vector.reduce.and") {
                ReduceAnd
            } else if p("vector.reduce.or") {
                ReduceOr
            } else if p("threadlocal.address") {
                ThreadLocal
            } else if p("expect") {
                Expect
            } else if p("is.constant") {
                IsConst
            } else if p("trap") || p("ubsantrap") || p("debugtrap") {
                Trap
            } else if p("x86.sse2.pause") || p("lifetime") || p("assume") || p("experimental") || p("donothing") || p("prefetch") {
                Nop
            } else {
                Missing
            }
        }
        _ => return None,
    })
}

fn role_for(m: &ir::Module, i: usize) -> Role {
    let f = &m.funcs[i];
    let n = f.name.as_str();
    let declared = f.lines.0 == f.lines.1;
    if declared || n.starts_with("__sym_") {
        return Role::Builtin(builtin_for(n).unwrap_or(B::Missing));
    }
    let has = |s: &str| n.contains(s);
    if has("4core9panicking") && (has("9panic_fmt") || has("18panic_nounwind_fmt") || has("19panic_cannot_unwind") || has("16panic_in_cleanup")) {
        return Role::Builtin(B::PanicFmt);
    }
    if has("4core3str16slice_error_fail") || has("4core6option13unwrap_failed") || has("4core6option13expect_failed") || has("4core6result13unwrap_failed") {
        return Role::Builtin(B::PanicFmt);
    }
    if has("9panicking13begin_panic") || has("17rust_begin_unwind") || has("18handle_alloc_error") || has("17alloc_error_hook") {
        return Role::Builtin(B::PanicFmt);
    }
    if n.starts_with("_RNvXs") && has("6random") && has("_13DefaultHasher") {
        if has("6Hasher6finish") {
            return Role::Builtin(B::HashFinish);
        }
        if has("6Hasher9write_str") || has("6Hasher5write") {
            return Role::Builtin(B::HashWrite);
        }
    }
    if has("19hashmap_random_keys") {
        return Role::Builtin(B::RandomKeys);
    }
    if has("3str7pattern") && has("15byteset_contains") {
        return Role::Builtin(B::ByteSet);
    }
    if n.starts_with("_RNvNt") && has("4core3str7pattern13simd_contains") {
        return Role::Builtin(B::SimdContains);
    }
    if n.starts_with("_RNvNt") && has("4core5slice6memchr") {
        if has("14memchr_aligned") || has("6memchr6memchr") {
            return Role::Builtin(B::MemchrAligned);
        }
        if has("7memrchr") {
            return Role::Builtin(B::Memrchr);
        }
    }
    if has("5stdio7__eprint") || has("5stdio6__print") {
        return Role::Builtin(B::Nop);
    }
    if has("7unicode12unicode_data") && has("6lookup") || has("7unicode12unicode_data") && has("11lookup_slow") {
        for (k, t) in [("11white_space", "ws"), ("10alphabetic", "alpha"), ("1n6lookup", "num"), ("1n11lookup_slow", "num"), ("9lowercase", "lower"), ("9uppercase", "upper")] {
            if has(k) {
                return Role::CharTable(t);
            }
        }
    }
    Role::Normal
}

fn ranges(f: &dyn Fn(char) -> bool) -> Vec<(u32, u32)> {
    let mut v: Vec<(u32, u32)> = vec![];
    for c in 0..0x110000u32 {
        if let Some(ch) = char::from_u32(c) {
            if f(ch) {
                match v.last_mut() {
                    Some(l) if l.1 + 1 == c => l.1 = c,
                    _ => v.push((c, c)),
                }
            }
        }
    }
    v
}

struct Item {
    inputs: Vec<u128>,
    bound: usize,
    /// hash of the decision sites up to `bound`, to detect a diverging re-execution
    prefix: u64,
}

#[derive(Default, Clone)]
struct Failure {
    kind: String,
    msg: String,
    inputs: Vec<u128>,
    notes: Vec<String>,
}

#[derive(Default)]
struct Stats {
    paths: u64,
    ok: u64,
    assume: u64,
    errors: BTreeMap<String, u64>,
    error_inputs: Vec<Vec<u128>>,
    events: u64,
    edges: u64,
    choice_edges: u64,
    conc_edges: u64,
    steps: u64,
    queries: u64,
    cached: u64,
    sat: u64,
    unsat: u64,
    unknown: u64,
    z3_time: f64,
    z3_max: f64,
    failures: Vec<Failure>,
    covers: BTreeMap<u32, u64>,
    samples: Vec<(String, Vec<u128>, Vec<u8>)>,
    funcs: HashSet<u32>,
    prof: HashMap<(u32, u32), u64>,
    maxinputs: usize,
    max_events: usize,
}

struct Queue {
    items: Vec<Item>,
    active: usize,
    stop: bool,
}

fn main() {
    let mut args: HashMap<String, String> = HashMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let v = it.next().unwrap_or_default();
        args.insert(k.trim_start_matches("--").to_string(), v);
    }
    let get = |k: &str, d: &str| args.get(k).cloned().unwrap_or(d.to_string());
    let t0 = Instant::now();
    let text = std::fs::read_to_string(get("ll", "")).expect("--ll");
    let m = match ir::Module::load(text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("symex: cannot read module: {e}");
            std::process::exit(3)
        }
    };
    let roles: Vec<Role> = (0..m.funcs.len()).map(|i| role_for(&m, i)).collect();
    let mut roles = roles;
    // environment model supplied by the harness: __model_X stands for the external function X
    let mut model_of: HashMap<usize, u32> = HashMap::new();
    for i in 0..m.funcs.len() {
        if let Some(&j) = m.fidx.get(&format!("__model_{}", m.funcs[i].name)) {
            model_of.insert(i, j as u32);
            roles[i] = Role::Forward(j as u32);
        }
    }
    let tables: HashMap<&'static str, Vec<(u32, u32)>> = [
        ("ws", ranges(&|c| c.is_whitespace())),
        ("alpha", ranges(&|c| c.is_alphabetic())),
        ("num", ranges(&|c| c.is_numeric())),
        ("lower", ranges(&|c| c.is_lowercase())),
        ("upper", ranges(&|c| c.is_uppercase())),
    ]
    .into_iter()
    .collect();
    let errno_addr = m.syms.get("__sym_errno").copied().unwrap_or(ir::GLOBAL_BASE + m.image.len() as u64 - 32);
    let sh: &'static Shared = Box::leak(Box::new(Shared { m, roles, max_steps: get("max-steps", "200000000").parse().unwrap(), regexes: Default::default(), tables, errno_addr }));
    let threads: usize = get("threads", "8").parse().unwrap();
    let tmo: f64 = get("time", "600").parse().unwrap();
    let solver_ms: u32 = get("solver-ms", "20000").parse().unwrap();
    let max_fail: usize = get("max-fail", "12").parse().unwrap();
    let max_samples: usize = get("max-samples", "3000").parse().unwrap();
    let profile = args.contains_key("profile");
    let verbose = args.contains_key("verbose");
    let single: Option<Vec<u128>> = args.get("inputs").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
    if args.contains_key("list") {
        for (n, _) in sh.m.fidx.iter().filter(|(n, i)| n.starts_with(&get("list", "h_")) && sh.m.funcs[**i].lines.0 != sh.m.funcs[**i].lines.1) {
            println!("{n}");
        }
        return;
    }
    let load = t0.elapsed().as_secs_f64();
    let mut out = String::from("{\n");
    let _ = write!(out, " \"load_s\": {load:.3},\n \"z3\": {},\n \"harnesses\": [\n", js(&z3::version()));
    let names: Vec<String> = get("harness", "").split(',').map(|s| s.to_string()).collect();
    let total0 = Instant::now();
    for (hi, name) in names.iter().enumerate() {
        let entry = match sh.m.fidx.get(name) {
            Some(e) => *e as u32,
            None => {
                eprintln!("symex: no harness {name}");
                std::process::exit(3);
            }
        };
        let th = Instant::now();
        let left = (tmo - total0.elapsed().as_secs_f64()).max(0.5);
        // a fair share for the remaining harnesses, but never less than the remaining even split
        let budget = if args.contains_key("share") { left / (names.len() - hi) as f64 } else { left };
        let deadline = th + Duration::from_secs_f64(budget);
        // (leaked: a worker that a solver call keeps past the deadline is left behind)
        let q: &'static Mutex<Queue> = Box::leak(Box::new(Mutex::new(Queue { items: vec![Item { inputs: single.clone().unwrap_or_default(), bound: 0, prefix: 0 }], active: 0, stop: false })));
        let cv: &'static Condvar = Box::leak(Box::new(Condvar::new()));
        let stats: &'static Mutex<Stats> = Box::leak(Box::new(Mutex::new(Stats::default())));
        let timed_out: &'static std::sync::atomic::AtomicBool = Box::leak(Box::new(std::sync::atomic::AtomicBool::new(false)));
        let mut hs = vec![];
        for _ in 0..threads {
            let (one, dump) = (single.is_some(), args.get("dump").cloned());
            hs.push(
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn(move || worker(sh, entry, q, cv, stats, deadline, timed_out, solver_ms, max_fail, max_samples, profile, one, verbose, dump))
                    .unwrap(),
            );
        }
        let hard = deadline + Duration::from_secs_f64(20.0 + budget / 4.0);
        let mut wait = Duration::from_millis(1);
        for h in hs {
            while !h.is_finished() && Instant::now() < hard {
                std::thread::sleep(wait);
                wait = (wait * 2).min(Duration::from_millis(50));
            }
            if !h.is_finished() {
                timed_out.store(true, std::sync::atomic::Ordering::Relaxed);
                q.lock().unwrap().stop = true;
            } else if h.join().is_err() {
                eprintln!("symex: a worker ended in a panic");
                std::process::exit(3);
            }
        }
        let st = std::mem::take(&mut *stats.lock().unwrap());
        let exhausted = !timed_out.load(std::sync::atomic::Ordering::Relaxed) && st.errors.is_empty() && st.unknown == 0 && !q.lock().unwrap().stop;
        let wall = th.elapsed().as_secs_f64();
        eprintln!(
            "{name}: paths={} ok={} assume={} fail={} err={} exhausted={} edges={} choices={} queries={} cached={} z3={:.1}s steps={:.1}M wall={:.1}s",
            st.paths,
            st.ok,
            st.assume,
            st.failures.len(),
            st.errors.values().sum::<u64>(),
            exhausted,
            st.edges,
            st.choice_edges,
            st.queries,
            st.cached,
            st.z3_time,
            st.steps as f64 / 1e6,
            wall
        );
        for (e, n) in st.errors.iter().take(10) {
            eprintln!("   ERROR x{n}: {e}");
        }
        for f in st.failures.iter().take(20) {
            eprintln!("   {}: {} inputs={:?}", f.kind, f.msg, f.inputs);
            for n in &f.notes {
                eprintln!("      | {}", n.chars().take(300).collect::<String>());
            }
        }
        if profile {
            let mut v: Vec<_> = st.prof.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for ((f, pc), n) in v.iter().take(25) {
                eprintln!("   {n:8} {}+{pc}", demangle(&sh.m.funcs[*f as usize].name));
            }
        }
        let list = |v: &Vec<u128>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        let _ = write!(
            out,
            "{}  {{\"name\": {}, \"exhausted\": {}, \"wall_s\": {:.3}, \"paths\": {}, \"ok\": {}, \"assume_cut\": {}, \"branch_edges\": {}, \"choice_edges\": {}, \"conc_edges\": {}, \"events\": {}, \"steps\": {}, \"queries\": {}, \"queries_cached\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"solver_s\": {:.3}, \"solver_max_s\": {:.3}, \"max_inputs\": {}, \"max_events\": {}",
            if hi > 0 { ",\n" } else { "" },
            js(name),
            exhausted,
            wall,
            st.paths,
            st.ok,
            st.assume,
            st.edges,
            st.choice_edges,
            st.conc_edges,
            st.events,
            st.steps,
            st.queries,
            st.cached,
            st.sat,
            st.unsat,
            st.unknown,
            st.z3_time,
            st.z3_max,
            st.maxinputs,
            st.max_events
        );
        let _ = write!(out, ", \"errors\": {{{}}}", st.errors.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "));
        let _ = write!(out, ", \"error_inputs\": [{}]", st.error_inputs.iter().map(|i| format!("\"{}\"", list(i))).collect::<Vec<_>>().join(", "));
        let _ = write!(out, ", \"covers\": {{{}}}", st.covers.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect::<Vec<_>>().join(", "));
        let mut fl: Vec<String> = st
            .funcs
            .iter()
            .map(|f| demangle(&sh.m.funcs[*f as usize].name))
            .filter(|s| s.contains("kiss_xml"))
            .collect();
        fl.sort();
        fl.dedup();
        let _ = write!(out, ", \"functions_total\": {}, \"functions\": [{}]", st.funcs.len(), fl.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
        let _ = write!(
            out,
            ", \"failures\": [{}]",
            st.failures
                .iter()
                .map(|f| format!(
                    "{{\"kind\": {}, \"msg\": {}, \"inputs\": \"{}\", \"notes\": [{}]}}",
                    js(&f.kind),
                    js(&f.msg),
                    list(&f.inputs),
                    f.notes.iter().map(|n| js(n)).collect::<Vec<_>>().join(", ")
                ))
                .collect::<Vec<_>>()
                .join(", ")
        );
        let _ = write!(
            out,
            ", \"samples\": [{}]}}",
            st.samples
                .iter()
                .map(|(s, i, e)| format!("[{}, \"{}\", \"{}\"]", js(s), list(i), e.iter().map(|b| format!("{b:02x}")).collect::<String>()))
                .collect::<Vec<_>>()
                .join(", ")
        );
    }
    out.push_str("\n ]\n}\n");
    if let Some(p) = args.get("out") {
        std::fs::write(p, out).expect("--out");
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn worker(
    sh: &Shared,
    entry: u32,
    q: &Mutex<Queue>,
    cv: &Condvar,
    stats: &Mutex<Stats>,
    deadline: Instant,
    timed_out: &std::sync::atomic::AtomicBool,
    solver_ms: u32,
    max_fail: usize,
    max_samples: usize,
    profile: bool,
    single: bool,
    verbose: bool,
    dump: Option<String>,
) {
    let mut m: Option<Machine> = None;
    let mut sol: Option<z3::Solver> = None;
    let mut cache = QCache::default();
    let mut lp = (0u64, 0u64); // local paths, edges
    loop {
        let item = {
            let mut g = q.lock().unwrap();
            loop {
                if g.stop {
                    break None;
                }
                if Instant::now() > deadline && (!g.items.is_empty() || g.active > 0) {
                    timed_out.store(true, std::sync::atomic::Ordering::Relaxed);
                    g.stop = true;
                    cv.notify_all();
                    break None;
                }
                if let Some(i) = g.items.pop() {
                    g.active += 1;
                    break Some(i);
                }
                if g.active == 0 {
                    cv.notify_all();
                    break None;
                }
                g = cv.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
            }
        };
        let item = match item {
            Some(i) => i,
            None => break,
        };
        if m.as_ref().map_or(true, |m| m.d.n.len() > 6_000_000) {
            // a fresh expression store (and solver: its memo is keyed by expression id)
            flush(&mut m, &mut sol, stats);
            let mut mm = Machine::new(sh);
            mm.profile = profile;
            m = Some(mm);
            let mut s = z3::Solver::new(solver_ms);
            if let Some(d) = &dump {
                s.dump = Some((d.clone(), std::env::var("EVERY").map(|x| x.parse().unwrap()).unwrap_or(97)));
            }
            sol = Some(s);
            cache = QCache::default();
        }
        let mc = m.as_mut().unwrap();
        let so = sol.as_mut().unwrap();
        let end = mc.run(entry, item.inputs.clone());
        lp.0 += 1;
        let mut errors: Vec<String> = vec![];
        let mut children: Vec<Item> = vec![];
        let (mut edges, mut cedges, mut vedges, mut cached, mut unknown) = (0u64, 0u64, 0u64, 0u64, 0u64);
        let site = |e: &Event| -> u64 {
            match e {
                Event::Branch { at, .. } => ((at.0 as u64) << 32 | at.1 as u64) ^ 1,
                Event::Conc { at, .. } => ((at.0 as u64) << 32 | at.1 as u64) ^ 2 << 60,
                Event::Choice { slot, n } => (*slot as u64) << 20 ^ *n ^ 3 << 61,
            }
        };
        let mut ph = 0xcbf29ce484222325u64;
        let mix = |h: u64, x: u64| (h ^ x).wrapping_mul(0x100000001b3).rotate_left(17);
        let events = std::mem::take(&mut mc.events);
        for (i, (pi, ev)) in events.iter().enumerate() {
            if i == item.bound && item.bound > 0 && ph != item.prefix {
                errors.push("re-execution diverged from its prefix".into());
                break;
            }
            let h2 = mix(ph, site(ev));
            if i < item.bound || single {
                ph = h2;
                continue;
            }
            match ev {
                Event::Choice { slot, n } => {
                    let cur = mc.inputs[*slot] as u64;
                    for v in (0..*n).rev() {
                        if v != cur {
                            let mut inp = mc.inputs[..*slot].to_vec();
                            inp.push(v as u128);
                            children.push(Item { inputs: inp, bound: i + 1, prefix: h2 });
                            cedges += 1;
                        }
                    }
                }
                Event::Branch { alts, .. } => {
                    for a in alts {
                        edges += 1;
                        match query(&mc.d, so, &mut cache, &mc.pc[..*pi], &[*a], &mc.input_kinds, &mut cached) {
                            Q::Sat(mv) => {
                                let mut inp = mc.inputs[..mc.ninputs].to_vec();
                                for (k, v) in mv {
                                    inp[k] = v
                                }
                                children.push(Item { inputs: inp, bound: i + 1, prefix: h2 });
                            }
                            Q::Unsat => {}
                            Q::Unknown => unknown += 1,
                        }
                    }
                }
                Event::Conc { e, taken, .. } => {
                    // every other feasible value
                    let e = *e;
                    let mut excl = vec![*taken];
                    loop {
                        edges += 1;
                        let conj: Vec<E> = excl.iter().map(|c| mc.d.not(*c)).collect();
                        match query(&mc.d, so, &mut cache, &mc.pc[..*pi], &conj, &mc.input_kinds, &mut cached) {
                            Q::Sat(mv) => {
                                let mut inp = mc.inputs[..mc.ninputs].to_vec();
                                for (k, v) in mv {
                                    inp[k] = v
                                }
                                let mut memo = FxMap::default();
                                let ii = inp.clone();
                                let val = mc.d.eval(e, &|k| ii.get(k).copied().unwrap_or(0), &mut memo);
                                vedges += 1;
                                children.push(Item { inputs: inp, bound: i + 1, prefix: h2 });
                                let w = mc.d.w(e);
                                let ce = mc.d.cst(w, val);
                                let cc = mc.d.eq(e, ce);
                                excl.push(cc);
                                if excl.len() > 400 {
                                    errors.push("more than 400 values for one address or length".into());
                                    break;
                                }
                            }
                            Q::Unsat => break,
                            Q::Unknown => {
                                unknown += 1;
                                break;
                            }
                        }
                    }
                }
            }
            ph = h2;
        }
        mc.events = events;
        if item.bound > mc.events.len() {
            errors.push("re-execution ended before its prefix".into());
        }
        let inputs = mc.inputs[..mc.ninputs].to_vec();
        let (status, failure) = match &end {
            End::Ok => ("ok".to_string(), None),
            End::Assume => ("assume".to_string(), None),
            End::Panic(s) => ("panic".to_string(), Some(("panic", s.clone()))),
            End::Fail(s) => (format!("fail:{s}"), Some(("fail", s.clone()))),
            End::Steps => ("steps".to_string(), Some(("hang", format!("no end within the step limit: {}", mc.backtrace().iter().take(8).map(|s| demangle(s)).collect::<Vec<_>>().join(" < "))))),
            End::Error(s) => {
                errors.push(s.clone());
                ("error".to_string(), None)
            }
        };
        if verbose {
            eprintln!("path {:?} inputs={:?} events={} steps={} notes={:?}", end, inputs, mc.events.len(), mc.steps, mc.notes);
            if matches!(end, End::Error(_) | End::Panic(_)) {
                for b in mc.backtrace().iter().take(25) {
                    eprintln!("     {}", demangle(b));
                }
            }
        }
        {
            let mut s = stats.lock().unwrap();
            s.paths += 1;
            s.events += mc.events.len() as u64;
            s.max_events = s.max_events.max(mc.events.len());
            s.maxinputs = s.maxinputs.max(mc.ninputs);
            s.steps += mc.steps;
            s.edges += edges;
            s.choice_edges += cedges;
            s.conc_edges += vedges;
            s.cached += cached;
            s.unknown += unknown;
            match end {
                End::Ok => s.ok += 1,
                End::Assume => s.assume += 1,
                _ => {}
            }
            if matches!(end, End::Ok) {
                for c in &mc.covers {
                    *s.covers.entry(*c).or_default() += 1;
                }
            }
            for e in errors {
                if s.errors.len() < 50 || s.errors.contains_key(&e) {
                    *s.errors.entry(e).or_default() += 1;
                }
                if s.error_inputs.len() < 2000 {
                    let i = inputs.clone();
                    s.error_inputs.push(i);
                }
            }
            let mut stop = false;
            if let Some((k, msg)) = failure {
                let dup = s.failures.iter().filter(|f| f.kind == k && f.msg == msg).count();
                if dup < 3 {
                    s.failures.push(Failure { kind: k.into(), msg, inputs: inputs.clone(), notes: mc.notes.clone() });
                }
                if s.failures.len() >= max_fail {
                    stop = true;
                }
            }
            let p = s.paths as usize;
            if s.samples.len() < max_samples {
                s.samples.push((status, inputs, mc.emitted.clone()));
            } else if p % 7 == 0 {
                // thin deterministic replacement so that late paths are represented too
                let ix = (p / 7).wrapping_mul(2654435761) % max_samples;
                s.samples[ix] = (status, inputs, mc.emitted.clone());
            }
            drop(s);
            let mut g = q.lock().unwrap();
            g.active -= 1;
            if stop {
                g.stop = true;
            }
            if !single {
                // deeper decisions first
                g.items.extend(children);
            }
            cv.notify_all();
        }
    }
    flush(&mut m, &mut sol, stats);
}

fn flush(m: &mut Option<Machine>, sol: &mut Option<z3::Solver>, stats: &Mutex<Stats>) {
    let mut s = stats.lock().unwrap();
    if let Some(so) = sol {
        s.queries += so.queries;
        s.sat += so.sat;
        s.unsat += so.unsat;
        s.z3_time += so.time.as_secs_f64();
        s.z3_max = s.z3_max.max(so.max.as_secs_f64());
    }
    if let Some(mc) = m {
        for (i, t) in mc.touched.iter().enumerate() {
            if *t != 0 {
                s.funcs.insert(i as u32);
            }
        }
        for (k, v) in &mc.branch_prof {
            *s.prof.entry(*k).or_default() += v;
        }
    }
    *sol = None;
    *m = None;
}

/// answers of the solver, kept per worker: exact queries and unsatisfiable cores
#[derive(Default)]
struct QCache {
    exact: HashMap<Vec<E>, Option<Vec<(usize, u128)>>>,
    cores: HashMap<E, Vec<Box<[E]>>>,
}

enum Q {
    Sat(Vec<(usize, u128)>),
    Unsat,
    Unknown,
}

fn query(
    d: &Dag,
    so: &mut z3::Solver,
    cache: &mut QCache,
    pc: &[E],
    extra: &[E],
    kinds: &[(u8, bool)],
    cached: &mut u64,
) -> Q {
    // independent slice
    let mut vars = 0u128;
    for e in extra {
        vars |= d.vars(*e);
        if d.is_const(*e) == Some(0) {
            return Q::Unsat;
        }
    }
    let mut used = vec![false; pc.len()];
    loop {
        let mut ch = false;
        for (i, c) in pc.iter().enumerate() {
            if !used[i] && d.vars(*c) & vars != 0 {
                used[i] = true;
                let nv = vars | d.vars(*c);
                if nv != vars {
                    vars = nv;
                }
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let mut conj: Vec<E> = pc.iter().enumerate().filter(|(i, _)| used[*i]).map(|x| *x.1).collect();
    conj.extend_from_slice(extra);
    conj.sort();
    conj.dedup();
    if let Some(r) = cache.exact.get(&conj) {
        *cached += 1;
        return match r {
            Some(m) => Q::Sat(m.clone()),
            None => Q::Unsat,
        };
    }
    if extra.len() == 1 {
        // a superset of a core already refuted
        if let Some(l) = cache.cores.get(&extra[0]) {
            if l.iter().any(|c| c.iter().all(|x| conj.binary_search(x).is_ok())) {
                *cached += 1;
                return Q::Unsat;
            }
        }
    }
    let vs: Vec<(usize, u8)> = (0..kinds.len().min(128)).filter(|i| vars >> i & 1 == 1).map(|i| (i, kinds[i].0)).collect();
    match so.check(d, &conj, &vs) {
        z3::Res::Sat(m) => {
            cache.exact.insert(conj, Some(m.clone()));
            Q::Sat(m)
        }
        z3::Res::Unsat(mut core) => {
            cache.exact.insert(conj, None);
            if extra.len() == 1 && core.len() <= 12 {
                core.retain(|x| *x != extra[0]);
                let l = cache.cores.entry(extra[0]).or_default();
                if l.len() < 64 {
                    l.push(core.into());
                }
            }
            Q::Unsat
        }
        z3::Res::Unknown => Q::Unknown,
    }
}
