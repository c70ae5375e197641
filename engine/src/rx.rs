//! Regular expressions: byte automata built with regex-automata (the engine of the regex crate itself).
use regex_automata::{
    dfa::{self, dense, Automaton},
    Input,
};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub const DEAD: usize = usize::MAX;
pub struct Row {
    pub next: Vec<usize>,
    pub is_match: bool,
    pub eoi_match: bool,
}
pub struct Dfa {
    pub start: usize,
    pub rows: Vec<Row>,
    pub classes: Vec<u8>,
}
#[derive(Default)]
pub struct Cache {
    d: Mutex<HashMap<String, Result<Arc<Dfa>, String>>>,
    r: Mutex<HashMap<String, Result<Arc<regex::Regex>, String>>>,
    q: Mutex<HashMap<(String, Vec<u8>), bool>>,
    f: Mutex<HashMap<String, Result<Arc<Finder>, String>>>,
}
/// forward automaton (end of the leftmost match) and reverse automaton (its start)
pub type Finder = dfa::regex::Regex;

fn build(p: &str) -> Result<Dfa, String> {
    let d = dense::Builder::new()
        .configure(dense::Config::new().unicode_word_boundary(false))
        .build(p)
        .map_err(|e| format!("regex {p:?}: {e}"))?;
    let s0 = d.start_state_forward(&Input::new("")).map_err(|e| e.to_string())?;
    let mut ids = vec![s0];
    let mut ix = HashMap::new();
    ix.insert(s0, 0usize);
    let mut rows = vec![];
    let mut i = 0;
    while i < ids.len() {
        let s = ids[i];
        let mut next = vec![DEAD; 256];
        if !d.is_match_state(s) {
            for b in 0..=255u8 {
                let t = d.next_state(s, b);
                if d.is_dead_state(t) {
                    continue;
                }
                if d.is_quit_state(t) {
                    return Err(format!("regex {p:?}: quit state"));
                }
                let n = ids.len();
                let k = *ix.entry(t).or_insert(n);
                if k == n {
                    ids.push(t);
                }
                next[b as usize] = k;
            }
        }
        let e = d.next_eoi_state(s);
        rows.push(Row { next, is_match: d.is_match_state(s), eoi_match: d.is_match_state(s) || d.is_match_state(e) });
        i += 1;
        if ids.len() > 20000 {
            return Err(format!("regex {p:?}: too many states"));
        }
    }
    let classes = (0..=255u8).map(|b| d.byte_classes().get(b)).collect();
    Ok(Dfa { start: 0, rows, classes })
}

impl Cache {
    pub fn dfa(&self, p: &str) -> Result<Arc<Dfa>, String> {
        self.d.lock().unwrap().entry(p.to_string()).or_insert_with(|| build(p).map(Arc::new)).clone()
    }
    pub fn re(&self, p: &str) -> Result<Arc<regex::Regex>, String> {
        self.r.lock().unwrap().entry(p.to_string()).or_insert_with(|| regex::Regex::new(p).map(Arc::new).map_err(|e| e.to_string())).clone()
    }
    pub fn is_match(&self, p: &str, h: &[u8]) -> Result<bool, String> {
        let key = (p.to_string(), h.to_vec());
        if let Some(b) = self.q.lock().unwrap().get(&key) {
            return Ok(*b);
        }
        let s = std::str::from_utf8(h).map_err(|e| e.to_string())?;
        let b = self.re(p)?.is_match(s);
        let mut q = self.q.lock().unwrap();
        if q.len() > 200_000 {
            q.clear();
        }
        q.insert(key, b);
        Ok(b)
    }
    pub fn finder(&self, p: &str) -> Result<Arc<Finder>, String> {
        self.f
            .lock()
            .unwrap()
            .entry(p.to_string())
            .or_insert_with(|| {
                dfa::regex::Builder::new()
                    .dense(dense::Config::new().unicode_word_boundary(false))
                    .build(p)
                    .map(Arc::new)
                    .map_err(|e| format!("regex {p:?}: {e}"))
            })
            .clone()
    }
    pub fn classes(&self, p: &str) -> Result<Vec<u8>, String> {
        Ok(self.dfa(p)?.classes.clone())
    }
    pub fn captures(&self, p: &str, h: &[u8], start: usize) -> Result<Option<Vec<Option<(usize, usize)>>>, String> {
        let s = std::str::from_utf8(h).map_err(|e| e.to_string())?;
        let r = self.re(p)?;
        Ok(r.captures_at(s, start).map(|c| c.iter().map(|m| m.map(|m| (m.start(), m.end()))).collect()))
    }
}
