//! Stand-in for the regex crate in the executor's build: every operation is answered by the executor, which runs
//! the real crate's automata (native replays use the real crate).
use std::borrow::Cow;
use std::fmt;
use std::ops::{Index, Range};

extern "C" {
    fn __sym_regex_is_match(pp: *const u8, pn: usize, tp: *const u8, tn: usize) -> bool;
    fn __sym_regex_classify(pp: *const u8, pn: usize, tp: *const u8, tn: usize);
    fn __sym_regex_find(pp: *const u8, pn: usize, tp: *const u8, tn: usize, at: usize, out: *mut usize) -> usize;
    fn __sym_regex_exec(pp: *const u8, pn: usize, tp: *const u8, tn: usize, start: usize, out: *mut usize, max: usize) -> usize;
}

#[derive(Clone)]
pub struct Regex(String);
#[derive(Clone, Debug, PartialEq)]
#[non_exhaustive]
pub enum Error {
    Syntax(String),
    CompiledTooBig(usize),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("regex error")
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Match<'h> {
    hay: &'h str,
    start: usize,
    end: usize,
}
impl<'h> Match<'h> {
    pub fn start(&self) -> usize {
        self.start
    }
    pub fn end(&self) -> usize {
        self.end
    }
    pub fn is_empty(&self) -> bool {
        self.start == self.end
    }
    pub fn len(&self) -> usize {
        self.end - self.start
    }
    pub fn range(&self) -> Range<usize> {
        self.start..self.end
    }
    pub fn as_str(&self) -> &'h str {
        &self.hay[self.start..self.end]
    }
}
impl<'h> From<Match<'h>> for &'h str {
    fn from(m: Match<'h>) -> &'h str {
        m.as_str()
    }
}
#[derive(Clone, Debug)]
pub struct Captures<'h> {
    hay: &'h str,
    slots: Vec<Option<(usize, usize)>>,
    names: Vec<Option<String>>,
}
impl<'h> Captures<'h> {
    pub fn get(&self, i: usize) -> Option<Match<'h>> {
        self.slots.get(i).copied().flatten().map(|(start, end)| Match { hay: self.hay, start, end })
    }
    pub fn get_match(&self) -> Match<'h> {
        self.get(0).unwrap()
    }
    pub fn name(&self, n: &str) -> Option<Match<'h>> {
        let i = self.names.iter().position(|x| x.as_deref() == Some(n))?;
        self.get(i)
    }
    #[allow(clippy::len_without_is_empty)]
    pub fn len(&self) -> usize {
        self.slots.len()
    }
    pub fn iter(&self) -> impl Iterator<Item = Option<Match<'h>>> + '_ {
        (0..self.slots.len()).map(move |i| self.get(i))
    }
    pub fn extract<const N: usize>(&self) -> (&'h str, [&'h str; N]) {
        assert_eq!(N + 1, self.slots.len());
        (self.get(0).unwrap().as_str(), std::array::from_fn(|i| self.get(i + 1).expect("too few matching groups").as_str()))
    }
    pub fn expand(&self, t: &str, dst: &mut String) {
        let mut rest = t;
        while let Some(i) = rest.find('$') {
            dst.push_str(&rest[..i]);
            rest = &rest[i + 1..];
            if let Some(r) = rest.strip_prefix('$') {
                dst.push('$');
                rest = r;
                continue;
            }
            let (name, after) = if let Some(r) = rest.strip_prefix('{') {
                match r.find('}') {
                    Some(j) => (&r[..j], &r[j + 1..]),
                    None => ("", rest),
                }
            } else {
                let j = rest.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).unwrap_or(rest.len());
                (&rest[..j], &rest[j..])
            };
            if name.is_empty() {
                dst.push('$');
                continue;
            }
            rest = after;
            let m = match name.parse::<usize>() {
                Ok(i) => self.get(i),
                Err(_) => self.name(name),
            };
            dst.push_str(m.map_or("", |m| m.as_str()));
        }
        dst.push_str(rest);
    }
}
impl<'h> Index<usize> for Captures<'h> {
    type Output = str;
    fn index(&self, i: usize) -> &str {
        self.get(i).map(|m| m.as_str()).unwrap_or_else(|| panic!("no group at index '{}'", i))
    }
}
impl<'h, 'i> Index<&'i str> for Captures<'h> {
    type Output = str;
    fn index(&self, n: &'i str) -> &str {
        self.name(n).map(|m| m.as_str()).unwrap_or_else(|| panic!("no group named '{}'", n))
    }
}
pub trait Replacer {
    fn replace_append(&mut self, caps: &Captures<'_>, dst: &mut String);
}
impl Replacer for &str {
    fn replace_append(&mut self, c: &Captures<'_>, d: &mut String) {
        c.expand(self, d)
    }
}
impl Replacer for &String {
    fn replace_append(&mut self, c: &Captures<'_>, d: &mut String) {
        c.expand(self, d)
    }
}
impl Replacer for String {
    fn replace_append(&mut self, c: &Captures<'_>, d: &mut String) {
        c.expand(self, d)
    }
}
impl<'a> Replacer for Cow<'a, str> {
    fn replace_append(&mut self, c: &Captures<'_>, d: &mut String) {
        c.expand(self, d)
    }
}
impl<'a> Replacer for &'a Cow<'a, str> {
    fn replace_append(&mut self, c: &Captures<'_>, d: &mut String) {
        c.expand(self, d)
    }
}
impl<F: FnMut(&Captures<'_>) -> T, T: AsRef<str>> Replacer for F {
    fn replace_append(&mut self, c: &Captures<'_>, d: &mut String) {
        d.push_str((*self)(c).as_ref())
    }
}
#[derive(Clone, Debug)]
pub struct NoExpand<'s>(pub &'s str);
impl<'s> Replacer for NoExpand<'s> {
    fn replace_append(&mut self, _c: &Captures<'_>, d: &mut String) {
        d.push_str(self.0)
    }
}
pub fn escape(p: &str) -> String {
    let mut o = String::new();
    for c in p.chars() {
        if "\\.+*?()|[]{}^$#&-~".contains(c) {
            o.push('\\');
        }
        o.push(c);
    }
    o
}
fn names(p: &str) -> Vec<Option<String>> {
    let b = p.as_bytes();
    let mut v = vec![None];
    let (mut i, mut class) = (0, 0);
    while i < b.len() {
        match b[i] {
            b'\\' => i += 1,
            b'[' => class += 1,
            b']' if class > 0 => class -= 1,
            b'(' if class == 0 => {
                let r = &p[i + 1..];
                if !r.starts_with('?') {
                    v.push(None);
                } else if let Some(n) = r.strip_prefix("?P<").or(r.strip_prefix("?<")) {
                    v.push(n.find('>').map(|j| n[..j].to_string()));
                }
            }
            _ => {}
        }
        i += 1;
    }
    v
}
impl Regex {
    pub fn new(p: &str) -> Result<Regex, Error> {
        Ok(Regex(p.to_string()))
    }
    pub fn as_str(&self) -> &str {
        &self.0
    }
    pub fn is_match(&self, t: &str) -> bool {
        unsafe { __sym_regex_is_match(self.0.as_ptr(), self.0.len(), t.as_ptr(), t.len()) }
    }
    pub fn is_match_at(&self, t: &str, at: usize) -> bool {
        self.find_at(t, at).is_some()
    }
    /// the leftmost match, or Err if it has to be found by classification
    fn locate(&self, t: &str, at: usize) -> Result<Option<(usize, usize)>, ()> {
        let mut out = [0usize; 2];
        match unsafe { __sym_regex_find(self.0.as_ptr(), self.0.len(), t.as_ptr(), t.len(), at, out.as_mut_ptr()) } {
            0 => Ok(None),
            1 => Ok(Some((out[0], out[1]))),
            _ => Err(()),
        }
    }
    pub fn captures_at<'h>(&self, t: &'h str, at: usize) -> Option<Captures<'h>> {
        // the groups depend on the text of the match and its neighbours only
        let (a, b) = match self.locate(t, at) {
            Ok(None) => return None,
            Ok(Some((a, b))) => (a.saturating_sub(1), (b + 1).min(t.len())),
            Err(()) => (0, t.len()),
        };
        unsafe { __sym_regex_classify(self.0.as_ptr(), self.0.len(), t.as_ptr().add(a), b - a) };
        let mut out = [usize::MAX; 64];
        let n = unsafe { __sym_regex_exec(self.0.as_ptr(), self.0.len(), t.as_ptr(), t.len(), at, out.as_mut_ptr(), 32) };
        if n == 0 {
            return None;
        }
        let slots = (0..n).map(|i| if out[2 * i] == usize::MAX { None } else { Some((out[2 * i], out[2 * i + 1])) }).collect();
        Some(Captures { hay: t, slots, names: names(&self.0) })
    }
    pub fn captures<'h>(&self, t: &'h str) -> Option<Captures<'h>> {
        self.captures_at(t, 0)
    }
    pub fn find<'h>(&self, t: &'h str) -> Option<Match<'h>> {
        self.find_at(t, 0)
    }
    pub fn find_at<'h>(&self, t: &'h str, at: usize) -> Option<Match<'h>> {
        match self.locate(t, at) {
            Ok(m) => m.map(|(start, end)| Match { hay: t, start, end }),
            Err(()) => self.captures_at(t, at).and_then(|c| c.get(0)),
        }
    }
    pub fn shortest_match(&self, t: &str) -> Option<usize> {
        self.find(t).map(|m| m.end)
    }
    pub fn captures_len(&self) -> usize {
        names(&self.0).len()
    }
    pub fn captures_iter<'r, 'h>(&'r self, t: &'h str) -> CaptureMatches<'r, 'h> {
        CaptureMatches { re: self, hay: t, at: 0, last: None }
    }
    pub fn find_iter<'r, 'h>(&'r self, t: &'h str) -> Matches<'r, 'h> {
        Matches { re: self, hay: t, at: 0, last: None }
    }
    pub fn split<'r, 'h>(&'r self, t: &'h str) -> Split<'r, 'h> {
        Split { it: self.find_iter(t), last: 0, done: false }
    }
    pub fn splitn<'r, 'h>(&'r self, t: &'h str, n: usize) -> SplitN<'r, 'h> {
        SplitN { s: self.split(t), n }
    }
    pub fn replace<'h, R: Replacer>(&self, t: &'h str, r: R) -> Cow<'h, str> {
        self.replacen(t, 1, r)
    }
    pub fn replace_all<'h, R: Replacer>(&self, t: &'h str, r: R) -> Cow<'h, str> {
        self.replacen(t, 0, r)
    }
    pub fn replacen<'h, R: Replacer>(&self, t: &'h str, limit: usize, mut r: R) -> Cow<'h, str> {
        let mut o = String::new();
        let mut last = 0;
        let mut any = false;
        for (i, c) in self.captures_iter(t).enumerate() {
            if limit > 0 && i >= limit {
                break;
            }
            any = true;
            let m = c.get(0).unwrap();
            o.push_str(&t[last..m.start]);
            r.replace_append(&c, &mut o);
            last = m.end;
        }
        if !any {
            return Cow::Borrowed(t);
        }
        o.push_str(&t[last..]);
        Cow::Owned(o)
    }
}
impl fmt::Display for Regex {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl fmt::Debug for Regex {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple("Regex").field(&self.0).finish()
    }
}
impl std::str::FromStr for Regex {
    type Err = Error;
    fn from_str(s: &str) -> Result<Regex, Error> {
        Regex::new(s)
    }
}
impl TryFrom<&str> for Regex {
    type Error = Error;
    fn try_from(s: &str) -> Result<Regex, Error> {
        Regex::new(s)
    }
}
pub struct CaptureMatches<'r, 'h> {
    re: &'r Regex,
    hay: &'h str,
    at: usize,
    last: Option<usize>,
}
impl<'r, 'h> Iterator for CaptureMatches<'r, 'h> {
    type Item = Captures<'h>;
    fn next(&mut self) -> Option<Captures<'h>> {
        loop {
            if self.at > self.hay.len() {
                return None;
            }
            let c = self.re.captures_at(self.hay, self.at)?;
            let m = c.get(0).unwrap();
            if m.is_empty() && self.last == Some(m.end) {
                // an empty match right after the last match does not count
                self.at = m.end + self.hay[m.end..].chars().next().map_or(1, |c| c.len_utf8());
                continue;
            }
            self.at = m.end;
            self.last = Some(m.end);
            return Some(c);
        }
    }
}
pub struct Matches<'r, 'h> {
    re: &'r Regex,
    hay: &'h str,
    at: usize,
    last: Option<usize>,
}
impl<'r, 'h> Iterator for Matches<'r, 'h> {
    type Item = Match<'h>;
    fn next(&mut self) -> Option<Match<'h>> {
        loop {
            if self.at > self.hay.len() {
                return None;
            }
            let m = self.re.find_at(self.hay, self.at)?;
            if m.is_empty() && self.last == Some(m.end) {
                // an empty match right after the last match does not count
                self.at = m.end + self.hay[m.end..].chars().next().map_or(1, |c| c.len_utf8());
                continue;
            }
            self.at = m.end;
            self.last = Some(m.end);
            return Some(m);
        }
    }
}
pub struct Split<'r, 'h> {
    it: Matches<'r, 'h>,
    last: usize,
    done: bool,
}
impl<'r, 'h> Iterator for Split<'r, 'h> {
    type Item = &'h str;
    fn next(&mut self) -> Option<&'h str> {
        if self.done {
            return None;
        }
        let hay = self.it.hay;
        match self.it.next() {
            Some(m) => {
                let s = &hay[self.last..m.start];
                self.last = m.end;
                Some(s)
            }
            None => {
                self.done = true;
                Some(&hay[self.last..])
            }
        }
    }
}
pub struct SplitN<'r, 'h> {
    s: Split<'r, 'h>,
    n: usize,
}
impl<'r, 'h> Iterator for SplitN<'r, 'h> {
    type Item = &'h str;
    fn next(&mut self) -> Option<&'h str> {
        if self.n == 0 {
            return None;
        }
        self.n -= 1;
        if self.n > 0 {
            return self.s.next();
        }
        if self.s.done {
            return None;
        }
        self.s.done = true;
        Some(&self.s.it.hay[self.s.last..])
    }
}
#[derive(Clone, Debug)]
pub struct RegexBuilder(String, String);
impl RegexBuilder {
    pub fn new(p: &str) -> RegexBuilder {
        RegexBuilder(p.to_string(), String::new())
    }
    fn flag(&mut self, c: char, yes: bool) -> &mut RegexBuilder {
        self.1.retain(|x| x != c);
        if yes {
            self.1.push(c);
        }
        self
    }
    pub fn case_insensitive(&mut self, y: bool) -> &mut RegexBuilder {
        self.flag('i', y)
    }
    pub fn multi_line(&mut self, y: bool) -> &mut RegexBuilder {
        self.flag('m', y)
    }
    pub fn dot_matches_new_line(&mut self, y: bool) -> &mut RegexBuilder {
        self.flag('s', y)
    }
    pub fn swap_greed(&mut self, y: bool) -> &mut RegexBuilder {
        self.flag('U', y)
    }
    pub fn ignore_whitespace(&mut self, y: bool) -> &mut RegexBuilder {
        self.flag('x', y)
    }
    pub fn crlf(&mut self, y: bool) -> &mut RegexBuilder {
        self.flag('R', y)
    }
    pub fn size_limit(&mut self, _n: usize) -> &mut RegexBuilder {
        self
    }
    pub fn dfa_size_limit(&mut self, _n: usize) -> &mut RegexBuilder {
        self
    }
    pub fn build(&self) -> Result<Regex, Error> {
        Regex::new(&if self.1.is_empty() { self.0.clone() } else { format!("(?{}){}", self.1, self.0) })
    }
}
#[derive(Clone, Debug)]
pub struct RegexSet(Vec<Regex>);
impl RegexSet {
    pub fn new<I: IntoIterator<Item = S>, S: AsRef<str>>(p: I) -> Result<RegexSet, Error> {
        Ok(RegexSet(p.into_iter().map(|x| Regex(x.as_ref().to_string())).collect()))
    }
    pub fn is_match(&self, t: &str) -> bool {
        self.0.iter().any(|r| r.is_match(t))
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn matches(&self, t: &str) -> SetMatches {
        SetMatches(self.0.iter().map(|r| r.is_match(t)).collect())
    }
}
#[derive(Clone, Debug)]
pub struct SetMatches(Vec<bool>);
impl SetMatches {
    pub fn matched(&self, i: usize) -> bool {
        self.0[i]
    }
    pub fn matched_any(&self) -> bool {
        self.0.contains(&true)
    }
}
