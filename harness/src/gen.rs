//! Generator of model trees: structure by choice, contents concrete except for one symbolic ("hot") leaf.
use crate::m::*;
use crate::{g, sym};

pub struct Gen {
    pub hot: usize,
    pub n: usize,
    pub kinds: usize, // 4: text, comment, CDATA, element
    pub attrs: bool,
    pub uni: bool,
    pub hot_len: usize,
    /// elements with prefixes, declarations, several attributes and different names, by position
    pub spice: bool,
    pub els: usize,
}
const T: [&str; 6] = ["t", "x&y", " a<b>\"c\" ", "'\u{e9}\u{4e2d}", "]]>\n", "&lt;"];
const C: [&str; 4] = ["c", "", "<b>", " \u{e9} & \n"];
impl Gen {
    pub fn new(hot_of: usize) -> Gen {
        Gen { hot: sym::choice(hot_of), n: 0, kinds: 4, attrs: true, uni: false, hot_len: 1, spice: false, els: 0 }
    }
    pub fn spiced(mut self) -> Gen {
        self.spice = sym::choice(2) == 1;
        self
    }
    fn hot_text(&mut self) -> String {
        let mut s = String::new();
        for _ in 0..self.hot_len {
            if self.uni {
                g::uni(&mut s);
            } else {
                g::ascii(&mut s);
            }
        }
        s
    }
    pub fn text(&mut self) -> String {
        self.n += 1;
        if self.n - 1 == self.hot {
            let s = self.hot_text();
            sym::assume(!blank(&s));
            return s;
        }
        T[self.n % T.len()].to_string()
    }
    pub fn value(&mut self) -> String {
        self.n += 1;
        if self.n - 1 == self.hot {
            return self.hot_text();
        }
        T[self.n % T.len()].to_string()
    }
    /// content of a comment or a CDATA section
    pub fn verb(&mut self) -> String {
        self.n += 1;
        if self.n - 1 == self.hot {
            return self.hot_text();
        }
        C[self.n % C.len()].to_string()
    }
    pub fn node(&mut self, depth: usize, width: usize) -> M {
        let k = sym::choice(self.kinds);
        match k {
            0 => M::E(self.elem("e", depth, width)),
            1 => M::T(self.text()),
            2 => M::C(self.verb()),
            _ => M::D(self.verb()),
        }
    }
    pub fn elem(&mut self, name: &str, depth: usize, width: usize) -> ME {
        let mut e = el(name);
        let k = self.els;
        self.els += 1;
        if self.spice {
            if k == 0 {
                e = e.at("xmlns:p", "u").at("b", "2");
            } else {
                e.name = ["e", "f", "r"][k % 3].to_string();
                if k % 3 == 1 {
                    e.prefix = Some("p".to_string());
                }
                match k % 4 {
                    1 => e = e.at("z", "1").at("A", "").at("xmlns", "d<"),
                    3 => e = e.at("xmlns:p", "w"),
                    _ => {}
                }
            }
        }
        if self.attrs && sym::choice(2) == 1 {
            let v = self.value();
            e = e.at("k", &v);
        }
        if depth > 0 {
            for _ in 0..sym::choice(width + 1) {
                let c = self.node(depth - 1, width);
                e.kids.push(c);
            }
        }
        e
    }
}
