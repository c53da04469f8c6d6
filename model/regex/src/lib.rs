//! Stand-in for `regex` in the symbolic build: a backtracking matcher with leftmost-first
//! semantics and Unicode `\d`, `\s`, `\w`, like the real crate. Its agreement with the real crate is
//! tested natively (see tools/regex_diff.sh); every counterexample is replayed with
//! the real crate.
use std::borrow::Cow;
use std::fmt;
use std::ops::{Index, Range};

mod perl_decimal;
mod perl_word;

#[derive(Clone, Debug)]
enum Node {
    Empty,
    Char(char),
    Any(bool),
    Class(Vec<Item>, bool),
    Start(bool),
    End(bool),
    WordB(bool),
    Cat(Vec<Node>),
    Alt(Vec<Node>),
    Rep(Box<Node>, u32, u32, bool),
    Group(Box<Node>, usize),
}
#[derive(Clone, Debug)]
enum Item {
    R(char, char),
    D(bool),
    S(bool),
    W(bool),
    Sub(Vec<Item>, bool),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Error {
    Syntax(String),
    CompiledTooBig(usize),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for Error {}

struct Parser<'a> {
    c: Vec<char>,
    i: usize,
    ngroups: usize,
    names: Vec<(String, usize)>,
    ci: bool,
    multi: bool,
    dot_nl: bool,
    swap: bool,
    src: &'a str,
}
type R<T> = Result<T, Error>;
impl<'a> Parser<'a> {
    fn err<T>(&self, m: &str) -> R<T> {
        Err(Error::Syntax(format!("{} in {}", m, self.src)))
    }
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn eat(&mut self, ch: char) -> bool {
        if self.peek() == Some(ch) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn alt(&mut self) -> R<Node> {
        let (ci, multi, dn, sw) = (self.ci, self.multi, self.dot_nl, self.swap);
        let mut v = vec![self.cat()?];
        while self.eat('|') {
            v.push(self.cat()?);
        }
        self.ci = ci;
        self.multi = multi;
        self.dot_nl = dn;
        self.swap = sw;
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Node::Alt(v) })
    }
    fn cat(&mut self) -> R<Node> {
        let mut v = vec![];
        while let Some(ch) = self.peek() {
            if ch == '|' || ch == ')' {
                break;
            }
            let a = self.atom()?;
            let a = self.reps(a)?;
            v.push(a);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Node::Cat(v) })
    }
    fn reps(&mut self, mut a: Node) -> R<Node> {
        loop {
            let (lo, hi) = match self.peek() {
                Some('*') => (0, u32::MAX),
                Some('+') => (1, u32::MAX),
                Some('?') => (0, 1),
                Some('{') => {
                    self.i += 1;
                    let lo = self.num()?;
                    let hi = if self.eat(',') {
                        if self.peek() == Some('}') {
                            u32::MAX
                        } else {
                            self.num()?
                        }
                    } else {
                        lo
                    };
                    if self.peek() != Some('}') || lo > hi {
                        return self.err("bad repetition");
                    }
                    (lo, hi)
                }
                _ => return Ok(a),
            };
            self.i += 1;
            let mut greedy = !self.eat('?');
            if self.swap {
                greedy = !greedy;
            }
            a = Node::Rep(Box::new(a), lo, hi, greedy);
        }
    }
    fn num(&mut self) -> R<u32> {
        let mut n = 0u32;
        let s = self.i;
        while let Some(d) = self.peek().and_then(|c| c.to_digit(10)) {
            n = n * 10 + d;
            self.i += 1;
        }
        if s == self.i {
            return self.err("number expected");
        }
        Ok(n)
    }
    fn lit(&self, ch: char) -> Node {
        if self.ci && ch.is_ascii_alphabetic() {
            let (l, u) = (ch.to_ascii_lowercase(), ch.to_ascii_uppercase());
            Node::Class(vec![Item::R(l, l), Item::R(u, u)], false)
        } else {
            Node::Char(ch)
        }
    }
    fn atom(&mut self) -> R<Node> {
        let ch = self.c[self.i];
        self.i += 1;
        Ok(match ch {
            '^' => Node::Start(self.multi),
            '$' => Node::End(self.multi),
            '.' => Node::Any(self.dot_nl),
            '[' => {
                let (it, neg) = self.class()?;
                Node::Class(it, neg)
            }
            '(' => {
                let mut idx = 0;
                if self.eat('?') {
                    if self.eat('P') || self.peek() == Some('<') {
                        if !self.eat('<') {
                            return self.err("group name");
                        }
                        let mut n = String::new();
                        while let Some(k) = self.peek() {
                            self.i += 1;
                            if k == '>' {
                                break;
                            }
                            n.push(k);
                        }
                        self.ngroups += 1;
                        idx = self.ngroups;
                        self.names.push((n, idx));
                    } else {
                        let save = (self.ci, self.multi, self.dot_nl, self.swap);
                        let mut on = true;
                        loop {
                            match self.peek() {
                                Some('-') => on = false,
                                Some('i') => self.ci = on,
                                Some('m') => self.multi = on,
                                Some('s') => self.dot_nl = on,
                                Some('U') => self.swap = on,
                                Some('u') => {}
                                Some(':') => {
                                    self.i += 1;
                                    let n = self.alt()?;
                                    if !self.eat(')') {
                                        return self.err("unclosed group");
                                    }
                                    self.ci = save.0;
                                    self.multi = save.1;
                                    self.dot_nl = save.2;
                                    self.swap = save.3;
                                    return Ok(n);
                                }
                                Some(')') => {
                                    self.i += 1;
                                    return Ok(Node::Empty);
                                }
                                _ => return self.err("group flags"),
                            }
                            self.i += 1;
                        }
                    }
                } else {
                    self.ngroups += 1;
                    idx = self.ngroups;
                }
                let n = self.alt()?;
                if !self.eat(')') {
                    return self.err("unclosed group");
                }
                Node::Group(Box::new(n), idx)
            }
            '\\' => match self.esc()? {
                Ok(c) => self.lit(c),
                Err(n) => n,
            },
            '*' | '+' | '?' | '{' => return self.err("repetition without operand"),
            c => self.lit(c),
        })
    }
    fn esc(&mut self) -> R<Result<char, Node>> {
        let c = match self.peek() {
            Some(c) => c,
            None => return self.err("trailing backslash"),
        };
        self.i += 1;
        Ok(match c {
            'd' => Err(Node::Class(vec![Item::D(false)], false)),
            'D' => Err(Node::Class(vec![Item::D(true)], false)),
            's' => Err(Node::Class(vec![Item::S(false)], false)),
            'S' => Err(Node::Class(vec![Item::S(true)], false)),
            'w' => Err(Node::Class(vec![Item::W(false)], false)),
            'W' => Err(Node::Class(vec![Item::W(true)], false)),
            'b' => Err(Node::WordB(true)),
            'B' => Err(Node::WordB(false)),
            'A' => Err(Node::Start(false)),
            'z' => Err(Node::End(false)),
            'n' => Ok('\n'),
            't' => Ok('\t'),
            'r' => Ok('\r'),
            'f' => Ok('\x0c'),
            'v' => Ok('\x0b'),
            'a' => Ok('\x07'),
            'x' | 'u' => {
                let mut h = String::new();
                if self.eat('{') {
                    while let Some(k) = self.peek() {
                        self.i += 1;
                        if k == '}' {
                            break;
                        }
                        h.push(k);
                    }
                } else {
                    for _ in 0..(if c == 'x' { 2 } else { 4 }) {
                        match self.peek() {
                            Some(k) => h.push(k),
                            None => return self.err("hex"),
                        }
                        self.i += 1;
                    }
                }
                match u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                    Some(k) => Ok(k),
                    None => return self.err("hex"),
                }
            }
            c if c.is_ascii_punctuation() || c == ' ' => Ok(c),
            _ => return self.err("unsupported escape"),
        })
    }
    fn class(&mut self) -> R<(Vec<Item>, bool)> {
        let neg = self.eat('^');
        let mut v = vec![];
        let mut first = true;
        loop {
            let c = match self.peek() {
                Some(c) => c,
                None => return self.err("unclosed class"),
            };
            if c == ']' && !first {
                self.i += 1;
                return Ok((v, neg));
            }
            first = false;
            self.i += 1;
            let lo = match c {
                '[' => {
                    if self.peek() == Some(':') {
                        let end = match (self.i..self.c.len()).find(|k| self.c[*k] == ']') {
                            Some(e) => e,
                            None => return self.err("posix class"),
                        };
                        let n: String = self.c[self.i + 1..end - 1].iter().collect();
                        self.i = end + 1;
                        let (ng, n) = match n.strip_prefix('^') {
                            Some(r) => (true, r.to_string()),
                            None => (false, n),
                        };
                        let it = match n.as_str() {
                            "digit" => vec![Item::R('0', '9')],
                            "alpha" => vec![Item::R('a', 'z'), Item::R('A', 'Z')],
                            "alnum" => vec![Item::R('a', 'z'), Item::R('A', 'Z'), Item::R('0', '9')],
                            "space" => vec![Item::R('\t', '\r'), Item::R(' ', ' ')],
                            "upper" => vec![Item::R('A', 'Z')],
                            "lower" => vec![Item::R('a', 'z')],
                            "blank" => vec![Item::R('\t', '\t'), Item::R(' ', ' ')],
                            _ => return self.err("posix class"),
                        };
                        v.push(Item::Sub(it, ng));
                    } else {
                        let (it, ng) = self.class()?;
                        v.push(Item::Sub(it, ng));
                    }
                    continue;
                }
                '\\' => match self.esc()? {
                    Ok(k) => k,
                    Err(Node::Class(it, _)) => {
                        v.extend(it);
                        continue;
                    }
                    Err(_) => return self.err("escape in class"),
                },
                '&' if self.peek() == Some('&') => return self.err("class intersection"),
                c => c,
            };
            let mut hi = lo;
            if self.peek() == Some('-') && self.c.get(self.i + 1).map_or(false, |c| *c != ']') {
                self.i += 1;
                let c = self.c[self.i];
                self.i += 1;
                hi = if c == '\\' {
                    match self.esc()? {
                        Ok(k) => k,
                        Err(_) => return self.err("class range"),
                    }
                } else {
                    c
                };
                if hi < lo {
                    return self.err("class range");
                }
            }
            v.push(Item::R(lo, hi));
            if self.ci {
                if lo.is_ascii_lowercase() && hi.is_ascii_lowercase() {
                    v.push(Item::R(lo.to_ascii_uppercase(), hi.to_ascii_uppercase()));
                } else if lo.is_ascii_uppercase() && hi.is_ascii_uppercase() {
                    v.push(Item::R(lo.to_ascii_lowercase(), hi.to_ascii_lowercase()));
                }
            }
        }
    }
}

fn in_table(t: &[(char, char)], c: char) -> bool {
    let (mut lo, mut hi) = (0, t.len());
    while lo < hi {
        let m = (lo + hi) / 2;
        if c < t[m].0 {
            hi = m;
        } else if c > t[m].1 {
            lo = m + 1;
        } else {
            return true;
        }
    }
    false
}
fn is_digit(c: char) -> bool {
    if (c as u32) < 128 {
        (c as u32).wrapping_sub(48) < 10
    } else {
        in_table(perl_decimal::DECIMAL_NUMBER, c)
    }
}
fn is_word(c: char) -> bool {
    if (c as u32) < 128 {
        c.is_ascii_alphanumeric() || c == '_'
    } else {
        in_table(perl_word::PERL_WORD, c)
    }
}
fn item(i: &Item, c: char) -> bool {
    match i {
        Item::R(a, b) => *a <= c && c <= *b,
        Item::D(n) => is_digit(c) != *n,
        Item::S(n) => c.is_whitespace() != *n,
        Item::W(n) => is_word(c) != *n,
        Item::Sub(v, n) => v.iter().any(|i| item(i, c)) != *n,
    }
}

type Caps = Vec<Option<(usize, usize)>>;
struct M<'t> {
    t: &'t str,
    caps: Caps,
}
#[inline]
fn decode(t: &str, p: usize) -> Option<(char, usize)> {
    let c = t[p..].chars().next()?;
    // the encoded length, without looking at the value again
    let b = t.as_bytes()[p];
    let l = if b < 0x80 {
        1
    } else if b < 0xe0 {
        2
    } else if b < 0xf0 {
        3
    } else {
        4
    };
    Some((c, p + l))
}
impl<'t> M<'t> {
    fn go(&mut self, n: &Node, p: usize, k: &mut dyn FnMut(&mut Self, usize) -> bool) -> bool {
        match n {
            Node::Empty => k(self, p),
            Node::Char(c) => match self.t.as_bytes().get(p) {
                // ASCII literal: compare the byte, the text is valid UTF-8
                Some(b) if (*c as u32) < 128 => {
                    if *b == *c as u8 {
                        k(self, p + 1)
                    } else {
                        false
                    }
                }
                _ => match decode(self.t, p) {
                    Some((d, q)) if d == *c => k(self, q),
                    _ => false,
                },
            },
            Node::Any(nl) => match decode(self.t, p) {
                Some((d, q)) if *nl || d != '\n' => k(self, q),
                _ => false,
            },
            Node::Class(v, neg) => match decode(self.t, p) {
                Some((d, q)) => {
                    if v.iter().any(|i| item(i, d)) != *neg {
                        k(self, q)
                    } else {
                        false
                    }
                }
                None => false,
            },
            Node::Start(m) => {
                if p == 0 || (*m && self.t.as_bytes()[p - 1] == b'\n') {
                    k(self, p)
                } else {
                    false
                }
            }
            Node::End(m) => {
                if p == self.t.len() || (*m && self.t.as_bytes()[p] == b'\n') {
                    k(self, p)
                } else {
                    false
                }
            }
            Node::WordB(want) => {
                let a = self.t[..p].chars().next_back().map_or(false, is_word);
                let b = self.t[p..].chars().next().map_or(false, is_word);
                if (a != b) == *want {
                    k(self, p)
                } else {
                    false
                }
            }
            Node::Cat(v) => self.cat(v, p, k),
            Node::Alt(v) => {
                for a in v {
                    if self.go(a, p, k) {
                        return true;
                    }
                }
                false
            }
            Node::Rep(a, lo, hi, greedy) => self.rep(a, *lo, *hi, *greedy, 0, p, usize::MAX, k),
            Node::Group(a, i) => {
                let i = *i;
                let old = self.caps[i];
                let r = self.go(a, p, &mut |m: &mut Self, q| {
                    let o = m.caps[i];
                    m.caps[i] = Some((p, q));
                    if k(m, q) {
                        true
                    } else {
                        m.caps[i] = o;
                        false
                    }
                });
                if !r {
                    self.caps[i] = old;
                }
                r
            }
        }
    }
    fn cat(&mut self, v: &[Node], p: usize, k: &mut dyn FnMut(&mut Self, usize) -> bool) -> bool {
        match v.split_first() {
            None => k(self, p),
            Some((a, rest)) => self.go(a, p, &mut |m: &mut Self, q| m.cat(rest, q, k)),
        }
    }
    fn rep(&mut self, a: &Node, lo: u32, hi: u32, greedy: bool, n: u32, p: usize, last: usize, k: &mut dyn FnMut(&mut Self, usize) -> bool) -> bool {
        let fin = hi != u32::MAX; // x{m,n} is x..x(x(x)?)?: empty iterations count
        if n >= lo && p == last && !fin {
            return k(self, p);
        }
        if n < lo {
            return self.go(a, p, &mut |m: &mut Self, q| m.rep(a, lo, hi, greedy, n + 1, q, p, k));
        }
        if greedy {
            if n < hi && self.go(a, p, &mut |m: &mut Self, q| (fin || q != p) && m.rep(a, lo, hi, greedy, n + 1, q, p, k)) {
                return true;
            }
            k(self, p)
        } else {
            if k(self, p) {
                return true;
            }
            n < hi && self.go(a, p, &mut |m: &mut Self, q| (fin || q != p) && m.rep(a, lo, hi, greedy, n + 1, q, p, k))
        }
    }
}

#[derive(Clone)]
pub struct Regex {
    src: String,
    n: Node,
    groups: usize,
    names: Vec<(String, usize)>,
    anchored: bool,
}
impl fmt::Debug for Regex {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.src)
    }
}
impl fmt::Display for Regex {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.src)
    }
}
impl std::str::FromStr for Regex {
    type Err = Error;
    fn from_str(s: &str) -> Result<Regex, Error> {
        Regex::new(s)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Match<'t> {
    t: &'t str,
    s: usize,
    e: usize,
}
impl<'t> Match<'t> {
    pub fn start(&self) -> usize {
        self.s
    }
    pub fn end(&self) -> usize {
        self.e
    }
    pub fn range(&self) -> Range<usize> {
        self.s..self.e
    }
    pub fn as_str(&self) -> &'t str {
        &self.t[self.s..self.e]
    }
}
impl<'t> From<Match<'t>> for &'t str {
    fn from(m: Match<'t>) -> &'t str {
        m.as_str()
    }
}
#[derive(Debug)]
pub struct Captures<'t> {
    t: &'t str,
    c: Caps,
    names: Vec<(String, usize)>,
}
impl<'t> Captures<'t> {
    pub fn get(&self, i: usize) -> Option<Match<'t>> {
        let (s, e) = (*self.c.get(i)?)?;
        Some(Match { t: self.t, s, e })
    }
    pub fn name(&self, n: &str) -> Option<Match<'t>> {
        let i = self.names.iter().find(|x| x.0 == n)?.1;
        self.get(i)
    }
    pub fn len(&self) -> usize {
        self.c.len()
    }
    pub fn iter(&self) -> std::vec::IntoIter<Option<Match<'t>>> {
        let v: Vec<_> = (0..self.c.len()).map(|i| self.get(i)).collect();
        v.into_iter()
    }
}
impl<'t> Index<usize> for Captures<'t> {
    type Output = str;
    fn index(&self, i: usize) -> &str {
        self.get(i).map(|m| m.as_str()).unwrap_or_else(|| panic!("no group at index '{}'", i))
    }
}
impl<'t, 'i> Index<&'i str> for Captures<'t> {
    type Output = str;
    fn index<'a>(&'a self, n: &'i str) -> &'a str {
        self.name(n).map(|m| m.as_str()).unwrap_or_else(|| panic!("no group named '{}'", n))
    }
}
fn anchored(n: &Node) -> bool {
    match n {
        Node::Start(false) => true,
        Node::Cat(v) => v.first().map_or(false, anchored),
        Node::Group(a, _) => anchored(a),
        Node::Alt(v) => v.iter().all(anchored),
        _ => false,
    }
}
impl Regex {
    pub fn new(s: &str) -> Result<Regex, Error> {
        let mut p = Parser { c: s.chars().collect(), i: 0, ngroups: 0, names: vec![], ci: false, multi: false, dot_nl: false, swap: false, src: s };
        let n = p.alt()?;
        if p.i != p.c.len() {
            return p.err("unopened group");
        }
        let anchored = anchored(&n);
        Ok(Regex { src: s.to_string(), n, groups: p.ngroups, names: p.names, anchored })
    }
    fn at(&self, t: &str, from: usize) -> Option<Caps> {
        let mut p = from;
        loop {
            let mut m = M { t, caps: vec![None; self.groups + 1] };
            let mut end = usize::MAX;
            if m.go(&self.n, p, &mut |_, q| {
                end = q;
                true
            }) {
                m.caps[0] = Some((p, end));
                return Some(m.caps);
            }
            if self.anchored || p >= t.len() {
                return None;
            }
            p = decode(t, p)?.1;
        }
    }
    pub fn as_str(&self) -> &str {
        &self.src
    }
    pub fn captures_len(&self) -> usize {
        self.groups + 1
    }
    pub fn is_match(&self, t: &str) -> bool {
        self.at(t, 0).is_some()
    }
    pub fn find<'t>(&self, t: &'t str) -> Option<Match<'t>> {
        let c = self.at(t, 0)?;
        let (s, e) = c[0].unwrap();
        Some(Match { t, s, e })
    }
    pub fn captures<'t>(&self, t: &'t str) -> Option<Captures<'t>> {
        self.at(t, 0).map(|c| Captures { t, c, names: self.names.clone() })
    }
    fn all<'t>(&self, t: &'t str) -> Vec<Captures<'t>> {
        let mut v = vec![];
        let mut p = 0;
        let mut last = None;
        while p <= t.len() {
            let c = match self.at(t, p) {
                Some(c) => c,
                None => break,
            };
            let (s, e) = c[0].unwrap();
            if s == e {
                p = match decode(t, e) {
                    Some((_, q)) => q,
                    None => t.len() + 1,
                };
                if last == Some(e) {
                    continue;
                }
            } else {
                p = e;
            }
            last = Some(e);
            v.push(Captures { t, c, names: self.names.clone() });
            if self.anchored {
                break;
            }
        }
        v
    }
    pub fn find_iter<'t>(&self, t: &'t str) -> std::vec::IntoIter<Match<'t>> {
        let v: Vec<_> = self.all(t).iter().map(|c| c.get(0).unwrap()).collect();
        v.into_iter()
    }
    pub fn captures_iter<'t>(&self, t: &'t str) -> std::vec::IntoIter<Captures<'t>> {
        self.all(t).into_iter()
    }
    pub fn split<'t>(&self, t: &'t str) -> std::vec::IntoIter<&'t str> {
        let mut v = vec![];
        let mut p = 0;
        for m in self.find_iter(t) {
            v.push(&t[p..m.s]);
            p = m.e;
        }
        v.push(&t[p..]);
        v.into_iter()
    }
    fn expand(c: &Captures<'_>, r: &str, o: &mut String) {
        let b: Vec<char> = r.chars().collect();
        let mut i = 0;
        while i < b.len() {
            if b[i] != '$' || i + 1 >= b.len() {
                o.push(b[i]);
                i += 1;
                continue;
            }
            if b[i + 1] == '$' {
                o.push('$');
                i += 2;
                continue;
            }
            let brace = b[i + 1] == '{';
            let s = i + 1 + brace as usize;
            let mut e = s;
            while e < b.len() && (b[e].is_ascii_alphanumeric() || b[e] == '_') {
                e += 1;
            }
            if e == s || (brace && (e >= b.len() || b[e] != '}')) {
                o.push('$');
                i += 1;
                continue;
            }
            let n: String = b[s..e].iter().collect();
            let m = match n.parse::<usize>() {
                Ok(k) => c.get(k),
                Err(_) => c.name(&n),
            };
            if let Some(m) = m {
                o.push_str(m.as_str());
            }
            i = e + brace as usize;
        }
    }
    fn repl<'t>(&self, t: &'t str, r: &str, n: usize) -> Cow<'t, str> {
        let mut o = String::new();
        let mut p = 0;
        for c in self.all(t).into_iter().take(n) {
            let m = c.get(0).unwrap();
            o.push_str(&t[p..m.start()]);
            Self::expand(&c, r, &mut o);
            p = m.end();
        }
        o.push_str(&t[p..]);
        Cow::Owned(o)
    }
    pub fn replace_all<'t>(&self, t: &'t str, r: &str) -> Cow<'t, str> {
        self.repl(t, r, usize::MAX)
    }
    pub fn replace<'t>(&self, t: &'t str, r: &str) -> Cow<'t, str> {
        self.repl(t, r, 1)
    }
}
