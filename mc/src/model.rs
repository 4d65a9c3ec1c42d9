//! Reference model of JSON texts (RFC 8259, optionally with comments), written from the grammar.

/// A value with its extent (in characters).
#[derive(Clone, Debug, PartialEq)]
pub struct Val {
    pub start: usize,
    pub end: usize,
    pub node: Node,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Null,
    Bool(bool),
    /// The literal text.
    Num(String),
    Str(String),
    Arr(Vec<Val>),
    Obj(Vec<(Key, Val)>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Key {
    pub start: usize,
    pub end: usize,
    pub text: String,
}

/// Why a text is not a JSON text.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Syn {
    /// First character of the offending token.
    pub tok: usize,
    /// The first character that cannot continue any JSON text (length of the text if truncated).
    pub at: usize,
}

/// The tree a text denotes, without extents.
#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Null,
    Bool(bool),
    /// Bits of the nearest f64.
    Num(u64),
    Str(String),
    Arr(Vec<Tree>),
    Obj(Vec<(String, Tree)>),
}

impl Val {
    pub fn tree(&self) -> Tree {
        match &self.node {
            Node::Null => Tree::Null,
            Node::Bool(b) => Tree::Bool(*b),
            Node::Num(s) => Tree::Num(s.parse::<f64>().expect("f64").to_bits()),
            Node::Str(s) => Tree::Str(s.clone()),
            Node::Arr(a) => Tree::Arr(a.iter().map(|v| v.tree()).collect()),
            Node::Obj(o) => Tree::Obj(o.iter().map(|(k, v)| (k.text.clone(), v.tree())).collect()),
        }
    }
}

impl Val {
    /// Whether no object in this value has two entries with the same key.
    pub fn distinct_keys(&self) -> bool {
        match &self.node {
            Node::Arr(a) => a.iter().all(|v| v.distinct_keys()),
            Node::Obj(o) => {
                let mut keys: Vec<&str> = o.iter().map(|(k, _)| k.text.as_str()).collect();
                keys.sort_unstable();
                keys.windows(2).all(|w| w[0] != w[1]) && o.iter().all(|(_, v)| v.distinct_keys())
            }
            _ => true,
        }
    }
}

impl Node {
    pub fn type_name(&self) -> &'static str {
        match self {
            Node::Null => "null",
            Node::Bool(_) => "bool",
            Node::Num(_) => "number",
            Node::Str(_) => "string",
            Node::Arr(_) => "array",
            Node::Obj(_) => "object",
        }
    }
}

pub struct Parser<'a> {
    pub doc: &'a [char],
    pub i: usize,
    pub comments: bool,
}

pub fn parse(doc: &[char], comments: bool) -> Result<Val, Syn> {
    let mut p = Parser { doc, i: 0, comments };
    p.ws()?;
    let v = p.value()?;
    let adj = p.i;
    p.ws()?;
    if p.i < doc.len() {
        return Err(p.unexpected(adj, v.start, &v.node));
    }
    Ok(v)
}

impl<'a> Parser<'a> {
    fn peek(&self) -> Option<char> {
        self.doc.get(self.i).copied()
    }

    fn here(&self) -> Syn {
        Syn { tok: self.i, at: self.i }
    }

    fn within(&self, tok: usize) -> Syn {
        Syn { tok, at: self.i }
    }

    /// A character that may not follow a value. Directly after a number or word it may be seen as
    /// part of the same token.
    fn unexpected(&self, adj: usize, start: usize, node: &Node) -> Syn {
        match node {
            Node::Num(_) | Node::Bool(_) | Node::Null if adj == self.i => self.within(start),
            _ => self.here(),
        }
    }

    pub fn ws(&mut self) -> Result<(), Syn> {
        loop {
            match self.peek() {
                Some(' ' | '\n' | '\r' | '\t') => self.i += 1,
                Some('/') if self.comments => {
                    let tok = self.i;
                    self.i += 1;
                    match self.peek() {
                        Some('/') => {
                            self.i += 1;
                            while let Some(c) = self.peek() {
                                self.i += 1;
                                if c == '\n' {
                                    break;
                                }
                            }
                        }
                        Some('*') => {
                            self.i += 1;
                            loop {
                                match self.peek() {
                                    None => return Err(self.within(tok)),
                                    Some('*') if self.doc.get(self.i + 1) == Some(&'/') => {
                                        self.i += 2;
                                        break;
                                    }
                                    Some(_) => self.i += 1,
                                }
                            }
                        }
                        _ => return Err(self.within(tok)),
                    }
                }
                _ => return Ok(()),
            }
        }
    }

    fn word(&mut self, w: &str, node: Node) -> Result<Val, Syn> {
        let start = self.i;
        for c in w.chars() {
            if self.peek() != Some(c) {
                return Err(self.within(start));
            }
            self.i += 1;
        }
        Ok(Val { start, end: self.i, node })
    }

    fn value(&mut self) -> Result<Val, Syn> {
        let start = self.i;
        match self.peek() {
            Some('n') => self.word("null", Node::Null),
            Some('t') => self.word("true", Node::Bool(true)),
            Some('f') => self.word("false", Node::Bool(false)),
            Some('"') => {
                let s = self.string()?;
                Ok(Val { start, end: self.i, node: Node::Str(s) })
            }
            Some('-' | '0'..='9') => {
                let s = self.number()?;
                Ok(Val { start, end: self.i, node: Node::Num(s) })
            }
            Some('[') => {
                self.i += 1;
                self.ws()?;
                let mut items = Vec::new();
                if self.peek() == Some(']') {
                    self.i += 1;
                } else {
                    loop {
                        let v = self.value()?;
                        let adj = self.i;
                        self.ws()?;
                        match self.peek() {
                            Some(',') => {
                                self.i += 1;
                                self.ws()?;
                                items.push(v);
                            }
                            Some(']') => {
                                self.i += 1;
                                items.push(v);
                                break;
                            }
                            _ => return Err(self.unexpected(adj, v.start, &v.node)),
                        }
                    }
                }
                Ok(Val { start, end: self.i, node: Node::Arr(items) })
            }
            Some('{') => {
                self.i += 1;
                self.ws()?;
                let mut entries = Vec::new();
                if self.peek() == Some('}') {
                    self.i += 1;
                } else {
                    loop {
                        let kstart = self.i;
                        if self.peek() != Some('"') {
                            return Err(self.here());
                        }
                        let text = self.string()?;
                        let key = Key { start: kstart, end: self.i, text };
                        self.ws()?;
                        if self.peek() != Some(':') {
                            return Err(self.here());
                        }
                        self.i += 1;
                        self.ws()?;
                        let v = self.value()?;
                        let adj = self.i;
                        self.ws()?;
                        match self.peek() {
                            Some(',') => {
                                self.i += 1;
                                self.ws()?;
                                entries.push((key, v));
                            }
                            Some('}') => {
                                self.i += 1;
                                entries.push((key, v));
                                break;
                            }
                            _ => return Err(self.unexpected(adj, v.start, &v.node)),
                        }
                    }
                }
                Ok(Val { start, end: self.i, node: Node::Obj(entries) })
            }
            _ => Err(self.here()),
        }
    }

    fn hex4(&mut self, tok: usize, ok: impl Fn(u32) -> bool, first: impl Fn(u32) -> bool) -> Result<u32, Syn> {
        // `first(v)`: whether the value of the first two digits can be continued to an allowed unit
        let mut v = 0;
        for n in 0..4 {
            let Some(d) = self.peek().and_then(hex_digit) else {
                return Err(self.within(tok));
            };
            v = v * 16 + d;
            if n == 1 && !first(v) {
                return Err(self.within(tok));
            }
            if n == 0 && !(0..16).any(|x| first(v * 16 + x)) {
                return Err(self.within(tok));
            }
            self.i += 1;
        }
        debug_assert!(ok(v));
        Ok(v)
    }

    fn string(&mut self) -> Result<String, Syn> {
        let tok = self.i;
        self.i += 1;
        let mut s = String::new();
        loop {
            match self.peek() {
                None => return Err(self.within(tok)),
                Some('"') => {
                    self.i += 1;
                    return Ok(s);
                }
                Some('\\') => {
                    self.i += 1;
                    let c = match self.peek() {
                        Some('"') => '"',
                        Some('\\') => '\\',
                        Some('/') => '/',
                        Some('b') => '\u{8}',
                        Some('f') => '\u{c}',
                        Some('n') => '\n',
                        Some('r') => '\r',
                        Some('t') => '\t',
                        Some('u') => {
                            self.i += 1;
                            // Not a low surrogate (DC..DF in the first two digits)
                            let hi = self.hex4(tok, |_| true, |b| !(0xDC..=0xDF).contains(&b))?;
                            let code = if (0xD800..0xDC00).contains(&hi) {
                                for want in ['\\', 'u'] {
                                    if self.peek() != Some(want) {
                                        return Err(self.within(tok));
                                    }
                                    self.i += 1;
                                }
                                let lo = self.hex4(tok, |_| true, |b| (0xDC..=0xDF).contains(&b))?;
                                0x10000 + (hi - 0xD800) * 0x400 + (lo - 0xDC00)
                            } else {
                                hi
                            };
                            s.push(char::from_u32(code).expect("scalar"));
                            continue;
                        }
                        _ => return Err(self.within(tok)),
                    };
                    self.i += 1;
                    s.push(c);
                }
                Some(c) if (c as u32) < 0x20 => return Err(self.within(tok)),
                Some(c) => {
                    self.i += 1;
                    s.push(c);
                }
            }
        }
    }

    fn digits(&mut self, tok: usize) -> Result<(), Syn> {
        if !matches!(self.peek(), Some('0'..='9')) {
            return Err(self.within(tok));
        }
        while matches!(self.peek(), Some('0'..='9')) {
            self.i += 1;
        }
        Ok(())
    }

    fn number(&mut self) -> Result<String, Syn> {
        let tok = self.i;
        if self.peek() == Some('-') {
            self.i += 1;
        }
        match self.peek() {
            Some('0') => self.i += 1,
            _ => self.digits(tok)?,
        }
        if self.peek() == Some('.') {
            self.i += 1;
            self.digits(tok)?;
        }
        if matches!(self.peek(), Some('e' | 'E')) {
            self.i += 1;
            if matches!(self.peek(), Some('+' | '-')) {
                self.i += 1;
            }
            self.digits(tok)?;
        }
        Ok(self.doc[tok..self.i].iter().collect())
    }
}

fn hex_digit(c: char) -> Option<u32> {
    match c {
        '0'..='9' => Some(c as u32 - '0' as u32),
        'a'..='f' => Some(c as u32 - 'a' as u32 + 10),
        'A'..='F' => Some(c as u32 - 'A' as u32 + 10),
        _ => None,
    }
}

// ---------------------------------------------------------------------------------------------
// Exact decimal numbers

/// The exact value of a JSON number literal: (-1)^neg * digits * 10^exp, with `digits` free of
/// leading and trailing zeros (empty for zero).
#[derive(Clone, Debug, PartialEq)]
pub struct Dec {
    pub neg: bool,
    pub digits: Vec<u8>,
    pub exp: i128,
    /// The exponent written in the literal, and the written exponent less the number of fraction
    /// digits. A literal for which either does not fit in 32 bits may be rejected.
    pub fits: bool,
}

/// `None` if the written exponent is too large for this model.
pub fn decimal(lit: &str) -> Option<Dec> {
    let (neg, rest) = match lit.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, lit),
    };
    let (mant, exp) = match rest.find(['e', 'E']) {
        Some(i) => (&rest[..i], rest[i + 1..].parse::<i128>().ok()?),
        None => (rest, 0),
    };
    let (int, frac) = match mant.find('.') {
        Some(i) => (&mant[..i], &mant[i + 1..]),
        None => (mant, ""),
    };
    let mut digits: Vec<u8> = int.bytes().chain(frac.bytes()).map(|b| b - b'0').collect();
    let mut e = exp - frac.len() as i128;
    let r = i32::MIN as i128..=i32::MAX as i128;
    let mut fits = r.contains(&exp) && r.contains(&e);
    let lead = digits.iter().take_while(|d| **d == 0).count();
    digits.drain(..lead);
    while digits.last() == Some(&0) {
        digits.pop();
        e += 1;
    }
    if digits.is_empty() {
        e = 0;
    }
    fits &= r.contains(&e);
    Some(Dec { neg, digits, exp: e, fits })
}

impl Dec {
    /// The value as an integer in `min..=max`, if it is one.
    pub fn integer(&self, min: i128, max: u128) -> Option<Int> {
        if self.digits.is_empty() {
            return Some(Int { neg: false, mag: 0 });
        }
        if self.exp < 0 || self.exp > 40 || self.digits.len() > 40 {
            return None;
        }
        let mut m: u128 = 0;
        for d in self.digits.iter().copied().chain(std::iter::repeat(0).take(self.exp as usize)) {
            m = m.checked_mul(10)?.checked_add(d as u128)?;
        }
        if self.neg {
            (m <= min.unsigned_abs()).then_some(Int { neg: true, mag: m })
        } else {
            (m <= max).then_some(Int { neg: false, mag: m })
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Int {
    pub neg: bool,
    pub mag: u128,
}

impl std::fmt::Display for Int {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}{}", if self.neg { "-" } else { "" }, self.mag)
    }
}

macro_rules! from_signed {
    ($($t:ty)*) => { $(impl From<$t> for Int {
        fn from(x: $t) -> Int { Int { neg: x < 0, mag: x.unsigned_abs() as u128 } }
    })* };
}
macro_rules! from_unsigned {
    ($($t:ty)*) => { $(impl From<$t> for Int {
        fn from(x: $t) -> Int { Int { neg: false, mag: x as u128 } }
    })* };
}
from_signed!(i8 i16 i32 i64 i128);
from_unsigned!(u8 u16 u32 u64 u128);

// ---------------------------------------------------------------------------------------------
// Rendering

/// Writes a string literal with only the mandatory escapes.
pub fn quote(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

pub fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}

/// At most `n` characters of a text, for messages.
pub fn clip(s: &str) -> String {
    let n = s.chars().count();
    if n <= 160 {
        format!("{:?}", s)
    } else {
        let a: String = s.chars().take(70).collect();
        let b: String = s.chars().skip(n - 50).collect();
        format!("{:?}...({} chars)...{:?}", a, n, b)
    }
}

/// The tokens of a JSON text without comments.
pub fn tokens(doc: &str) -> Vec<String> {
    let cs = chars(doc);
    let mut res = Vec::new();
    let mut i = 0;
    while i < cs.len() {
        let start = i;
        match cs[i] {
            ' ' | '\n' | '\r' | '\t' => {
                i += 1;
                continue;
            }
            '"' => {
                i += 1;
                while cs[i] != '"' {
                    i += if cs[i] == '\\' { 2 } else { 1 };
                }
                i += 1;
            }
            '[' | ']' | '{' | '}' | ',' | ':' => i += 1,
            _ => {
                while i < cs.len() && !matches!(cs[i], ' ' | '\n' | '\r' | '\t' | '[' | ']' | '{' | '}' | ',' | ':' | '"') {
                    i += 1;
                }
            }
        }
        res.push(cs[start..i].iter().collect());
    }
    res
}

/// Writes tokens with something before each of them and at the end.
pub fn join(tokens: &[String], gap: &dyn Fn(usize) -> String) -> String {
    let mut s = String::new();
    for (i, t) in tokens.iter().enumerate() {
        s += &gap(i);
        s += t;
    }
    s + &gap(tokens.len())
}
