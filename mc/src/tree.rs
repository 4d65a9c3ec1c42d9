//! A JSON format that is not text: documents are trees in memory. Only the required methods of the
//! traits are implemented, the others are the provided ones, and those which the documentation of
//! `JsonDeserializer` and `JsonSerializer` says should use a standard implementation use it. Every
//! call is checked against the stack protocol; one that is not legal panics with a message starting
//! with "PROTOCOL".

use crate::model::{decimal, Node, Val};
use crate::schema::Kind;
use serdere::*;
use serdere_json::*;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum TNode {
    Null,
    Bool(bool),
    /// The literal, and the type it was written with.
    Num(Rc<str>, &'static str),
    Str(Rc<str>),
    Arr(Vec<usize>),
    Obj(Vec<(Rc<str>, usize)>),
}

/// A tree, the root being the first node.
#[derive(Clone, Debug, PartialEq)]
pub struct Doc {
    /// With positions.
    pub nodes: Vec<(usize, TNode)>,
}

impl Doc {
    pub fn of(v: &Val) -> Doc {
        let mut doc = Doc { nodes: Vec::new() };
        doc.add(v);
        doc
    }

    fn add(&mut self, v: &Val) -> usize {
        let i = self.nodes.len();
        self.nodes.push((v.start, TNode::Null));
        let node = match &v.node {
            Node::Null => TNode::Null,
            Node::Bool(b) => TNode::Bool(*b),
            Node::Num(s) => TNode::Num(s.as_str().into(), ""),
            Node::Str(s) => TNode::Str(s.as_str().into()),
            Node::Arr(a) => TNode::Arr(a.iter().map(|v| self.add(v)).collect()),
            Node::Obj(o) => TNode::Obj(o.iter().map(|(k, v)| (k.text.as_str().into(), self.add(v))).collect()),
        };
        self.nodes[i].1 = node;
        i
    }

    /// Whether this is the tree of a text.
    pub fn matches(&self, v: &Val) -> bool {
        self.node_matches(0, v)
    }

    fn node_matches(&self, i: usize, v: &Val) -> bool {
        match (&self.nodes[i].1, &v.node) {
            (TNode::Null, Node::Null) => true,
            (TNode::Bool(a), Node::Bool(b)) => a == b,
            (TNode::Num(a, ty), Node::Num(b)) => match *ty {
                "f32" => a.parse::<f32>().map(f32::to_bits) == b.parse::<f32>().map(f32::to_bits),
                "f64" => a.parse::<f64>().map(f64::to_bits) == b.parse::<f64>().map(f64::to_bits),
                _ => integer(a).is_some() && integer(a) == integer(b),
            },
            (TNode::Str(a), Node::Str(b)) => **a == **b,
            (TNode::Arr(a), Node::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| self.node_matches(*a, b)),
            (TNode::Obj(a), Node::Obj(b)) => {
                a.len() == b.len() && a.iter().zip(b).all(|(a, b)| *a.0 == *b.0.text && self.node_matches(a.1, &b.1))
            }
            _ => false,
        }
    }

    /// For messages.
    pub fn show(&self, i: usize) -> String {
        match &self.nodes[i].1 {
            TNode::Null => "null".into(),
            TNode::Bool(b) => b.to_string(),
            TNode::Num(s, _) => s.to_string(),
            TNode::Str(s) => format!("{:?}", s),
            TNode::Arr(a) => format!("[{}]", a.iter().map(|i| self.show(*i)).collect::<Vec<_>>().join(",")),
            TNode::Obj(o) => format!("{{{}}}", o.iter().map(|(k, i)| format!("{:?}:{}", k, self.show(*i))).collect::<Vec<_>>().join(",")),
        }
    }
}

fn integer(lit: &str) -> Option<i128> {
    let i = decimal(lit)?.integer(i64::MIN as i128, u64::MAX as u128)?;
    Some(if i.neg { -(i.mag as i128) } else { i.mag as i128 })
}

#[derive(Debug, Clone, PartialEq)]
pub enum What {
    /// The call was to fail.
    Injected(usize),
    /// With the message, if it is a custom one.
    Kind(Kind, String),
}

#[derive(Debug, Clone, PartialEq)]
pub struct TreeError {
    pub what: What,
    pub pos: usize,
}

impl std::fmt::Display for TreeError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}

impl std::error::Error for TreeError {}

type R<T> = std::result::Result<T, TreeError>;

/// What an array or object was opened as.
#[derive(Debug, Clone, Copy, PartialEq)]
enum As {
    Plain,
    Struct,
    Tuple,
}

// ------------------------------------------------------------------ reading

#[derive(Debug, Clone)]
enum Frame {
    Value(usize),
    /// A null that is not there, with its key and the position of the container.
    Virtual(Option<&'static str>, usize),
    /// A string or key being read, and where it is (of a key: no place).
    Str(Rc<str>, usize, Option<usize>),
    /// An array, and the number of items read.
    Arr(usize, usize, As),
    /// An object, and the entries that are left.
    Obj(usize, Vec<usize>, As),
}

pub struct TreeDe {
    doc: Rc<Doc>,
    frames: Vec<Frame>,
    /// The most recently popped item.
    popped: usize,
    popped_kind: &'static str,
    failed: bool,
    pub calls: usize,
    fault: Option<usize>,
    /// Whether lengths are known.
    lens: bool,
    /// How deep in standard implementations.
    std: usize,
}

impl TreeDe {
    pub fn new(doc: Rc<Doc>, lens: bool, fault: Option<usize>) -> Self {
        TreeDe { doc, frames: vec![Frame::Value(0)], popped: 0, popped_kind: "", failed: false, calls: 0, fault, lens, std: 0 }
    }

    /// Whether everything has been read.
    pub fn done(&self) -> bool {
        self.frames.is_empty() && !self.failed
    }

    pub fn height(&self) -> usize {
        self.frames.len()
    }

    fn illegal(&self, what: &str) -> ! {
        let mut shown: Vec<_> = self.frames.iter().rev().take(5).collect();
        shown.reverse();
        panic!("PROTOCOL: {} with the top of the stack {:?}{}", what, shown, if self.failed { " after a failure" } else { "" })
    }

    fn call(&mut self, what: &str) -> R<()> {
        if self.failed {
            self.illegal(what);
        }
        self.calls += 1;
        if self.fault == Some(self.calls - 1) {
            self.failed = true;
            return Err(TreeError { what: What::Injected(self.calls - 1), pos: 0 });
        }
        Ok(())
    }

    fn err<T>(&mut self, kind: Kind, msg: &str, pos: usize) -> R<T> {
        self.failed = true;
        Err(TreeError { what: What::Kind(kind, msg.to_string()), pos })
    }

    fn absent(key: Option<&'static str>, pos: usize) -> TreeError {
        let what = match key {
            Some(k) => What::Kind(Kind::MissingKey(k.to_string()), String::new()),
            None => What::Kind(Kind::Custom, "unexpected `null`".into()),
        };
        TreeError { what, pos }
    }

    fn start(&self, node: usize) -> usize {
        self.doc.nodes[node].0
    }

    fn pop(&mut self, pos: usize, kind: &'static str) {
        self.frames.pop();
        self.popped = pos;
        self.popped_kind = kind;
    }

    /// The value on the top, to be popped; an error if it is a virtual null.
    fn value(&mut self, what: &str) -> R<(usize, TNode)> {
        match self.frames.last() {
            Some(Frame::Value(i)) => {
                let i = *i;
                self.call(what)?;
                Ok((i, self.doc.nodes[i].1.clone()))
            }
            Some(Frame::Virtual(key, pos)) => {
                let e = Self::absent(*key, *pos);
                self.call(what)?;
                self.failed = true;
                Err(e)
            }
            _ => self.illegal(what),
        }
    }

    fn scalar<T>(&mut self, what: &str, f: impl Fn(&TNode) -> Result<T, Kind>) -> R<T> {
        let (i, node) = self.value(what)?;
        let pos = self.start(i);
        match f(&node) {
            Ok(v) => {
                self.pop(pos, "scalar");
                Ok(v)
            }
            Err(k) => self.err(k, "", pos),
        }
    }

    fn int<T: TryFrom<i128>>(&mut self, what: &str) -> R<T> {
        self.scalar(what, |n| match n {
            TNode::Num(lit, _) => integer(lit).and_then(|i| T::try_from(i).ok()).ok_or(Kind::Overflow),
            _ => Err(Kind::Type),
        })
    }

    fn standard<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        self.std += 1;
        let res = f(self);
        self.std -= 1;
        self.failed |= res.is_err();
        res
    }

    /// The collection on the top must have been opened as this.
    fn opened(&self, what: &str, object: bool, how: As) {
        let ok = match self.frames.last() {
            Some(Frame::Arr(_, _, h)) => !object && (*h == how || self.std > 0),
            Some(Frame::Obj(_, _, h)) => object && (*h == how || self.std > 0),
            _ => false,
        };
        if !ok {
            self.illegal(what);
        }
    }

    fn mark(&mut self, how: As) {
        match self.frames.last_mut() {
            Some(Frame::Arr(_, _, h) | Frame::Obj(_, _, h)) => *h = how,
            _ => self.illegal("an opened collection expected"),
        }
    }

    fn collection_start(&self, what: &str) -> usize {
        match self.frames.last() {
            Some(Frame::Arr(i, ..) | Frame::Obj(i, ..)) => self.start(*i),
            _ => self.illegal(what),
        }
    }
}

impl Outliner for TreeDe {
    type Error = TreeError;

    fn supports_null(&self) -> bool {
        true
    }
    fn pop_null(&mut self) -> R<()> {
        if let Some(Frame::Virtual(_, pos)) = self.frames.last() {
            let pos = *pos;
            self.call("pop_null")?;
            self.pop(pos, "scalar");
            return Ok(());
        }
        self.scalar("pop_null", |n| if *n == TNode::Null { Ok(()) } else { Err(Kind::Type) })
    }
    fn open_str(&mut self) -> R<()> {
        let (i, node) = self.value("open_str")?;
        let pos = self.start(i);
        match node {
            TNode::Str(s) => {
                self.frames.pop();
                self.frames.push(Frame::Str(s, 0, Some(pos)));
                Ok(())
            }
            _ => self.err(Kind::Type, "", pos),
        }
    }
    fn close_str(&mut self) -> R<()> {
        match self.frames.last() {
            Some(Frame::Str(..)) => (),
            _ => self.illegal("close_str"),
        }
        panic!("close_str is not used by the library")
    }
    fn open_struct(&mut self, type_name: Option<&'static str>) -> R<()> {
        if !matches!(self.frames.last(), Some(Frame::Value(_) | Frame::Virtual(..))) {
            self.illegal("open_struct");
        }
        self.standard(|s| open_struct(s, type_name))?;
        self.mark(As::Struct);
        Ok(())
    }
    fn push_field(&mut self, name: &'static str) -> R<()> {
        // Inlined fields are those of an object
        match self.frames.last() {
            Some(Frame::Obj(_, _, As::Plain | As::Struct) | Frame::Arr(_, _, As::Struct)) => (),
            _ => self.illegal("push_field"),
        }
        self.standard(|s| push_field(s, name))?;
        if !matches!(self.frames.last(), Some(Frame::Value(_) | Frame::Virtual(..))) {
            self.illegal("return from push_field");
        }
        Ok(())
    }
    fn close_struct(&mut self) -> R<()> {
        match self.frames.last() {
            Some(Frame::Obj(_, _, As::Struct) | Frame::Arr(_, _, As::Struct)) => (),
            _ => self.illegal("close_struct"),
        }
        let h = self.height();
        self.standard(|s| close_struct(s))?;
        if self.height() != h - 1 {
            self.illegal("return from close_struct");
        }
        Ok(())
    }
    fn open_tuple(&mut self, _: Option<&'static str>) -> R<()> {
        self.open_list()?;
        self.mark(As::Tuple);
        Ok(())
    }
    fn push_element(&mut self) -> R<()> {
        self.opened("push_element", false, As::Tuple);
        self.standard(|s| push_item(s))
    }
    fn close_tuple(&mut self) -> R<()> {
        self.opened("close_tuple", false, As::Tuple);
        self.standard(|s| close_list(s))
    }
    fn push_item(&mut self) -> R<()> {
        self.opened("push_item", false, As::Plain);
        self.standard(|s| push_item(s))
    }
    fn close_list(&mut self) -> R<()> {
        self.opened("close_list", false, As::Plain);
        let h = self.height();
        self.standard(|s| close_list(s))?;
        if self.height() != h - 1 {
            self.illegal("return from close_list");
        }
        Ok(())
    }
}

macro_rules! get {
    ($($f:ident $t:ident)*) => { $(
        fn $f(&mut self) -> R<$t> {
            self.int::<$t>(stringify!($f))
        }
    )* };
}

impl Deserializer for TreeDe {
    fn get_bool(&mut self) -> R<bool> {
        self.scalar("get_bool", |n| match n {
            TNode::Bool(b) => Ok(*b),
            _ => Err(Kind::Type),
        })
    }
    get!(get_i8 i8 get_i16 i16 get_i32 i32 get_i64 i64 get_u8 u8 get_u16 u16 get_u32 u32 get_u64 u64);
    fn get_f32(&mut self) -> R<f32> {
        self.scalar("get_f32", |n| match n {
            TNode::Num(lit, _) => Ok(lit.parse().expect("f32")),
            _ => Err(Kind::Type),
        })
    }
    fn get_f64(&mut self) -> R<f64> {
        self.scalar("get_f64", |n| match n {
            TNode::Num(lit, _) => Ok(lit.parse().expect("f64")),
            _ => Err(Kind::Type),
        })
    }
    fn get_char(&mut self) -> R<char> {
        self.scalar("get_char", |n| match n {
            TNode::Str(s) => {
                let mut c = s.chars();
                match (c.next(), c.next()) {
                    (Some(c), None) => Ok(c),
                    _ => Err(Kind::Custom),
                }
            }
            _ => Err(Kind::Type),
        })
    }
    fn next_char(&mut self) -> R<Option<char>> {
        if !matches!(self.frames.last(), Some(Frame::Str(..))) {
            self.illegal("next_char");
        }
        self.call("next_char")?;
        let popped = self.popped;
        let Some(Frame::Str(s, at, pos)) = self.frames.last_mut() else { unreachable!() };
        let c = s[*at..].chars().next();
        match c {
            Some(c) => *at += c.len_utf8(),
            None => {
                let pos = pos.unwrap_or(popped);
                self.pop(pos, "string");
            }
        }
        Ok(c)
    }
    fn get_tag(&mut self, max_index: usize, names: &'static NameMap<usize>) -> R<usize> {
        if !matches!(self.frames.last(), Some(Frame::Value(_) | Frame::Virtual(..))) {
            self.illegal("get_tag");
        }
        let h = self.height();
        let res = self.standard(|s| get_tag(s, max_index, names))?;
        if self.height() != h - 1 {
            self.illegal("return from get_tag");
        }
        Ok(res)
    }
    fn check_null(&mut self) -> R<bool> {
        let null = match self.frames.last() {
            Some(Frame::Value(i)) => self.doc.nodes[*i].1 == TNode::Null,
            Some(Frame::Virtual(..)) => true,
            _ => self.illegal("check_null"),
        };
        self.call("check_null")?;
        if null {
            let pos = match self.frames.last() {
                Some(Frame::Value(i)) => self.start(*i),
                Some(Frame::Virtual(_, pos)) => *pos,
                _ => unreachable!(),
            };
            self.pop(pos, "scalar");
        }
        Ok(null)
    }
    fn open_list(&mut self) -> R<Option<usize>> {
        let (i, node) = self.value("open_list")?;
        match node {
            TNode::Arr(items) => {
                self.frames.pop();
                self.frames.push(Frame::Arr(i, 0, As::Plain));
                Ok(self.lens.then_some(items.len()))
            }
            _ => {
                let pos = self.start(i);
                self.err(Kind::Type, "", pos)
            }
        }
    }
    fn next_item(&mut self) -> R<bool> {
        self.opened("next_item", false, As::Plain);
        self.call("next_item")?;
        let Some(Frame::Arr(i, n, _)) = self.frames.last_mut() else { unreachable!() };
        let i = *i;
        let TNode::Arr(items) = &self.doc.nodes[i].1 else { unreachable!() };
        match items.get(*n) {
            Some(item) => {
                *n += 1;
                self.frames.push(Frame::Value(*item));
                Ok(true)
            }
            None => {
                let pos = self.start(i);
                self.pop(pos, "list");
                Ok(false)
            }
        }
    }
    fn error(&self, source: Box<dyn std::error::Error + Send + Sync>) -> TreeError {
        TreeError { what: What::Kind(Kind::Custom, source.to_string()), pos: self.popped }
    }
    fn error_missing_item(&self) -> TreeError {
        if self.popped_kind != "list" {
            self.illegal(&format!("error_missing_item after a {} was popped", self.popped_kind));
        }
        TreeError { what: What::Kind(Kind::MissingItems, String::new()), pos: self.popped }
    }
    fn error_extra_item(&self) -> TreeError {
        match self.frames.last() {
            Some(Frame::Arr(i, ..)) => TreeError { what: What::Kind(Kind::ExcessItems, String::new()), pos: self.start(*i) },
            _ => self.illegal("error_extra_item"),
        }
    }
}

impl JsonOutliner for TreeDe {
    fn open_object(&mut self) -> R<()> {
        let (i, node) = self.value("open_object")?;
        match node {
            TNode::Obj(entries) => {
                self.frames.pop();
                self.frames.push(Frame::Obj(i, (0..entries.len()).collect(), As::Plain));
                Ok(())
            }
            _ => {
                let pos = self.start(i);
                self.err(Kind::Type, "", pos)
            }
        }
    }
    fn push_entry(&mut self, key: &str) -> R<()> {
        self.opened("push_entry", true, As::Plain);
        let pos = self.collection_start("push_entry");
        if !self.try_push_entry(key)? {
            return self.err(Kind::MissingKey(key.to_string()), "", pos);
        }
        Ok(())
    }
    fn close_object(&mut self) -> R<()> {
        self.opened("close_object", true, As::Plain);
        self.call("close_object")?;
        let Some(Frame::Obj(i, left, _)) = self.frames.last() else { unreachable!() };
        let pos = self.start(*i);
        let TNode::Obj(entries) = &self.doc.nodes[*i].1 else { unreachable!() };
        match left.first() {
            Some(e) => {
                let key = entries[*e].0.to_string();
                self.err(Kind::ExtraKey(key), "", pos)
            }
            None => {
                self.pop(pos, "object");
                Ok(())
            }
        }
    }
}

impl JsonDeserializer for TreeDe {
    fn peek_value_type(&self) -> ValueType {
        match self.frames.last() {
            Some(Frame::Virtual(..)) => ValueType::Null,
            Some(Frame::Value(i)) => match &self.doc.nodes[*i].1 {
                TNode::Null => ValueType::Null,
                TNode::Bool(_) => ValueType::Bool,
                TNode::Num(..) => ValueType::Number,
                TNode::Str(_) => ValueType::String,
                TNode::Arr(_) => ValueType::Array,
                TNode::Obj(_) => ValueType::Object,
            },
            _ => self.illegal("peek_value_type"),
        }
    }
    fn peek_collection_type(&self) -> CollectionType {
        match self.frames.last() {
            Some(Frame::Arr(..)) => CollectionType::Array,
            Some(Frame::Obj(..)) => CollectionType::Object,
            _ => self.illegal("peek_collection_type"),
        }
    }
    fn push_null(&mut self, key: Option<&'static str>) {
        if self.failed {
            self.illegal("push_null");
        }
        let pos = self.collection_start("push_null");
        self.frames.push(Frame::Virtual(key, pos));
    }
    fn try_push_entry(&mut self, key: &str) -> R<bool> {
        if !matches!(self.frames.last(), Some(Frame::Obj(..))) {
            self.illegal("try_push_entry");
        }
        self.call("try_push_entry")?;
        let Some(Frame::Obj(i, left, _)) = self.frames.last_mut() else { unreachable!() };
        let TNode::Obj(entries) = &self.doc.nodes[*i].1 else { unreachable!() };
        match left.iter().position(|e| *entries[*e].0 == *key) {
            Some(k) => {
                let e = left.remove(k);
                self.frames.push(Frame::Value(entries[e].1));
                Ok(true)
            }
            None => Ok(false),
        }
    }
    fn next_entry(&mut self) -> R<bool> {
        self.opened("next_entry", true, As::Plain);
        self.call("next_entry")?;
        let Some(Frame::Obj(i, left, _)) = self.frames.last_mut() else { unreachable!() };
        let i = *i;
        let TNode::Obj(entries) = &self.doc.nodes[i].1 else { unreachable!() };
        if left.is_empty() {
            let pos = self.start(i);
            self.pop(pos, "object");
            return Ok(false);
        }
        let (key, v) = &entries[left.remove(0)];
        self.frames.push(Frame::Value(*v));
        self.frames.push(Frame::Str(key.clone(), 0, None));
        Ok(true)
    }
    fn error_expected_type(&self, expected: &'static [ValueType]) -> TreeError {
        let _ = expected;
        match self.frames.last() {
            Some(Frame::Value(i)) => TreeError { what: What::Kind(Kind::Type, String::new()), pos: self.start(*i) },
            Some(Frame::Virtual(key, pos)) => Self::absent(*key, *pos),
            _ => self.illegal("error_expected_type"),
        }
    }
    fn error_missing_entry(&self, key: String) -> TreeError {
        if self.popped_kind != "object" {
            self.illegal(&format!("error_missing_entry after a {} was popped", self.popped_kind));
        }
        TreeError { what: What::Kind(Kind::MissingKey(key), String::new()), pos: self.popped }
    }
    fn error_extra_entry(&self, key: String) -> TreeError {
        match self.frames.last() {
            Some(Frame::Obj(i, ..)) => TreeError { what: What::Kind(Kind::ExtraKey(key), String::new()), pos: self.start(*i) },
            _ => self.illegal("error_extra_entry"),
        }
    }
}

// ------------------------------------------------------------------ writing

#[derive(Debug, Clone)]
enum Out {
    Value(usize),
    /// A string value being written.
    Str(usize, String),
    /// A key being written: of which entry of which object.
    Key(usize, usize, String),
    /// An array, and the items left to be announced.
    Arr(usize, Option<usize>, As),
    Obj(usize, As),
}

pub struct TreeSer {
    pub doc: Doc,
    frames: Vec<Out>,
    failed: bool,
    pub calls: usize,
    fault: Option<usize>,
}

impl TreeSer {
    pub fn new(fault: Option<usize>) -> Self {
        TreeSer { doc: Doc { nodes: vec![(0, TNode::Null)] }, frames: vec![Out::Value(0)], failed: false, calls: 0, fault }
    }

    pub fn done(&self) -> bool {
        self.frames.is_empty() && !self.failed
    }

    fn illegal(&self, what: &str) -> ! {
        let mut shown: Vec<_> = self.frames.iter().rev().take(5).collect();
        shown.reverse();
        panic!("PROTOCOL: {} with the top of the stack {:?}{}", what, shown, if self.failed { " after a failure" } else { "" })
    }

    fn call(&mut self, what: &str) -> R<()> {
        if self.failed {
            self.illegal(what);
        }
        self.calls += 1;
        if self.fault == Some(self.calls - 1) {
            self.failed = true;
            return Err(TreeError { what: What::Injected(self.calls - 1), pos: 0 });
        }
        Ok(())
    }

    fn value(&mut self, what: &str) -> R<usize> {
        match self.frames.last() {
            Some(Out::Value(i)) => {
                let i = *i;
                self.call(what)?;
                self.frames.pop();
                Ok(i)
            }
            _ => self.illegal(what),
        }
    }

    fn put(&mut self, what: &str, node: TNode) -> R<()> {
        let i = self.value(what)?;
        self.doc.nodes[i].1 = node;
        Ok(())
    }

    fn slot(&mut self) -> usize {
        self.doc.nodes.push((0, TNode::Null));
        self.doc.nodes.len() - 1
    }

    fn push(&mut self, what: &str, how: As) -> R<()> {
        match self.frames.last() {
            Some(Out::Arr(_, Some(0), h)) if *h == how => self.illegal(&format!("{} past the announced length", what)),
            Some(Out::Arr(_, _, h)) if *h == how => (),
            _ => self.illegal(what),
        }
        self.call(what)?;
        let slot = self.slot();
        let Some(Out::Arr(i, left, _)) = self.frames.last_mut() else { unreachable!() };
        if let Some(n) = left {
            *n -= 1;
        }
        let TNode::Arr(items) = &mut self.doc.nodes[*i].1 else { unreachable!() };
        items.push(slot);
        self.frames.push(Out::Value(slot));
        Ok(())
    }

    fn entry(&mut self, what: &str, key: &str, how: As) -> R<usize> {
        match self.frames.last() {
            Some(Out::Obj(_, h)) if *h == how => (),
            _ => self.illegal(what),
        }
        self.call(what)?;
        let slot = self.slot();
        let Some(Out::Obj(i, _)) = self.frames.last() else { unreachable!() };
        let i = *i;
        let TNode::Obj(entries) = &mut self.doc.nodes[i].1 else { unreachable!() };
        entries.push((key.into(), slot));
        self.frames.push(Out::Value(slot));
        Ok(i)
    }

    fn close(&mut self, what: &str, ok: impl Fn(&Out) -> bool) -> R<()> {
        match self.frames.last() {
            Some(f) if ok(f) => (),
            _ => self.illegal(what),
        }
        self.call(what)?;
        self.frames.pop();
        Ok(())
    }
}

impl Outliner for TreeSer {
    type Error = TreeError;

    fn supports_null(&self) -> bool {
        true
    }
    fn pop_null(&mut self) -> R<()> {
        self.put("pop_null", TNode::Null)
    }
    fn open_str(&mut self) -> R<()> {
        let i = self.value("open_str")?;
        self.frames.push(Out::Str(i, String::new()));
        Ok(())
    }
    fn close_str(&mut self) -> R<()> {
        match self.frames.last() {
            Some(Out::Str(..) | Out::Key(..)) => (),
            _ => self.illegal("close_str"),
        }
        self.call("close_str")?;
        match self.frames.pop() {
            Some(Out::Str(i, s)) => self.doc.nodes[i].1 = TNode::Str(s.into()),
            Some(Out::Key(i, e, s)) => {
                let TNode::Obj(entries) = &mut self.doc.nodes[i].1 else { unreachable!() };
                entries[e].0 = s.into();
            }
            _ => unreachable!(),
        }
        Ok(())
    }
    fn open_struct(&mut self, _: Option<&'static str>) -> R<()> {
        let i = self.value("open_struct")?;
        self.doc.nodes[i].1 = TNode::Obj(Vec::new());
        self.frames.push(Out::Obj(i, As::Struct));
        Ok(())
    }
    fn push_field(&mut self, name: &'static str) -> R<()> {
        self.entry("push_field", name, As::Struct)?;
        Ok(())
    }
    fn close_struct(&mut self) -> R<()> {
        self.close("close_struct", |f| matches!(f, Out::Obj(_, As::Struct)))
    }
    fn open_tuple(&mut self, _: Option<&'static str>) -> R<()> {
        let i = self.value("open_tuple")?;
        self.doc.nodes[i].1 = TNode::Arr(Vec::new());
        self.frames.push(Out::Arr(i, None, As::Tuple));
        Ok(())
    }
    fn push_element(&mut self) -> R<()> {
        self.push("push_element", As::Tuple)
    }
    fn close_tuple(&mut self) -> R<()> {
        self.close("close_tuple", |f| matches!(f, Out::Arr(_, _, As::Tuple)))
    }
    fn push_item(&mut self) -> R<()> {
        self.push("push_item", As::Plain)
    }
    fn close_list(&mut self) -> R<()> {
        self.close("close_list", |f| matches!(f, Out::Arr(_, None | Some(0), As::Plain)))
    }
}

macro_rules! put {
    ($($f:ident $t:ident)*) => { $(
        fn $f(&mut self, value: $t) -> R<()> {
            self.put(stringify!($f), TNode::Num(value.to_string().into(), stringify!($t)))
        }
    )* };
}

impl Serializer for TreeSer {
    fn put_bool(&mut self, value: bool) -> R<()> {
        self.put("put_bool", TNode::Bool(value))
    }
    put!(put_i8 i8 put_i16 i16 put_i32 i32 put_i64 i64 put_u8 u8 put_u16 u16 put_u32 u32 put_u64 u64);
    fn put_f32(&mut self, value: f32) -> R<()> {
        self.put("put_f32", TNode::Num(format!("{:?}", value).into(), "f32"))
    }
    fn put_f64(&mut self, value: f64) -> R<()> {
        self.put("put_f64", TNode::Num(format!("{:?}", value).into(), "f64"))
    }
    fn put_char(&mut self, value: char) -> R<()> {
        self.put("put_char", TNode::Str(value.to_string().into()))
    }
    fn append_char(&mut self, value: char) -> R<()> {
        match self.frames.last() {
            Some(Out::Str(..) | Out::Key(..)) => (),
            _ => self.illegal("append_char"),
        }
        self.call("append_char")?;
        match self.frames.last_mut() {
            Some(Out::Str(_, s) | Out::Key(_, _, s)) => s.push(value),
            _ => unreachable!(),
        }
        Ok(())
    }
    fn put_tag(&mut self, max_index: usize, index: usize, name: Option<&'static str>) -> R<()> {
        if !matches!(self.frames.last(), Some(Out::Value(_))) {
            self.illegal("put_tag");
        }
        let h = self.frames.len();
        put_tag(self, max_index, index, name)?;
        if self.frames.len() != h - 1 {
            self.illegal("return from put_tag");
        }
        Ok(())
    }
    fn open_list_sized(&mut self, len: usize) -> R<()> {
        let i = self.value("open_list_sized")?;
        self.doc.nodes[i].1 = TNode::Arr(Vec::new());
        self.frames.push(Out::Arr(i, Some(len), As::Plain));
        Ok(())
    }
}

impl JsonOutliner for TreeSer {
    fn open_object(&mut self) -> R<()> {
        let i = self.value("open_object")?;
        self.doc.nodes[i].1 = TNode::Obj(Vec::new());
        self.frames.push(Out::Obj(i, As::Plain));
        Ok(())
    }
    fn push_entry(&mut self, key: &str) -> R<()> {
        self.entry("push_entry", key, As::Plain)?;
        Ok(())
    }
    fn close_object(&mut self) -> R<()> {
        self.close("close_object", |f| matches!(f, Out::Obj(_, As::Plain)))
    }
}

impl JsonSerializer for TreeSer {
    fn open_list_streaming(&mut self) -> R<()> {
        let i = self.value("open_list_streaming")?;
        self.doc.nodes[i].1 = TNode::Arr(Vec::new());
        self.frames.push(Out::Arr(i, None, As::Plain));
        Ok(())
    }
    fn add_entry(&mut self) -> R<()> {
        let i = self.entry("add_entry", "", As::Plain)?;
        let TNode::Obj(entries) = &self.doc.nodes[i].1 else { unreachable!() };
        let e = entries.len() - 1;
        self.frames.push(Out::Key(i, e, String::new()));
        Ok(())
    }
}
