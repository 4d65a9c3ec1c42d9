//! A strict format that knows nothing of JSON: a value is a tape of events, and every call is
//! checked against the stack protocol of `Outliner`, `Serializer` and `Deserializer`. A call which
//! is not legal for the top of the stack panics with a message starting with "PROTOCOL". Only the
//! required methods are implemented, so the provided ones are those of the library.

use crate::engine::Ch;
use serdere::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq, Hash)]
pub enum Ev {
    Null,
    Bool(bool),
    /// Type and value.
    Int(&'static str, i128),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Tag { max: usize, index: usize, name: Option<&'static str> },
    List(usize),
    Item,
    Tuple(Option<&'static str>),
    Element,
    Struct(Option<&'static str>),
    Field(&'static str),
    Close,
}

#[derive(Debug, Clone, PartialEq)]
pub enum TapeError {
    Injected,
    Custom(String),
    MissingItem,
    ExtraItem,
    /// What was asked for, and what the tape has there.
    Mismatch(String, String),
}

impl std::fmt::Display for TapeError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}

impl std::error::Error for TapeError {}

type R<T> = Result<T, TapeError>;

#[derive(Debug, Clone, PartialEq)]
enum Frame {
    Value,
    Str,
    Struct(Vec<&'static str>),
    Tuple,
    /// Items left, if known.
    List(Option<usize>),
}

/// The stack, and what may be called on it.
pub struct Stack {
    frames: Vec<Frame>,
    /// An error has been returned.
    failed: bool,
    null: bool,
    pub calls: usize,
    /// The call to fail.
    fault: Option<usize>,
}

impl Stack {
    fn new(null: bool, fault: Option<usize>) -> Self {
        Stack { frames: vec![Frame::Value], failed: false, null, calls: 0, fault }
    }

    /// Whether everything has been completed.
    pub fn done(&self) -> bool {
        self.frames.is_empty() && !self.failed
    }

    fn illegal(&self, what: &str) -> ! {
        panic!("PROTOCOL: {} with the stack {:?}{}", what, self.frames, if self.failed { " after a failure" } else { "" })
    }

    fn fail<T>(&mut self, e: TapeError) -> R<T> {
        self.failed = true;
        Err(e)
    }

    /// A call is made: fails it if it is to fail.
    fn call(&mut self, what: &str) -> R<()> {
        if self.failed {
            self.illegal(what);
        }
        self.calls += 1;
        if self.fault == Some(self.calls - 1) {
            return self.fail(TapeError::Injected);
        }
        Ok(())
    }

    fn top(&mut self) -> Option<&mut Frame> {
        self.frames.last_mut()
    }

    fn need(&mut self, what: &str, ok: impl Fn(&Frame) -> bool) {
        match self.frames.last() {
            Some(f) if ok(f) => (),
            _ => self.illegal(what),
        }
    }

    fn value(&mut self, what: &str) -> R<()> {
        self.need(what, |f| *f == Frame::Value);
        self.call(what)
    }

    fn pop(&mut self) {
        self.frames.pop();
    }

    fn replace(&mut self, f: Frame) {
        self.frames.pop();
        self.frames.push(f);
    }

    fn null(&mut self, what: &str) -> R<()> {
        if !self.null {
            self.illegal(&format!("{} on a format without null", what));
        }
        self.value(what)
    }

    fn field(&mut self, name: &'static str) -> R<()> {
        let what = format!("push_field {:?}", name);
        self.need(&what, |f| matches!(f, Frame::Struct(_)));
        if let Some(Frame::Struct(names)) = self.top() {
            if names.contains(&name) {
                self.illegal(&format!("push_field {:?} for the second time", name));
            }
            names.push(name);
        }
        self.call(&what)
    }
}

// ------------------------------------------------------------------ writing

pub struct TapeSer {
    pub stack: Stack,
    pub tape: Vec<Ev>,
    text: String,
}

impl TapeSer {
    pub fn new(null: bool, fault: Option<usize>) -> Self {
        TapeSer { stack: Stack::new(null, fault), tape: Vec::new(), text: String::new() }
    }

    fn put(&mut self, what: &str, e: Ev) -> R<()> {
        self.stack.value(what)?;
        self.stack.pop();
        self.tape.push(e);
        Ok(())
    }

    fn close(&mut self, what: &str, ok: impl Fn(&Frame) -> bool) -> R<()> {
        self.stack.need(what, ok);
        self.stack.call(what)?;
        self.stack.pop();
        self.tape.push(Ev::Close);
        Ok(())
    }
}

macro_rules! outliner {
    (common) => {
        type Error = TapeError;
        fn supports_null(&self) -> bool {
            self.stack.null
        }
    };
}

impl Outliner for TapeSer {
    outliner!(common);
    fn pop_null(&mut self) -> R<()> {
        self.stack.null("pop_null")?;
        self.stack.pop();
        self.tape.push(Ev::Null);
        Ok(())
    }
    fn open_str(&mut self) -> R<()> {
        self.stack.value("open_str")?;
        self.stack.replace(Frame::Str);
        self.text.clear();
        Ok(())
    }
    fn close_str(&mut self) -> R<()> {
        self.stack.need("close_str", |f| *f == Frame::Str);
        self.stack.call("close_str")?;
        self.stack.pop();
        self.tape.push(Ev::Str(std::mem::take(&mut self.text)));
        Ok(())
    }
    fn open_struct(&mut self, type_name: Option<&'static str>) -> R<()> {
        self.stack.value("open_struct")?;
        self.stack.replace(Frame::Struct(Vec::new()));
        self.tape.push(Ev::Struct(type_name));
        Ok(())
    }
    fn push_field(&mut self, name: &'static str) -> R<()> {
        self.stack.field(name)?;
        self.stack.frames.push(Frame::Value);
        self.tape.push(Ev::Field(name));
        Ok(())
    }
    fn close_struct(&mut self) -> R<()> {
        self.close("close_struct", |f| matches!(f, Frame::Struct(_)))
    }
    fn open_tuple(&mut self, type_name: Option<&'static str>) -> R<()> {
        self.stack.value("open_tuple")?;
        self.stack.replace(Frame::Tuple);
        self.tape.push(Ev::Tuple(type_name));
        Ok(())
    }
    fn push_element(&mut self) -> R<()> {
        self.stack.need("push_element", |f| *f == Frame::Tuple);
        self.stack.call("push_element")?;
        self.stack.frames.push(Frame::Value);
        self.tape.push(Ev::Element);
        Ok(())
    }
    fn close_tuple(&mut self) -> R<()> {
        self.close("close_tuple", |f| *f == Frame::Tuple)
    }
    fn push_item(&mut self) -> R<()> {
        self.stack.need("push_item", |f| matches!(f, Frame::List(_)));
        match self.stack.top() {
            Some(Frame::List(Some(0))) => self.stack.illegal("push_item beyond the announced length"),
            Some(Frame::List(Some(n))) => *n -= 1,
            _ => (),
        }
        self.stack.call("push_item")?;
        self.stack.frames.push(Frame::Value);
        self.tape.push(Ev::Item);
        Ok(())
    }
    fn close_list(&mut self) -> R<()> {
        if let Some(Frame::List(Some(1..))) = self.stack.top() {
            self.stack.illegal("close_list before the announced length");
        }
        self.close("close_list", |f| matches!(f, Frame::List(_)))
    }
}

macro_rules! put_ints {
    ($($f:ident $t:ident)*) => { $(
        fn $f(&mut self, value: $t) -> R<()> {
            self.put(stringify!($f), Ev::Int(stringify!($t), value as i128))
        }
    )* };
}

impl Serializer for TapeSer {
    put_ints!(put_i8 i8 put_i16 i16 put_i32 i32 put_i64 i64 put_u8 u8 put_u16 u16 put_u32 u32 put_u64 u64);
    fn put_bool(&mut self, value: bool) -> R<()> {
        self.put("put_bool", Ev::Bool(value))
    }
    fn put_f32(&mut self, value: f32) -> R<()> {
        self.put("put_f32", Ev::F32(value.to_bits()))
    }
    fn put_f64(&mut self, value: f64) -> R<()> {
        self.put("put_f64", Ev::F64(value.to_bits()))
    }
    fn put_char(&mut self, value: char) -> R<()> {
        self.put("put_char", Ev::Char(value))
    }
    fn append_char(&mut self, value: char) -> R<()> {
        self.stack.need("append_char", |f| *f == Frame::Str);
        self.stack.call("append_char")?;
        self.text.push(value);
        Ok(())
    }
    fn put_tag(&mut self, max: usize, index: usize, name: Option<&'static str>) -> R<()> {
        if index > max {
            self.stack.illegal(&format!("put_tag with index {} beyond the maximum {}", index, max));
        }
        self.put("put_tag", Ev::Tag { max, index, name })
    }
    fn open_list_sized(&mut self, len: usize) -> R<()> {
        self.stack.value("open_list_sized")?;
        self.stack.replace(Frame::List(Some(len)));
        self.tape.push(Ev::List(len));
        Ok(())
    }
}

// ------------------------------------------------------------------ reading

/// How the reading side answers where the protocol leaves it free.
#[derive(Clone, Copy, Debug)]
pub struct Answers {
    pub null: bool,
    /// Whether the first list has a known length, and whether that alternates.
    pub known: bool,
    pub alternate: bool,
    /// Whether tags are found by their name (else by their index).
    pub by_name: bool,
}

pub struct TapeDe {
    pub stack: Stack,
    tape: Rc<Vec<Ev>>,
    pub at: usize,
    text: std::collections::VecDeque<char>,
    answers: Answers,
    lists: usize,
}

impl TapeDe {
    pub fn new(tape: Rc<Vec<Ev>>, answers: Answers, fault: Option<usize>) -> Self {
        TapeDe { stack: Stack::new(answers.null, fault), tape, at: 0, text: Default::default(), answers, lists: 0 }
    }

    pub fn done(&self) -> bool {
        self.stack.done() && self.at == self.tape.len()
    }

    fn peek(&self) -> Option<&Ev> {
        self.tape.get(self.at)
    }

    /// Goes past the event, which must be of the right kind.
    fn take<T>(&mut self, what: &str, f: impl Fn(&Ev) -> Option<T>) -> R<T> {
        match self.peek().and_then(f) {
            Some(t) => {
                self.at += 1;
                Ok(t)
            }
            None => {
                let e = TapeError::Mismatch(what.to_string(), format!("{:?}", self.peek()));
                self.stack.fail(e)
            }
        }
    }

    fn take_is(&mut self, what: &str, e: Ev) -> R<()> {
        self.take(what, |x| (*x == e).then_some(()))
    }

    fn get<T>(&mut self, what: &str, f: impl Fn(&Ev) -> Option<T>) -> R<T> {
        self.stack.value(what)?;
        let res = self.take(what, f)?;
        self.stack.pop();
        Ok(res)
    }

    fn close(&mut self, what: &str, ok: impl Fn(&Frame) -> bool) -> R<()> {
        self.stack.need(what, ok);
        self.stack.call(what)?;
        self.take_is(what, Ev::Close)?;
        self.stack.pop();
        Ok(())
    }
}

impl Outliner for TapeDe {
    outliner!(common);
    fn pop_null(&mut self) -> R<()> {
        self.stack.null("pop_null")?;
        self.take_is("pop_null", Ev::Null)?;
        self.stack.pop();
        Ok(())
    }
    fn open_str(&mut self) -> R<()> {
        self.stack.value("open_str")?;
        let s = self.take("open_str", |e| if let Ev::Str(s) = e { Some(s.clone()) } else { None })?;
        self.stack.replace(Frame::Str);
        self.text = s.chars().collect();
        Ok(())
    }
    fn close_str(&mut self) -> R<()> {
        self.stack.need("close_str", |f| *f == Frame::Str);
        self.stack.call("close_str")?;
        if !self.text.is_empty() {
            return self.stack.fail(TapeError::ExtraItem);
        }
        self.stack.pop();
        Ok(())
    }
    fn open_struct(&mut self, type_name: Option<&'static str>) -> R<()> {
        self.stack.value("open_struct")?;
        self.take_is(&format!("open_struct {:?}", type_name), Ev::Struct(type_name))?;
        self.stack.replace(Frame::Struct(Vec::new()));
        Ok(())
    }
    fn push_field(&mut self, name: &'static str) -> R<()> {
        self.stack.field(name)?;
        self.take_is(&format!("push_field {:?}", name), Ev::Field(name))?;
        self.stack.frames.push(Frame::Value);
        Ok(())
    }
    fn close_struct(&mut self) -> R<()> {
        self.close("close_struct", |f| matches!(f, Frame::Struct(_)))
    }
    fn open_tuple(&mut self, type_name: Option<&'static str>) -> R<()> {
        self.stack.value("open_tuple")?;
        self.take_is(&format!("open_tuple {:?}", type_name), Ev::Tuple(type_name))?;
        self.stack.replace(Frame::Tuple);
        Ok(())
    }
    fn push_element(&mut self) -> R<()> {
        self.stack.need("push_element", |f| *f == Frame::Tuple);
        self.stack.call("push_element")?;
        self.take_is("push_element", Ev::Element)?;
        self.stack.frames.push(Frame::Value);
        Ok(())
    }
    fn close_tuple(&mut self) -> R<()> {
        self.close("close_tuple", |f| *f == Frame::Tuple)
    }
    fn push_item(&mut self) -> R<()> {
        self.stack.need("push_item", |f| matches!(f, Frame::List(_)));
        self.stack.call("push_item")?;
        self.take_is("push_item", Ev::Item)?;
        self.stack.frames.push(Frame::Value);
        Ok(())
    }
    fn close_list(&mut self) -> R<()> {
        self.close("close_list", |f| matches!(f, Frame::List(_)))
    }
}

macro_rules! get_ints {
    ($($f:ident $t:ident)*) => { $(
        fn $f(&mut self) -> R<$t> {
            self.get(stringify!($f), |e| match e {
                Ev::Int(stringify!($t), n) => Some(*n as $t),
                _ => None,
            })
        }
    )* };
}

impl Deserializer for TapeDe {
    get_ints!(get_i8 i8 get_i16 i16 get_i32 i32 get_i64 i64 get_u8 u8 get_u16 u16 get_u32 u32 get_u64 u64);
    fn get_bool(&mut self) -> R<bool> {
        self.get("get_bool", |e| if let Ev::Bool(b) = e { Some(*b) } else { None })
    }
    fn get_f32(&mut self) -> R<f32> {
        self.get("get_f32", |e| if let Ev::F32(b) = e { Some(f32::from_bits(*b)) } else { None })
    }
    fn get_f64(&mut self) -> R<f64> {
        self.get("get_f64", |e| if let Ev::F64(b) = e { Some(f64::from_bits(*b)) } else { None })
    }
    fn get_char(&mut self) -> R<char> {
        self.get("get_char", |e| if let Ev::Char(c) = e { Some(*c) } else { None })
    }
    fn next_char(&mut self) -> R<Option<char>> {
        self.stack.need("next_char", |f| *f == Frame::Str);
        self.stack.call("next_char")?;
        let c = self.text.pop_front();
        if c.is_none() {
            self.stack.pop();
        }
        Ok(c)
    }
    fn get_tag(&mut self, max: usize, names: &'static NameMap<usize>) -> R<usize> {
        let by_name = self.answers.by_name;
        self.get(&format!("get_tag up to {}", max), |e| match e {
            Ev::Tag { max: m, index, name } if *m == max => match name {
                Some(n) if by_name => names.get(n).copied(),
                _ => Some(*index),
            },
            _ => None,
        })
    }
    fn check_null(&mut self) -> R<bool> {
        self.stack.null("check_null")?;
        if self.peek() == Some(&Ev::Null) {
            self.at += 1;
            self.stack.pop();
            Ok(true)
        } else {
            Ok(false)
        }
    }
    fn open_list(&mut self) -> R<Option<usize>> {
        self.stack.value("open_list")?;
        let n = self.take("open_list", |e| if let Ev::List(n) = e { Some(*n) } else { None })?;
        let known = self.answers.known ^ (self.answers.alternate && self.lists % 2 == 1);
        self.lists += 1;
        self.stack.replace(Frame::List(None));
        Ok(known.then_some(n))
    }
    fn next_item(&mut self) -> R<bool> {
        self.stack.need("next_item", |f| matches!(f, Frame::List(_)));
        self.stack.call("next_item")?;
        if self.peek() == Some(&Ev::Close) {
            self.at += 1;
            self.stack.pop();
            Ok(false)
        } else {
            self.take_is("next_item", Ev::Item)?;
            self.stack.frames.push(Frame::Value);
            Ok(true)
        }
    }
    fn error(&self, source: Box<dyn std::error::Error + Send + Sync>) -> TapeError {
        TapeError::Custom(source.to_string())
    }
    fn error_missing_item(&self) -> TapeError {
        TapeError::MissingItem
    }
    fn error_extra_item(&self) -> TapeError {
        TapeError::ExtraItem
    }
}

// ------------------------------------------------------------------ any answers

/// A format without any data: every answer is a choice (the first of each kind once the budget has
/// been used up). What was answered is logged as a tape.
pub struct Free<'x, 'c> {
    pub stack: Stack,
    pub ch: &'x RefCell<&'c mut Ch>,
    pub budget: usize,
    pub tape: Vec<Ev>,
    chars: usize,
    text: String,
}

impl<'x, 'c> Free<'x, 'c> {
    pub fn new(null: bool, fault: Option<usize>, ch: &'x RefCell<&'c mut Ch>, budget: usize) -> Self {
        Free { stack: Stack::new(null, fault), ch, budget, tape: Vec::new(), chars: 0, text: String::new() }
    }

    fn choose(&mut self, n: usize) -> usize {
        if self.budget == 0 {
            return 0;
        }
        self.budget -= 1;
        self.ch.borrow_mut().choose(n)
    }

    fn get<T: Copy>(&mut self, what: &str, all: &[T], f: impl Fn(T) -> Ev) -> R<T> {
        self.stack.value(what)?;
        let v = all[self.choose(all.len())];
        self.stack.pop();
        self.tape.push(f(v));
        Ok(v)
    }

    fn close(&mut self, what: &str, ok: impl Fn(&Frame) -> bool) -> R<()> {
        self.stack.need(what, ok);
        self.stack.call(what)?;
        self.stack.pop();
        self.tape.push(Ev::Close);
        Ok(())
    }

    fn item(&mut self) {
        if let Some(Frame::List(Some(n))) = self.stack.top() {
            *n -= 1;
        }
        self.stack.frames.push(Frame::Value);
        self.tape.push(Ev::Item);
    }

    /// Whether the open list has one more item.
    fn has_item(&mut self) -> bool {
        match self.stack.top() {
            Some(Frame::List(Some(n))) => *n > 0,
            _ => self.choose(2) == 1,
        }
    }
}

impl Outliner for Free<'_, '_> {
    outliner!(common);
    fn pop_null(&mut self) -> R<()> {
        self.stack.null("pop_null")?;
        self.stack.pop();
        self.tape.push(Ev::Null);
        Ok(())
    }
    fn open_str(&mut self) -> R<()> {
        self.stack.value("open_str")?;
        self.chars = self.choose(3);
        self.text.clear();
        self.stack.replace(Frame::Str);
        Ok(())
    }
    fn close_str(&mut self) -> R<()> {
        self.stack.need("close_str", |f| *f == Frame::Str);
        self.stack.call("close_str")?;
        if self.chars > 0 {
            return self.stack.fail(TapeError::ExtraItem);
        }
        self.stack.pop();
        self.tape.push(Ev::Str(self.text.clone()));
        Ok(())
    }
    fn open_struct(&mut self, type_name: Option<&'static str>) -> R<()> {
        self.stack.value("open_struct")?;
        self.stack.replace(Frame::Struct(Vec::new()));
        self.tape.push(Ev::Struct(type_name));
        Ok(())
    }
    fn push_field(&mut self, name: &'static str) -> R<()> {
        self.stack.field(name)?;
        self.stack.frames.push(Frame::Value);
        self.tape.push(Ev::Field(name));
        Ok(())
    }
    fn close_struct(&mut self) -> R<()> {
        self.close("close_struct", |f| matches!(f, Frame::Struct(_)))
    }
    fn open_tuple(&mut self, type_name: Option<&'static str>) -> R<()> {
        self.stack.value("open_tuple")?;
        self.stack.replace(Frame::Tuple);
        self.tape.push(Ev::Tuple(type_name));
        Ok(())
    }
    fn push_element(&mut self) -> R<()> {
        self.stack.need("push_element", |f| *f == Frame::Tuple);
        self.stack.call("push_element")?;
        self.stack.frames.push(Frame::Value);
        self.tape.push(Ev::Element);
        Ok(())
    }
    fn close_tuple(&mut self) -> R<()> {
        self.close("close_tuple", |f| *f == Frame::Tuple)
    }
    fn push_item(&mut self) -> R<()> {
        self.stack.need("push_item", |f| matches!(f, Frame::List(_)));
        self.stack.call("push_item")?;
        if !self.has_item() {
            return self.stack.fail(TapeError::MissingItem);
        }
        self.item();
        Ok(())
    }
    fn close_list(&mut self) -> R<()> {
        self.stack.need("close_list", |f| matches!(f, Frame::List(_)));
        self.stack.call("close_list")?;
        if self.has_item() {
            return self.stack.fail(TapeError::ExtraItem);
        }
        self.stack.pop();
        self.tape.push(Ev::Close);
        Ok(())
    }
}

macro_rules! free_ints {
    ($($f:ident $t:ident)*) => { $(
        fn $f(&mut self) -> R<$t> {
            self.get(stringify!($f), &[1, 0, $t::MAX], |n| Ev::Int(stringify!($t), n as i128))
        }
    )* };
}

impl Deserializer for Free<'_, '_> {
    free_ints!(get_i8 i8 get_i16 i16 get_i32 i32 get_i64 i64 get_u8 u8 get_u16 u16 get_u32 u32 get_u64 u64);
    fn get_bool(&mut self) -> R<bool> {
        self.get("get_bool", &[false, true], Ev::Bool)
    }
    fn get_f32(&mut self) -> R<f32> {
        self.get("get_f32", &[0.5, -0.0], |f| Ev::F32(f.to_bits()))
    }
    fn get_f64(&mut self) -> R<f64> {
        self.get("get_f64", &[0.5, -0.0], |f| Ev::F64(f.to_bits()))
    }
    fn get_char(&mut self) -> R<char> {
        self.get("get_char", &['c', '\u{10ffff}'], Ev::Char)
    }
    fn next_char(&mut self) -> R<Option<char>> {
        self.stack.need("next_char", |f| *f == Frame::Str);
        self.stack.call("next_char")?;
        if self.chars == 0 {
            self.stack.pop();
            self.tape.push(Ev::Str(self.text.clone()));
            return Ok(None);
        }
        self.chars -= 1;
        let c = if self.choose(2) == 0 { 'x' } else { '\u{e9}' };
        self.text.push(c);
        Ok(Some(c))
    }
    fn get_tag(&mut self, max: usize, names: &'static NameMap<usize>) -> R<usize> {
        self.stack.value("get_tag")?;
        // The indices with a name, one without, and the neighbours of those
        let mut all: Vec<usize> = names.entries().map(|(_, i)| *i).flat_map(|i| [i, i + 1]).filter(|i| *i <= max).collect();
        for (n, i) in names.entries() {
            if *i > max {
                self.stack.illegal(&format!("get_tag up to {} with {:?} at {}", max, n, i));
            }
        }
        all.sort();
        all.dedup();
        let index = all[self.choose(all.len())];
        let name = names.entries().find(|e| *e.1 == index).map(|e| e.0);
        self.stack.pop();
        self.tape.push(Ev::Tag { max, index, name });
        Ok(index)
    }
    fn check_null(&mut self) -> R<bool> {
        self.stack.null("check_null")?;
        let null = self.choose(2) == 0;
        if null {
            self.stack.pop();
            self.tape.push(Ev::Null);
        }
        Ok(null)
    }
    fn open_list(&mut self) -> R<Option<usize>> {
        self.stack.value("open_list")?;
        let len = [Some(0), None, Some(1), Some(2)][self.choose(4)];
        self.stack.replace(Frame::List(len));
        self.tape.push(Ev::List(len.unwrap_or(usize::MAX)));
        Ok(len)
    }
    fn next_item(&mut self) -> R<bool> {
        self.stack.need("next_item", |f| matches!(f, Frame::List(_)));
        self.stack.call("next_item")?;
        let more = self.has_item();
        if more {
            self.item();
        } else {
            self.stack.pop();
            self.tape.push(Ev::Close);
        }
        Ok(more)
    }
    fn error(&self, source: Box<dyn std::error::Error + Send + Sync>) -> TapeError {
        TapeError::Custom(source.to_string())
    }
    fn error_missing_item(&self) -> TapeError {
        TapeError::MissingItem
    }
    fn error_extra_item(&self) -> TapeError {
        TapeError::ExtraItem
    }
}
