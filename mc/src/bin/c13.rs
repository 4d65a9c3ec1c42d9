//! C13: output failures surface and never corrupt what was written.

#[path = "../../shared/types_list.rs"]
#[macro_use]
mod types_list;
#[path = "../../shared/types.rs"]
mod types;

use mc::*;
use serdere::*;
use serdere_json::*;
use std::io;
use types::*;

const INDENTS: [Option<&str>; 4] = [None, Some(""), Some("  "), Some("é\t")];

// ---------------------------------------------------------------------------------------------
// Destinations

/// The failure of a destination, told apart from any other by its number.
#[derive(Debug, PartialEq, Clone)]
struct Boom(u64);

impl std::fmt::Display for Boom {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "failure {}", self.0)
    }
}

impl std::error::Error for Boom {}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    /// Accepts strings whole.
    Whole,
    /// Accepts only characters (strings by the default method).
    Chars,
}

/// A text destination which fails once, at a given call, and counts what is asked of it.
struct Faulty {
    text: String,
    calls: u64,
    fail_at: u64,
    after: u64,
}

impl Faulty {
    fn new(fail_at: u64) -> Self {
        Faulty { text: String::new(), calls: 0, fail_at, after: 0 }
    }

    fn call(&mut self) -> Result<(), Boom> {
        let n = self.calls;
        self.calls += 1;
        if n > self.fail_at {
            self.after += 1;
        }
        if n == self.fail_at {
            return Err(Boom(n));
        }
        Ok(())
    }
}

struct Whole<'a>(&'a mut Faulty);
struct Chars<'a>(&'a mut Faulty);

impl TextWriter for Whole<'_> {
    type Error = Boom;
    fn write_char(&mut self, c: char) -> Result<(), Boom> {
        self.0.call()?;
        self.0.text.push(c);
        Ok(())
    }
    fn write_str(&mut self, s: &str) -> Result<(), Boom> {
        self.0.call()?;
        self.0.text.push_str(s);
        Ok(())
    }
}

impl TextWriter for Chars<'_> {
    type Error = Boom;
    fn write_char(&mut self, c: char) -> Result<(), Boom> {
        self.0.call()?;
        self.0.text.push(c);
        Ok(())
    }
}

type Dyn<'a> = &'a mut dyn TextWriter<Error = Boom>;

fn with_kind<R>(kind: Kind, f: &mut Faulty, run: impl FnOnce(Dyn) -> R) -> R {
    match kind {
        Kind::Whole => run(&mut Whole(f)),
        Kind::Chars => run(&mut Chars(f)),
    }
}

/// A byte destination whose answers are chosen.
struct Out<'c> {
    ch: &'c mut Ch,
    bytes: Vec<u8>,
    /// How many more answers may be out of the ordinary.
    budget: usize,
    /// Accepts at most this many bytes at a time.
    max: usize,
    failed: Option<io::ErrorKind>,
    after: usize,
    log: Vec<String>,
}

/// The number of a failure, carried by the error.
#[derive(Debug)]
struct Mark(usize);

impl std::fmt::Display for Mark {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "mark {}", self.0)
    }
}

impl std::error::Error for Mark {}

const MARK: usize = 0xC13;

impl io::Write for Out<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.failed.is_some() {
            self.after += 1;
            self.bytes.extend_from_slice(buf);
            return Ok(buf.len());
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let n = buf.len().min(self.max);
        let ans = if self.budget > 0 { self.ch.choose(9) } else { 0 };
        if ans > 0 {
            self.budget -= 1;
        }
        let kinds = [io::ErrorKind::Other, io::ErrorKind::WouldBlock, io::ErrorKind::BrokenPipe, io::ErrorKind::WriteZero];
        match ans {
            0 => {
                self.bytes.extend_from_slice(&buf[..n]);
                Ok(n)
            }
            1 => {
                self.log.push("took 1".into());
                self.bytes.push(buf[0]);
                Ok(1)
            }
            2 => {
                let k = (n - 1).max(1);
                self.log.push(format!("took {}", k));
                self.bytes.extend_from_slice(&buf[..k]);
                Ok(k)
            }
            3 => {
                self.log.push("interrupted".into());
                Err(io::ErrorKind::Interrupted.into())
            }
            4 => {
                self.log.push("took nothing".into());
                self.failed = Some(io::ErrorKind::WriteZero);
                Ok(0)
            }
            i => {
                let kind = kinds[i - 5];
                self.log.push(format!("failed with {:?}", kind));
                self.failed = Some(kind);
                Err(io::Error::new(kind, Mark(MARK)))
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

type DynIo<'a> = Utf8Writer<&'a mut dyn io::Write>;

/// Judges the end of a run against the text of the fault-free run.
fn judge_io(what: &dyn Fn() -> String, out: &Out, res: Result<(), io::Error>, text: &str) -> Outcome {
    let show = || format!("{} (answers {:?})", what(), out.log);
    match out.failed {
        None => {
            if let Err(e) = res {
                return fail(format!("{}: error {:?} without a failure", show(), e));
            }
            check!(out.bytes == text.as_bytes(), "{}: wrote {:?}, expected {:?}", show(), String::from_utf8_lossy(&out.bytes), text);
        }
        Some(kind) => {
            check!(out.after == 0, "{}: {} writes after the failure, in all {:?}", show(), out.after, String::from_utf8_lossy(&out.bytes));
            check!(text.as_bytes().starts_with(&out.bytes), "{}: wrote {:?}, not the beginning of {:?}", show(), String::from_utf8_lossy(&out.bytes), text);
            match res {
                Ok(()) => return fail(format!("{}: the failure was not reported", show())),
                Err(e) => {
                    let took_nothing = out.log.last().map(|s| s == "took nothing").unwrap_or(false);
                    let marked = e.get_ref().and_then(|e| e.downcast_ref::<Mark>()).map(|m| m.0) == Some(MARK);
                    check!(e.kind() == kind && (marked || took_nothing), "{}: reported {:?} instead", show(), e);
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Values

/// Fails at every call of the destination in turn.
fn every_failure<T>(ch: &mut Ch, value: &T) -> Outcome
where
    T: Val + for<'a> Serialize<TextSerializer<&'a mut String>> + for<'a> Serialize<TextSerializer<Dyn<'a>>>,
{
    let name = std::any::type_name::<T>();
    ch.note(|| format!("{}: {:?}", name, value));
    let mut text = String::new();
    ch.state(&(name, to_str(value)));
    for indent in INDENTS {
        text.clear();
        let mut s = TextSerializer::new(TextSerializerConfig { indent }, &mut text);
        no_panic(|| format!("{:?}", value), || Value::with(&mut s, |v| v.put(value)).unwrap())?;
        s.close();
        for kind in [Kind::Whole, Kind::Chars] {
            let mut k = 0;
            loop {
                let mut f = Faulty::new(k);
                let what = || format!("{:?} with indent {:?} to {:?}, failure at call {}", value, indent, kind, k);
                // The default layout by the convenience function, too
                let short = indent.is_none() && k % 2 == 1;
                let res = no_panic(what, || {
                    with_kind(kind, &mut f, |w| {
                        if short {
                            to_writer(w, value)
                        } else {
                            let mut s = TextSerializer::new(TextSerializerConfig { indent }, w);
                            Value::with(&mut s, |v| v.put(value))?;
                            s.close();
                            Ok(())
                        }
                    })
                })?;
                ch.step();
                if f.calls <= k {
                    check!(res == Ok(()), "{}: error {:?} without a failure", what(), res);
                    check!(f.text == text, "{}: wrote {:?}, expected {:?}", what(), f.text, text);
                    break;
                }
                check!(f.after == 0, "{}: {} calls after the failure, wrote {:?}", what(), f.after, f.text);
                check!(res == Err(Boom(k)), "{}: returned {:?}", what(), res);
                check!(text.starts_with(&f.text), "{}: wrote {:?}, not the beginning of {:?}", what(), f.text, text);
                k += 1;
            }
            ch.outcome(&(kind as u8, k));
        }
    }
    Ok(())
}

/// Writes to a byte destination with chosen answers.
fn to_bytes<T>(ch: &mut Ch, value: &T, budget: usize, max: usize, indent: Option<&'static str>) -> Outcome
where
    T: Val + for<'a> Serialize<TextSerializer<&'a mut String>> + for<'a> Serialize<TextSerializer<DynIo<'a>>>,
{
    let mut text = String::new();
    let mut s = TextSerializer::new(TextSerializerConfig { indent }, &mut text);
    no_panic(|| format!("{:?}", value), || Value::with(&mut s, |v| v.put(value)).unwrap())?;
    ch.note(|| format!("{:?} with indent {:?}, at most {} bytes at a time", value, indent, max));
    let mut out = Out { ch, bytes: Vec::new(), budget, max, failed: None, after: 0, log: Vec::new() };
    let what = || format!("{:?} with indent {:?}, at most {} bytes at a time", value, indent, max);
    let res = {
        let out: &mut dyn io::Write = &mut out;
        no_panic(what, || {
            let mut s = TextSerializer::new(TextSerializerConfig { indent }, Utf8Writer::new(out));
            Value::with(&mut s, |v| v.put(value))?;
            s.close();
            Ok(())
        })?
    };
    let r = judge_io(&what, &out, res, &text);
    let log = (std::mem::take(&mut out.log), out.failed.is_some());
    ch.step();
    ch.state(&(&text, &log));
    ch.outcome(&log);
    r
}

struct Entry {
    failures: fn(&mut Ch, isize) -> Outcome,
    bytes: fn(&mut Ch, isize, usize, usize, Option<&'static str>) -> Outcome,
}

fn table() -> Vec<Entry> {
    fn failures<T>(ch: &mut Ch, lvl: isize) -> Outcome
    where
        T: Val + for<'a> Serialize<TextSerializer<&'a mut String>> + for<'a> Serialize<TextSerializer<Dyn<'a>>>,
    {
        let value = T::gen(ch, lvl);
        every_failure(ch, &value)
    }
    fn bytes<T>(ch: &mut Ch, lvl: isize, budget: usize, max: usize, indent: Option<&'static str>) -> Outcome
    where
        T: Val + for<'a> Serialize<TextSerializer<&'a mut String>> + for<'a> Serialize<TextSerializer<DynIo<'a>>>,
    {
        let value = T::gen(ch, lvl);
        to_bytes(ch, &value, budget, max, indent)
    }
    macro_rules! entry {
        ($t:ty) => {
            Entry { failures: failures::<$t>, bytes: bytes::<$t> }
        };
    }
    for_types!(entry)
}

// ---------------------------------------------------------------------------------------------
// Sequences of calls

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Op {
    Bool,
    Int,
    Float,
    Char,
    Str,
    Tag,
    Index,
    Null,
    OpenStr,
    AppendChar,
    AppendStr,
    AppendControl,
    CloseStr,
    Sized(usize),
    Streaming,
    Item,
    CloseList,
    Tuple,
    Element,
    CloseTuple,
    Struct,
    Field,
    CloseStruct,
    Object,
    Entry,
    AddEntry,
    CloseObject,
}

#[derive(Clone, Copy, PartialEq)]
enum Top {
    Value,
    Str,
    List(Option<usize>),
    Tuple,
    Struct,
    Object,
}

/// Chooses a correct sequence of calls; after `depth` of them the shortest completion follows.
fn sequence(ch: &mut Ch, depth: usize) -> Vec<Op> {
    let mut stack = vec![Top::Value];
    let mut ops = Vec::new();
    while let Some(top) = stack.pop() {
        let end = ops.len() >= depth;
        let pick = |ch: &mut Ch, all: &[Op]| if end { all[0] } else { *ch.pick(all) };
        let op = match top {
            Top::Value => pick(
                ch,
                &[
                    Op::Int, Op::Str, Op::Char, Op::Null, Op::OpenStr, Op::Sized(0), Op::Sized(1), Op::Sized(2), Op::Streaming, Op::Tuple, Op::Struct, Op::Object, Op::Bool, Op::Float, Op::Tag, Op::Index,
                ],
            ),
            Top::Str => pick(ch, &[Op::CloseStr, Op::AppendChar, Op::AppendStr, Op::AppendControl]),
            Top::List(None) => pick(ch, &[Op::CloseList, Op::Item]),
            Top::List(Some(0)) => Op::CloseList,
            Top::List(Some(_)) => Op::Item,
            Top::Tuple => pick(ch, &[Op::CloseTuple, Op::Element]),
            Top::Struct => pick(ch, &[Op::CloseStruct, Op::Field]),
            Top::Object => pick(ch, &[Op::CloseObject, Op::Entry, Op::AddEntry]),
        };
        match op {
            Op::OpenStr => stack.push(Top::Str),
            Op::AppendChar | Op::AppendStr | Op::AppendControl => stack.push(Top::Str),
            Op::Sized(n) => stack.push(Top::List(Some(n))),
            Op::Streaming => stack.push(Top::List(None)),
            Op::Item => {
                stack.push(match top {
                    Top::List(Some(n)) => Top::List(Some(n - 1)),
                    t => t,
                });
                stack.push(Top::Value);
            }
            Op::Tuple => stack.push(Top::Tuple),
            Op::Struct => stack.push(Top::Struct),
            Op::Object => stack.push(Top::Object),
            Op::Element | Op::Field | Op::Entry => {
                stack.push(top);
                stack.push(Top::Value);
            }
            Op::AddEntry => {
                stack.push(top);
                stack.push(Top::Value);
                stack.push(Top::Str);
            }
            _ => (),
        }
        ops.push(op);
    }
    ops
}

fn perform<S: JsonSerializer>(s: &mut S, op: Op) -> Result<(), S::Error> {
    match op {
        Op::Bool => s.put_bool(false),
        Op::Int => s.put_i16(-120),
        Op::Float => s.put_f64(-1.5e-7),
        Op::Char => s.put_char('\u{1}'),
        Op::Str => s.put_str("é\"x"),
        Op::Tag => s.put_tag(3, 1, Some("tag")),
        Op::Index => s.put_tag(30, 21, None),
        Op::Null => s.pop_null(),
        Op::OpenStr => s.open_str(),
        Op::AppendChar => s.append_char('😀'),
        Op::AppendStr => s.append_str("a\nb"),
        Op::AppendControl => s.append_char('\u{1f}'),
        Op::CloseStr => s.close_str(),
        Op::Sized(n) => s.open_list_sized(n),
        Op::Streaming => s.open_list_streaming(),
        Op::Item => s.push_item(),
        Op::CloseList => s.close_list(),
        Op::Tuple => s.open_tuple(None),
        Op::Element => s.push_element(),
        Op::CloseTuple => s.close_tuple(),
        Op::Struct => s.open_struct(Some("S")),
        Op::Field => s.push_field("field"),
        Op::CloseStruct => s.close_struct(),
        Op::Object => s.open_object(),
        Op::Entry => s.push_entry("k\"é"),
        Op::AddEntry => s.add_entry(),
        Op::CloseObject => s.close_object(),
    }
}

/// Every call of the destination in turn fails; the serializer call in progress must return it.
fn judge_sequence(ch: &mut Ch, ops: &[Op]) -> Outcome {
    ch.note(|| format!("calls {:?}", ops));
    ch.state(ops);
    for indent in [None, Some("\t")] {
        // How many destination calls there have been after each serializer call
        for kind in [Kind::Whole, Kind::Chars] {
            let what = || format!("{:?} with indent {:?} to {:?}", ops, indent, kind);
            let cell = std::cell::RefCell::new(Faulty::new(u64::MAX));
            let mut bounds = Vec::new();
            no_panic(what, || {
                let mut s = TextSerializer::new(TextSerializerConfig { indent }, Shared(&cell, kind));
                for op in ops {
                    perform(&mut s, *op).expect("no failure");
                    bounds.push(cell.borrow().calls);
                }
                s.close();
            })?;
            let text = cell.borrow().text.clone();
            let n = cell.borrow().calls;
            for k in 0..n {
                let cell = std::cell::RefCell::new(Faulty::new(k));
                let want = bounds.iter().position(|b| *b > k).unwrap();
                let res = no_panic(what, || {
                    let mut s = TextSerializer::new(TextSerializerConfig { indent }, Shared(&cell, kind));
                    for (i, op) in ops.iter().enumerate() {
                        if let Err(e) = perform(&mut s, *op) {
                            return Some((i, e));
                        }
                        if i > want {
                            return None;
                        }
                    }
                    None
                })?;
                ch.step();
                let f = cell.borrow();
                let what = || format!("{}, failure at write {} during call {}", what(), k, want);
                check!(res == Some((want, Boom(k))), "{}: returned {:?}", what(), res);
                check!(f.after == 0, "{}: {} writes after the failure", what(), f.after);
                check!(text.starts_with(&f.text), "{}: wrote {:?}, not the beginning of {:?}", what(), f.text, text);
            }
            ch.outcome(&(kind as u8, n));
        }
    }
    Ok(())
}

/// A destination that can be looked at while in use.
struct Shared<'a>(&'a std::cell::RefCell<Faulty>, Kind);

impl TextWriter for Shared<'_> {
    type Error = Boom;
    fn write_char(&mut self, c: char) -> Result<(), Boom> {
        Whole(&mut self.0.borrow_mut()).write_char(c)
    }
    fn write_str(&mut self, s: &str) -> Result<(), Boom> {
        match self.1 {
            Kind::Whole => Whole(&mut self.0.borrow_mut()).write_str(s),
            Kind::Chars => Chars(&mut self.0.borrow_mut()).write_str(s),
        }
    }
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = Vec::new();
    v.push(family(
        "values, every failure",
        "values of 237 types x 4 indents x 2 kinds of text destination, a failure at every single write",
        move |ch| {
            let table = table();
            let e = &table[ch.choose(table.len())];
            (e.failures)(ch, t.pick(1, 0))
        },
    ));
    v.push(family(
        "values to bytes",
        format!("values of 237 types x a byte destination that takes whole buffers, with up to {} other answers anywhere (part of the buffer, an interruption, taking nothing, 4 failures)", t.pick(1, 2)),
        move |ch| {
            let table = table();
            let e = &table[ch.choose(table.len())];
            let indent = if ch.flip() { Some(" \u{2003}") } else { None };
            (e.bytes)(ch, t.pick(2, 1), t.pick(1, 2), usize::MAX, indent)
        },
    ));
    v.push(family(
        "bytes, chosen answers",
        format!("12 values x destinations that take at most 1, 2, 3 or all bytes at a time, with up to {} other answers anywhere", t.pick(2, 3)),
        move |ch| {
            let max = *ch.pick(&[1, 2, 3, usize::MAX]);
            let indent = *ch.pick(&[None, Some("é")]);
            let b = t.pick(2, 3);
            match ch.choose(12) {
                0 => to_bytes(ch, &1234u16, b, max, indent),
                1 => to_bytes(ch, &'\u{10FFFF}', b, max, indent),
                2 => to_bytes(ch, &"é\n\u{1}".to_string(), b, max, indent),
                3 => to_bytes(ch, &vec![true, false], b, max, indent),
                4 => to_bytes(ch, &Some("😀".to_string()), b, max, indent),
                5 => to_bytes(ch, &None::<u8>, b, max, indent),
                6 => to_bytes(ch, &Some(None::<bool>), b, max, indent),
                7 => to_bytes(ch, &(1u8, 'é', -1.5f32), b, max, indent),
                8 => to_bytes(ch, &Vec::<u8>::new(), b, max, indent),
                9 => to_bytes(ch, &[[1u8, 2], [3, 4]], b, max, indent),
                10 => to_bytes(ch, &(), b, max, indent),
                _ => to_bytes(ch, &-1e-7f64, b, max, indent),
            }
        },
    ));
    let depth = t.pick(5, 6);
    v.push(family(
        "calls",
        format!("every correct sequence of serializer calls of up to {} calls (and its shortest completion) x 2 indents x 2 kinds of text destination, a failure at every single write: the call in progress returns it", depth),
        move |ch| {
            let ops = sequence(ch, depth);
            judge_sequence(ch, &ops)
        },
    ));
    v.push(family(
        "characters to bytes",
        "every scalar value as a character of a string, to a byte destination that takes all or one byte at a time: the UTF-8 encoding of the text",
        |ch| {
            let scalars: usize = 0x110000 - 0x800;
            let hi = ch.choose(scalars.div_ceil(64));
            let i = hi * 64 + ch.choose(64.min(scalars - hi * 64));
            let c = char::from_u32(if i < 0xD800 { i as u32 } else { i as u32 + 0x800 }).unwrap();
            to_bytes(ch, &c, 0, usize::MAX, None)?;
            to_bytes(ch, &c, 0, 1, None)?;
            // By strings, as a whole
            let s = format!("a{}b", c);
            let mut out = Vec::new();
            let mut w = Utf8Writer::new(&mut out);
            w.write_str(&s).unwrap();
            w.write_char(c).unwrap();
            check!(out == format!("{}{}", s, c).as_bytes(), "{:?} then {:?} written as {:?}", s, c, out);
            Ok(())
        },
    ));
    v.push(family(
        "long output",
        "strings of 0..=70, 4096 and 70000 characters of 3 kinds and lists of as many items, to byte destinations that take at most 1, 7, 4096 or all bytes at a time, with one other answer at each of the writes (the first 200)",
        |ch| {
            let i = ch.choose(73);
            let n = [4096, 70000].get(i.wrapping_sub(71)).copied().unwrap_or(i.min(70));
            let max = *ch.pick(&[1, 7, 4096, usize::MAX]);
            let budget = if n <= 70 { 1 } else { 0 };
            match ch.choose(4) {
                0 => to_bytes(ch, &"x".repeat(n), budget, max, None),
                1 => to_bytes(ch, &"é\n".repeat(n), budget, max, None),
                2 => to_bytes(ch, &"😀".repeat(n), budget, max, None),
                _ => to_bytes(ch, &vec![12345u32; n.min(5000)], budget, max, Some("  ")),
            }
        },
    ));
    v
}

fn main() {
    mc::main(Check {
        id: "C13",
        families,
        assumptions: &[
            "A destination that takes no bytes of a non-empty buffer is a failure (of kind WriteZero, as the standard library has it).",
            "How the output is divided into writes is not prescribed.",
        ],
    })
}
