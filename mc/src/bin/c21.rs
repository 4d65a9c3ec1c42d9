//! C21: values are delivered as soon as their text has been read.
//!
//! The sources count how far they have been looked at; the model says, after every operation, which
//! part of the text it has to know, and one character beyond is allowed.

use mc::gen::*;
use mc::model::*;
use mc::walk::*;
use mc::*;
use serdere::*;
use serdere_json::*;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

type Log = Vec<Cow<'static, str>>;

/// A character source that records how many characters have been looked at.
struct Watch<'a> {
    doc: &'a [char],
    i: usize,
    seen: Rc<Cell<usize>>,
}

impl Watch<'_> {
    fn look(&self, n: usize) {
        self.seen.set(self.seen.get().max(n));
    }
}

impl TextReader for Watch<'_> {
    type Position = usize;
    fn next(&mut self) -> Option<char> {
        self.look(self.i + 1);
        let c = self.doc.get(self.i).copied()?;
        self.i += 1;
        Some(c)
    }
    fn peek(&self) -> Option<char> {
        self.look(self.i + 1);
        self.doc.get(self.i).copied()
    }
    fn position(&self) -> usize {
        self.i
    }
}

/// A byte source that records how many characters have been taken from it, at least in part. Asking
/// at the end counts as one more.
struct Taps<'a> {
    bytes: &'a [u8],
    i: usize,
    seen: Rc<Cell<usize>>,
}

impl std::io::Read for Taps<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let left = &self.bytes[self.i..];
        let n = left.len().min(buf.len());
        buf[..n].copy_from_slice(&left[..n]);
        self.i += n;
        let starts = left[..n].iter().filter(|b| **b & 0xC0 != 0x80).count();
        self.seen.set(self.seen.get() + starts + (n == 0 && !buf.is_empty()) as usize);
        Ok(n)
    }
}

/// How far the source has been looked at, and how far it may be.
struct Meter {
    seen: Rc<Cell<usize>>,
    need: usize,
}

impl Meter {
    fn new(seen: &Rc<Cell<usize>>) -> Self {
        Meter { seen: seen.clone(), need: 0 }
    }

    /// The characters before `n` have to be known by now.
    fn upto(&mut self, n: usize, log: &dyn Fn() -> String) -> Outcome {
        self.need = self.need.max(n);
        let seen = self.seen.get();
        check!(
            seen <= self.need + 1,
            "{}: {} characters have been looked at, where the first {} and one more suffice",
            log(),
            seen,
            self.need
        );
        Ok(())
    }
}

struct Frame<'a> {
    val: &'a Val,
    unread: Vec<usize>,
    next: usize,
}

fn items(v: &Val) -> &[Val] {
    match &v.node {
        Node::Arr(a) => a,
        _ => unreachable!(),
    }
}

fn entries(v: &Val) -> &[(Key, Val)] {
    match &v.node {
        Node::Obj(o) => o,
        _ => unreachable!(),
    }
}

/// What is enumerated.
#[derive(Clone, Copy)]
struct Ops {
    /// Containers may be opened below fewer than this many opened ones.
    deep: usize,
    /// All ways of reading scalars and keys, pushing and closing.
    full: bool,
}

/// Everything the calls of a deserializer can be used for, on the value at the top of the stack.
fn run<D: JsonDeserializer>(ch: &mut Ch, d: &mut D, root: &Val, ops: Ops, m: &mut Meter, log: &mut Log) -> Outcome
where
    D::Error: std::fmt::Debug,
{
    macro_rules! call {
        ($log:expr, $e:expr) => {{
            let s: Cow<'static, str> = $log;
            ch.note(|| s.to_string());
            log.push(s);
            ch.step();
            match no_panic(|| log.join(" "), || $e)? {
                Ok(r) => r,
                Err(e) => return fail(format!("{}: error: {:?}", log.join(" "), e)),
            }
        }};
    }
    macro_rules! upto {
        ($n:expr) => {
            m.upto($n, &|| log.join(" "))?
        };
    }
    let id = root as *const Val as usize;
    let mut frames: Vec<Frame> = Vec::new();
    let mut cur: Option<&Val> = Some(root);
    let mut absent = 1;
    upto!(root.start);
    loop {
        ch.state(&(id, frames.iter().map(|f| (f.val.start, f.unread.clone(), f.next)).collect::<Vec<_>>(), cur.map(|v| v.start), absent));
        if let Some(v) = cur.take() {
            let ty = d.peek_value_type();
            check!(ty_name(ty) == v.node.type_name(), "{}: value type {:?}", log.join(" "), ty);
            upto!(v.start);
            match &v.node {
                Node::Arr(_) | Node::Obj(_) => {
                    let n = if frames.len() < ops.deep { 3 } else { 2 };
                    match ch.choose(n) {
                        0 => {
                            call!("read-value".into(), walk(Mode::Direct, d));
                            upto!(v.end);
                        }
                        1 => {
                            call!("skip-value".into(), d.skip_value());
                            upto!(v.end);
                        }
                        _ => {
                            let unread = if let Node::Arr(_) = v.node {
                                call!("open-list".into(), d.open_list());
                                vec![]
                            } else {
                                call!("open-object".into(), d.open_object());
                                (0..entries(v).len()).collect()
                            };
                            upto!(v.start + 1);
                            frames.push(Frame { val: v, unread, next: 0 });
                        }
                    }
                }
                Node::Str(s) => match ch.choose(if ops.full { 6 } else { 2 }) {
                    0 => {
                        let t = call!("read-str".into(), d.read_str().map(|s| s.into_owned()));
                        check!(t == *s, "{}: {:?}", log.join(" "), t);
                        upto!(v.end);
                    }
                    1 => {
                        call!("skip-value".into(), d.skip_value());
                        upto!(v.end);
                    }
                    2 => {
                        call!("open-str".into(), d.open_str());
                        upto!(v.start + 1);
                        // Ending with all characters read, or with the rest skipped or read
                        let raw = v.end - v.start - 2 == s.chars().count();
                        let n = s.chars().count();
                        let stop = ch.choose(n.min(3) + 2);
                        for i in 0.. {
                            if i == stop && stop <= n {
                                if ch.flip() {
                                    call!("skip-str".into(), d.skip_str());
                                } else {
                                    call!("flush-str".into(), d.flush_str().map(|_| ()));
                                }
                                upto!(v.end);
                                break;
                            }
                            let c = call!("next-char".into(), d.next_char());
                            check!(c == s.chars().nth(i), "{}: {:?}", log.join(" "), c);
                            if c.is_none() {
                                upto!(v.end);
                                break;
                            }
                            if raw {
                                upto!(v.start + 1 + i + 1);
                            }
                        }
                    }
                    3 => {
                        call!("open-str".into(), d.open_str());
                        upto!(v.start + 1);
                        let r = no_panic(|| log.join(" "), || d.close_str())?;
                        check!(r.is_ok() == s.is_empty(), "{}: close-str {:?}", log.join(" "), r.is_ok());
                        upto!(v.end);
                        if r.is_err() {
                            return Ok(());
                        }
                    }
                    4 => {
                        let r = no_panic(|| log.join(" "), || d.get_char())?;
                        check!(r.is_ok() == (s.chars().count() == 1), "{}: get-char {:?}", log.join(" "), r.is_ok());
                        upto!(v.end);
                        if r.is_err() {
                            return Ok(());
                        }
                    }
                    _ => {
                        let r = no_panic(|| log.join(" "), || d.get_tag(1, TAGS))?;
                        check!(r.is_ok() == (s == "on" || s == "off"), "{}: get-tag {:?}", log.join(" "), r.is_ok());
                        upto!(v.end);
                        if r.is_err() {
                            return Ok(());
                        }
                    }
                },
                Node::Num(s) => {
                    match ch.choose(if ops.full { 4 } else { 2 }) {
                        0 => {
                            call!("get-f64".into(), d.get_f64());
                        }
                        1 => {
                            call!("skip-value".into(), d.skip_value());
                        }
                        2 => {
                            let n = call!("check-null".into(), d.check_null());
                            check!(!n, "{}: a null", log.join(" "));
                            upto!(v.start);
                            call!("get-f32".into(), d.get_f32());
                        }
                        _ if s.bytes().all(|b| b.is_ascii_digit()) && s.len() < 4 => {
                            call!("get-u64".into(), d.get_u64());
                        }
                        _ => {
                            call!("get-f64".into(), d.get_f64());
                        }
                    }
                    upto!(v.end);
                }
                Node::Bool(_) => {
                    if ops.full && ch.flip() {
                        call!("skip-value".into(), d.skip_value());
                    } else {
                        call!("get-bool".into(), d.get_bool());
                    }
                    upto!(v.end);
                }
                Node::Null => {
                    match ch.choose(if ops.full { 3 } else { 1 }) {
                        0 => call!("pop-null".into(), d.pop_null()),
                        1 => check!(call!("check-null".into(), d.check_null()), "{}: no null", log.join(" ")),
                        _ => call!("skip-value".into(), d.skip_value()),
                    }
                    upto!(v.end);
                }
            }
            continue;
        }
        let Some(f) = frames.last_mut() else { return Ok(()) };
        match &f.val.node {
            Node::Arr(list) => {
                if f.next < list.len() {
                    if ops.full && ch.flip() {
                        call!("push-item".into(), d.push_item());
                    } else {
                        let more = call!("next-item".into(), d.next_item());
                        check!(more, "{}: no item", log.join(" "));
                    }
                    upto!(list[f.next].start);
                    cur = Some(&list[f.next]);
                    f.next += 1;
                } else {
                    if ops.full && ch.flip() {
                        call!("close-list".into(), d.close_list());
                    } else {
                        let more = call!("next-item".into(), d.next_item());
                        check!(!more, "{}: an item too many", log.join(" "));
                    }
                    upto!(f.val.end);
                    frames.pop();
                }
            }
            Node::Obj(all) => {
                // 0: next-entry; 1: skip-object; 2: absent look-up; 3..: look-up of the n-th entry
                let n = if absent > 0 { 3 + f.unread.len() } else { 2 + f.unread.len() };
                match ch.choose(n) {
                    0 => {
                        if ops.full && f.unread.is_empty() && ch.flip() {
                            call!("close-object".into(), d.close_object());
                            upto!(f.val.end);
                            frames.pop();
                            continue;
                        }
                        let more = call!("next-entry".into(), d.next_entry());
                        check!(more != f.unread.is_empty(), "{}: next-entry {}", log.join(" "), more);
                        if !more {
                            upto!(f.val.end);
                            frames.pop();
                            continue;
                        }
                        let i = f.unread.remove(0);
                        let (k, v) = &all[i];
                        upto!(k.start + 1);
                        if !ops.full || ch.flip() {
                            let t = call!("flush-key".into(), d.flush_str().map(|s| s.into_owned()));
                            check!(t == k.text, "{}: key {:?}", log.join(" "), t);
                        } else {
                            let raw = k.end - k.start - 2 == k.text.chars().count();
                            for (j, want) in k.text.chars().map(Some).chain([None]).enumerate() {
                                let c = call!("char".into(), d.next_char());
                                check!(c == want, "{}: {:?}", log.join(" "), c);
                                if want.is_some() && raw {
                                    upto!(k.start + 1 + j + 1);
                                }
                            }
                        }
                        upto!(v.start);
                        cur = Some(v);
                    }
                    1 => {
                        call!("skip-object".into(), d.skip_object());
                        upto!(f.val.end);
                        frames.pop();
                    }
                    c if absent > 0 && c == 2 => {
                        absent -= 1;
                        let found = call!("look-up absent".into(), d.try_push_entry(MISSING));
                        check!(!found, "{}: found", log.join(" "));
                        upto!(f.val.end);
                        if ops.full && ch.flip() {
                            d.push_null(None);
                            call!("pop-virtual-null".into(), d.pop_null());
                            upto!(f.val.end);
                        }
                    }
                    c => {
                        let i = f.unread.remove(c - if absent > 0 { 3 } else { 2 });
                        let (k, v) = &all[i];
                        let found = call!(format!("look-up {:?}", k.text).into(), d.try_push_entry(&k.text));
                        check!(found, "{}: not found", log.join(" "));
                        upto!(v.start);
                        cur = Some(v);
                    }
                }
            }
            _ => unreachable!(),
        }
    }
}

fn ty_name(t: ValueType) -> &'static str {
    match t {
        ValueType::Null => "null",
        ValueType::Bool => "bool",
        ValueType::Number => "number",
        ValueType::String => "string",
        ValueType::Array => "array",
        ValueType::Object => "object",
    }
}

const TAGS: &NameMap<usize> = FixedNameMap::new([("on", 0), ("off", 1)]).unfix();

/// Runs `f` on both sources.
fn sources(ch: &mut Ch, doc: &str, comments: bool, f: impl Fn(&mut Ch, &mut Source, &mut Meter, &mut Log) -> Outcome) -> Outcome {
    let cs = chars(doc);
    let seen = Rc::new(Cell::new(0));
    let mut m = Meter::new(&seen);
    let bytes = ch.flip();
    ch.note(|| format!("document {:?} from {}", clip(doc), if bytes { "bytes" } else { "characters" }));
    let mut log: Log = vec![format!("{:?} from {}:", clip(doc), if bytes { "bytes" } else { "characters" }).into()];
    let mut src = Source { doc: &cs, text: doc, bytes, comments, seen };
    f(ch, &mut src, &mut m, &mut log)
}

struct Source<'a> {
    doc: &'a [char],
    text: &'a str,
    bytes: bool,
    comments: bool,
    seen: Rc<Cell<usize>>,
}

macro_rules! with_source {
    ($src:expr, |$d:ident| $e:expr) => {{
        let seen = $src.seen.clone();
        if $src.bytes {
            let r = Utf8Reader::new(Taps { bytes: $src.text.as_bytes(), i: 0, seen }).map_err(|e| Fail { key: None, msg: e.to_string() })?;
            match TextDeserializer::new(config($src.comments), r) {
                Ok(mut $d) => $e,
                Err(e) => return fail(format!("{:?}: {:?}", clip($src.text), e)),
            }
        } else {
            match TextDeserializer::new(config($src.comments), Watch { doc: $src.doc, i: 0, seen }) {
                Ok(mut $d) => $e,
                Err(e) => return fail(format!("{:?}: {:?}", clip($src.text), e)),
            }
        }
    }};
}

fn drive(ch: &mut Ch, doc: &str, comments: bool, ops: Ops) -> Outcome {
    let val = parse(&chars(doc), comments).unwrap_or_else(|e| panic!("harness document {:?}: {:?}", doc, e));
    sources(ch, doc, comments, |ch, src, m, log| with_source!(src, |d| run(ch, &mut d, &val, ops, m, log)))
}

// Documents

const NAMES: &[&str] = &["a", "b", "ab", "", "c", "\u{e9}", "d"];
const LEAVES: &[&str] = &["12", "\"st\"", "null", "-1.5e1", "true", "\"\"", "\"on\"", "\"\\u0041\\n\"", "[]", "{}", "\"\u{e9}\u{1F600}\"", "0"];

/// What is put around every token.
const GAPS: &[(&str, bool)] = &[("", false), (" ", false), (" \n\t ", false), ("/* c */ ", true), ("//c\n//d\n", true)];

fn value(ch: &mut Ch, budget: &mut usize, depth: usize, leaf: &mut usize) -> String {
    let kinds = if depth > 0 && *budget > 0 { 3 } else { 1 };
    let kind = ch.choose(kinds);
    if kind == 0 {
        *leaf += 1;
        return LEAVES[(*leaf - 1) % LEAVES.len()].to_string();
    }
    container(ch, kind == 1, budget, depth - 1, leaf)
}

fn container(ch: &mut Ch, object: bool, budget: &mut usize, depth: usize, leaf: &mut usize) -> String {
    let mut s = String::from(if object { "{" } else { "[" });
    let mut n = 0;
    while *budget > 0 && (n == 0 || ch.flip()) {
        *budget -= 1;
        if n > 0 {
            s.push(',');
        }
        if object {
            s.push_str(&quote(NAMES[n]));
            s.push(':');
        }
        s.push_str(&value(ch, budget, depth, leaf));
        n += 1;
    }
    s.push(if object { '}' } else { ']' });
    s
}

fn gapped(doc: &str, gap: &str) -> String {
    join(&tokens(doc), &|_| gap.to_string())
}

// Typed

thread_local! {
    static SEEN: RefCell<Rc<Cell<usize>>> = RefCell::default();
    static VISITS: RefCell<Vec<(u64, usize)>> = RefCell::default();
}

/// A number that records how far the source had been looked at when it was delivered.
#[derive(Debug, PartialEq, Default, Clone)]
struct Probe(u64);

impl<D: Deserializer + ?Sized> Deserialize<D> for Probe {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, _: &mut ()) -> Result<Self, D::Error> {
        let n = value.get_u64()?;
        VISITS.with(|v| v.borrow_mut().push((n, SEEN.with(|s| s.borrow().get()))));
        Ok(Probe(n))
    }
}

#[allow(dead_code)]
#[derive(Serialize, Deserialize)]
struct S3 {
    a: Probe,
    b: Probe,
    c: Probe,
}

#[allow(dead_code)]
#[derive(Serialize, Deserialize)]
struct Nest {
    p: (Probe, Probe),
    s: S3,
    l: Vec<Probe>,
}

#[allow(dead_code)]
#[derive(Serialize, Deserialize)]
struct Flat {
    x: Probe,
    #[serde(flatten)]
    s: S3,
    y: Option<Probe>,
}

#[allow(dead_code)]
#[derive(Serialize, Deserialize)]
enum Choice {
    Unit,
    #[serde(transparent)]
    Inner(S3),
    Named {
        a: Probe,
        b: Vec<Probe>,
    },
}

#[allow(dead_code)]
#[derive(Serialize, Deserialize)]
struct Defaults {
    #[serde(default)]
    a: Probe,
    b: Option<Probe>,
    c: Probe,
}

type Typed = fn(&mut Source) -> Result<(), Fail>;

fn typed<T>(src: &mut Source) -> Result<(), Fail>
where
    T: for<'a> Deserialize<TextDeserializer<Watch<'a>>> + for<'a> Deserialize<TextDeserializer<Utf8Reader<Taps<'a>>>>,
{
    with_source!(src, |d| match no_panic(|| src.text.to_string(), || Value::with(&mut d, |v| v.get::<T>().map(|_| ())))? {
        Ok(()) => Ok(()),
        Err(e) => fail(format!("{:?}: {:?}", clip(src.text), e)),
    })
}

/// The types, with the shape of a document: numbers are visited in the order of the numbers; the
/// entries of objects can be given in any order.
const TYPED: &[(&str, Typed, &str)] = &[
    ("Probe", typed::<Probe>, "1"),
    ("Option<Probe>", typed::<Option<Probe>>, "1"),
    ("Vec<Probe>", typed::<Vec<Probe>>, "[1,2,3]"),
    ("Vec<Vec<Probe>>", typed::<Vec<Vec<Probe>>>, "[[1,2],[],[3]]"),
    ("Vec<Option<Probe>>", typed::<Vec<Option<Probe>>>, "[null,1,null,2]"),
    ("(Probe, Probe)", typed::<(Probe, Probe)>, "[1,2]"),
    ("(Probe, (), Probe)", typed::<(Probe, (), Probe)>, "[1,{},2]"),
    ("[Probe; 3]", typed::<[Probe; 3]>, "[1,2,3]"),
    ("[(Probe, Vec<Probe>); 2]", typed::<[(Probe, Vec<Probe>); 2]>, "[[1,[2]],[3,[4,5]]]"),
    ("(String, Probe, String)", typed::<(String, Probe, String)>, "[\"s\",1,\"long text\"]"),
    ("S3", typed::<S3>, "{\"a\":1,\"b\":2,\"c\":3}"),
    ("S3", typed::<S3>, "{\"a\":1,\"b\":2,\"u\":[9],\"c\":3}"),
    ("S3", typed::<S3>, "[1,2,3]"),
    ("Vec<S3>", typed::<Vec<S3>>, "[{\"a\":1,\"b\":2,\"c\":3},{\"a\":4,\"b\":5,\"c\":6}]"),
    ("Nest", typed::<Nest>, "{\"p\":[1,2],\"s\":{\"a\":3,\"b\":4,\"c\":5},\"l\":[6,7]}"),
    ("Nest", typed::<Nest>, "[[1,2],{\"a\":3,\"b\":4,\"c\":5},[6,7]]"),
    ("Flat", typed::<Flat>, "{\"x\":1,\"a\":2,\"b\":3,\"c\":4,\"y\":5}"),
    ("Flat", typed::<Flat>, "[1,2,3,4,5]"),
    ("Choice", typed::<Choice>, "{\"type\":\"Inner\",\"a\":1,\"b\":2,\"c\":3}"),
    ("Choice", typed::<Choice>, "{\"type\":\"Named\",\"a\":1,\"b\":[2,3]}"),
    ("Choice", typed::<Choice>, "[\"Named\",1,[2,3]]"),
    ("Vec<Choice>", typed::<Vec<Choice>>, "[{\"type\":\"Unit\"},{\"type\":2,\"a\":1,\"b\":[2,3]},{\"type\":1,\"a\":4,\"b\":5,\"c\":6}]"),
    ("Defaults", typed::<Defaults>, "{\"a\":1,\"b\":2,\"c\":3}"),
    ("Defaults", typed::<Defaults>, "{\"a\":null,\"b\":null,\"c\":3}"),
    ("Vec<Defaults>", typed::<Vec<Defaults>>, "[{\"a\":1,\"b\":2,\"c\":3},{\"a\":4,\"b\":5,\"c\":6}]"),
];

/// The document of a value with the entries of its objects in a chosen order.
fn shuffled(ch: &mut Ch, v: &Val, doc: &[char]) -> String {
    match &v.node {
        Node::Arr(a) => {
            let parts: Vec<String> = a.iter().map(|v| shuffled(ch, v, doc)).collect();
            format!("[{}]", parts.join(","))
        }
        Node::Obj(o) => {
            let mut left: Vec<usize> = (0..o.len()).collect();
            let mut parts = Vec::new();
            while !left.is_empty() {
                let i = left.remove(ch.choose(left.len()));
                parts.push(format!("{}:{}", quote(&o[i].0.text), shuffled(ch, &o[i].1, doc)));
            }
            format!("{{{}}}", parts.join(","))
        }
        _ => doc[v.start..v.end].iter().collect(),
    }
}

/// A number of a document: its value, up to where the text has to be known, and the extents of the
/// containers it is in.
struct Number {
    n: u64,
    need: usize,
    end: usize,
    within: Vec<(usize, usize)>,
}

/// The numbers of a document. `tags` is the end of the tags that have to be known before.
fn numbers(v: &Val, tags: usize, within: &mut Vec<(usize, usize)>, out: &mut Vec<Number>) {
    match &v.node {
        Node::Num(s) => {
            if let Ok(n) = s.parse() {
                out.push(Number { n, need: tags.max(v.end), end: v.end, within: within.clone() })
            }
        }
        Node::Arr(a) => {
            within.push((v.start, v.end));
            a.iter().for_each(|v| numbers(v, tags, within, out));
            within.pop();
        }
        Node::Obj(o) => {
            within.push((v.start, v.end));
            let tags = o.iter().filter(|(k, _)| k.text == "type").map(|(_, v)| v.end).chain([tags]).max().unwrap();
            o.iter().filter(|(k, _)| k.text != "type").for_each(|(_, v)| numbers(v, tags, within, out));
            within.pop();
        }
        _ => (),
    }
}

/// Fields before a number that are null have to be known too.
fn nulls(v: &Val) -> usize {
    match &v.node {
        Node::Obj(o) => o.iter().map(|(_, v)| if v.node == Node::Null { v.end } else { nulls(v) }).max().unwrap_or(0),
        _ => 0,
    }
}

// Wrappers

/// Reads a value through the wrappers, checking after every call.
fn wrappers<D: JsonDeserializer>(ch: &mut Ch, mut v: Value<D>, val: &Val, m: &mut Meter, log: &mut Log) -> Result<Result<(), D::Error>, Fail> {
    macro_rules! ok {
        ($what:expr, $e:expr) => {{
            ch.step();
            ch.note(|| $what.to_string());
            log.push($what.into());
            match $e {
                Ok(r) => r,
                Err(e) => return Ok(Err(e)),
            }
        }};
    }
    macro_rules! upto {
        ($n:expr) => {
            m.upto($n, &|| log.join(" "))?
        };
    }
    check!(ty_name(v.ty()) == val.node.type_name(), "{}: type", log.join(" "));
    upto!(val.start);
    match &val.node {
        Node::Null => {
            if ch.flip() {
                ok!("check-null", v.check_null());
            } else {
                ok!("into-null", v.into_null());
            }
            upto!(val.end);
        }
        Node::Bool(_) => {
            ok!("get-bool", v.get_bool());
            upto!(val.end);
        }
        Node::Num(_) => {
            ok!("get-f64", v.get_f64());
            upto!(val.end);
        }
        Node::Str(_) => {
            ok!("get-str", v.get_str());
            upto!(val.end);
        }
        Node::Arr(list) => match ch.choose(2) {
            0 => {
                let mut l = ok!("into-list", v.into_list());
                upto!(val.start + 1);
                for i in list {
                    let Some(item) = ok!("next", l.next()) else { return fail(format!("{}: no item", log.join(" "))) };
                    upto!(i.start);
                    if let Err(e) = wrappers(ch, item, i, m, log)? {
                        return Ok(Err(e));
                    }
                }
                if ch.flip() {
                    ok!("close", l.close());
                } else {
                    check!(ok!("next", l.next()).is_none(), "{}: an item too many", log.join(" "));
                }
                upto!(val.end);
            }
            _ => {
                let mut t = ok!("into-tuple", v.into_tuple(None));
                upto!(val.start + 1);
                for i in list {
                    let item = ok!("element", t.element());
                    upto!(i.start);
                    if let Err(e) = wrappers(ch, item, i, m, log)? {
                        return Ok(Err(e));
                    }
                }
                ok!("close", t.close());
                upto!(val.end);
            }
        },
        Node::Obj(all) => {
            let mut o = ok!("into-object", v.into_object());
            upto!(val.start + 1);
            let mut unread: Vec<usize> = (0..all.len()).collect();
            while !unread.is_empty() {
                let c = ch.choose(unread.len() + 1);
                if c == 0 {
                    let i = unread.remove(0);
                    let (k, x) = &all[i];
                    let Some(mut e) = ok!("next-entry", o.next_entry()) else { return fail(format!("{}: no entry", log.join(" "))) };
                    upto!(k.start + 1);
                    if ch.flip() {
                        ok!("key", e.key());
                        upto!(x.start);
                    }
                    let item = ok!("value", e.value());
                    upto!(x.start);
                    if let Err(e) = wrappers(ch, item, x, m, log)? {
                        return Ok(Err(e));
                    }
                } else {
                    let i = unread.remove(c - 1);
                    let (k, x) = &all[i];
                    let item = if ch.flip() {
                        ok!("entry", o.entry(&k.text))
                    } else {
                        match ok!("try-entry", o.try_entry(&k.text)) {
                            Some(item) => item,
                            None => return fail(format!("{}: entry {:?} not found", log.join(" "), k.text)),
                        }
                    };
                    upto!(x.start);
                    if let Err(e) = wrappers(ch, item, x, m, log)? {
                        return Ok(Err(e));
                    }
                }
            }
            if ch.flip() {
                ok!("close", o.close());
            } else {
                check!(ok!("next-entry", o.next_entry()).is_none(), "{}: an entry too many", log.join(" "));
            }
            upto!(val.end);
        }
    }
    Ok(Ok(()))
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = Vec::new();
    for (name, budget, full) in [("small documents, all operation sequences", t.pick(2, 3), true), ("documents, main operation sequences", t.pick(3, 5), false)] {
        v.push(family(
            name,
            format!(
                "all documents with at most {} members nested at most 2 deep x 5 gaps between tokens (two with comments) x all sequences of look-up (at most one absent), next-entry, next-item, skip, open, whole read{}, from a character and a byte source",
                budget,
                if full { ", push, close, virtual null, strings and keys whole or by characters, scalars in every way" } else { "" }
            ),
            move |ch| {
                let (gap, comments) = GAPS[ch.choose(GAPS.len())];
                let mut b = budget;
                let mut leaf = ch.choose(4) * 3;
                let object = ch.flip();
                let doc = container(ch, object, &mut b, 1, &mut leaf);
                drive(ch, &gapped(&doc, gap), comments, Ops { deep: 2, full })
            },
        ));
    }
    let full = t.thorough();
    v.push(family(
        "nested documents, all operation sequences",
        "13 documents nested 2 to 4 deep x 3 gaps x all sequences of operations with containers opened at every depth",
        move |ch| {
            const DOCS: &[&str] = &[
                "[[[1]]]",
                "[[[1],2],3]",
                "[[[1,2]]]",
                "{\"a\":{\"b\":{\"c\":1}}}",
                "{\"a\":{\"b\":1},\"c\":2}",
                "{\"a\":[1,2],\"b\":{}}",
                "{\"a\":[{\"x\":1},{\"y\":2}]}",
                "[{\"a\":1,\"b\":2},{\"c\":3}]",
                "[{\"a\":[1]},[{}]]",
                "{\"x\":1,\"o\":{\"p\":[2],\"q\":3}}",
                "[{\"a\":{\"b\":[true]},\"c\":null}]",
                "[[],[[]],{}]",
                "{\"k\":\"v\",\"o\":{\"s\":\"t\"}}",
            ];
            let (gap, comments) = GAPS[ch.choose(3)];
            let doc = gapped(*ch.pick(DOCS), gap);
            drive(ch, &doc, comments, Ops { deep: 9, full })
        },
    ));
    let follow = followers();
    v.push(family(
        "tokens with what follows",
        "12 scalars and containers at the top level or as an item, followed by each of the ASCII characters and 8 others or by nothing, read in every way up to there",
        move |ch| {
            let leaf = *ch.pick(LEAVES);
            let lead = *ch.pick(&["", " ", "\n\n", "[", "[ ", "[1, ", "{\"k\": ", "{\"j\":{},\"k\":"]);
            let next = ch.choose(follow.len() + 1);
            let after: String = if next == follow.len() { String::new() } else { std::iter::repeat_n(follow[next], 3).collect() };
            // A character that continues the token makes it another one
            let number = leaf.ends_with(|c: char| c.is_ascii_digit());
            if number && after.starts_with(|c: char| c.is_ascii_digit() || ".eE".contains(c)) {
                return ch.skip();
            }
            let at = chars(lead).len();
            let val = {
                let mut val = parse(&chars(leaf), false).expect("leaf");
                shift(&mut val, at);
                val
            };
            let doc = format!("{}{}{}", lead, leaf, after);
            sources(ch, &doc, false, |ch, src, m, log| {
                with_source!(src, |d| {
                    m.upto(lead.trim_start().is_empty() as usize * at, &|| log.join(" "))?;
                    let r = no_panic(|| log.join(" "), || {
                        if lead.starts_with('[') {
                            d.open_list()?;
                            if lead.contains('1') {
                                d.next_item()?;
                                d.get_u8()?;
                            }
                            d.next_item()?;
                        } else if lead.starts_with('{') {
                            d.open_object()?;
                            d.try_push_entry("k")?;
                        }
                        Ok::<_, DeserializeError<_>>(())
                    })?;
                    if let Err(e) = r {
                        return fail(format!("{}: {:?}", log.join(" "), e));
                    }
                    run(ch, &mut d, &val, Ops { deep: 9, full: true }, m, log)
                })
            })
        },
    ));
    v.push(family(
        "typed",
        format!("{} types and documents with a recording user codec x all orders of the entries x 5 gaps x trailing text, from both sources", TYPED.len()),
        move |ch| {
            let (name, read, doc) = ch.pick(TYPED);
            let base = chars(doc);
            let val = parse(&base, false).expect("typed document");
            let text = shuffled(ch, &val, &base);
            let (gap, comments) = GAPS[ch.choose(GAPS.len())];
            let text = gapped(&text, gap);
            let val = parse(&chars(&text), comments).expect("typed document");
            let doc = format!("{}{}", text, ch.pick(&["", "\n \n", " 5 ", ",[x", "\u{1}"]));
            // The number must end before what follows it
            if text.ends_with(|c: char| c.is_ascii_digit()) && doc.ends_with('5') {
                return ch.skip();
            }
            let mut want = Vec::new();
            numbers(&val, 0, &mut Vec::new(), &mut want);
            want.retain(|w| w.n != 9);
            want.sort_unstable_by_key(|w| w.n);
            let extra = nulls(&val);
            sources(ch, &doc, comments, |ch, src, m, log| {
                SEEN.with(|s| *s.borrow_mut() = src.seen.clone());
                VISITS.with(|v| v.borrow_mut().clear());
                log.push((*name).into());
                read(src)?;
                let visits = VISITS.with(|v| std::mem::take(&mut *v.borrow_mut()));
                ch.steps(visits.len() + 1);
                ch.state(&(name, &visits));
                let mut need = extra;
                let got: Vec<u64> = visits.iter().map(|v| v.0).collect();
                let mut all: Vec<u64> = want.iter().map(|w| w.n).collect();
                // Tags given as a number are no visits
                all.retain(|n| got.contains(n));
                check!(got == all, "{}: visited {:?}", log.join(" "), got);
                let mut last: Option<&Number> = None;
                for (n, seen) in visits {
                    let w = want.iter().find(|w| w.n == n).expect("visited");
                    need = need.max(w.need);
                    // Containers that have been left
                    if let Some(last) = last {
                        need = last.within.iter().filter(|c| !w.within.contains(c)).map(|c| c.1).chain([need]).max().unwrap();
                    }
                    last = Some(w);
                    check!(seen <= need + 1, "{}: {} characters have been looked at when {} is delivered, where {} and one more suffice", log.join(" "), seen, n, need);
                }
                m.upto(val.end, &|| log.join(" "))
            })
        },
    ));
    let wb = t.pick(4, 5);
    v.push(family(
        "wrappers",
        format!("all documents with at most {} members nested at most 2 deep x 3 gaps, read through the Value, List, Tuple, Object and Entry wrappers in all orders and ways, from both sources", wb),
        move |ch| {
            let (gap, comments) = GAPS[ch.choose(3)];
            let mut b = wb;
            let mut leaf = ch.choose(4) * 3;
            let object = ch.flip();
            let doc = container(ch, object, &mut b, 1, &mut leaf);
            let doc = gapped(&doc, gap);
            let val = parse(&chars(&doc), comments).expect("harness document");
            sources(ch, &doc, comments, |ch, src, m, log| {
                with_source!(src, |d| {
                    let mut out = Ok(());
                    let r = no_panic(|| doc.to_string(), || {
                        Value::with(&mut d, |v| match wrappers(ch, v, &val, m, log) {
                            Ok(r) => r,
                            Err(f) => {
                                out = Err(f);
                                Ok(())
                            }
                        })
                    });
                    out?;
                    match r? {
                        Ok(()) => Ok(()),
                        Err(e) => fail(format!("{}: {:?}", log.join(" "), e)),
                    }
                })
            })
        },
    ));
    let wn = t.pick(5, 6);
    v.push(family(
        "writing",
        format!("all documents with at most {} members nested at most 3 deep x compact and 2 indents x all ways of describing them by calls x character and byte destinations: after every call its text has been handed on", wn),
        move |ch| {
            let mut b = wn;
            let mut leaf = ch.choose(4) * 3;
            let object = ch.flip();
            let doc = container(ch, object, &mut b, 2, &mut leaf);
            let indent = *ch.pick(&[None, Some("  "), Some("")]);
            written(ch, &mut |ch, f| f(ch), &doc, indent)
        },
    ));
    v.push(family(
        "long writing",
        "lists, objects, strings, keys and nesting of 9 sizes up to 70000 x compact and indented x destinations: after every call its text has been handed on",
        move |ch| {
            let n = *ch.pick(&[1, 8, 64, 255, 256, 1024, 4096, 8193, 70000]);
            let list = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(",");
            let doc = match ch.choose(5) {
                0 => format!("[{}]", list(&|i| i.to_string())),
                1 => format!("{{{}}}", list(&|i| format!("\"k{}\":null", i))),
                2 => format!("[\"{}\"]", "x\u{e9}\\n".repeat(n)),
                3 => format!("{{\"{}\":1}}", "y".repeat(n)),
                _ => format!("{}1{}", "[".repeat(n.min(1000)), "]".repeat(n.min(1000))),
            };
            let indent = *ch.pick(&[None, Some(" ")]);
            let made = vec![ch.choose(2) as u64; n + 2];
            // One way of describing everything
            written(ch, &mut |_, f| f(&mut Ch::replaying(&made)), &doc, indent)
        },
    ));
    v.push(family(
        "typed writing",
        "11 values of types with a recording user codec x compact and indented x destinations: when a number is written, those before it have been handed on",
        move |ch| {
            let p = Probe;
            let s3 = |n: u64| S3 { a: p(n), b: p(n + 1), c: p(n + 2) };
            let indent = *ch.pick(&[None, Some("  ")]);
            macro_rules! one {
                ($name:expr, $e:expr) => {
                    typed_write(ch, &$e, indent, $name)
                };
            }
            match ch.choose(11) {
                0 => one!("Probe", p(1)),
                1 => one!("Vec", vec![p(1), p(2), p(3)]),
                2 => one!("nested Vec", vec![vec![p(1)], vec![], vec![p(2), p(3)]]),
                3 => one!("Option", vec![Some(p(1)), None, Some(p(2))]),
                4 => one!("tuple", (p(1), (), p(2))),
                5 => one!("array", [(p(1), p(2)), (p(3), p(4))]),
                6 => one!("struct", vec![s3(1), s3(4)]),
                7 => one!("Nest", Nest { p: (p(1), p(2)), s: s3(3), l: vec![p(6), p(7)] }),
                8 => one!("Flat", Flat { x: p(1), s: s3(2), y: Some(p(5)) }),
                9 => one!("Choice", vec![Choice::Unit, Choice::Named { a: p(1), b: vec![p(2)] }, Choice::Inner(s3(3))]),
                _ => one!("Defaults", vec![Defaults { a: p(1), b: None, c: p(2) }, Defaults { a: p(5), b: Some(p(3)), c: p(4) }]),
            }
        },
    ));
    let sizes: Vec<usize> = t.pick(vec![1, 2, 7, 8, 9, 63, 64, 65, 255, 256, 257, 1000, 4095, 4096, 4097, 8192, 9000], (1..300).chain([511, 512, 513, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 9000, 65535, 65536, 65537, 70000]).collect());
    v.push(family(
        "long documents",
        format!("lists, objects, strings, keys, whitespace, comments, nesting and runs of look-ups of {} sizes up to {}, checked after every element, from both sources", sizes.len(), sizes.last().unwrap()),
        move |ch| {
            let n = *ch.pick(&sizes);
            let kind = ch.choose(10);
            long(ch, kind, n)
        },
    ));
    v
}

// Writing

/// Where bytes are handed on to, one at a time if the flag is set.
struct Sink(Rc<RefCell<Vec<u8>>>, bool);

impl std::io::Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = if self.1 { buf.len().min(1) } else { buf.len() };
        self.0.borrow_mut().extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A character destination.
struct Text(Rc<RefCell<Vec<u8>>>);

impl TextWriter for Text {
    type Error = std::convert::Infallible;
    fn write_char(&mut self, c: char) -> Result<(), Self::Error> {
        self.0.borrow_mut().extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
        Ok(())
    }
    fn write_str(&mut self, s: &str) -> Result<(), Self::Error> {
        self.0.borrow_mut().extend_from_slice(s.as_bytes());
        Ok(())
    }
}

/// Describes the value of `val` by calls, noting after each how much has been handed on.
fn emit<S: JsonSerializer>(ch: &mut Ch, s: &mut S, val: &Val, out: &dyn Fn() -> usize, lens: &mut Vec<usize>) -> Result<(), S::Error> {
    match &val.node {
        Node::Null => s.pop_null()?,
        Node::Bool(b) => s.put_bool(*b)?,
        Node::Num(n) => match n.parse() {
            Ok(n) => s.put_u64(n)?,
            Err(_) => s.put_f64(n.parse().expect("number"))?,
        },
        Node::Str(t) => {
            if ch.flip() {
                s.put_str(t)?;
            } else {
                s.open_str()?;
                lens.push(out());
                for (i, c) in t.chars().enumerate() {
                    if i % 2 == 0 {
                        s.append_char(c)?;
                    } else {
                        s.append_str(&c.to_string())?;
                    }
                    lens.push(out());
                }
                s.close_str()?;
            }
        }
        Node::Arr(a) => {
            let kind = ch.choose(3);
            match kind {
                0 => s.open_list_sized(a.len())?,
                1 => s.open_list_streaming()?,
                _ => s.open_tuple(None)?,
            }
            lens.push(out());
            for v in a {
                if kind == 2 {
                    s.push_element()?;
                } else {
                    s.push_item()?;
                }
                emit(ch, s, v, out, lens)?;
            }
            if kind == 2 {
                s.close_tuple()?;
            } else {
                s.close_list()?;
            }
        }
        Node::Obj(o) => {
            s.open_object()?;
            lens.push(out());
            for (k, v) in o {
                if ch.flip() {
                    s.push_entry(&k.text)?;
                    lens.push(out());
                } else {
                    s.add_entry()?;
                    s.append_str(&k.text)?;
                    lens.push(out());
                    s.close_str()?;
                    lens.push(out());
                }
                emit(ch, s, v, out, lens)?;
            }
            s.close_object()?;
        }
    }
    lens.push(out());
    Ok(())
}

/// What must have been handed on after each of the calls of [`emit`], given the finished text.
fn due(ch: &mut Ch, val: &Val, at: &dyn Fn(usize) -> usize, dues: &mut Vec<usize>) {
    match &val.node {
        Node::Str(t) => {
            if !ch.flip() {
                let mut n = at(val.start + 1);
                dues.push(n);
                // At least the bytes of each character
                for c in t.chars() {
                    n += c.len_utf8();
                    dues.push(n);
                }
            }
        }
        Node::Arr(a) => {
            ch.choose(3);
            dues.push(at(val.start + 1));
            a.iter().for_each(|v| due(ch, v, at, dues));
        }
        Node::Obj(o) => {
            dues.push(at(val.start + 1));
            for (k, v) in o {
                if ch.flip() {
                    dues.push(at(k.end));
                } else {
                    dues.push(at(k.end - 1));
                    dues.push(at(k.end));
                }
                due(ch, v, at, dues);
            }
        }
        _ => (),
    }
    dues.push(at(val.end));
}

/// Writes a document in a way chosen by `how`.
fn written(ch: &mut Ch, how: &mut dyn FnMut(&mut Ch, &mut dyn FnMut(&mut Ch) -> Outcome) -> Outcome, doc: &str, indent: Option<&'static str>) -> Outcome {
    let val = parse(&chars(doc), false).expect("harness document");
    let kind = ch.choose(3);
    let what = || format!("{} with indent {:?} to {}", clip(doc), indent, ["characters", "bytes", "single bytes"][kind]);
    ch.note(what);
    let config = TextSerializerConfig { indent };
    how(ch, &mut |ch| {
        let buf = Rc::new(RefCell::new(Vec::new()));
        let len = {
            let buf = buf.clone();
            move || buf.borrow().len()
        };
        let mut lens = Vec::new();
        let start = ch.choices().len();
        if kind == 0 {
            let r = no_panic(what, || emit(ch, &mut TextSerializer::new(config, Text(buf.clone())), &val, &len, &mut lens))?;
            check!(r.is_ok(), "{}: error", what());
        } else {
            let sink = Sink(buf.clone(), kind == 2);
            let r = no_panic(what, || emit(ch, &mut TextSerializer::new(config, Utf8Writer::new(sink)), &val, &len, &mut lens))?;
            check!(r.is_ok(), "{}: error", what());
        }
        ch.steps(lens.len());
        let Ok(text) = String::from_utf8(buf.borrow().clone()) else { return fail(format!("{}: bytes that are no text", what())) };
        let Ok(done) = parse(&chars(&text), false) else { return fail(format!("{}: wrote {:?}, not the whole text", what(), clip(&text))) };
        check!(done.tree() == val.tree(), "{}: wrote {:?}", what(), clip(&text));
        let mut offsets: Vec<usize> = text.char_indices().map(|(i, _)| i).collect();
        offsets.push(text.len());
        let mut dues = Vec::new();
        let made = ch.choices()[start..].to_vec();
        due(&mut Ch::replaying(&made), &done, &|n| offsets[n], &mut dues);
        assert_eq!(dues.len(), lens.len());
        for (i, (l, d)) in lens.iter().zip(&dues).enumerate() {
            check!(l >= d, "{}: after {} calls {} bytes have been handed on, where {} are described", what(), i + 1, l, d);
        }
        Ok(())
    })
}

thread_local! {
    static OUT: RefCell<Rc<RefCell<Vec<u8>>>> = RefCell::default();
}

fn handed() -> usize {
    OUT.with(|s| s.borrow().borrow().len())
}

impl<S: Serializer + ?Sized> Serialize<S> for Probe {
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, _: &mut ()) -> Result<(), S::Error> {
        VISITS.with(|v| v.borrow_mut().push((self.0, handed())));
        value.put_u64(self.0)?;
        VISITS.with(|v| v.borrow_mut().push((self.0, handed())));
        Ok(())
    }
}

/// Writes a value of a type, noting how much has been handed on before and after every number.
fn typed_write<T>(ch: &mut Ch, value: &T, indent: Option<&'static str>, what: &str) -> Outcome
where
    T: Serialize<TextSerializer<Text>> + Serialize<TextSerializer<Utf8Writer<Sink>>>,
{
    let buf = Rc::new(RefCell::new(Vec::new()));
    OUT.with(|o| *o.borrow_mut() = buf.clone());
    VISITS.with(|v| v.borrow_mut().clear());
    let config = TextSerializerConfig { indent };
    let log = || what.to_string();
    if ch.flip() {
        let mut s = TextSerializer::new(config, Text(buf.clone()));
        let r = no_panic(log, || Value::with(&mut s, |v| v.put(value)))?;
        check!(r.is_ok(), "{}: error", what);
    } else {
        let mut s = TextSerializer::new(config, Utf8Writer::new(Sink(buf.clone(), ch.flip())));
        let r = no_panic(log, || Value::with(&mut s, |v| v.put(value)))?;
        check!(r.is_ok(), "{}: error", what);
    }
    let visits = VISITS.with(|v| std::mem::take(&mut *v.borrow_mut()));
    ch.steps(visits.len());
    let text = String::from_utf8_lossy(&buf.borrow()).into_owned();
    let Ok(val) = parse(&chars(&text), false) else { return fail(format!("{}: wrote {:?}, not the whole text", what, text)) };
    let mut all = Vec::new();
    numbers(&val, 0, &mut Vec::new(), &mut all);
    for (i, (n, len)) in visits.iter().enumerate() {
        let Some(w) = all.iter().find(|w| w.n == *n) else { return fail(format!("{}: {} is not in {:?}", what, n, text)) };
        // Everything before it has been handed on, and afterwards the number itself
        let due = if i % 2 == 0 { all.iter().map(|v| v.end).filter(|e| *e < w.end).max().unwrap_or(0) } else { w.end };
        check!(*len >= due, "{}: {} bytes of {:?} have been handed on at {}, where {} are described", what, len, text, n, due);
    }
    Ok(())
}

fn shift(v: &mut Val, by: usize) {
    v.start += by;
    v.end += by;
    match &mut v.node {
        Node::Arr(a) => a.iter_mut().for_each(|v| shift(v, by)),
        Node::Obj(o) => o.iter_mut().for_each(|(k, v)| {
            k.start += by;
            k.end += by;
            shift(v, by)
        }),
        _ => (),
    }
}

fn long(ch: &mut Ch, kind: usize, n: usize) -> Outcome {
    let list = |sep: &str| format!("[{}]", (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(sep));
    let object = || format!("{{{}}}", (0..n).map(|i| format!("\"k{}\":{}", i, i)).collect::<Vec<_>>().join(","));
    let (doc, comments) = match kind {
        0 => (list(","), false),
        1 => (list(" , "), false),
        2 | 3 => (object(), false),
        4 => (format!("\"{}\"  5", "x".repeat(n)), false),
        5 => (format!("{{\"{}\":[1,2]}}", "y".repeat(n)), false),
        6 => (format!("[1{},2]", " ".repeat(n)), false),
        7 => (format!("[1/*{}*/,2]", "*".repeat(n)), true),
        8 => (format!("{}1{}", "[".repeat(n), "]".repeat(n)), false),
        _ => (format!("[1,{}\"z\"{}]", "[".repeat(n), "]".repeat(n)), false),
    };
    let trailing = if kind == 4 { 3 } else { 0 };
    let cs = chars(&doc);
    sources(ch, &doc, comments, |ch, src, m, log| {
        with_source!(src, |d| {
            let what = || format!("{} (kind {}, size {})", log.join(" "), kind, n);
            macro_rules! ok {
                ($e:expr) => {
                    match no_panic(what, || $e)? {
                        Ok(r) => r,
                        Err(e) => return fail(format!("{}: {:?}", what(), e)),
                    }
                };
            }
            ch.state(&(kind, n));
            ch.steps(n);
            match kind {
                0 | 1 => {
                    let sep = if kind == 0 { 1 } else { 3 };
                    ok!(d.open_list());
                    m.upto(1, &what)?;
                    let mut at = 1;
                    for i in 0..n {
                        check!(ok!(d.next_item()), "{}: no item", what());
                        m.upto(at, &what)?;
                        let x = ok!(d.get_u32());
                        check!(x as usize == i, "{}: item {} is {}", what(), i, x);
                        at += i.to_string().len();
                        m.upto(at, &what)?;
                        at += sep;
                    }
                    check!(!ok!(d.next_item()), "{}: an item too many", what());
                    m.upto(cs.len(), &what)?;
                }
                2 | 3 => {
                    // By next-entry, or by look-ups in order, every third after a buffered one
                    ok!(d.open_object());
                    m.upto(1, &what)?;
                    let ends: Vec<usize> = cs.iter().enumerate().filter(|(_, c)| matches!(c, ',' | '}')).map(|(i, _)| i).collect();
                    let mut order: Vec<usize> = (0..n).collect();
                    if kind == 3 {
                        order.chunks_mut(3).for_each(|c| c.reverse());
                    }
                    for i in order {
                        let key = format!("k{}", i);
                        if kind == 2 {
                            check!(ok!(d.next_entry()), "{}: no entry", what());
                            let k = ok!(d.flush_str().map(|k| k.into_owned()));
                            check!(k == key, "{}: key {:?}", what(), k);
                        } else {
                            check!(ok!(d.try_push_entry(&key)), "{}: no entry {}", what(), key);
                        }
                        m.upto(ends[i] - i.to_string().len(), &what)?;
                        let x = ok!(d.get_u32());
                        check!(x as usize == i, "{}: entry {} is {}", what(), i, x);
                        m.upto(ends[i], &what)?;
                    }
                    check!(!ok!(d.next_entry()), "{}: an entry too many", what());
                    m.upto(cs.len(), &what)?;
                }
                4 => {
                    ok!(d.open_str());
                    for i in 0..n {
                        check!(ok!(d.next_char()) == Some('x'), "{}: character {}", what(), i);
                        m.upto(i + 2, &what)?;
                    }
                    check!(ok!(d.next_char()).is_none(), "{}: a character too many", what());
                    m.upto(cs.len() - trailing, &what)?;
                }
                5 => {
                    ok!(d.open_object());
                    check!(ok!(d.try_push_entry(&"y".repeat(n))), "{}: not found", what());
                    m.upto(n + 4, &what)?;
                    ok!(d.skip_value());
                    m.upto(cs.len() - 1, &what)?;
                }
                6 | 7 => {
                    ok!(d.open_list());
                    check!(ok!(d.next_item()), "{}: no item", what());
                    ok!(d.get_u8());
                    m.upto(2, &what)?;
                    check!(ok!(d.next_item()), "{}: no item", what());
                    m.upto(cs.len() - 2, &what)?;
                    ok!(d.get_u8());
                    m.upto(cs.len() - 1, &what)?;
                }
                8 => {
                    for i in 0..n {
                        ok!(d.open_list());
                        m.upto(i + 1, &what)?;
                        check!(ok!(d.next_item()), "{}: no item", what());
                        m.upto(i + 1, &what)?;
                    }
                    ok!(d.get_u8());
                    m.upto(n + 1, &what)?;
                    for i in 0..n {
                        check!(!ok!(d.next_item()), "{}: an item too many", what());
                        m.upto(n + 2 + i, &what)?;
                    }
                }
                _ => {
                    ok!(d.open_list());
                    check!(ok!(d.next_item()), "{}: no item", what());
                    ok!(d.get_u8());
                    check!(ok!(d.next_item()), "{}: no item", what());
                    m.upto(3, &what)?;
                    ok!(d.skip_value());
                    m.upto(cs.len() - 1, &what)?;
                }
            }
            Ok(())
        })
    })
}

fn main() {
    mc::main(Check {
        id: "C21",
        families,
        assumptions: &["Looking at the end of the input counts as looking at one more character; one character beyond what is needed may be looked at."],
    })
}
