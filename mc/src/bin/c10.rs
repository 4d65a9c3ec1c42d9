//! C10: the wrappers enforce the stack discipline.
//!
//! All sequences of wrapper calls that the types allow, over a recording format whose every call
//! may fail. For every call the reference knows whether it is a misuse (then it must panic without
//! having reached the format) and otherwise which calls of the format it consists of.

use mc::rec::*;
use mc::tape::*;
use mc::*;
use serdere::deserialize::DeserializeStruct;
use serdere::serialize::SerializeStruct;
use serdere::*;
use serdere_json::*;
use std::cell::RefCell;

/// Why the driver leaves an execution.
enum Halt {
    /// A misuse was detected as it should be; nothing more can be said.
    Done,
    Fail(Fail),
}

type D<T> = Result<T, Halt>;

#[derive(Clone, Copy)]
struct Bounds {
    ops: usize,
    depth: usize,
    faults: usize,
    /// Every way of putting and getting a value, or only one of each kind.
    leaves: bool,
}

struct Drv<'w, 'c> {
    w: &'w RefCell<World<'c>>,
    ops: usize,
    b: Bounds,
    /// Set when leaving from within a closure called by the library.
    halt: Option<Halt>,
    trace: Vec<String>,
}

#[derive(Serialize, Deserialize, Debug, PartialEq)]
enum Unit {
    A,
    B,
}

/// A struct codec that is driven like everything else.
struct Content;

#[derive(Debug)]
struct Invalid;

impl std::fmt::Display for Invalid {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("invalid")
    }
}

impl std::error::Error for Invalid {}

type Res<T> = Result<T, RecError>;

impl<'w, 'c> Serialize<Rec<'w, 'c>, Drv<'w, 'c>> for Content {
    const NULLABLE: bool = false;
    fn serialize(&self, _: Value<Rec<'w, 'c>>, _: &mut Drv<'w, 'c>) -> Res<()> {
        unreachable!()
    }
}

impl<'w, 'c> SerializeStruct<Rec<'w, 'c>, Drv<'w, 'c>> for Content {
    fn serialize_content(&self, st: &mut Struct<Rec<'w, 'c>>, drv: &mut Drv<'w, 'c>) -> Res<()> {
        drv.content(st)
    }
}

impl<'w, 'c> Deserialize<Rec<'w, 'c>, Drv<'w, 'c>> for Content {
    const NULLABLE: bool = false;
    fn deserialize(_: Value<Rec<'w, 'c>>, _: &mut Drv<'w, 'c>) -> Res<Self> {
        unreachable!()
    }
}

impl<'w, 'c> DeserializeStruct<Rec<'w, 'c>, Drv<'w, 'c>> for Content {
    fn deserialize_content(st: &mut Struct<Rec<'w, 'c>>, drv: &mut Drv<'w, 'c>) -> Res<Self> {
        drv.content(st).map(|_| Content)
    }
}

const NAMES: &NameMap<usize> = FixedNameMap::new([("b", 1), ("a", 0)]).unfix();

/// What the driver does with an error it has got.
enum After {
    Propagate(RecError),
    Swallow,
}

impl<'w, 'c> Drv<'w, 'c> {
    fn choose(&self, n: usize) -> usize {
        self.w.borrow_mut().ch.choose(n)
    }

    fn bad<T>(&self, msg: String) -> D<T> {
        Err(Halt::Fail(Fail { key: None, msg: format!("{} (after {})", msg, self.trace.join(", ")) }))
    }

    /// One wrapper call. `plan`: the calls of the format it must consist of, in order.
    fn op<R>(&mut self, what: &str, misuse: bool, plan: &[&str], f: impl FnOnce(&mut Self) -> Res<R>) -> D<Res<R>> {
        self.trace.push(what.to_string());
        {
            let mut w = self.w.borrow_mut();
            w.log.clear();
            w.last = None;
            w.ch.step();
            let t = &self.trace;
            w.ch.state(t);
            if w.ch.noting() {
                let text = format!("{}{}", what, if misuse { " (misuse)" } else { "" });
                w.ch.note(|| text);
            }
        }
        let res = sut(|| f(self));
        if let Some(h) = self.halt.take() {
            return Err(h);
        }
        let log = std::mem::take(&mut self.w.borrow_mut().log);
        match res {
            Err(p) => {
                if !misuse {
                    return self.bad(format!("correct use panicked: {}", p));
                }
                if !log.is_empty() {
                    return self.bad(format!("misuse had already reached the format when it was detected: {:?}", log));
                }
                Err(Halt::Done)
            }
            Ok(res) => {
                if misuse {
                    return self.bad(format!("misuse went unnoticed; calls issued: {:?}", log));
                }
                for (i, (call, err)) in log.iter().enumerate() {
                    if plan.get(i).map(|p| p != call).unwrap_or(true) {
                        return self.bad(format!("call {} is {:?}; expected are {:?}", i, call, plan));
                    }
                    if let Some(e) = err {
                        if i + 1 != log.len() {
                            return self.bad(format!("calls after the failure of {:?}: {:?}", call, log));
                        }
                        match res {
                            Err(got) if got == *e => return Ok(Err(got)),
                            Err(got) => return self.bad(format!("the error {:?} came out as {:?}", e, got)),
                            Ok(_) => return self.bad(format!("the failure of {:?} was dropped", call)),
                        }
                    }
                }
                if log.len() != plan.len() {
                    return self.bad(format!("calls {:?} instead of {:?}", log, plan));
                }
                Ok(res)
            }
        }
    }

    /// The last answer of the format.
    fn answer(&self) -> Option<i64> {
        self.w.borrow().last
    }

    fn err<R>(&mut self, r: Res<R>) -> D<Result<R, After>> {
        match r {
            Ok(r) => Ok(Ok(r)),
            Err(e @ RecError::Injected(_)) | Err(e @ RecError::Custom(_)) => {
                if self.choose(2) == 0 {
                    Ok(Err(After::Propagate(e)))
                } else {
                    Ok(Err(After::Swallow))
                }
            }
            Err(e) => self.bad(format!("unexpected error {:?}", e)),
        }
    }

    fn leave(&mut self) -> bool {
        if self.ops == 0 {
            return true;
        }
        self.ops -= 1;
        false
    }

    /// Drives a value. `done`: whether it is done, kept up to date.
    fn value(&mut self, v: Value<Rec<'w, 'c>>, done: &mut bool, depth: usize) -> D<Res<()>> {
        let mut v = v;
        loop {
            if self.leave() {
                self.trace.push("drop".into());
                return Ok(Ok(()));
            }
            let was = *done;
            macro_rules! leaf {
                ($what:expr, $plan:expr, $f:expr, $expect:expr) => {{
                    let r = self.op($what, was, $plan, |_| $f(v))?;
                    match self.err(r)? {
                        Ok(r) => {
                            if !($expect)(r) {
                                return self.bad(format!("{} gave a wrong value", $what));
                            }
                            *done = true;
                            return Ok(Ok(()));
                        }
                        Err(After::Propagate(e)) => return Ok(Err(e)),
                        Err(After::Swallow) => return Ok(Ok(())),
                    }
                }};
            }
            macro_rules! put {
                ($name:ident, $x:expr) => {
                    leaf!(stringify!($name), &[&format!(concat!(stringify!($name), " {:?}"), $x)], |v: Value<Rec<'w, 'c>>| v.$name($x), |_| true)
                };
            }
            macro_rules! get {
                ($name:ident, $x:expr) => {
                    leaf!(stringify!($name), &[stringify!($name)], |v: Value<Rec<'w, 'c>>| v.$name(), |r| r == $x)
                };
            }
            let containers = if depth < self.b.depth { 8 } else { 0 };
            let leaves = if self.b.leaves { 38 } else { 8 };
            let c = self.choose(4 + containers + leaves);
            match c {
                0 => {
                    self.trace.push("drop".into());
                    return Ok(Ok(()));
                }
                1 => {
                    let null = self.w.borrow().null;
                    let plan: &[&str] = if null { &["check_null"] } else { &[] };
                    let r = self.op("check_null", was, plan, |_| v.check_null())?;
                    match self.err(r)? {
                        Ok(r) => {
                            let want = self.answer() == Some(1);
                            if r != want {
                                return self.bad(format!("check_null gave {} for {}", r, want));
                            }
                            if r {
                                *done = true;
                            }
                        }
                        Err(After::Propagate(e)) => return Ok(Err(e)),
                        Err(After::Swallow) => return Ok(Ok(())),
                    }
                    continue;
                }
                2 => {
                    let (s, f) = v.into_raw();
                    if *f != was {
                        return self.bad(format!("the done flag is {}", *f));
                    }
                    v = Value::new(s, f);
                    continue;
                }
                3 => {
                    // Leaves through a closure
                    let inner = &mut *done;
                    let mut verdict = 0;
                    let vd = &mut verdict;
                    self.trace.push("validate_with".into());
                    if was {
                        let r = self.op("validate_with", true, &[], |_| v.validate_with(|_| -> Res<Result<(), Invalid>> { Ok(Ok(())) }))?;
                        drop(r);
                        return Ok(Ok(()));
                    }
                    let res = sut(|| {
                        v.validate_with(|v| {
                            match self.value(v, inner, depth + 1) {
                                Err(h) => {
                                    self.halt = Some(h);
                                    Err(RecError::Halt)
                                }
                                Ok(Err(e)) => {
                                    *vd = 3;
                                    Err(e)
                                }
                                Ok(Ok(())) => {
                                    *vd = 1 + self.choose(2);
                                    Ok(if *vd == 1 { Ok(()) } else { Err(Invalid) })
                                }
                            }
                        })
                    });
                    if let Some(h) = self.halt.take() {
                        return Err(h);
                    }
                    let inner_done = *done;
                    let r = match (verdict, inner_done, res) {
                        (1 | 2, false, Err(_)) => return Err(Halt::Done),
                        (_, _, Err(p)) => return self.bad(format!("correct validate_with panicked: {}", p)),
                        (1 | 2, false, Ok(_)) => return self.bad("validate_with took an incomplete value".into()),
                        (1, true, Ok(Ok(()))) => Ok(()),
                        (2, true, Ok(Err(RecError::Custom(m)))) if m == "invalid" => Err(RecError::Custom(m)),
                        (3, _, Ok(Err(e))) => Err(e),
                        (v, d, r) => return self.bad(format!("validate_with (verdict {}, done {}) gave {:?}", v, d, r)),
                    };
                    return Ok(match self.err(r)? {
                        Ok(()) => Ok(()),
                        Err(After::Propagate(e)) => Err(e),
                        Err(After::Swallow) => Ok(()),
                    });
                }
                c => {
                    let c = c - 4;
                    if c < containers {
                        return self.container(v, done, depth, c);
                    }
                    match c - containers {
                        0 => put!(put_u8, 7),
                        1 => get!(get_u8, 8),
                        2 => leaf!("get_str", &["open_str", "next_char", "next_char"], |v: Value<Rec<'w, 'c>>| v.get_str().map(|s| s.into_owned()), |r| r == "x"),
                        3 => leaf!("skip", &["skip_value"], |v: Value<Rec<'w, 'c>>| v.skip(), |_| true),
                        4 => leaf!("into_null", &["pop_null"], |v: Value<Rec<'w, 'c>>| v.into_null(), |_| true),
                        5 => leaf!("put_str", &["open_str", "append_char 'a'", "append_char 'é'", "close_str"], |v: Value<Rec<'w, 'c>>| v.put_str("aé"), |_| true),
                        6 => {
                            // An option: null if the format has it
                            let null = self.w.borrow().null;
                            let r = self.op("get::<Option<u8>>", was, &[], |d| {
                                let r = v.get::<Option<u8>>();
                                // The calls depend on the answers
                                let mut w = d.w.borrow_mut();
                                let log = std::mem::take(&mut w.log);
                                let names: Vec<&str> = log.iter().map(|l| l.0.as_str()).collect();
                                let failed = log.last().and_then(|l| l.1.clone());
                                let fine = if null {
                                    match (w.last, &r) {
                                        (Some(1), Ok(None)) => names == ["check_null"],
                                        (Some(0), Ok(Some(8))) => names == ["check_null", "get_u8"],
                                        (_, Err(e)) => Some(e.clone()) == failed,
                                        _ => false,
                                    }
                                } else {
                                    match &r {
                                        Ok(Some(8)) => names == ["open_struct Some(\"Option\")", "push_field \"has_value\"", "get_bool", "push_field \"value\"", "get_u8", "close_struct"],
                                        Err(e) => Some(e.clone()) == failed,
                                        _ => false,
                                    }
                                };
                                if !fine {
                                    let h = d.bad::<()>(format!("get::<Option<u8>> gave {:?} from {:?}", r, log));
                                    drop(w);
                                    d.halt = h.err();
                                }
                                r
                            });
                            let r = r?;
                            return Ok(match self.err(r)? {
                                Ok(_) => {
                                    *done = true;
                                    Ok(())
                                }
                                Err(After::Propagate(e)) => Err(e),
                                Err(After::Swallow) => Ok(()),
                            });
                        }
                        7 => leaf!("get::<Unit>", &["get_tag 1 [(\"A\", 0), (\"B\", 1)]"], |v: Value<Rec<'w, 'c>>| v.get::<Unit>(), |r| r == Unit::B),
                        8 => put!(put_bool, true),
                        9 => put!(put_i8, -3),
                        10 => put!(put_i16, -300),
                        11 => put!(put_i32, -70000),
                        12 => put!(put_i64, -5000000000i64),
                        13 => put!(put_u16, 300),
                        14 => put!(put_u32, 70000),
                        15 => put!(put_u64, 5000000000u64),
                        16 => put!(put_f32, 1.5),
                        17 => put!(put_f64, 1e300),
                        18 => put!(put_char, 'é'),
                        19 => leaf!("put_tag", &["put_tag 5 3 Some(\"t\")"], |v: Value<Rec<'w, 'c>>| v.put_tag(5, 3, Some("t")), |_| true),
                        20 => get!(get_bool, true),
                        21 => get!(get_i8, -8),
                        22 => get!(get_i16, -16),
                        23 => get!(get_i32, -32),
                        24 => get!(get_i64, -64),
                        25 => get!(get_u16, 16),
                        26 => get!(get_u32, 32),
                        27 => get!(get_u64, 64),
                        28 => get!(get_f32, 0.5),
                        29 => get!(get_f64, 0.25),
                        30 => get!(get_char, 'c'),
                        31 => leaf!("get_tag", &["get_tag 9 [(\"a\", 0), (\"b\", 1)]"], |v: Value<Rec<'w, 'c>>| v.get_tag(9, NAMES), |r| r == 1),
                        32 => leaf!("put(&Unit::A)", &["put_tag 1 0 Some(\"A\")"], |v: Value<Rec<'w, 'c>>| v.put(&Unit::A), |_| true),
                        33 => leaf!("get::<u8>", &["get_u8"], |v: Value<Rec<'w, 'c>>| v.get::<u8>(), |r| r == 8),
                        34 => leaf!("get::<()>", &["open_struct None", "close_struct"], |v: Value<Rec<'w, 'c>>| v.get::<()>(), |_| true),
                        35 => leaf!("put(&[1, 2])", &["open_tuple None", "push_element", "put_u8 1", "push_element", "put_u8 2", "close_tuple"], |v: Value<Rec<'w, 'c>>| v.put(&[1u8, 2]), |_| true),
                        36 => leaf!("put(&vec![1])", &["open_list_sized 1", "push_item", "put_u8 1", "close_list"], |v: Value<Rec<'w, 'c>>| v.put(&vec![1u8]), |_| true),
                        _ => {
                            let null = self.w.borrow().null;
                            let plan: &[&str] = if null { &["pop_null"] } else { &["open_struct Some(\"Option\")", "push_field \"has_value\"", "put_bool false", "close_struct"] };
                            leaf!("put(&None)", plan, |v: Value<Rec<'w, 'c>>| v.put(&None::<u8>), |_| true)
                        }
                    }
                }
            }
        }
    }

    fn container(&mut self, v: Value<Rec<'w, 'c>>, done: &mut bool, depth: usize, c: usize) -> D<Res<()>> {
        let was = *done;
        macro_rules! open {
            ($what:expr, $plan:expr, $f:expr) => {{
                let r = self.op($what, was, $plan, |_| $f)?;
                match self.err(r)? {
                    Ok(r) => r,
                    Err(After::Propagate(e)) => return Ok(Err(e)),
                    Err(After::Swallow) => return Ok(Ok(())),
                }
            }};
        }
        match c {
            0 => {
                let st = open!("into_struct", &["open_struct Some(\"T\")"], v.into_struct(Some("T")));
                self.structure(st, done, depth)
            }
            1 => {
                let t = open!("into_tuple", &["open_tuple None"], v.into_tuple(None));
                self.tuple(t, done, depth)
            }
            2 => {
                let n = self.choose(3);
                let what = format!("open_list_sized {}", n);
                let l = open!(&what, &[&what], v.into_list_sized(n));
                self.list(l, done, Some(n), depth)
            }
            3 => {
                let l = open!("into_list", &["open_list"], v.into_list());
                let len = self.answer().and_then(|n| usize::try_from(n).ok());
                self.list(l, done, len, depth)
            }
            4 => {
                let l = open!("into_list_streaming", &["open_list_streaming"], v.into_list_streaming());
                self.list(l, done, None, depth)
            }
            5 => {
                let o = open!("into_object", &["open_object"], v.into_object());
                self.object(o, done, depth)
            }
            6 => {
                // As an object or as a list
                let ty = [ValueType::Object, ValueType::Array][self.choose(2)];
                self.w.borrow_mut().ty = Some(ty);
                let o = ty == ValueType::Object;
                let col = open!("into_collection", if o { &["open_object"] } else { &["open_list"] }, v.into_collection());
                let len = self.answer().and_then(|n| usize::try_from(n).ok());
                self.w.borrow_mut().ty = None;
                match (o, col) {
                    (true, col @ Collection::Object(_)) => self.collection(col, done, None, true, depth),
                    (false, col @ Collection::List(_)) => self.collection(col, done, len, false, depth),
                    _ => self.bad("wrong kind of collection".into()),
                }
            }
            _ => {
                // A value of its own over the same format
                let (s, f) = v.into_raw();
                if *f != was {
                    return self.bad(format!("the done flag is {}", *f));
                }
                if was {
                    return Ok(Ok(()));
                }
                let r = self.with(s, depth + 1, 0)?;
                if r.is_ok() {
                    *f = true;
                    *done = true;
                }
                Ok(r)
            }
        }
    }

    /// The `with` functions. The result is Ok only if the value was completed.
    fn with(&mut self, s: &mut Rec<'w, 'c>, depth: usize, kind: usize) -> D<Res<()>> {
        let mut done = false;
        let mut inner: Option<RecError> = None;
        self.trace.push("with".into());
        macro_rules! run {
            ($ty:ident, $drive:ident) => {
                sut(|| {
                    $ty::with(s, |v| match self.$drive(v, &mut done, depth) {
                        Err(h) => {
                            self.halt = Some(h);
                            Err(RecError::Halt)
                        }
                        Ok(Err(e)) => {
                            inner = Some(e.clone());
                            Err(e)
                        }
                        Ok(Ok(())) => Ok(77),
                    })
                })
            };
        }
        let res = match kind {
            0 => run!(Value, value),
            1 => run!(Struct, structure),
            _ => run!(Tuple, tuple),
        };
        if let Some(h) = self.halt.take() {
            return Err(h);
        }
        match (inner, done, res) {
            (Some(e), _, Ok(Err(got))) if e == got => Ok(Err(e)),
            (None, true, Ok(Ok(77))) => Ok(Ok(())),
            (None, false, Err(_)) => Err(Halt::Done),
            (None, false, Ok(_)) => self.bad("`with` took an incomplete item".into()),
            (e, d, r) => self.bad(format!("`with` (error {:?}, done {}) gave {:?}", e, d, r)),
        }
    }

    /// Drives a child value, and says whether to go on with the parent.
    fn child(&mut self, v: Value<Rec<'w, 'c>>, ready: &mut bool, depth: usize) -> D<Option<RecError>> {
        *ready = false;
        let r = self.value(v, ready, depth + 1)?;
        Ok(r.err())
    }

    fn structure(&mut self, mut st: Struct<Rec<'w, 'c>>, done: &mut bool, depth: usize) -> D<Res<()>> {
        let mut ready = true;
        loop {
            if self.leave() {
                return Ok(Ok(()));
            }
            match self.choose(3) {
                0 => return Ok(Ok(())),
                1 => {
                    let r = self.op("close struct", !ready, &["close_struct"], |_| st.close())?;
                    return Ok(match self.err(r)? {
                        Ok(()) => {
                            *done = true;
                            Ok(())
                        }
                        Err(After::Propagate(e)) => Err(e),
                        Err(After::Swallow) => Ok(()),
                    });
                }
                _ => {
                    if let Some(e) = self.struct_op(&mut st, &mut ready, depth)? {
                        return Ok(Err(e));
                    }
                }
            }
        }
    }

    /// A field, or the content of an inlined struct.
    fn struct_op(&mut self, st: &mut Struct<Rec<'w, 'c>>, ready: &mut bool, depth: usize) -> D<Option<RecError>> {
        let kinds = if depth < self.b.depth { 3 } else { 1 };
        match self.choose(kinds) {
            0 => {
                let was = *ready;
                *ready = false;
                let r = self.op("field", !was, &["push_field \"f\""], |_| st.field("f"))?;
                match self.err(r)? {
                    Ok(v) => self.child(v, ready, depth),
                    Err(After::Propagate(e)) => Ok(Some(e)),
                    Err(After::Swallow) => Ok(None),
                }
            }
            k => {
                self.trace.push(if k == 1 { "inline_get" } else { "inline_put" }.into());
                // The content of an inlined struct is driven by `content`
                INLINE.with(|i| i.borrow_mut().push((*ready, depth + 1)));
                let r = sut(|| if k == 1 { st.inline_get_using::<Content, _>(self).map(|_| ()) } else { st.inline_put_using(&Content, self) });
                if let Some(h) = self.halt.take() {
                    INLINE.with(|i| i.borrow_mut().clear());
                    return Err(h);
                }
                let (left, _) = match INLINE.with(|i| i.borrow_mut().pop()) {
                    Some(x) => x,
                    None => return self.bad("inlined content was not visited".into()),
                };
                match r {
                    Err(_) if !*ready => Err(Halt::Done),
                    Err(p) => self.bad(format!("inlining panicked: {}", p)),
                    Ok(r) => {
                        *ready = left;
                        match (r, self.pending()) {
                            (Ok(()), None) => Ok(None),
                            (Err(e), Some(p)) if e == p => Ok(Some(e)),
                            (r, p) => self.bad(format!("inlining gave {:?} for {:?}", r, p)),
                        }
                    }
                }
            }
        }
    }

    fn pending(&self) -> Option<RecError> {
        PENDING.with(|p| p.borrow_mut().take())
    }

    /// Called by the library for an inlined struct.
    fn content(&mut self, st: &mut Struct<Rec<'w, 'c>>) -> Res<()> {
        let (mut ready, depth) = INLINE.with(|i| *i.borrow().last().unwrap());
        let r = self.content_ops(st, &mut ready, depth);
        INLINE.with(|i| {
            if let Some(l) = i.borrow_mut().last_mut() {
                l.0 = ready
            }
        });
        match r {
            Err(h) => {
                self.halt = Some(h);
                Err(RecError::Halt)
            }
            Ok(Some(e)) => {
                PENDING.with(|p| *p.borrow_mut() = Some(e.clone()));
                Err(e)
            }
            Ok(None) => Ok(()),
        }
    }

    fn content_ops(&mut self, st: &mut Struct<Rec<'w, 'c>>, ready: &mut bool, depth: usize) -> D<Option<RecError>> {
        loop {
            if self.leave() || self.choose(2) == 0 {
                self.trace.push("end of content".into());
                return Ok(None);
            }
            if st.is_ready() != *ready {
                return self.bad(format!("struct says it is{} ready", if *ready { " not" } else { "" }));
            }
            if let Some(e) = self.struct_op(st, ready, depth)? {
                return Ok(Some(e));
            }
        }
    }

    fn tuple(&mut self, mut t: Tuple<Rec<'w, 'c>>, done: &mut bool, depth: usize) -> D<Res<()>> {
        let mut ready = true;
        loop {
            if self.leave() {
                return Ok(Ok(()));
            }
            match self.choose(3) {
                0 => return Ok(Ok(())),
                1 => {
                    let r = self.op("close tuple", !ready, &["close_tuple"], |_| t.close())?;
                    return Ok(match self.err(r)? {
                        Ok(()) => {
                            *done = true;
                            Ok(())
                        }
                        Err(After::Propagate(e)) => Err(e),
                        Err(After::Swallow) => Ok(()),
                    });
                }
                _ => {
                    let was = ready;
                    ready = false;
                    let r = self.op("element", !was, &["push_element"], |_| t.element())?;
                    let e = match self.err(r)? {
                        Ok(v) => self.child(v, &mut ready, depth)?,
                        Err(After::Propagate(e)) => Some(e),
                        Err(After::Swallow) => None,
                    };
                    if let Some(e) = e {
                        return Ok(Err(e));
                    }
                }
            }
        }
    }

    fn list(&mut self, mut l: List<Rec<'w, 'c>>, done: &mut bool, len: Option<usize>, depth: usize) -> D<Res<()>> {
        let mut ready = true;
        let mut rem = len;
        loop {
            if self.leave() {
                return Ok(Ok(()));
            }
            if ready && l.rem_len() != rem {
                return self.bad(format!("remaining length {:?} instead of {:?}", l.rem_len(), rem));
            }
            match self.choose(4) {
                0 => return Ok(Ok(())),
                1 => {
                    let r = self.op("close list", !ready || rem.unwrap_or(0) > 0, &["close_list"], |_| l.close())?;
                    return Ok(match self.err(r)? {
                        Ok(()) => {
                            *done = true;
                            Ok(())
                        }
                        Err(After::Propagate(e)) => Err(e),
                        Err(After::Swallow) => Ok(()),
                    });
                }
                2 => {
                    let was = ready;
                    ready = false;
                    let r = self.op("push", !was || rem == Some(0), &["push_item"], |_| l.push())?;
                    let e = match self.err(r)? {
                        Ok(v) => {
                            rem = rem.map(|n| n - 1);
                            self.child(v, &mut ready, depth)?
                        }
                        Err(After::Propagate(e)) => Some(e),
                        Err(After::Swallow) => None,
                    };
                    if let Some(e) = e {
                        return Ok(Err(e));
                    }
                }
                _ => {
                    let was = ready;
                    ready = false;
                    self.w.borrow_mut().forced_item = rem.map(|n| n > 0);
                    let r = self.op("next", !was, &["next_item"], |_| l.next())?;
                    let has = self.answer() == Some(1);
                    let e = match self.err(r)? {
                        Ok(Some(v)) => {
                            if !has {
                                return self.bad("next made an item up".into());
                            }
                            rem = rem.map(|n| n - 1);
                            self.child(v, &mut ready, depth)?
                        }
                        Ok(None) => {
                            if has {
                                return self.bad("next dropped an item".into());
                            }
                            *done = true;
                            None
                        }
                        Err(After::Propagate(e)) => Some(e),
                        Err(After::Swallow) => None,
                    };
                    if let Some(e) = e {
                        return Ok(Err(e));
                    }
                }
            }
        }
    }

    fn object(&mut self, mut o: Object<Rec<'w, 'c>>, done: &mut bool, depth: usize) -> D<Res<()>> {
        let mut ready = true;
        loop {
            if self.leave() {
                return Ok(Ok(()));
            }
            let n = if depth < self.b.depth { 6 } else { 5 };
            let e = match self.choose(n) {
                0 => return Ok(Ok(())),
                1 => {
                    let r = self.op("close object", !ready, &["close_object"], |_| o.close())?;
                    return Ok(match self.err(r)? {
                        Ok(()) => {
                            *done = true;
                            Ok(())
                        }
                        Err(After::Propagate(e)) => Err(e),
                        Err(After::Swallow) => Ok(()),
                    });
                }
                2 => {
                    let was = ready;
                    ready = false;
                    let r = self.op("entry", !was, &["push_entry \"k\""], |_| o.entry("k"))?;
                    match self.err(r)? {
                        Ok(v) => self.child(v, &mut ready, depth)?,
                        Err(After::Propagate(e)) => Some(e),
                        Err(After::Swallow) => None,
                    }
                }
                3 => {
                    let was = ready;
                    ready = false;
                    let r = self.op("try_entry", !was, &["try_push_entry \"k\""], |_| o.try_entry("k"))?;
                    let has = self.answer() == Some(1);
                    match self.err(r)? {
                        Ok(Some(v)) => {
                            if !has {
                                return self.bad("try_entry made an entry up".into());
                            }
                            self.child(v, &mut ready, depth)?
                        }
                        Ok(None) => {
                            if has {
                                return self.bad("try_entry dropped an entry".into());
                            }
                            ready = true;
                            None
                        }
                        Err(After::Propagate(e)) => Some(e),
                        Err(After::Swallow) => None,
                    }
                }
                4 => {
                    let was = ready;
                    ready = false;
                    let r = self.op("next_entry", !was, &["next_entry"], |_| o.next_entry())?;
                    let has = self.answer() == Some(1);
                    match self.err(r)? {
                        Ok(Some(en)) => {
                            if !has {
                                return self.bad("next_entry made an entry up".into());
                            }
                            self.entry(en, &mut ready, depth)?
                        }
                        Ok(None) => {
                            if has {
                                return self.bad("next_entry dropped an entry".into());
                            }
                            *done = true;
                            None
                        }
                        Err(After::Propagate(e)) => Some(e),
                        Err(After::Swallow) => None,
                    }
                }
                _ => {
                    // A struct inlined into the object
                    self.trace.push("inline".into());
                    INLINE.with(|i| i.borrow_mut().push((true, depth + 1)));
                    let was = ready;
                    let n = self.trace.len();
                    let r = sut(|| o.inline_using::<Content, _>(self).map(|_| ()));
                    if let Some(h) = self.halt.take() {
                        INLINE.with(|i| i.borrow_mut().clear());
                        return if !was { self.bad("inlining into an object that is not ready".into()) } else { Err(h) };
                    }
                    let (left, _) = INLINE.with(|i| i.borrow_mut().pop()).unwrap();
                    if !was {
                        return match r {
                            Err(_) if self.trace.len() == n => Err(Halt::Done),
                            _ => self.bad("inlining into an object that is not ready".into()),
                        };
                    }
                    match (r, self.pending()) {
                        (Ok(Ok(())), None) => {
                            ready = left;
                            None
                        }
                        (Ok(Err(e)), Some(p)) if e == p => {
                            ready = false;
                            Some(e)
                        }
                        (Err(_), None) if !left => return Err(Halt::Done),
                        (r, p) => return self.bad(format!("inlining gave {:?} for {:?}", r, p)),
                    }
                }
            };
            if let Some(e) = e {
                if self.choose(2) == 0 {
                    return Ok(Err(e));
                }
                self.trace.push("swallowed".into());
            }
        }
    }

    fn entry(&mut self, mut en: Entry<Rec<'w, 'c>>, ready: &mut bool, depth: usize) -> D<Option<RecError>> {
        let mut read = false;
        loop {
            if self.leave() {
                return Ok(None);
            }
            match self.choose(3) {
                0 => return Ok(None),
                1 => {
                    let was = read;
                    read = true;
                    let r = self.op("key", was, &["next_char", "next_char"], |_| en.key().map(|k| k.into_owned()))?;
                    match self.err(r)? {
                        Ok(k) => {
                            if k != "x" {
                                return self.bad(format!("key is {:?}", k));
                            }
                        }
                        Err(After::Propagate(e)) => return Ok(Some(e)),
                        Err(After::Swallow) => return Ok(None),
                    }
                }
                _ => {
                    let plan: &[&str] = if read { &[] } else { &["next_char", "next_char"] };
                    let r = self.op("value", false, plan, |_| en.value())?;
                    return match self.err(r)? {
                        Ok(v) => self.child(v, ready, depth),
                        Err(After::Propagate(e)) => Ok(Some(e)),
                        Err(After::Swallow) => Ok(None),
                    };
                }
            }
        }
    }

    fn collection(&mut self, mut c: Collection<Rec<'w, 'c>>, done: &mut bool, len: Option<usize>, object: bool, depth: usize) -> D<Res<()>> {
        let mut ready = true;
        let mut rem = len;
        loop {
            if self.leave() || self.choose(2) == 0 {
                return Ok(Ok(()));
            }
            let was = ready;
            ready = false;
            let forced = rem.map(|n| n > 0);
            self.w.borrow_mut().forced_item = forced;
            // The calls depend on the answer
            let mut has = false;
            let r = self.op("collection next", !was, &[], |d| {
                let r = c.next();
                let mut w = d.w.borrow_mut();
                has = w.last == Some(1);
                let names: Vec<&str> = w.log.iter().map(|l| l.0.as_str()).collect();
                let failed = w.log.last().and_then(|l| l.1.clone());
                let want: &[&str] = match (object, has) {
                    (true, true) => &["next_entry", "next_char", "next_char"],
                    (true, false) => &["next_entry"],
                    (false, _) => &["next_item"],
                };
                let fine = match &r {
                    Err(e) => failed.as_ref() == Some(e) && names.len() <= want.len() && names[..] == want[..names.len()],
                    Ok(v) => failed.is_none() && names == want && v.is_some() == has,
                };
                if !fine {
                    let h = d.bad::<()>(format!("next of a collection: {:?} (is {})", w.log, r.is_ok()));
                    drop(w);
                    d.halt = h.err();
                } else {
                    w.log.clear();
                }
                r
            })?;
            let e = match self.err(r)? {
                Ok(Some(v)) => {
                    rem = rem.map(|n| n - 1);
                    self.child(v, &mut ready, depth)?
                }
                Ok(None) => {
                    *done = true;
                    None
                }
                Err(After::Propagate(e)) => Some(e),
                Err(After::Swallow) => None,
            };
            if let Some(e) = e {
                return Ok(Err(e));
            }
        }
    }
}

thread_local! {
    /// Whether the struct that content is inlined into is ready, and how deep it is.
    static INLINE: RefCell<Vec<(bool, usize)>> = const { RefCell::new(Vec::new()) };
    static PENDING: RefCell<Option<RecError>> = const { RefCell::new(None) };
}

/// What the exploration starts with.
#[derive(Clone, Copy, Debug)]
enum Root {
    Value,
    ValueWith,
    Struct,
    StructWith,
    Tuple,
    TupleWith,
    List,
    Object,
    Entry,
}

fn run(ch: &mut Ch, root: Root, b: Bounds) -> Outcome {
    let null = ch.flip();
    INLINE.with(|i| i.borrow_mut().clear());
    PENDING.with(|p| *p.borrow_mut() = None);
    let w = RefCell::new(World::new(ch, b.faults, null));
    let mut rec = Rec(&w);
    let mut drv = Drv { w: &w, ops: b.ops, b, halt: None, trace: vec![format!("{:?}", root)] };
    let mut flag = false;
    let mut done = false;
    let mut with = false;
    let r = match root {
        Root::Value => drv.value(Value::new(&mut rec, &mut flag), &mut done, 0),
        Root::Struct => drv.structure(Struct::new(&mut rec, &mut flag), &mut done, 0),
        Root::Tuple => drv.tuple(Tuple::new(&mut rec, &mut flag), &mut done, 0),
        Root::List => {
            let len = [None, Some(0), Some(1), Some(2), Some(3)][drv.choose(5)];
            drv.list(List::new(&mut rec, &mut flag, len), &mut done, len, 0)
        }
        Root::Object => drv.object(Object::new(&mut rec, &mut flag), &mut done, 0),
        Root::Entry => {
            w.borrow_mut().str_left = 1;
            drv.entry(Entry::new(&mut rec, &mut flag), &mut done, 0).map(|e| e.map(Err).unwrap_or(Ok(())))
        }
        Root::ValueWith | Root::StructWith | Root::TupleWith => {
            with = true;
            let kind = match root {
                Root::ValueWith => 0,
                Root::StructWith => 1,
                _ => 2,
            };
            drv.with(&mut rec, 0, kind)
        }
    };
    let trace = std::mem::take(&mut drv.trace);
    drop(drv);
    let mut w = w.borrow_mut();
    w.ch.outcome(&(done, r.is_ok()));
    match r {
        Err(Halt::Fail(f)) => Err(f),
        Err(Halt::Done) if root_flag_unknown(root) => Ok(()),
        Err(Halt::Done) => {
            check!(!flag || done, "the done flag was set by a misuse (after {})", trace.join(", "));
            Ok(())
        }
        Ok(_) if with => Ok(()),
        Ok(_) => {
            check!(flag == done, "the done flag is {} instead of {} (after {})", flag, done, trace.join(", "));
            Ok(())
        }
    }
}

fn root_flag_unknown(root: Root) -> bool {
    matches!(root, Root::ValueWith | Root::StructWith | Root::TupleWith)
}

const ROOTS: [Root; 9] = [
    Root::Value,
    Root::ValueWith,
    Root::Struct,
    Root::StructWith,
    Root::Tuple,
    Root::TupleWith,
    Root::List,
    Root::Object,
    Root::Entry,
];

fn fam(name: &str, roots: &'static [Root], b: Bounds) -> Family {
    family(
        name,
        format!(
            "all sequences of up to {} wrapper calls from {:?}, nested up to {} deep, {} ways of using a value, up to {} calls of the format failing, with and without null",
            b.ops, roots, b.depth, if b.leaves { "all" } else { "the main" }, b.faults
        ),
        move |ch| {
            let root = *ch.pick(roots);
            run(ch, root, b)
        },
    )
}

// ------------------------------------------------------------------ lists of any length

/// Goes through a list of known length, comparing the remaining length on the way, and ends by
/// closing it, by one more item, or by asking for the next one.
fn through<O: Outliner<Error = TapeError>>(
    mut l: List<O>,
    n: usize,
    k: usize,
    end: usize,
    mut push: impl FnMut(&mut List<O>, usize) -> Result<(), TapeError>,
    next: impl FnOnce(&mut List<O>) -> Result<bool, TapeError>,
) -> Result<Result<(), String>, TapeError> {
    for i in 0..k {
        if l.rem_len() != Some(n - i) {
            return Ok(Err(format!("{:?} items remain after {}", l.rem_len(), i)));
        }
        push(&mut l, i)?;
    }
    if l.rem_len() != Some(n - k) {
        return Ok(Err(format!("{:?} items remain after {}", l.rem_len(), k)));
    }
    match end {
        0 => l.close()?,
        1 => push(&mut l, k)?,
        _ => {
            if next(&mut l)? {
                return Ok(Err("there is another item".to_string()));
            }
        }
    }
    Ok(Ok(()))
}

fn long_list(ch: &mut Ch) -> Outcome {
    let mut lens: Vec<usize> = (0..=300).chain([511, 512, 1000, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 70000]).collect();
    let read = ch.flip();
    if !read {
        lens.extend([i32::MAX as usize, u32::MAX as usize, 1 << 32, (1 << 32) + 1, i64::MAX as usize, usize::MAX - 1, usize::MAX]);
    }
    let n = *ch.pick(&lens);
    let all = n.min(70000);
    let k = *ch.pick(&[all, all.saturating_sub(1), all / 2, 1.min(all)]);
    let end = ch.choose(if read && k == n { 3 } else { 2 });
    ch.state(&(read, n, k, end));
    ch.steps(k);
    let misuse = match end {
        0 => k != n,
        1 => k == n,
        _ => false,
    };
    let what = format!("list of length {}, {} after {} items ({})", n, ["closed", "pushed to", "asked for the next"][end], k, if read { "read" } else { "written" });
    ch.note(|| what.clone());
    let mut done = false;
    let (res, issued) = if read {
        let mut tape = vec![Ev::List(n)];
        for i in 0..n {
            tape.extend([Ev::Item, Ev::Int("u8", i as i128 % 200)]);
        }
        tape.push(Ev::Close);
        let answers = Answers { null: true, known: true, alternate: false, by_name: true };
        let mut d = TapeDe::new(std::rc::Rc::new(tape), answers, None);
        let res = sut(|| {
            let l = Value::new(&mut d, &mut done).into_list()?;
            through(
                l,
                n,
                k,
                end,
                |l, i| {
                    let v = if i % 3 == 1 && i < k { l.next()?.expect("item") } else { l.push()? };
                    v.get_u8().map(|_| ())
                },
                |l| Ok(l.next()?.is_some()),
            )
        });
        (res, d.at)
    } else {
        let mut s = TapeSer::new(true, None);
        let res = sut(|| {
            let l = Value::new(&mut s, &mut done).into_list_sized(n)?;
            through(l, n, k, end, |l, i| l.push()?.put_u8((i % 200) as u8), |_| Ok(false))
        });
        (res, s.tape.len())
    };
    let before = 1 + 2 * k;
    match res {
        Err(p) => {
            check!(misuse, "{}: correct use panicked: {}", what, p);
            check!(issued == before && !done, "{}: the misuse was detected only after {} of {} events", what, issued, before);
        }
        Ok(r) => {
            check!(!misuse, "{}: misuse went unnoticed", what);
            match r {
                Err(e) => return fail(format!("{}: error {:?}", what, e)),
                Ok(Err(m)) => return fail(format!("{}: {}", what, m)),
                Ok(Ok(())) => check!(done == (end != 1) && issued == before + if end == 1 { 2 } else { 1 }, "{}: done flag {}, {} events", what, done, issued),
            }
        }
    }
    Ok(())
}

fn families(t: Tier) -> Vec<Family> {
    vec![
        fam("ways of using a value", &[Root::Value, Root::ValueWith], Bounds { ops: t.pick(4, 5), depth: 1, faults: 1, leaves: true }),
        fam("fields and items", &ROOTS, Bounds { ops: t.pick(4, 5), depth: 1, faults: 1, leaves: true }),
        fam("histories", &ROOTS, Bounds { ops: t.pick(6, 7), depth: 2, faults: 1, leaves: false }),
        fam("faultless histories", &ROOTS, Bounds { ops: t.pick(7, 8), depth: 2, faults: 0, leaves: false }),
        fam("flat histories", &[Root::Struct, Root::Tuple, Root::List, Root::Object, Root::Entry], Bounds { ops: t.pick(7, 9), depth: 0, faults: 2, leaves: false }),
        family("long lists", "lists with known lengths (read: 0..=300 and to 70000; written: also to the limit of usize) x how many items are completed x closing, one item more, or asking for the next", long_list),
    ]
}

fn main() {
    mc::main(Check {
        id: "C10",
        families,
        assumptions: &["The mapping from wrapper calls to calls of the format is the reference in c10.rs."],
    })
}
