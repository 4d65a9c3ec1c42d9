//! C19: standard codecs obey the stack protocol of any format.

#[path = "../../shared/types_list.rs"]
#[macro_use]
mod types_list;
#[path = "../../shared/types.rs"]
mod types;

use mc::tape::*;
use mc::*;
use serdere::*;
use std::cell::RefCell;
use std::rc::Rc;
use types::*;

/// A user type with a codec that uses null, if there is one.
#[derive(Debug, Default, PartialEq)]
pub struct Nullable(Option<u16>);

impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for Nullable {
    const NULLABLE: bool = true;
    fn serialize(&self, value: Value<S>, _: &mut Ctx) -> Result<(), S::Error> {
        match self.0 {
            None if value.as_raw().supports_null() => {
                let (s, done) = value.into_raw();
                s.pop_null()?;
                *done = true;
                Ok(())
            }
            None => value.put_u16(u16::MAX),
            Some(n) => value.put_u16(n),
        }
    }
}

impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for Nullable {
    const NULLABLE: bool = true;
    fn deserialize(mut value: Value<D>, _: &mut Ctx) -> Result<Self, D::Error> {
        let null = value.as_raw().supports_null();
        if value.check_null()? {
            return Ok(Nullable(None));
        }
        Ok(match value.get_u16()? {
            u16::MAX if !null => Nullable(None),
            n => Nullable(Some(n)),
        })
    }
}

impl Val for Nullable {
    fn gen(ch: &mut Ch, _: isize) -> Self {
        Nullable(if ch.flip() { Some(7) } else { None })
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

/// A user type written as a list.
#[derive(Debug, Default, PartialEq)]
pub struct Wide(Vec<u64>);

impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for Wide {
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, _: &mut Ctx) -> Result<(), S::Error> {
        let mut l = value.into_list_sized(self.0.len())?;
        for x in &self.0 {
            l.push()?.put_u64(*x)?;
        }
        l.close()
    }
}

impl<D: Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for Wide {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, _: &mut Ctx) -> Result<Self, D::Error> {
        let mut l = value.into_list()?;
        let mut res = Wide(Vec::new());
        if let Some(n) = l.rem_len() {
            for _ in 0..n {
                res.0.push(l.push()?.get_u64()?);
            }
            l.close()?;
            return Ok(res);
        }
        while let Some(v) = l.next()? {
            res.0.push(v.get_u64()?);
        }
        Ok(res)
    }
}

impl Val for Wide {
    fn gen(ch: &mut Ch, _: isize) -> Self {
        Wide((0..ch.choose(3)).map(|i| i as u64 + 5).collect())
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

fn encode<T: Serialize<TapeSer>>(value: &T, null: bool, fault: Option<usize>) -> (Result<(), TapeError>, TapeSer, bool) {
    let mut ser = TapeSer::new(null, fault);
    let mut done = false;
    let res = Value::new(&mut ser, &mut done).put(value);
    (res, ser, done)
}

fn decode<T: Deserialize<TapeDe>>(tape: &Rc<Vec<Ev>>, answers: Answers, fault: Option<usize>) -> (Result<T, TapeError>, TapeDe, bool) {
    let mut de = TapeDe::new(tape.clone(), answers, fault);
    let mut done = false;
    let res = Value::new(&mut de, &mut done).get();
    (res, de, done)
}

trait Any: Val + Serialize<TapeSer> + Deserialize<TapeDe> + for<'x, 'c> Deserialize<Free<'x, 'c>> {}
impl<T: Val + Serialize<TapeSer> + Deserialize<TapeDe> + for<'x, 'c> Deserialize<Free<'x, 'c>>> Any for T {}

const ALL_ANSWERS: [(bool, bool, bool); 6] =
    [(true, false, false), (false, false, true), (true, true, true), (false, true, false), (true, false, true), (false, false, false)];

/// Writes a value and reads it back.
fn trip<T: Any>(value: &T, null: bool) -> Result<Rc<Vec<Ev>>, Fail> {
    let name = std::any::type_name::<T>();
    let (res, ser, done) = encode(value, null, None);
    check!(res.is_ok(), "{}: writing {:?} failed: {:?}", name, value, res);
    check!(ser.stack.done() && done, "{}: writing {:?} succeeded, but not everything was completed (done flag {}): {:?}", name, value, done, ser.tape);
    let tape = Rc::new(ser.tape);
    if !<T as Serialize<TapeSer>>::NULLABLE {
        check!(tape[0] != Ev::Null, "{}: {:?} was written as null by a type which is not nullable", name, value);
    }
    check!(null || !tape.contains(&Ev::Null), "{}: null in {:?}", name, tape);
    check!(
        <T as Serialize<TapeSer>>::NULLABLE == <T as Deserialize<TapeDe>>::NULLABLE,
        "{}: nullable when written {}, when read {}",
        name,
        <T as Serialize<TapeSer>>::NULLABLE,
        <T as Deserialize<TapeDe>>::NULLABLE
    );
    for (known, alternate, by_name) in ALL_ANSWERS {
        let answers = Answers { null, known, alternate, by_name };
        let (res, de, done) = decode::<T>(&tape, answers, None);
        match res {
            Ok(got) => {
                check!(got.same(value), "{}: {:?} was written as {:?} and read back as {:?} ({:?})", name, value, tape, got, answers);
                check!(de.done() && done, "{}: {:?} was read from {:?}, but not everything was completed (at {}, done flag {}, {:?})", name, value, tape, de.at, done, answers);
            }
            Err(e) => return fail(format!("{}: {:?} was written as {:?}, which does not read back: {:?} ({:?})", name, value, tape, e, answers)),
        }
    }
    Ok(tape)
}

fn quiet<R>(what: impl FnOnce() -> String, f: impl FnOnce() -> Result<R, Fail>) -> Result<R, Fail> {
    match sut(f) {
        Ok(r) => r,
        Err(p) => fail(format!("{}: panicked: {}", what(), p)),
    }
}

fn run_trip<T: Any>(ch: &mut Ch, lvl: isize) -> Outcome {
    let value = T::gen(ch, lvl);
    let null = ch.flip();
    ch.note(|| format!("{}: {:?}, null {}", std::any::type_name::<T>(), value, null));
    let tape = quiet(|| format!("{:?}", value), || trip(&value, null))?;
    ch.state(&(std::any::type_name::<T>(), &*tape));
    ch.steps(tape.len() * 7);
    Ok(())
}

/// Fails every call in turn.
fn run_faults<T: Any>(ch: &mut Ch, lvl: isize) -> Outcome {
    let name = std::any::type_name::<T>();
    let value = T::gen(ch, lvl);
    let null = ch.flip();
    ch.note(|| format!("{}: {:?}, null {}", name, value, null));
    let steps = quiet(
        || format!("{:?}", value),
        || {
            let (_, full, _) = encode(&value, null, None);
            let tape = Rc::new(full.tape);
            let mut steps = 0;
            for k in 0..full.stack.calls {
                let (res, ser, done) = encode(&value, null, Some(k));
                check!(res == Err(TapeError::Injected), "{}: writing {:?} returned {:?} although its call {} failed", name, value, res, k);
                check!(!done, "{}: writing {:?} failed at call {}, but the value counts as done", name, value, k);
                check!(tape.starts_with(&ser.tape), "{}: {:?} is {:?} up to the failing call {}, but {:?} without", name, value, ser.tape, k, tape);
                steps += k + 1;
            }
            for (known, alternate, by_name) in [(true, false, true), (false, false, false)] {
                let answers = Answers { null, known, alternate, by_name };
                let n = decode::<T>(&tape, answers, None).1.stack.calls;
                for k in 0..n {
                    let (res, _, done) = decode::<T>(&tape, answers, Some(k));
                    check!(
                        matches!(res, Err(TapeError::Injected)),
                        "{}: reading {:?} returned {:?} although its call {} failed ({:?})",
                        name, tape, res, k, answers
                    );
                    check!(!done, "{}: reading {:?} failed at call {}, but the value counts as done", name, tape, k);
                    steps += k + 1;
                }
                // A tape which ends early or goes on differently
                for at in 0..tape.len() {
                    for other in [None, Some(Ev::Null), Some(Ev::Close), Some(Ev::Bool(true)), Some(Ev::Field("other")), Some(Ev::List(0))] {
                        if tape.get(at) == other.as_ref() {
                            continue;
                        }
                        let mut t = tape[..at].to_vec();
                        t.extend(other);
                        let t = Rc::new(t);
                        let (res, de, _) = decode::<T>(&t, answers, None);
                        check!(res.is_err() || de.done(), "{}: {:?} was read from {:?}, but not everything was completed", name, res, t);
                        steps += at + 1;
                    }
                }
            }
            Ok(steps)
        },
    )?;
    ch.state(&(name, format!("{:?}", value), null));
    ch.steps(steps);
    Ok(())
}

/// The position after the value at `i`.
fn skip_value(t: &[Ev], i: usize) -> usize {
    let mut depth = 0;
    let mut i = i;
    loop {
        match &t[i] {
            Ev::List(_) | Ev::Tuple(_) | Ev::Struct(_) => depth += 1,
            Ev::Close => depth -= 1,
            Ev::Item | Ev::Element | Ev::Field(_) => {
                i += 1;
                continue;
            }
            _ => (),
        }
        i += 1;
        if depth == 0 {
            return i;
        }
    }
}

/// Whether `b` is a way of writing what was read from `a`.
fn matching(a: &[Ev], b: &[Ev]) -> bool {
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        match (&a[i], &b[j]) {
            (Ev::Null, Ev::Null) => (),
            // A default
            (Ev::Null, _) => {
                i += 1;
                j = skip_value(b, j);
                continue;
            }
            (Ev::List(m), Ev::List(n)) if *m == usize::MAX || m == n => (),
            (x, y) if x == y => (),
            _ => return false,
        }
        i += 1;
        j += 1;
    }
    i == a.len() && j == b.len()
}

/// Reads from a format which answers everything.
fn run_free<T: Any>(ch: &mut Ch, budget: isize) -> Outcome {
    let name = std::any::type_name::<T>();
    let null = ch.flip();
    let cell = RefCell::new(ch);
    let mut de = Free::new(null, None, &cell, budget as usize);
    let mut done = false;
    let res = sut(|| Value::new(&mut de, &mut done).get::<T>());
    let Free { stack, tape, .. } = de;
    let ch = cell.into_inner();
    ch.note(|| format!("{}, null {}: {:?} was read as {:?}", name, null, tape, res));
    ch.state(&(name, null, &tape));
    ch.steps(stack.calls);
    match res {
        Err(p) => fail(format!("{}: after the answers {:?}: panicked: {}", name, tape, p)),
        Ok(Err(e)) => {
            // The only errors come from what was answered
            let zero = tape.iter().any(|e| matches!(e, Ev::Int(_, 0)));
            let index = tape.iter().any(|e| matches!(e, Ev::Tag { name: None, .. }));
            match &e {
                TapeError::Custom(_) if zero || index => (),
                _ => return fail(format!("{}: {:?} was read as the error {:?}", name, tape, e)),
            }
            Ok(())
        }
        Ok(Ok(value)) => {
            check!(stack.done() && done, "{}: {:?} was read from {:?}, but not everything was completed (done flag {})", name, value, tape, done);
            check!(
                !tape.iter().any(|e| matches!(e, Ev::Tag { name: None, .. })),
                "{}: {:?} was read from {:?}, with an index of no variant", name, value, tape
            );
            let back = quiet(|| format!("{:?}", value), || trip(&value, null))?;
            check!(matching(&tape, &back), "{}: {:?} was read from {:?} and written as {:?}", name, value, tape, back);
            Ok(())
        }
    }
}

type Run = fn(&mut Ch, isize) -> Outcome;

struct Row {
    name: &'static str,
    trip: Run,
    faults: Run,
    free: Run,
}

fn table() -> Vec<Row> {
    macro_rules! entry {
        ($t:ty) => {
            Row { name: stringify!($t), trip: run_trip::<$t>, faults: run_faults::<$t>, free: run_free::<$t> }
        };
    }
    let mut rows = for_types!(entry);
    rows.extend(vec![
        entry!(Nullable),
        entry!(Option<Nullable>),
        entry!(Option<Option<Nullable>>),
        entry!(Option<Option<Option<u8>>>),
        entry!(Option<Option<Option<Option<bool>>>>),
        entry!(Vec<Nullable>),
        entry!([Option<Nullable>; 2]),
        entry!((Nullable, Option<Nullable>, Option<Option<Nullable>>)),
        entry!(Plain<Nullable>),
        entry!(Plain<Option<Nullable>>),
        entry!(Def<Nullable>),
        entry!(Def<Option<Nullable>>),
        entry!(Flat<Nullable>),
        entry!(Tagged<Option<Nullable>>),
        entry!(Wide),
        entry!(Option<Wide>),
        entry!(Vec<Wide>),
        entry!(Def<Wide>),
        entry!(Tree),
    ]);
    if let Ok(t) = std::env::var("MC_TYPE") {
        rows.retain(|e| e.name.replace(" ", "") == t.replace(" ", ""));
    }
    rows
}

fn families(t: Tier) -> Vec<Family> {
    let n = table().len();
    let mut f = Vec::new();
    let rows = table();
    f.push(family(
        "round trip",
        format!("{} types, all values from the sharp sets of their leaves, with and without null, 6 ways of answering lengths and tags", n),
        move |ch| {
            let r = &rows[ch.choose(rows.len())];
            (r.trip)(ch, t.pick(0, -1))
        },
    ));
    let rows = table();
    f.push(family(
        "failures",
        format!("{} types, values; every call fails in turn, and every tape is cut or changed at every event", n),
        move |ch| {
            let r = &rows[ch.choose(rows.len())];
            (r.faults)(ch, t.pick(2, 1))
        },
    ));
    let rows = table();
    let budget = t.pick(9, 13);
    f.push(family(
        "any answers",
        format!("{} types read from a format for which the first {} answers (values, lengths, presence, nulls, indices) are free", n, budget),
        move |ch| {
            let r = &rows[ch.choose(rows.len())];
            (r.free)(ch, budget)
        },
    ));
    f.push(family("sizes", "lists of every length to 300 and 1000, 4096, 65537, in 3 places; strings of every length to 300 and 4096, 70000; trees of every depth to 300", |ch| match ch.choose(5) {
        0 => {
            let n = ch.choose(304);
            let n = [1000, 4096, 65537].get(n.wrapping_sub(301)).copied().unwrap_or(n);
            let v: Vec<Option<u16>> = (0..n).map(|i| if i % 3 == 0 { None } else { Some((i % 311) as u16 * 210) }).collect();
            ch.state(&n);
            let null = ch.flip();
            quiet(|| format!("{:?}", v), || trip(&v, null)).map(|_| ())
        }
        1 => {
            let v: Vec<Vec<u8>> = (0..ch.range(0, 40)).map(|i| (0..i as u8).collect()).collect();
            ch.state(&v);
            quiet(|| format!("{:?}", v), || trip(&v, true)).map(|_| ())
        }
        2 => {
            let v: ([u8; 60], Vec<()>) = (std::array::from_fn(|i| i as u8), vec![(); ch.range(0, 300)]);
            ch.state(&v.1.len());
            quiet(|| format!("{:?}", v), || trip(&(v.1.clone(), true), true))?;
            quiet(|| format!("{:?}", v), || trip(&v.0, false)).map(|_| ())
        }
        3 => {
            let n = ch.choose(303);
            let n = [4096, 70000].get(n.wrapping_sub(301)).copied().unwrap_or(n);
            let s: String = (0..n).map(|i| if i % 7 == 3 { '\u{10ffff}' } else { 'a' }).collect();
            ch.state(&s);
            quiet(|| s.clone(), || trip(&s, false)).map(|_| ())
        }
        _ => {
            let n = ch.range(0, 300);
            let mut t = Tree { label: "leaf".into(), kids: vec![] };
            for i in 0..n {
                t = Tree { label: format!("{}", i), kids: if i % 2 == 0 { vec![t] } else { vec![Tree::default(), t] } };
            }
            ch.state(&n);
            quiet(|| format!("{:?}", t), || trip(&t, false)).map(|_| ())
        }
    }));
    f
}

fn main() {
    mc::main(Check {
        id: "C19",
        families,
        assumptions: &[
            "Conforming formats are represented by a tape of events whose answers (null support, known lengths, tags by name or index, failures) are enumerated.",
            "Equality of the enumerated types is that of mc/shared/types.rs.",
        ],
    })
}
