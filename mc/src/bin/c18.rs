//! C18: the user context reaches every nested value, in document order.

#[path = "../../shared/ctx_types_list.rs"]
#[macro_use]
mod ctx_types_list;

use mc::model;
use mc::tape::*;
use mc::*;
use serdere::deserialize::*;
use serdere::serialize::*;
use serdere::*;
use serdere_json::*;
use std::cell::Cell;
use std::rc::Rc;

/// What the codecs of this check need of a context.
pub trait Visit {
    /// A value is being written or read: returns what is added to its code.
    fn enter(&mut self, kind: u8) -> u8;
    /// The value of the last visit was this.
    fn is(&mut self, id: u8);
    /// A visit of a value without content.
    fn touch(&mut self);
    /// Whether the current visit is to fail.
    fn fails(&self) -> bool;
}

#[derive(Debug, Default)]
pub struct Log {
    /// Where the context was when it was made.
    base: usize,
    moved: bool,
    visits: Vec<(u8, u8)>,
    fail_at: Option<usize>,
}

impl Log {
    fn address(&self) -> usize {
        self as *const Log as usize
    }
}

impl Visit for Log {
    fn enter(&mut self, kind: u8) -> u8 {
        self.touch();
        self.visits.push((kind, 0));
        (self.visits.len() as u8).wrapping_mul(31)
    }
    fn is(&mut self, id: u8) {
        self.touch();
        if let Some(v) = self.visits.last_mut() {
            v.1 = id;
        }
    }
    fn touch(&mut self) {
        if self.address() != self.base {
            self.moved = true;
        }
    }
    fn fails(&self) -> bool {
        self.fail_at.is_some_and(|n| n + 1 == self.visits.len())
    }
}

/// Makes a context available in the form the codecs are given it.
pub trait Context: Visit {
    fn with<R>(log: &mut Log, f: impl FnOnce(&mut Self) -> R) -> R;
}

impl Context for Log {
    fn with<R>(log: &mut Log, f: impl FnOnce(&mut Log) -> R) -> R {
        f(log)
    }
}

impl Context for dyn Visit {
    fn with<R>(log: &mut Log, f: impl FnOnce(&mut (dyn Visit + 'static)) -> R) -> R {
        f(log)
    }
}

// ------------------------------------------------------------------ values with user codecs

/// A value whose code depends on how many values the context has seen before.
#[derive(Debug, Default, Clone, PartialEq)]
pub struct Probe(u8);

const PROBE: u8 = 1;
const PART: u8 = 2;
const NULL: u8 = 3;
const UNIT: u8 = 4;

#[derive(Debug)]
struct Refused;
impl std::fmt::Display for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("refused")
    }
}
impl std::error::Error for Refused {}

impl<S: Serializer + ?Sized, Ctx: Visit + ?Sized> Serialize<S, Ctx> for Probe {
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, ctx: &mut Ctx) -> Result<(), S::Error> {
        let code = self.0.wrapping_add(ctx.enter(PROBE));
        ctx.is(self.0);
        value.put_u8(code)
    }
}

impl<D: Deserializer + ?Sized, Ctx: Visit + ?Sized> Deserialize<D, Ctx> for Probe {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, ctx: &mut Ctx) -> Result<Self, D::Error> {
        let add = ctx.enter(PROBE);
        let (d, done) = value.into_raw();
        let id = d.get_u8()?.wrapping_sub(add);
        ctx.is(id);
        if ctx.fails() {
            return Err(d.error(Box::new(Refused)));
        }
        *done = true;
        Ok(Probe(id))
    }
}

/// A value with its own use of null.
#[derive(Debug, Default, Clone, PartialEq)]
pub struct NullProbe(Option<u8>);

impl<S: Serializer + ?Sized, Ctx: Visit + ?Sized> Serialize<S, Ctx> for NullProbe {
    const NULLABLE: bool = true;
    fn serialize(&self, value: Value<S>, ctx: &mut Ctx) -> Result<(), S::Error> {
        match self.0 {
            // Not logged, since a defaulted field takes care of its nulls itself
            None => {
                ctx.touch();
                let (s, done) = value.into_raw();
                if s.supports_null() {
                    s.pop_null()?;
                } else {
                    s.put_u16(u16::MAX)?;
                }
                *done = true;
                Ok(())
            }
            Some(id) => {
                let code = id.wrapping_add(ctx.enter(NULL));
                ctx.is(id);
                value.put_u16(code.into())
            }
        }
    }
}

impl<D: Deserializer + ?Sized, Ctx: Visit + ?Sized> Deserialize<D, Ctx> for NullProbe {
    const NULLABLE: bool = true;
    fn deserialize(mut value: Value<D>, ctx: &mut Ctx) -> Result<Self, D::Error> {
        ctx.touch();
        if value.check_null()? {
            return Ok(NullProbe(None));
        }
        let (d, done) = value.into_raw();
        let code = d.get_u16()?;
        if code == u16::MAX {
            *done = true;
            return Ok(NullProbe(None));
        }
        let add = ctx.enter(NULL);
        let id = (code as u8).wrapping_sub(add);
        ctx.is(id);
        if ctx.fails() {
            return Err(d.error(Box::new(Refused)));
        }
        *done = true;
        Ok(NullProbe(Some(id)))
    }
}

/// A struct with a user codec, which has a value with a user codec.
#[derive(Debug, Default, Clone, PartialEq)]
pub struct Part {
    id: u8,
    tail: Probe,
}

impl<S: Serializer + ?Sized, Ctx: Visit + ?Sized> Serialize<S, Ctx> for Part {
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, ctx: &mut Ctx) -> Result<(), S::Error> {
        serialize_struct(value, self, ctx, Some("Part"))
    }
}

impl<S: Serializer + ?Sized, Ctx: Visit + ?Sized> SerializeStruct<S, Ctx> for Part {
    fn serialize_content(&self, st: &mut Struct<S>, ctx: &mut Ctx) -> Result<(), S::Error> {
        let code = self.id.wrapping_add(ctx.enter(PART));
        ctx.is(self.id);
        st.field("part")?.put_u8(code)?;
        st.field("tail")?.put_using(&self.tail, ctx)
    }
}

impl<D: Deserializer + ?Sized, Ctx: Visit + ?Sized> Deserialize<D, Ctx> for Part {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, ctx: &mut Ctx) -> Result<Self, D::Error> {
        deserialize_struct(value, ctx, Some("Part"))
    }
}

impl<D: Deserializer + ?Sized, Ctx: Visit + ?Sized> DeserializeStruct<D, Ctx> for Part {
    fn deserialize_content(st: &mut Struct<D>, ctx: &mut Ctx) -> Result<Self, D::Error> {
        let add = ctx.enter(PART);
        let (d, done) = st.field("part")?.into_raw();
        let id = d.get_u8()?.wrapping_sub(add);
        ctx.is(id);
        if ctx.fails() {
            return Err(d.error(Box::new(Refused)));
        }
        *done = true;
        let tail = st.field("tail")?.get_using(ctx)?;
        Ok(Part { id, tail })
    }
}

/// A struct with a user codec and no fields.
#[derive(Debug, Default, Clone, PartialEq)]
pub struct UnitProbe;

impl<S: Serializer + ?Sized, Ctx: Visit + ?Sized> Serialize<S, Ctx> for UnitProbe {
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, ctx: &mut Ctx) -> Result<(), S::Error> {
        serialize_struct(value, self, ctx, None)
    }
}

impl<S: Serializer + ?Sized, Ctx: Visit + ?Sized> SerializeStruct<S, Ctx> for UnitProbe {
    fn serialize_content(&self, _: &mut Struct<S>, ctx: &mut Ctx) -> Result<(), S::Error> {
        ctx.enter(UNIT);
        Ok(())
    }
}

impl<D: Deserializer + ?Sized, Ctx: Visit + ?Sized> Deserialize<D, Ctx> for UnitProbe {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, ctx: &mut Ctx) -> Result<Self, D::Error> {
        deserialize_struct(value, ctx, None)
    }
}

impl<D: Deserializer + ?Sized, Ctx: Visit + ?Sized> DeserializeStruct<D, Ctx> for UnitProbe {
    fn deserialize_content(_: &mut Struct<D>, ctx: &mut Ctx) -> Result<Self, D::Error> {
        ctx.enter(UNIT);
        Ok(UnitProbe)
    }
}

// ------------------------------------------------------------------ types around them

thread_local!(static NEXT: Cell<u8> = const { Cell::new(0) });

fn next_id() -> u8 {
    NEXT.with(|n| {
        n.set(n.get().wrapping_add(1));
        n.get()
    })
}

/// A value, and the visits it takes, in order.
pub trait Walk: Sized + std::fmt::Debug + PartialEq {
    fn gen(ch: &mut Ch, lvl: isize) -> Self;
    fn walk(&self, out: &mut Vec<(u8, u8)>);
}

impl Walk for Probe {
    fn gen(_: &mut Ch, _: isize) -> Self {
        Probe(next_id())
    }
    fn walk(&self, out: &mut Vec<(u8, u8)>) {
        out.push((PROBE, self.0));
    }
}

impl Walk for NullProbe {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        NullProbe(if lvl > 3 || ch.flip() { Some(next_id()) } else { None })
    }
    fn walk(&self, out: &mut Vec<(u8, u8)>) {
        out.extend(self.0.map(|id| (NULL, id)));
    }
}

impl Walk for Part {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        Part { id: next_id(), tail: Walk::gen(ch, lvl) }
    }
    fn walk(&self, out: &mut Vec<(u8, u8)>) {
        out.push((PART, self.id));
        self.tail.walk(out);
    }
}

impl Walk for UnitProbe {
    fn gen(_: &mut Ch, _: isize) -> Self {
        UnitProbe
    }
    fn walk(&self, out: &mut Vec<(u8, u8)>) {
        out.push((UNIT, 0));
    }
}

impl Walk for u8 {
    fn gen(_: &mut Ch, _: isize) -> Self {
        next_id()
    }
    fn walk(&self, _: &mut Vec<(u8, u8)>) {}
}

impl Walk for bool {
    fn gen(_: &mut Ch, _: isize) -> Self {
        true
    }
    fn walk(&self, _: &mut Vec<(u8, u8)>) {}
}

impl<T: Walk> Walk for Option<T> {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        if lvl > 5 || ch.flip() {
            Some(T::gen(ch, lvl + 1))
        } else {
            None
        }
    }
    fn walk(&self, out: &mut Vec<(u8, u8)>) {
        if let Some(x) = self {
            x.walk(out);
        }
    }
}

impl<T: Walk> Walk for Vec<T> {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        let n = match lvl {
            ..=0 => ch.range(0, 3),
            1..=3 => ch.range(0, 2),
            4 | 5 => ch.range(0, 1),
            _ => 1,
        };
        (0..n).map(|_| T::gen(ch, lvl + n.max(1) as isize)).collect()
    }
    fn walk(&self, out: &mut Vec<(u8, u8)>) {
        self.iter().for_each(|x| x.walk(out));
    }
}

impl<T: Walk, const N: usize> Walk for [T; N] {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        std::array::from_fn(|_| T::gen(ch, lvl + N.max(1) as isize))
    }
    fn walk(&self, out: &mut Vec<(u8, u8)>) {
        self.iter().for_each(|x| x.walk(out));
    }
}

impl<T: Walk, U: Walk> Walk for (T, U) {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        (T::gen(ch, lvl + 1), U::gen(ch, lvl + 2))
    }
    fn walk(&self, out: &mut Vec<(u8, u8)>) {
        self.0.walk(out);
        self.1.walk(out);
    }
}

impl<T: Walk, U: Walk, V: Walk> Walk for (T, U, V) {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        (T::gen(ch, lvl + 2), U::gen(ch, lvl + 2), V::gen(ch, lvl + 3))
    }
    fn walk(&self, out: &mut Vec<(u8, u8)>) {
        self.0.walk(out);
        self.1.walk(out);
        self.2.walk(out);
    }
}

macro_rules! structs {
    ($(
        $name:ident { $( $(#[$m:meta])* $f:ident: $t:ty, )* }
    )*) => { $(
        #[derive(Serialize, Deserialize, Debug, Default, PartialEq)]
        pub struct $name<T> {
            $( $(#[$m])* pub $f: $t, )*
        }
        impl<T: Walk> Walk for $name<T> {
            fn gen(ch: &mut Ch, lvl: isize) -> Self {
                let lvl = lvl + [$(stringify!($f)),*].len() as isize / 2;
                $name { $( $f: Walk::gen(ch, lvl), )* }
            }
            fn walk(&self, out: &mut Vec<(u8, u8)>) {
                $( self.$f.walk(out); )*
            }
        }
    )* };
}

structs! {
    Plain {
        a: Probe,
        v: T,
        #[serde(rename = "other name")]
        b: Probe,
    }
    Inner {
        v: T,
        w: Probe,
    }
    Flat {
        x: Probe,
        #[serde(flatten)]
        inner: Inner<T>,
        #[serde(flatten)]
        unit: UnitProbe,
        y: Probe,
    }
    Def {
        #[serde(default)]
        v: T,
        #[serde(default, rename = "a")]
        p: Probe,
        z: Option<Probe>,
    }
    Multi {
        one: T,
        #[serde(flatten)]
        inner: Inner<T>,
        #[serde(default)]
        two: T,
        #[serde(flatten)]
        part: Part,
        #[serde(rename = "")]
        three: Option<T>,
        list: Vec<Probe>,
        four: T,
    }
}

#[derive(Serialize, Deserialize, Debug, Default, PartialEq)]
#[serde(tag = "kind", rename = "Other")]
pub enum Tagged<T> {
    #[default]
    Nothing,
    Named {
        p: Probe,
        v: T,
        #[serde(default)]
        q: Probe,
    },
    #[serde(transparent, rename = "in line")]
    Through(Inner<T>),
    #[serde(transparent, reindex = 9)]
    Also { inner: Part },
}

impl<T: Walk> Walk for Tagged<T> {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        match ch.choose(4) {
            0 => Tagged::Nothing,
            1 => Tagged::Named { p: Walk::gen(ch, lvl), v: Walk::gen(ch, lvl + 1), q: Walk::gen(ch, lvl) },
            2 => Tagged::Through(Walk::gen(ch, lvl)),
            _ => Tagged::Also { inner: Walk::gen(ch, lvl) },
        }
    }
    fn walk(&self, out: &mut Vec<(u8, u8)>) {
        match self {
            Tagged::Nothing => (),
            Tagged::Named { p, v, q } => {
                p.walk(out);
                v.walk(out);
                q.walk(out);
            }
            Tagged::Through(x) => x.walk(out),
            Tagged::Also { inner } => inner.walk(out),
        }
    }
}

#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub enum Choice<T> {
    A {
        z: T,
        #[serde(flatten)]
        part: Part,
        y: T,
    },
    #[serde(transparent)]
    B(Flat<T>),
    C {
        #[serde(flatten)]
        unit: UnitProbe,
    },
}

impl<T: Default> Default for Choice<T> {
    fn default() -> Self {
        Choice::C { unit: UnitProbe }
    }
}

impl<T: Walk> Walk for Choice<T> {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        match ch.choose(3) {
            0 => Choice::A { z: Walk::gen(ch, lvl + 1), part: Walk::gen(ch, lvl), y: Walk::gen(ch, lvl + 2) },
            1 => Choice::B(Walk::gen(ch, lvl)),
            _ => Choice::C { unit: UnitProbe },
        }
    }
    fn walk(&self, out: &mut Vec<(u8, u8)>) {
        match self {
            Choice::A { z, part, y } => {
                z.walk(out);
                part.walk(out);
                y.walk(out);
            }
            Choice::B(x) => x.walk(out),
            Choice::C { unit } => unit.walk(out),
        }
    }
}

// ------------------------------------------------------------------ the check

type Json<'a> = TextSerializer<&'a mut String>;
type FromStr<'a> = TextDeserializer<&'a str>;
type FromBytes<'a> = TextDeserializer<Utf8Reader<&'a [u8]>>;

pub trait Any<C: Context + ?Sized>:
    Walk
    + for<'a> Serialize<Json<'a>, C>
    + for<'a> Deserialize<FromStr<'a>, C>
    + for<'a> Deserialize<FromBytes<'a>, C>
    + Serialize<TapeSer, C>
    + Deserialize<TapeDe, C>
{
}

impl<C: Context + ?Sized, T> Any<C> for T where
    T: Walk
        + for<'a> Serialize<Json<'a>, C>
        + for<'a> Deserialize<FromStr<'a>, C>
        + for<'a> Deserialize<FromBytes<'a>, C>
        + Serialize<TapeSer, C>
        + Deserialize<TapeDe, C>
{
}

/// Runs something with a fresh context, and returns the visits.
fn visits<C: Context + ?Sized, R>(what: &str, fail_at: Option<usize>, f: impl FnOnce(&mut C) -> R) -> Result<(R, Vec<(u8, u8)>), Fail> {
    let mut log = Box::new(Log { fail_at, ..Log::default() });
    log.base = log.address();
    let res = C::with(&mut log, f);
    check!(!log.moved, "{}: some value was given another context", what);
    Ok((res, log.visits))
}

fn expect<T: PartialEq + std::fmt::Debug>(what: &str, doc: &dyn std::fmt::Debug, value: &T, want: &[(u8, u8)], got: (Result<T, String>, Vec<(u8, u8)>)) -> Outcome {
    match got.0 {
        Ok(v) => {
            check!(got.1 == want, "{}: reading {:?} visited {:?} (kind and number), but writing {:?}", what, doc, got.1, want);
            check!(v == *value, "{}: {:?} was read from {:?}, which was written for {:?}", what, v, doc, value);
            Ok(())
        }
        Err(e) => fail(format!("{}: reading {:?} failed: {} (written for {:?}, visited {:?})", what, doc, e, value, got.1)),
    }
}

/// The document with the entries of every object in another order, or with others between, or as
/// arrays.
fn rearranged(v: &model::Val, doc: &[char], how: usize) -> String {
    match &v.node {
        model::Node::Arr(items) => format!("[{}]", items.iter().map(|v| rearranged(v, doc, how)).collect::<Vec<_>>().join(", ")),
        model::Node::Obj(entries) => {
            let n = entries.len();
            let entry = |i: usize| format!("{}: {}", model::quote(&entries[i].0.text), rearranged(&entries[i].1, doc, how));
            let all: Vec<String> = match how {
                0 => (0..n).rev().map(entry).collect(),
                1 => (0..n).map(|i| entry((i + 1) % n)).collect(),
                2 => {
                    let unknown = r#""?": {"v": [1, {"a": null}]}"#;
                    // From both ends
                    let mut all: Vec<String> = (0..n).map(|i| entry(if i % 2 == 0 { n - 1 - i / 2 } else { i / 2 })).collect();
                    all.insert(n / 2, unknown.to_string());
                    all.insert(0, unknown.replace('?', "??"));
                    all
                }
                _ => return format!("[{}]", (0..n).map(|i| rearranged(&entries[i].1, doc, how)).collect::<Vec<_>>().join(", ")),
            };
            format!("{{{}}}", all.join(", "))
        }
        _ => doc[v.start..v.end].iter().collect(),
    }
}

fn str_err(e: DeserializeError<impl std::fmt::Debug>) -> String {
    e.message().to_string()
}

fn run<C: Context + ?Sized, T: Any<C>>(ch: &mut Ch, lvl: isize) -> Outcome {
    let name = std::any::type_name::<T>();
    NEXT.with(|n| n.set(0));
    let value = T::gen(ch, lvl);
    ch.note(|| format!("{}: {:?}", name, value));
    let mut want = Vec::new();
    value.walk(&mut want);
    ch.state(&(name, &want, format!("{:?}", value)));
    let mut steps = 0;
    let res = sut(|| -> Outcome {
        let what = |s: &str| format!("{} ({})", name, s);
        // JSON
        let (text, log) = visits::<C, _>(&what("to_str_using"), None, |c| to_str_using(&value, c))?;
        check!(log == want, "{}: writing {:?} visited {:?} (kind and number), not {:?}", name, value, log, want);
        let mut again = String::new();
        let (res, log) = visits::<C, _>(&what("to_writer_using"), None, |c| to_writer_using(&mut again, &value, c))?;
        check!(res.is_ok() && again == text && log == want, "{}: to_writer_using wrote {:?} with the visits {:?}", name, again, log);
        let mut texts = vec![text.clone()];
        let doc: Vec<char> = text.chars().collect();
        let parsed = match model::parse(&doc, false) {
            Ok(v) => v,
            Err(_) => return fail(format!("{}: {:?} was written as {:?}", name, value, text)),
        };
        texts.extend((0..4).map(|how| rearranged(&parsed, &doc, how)));
        for text in &texts {
            let got = visits::<C, _>(&what("from_str_using"), None, |c| from_str_using::<T, C>(text, c).map_err(str_err))?;
            expect(&what("from_str_using"), text, &value, &want, got)?;
            let got = visits::<C, _>(&what("from_reader_using"), None, |c| {
                from_reader_using::<_, T, C>(Utf8Reader::new(text.as_bytes()).map_err(|_| ()).expect("reader"), c).map_err(str_err)
            })?;
            expect(&what("from_reader_using"), text, &value, &want, got)?;
            steps += 2 + 2 * want.len();
        }
        // A codec that fails ends the visits
        for at in (0..want.len()).filter(|at| want.len() < 1000 || at % 311 == 7) {
            if want[at].0 == UNIT {
                continue;
            }
            let text = &texts[at % texts.len()];
            let (res, log) = visits::<C, _>(&what("failing"), Some(at), |c| from_str_using::<T, C>(text, c).map_err(str_err))?;
            check!(
                res.is_err() && log == want[..=at],
                "{}: reading {:?}, of which visit {} fails, returned {:?} after the visits {:?}", name, text, at, res, log
            );
            steps += at + 1;
        }
        // Any other format
        for null in [false, true] {
            let mut ser = TapeSer::new(null, None);
            let mut done = false;
            let (res, log) = visits::<C, _>(&what("put_using"), None, |c| Value::new(&mut ser, &mut done).put_using(&value, c))?;
            check!(res.is_ok() && log == want, "{}: put_using ended with {:?} and the visits {:?}, not {:?}", name, res, log, want);
            let tape = Rc::new(ser.tape);
            for (known, by_name) in [(true, false), (false, true)] {
                let mut de = TapeDe::new(tape.clone(), Answers { null, known, alternate: false, by_name }, None);
                let mut done = false;
                let got = visits::<C, _>(&what("get_using"), None, |c| Value::new(&mut de, &mut done).get_using::<T, C>(c).map_err(|e| format!("{:?}", e)))?;
                expect(&what("get_using"), &tape, &value, &want, got)?;
                steps += want.len() + 1;
            }
        }
        Ok(())
    });
    ch.steps(steps);
    match res {
        Ok(r) => r,
        Err(p) => fail(format!("{}: {:?}: panicked: {}", name, value, p)),
    }
}

type Run = fn(&mut Ch, isize) -> Outcome;

fn table() -> Vec<(&'static str, Run)> {
    macro_rules! entry {
        ($t:ty) => {
            (stringify!($t), run::<dyn Visit, $t> as Run)
        };
    }
    let mut rows = for_types!(entry);
    if let Ok(t) = std::env::var("MC_TYPE") {
        rows.retain(|e| e.0.replace(" ", "") == t.replace(" ", ""));
    }
    rows
}

// ------------------------------------------------------------------ proxies

/// What a value is converted to.
#[derive(Debug, Default, PartialEq)]
pub struct Made<T>(Option<T>);

macro_rules! made {
    ($($t:ty)*) => { $(
        impl From<$t> for Made<$t> {
            fn from(x: $t) -> Self {
                Made(Some(x))
            }
        }
    )* };
}
made!(Probe Part Vec<Probe> Option<Probe> NullProbe Plain<Probe> Choice<Probe>);

#[derive(Serialize)]
pub struct Before {
    a: Probe,
    b: Probe,
    #[serde(flatten)]
    part: Part,
    list: Vec<Probe>,
    opt: Option<Probe>,
    #[serde(flatten)]
    inner: Inner<Probe>,
    null: NullProbe,
    choice: Choice<Probe>,
    z: Probe,
}

#[derive(Deserialize, Debug)]
pub struct After {
    #[serde(proxy = Probe)]
    a: Made<Probe>,
    b: Probe,
    #[serde(flatten, proxy = Part)]
    part: Made<Part>,
    #[serde(default, proxy = Vec<Probe>)]
    list: Made<Vec<Probe>>,
    #[serde(default)]
    #[serde(proxy = Option<Probe>)]
    opt: Made<Option<Probe>>,
    #[serde(flatten)]
    inner: Inner<Probe>,
    #[serde(proxy = NullProbe)]
    null: Made<NullProbe>,
    #[serde(proxy = Choice<Probe>)]
    choice: Made<Choice<Probe>>,
    #[serde(proxy = Probe)]
    z: Made<Probe>,
}

fn proxies(ch: &mut Ch) -> Outcome {
    NEXT.with(|n| n.set(0));
    let v = Before {
        a: Walk::gen(ch, 0),
        b: Walk::gen(ch, 0),
        part: Walk::gen(ch, 0),
        list: Walk::gen(ch, 0),
        opt: Walk::gen(ch, 0),
        inner: Walk::gen(ch, 0),
        null: Walk::gen(ch, 0),
        choice: Walk::gen(ch, 0),
        z: Walk::gen(ch, 0),
    };
    let mut want = Vec::new();
    v.a.walk(&mut want);
    v.b.walk(&mut want);
    v.part.walk(&mut want);
    v.list.walk(&mut want);
    v.opt.walk(&mut want);
    v.inner.walk(&mut want);
    v.null.walk(&mut want);
    v.choice.walk(&mut want);
    v.z.walk(&mut want);
    let r = sut(|| -> Outcome {
        let (text, log) = visits::<dyn Visit, _>("writing", None, |c| to_str_using(&v, c))?;
        check!(log == want, "writing {} visited {:?} (kind and number), not {:?}", text, log, want);
        let doc: Vec<char> = text.chars().collect();
        let parsed = model::parse(&doc, false).map_err(|_| Fail { key: None, msg: format!("{:?} was written", text) })?;
        ch.state(&text);
        for how in 0..5 {
            let text = if how == 4 { text.clone() } else { rearranged(&parsed, &doc, how) };
            ch.note(|| text.clone());
            let (res, log) = visits::<dyn Visit, _>("reading", None, |c| from_str_using::<After, dyn Visit>(&text, c).map_err(str_err))?;
            ch.steps(want.len());
            check!(log == want, "reading {} with proxies visited {:?} (kind and number), not {:?}", text, log, want);
            let r = match res {
                Ok(r) => r,
                Err(e) => return fail(format!("reading {} with proxies failed: {}", text, e)),
            };
            let same = r.a.0.as_ref() == Some(&v.a)
                && r.b == v.b
                && r.part.0.as_ref() == Some(&v.part)
                && r.list.0.as_ref() == Some(&v.list)
                && r.opt.0 == v.opt.clone().map(Some)
                && r.inner == v.inner
                && r.null.0.as_ref() == Some(&v.null)
                && r.choice.0.as_ref() == Some(&v.choice)
                && r.z.0.as_ref() == Some(&v.z);
            check!(same, "{} was read with proxies as {:?}", text, r);
        }
        Ok(())
    });
    match r {
        Ok(r) => r,
        Err(p) => fail(format!("proxies: panicked: {}", p)),
    }
}

// ------------------------------------------------------------------ structs within objects

fn inline<T>(ch: &mut Ch) -> Outcome
where
    T: Walk + for<'a> SerializeStruct<Json<'a>, dyn Visit> + for<'a> DeserializeStruct<FromStr<'a>, dyn Visit>,
{
    let name = std::any::type_name::<T>();
    NEXT.with(|n| n.set(0));
    let (first, value, last) = (Probe::gen(ch, 0), T::gen(ch, 1), Probe::gen(ch, 0));
    let mut want = Vec::new();
    first.walk(&mut want);
    value.walk(&mut want);
    last.walk(&mut want);
    let r = sut(|| -> Outcome {
        let mut text = String::new();
        let ((), log) = visits::<dyn Visit, _>("inline_put_using", None, |c| {
            let mut s = TextSerializer::new(TextSerializerConfig::default(), &mut text);
            Value::with(&mut s, |v| {
                let mut st = v.into_struct(None)?;
                st.field("(first)")?.put_using(&first, c)?;
                st.inline_put_using(&value, c)?;
                st.field("(last)")?.put_using(&last, c)?;
                st.close()
            })
            .expect("writing to a string");
        })?;
        check!(log == want, "{}: writing {:?} in place visited {:?} (kind and number), not {:?}", name, value, log, want);
        let doc: Vec<char> = text.chars().collect();
        let parsed = model::parse(&doc, false).map_err(|_| Fail { key: None, msg: format!("{:?} was written", text) })?;
        ch.state(&(name, &text));
        ch.note(|| format!("{}: {}", name, text));
        for how in 0..5 {
            let text = match how {
                0..=2 => rearranged(&parsed, &doc, how),
                _ => text.clone(),
            };
            for object in [false, true] {
                let (res, log) = visits::<dyn Visit, _>("inline_get_using", None, |c| -> Result<_, DeserializeError<StrPosition>> {
                    let mut d = TextDeserializer::new(TextDeserializerConfig::default(), text.as_str())?;
                    let res = Value::with(&mut d, |v| {
                        if object {
                            let mut o = v.into_object()?;
                            let first = o.entry("(first)")?.get_using(c)?;
                            let value: T = o.inline_using(c)?;
                            let last = o.entry("(last)")?.get_using(c)?;
                            while let Some(e) = o.next_entry()? {
                                e.value()?.skip()?;
                            }
                            Ok((first, value, last))
                        } else {
                            let mut st = v.into_struct(None)?;
                            let first = st.field("(first)")?.get_using(c)?;
                            let value: T = st.inline_get_using(c)?;
                            let last = st.field("(last)")?.get_using(c)?;
                            st.close()?;
                            Ok((first, value, last))
                        }
                    })?;
                    d.close()?;
                    Ok(res)
                })?;
                ch.steps(want.len());
                check!(log == want, "{}: reading {} in place visited {:?} (kind and number), not {:?}", name, text, log, want);
                let got: Result<(Probe, T, Probe), String> = res.map_err(str_err);
                match got {
                    Ok((f, v, l)) if f == first && v == value && l == last => (),
                    other => return fail(format!("{}: reading {} in place returned {:?}", name, text, other)),
                }
            }
        }
        Ok(())
    });
    match r {
        Ok(r) => r,
        Err(p) => fail(format!("{}: {:?} in place: panicked: {}", name, value, p)),
    }
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = Vec::new();
    let rows = table();
    f.push(family(
        "types",
        format!(
            "{} types around values with a user codec over an unsized context, all shapes (presence, variants, lengths); JSON text in order, permuted, with unknown entries and as arrays, from strings and bytes, every visit failing; and a format with and without null, by name and index",
            rows.len()
        ),
        move |ch| {
            let (_, run) = rows[ch.choose(rows.len())];
            run(ch, t.pick(-5, -8))
        },
    ));
    f.push(family("sized context", "the same for a context of a sized type, 22 types", |ch| {
        type C = Log;
        let all: [Run; 22] = [
            run::<C, Probe>,
            run::<C, NullProbe>,
            run::<C, Part>,
            run::<C, UnitProbe>,
            run::<C, Option<Probe>>,
            run::<C, Option<NullProbe>>,
            run::<C, Option<Option<Probe>>>,
            run::<C, Vec<Probe>>,
            run::<C, Vec<Part>>,
            run::<C, Vec<Vec<Probe>>>,
            run::<C, [Probe; 4]>,
            run::<C, (Probe, Part)>,
            run::<C, (Probe, Part, NullProbe)>,
            run::<C, Plain<Probe>>,
            run::<C, Inner<NullProbe>>,
            run::<C, Flat<Part>>,
            run::<C, Tagged<Probe>>,
            run::<C, Def<Probe>>,
            run::<C, Multi<Probe>>,
            run::<C, Choice<Part>>,
            run::<C, Multi<Option<Choice<Probe>>>>,
            run::<C, Vec<Tagged<Option<Probe>>>>,
        ];
        let r = all[ch.choose(all.len())];
        r(ch, 0)
    }));
    f.push(family("proxies", "a struct with proxied fields of every kind (named, flattened, defaulted, nullable, enum), all shapes and arrangements", proxies));
    f.push(family("in place", "7 struct types written and read within a struct or object of the user, all shapes, entries permuted", |ch| {
        let all: [fn(&mut Ch) -> Outcome; 9] = [
            inline::<Part>,
            inline::<UnitProbe>,
            inline::<Plain<Probe>>,
            inline::<Inner<Option<Probe>>>,
            inline::<Flat<Vec<Probe>>>,
            inline::<Tagged<Probe>>,
            inline::<Def<Part>>,
            inline::<Multi<Probe>>,
            inline::<Choice<Probe>>,
        ];
        let r = all[ch.choose(all.len())];
        r(ch)
    }));
    f.push(family("sizes", "sequences of every length to 300, and of 1000, 4096 and 65537", |ch| {
        let n = ch.choose(304);
        let n = [1000, 4096, 65537].get(n.wrapping_sub(301)).copied().unwrap_or(n);
        LEN.with(|l| l.set(n));
        run::<dyn Visit, Long>(ch, 0)
    }));
    f
}

thread_local!(static LEN: Cell<usize> = const { Cell::new(0) });

/// Sequences of a length set beforehand.
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct Long {
    v: Vec<Probe>,
    w: Vec<Option<Inner<Probe>>>,
}

impl Walk for Long {
    fn gen(ch: &mut Ch, _: isize) -> Self {
        let n = LEN.with(|n| n.get());
        Long {
            v: (0..n).map(|_| Walk::gen(ch, 0)).collect(),
            w: (0..n / 2).map(|i| (i % 3 != 1).then(|| Walk::gen(ch, 0))).collect(),
        }
    }
    fn walk(&self, out: &mut Vec<(u8, u8)>) {
        self.v.walk(out);
        self.w.walk(out);
    }
}

fn main() {
    mc::main(Check {
        id: "C18",
        families,
        assumptions: &["The order of visits expected for a value is that of the hand-written walks in mc/src/bin/c18.rs."],
    })
}
