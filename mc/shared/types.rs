//! A universe of types with codecs, whose values are enumerated by choices.

use mc::engine::Ch;
pub use serdere::{Deserialize, Serialize};
use std::fmt::Debug;
pub use std::num::*;

pub trait Val: Sized + Debug {
    /// Chooses a value. `lvl`: how deep it is nested (the deeper, the fewer values).
    fn gen(ch: &mut Ch, lvl: isize) -> Self;
    /// Equality, bit by bit for floats.
    fn same(&self, other: &Self) -> bool;
}

macro_rules! ints {
    ($($t:ident $nz:ident)*) => {
        $(
            impl Val for $t {
                fn gen(ch: &mut Ch, lvl: isize) -> Self {
                    const ALL: [$t; 12] = [0, 1, $t::MAX, $t::MIN, 9, 10, 99, 100, 127, $t::MAX - 1, $t::MIN + 1, $t::MAX / 2 + 1];
                    const SOME: [$t; 3] = [7, $t::MAX, $t::MIN];
                    match lvl {
                        ..=1 => *ch.pick(&ALL),
                        2 => *ch.pick(&SOME),
                        _ => *ch.pick(&SOME[..2]),
                    }
                }
                fn same(&self, other: &Self) -> bool {
                    self == other
                }
            }
            impl Val for $nz {
                fn gen(ch: &mut Ch, lvl: isize) -> Self {
                    const ALL: [$t; 7] = [1, $t::MAX, $t::MIN + 1, 9, 10, 100, $t::MAX - 1];
                    let n = if lvl < 2 { 7 } else { 2 };
                    $nz::new(*ch.pick(&ALL[..n])).unwrap()
                }
                fn same(&self, other: &Self) -> bool {
                    self == other
                }
            }
        )*
    };
}
ints!(i8 NonZeroI8 i16 NonZeroI16 i32 NonZeroI32 i64 NonZeroI64 u8 NonZeroU8 u16 NonZeroU16 u32 NonZeroU32 u64 NonZeroU64);

macro_rules! floats {
    ($($t:ident)*) => {
        $(impl Val for $t {
            fn gen(ch: &mut Ch, lvl: isize) -> Self {
                let all = [
                    0.0, -0.0, 1.0, -1.5, 0.1, $t::MAX, $t::MIN, $t::MIN_POSITIVE, $t::from_bits(1),
                    $t::EPSILON, 1e10, 1e16, 123456.789, 1e-7, 16777216.0, 9007199254740993.0,
                ];
                let n = match lvl { ..=1 => 16, 2 => 5, _ => 2 };
                *ch.pick(&all[..n])
            }
            fn same(&self, other: &Self) -> bool {
                self.to_bits() == other.to_bits()
            }
        })*
    };
}
floats!(f32 f64);

impl Val for bool {
    fn gen(ch: &mut Ch, _: isize) -> Self {
        ch.flip()
    }
    fn same(&self, other: &Self) -> bool {
        self == other
    }
}

pub const CHARS: [char; 16] = [
    'a', '"', '\\', '\n', '\0', '\u{1f}', '/', '\u{7f}', '\u{80}', 'é', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{feff}',
];

impl Val for char {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        let n = match lvl { ..=1 => 16, 2 => 4, _ => 2 };
        *ch.pick(&CHARS[..n])
    }
    fn same(&self, other: &Self) -> bool {
        self == other
    }
}

pub const STRS: [&str; 16] = [
    "", "a\"b\\", "x", "\n\t\r\u{8}\u{c}", "\0\u{1f}\u{7f}", "null", "{\"a\": [1, 2]}", "//", "/* */", "é\u{10ffff}\u{10000}", "\\u0041", "[", "'", " ",
    "a long text with more than thirty-two characters in it, and \"quotes\"", "\u{feff}\u{2028}",
];

impl Val for String {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        let n = match lvl { ..=1 => 16, 2 => 5, _ => 2 };
        ch.pick(&STRS[..n]).to_string()
    }
    fn same(&self, other: &Self) -> bool {
        self == other
    }
}

impl Val for () {
    fn gen(_: &mut Ch, _: isize) -> Self {}
    fn same(&self, _: &Self) -> bool {
        true
    }
}

impl<T: Val> Val for Option<T> {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        if ch.flip() {
            Some(T::gen(ch, lvl + 1))
        } else {
            None
        }
    }
    fn same(&self, other: &Self) -> bool {
        match (self, other) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
}

impl<T: Val> Val for Vec<T> {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        let n = ch.range(0, 2);
        (0..n).map(|_| T::gen(ch, lvl + n as isize)).collect()
    }
    fn same(&self, other: &Self) -> bool {
        self.len() == other.len() && self.iter().zip(other).all(|(a, b)| a.same(b))
    }
}

impl<T: Val, const N: usize> Val for [T; N] {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        std::array::from_fn(|_| T::gen(ch, lvl + N as isize))
    }
    fn same(&self, other: &Self) -> bool {
        self.iter().zip(other).all(|(a, b)| a.same(b))
    }
}

impl<T: Val, U: Val> Val for (T, U) {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        (T::gen(ch, lvl + 1), U::gen(ch, lvl + 3))
    }
    fn same(&self, other: &Self) -> bool {
        self.0.same(&other.0) && self.1.same(&other.1)
    }
}

impl<T: Val, U: Val, V: Val> Val for (T, U, V) {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        (T::gen(ch, lvl + 2), U::gen(ch, lvl + 2), V::gen(ch, lvl + 2))
    }
    fn same(&self, other: &Self) -> bool {
        self.0.same(&other.0) && self.1.same(&other.1) && self.2.same(&other.2)
    }
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Default)]
pub enum Unit {
    #[default]
    First,
    #[serde(rename = "the \"second\"\n")]
    Second,
    #[serde(reindex = 7)]
    Third,
    Fourth = 3,
}

impl Val for Unit {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        let n = if lvl < 3 { 4 } else { 2 };
        *ch.pick(&[Unit::First, Unit::Second, Unit::Third, Unit::Fourth][..n])
    }
    fn same(&self, other: &Self) -> bool {
        self == other
    }
}

#[derive(Serialize, Deserialize, Debug, Default)]
pub struct Plain<T> {
    pub x: bool,
    pub v: T,
    #[serde(rename = "odd \"name\" é")]
    pub y: u8,
}

impl<T: Val> Val for Plain<T> {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        Plain { x: ch.flip(), v: T::gen(ch, lvl + 1), y: u8::gen(ch, lvl + 3) }
    }
    fn same(&self, o: &Self) -> bool {
        self.x == o.x && self.v.same(&o.v) && self.y == o.y
    }
}

#[derive(Serialize, Deserialize, Debug, Default)]
pub struct Inner<T> {
    pub v: T,
    pub w: Option<u8>,
}

impl<T: Val> Val for Inner<T> {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        Inner { v: T::gen(ch, lvl + 1), w: Val::gen(ch, lvl + 3) }
    }
    fn same(&self, o: &Self) -> bool {
        self.v.same(&o.v) && self.w == o.w
    }
}

#[derive(Serialize, Deserialize, Debug, Default)]
pub struct Flat<T> {
    pub a: u8,
    #[serde(flatten)]
    pub inner: Inner<T>,
    #[serde(flatten)]
    pub empty: (),
    pub z: bool,
}

impl<T: Val> Val for Flat<T> {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        Flat { a: u8::gen(ch, lvl + 3), inner: Val::gen(ch, lvl + 1), empty: (), z: true }
    }
    fn same(&self, o: &Self) -> bool {
        self.a == o.a && self.inner.same(&o.inner) && self.z == o.z
    }
}

#[derive(Serialize, Deserialize, Debug, Default)]
#[serde(tag = "kind", rename = "Other")]
pub enum Tagged<T> {
    #[default]
    Nothing,
    Named {
        v: T,
        #[serde(default)]
        n: u16,
    },
    #[serde(transparent, rename = "in line")]
    Through(Inner<T>),
    #[serde(transparent, reindex = 9)]
    Also {
        inner: Plain<T>,
    },
}

impl<T: Val> Val for Tagged<T> {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        match ch.choose(4) {
            0 => Tagged::Nothing,
            1 => Tagged::Named { v: T::gen(ch, lvl + 1), n: u16::gen(ch, lvl + 3) },
            2 => Tagged::Through(Val::gen(ch, lvl + 1)),
            _ => Tagged::Also { inner: Val::gen(ch, lvl + 1) },
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Tagged::Nothing, Tagged::Nothing) => true,
            (Tagged::Named { v: a, n: b }, Tagged::Named { v: c, n: d }) => a.same(c) && b == d,
            (Tagged::Through(a), Tagged::Through(b)) => a.same(b),
            (Tagged::Also { inner: a }, Tagged::Also { inner: b }) => a.same(b),
            _ => false,
        }
    }
}

#[derive(Serialize, Deserialize, Debug, Default)]
pub struct Def<T> {
    #[serde(default)]
    pub v: T,
    pub x: u8,
    #[serde(default, rename = "s t")]
    pub s: String,
}

impl<T: Val> Val for Def<T> {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        Def { v: T::gen(ch, lvl + 1), x: u8::gen(ch, lvl + 3), s: String::gen(ch, lvl + 4) }
    }
    fn same(&self, o: &Self) -> bool {
        self.v.same(&o.v) && self.x == o.x && self.s == o.s
    }
}

/// Every kind of field at once.
#[derive(Serialize, Deserialize, Debug)]
pub struct Mixed {
    pub st: i64,
    pub ctx: f32,
    #[serde(flatten)]
    pub value: Inner<String>,
    pub none: Option<Option<char>>,
    pub list: Vec<(u8, Unit)>,
    pub unit: (),
    #[serde(flatten)]
    pub choice: Tagged2,
}

#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub enum Tagged2 {
    One { f: bool },
    Two,
}

impl Val for Mixed {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        Mixed {
            st: Val::gen(ch, lvl + 2),
            ctx: Val::gen(ch, lvl + 3),
            value: Val::gen(ch, lvl + 2),
            none: Val::gen(ch, lvl + 2),
            list: Val::gen(ch, lvl + 3),
            unit: (),
            choice: if ch.flip() { Tagged2::One { f: true } } else { Tagged2::Two },
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.st == o.st && self.ctx.same(&o.ctx) && self.value.same(&o.value) && self.none == o.none && self.list == o.list && self.choice == o.choice
    }
}

/// A type written by the codec of `str`.
#[derive(Debug, Default, PartialEq)]
pub struct Text(String);

impl<S: serdere::Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for Text {
    const NULLABLE: bool = <str as Serialize<S, Ctx>>::NULLABLE;
    fn serialize(&self, value: serdere::Value<S>, ctx: &mut Ctx) -> Result<(), S::Error> {
        <str as Serialize<S, Ctx>>::serialize(&self.0, value, ctx)
    }
}

impl<D: serdere::Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for Text {
    const NULLABLE: bool = false;
    fn deserialize(value: serdere::Value<D>, ctx: &mut Ctx) -> Result<Self, D::Error> {
        <String as Deserialize<D, Ctx>>::deserialize(value, ctx).map(Text)
    }
}

impl Val for Text {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        Text(String::gen(ch, lvl))
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

/// A type that contains itself.
#[derive(Debug, Default)]
pub struct Tree {
    pub label: String,
    pub kids: Vec<Tree>,
}

impl<S: serdere::Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for Tree {
    const NULLABLE: bool = false;
    fn serialize(&self, value: serdere::Value<S>, ctx: &mut Ctx) -> Result<(), S::Error> {
        let mut st = value.into_struct(Some("Tree"))?;
        st.field("label")?.put_using(&self.label, ctx)?;
        st.field("kids")?.put_using(&self.kids, ctx)?;
        st.close()
    }
}

impl<D: serdere::Deserializer + ?Sized, Ctx: ?Sized> Deserialize<D, Ctx> for Tree {
    const NULLABLE: bool = false;
    fn deserialize(value: serdere::Value<D>, ctx: &mut Ctx) -> Result<Self, D::Error> {
        let mut st = value.into_struct(Some("Tree"))?;
        let label = st.field("label")?.get_using(ctx)?;
        let kids = st.field("kids")?.get_using(ctx)?;
        st.close()?;
        Ok(Tree { label, kids })
    }
}

impl Val for Tree {
    fn gen(ch: &mut Ch, lvl: isize) -> Self {
        let n = if lvl < 3 { ch.range(0, 2) } else { 0 };
        Tree { label: String::gen(ch, lvl + 3), kids: (0..n).map(|_| Tree::gen(ch, lvl + 1)).collect() }
    }
    fn same(&self, o: &Self) -> bool {
        self.label == o.label && self.kids.same(&o.kids)
    }
}
