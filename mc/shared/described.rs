//! Descriptions of standard and derived types as data (see `mc::schema`).

use mc::schema::*;
use serdere::{Deserialize, Value};
use serdere_json::*;

/// A type of the standard library or with a derived codec.
pub trait Described {
    fn ty() -> Ty;
    fn g(&self) -> G;
}

/// The holes are of a described type.
pub struct Of<T>(std::marker::PhantomData<T>);

impl<D: JsonDeserializer, T: Described + Deserialize<D>> Leaf<D> for Of<T> {
    fn read(v: Value<D>) -> Result<G, D::Error> {
        Ok(v.get::<T>()?.g())
    }
}

/// The holes are objects with a described type inlined.
pub struct InlinedOf<T, const HOW: usize>(std::marker::PhantomData<T>);

pub const INLINES: [Inline; 6] =
    [Inline::Rest, Inline::Between("y0", "y1"), Inline::Between("y1", "none"), Inline::First, Inline::Again, Inline::Close];

impl<D: JsonDeserializer, T: Described + serdere::deserialize::DeserializeStruct<D>, const HOW: usize> Leaf<D> for InlinedOf<T, HOW> {
    fn read(v: Value<D>) -> Result<G, D::Error> {
        read_inlined(INLINES[HOW], v, |o| Ok(o.inline::<T>()?.g()))
    }
}

macro_rules! ints {
    ($($t:ty, $bits:expr, $signed:expr;)*) => { $(
        impl Described for $t {
            fn ty() -> Ty {
                Ty::Int { bits: $bits, signed: $signed }
            }
            fn g(&self) -> G {
                G::Int(*self as i128)
            }
        }
    )* };
}
ints! { u8, 8, false; u16, 16, false; u32, 32, false; u64, 64, false; i8, 8, true; i16, 16, true; i32, 32, true; i64, 64, true; }

impl Described for bool {
    fn ty() -> Ty {
        Ty::Bool
    }
    fn g(&self) -> G {
        G::Bool(*self)
    }
}

impl Described for char {
    fn ty() -> Ty {
        Ty::Char
    }
    fn g(&self) -> G {
        G::Char(*self)
    }
}

impl Described for f64 {
    fn ty() -> Ty {
        Ty::F64
    }
    fn g(&self) -> G {
        G::F(self.to_bits())
    }
}

impl Described for String {
    fn ty() -> Ty {
        Ty::Str
    }
    fn g(&self) -> G {
        G::Str(self.clone())
    }
}

impl Described for std::num::NonZeroU8 {
    fn ty() -> Ty {
        Ty::NonZero
    }
    fn g(&self) -> G {
        G::Int(self.get().into())
    }
}

impl Described for () {
    fn ty() -> Ty {
        Ty::Struct(Vec::new())
    }
    fn g(&self) -> G {
        G::Seq(Vec::new())
    }
}

impl<T: Described> Described for Option<T> {
    fn ty() -> Ty {
        match T::ty() {
            t @ (Ty::Opt(_) | Ty::Opt2(_) | Ty::Null) => Ty::Opt2(Box::new(t)),
            t => Ty::Opt(Box::new(t)),
        }
    }
    fn g(&self) -> G {
        match self {
            None => G::None,
            Some(x) => G::Some(Box::new(x.g())),
        }
    }
}

impl<T: Described> Described for Vec<T> {
    fn ty() -> Ty {
        Ty::List(Box::new(T::ty()))
    }
    fn g(&self) -> G {
        G::Seq(self.iter().map(|x| x.g()).collect())
    }
}


impl<T: Described, const N: usize> Described for [T; N] {
    fn ty() -> Ty {
        Ty::Tuple((0..N).map(|_| T::ty()).collect())
    }
    fn g(&self) -> G {
        G::Seq(self.iter().map(|x| x.g()).collect())
    }
}

impl<A: Described, B: Described> Described for (A, B) {
    fn ty() -> Ty {
        Ty::Tuple(vec![A::ty(), B::ty()])
    }
    fn g(&self) -> G {
        G::Seq(vec![self.0.g(), self.1.g()])
    }
}

impl<A: Described, B: Described, C: Described> Described for (A, B, C) {
    fn ty() -> Ty {
        Ty::Tuple(vec![A::ty(), B::ty(), C::ty()])
    }
    fn g(&self) -> G {
        G::Seq(vec![self.0.g(), self.1.g(), self.2.g()])
    }
}

/// A struct with required, nullable and defaulted fields.
#[derive(Deserialize)]
pub struct Point {
    pub x: u8,
    pub y: Option<i8>,
    #[serde(default)]
    pub z: bool,
}

fn point_fields() -> Vec<Field> {
    vec![field("x", u8::ty()), field("y", <Option<i8>>::ty()), defaulted("z", Ty::Bool, G::Bool(false))]
}

impl Point {
    fn gs(&self) -> Vec<G> {
        vec![self.x.g(), self.y.g(), self.z.g()]
    }
}

impl Described for Point {
    fn ty() -> Ty {
        Ty::Struct(point_fields())
    }
    fn g(&self) -> G {
        G::Seq(self.gs())
    }
}

/// No fields.
#[derive(Deserialize)]
pub struct Empty {}

impl Described for Empty {
    fn ty() -> Ty {
        Ty::Struct(Vec::new())
    }
    fn g(&self) -> G {
        G::Seq(Vec::new())
    }
}

/// Renamed fields, aggregates, and names which are prefixes of each other.
#[derive(Deserialize)]
pub struct Names {
    #[serde(rename = "é\n")]
    pub a: char,
    #[serde(rename = "é")]
    #[serde(default)]
    pub b: String,
    #[serde(rename = "")]
    pub c: (u8, bool),
}

impl Described for Names {
    fn ty() -> Ty {
        Ty::Struct(vec![
            field("é\n", Ty::Char),
            defaulted("é", Ty::Str, G::Str(String::new())),
            field("", <(u8, bool)>::ty()),
        ])
    }
    fn g(&self) -> G {
        G::Seq(vec![self.a.g(), self.b.g(), self.c.g()])
    }
}

/// A flattened struct between other fields.
#[derive(Deserialize)]
pub struct Outer {
    pub a: u8,
    #[serde(flatten)]
    pub p: Point,
    pub b: Option<Option<bool>>,
}

impl Described for Outer {
    fn ty() -> Ty {
        let mut f = vec![field("a", u8::ty())];
        f.extend(point_fields());
        f.push(field("b", <Option<Option<bool>>>::ty()));
        Ty::Struct(f)
    }
    fn g(&self) -> G {
        let mut g = vec![self.a.g()];
        g.extend(self.p.gs());
        g.push(self.b.g());
        G::Seq(g)
    }
}

/// Nested structs.
#[derive(Deserialize)]
pub struct Nest {
    pub p: Point,
    pub q: Option<Point>,
    #[serde(default)]
    pub r: Vec<Point>,
}

impl Described for Nest {
    fn ty() -> Ty {
        Ty::Struct(vec![
            field("p", Point::ty()),
            field("q", <Option<Point>>::ty()),
            defaulted("r", <Vec<Point>>::ty(), G::Seq(Vec::new())),
        ])
    }
    fn g(&self) -> G {
        G::Seq(vec![self.p.g(), self.q.g(), self.r.g()])
    }
}

/// A tagged enum.
#[derive(Deserialize)]
#[serde(tag = "kind")]
pub enum Shape {
    Dot,
    #[serde(rename = "circle")]
    Circle {
        r: u8,
        c: Option<bool>,
    },
    #[serde(transparent)]
    At(Point),
    #[serde(reindex = 7)]
    Far {
        x: i64,
    },
}

impl Described for Shape {
    fn ty() -> Ty {
        Ty::Enum {
            tag: "kind",
            variants: vec![
                Variant { name: "Dot", index: 0, fields: vec![] },
                Variant { name: "circle", index: 1, fields: vec![field("r", u8::ty()), field("c", <Option<bool>>::ty())] },
                Variant { name: "At", index: 2, fields: point_fields() },
                Variant { name: "Far", index: 7, fields: vec![field("x", i64::ty())] },
            ],
        }
    }
    fn g(&self) -> G {
        G::Seq(match self {
            Shape::Dot => vec![G::Tag(0)],
            Shape::Circle { r, c } => vec![G::Tag(1), r.g(), c.g()],
            Shape::At(p) => {
                let mut v = vec![G::Tag(2)];
                v.extend(p.gs());
                v
            }
            Shape::Far { x } => vec![G::Tag(7), x.g()],
        })
    }
}
