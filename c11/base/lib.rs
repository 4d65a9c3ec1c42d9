//! What the derived types of C11 are made of, and how they are described.

pub use mc::model;
pub use mc::schema::*;
pub use mc::tape::*;
pub use mc::*;
pub use serdere::*;
pub use serdere_json::*;
pub use std::cell::Cell;
pub use std::rc::Rc;

/// What is written for a value.
#[derive(Debug, Clone)]
pub enum Node {
    Leaf(Ev, String),
    Tag(usize, usize, &'static str),
    /// With null for none where there is null.
    Opt(Option<Box<Node>>),
    Opt2(Option<Box<Node>>),
    Struct(Option<&'static str>, Vec<(&'static str, Node)>),
    Tuple(Vec<Node>),
    List(Vec<Node>),
}

impl Node {
    /// The struct that stands for an option.
    pub fn option(inner: &Option<Box<Node>>) -> Node {
        let has = Node::Leaf(Ev::Bool(inner.is_some()), inner.is_some().to_string());
        let mut fields = vec![("has_value", has)];
        fields.extend(inner.iter().map(|n| ("value", (**n).clone())));
        Node::Struct(Some("Option"), fields)
    }

    pub fn tape(&self, null: bool, out: &mut Vec<Ev>) {
        match self {
            Node::Leaf(e, _) => out.push(e.clone()),
            Node::Tag(max, index, name) => out.push(Ev::Tag { max: *max, index: *index, name: Some(name) }),
            Node::Opt(Some(n)) if null => n.tape(null, out),
            Node::Opt(None) if null => out.push(Ev::Null),
            Node::Opt(n) | Node::Opt2(n) => Node::option(n).tape(null, out),
            Node::Struct(name, fields) => {
                out.push(Ev::Struct(*name));
                for (name, n) in fields {
                    out.push(Ev::Field(name));
                    n.tape(null, out);
                }
                out.push(Ev::Close);
            }
            Node::Tuple(items) => {
                out.push(Ev::Tuple(None));
                for n in items {
                    out.push(Ev::Element);
                    n.tape(null, out);
                }
                out.push(Ev::Close);
            }
            Node::List(items) => {
                out.push(Ev::List(items.len()));
                for n in items {
                    out.push(Ev::Item);
                    n.tape(null, out);
                }
                out.push(Ev::Close);
            }
        }
    }

    pub fn json(&self) -> String {
        match self {
            Node::Leaf(_, s) => s.clone(),
            Node::Tag(_, _, name) => model::quote(name),
            Node::Opt(Some(n)) => n.json(),
            Node::Opt(None) => "null".into(),
            Node::Opt2(n) => Node::option(n).json(),
            Node::Struct(_, fields) => object(&fields.iter().map(|(k, n)| (k.to_string(), n.json())).collect::<Vec<_>>()),
            Node::Tuple(items) | Node::List(items) => array(&items.iter().map(|n| n.json()).collect::<Vec<_>>()),
        }
    }
}

pub fn object(entries: &[(String, String)]) -> String {
    if entries.is_empty() {
        return "{}".into();
    }
    let e: Vec<String> = entries.iter().map(|(k, v)| format!("{}: {}", model::quote(k), v)).collect();
    format!("{{ {} }}", e.join(", "))
}

pub fn array(items: &[String]) -> String {
    format!("[{}]", items.join(", "))
}

/// A value of which is declared what it is on the wire.
pub trait Item: Sized {
    fn ty() -> Ty;
    fn g(&self) -> G;
    fn node(&self) -> Node;
    fn gen(ch: &mut Ch) -> Self;
}

pub fn nodes_of(n: Node) -> Vec<(&'static str, Node)> {
    match n {
        Node::Struct(_, f) => f,
        _ => unreachable!("flattened"),
    }
}

pub fn gs_of(g: G) -> Vec<G> {
    match g {
        G::Seq(g) => g,
        _ => unreachable!("flattened"),
    }
}

thread_local!(pub static NEXT: Cell<u8> = const { Cell::new(0) });

/// Leaves get different values.
pub fn next() -> u8 {
    NEXT.with(|n| {
        n.set((n.get() + 1) % 251);
        n.get()
    })
}

impl Item for u8 {
    fn ty() -> Ty {
        U8
    }
    fn g(&self) -> G {
        G::Int(*self as i128)
    }
    fn node(&self) -> Node {
        Node::Leaf(Ev::Int("u8", *self as i128), self.to_string())
    }
    fn gen(_: &mut Ch) -> Self {
        next()
    }
}

impl Item for bool {
    fn ty() -> Ty {
        Ty::Bool
    }
    fn g(&self) -> G {
        G::Bool(*self)
    }
    fn node(&self) -> Node {
        Node::Leaf(Ev::Bool(*self), self.to_string())
    }
    fn gen(ch: &mut Ch) -> Self {
        ch.flip()
    }
}

impl Item for char {
    fn ty() -> Ty {
        Ty::Char
    }
    fn g(&self) -> G {
        G::Char(*self)
    }
    fn node(&self) -> Node {
        Node::Leaf(Ev::Char(*self), model::quote(&self.to_string()))
    }
    fn gen(_: &mut Ch) -> Self {
        (b'a' + next() % 26) as char
    }
}

impl Item for String {
    fn ty() -> Ty {
        Ty::Str
    }
    fn g(&self) -> G {
        G::Str(self.clone())
    }
    fn node(&self) -> Node {
        Node::Leaf(Ev::Str(self.clone()), model::quote(self))
    }
    fn gen(_: &mut Ch) -> Self {
        format!("s{}", next())
    }
}

impl<T: Item> Item for Vec<T> {
    fn ty() -> Ty {
        Ty::List(Box::new(T::ty()))
    }
    fn g(&self) -> G {
        G::Seq(self.iter().map(|x| x.g()).collect())
    }
    fn node(&self) -> Node {
        Node::List(self.iter().map(|x| x.node()).collect())
    }
    fn gen(ch: &mut Ch) -> Self {
        (0..2 * ch.choose(2)).map(|_| T::gen(ch)).collect()
    }
}

impl<T: Item, U: Item> Item for (T, U) {
    fn ty() -> Ty {
        Ty::Tuple(vec![T::ty(), U::ty()])
    }
    fn g(&self) -> G {
        G::Seq(vec![self.0.g(), self.1.g()])
    }
    fn node(&self) -> Node {
        Node::Tuple(vec![self.0.node(), self.1.node()])
    }
    fn gen(ch: &mut Ch) -> Self {
        (T::gen(ch), U::gen(ch))
    }
}

impl<T: Item> Item for Option<T> {
    fn ty() -> Ty {
        match T::ty() {
            t @ (Ty::Opt(_) | Ty::Opt2(_)) => Ty::Opt2(Box::new(t)),
            t => Ty::Opt(Box::new(t)),
        }
    }
    fn g(&self) -> G {
        match self {
            None => G::None,
            Some(x) => G::Some(Box::new(x.g())),
        }
    }
    fn node(&self) -> Node {
        let inner = self.as_ref().map(|x| Box::new(x.node()));
        match Self::ty() {
            Ty::Opt2(_) => Node::Opt2(inner),
            _ => Node::Opt(inner),
        }
    }
    fn gen(ch: &mut Ch) -> Self {
        if ch.flip() {
            Some(T::gen(ch))
        } else {
            None
        }
    }
}

pub type Pair = (u8, char);

/// Made from a proxy.
#[derive(Debug, Default, Clone, PartialEq)]
pub struct Made<T>(pub Option<T>);

macro_rules! made {
    ($($t:ty)*) => { $(
        impl From<$t> for Made<$t> {
            fn from(x: $t) -> Self {
                Made(Some(x))
            }
        }
    )* };
}
made!(u8 String bool Vec<u8> Unit Pair Option<Option<u8>> Sub0 Sub1 Sub2 Sub3 Option<u8> Option<String> Option<Unit> Option<Vec<bool>>);

impl<T: Item> Item for Made<T> {
    fn ty() -> Ty {
        T::ty()
    }
    fn g(&self) -> G {
        match &self.0 {
            Some(x) => x.g(),
            None => G::Str("default".into()),
        }
    }
    fn node(&self) -> Node {
        self.0.as_ref().expect("a value from a proxy").node()
    }
    fn gen(ch: &mut Ch) -> Self {
        Made(Some(T::gen(ch)))
    }
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone, Copy, Default)]
pub enum Unit {
    First,
    #[default]
    #[serde(rename = "2nd", reindex = 4)]
    Second,
    Third,
}

impl Item for Unit {
    fn ty() -> Ty {
        Ty::Names(vec![("First", 0), ("2nd", 4), ("Third", 2)])
    }
    fn g(&self) -> G {
        G::Tag([0, 4, 2][*self as usize])
    }
    fn node(&self) -> Node {
        let (i, n) = [(0, "First"), (4, "2nd"), (2, "Third")][*self as usize];
        Node::Tag(4, i, n)
    }
    fn gen(ch: &mut Ch) -> Self {
        *ch.pick(&[Unit::Second, Unit::Third])
    }
}

macro_rules! subs {
    ($($sub:ident $alt:ident $a:ident $b:ident $t:literal $x:ident;)*) => { $(
        #[derive(Serialize, Deserialize, Debug, PartialEq, Clone, Default)]
        pub struct $sub {
            $a: u8,
            #[serde(default)]
            $b: Option<bool>,
        }
        impl Item for $sub {
            fn ty() -> Ty {
                Ty::Struct(vec![field(stringify!($a), U8), defaulted(stringify!($b), <Option<bool>>::ty(), G::None)])
            }
            fn g(&self) -> G {
                G::Seq(vec![self.$a.g(), self.$b.g()])
            }
            fn node(&self) -> Node {
                Node::Struct(Some(stringify!($sub)), vec![(stringify!($a), self.$a.node()), (stringify!($b), self.$b.node())])
            }
            fn gen(ch: &mut Ch) -> Self {
                $sub { $a: Item::gen(ch), $b: Item::gen(ch) }
            }
        }

        #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
        #[serde(tag = $t)]
        pub enum $alt {
            Dot,
            #[serde(reindex = 5)]
            Line { $x: u8 },
            #[serde(transparent, rename = "sub")]
            Sub($sub),
        }
        impl Item for $alt {
            fn ty() -> Ty {
                Ty::Enum { tag: $t, variants: vec![
                    Variant { name: "Dot", index: 0, fields: vec![] },
                    Variant { name: "Line", index: 5, fields: vec![field(stringify!($x), U8)] },
                    Variant { name: "sub", index: 2, fields: vec![field("", Ty::Flat(Box::new($sub::ty())))] },
                ] }
            }
            fn g(&self) -> G {
                G::Seq(match self {
                    $alt::Dot => vec![G::Tag(0)],
                    $alt::Line { $x } => vec![G::Tag(5), $x.g()],
                    $alt::Sub(x) => [vec![G::Tag(2)], gs_of(x.g())].concat(),
                })
            }
            fn node(&self) -> Node {
                Node::Struct(Some(stringify!($alt)), match self {
                    $alt::Dot => vec![($t, Node::Tag(5, 0, "Dot"))],
                    $alt::Line { $x } => vec![($t, Node::Tag(5, 5, "Line")), (stringify!($x), $x.node())],
                    $alt::Sub(x) => [vec![($t, Node::Tag(5, 2, "sub"))], nodes_of(x.node())].concat(),
                })
            }
            fn gen(ch: &mut Ch) -> Self {
                match ch.choose(3) {
                    0 => $alt::Dot,
                    1 => $alt::Line { $x: Item::gen(ch) },
                    _ => $alt::Sub(Item::gen(ch)),
                }
            }
        }
    )* };
}
subs! {
    Sub0 Alt0 s0 o0 "t0" x0;
    Sub1 Alt1 s1 o1 "t1" x1;
    Sub2 Alt2 s2 o2 "t2" x2;
    Sub3 Alt3 s3 o3 "t3" x3;
}

/// A value of some type.
pub trait Inst {
    fn wire(&self) -> Node;
    fn read(&self) -> G;
    fn show(&self) -> String;
}

impl<T: Item + std::fmt::Debug> Inst for T {
    fn wire(&self) -> Node {
        Item::node(self)
    }
    fn read(&self) -> G {
        Item::g(self)
    }
    fn show(&self) -> String {
        format!("{:?}", self)
    }
}

pub type Written = (String, [Result<Vec<Ev>, TapeError>; 2]);

pub struct Row {
    pub name: &'static str,
    pub source: &'static str,
    pub ty: fn() -> Ty,
    pub gen: fn(&mut Ch) -> Box<dyn Inst>,
    /// The text and the tapes without and with null of the value of these choices.
    pub write: Option<fn(&mut Ch) -> Written>,
    pub read: fn(&str) -> Result<G, String>,
    pub read_tape: fn(Rc<Vec<Ev>>, Answers) -> Result<(G, bool), TapeError>,
}

pub fn gen<T: Item + std::fmt::Debug + 'static>(ch: &mut Ch) -> Box<dyn Inst> {
    Box::new(T::gen(ch))
}

pub fn write<T: Item + for<'a> Serialize<TextSerializer<&'a mut String>> + Serialize<TapeSer>>(ch: &mut Ch) -> Written {
    NEXT.with(|n| n.set(0));
    let value = T::gen(ch);
    let tape = |null| {
        let mut ser = TapeSer::new(null, None);
        let mut done = false;
        Value::new(&mut ser, &mut done).put(&value)?;
        assert!(done, "the value is not done");
        Ok(ser.tape)
    };
    (to_str(&value), [tape(false), tape(true)])
}

pub fn read<T: Item + for<'a> Deserialize<TextDeserializer<&'a str>>>(text: &str) -> Result<G, String> {
    from_str::<T>(text).map(|v| v.g()).map_err(|e| e.message().to_string())
}

pub fn read_tape<T: Item + Deserialize<TapeDe>>(tape: Rc<Vec<Ev>>, answers: Answers) -> Result<(G, bool), TapeError> {
    let mut de = TapeDe::new(tape, answers, None);
    let mut done = false;
    let v: T = Value::new(&mut de, &mut done).get()?;
    Ok((v.g(), done && de.done()))
}

#[macro_export]
macro_rules! row {
    ($t:ident, true, $src:literal) => {
        Row { write: Some(write::<$t>), ..row!($t, false, $src) }
    };
    ($t:ident, false, $src:literal) => {
        Row { name: stringify!($t), source: $src, ty: <$t as Item>::ty, gen: gen::<$t>, write: None, read: read::<$t>, read_tape: read_tape::<$t> }
    };
}

