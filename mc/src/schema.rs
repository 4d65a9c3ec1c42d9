//! Types as data: what a document means when it is read as a type, and every way in which it does
//! not conform to it, stated over the reference tree; and a decoder for such a type which drives
//! the wrappers of the library as hand-written or derived codecs do.

use crate::model::{decimal, Key, Node, Val};
use serdere::{FixedNameMap, NameMap, TextReader, Value};
use serdere_json::*;

pub const NAMES: &NameMap<usize> = FixedNameMap::new([("on", 0), ("off", 1), ("é", 5), ("o", 3)]).unfix();
pub const NAME_LIST: [(&str, usize); 4] = [("on", 0), ("off", 1), ("é", 5), ("o", 3)];
pub const MAX_INDEX: usize = 5;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    Int { bits: u32, signed: bool },
    /// NonZeroU8
    NonZero,
    F64,
    Char,
    Str,
    /// One of [`NAMES`].
    Tag,
    Null,
    /// Optional, with null for none (the type within must not be optional).
    Opt(Box<Ty>),
    /// An optional of an optional: a struct of has_value and value.
    Opt2(Box<Ty>),
    Struct(Vec<Field>),
    Tuple(Vec<Ty>),
    List(Box<Ty>),
    /// An object read by looking the keys up in the given order, then closed.
    Object(Vec<(&'static str, Ty)>),
    /// An object of which the given keys are tried, then the rest iterated and read as the type.
    Map(Vec<&'static str>, Box<Ty>),
    /// Skipped.
    Any,
    /// A struct whose first field is a tag that selects the others (only described).
    Enum { tag: &'static str, variants: Vec<Variant> },
    /// As a field: the fields of the struct or enum are fields of the struct it is in (only
    /// described, and only for whether and what it means, not for the faults).
    Flat(Box<Ty>),
    /// One of these, by name or by index (only described).
    Names(Vec<(&'static str, usize)>),
    /// Read as the type within, then rejected by a validation.
    Check(Box<Ty>),
    /// An object of which a struct is read by `inline`, and other entries before and after it
    /// (only described).
    Inlined(Inline, Box<Ty>),
    /// Read by a [`Leaf`]; means what the type within means.
    Hole(Box<Ty>),
}

/// What else is done with an object that a struct is read from by `inline`.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Inline {
    /// The remaining entries are read with their keys.
    Rest,
    /// An entry is tried before and another after, then the rest is read.
    Between(&'static str, &'static str),
    /// The first entry, whatever it is, is read before, then the struct and the rest.
    First,
    /// The struct is read again from what is left, then the rest.
    Again,
    /// The object is closed, which is an error if there is anything left.
    Close,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Variant {
    pub name: &'static str,
    pub index: usize,
    pub fields: Vec<Field>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Field {
    pub name: &'static str,
    pub ty: Ty,
    /// What null or absence stand for, for a defaulted field.
    pub default: Option<G>,
}

pub fn field(name: &'static str, ty: Ty) -> Field {
    Field { name, ty, default: None }
}

pub fn defaulted(name: &'static str, ty: Ty, default: G) -> Field {
    Field { name, ty, default: Some(default) }
}

pub const U8: Ty = Ty::Int { bits: 8, signed: false };
pub const I64: Ty = Ty::Int { bits: 64, signed: true };

/// A decoded value.
#[derive(Clone, Debug, PartialEq, Hash, Eq)]
pub enum G {
    Bool(bool),
    Int(i128),
    /// Bits of an f64.
    F(u64),
    Char(char),
    Str(String),
    Tag(usize),
    Unit,
    None,
    Some(Box<G>),
    Seq(Vec<G>),
    Map(Vec<(String, G)>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    /// The value is not of a type that is accepted.
    Type,
    Overflow,
    Custom,
    MissingKey(String),
    ExtraKey(String),
    MissingItems,
    ExcessItems,
}

/// A way in which a value does not conform to a type, with the character it is reported at.
#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub kind: Kind,
    pub pos: usize,
}

/// What a value means as a type, or all faults any of which may be reported (the first is the one
/// met by reading fields in order).
pub fn expect(ty: &Ty, v: &Val) -> Result<G, Vec<Fault>> {
    let fault = |kind| Err(vec![Fault { kind, pos: v.start }]);
    match ty {
        Ty::Bool => match &v.node {
            Node::Bool(b) => Ok(G::Bool(*b)),
            _ => fault(Kind::Type),
        },
        Ty::Int { bits, signed } => match &v.node {
            Node::Num(lit) => match integer(lit, *bits, *signed) {
                Some(i) => Ok(G::Int(i)),
                None => fault(Kind::Overflow),
            },
            _ => fault(Kind::Type),
        },
        Ty::NonZero => match &v.node {
            Node::Num(lit) => match integer(lit, 8, false) {
                Some(0) => fault(Kind::Custom),
                Some(i) => Ok(G::Int(i)),
                None => fault(Kind::Overflow),
            },
            _ => fault(Kind::Type),
        },
        Ty::F64 => match &v.node {
            Node::Num(lit) => Ok(G::F(lit.parse::<f64>().expect("f64").to_bits())),
            _ => fault(Kind::Type),
        },
        Ty::Char => match &v.node {
            Node::Str(s) => {
                let mut c = s.chars();
                match (c.next(), c.next()) {
                    (Some(c), None) => Ok(G::Char(c)),
                    _ => fault(Kind::Custom),
                }
            }
            _ => fault(Kind::Type),
        },
        Ty::Str => match &v.node {
            Node::Str(s) => Ok(G::Str(s.clone())),
            _ => fault(Kind::Type),
        },
        Ty::Tag => match &v.node {
            Node::Str(s) => match NAME_LIST.iter().find(|n| n.0 == s) {
                Some(n) => Ok(G::Tag(n.1)),
                None => fault(Kind::Custom),
            },
            Node::Num(lit) => match integer(lit, 64, false) {
                Some(i) if i <= MAX_INDEX as i128 => Ok(G::Tag(i as usize)),
                Some(_) => fault(Kind::Custom),
                None => fault(Kind::Overflow),
            },
            _ => fault(Kind::Type),
        },
        Ty::Names(names) => match &v.node {
            Node::Str(s) => match names.iter().find(|n| n.0 == s) {
                Some(n) => Ok(G::Tag(n.1)),
                None => fault(Kind::Custom),
            },
            Node::Num(lit) => match integer(lit, 64, false) {
                Some(i) if names.iter().any(|n| n.1 as i128 == i) => Ok(G::Tag(i as usize)),
                Some(_) => fault(Kind::Custom),
                None => fault(Kind::Overflow),
            },
            _ => fault(Kind::Type),
        },
        Ty::Null => match &v.node {
            Node::Null => Ok(G::Unit),
            _ => fault(Kind::Type),
        },
        Ty::Opt(t) => match &v.node {
            Node::Null => Ok(G::None),
            _ => expect(t, v).map(|g| G::Some(Box::new(g))),
        },
        Ty::Opt2(t) => {
            let fields = [field("has_value", Ty::Bool), field("value", (**t).clone())];
            // The second field is only there if the first says so
            match &v.node {
                Node::Obj(_) => {
                    let has = expect_field(&fields[0], v);
                    if has == Ok(G::Bool(true)) {
                        return expect_field(&fields[1], v).map(|g| G::Some(Box::new(g)));
                    }
                    has.map(|_| G::None)
                }
                Node::Arr(items) => {
                    let n = match items.first().map(|i| expect(&Ty::Bool, i)) {
                        Some(Ok(G::Bool(true))) => 2,
                        _ => 1,
                    };
                    match expect_items(&fields[..n], items, v.start) {
                        Ok(mut g) if n == 2 => Ok(G::Some(Box::new(g.pop().unwrap()))),
                        Ok(_) => Ok(G::None),
                        Err(f) => Err(f),
                    }
                }
                _ => fault(Kind::Type),
            }
        }
        Ty::Flat(t) => expect(t, v),
        Ty::Struct(fields) if has_flat(fields) => {
            let mut res = Vec::new();
            if !matches!(v.node, Node::Obj(_) | Node::Arr(_)) {
                return fault(Kind::Type);
            }
            if resolve(fields, v, &mut res).is_none() {
                return fault(Kind::Custom);
            }
            expect(&Ty::Struct(res), v)
        }
        Ty::Enum { variants, .. } if variants.iter().any(|v| has_flat(&v.fields)) => {
            expect(&Ty::Struct(vec![field("", Ty::Flat(Box::new(ty.clone())))]), v)
        }
        Ty::Struct(fields) => match &v.node {
            Node::Obj(_) => collect(fields.iter().map(|f| expect_field(f, v))).map(G::Seq),
            Node::Arr(items) => expect_items(fields, items, v.start).map(G::Seq),
            _ => fault(Kind::Type),
        },
        Ty::Tuple(tys) => match &v.node {
            Node::Arr(items) => {
                let fields: Vec<Field> = tys.iter().map(|t| field("", t.clone())).collect();
                expect_items(&fields, items, v.start).map(G::Seq)
            }
            _ => fault(Kind::Type),
        },
        Ty::List(t) => match &v.node {
            Node::Arr(items) => collect(items.iter().map(|i| expect(t, i))).map(G::Seq),
            _ => fault(Kind::Type),
        },
        Ty::Object(keys) => match &v.node {
            Node::Obj(entries) => {
                let mut res = collect(keys.iter().map(|(key, ty)| match entries.iter().find(|e| e.0.text == *key) {
                    Some(e) => expect(ty, &e.1),
                    None => Err(vec![Fault { kind: Kind::MissingKey(key.to_string()), pos: v.start }]),
                }))
                .map(G::Seq);
                for (k, _) in entries {
                    if !keys.iter().any(|x| x.0 == k.text) {
                        let f = Fault { kind: Kind::ExtraKey(k.text.clone()), pos: v.start };
                        match &mut res {
                            Ok(_) => res = Err(vec![f]),
                            Err(all) => all.push(f),
                        }
                    }
                }
                res
            }
            _ => fault(Kind::Type),
        },
        Ty::Map(keys, ty) => match &v.node {
            Node::Obj(entries) => {
                let mut order = Vec::new();
                for k in keys {
                    order.extend(entries.iter().position(|e| e.0.text == *k));
                }
                for i in 0..entries.len() {
                    if !order.contains(&i) {
                        order.push(i);
                    }
                }
                let values = collect(order.iter().map(|i| expect(ty, &entries[*i].1)))?;
                Ok(G::Map(order.iter().map(|i| entries[*i].0.text.clone()).zip(values).collect()))
            }
            _ => fault(Kind::Type),
        },
        Ty::Any => Ok(G::Unit),
        Ty::Inlined(how, t) => match &v.node {
            Node::Obj(entries) => expect_inlined(*how, t, v, entries),
            _ => fault(Kind::Type),
        },
        Ty::Hole(t) => expect(t, v),
        Ty::Check(t) => {
            expect(t, v)?;
            fault(Kind::Custom)
        }
        Ty::Enum { tag, variants } => {
            let tag_val = match &v.node {
                Node::Obj(entries) => match entries.iter().find(|e| e.0.text == *tag) {
                    Some(e) => &e.1,
                    None => return Err(vec![Fault { kind: Kind::MissingKey(tag.to_string()), pos: v.start }]),
                },
                Node::Arr(items) => match items.first() {
                    Some(i) => i,
                    None => return fault(Kind::MissingItems),
                },
                _ => return fault(Kind::Type),
            };
            let bad = |kind| {
                let mut res = vec![Fault { kind, pos: tag_val.start }];
                if matches!(v.node, Node::Arr(_)) {
                    res.push(Fault { kind: Kind::MissingItems, pos: v.start });
                    res.push(Fault { kind: Kind::ExcessItems, pos: v.start });
                }
                Err(res)
            };
            let variant = match &tag_val.node {
                Node::Str(s) => variants.iter().find(|x| x.name == s),
                Node::Num(lit) => match integer(lit, 64, false) {
                    None => return bad(Kind::Overflow),
                    Some(i) => variants.iter().find(|x| x.index as i128 == i),
                },
                _ => return bad(Kind::Type),
            };
            let Some(variant) = variant else { return bad(Kind::Custom) };
            let g = G::Tag(variant.index);
            match &v.node {
                Node::Obj(_) => collect(std::iter::once(Ok(g)).chain(variant.fields.iter().map(|f| expect_field(f, v)))).map(G::Seq),
                Node::Arr(items) => {
                    let mut fields = vec![field("", Ty::Any)];
                    fields.extend(variant.fields.iter().cloned());
                    let mut res = expect_items(&fields, items, v.start)?;
                    res[0] = g;
                    Ok(G::Seq(res))
                }
                _ => unreachable!(),
            }
        }
    }
}

fn has_flat(fields: &[Field]) -> bool {
    fields.iter().any(|f| matches!(f.ty, Ty::Flat(_)))
}

/// An object with inlined content.
fn expect_inlined(how: Inline, t: &Ty, v: &Val, entries: &[(Key, Val)]) -> Result<G, Vec<Fault>> {
    let mut left = entries.to_vec();
    let take = |left: &mut Vec<(Key, Val)>, key: &str| match left.iter().position(|e| e.0.text == key) {
        Some(i) => G::Some(Box::new(G::Str(format!("{:?}", left.remove(i).1.tree())))),
        None => G::None,
    };
    let entry = |(k, v): (Key, Val)| (k.text, G::Str(format!("{:?}", v.tree())));
    let inner = |left: &mut Vec<(Key, Val)>| -> Result<G, Vec<Fault>> {
        let obj = Val { start: v.start, end: v.end, node: Node::Obj(left.clone()) };
        let g = expect(t, &obj)?;
        let mut fields = Vec::new();
        resolve(&[field("", Ty::Flat(Box::new(t.clone())))], &obj, &mut fields).expect("fields");
        left.retain(|e| !fields.iter().any(|f| f.name == e.0.text));
        Ok(g)
    };
    let mut res = Vec::new();
    match how {
        Inline::Rest => res.push(inner(&mut left)?),
        Inline::Between(a, b) => {
            res.push(take(&mut left, a));
            res.push(inner(&mut left)?);
            res.push(take(&mut left, b));
        }
        Inline::First => {
            if left.is_empty() {
                return Ok(G::Seq(Vec::new()));
            }
            res.push(G::Map(vec![entry(left.remove(0))]));
            res.push(inner(&mut left)?);
        }
        Inline::Again => {
            res.push(inner(&mut left)?);
            res.push(inner(&mut left)?);
        }
        Inline::Close => {
            res.push(inner(&mut left)?);
            return match left.is_empty() {
                true => Ok(G::Seq(res)),
                false => {
                    Err(left.into_iter().map(|e| Fault { kind: Kind::ExtraKey(e.0.text), pos: v.start }).collect())
                }
            };
        }
    }
    res.push(G::Map(left.into_iter().map(entry).collect()));
    Ok(G::Seq(res))
}

/// Reads an object with inlined content; `t` reads the struct.
pub fn read_inlined<D: JsonDeserializer>(
    how: Inline,
    v: Value<D>,
    t: impl Fn(&mut Object<D>) -> Result<G, D::Error>,
) -> Result<G, D::Error> {
    let tree = |v: Value<D>| -> Result<G, D::Error> { Ok(G::Str(format!("{:?}", crate::walk::wrapped(v)?))) };
    let opt = |v: Option<Value<D>>| -> Result<G, D::Error> {
        Ok(match v {
            Some(v) => G::Some(Box::new(tree(v)?)),
            None => G::None,
        })
    };
    let mut o = v.into_object()?;
    let mut res = Vec::new();
    match how {
        Inline::Rest => res.push(t(&mut o)?),
        Inline::Between(a, b) => {
            res.push(opt(o.try_entry(a)?)?);
            res.push(t(&mut o)?);
            res.push(opt(o.try_entry(b)?)?);
        }
        Inline::First => {
            match o.next_entry()? {
                None => return Ok(G::Seq(Vec::new())),
                Some(mut e) => {
                    let key = e.key()?.into_owned();
                    res.push(G::Map(vec![(key, tree(e.value()?)?)]));
                }
            }
            res.push(t(&mut o)?);
        }
        Inline::Again => {
            res.push(t(&mut o)?);
            res.push(t(&mut o)?);
        }
        Inline::Close => {
            res.push(t(&mut o)?);
            o.close()?;
            return Ok(G::Seq(res));
        }
    }
    let mut rest = Vec::new();
    while let Some(mut e) = o.next_entry()? {
        let key = e.key()?.into_owned();
        rest.push((key, tree(e.value()?)?));
    }
    res.push(G::Map(rest));
    Ok(G::Seq(res))
}

/// The fields of a struct with flattened content, for a document; none if a tag is wrong.
fn resolve(fields: &[Field], v: &Val, res: &mut Vec<Field>) -> Option<()> {
    for f in fields {
        let Ty::Flat(t) = &f.ty else {
            res.push(f.clone());
            continue;
        };
        match &**t {
            Ty::Struct(inner) => resolve(inner, v, res)?,
            Ty::Enum { tag, variants } => {
                let tag_val = match &v.node {
                    Node::Obj(entries) => &entries.iter().find(|e| e.0.text == *tag)?.1,
                    Node::Arr(items) => items.get(res.len())?,
                    _ => return None,
                };
                let names = Ty::Names(variants.iter().map(|x| (x.name, x.index)).collect());
                let Ok(G::Tag(index)) = expect(&names, tag_val) else { return None };
                res.push(field(tag, names));
                resolve(&variants.iter().find(|x| x.index == index)?.fields, v, res)?;
            }
            _ => unreachable!("flattened"),
        }
    }
    Some(())
}

fn integer(lit: &str, bits: u32, signed: bool) -> Option<i128> {
    let (min, max) = if signed { (-(1i128 << (bits - 1)), (1u128 << (bits - 1)) - 1) } else { (0, (1u128 << bits) - 1) };
    let i = decimal(lit)?.integer(min, max)?;
    Some(if i.neg { -(i.mag as i128) } else { i.mag as i128 })
}

fn collect(it: impl Iterator<Item = Result<G, Vec<Fault>>>) -> Result<Vec<G>, Vec<Fault>> {
    let mut res = Vec::new();
    let mut faults = Vec::new();
    for r in it {
        match r {
            Ok(g) => res.push(g),
            Err(f) => faults.extend(f),
        }
    }
    if faults.is_empty() {
        Ok(res)
    } else {
        Err(faults)
    }
}

/// A field of a struct that is an object.
fn expect_field(f: &Field, obj: &Val) -> Result<G, Vec<Fault>> {
    let Node::Obj(entries) = &obj.node else { unreachable!() };
    match entries.iter().find(|e| e.0.text == f.name) {
        Some(e) => expect_value(f, &e.1),
        None => match (&f.default, &f.ty) {
            (Some(d), _) => Ok(d.clone()),
            (None, Ty::Opt(_)) => Ok(G::None),
            (None, Ty::Null | Ty::Any) => Ok(G::Unit),
            _ => Err(vec![Fault { kind: Kind::MissingKey(f.name.to_string()), pos: obj.start }]),
        },
    }
}

fn expect_value(f: &Field, v: &Val) -> Result<G, Vec<Fault>> {
    match (&f.default, &v.node) {
        (Some(d), Node::Null) => Ok(d.clone()),
        _ => expect(&f.ty, v),
    }
}

fn expect_items(fields: &[Field], items: &[Val], start: usize) -> Result<Vec<G>, Vec<Fault>> {
    let mut res = collect(fields.iter().zip(items).map(|(f, i)| expect_value(f, i)));
    if fields.len() != items.len() {
        let kind = if fields.len() > items.len() { Kind::MissingItems } else { Kind::ExcessItems };
        let f = Fault { kind, pos: start };
        match &mut res {
            Ok(_) => res = Err(vec![f]),
            Err(all) => all.push(f),
        }
    }
    res
}

/// Reads the holes of a type.
pub trait Leaf<D: JsonDeserializer> {
    fn read(v: Value<D>) -> Result<G, D::Error>;
}

/// The error of a validation.
#[derive(Debug)]
pub struct Rejected;

impl std::fmt::Display for Rejected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("rejected")
    }
}

impl std::error::Error for Rejected {}

/// For types without holes.
pub struct NoLeaf;

impl<D: JsonDeserializer> Leaf<D> for NoLeaf {
    fn read(_: Value<D>) -> Result<G, D::Error> {
        unreachable!("hole")
    }
}

/// Reads a value of a type through the wrappers.
pub fn decode<D: JsonDeserializer, L: Leaf<D>>(ty: &Ty, v: Value<D>) -> Result<G, D::Error> {
    Ok(match ty {
        Ty::Bool => G::Bool(v.get_bool()?),
        Ty::Int { bits, signed } => G::Int(match (bits, signed) {
            (8, false) => v.get_u8()?.into(),
            (16, false) => v.get_u16()?.into(),
            (32, false) => v.get_u32()?.into(),
            (64, false) => v.get_u64()?.into(),
            (8, true) => v.get_i8()?.into(),
            (16, true) => v.get_i16()?.into(),
            (32, true) => v.get_i32()?.into(),
            _ => v.get_i64()?.into(),
        }),
        Ty::NonZero => {
            let n: std::num::NonZeroU8 = v.get()?;
            G::Int(n.get().into())
        }
        Ty::F64 => G::F(v.get_f64()?.to_bits()),
        Ty::Char => G::Char(v.get_char()?),
        Ty::Str => G::Str(v.get_str()?.into_owned()),
        Ty::Tag => G::Tag(v.get_tag(MAX_INDEX, NAMES)?),
        Ty::Null => {
            v.into_null()?;
            G::Unit
        }
        Ty::Opt(t) => {
            let mut v = v;
            if v.check_null()? {
                G::None
            } else {
                G::Some(Box::new(decode::<D, L>(t, v)?))
            }
        }
        Ty::Opt2(t) => {
            let mut st = v.into_struct(Some("Option"))?;
            let res = if st.field("has_value")?.get_bool()? {
                G::Some(Box::new(decode::<D, L>(t, st.field("value")?)?))
            } else {
                G::None
            };
            st.close()?;
            res
        }
        Ty::Struct(fields) => {
            let mut st = v.into_struct(Some("Struct"))?;
            let mut res = Vec::new();
            for f in fields {
                let mut v = st.field(f.name)?;
                res.push(match &f.default {
                    Some(d) => {
                        if v.check_null()? {
                            d.clone()
                        } else {
                            decode::<D, L>(&f.ty, v)?
                        }
                    }
                    None => decode::<D, L>(&f.ty, v)?,
                });
            }
            st.close()?;
            G::Seq(res)
        }
        Ty::Tuple(tys) => {
            let mut t = v.into_tuple(None)?;
            let mut res = Vec::new();
            for ty in tys {
                res.push(decode::<D, L>(ty, t.element()?)?);
            }
            t.close()?;
            G::Seq(res)
        }
        Ty::List(ty) => {
            let mut l = v.into_list()?;
            let mut res = Vec::new();
            while let Some(item) = l.next()? {
                res.push(decode::<D, L>(ty, item)?);
            }
            G::Seq(res)
        }
        Ty::Object(keys) => {
            let mut o = v.into_object()?;
            let mut res = Vec::new();
            for (key, ty) in keys {
                res.push(decode::<D, L>(ty, o.entry(key)?)?);
            }
            o.close()?;
            G::Seq(res)
        }
        Ty::Map(keys, ty) => {
            let mut o = v.into_object()?;
            let mut res = Vec::new();
            for key in keys {
                if let Some(v) = o.try_entry(key)? {
                    res.push((key.to_string(), decode::<D, L>(ty, v)?));
                }
            }
            while let Some(mut e) = o.next_entry()? {
                let key = e.key()?.into_owned();
                res.push((key, decode::<D, L>(ty, e.value()?)?));
            }
            G::Map(res)
        }
        Ty::Any => {
            v.skip()?;
            G::Unit
        }
        Ty::Hole(_) => L::read(v)?,
        Ty::Check(t) => v.validate_with(|v| {
            decode::<D, L>(t, v)?;
            Ok(Err::<G, _>(Rejected))
        })?,
        Ty::Flat(_) | Ty::Names(_) | Ty::Enum { .. } | Ty::Inlined(..) => unreachable!("only described"),
    })
}

/// The kind of a semantic error of the JSON deserializer; `None` for the kinds that are about syntax.
pub fn kind_of(m: &DeserializeErrorMessage) -> Option<Kind> {
    use DeserializeErrorMessage::*;
    Some(match m {
        Custom(_) => Kind::Custom,
        Expected(_) => Kind::Type,
        NumberOverflow => Kind::Overflow,
        MissingKey(k) => Kind::MissingKey(k.clone()),
        ExtraKey(k) => Kind::ExtraKey(k.clone()),
        MissingItems => Kind::MissingItems,
        ExcessItems => Kind::ExcessItems,
        _ => return None,
    })
}

/// Decodes a whole document.
pub fn decode_doc<L, R: TextReader>(ty: &Ty, comments: bool, reader: R) -> Result<G, DeserializeError<R::Position>>
where
    L: Leaf<TextDeserializer<R>>,
{
    let mut d = TextDeserializer::new(crate::walk::config(comments), reader)?;
    let res = Value::with(&mut d, |v| decode::<_, L>(ty, v))?;
    d.close()?;
    Ok(res)
}
