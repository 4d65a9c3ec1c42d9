//! Ways of consuming a document through the deserializer interface.

use crate::model::Tree;
use serdere::{Deserialize, Deserializer, TextReader, Value};
use serdere_json::*;

pub const MISSING: &str = "\u{10FFFD}missing";

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mode {
    /// Raw stack calls, strings flushed whole.
    Direct,
    /// Raw stack calls, strings and keys read by characters.
    Chars,
    /// Through the wrappers.
    Wrapped,
    /// Looks up a missing key in every object first, so that all its entries are buffered.
    Probe,
    /// Looks up a missing key after the first entry of every object.
    ProbeLate,
    /// Skips the whole value.
    Skip,
    /// Opens the outermost collection and skips every value in it.
    SkipItems,
    /// Buffers all entries of the outermost object, then skips every value.
    ProbeSkip,
}

pub const MODES: [Mode; 8] = [
    Mode::Direct,
    Mode::Chars,
    Mode::Wrapped,
    Mode::Probe,
    Mode::ProbeLate,
    Mode::Skip,
    Mode::SkipItems,
    Mode::ProbeSkip,
];

impl Mode {
    /// Whether the tree is returned.
    pub fn full(self) -> bool {
        !matches!(self, Mode::Skip | Mode::SkipItems | Mode::ProbeSkip)
    }
}

pub fn config(comments: bool) -> TextDeserializerConfig {
    if comments {
        TextDeserializerConfig::permissive()
    } else {
        TextDeserializerConfig::strict()
    }
}

/// Consumes a whole document. `None` for the modes that skip.
pub fn consume<R: TextReader>(
    mode: Mode,
    comments: bool,
    reader: R,
) -> Result<Option<Tree>, DeserializeError<R::Position>> {
    let mut d = TextDeserializer::new(config(comments), reader)?;
    let res = consume_value(mode, &mut d)?;
    d.close()?;
    Ok(res)
}

/// Consumes the value on the top of the stack.
pub fn consume_value<D: JsonDeserializer>(mode: Mode, d: &mut D) -> Result<Option<Tree>, D::Error> {
    Ok(match mode {
        Mode::Skip => {
            d.skip_value()?;
            None
        }
        Mode::SkipItems | Mode::ProbeSkip => {
            match d.peek_value_type() {
                ValueType::Array => {
                    d.open_list()?;
                    while d.next_item()? {
                        d.skip_value()?;
                    }
                }
                ValueType::Object => {
                    d.open_object()?;
                    if mode == Mode::ProbeSkip && d.try_push_entry(MISSING)? {
                        d.skip_value()?;
                    }
                    while d.next_entry()? {
                        d.skip_str()?;
                        d.skip_value()?;
                    }
                }
                _ => d.skip_value()?,
            }
            None
        }
        Mode::Wrapped => Some(Value::with(d, |v| wrapped(v))?),
        m => Some(walk(m, d)?),
    })
}

/// Any JSON value, as a user type.
pub struct Whole(pub Tree);

impl<D: JsonDeserializer, Ctx: ?Sized> Deserialize<D, Ctx> for Whole {
    const NULLABLE: bool = true;
    fn deserialize(value: Value<D>, _: &mut Ctx) -> Result<Self, D::Error> {
        Ok(Whole(wrapped(value)?))
    }
}

/// Reads a document by the functions for whole documents, and in the default configuration: what
/// they are called, and the tree or the message.
pub fn by_default(doc: &str) -> [(&'static str, Result<Tree, String>); 4] {
    fn text<P>(r: Result<Tree, DeserializeError<P>>) -> Result<Tree, String> {
        r.map_err(|e| e.message().to_string())
    }
    [
        ("from_str", text(from_str::<Whole>(doc).map(|w| w.0))),
        ("from_str_using", text(from_str_using::<Whole, i32>(doc, &mut 0).map(|w| w.0))),
        (
            "from_reader",
            serdere::Utf8Reader::new(doc.as_bytes()).map_err(|e| e.to_string()).and_then(|r| text(from_reader::<_, Whole>(r).map(|w| w.0))),
        ),
        (
            "the default configuration",
            text(TextDeserializer::new(Default::default(), doc).and_then(|mut d| {
                let t = walk(Mode::Direct, &mut d)?;
                d.close()?;
                Ok(t)
            })),
        ),
    ]
}

fn string<D: Deserializer>(mode: Mode, d: &mut D) -> Result<String, D::Error> {
    if mode == Mode::Chars {
        let mut s = String::new();
        while let Some(c) = d.next_char()? {
            s.push(c);
        }
        Ok(s)
    } else {
        Ok(d.flush_str()?.into_owned())
    }
}

pub fn walk<D: JsonDeserializer>(mode: Mode, d: &mut D) -> Result<Tree, D::Error> {
    Ok(match d.peek_value_type() {
        ValueType::Null => {
            d.pop_null()?;
            Tree::Null
        }
        ValueType::Bool => Tree::Bool(d.get_bool()?),
        ValueType::Number => Tree::Num(d.get_f64()?.to_bits()),
        ValueType::String => {
            d.open_str()?;
            Tree::Str(string(mode, d)?)
        }
        ValueType::Array => {
            d.open_list()?;
            let mut items = Vec::new();
            while d.next_item()? {
                items.push(walk(mode, d)?);
            }
            Tree::Arr(items)
        }
        ValueType::Object => {
            d.open_object()?;
            let mut entries = Vec::new();
            if mode == Mode::Probe && d.try_push_entry(MISSING)? {
                entries.push((MISSING.to_string(), walk(mode, d)?));
            }
            while d.next_entry()? {
                let key = string(mode, d)?;
                entries.push((key, walk(mode, d)?));
                if mode == Mode::ProbeLate && entries.len() == 1 && d.try_push_entry(MISSING)? {
                    entries.push((MISSING.to_string(), walk(mode, d)?));
                }
            }
            Tree::Obj(entries)
        }
    })
}

pub fn wrapped<D: JsonDeserializer>(mut v: Value<D>) -> Result<Tree, D::Error> {
    Ok(match v.ty() {
        ValueType::Null => {
            if v.check_null()? {
                Tree::Null
            } else {
                v.into_null()?;
                Tree::Null
            }
        }
        ValueType::Bool => Tree::Bool(v.get_bool()?),
        ValueType::Number => Tree::Num(v.get_f64()?.to_bits()),
        ValueType::String => Tree::Str(v.get_str()?.into_owned()),
        ValueType::Array => {
            let mut list = v.into_list()?;
            let mut items = Vec::new();
            while let Some(item) = list.next()? {
                items.push(wrapped(item)?);
            }
            Tree::Arr(items)
        }
        ValueType::Object => {
            let mut obj = v.into_object()?;
            let mut entries = Vec::new();
            while let Some(mut entry) = obj.next_entry()? {
                let key = entry.key()?.into_owned();
                entries.push((key, wrapped(entry.value()?)?));
            }
            Tree::Obj(entries)
        }
    })
}

/// Reads the value on the top of the stack, looking every key of every object up in the order
/// given by `order` (a permutation of entry numbers; keys must be distinct), knowing the expected
/// tree. Returns the tree as read.
pub fn lookup_walk<D: JsonDeserializer>(
    d: &mut D,
    expected: &Tree,
    order: &dyn Fn(usize) -> Vec<usize>,
) -> Result<Tree, D::Error> {
    Ok(match expected {
        Tree::Arr(items) if d.peek_value_type() == ValueType::Array => {
            d.open_list()?;
            let mut got = Vec::new();
            while d.next_item()? {
                let e = items.get(got.len()).unwrap_or(&Tree::Null);
                got.push(lookup_walk(d, e, order)?);
            }
            Tree::Arr(got)
        }
        Tree::Obj(entries) if d.peek_value_type() == ValueType::Object => {
            d.open_object()?;
            let mut got: Vec<Option<(String, Tree)>> = vec![None; entries.len()];
            for i in order(entries.len()) {
                let (k, v) = &entries[i];
                if d.try_push_entry(k)? {
                    got[i] = Some((k.clone(), lookup_walk(d, v, order)?));
                }
            }
            let mut got: Vec<_> = got.into_iter().flatten().collect();
            while d.next_entry()? {
                let key = d.flush_str()?.into_owned();
                got.push((key, walk(Mode::Direct, d)?));
            }
            Tree::Obj(got)
        }
        _ => walk(Mode::Direct, d)?,
    })
}
