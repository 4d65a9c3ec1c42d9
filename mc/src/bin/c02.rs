//! C02: serializer output is exactly the described document, well-formed JSON.

use mc::model::*;
use mc::*;
use serdere::*;
use serdere_json::*;
use std::convert::Infallible;

#[derive(Clone, Copy, Debug, PartialEq)]
enum ListKind {
    Sized,
    Streaming,
    Tuple,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum EntryKind {
    Push,
    /// add_entry with the key appended as a whole / by characters / in two parts.
    AddStr,
    AddChars,
    AddMixed,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum StrKind {
    Put,
    Append,
    Chars,
    Mixed,
    Char,
    Tag,
}

/// A document together with the calls that describe it.
#[derive(Clone, Debug)]
enum N {
    Null,
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    Tag(usize),
    F32(f32),
    F64(f64),
    Str(StrKind, String),
    List(ListKind, Vec<N>),
    Obj(Vec<(EntryKind, String, N)>),
    Struct(Vec<(&'static str, N)>),
}

fn append<W: JsonSerializer + ?Sized>(w: &mut W, kind: StrKind, s: &str) -> Result<(), W::Error> {
    match kind {
        StrKind::Append => w.append_str(s),
        StrKind::Chars => s.chars().try_for_each(|c| w.append_char(c)),
        _ => {
            let k = s.chars().count() / 2;
            let a: String = s.chars().take(k).collect();
            w.append_str(&a)?;
            for c in s.chars().skip(k) {
                w.append_char(c)?;
                w.append_str("")?;
            }
            Ok(())
        }
    }
}

/// A document as a value of a user's type.
struct Doc<'a>(&'a N);

impl<S: JsonSerializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for Doc<'_> {
    const NULLABLE: bool = true;
    fn serialize(&self, value: Value<S>, _: &mut Ctx) -> Result<(), S::Error> {
        let (s, done) = value.into_raw();
        emit(s, self.0)?;
        *done = true;
        Ok(())
    }
}

/// Writes a document by the functions for whole values, and in the default configuration: what
/// they are called, and the text. Reads the bytes of streams as UTF-8.
fn by_functions(n: &N) -> [(&'static str, Result<String, String>); 6] {
    let doc = Doc(n);
    let mut s = String::new();
    to_writer(&mut s, &doc).unwrap();
    let mut u = String::new();
    to_writer_using(&mut u, &doc, &mut 0i32).unwrap();
    let mut bytes = Vec::new();
    let b = to_writer(Utf8Writer::new(&mut bytes), &doc).map_err(|e| e.to_string());
    let b = b.and_then(|_| String::from_utf8(bytes).map_err(|e| e.to_string()));
    let mut d = TextSerializer::new(Default::default(), String::new());
    emit(&mut d, n).unwrap();
    [
        ("to_str", Ok(to_str(&doc))),
        ("to_str_using", Ok(to_str_using(&doc, &mut 0i32))),
        ("to_writer to a string", Ok(s)),
        ("to_writer_using to a string", Ok(u)),
        ("to_writer to bytes", b),
        ("the default configuration", Ok(d.close())),
    ]
}

fn emit<W: JsonSerializer + ?Sized>(w: &mut W, n: &N) -> Result<(), W::Error> {
    match n {
        N::Null => w.pop_null(),
        N::Bool(x) => w.put_bool(*x),
        N::I8(x) => w.put_i8(*x),
        N::I16(x) => w.put_i16(*x),
        N::I32(x) => w.put_i32(*x),
        N::I64(x) => w.put_i64(*x),
        N::U8(x) => w.put_u8(*x),
        N::U16(x) => w.put_u16(*x),
        N::U32(x) => w.put_u32(*x),
        N::U64(x) => w.put_u64(*x),
        N::Tag(i) => w.put_tag(usize::MAX, *i, None),
        N::F32(x) => w.put_f32(*x),
        N::F64(x) => w.put_f64(*x),
        N::Str(StrKind::Put, s) => w.put_str(s),
        N::Str(StrKind::Char, s) => w.put_char(s.chars().next().unwrap()),
        N::Str(StrKind::Tag, s) => {
            let name = FIELDS.iter().find(|f| *f == s).unwrap();
            w.put_tag(9, 3, Some(name))
        }
        N::Str(kind, s) => {
            w.open_str()?;
            append(w, *kind, s)?;
            w.close_str()
        }
        N::List(ListKind::Tuple, items) => {
            w.open_tuple(None)?;
            for i in items {
                w.push_element()?;
                emit(w, i)?;
            }
            w.close_tuple()
        }
        N::List(kind, items) => {
            if *kind == ListKind::Sized {
                w.open_list_sized(items.len())?;
            } else {
                w.open_list_streaming()?;
            }
            for i in items {
                w.push_item()?;
                emit(w, i)?;
            }
            w.close_list()
        }
        N::Obj(entries) => {
            w.open_object()?;
            for (kind, k, v) in entries {
                if *kind == EntryKind::Push {
                    w.push_entry(k)?;
                } else {
                    w.add_entry()?;
                    let kind = match kind {
                        EntryKind::AddStr => StrKind::Append,
                        EntryKind::AddChars => StrKind::Chars,
                        _ => StrKind::Mixed,
                    };
                    append(w, kind, k)?;
                    w.close_str()?;
                }
                emit(w, v)?;
            }
            w.close_object()
        }
        N::Struct(fields) => {
            w.open_struct(Some("T"))?;
            for (k, v) in fields {
                w.push_field(k)?;
                emit(w, v)?;
            }
            w.close_struct()
        }
    }
}

const FIELDS: &[&str] = &["a", "b", "", "é\"\n", "has_value"];

enum Piece {
    Text(String),
    Str(String),
    Int(i128),
    F32(f32),
    F64(f64),
}

fn line(indent: Option<&str>, depth: usize) -> Piece {
    Piece::Text(match indent {
        None => " ".into(),
        Some(s) => format!("\n{}", s.repeat(depth)),
    })
}

/// The documented layout.
fn layout(n: &N, indent: Option<&str>, depth: usize, out: &mut Vec<Piece>) {
    let text = |s: &str| Piece::Text(s.to_string());
    match n {
        N::Null => out.push(text("null")),
        N::Bool(true) => out.push(text("true")),
        N::Bool(false) => out.push(text("false")),
        N::I8(x) => out.push(Piece::Int(*x as i128)),
        N::I16(x) => out.push(Piece::Int(*x as i128)),
        N::I32(x) => out.push(Piece::Int(*x as i128)),
        N::I64(x) => out.push(Piece::Int(*x as i128)),
        N::U8(x) => out.push(Piece::Int(*x as i128)),
        N::U16(x) => out.push(Piece::Int(*x as i128)),
        N::U32(x) => out.push(Piece::Int(*x as i128)),
        N::U64(x) => out.push(Piece::Int(*x as i128)),
        N::Tag(x) => out.push(Piece::Int(*x as i128)),
        N::F32(x) => out.push(Piece::F32(*x)),
        N::F64(x) => out.push(Piece::F64(*x)),
        N::Str(_, s) => out.push(Piece::Str(s.clone())),
        N::List(_, items) => {
            out.push(text("["));
            for (i, item) in items.iter().enumerate() {
                if i > 0 {
                    out.push(text(","));
                }
                if i > 0 || indent.is_some() {
                    out.push(line(indent, depth + 1));
                }
                layout(item, indent, depth + 1, out);
            }
            if !items.is_empty() && indent.is_some() {
                out.push(line(indent, depth));
            }
            out.push(text("]"));
        }
        N::Obj(_) | N::Struct(_) => {
            let entries: Vec<(&str, &N)> = match n {
                N::Obj(e) => e.iter().map(|(_, k, v)| (&k[..], v)).collect(),
                N::Struct(f) => f.iter().map(|(k, v)| (*k, v)).collect(),
                _ => unreachable!(),
            };
            out.push(text("{"));
            for (i, (k, v)) in entries.iter().enumerate() {
                if i > 0 {
                    out.push(text(","));
                }
                out.push(line(indent, depth + 1));
                out.push(Piece::Str(k.to_string()));
                out.push(text(": "));
                layout(v, indent, depth + 1, out);
            }
            if !entries.is_empty() {
                out.push(line(indent, depth));
            }
            out.push(text("}"));
        }
    }
}

/// Compares an output with a layout. Returns the listed-finding keys met.
fn compare(out: &str, pieces: &[Piece]) -> Result<Vec<String>, String> {
    let mut rest = out;
    let mut keys = Vec::new();
    for p in pieces {
        match p {
            Piece::Text(t) => {
                rest = rest.strip_prefix(&t[..]).ok_or_else(|| format!("expected {:?} at {}", t, clip(rest)))?;
            }
            Piece::Str(s) => {
                let mut end = None;
                let mut esc = false;
                for (i, c) in rest.char_indices().skip(1) {
                    if esc {
                        esc = false;
                    } else if c == '\\' {
                        esc = true;
                    } else if c == '"' {
                        end = Some(i + 1);
                        break;
                    }
                }
                let end = end.ok_or_else(|| format!("expected a string at {}", clip(rest)))?;
                match parse(&chars(&rest[..end]), false).map(|v| v.tree()) {
                    Ok(Tree::Str(t)) if t == *s => (),
                    _ => return Err(format!("expected the string {} at {}", clip(s), clip(rest))),
                }
                rest = &rest[end..];
            }
            Piece::Int(_) | Piece::F32(_) | Piece::F64(_) => {
                let special = match p {
                    Piece::F32(x) if !x.is_finite() => Some(("put_f32", x.is_nan(), *x > 0.0)),
                    Piece::F64(x) if !x.is_finite() => Some(("put_f64", x.is_nan(), *x > 0.0)),
                    _ => None,
                };
                if let Some((call, nan, pos)) = special {
                    let name = if nan { "NaN" } else if pos { "inf" } else { "-inf" };
                    if let Some(r) = rest.strip_prefix(name) {
                        keys.push(format!("{}:{}", call, name));
                        rest = r;
                        continue;
                    }
                    if let Some(r) = rest.strip_prefix("null") {
                        rest = r;
                        continue;
                    }
                    return Err(format!("unexpected text for {} at {}", name, clip(rest)));
                }
                let end = rest.find(|c: char| !"0123456789+-.eE".contains(c)).unwrap_or(rest.len());
                let lit = &rest[..end];
                if !matches!(parse(&chars(lit), false), Ok(Val { node: Node::Num(_), .. })) {
                    return Err(format!("not a number: {}", clip(rest)));
                }
                let ok = match p {
                    Piece::Int(x) => decimal(lit).and_then(|d| d.integer(i128::MIN, u128::MAX)) == Some((*x).into()),
                    Piece::F32(x) => lit.parse::<f32>().map(|y| y.to_bits()) == Ok(x.to_bits()),
                    Piece::F64(x) => lit.parse::<f64>().map(|y| y.to_bits()) == Ok(x.to_bits()),
                    _ => unreachable!(),
                };
                if !ok {
                    return Err(format!("wrong number at {}", clip(rest)));
                }
                rest = &rest[end..];
            }
        }
    }
    if rest.is_empty() { Ok(keys) } else { Err(format!("trailing {}", clip(rest))) }
}

fn tree(n: &N) -> Tree {
    match n {
        N::Null => Tree::Null,
        N::Bool(x) => Tree::Bool(*x),
        N::I8(x) => Tree::Num((*x as f64).to_bits()),
        N::I16(x) => Tree::Num((*x as f64).to_bits()),
        N::I32(x) => Tree::Num((*x as f64).to_bits()),
        N::I64(x) => Tree::Num((*x as f64).to_bits()),
        N::U8(x) => Tree::Num((*x as f64).to_bits()),
        N::U16(x) => Tree::Num((*x as f64).to_bits()),
        N::U32(x) => Tree::Num((*x as f64).to_bits()),
        N::U64(x) => Tree::Num((*x as f64).to_bits()),
        N::Tag(x) => Tree::Num((*x as f64).to_bits()),
        // The shortest text of an f32 is another f64
        N::F32(_) => Tree::Null,
        N::F64(x) => Tree::Num(x.to_bits()),
        N::Str(_, s) => Tree::Str(s.clone()),
        N::List(_, i) => Tree::Arr(i.iter().map(tree).collect()),
        N::Obj(e) => Tree::Obj(e.iter().map(|(_, k, v)| (k.clone(), tree(v))).collect()),
        N::Struct(e) => Tree::Obj(e.iter().map(|(k, v)| (k.to_string(), tree(v))).collect()),
    }
}

fn has_f32(n: &N) -> bool {
    match n {
        N::F32(_) => true,
        N::List(_, i) => i.iter().any(has_f32),
        N::Obj(e) => e.iter().any(|(_, _, v)| has_f32(v)),
        N::Struct(e) => e.iter().any(|(_, v)| has_f32(v)),
        _ => false,
    }
}

const INDENTS: &[Option<&str>] = &[None, Some("\t"), Some("  "), Some("")];
const ALL_INDENTS: &[Option<&str>] =
    &[None, Some(""), Some(" "), Some("\t"), Some("    "), Some("\r"), Some("\n"), Some(" \t\r\n"), Some("                ")];

/// Judges the calls under every given configuration. Returns a listed finding met.
fn judge_calls(ch: &mut Ch, n: &N, indents: &[Option<&'static str>]) -> Result<Option<(String, String)>, Fail> {
    if ch.noting() {
        ch.note(|| format!("calls describe {}", clip(&format!("{:?}", n))));
    }
    let mut known = None;
    for &indent in indents {
        let what = || format!("{} with indent {:?}", clip(&format!("{:?}", n)), indent);
        let text = no_panic(what, || {
            let mut s = String::new();
            let mut w = TextSerializer::new(TextSerializerConfig { indent }, &mut s);
            emit(&mut w, n).unwrap();
            w.close();
            s
        })?;
        ch.step();
        ch.state(&text);
        let mut pieces = Vec::new();
        layout(n, indent, 0, &mut pieces);
        match compare(&text, &pieces) {
            Ok(keys) if keys.is_empty() => match parse(&chars(&text), false) {
                Ok(v) => check!(has_f32(n) || v.tree() == tree(n), "{} gives {}, which denotes {:?}", what(), clip(&text), v.tree()),
                Err(e) => return fail(format!("{} gives {}, which is not JSON (at {})", what(), clip(&text), e.at)),
            },
            Ok(keys) => known = Some((keys[0].clone(), format!("{} gives {}, which is not JSON", what(), clip(&text)))),
            Err(e) => return fail(format!("{} gives {}: {}", what(), clip(&text), e)),
        }
    }
    Ok(known)
}

/// Judges the functions for whole values, which write compactly.
fn judge_functions(ch: &mut Ch, n: &N) -> Outcome {
    let mut pieces = Vec::new();
    layout(n, None, 0, &mut pieces);
    let what = || format!("{} by the functions for whole values", clip(&format!("{:?}", n)));
    for (name, text) in no_panic(what, || by_functions(n))? {
        let text = match text {
            Ok(t) => t,
            Err(e) => return fail(format!("{} by {} fails: {}", clip(&format!("{:?}", n)), name, e)),
        };
        ch.step();
        ch.state(&text);
        // Literals outside JSON are listed findings of the calls, judged above
        if let Err(e) = compare(&text, &pieces) {
            return fail(format!("{} by {} gives {}: {}", clip(&format!("{:?}", n)), name, clip(&text), e));
        }
    }
    Ok(())
}

fn judge(ch: &mut Ch, n: &N, indents: &[Option<&'static str>]) -> Outcome {
    let known = judge_calls(ch, n, indents)?;
    judge_functions(ch, n)?;
    match known {
        Some((key, msg)) => fail_key(key, msg),
        None => Ok(()),
    }
}

/// One value of at most `budget` nodes.
fn grow(ch: &mut Ch, budget: &mut usize, leaves: usize, kinds: usize) -> N {
    *budget -= 1;
    let containers = if *budget > 0 { kinds } else { 3 };
    // Empty containers need no budget beyond their own node
    let c = ch.choose(leaves + containers);
    if c < leaves {
        return match c {
            0 => N::Null,
            1 => N::Str(StrKind::Put, "s,\"".into()),
            2 => N::U8(7),
            3 => N::Str(StrKind::Mixed, "\u{1}x".into()),
            4 => N::Bool(true),
            _ => N::F64(-0.5),
        };
    }
    let kind = c - leaves;
    // 0 streaming list, 1 object by push, 2 struct, 3 object by add_entry, 4 sized list, 5 tuple
    let mut children = Vec::new();
    while *budget > 0 && ch.flip() {
        children.push(grow(ch, budget, leaves, kinds));
    }
    let key = |i: usize| ["k", "k", "\"", ""][i % 4].to_string();
    match kind {
        0 => N::List(ListKind::Streaming, children),
        4 => N::List(ListKind::Sized, children),
        5 => N::List(ListKind::Tuple, children),
        1 => N::Obj(children.into_iter().enumerate().map(|(i, v)| (EntryKind::Push, key(i), v)).collect()),
        3 => N::Obj(
            children
                .into_iter()
                .enumerate()
                .map(|(i, v)| ([EntryKind::AddStr, EntryKind::AddMixed, EntryKind::AddChars][i % 3], key(i), v))
                .collect(),
        ),
        _ => N::Struct(children.into_iter().enumerate().map(|(i, v)| (FIELDS[i % 4], v)).collect()),
    }
}

const CONTEXTS: usize = 11;

/// Places a value into a document.
fn place(n: N, ctx: usize) -> N {
    let one = || N::U8(1);
    match ctx {
        0 => n,
        1 => N::List(ListKind::Sized, vec![n]),
        2 => N::List(ListKind::Streaming, vec![one(), n, one()]),
        3 => N::List(ListKind::Tuple, vec![N::List(ListKind::Tuple, vec![]), n]),
        4 => N::Obj(vec![(EntryKind::Push, "k".into(), n)]),
        5 => N::Obj(vec![(EntryKind::AddStr, "j".into(), one()), (EntryKind::AddChars, "k".into(), n), (EntryKind::Push, "l".into(), one())]),
        6 => N::Struct(vec![("a", n), ("b", one())]),
        7 => N::Struct(vec![("a", N::Obj(vec![])), ("b", n)]),
        8 => N::List(ListKind::Sized, vec![N::Obj(vec![(EntryKind::AddMixed, "k".into(), n)]), one()]),
        9 => N::Obj(vec![(EntryKind::Push, "k".into(), N::List(ListKind::Sized, vec![n])), (EntryKind::Push, "l".into(), N::Null)]),
        _ => N::Obj(vec![
            (EntryKind::AddStr, "k".into(), N::Struct(vec![("a", N::List(ListKind::Streaming, vec![N::Null, n]))])),
            (EntryKind::AddStr, "l".into(), one()),
        ]),
    }
}

/// Integers around powers of two and ten.
fn notable(i: usize) -> Option<i128> {
    let base = i / 7;
    let d = (i % 7) as i128 - 3;
    if base < 65 {
        Some((1i128 << base) + d)
    } else if base < 65 + 20 {
        Some(10i128.pow((base - 65) as u32) + d)
    } else {
        None
    }
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = Vec::new();
    let nodes = t.pick(6, 7);
    v.push(family(
        "call sequences",
        format!("all documents of at most {} values over 3 scalars and 6 container kinds (sized / streaming list, tuple, object by push_entry / add_entry, struct), compact and 3 indents", nodes),
        move |ch| {
            let n = grow(ch, &mut { nodes }, 3, 6);
            judge(ch, &n, INDENTS)
        },
    ));
    let nodes2 = t.pick(8, 9);
    v.push(family(
        "nesting shapes",
        format!("all documents of at most {} values over 1 scalar and 2 container kinds, compact and all 8 indents", nodes2),
        move |ch| {
            let n = grow(ch, &mut { nodes2 }, 1, 2);
            judge(ch, &n, ALL_INDENTS)
        },
    ));
    v.push(family(
        "wide scalars",
        "all documents of at most 4 values over 6 scalars and 6 container kinds, compact and all 8 indents",
        move |ch| {
            let n = grow(ch, &mut { 4 }, 6, 6);
            judge(ch, &n, ALL_INDENTS)
        },
    ));
    v.push(family(
        "integers",
        "all i8, u8, i16, u16 values; values within 3 of every power of 2 and 10, both signs, as every integer type they fit and as tags; in 11 contexts",
        move |ch| {
            let ctx;
            let n = match ch.choose(3) {
                0 => {
                    let x = ch.choose(65536);
                    ctx = if x % 997 == 0 { ch.choose(CONTEXTS) } else { [0, 2, 5][x % 3] };
                    match ch.choose(2) {
                        0 => N::U16(x as u16),
                        _ => N::I16(x as u16 as i16),
                    }
                }
                1 => {
                    let x = ch.choose(256);
                    ctx = ch.choose(CONTEXTS);
                    match ch.choose(2) {
                        0 => N::U8(x as u8),
                        _ => N::I8(x as u8 as i8),
                    }
                }
                _ => {
                    let mut x = match notable(ch.choose(85 * 7)) {
                        Some(x) => x,
                        None => return ch.skip(),
                    };
                    if ch.flip() {
                        x = -x;
                    }
                    ctx = ch.choose(CONTEXTS);
                    match ch.choose(9) {
                        0 if i8::try_from(x).is_ok() => N::I8(x as i8),
                        1 if i16::try_from(x).is_ok() => N::I16(x as i16),
                        2 if i32::try_from(x).is_ok() => N::I32(x as i32),
                        3 if i64::try_from(x).is_ok() => N::I64(x as i64),
                        4 if u8::try_from(x).is_ok() => N::U8(x as u8),
                        5 if u16::try_from(x).is_ok() => N::U16(x as u16),
                        6 if u32::try_from(x).is_ok() => N::U32(x as u32),
                        7 if u64::try_from(x).is_ok() => N::U64(x as u64),
                        8 if usize::try_from(x).is_ok() => N::Tag(x as usize),
                        _ => return ch.skip(),
                    }
                }
            };
            judge(ch, &place(n, ctx), INDENTS)
        },
    ));
    v.push(family(
        "floats",
        "f32: every sign and exponent x 8 mantissas; f64: every sign and exponent x 8 mantissas; including infinities and NaN; in 11 contexts (all for every 16th exponent)",
        move |ch| {
            let n;
            let e;
            if ch.flip() {
                let sign = ch.choose(2) as u32;
                e = ch.choose(256);
                let m = *ch.pick(&[0u32, 1, 2, 0x7F_FFFF, 0x7F_FFFE, 0x40_0000, 0x2A_AAAA, 0x12_3456]);
                n = N::F32(f32::from_bits(sign << 31 | (e as u32) << 23 | m));
            } else {
                let sign = ch.choose(2) as u64;
                e = ch.choose(2048);
                let m = *ch.pick(&[0u64, 1, 2, (1 << 52) - 1, (1 << 52) - 2, 1 << 51, 0xA_AAAA_AAAA_AAAA, 0x1_2345_6789_ABCD]);
                n = N::F64(f64::from_bits(sign << 63 | (e as u64) << 52 | m));
            }
            let ctx = if e % 16 == 15 { ch.choose(CONTEXTS) } else { e % CONTEXTS };
            judge(ch, &place(n, ctx), INDENTS)
        },
    ));
    v.push(family(
        "scalars and contexts",
        "every other scalar call (null, booleans, strings, characters, tags) x 12 strings x 11 contexts x all indents",
        move |ch| {
            let strs = ["", "a", "\"", "\\", "\n", "\0", "é", "😀", "a\"b\\c\u{1f}d", "/*", "\u{2028}", "\u{7f}"];
            let n = match ch.choose(10) {
                0 => N::Null,
                1 => N::Bool(false),
                2 => N::Bool(true),
                3 => N::Str(StrKind::Tag, ch.pick(FIELDS).to_string()),
                c => {
                    let s = ch.pick(&strs).to_string();
                    match c {
                        4 => N::Str(StrKind::Put, s),
                        5 => N::Str(StrKind::Append, s),
                        6 => N::Str(StrKind::Chars, s),
                        7 => N::Str(StrKind::Mixed, s),
                        8 if s.chars().count() == 1 => N::Str(StrKind::Char, s),
                        9 => {
                            let kind = *ch.pick(&[EntryKind::Push, EntryKind::AddStr, EntryKind::AddChars, EntryKind::AddMixed]);
                            N::Obj(vec![(kind, s, N::Null)])
                        }
                        _ => return ch.skip(),
                    }
                }
            };
            let ctx = ch.choose(CONTEXTS);
            judge(ch, &place(n, ctx), ALL_INDENTS)
        },
    ));
    v.push(family(
        "every character",
        "every Unicode scalar value as put_char, in put_str, append_str, append_char and as a key by push_entry / add_entry",
        move |ch| {
            let scalars: usize = 0x110000 - 0x800;
            let hi = ch.choose(scalars.div_ceil(64));
            let i = hi * 64 + ch.choose(64.min(scalars - hi * 64));
            let c = char::from_u32(if i < 0xD800 { i as u32 } else { i as u32 + 0x800 }).unwrap();
            let s = c.to_string();
            let t = format!("a{}b", c);
            let n = N::List(
                ListKind::Sized,
                vec![
                    N::Str(StrKind::Char, s.clone()),
                    N::Str(StrKind::Put, s.clone()),
                    N::Str(StrKind::Append, t.clone()),
                    N::Str(StrKind::Chars, t.clone()),
                    N::Str(StrKind::Mixed, t.clone()),
                    N::Obj(vec![(EntryKind::Push, s.clone(), N::Null), (EntryKind::AddChars, s, N::Null), (EntryKind::AddStr, t, N::Null)]),
                ],
            );
            judge(ch, &n, &[None])
        },
    ));
    let sl = t.pick(4, 5);
    v.push(family(
        "strings",
        format!("all strings of at most {} characters over 12 sharp characters, as value and as key by every call", sl),
        move |ch| {
            let a = ['a', '"', '\\', '\n', '\0', '\u{1F}', ' ', '\u{7F}', 'é', '😀', 'u', '\u{8}'];
            let mut s = String::new();
            for _ in 0..sl {
                let i = ch.choose(a.len() + 1);
                if i == 0 {
                    break;
                }
                s.push(a[i - 1]);
            }
            let n = N::List(
                ListKind::Streaming,
                vec![
                    N::Str(StrKind::Put, s.clone()),
                    N::Str(StrKind::Append, s.clone()),
                    N::Str(StrKind::Mixed, s.clone()),
                    N::Obj(vec![(EntryKind::Push, s.clone(), N::Null), (EntryKind::AddMixed, s, N::Null)]),
                ],
            );
            judge(ch, &n, &[None, Some("\t")])
        },
    ));
    v.push(family(
        "depths and widths",
        "every depth 0..=300 (and 1000, 65536 compact) of 6 nesting patterns x 7 choices of siblings at every level, every width 0..=300 (and 1000, 65537) of 6 container kinds, strings and keys of 0..=300 (and 4096, 65537) characters",
        move |ch| {
            let what = ch.choose(3);
            let i = ch.choose(303);
            let n = match (what, i) {
                (0, 301) => 1000,
                (0, 302) => 65536,
                (_, 301) => 4096,
                (_, 302) => 65537,
                _ => i,
            };
            let pattern = ch.choose(6);
            match what {
                0 => {
                    // Built by direct calls, as nested values of this depth cannot be dropped
                    let indents: &[Option<&'static str>] = if n > 1000 { &[None] } else { &[None, Some("\t"), Some("")] };
                    let around = *ch.pick(AROUND);
                    for &indent in indents {
                        let what = || format!("depth {} pattern {} siblings {:?} indent {:?}", n, pattern, around, indent);
                        let text = no_panic(what, || nest(n, pattern, around, indent))?;
                        let want = nest_layout(n, pattern, around, indent);
                        ch.step();
                        ch.state(&text);
                        check!(text == want, "{}: {}, expected {}", what(), diff_clip(&text, &want).0, diff_clip(&text, &want).1);
                    }
                    Ok(())
                }
                1 => {
                    let items = || vec![N::U8(1); n];
                    let doc = match pattern {
                        0 => N::List(ListKind::Sized, items()),
                        1 => N::List(ListKind::Streaming, items()),
                        2 => N::List(ListKind::Tuple, items()),
                        3 => N::Obj((0..n).map(|i| (EntryKind::Push, format!("{}", i), N::Null)).collect()),
                        4 => N::Obj((0..n).map(|i| (EntryKind::AddStr, format!("{}", i), N::List(ListKind::Sized, vec![]))).collect()),
                        _ => N::Struct((0..n).map(|i| (FIELDS[i % 4], N::Bool(true))).collect()),
                    };
                    judge(ch, &doc, &[None, Some("\t")])
                }
                _ => {
                    let s = ["a", "\"", "é", "😀", "\u{1}", "\\n"][pattern].repeat(n);
                    judge(
                        ch,
                        &N::Obj(vec![
                            (EntryKind::Push, s.clone(), N::Str(StrKind::Put, s.clone())),
                            (EntryKind::AddChars, s.clone(), N::Str(StrKind::Chars, s)),
                        ]),
                        &[None, Some("  ")],
                    )
                }
            }
        },
    ));
    v
}

/// The surroundings of the first difference of two texts.
fn diff_clip(a: &str, b: &str) -> (String, String) {
    let same = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| {
        let from = (0..=same.saturating_sub(20)).rev().find(|i| s.is_char_boundary(*i)).unwrap();
        format!("(from byte {}) {}", from, clip(&s[from..]))
    };
    (cut(a), cut(b))
}

/// What stands before and after the nested value at every level: nothing, a scalar, empty containers.
const AROUND: &[(usize, usize)] = &[(0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 0), (2, 3)];

fn is_object(pattern: usize, i: usize) -> bool {
    match pattern {
        0 => false,
        1 => true,
        2 => i % 2 == 0,
        3 => i % 3 == 0,
        4 => i % 2 == 1,
        _ => i % 3 != 0,
    }
}

/// Writes nested containers by direct calls, with siblings at every level.
fn nest(n: usize, pattern: usize, around: (usize, usize), indent: Option<&'static str>) -> String {
    let mut s = String::new();
    let mut w = TextSerializer::new(TextSerializerConfig { indent }, &mut s);
    type W<'a> = TextSerializer<&'a mut String>;
    fn push(w: &mut W, object: bool, i: usize) -> Result<(), Infallible> {
        match (object, i % 2) {
            (true, 0) => w.push_entry("k"),
            (true, _) => w.push_field("k"),
            (false, 0) => w.push_item(),
            (false, _) => w.push_element(),
        }
    }
    fn sibling(w: &mut W, object: bool, i: usize, kind: usize) -> Result<(), Infallible> {
        if kind > 0 {
            push(w, object, i)?;
        }
        match kind {
            1 => w.put_u8(2)?,
            2 => {
                w.open_list_sized(0)?;
                w.close_list()?;
            }
            3 => {
                w.open_object()?;
                w.close_object()?;
            }
            _ => (),
        }
        Ok(())
    }
    let mut go = || -> Result<(), Infallible> {
        for i in 0..n {
            let object = is_object(pattern, i);
            match (object, i % 2) {
                (true, 0) => w.open_object()?,
                (true, _) => w.open_struct(None)?,
                (false, 0) => w.open_list_streaming()?,
                (false, _) => w.open_tuple(None)?,
            }
            sibling(&mut w, object, i, around.0)?;
            push(&mut w, object, i)?;
        }
        w.put_u8(1)?;
        for i in (0..n).rev() {
            let object = is_object(pattern, i);
            sibling(&mut w, object, i, around.1)?;
            match (object, i % 2) {
                (true, 0) => w.close_object()?,
                (true, _) => w.close_struct()?,
                (false, 0) => w.close_list()?,
                (false, _) => w.close_tuple()?,
            }
        }
        Ok(())
    };
    go().unwrap();
    s
}

fn nest_layout(n: usize, pattern: usize, around: (usize, usize), indent: Option<&str>) -> String {
    let mut s = String::new();
    let line = |s: &mut String, depth: usize| {
        if let Some(t) = indent {
            s.push('\n');
            for _ in 0..depth {
                s.push_str(t);
            }
        }
    };
    // The start of an item or entry of level `i`
    let start = |s: &mut String, i: usize, first: bool| {
        let object = is_object(pattern, i);
        if !first {
            s.push(',');
        }
        line(s, i + 1);
        if indent.is_none() && (object || !first) {
            s.push(' ');
        }
        if object {
            s.push_str("\"k\": ");
        }
    };
    let sibling = ["", "2", "[]", "{}"];
    for i in 0..n {
        s.push(if is_object(pattern, i) { '{' } else { '[' });
        if around.0 > 0 {
            start(&mut s, i, true);
            s.push_str(sibling[around.0]);
        }
        start(&mut s, i, around.0 == 0);
    }
    s.push('1');
    for i in (0..n).rev() {
        if around.1 > 0 {
            start(&mut s, i, false);
            s.push_str(sibling[around.1]);
        }
        line(&mut s, i);
        if indent.is_none() && is_object(pattern, i) {
            s.push(' ');
        }
        s.push(if is_object(pattern, i) { '}' } else { ']' });
    }
    s
}

fn main() {
    mc::main(Check {
        id: "C02",
        families,
        assumptions: &[
            "The layout is the one the repository's own tests and documentation show: compact `[1, 2]`, `{ \"a\": 1 }`; with an indent, every item and entry on its own line at its nesting depth; `[]` and `{}` when empty; a key is followed by a colon and a space.",
            "Any legal escape of a character and any literal denoting the number is accepted; a non-finite float has no JSON form (listed findings; `null` would be accepted).",
        ],
    })
}
