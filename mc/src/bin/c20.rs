//! C20: the provided methods and standard implementations of the JSON traits serve any JSON format.

#[path = "../../shared/types_list.rs"]
#[macro_use]
mod types_list;
#[path = "../../shared/described.rs"]
mod described;
#[path = "../../shared/types.rs"]
mod types;

use mc::gen::*;
use mc::model::{chars, clip, parse, quote, Tree as Json};
use mc::readers::CharReader;
use mc::schema::*;
use mc::tree::*;
use mc::walk::*;
use mc::*;
use serdere::{Deserializer, Outliner, Serializer};
use serdere_json::*;
use std::rc::Rc;
use types::*;

fn doc(text: &str) -> (mc::model::Val, Rc<Doc>) {
    match parse(&chars(text), false) {
        Ok(v) => {
            let d = Rc::new(Doc::of(&v));
            (v, d)
        }
        Err(e) => std::panic::resume_unwind(Box::new(EnginePanic(format!("generated text is not JSON at {}: {}", e.at, text)))),
    }
}

// ---------------------------------------------------------------------------------------------
// Values of types with codecs

fn write<T: Serialize<TreeSer>>(value: &T, fault: Option<usize>) -> (Result<(), TreeError>, TreeSer) {
    let mut s = TreeSer::new(fault);
    let res = serdere::Value::with(&mut s, |v| v.put(value));
    (res, s)
}

fn read<T: Deserialize<TreeDe>>(doc: &Rc<Doc>, lens: bool, fault: Option<usize>) -> (Result<T, TreeError>, TreeDe) {
    let mut d = TreeDe::new(doc.clone(), lens, fault);
    let res = serdere::Value::with(&mut d, |v| v.get());
    (res, d)
}

fn check_value<T>(ch: &mut Ch, value: &T, cap: usize) -> Outcome
where
    T: Val + Serialize<TreeSer> + Deserialize<TreeDe> + for<'a> Serialize<TextSerializer<&'a mut String>>,
{
    let name = std::any::type_name::<T>();
    ch.note(|| format!("{}: {:?}", name, value));
    let run = |ch: &mut Ch| -> Outcome {
        let text = to_str(value);
        let (v, _) = doc(&text);
        let (res, s) = write(value, None);
        ch.state(&(name, &text));
        ch.steps(s.calls);
        check!(res == Ok(()) && s.done(), "{:?} as {}: writing as a tree ended with {:?}", value, name, res);
        check!(s.doc.matches(&v), "{:?} as {}: written as the tree {} and as the text {}", value, name, s.doc.show(0), clip(&text));
        let TreeSer { doc: tree, calls: writes, .. } = s;
        let tree = Rc::new(tree);
        // Which of the three runs is to fail
        let fail_in = if cap > 0 { ch.choose(3) } else { 3 };
        for (i, lens) in [false, true].into_iter().enumerate() {
            let (got, d) = read::<T>(&tree, lens, None);
            ch.steps(d.calls);
            match got {
                Ok(g) => {
                    check!(g.same(value) && d.done(), "{:?} as {}: written as the tree {} and read back as {:?}", value, name, tree.show(0), g);
                }
                Err(e) => return fail(format!("{:?} as {}: written as the tree {}, which does not read back: {:?}", value, name, tree.show(0), e)),
            }
            if fail_in == i {
                let k = ch.choose(d.calls.min(cap));
                let (got, d) = read::<T>(&tree, lens, Some(k));
                let injected = matches!(&got, Err(TreeError { what: What::Injected(n), .. }) if *n == k);
                check!(injected && d.calls == k + 1, "{} as {}: call {} of the format fails, but the result is {:?} after {} calls", tree.show(0), name, k, got, d.calls);
            }
        }
        if fail_in == 2 {
            let k = ch.choose(writes.min(cap));
            let (got, s) = write(value, Some(k));
            let injected = matches!(&got, Err(TreeError { what: What::Injected(n), .. }) if *n == k);
            check!(injected && s.calls == k + 1, "{:?} as {}: call {} of the format fails, but the result is {:?} after {} calls", value, name, k, got, s.calls);
        }
        Ok(())
    };
    match sut(|| run(ch)) {
        Ok(r) => r,
        Err(p) => fail(format!("{:?} as {}: panicked: {}", value, name, p)),
    }
}

fn run<T>(ch: &mut Ch, lvl: isize, cap: usize) -> Outcome
where
    T: Val + Serialize<TreeSer> + Deserialize<TreeDe> + for<'a> Serialize<TextSerializer<&'a mut String>>,
{
    let value = T::gen(ch, lvl);
    check_value(ch, &value, cap)
}

type Run = fn(&mut Ch, isize, usize) -> Outcome;

fn table() -> Vec<(&'static str, Run)> {
    macro_rules! entry {
        ($t:ty) => {
            (stringify!($t), run::<$t> as Run)
        };
    }
    for_types!(entry)
}

// ---------------------------------------------------------------------------------------------
// Documents read as types

fn decode_tree<L: Leaf<TreeDe>>(ty: &Ty, doc: &Rc<Doc>, lens: bool, fault: Option<usize>) -> (Result<G, TreeError>, TreeDe) {
    let mut d = TreeDe::new(doc.clone(), lens, fault);
    let res = serdere::Value::with(&mut d, |v| decode::<_, L>(ty, v));
    (res, d)
}

fn judge<L>(ch: &mut Ch, what: &str, ty: &Ty, text: &str, faults: bool) -> Outcome
where
    L: Leaf<TreeDe> + for<'a> Leaf<TextDeserializer<CharReader<'a>>>,
{
    let (v, doc) = doc(text);
    let want = expect(ty, &v);
    ch.note(|| format!("document {}, type {} {:?}", clip(text), what, ty));
    ch.state(&(what, text));
    ch.outcome(&format!("{:?}", want.as_ref().err()));
    let name = || format!("{} as a tree, read as {} {:?}", clip(text), what, ty);
    let fail_in = faults && ch.flip();
    for lens in [false, true] {
        let (got, d) = no_panic(name, || decode_tree::<L>(ty, &doc, lens, None))?;
        ch.steps(d.calls);
        match (&got, &want) {
            (Ok(g), Ok(w)) => check!(g == w && d.done(), "{}: got {:?}, expected {:?}", name(), g, w),
            (Err(TreeError { what: What::Kind(kind, msg), pos }), Err(faults)) => {
                check!(
                    faults.iter().any(|f| f.kind == *kind && f.pos == *pos),
                    "{}: {:?} {} at the value at {}, expected one of {:?}",
                    name(), kind, msg, pos, faults
                );
                // The same fault of the text has the same message
                if !lens && *kind == Kind::Custom && !msg.is_empty() {
                    let cs = chars(text);
                    let t = no_panic(name, || decode_doc::<L, _>(ty, false, CharReader::new(&cs)))?;
                    if let Err(e) = t {
                        if let (DeserializeErrorMessage::Custom(m), true) = (e.message(), e.position() == pos) {
                            check!(m.to_string() == *msg, "{}: {:?}, but {:?} for the text", name(), msg, m.to_string());
                        }
                    }
                }
            }
            (got, want) => return fail(format!("{}: got {:?}, expected {:?}", name(), got, want)),
        }
        if faults && lens == fail_in && d.calls > 0 {
            let k = ch.choose(d.calls);
            let (got, d) = no_panic(name, || decode_tree::<L>(ty, &doc, lens, Some(k)))?;
            let injected = matches!(&got, Err(TreeError { what: What::Injected(n), .. }) if *n == k);
            check!(injected && d.calls == k + 1, "{}: call {} of the format fails, but the result is {:?} after {} calls", name(), k, got, d.calls);
        }
    }
    Ok(())
}

macro_rules! statics {
    ($($t:ty),* $(,)?) => {
        type Entry = (&'static str, fn() -> Ty, fn(&mut Ch, &Ty, &str, bool) -> Outcome);
        const STATICS: &[Entry] = &[$((
            stringify!($t),
            <$t as described::Described>::ty,
            |ch, ty, text, faults| judge::<described::Of<$t>>(ch, stringify!($t), ty, text, faults),
        )),*];
        type InlineEntry = (&'static str, fn(&mut Ch, &str) -> Outcome);
    };
}

use described::{Nest, Outer, Point, Shape};

statics! {
    Point, described::Names, Outer, Nest, Shape, (), (u8, bool), (u8, Option<i8>, String), [u8; 3], [Option<bool>; 2],
    Option<Option<u8>>, Option<()>, Option<Point>, Vec<Point>, (Point, Shape), Vec<(u8, bool)>, Option<(u8, u8)>, [[u8; 2]; 2],
    Vec<Option<Option<bool>>>, NonZeroU8, Vec<char>, (NonZeroU8, char), Vec<Shape>,
}

fn inlined<T, const HOW: usize>(ch: &mut Ch, text: &str) -> Outcome
where
    T: described::Described,
    described::InlinedOf<T, HOW>: Leaf<TreeDe> + for<'a> Leaf<TextDeserializer<CharReader<'a>>>,
{
    let ty = Ty::Hole(Box::new(Ty::Inlined(described::INLINES[HOW], Box::new(T::ty()))));
    judge::<described::InlinedOf<T, HOW>>(ch, std::any::type_name::<T>(), &ty, text, false)
}

const INLINED: &[InlineEntry] = &[
    ("Point", inlined::<Point, 0>),
    ("Point", inlined::<Point, 1>),
    ("Point", inlined::<Point, 2>),
    ("Point", inlined::<Point, 3>),
    ("Point", inlined::<Point, 4>),
    ("Point", inlined::<Point, 5>),
    ("Outer", inlined::<Outer, 0>),
    ("Outer", inlined::<Outer, 1>),
    ("Outer", inlined::<Outer, 3>),
    ("Outer", inlined::<Outer, 5>),
    ("Shape", inlined::<Shape, 0>),
    ("Shape", inlined::<Shape, 1>),
    ("Shape", inlined::<Shape, 3>),
    ("Shape", inlined::<Shape, 5>),
];

/// Leaf types for single operations.
fn leaves() -> Vec<Ty> {
    let mut v = vec![Ty::Bool, Ty::NonZero, Ty::F64, Ty::Char, Ty::Str, Ty::Tag, Ty::Null, Ty::Any];
    for bits in [8, 16, 32, 64] {
        for signed in [false, true] {
            v.push(Ty::Int { bits, signed });
        }
    }
    let b = |t: Ty| Box::new(t);
    v.extend([
        Ty::Opt(b(U8)),
        Ty::Opt(b(Ty::Tag)),
        Ty::Opt2(b(Ty::Opt(b(Ty::Bool)))),
        Ty::List(b(U8)),
        Ty::List(b(Ty::Any)),
        Ty::Tuple(vec![U8, U8]),
        Ty::Tuple(vec![]),
        Ty::Struct(vec![field("a", U8)]),
        Ty::Struct(vec![field("a", Ty::Tag)]),
        Ty::Struct(vec![field("a", Ty::Struct(vec![field("b", U8)]))]),
        Ty::Struct(vec![]),
        Ty::Object(vec![("a", U8)]),
        Ty::Object(vec![]),
        Ty::Map(vec![], b(U8)),
        Ty::Map(vec!["a"], b(U8)),
    ]);
    v
}

const TEXTS: [&str; 38] = [
    "null", "true", "false", "0", "1", "-1", "4", "5", "6", "255", "256", "-128", "-129", "32768", "65536", "4294967296", "-9223372036854775809",
    "18446744073709551616", "1.5", "1e3", "1e400", "-0.0", "100e-2", "\"\"", "\"a\"", "\"ab\"", "\"on\"", "\"of\"", "\"é\"", "\"o\"", "[]", "[1]", "[1, 2]", "[1, 2, 3]", "[300]",
    "{}", "{\"a\": 1}", "{\"b\": 300}",
];

// ---------------------------------------------------------------------------------------------
// Calls

/// Chooses a tree of at most so many nodes.
fn any_tree(ch: &mut Ch, budget: &mut usize, depth: usize) -> String {
    *budget -= 1;
    let kinds = if depth == 0 { 5 } else { 7 };
    match ch.choose(kinds) {
        0 => "1".into(),
        1 => "\"sé\"".into(),
        2 => "null".into(),
        3 => "true".into(),
        4 => "\"\"".into(),
        k => {
            let mut items = Vec::new();
            while *budget > 0 && ch.flip() {
                let v = any_tree(ch, budget, depth - 1);
                items.push(if k == 5 { v } else { format!("\"{}\":{}", ["a", "b", "", "é"][items.len() % 4], v) });
            }
            if k == 5 { format!("[{}]", items.join(",")) } else { format!("{{{}}}", items.join(",")) }
        }
    }
}

fn distinct(t: &Json) -> bool {
    match t {
        Json::Arr(a) => a.iter().all(distinct),
        Json::Obj(o) => o.iter().enumerate().all(|(i, e)| distinct(&e.1) && o[..i].iter().all(|f| f.0 != e.0)),
        _ => true,
    }
}

/// Walks a tree in which single values and objects are skipped.
fn partly(ch: &mut Ch, d: &mut TreeDe, t: &Json) -> Result<Outcome, TreeError> {
    let h = d.height();
    let below = |d: &TreeDe, what: &str| -> Outcome {
        check!(d.height() == h - 1, "{} left {} items on the stack instead of {}", what, d.height(), h - 1);
        Ok(())
    };
    if ch.flip() {
        d.skip_value()?;
        return Ok(below(d, "skip_value"));
    }
    match t {
        Json::Arr(items) => {
            d.open_list()?;
            for t in items {
                if !d.next_item()? {
                    return Ok(fail("an item is missing"));
                }
                if let Err(f) = partly(ch, d, t)? {
                    return Ok(Err(f));
                }
            }
            match ch.choose(2) {
                0 => d.close_list()?,
                _ => {
                    if d.next_item()? {
                        return Ok(fail("an item too many"));
                    }
                }
            }
            Ok(below(d, "closing an array"))
        }
        Json::Obj(entries) => {
            d.open_object()?;
            for (key, t) in entries {
                match ch.choose(3) {
                    0 => {
                        d.skip_object()?;
                        return Ok(below(d, "skip_object"));
                    }
                    1 => d.push_entry(key)?,
                    _ => {
                        if !d.next_entry()? {
                            return Ok(fail("an entry is missing"));
                        }
                        match ch.choose(3) {
                            0 => {
                                let k = d.flush_str()?.into_owned();
                                if k != *key {
                                    return Ok(fail(format!("key {:?} instead of {:?}", k, key)));
                                }
                            }
                            1 => d.skip_str()?,
                            _ => {
                                if d.next_char()?.is_some() {
                                    d.skip_str()?;
                                }
                            }
                        }
                    }
                }
                if let Err(f) = partly(ch, d, t)? {
                    return Ok(Err(f));
                }
            }
            match ch.choose(3) {
                0 => d.close_object()?,
                1 => d.skip_object()?,
                _ => {
                    if d.next_entry()? {
                        return Ok(fail("an entry too many"));
                    }
                }
            }
            Ok(below(d, "closing an object"))
        }
        _ => {
            let got = walk(Mode::Direct, d)?;
            if got != *t {
                return Ok(fail(format!("{:?} instead of {:?}", got, t)));
            }
            Ok(below(d, "reading a value"))
        }
    }
}

fn strings() -> Vec<String> {
    let mut v: Vec<String> = ["", "a", "é", "on", "off", "o", "of", "onn", "offf", "\u{10ffff}x", "\"\\\n\0", "é\u{301}", "on\0"].iter().map(|s| s.to_string()).collect();
    v.push("long é ".repeat(200));
    v
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = Vec::new();
    let mut all = table();
    if let Ok(t) = std::env::var("MC_TYPE") {
        all.retain(|e| e.0.replace(" ", "") == t.replace(" ", ""));
    }
    let n = all.len();
    f.push(family(
        "values",
        format!("{} types, all values from the sharp sets of their leaves, written as trees and read back with and without known lengths", n),
        move |ch| {
            let (_, run) = all[ch.choose(all.len())];
            run(ch, t.pick(0, -1), 0)
        },
    ));
    let all = table();
    f.push(family(
        "failures of the format",
        format!("{} types, values of their innermost sets, every one of the first {} calls of the format failing, while writing and while reading with and without known lengths", n, t.pick(12, 300)),
        move |ch| {
            let (_, run) = all[ch.choose(all.len())];
            run(ch, 4, t.pick(12, 300))
        },
    ));
    f.push(family(
        "single values",
        "31 types x 38 values (all mismatches and overflows at the bounds) x 8 placements, also with a validation that rejects them",
        |ch| {
            let mut ty = ch.pick(&leaves()).clone();
            let text = *ch.pick(&TEXTS);
            if ch.flip() {
                ty = Ty::Check(Box::new(ty));
            }
            for p in PLACES {
                let (ty, text) = place(p, ty.clone(), text);
                judge::<NoLeaf>(ch, "", &ty, &text, false)?;
            }
            Ok(())
        },
    ));
    f.push(family(
        "single values, failures",
        "31 types x 38 values x 2 placements, every call of the format failing",
        |ch| {
            let ty = ch.pick(&leaves()).clone();
            let text = *ch.pick(&TEXTS);
            let (ty, text) = place(*ch.pick(&[Place::Top, Place::EntryLast, Place::Positional]), ty, text);
            judge::<NoLeaf>(ch, "", &ty, &text, true)
        },
    ));
    let faults = t.thorough();
    f.push(family(
        "objects of structs",
        format!("15 struct types x every arrangement of every subset of the fields x values out of 10 (4-field type: 3) x up to one unknown entry, as structs and as objects with exactly these entries, x {} placements{}", if faults { 7 } else { 3 }, if faults { ", every call of the format failing" } else { "" }),
        move |ch| {
            let structs = structs();
            let fields = ch.pick(&structs);
            let order = arrangement(ch, fields.len());
            let vals: &[&str] = &VALUES[..match fields.len() { 0..=2 => 10, 3 => 4, _ => 3 }];
            let mut entries: Vec<(String, String)> = order.iter().map(|i| (quote(fields[*i].name), ch.pick(vals).to_string())).collect();
            if ch.flip() {
                let at = ch.choose(entries.len() + 1);
                entries.insert(at, ("\"unknown\"".into(), "[{\"a\":1},\"}\"]".into()));
            }
            let text = object(&entries, 0);
            let ty = if ch.flip() {
                Ty::Object(fields.iter().map(|f| (f.name, f.ty.clone())).collect())
            } else {
                Ty::Struct(fields.clone())
            };
            for p in if faults { &PLACES[..] } else { &[Place::Top, Place::Deep, Place::Positional] } {
                let (ty, text) = place(*p, ty.clone(), &text);
                judge::<NoLeaf>(ch, "", &ty, &text, false)?;
            }
            if faults {
                judge::<NoLeaf>(ch, "", &ty, &text, true)?;
            }
            Ok(())
        },
    ));
    f.push(family(
        "arrays of structs and tuples",
        "15 struct types and the tuples of the same types x arrays of 0..=3 items out of 10 and up to 2 more x 8 placements",
        |ch| {
            let structs = structs();
            let fields = ch.pick(&structs);
            let tuple = ch.flip();
            let n = ch.choose(fields.len() + 3);
            let mut items = Vec::new();
            for i in 0..n {
                items.push(match fields.get(i) {
                    Some(_) if i < 2 => ch.pick(&VALUES[..10]).to_string(),
                    Some(f) => [good(&f.ty), "[9,9]"][ch.choose(2)].to_string(),
                    None => "{}".to_string(),
                });
            }
            let text = format!("[{}]", items.join(","));
            let ty = if tuple { Ty::Tuple(fields.iter().map(|f| f.ty.clone()).collect()) } else { Ty::Struct(fields.clone()) };
            for p in PLACES {
                let (ty, text) = place(p, ty.clone(), &text);
                judge::<NoLeaf>(ch, "", &ty, &text, false)?;
            }
            Ok(())
        },
    ));
    f.push(family(
        "derived and standard types",
        "23 types x their fitting and wrong texts to depth 3 and 15 values of all kinds x 8 placements, every call of the format failing (directly placed)",
        |ch| {
            let (_, ty, run) = *ch.pick(STATICS);
            let ty = ty();
            let mut texts = texts(&ty, 3);
            texts.extend(VALUES.iter().map(|s| s.to_string()));
            let text = ch.pick(&texts).clone();
            let p = *ch.pick(&PLACES);
            let (ty, text) = place(p, Ty::Hole(Box::new(ty)), &text);
            run(ch, &ty, &text, matches!(p, Place::Top))
        },
    ));
    f.push(family(
        "derived types, subsets",
        "23 types x objects of every arrangement of subsets of up to 2 field names with fitting and wrong values, with or without the rest",
        |ch| {
            let (_, ty, run) = *ch.pick(STATICS);
            let ty = ty();
            let names = names(&ty);
            if names.is_empty() {
                return ch.skip();
            }
            let mut left: Vec<usize> = (0..names.len()).collect();
            let mut entries = Vec::new();
            while !left.is_empty() && entries.len() < 2 {
                let i = ch.choose(left.len() + 1);
                if i == left.len() {
                    break;
                }
                let (name, ty) = &names[left.remove(i)];
                let texts = texts(ty, 2);
                entries.push((quote(name), ch.pick(&texts).clone()));
            }
            if ch.flip() {
                for i in left {
                    let (name, ty) = &names[i];
                    entries.push((quote(name), texts(ty, 2)[0].clone()));
                }
            }
            let (ty, text) = place(*ch.pick(&[Place::Top, Place::EntryLast, Place::Positional]), Ty::Hole(Box::new(ty)), &object(&entries, 0));
            run(ch, &ty, &text, false)
        },
    ));
    f.push(family(
        "inlined content",
        "14 combinations of a derived type and a way of inlining it in an object x every arrangement of subsets of up to 3 of its field names (fitting or wrong) with up to 2 other entries anywhere",
        |ch| {
            let (name, run) = *ch.pick(INLINED);
            let ty = match name {
                "Point" => <Point as described::Described>::ty(),
                "Outer" => <Outer as described::Described>::ty(),
                _ => <Shape as described::Described>::ty(),
            };
            let names = names(&ty);
            let mut left: Vec<usize> = (0..names.len()).collect();
            let mut entries = Vec::new();
            while !left.is_empty() && entries.len() < 3 {
                let i = ch.choose(left.len() + 1);
                if i == left.len() {
                    break;
                }
                let (name, ty) = &names[left.remove(i)];
                let texts = texts(ty, 2);
                entries.push((quote(name), ch.pick(&texts[..texts.len().min(3)]).clone()));
            }
            for (k, v) in [("\"y0\"", "[{}]"), ("\"y1\"", "\"s\"")] {
                let at = ch.choose(entries.len() + 2);
                if at <= entries.len() {
                    entries.insert(at, (k.into(), v.into()));
                }
            }
            run(ch, &object(&entries, 0))
        },
    ));
    let nodes = t.pick(5, 6);
    f.push(family(
        "whole trees",
        format!("all trees of at most {} nodes walked in 8 ways, and looked up in every order of up to 3 keys, with and without known lengths, and every call of the format failing in each", nodes),
        move |ch| {
            let text = any_tree(ch, &mut nodes.clone(), 3);
            let (v, doc) = doc(&text);
            let want = v.tree();
            ch.note(|| format!("document {}", text));
            ch.state(&text);
            let mode = ch.choose(MODES.len() + 1);
            let perm = if mode == MODES.len() {
                if !distinct(&want) {
                    return ch.skip();
                }
                ch.choose(6)
            } else {
                0
            };
            let lens = ch.flip();
            let go = |d: &mut TreeDe| -> Result<Option<Json>, TreeError> {
                match MODES.get(mode) {
                    Some(m) => consume_value(*m, d),
                    None => {
                        let order = |n: usize| -> Vec<usize> {
                            let mut left: Vec<usize> = (0..n).collect();
                            let mut p = perm;
                            let mut res = Vec::new();
                            while !left.is_empty() {
                                let m = left.len().min(3);
                                res.push(left.remove(p % m));
                                p /= m;
                            }
                            res
                        };
                        lookup_walk(d, &want, &order).map(Some)
                    }
                }
            };
            let what = || format!("{} consumed as a tree ({:?}, order {})", text, MODES.get(mode), perm);
            let (got, d) = no_panic(what, || {
                let mut d = TreeDe::new(doc.clone(), lens, None);
                (go(&mut d), d)
            })?;
            ch.steps(d.calls);
            check!(matches!(&got, Ok(Some(t)) if *t == want) || got == Ok(None), "{}: got {:?}", what(), got);
            check!(d.done(), "{}: not everything has been consumed", what());
            let k = ch.choose(d.calls);
            let (got, d) = no_panic(what, || {
                let mut d = TreeDe::new(doc.clone(), lens, Some(k));
                (go(&mut d), d)
            })?;
            let injected = matches!(&got, Err(TreeError { what: What::Injected(n), .. }) if *n == k);
            check!(injected && d.calls == k + 1, "{}: call {} of the format fails, but the result is {:?} after {} calls", what(), k, got, d.calls);
            Ok(())
        },
    ));
    let nodes = t.pick(4, 5);
    f.push(family(
        "partly skipped trees",
        format!("all trees of at most {} nodes, each value skipped or read, each object left or closed after any entry, each entry taken by key or in order and its key read, skipped or both", nodes),
        move |ch| {
            let text = any_tree(ch, &mut nodes.clone(), 3);
            let (v, doc) = doc(&text);
            ch.note(|| format!("document {}", text));
            let tree = v.tree();
            if !distinct(&tree) {
                return ch.skip();
            }
            let mut d = TreeDe::new(doc, true, None);
            let res = no_panic(|| format!("{} partly skipped", text), || partly(ch, &mut d, &tree))?;
            ch.steps(d.calls);
            ch.state(&(&text, d.calls));
            match res {
                Ok(Ok(())) => {
                    check!(d.done(), "{}: not everything has been consumed", text);
                    Ok(())
                }
                Ok(Err(f)) => fail(format!("{}: {}", text, f.msg)),
                Err(e) => fail(format!("{}: {:?}", text, e)),
            }
        },
    ));
    f.push(family(
        "strings read",
        "14 strings as values and as keys, up to all of their characters (of long ones: 12) read one by one and the rest read, skipped or looked up; whole as string or name; every call of the format failing",
        |ch| {
            let s = ch.pick(&strings()).clone();
            let key = ch.flip();
            let text = if key { format!("{{{}:7}}", quote(&s)) } else { quote(&s) };
            let (_, doc) = doc(&text);
            let n = s.chars().count();
            let k = ch.choose(n.min(12) + 1);
            let how = ch.choose(6);
            if how >= 4 && (key || k > 0) {
                return ch.skip();
            }
            let rest: String = s.chars().skip(k).collect();
            let name = NAME_LIST.iter().find(|e| e.0 == rest).map(|e| e.1);
            ch.note(|| format!("{} characters of {}, then {}", k, clip(&text), how));
            ch.state(&(&text, k, how));
            // The string or name read, if any
            let go = |d: &mut TreeDe| -> Result<Result<(Option<String>, Option<usize>), String>, TreeError> {
                if key {
                    d.open_object()?;
                    if !d.next_entry()? {
                        return Ok(Err("no entry".into()));
                    }
                } else if how < 4 {
                    d.open_str()?;
                }
                for (i, c) in s.chars().take(k).enumerate() {
                    let got = d.next_char()?;
                    if got != Some(c) {
                        return Ok(Err(format!("character {} is {:?}", i, got)));
                    }
                }
                let res = match how {
                    0 => (Some(d.flush_str()?.into_owned()), None),
                    1 => {
                        d.skip_str()?;
                        (None, None)
                    }
                    2 => (None, Some(d.flush_name(NAMES)?)),
                    3 => {
                        let mut r = String::new();
                        while let Some(c) = d.next_char()? {
                            r.push(c);
                        }
                        (Some(r), None)
                    }
                    4 => (Some(d.read_str()?.into_owned()), None),
                    _ => (None, Some(d.get_name(NAMES)?)),
                };
                if key {
                    if d.get_u8()? != 7 {
                        return Ok(Err("value".into()));
                    }
                    d.close_object()?;
                }
                Ok(Ok(res))
            };
            let what = || format!("{} characters of {}, then {}", k, clip(&text), ["flush_str", "skip_str", "flush_name", "next_char", "read_str", "get_name"][how]);
            let (got, d) = no_panic(what, || {
                let mut d = TreeDe::new(doc.clone(), true, None);
                (go(&mut d), d)
            })?;
            ch.steps(d.calls);
            match how {
                1 => check!(got == Ok(Ok((None, None))), "{}: {:?}", what(), got),
                2 | 5 => match name {
                    Some(_) => check!(got == Ok(Ok((None, name))), "{}: {:?} instead of {:?}", what(), got, name),
                    None => {
                        check!(matches!(&got, Err(TreeError { what: What::Kind(Kind::Custom, _), .. })), "{}: {:?} instead of an error", what(), got);
                        return Ok(());
                    }
                },
                _ => check!(got == Ok(Ok((Some(rest.clone()), None))), "{}: {:?} instead of {:?}", what(), got, rest),
            }
            check!(d.done(), "{}: not everything has been consumed", what());
            let k = ch.choose(d.calls.min(20));
            let (got, d) = no_panic(what, || {
                let mut d = TreeDe::new(doc.clone(), true, Some(k));
                (go(&mut d), d)
            })?;
            let injected = matches!(&got, Err(TreeError { what: What::Injected(n), .. }) if *n == k);
            check!(injected && d.calls == k + 1, "{}: call {} of the format fails, but the result is {:?} after {} calls", what(), k, got, d.calls);
            Ok(())
        },
    ));
    f.push(family(
        "strings written",
        "14 strings as values and as keys, cut at two places (of long ones: 12), the parts appended as strings or by characters; whole; every call of the format failing",
        |ch| {
            let s = ch.pick(&strings()).clone();
            let key = ch.flip();
            let whole = !key && ch.flip();
            let cs: Vec<char> = s.chars().collect();
            let (a, b) = if whole { (0, 0) } else {
                let a = ch.choose(cs.len().min(12) + 1);
                let b = a + ch.choose((cs.len() - a).min(12) + 1);
                (a, b)
            };
            let hows: Vec<bool> = if whole { vec![] } else { (0..3).map(|_| ch.flip()).collect() };
            ch.note(|| format!("{:?} cut at {} and {}, by characters {:?}, key {}", clip(&s), a, b, hows, key));
            ch.state(&(&s, key, a, b, &hows));
            let go = |ser: &mut TreeSer| -> Result<(), TreeError> {
                if whole {
                    return ser.put_str(&s);
                }
                if key {
                    ser.open_object()?;
                    ser.add_entry()?;
                } else {
                    ser.open_str()?;
                }
                for (part, by_char) in [&cs[..a], &cs[a..b], &cs[b..]].iter().zip(&hows) {
                    if *by_char {
                        for c in *part {
                            ser.append_char(*c)?;
                        }
                    } else {
                        ser.append_str(&part.iter().collect::<String>())?;
                    }
                }
                ser.close_str()?;
                if key {
                    ser.put_u8(7)?;
                    ser.close_object()?;
                }
                Ok(())
            };
            let what = || format!("{} cut at {} and {}", quote(&s), a, b);
            let (got, ser) = no_panic(what, || {
                let mut ser = TreeSer::new(None);
                (go(&mut ser), ser)
            })?;
            ch.steps(ser.calls);
            let text = if key { format!("{{{}:7}}", quote(&s)) } else { quote(&s) };
            let (v, _) = doc(&text);
            check!(got == Ok(()) && ser.done() && ser.doc.matches(&v), "{}: {:?}, {}", what(), got, ser.doc.show(0));
            let k = ch.choose(ser.calls.min(20));
            let (got, ser) = no_panic(what, || {
                let mut ser = TreeSer::new(Some(k));
                (go(&mut ser), ser)
            })?;
            let injected = matches!(&got, Err(TreeError { what: What::Injected(n), .. }) if *n == k);
            check!(injected && ser.calls == k + 1, "{}: call {} of the format fails, but the result is {:?} after {} calls", what(), k, got, ser.calls);
            Ok(())
        },
    ));
    f.push(family(
        "tags",
        "tags read from 20 values with 9 highest indices, and all indices up to 20 and around the powers of two written with and without a name, compared with the text; what is written is read back",
        |ch| {
            const MAX: [usize; 9] = [0, 1, 5, 6, 255, 256, u32::MAX as usize, usize::MAX - 1, usize::MAX];
            let max = *ch.pick(&MAX);
            if ch.flip() {
                let text = *ch.pick(&[
                    "0", "1", "2", "5", "6", "7", "255", "256", "257", "4294967295", "4294967296", "18446744073709551614", "18446744073709551615",
                    "18446744073709551616", "-1", "1.5", "5e0", "\"on\"", "\"é\"", "\"nn\"",
                ]);
                let (v, doc) = doc(text);
                ch.note(|| format!("tag {} of at most {}", text, max));
                ch.state(&(text, max));
                let want: Option<usize> = match &v.node {
                    mc::model::Node::Str(s) => NAME_LIST.iter().find(|e| e.0 == s).map(|e| e.1),
                    mc::model::Node::Num(s) => mc::model::decimal(s).and_then(|d| d.integer(0, u64::MAX as u128)).map(|i| i.mag as usize).filter(|i| *i <= max),
                    _ => unreachable!(),
                };
                let (got, d) = no_panic(|| format!("tag {} of at most {}", text, max), || {
                    let mut d = TreeDe::new(doc.clone(), true, None);
                    (d.get_tag(max, NAMES), d)
                })?;
                ch.steps(d.calls);
                check!(got.as_ref().ok() == want.as_ref(), "tag {} of at most {} as a tree: {:?} instead of {:?}", text, max, got, want);
                let got = no_panic(|| format!("tag {} of at most {}", text, max), || {
                    let mut d = TextDeserializer::new(config(false), text)?;
                    d.get_tag(max, NAMES)
                })?;
                check!(got.as_ref().ok() == want.as_ref(), "tag {} of at most {} as text: {:?} instead of {:?}", text, max, got.map_err(|e| e.message().to_string()), want);
                return Ok(());
            }
            let i = ch.choose(21 + 64 * 3);
            let index = if i <= 20 { i } else { (1usize << ((i - 21) / 3)).wrapping_add((i - 21) % 3).wrapping_sub(1) };
            if index > max {
                return ch.skip();
            }
            let name = *ch.pick(&[None, Some("on"), Some("é\"\n"), Some("")]);
            ch.note(|| format!("tag {} {:?} of at most {}", index, name, max));
            ch.state(&(index, name, max));
            let mut s = TreeSer::new(None);
            let res = no_panic(|| format!("tag {} {:?}", index, name), || s.put_tag(max, index, name))?;
            ch.steps(s.calls);
            let mut text = String::new();
            no_panic(|| format!("tag {} {:?} as text", index, name), || {
                let mut s = TextSerializer::new(TextSerializerConfig::default(), &mut text);
                s.put_tag(max, index, name).unwrap();
                s.close();
            })?;
            let want = match name {
                Some(n) => quote(n),
                None => index.to_string(),
            };
            let (v, _) = doc(&want);
            check!(res == Ok(()) && s.done() && s.doc.matches(&v), "tag {} {:?} as a tree: {:?}, {}", index, name, res, s.doc.show(0));
            let (t, _) = doc(&text);
            check!(s.doc.matches(&t), "tag {} {:?} as text: {}", index, name, text);
            if name.is_none() {
                let mut d = TreeDe::new(Rc::new(s.doc), true, None);
                let got = no_panic(|| format!("tag {} of at most {} read back", index, max), || d.get_tag(max, NAMES))?;
                check!(got == Ok(index), "tag {} of at most {} read back: {:?}", index, max, got);
            }
            Ok(())
        },
    ));
    f.push(family(
        "deep and wide",
        "arrays and objects nested 1..=64, 1000 and 100000 deep, or with as many items, skipped as values, as an unknown field, or as a field that is too many",
        |ch| {
            let i = ch.choose(66);
            let n = [1000, 100_000].get(i.wrapping_sub(64)).copied().unwrap_or(i + 1);
            let kind = ch.choose(4);
            let mut nodes = Vec::new();
            // The root is an object or array around it
            let object = ch.flip();
            nodes.push((0, TNode::Null));
            let base = 1;
            match kind {
                0 | 1 => {
                    for i in 0..n {
                        let next = base + i + 1;
                        nodes.push((0, if (i + kind) % 2 == 0 { TNode::Arr(vec![next]) } else { TNode::Obj(vec![("k".into(), next)]) }));
                    }
                    nodes.push((0, TNode::Null));
                }
                2 => {
                    nodes.push((0, TNode::Arr((0..n).map(|i| base + 1 + i).collect())));
                    nodes.extend((0..n).map(|_| (0, TNode::Bool(true))));
                }
                _ => {
                    nodes.push((0, TNode::Obj((0..n).map(|i| (format!("k{}", i).into(), base + 1 + i)).collect())));
                    nodes.extend((0..n).map(|_| (0, TNode::Str("s".into()))));
                }
            }
            nodes[0].1 = if object { TNode::Obj(vec![("x".into(), 1)]) } else { TNode::Arr(vec![1]) };
            let doc = Rc::new(Doc { nodes });
            ch.note(|| format!("{} nodes of kind {}, object {}", n, kind, object));
            ch.state(&(n, kind, object));
            let what = || format!("{} nodes of kind {}", n, kind);
            let (res, d) = no_panic(what, || {
                let mut d = TreeDe::new(doc.clone(), true, None);
                (d.skip_value(), d)
            })?;
            ch.steps(d.calls);
            check!(res == Ok(()) && d.done(), "{}: skipping gives {:?}", what(), res);
            let (res, d) = no_panic(what, || {
                let mut d = TreeDe::new(doc.clone(), true, None);
                (serdere::Value::with(&mut d, |v| decode::<_, NoLeaf>(&Ty::Struct(vec![]), v)), d)
            })?;
            ch.steps(d.calls);
            if object {
                check!(res == Ok(G::Seq(vec![])) && d.done(), "{}: read as an empty struct: {:?}", what(), res);
            } else {
                check!(matches!(&res, Err(TreeError { what: What::Kind(Kind::ExcessItems, _), .. })), "{}: read as an empty struct: {:?}", what(), res);
            }
            Ok(())
        },
    ));
    f
}

fn main() {
    mc::main(Check {
        id: "C20",
        families,
        assumptions: &[
            "A conforming format rounds numbers that are read as a float, whatever their size (numbers are skipped as floats).",
            "When a document has several faults, which of them is reported is not prescribed.",
            "Stack items are popped when they are read to the end or closed, and errors about a value leave it in place.",
        ],
    })
}
