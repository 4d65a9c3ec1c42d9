//! C12: struct and tuple decoding rules: any order, unknown ignored, exact arity.

use mc::gen::*;
use mc::model::*;
use mc::schema::*;
use mc::*;
use serdere_json::*;

#[path = "../../shared/described.rs"]
mod described;
use described::*;

/// Decodes a document as a type and compares with what it means as that type.
fn judge<L>(ch: &mut Ch, what: &str, ty: &Ty, text: &str) -> Outcome
where
    L: for<'a> Leaf<TextDeserializer<&'a str>>,
{
    let cs = chars(text);
    let v = match parse(&cs, false) {
        Ok(v) => v,
        Err(e) => std::panic::resume_unwind(Box::new(EnginePanic(format!("generated text is not JSON at {}: {}", e.at, text)))),
    };
    let want = expect(ty, &v);
    ch.note(|| format!("document {}, type {} {:?}", clip(text), what, ty));
    ch.state(&(what, text));
    let got = no_panic(|| format!("{} read as {} {:?}", clip(text), what, ty), || decode_doc::<L, &str>(ty, false, text))?;
    ch.step();
    ch.outcome(&format!("{:?}", want));
    match (got, want) {
        (Ok(g), Ok(w)) => {
            check!(g == w, "{} read as {} {:?}: got {:?}, expected {:?}", clip(text), what, ty, g, w)
        }
        (Ok(g), Err(w)) => return fail(format!("{} read as {} {:?}: accepted as {:?}, expected one of the errors {:?}", clip(text), what, ty, g, w)),
        (Err(e), Ok(w)) => return fail(format!("{} read as {} {:?}: error {:?}, expected {:?}", clip(text), what, ty, e.message(), w)),
        (Err(e), Err(w)) => {
            let k = kind_of(e.message());
            let known = w.iter().any(|f| Some(&f.kind) == k.as_ref());
            check!(known, "{} read as {} {:?}: error {:?}, expected one of {:?}", clip(text), what, ty, e.message(), w)
        }
    }
    Ok(())
}

macro_rules! statics {
    ($($t:ty),* $(,)?) => {
        const STATICS: &[(&str, fn() -> Ty, fn(&mut Ch, &Ty, &str) -> Outcome)] =
            &[$((stringify!($t), <$t as Described>::ty, |ch, ty, text| judge::<Of<$t>>(ch, stringify!($t), ty, text))),*];
    };
}

statics! {
    Point, Empty, Names, Outer, Nest, Shape, (), (u8, bool), (u8, Option<i8>, String), [u8; 0], [u8; 1], [u8; 3], [Option<bool>; 2],
    Option<Option<u8>>, Option<Option<Option<char>>>, Option<()>, Option<Point>, Vec<Point>, [Point; 2], (Point, Shape), Vec<(u8, bool)>, Option<(u8, u8)>, [[u8; 2]; 2],
    Vec<Option<Option<bool>>>, Option<[bool; 1]>, [(); 2], ((), Empty), Vec<Shape>,
}

macro_rules! inlined {
    ($($t:ty),* $(,)?) => {
        #[allow(clippy::type_complexity)]
        const INLINED: &[(&str, fn() -> Ty, [fn(&mut Ch, &Ty, &str) -> Outcome; 6])] = &[$((stringify!($t), <$t as Described>::ty, [
            |ch, ty, text| judge::<InlinedOf<$t, 0>>(ch, stringify!($t), ty, text),
            |ch, ty, text| judge::<InlinedOf<$t, 1>>(ch, stringify!($t), ty, text),
            |ch, ty, text| judge::<InlinedOf<$t, 2>>(ch, stringify!($t), ty, text),
            |ch, ty, text| judge::<InlinedOf<$t, 3>>(ch, stringify!($t), ty, text),
            |ch, ty, text| judge::<InlinedOf<$t, 4>>(ch, stringify!($t), ty, text),
            |ch, ty, text| judge::<InlinedOf<$t, 5>>(ch, stringify!($t), ty, text),
        ])),*];
    };
}

macro_rules! arrays {
    ($($n:literal)*) => {
        [$((
            $n,
            || [<[u8; $n]>::ty(), <[Option<bool>; $n]>::ty(), <[(u8, String); $n]>::ty()],
            [
                |ch, ty, text| judge::<Of<[u8; $n]>>(ch, "[u8; _]", ty, text),
                |ch, ty, text| judge::<Of<[Option<bool>; $n]>>(ch, "[Option<bool>; _]", ty, text),
                |ch, ty, text| judge::<Of<[(u8, String); $n]>>(ch, "[(u8, String); _]", ty, text),
            ],
        )),*]
    };
}
use arrays;

inlined! { Point, Empty, Names, Outer, Nest, Shape, () }

fn families(t: Tier) -> Vec<Family> {
    let mut v = Vec::new();
    v.push(family(
        "arrangements",
        "15 struct types of up to 4 fields x every arrangement of every subset of the fields x values out of 15 of all types (the 4-field type: 5) x 8 placements (directly, buffered, positional, ...)",
        |ch| {
            let structs = structs();
            let fields = ch.pick(&structs);
            let order = arrangement(ch, fields.len());
            let vals: &[&str] = if fields.len() > 3 { &VALUES[..5] } else { &VALUES };
            let entries: Vec<(String, String)> =
                order.iter().map(|i| (quote(fields[*i].name), ch.pick(vals).to_string())).collect();
            let text = object(&entries, 0);
            for p in PLACES {
                let (ty, text) = place(p, Ty::Struct(fields.clone()), &text);
                judge::<NoLeaf>(ch, "", &ty, &text)?;
            }
            Ok(())
        },
    ));
    let items = t.pick(3, 4);
    v.push(family(
        "positional",
        format!("15 struct types of up to 4 fields and the tuples of the same types x arrays of 0..={} items out of 15 (more, up to 2 too many: of fitting items) x 8 placements", items),
        move |ch| {
            let structs = structs();
            let fields = ch.pick(&structs);
            let tuple = ch.flip();
            let mut vals: Vec<String> = Vec::new();
            let fit = ch.flip();
            let n = ch.choose(if fit { fields.len() + 3 } else { items + 1 });
            for i in 0..n {
                vals.push(match fields.get(i) {
                    Some(f) if fit => good(&f.ty).to_string(),
                    None if fit => ch.pick(&UNKNOWN).to_string(),
                    // After the last field, any value will do
                    _ if i > fields.len() => "[{}]".into(),
                    _ => ch.pick(&VALUES).to_string(),
                });
            }
            let text = format!("[{}]", vals.join(","));
            let ty = if tuple { Ty::Tuple(fields.iter().map(|f| f.ty.clone()).collect()) } else { Ty::Struct(fields.clone()) };
            for p in PLACES {
                let (ty, text) = place(p, ty.clone(), &text);
                judge::<NoLeaf>(ch, "", &ty, &text)?;
            }
            Ok(())
        },
    ));
    v.push(family(
        "unknown entries",
        "15 struct types x every arrangement of every subset of the fields with fitting values x up to 2 unknown entries at every place, with keys related to the field names and 9 kinds of content x 2 spacings x 8 placements",
        |ch| {
            let structs = structs();
            let fields = ch.pick(&structs);
            let order = arrangement(ch, fields.len());
            let mut entries: Vec<(String, String)> =
                order.iter().map(|i| (quote(fields[*i].name), good(&fields[*i].ty).to_string())).collect();
            let mut used: Vec<String> = fields.iter().map(|f| f.name.to_string()).collect();
            let mut names: Vec<String> = ["zz", "A", "b0", "\u{0}"].iter().map(|s| s.to_string()).collect();
            if let Some(f) = fields.first() {
                names.push(format!("{} ", f.name));
                names.push(f.name.chars().skip(1).collect());
            }
            for _ in 0..ch.choose(3) {
                let name = if fields.len() > 3 { names[0].clone() } else { ch.pick(&names).clone() };
                if used.contains(&name) {
                    return ch.skip();
                }
                let at = ch.choose(entries.len() + 1);
                let content = if fields.len() > 2 { *ch.pick(&UNKNOWN[4..7]) } else { *ch.pick(&UNKNOWN) };
                entries.insert(at, (quote(&name), content.to_string()));
                used.push(name);
            }
            let text = object(&entries, ch.choose(2));
            for p in PLACES {
                let (ty, text) = place(p, Ty::Struct(fields.clone()), &text);
                judge::<NoLeaf>(ch, "", &ty, &text)?;
            }
            Ok(())
        },
    ));
    let depth = t.pick(2, 3);
    v.push(family(
        "content of unknown entries",
        format!("every tree of depth at most {} with up to 2 children and 6 leaves as an unknown entry before, between or after the fields, in a struct read directly or buffered", depth),
        move |ch| {
            fn tree(ch: &mut Ch, depth: usize) -> String {
                let leaves = ["1", "\"}\"", "null", "[]", "{}", "\"\\\"{\""];
                let n = if depth == 0 { leaves.len() } else { leaves.len() + 2 };
                match ch.choose(n) {
                    i if i < leaves.len() => leaves[i].into(),
                    i => {
                        let k = ch.range(1, 2);
                        let items: Vec<String> = (0..k).map(|_| tree(ch, depth - 1)).collect();
                        if i == leaves.len() {
                            format!("[{}]", items.join(","))
                        } else {
                            let e: Vec<(String, String)> = items.into_iter().enumerate().map(|(i, t)| (["\"b\"", "\"a\""][i].to_string(), t)).collect();
                            object(&e, 0)
                        }
                    }
                }
            }
            let t = tree(ch, depth);
            let ty = Ty::Struct(vec![field("a", U8), field("b", Ty::Opt(Box::new(Ty::Str)))]);
            for text in [
                format!("{{\"u\":{},\"b\":\"s\",\"a\":1}}", t),
                format!("{{\"b\":\"s\",\"u\":{},\"a\":1}}", t),
                format!("{{\"a\":1,\"u\":{}}}", t),
                format!("{{\"u\":{},\"a\":1,\"v\":{}}}", t, t),
            ] {
                for p in [Place::Top, Place::Item, Place::Deep] {
                    let (ty, text) = place(p, ty.clone(), &text);
                    judge::<NoLeaf>(ch, "", &ty, &text)?;
                }
            }
            Ok(())
        },
    ));
    v.push(family(
        "spelled keys",
        "4 struct types with sharp field names x every arrangement of all fields and one unknown entry x 3 spellings of each key (plain, fully escaped, mixed) x 2 spacings x 8 placements",
        |ch| {
            let b = |t: Ty| Box::new(t);
            let types = [
                vec![field("", U8), field("\"\\", Ty::Str), field("é\n", Ty::Opt(b(Ty::Bool)))],
                vec![field("a", U8), field("aa", U8), field("ab", Ty::Opt(b(U8)))],
                vec![field("ключ", U8), field("k/\u{7f}", Ty::Char)],
                vec![field("has_value", Ty::Bool), field("😀", Ty::List(b(U8)))],
            ];
            let fields = ch.pick(&types);
            let n = fields.len();
            // A permutation of the fields and the unknown entry
            let mut left: Vec<usize> = (0..=n).collect();
            let mut entries = Vec::new();
            while !left.is_empty() {
                let i = left.remove(ch.choose(left.len()));
                let how = ch.choose(3);
                entries.push(if i == n {
                    let mut name: String = fields[0].name.chars().rev().collect();
                    name.push('é');
                    let key = if name.chars().any(|c| c as u32 > 0xFFFF) { quote(&name) } else { spell(&name, how) };
                    (key, "{\"a\":[]}".to_string())
                } else {
                    let f = &fields[i];
                    let how = if how == 2 && f.name.chars().any(|c| c as u32 > 0xFFFF) { 1 } else { how };
                    (spell(f.name, how), good(&f.ty).to_string())
                });
            }
            let text = object(&entries, ch.choose(2));
            for p in PLACES {
                let (ty, text) = place(p, Ty::Struct(fields.clone()), &text);
                judge::<NoLeaf>(ch, "", &ty, &text)?;
            }
            Ok(())
        },
    ));
    v.push(family(
        "sizes",
        "structs of 2..=200 fields in 5 orders with every other one or none left out, and unknown entries (values and keys) of up to 100000 characters or 2000 levels at 3 places, x 8 placements",
        |ch| {
            static NAMES: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
            let names = NAMES.get_or_init(|| {
                (0..200).map(|i| &*Box::leak(format!("field{}{}", i, "x".repeat(i % 40)).into_boxed_str())).collect()
            });
            let n = *ch.pick(&[2, 3, 31, 32, 33, 64, 65, 200]);
            let fields: Vec<Field> = names[..n]
                .iter()
                .enumerate()
                .map(|(i, name)| match i % 3 {
                    0 => field(name, Ty::Int { bits: 32, signed: false }),
                    1 => field(name, Ty::Opt(Box::new(Ty::Str))),
                    _ => defaulted(name, Ty::List(Box::new(U8)), G::Seq(Vec::new())),
                })
                .collect();
            let mut order: Vec<usize> = match ch.choose(5) {
                0 => (0..n).collect(),
                1 => (0..n).rev().collect(),
                2 => (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
                3 => (n / 2..n).chain(0..n / 2).collect(),
                _ => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
            };
            match ch.choose(3) {
                0 => (),
                1 => order.retain(|i| i % 3 != 1),
                _ => order.retain(|i| i % 3 != 0 || *i != 0),
            }
            let mut entries: Vec<(String, String)> = order
                .iter()
                .map(|i| (quote(names[*i]), match i % 3 {
                    0 => format!("{}", i * 1000),
                    1 => format!("\"v{}\"", i),
                    _ => format!("[{}]", i),
                }))
                .collect();
            let big = match ch.choose(10) {
                0 => None,
                1 => Some(("u".to_string(), format!("{}{}", "[".repeat(2000), "]".repeat(2000)))),
                2 => Some(("u".to_string(), format!("{}1{}", "{\"u\":".repeat(1000), "}".repeat(1000)))),
                3 => Some(("u".to_string(), format!("\"{}\"", "x\\\"".repeat(40_000)))),
                4 => Some(("u".to_string(), format!("[{}1]", "1,".repeat(40_000)))),
                5 => Some(("k".repeat(100_000), "1".to_string())),
                6 => Some((format!("field0{}", "\u{e9}".repeat(300)), "{}".to_string())),
                7 => Some(("u".to_string(), format!("{{\"{0}\":[{{\"{0}\":1}}],\"b\":{{\"c\":0,\"{0}\":2}}}}", "k".repeat(70_000)))),
                8 => Some(("u".to_string(), format!("[{{\"a\":0.{1}5,\"{0}\":\"{0}\"}}]", "\u{e9}".repeat(70_000), "0".repeat(70_000)))),
                _ => Some(("u".to_string(), "1".repeat(70_000))),
            };
            if let Some((k, text)) = big {
                let at = [0, entries.len() / 2, entries.len()][ch.choose(3)];
                entries.insert(at, (quote(&k), text));
            }
            let text = object(&entries, 0);
            let places = if n > 3 { &PLACES[..3] } else { &PLACES[..] };
            for p in places {
                let (ty, text) = place(*p, Ty::Struct(fields.clone()), &text);
                judge_big(ch, &ty, &text)?;
            }
            Ok(())
        },
    ));
    let ns = depths(t);
    v.push(family(
        "deep unknown entries",
        format!("structs of 2 fields in both orders, complete or with one left out or wrong, with an unknown entry nested 1..={} levels ({} depths, 6 shapes) at every place, or as an item too many, x 3 placements", ns.last().unwrap(), ns.len()),
        move |ch| {
            let n = *ch.pick(&ns);
            let (open, close) = deep(ch.choose(DEEP), n);
            let fields = vec![field("p", U8), field("s", Ty::Str)];
            let unknown = format!("{}0{}", open, close);
            let text = match ch.choose(5) {
                4 => format!("[1,\"v\",{}]", unknown),
                case => {
                    let mut entries = vec![("\"p\"".to_string(), if case == 3 { "[1]".into() } else { "1".to_string() }), ("\"s\"".to_string(), "\"v\"".to_string())];
                    if case == 1 || case == 2 {
                        entries.remove(case - 1);
                    } else if ch.flip() {
                        entries.reverse();
                    }
                    entries.insert(ch.range(0, entries.len()), ("\"a\"".into(), unknown));
                    object(&entries, 0)
                }
            };
            let places = if n > 1000 { &PLACES[..2] } else { &PLACES[..3] };
            let (ty, text) = place(*ch.pick(places), Ty::Struct(fields), &text);
            on_big_stack(n, || judge_big(ch, &ty, &text))
        },
    ));
    let ls: Vec<usize> = t.pick(vec![1, 3, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1000, 65536], (1..=300).chain([511, 512, 1000, 1023, 1024, 4096, 65535, 65536, 70000]).collect());
    v.push(family(
        "long names",
        format!("structs whose 3 fields share their first 1..={} bytes ({} lengths), differ in their first character only, or are prefixes of each other, in every order, one of them left out or not, with an unknown key of the same form or none at every place, x 3 placements", ls.last().unwrap(), ls.len()),
        move |ch| {
            static NAMES: std::sync::Mutex<std::collections::BTreeMap<(usize, usize), [&'static str; 4]>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
            let l = *ch.pick(&ls);
            let kind = ch.choose(4);
            let names = *NAMES.lock().unwrap().entry((l, kind)).or_insert_with(|| {
                [0, 1, 2, 3].map(|i| {
                    let c = ["a", "b", "é", "c"][i];
                    &*Box::leak(match kind {
                        0 => format!("{}{}", "x".repeat(l), c),
                        1 => format!("{}{}", c, "x".repeat(l)),
                        2 => format!("{}{}", "x".repeat(l), "x".repeat(i)),
                        _ => format!("{}{}y", "x".repeat(l), c),
                    }.into_boxed_str())
                })
            });
            // Any of the four may be the unknown one
            let u = ch.choose(4);
            let fields: Vec<Field> = (0..4).filter(|i| *i != u).enumerate().map(|(k, i)| field(names[i], [U8, Ty::Str, Ty::Opt(Box::new(Ty::Bool))][k].clone())).collect();
            let mut order = arrangement(ch, 3);
            if order.len() < 2 || (order.len() < 3 && l > 300) {
                return ch.skip();
            }
            let mut entries: Vec<(String, String)> = order.drain(..).map(|i| (quote(fields[i].name), good(&fields[i].ty).to_string())).collect();
            let at = ch.range(0, entries.len() + 1);
            if at <= entries.len() {
                entries.insert(at, (quote(names[u]), "[{}]".to_string()));
            }
            let (ty, text) = place(*ch.pick(&PLACES[..3]), Ty::Struct(fields), &object(&entries, 0));
            judge_big(ch, &ty, &text)
        },
    ));
    v.push(family(
        "derived and standard types, objects",
        "28 types (derived structs with renames, defaults, flattening, nesting and enums, options, arrays, tuples, lists) x objects of every arrangement of subsets of up to 3 (thorough: all) of the field names with fitting and wrong values, x up to one unknown entry at every place x 8 placements",
        move |ch| {
            let (what, ty, run) = *ch.pick(STATICS);
            let _ = what;
            let ty = ty();
            let names = names(&ty);
            if names.is_empty() {
                return ch.skip();
            }
            let mut left: Vec<usize> = (0..names.len()).collect();
            let mut entries = Vec::new();
            let max = t.pick(3, 5);
            while !left.is_empty() && entries.len() < max {
                let i = ch.choose(left.len() + 1);
                if i == left.len() {
                    break;
                }
                let (name, ty) = &names[left.remove(i)];
                let texts = texts(ty, 2);
                // With many entries, mostly fitting values
                let n = if entries.len() >= 2 { texts.len().min(2) } else { texts.len() };
                entries.push((quote(name), texts[ch.choose(n)].clone()));
            }
            // The rest with fitting values
            if ch.flip() {
                if left.is_empty() {
                    return ch.skip();
                }
                for i in left {
                    let (name, ty) = &names[i];
                    entries.push((quote(name), texts(ty, 2)[0].clone()));
                }
            }
            let at = ch.choose(entries.len() + 2);
            if at > 0 {
                entries.insert(at - 1, ("\"y0\"".into(), UNKNOWN[(at + entries.len()) % UNKNOWN.len()].into()));
            }
            let text = object(&entries, 0);
            for p in PLACES {
                let (ty, text) = place(p, Ty::Hole(Box::new(ty.clone())), &text);
                run(ch, &ty, &text)?;
            }
            Ok(())
        },
    ));
    let sl = t.pick(3, 4);
    v.push(family(
        "derived and standard types, arrays",
        format!("28 types x arrays of 0..={} values out of the fitting and wrong values of each position, and up to 2 more fitting or surplus ones x 8 placements", sl),
        move |ch| {
            let (_, ty, run) = *ch.pick(STATICS);
            let ty = ty();
            let tys: Vec<Ty> = match &ty {
                Ty::Tuple(t) => t.clone(),
                Ty::List(t) => vec![(**t).clone(); 3],
                Ty::Opt(t) => match &**t {
                    Ty::Tuple(t) => t.clone(),
                    t => names(t).into_iter().map(|n| n.1).collect(),
                },
                t => names(t).into_iter().map(|n| n.1).collect(),
            };
            let n = ch.choose(tys.len().min(5) + 3);
            let mut items = Vec::new();
            for i in 0..n {
                let texts = tys.get(i).map(|t| texts(t, 2)).unwrap_or_else(|| vec!["{\"x\":[]}".into()]);
                let k = if i < sl { texts.len() } else { 1 };
                items.push(texts[ch.choose(k)].clone());
            }
            let text = format!("[{}]", items.join(","));
            for p in PLACES {
                let (ty, text) = place(p, Ty::Hole(Box::new(ty.clone())), &text);
                run(ch, &ty, &text)?;
            }
            Ok(())
        },
    ));
    v.push(family(
        "derived and standard types, other values",
        "28 types x 15 values of all kinds x 8 placements",
        |ch| {
            let (_, ty, run) = *ch.pick(STATICS);
            let ty = ty();
            let text = *ch.pick(&VALUES);
            for p in PLACES {
                let (ty, text) = place(p, Ty::Hole(Box::new(ty.clone())), text);
                run(ch, &ty, &text)?;
            }
            Ok(())
        },
    ));
    v.push(family(
        "arrays",
        "arrays of 27 sizes up to 1000 of integers, optional booleans and pairs x up to 2 items more or less x 8 placements",
        |ch| {
            const ARRAYS: &[(usize, fn() -> [Ty; 3], [fn(&mut Ch, &Ty, &str) -> Outcome; 3])] =
                &arrays!(0 1 2 3 4 5 6 7 8 9 10 15 16 17 31 32 33 63 64 65 127 128 129 255 256 257 1000);
            let (n, tys, runs) = *ch.pick(ARRAYS);
            let kind = ch.choose(3);
            let len = n + ch.choose(5);
            if len < 2 {
                return ch.skip();
            }
            let items: Vec<String> = (0..len - 2)
                .map(|i| match kind {
                    0 => (i % 251).to_string(),
                    1 => ["null", "true", "false"][i % 3].to_string(),
                    _ => format!("[{},\"{}\"]", i % 256, i),
                })
                .collect();
            for p in PLACES {
                let (ty, text) = place(p, Ty::Hole(Box::new(tys()[kind].clone())), &format!("[{}]", items.join(",")));
                runs[kind](ch, &ty, &text).map_err(|mut f| {
                    f.msg = clip(&f.msg);
                    f
                })?;
            }
            Ok(())
        },
    ));
    v.push(family(
        "structs inlined in objects",
        "7 struct types read by `inline` from an object of every arrangement of subsets of up to 2 (thorough: 4) of the field names with fitting and wrong values (or up to all of them with fitting ones) and up to 2 other entries at every place, with entries looked up or iterated before and after, read twice, or closed, x 8 placements",
        move |ch| {
            let (_, ty, runs) = *ch.pick(INLINED);
            let ty = ty();
            let names = names(&ty);
            let mut left: Vec<usize> = (0..names.len()).collect();
            let mut entries = Vec::new();
            let max = t.pick(2, 4);
            while !left.is_empty() && entries.len() < max {
                let i = ch.choose(left.len() + 1);
                if i == left.len() {
                    break;
                }
                let (name, ty) = &names[left.remove(i)];
                let texts = texts(ty, 2);
                let n = if entries.is_empty() { texts.len() } else { texts.len().min(2) };
                entries.push((quote(name), texts[ch.choose(n)].clone()));
            }
            if ch.flip() {
                if left.is_empty() {
                    return ch.skip();
                }
                for i in left {
                    let (name, ty) = &names[i];
                    entries.push((quote(name), texts(ty, 2)[0].clone()));
                }
            }
            for y in ["\"y0\"", "\"y1\""] {
                let at = ch.choose(entries.len() + 2);
                if at > 0 {
                    entries.insert(at - 1, (y.into(), UNKNOWN[(at + entries.len()) % UNKNOWN.len()].into()));
                }
            }
            let text = object(&entries, 0);
            let how = ch.choose(runs.len());
            for p in PLACES {
                let ty = Ty::Inlined(INLINES[how], Box::new(ty.clone()));
                let (ty, text) = place(p, Ty::Hole(Box::new(ty)), &text);
                runs[how](ch, &ty, &text)?;
            }
            Ok(())
        },
    ));
    v
}

/// As [`judge`], with less detail.
fn judge_big(ch: &mut Ch, ty: &Ty, text: &str) -> Outcome {
    judge::<NoLeaf>(ch, "", ty, text).map_err(|mut f| {
        f.msg = clip(&f.msg);
        f
    })
}

fn main() {
    mc::main(Check {
        id: "C12",
        families,
        assumptions: &[
            "When a document has several faults, which of them is reported is not prescribed: the error must be about one of them.",
            "Keys within an object are distinct.",
        ],
    })
}
