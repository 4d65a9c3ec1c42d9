//! Generators of types and of documents for them.

use crate::engine::Ch;
use crate::model::*;
use crate::schema::*;

/// A way of placing a value in a larger document.
#[derive(Clone, Copy, Debug)]
pub enum Place {
    Top,
    /// The second of three items.
    Item,
    /// An entry of an object whose other entries, before and after it, are read after it.
    EntryFirst,
    /// An entry of an object whose other entries, before and after it, are read before it.
    EntryLast,
    /// In a buffered object in a buffered object.
    Deep,
    /// Several, as the items of a list in an entry that has been skipped over.
    Twice,
    /// In a struct that is read positionally.
    Positional,
    /// In a struct that ends an array, when all of it has been read through.
    Through,
}

pub const PLACES: [Place; 8] =
    [Place::Top, Place::Item, Place::EntryFirst, Place::EntryLast, Place::Deep, Place::Twice, Place::Positional, Place::Through];

pub fn place(p: Place, ty: Ty, text: &str) -> (Ty, String) {
    match p {
        Place::Top => (ty, text.to_string()),
        Place::Item => (Ty::Tuple(vec![Ty::Str, ty, U8]), format!("[\"<\",{},77]", text)),
        Place::EntryFirst => (
            Ty::Object(vec![("v", ty), ("<", Ty::Str), (">", U8)]),
            format!("{{\"<\":\"l\",\"v\":{},\">\":77}}", text),
        ),
        Place::EntryLast => (
            Ty::Object(vec![(">", U8), ("v", ty), ("<", Ty::Str)]),
            format!("{{\"<\":\"l\",\"v\":{},\">\":77}}", text),
        ),
        Place::Deep => (
            Ty::Tuple(vec![
                Ty::Object(vec![
                    ("z", Ty::Tag),
                    ("o", Ty::Object(vec![("y", Ty::Bool), ("v", ty), ("x", Ty::Str)])),
                    ("a", Ty::F64),
                ]),
                U8,
            ]),
            format!("[{{\"a\":1.5,\"o\":{{\"x\":\"q\",\"v\":{},\"y\":true}},\"z\":\"on\"}},77]", text),
        ),
        Place::Twice => (
            Ty::Struct(vec![field("s", Ty::Str), field("l", Ty::List(Box::new(ty))), field("n", U8)]),
            format!("{{\"l\":[{},{}],\"s\":\"t\",\"n\":7}}", text, text),
        ),
        Place::Positional => (
            Ty::Struct(vec![field("s", Ty::Str), field("v", ty), field("n", U8)]),
            format!("[\"s\",{},77]", text),
        ),
        Place::Through => (
            Ty::Tuple(vec![U8, Ty::Struct(vec![field("q", Ty::Opt(Box::new(U8))), field("v", ty)])]),
            format!("[77,{{\"v\":{},\"u\":[]}}]", text),
        ),
    }
}

pub fn str_g(s: &str) -> G {
    G::Str(s.to_string())
}

/// Struct types of at most four fields.
pub fn structs() -> Vec<Vec<Field>> {
    let b = |t: Ty| Box::new(t);
    vec![
        vec![],
        vec![field("a", U8)],
        vec![field("a", Ty::Opt(b(U8)))],
        vec![defaulted("a", Ty::Tag, G::Tag(3))],
        vec![field("a", U8), field("b", Ty::Str)],
        vec![field("a", Ty::Opt(b(Ty::Str))), field("b", Ty::Bool)],
        vec![defaulted("a", Ty::List(b(U8)), G::Seq(vec![G::Int(9)])), field("b", Ty::Opt2(b(Ty::Opt(b(Ty::Bool)))))],
        vec![field("a", Ty::Null), field("ab", Ty::Any)],
        vec![field("b", Ty::Struct(vec![field("a", Ty::Opt(b(U8)))])), field("a", Ty::Tuple(vec![U8, U8]))],
        vec![field("a", Ty::Char), field("b", Ty::Opt(b(Ty::Struct(vec![field("a", U8)])))), field("c", Ty::Tag)],
        vec![field("a", U8), defaulted("b", Ty::Opt(b(U8)), G::Some(b2(G::Int(4)))), field("c", Ty::Opt(b(Ty::List(b(U8)))))],
        vec![field("", U8), field("\"\\", Ty::Str), field("é\n", Ty::Opt(b(Ty::Bool)))],
        vec![field("a", I64), field("aa", I64), field("aaa", Ty::Opt(b(I64)))],
        vec![defaulted("a", Ty::NonZero, G::Int(1)), defaulted("b", Ty::Struct(vec![]), G::Unit), defaulted("c", Ty::Str, str_g("d"))],
        vec![field("d", U8), field("c", Ty::Opt(b(U8))), field("b", Ty::Map(vec!["a"], b(U8))), defaulted("a", U8, G::Int(0))],
    ]
}

pub fn b2(g: G) -> Box<G> {
    Box::new(g)
}

pub const VALUES: [&str; 15] = [
    "1", "null", "\"x\"", "true", "[]", "{}", "300", "[1,2]", "{\"a\":1}", "\"on\"", "0", "[null]", "{\"has_value\":true,\"value\":null}", "[true,false]", "-1.5",
];

pub const UNKNOWN: [&str; 9] = [
    "0",
    "null",
    "\"}],{[:\\\"\\\\\"",
    "[]",
    "{}",
    "{\"a\":1,\"b\":[],\"q\":null}",
    "[[{\"a\":[{}]}],\"]\",-1.0e5]",
    "[ 1 , { \"a\" : \"\\u0022}\" } , false ]",
    "{\"\":{\"\":{\"\":[[[]],\"\"]}}}",
];

/// Spells a key in a number of ways.
pub fn spell(key: &str, how: usize) -> String {
    match how {
        0 => quote(key),
        1 => {
            let mut s = String::from("\"");
            for u in key.encode_utf16() {
                s += &format!("\\u{:04X}", u);
            }
            s + "\""
        }
        _ => {
            let mut s = String::from("\"");
            for (i, c) in key.chars().enumerate() {
                if i % 2 == 1 || c == '"' || c == '\\' || (c as u32) < 32 {
                    s += &format!("\\u{:04x}", c as u32);
                } else {
                    s.push(c);
                }
            }
            s + "\""
        }
    }
}

pub fn object(entries: &[(String, String)], sep: usize) -> String {
    let (o, k, c, e) = [("{", ":", ",", "}"), ("{ ", " : ", " ,\n", "\t}")][sep];
    let body: Vec<String> = entries.iter().map(|(a, b)| format!("{}{}{}", a, k, b)).collect();
    format!("{}{}{}", o, body.join(c), e)
}

/// Chooses an arrangement of a subset of `n` things.
pub fn arrangement(ch: &mut Ch, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut res = Vec::new();
    while !left.is_empty() {
        let i = ch.choose(left.len() + 1);
        if i == left.len() {
            break;
        }
        res.push(left.remove(i));
    }
    res
}

/// The texts that fit a type best.
pub fn good(ty: &Ty) -> &'static str {
    match ty {
        Ty::Bool => "true",
        Ty::Int { .. } | Ty::NonZero | Ty::F64 => "42",
        Ty::Char => "\"c\"",
        Ty::Str => "\"str\"",
        Ty::Tag => "\"on\"",
        Ty::Null => "null",
        Ty::Opt(t) => good(t),
        Ty::Opt2(_) => "{\"value\":null,\"has_value\":true}",
        Ty::Struct(f) if f.is_empty() => "{}",
        Ty::Struct(_) => "{\"a\":2}",
        Ty::Tuple(_) => "[3,4]",
        Ty::List(_) => "[5,6,7]",
        Ty::Map(..) => "{\"p\":8,\"a\":9}",
        _ => "[{}]",
    }
}

/// Field names of a described type as it is read from an object.
pub fn names(ty: &Ty) -> Vec<(&'static str, Ty)> {
    match ty {
        Ty::Struct(f) => f.iter().map(|f| (f.name, f.ty.clone())).collect(),
        Ty::Opt2(t) => vec![("has_value", Ty::Bool), ("value", (**t).clone())],
        Ty::Enum { tag, variants } => {
            let mut v: Vec<(&'static str, Ty)> = vec![(tag, Ty::Tag)];
            for x in variants {
                for f in &x.fields {
                    if !v.iter().any(|n| n.0 == f.name) {
                        v.push((f.name, f.ty.clone()));
                    }
                }
            }
            v
        }
        Ty::Opt(t) | Ty::Hole(t) => names(t),
        _ => Vec::new(),
    }
}

/// Texts of elements for a static type: some that fit and some that do not.
pub fn texts(ty: &Ty, depth: usize) -> Vec<String> {
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    if depth == 0 {
        return s(&["1", "null"]);
    }
    match ty {
        Ty::Bool => s(&["true", "null", "0"]),
        Ty::Int { .. } | Ty::NonZero | Ty::F64 => s(&["7", "null", "400"]),
        Ty::Char => s(&["\"c\"", "\"\"", "[]"]),
        Ty::Str => s(&["\"s\"", "1", "null"]),
        Ty::Tag => s(&["\"Dot\"", "\"circle\"", "2", "\"Far\"", "7", "3", "\"far\"", "null"]),
        Ty::Opt(t) => {
            let mut v = texts(t, depth - 1);
            if !v.iter().any(|t| t == "null") {
                v.push("null".into());
            }
            v
        }
        Ty::Opt2(t) => {
            let mut v = s(&["null", "{\"has_value\":false}", "[false]", "[true]", "{\"value\":null}"]);
            for t in texts(t, depth - 1).iter().take(3) {
                v.push(format!("{{\"has_value\":true,\"value\":{}}}", t));
                v.push(format!("[true,{}]", t));
            }
            v
        }
        Ty::Struct(fields) => {
            let sub: Vec<Vec<String>> = fields.iter().map(|f| texts(&f.ty, depth - 1)).collect();
            let mut v = s(&["{}", "[]", "3"]);
            for k in 0..2 {
                let e: Vec<(String, String)> = fields.iter().zip(&sub).rev().map(|(f, t)| (quote(f.name), t[k % t.len()].clone())).collect();
                v.push(object(&e, 0));
                v.push(format!("[{}]", sub.iter().map(|t| t[k % t.len()].clone()).collect::<Vec<_>>().join(",")));
            }
            v
        }
        Ty::Tuple(tys) => {
            let sub: Vec<Vec<String>> = tys.iter().map(|t| texts(t, depth - 1)).collect();
            let mut v = s(&["[]", "{}"]);
            for k in 0..2 {
                let mut items: Vec<String> = sub.iter().map(|t| t[k % t.len()].clone()).collect();
                v.push(format!("[{}]", items.join(",")));
                items.push("1".into());
                v.push(format!("[{}]", items.join(",")));
            }
            v
        }
        Ty::List(t) => {
            let sub = texts(t, depth - 1);
            let mut v = s(&["[]", "{}", "null"]);
            v.push(format!("[{}]", sub.join(",")));
            v.push(format!("[{},{}]", sub[0], sub[0]));
            v
        }
        Ty::Enum { .. } => s(&["{\"kind\":\"Dot\"}", "{\"r\":1,\"kind\":\"circle\"}", "[7,-1]", "[\"At\",1,2,true]", "{\"kind\":2}", "\"Dot\""]),
        _ => s(&["1"]),
    }
}

/// Whole tokens and values of all kinds.
pub const TOKENS: [&str; 28] = [
    "0", "-0", "7", "-5", "12", "-30", "1.5", "-2.25", "0.0", "1e5", "1E-5", "1.0e+2", "-9.5e0", "null", "true", "false", "\"\"", "\"a\"", "\"\\n\"",
    "\"\\u0041\"", "\"é\"", "\"😀\"", "\"\\ud83d\\ude00\"", "[]", "{}", "[1]", "[null]", "{\"a\":1}",
];

/// What may follow a token.
pub fn followers() -> Vec<char> {
    (0..128u8).map(char::from).chain(['\u{85}', '\u{a0}', 'é', '\u{2028}', '\u{3000}', '\u{feff}', '\u{fffd}', '😀']).collect()
}

/// Text before and after a value in a document.
pub const AROUND: [(&str, &str); 9] = [
    ("", ""), ("[", "]"), ("[", ",1]"), ("[1,", "]"), ("{\"a\":", "}"), ("{\"a\":", ",\"b\":1}"), ("{\"b\":1,\"a\":", "}"), ("[{\"a\":[", "]}]"), ("{\"a\":[", ",2],\"b\":[]}"),
];

/// Numbers of levels at which a count of limited size would be exceeded.
pub fn depths(t: crate::Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=16).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 4096, 65536]).collect();
    if t == crate::Tier::Thorough {
        v.extend([17, 18, 34, 48, 96, 130, 192, 254, 258, 1023, 1025, 2048, 4095, 4097, 32767, 32768, 65534, 65535, 65537, 65538, 70000, 131071, 131072, 131073]);
    }
    v
}

pub const DEEP: usize = 6;

/// A value nested to the given level, as what opens it and what closes it, for a leaf in between.
pub fn deep(kind: usize, n: usize) -> (String, String) {
    let units: &[(&str, &str)] = match kind {
        0 => &[("[", "]")],
        1 => &[("{\"a\":", "}")],
        2 => &[("[", "]"), ("{\"s\":", "}")],
        3 => &[("[0,", ",0]")],
        4 => &[("{\"p\":0,\"a\":", ",\"s\":\"]\"}")],
        _ => &[("[{},", "]"), ("{\"\":[],\"b\":", ",\"c\":{\"}\":0}}"), ("[", ",[]]")],
    };
    let open = (0..n).map(|i| units[i % units.len()].0).collect();
    let close = (0..n).rev().map(|i| units[i % units.len()].1).collect();
    (open, close)
}

/// Runs with a large call stack: the reference parser and the consumers of the harness recurse. (The
/// use of the stack by the code under test is judged by C16.)
pub fn on_big_stack<R: Send>(n: usize, f: impl FnOnce() -> R + Send) -> R {
    let size = if n > 1200 { 1 << 30 } else { 32 << 20 };
    std::thread::scope(|s| std::thread::Builder::new().stack_size(size).spawn_scoped(s, f).unwrap().join())
        .unwrap_or_else(|p| std::panic::resume_unwind(p))
}
