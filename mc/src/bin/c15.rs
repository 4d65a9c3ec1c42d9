//! C15: comments are whitespace when allowed, errors when not.

use mc::gen::*;
use mc::model::*;
use mc::readers::*;
use mc::schema::*;
use mc::walk::*;
use mc::*;
use serdere::{TextReader, Utf8Reader};
use serdere_json::*;

#[path = "../../shared/described.rs"]
mod described;
use described::*;

/// Reads a document in every way and compares with the reference.
fn all_ways(ch: &mut Ch, text: &str) -> Outcome {
    let cs = chars(text);
    ch.note(|| format!("document {}", clip(text)));
    ch.state(text);
    for comments in [true, false] {
        let want = parse(&cs, comments).map(|v| v.tree());
        ch.outcome(&want.is_ok());
        for mode in MODES {
            let what = || format!("{} by {:?} (comments {})", clip(text), mode, comments);
            let got = no_panic(what, || consume(mode, comments, CharReader::new(&cs)))?;
            compare(&what, mode, got.map_err(|e| format!("{:?} at {}", e.message(), e.position())), &want)?;
            ch.step();
        }
        if !comments {
            for (how, got) in no_panic(|| format!("{} by the functions for whole documents", clip(text)), || by_default(text))? {
                compare(&|| format!("{} by {}", clip(text), how), Mode::Direct, got.map(Some), &want)?;
                ch.step();
            }
        }
        // Looking keys up in other orders
        if let Ok(tree) = &want {
            if has_object(tree) && distinct(tree) {
                for k in 0..2 {
                    let what = || format!("{} by look-ups in order {} (comments {})", clip(text), k, comments);
                    let order = move |n: usize| -> Vec<usize> { if k == 0 { (0..n).rev().collect() } else { (n / 2..n).chain(0..n / 2).collect() } };
                    let got = no_panic(what, || {
                        let mut d = TextDeserializer::new(config(comments), CharReader::new(&cs))?;
                        let t = lookup_walk(&mut d, tree, &order)?;
                        d.close()?;
                        Ok::<_, DeserializeError<usize>>(t)
                    })?;
                    match got {
                        Ok(t) => check!(t == *tree, "{}: got {:?}, expected {:?}", what(), t, tree),
                        Err(e) => return fail(format!("{}: error {:?}", what(), e.message())),
                    }
                    ch.step();
                }
            }
        }
    }
    Ok(())
}

fn has_object(t: &Tree) -> bool {
    match t {
        Tree::Obj(_) => true,
        Tree::Arr(a) => a.iter().any(has_object),
        _ => false,
    }
}

/// Which of several entries with the same key a look-up finds is not prescribed.
fn distinct(t: &Tree) -> bool {
    match t {
        Tree::Obj(o) => o.iter().enumerate().all(|(i, e)| distinct(&e.1) && o[..i].iter().all(|f| f.0 != e.0)),
        Tree::Arr(a) => a.iter().all(distinct),
        _ => true,
    }
}

fn compare(what: &dyn Fn() -> String, mode: Mode, got: Result<Option<Tree>, String>, want: &Result<Tree, Syn>) -> Outcome {
    match (got, want) {
        (Ok(t), Ok(w)) => check!(t.is_none() && !mode.full() || t.as_ref() == Some(w), "{}: got {:?}, expected {:?}", what(), t, w),
        (Ok(t), Err(e)) => return fail(format!("{}: accepted as {:?}, expected an error at {}..={}", what(), t, e.tok, e.at)),
        (Err(e), Ok(w)) => return fail(format!("{}: {}, expected {:?}", what(), e, w)),
        (Err(_), Err(_)) => (),
    }
    Ok(())
}

/// The same from the sources of the library.
fn all_sources(ch: &mut Ch, text: &str) -> Outcome {
    fn each<R: TextReader>(ch: &mut Ch, name: &str, text: &str, make: impl Fn() -> R) -> Outcome {
        let cs = chars(text);
        for comments in [true, false] {
            let want = parse(&cs, comments).map(|v| v.tree());
            for mode in MODES {
                let what = || format!("{} by {:?} from {} (comments {})", clip(text), mode, name, comments);
                let got = no_panic(what, || consume(mode, comments, make()))?;
                compare(&what, mode, got.map_err(|e| format!("{:?}", e.message())), &want)?;
                ch.step();
            }
        }
        Ok(())
    }
    all_ways(ch, text)?;
    each(ch, "&str", text, || text)?;
    each(ch, "bytes", text, || Utf8Reader::new(text.as_bytes()).unwrap())
}

/// Decodes as a type.
fn judge<L>(ch: &mut Ch, what: &str, ty: &Ty, plain: &str, text: &str) -> Outcome
where
    L: for<'a> Leaf<TextDeserializer<&'a str>>,
{
    ch.note(|| format!("document {}, type {} {:?}", clip(text), what, ty));
    ch.state(&(what, text));
    let w = |c| format!("{} read as {} {:?} (comments {})", clip(text), what, ty, c);
    let reference = no_panic(|| format!("{} read as {} {:?}", clip(plain), what, ty), || decode_doc::<L, _>(ty, false, plain))?;
    let got = no_panic(|| w(true), || decode_doc::<L, _>(ty, true, text))?;
    let show = |e: DeserializeError<serdere::StrPosition>| format!("{:?}", e.message());
    let (reference, got) = (reference.map_err(show), got.map_err(show));
    ch.outcome(&reference);
    check!(got == reference, "{}: {:?}, but {:?} from {}", w(true), got, reference, clip(plain));
    let strict = no_panic(|| w(false), || decode_doc::<L, _>(ty, false, text))?;
    check!(strict.is_err() || !text.contains('/'), "{}: accepted as {:?}", w(false), strict);
    ch.steps(2);
    Ok(())
}

const FILLERS: [&str; 34] = [
    "/**/", "/***/", "/****/", "/*/*/", "/*//*/", "/* * / */", "/*\n*/", "/*\"*/", "/*]*/", "/*}*/", "/*,*/", "/*:*/", "/*\\*/", "/* é😀 */", "/*\u{0}*/", "/*1*/", "/*null*/", "/**//**/",
    "/* a */ /* b */", "//\n", "// c\n", "///\n", "//*\n", "// */ /*\n", "//\"\n", "//\\\n", "//é\r\n", "//\n//\n", "/*//\n*/", "//]\n", " ", "\n", "\t\r\n ", "\n//\n\n/**/\n",
];

/// Fillers that are only fine at the end of the document.
const LAST: [&str; 5] = ["//", "// c", "///*", "/**///", "\n//\r"];

/// Not comments.
const BROKEN: [&str; 12] = ["/", "/*", "/**", "/*/", "/ /", "/ *", "/x", "* /", "*/", "#", "/* *", "/\n/\n"];

const DOCS: [&str; 14] = [
    "1",
    "\"\"",
    "null",
    "[]",
    "{}",
    "[1,2]",
    "[true,null,false]",
    "{\"a\":1}",
    "{\"a\":-1.5e3,\"b\":\"x\"}",
    "[[],{},[[]]]",
    "{\"a\":{\"b\":[1,{\"c\":null}]},\"d\":[]}",
    "[\"//\",\"/*\",\"*/\",\"\\/\",\"http://é/\"]",
    "{\"//\":\"/**/\",\"/*\":{\"*/\":\"/\"}}",
    "[{\"a\":\"\",\"b\":{}},{\"b\":[0],\"a\":{}}]",
];

macro_rules! statics {
    ($($t:ty),* $(,)?) => {
        const STATICS: &[(&str, fn() -> Ty, fn(&mut Ch, &Ty, &str, &str) -> Outcome)] =
            &[$((stringify!($t), <$t as Described>::ty, |ch, ty, plain, text| judge::<Of<$t>>(ch, stringify!($t), ty, plain, text))),*];
    };
}

statics! {
    Point, Names, Outer, Nest, Shape, (), (u8, Option<i8>, String), [u8; 3], [Option<bool>; 2],
    Option<Option<u8>>, Option<()>, Option<Point>, Vec<Point>, (Point, Shape), Vec<Option<Option<bool>>>, Vec<char>, Vec<Shape>,
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = Vec::new();
    v.push(family(
        "one gap",
        "14 documents x every gap between tokens x 34 comments and spaces (5 more at the end) and 12 broken ones, consumed in 8 ways and by look-ups, strict and with comments, from 3 sources",
        |ch| {
            let toks = tokens(ch.pick(&DOCS));
            let gap = ch.choose(toks.len() + 1);
            let mut fillers: Vec<&str> = FILLERS.to_vec();
            fillers.extend(BROKEN);
            if gap == toks.len() {
                fillers.extend(LAST);
            }
            let f = *ch.pick(&fillers);
            let text = join(&toks, &|i| if i == gap { f.into() } else { String::new() });
            all_sources(ch, &text)
        },
    ));
    v.push(family(
        "two gaps",
        "14 documents x every pair of gaps x 21 x 21 comments, spaces and broken ones, consumed in 8 ways and by look-ups, strict and with comments",
        |ch| {
            let toks = tokens(ch.pick(&DOCS));
            let a = ch.choose(toks.len() + 1);
            let b = ch.choose(toks.len() + 1);
            if a >= b {
                return ch.skip();
            }
            let pool = [
                "/**/", "/***/", "/*/*/", "/* * / */", "/*\n*/", "/*\"*/", "/*\\*/", "/* é */", "//\n", "// c\n", "//*\n", "//\"\n", "//\\\n", "/**//**/", " ", "\n", "/", "/*", "*/", "//", "/**",
            ];
            let f = *ch.pick(&pool);
            let g = *ch.pick(&pool);
            let text = join(&toks, &|i| if i == a { f.into() } else if i == b { g.into() } else { String::new() });
            all_ways(ch, &text)
        },
    ));
    v.push(family(
        "all gaps",
        "14 documents x every combination of 3 comments and spaces by turns in all gaps, consumed in 8 ways and by look-ups, strict and with comments",
        |ch| {
            let toks = tokens(ch.pick(&DOCS));
            let f = [*ch.pick(&FILLERS), *ch.pick(&FILLERS), FILLERS[ch.choose(6) * 6 % FILLERS.len()]];
            let text = join(&toks, &|i| f[i % 3].into());
            all_ways(ch, &text)
        },
    ));
    let l = t.pick(6, 7);
    v.push(family(
        "characters",
        format!("all texts of at most {} characters out of 9 in 4 surroundings, consumed in 8 ways and by look-ups, strict and with comments", l),
        move |ch| {
            let around = *ch.pick(&[("", ""), ("[1,", "]"), ("{\"a\":1", "}"), ("{\"a\"", "1}")]);
            let a = ['/', '*', '\n', '"', '1', '[', ',', ' ', 'é'];
            let mut s = String::new();
            for _ in 0..l {
                let i = ch.choose(a.len() + 1);
                if i == 0 {
                    break;
                }
                s.push(a[i - 1]);
            }
            if around.0 != "" && !s.contains('/') {
                return ch.skip();
            }
            all_ways(ch, &format!("{}{}{}", around.0, s, around.1))
        },
    ));
    let l = t.pick(6, 7);
    v.push(family(
        "inside comments",
        format!("all contents of at most {} characters out of 7 of block comments and of line comments, in 4 surroundings, consumed in 8 ways and by look-ups, strict and with comments", l),
        move |ch| {
            let a = ['*', '/', '\n', '"', '\\', 'é', ']'];
            let mut s = String::new();
            for _ in 0..l {
                let i = ch.choose(a.len() + 1);
                if i == 0 {
                    break;
                }
                s.push(a[i - 1]);
            }
            let c = match ch.choose(3) {
                0 => format!("/*{}*/", s),
                1 => format!("//{}\n", s),
                _ => format!("/*{}", s),
            };
            let around = *ch.pick(&[("", "1"), ("[2,", "3]"), ("[{\"a\":1", "}]"), ("[]", "")]);
            all_ways(ch, &format!("{}{}{}", around.0, c, around.1))
        },
    ));
    v.push(family(
        "tokens",
        format!("all sequences of at most {} out of 14 tokens, comments and parts of comments whose proper prefixes are not yet rejected, consumed in 8 ways and by look-ups, strict and with comments", t.pick(6, 7)),
        move |ch| {
            let toks = ["{", "}", "[", "]", ":", ",", "\"/*\"", "1", "null", "/*\"*/", "//[\n", "/", "*", "\n"];
            let mut s = String::new();
            for _ in 0..t.pick(6, 7) {
                let i = ch.choose(toks.len() + 1);
                if i == 0 {
                    break;
                }
                let n = s.chars().count();
                let dead = matches!(parse(&chars(&s), true), Err(e) if e.at < n);
                s.push_str(toks[i - 1]);
                if dead {
                    break;
                }
            }
            all_ways(ch, &s)
        },
    ));
    v.push(family(
        "long comments",
        "comments of 0..=70, 4095..=4097, 65535..=65537 and 1000000 characters of 5 kinds, and as many short comments (up to 20000), in 4 gaps, complete or not",
        |ch| {
            let i = ch.choose(78);
            let n = [4095, 4096, 4097, 65535, 65536, 65537, 1000000].get(i.wrapping_sub(71)).copied().unwrap_or(i.min(70));
            if n == 1000000 && i != 77 {
                return ch.skip();
            }
            let unit = *ch.pick(&["x", "*", "/ ", "é\n", "😀\""]);
            let c = match ch.choose(4) {
                0 => format!("/*{}*/", unit.repeat(n)),
                1 => format!("//{}\n", unit.replace('\n', " ").repeat(n)),
                2 => "/**/".repeat(n.min(20000)),
                _ => format!("/*{}", unit.repeat(n)),
            };
            let (a, b) = *ch.pick(&[("", "1"), ("[1", ",2]"), ("{\"a\":", "{}}"), ("[]", "")]);
            let text = format!("{}{}{}", a, c, b);
            if n > 5000 {
                all_ways(ch, &text).map_err(|mut f| {
                    f.msg = clip(&f.msg);
                    f
                })
            } else {
                all_sources(ch, &text)
            }
        },
    ));
    let top: u32 = t.pick(0x11000, 0x110000);
    v.push(family(
        "every character",
        format!("every scalar value below {:#x} (and 10 beyond) in line and block comments, after a star or a slash, and between tokens, in 2 surroundings, consumed in 8 ways and by look-ups, strict and with comments", top),
        move |ch| {
            let beyond = [0x3000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff];
            // By rows of 64 characters, to keep the first choice small
            let row = ch.choose(top as usize / 64 + 1);
            let c = if row == top as usize / 64 { beyond[ch.choose(beyond.len())] } else { row as u32 * 64 + ch.choose(64) as u32 };
            let Some(c) = char::from_u32(c) else { return ch.skip() };
            let f = match ch.choose(7) {
                0 => format!("/*{}*/", c),
                1 => format!("/**{}*/", c),
                2 => format!("//{}]\n", c),
                3 => format!("//{}\n{}", c, " "),
                4 => format!("/{}", c),
                5 => format!("{}/**/", c),
                _ => format!("/*{}/*/", c),
            };
            let (a, b) = *ch.pick(&[("[1", ",2]"), ("{\"a\":1,", "\"b\":{}}")]);
            all_ways(ch, &format!("{}{}{}", a, f, b))
        },
    ));
    let ns = depths(t);
    v.push(family(
        "deep values",
        format!("values nested 1..={} levels ({} depths, 6 shapes) (beyond 1024 levels: 3 shapes) x 9 comments (2 of them broken; beyond 1024: 2, one broken) before, inside and after the value, once or (up to 1024 levels) at every level", ns.last().unwrap(), ns.len()),
        move |ch| {
            let n = *ch.pick(&ns);
            let kind = ch.choose(DEEP);
            if n > 1024 && kind > 2 {
                return ch.skip();
            }
            let (open, close) = deep(kind, n);
            let fs = ["/*]*/", "/", "/**/", "//}\n", "/***/ ", "/*{[\"*/", "//\r\n", "/*/*/", "/*"];
            let f = *ch.pick(if n > 1024 { &fs[..2] } else { &fs[..] });
            let text = match ch.choose(6) {
                0 => format!("[{}{}1{},2]", f, open, close),
                1 => format!("{{\"a\":{}{}1{}}}", open, f, close),
                2 => format!("[{}1{}{}, 2]", open, f, close),
                3 => format!("{{\"b\":{}1{}{},\"c\":[]}}", open, close, f),
                4 => format!("[0, {}1{}]{}", open, close, f),
                _ => {
                    if n > 1024 {
                        return ch.skip();
                    }
                    let at = |s: &str| join(&tokens(s), &|_| f.into());
                    format!("{}1{}", at(&open), at(&close))
                }
            };
            on_big_stack(n, || all_ways(ch, &text)).map_err(|mut f| {
                f.msg = clip(&f.msg);
                f
            })
        },
    ));
    v.push(family(
        "typed",
        "17 types x their fitting and wrong texts to depth 3 x 8 placements (directly, buffered, positional, ...) x every gap or all of them x 9 comments, against the same decoding of the comment-free document",
        |ch| {
            let (_, ty, run) = *ch.pick(STATICS);
            let ty = ty();
            let texts = texts(&ty, 3);
            let text = ch.pick(&texts);
            let (ty, plain) = place(*ch.pick(&PLACES), Ty::Hole(Box::new(ty)), text);
            let toks = tokens(&plain);
            let f = *ch.pick(&["/**/", "/*\"*/", "//\n", "//}\n", "/***/ ", "// é\r\n", "/*/*/", "/*\n*/", "//*\\\n//\n"]);
            let gap = ch.choose(toks.len() + 2);
            let text = join(&toks, &|i| if i == gap || gap == toks.len() + 1 { f.into() } else { String::new() });
            run(ch, &ty, &plain, &text)
        },
    ));
    v.push(family(
        "structs and objects",
        "15 struct types and objects with the same keys x every order of the fields, with or without one unknown entry x 8 placements x 7 comments in every gap or all of them, against the same decoding of the comment-free document",
        |ch| {
            let structs = structs();
            let fields = ch.pick(&structs);
            let order = arrangement(ch, fields.len());
            if order.len() + 1 < fields.len() {
                return ch.skip();
            }
            let mut entries: Vec<(String, String)> =
                order.iter().map(|i| (quote(fields[*i].name), good(&fields[*i].ty).to_string())).collect();
            let ty = if ch.flip() {
                Ty::Object(fields.iter().map(|f| (f.name, f.ty.clone())).collect())
            } else {
                if ch.flip() {
                    entries.insert(entries.len() / 2, ("\"/*\"".into(), "[{\"//\":1},\"*/\"]".into()));
                }
                Ty::Struct(fields.clone())
            };
            let (ty, plain) = place(*ch.pick(&PLACES), ty, &object(&entries, 0));
            let toks = tokens(&plain);
            let f = *ch.pick(&["/**/", "//\n", "/*{\"*/", "/***/ ", "//,\n", "/*/*/", " /*\n*/ //"]);
            let gap = ch.choose(toks.len() + 2);
            let f = if f.ends_with("//") { format!("{}\n", f) } else { f.to_string() };
            let text = join(&toks, &|i| if i == gap || gap == toks.len() + 1 { f.clone() } else { String::new() });
            judge::<NoLeaf>(ch, "", &ty, &plain, &text)
        },
    ));
    v.push(family(
        "after every token",
        "28 tokens directly followed by 34 comments and spaces or 12 broken ones, in 9 surroundings, consumed in 8 ways and by look-ups, strict and with comments, from 3 sources",
        |ch| {
            let tok = *ch.pick(&TOKENS);
            let fillers = [&FILLERS[..], &BROKEN[..], &["\t", "\r"][..]].concat();
            let f = *ch.pick(&fillers);
            let (a, b) = *ch.pick(&AROUND);
            all_sources(ch, &format!("{}{}{}{}", a, tok, f, b))
        },
    ));
    v
}

fn main() {
    mc::main(Check {
        id: "C15",
        families,
        assumptions: &[
            "A line comment ends after a newline character or at the end of input; a carriage return does not end it.",
            "Block comments do not nest.",
            "With comments allowed, error messages of typed decoding are compared with those for the comment-free document by their debug representation, without positions.",
        ],
    })
}
