//! C14: errors carry the right position.

use mc::gen::*;
use mc::model::*;
use mc::readers::*;
use mc::schema::*;
use mc::walk::*;
use mc::*;
use serdere::{Deserializer, FixedNameMap, Outliner, StrPosition, TextReader};
use serdere_json::*;

#[path = "../../shared/described.rs"]
mod described;
use described::*;

// ---------------------------------------------------------------------------------------------
// Syntax errors

/// The debug form of a position in terms of characters is not available for every source, so the
/// allowed ones are enumerated instead.
fn syntax(ch: &mut Ch, text: &str, comments: bool) -> Outcome {
    let cs = chars(text);
    ch.note(|| format!("document {} (comments {})", clip(text), comments));
    ch.state(text);
    let want = parse(&cs, comments);
    for mode in MODES {
        let got = no_panic(
            || format!("{} by {:?} (comments {})", clip(text), mode, comments),
            || consume(mode, comments, CharReader::new(&cs)),
        )?;
        ch.step();
        // Acceptance is not judged here
        if let (Err(e), Err(w)) = (&got, &want) {
            let p = *e.position();
            ch.outcome(&(format!("{:?}", e.message()), p.wrapping_sub(w.tok).min(9)));
            check!(
                w.tok <= p && p <= w.at,
                "{} by {:?} (comments {}): {:?} at character {}, expected in {}..={}",
                clip(text), mode, comments, e.message(), p, w.tok, w.at
            );
        } else if let (Err(e), Ok(_)) = (&got, &want) {
            return fail(format!("{} by {:?}: valid, but {:?} at character {}", clip(text), mode, e.message(), e.position()));
        }
    }
    Ok(())
}

/// The same from the two sources of the library.
fn syntax_sources(ch: &mut Ch, text: &str, comments: bool) -> Outcome {
    syntax(ch, text, comments)?;
    let cs = chars(text);
    let Err(w) = parse(&cs, comments) else { return Ok(()) };
    let lc = line_columns(&cs);
    for mode in MODES {
        let got = no_panic(|| format!("{} by {:?} from &str", clip(text), mode), || consume(mode, comments, text))?;
        if let Err(e) = &got {
            let p = str_offset(text, e.position());
            check!(w.tok <= p && p <= w.at, "{} by {:?} from &str: {:?} at character {}, expected in {}..={}", clip(text), mode, e.message(), p, w.tok, w.at);
        }
        let got = no_panic(
            || format!("{} by {:?} from bytes", clip(text), mode),
            || consume(mode, comments, serdere::Utf8Reader::new(text.as_bytes()).unwrap()),
        )?;
        ch.steps(2);
        if let Err(e) = &got {
            let p = (e.position().line, e.position().column);
            let shown = e.to_string();
            check!(
                shown.contains(&e.message().to_string()) && shown.contains(&e.position().to_string()),
                "{} by {:?} from bytes: {:?} at {:?} is shown as {:?}",
                clip(text), mode, e.message(), p, shown
            );
            check!(
                lc[w.tok..=w.at].contains(&p),
                "{} by {:?} from bytes: {:?} at {:?}, expected in {:?}..={:?}",
                clip(text), mode, e.message(), p, lc[w.tok], lc[w.at]
            );
        }
    }
    Ok(())
}

/// Looks up a key, then consumes what is left.
fn look_up<R: TextReader>(key: &str, comments: bool, reader: R) -> Result<(), DeserializeError<R::Position>> {
    let mut d = TextDeserializer::new(config(comments), reader)?;
    let array = d.peek_value_type() == ValueType::Array;
    if array {
        d.open_list()?;
        if !d.next_item()? {
            return d.close();
        }
    }
    d.open_object()?;
    if d.try_push_entry(key)? {
        consume_value(Mode::Wrapped, &mut d)?;
    }
    while d.next_entry()? {
        d.flush_str()?;
        consume_value(Mode::Skip, &mut d)?;
    }
    if array {
        while d.next_item()? {
            consume_value(Mode::Skip, &mut d)?;
        }
    }
    d.close()
}

/// Errors found while a key is compared with one that is looked up.
fn syntax_look_up(ch: &mut Ch, key: &str, text: &str, comments: bool) -> Outcome {
    let cs = chars(text);
    ch.note(|| format!("document {}, looking up {:?} (comments {})", clip(text), key, comments));
    ch.state(&(key, text, comments));
    let want = parse(&cs, comments);
    let lc = line_columns(&cs);
    let what = |m: &dyn std::fmt::Debug| format!("{} looking up {:?} (comments {}): {:?}", clip(text), key, comments, m);
    let judge = |m: &dyn std::fmt::Debug, at: &dyn Fn(usize) -> bool, shown: String| -> Outcome {
        match &want {
            Ok(_) => fail(format!("{} at {}, but the document is valid", what(m), shown)),
            Err(w) => {
                check!((w.tok..=w.at).any(at), "{} at {}, expected in {:?}..={:?} (characters {}..={})", what(m), shown, lc[w.tok], lc[w.at], w.tok, w.at);
                Ok(())
            }
        }
    };
    let name = || format!("{} looking up {:?}", clip(text), key);
    if let Err(e) = no_panic(name, || look_up(key, comments, CharReader::new(&cs)))? {
        judge(e.message(), &|i| *e.position() == i, format!("character {}", e.position()))?;
        ch.outcome(&format!("{:?}", e.message()));
    }
    if let Err(e) = no_panic(name, || look_up(key, comments, text))? {
        let p = str_offset(text, e.position());
        judge(e.message(), &|i| p == i, format!("character {} of a &str", p))?;
    }
    if let Err(e) = no_panic(name, || look_up(key, comments, serdere::Utf8Reader::new(text.as_bytes()).unwrap()))? {
        let p = (e.position().line, e.position().column);
        judge(e.message(), &|i| lc[i] == p, format!("{:?} of bytes", p))?;
    }
    ch.steps(3);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Semantic errors

fn report<P>(
    what: &str,
    ty: &Ty,
    text: &str,
    got: &Result<G, DeserializeError<P>>,
    want: &[Fault],
    at: impl Fn(&P, usize) -> bool,
    show: impl Fn(&P) -> String,
) -> Outcome {
    let Err(e) = got else {
        // Accepting is another matter
        return Ok(());
    };
    let k = kind_of(e.message());
    let ok = want.iter().any(|f| Some(&f.kind) == k.as_ref() && at(e.position(), f.pos));
    check!(
        ok,
        "{} read as {} {:?}: {:?} at {}, expected one of {:?}",
        clip(text), what, ty, e.message(), show(e.position()), want
    );
    Ok(())
}

/// Decodes a well-formed document as a type and judges the error.
fn judge<L>(ch: &mut Ch, what: &str, ty: &Ty, text: &str) -> Outcome
where
    L: for<'a> Leaf<TextDeserializer<&'a str>> + for<'a> Leaf<TextDeserializer<CharReader<'a>>> + for<'a> Leaf<TextDeserializer<serdere::Utf8Reader<&'a [u8]>>>,
{
    let cs = chars(text);
    let comments = text.contains("/*");
    let v = match parse(&cs, comments) {
        Ok(v) => v,
        Err(e) => std::panic::resume_unwind(Box::new(EnginePanic(format!("generated text is not JSON at {}: {}", e.at, text)))),
    };
    let want = match expect(ty, &v) {
        Ok(_) => Vec::new(),
        Err(w) => w,
    };
    ch.note(|| format!("document {}, type {} {:?}", clip(text), what, ty));
    ch.state(&(what, text));
    ch.outcome(&format!("{:?}", want));
    let w = || format!("{} read as {} {:?}", clip(text), what, ty);
    let a = no_panic(w, || decode_doc::<L, _>(ty, comments, CharReader::new(&cs)))?;
    report(what, ty, text, &a, &want, |p, q| *p == q, |p| format!("character {}", p))?;
    if want.is_empty() {
        return Ok(());
    }
    let b = no_panic(w, || decode_doc::<L, _>(ty, comments, text))?;
    report(what, ty, text, &b, &want, |p: &StrPosition, q| str_offset(text, p) == q, |p| format!("character {} (&str)", str_offset(text, p)))?;
    let c = no_panic(w, || decode_doc::<L, _>(ty, comments, serdere::Utf8Reader::new(text.as_bytes()).unwrap()))?;
    let lc = line_columns(&cs);
    report(what, ty, text, &c, &want, |p, q| (p.line, p.column) == lc[q], |p| format!("line {} column {} (bytes)", p.line, p.column))?;
    ch.steps(3);
    Ok(())
}

/// Decodes a malformed (or well-formed) document as a type.
fn judge_any<L>(ch: &mut Ch, what: &str, ty: &Ty, text: &str) -> Outcome
where
    L: for<'a> Leaf<TextDeserializer<CharReader<'a>>>,
{
    let cs = chars(text);
    ch.note(|| format!("document {}, type {} {:?}", clip(text), what, ty));
    ch.state(&(what, text));
    let got = no_panic(|| format!("{} read as {} {:?}", clip(text), what, ty), || decode_doc::<L, _>(ty, false, CharReader::new(&cs)))?;
    ch.step();
    match parse(&cs, false) {
        // Which of several entries with the same key is looked up is not prescribed
        Ok(v) if !v.distinct_keys() => Ok(()),
        Ok(v) => {
            let want = match expect(ty, &v) {
                Ok(_) => Vec::new(),
                Err(w) => w,
            };
            report(what, ty, text, &got, &want, |p, q| *p == q, |p| format!("character {}", p))
        }
        Err(syn) => {
            let Err(e) = &got else { return Ok(()) };
            let p = *e.position();
            ch.outcome(&format!("{:?}", e.message()));
            let what = || format!("{} read as {} {:?}: {:?} at character {}", clip(text), what, ty, e.message(), p);
            let within = syn.tok <= p && p <= syn.at;
            // Faults of what has been read before the malformed token
            let before = p < syn.tok;
            let opens = |cs: &[char]| matches!(cs.get(p), Some('{' | '['));
            match kind_of(e.message()) {
                None => check!(within, "{}: expected in {}..={}", what(), syn.tok, syn.at),
                Some(Kind::MissingKey(_) | Kind::ExtraKey(_)) => {
                    check!(before && cs[p] == '{', "{}: not at a brace before the malformed token at {}", what(), syn.tok)
                }
                Some(Kind::MissingItems | Kind::ExcessItems) => {
                    check!(before && cs[p] == '[', "{}: not at a bracket before the malformed token at {}", what(), syn.tok)
                }
                Some(_) => {
                    // At the start of a value: of the malformed one (which may also be what does not
                    // fit), or of one before it
                    let starts = opens(&cs)
                        || matches!(cs.get(p), Some('"' | 'n' | 't' | 'f' | '-' | '0'..='9'))
                            && !(p > 0 && (cs[p - 1].is_alphanumeric() || matches!(cs[p - 1], '-' | '+' | '.' | '\\')));
                    check!(within || before && starts, "{}: not at a value at or before the malformed token {}..={}", what(), syn.tok, syn.at)
                }
            }
            Ok(())
        }
    }
}

macro_rules! statics {
    ($($t:ty),* $(,)?) => {
        type Entry = (&'static str, fn() -> Ty, fn(&mut Ch, &Ty, &str) -> Outcome, fn(&mut Ch, &Ty, &str) -> Outcome);
        const STATICS: &[Entry] = &[$((
            stringify!($t),
            <$t as Described>::ty,
            |ch, ty, text| judge::<Of<$t>>(ch, stringify!($t), ty, text),
            |ch, ty, text| judge_any::<Of<$t>>(ch, stringify!($t), ty, text),
        )),*];
    };
}

statics! {
    Point, Names, Outer, Nest, Shape, (), (u8, bool), (u8, Option<i8>, String), [u8; 3], [Option<bool>; 2],
    Option<Option<u8>>, Option<()>, Option<Point>, Vec<Point>, (Point, Shape), Vec<(u8, bool)>, Option<(u8, u8)>, [[u8; 2]; 2],
    Vec<Option<Option<bool>>>, std::num::NonZeroU8, Vec<char>, (std::num::NonZeroU8, char), Vec<Shape>,
}

/// Leaf types for single operations.
fn leaves() -> Vec<Ty> {
    let mut v = vec![Ty::Bool, Ty::NonZero, Ty::F64, Ty::Char, Ty::Str, Ty::Tag, Ty::Null];
    for bits in [8, 16, 32, 64] {
        for signed in [false, true] {
            v.push(Ty::Int { bits, signed });
        }
    }
    let b = |t: Ty| Box::new(t);
    v.extend([
        Ty::Opt(b(U8)),
        Ty::Opt2(b(Ty::Opt(b(Ty::Bool)))),
        Ty::List(b(U8)),
        Ty::Tuple(vec![U8, U8]),
        Ty::Tuple(vec![]),
        Ty::Struct(vec![field("a", U8)]),
        Ty::Struct(vec![]),
        Ty::Object(vec![("a", U8)]),
        Ty::Object(vec![]),
        Ty::Map(vec![], b(U8)),
        Ty::Map(vec!["a"], b(U8)),
    ]);
    v
}

const TEXTS: [&str; 34] = [
    "null", "true", "false", "0", "1", "-1", "255", "256", "-128", "-129", "32768", "65536", "4294967296", "-9223372036854775809",
    "18446744073709551616", "1.5", "1e3", "1e400", "-0.0", "100e-2", "\"\"", "\"a\"", "\"ab\"", "\"on\"", "\"of\"", "\"\\u0061\\n\"", "[]", "[1]", "[1, 2, 3]", "[300]",
    "{}", "{\"a\": 1}", "{\"b\": 300}", "{\"a\": 1, \"b\": [ ]}",
];

/// Spaces a document in a number of ways.
fn space(how: usize, text: &str) -> String {
    let gaps = ["", " ", "\n\t", "/* c \n*/ "];
    match how {
        0 => text.to_string(),
        1..=3 => join(&tokens(text), &|_| gaps[how].to_string()),
        _ => join(&tokens(text), &|i| gaps[(i * 7 / 3) % 4].to_string()),
    }
}

fn each_place(ch: &mut Ch, ty: &Ty, text: &str, mut f: impl FnMut(&mut Ch, &Ty, &str) -> Outcome) -> Outcome {
    let how = ch.choose(5);
    for p in PLACES {
        let (ty, text) = place(p, ty.clone(), text);
        f(ch, &ty, &space(how, &text))?;
    }
    Ok(())
}

fn mutate(ch: &mut Ch, cs: &mut Vec<char>, alphabet: &[char]) -> bool {
    match ch.choose(5) {
        0 => {
            let k = ch.choose(cs.len() + 1);
            cs.truncate(k);
        }
        1 if !cs.is_empty() => {
            let k = ch.choose(cs.len());
            cs[k] = *ch.pick(alphabet);
        }
        2 => {
            let k = ch.choose(cs.len() + 1);
            cs.insert(k, *ch.pick(alphabet));
        }
        3 if !cs.is_empty() => {
            let k = ch.choose(cs.len());
            cs.remove(k);
        }
        4 if cs.len() > 1 => {
            let k = ch.choose(cs.len() - 1);
            if cs[k] == cs[k + 1] {
                return false;
            }
            cs.swap(k, k + 1);
        }
        _ => return false,
    }
    true
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = Vec::new();
    let l = t.pick(5, 6);
    v.push(family(
        "characters",
        format!("all texts of at most {} characters out of 16 sharp ones, consumed in 8 ways, strict and with comments", l),
        move |ch| {
            let a = ['{', '}', '[', ']', ':', ',', '"', '\\', 'u', 'n', '1', '-', '.', 'e', '/', ' '];
            let mut s = String::new();
            for _ in 0..l {
                let i = ch.choose(a.len() + 1);
                if i == 0 {
                    break;
                }
                s.push(a[i - 1]);
            }
            syntax(ch, &s, false)?;
            if s.contains('/') {
                syntax(ch, &s, true)?;
            }
            Ok(())
        },
    ));
    let l = t.pick(6, 7);
    v.push(family(
        "tokens",
        format!("all sequences of at most {} tokens out of 15 (also broken ones and comments) whose proper prefixes are not yet rejected, consumed in 8 ways, strict and with comments", l),
        move |ch| {
            let toks = ["{", "}", "[", "]", ":", ",", "\"a\"", "\"é", "-", "1.5e2", "nul", "true", " ", "/*\n*/", "\u{1F600}"];
            let mut s = String::new();
            for _ in 0..l {
                let i = ch.choose(toks.len() + 1);
                if i == 0 {
                    break;
                }
                let n = s.chars().count();
                let dead = matches!(parse(&chars(&s), true), Err(e) if e.at < n);
                s.push_str(toks[i - 1]);
                if dead {
                    break;
                }
            }
            for comments in [false, true] {
                syntax(ch, &s, comments)?;
            }
            Ok(())
        },
    ));
    let words = t.pick(1, 2);
    v.push(family(
        "broken tokens",
        format!("literals, numbers, strings with escapes of all kinds and separators with {} characters replaced, inserted, removed, swapped, or cut, in 9 surroundings (also in other entries before a looked-up one), from the three sources", words),
        move |ch| {
            let tokens = [
                "null", "true", "false", "-12.50e+31", "0", "10", "1E-7", "\"\"", "\"ab\"", "\"\\n\\u00e9\\\\\"", "\"\\ud83d\\ude00\"", "\"é\\\"😀\"", "[1,2]", "{\"k\":[]}", "[{}]",
            ];
            let mut cs = chars(*ch.pick(&tokens));
            for _ in 0..words {
                if !mutate(ch, &mut cs, &['"', '\\', 'u', 'D', '0', '1', '.', 'e', '-', '+', 'x', ',', ']', '\u{1}', '\n', 'é', '/']) {
                    return ch.skip();
                }
            }
            let s: String = cs.into_iter().collect();
            let around = [("", ""), (" ", " "), ("[", "]"), ("[1, ", " , 2]"), ("{\"a\":", "}"), ("{\"a\":1,\n\t\"b\" : ", "\n}"), ("{\"é\":[{\"b\":", "}],\"c\":2}"), ("[[],\r\n{\"a\":[", "]}]"), ("{", ":1,\"c\":2}")];
            let (a, b) = *ch.pick(&around);
            syntax_sources(ch, &format!("{}{}{}", a, s, b), false)
        },
    ));
    let muts = t.pick(1, 2);
    v.push(family(
        "mutated documents",
        format!("8 documents with {} characters replaced, inserted, removed, swapped or the rest cut off, from the three sources, strict and with comments", muts),
        move |ch| {
            let docs = [
                "{\"a\": [1, -2.5e+3, null],\n\t\"é\": {\"\\u00e9\": \"x\\\\\"}}",
                "[[], {}, \"\\ud83d\\ude00\", true, false]",
                " /* c */ [1, // d\r\n 2] // e",
                "{\"k\":\"v\",\"l\":{\"k\":[\"v\"]}}\n",
                "[{\"a\":{\"b\":{}},\"c\":[[[]]]}]",
                "\t\"string\"\n",
                "/**/{/***/\"a\"/*/*/:/*\n*/1//\n}",
                "[0,0.0,-0,1e1,\"\",{\"\":\"\"}]",
            ];
            let mut cs = chars(*ch.pick(&docs));
            for _ in 0..muts {
                if !mutate(ch, &mut cs, &['{', '}', '[', ']', ':', ',', '"', '\\', 'u', '1', '\n', '/', 'é', '\u{1}']) {
                    return ch.skip();
                }
            }
            let s: String = cs.into_iter().collect();
            for comments in [false, true] {
                syntax_sources(ch, &s, comments)?;
            }
            Ok(())
        },
    ));
    v.push(family(
        "far into the text",
        "5 kinds of errors after 0..=40, 1000 and 70000 lines, columns, items, string characters or levels (levels: up to 1000)",
        |ch| {
            let i = ch.choose(43);
            let n = [1000, 70000].get(i.wrapping_sub(41)).copied().unwrap_or(i.min(40));
            let d = n.min(1000);
            let (a, b) = match ch.choose(8) {
                0 => ("\n\t".repeat(n), String::new()),
                1 => (format!("[{}", "1, ".repeat(n)), "]".into()),
                2 => (format!("[\"{}\",", "é\\n\\u1234".repeat(n)), "]".into()),
                3 => ("[".repeat(d), "]".repeat(d)),
                4 => ("{\"a\":".repeat(d), "}".repeat(d)),
                5 => (format!("{{{}\"z\":", (0..d).map(|i| format!("\"k{}\":{},\r\n", i, i)).collect::<String>()), "}".into()),
                6 => (format!("{{\"{}\":", "k\\u006b".repeat(n)), "}".into()),
                _ => (format!("/*{}*/", "\n*".repeat(n)), String::new()),
            };
            let bad = *ch.pick(&["\"\\x\"", "01", "nulL", "[1,]", "\"abc", "1"]);
            syntax_sources(ch, &format!("{}{}{}", a, bad, b), true)
        },
    ));
    let ns = depths(t);
    v.push(family(
        "deep values",
        format!("5 kinds of errors inside, right after and behind a value nested 1..={} levels ({} depths, 6 shapes, beyond 1024: 3), the value also cut off or with a wrong closer", ns.last().unwrap(), ns.len()),
        move |ch| {
            let n = *ch.pick(&ns);
            let kind = ch.choose(DEEP);
            if n > 1024 && kind > 2 {
                return ch.skip();
            }
            let (open, close) = deep(kind, n);
            let text = match ch.choose(4) {
                0 => format!("[{}{}{}]", open, ch.pick(&["01", "\"\\x\"", "nulL", "[1,]", "]"]), close),
                1 => format!("{{\"a\":{}1{},\n\"b\":{}}}", open, close, ch.pick(&["01", "\"\\x\"", "nulL", "[1,]", "]"])),
                2 => format!("[{}1{}\n{}]", open, close, ch.pick(&["1", "}", ":", "]", ""])),
                _ => {
                    // Within the closers
                    let at = ch.choose(3);
                    let cut = [0, close.len() / 2, close.len() - 1][at];
                    format!("{}1{}{}{}", open, &close[..cut], ch.pick(&["", "x", ":", "/", "1"]), if ch.flip() { &close[cut + 1..] } else { "" })
                }
            };
            on_big_stack(n, || syntax_sources(ch, &text, true))
        },
    ));
    let l = t.pick(3, 4);
    v.push(family(
        "looked-up keys",
        format!("7 keys looked up in objects whose first or second key consists of up to {} units out of 15 (plain, escaped, controls, broken escapes, the end of the text) and a rest that is sound or broken in 8 ways, in 4 surroundings, from the three sources", l),
        move |ch| {
            let key = *ch.pick(&["", "a", "ab", "é", "aé", "\n", "ab\"a"]);
            let units = ["a", "b", "é", "\\u0061", "\\u00E9", "\\n", "\\\"", "\u{1}", "\n", "\r", "\u{1f}", "\\x", "\\u00g9", "\\ud800\\n", "\\"];
            let mut inner = String::new();
            let mut broken = false;
            for _ in 0..l {
                let i = ch.choose(units.len() + 1);
                if i == 0 {
                    break;
                }
                // Only what follows the first broken unit directly may matter
                if broken {
                    return ch.skip();
                }
                inner.push_str(units[i - 1]);
                broken = i > 7;
            }
            let rest = if broken { *ch.pick(&["\":1}", "", "u0061\":1}"]) } else { *ch.pick(&["\":1}", "", "\"", "\" 1}", "\"/:1}", "\":", "\":}", "\"\u{1}:1}"]) };
            let (a, b) = *ch.pick(&[("{\"", ""), ("{ \"z\": 0,\r\n\t\"", ""), ("[{\"a\\u0062c\":[],\"", ",2]"), ("[\n{\"", ",]")]);
            let text = format!("{}{}{}{}", a, inner, rest, b);
            syntax_look_up(ch, key, &text, false)?;
            if text.contains('/') {
                syntax_look_up(ch, key, &text, true)?;
            }
            Ok(())
        },
    ));
    v.push(family(
        "single values",
        "26 types x 34 values (all mismatches and overflows at the bounds) x 8 placements (directly, buffered by an earlier look-up, ...) x 5 spacings, also with a validation that rejects them, from the three sources",
        |ch| {
            let leaves = leaves();
            let mut ty = ch.pick(&leaves).clone();
            let text = *ch.pick(&TEXTS);
            if ch.flip() {
                ty = Ty::Check(Box::new(ty));
            }
            each_place(ch, &ty, text, |ch, ty, text| judge::<NoLeaf>(ch, "", ty, text))
        },
    ));
    v.push(family(
        "huge exponents",
        "26 types x 18 literals whose exponents do not fit in 32 bits x 8 placements x 5 spacings, from the three sources: an error is at the literal",
        |ch| {
            let leaves = leaves();
            let ty = ch.pick(&leaves).clone();
            let mantissa = *ch.pick(&["7", "-7.25", "0.0"]);
            let exp = *ch.pick(&["e2147483648", "E-2147483650", "e+99999999999", "e-0099999999999999999999", "e4294967296", "E18446744073709551617"]);
            let lit = format!("{mantissa}{exp}");
            each_place(ch, &ty, &lit, |ch, ty, text| {
                let cs = chars(text);
                let comments = text.contains("/*");
                let at = text.find(&lit).unwrap();
                ch.note(|| format!("document {}, type {:?}", clip(text), ty));
                ch.state(&(format!("{:?}", ty), text));
                ch.steps(3);
                let w = || format!("{} read as {:?}", clip(text), ty);
                let a = no_panic(w, || decode_doc::<NoLeaf, _>(ty, comments, CharReader::new(&cs)))?;
                if let Err(e) = &a {
                    check!(*e.position() == at, "{}: {:?} at character {} instead of {}", w(), e.message(), e.position(), at);
                }
                let b = no_panic(w, || decode_doc::<NoLeaf, _>(ty, comments, text))?;
                if let Err(e) = &b {
                    let p = str_offset(text, e.position());
                    check!(p == at, "{}: {:?} at character {} (&str) instead of {}", w(), e.message(), p, at);
                }
                let c = no_panic(w, || decode_doc::<NoLeaf, _>(ty, comments, serdere::Utf8Reader::new(text.as_bytes()).unwrap()))?;
                if let Err(e) = &c {
                    let (p, q) = (e.position(), line_columns(&cs)[at]);
                    check!((p.line, p.column) == q, "{}: {:?} at {}:{} (bytes) instead of {:?}", w(), e.message(), p.line, p.column, q);
                }
                Ok(())
            })
        },
    ));
    v.push(family(
        "validated parts",
        "4 nested types with matching documents, a validation at every node x 8 placements x 5 spacings",
        |ch| {
            let b = |t: Ty| Box::new(t);
            let types = [
                (
                    Ty::Tuple(vec![Ty::List(b(U8)), Ty::Tuple(vec![]), Ty::Opt(b(U8)), Ty::Struct(vec![field("b", Ty::Str), field("a", Ty::List(b(Ty::Bool)))]), Ty::Any]),
                    "[[1,2],[],null,{\"a\":[true],\"x\":[{}],\"b\":\"s\"},{\"q\":[]}]",
                ),
                (
                    Ty::Struct(vec![
                        field("b", Ty::List(b(Ty::Struct(vec![field("x", Ty::Char), field("w", Ty::Opt(b(Ty::F64)))])))),
                        field("a", Ty::Tag),
                        field("c", Ty::Opt2(b(Ty::Opt(b(Ty::Bool))))),
                    ]),
                    "{\"a\":\"on\",\"b\":[{\"w\":1.5,\"x\":\"x\"},[\"y\",null]],\"u\":{},\"c\":{\"value\":true,\"has_value\":true}}",
                ),
                (
                    Ty::Object(vec![("z", Ty::Map(vec!["k"], b(Ty::List(b(U8))))), ("y", Ty::Struct(vec![])), ("x", Ty::Any)]),
                    "{\"x\":[[\"skipped\"]],\"y\":{\"u\":1},\"z\":{\"j\":[1],\"k\":[],\"l\":[2,3]}}",
                ),
                (
                    Ty::List(b(Ty::Tuple(vec![U8, Ty::Struct(vec![field("a", Ty::Null), field("b", Ty::Tuple(vec![Ty::Str, Ty::Str]))])]))),
                    "[[1,{\"a\":null,\"b\":[\"p\",\"q\"]}],[2,[null,[\"\",\"r\"]]]]",
                ),
            ];
            let (ty, text) = ch.pick(&types).clone();
            let n = nodes(&ty);
            let k = ch.choose(n);
            let ty = checked(&ty, &mut k.clone());
            each_place(ch, &ty, text, |ch, ty, text| judge::<NoLeaf>(ch, "", ty, text))
        },
    ));
    v.push(family(
        "objects of structs",
        "15 struct types x every arrangement of every subset of the fields x values out of 10 (4-field type: 3) x up to one unknown entry with broken or sound contents x 8 placements x 5 spacings, from the three sources",
        |ch| {
            let structs = structs();
            let fields = ch.pick(&structs);
            let order = arrangement(ch, fields.len());
            let vals: &[&str] = &VALUES[..match fields.len() { 0..=2 => 10, 3 => 4, _ => 3 }];
            let mut entries: Vec<(String, String)> = order.iter().map(|i| (quote(fields[*i].name), ch.pick(vals).to_string())).collect();
            if ch.flip() {
                let at = ch.choose(entries.len() + 1);
                entries.insert(at, ("\"unknown\"".into(), "[{\"a\":1},\"}\"]".into()));
            }
            let text = object(&entries, 0);
            // As an object with exactly these entries, too
            let ty = if ch.flip() {
                Ty::Object(fields.iter().map(|f| (f.name, f.ty.clone())).collect())
            } else {
                Ty::Struct(fields.clone())
            };
            each_place(ch, &ty, &text, |ch, ty, text| judge::<NoLeaf>(ch, "", ty, text))
        },
    ));
    v.push(family(
        "arrays of structs and tuples",
        "15 struct types and the tuples of the same types x arrays of 0..=3 items out of 10 and up to 2 more x 8 placements x 5 spacings, from the three sources",
        |ch| {
            let structs = structs();
            let fields = ch.pick(&structs);
            let tuple = ch.flip();
            let n = ch.choose(fields.len() + 3);
            let mut items = Vec::new();
            for i in 0..n {
                items.push(match fields.get(i) {
                    Some(_) if i < 2 => ch.pick(&VALUES[..10]).to_string(),
                    Some(f) => [good(&f.ty), "[9,9]"][ch.choose(2)].to_string(),
                    None => "{}".to_string(),
                });
            }
            let text = format!("[{}]", items.join(","));
            let ty = if tuple { Ty::Tuple(fields.iter().map(|f| f.ty.clone()).collect()) } else { Ty::Struct(fields.clone()) };
            each_place(ch, &ty, &text, |ch, ty, text| judge::<NoLeaf>(ch, "", ty, text))
        },
    ));
    v.push(family(
        "derived and standard types",
        "23 types x their fitting and wrong texts to depth 3 and 15 values of all kinds x 8 placements x 5 spacings, from the three sources",
        |ch| {
            let (_, ty, run, _) = *ch.pick(STATICS);
            let ty = ty();
            let mut texts = texts(&ty, 3);
            texts.extend(VALUES.iter().map(|s| s.to_string()));
            let text = ch.pick(&texts).clone();
            each_place(ch, &Ty::Hole(Box::new(ty)), &text, |ch, ty, text| run(ch, ty, text))
        },
    ));
    v.push(family(
        "derived types, subsets",
        "23 types x objects of every arrangement of subsets of up to 2 field names with fitting and wrong values, with or without the rest x 8 placements x 5 spacings, from the three sources",
        |ch| {
            let (_, ty, run, _) = *ch.pick(STATICS);
            let ty = ty();
            let names = names(&ty);
            if names.is_empty() {
                return ch.skip();
            }
            let mut left: Vec<usize> = (0..names.len()).collect();
            let mut entries = Vec::new();
            while !left.is_empty() && entries.len() < 2 {
                let i = ch.choose(left.len() + 1);
                if i == left.len() {
                    break;
                }
                let (name, ty) = &names[left.remove(i)];
                let texts = texts(ty, 2);
                entries.push((quote(name), ch.pick(&texts).clone()));
            }
            if ch.flip() {
                for i in left {
                    let (name, ty) = &names[i];
                    entries.push((quote(name), texts(ty, 2)[0].clone()));
                }
            }
            let text = object(&entries, 0);
            each_place(ch, &Ty::Hole(Box::new(ty)), &text, |ch, ty, text| run(ch, ty, text))
        },
    ));
    v.push(family(
        "derived types, mutated documents",
        "23 types x their texts to depth 3 (fitting and wrong) in 2 placements with one character replaced, inserted, removed, swapped or the rest cut off",
        move |ch| {
            let (_, ty, _, any) = *ch.pick(STATICS);
            let ty = ty();
            let texts = texts(&ty, 3);
            let text = ch.pick(&texts);
            let (ty, text) = place(*ch.pick(&[Place::Top, Place::EntryLast]), Ty::Hole(Box::new(ty)), text);
            let mut cs = chars(&text);
            if !mutate(ch, &mut cs, &['{', '}', '[', ']', ':', ',', '"', '\\', '1', 'n', ' ', 'é']) {
                return ch.skip();
            }
            let s: String = cs.into_iter().collect();
            any(ch, &ty, &s)
        },
    ));
    v.push(family(
        "next characters",
        "28 tokens directly followed by every ASCII character and 8 others, in 9 surroundings, from the three sources, strict and with comments",
        |ch| {
            let tok = *ch.pick(&TOKENS);
            let next = followers();
            let c = *ch.pick(&next);
            let (a, b) = *ch.pick(&AROUND);
            let text = format!("{}{}{}{}", a, tok, c, b);
            for comments in [false, true] {
                syntax_sources(ch, &text, comments)?;
            }
            Ok(())
        },
    ));
    v.push(family(
        "errors as shown",
        "10 kinds of errors (syntax, mismatch, overflow, missing and extra keys and items, custom, invalid names and tags) x 9 keys x the error 0..=12 lines down and 0..=12 columns right (and 99, 100, 999, 1000 of either), read directly or buffered: what is printed names the line and column counted from one, keys and causes, and a cause is returned as the source",
        |ch| {
            let far: Vec<usize> = (0..=12).chain([99, 100, 999, 1000]).collect();
            let key = *ch.pick(&["k", "", "key", "é", "a b", "1", "\u{1F600}", "it's", "k2"]);
            let (line, column) = (*ch.pick(&far), *ch.pick(&far));
            shown(ch, line, column, key)
        },
    ));
    v
}

/// The cause of an error.
#[derive(Debug, PartialEq)]
struct Cause(usize);
impl std::fmt::Display for Cause {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "cause <{}>", "#".repeat(self.0))
    }
}
impl std::error::Error for Cause {}

static CHOICES: FixedNameMap<usize, 3> = FixedNameMap::new([("one", 0), ("two words", 1), ("", 2)]);

/// Produces an error and judges what is printed.
fn shown(ch: &mut Ch, line: usize, column: usize, key: &str) -> Outcome {
    use std::error::Error;
    let kind = ch.choose(10);
    let before = ch.flip();
    let pad = format!("{}{}", "\n".repeat(line), " ".repeat(column));
    // The position of the error is that of the first character of `bad`
    let bad = match kind {
        0 => "tru".to_string(),
        1 => "[]".into(),
        2 => "256".into(),
        3 => "{}".into(),
        4 => format!("{{{}:[1]}}", quote(key)),
        5 => "[]".into(),
        6 => "[1]".into(),
        7 => "0".into(),
        8 => "\"three\"".into(),
        _ => "77".into(),
    };
    let doc = if before { format!("{{\"v\":{pad}{bad},\"w\":0}}") } else { format!("{pad}{bad}") };
    let column = if before && line == 0 { column + 5 } else { column };
    let syntax = kind == 0;
    ch.note(|| format!("document {}, kind of error {}", clip(&doc), kind));
    ch.state(&(kind, line, column, key, before));
    ch.step();
    let run = || {
        let mut d = TextDeserializer::new(config(false), serdere::Utf8Reader::new(doc.as_bytes()).unwrap())?;
        if before {
            d.open_object()?;
            if d.try_push_entry("w")? {
                d.get_u8()?;
            }
            d.push_entry("v")?;
        }
        match kind {
            0 => d.get_bool().map(|_| ()),
            1 | 2 => d.get_u8().map(|_| ()),
            3 => {
                d.open_object()?;
                d.push_entry(key)
            }
            4 => {
                d.open_object()?;
                d.close_object()
            }
            5 => {
                d.open_list()?;
                d.push_item()
            }
            6 => {
                d.open_list()?;
                d.close_list()
            }
            7 => serdere::Value::with(&mut d, |v| v.validate_with(|v| Ok(Err::<(), _>(Cause(v.get_u8()? as usize + line))))),
            8 => d.get_name(CHOICES.unfix()).map(|_| ()),
            _ => d.get_tag(2, CHOICES.unfix()).map(|_| ()),
        }
    };
    let Err(e) = no_panic(|| clip(&doc), run)? else { return fail(format!("{}: no error", clip(&doc))) };
    let text = no_panic(|| clip(&doc), || e.to_string())?;
    let what = || format!("{} (error of kind {}) is shown as {:?}", clip(&doc), kind, text);
    check!((e.position().line, e.position().column) == (line, column) || syntax, "{}: position {:?} instead of {:?}", what(), e.position(), (line, column));
    // The numbers of the printed position
    let at = e.position().to_string();
    let numbers: Vec<usize> = at.split(|c: char| !c.is_ascii_digit()).filter(|n| !n.is_empty()).map(|n| n.parse().unwrap()).collect();
    check!(numbers == [e.position().line + 1, e.position().column + 1], "{}: {:?} is shown as {:?}", what(), e.position(), at);
    let message = e.message().to_string();
    check!(text.contains(&at) && text.contains(&message) && !message.is_empty(), "{}: without its message {:?} or position {:?}", what(), message, at);
    let has = |s: &str| message.contains(s);
    let types = |want: &[&str]| ["string", "number", "object", "array", "bool", "null"].iter().all(|t| message.matches(t).count() == want.contains(t) as usize);
    match kind {
        1 => check!(types(&["number"]), "{}: number expected", what()),
        3 | 4 => check!(has(key) || has(&format!("{:?}", key)), "{}: key {:?} is not named", what(), key),
        8 => check!(["one", "two words"].iter().all(|n| has(n)), "{}: names that are allowed are missing", what()),
        9 => check!(has("77"), "{}: the index is missing", what()),
        _ => (),
    }
    let source = e.source();
    if kind == 7 {
        check!(has(&Cause(line).to_string()), "{}: the cause is missing", what());
        check!(source.and_then(|s| s.downcast_ref::<Cause>()) == Some(&Cause(line)), "{}: the source is {:?}", what(), source);
    } else if kind >= 8 {
        check!(source.is_some_and(|s| s.to_string() == message), "{}: the source is {:?}", what(), source);
    } else {
        check!(source.is_none(), "{}: the source is {:?}", what(), source);
    }
    ch.outcome(&message);
    Ok(())
}

/// The number of nodes of a type.
fn nodes(ty: &Ty) -> usize {
    1 + match ty {
        Ty::Struct(f) => f.iter().map(|f| nodes(&f.ty)).sum(),
        Ty::Tuple(t) => t.iter().map(nodes).sum(),
        Ty::List(t) | Ty::Opt(t) | Ty::Opt2(t) | Ty::Map(_, t) => nodes(t),
        Ty::Object(k) => k.iter().map(|k| nodes(&k.1)).sum(),
        _ => 0usize,
    }
}

/// Puts a validation at the given node.
fn checked(ty: &Ty, k: &mut usize) -> Ty {
    if *k == 0 {
        *k = usize::MAX;
        return Ty::Check(Box::new(ty.clone()));
    }
    *k -= 1;
    match ty {
        Ty::Struct(f) => Ty::Struct(f.iter().map(|f| Field { ty: checked(&f.ty, k), ..f.clone() }).collect()),
        Ty::Tuple(t) => Ty::Tuple(t.iter().map(|t| checked(t, k)).collect()),
        Ty::List(t) => Ty::List(Box::new(checked(t, k))),
        Ty::Opt(t) => Ty::Opt(Box::new(checked(t, k))),
        Ty::Opt2(t) => Ty::Opt2(Box::new(checked(t, k))),
        Ty::Map(a, t) => Ty::Map(a.clone(), Box::new(checked(t, k))),
        Ty::Object(a) => Ty::Object(a.iter().map(|(n, t)| (*n, checked(t, k))).collect()),
        t => t.clone(),
    }
}

fn main() {
    mc::main(Check {
        id: "C14",
        families,
        assumptions: &[
            "A word, number, string or comment is one token; a character directly after a number or word belongs to it.",
            "When a document has several faults, which of them is reported is not prescribed; each has its own position.",
            "Which of several entries with the same key is looked up is not prescribed.",
            "For malformed documents that are decoded as a type, a fault of the part before the malformed token may be reported instead.",
        ],
    })
}
