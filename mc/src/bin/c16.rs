//! C16: no text makes decoding panic, hang or exhaust the stack.

use mc::gen::*;
use mc::model::{chars, clip, parse, quote};
use mc::schema::{MAX_INDEX, NAMES};
use mc::walk::*;
use mc::*;
use serdere::*;
use serdere_json::*;

#[path = "../../shared/types.rs"]
mod types;
use types::*;
#[macro_use]
#[path = "../../shared/types_list.rs"]
mod types_list;

/// Decodes a text as a type from both sources; only whether it worked is returned.
type Run = fn(&str) -> (bool, bool);

fn table() -> Vec<(&'static str, Run)> {
    fn run<T>(text: &str) -> (bool, bool)
    where
        T: for<'a> Deserialize<TextDeserializer<&'a str>> + for<'a> Deserialize<TextDeserializer<Utf8Reader<&'a [u8]>>>,
    {
        let a = from_str::<T>(text).is_ok();
        let b = from_reader::<_, T>(Utf8Reader::new(text.as_bytes()).unwrap()).is_ok();
        (a, b)
    }
    macro_rules! entry {
        ($t:ty) => {
            (stringify!($t), run::<$t> as Run)
        };
    }
    for_types!(entry)
}

/// Decodes as every type.
fn all_types(ch: &mut Ch, table: &[(&'static str, Run)], text: &str) -> Outcome {
    ch.note(|| format!("text {}", clip(text)));
    ch.state(text);
    let mut accepted = 0;
    for (name, run) in table {
        let (a, b) = no_panic(|| format!("{} read as {}", clip(text), name), || run(text))?;
        ch.steps(2);
        accepted += a as u32 + b as u32;
    }
    ch.outcome(&accepted);
    Ok(())
}

/// Consumes in every way.
fn all_modes(ch: &mut Ch, text: &str) -> Outcome {
    ch.note(|| format!("text {}", clip(text)));
    ch.state(text);
    for mode in MODES {
        for comments in [false, true] {
            let what = || format!("{} by {:?} (comments {})", clip(text), mode, comments);
            let a = no_panic(what, || consume(mode, comments, text).is_ok())?;
            let b = no_panic(what, || consume(mode, comments, Utf8Reader::new(text.as_bytes()).unwrap()).is_ok())?;
            ch.steps(2);
            ch.outcome(&(a, b));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Sequences of calls

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Top {
    Value,
    Str,
    List,
    Object,
    Tuple,
    /// With the number of fields read.
    Struct(usize),
}

const KEYS: [&str; 4] = ["a", "b", "zz", ""];

/// Performs every correct sequence of at most `depth` calls; what is left is then skipped.
fn calls<R: TextReader>(ch: &mut Ch, comments: bool, reader: R, depth: usize, log: &mut Vec<String>) -> Result<(), DeserializeError<R::Position>> {
    let mut d = TextDeserializer::new(config(comments), reader)?;
    let mut stack = vec![Top::Value];
    let mut n = 0;
    while let Some(top) = stack.last().copied() {
        n += 1;
        let last = n > depth;
        ch.step();
        match top {
            Top::Value => {
                let op = if last { 0 } else { ch.choose(15) };
                log.push(format!("value {}", op));
                stack.pop();
                match op {
                    0 => d.skip_value()?,
                    1 => drop(d.get_bool()?),
                    2 => drop(d.get_i8()?),
                    3 => drop(d.get_u64()?),
                    4 => drop(d.get_f32()?),
                    5 => drop(d.get_f64()?),
                    6 => drop(d.get_char()?),
                    7 => drop(d.get_tag(MAX_INDEX, NAMES)?),
                    8 => d.pop_null()?,
                    9 => {
                        if !d.check_null()? {
                            stack.push(Top::Value);
                        }
                    }
                    10 => {
                        d.open_str()?;
                        stack.push(Top::Str);
                    }
                    11 => {
                        d.open_list()?;
                        stack.push(Top::List);
                    }
                    12 => {
                        d.open_tuple(None)?;
                        stack.push(Top::Tuple);
                    }
                    13 => {
                        d.open_struct(Some("S"))?;
                        stack.push(Top::Struct(0));
                    }
                    _ => {
                        d.open_object()?;
                        stack.push(Top::Object);
                    }
                }
            }
            Top::Str => {
                let op = if last { 0 } else { ch.choose(5) };
                log.push(format!("string {}", op));
                match op {
                    0 => {
                        d.skip_str()?;
                        stack.pop();
                    }
                    1 => {
                        d.flush_str()?;
                        stack.pop();
                    }
                    2 => {
                        if d.next_char()?.is_none() {
                            stack.pop();
                        }
                    }
                    3 => {
                        d.flush_name(NAMES)?;
                        stack.pop();
                    }
                    _ => {
                        d.close_str()?;
                        stack.pop();
                    }
                }
            }
            Top::List => {
                let op = if last { 0 } else { ch.choose(3) };
                log.push(format!("list {}", op));
                match op {
                    0 => {
                        if d.next_item()? {
                            stack.push(Top::Value);
                        } else {
                            stack.pop();
                        }
                    }
                    1 => {
                        d.push_item()?;
                        stack.push(Top::Value);
                    }
                    _ => {
                        d.close_list()?;
                        stack.pop();
                    }
                }
            }
            Top::Object => {
                let op = if last { 0 } else { ch.choose(9) };
                log.push(format!("object {}", op));
                match op {
                    0 => {
                        d.skip_object()?;
                        stack.pop();
                    }
                    1 => {
                        d.close_object()?;
                        stack.pop();
                    }
                    2 => {
                        if d.next_entry()? {
                            stack.push(Top::Value);
                            stack.push(Top::Str);
                        } else {
                            stack.pop();
                        }
                    }
                    3..=6 => {
                        if d.try_push_entry(KEYS[op - 3])? {
                            stack.push(Top::Value);
                        }
                    }
                    7 => {
                        d.push_entry("b")?;
                        stack.push(Top::Value);
                    }
                    _ => {
                        d.push_null(Some("virtual"));
                        stack.push(Top::Value);
                    }
                }
            }
            Top::Tuple => {
                let op = if last { 0 } else { ch.choose(2) };
                log.push(format!("tuple {}", op));
                if op == 0 {
                    d.close_tuple()?;
                    stack.pop();
                } else {
                    d.push_element()?;
                    stack.push(Top::Value);
                }
            }
            Top::Struct(k) => {
                let op = if last { 0 } else { ch.choose(3) };
                log.push(format!("struct {}", op));
                match op {
                    0 => {
                        d.close_struct()?;
                        stack.pop();
                    }
                    _ => {
                        // In either order of the document
                        if k + op > 4 {
                            d.close_struct()?;
                            stack.pop();
                            continue;
                        }
                        d.push_field(["b", "a", "zz", ""][k + op - 1])?;
                        *stack.last_mut().unwrap() = Top::Struct(k + op);
                        stack.push(Top::Value);
                    }
                }
            }
        }
    }
    log.push("close".into());
    d.close()?;
    Ok(())
}

/// Keeps the panics of the engine apart from those of the code under test.
fn judge_calls(ch: &mut Ch, text: &str, depth: usize, bytes: bool) -> Outcome {
    let mut log = Vec::new();
    ch.note(|| format!("text {}", clip(text)));
    let res = sut(|| {
        if bytes {
            calls(ch, true, Utf8Reader::new(text.as_bytes()).unwrap(), depth, &mut log).is_ok()
        } else {
            calls(ch, false, text, depth, &mut log).is_ok()
        }
    });
    ch.state(&(text, &log));
    ch.outcome(&res);
    match res {
        Ok(_) => Ok(()),
        Err(p) => fail(format!("{} under the calls {:?}: panicked: {}", clip(text), log, p)),
    }
}

// ---------------------------------------------------------------------------------------------
// Depth

/// Runs on a small stack.
fn small_stack(f: impl FnOnce() -> Result<(), String> + Send) -> Result<(), String> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(192 << 10)
            .spawn_scoped(s, || sut(f).unwrap_or_else(|p| Err(format!("panicked: {}", p))))
            .expect("thread")
            .join()
            .expect("no panic")
    })
}

#[derive(Deserialize)]
struct Target {
    #[allow(dead_code)]
    a: u8,
    #[allow(dead_code)]
    b: Option<String>,
    #[serde(default)]
    #[allow(dead_code)]
    c: Vec<u8>,
}

/// Reads an arbitrarily deep value without recursion.
fn iterate<D: JsonDeserializer>(d: &mut D, probe: bool) -> std::result::Result<usize, D::Error> {
    let mut depth = 0;
    let mut nodes = 0;
    loop {
        nodes += 1;
        match d.peek_value_type() {
            ValueType::Null => d.pop_null()?,
            ValueType::Bool => drop(d.get_bool()?),
            ValueType::Number => drop(d.get_f64()?),
            ValueType::String => drop(d.read_str()?),
            ValueType::Array => {
                d.open_list()?;
                depth += 1;
            }
            ValueType::Object => {
                d.open_object()?;
                if probe {
                    d.try_push_entry(MISSING)?;
                }
                depth += 1;
            }
        }
        loop {
            if depth == 0 {
                return Ok(nodes);
            }
            let more = match d.peek_collection_type() {
                CollectionType::Array => d.next_item()?,
                CollectionType::Object => {
                    let more = d.next_entry()?;
                    if more {
                        d.flush_str()?;
                    }
                    more
                }
            };
            if more {
                break;
            }
            depth -= 1;
        }
    }
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = Vec::new();
    let l = t.pick(5, 6);
    v.push(family(
        "characters",
        format!("all texts of at most {} characters out of 18 sharp ones, consumed in 8 ways, strict and with comments, from &str and bytes", l),
        move |ch| {
            let a = ['{', '}', '[', ']', ':', ',', '"', '\\', 'u', 'n', '1', '-', '.', 'e', '/', '*', 'é', '\n'];
            let mut s = String::new();
            for _ in 0..l {
                let i = ch.choose(a.len() + 1);
                if i == 0 {
                    break;
                }
                s.push(a[i - 1]);
            }
            all_modes(ch, &s)
        },
    ));
    let l = t.pick(3, 4);
    v.push(family(
        "characters, typed",
        format!("all texts of at most {} characters out of 16 sharp ones, decoded as each of 237 types from &str and bytes", l),
        move |ch| {
            let a = ['{', '}', '[', ']', ':', ',', '"', '\\', 'n', '0', '1', '-', '.', 'e', 'é', ' '];
            let mut s = String::new();
            for _ in 0..l {
                let i = ch.choose(a.len() + 1);
                if i == 0 {
                    break;
                }
                s.push(a[i - 1]);
            }
            all_types(ch, &table(), &s)
        },
    ));
    v.push(family(
        "every character",
        "every scalar value: alone, in a string, after a backslash, after a number, a word, a bracket, a key, in a comment, consumed in 8 ways, strict and with comments, from &str and bytes",
        |ch| {
            let scalars: usize = 0x110000 - 0x800;
            let hi = ch.choose(scalars.div_ceil(64));
            let i = hi * 64 + ch.choose(64.min(scalars - hi * 64));
            let c = char::from_u32(if i < 0xD800 { i as u32 } else { i as u32 + 0x800 }).unwrap();
            // Beyond the first planes, less
            let forms: &[(&str, &str)] = &[("", ""), ("\"", "\""), ("\"\\", "0000\""), ("1", ""), ("nul", ""), ("[", "]"), ("{\"a\"", "1}"), ("/*", "*/1"), ("{\"", "\":1}")];
            let forms = if i < 0x3000 { forms } else { &forms[..3] };
            for (a, b) in forms {
                all_modes(ch, &format!("{}{}{}", a, c, b))?;
            }
            Ok(())
        },
    ));
    let l = t.pick(5, 6);
    v.push(family(
        "tokens",
        format!("all sequences of at most {} tokens out of 16, consumed in 8 ways, strict and with comments, from &str and bytes", l),
        move |ch| {
            let toks = ["{", "}", "[", "]", ":", ",", "\"a\"", "\"\\u", "-", "1.5e2", "nul", "true", " ", "/*", "//", "\u{1F600}"];
            let mut s = String::new();
            for _ in 0..l {
                let i = ch.choose(toks.len() + 1);
                if i == 0 {
                    break;
                }
                s.push_str(toks[i - 1]);
            }
            all_modes(ch, &s)
        },
    ));
    let l = t.pick(4, 5);
    v.push(family(
        "tokens, typed",
        format!("all sequences of at most {} tokens out of 13, decoded as each of 237 types from &str and bytes", l),
        move |ch| {
            let toks = ["{", "}", "[", "]", ":", ",", "\"a\"", "\"has_value\"", "\"type\"", "300", "null", "true", "-1"];
            let mut s = String::new();
            for k in 0..l {
                let i = ch.choose(toks.len() + 1);
                if i == 0 {
                    break;
                }
                // A rejected beginning decides the outcome
                if k > 1 && matches!(parse(&chars(&s), false), Err(e) if e.at < s.chars().count()) {
                    return ch.skip();
                }
                s.push_str(toks[i - 1]);
            }
            all_types(ch, &table(), &s)
        },
    ));
    v.push(family(
        "documents, typed",
        "the fitting and wrong texts for 15 struct types and 23 values, whole and with one character cut off, replaced, inserted or removed, decoded as each of 237 types from &str and bytes",
        |ch| {
            let mut docs: Vec<String> = VALUES.iter().map(|s| s.to_string()).collect();
            docs.extend(
                [
                    "{\"has_value\":true,\"value\":{\"has_value\":true,\"value\":1}}",
                    "[true,[true,1]]",
                    "{\"type\":\"A\",\"a\":1}",
                    "[[1,2],[3,4]]",
                    "{\"a\":{\"a\":1},\"b\":[{}]}",
                    "[{\"a\":1},{\"a\":null}]",
                    "\"\\ud83d\\ude00\"",
                    "-0.0e-5",
                ]
                .map(String::from),
            );
            let mut cs = chars(ch.pick(&docs));
            let alphabet = ['{', '}', '[', ',', '"', '\\', '1', 'n', '-', 'é'];
            match ch.choose(5) {
                0 => (),
                1 => cs.truncate(ch.choose(cs.len())),
                2 => {
                    let k = ch.choose(cs.len());
                    cs[k] = *ch.pick(&alphabet);
                }
                3 => {
                    let k = ch.choose(cs.len() + 1);
                    cs.insert(k, *ch.pick(&alphabet));
                }
                _ => {
                    let k = ch.choose(cs.len());
                    cs.remove(k);
                }
            }
            let s: String = cs.into_iter().collect();
            all_types(ch, &table(), &s)
        },
    ));
    v.push(family(
        "numbers",
        "mantissas (0, 1, 9s of 1..=40 and 400 digits, with zeros before or after the point) x 29 exponents (also the extremes of 32 and 64 bits and beyond), decoded as 22 types and in 8 ways",
        |ch| {
            let table = table();
            let mant = match ch.choose(9) {
                0 => "0".to_string(),
                1 => "1".to_string(),
                2 => "9".repeat(ch.range(1, 40)),
                3 => "9".repeat(400),
                4 => format!("0.{}1", "0".repeat(ch.choose(40))),
                5 => format!("1{}.{}", "0".repeat(ch.choose(40)), "0".repeat(1 + ch.choose(3))),
                6 => format!("0.{}5", "0".repeat(400)),
                7 => format!("9{}.9", "9".repeat(19)),
                _ => "18446744073709551615".into(),
            };
            let exp = *ch.pick(&[
                "", "e0", "e1", "e-1", "e19", "e-19", "e20", "e38", "e39", "e-45", "e-46", "e308", "e309", "e-323", "e-324", "e-400", "e400", "e99999", "e-99999", "e2147483647", "e2147483648",
                "e-2147483648", "e-2147483649", "e4294967296", "e9223372036854775807", "e-9223372036854775808", "e18446744073709551616", "e-99999999999999999999999", "E+00000000000000000000000000001",
            ]);
            let sign = if ch.flip() { "-" } else { "" };
            let s = format!("{}{}{}", sign, mant, exp);
            all_types(ch, &table[..22], &s)?;
            all_modes(ch, &s)?;
            all_modes(ch, &format!("[{{\"a\":{}}}]", s))
        },
    ));
    let depth = t.pick(7, 9);
    v.push(family(
        "calls",
        format!("17 texts, well-formed and not x every correct sequence of at most {} deserializer calls (15 for values, 5 for strings, 3 for lists, 9 for objects, 2 for tuples, 3 for structs), then skipping the rest, from &str (strict) and bytes (with comments)", depth),
        move |ch| {
            let texts = [
                "{\"a\":1,\"b\":[{\"a\":\"x\"}]}",
                "{\"b\":{\"a\":[]},\"a\":null,\"\":\"on\"}",
                "[\"on\",[1],{\"a\":{}}]",
                "{\"a\":1,\"b\":[{\"a\":\"x",
                "{\"a\":{\"a\":{\"a\":1}},\"b\":",
                "[1,[2,[3",
                "{\"a\":[1}",
                "{\"a\":\"\\u00e9\\q\",\"b\":1}",
                "\"a\\\"\\ud83d\\ude00\"",
                "\"\\ud800\"",
                "[1 2]",
                "{\"a\" 1}",
                "{\"a\":1,}",
                "/*c*/[/**/null//\n,true]",
                "",
                "[-]",
                "{\"b\":tru,\"a\":0",
            ];
            let text = *ch.pick(&texts);
            let bytes = ch.flip();
            judge_calls(ch, text, depth, bytes)
        },
    ));
    v.push(family(
        "depth",
        "arrays and objects (and both by turns) nested 1, 2, 1000, 100000 and 300000 deep, complete, cut off or mismatched, x 12 ways of skipping, buffering, iterating and typed decoding that ignores them, on a stack of 192 KiB, from &str and bytes",
        |ch| {
            let n = *ch.pick(&[1, 2, 1000, 100_000, 300_000]);
            let (open, close) = *ch.pick(&[("[", "]"), ("{\"a\":", "}"), ("[{\"k\":", "}]"), ("[0,", "]"), ("{\"a\":1,\"b\":", ",\"c\":[]}"), (" [ /**/ ", "\n]")]);
            let end = ch.choose(3);
            let mut text = open.repeat(n);
            let ok = end == 0;
            match end {
                0 => {
                    text += "1";
                    text += &close.repeat(n);
                }
                1 => text += "[",
                _ => {
                    text += "1";
                    text += &close.repeat(n - 1);
                    text += "x";
                }
            }
            let way = ch.choose(12);
            let bytes = ch.flip();
            ch.note(|| format!("{:?} x {} {:?} by way {}", open, n, close, way));
            ch.state(&(n, open, end, way, bytes));
            let (text, want) = match way {
                // Typed, ignoring the deep value
                5 => (format!("{{\"a\":1,\"u\":{},\"b\":\"x\"}}", text), ok),
                6 => (format!("{{\"u\":{},\"a\":1}}", text), ok),
                7 => (format!("{{\"b\":{},\"a\":1}}", text), false),
                8 => (text, false),
                9 => (format!("[1,null,{{\"q\":{}}}]", text), false),
                10 => (format!("{{\"u\":[{},1],\"v\":{{\"u\":{}}},\"a\":1,\"b\":null}}", text, text), ok),
                _ => (text, ok),
            };
            fn run<R: TextReader>(way: usize, reader: R) -> std::result::Result<(), DeserializeError<R::Position>> {
                let mut d = TextDeserializer::new(TextDeserializerConfig::permissive(), reader)?;
                match way {
                    0 => d.skip_value()?,
                    1 => {
                        iterate(&mut d, false)?;
                    }
                    2 => {
                        iterate(&mut d, true)?;
                    }
                    3 => {
                        consume_value(Mode::SkipItems, &mut d)?;
                    }
                    4 => {
                        consume_value(Mode::ProbeSkip, &mut d)?;
                    }
                    8 => {
                        Value::with(&mut d, |v| v.get::<u8>())?;
                    }
                    11 => Value::with(&mut d, |v| v.skip())?,
                    _ => {
                        Value::with(&mut d, |v| v.get::<Target>())?;
                    }
                }
                d.close()
            }
            let got = small_stack(|| {
                let ok = if bytes { run(way, Utf8Reader::new(text.as_bytes()).unwrap()).is_ok() } else { run(way, &text[..]).is_ok() };
                if ok == want {
                    Ok(())
                } else {
                    Err(format!("accepted: {}", ok))
                }
            });
            ch.step();
            match got {
                Ok(()) => Ok(()),
                Err(e) => fail(format!("{:?} x {} {:?} by way {} (bytes {}): {}, expected accepted: {}", open, n, close, way, bytes, e, want)),
            }
        },
    ));
    v.push(family(
        "length",
        "strings, keys, numbers, whitespace, comments, lists, objects and escapes of 0..=70, 1000, 65536 and 300000 units, complete or cut off, consumed in 8 ways and as 60 types",
        |ch| {
            let i = ch.choose(74);
            let n = [1000, 65536, 300_000].get(i.wrapping_sub(71)).copied().unwrap_or(i.min(70));
            let mut s = match ch.choose(10) {
                0 => format!("\"{}\"", "a".repeat(n)),
                1 => format!("\"{}\"", "\\u00e9\\n".repeat(n)),
                2 => format!("{{\"{}\":1}}", "é".repeat(n)),
                3 => format!("1{}", "0".repeat(n)),
                4 => format!("0.{}1e{}", "0".repeat(n), "0".repeat(n.min(1000))),
                5 => format!("{}1{}", " \n\t".repeat(n), "\r".repeat(n)),
                6 => format!("/*{}*/1//{}", "*".repeat(n), "/".repeat(n)),
                7 => format!("[{}1]", "[],".repeat(n)),
                8 => format!("{{{}\"a\":1}}", (0..n.min(2000)).map(|i| format!("\"{}\":{},", i, i)).collect::<String>()),
                _ => format!("[{}1]", "{\"a\":[null,\"x\"]},".repeat(n.min(65536))),
            };
            if ch.flip() {
                s.pop();
            }
            all_modes(ch, &s)?;
            let table = table();
            if n <= 1000 {
                all_types(ch, &table[..60], &s)
            } else {
                all_types(ch, &table[..24], &s)
            }
        },
    ));
    v.push(family(
        "look-ups in long objects",
        "objects of 0..=40 and 400 entries with 3 kinds of keys, looked up in 4 orders (also missing keys), complete or cut off",
        |ch| {
            let n = match ch.choose(42) {
                41 => 400,
                n => n,
            };
            let kind = ch.choose(3);
            let key = |i: usize| match kind {
                0 => format!("k{}", i),
                1 => "k".repeat(i),
                _ => format!("{}é\n", i * i),
            };
            let mut s = String::from("{");
            for i in 0..n {
                if i > 0 {
                    s.push(',');
                }
                s += &format!("{}:{{\"k{}\":[{}]}}", quote(&key(i)), i, i);
            }
            let cut = ch.flip();
            if !cut {
                s.push('}');
            }
            let order = ch.choose(4);
            ch.state(&(n, kind, order, cut));
            let res = sut(|| {
                let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), &s[..])?;
                d.open_object()?;
                let mut found = 0;
                for j in 0..n + 1 {
                    let i = match order {
                        0 => j,
                        1 => n - j,
                        2 => (j * 7 + 3) % (n + 1),
                        _ => j ^ 1,
                    };
                    if d.try_push_entry(&key(i))? {
                        d.skip_value()?;
                        found += 1;
                    }
                }
                d.skip_object()?;
                d.close()?;
                Ok::<usize, DeserializeError<StrPosition>>(found)
            });
            ch.step();
            match res {
                Ok(r) => check!(r.is_ok() == !cut, "{} looked up in order {}: accepted: {}", clip(&s), order, r.is_ok()),
                Err(p) => return fail(format!("{} looked up in order {}: panicked: {}", clip(&s), order, p)),
            }
            Ok(())
        },
    ));
    v
}

fn main() {
    mc::main(Check {
        id: "C16",
        families,
        assumptions: &[
            "An execution that does not end within the time limit of the engine counts as a hang.",
            "Nesting within user types is not bounded here: only values that are skipped, buffered or read without recursion are nested deeply.",
            "A panic of a source reporting a failure is judged by C07.",
        ],
    })
}
