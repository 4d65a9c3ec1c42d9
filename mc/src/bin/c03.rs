//! C03: the strict parser accepts exactly RFC 8259 and decodes faithfully.

use mc::gen::*;
use mc::model::*;
use mc::walk::*;
use mc::*;

/// Consumes the document in every mode and compares with the reference.
fn judge(ch: &mut Ch, doc: &str) -> Outcome {
    let cs = chars(doc);
    let reference = parse(&cs, false);
    ch.state(doc);
    ch.outcome(&match &reference {
        Ok(v) => (0, v.node.type_name(), v.end),
        Err(e) => (1, "", e.at),
    });
    ch.note(|| format!("document {}", clip(doc)));
    let tree = reference.as_ref().ok().map(|v| v.tree());
    let lenient = reference.as_ref().map(huge).unwrap_or(false);
    for mode in MODES {
        compare(ch, doc, mode, &reference, &tree, lenient)?;
    }
    for (how, got) in no_panic(|| format!("{} by the functions for whole documents", clip(doc)), || by_default(doc))? {
        ch.step();
        match (&tree, got) {
            (Some(t), Ok(r)) => check!(r == *t, "{} by {}: decoded as {:?}, denotes {:?}", clip(doc), how, r, t),
            (Some(_), Err(e)) => check!(lenient, "{} by {}: a valid document is rejected: {}", clip(doc), how, e),
            (None, Ok(r)) => return fail(format!("{} by {}: not a JSON text, but accepted as {:?}", clip(doc), how, r)),
            (None, Err(_)) => (),
        }
    }
    // Every key looked up, last entry first
    if let (Ok(v), Some(t)) = (&reference, &tree) {
        if matches!(v.node, Node::Obj(_) | Node::Arr(_)) && !lenient && distinct_keys(t) {
            let got = no_panic(
                || format!("{} with keys looked up in reverse", clip(doc)),
                || {
                    let mut d = serdere_json::TextDeserializer::new(config(false), doc)?;
                    let r = lookup_walk(&mut d, t, &|n| (0..n).rev().collect())?;
                    d.close()?;
                    Ok::<_, serdere_json::DeserializeError<_>>(r)
                },
            )?;
            ch.step();
            match got {
                Ok(r) => check!(r == *t, "{} with keys looked up in reverse: decoded {:?}, denotes {:?}", clip(doc), r, t),
                Err(e) => return fail(format!("{} with keys looked up in reverse: valid, but rejected: {}", clip(doc), e.message())),
            }
        }
    }
    Ok(())
}

fn compare(
    ch: &mut Ch,
    doc: &str,
    mode: Mode,
    reference: &Result<Val, Syn>,
    tree: &Option<Tree>,
    lenient: bool,
) -> Outcome {
    let got = no_panic(|| format!("{} in mode {:?}", clip(doc), mode), || consume(mode, false, doc))?;
    ch.step();
    match (reference, got) {
        (Ok(_), Ok(None)) => {
            check!(!mode.full(), "no tree");
            Ok(())
        }
        (Ok(_), Ok(Some(t))) => {
            check!(Some(&t) == tree.as_ref(), "{} in mode {:?}: decoded as {:?}, denotes {:?}", clip(doc), mode, t, tree);
            Ok(())
        }
        (Ok(_), Err(e)) => {
            if lenient {
                return Ok(());
            }
            fail(format!("{} in mode {:?}: a valid document is rejected: {}", clip(doc), mode, e.message()))
        }
        (Err(s), Ok(t)) => fail(format!(
            "{} in mode {:?}: not a JSON text (character {}), but accepted as {:?}",
            clip(doc), mode, s.at, t
        )),
        (Err(_), Err(_)) => Ok(()),
    }
}

/// Has a number that may be rejected (exponent beyond 32 bits, or infinite as float).
fn huge(v: &Val) -> bool {
    match &v.node {
        Node::Num(s) => !decimal(s).map(|d| d.fits).unwrap_or(false) || !s.parse::<f64>().unwrap().is_finite(),
        Node::Arr(a) => a.iter().any(huge),
        Node::Obj(o) => o.iter().any(|(_, v)| huge(v)),
        _ => false,
    }
}

fn distinct_keys(t: &Tree) -> bool {
    match t {
        Tree::Arr(a) => a.iter().all(distinct_keys),
        Tree::Obj(o) => {
            let mut keys: Vec<&str> = o.iter().map(|(k, _)| k.as_str()).collect();
            keys.sort_unstable();
            keys.windows(2).all(|w| w[0] != w[1]) && o.iter().all(|(_, v)| distinct_keys(v))
        }
        _ => true,
    }
}

/// Sequences over `alphabet`, at most `len` long, extended at most `beyond` elements past the
/// first character that cannot continue any JSON text.
fn sequences(ch: &mut Ch, alphabet: &[&str], len: usize, beyond: usize) -> String {
    let mut doc = String::new();
    let mut cs: Vec<char> = Vec::new();
    let mut dead: Option<usize> = None;
    for n in 0..len {
        let c = ch.choose(alphabet.len() + 1);
        if c == 0 {
            break;
        }
        doc.push_str(alphabet[c - 1]);
        cs.extend(alphabet[c - 1].chars());
        if dead.is_none() {
            if let Err(e) = parse(&cs, false) {
                if e.at < cs.len() {
                    dead = Some(n);
                }
            }
        }
        if let Some(d) = dead {
            if n - d >= beyond {
                break;
            }
        }
    }
    doc
}

const VALID: &[&str] = &[
    "null", "true", "false", "0", "-0", "10", "-1.5", "1e5", "0.25E-2", "1.0e+10", "\"\"", "\"a\"",
    "\"\\\"\\\\\\/\\b\\f\\n\\r\\t\"", "\"\\u0041\\uD83D\\uDE00\"", "\"\\u00e9é\u{1F600}\"", "[]", "{}", "[1]", "[1,2]",
    "[[],{}]", "[null,true,false]", "[\"a\",\"b\"]", "{\"a\":1}", "{\"a\":1,\"b\":2}", "{\"a\":{\"b\":[1,{}]}}",
    "{\"\":0}", "{\"a\":[],\"b\":{}}", "{\"a\":null,\"b\":\"\\u0062\"}", "{\"\\u0061\\n\":-0.0e-0}", "[[[[]]]]",
    " [ 1 , 2 ] ", "\n{\t\"a\" :\r1 , \"b\": [ ] }\n", "{\"a\":[1,[2,{\"b\":3}],4],\"c\":\"x\"}", "{\"a\":1.5,\"b\":-2e3}",
    "{\"a\":true,\"b\":false,\"c\":null}", "[{\"a\":1},{\"b\":2}]", "{\"a\":\"\",\"b\":\"\\\"\"}",
];

const EDIT: &[char] = &[
    '{', '}', '[', ']', ':', ',', '"', '\\', '/', '0', '1', '9', '-', '+', '.', 'e', 'E', 'a', 'b', 'n', 'u', 'l', 't',
    'r', 'f', 's', ' ', '\n', '\t', '\r', '\u{b}', '\u{c}', '\0', '\u{1f}', '\u{7f}', '\u{a0}', '\u{feff}', '*', '#', '\'', 'N', 'x', 'D', '8',
];

const TEMPLATES: &[&str] = &[
    "§", "§1", "1§", "[§1]", "[1§]", "[1§,2]", "[1,§2]", "[§]", "{§}", "{§\"a\":1}", "{\"a\"§:1}", "{\"a\":§1}", "{\"a\":1§}",
    "{\"a\":1§,\"b\":2}", "{\"a\":1,§\"b\":2}", "\"x§y\"", "{\"k§\":1}", "-§1", "1.§5", "1e§5", "1e-§5", "tr§ue", "nul§", "\"\\§\"",
    "\"\\u00§1\"", "\"\\uD83§\\uDE00\"", "[]§", "{}§", "\"\"§", "{\"a\":[1§{}]}", "{\"a\":\"\\§\",\"b\":0}",
];

fn sized(kind: usize, n: usize) -> String {
    let rep = |s: &str, n: usize| s.repeat(n);
    match kind {
        0 => format!("{}{}", rep("[", n), rep("]", n)),
        1 => format!("{}0{}", rep("{\"a\":", n), rep("}", n)),
        2 => format!("[{}]", vec!["0"; n].join(",")),
        3 => format!("{{{}}}", (0..n).map(|i| format!("\"k{}\":{}", i, i)).collect::<Vec<_>>().join(",")),
        4 => format!("\"{}\"", rep("s", n)),
        5 => format!("{{\"{}\":1,\"b\":2}}", rep("k", n)),
        6 => format!("[{}1]", rep(" ", n)),
        7 => format!("1{}", rep("0", n.min(300))),
        8 => format!("0.{}1", rep("0", n)),
        9 => format!("[{}]", rep("[],", n) + "{}"),
        10 => format!("{{\"a\":\"{}\",\"b\":[{}0]}}", rep("\\n", n), rep("\"é\",", n)),
        11 => format!("{}{{\"a\":1,\"b\":[2]}}{}", rep("[{\"x\":", n), rep("}]", n)),
        12 => format!("{{\"a\":{}1{},\"b\":2}}", rep("[", n), rep("]", n)),
        13 => format!("{{\"a\":{{\"{0}\":[{{\"{0}\":1,\"b\":0}}],\"b\":{{\"c\":0,\"{0}\":\"x\"}}}},\"b\":2}}", rep("k", n)),
        14 => format!("{{\"a\":[{{\"\":0,\"{0}\":{{\"{0}\":\"{0}\"}}}},1.{1}5],\"b\":2}}", rep("é", n), rep("0", n)),
        15 => format!("{{\"a\":{{{}\"z\":[{{}}]}},\"b\":2}}", (0..n).map(|i| format!("\"k{}\":{},", i, i)).collect::<String>()),
        16 => format!("{{\"a\":[{}{{\"z\":[]}}],\"b\":2}}", (0..n).map(|i| format!("{{\"k\":{}}},", i)).collect::<String>()),
        _ => format!("{{\"a\":{{{0}\"x\"{0}:{0}[{0}{{{0}}}{0},{0}[{0}]{0}]{0},{0}\"y\"{0}:{0}null{0}}}{0},{0}\"b\":2}}", rep(" ", n)),
    }
}
const SIZED: usize = 18;

fn families(t: Tier) -> Vec<Family> {
    let mut v = Vec::new();

    let tokens: &'static [&'static str] =
        &["{", "}", "[", "]", ":", ",", "\"a\"", "\"b\"", "0", "-1.5e1", "true", "null"];
    let (len, beyond) = t.pick((8, 2), (11, 2));
    v.push(family(
        "tokens",
        format!("token sequences over {:?}, at most {} tokens, ended {} tokens after becoming ungrammatical, 9 ways of consuming", tokens, len, beyond),
        move |ch| {
            let doc = sequences(ch, tokens, len, beyond);
            judge(ch, &doc)
        },
    ));

    let (len, beyond) = t.pick((6, 2), (8, 2));
    let sp: &'static [&'static str] = &["{", "}", "[", "]", ":", ",", "\"", "\\", "0", "-", ".", "e", " ", "n", "/", "1"];
    v.push(family(
        "characters",
        format!("character sequences over {:?}, at most {} long, ended {} characters after becoming ungrammatical", sp, len, beyond),
        move |ch| {
            let doc = sequences(ch, sp, len, beyond);
            judge(ch, &doc)
        },
    ));

    let len = t.pick(7, 9);
    v.push(family(
        "number grammar",
        format!("strings over \"01-+.eE9\" of length <= {} as document, list item, entry value before and after other entries", len),
        move |ch| {
            let n: &[&str] = &["0", "1", "-", "+", ".", "e", "E", "9"];
            let mut s = String::new();
            let mut dead = 0;
            for _ in 0..len {
                let c = ch.choose(n.len() + 1);
                if c == 0 {
                    break;
                }
                s.push_str(n[c - 1]);
                if matches!(parse(&chars(&s), false), Err(e) if e.at < s.len()) {
                    dead += 1;
                    if dead > 2 {
                        break;
                    }
                }
            }
            for doc in [s.clone(), format!("[{}]", s), format!("[{},1]", s), format!("{{\"a\":{}}}", s), format!("{{\"a\":{},\"b\":1}}", s)] {
                judge(ch, &doc)?;
            }
            Ok(())
        },
    ));

    v.push(family(
        "next characters",
        format!("{} tokens directly followed by every ASCII character and 8 others, in 9 surroundings", TOKENS.len()),
        |ch| {
            let tok = *ch.pick(&TOKENS);
            let next = followers();
            let c = *ch.pick(&next);
            for (a, b) in AROUND {
                judge(ch, &format!("{}{}{}{}", a, tok, c, b))?;
            }
            Ok(())
        },
    ));

    let len = t.pick(10, 13);
    v.push(family(
        "words",
        format!("strings over the letters of the literals and separators, at most {} long, ended 1 character after becoming ungrammatical", len),
        move |ch| {
            let a: &[&str] = &["n", "u", "l", "t", "r", "e", "f", "a", "s", "N", ",", " ", "]"];
            let mut doc = String::from(*ch.pick(&["", "[", "{\"a\":"]));
            doc.push_str(&sequences_after(ch, &doc, a, len, 1));
            judge(ch, &doc)
        },
    ));

    let len = t.pick(6, 8);
    v.push(family(
        "escapes",
        format!("strings made of at most {} escape fragments, as value and as key", len),
        move |ch| {
            let a: &[&str] = &["\\", "u", "\\u", "00", "D8", "DC", "dF", "3", "n", "\"", "g", "E9", "/"];
            let mut s = String::new();
            for _ in 0..len {
                let c = ch.choose(a.len() + 1);
                if c == 0 {
                    break;
                }
                s.push_str(a[c - 1]);
                if matches!(parse(&chars(&format!("\"{}", s)), false), Err(e) if e.at < s.chars().count() + 1) {
                    break;
                }
            }
            for doc in [format!("\"{}\"", s), format!("{{\"{}\":1,\"zz\":2}}", s), format!("{{\"q\":\"{}\",\"zz\":2}}", s)] {
                judge(ch, &doc)?;
            }
            Ok(())
        },
    ));

    v.push(family(
        "unicode escapes",
        "every \\uXXXX unit in both cases, alone, followed by every representative second unit, and cut after any digit",
        move |ch| {
            let u = ch.choose(0x10000);
            let upper = ch.flip();
            let unit = if upper { format!("\\u{:04X}", u) } else { format!("\\u{:04x}", u) };
            let second = *ch.pick(&["", "\\uDC00", "\\uDFFF", "\\uD800", "\\uDBFF", "\\uE000", "\\u0041", "x", "\\n", "\\u", "\\uDC0", "\\uDC0g", "\\", "uDC00"]);
            for doc in [format!("\"{}{}\"", unit, second), format!("{{\"{}{}\":0}}", unit, second)] {
                judge(ch, &doc)?;
            }
            if second.is_empty() {
                for n in 1..unit.len() {
                    judge(ch, &format!("\"{}\"", &unit[..n]))?;
                    judge(ch, &format!("\"{}", &unit[..n]))?;
                }
            }
            Ok(())
        },
    ));

    v.push(family(
        "edits",
        format!("{} documents x every position x delete / insert / replace / duplicate / swap with {} characters{}", VALID.len(), EDIT.len(), t.pick("", ", twice")),
        move |ch| {
            let mut doc = chars(ch.pick(VALID));
            for round in 0..t.pick(1, 2) {
                if round == 1 && doc.len() > 14 {
                    break;
                }
                let pos = ch.choose(doc.len() + 1);
                match ch.choose(6) {
                    0 => (),
                    1 => {
                        doc.insert(pos, *ch.pick(EDIT));
                    }
                    2 if pos < doc.len() => {
                        doc[pos] = *ch.pick(EDIT);
                    }
                    3 if pos < doc.len() => {
                        doc.remove(pos);
                    }
                    4 if pos + 1 < doc.len() => doc.swap(pos, pos + 1),
                    5 => doc.truncate(pos),
                    _ => return ch.skip(),
                }
            }
            let doc: String = doc.into_iter().collect();
            judge(ch, &doc)
        },
    ));

    v.push(family(
        "scalars",
        format!("every Unicode scalar value at {} places of a document", TEMPLATES.len()),
        move |ch| {
            let t = *ch.pick(TEMPLATES);
            let Some(c) = char::from_u32(ch.choose(0x110000) as u32) else { return ch.skip() };
            judge(ch, &t.replace('§', c.encode_utf8(&mut [0; 4])))
        },
    ));

    v.push(family(
        "trees",
        format!("all trees of at most {} nodes with keys from a set of three (repetitions included), in three spacings", t.pick(6, 8)),
        move |ch| {
            let sp = *ch.pick(&["", " ", "\r\n\t"]);
            let mut budget = t.pick(6, 8);
            let mut doc = String::new();
            tree(ch, &mut budget, sp, &mut doc);
            judge(ch, &doc)
        },
    ));

    let sizes: Vec<usize> = (0..t.pick(300, 1200))
        .chain(t.pick(vec![511, 512, 1000, 1023, 1024, 4096, 65535, 65536, 65537], vec![2047, 2048, 4095, 4096, 4097, 8192, 16384, 20000, 65534, 65535, 65536, 65537, 70000, 200000]))
        .collect();
    v.push(family(
        "sizes",
        format!("{} shapes (nesting, items, entries, string and key lengths, blanks, digits) x {} sizes up to {}, intact, cut by one character, one closer too many, last closer exchanged", SIZED, sizes.len(), sizes.iter().max().unwrap()),
        move |ch| {
            let kind = ch.choose(SIZED);
            let n = *ch.pick(&sizes);
            let mut doc = sized(kind, n);
            let deep = matches!(kind, 0 | 1 | 11 | 12) && n > 1200;
            if deep && n > 66000 {
                return ch.skip(); // nesting beyond this is covered by C16 with iterative consumers
            }
            match ch.choose(4) {
                0 => (),
                1 => {
                    doc.pop();
                }
                2 => doc.push(']'),
                _ => {
                    let Some(c) = doc.pop() else { return ch.skip() };
                    doc.push(if c == ']' { '}' } else { ']' });
                }
            }
            on_big_stack(if deep { 1 << 30 } else { 32 << 20 }, || judge(ch, &doc))
        },
    ));
    v
}

/// The reference parser and the harness' consumers recurse; the code under test is judged on its
/// own stack use by C16.
fn on_big_stack<R: Send>(size: usize, f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(size).spawn_scoped(s, f).unwrap().join())
        .unwrap_or_else(|p| std::panic::resume_unwind(p))
}

fn sequences_after(ch: &mut Ch, prefix: &str, alphabet: &[&str], len: usize, beyond: usize) -> String {
    let mut doc = String::new();
    let mut cs = chars(prefix);
    let mut over = 0;
    for _ in 0..len {
        let c = ch.choose(alphabet.len() + 1);
        if c == 0 {
            break;
        }
        doc.push_str(alphabet[c - 1]);
        cs.extend(alphabet[c - 1].chars());
        if matches!(parse(&cs, false), Err(e) if e.at < cs.len()) {
            over += 1;
            if over > beyond {
                break;
            }
        }
    }
    doc
}

fn tree(ch: &mut Ch, budget: &mut usize, sp: &str, out: &mut String) {
    *budget -= 1;
    let kinds = if *budget > 0 { 5 } else { 3 };
    match ch.choose(kinds) {
        0 => out.push('7'),
        1 => out.push_str("\"s\""),
        2 => out.push_str("[]"),
        k => {
            let obj = k == 3;
            out.push(if obj { '{' } else { '[' });
            out.push_str(sp);
            let mut n = 0;
            loop {
                if n > 0 && (*budget == 0 || !ch.flip()) {
                    break;
                }
                if n > 0 {
                    out.push(',');
                    out.push_str(sp);
                }
                if obj {
                    out.push_str(ch.pick(&["\"a\"", "\"ab\"", "\"\""]));
                    out.push_str(sp);
                    out.push(':');
                    out.push_str(sp);
                }
                tree(ch, budget, sp, out);
                out.push_str(sp);
                n += 1;
            }
            out.push(if obj { '}' } else { ']' });
        }
    }
}

fn main() {
    mc::main(Check {
        id: "C03",
        families,
        assumptions: &[
            "Reference: hand-written RFC 8259 parser (mc/src/model.rs); floats of trees compared by the standard library's correctly rounding parser.",
            "Literals whose exponent does not fit in 32 bits, or which are infinite as f64, may be rejected or decoded.",
        ],
    })
}
