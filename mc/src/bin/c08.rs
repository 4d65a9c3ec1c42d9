//! C08: decoding does not depend on the kind of text source.

use mc::gen::*;
use mc::model::*;
use mc::readers::*;
use mc::walk::*;
use mc::*;
use serdere::*;
use serdere_json::*;

/// The value or the error message and the character offset or (line, column) of the error.
type Res<P> = Result<String, (String, P)>;

/// A way of decoding a document, generic over the source.
trait Script {
    fn run<R: TextReader>(&self, reader: R) -> Result<String, DeserializeError<R::Position>>;
    fn name(&self) -> String;
}

struct Consume(Mode, bool);

impl Script for Consume {
    fn run<R: TextReader>(&self, reader: R) -> Result<String, DeserializeError<R::Position>> {
        consume(self.0, self.1, reader).map(|t| format!("{:?}", t))
    }
    fn name(&self) -> String {
        format!("{:?} (comments {})", self.0, self.1)
    }
}

#[derive(Debug, Deserialize, PartialEq)]
struct Rec {
    a: u8,
    b: Option<String>,
    c: Vec<(bool, char)>,
}

#[derive(Debug, Deserialize, PartialEq)]
enum Kind {
    #[serde(reindex = 0)]
    A,
    #[serde(reindex = 1)]
    B { x: i8 },
}

#[derive(Debug, Deserialize, PartialEq)]
enum Unit {
    A,
    Bé,
}

struct Typed(usize);
const TYPES: usize = 9;

impl Script for Typed {
    fn run<R: TextReader>(&self, reader: R) -> Result<String, DeserializeError<R::Position>> {
        fn go<R: TextReader, T: Deserialize<TextDeserializer<R>> + std::fmt::Debug>(r: R) -> Result<String, DeserializeError<R::Position>> {
            from_reader::<R, T>(r).map(|x| format!("{:?}", x))
        }
        match self.0 {
            0 => go::<R, Rec>(reader),
            1 => go::<R, Kind>(reader),
            2 => go::<R, Unit>(reader),
            3 => go::<R, Vec<Vec<u8>>>(reader),
            4 => go::<R, (u8, Option<f32>, String)>(reader),
            5 => go::<R, [char; 2]>(reader),
            6 => go::<R, Option<Option<bool>>>(reader),
            7 => go::<R, std::num::NonZeroI8>(reader),
            _ => go::<R, ()>(reader),
        }
    }
    fn name(&self) -> String {
        format!("type {}", self.0)
    }
}

fn compare(ch: &mut Ch, text: &str, script: &impl Script) -> Outcome {
    fn get<R: TextReader>(script: &impl Script, reader: R) -> Res<R::Position> {
        script.run(reader).map_err(|e| (format!("{:?}", e.message()), e.position().clone()))
    }
    let cs = chars(text);
    let what = |src: &str| format!("{} by {} from {}", clip(text), script.name(), src);
    // Each source may only be observed through values and errors; a panic is compared, too
    let a = sut(|| get(script, text)).map(|r| r.map_err(|(m, p)| (m, str_offset(text, &p))));
    let b = sut(|| get(script, CharReader::new(&cs)));
    let c = sut(|| get(script, Utf8Reader::new(text.as_bytes()).expect("first character")));
    ch.step();
    let lc = line_columns(&cs);
    let (a, b, c) = match (a, b, c) {
        (Ok(a), Ok(b), Ok(c)) => (a, b, c),
        (a, b, c) => {
            return fail(format!("{}: panicked: {:?} / plain characters {:?} / bytes {:?}", what("any source"), a, b, c));
        }
    };
    check!(a == b, "{}: {:?}, from plain characters {:?}", what("&str"), a, b);
    let c2 = c.as_ref().map_err(|(m, p)| (m.clone(), (p.line, p.column))).cloned();
    let want = b.map_err(|(m, p)| (m, lc[p]));
    ch.outcome(&format!("{:?}", want.as_ref().map_err(|e| &e.0)));
    check!(c2 == want, "{}: {:?}, from plain characters {:?}", what("bytes"), c2, want);
    Ok(())
}

fn all_modes(ch: &mut Ch, text: &str) -> Outcome {
    ch.note(|| format!("document {}", clip(text)));
    ch.state(text);
    for mode in MODES {
        for comments in [false, true] {
            compare(ch, text, &Consume(mode, comments))?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// The reader operations

#[derive(Clone, Copy, Debug)]
enum Op {
    Next,
    Peek,
    /// Exact match of the next n characters.
    Match(usize),
    /// Exact match of something that differs in the n-th character / is longer than the text.
    Mismatch(usize),
    /// Until the next character equal to the given one, until the n-th character.
    Until(char),
    Count(usize),
}

/// Performs the operations on a reader; the log has one line for each of them.
fn operate<R: TextReader>(mut r: R, ops: &[Op], text: &[char]) -> (Vec<String>, Vec<R::Position>) {
    let mut log = Vec::new();
    let mut pos = vec![r.position()];
    // Where the reader must be, to make matching arguments
    let mut at = 0;
    for op in ops {
        match *op {
            Op::Next => {
                log.push(format!("{:?}", r.next()));
                at = (at + 1).min(text.len());
            }
            Op::Peek => log.push(format!("{:?}", r.peek())),
            Op::Match(n) => {
                let n = n.min(text.len() - at);
                let s: String = text[at..at + n].iter().collect();
                log.push(format!("{}", r.read_exact(&s)));
                at += n;
            }
            Op::Mismatch(n) => {
                let n = n.min(text.len() - at);
                let mut s: String = text[at..at + n].iter().collect();
                s.push(match text.get(at + n) {
                    Some('x') => 'y',
                    _ => 'x',
                });
                log.push(format!("{}", r.read_exact(&s)));
                // Undefined position from here on
                return (log, pos);
            }
            Op::Until(c) => {
                let res = r.read_until(|x| if x == c { Some(x as u32) } else { None });
                log.push(format!("{:?}", res));
                let found = text[at..].iter().position(|x| *x == c);
                match found {
                    Some(i) => at += i + 1,
                    None => at = text.len(),
                }
            }
            Op::Count(n) => {
                let mut k = 0;
                let res = r.read_until(|x| {
                    k += 1;
                    if k > n { Some(x) } else { None }
                });
                log.push(format!("{:?}", res));
                at = (at + n + 1).min(text.len());
            }
        }
        pos.push(r.position());
    }
    (log, pos)
}

/// What the plain character sequence says.
fn reference(ops: &[Op], text: &[char]) -> (Vec<String>, Vec<usize>) {
    let mut log = Vec::new();
    let mut at = 0;
    let mut pos = vec![0];
    for op in ops {
        match *op {
            Op::Next => {
                log.push(format!("{:?}", text.get(at)));
                at = (at + 1).min(text.len());
            }
            Op::Peek => log.push(format!("{:?}", text.get(at))),
            Op::Match(n) => {
                log.push("true".into());
                at += n.min(text.len() - at);
            }
            Op::Mismatch(_) => {
                log.push("false".into());
                return (log, pos);
            }
            Op::Until(c) => match text[at..].iter().position(|x| *x == c) {
                Some(i) => {
                    log.push(format!("{:?}", Some((text[at..at + i].iter().collect::<String>(), c as u32))));
                    at += i + 1;
                }
                None => {
                    log.push("None".into());
                    at = text.len();
                }
            },
            Op::Count(n) => {
                if at + n < text.len() {
                    log.push(format!("{:?}", Some((text[at..at + n].iter().collect::<String>(), text[at + n]))));
                    at += n + 1;
                } else {
                    log.push("None".into());
                    at = text.len();
                }
            }
        }
        pos.push(at);
    }
    (log, pos)
}

/// The positions of one reader must compare as the offsets do (`strict`: only equal for equal
/// offsets).
fn ordered<P: Ord + std::fmt::Debug>(p: &[P], pos: &[usize], strict: bool) -> Result<(), String> {
    for (a, i) in p.iter().zip(pos) {
        for (b, j) in p.iter().zip(pos) {
            let (o, want) = (a.cmp(b), i.cmp(j));
            let same = o == want || !strict && want.is_ne() && o.is_eq();
            if !same || a.partial_cmp(b) != Some(o) || (a == b) != o.is_eq() {
                return Err(format!("the positions {:?} and {:?} of the characters {} and {} compare as {:?}", a, b, i, j, o));
            }
        }
    }
    Ok(())
}

fn judge_ops(ch: &mut Ch, text: &[char], ops: &[Op]) -> Outcome {
    let s: String = text.iter().collect();
    ch.note(|| format!("text {:?}, operations {:?}", s, ops));
    let (log, pos) = reference(ops, text);
    ch.state(&(&s[..], format!("{:?}", ops)));
    let what = || format!("{:?} under {:?}", s, ops);
    let (l, p) = no_panic(|| format!("{} on &str", what()), || operate(&s[..], ops, text))?;
    ordered(&p, &pos, true).map_err(|e| Fail { key: None, msg: format!("{} on &str: {}", what(), e) })?;
    let p: Vec<usize> = p.iter().map(|p| str_offset(&s, p)).collect();
    ch.step();
    check!(l == log && p == pos, "{} on &str: {:?} at {:?}, expected {:?} at {:?}", what(), l, p, log, pos);
    let (l, p) = no_panic(|| format!("{} on plain characters", what()), || operate(CharReader::new(text), ops, text))?;
    check!(l == log && p == pos, "{} on plain characters: {:?} at {:?}, expected {:?} at {:?}", what(), l, p, log, pos);
    let (l, p) = no_panic(|| format!("{} on bytes", what()), || operate(Utf8Reader::new(s.as_bytes()).unwrap(), ops, text))?;
    ordered(&p, &pos, false).map_err(|e| Fail { key: None, msg: format!("{} on bytes: {}", what(), e) })?;
    for p in &p {
        let shown = p.to_string();
        let numbers: Vec<usize> = shown.split(|c: char| !c.is_ascii_digit()).filter_map(|n| n.parse().ok()).collect();
        check!(numbers == [p.line + 1, p.column + 1], "{} on bytes: {:?} is shown as {:?}", what(), p, shown);
    }
    let p: Vec<(usize, usize)> = p.iter().map(|p| (p.line, p.column)).collect();
    let lc = line_columns(text);
    let want: Vec<(usize, usize)> = pos.iter().map(|p| lc[*p]).collect();
    check!(l == log && p == want, "{} on bytes: {:?} at {:?}, expected {:?} at {:?}", what(), l, p, log, want);
    Ok(())
}

fn typed_docs() -> Vec<String> {
    let mut v: Vec<String> = [
        "{\"a\":1,\"b\":\"x\",\"c\":[[true,\"y\"]]}",
        "{\"c\":[],\n\t\"a\":7}",
        "{\"c\":[[true,\"é\"],\n[false,\"\\u00e9\"]],\"zz\":{\"q\":[1,2]},\"b\":null,\"a\":255}",
        "{\"c\":[[true,\"yy\"]],\n\"a\":1}",
        "{\"c\":[[true]],\"a\":1}",
        "{\"c\":[[true,\"y\",1]],\"a\":1}",
        "{\"c\":[],\"a\":256}",
        "{\"c\":[],\"a\":-1}",
        "{\"c\":[],\"a\":\"é\"}",
        "{\r\n\"a\":1}",
        "[1,null,[]]",
        "[1,null]",
        "[1,null,[],4]",
        "[\n1,\t\"z\" ,[[true,\"q\"]]]",
        "\"A\"",
        "\"Bé\"",
        "\"B\\u00e9\"",
        "\"C\"",
        "0",
        "1",
        "2",
        "-1",
        "{\"type\":\"A\"}",
        "{\"type\":\"B\",\"x\":-128}",
        "{\"x\":3,\"type\":1}",
        "{\"x\":3,\"type\":7}",
        "{\"x\":300,\n\"type\":\"B\"}",
        "{\"x\":3}",
        "{\"type\":\"B\"}",
        "[\"A\"]",
        "[1,5]",
        "[[1,2],[],[255]]",
        "[[1,2],[256]]",
        "[[1,2],3]",
        "[1,2.5,\"é\"]",
        "[1,null,\"\\ud83d\\ude00\"]",
        "[\"a\",\"é\"]",
        "[\"a\",\"éé\"]",
        "[\"a\"]",
        "[\"a\",\"b\",\"c\"]",
        "{\"has_value\":true,\"value\":null}",
        "{\"value\":true,\"has_value\":true}",
        "{\"has_value\":false}",
        "{\"has_value\":true}",
        "null",
        "true",
        "{}",
        "[]",
        "5",
        "-5.0",
        "127.5",
        "0.0",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    // With leading lines and columns that matter for the byte reader
    let more: Vec<String> = v.iter().map(|s| format!("\n\t \r{}", s)).collect();
    v.extend(more);
    v
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = Vec::new();
    let (tl, ol) = t.pick((4, 3), (5, 3));
    v.push(family(
        "reader operations",
        format!("all texts of at most {} characters over \"a x \\t \\n \\r é 😀\" x all sequences of at most {} operations out of 11 (next, peek, exact matches and mismatches, read-until) on the 3 kinds of reader", tl, ol),
        move |ch| {
            let a = ['a', 'x', '\t', '\n', '\r', 'é', '😀'];
            let mut text = Vec::new();
            for _ in 0..tl {
                let i = ch.choose(a.len() + 1);
                if i == 0 {
                    break;
                }
                text.push(a[i - 1]);
            }
            let ops = [
                Op::Next, Op::Peek, Op::Match(0), Op::Match(1), Op::Match(2), Op::Mismatch(0), Op::Mismatch(1), Op::Until('\n'), Op::Until('é'), Op::Count(0), Op::Count(1),
            ];
            let mut seq = Vec::new();
            for _ in 0..ol {
                let i = ch.choose(ops.len() + 1);
                if i == 0 {
                    break;
                }
                seq.push(ops[i - 1]);
                if matches!(ops[i - 1], Op::Mismatch(_)) {
                    break;
                }
            }
            judge_ops(ch, &text, &seq)
        },
    ));
    let l2 = t.pick(6, 7);
    v.push(family(
        "reader operation histories",
        format!("6 texts x all sequences of at most {} operations out of 7", l2),
        move |ch| {
            let texts = ["a\té\n\rx😀", "\t\t\n\t", "xa\r\nyé", "", "😀", "\n\n\n"];
            let text = chars(*ch.pick(&texts));
            let ops = [Op::Next, Op::Peek, Op::Match(1), Op::Match(3), Op::Until('\n'), Op::Until('q'), Op::Count(2)];
            let mut seq = Vec::new();
            for _ in 0..l2 {
                let i = ch.choose(ops.len() + 1);
                if i == 0 {
                    break;
                }
                seq.push(ops[i - 1]);
            }
            judge_ops(ch, &text, &seq)
        },
    ));
    v.push(family(
        "columns of every character",
        "every scalar value: next, peek, exact match and read-until over it, and the column after it",
        move |ch| {
            let scalars: usize = 0x110000 - 0x800;
            let hi = ch.choose(scalars.div_ceil(64));
            let i = hi * 64 + ch.choose(64.min(scalars - hi * 64));
            let c = char::from_u32(if i < 0xD800 { i as u32 } else { i as u32 + 0x800 }).unwrap();
            let text = [' ', c, 'z'];
            judge_ops(ch, &text, &[Op::Next, Op::Peek, Op::Match(1), Op::Next])?;
            judge_ops(ch, &text, &[Op::Until('z'), Op::Next])?;
            if c != 'z' {
                judge_ops(ch, &text, &[Op::Until(c), Op::Peek])?;
            }
            Ok(())
        },
    ));
    let cl = t.pick(5, 6);
    v.push(family(
        "character sequences",
        format!("all documents of at most {} characters over 15 sharp characters, consumed in 8 ways, strict and permissive", cl),
        move |ch| {
            let a = ['{', '}', '[', ']', ':', ',', '"', '\\', 'n', '1', '-', '.', '/', '\n', 'é'];
            let mut s = String::new();
            for _ in 0..cl {
                let i = ch.choose(a.len() + 1);
                if i == 0 {
                    break;
                }
                s.push(a[i - 1]);
            }
            all_modes(ch, &s)
        },
    ));
    let kl = t.pick(6, 7);
    v.push(family(
        "token sequences",
        format!("all sequences of at most {} tokens out of 13 (brackets, separators, strings, keys, numbers, literals, comments, broken tokens) whose proper prefixes are not yet rejected, consumed in 8 ways, strict and permissive", kl),
        move |ch| {
            let toks = ["{", "}", "[", "]", ":", ",", "\"é\\n\"", "\"b\"", "-1.5e2", "nul", "true", "\n\t// c\r\n", "\u{1F600}"];
            let mut s = String::new();
            for _ in 0..kl {
                let i = ch.choose(toks.len() + 1);
                if i == 0 {
                    break;
                }
                // A rejected prefix decides the outcome: only one more token after it
                let dead = matches!(parse(&chars(&s), true), Err(e) if e.at < chars(&s).len());
                s.push_str(toks[i - 1]);
                if dead {
                    break;
                }
            }
            all_modes(ch, &s)
        },
    ));
    v.push(family(
        "truncations and mutations",
        "4 documents (thorough: with two mutations), every prefix and every replacement, insertion or deletion of one character out of 14, consumed in 8 ways, strict and permissive",
        move |ch| {
            let docs = [
                "{\"a\": [1, -2.5e+3, null],\n\t\"é\": {\"\\u00e9\": \"x\\\\\"}}",
                "[[], {}, \"\\ud83d\\ude00\", true, false]",
                " /* c */ [1, // d\r\n 2]",
                "{\"k\":\"v\",\"k\":{\"k\":[\"v\"]}}\n",
            ];
            let mut cs = chars(*ch.pick(&docs));
            let alphabet = ['{', '}', '[', ']', ':', ',', '"', '\\', 'u', '1', '\n', '/', 'é', '\u{1}'];
            let times = t.pick(1, 2);
            for _ in 0..times {
                match ch.choose(4) {
                    0 => {
                        let k = ch.choose(cs.len() + 1);
                        cs.truncate(k);
                    }
                    1 if !cs.is_empty() => {
                        let k = ch.choose(cs.len());
                        cs[k] = *ch.pick(&alphabet);
                    }
                    2 => {
                        let k = ch.choose(cs.len() + 1);
                        cs.insert(k, *ch.pick(&alphabet));
                    }
                    _ if !cs.is_empty() => {
                        let k = ch.choose(cs.len());
                        cs.remove(k);
                    }
                    _ => return ch.skip(),
                }
            }
            let s: String = cs.into_iter().collect();
            all_modes(ch, &s)
        },
    ));
    v.push(family(
        "typed decoding",
        "104 documents, right and wrong, and every prefix and single-character replacement of them, decoded as 9 types",
        move |ch| {
            let docs = typed_docs();
            let mut cs = chars(ch.pick(&docs));
            match ch.choose(3) {
                0 => (),
                1 => {
                    let k = ch.choose(cs.len());
                    cs.truncate(k);
                }
                _ => {
                    let k = ch.choose(cs.len());
                    cs[k] = *ch.pick(&['{', ']', ',', '"', '0', '\\', '\n', 'é']);
                }
            }
            let s: String = cs.into_iter().collect();
            ch.note(|| format!("document {}", clip(&s)));
            ch.state(&s);
            for ty in 0..TYPES {
                compare(ch, &s, &Typed(ty))?;
            }
            Ok(())
        },
    ));
    v.push(family(
        "long texts",
        "strings, keys, numbers, whitespace, comments and lists of 0..=80, 4095..=4097 and 70000 characters of 4 kinds, complete or cut, consumed in 8 ways",
        move |ch| {
            let i = ch.choose(85);
            let n = if i <= 80 { i } else { [4095, 4096, 4097, 70000][i - 81] };
            let unit = *ch.pick(&["a", "é", "\\n", "😀\\u0041"]);
            let fill = unit.repeat(n);
            let mut s = match ch.choose(7) {
                6 => format!("{}1{}", "\t".repeat(n), " \r\t".repeat(n)),
                0 => format!("\"{}\"", fill),
                1 => format!("{{\"{}\":1,\"{}\":2}}", fill, unit),
                2 => format!("[1{}.0{}e1]", "0".repeat(n), "1".repeat(n)),
                3 => format!("{}1{}", "\n\t".repeat(n), " ".repeat(n)),
                4 => format!("[1,/*{}*/2]", unit.repeat(n)),
                _ => format!("[{}\"{}\"]", "1,".repeat(n), unit),
            };
            match ch.choose(3) {
                0 => (),
                1 => {
                    s.pop();
                }
                _ => s.push('x'),
            }
            all_modes(ch, &s)
        },
    ));
    v.push(family(
        "next characters",
        "28 tokens directly followed by every ASCII character and 8 others, in 9 surroundings, consumed in 8 ways, strict and permissive",
        |ch| {
            let tok = *ch.pick(&TOKENS);
            let next = followers();
            let c = *ch.pick(&next);
            let (a, b) = *ch.pick(&AROUND);
            let text = format!("{}{}{}{}", a, tok, c, b);
            all_modes(ch, &text)?;
            Ok(())
        },
    ));
    v
}

fn main() {
    mc::main(Check {
        id: "C08",
        families,
        assumptions: &[
            "The third source is a plain character sequence implementing only the required reader methods; its positions are character offsets.",
            "Error messages are compared by their debug representation.",
        ],
    })
}
