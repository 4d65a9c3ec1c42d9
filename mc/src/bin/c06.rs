//! C06: strings, characters and keys decode and encode exactly.

use mc::model::*;
use mc::readers::CharReader;
use mc::walk::config;
use mc::*;
use serdere::*;
use serdere_json::*;

/// A key that is in none of the enumerated alphabets.
const LAST: &str = "#zz";

#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    Whole,
    Chars,
    /// Some characters one by one, then the rest at once.
    Partial(usize),
    /// Some characters one by one, then the rest is skipped.
    PartialSkip(usize),
    /// All characters one by one, then the string is asserted to end.
    Close(usize),
    Char,
    /// As a name, in a table with / without it.
    Name(bool),
    PartialName(usize, bool),
    Wrapped,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Place {
    Root,
    Item,
    Buffered,
    BufferedItem,
    Key,
    BufferedKey,
    LookUp,
    BufferedLookUp,
    /// Another key is looked up; the entry must still be there afterwards.
    OtherLookUp,
    /// The key of an object inside a buffered value, read or looked up.
    InnerFirstKey,
    InnerNextKey,
    InnerFirstLookUp,
    InnerNextLookUp,
}
use Place::*;

#[derive(Debug, PartialEq, Clone)]
enum Got {
    Str(String),
    Found(bool),
    /// Not observable in this way.
    Nothing,
}

/// A name table made for one execution.
struct Names {
    map: *mut FixedNameMap<usize, 3>,
    strs: Vec<*mut str>,
}

impl Names {
    fn new(names: [String; 3]) -> Names {
        let strs: Vec<*mut str> = names.into_iter().map(|s| Box::into_raw(s.into_boxed_str())).collect();
        let r = |i: usize| -> &'static str { unsafe { &*strs[i] } };
        let map = Box::into_raw(Box::new(FixedNameMap::new([(r(0), 0), (r(1), 1), (r(2), 2)])));
        Names { map, strs }
    }
    fn get(&self) -> &'static NameMap<usize> {
        unsafe { (*self.map).unfix() }
    }
}

impl Drop for Names {
    fn drop(&mut self) {
        unsafe {
            drop(Box::from_raw(self.map));
            for s in &self.strs {
                drop(Box::from_raw(*s));
            }
        }
    }
}

type R<T, P> = Result<T, DeserializeError<P>>;

/// Reads the opened string on the top of the stack.
fn opened<T: TextReader>(d: &mut TextDeserializer<T>, way: Way, names: &'static NameMap<usize>) -> R<Got, T::Position> {
    let mut s = String::new();
    Ok(match way {
        Way::Whole => Got::Str(d.flush_str()?.into_owned()),
        Way::Chars => {
            while let Some(c) = d.next_char()? {
                s.push(c);
            }
            Got::Str(s)
        }
        Way::Partial(k) | Way::PartialSkip(k) | Way::Close(k) | Way::PartialName(k, _) => {
            for _ in 0..k {
                match d.next_char()? {
                    Some(c) => s.push(c),
                    None => return Ok(Got::Str(format!("{} (ended early)", s))),
                }
            }
            match way {
                Way::Partial(_) => {
                    s.push_str(&d.flush_str()?);
                    Got::Str(s)
                }
                Way::PartialSkip(_) => {
                    d.skip_str()?;
                    Got::Str(s)
                }
                Way::Close(_) => {
                    d.close_str()?;
                    Got::Str(s)
                }
                _ => {
                    s.push_str(&format!("{}", d.flush_name(names)?));
                    Got::Str(s)
                }
            }
        }
        Way::Name(_) => Got::Str(format!("{}", d.flush_name(names)?)),
        Way::Char | Way::Wrapped => unreachable!(),
    })
}

fn value<T: TextReader>(d: &mut TextDeserializer<T>, way: Way, names: &'static NameMap<usize>) -> R<Got, T::Position> {
    Ok(match way {
        Way::Char => Got::Str(d.get_char()?.to_string()),
        Way::Name(_) => Got::Str(format!("{}", d.get_name(names)?)),
        Way::Whole => Got::Str(d.read_str()?.into_owned()),
        Way::Wrapped => Got::Str(Value::with(d, |v| v.get_str().map(|s| s.into_owned()))?),
        _ => {
            d.open_str()?;
            opened(d, way, names)?
        }
    })
}

fn doc(lit: &str, place: Place) -> String {
    match place {
        Root => lit.to_string(),
        Item => format!("[{},7]", lit),
        Buffered => format!("{{\"n\":{},\"m\":7,\"{}\":0}}", lit, LAST),
        BufferedItem => format!("{{\"n\":[\"p\",{},7],\"{}\":0}}", lit, LAST),
        InnerFirstKey | InnerFirstLookUp => format!("{{\"n\":{{{}:7,\"{1}\":1}},\"{1}\":0}}", lit, LAST),
        InnerNextKey | InnerNextLookUp => format!("{{\"n\":[{{\"{1}\":1,{}:7}}],\"{1}\":0}}", lit, LAST),
        Key | BufferedKey | LookUp | BufferedLookUp | OtherLookUp => format!("{{{}:7,\"{}\":0}}", lit, LAST),
    }
}

fn read<T: TextReader>(reader: T, place: Place, way: Way, names: &'static NameMap<usize>, query: &str) -> R<Got, T::Position> {
    let mut d = TextDeserializer::new(config(false), reader)?;
    let got;
    match place {
        Root => got = value(&mut d, way, names)?,
        Item => {
            d.open_list()?;
            d.push_item()?;
            got = value(&mut d, way, names)?;
            d.push_item()?;
            assert_eq!(d.get_u8()?, 7);
            d.close_list()?;
        }
        Buffered => {
            d.open_object()?;
            d.push_entry(LAST)?;
            assert_eq!(d.get_u8()?, 0);
            d.push_entry("n")?;
            got = value(&mut d, way, names)?;
            d.push_entry("m")?;
            assert_eq!(d.get_u8()?, 7);
            d.close_object()?;
        }
        BufferedItem => {
            d.open_object()?;
            d.push_entry(LAST)?;
            assert_eq!(d.get_u8()?, 0);
            d.push_entry("n")?;
            d.open_list()?;
            d.push_item()?;
            assert_eq!(d.read_str()?, "p");
            d.push_item()?;
            got = value(&mut d, way, names)?;
            d.push_item()?;
            assert_eq!(d.get_u8()?, 7);
            d.close_list()?;
            d.close_object()?;
        }
        InnerFirstKey | InnerFirstLookUp | InnerNextKey | InnerNextLookUp => {
            d.open_object()?;
            d.push_entry(LAST)?;
            assert_eq!(d.get_u8()?, 0);
            d.push_entry("n")?;
            let listed = matches!(place, InnerNextKey | InnerNextLookUp);
            if listed {
                d.open_list()?;
                d.push_item()?;
            }
            d.open_object()?;
            d.push_entry(LAST)?;
            assert_eq!(d.get_u8()?, 1);
            if matches!(place, InnerFirstKey | InnerNextKey) {
                assert!(d.next_entry()?);
                got = opened(&mut d, way, names)?;
                assert_eq!(d.get_u8()?, 7);
            } else {
                let found = d.try_push_entry(query)?;
                got = Got::Found(found);
                if found {
                    assert_eq!(d.get_u8()?, 7);
                }
            }
            d.skip_object()?;
            if listed {
                d.close_list()?;
            }
            d.close_object()?;
        }
        Key | BufferedKey | OtherLookUp => {
            d.open_object()?;
            if place == BufferedKey {
                d.push_entry(LAST)?;
                assert_eq!(d.get_u8()?, 0);
            }
            if place == OtherLookUp && d.try_push_entry(query)? {
                return Ok(Got::Found(true));
            }
            assert!(d.next_entry()?);
            got = opened(&mut d, way, names)?;
            assert_eq!(d.get_u8()?, 7);
            if place != BufferedKey {
                d.push_entry(LAST)?;
                assert_eq!(d.get_u8()?, 0);
            }
            d.close_object()?;
        }
        LookUp | BufferedLookUp => {
            d.open_object()?;
            if place == BufferedLookUp {
                d.push_entry(LAST)?;
                assert_eq!(d.get_u8()?, 0);
            }
            let found = d.try_push_entry(query)?;
            got = Got::Found(found);
            if found {
                assert_eq!(d.get_u8()?, 7);
            }
            d.skip_object()?;
        }
    }
    d.close()?;
    Ok(got)
}

/// Reads the literal in every way at every place. `want` is the string it denotes, if legal.
fn judge(ch: &mut Ch, lit: &str, want: Option<&str>, full: bool) -> Outcome {
    ch.note(|| format!("string literal {}", clip(lit)));
    ch.state(lit);
    let none = String::new();
    let w: String = want.map(|s| s.to_string()).unwrap_or(none);
    let n = w.chars().count();
    let rest = |k: usize| -> String { w.chars().skip(k).collect() };
    let with = |s: String| [s.clone() + "a", s.clone(), { let mut t = s.clone(); t.pop(); if t == s { "zz~".to_string() } else { t } }];
    let without = |s: String| [s.clone() + "a", s.clone() + "\0", { let mut t = s.clone(); t.pop(); if t == s { "zz~".to_string() } else { t } }];
    let mut ways = vec![Way::Whole, Way::Chars, Way::Close(n), Way::Char, Way::Name(true), Way::Name(false), Way::Wrapped];
    let splits: Vec<usize> = if n <= 4 || full { (0..=n.min(6)).chain(n.saturating_sub(1)..=n).collect() } else { vec![1, n / 2, n] };
    for &k in &splits {
        ways.push(Way::Partial(k));
        ways.push(Way::PartialSkip(k));
        ways.push(Way::PartialName(k, true));
        ways.push(Way::PartialName(k, false));
        if k < n {
            ways.push(Way::Close(k));
        }
    }
    for place in [Root, Item, Buffered, BufferedItem, Key, BufferedKey, InnerFirstKey, InnerNextKey] {
        let text = doc(lit, place);
        let cs = chars(&text);
        for &way in &ways {
            if matches!(place, Key | BufferedKey) && matches!(way, Way::Char | Way::Wrapped) {
                continue;
            }
            if matches!(place, InnerFirstKey | InnerNextKey) && !matches!(way, Way::Whole | Way::Chars | Way::Partial(1)) {
                continue;
            }
            let names = match way {
                Way::Name(t) => Some((rest(0), t)),
                Way::PartialName(k, t) => Some((rest(k), t)),
                _ => None,
            };
            let holder = match names {
                Some((s, true)) => Names::new(with(s)),
                Some((s, false)) => Names::new(without(s)),
                None => Names::new([String::new(), "b".into(), "c".into()]),
            };
            let expect: Option<Got> = want.and_then(|s| match way {
                Way::Whole | Way::Chars | Way::Partial(_) | Way::Wrapped => Some(Got::Str(s.to_string())),
                Way::PartialSkip(k) => Some(Got::Str(s.chars().take(k).collect())),
                Way::Close(k) => Some(Got::Str(s.to_string())).filter(|_| k == n),
                Way::Char => Some(Got::Str(s.to_string())).filter(|_| n == 1),
                Way::Name(t) => Some(Got::Str("1".into())).filter(|_| t),
                Way::PartialName(k, t) => Some(Got::Str(s.chars().take(k).collect::<String>() + "1")).filter(|_| t),
            });
            // A close before the end may be an error only
            let got = no_panic(|| format!("{} at {:?} read {:?}", clip(&text), place, way), || {
                read(&text[..], place, way, holder.get(), "").map_err(|e| format!("{}", e.message()))
            })?;
            ch.step();
            check!(
                match (&got, &expect) {
                    (Ok(g), Some(e)) => g == e,
                    (Err(_), None) => true,
                    _ => false,
                },
                "{} at {:?} read {:?}: {:?}, expected {:?}",
                clip(&text), place, way, got, expect
            );
            if way == Way::Whole || way == Way::Chars || (full && n <= 3) {
                let got2 = no_panic(|| format!("{} at {:?} read {:?} from a plain character source", clip(&text), place, way), || {
                    read(CharReader::new(&cs), place, way, holder.get(), "").map_err(|e| format!("{}", e.message()))
                })?;
                check!(got2 == got, "{} at {:?} read {:?}: {:?} from &str, {:?} from a plain character source", clip(&text), place, way, got, got2);
            }
        }
    }
    // Look-ups
    let holder = Names::new([String::new(), "b".into(), "c".into()]);
    let mut queries = vec![w.clone(), w.clone() + "a", w.clone() + "\0"];
    if n > 0 {
        queries.push(w.chars().take(n - 1).collect());
        queries.push(rest(1));
        queries.push(lit[1..lit.len() - 1].to_string());
        // One bit changed in the last character
        let mut t: String = w.chars().take(n - 1).collect();
        let c = w.chars().last().unwrap() as u32;
        t.push(char::from_u32(c ^ 1).unwrap_or('?'));
        queries.push(t);
    }
    for q in &queries {
        for place in [LookUp, BufferedLookUp, OtherLookUp, InnerFirstLookUp, InnerNextLookUp] {
            if place == OtherLookUp && *q == w {
                continue;
            }
            let text = doc(lit, place);
            let got = no_panic(|| format!("{}: {:?} of {}", clip(&text), place, clip(q)), || {
                read(&text[..], place, Way::Whole, holder.get(), q).map_err(|e| format!("{}", e.message()))
            })?;
            ch.step();
            let expect = match (want, place) {
                (None, _) => None,
                (Some(s), OtherLookUp) => Some(Got::Str(s.to_string())),
                (Some(s), _) => Some(Got::Found(s == q)),
            };
            check!(
                match (&got, &expect) {
                    (Ok(g), Some(e)) => g == e,
                    (Err(_), None) => true,
                    _ => false,
                },
                "{}: {:?} of {}: {:?}, expected {:?}",
                clip(&text), place, clip(q), got, expect
            );
        }
    }
    Ok(())
}

fn u4(c: u32, style: usize) -> String {
    match style {
        0 => format!("\\u{:04x}", c),
        1 => format!("\\u{:04X}", c),
        _ => {
            // Alternating case
            let s = format!("{:04x}", c);
            let t: String = s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect();
            format!("\\u{}", t)
        }
    }
}

fn units(c: char, style: usize) -> String {
    let mut b = [0u16; 2];
    c.encode_utf16(&mut b).iter().map(|u| u4(*u as u32, style)).collect()
}

fn short(c: char) -> Option<char> {
    Some(match c {
        '"' => '"',
        '\\' => '\\',
        '/' => '/',
        '\u{8}' => 'b',
        '\u{C}' => 'f',
        '\n' => 'n',
        '\r' => 'r',
        '\t' => 't',
        _ => return None,
    })
}

/// All legal spellings of a character.
fn spellings(c: char) -> Vec<String> {
    let mut v = Vec::new();
    if c != '"' && c != '\\' && c >= ' ' {
        v.push(c.to_string());
    }
    if let Some(s) = short(c) {
        v.push(format!("\\{}", s));
    }
    v.push(units(c, 0));
    v.push(units(c, 1));
    if c as u32 > 0xFFFF || v[v.len() - 1] != v[v.len() - 2] {
        v.push(units(c, 2));
    }
    v
}

const ALPHABET: &[char] = &['a', 'é', '"', '\\', '/', '\n', '\0', '中', '😀', '\u{7F}', '\u{FFFF}', '\u{10FFFF}', '\u{1F}', '\u{80}', '\u{D7FF}'];

fn pieces() -> Vec<(char, String)> {
    let mut v = Vec::new();
    for &c in ALPHABET {
        let s = spellings(c);
        v.push((c, s[0].clone()));
        if s.len() > 1 {
            v.push((c, s[1].clone()));
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------
// Encoding

#[derive(Clone, Copy, Debug)]
enum Put {
    Str,
    Chars,
    AppendStr,
    /// Split after the given number of characters, with both append calls.
    Mixed(usize),
    Char,
    KeyPush,
    KeyChars,
    KeyStr,
}

fn encode(s: &str, put: Put, indent: Option<&'static str>) -> String {
    let mut out = String::new();
    {
        let mut w = TextSerializer::new(TextSerializerConfig { indent }, &mut out);
        let r = (|| {
            match put {
                Put::Str => w.put_str(s),
                Put::Chars => {
                    w.open_str()?;
                    for c in s.chars() {
                        w.append_char(c)?;
                    }
                    w.close_str()
                }
                Put::AppendStr => {
                    w.open_str()?;
                    w.append_str(s)?;
                    w.close_str()
                }
                Put::Mixed(k) => {
                    w.open_str()?;
                    let a: String = s.chars().take(k).collect();
                    w.append_str(&a)?;
                    for c in s.chars().skip(k) {
                        w.append_char(c)?;
                    }
                    w.append_str("")?;
                    w.close_str()
                }
                Put::Char => w.put_char(s.chars().next().unwrap()),
                Put::KeyPush => {
                    w.open_object()?;
                    w.push_entry(s)?;
                    w.pop_null()?;
                    w.close_object()
                }
                Put::KeyChars => {
                    w.open_object()?;
                    w.add_entry()?;
                    for c in s.chars() {
                        w.append_char(c)?;
                    }
                    w.close_str()?;
                    w.pop_null()?;
                    w.close_object()
                }
                Put::KeyStr => {
                    w.open_object()?;
                    w.add_entry()?;
                    w.append_str(s)?;
                    w.close_str()?;
                    w.pop_null()?;
                    w.close_object()
                }
            }
        })();
        let r: Result<(), std::convert::Infallible> = r;
        r.unwrap();
    }
    out
}

fn judge_encoding(ch: &mut Ch, s: &str) -> Outcome {
    ch.note(|| format!("string {}", clip(s)));
    ch.state(s);
    let n = s.chars().count();
    let mut puts = vec![Put::Str, Put::Chars, Put::AppendStr, Put::Mixed(n / 2), Put::KeyPush, Put::KeyChars, Put::KeyStr];
    if n == 1 {
        puts.push(Put::Char);
    }
    for put in puts {
        for indent in [None, Some("\t")] {
            let text = no_panic(|| format!("writing {} by {:?}", clip(s), put), || encode(s, put, indent))?;
            ch.step();
            let key = matches!(put, Put::KeyPush | Put::KeyChars | Put::KeyStr);
            let want = if key { Tree::Obj(vec![(s.to_string(), Tree::Null)]) } else { Tree::Str(s.to_string()) };
            match parse(&chars(&text), false) {
                Ok(v) => check!(v.tree() == want, "{} written by {:?} gives {}, which denotes {:?}", clip(s), put, clip(&text), v.tree()),
                Err(e) => return fail(format!("{} written by {:?} gives {}, which is not JSON (at {})", clip(s), put, clip(&text), e.at)),
            }
            let back = no_panic(|| format!("reading {}", clip(&text)), || {
                mc::walk::consume(mc::walk::Mode::Direct, false, &text[..]).map_err(|e| format!("{}", e.message()))
            })?;
            check!(back == Ok(Some(want)), "{} written by {:?} gives {}, read back as {:?}", clip(s), put, clip(&text), back);
        }
    }
    Ok(())
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = Vec::new();
    let scalars: usize = 0x110000 - 0x800;
    let scalar = |i: usize| char::from_u32(if i < 0xD800 { i as u32 } else { i as u32 + 0x800 }).unwrap();
    v.push(family(
        "every character",
        "every Unicode scalar value in every legal spelling (raw, short escape, \\u in lower, upper and mixed case, surrogate pairs; above U+3000 in the quick tier one spelling each except every 16th and U+F000..U+10800), alone (below U+3000 and at every 64th: also between other characters), at 8 places (direct / buffered value, item and key, first and next key inside a buffered value) read whole / by characters / split at every point / as char / as name, and matched by look-ups of it and of its neighbours",
        move |ch| {
            let hi = ch.choose(scalars.div_ceil(64));
            let i = hi * 64 + ch.choose(64.min(scalars - hi * 64));
            let c = scalar(i);
            let forms = spellings(c);
            // The three hexadecimal styles are only distinguished where they differ
            let lit = if t.thorough() || i < 0x3000 || i % 16 == 15 || (0xF000..0x10800).contains(&(c as u32)) {
                ch.pick(&forms).clone()
            } else {
                forms[(i / 5) % forms.len()].clone()
            };
            let ctx = if i < 0x3000 || i % 64 == 63 || t.thorough() { ch.choose(2) } else { 0 };
            match ctx {
                0 => judge(ch, &format!("\"{}\"", lit), Some(&c.to_string()), false),
                _ => judge(ch, &format!("\"x{}y\\n\"", lit), Some(&format!("x{}y\n", c)), false),
            }
        },
    ));
    let len = t.pick(3, 4);
    v.push(family(
        "strings",
        format!("all strings of at most {} characters over {} sharp characters, each in a raw / short / \\u spelling, in every way at every place", len, ALPHABET.len()),
        move |ch| {
            let p = pieces();
            let mut lit = String::from("\"");
            let mut s = String::new();
            for _ in 0..len {
                let i = ch.choose(p.len() + 1);
                if i == 0 {
                    break;
                }
                s.push(p[i - 1].0);
                lit.push_str(&p[i - 1].1);
            }
            lit.push('"');
            judge(ch, &lit, Some(&s), true)
        },
    ));
    v.push(family(
        "illegal escapes: backslash and any character",
        "backslash followed by every scalar value that starts no escape, alone and after other characters; must be rejected in every way at every place",
        move |ch| {
            let hi = ch.choose(scalars.div_ceil(64));
            let i = hi * 64 + ch.choose(64.min(scalars - hi * 64));
            let c = scalar(i);
            if "\"\\/bfnrtu".contains(c) {
                return ch.skip();
            }
            if i >= 0x800 && i % t.pick(16, 1) != 15 % t.pick(16, 1) {
                return ch.skip();
            }
            judge(ch, &format!("\"{}\\{}b\"", if i % 2 == 0 { "" } else { "a" }, c), None, false)
        },
    ));
    v.push(family(
        "illegal escapes: \\u and four characters",
        "\\u followed by every sequence of at most 4 characters over \"0 9 a F g G : @ ` / + - space \" \\ u é ٣\" that is not 4 hexadecimal digits, then two more characters",
        move |ch| {
            let a = ['0', '9', 'a', 'F', 'g', 'G', ':', '@', '`', '/', '+', '-', ' ', '"', '\\', 'u', 'é', '٣'];
            let mut s = String::new();
            let n = ch.choose(5);
            for _ in 0..n {
                s.push(*ch.pick(&a));
            }
            if n == 4 && s.chars().all(|c| c.is_ascii_hexdigit()) {
                return ch.skip();
            }
            let tail = *ch.pick(&["", "zz"]);
            let lit = format!("\"\\u{}{}\"", s, tail);
            // Only literals which the reference rejects within the string
            if parse(&chars(&lit), false).is_ok() {
                return fail(format!("harness: {} is legal", lit));
            }
            judge(ch, &lit, None, false)
        },
    ));
    v.push(family(
        "illegal escapes: surrogates",
        "every lone low surrogate; every high surrogate followed by each of 12 continuations that are no low surrogate escape; at every place in every way",
        move |ch| {
            let unit = 0xD800 + ch.choose(0x800) as u32;
            let style = ch.choose(2);
            let pre = *ch.pick(&["", "a"]);
            let lit = if unit >= 0xDC00 {
                let post = *ch.pick(&["", "b", "\\udc00", "\\ud800\\udc00"]);
                format!("\"{}{}{}\"", pre, u4(unit, style), post)
            } else {
                let post = *ch.pick(&[
                    "", "b", "\\n", "\\u0041", "\\ud800", "\\udbff", "\\ue000", "\\u", "\\udc", "\\udc0g", "udc00", "\\\\udc00",
                ]);
                format!("\"{}{}{}\"", pre, u4(unit, style), post)
            };
            judge(ch, &lit, None, false)
        },
    ));
    v.push(family(
        "truncated",
        "every proper prefix of 14 documents with strings and keys, in every way",
        move |ch| {
            let lits = ["\"\"", "\"a\"", "\"\\n\"", "\"\\u00e9\"", "\"\\ud83d\\ude00\"", "\"a\\\"b\"", "\"é\""];
            let lit = *ch.pick(&lits);
            let n = lit.chars().count();
            let cut = ch.choose(n);
            let mut s: String = lit.chars().take(cut).collect();
            // A shorter literal that is complete is legal
            if parse(&chars(&s), false).is_ok() {
                return ch.skip();
            }
            let buffered = ch.flip();
            if buffered {
                s = format!("{{\"k\":{}", s);
            } else if ch.flip() {
                s = format!("{{{}", s);
            }
            for mode in mc::walk::MODES {
                let r = no_panic(|| format!("{} by {:?}", clip(&s), mode), || {
                    mc::walk::consume(mode, false, &s[..]).map_err(|e| format!("{}", e.message()))
                })?;
                ch.step();
                check!(r.is_err(), "{} by {:?}: {:?}, expected an error", clip(&s), mode, r);
            }
            Ok(())
        },
    ));
    let kl = t.pick(2, 3);
    v.push(family(
        "key matching",
        format!("all pairs of a key (at most {} characters over 7, raw or escaped) and a query of at most {}, as first or second entry, direct and buffered: found iff equal", kl, kl),
        move |ch| {
            let a = ['a', 'b', '\0', 'é', 'è', '"', '😀'];
            let mut key = String::new();
            let mut lit = String::from("\"");
            let escaped = ch.flip();
            for _ in 0..kl {
                let i = ch.choose(a.len() + 1);
                if i == 0 {
                    break;
                }
                let c = a[i - 1];
                key.push(c);
                let s = spellings(c);
                lit.push_str(if escaped { s.last().unwrap() } else { &s[0] });
            }
            lit.push('"');
            let mut q = String::new();
            for _ in 0..kl {
                let i = ch.choose(a.len() + 1);
                if i == 0 {
                    break;
                }
                q.push(a[i - 1]);
            }
            let shape = ch.choose(3);
            let text = match shape {
                0 => format!("{{{}:7}}", lit),
                1 => format!("{{\"p\":1,{}:7,\"r\":2}}", lit),
                _ => format!("{{\"p\":1,{}:7,\"r\":2}}", lit),
            };
            ch.note(|| format!("{} looked up {:?}", clip(&text), q));
            let got = no_panic(|| format!("{}: look-up of {:?}", clip(&text), q), || {
                let mut d = TextDeserializer::new(config(false), &text[..])?;
                d.open_object()?;
                if shape == 2 {
                    d.push_entry("r")?;
                    d.get_u8()?;
                }
                let found = d.try_push_entry(&q)?;
                if found {
                    let x = d.get_u8()?;
                    assert_eq!(x, 7);
                    let again = d.try_push_entry(&q)?;
                    assert!(!again, "found twice");
                }
                let mut rest = Vec::new();
                while d.next_entry()? {
                    let k = d.flush_str()?.into_owned();
                    rest.push((k, d.get_u8()?));
                }
                d.close()?;
                Ok::<_, DeserializeError<_>>((found, rest))
            })?;
            ch.step();
            let mut rest = match shape {
                0 => vec![(key.clone(), 7)],
                1 => vec![("p".into(), 1), (key.clone(), 7), ("r".into(), 2)],
                _ => vec![("p".into(), 1), (key.clone(), 7)],
            };
            if q == key {
                rest.retain(|e| e.1 != 7);
            }
            match got {
                Ok(g) => check!(g == (q == key, rest.clone()), "{}: look-up of {:?}: {:?}, expected {:?}", clip(&text), q, g, (q == key, rest)),
                Err(e) => return fail(format!("{}: look-up of {:?}: error {}", clip(&text), q, e.message())),
            }
            Ok(())
        },
    ));
    let max = t.pick(80, 300);
    v.push(family(
        "lengths",
        format!("strings of every length 0..={} and around 127/255/4096/65535/70000 of 5 fills, with one escape at the start, middle, end or nowhere, in every way at every place", max),
        move |ch| {
            let big = [126, 127, 128, 129, 254, 255, 256, 257, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 70000];
            let i = ch.choose(max + 1 + big.len());
            let n = if i <= max { i } else { big[i - max - 1] };
            let fill = *ch.pick(&["a", "é", "中", "😀", "\\n"]);
            let c = if fill == "\\n" { '\n' } else { fill.chars().next().unwrap() };
            let esc = ch.choose(4);
            let at = match esc {
                0 => usize::MAX,
                1 => 0,
                2 => n / 2,
                _ => n,
            };
            let mut lit = String::from("\"");
            let mut s = String::new();
            for k in 0..=n {
                if k == at {
                    lit.push_str("\\u00E9");
                    s.push('é');
                }
                if k < n {
                    lit.push_str(fill);
                    s.push(c);
                }
            }
            lit.push('"');
            judge(ch, &lit, Some(&s), false)
        },
    ));
    v.push(family(
        "encoding characters",
        "every Unicode scalar value as put_char, put_str, append calls and keys, compact and indented, read back by the reference parser and by the library",
        move |ch| {
            let hi = ch.choose(scalars.div_ceil(64));
            let i = hi * 64 + ch.choose(64.min(scalars - hi * 64));
            judge_encoding(ch, &scalar(i).to_string())
        },
    ));
    let el = t.pick(4, 5);
    v.push(family(
        "encoding strings",
        format!("all strings of at most {} characters over 14 sharp characters, written by every call, as value and as key", el),
        move |ch| {
            let a = ['a', '"', '\\', '/', '\n', '\0', '\u{1F}', ' ', '\u{7F}', 'é', '中', '😀', '\u{2028}', 'u'];
            let mut s = String::new();
            for _ in 0..el {
                let i = ch.choose(a.len() + 1);
                if i == 0 {
                    break;
                }
                s.push(a[i - 1]);
            }
            judge_encoding(ch, &s)
        },
    ));
    v.push(family("encoding lengths", "strings of length 0..=300 and 4096, 65536 of 4 fills", move |ch| {
        let n = match ch.choose(303) {
            301 => 4096,
            302 => 65536,
            i => i,
        };
        let s = ch.pick(&["a", "\"", "é😀", "\u{1}"]).repeat(n);
        judge_encoding(ch, &s)
    }));
    v
}

fn main() {
    mc::main(Check {
        id: "C06",
        families,
        assumptions: &[
            "A legal escape is one of the eight short escapes, \\u with four hexadecimal digits of a scalar value in the basic plane, or a \\u surrogate pair.",
            "Closing a string before its end (close_str) counts as an error of the input, as documented.",
        ],
    })
}
