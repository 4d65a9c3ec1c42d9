//! C07: byte input is decoded as exact UTF-8, whatever the chunking and faults.

use mc::readers::*;
use mc::*;
use serdere::*;
use std::io::{self, Read};

/// The characters of the longest well-formed prefix, and whether all of the input is well-formed.
fn reference(bytes: &[u8]) -> (Vec<char>, bool) {
    match std::str::from_utf8(bytes) {
        Ok(s) => (s.chars().collect(), true),
        Err(e) => (std::str::from_utf8(&bytes[..e.valid_up_to()]).unwrap().chars().collect(), false),
    }
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum End {
    Eof,
    Error,
}

/// Reads characters until the end or an error.
fn drain(r: &mut impl Read, max: usize) -> (Vec<char>, End) {
    let mut v = Vec::new();
    loop {
        match read_utf8(r) {
            Ok(Some(c)) => v.push(c),
            Ok(None) => return (v, End::Eof),
            Err(_) => return (v, End::Error),
        }
        if v.len() > max {
            return (v, End::Eof);
        }
    }
}

/// Decodes a complete byte string without faults.
fn judge(bytes: &[u8]) -> Outcome {
    let (chars, ok) = reference(bytes);
    let (got, end) = no_panic(|| format!("read_utf8 on {:x?}", bytes), || drain(&mut { bytes }, bytes.len()))?;
    let want = if ok { End::Eof } else { End::Error };
    check!(got == chars && end == want, "read_utf8 on {:x?}: {:?} then {:?}, expected {:?} then {:?}", bytes, got, end, chars, want);
    Ok(())
}

const KEY: &str = "Utf8Reader::next:panic-on-source-failure";

/// How a reader is driven.
#[derive(Clone, Copy, Debug)]
enum Drive {
    Next,
    PeekNext,
    Exact,
    Until,
    UntilEach,
}
const DRIVES: [Drive; 5] = [Drive::Next, Drive::PeekNext, Drive::Exact, Drive::Until, Drive::UntilEach];

/// Drives a reader to its end. `seen` collects what it delivered so far.
fn run<R: Read>(source: R, drive: Drive, expect: &[char], seen: &mut Vec<char>) -> Result<(), String> {
    let mut r = match Utf8Reader::new(source) {
        Ok(r) => r,
        Err(_) => return Err("error".into()),
    };
    match drive {
        Drive::Next => {
            while let Some(c) = r.next() {
                seen.push(c);
            }
        }
        Drive::PeekNext => loop {
            let p = r.peek();
            if r.peek() != p {
                return Err("peek changed".into());
            }
            let c = r.next();
            if p != c {
                return Err(format!("peek {:?}, next {:?}", p, c));
            }
            match c {
                Some(c) => seen.push(c),
                None => break,
            }
        },
        Drive::Exact => {
            let s: String = expect.iter().collect();
            if r.read_exact(&s) {
                seen.extend_from_slice(expect);
                while let Some(c) = r.next() {
                    seen.push(c);
                }
            } else {
                return Err("read_exact failed".into());
            }
        }
        Drive::Until => {
            let mut n = 0;
            let all = expect.len();
            if let Some((s, c)) = r.read_until(|c| {
                n += 1;
                if n == all { Some(c) } else { None }
            }) {
                seen.extend(s.chars());
                seen.push(c);
            }
            while let Some(c) = r.next() {
                seen.push(c);
            }
        }
        Drive::UntilEach => {
            while let Some((s, c)) = r.read_until(Some) {
                if !s.is_empty() {
                    return Err("read_until delivered too much".into());
                }
                seen.push(c);
            }
        }
    }
    if r.peek().is_some() || r.next().is_some() {
        return Err("characters after the end".into());
    }
    Ok(())
}

/// Runs a reader over a source, judging against the characters `chars` that may be delivered and
/// whether the source ends well after them.
fn judge_reader<R: Read>(what: &dyn Fn() -> String, source: R, drive: Drive, expected: impl FnOnce() -> (Vec<char>, bool), all: &[char]) -> Outcome {
    let mut seen = Vec::new();
    let res = sut(|| run(source, drive, all, &mut seen));
    let (chars, ok) = expected();
    match res {
        Ok(Ok(())) => {
            check!(ok, "{} by {:?}: delivered {:?} and then the end of input instead of an error", what(), drive, seen);
            check!(seen == chars, "{} by {:?}: delivered {:?}, expected {:?}", what(), drive, seen, chars);
        }
        Ok(Err(e)) => {
            // Without an error in the source the only legal outcome is the complete text
            check!(!ok, "{} by {:?}: {} after {:?}, expected {:?}", what(), drive, e, seen, chars);
            let exact = matches!(drive, Drive::Exact) && e == "read_exact failed";
            check!(e == "error" || exact, "{} by {:?}: {} after {:?}", what(), drive, e, seen);
            check!(chars.starts_with(&seen), "{} by {:?}: delivered {:?}, expected {:?}", what(), drive, seen, chars);
            check!(exact || chars.is_empty(), "{} by {:?}: failed at once, though {:?} is readable", what(), drive, chars);
        }
        Err(p) => {
            if !ok && chars.starts_with(&seen) {
                return fail_key(KEY, format!("{} by {:?}: panicked after {:?}: {}", what(), drive, seen, p));
            }
            return fail(format!("{} by {:?}: panicked after {:?} (expected {:?}): {}", what(), drive, seen, chars, p));
        }
    }
    Ok(())
}

const DOCS: &[&[u8]] = &[
    b"",
    b"a",
    b"ab",
    "é".as_bytes(),
    "中".as_bytes(),
    "😀".as_bytes(),
    "aé".as_bytes(),
    "éa".as_bytes(),
    "é中".as_bytes(),
    "中😀".as_bytes(),
    "😀é".as_bytes(),
    "a😀b".as_bytes(),
    "\u{7FF}\u{800}".as_bytes(),
    "\u{FFFF}\u{10000}".as_bytes(),
    "[\"é\"]".as_bytes(),
    // Ill-formed
    b"\x80",
    b"a\x80",
    b"\xC0\x80",
    b"\xC1\xBF",
    b"\xC3",
    b"\xC3a",
    b"a\xC3\xC3",
    b"\xE0\x9F\xBF",
    b"\xE4\xB8",
    b"\xE4\xB8a",
    b"\xED\xA0\x80",
    b"\xED\xBF\xBFa",
    b"\xF0\x8F\xBF\xBF",
    b"\xF0\x9F\x98",
    b"\xF0\x9F\x98a",
    b"\xF4\x90\x80\x80",
    b"\xF5\x80\x80\x80",
    b"\xF8\x88\x80\x80\x80",
    b"\xFF",
    b"a\xFE",
    b"\xEF\xBB\xBFa",
];

fn families(t: Tier) -> Vec<Family> {
    let mut v = Vec::new();
    v.push(family("bytes up to 3", "all 16.8 million byte sequences of length 0..=3", |ch| {
        let n = ch.choose(4);
        let mut b = [0u8; 3];
        for x in b.iter_mut().take(n) {
            *x = ch.choose(256) as u8;
        }
        ch.step();
        judge(&b[..n])
    }));
    v.push(family("bytes of 4", "all 4-byte sequences with a first byte E0..=FF, any second and third byte, and 12 boundary fourth bytes (thorough: any)", move |ch| {
        let mut b = [0u8; 4];
        b[0] = 0xE0 + ch.choose(32) as u8;
        b[1] = ch.choose(256) as u8;
        b[2] = ch.choose(256) as u8;
        b[3] = if t.thorough() {
            ch.choose(256) as u8
        } else {
            // Only where the fourth byte belongs to the character are all of the boundaries of interest
            *ch.pick(&[0x00, 0x61, 0x7F, 0x80, 0x81, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xF0, 0xFF])
        };
        ch.step();
        judge(&b)
    }));
    let len = t.pick(6, 7);
    v.push(family(
        "sharp bytes",
        format!("all sequences of at most {} bytes over 16 boundary bytes", len),
        move |ch| {
            let a = [0x61u8, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC1, 0xC2, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5];
            let mut b = Vec::with_capacity(8);
            for _ in 0..len {
                let i = ch.choose(a.len() + 1);
                if i == 0 {
                    break;
                }
                b.push(a[i - 1]);
            }
            ch.step();
            judge(&b)
        },
    ));
    v.push(family(
        "every character",
        "every scalar value, alone, doubled and between other characters: through read_utf8 whole and byte by byte, and through Utf8Reader driven in 5 ways",
        |ch| {
            let scalars: usize = 0x110000 - 0x800;
            let hi = ch.choose(scalars.div_ceil(64));
            let i = hi * 64 + ch.choose(64.min(scalars - hi * 64));
            let c = char::from_u32(if i < 0xD800 { i as u32 } else { i as u32 + 0x800 }).unwrap();
            let s: String = match i % 3 {
                0 => format!("{}", c),
                1 => format!("{}{}", c, c),
                _ => format!("x{}é", c),
            };
            ch.state(&s);
            judge(s.as_bytes())?;
            let all: Vec<char> = s.chars().collect();
            for d in DRIVES {
                ch.step();
                judge_reader(&|| format!("{:?}", s), s.as_bytes(), d, || (all.clone(), true), &all)?;
            }
            struct Bytewise<'a>(&'a [u8]);
            impl Read for Bytewise<'_> {
                fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
                    let n = buf.len().min(1);
                    self.0.read(&mut buf[..n])
                }
            }
            judge_reader(&|| format!("{:?} bytewise", s), Bytewise(s.as_bytes()), Drive::Next, || (all.clone(), true), &all)
        },
    ));
    v.push(family(
        "reader on bytes",
        "all sequences of at most 4 bytes over 16 boundary bytes through Utf8Reader driven in 5 ways",
        move |ch| {
            let a = [0x61u8, 0x0A, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC1, 0xC2, 0xE0, 0xED, 0xEF, 0xF0, 0xF4];
            let mut b = Vec::with_capacity(8);
            for _ in 0..4 {
                let i = ch.choose(a.len() + 1);
                if i == 0 {
                    break;
                }
                b.push(a[i - 1]);
            }
            let (chars, ok) = reference(&b);
            ch.state(&b);
            let mut known = Ok(());
            for d in DRIVES {
                ch.step();
                let r = judge_reader(&|| format!("Utf8Reader on {:x?}", b), &b[..], d, || (chars.clone(), ok), &chars);
                match r {
                    Err(f) if f.key.is_some() => known = Err(f),
                    r => r?,
                }
            }
            known
        },
    ));
    let ints = t.pick(2, 4);
    v.push(family(
        "answers",
        format!(
            "{} byte strings (well-formed and not) through read_utf8: every division into reads, at most {} interruptions, and at most one failure (3 kinds) or early end, at every point",
            DOCS.len(), ints
        ),
        move |ch| {
            let data = *ch.pick(DOCS);
            let mut live = Live::new(ch, data);
            live.interrupts = ints;
            live.may_fail = true;
            live.may_end = true;
            let (got, end) = no_panic(|| format!("read_utf8 on {:x?}", data), || drain(&mut live, data.len()))?;
            let event = live.event;
            let log = live.log.clone();
            let (chars, want) = match event {
                Event::Failed(k) => {
                    // The bytes before the failure are complete characters, then an error
                    (reference(&data[..k]).0, End::Error)
                }
                Event::Eof(k) => {
                    let (c, ok) = reference(&data[..k]);
                    (c, if ok { End::Eof } else { End::Error })
                }
                Event::None => {
                    let (c, ok) = reference(data);
                    (c, if ok { End::Eof } else { End::Error })
                }
            };
            ch.step();
            ch.state(&(data, format!("{:?}", event), log.len()));
            ch.outcome(&(got.clone(), format!("{:?}", end)));
            check!(
                got == chars && end == want,
                "read_utf8 on {:x?} with {:?} and {:?}: {:?} then {:?}, expected {:?} then {:?}",
                data, log, event, got, end, chars, want
            );
            Ok(())
        },
    ));
    v.push(family(
        "reader answers",
        format!("the same through Utf8Reader driven in 5 ways (at most {} interruptions)", ints - 1),
        move |ch| {
            let data = *ch.pick(DOCS);
            let drive = *ch.pick(&DRIVES);
            let all = reference(data).0;
            let event = std::cell::Cell::new(Event::None);
            struct Tap<'x, R>(R, &'x std::cell::Cell<Event>);
            impl Read for Tap<'_, Live<'_, '_>> {
                fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
                    let r = self.0.read(buf);
                    self.1.set(self.0.event);
                    r
                }
            }
            let mut live = Live::new(ch, data);
            live.interrupts = ints - 1;
            live.may_fail = true;
            live.may_end = true;
            let res = judge_reader(
                &|| format!("Utf8Reader on {:x?} with {:?}", data, event.get()),
                Tap(live, &event),
                drive,
                || match event.get() {
                    Event::Failed(k) => (reference(&data[..k]).0, false),
                    // What read_until has read when the text ends before its end is not delivered
                    Event::Eof(k) if matches!(drive, Drive::Until) && reference(&data[..k]).0.len() < all.len() => (Vec::new(), reference(&data[..k]).1),
                    Event::Eof(k) => reference(&data[..k]),
                    Event::None => reference(data),
                },
                &all,
            );
            ch.step();
            ch.state(&(data, format!("{:?}{:?}", event.get(), drive)));
            // read_exact of the whole text on an input that ends early fails, rightly
            match (&res, drive, event.get()) {
                (Err(f), Drive::Exact, Event::Eof(k)) if f.key.is_none() && k < data.len() && f.msg.contains("read_exact failed") => Ok(()),
                _ => res,
            }
        },
    ));
    v.push(family(
        "documents in pieces",
        "JSON documents with characters of every length read by from_reader with every division into reads of 1 or all bytes and at most 1 interruption: the same value as from the string",
        move |ch| {
            let docs = ["[\"é\",1]", "{\"中\":\"😀\"}", " [\"a\\u00e9\u{7ff}\"]", "\"\u{10ffff}\""];
            let doc = *ch.pick(&docs);
            let want = match mc::walk::consume(mc::walk::Mode::Direct, false, doc) {
                Ok(t) => t,
                Err(e) => return fail(format!("{:?} from &str: {}", doc, e.message())),
            };
            let mode = *ch.pick(&[mc::walk::Mode::Direct, mc::walk::Mode::Chars, mc::walk::Mode::Probe]);
            let mut live = Live::new(ch, doc.as_bytes());
            live.interrupts = 1;
            let got = no_panic(|| format!("{:?} in pieces", doc), || match Utf8Reader::new(live) {
                Ok(r) => mc::walk::consume(mode, false, r).map_err(|e| e.message().to_string()),
                Err(e) => Err(e.to_string()),
            })?;
            ch.step();
            check!(got.as_ref() == Ok(&want), "{:?} in pieces by {:?}: {:?}, expected {:?}", doc, mode, got, want);
            Ok(())
        },
    ));
    v.push(family(
        "long inputs",
        "texts of 0..=70, 4095..=4097, 8191..=8193, 65535..=65537 characters of 5 kinds, cut 0..=3 bytes early, through Utf8Reader whole, in pieces of 1..=5 and 8192 bytes, and through a BufReader",
        move |ch| {
            let i = ch.choose(80);
            let n = if i <= 70 { i } else { [4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537][i - 71] };
            let unit = *ch.pick(&["a", "é", "中", "😀", "aé中😀\n"]);
            let s = unit.repeat(n);
            let cut = ch.choose(4);
            if cut > s.len() {
                return ch.skip();
            }
            let data = &s.as_bytes()[..s.len() - cut];
            let how = ch.choose(8);
            struct Pieces<'a>(&'a [u8], usize);
            impl Read for Pieces<'_> {
                fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
                    let n = buf.len().min(self.1);
                    self.0.read(&mut buf[..n])
                }
            }
            let (chars, ok) = reference(data);
            ch.step();
            let what = || format!("{} x {:?} cut {} in pieces {}", n, unit, cut, how);
            let e = || (chars.clone(), ok);
            match how {
                0 => judge_reader(&what, data, Drive::Next, e, &chars),
                6 => judge_reader(&what, Pieces(data, 8192), Drive::Next, e, &chars),
                7 => judge_reader(&what, io::BufReader::with_capacity(7, data), Drive::UntilEach, e, &chars),
                k => judge_reader(&what, Pieces(data, k), Drive::Next, e, &chars),
            }
        },
    ));
    v
}

fn main() {
    mc::main(Check {
        id: "C07",
        families,
        assumptions: &[
            "Reference: std::str::from_utf8.",
            "What a reader does after it has reported an error is not constrained.",
            "Utf8Reader::next panicking on a failure of its source (the reader interface has no error channel) is a listed finding.",
        ],
    })
}
