//! C01: JSON round trip of every supported value.

#[path = "../../shared/types_list.rs"]
#[macro_use]
mod types_list;
#[path = "../../shared/types.rs"]
mod types;

use mc::*;
use serdere::*;
use serdere_json::*;
use std::io::Read;
use types::*;

/// Delivers at most one byte at a time, with an interruption before each.
struct Trickle<'a> {
    data: &'a [u8],
    interrupted: bool,
}

impl Read for Trickle<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.interrupted = !self.interrupted;
        if self.interrupted {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        match (self.data.split_first(), buf.first_mut()) {
            (Some((b, rest)), Some(out)) => {
                *out = *b;
                self.data = rest;
                Ok(1)
            }
            _ => Ok(0),
        }
    }
}

const INDENTS: [Option<&str>; 6] = [None, Some(""), Some("  "), Some("\t"), Some("\n"), Some(" \r\n\t")];

fn same<T: Val>(what: &str, text: &str, value: &T, got: Result<T, String>) -> Outcome {
    match got {
        Ok(g) if g.same(value) => Ok(()),
        Ok(g) => fail(format!("{}: {:?} was written as {:?} and read back as {:?}", what, value, text, g)),
        Err(e) => fail(format!("{}: {:?} was written as {:?}, which does not read back: {}", what, value, text, e)),
    }
}

fn err<P: std::fmt::Debug>(e: DeserializeError<P>) -> String
where
    DeserializeError<P>: std::fmt::Display,
{
    e.to_string()
}

/// Reads a value with whatever reader, inside the document it was written in.
fn read<R, T>(place: usize, reader: R) -> Result<T, DeserializeError<R::Position>>
where
    R: TextReader,
    T: Deserialize<TextDeserializer<R>>,
{
    let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), reader)?;
    let res = match place {
        0 => Value::with(&mut d, |v| v.get())?,
        // In an object, after later entries have been looked up
        1 => Value::with(&mut d, |v| {
            let mut o = v.into_object()?;
            let last: u8 = o.entry("z")?.get()?;
            let res = o.entry("v")?.get()?;
            let first: u8 = o.entry("a")?.get()?;
            assert!((first, last) == (1, 2), "neighbours of the value were read as {} and {}", first, last);
            o.close()?;
            Ok(res)
        })?,
        // In an array of two, within an object whose other entry is looked up first
        2 => Value::with(&mut d, |v| {
            let mut o = v.into_object()?;
            let last: u8 = o.entry("z")?.get()?;
            let mut list = o.entry("v")?.into_list()?;
            let res: T = list.push()?.get()?;
            list.push()?.skip()?;
            list.close()?;
            o.entry("a")?.skip()?;
            assert!(last == 2, "neighbour of the value was read as {}", last);
            o.close()?;
            Ok(res)
        })?,
        // As the next entry, after a key that is not there
        _ => Value::with(&mut d, |v| {
            let mut o = v.into_object()?;
            assert!(o.try_entry("absent")?.is_none());
            let mut res = None;
            while let Some(mut e) = o.next_entry()? {
                let key = e.key()?.into_owned();
                let v = e.value()?;
                if key == "v" {
                    res = Some(v.get()?);
                } else {
                    v.skip()?;
                }
            }
            Ok(res.expect("the entry with the value"))
        })?,
    };
    d.close()?;
    Ok(res)
}

fn write<T, W: TextWriter>(place: usize, indent: Option<&'static str>, writer: W, value: &T) -> Result<W, W::Error>
where
    T: Serialize<TextSerializer<W>>,
{
    let mut s = TextSerializer::new(TextSerializerConfig { indent }, writer);
    Value::with(&mut s, |v| {
        match place {
            0 => v.put(value),
            1 | 3 => {
                let mut o = v.into_object()?;
                o.entry("a")?.put(&1u8)?;
                o.entry("v")?.put(value)?;
                o.entry("z")?.put(&2u8)?;
                o.close()
            }
            _ => {
                let mut o = v.into_object()?;
                o.entry("a")?.put(&1u8)?;
                let mut list = o.entry("v")?.into_list_sized(2)?;
                list.push()?.put(value)?;
                list.push()?.put(value)?;
                list.close()?;
                o.entry("z")?.put(&2u8)?;
                o.close()
            }
        }
    })?;
    Ok(s.close())
}

fn check_value<T>(ch: &mut Ch, value: &T) -> Outcome
where
    T: Val,
    T: Serialize<TextSerializer<Utf8Writer<Vec<u8>>>>,
    T: for<'a> Serialize<TextSerializer<&'a mut String>>,
    T: for<'a> Deserialize<TextDeserializer<&'a str>> + for<'a> Deserialize<TextDeserializer<Utf8Reader<Trickle<'a>>>>,
{
    let name = std::any::type_name::<T>();
    ch.note(|| format!("{}: {:?}", name, value));
    let run = |ch: &mut Ch| -> Outcome {
        // The convenience functions
        let text = to_str(value);
        ch.state(&(name, &text));
        same("from_str", &text, value, from_str::<T>(&text).map_err(|e| e.message().to_string()))?;
        same("from_reader", &text, value, from_reader::<_, T>(Utf8Reader::new(Trickle { data: text.as_bytes(), interrupted: false }).map_err(|_| ()).expect("reader")).map_err(|e| e.message().to_string()))?;
        ch.steps(2);
        for place in 0..4 {
            for indent in INDENTS {
                let what = format!("place {}, indent {:?}", place, indent);
                let mut text = String::new();
                write(place, indent, &mut text, value).unwrap();
                let bytes = match write(place, indent, Utf8Writer::new(Vec::new()), value) {
                    Ok(w) => w.into_inner(),
                    Err(e) => return fail(format!("{}: writing {:?} to bytes failed: {}", what, value, e)),
                };
                check!(bytes == text.as_bytes(), "{}: {:?} written as string {:?} and as bytes {:?}", what, value, text, String::from_utf8_lossy(&bytes));
                same(&what, &text, value, read::<_, T>(place, text.as_str()).map_err(|e| e.message().to_string()))?;
                ch.steps(1);
                if matches!(indent, None | Some("  ")) {
                    let reader = Utf8Reader::new(Trickle { data: &bytes, interrupted: false }).map_err(|_| ()).expect("reader");
                    let got = read::<_, T>(place, reader).map_err(|e| e.message().to_string());
                    same(&format!("{}, from bytes", what), &text, value, got)?;
                    ch.steps(1);
                }
            }
        }
        Ok(())
    };
    match sut(|| run(ch)) {
        Ok(r) => r,
        Err(p) => fail(format!("{:?} as {}: panicked: {}", value, name, p)),
    }
}

fn run<T>(ch: &mut Ch, lvl: isize) -> Outcome
where
    T: Val,
    T: Serialize<TextSerializer<Utf8Writer<Vec<u8>>>>,
    T: for<'a> Serialize<TextSerializer<&'a mut String>>,
    T: for<'a> Deserialize<TextDeserializer<&'a str>> + for<'a> Deserialize<TextDeserializer<Utf8Reader<Trickle<'a>>>>,
{
    let value = T::gen(ch, lvl);
    check_value(ch, &value)
}

type Run = fn(&mut Ch, isize) -> Outcome;

fn table() -> Vec<(&'static str, Run)> {
    macro_rules! entry {
        ($t:ty) => {
            (stringify!($t), run::<$t> as Run)
        };
    }
    for_types!(entry)
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = Vec::new();
    let mut table = table();
    if let Ok(t) = std::env::var("MC_TYPE") {
        table.retain(|e| e.0.replace(" ", "") == t.replace(" ", ""));
    }
    let n = table.len();
    f.push(family(
        "types",
        format!("{} types (all standard codecs, and compositions of options, lists, arrays, tuples, structs and enums up to 3 deep), all values from the sharp sets of their leaves; 4 places x 6 indents x string/bytes", n),
        move |ch| {
            let (_, run) = table[ch.choose(table.len())];
            run(ch, t.pick(0, -1))
        },
    ));
    f.push(family("small integers", "every value of the 8 and 16 bit integers and their NonZero forms", |ch| {
        match ch.choose(8) {
            0 => check_value(ch, &0u8).and_then(|_| { let v = ch.choose(256) as u8; check_value(ch, &v) }),
            1 => { let v = ch.choose(256) as u8 as i8; check_value(ch, &v) }
            2 => { let v = ch.choose(65536) as u16; check_value(ch, &v) }
            3 => { let v = ch.choose(65536) as u16 as i16; check_value(ch, &v) }
            4 => { let v = NonZeroU8::new(1 + ch.choose(255) as u8).unwrap(); check_value(ch, &v) }
            5 => { let v = NonZeroI8::new((1 + ch.choose(255)) as u8 as i8).unwrap(); check_value(ch, &v) }
            6 => { let v = NonZeroU16::new(1 + ch.choose(65535) as u16).unwrap(); check_value(ch, &v) }
            _ => { let v = NonZeroI16::new((1 + ch.choose(65535)) as u16 as i16).unwrap(); check_value(ch, &v) }
        }
    }));
    f.push(family(
        "integers",
        "32 and 64 bit integers: every power of two and of ten, their negations and neighbours within 2",
        |ch| {
            let pow10 = ch.flip();
            let e = if pow10 { ch.choose(20) } else { ch.choose(65) };
            let base: i128 = if pow10 { 10i128.pow(e as u32) } else { 1i128 << e };
            let v = (base + ch.choose(5) as i128 - 2) * if ch.flip() { -1 } else { 1 };
            macro_rules! one {
                ($t:ident $nz:ident) => {
                    if let Ok(v) = $t::try_from(v) {
                        check_value(ch, &v)?;
                        if let Some(v) = $nz::new(v) {
                            check_value(ch, &v)?;
                        }
                    }
                };
            }
            one!(u32 NonZeroU32);
            one!(i32 NonZeroI32);
            one!(u64 NonZeroU64);
            one!(i64 NonZeroI64);
            Ok(())
        },
    ));
    let f32_bits: u32 = t.pick(8, 14);
    f.push(family(
        "f32",
        format!("all signs and exponents, with the top and the low {} mantissa bits all, and single set and cleared bits", f32_bits / 2),
        move |ch| {
            let sign = (ch.choose(2) as u32) << 31;
            let exp = (ch.choose(255) as u32) << 23;
            let h = f32_bits / 2;
            let m = match ch.choose(3) {
                0 => (ch.choose(1 << h) as u32) << (23 - h) | ch.choose(1 << h) as u32,
                1 => 1 << ch.choose(23),
                _ => !(1 << ch.choose(23)) & 0x7fffff,
            };
            check_value(ch, &f32::from_bits(sign | exp | m))
        },
    ));
    f.push(family(
        "f64",
        "all signs and exponents, mantissas 0, all ones, and single set and cleared bits; thorough: pairs of bits",
        move |ch| {
            let sign = (ch.choose(2) as u64) << 63;
            let exp = (ch.choose(2047) as u64) << 52;
            let m = match ch.choose(t.pick(3, 4)) {
                0 => [0, (1u64 << 52) - 1][ch.choose(2)],
                1 => 1 << (ch.choose(t.pick(4, 52)) * t.pick(17, 1)),
                2 => !(1 << (ch.choose(t.pick(4, 52)) * t.pick(17, 1))) & ((1 << 52) - 1),
                _ => 1 << ch.choose(52) | 1 << ch.choose(52),
            };
            check_value(ch, &f64::from_bits(sign | exp | m))
        },
    ));
    f.push(family("characters", "every scalar value, as char (and below U+3000 as a string of one, and within a string)", |ch| {
        let n = ch.choose(0x110000 - 0x800) as u32;
        let c = char::from_u32(if n < 0xd800 { n } else { n + 0x800 }).unwrap();
        if n < 0x3000 {
            check_value(ch, &c.to_string())?;
            check_value(ch, &format!("a{}\"{}", c, c))?;
            return check_value(ch, &c);
        }
        let text = to_str(&c);
        ch.state(&n);
        ch.step();
        let got = no_panic(|| format!("{:?}", c), || from_str::<char>(&text).map_err(|e| e.message().to_string()))?;
        same("from_str", &text, &c, got)
    }));
    let max = t.pick(4, 5);
    f.push(family("strings", format!("all strings of up to {} characters over 16 awkward ones", max), move |ch| {
        let n = ch.range(0, max);
        let s: String = (0..n).map(|_| *ch.pick(&CHARS)).collect();
        check_value(ch, &s)
    }));
    f.push(family("sizes", "strings of every length to 300 and around 4096, 65536 (4 fillings), lists of every length to 300 and 1000, 65537 (4 kinds), nesting of lists to 300, arrays of 31 sizes to 1000 (3 kinds)", |ch| match ch.choose(4) {
        0 => {
            let n = large(ch, &[4095, 4096, 4097, 65534, 65535, 65536, 70000]);
            let c = *ch.pick(&['a', '\n', 'é', '\u{10000}']);
            let mut s: String = std::iter::repeat(c).take(n).collect();
            s.push('.');
            check_value(ch, &s)
        }
        1 => {
            let n = large(ch, &[1000, 65537]);
            match ch.choose(4) {
                0 => {
                    let v: Vec<Option<u16>> = (0..n).map(|i| if i % 3 == 0 { None } else { Some((i % 311) as u16 * 210) }).collect();
                    check_value(ch, &v)
                }
                1 => check_value(ch, &vec![(); n]),
                2 => {
                    let v: Vec<Vec<bool>> = (0..n).map(|i| vec![i % 2 == 0; i % 4]).collect();
                    check_value(ch, &v)
                }
                _ => {
                    let v: Vec<(String, char)> = (0..n).map(|i| (i.to_string(), char::from_u32(i as u32 % 0xd800).unwrap())).collect();
                    check_value(ch, &v)
                }
            }
        }
        2 => {
            let n = ch.range(0, 300);
            let mut t = Tree { label: "leaf".into(), kids: vec![] };
            for i in 0..n {
                t = Tree { label: format!("{}", i), kids: if i % 2 == 0 { vec![t] } else { vec![Tree::default(), t] } };
            }
            check_value(ch, &t)
        }
        _ => {
            const ARRAYS: &[fn(&mut Ch, usize) -> Outcome] = &arrays!(
                0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 31 32 33 63 64 65 127 128 129 255 256 257 1000
            );
            let kind = ch.choose(3);
            ch.pick(ARRAYS)(ch, kind)
        }
    }));
    f
}

/// Every length to 300, and some more.
fn large(ch: &mut Ch, more: &[usize]) -> usize {
    let n = ch.choose(301 + more.len());
    if n <= 300 { n } else { more[n - 301] }
}

macro_rules! arrays {
    ($($n:literal)*) => {
        [$(|ch: &mut Ch, kind: usize| match kind {
            0 => check_value::<[u16; $n]>(ch, &std::array::from_fn(|i| i as u16 * 31)),
            1 => check_value::<[Option<bool>; $n]>(ch, &std::array::from_fn(|i| [None, Some(true), Some(false)][i % 3])),
            _ => check_value::<[String; $n]>(ch, &std::array::from_fn(|i| i.to_string())),
        }),*]
    };
}
use arrays;

fn main() {
    mc::main(Check {
        id: "C01",
        families,
        assumptions: &["Equality of the enumerated types is that of mc/shared/types.rs."],
    })
}
