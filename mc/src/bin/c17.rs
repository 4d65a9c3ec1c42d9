//! C17: floats survive the JSON round trip bit for bit.

use mc::model::*;
use mc::readers::CharReader;
use mc::walk::config;
use mc::*;
use serdere::*;
use serdere_json::*;

trait Float: Copy + std::fmt::Debug {
    fn bits(self) -> u64;
    fn finite(self) -> bool;
    fn std(s: &str) -> Option<u64>;
    fn write(self) -> String;
    fn write_in_list(self, indent: Option<&'static str>) -> Vec<u8>;
    fn read<R: TextReader>(d: &mut TextDeserializer<R>) -> Result<u64, DeserializeError<R::Position>>;
    fn from_str(s: &str) -> Result<u64, String>;
}

macro_rules! float {
    ($t:ident, $get:ident) => {
        impl Float for $t {
            fn bits(self) -> u64 {
                self.to_bits() as u64
            }
            fn finite(self) -> bool {
                self.is_finite()
            }
            fn std(s: &str) -> Option<u64> {
                s.parse::<$t>().ok().map(|x| x.bits())
            }
            fn write(self) -> String {
                to_str(&self)
            }
            fn write_in_list(self, indent: Option<&'static str>) -> Vec<u8> {
                let mut out = Vec::new();
                let mut s = TextSerializer::new(TextSerializerConfig { indent }, Utf8Writer::new(&mut out));
                Value::with(&mut s, |v| v.put(&vec![(self, Some(self)), (-self, None)])).unwrap();
                s.close();
                out
            }
            fn read<R: TextReader>(d: &mut TextDeserializer<R>) -> Result<u64, DeserializeError<R::Position>> {
                d.$get().map(|x| x.bits())
            }
            fn from_str(s: &str) -> Result<u64, String> {
                from_str::<$t>(s).map(|x| x.bits()).map_err(|e| e.message().to_string())
            }
        }
    };
}
float!(f32, get_f32);
float!(f64, get_f64);

fn buffered<F: Float, R: TextReader>(reader: R) -> Result<(u64, u64), String> {
    let go = || {
        let mut d = TextDeserializer::new(config(false), reader)?;
        d.open_object()?;
        d.push_entry("z")?;
        d.get_bool()?;
        d.push_entry("l")?;
        d.open_list()?;
        d.push_item()?;
        let a = F::read(&mut d)?;
        d.close_list()?;
        d.push_entry("v")?;
        let b = F::read(&mut d)?;
        d.close_object()?;
        d.close()?;
        Ok((a, b))
    };
    go().map_err(|e: DeserializeError<R::Position>| e.message().to_string())
}

fn is_number(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    let digits = |i: &mut usize| {
        let j = *i;
        while *i < b.len() && b[*i].is_ascii_digit() {
            *i += 1;
        }
        *i - j
    };
    if b.first() == Some(&b'-') {
        i = 1;
    }
    let z = b.get(i) == Some(&b'0');
    let n = digits(&mut i);
    if n == 0 || (z && n > 1) {
        return false;
    }
    if b.get(i) == Some(&b'.') {
        i += 1;
        if digits(&mut i) == 0 {
            return false;
        }
    }
    if matches!(b.get(i), Some(b'e' | b'E')) {
        i += 1;
        if matches!(b.get(i), Some(b'+' | b'-')) {
            i += 1;
        }
        if digits(&mut i) == 0 {
            return false;
        }
    }
    i == b.len()
}

/// The whole judgement without any allocation for bookkeeping (used for the big sweeps).
fn core<F: Float>(x: F) -> Outcome {
    let text = no_panic(|| format!("writing {:?}", x), || x.write())?;
    check!(is_number(&text), "{:?} ({:#x}) is written as {}, which is no JSON number", x, x.bits(), text);
    check!(F::std(&text) == Some(x.bits()), "{:?} ({:#x}) is written as {}, which denotes {:x?}", x, x.bits(), text, F::std(&text));
    let got = no_panic(|| format!("reading {}", text), || F::from_str(&text))?;
    check!(got == Ok(x.bits()), "{:?} ({:#x}) is written as {}, read back as {:x?}", x, x.bits(), text, got);
    let doc = format!("{{\"v\":{},\"l\":[{}],\"z\":true}}", text, text);
    let got = no_panic(|| format!("reading {}", doc), || buffered::<F, _>(&doc[..]))?;
    check!(got == Ok((x.bits(), x.bits())), "{:?} ({:#x}) is written as {}, read back from a buffered entry as {:x?}", x, x.bits(), text, got);
    Ok(())
}

fn more<F: Float>(x: F) -> Outcome
where
    F: for<'a> Deserialize<TextDeserializer<CharReader<'a>>> + for<'a> Deserialize<TextDeserializer<&'a str>> + for<'a> Deserialize<TextDeserializer<Utf8Reader<&'a [u8]>>>,
    F: std::ops::Neg<Output = F>,
{
    for indent in [None, Some("\t")] {
        let bytes = no_panic(|| format!("writing {:?}", x), || x.write_in_list(indent))?;
        let text = std::str::from_utf8(&bytes).map_err(|_| Fail { key: None, msg: "not UTF-8".into() })?;
        check!(parse(&chars(text), false).is_ok(), "{:?}: {} is not JSON", x, text);
        let want = vec![(x.bits(), Some(x.bits())), ((-x).bits(), None)];
        let conv = |v: Vec<(F, Option<F>)>| v.into_iter().map(|(a, b)| (a.bits(), b.map(|b| b.bits()))).collect::<Vec<_>>();
        let a = no_panic(|| format!("reading {}", text), || from_str::<Vec<(F, Option<F>)>>(text).map(conv).map_err(|e| e.message().to_string()))?;
        check!(a.as_ref() == Ok(&want), "{:?}: {} read back from a string as {:x?}", x, text, a);
        let b = no_panic(|| format!("reading {}", text), || {
            from_reader::<_, Vec<(F, Option<F>)>>(Utf8Reader::new(&bytes[..]).unwrap()).map(conv).map_err(|e| e.message().to_string())
        })?;
        check!(b.as_ref() == Ok(&want), "{:?}: {} read back from bytes as {:x?}", x, text, b);
        let cs = chars(text);
        let c = no_panic(|| format!("reading {}", text), || {
            from_reader::<_, Vec<(F, Option<F>)>>(CharReader::new(&cs)).map(conv).map_err(|e| e.message().to_string())
        })?;
        check!(c.as_ref() == Ok(&want), "{:?}: {} read back from characters as {:x?}", x, text, c);
    }
    Ok(())
}

fn judge32(ch: &mut Ch, bits: u32, full: bool) -> Outcome {
    let x = f32::from_bits(bits);
    if !x.finite() {
        return ch.skip();
    }
    ch.step();
    ch.state(&bits);
    ch.note(|| format!("f32 {:#x} = {:?}", bits, x));
    core(x)?;
    if full {
        more(x)?;
    }
    Ok(())
}

fn judge64(ch: &mut Ch, bits: u64, full: bool) -> Outcome {
    let x = f64::from_bits(bits);
    if !x.finite() {
        return ch.skip();
    }
    ch.step();
    ch.state(&bits);
    ch.note(|| format!("f64 {:#x} = {:?}", bits, x));
    core(x)?;
    if full {
        more(x)?;
    }
    Ok(())
}

/// Mantissas of `w` bits with at most two bits set, or at most two clear.
fn sparse(w: u32, i: usize) -> u64 {
    let w = w as usize;
    let pairs = w * (w - 1) / 2;
    let n = 1 + w + pairs;
    let j = i % n;
    let m = if j == 0 {
        0
    } else if j <= w {
        1u64 << (j - 1)
    } else {
        let mut k = j - 1 - w;
        let mut a = 0;
        while k >= w - 1 - a {
            k -= w - 1 - a;
            a += 1;
        }
        1u64 << a | 1u64 << (a + 1 + k)
    };
    if i < n { m } else { !m & ((1u64 << w) - 1) }
}

fn sparse_count(w: usize) -> usize {
    2 * (1 + w + w * (w - 1) / 2)
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = Vec::new();
    if t.thorough() {
        v.push(family("every f32", "all 2^32 bit patterns (non-finite ones outside)", move |ch| {
            let hi = ch.choose(1 << 16) as u32;
            let lo = ch.choose(1 << 16) as u32;
            judge32(ch, hi << 16 | lo, false)
        }));
    }
    v.push(family(
        "f32 prefixes",
        "every sign and exponent x every setting of the 12 high mantissa bits x 3 settings of the others",
        move |ch| {
            let se = ch.choose(512) as u32;
            let m = ch.choose(1 << 12) as u32;
            let low = *ch.pick(&[0u32, 1, (1 << 11) - 1]);
            judge32(ch, se << 23 | m << 11 | low, m % 64 == 0)
        },
    ));
    v.push(family("f32 sparse", "every sign and exponent x every mantissa with at most 2 bits set or at most 2 clear", move |ch| {
        let se = ch.choose(512) as u32;
        let m = sparse(23, ch.choose(sparse_count(23))) as u32;
        judge32(ch, se << 23 | m, false)
    }));
    v.push(family("f32 neighbourhoods", "the 4096 patterns around zero, the subnormal limit, one, 2^24, 10^10, and the maximum, both signs", move |ch| {
        let c = *ch.pick(&[2048u32, 0x0080_0000, 1.0f32.to_bits(), 16777216f32.to_bits(), 1e10f32.to_bits(), 0x7F7F_FFFF - 2047, 0.1f32.to_bits(), 1e-5f32.to_bits()]);
        let d = ch.choose(4096) as u32;
        let s = ch.choose(2) as u32;
        judge32(ch, (c - 2048 + d) | s << 31, true)
    }));
    v.push(family("f64 sparse", "every sign and exponent x every mantissa with at most 2 bits set or at most 2 clear", move |ch| {
        let se = ch.choose(4096) as u64;
        let n = sparse_count(52);
        let i = ch.choose(n);
        judge64(ch, se << 52 | sparse(52, i), i == 1)
    }));
    let w = t.pick(10, 13);
    v.push(family(
        "f64 prefixes",
        format!("every sign and exponent x every setting of the {} high mantissa bits x 3 settings of the others", w),
        move |ch| {
            let se = ch.choose(4096) as u64;
            let m = ch.choose(1 << w) as u64;
            let low = *ch.pick(&[0u64, 1, (1 << (52 - w)) - 1]);
            judge64(ch, se << 52 | m << (52 - w) | low, false)
        },
    ));
    v.push(family("f64 neighbourhoods", "the 8192 patterns around zero, the subnormal limit, one, 2^53, 10^15..10^22, and the maximum, both signs", move |ch| {
        let cs = [
            4096u64, 1 << 52, 1.0f64.to_bits(), 9007199254740992f64.to_bits(), 1e15f64.to_bits(), 1e16f64.to_bits(), 1e17f64.to_bits(),
            1e21f64.to_bits(), 1e22f64.to_bits(), 0x7FEF_FFFF_FFFF_FFFF - 4095, 0.1f64.to_bits(), 1e-5f64.to_bits(), 1e-6f64.to_bits(), 5e-324f64.to_bits() + 4096,
        ];
        let c = *ch.pick(&cs);
        let d = ch.choose(8192) as u64;
        let s = ch.choose(2) as u64;
        judge64(ch, (c - 4096 + d) | s << 63, true)
    }));
    let k = t.pick(4_999, 99_999);
    v.push(family(
        "short decimals",
        format!("the floats nearest to every k x 10^e, k in 1..={}, e in -345..=310 (f64) and -50..=40 (f32), and their two neighbours", k),
        move |ch| {
            let k = 1 + ch.choose(k);
            let single = ch.flip();
            if single {
                let e = ch.choose(91) as i32 - 50;
                let x: f32 = format!("{}e{}", k, e).parse().unwrap();
                let b = x.to_bits().wrapping_add(ch.choose(3) as u32).wrapping_sub(1);
                judge32(ch, b, false)
            } else {
                let e = ch.choose(656) as i32 - 345;
                let x: f64 = format!("{}e{}", k, e).parse().unwrap();
                let b = x.to_bits().wrapping_add(ch.choose(3) as u64).wrapping_sub(1);
                judge64(ch, b, false)
            }
        },
    ));
    v.push(family("integers", "every integer -200000..=200000, and 2^k + d, 10^k + d for |d| <= 8, as f32 and f64", move |ch| {
        let x: f64 = match ch.choose(2) {
            0 => ch.choose(400_001) as f64 - 200_000.0,
            _ => {
                let base = ch.choose(64 + 23);
                let d = ch.choose(17) as f64 - 8.0;
                (if base < 64 { 2f64.powi(base as i32) } else { 10f64.powi(base as i32 - 64) }) + d
            }
        };
        if ch.flip() { judge32(ch, (x as f32).to_bits(), false) } else { judge64(ch, x.to_bits(), false) }
    }));
    v.push(family("many floats", "lists of every length to 40 and 300, 5000 and 40000 of floats of a pool of 25 (f64) or 20 (f32), from each start in the pool, read directly or from a buffered entry", |ch| {
        let n = ch.choose(44);
        let n = [300, 5000, 40000].get(n.wrapping_sub(41)).copied().unwrap_or(n);
        let start = ch.choose(if n > 40 { 3 } else { 25 });
        if ch.flip() {
            many(ch, n, start, &POOL.map(|x| x as f32).into_iter().filter(|x| x.is_finite()).collect::<Vec<_>>())
        } else {
            many(ch, n, start, &POOL)
        }
    }));
    v
}

const POOL: [f64; 25] = [
    0.0, -0.0, 1.0, 0.1, -0.3, 5e-324, 1e308, 1.7976931348623157e308, 2.2250738585072014e-308, 9007199254740993.0, 1e22, 1e23, 123456.789, -1e-7, 3.4028234663852886e38,
    1e-45, 16777217.0, 1e10, 1e16, 0.5, 255.0, 1e21, -65535.5, 7e-10, 1.0000000000000002,
];

/// A list of floats, read directly and after it was buffered.
fn many<F: Float + Copy>(ch: &mut Ch, n: usize, start: usize, pool: &[F]) -> Outcome
where
    F: for<'a> Deserialize<TextDeserializer<&'a str>> + for<'a> Serialize<TextSerializer<&'a mut String>>,
{
    let v: Vec<F> = (0..n).map(|i| pool[(i * 7 + start) % pool.len()]).collect();
    let bits = |v: &[F]| v.iter().map(|x| x.bits()).collect::<Vec<_>>();
    ch.state(&bits(&v));
    ch.step();
    let first = |got: &[F]| (0..n).find(|i| got.get(*i).map(|x| x.bits()) != Some(v[*i].bits())).unwrap_or(n);
    let text = no_panic(|| format!("writing {} floats", n), || to_str(&v))?;
    let got = no_panic(|| format!("reading {} floats", n), || from_str::<Vec<F>>(&text).map_err(|e| e.message().to_string()))?;
    let got = match got {
        Ok(g) => g,
        Err(e) => return fail(format!("{} floats from {:?}: error {}", n, v.first(), e)),
    };
    check!(bits(&got) == bits(&v), "{} floats from {:?}: item {} differs", n, v.first(), first(&got));
    let doc = format!("{{\"v\":{},\"s\":\"77\",\"z\":true}}", text);
    let go = || {
        let mut d = TextDeserializer::new(config(false), &doc[..])?;
        d.open_object()?;
        d.push_entry("z")?;
        d.get_bool()?;
        d.push_entry("v")?;
        let mut done = false;
        let v = <Vec<F> as Deserialize<_>>::deserialize(Value::new(&mut d, &mut done), &mut ())?;
        d.push_entry("s")?;
        d.read_str()?;
        d.close_object()?;
        d.close()?;
        Ok(v)
    };
    let got = no_panic(|| format!("reading {} buffered floats", n), || go().map_err(|e: DeserializeError<StrPosition>| e.message().to_string()))?;
    let got = match got {
        Ok(g) => g,
        Err(e) => return fail(format!("{} floats from {:?}, buffered: error {}", n, v.first(), e)),
    };
    check!(bits(&got) == bits(&v), "{} floats from {:?}, buffered: item {} differs", n, v.first(), first(&got));
    Ok(())
}

fn main() {
    mc::main(Check {
        id: "C17",
        families,
        assumptions: &["The standard library's float parser rounds correctly (reference for what a written literal denotes)."],
    })
}
