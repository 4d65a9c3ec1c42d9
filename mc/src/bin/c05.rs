//! C05: number literals decode to exactly the denoted value or are rejected.

use mc::model::*;
use mc::walk::config;
use mc::*;
use serdere::*;
use serdere_json::*;

type D<'a> = TextDeserializer<&'a str>;
type E<'a> = DeserializeError<StrPosition<'a>>;

#[derive(Debug, Clone, Copy, PartialEq)]
enum Got {
    Int(Int),
    F32(u32),
    F64(u64),
}

struct Ty {
    name: &'static str,
    min: i128,
    max: u128,
    get: for<'a, 'b> fn(&'b mut D<'a>) -> Result<Got, E<'a>>,
}

macro_rules! ty {
    ($t:ident, $get:ident) => {
        Ty { name: stringify!($t), min: $t::MIN as i128, max: $t::MAX as u128, get: |d| d.$get().map(|x: $t| Got::Int(x.into())) }
    };
}

fn types() -> Vec<Ty> {
    vec![
        ty!(u8, get_u8),
        ty!(i8, get_i8),
        ty!(u16, get_u16),
        ty!(i16, get_i16),
        ty!(u32, get_u32),
        ty!(i32, get_i32),
        ty!(u64, get_u64),
        ty!(i64, get_i64),
        ty!(u128, read_number),
        ty!(i128, read_number),
        Ty { name: "f32", min: 0, max: 0, get: |d| d.get_f32().map(|x| Got::F32(x.to_bits())) },
        Ty { name: "f64", min: 0, max: 0, get: |d| d.get_f64().map(|x| Got::F64(x.to_bits())) },
    ]
}

#[derive(Clone, Copy, Debug)]
enum Place {
    Root,
    Item,
    Buffered,
    BufferedItem,
    LastItem,
    LastEntry,
    BufferedLast,
}
const PLACES: [Place; 4] = [Place::Root, Place::Item, Place::Buffered, Place::BufferedItem];

fn read<'a>(doc: &'a str, place: Place, get: for<'x, 'b> fn(&'b mut D<'x>) -> Result<Got, E<'x>>) -> Result<Got, E<'a>> {
    let mut d = TextDeserializer::new(config(false), doc)?;
    let r;
    match place {
        Place::Root => r = get(&mut d)?,
        Place::Item => {
            d.open_list()?;
            d.push_item()?;
            r = get(&mut d)?;
            d.push_item()?;
            d.get_bool()?;
            d.close_list()?;
        }
        Place::Buffered => {
            d.open_object()?;
            d.push_entry("last")?;
            d.get_bool()?;
            d.push_entry("n")?;
            r = get(&mut d)?;
            d.push_entry("s")?;
            assert_eq!(d.read_str()?, "77");
            d.close_object()?;
        }
        Place::BufferedItem => {
            d.open_object()?;
            d.push_entry("last")?;
            d.get_bool()?;
            d.push_entry("n")?;
            d.open_list()?;
            d.push_item()?;
            r = get(&mut d)?;
            d.push_item()?;
            d.get_bool()?;
            d.close_list()?;
            d.close_object()?;
        }
        Place::LastItem => {
            d.open_list()?;
            d.push_item()?;
            r = get(&mut d)?;
            d.close_list()?;
        }
        Place::LastEntry => {
            d.open_object()?;
            d.push_entry("n")?;
            r = get(&mut d)?;
            d.close_object()?;
        }
        Place::BufferedLast => {
            d.open_object()?;
            assert!(!d.try_push_entry("other")?);
            d.push_entry("n")?;
            r = get(&mut d)?;
            d.close_object()?;
        }
    }
    d.close()?;
    Ok(r)
}

fn document(lit: &str, place: Place) -> String {
    match place {
        Place::Root => lit.to_string(),
        Place::Item => format!("[{},true]", lit),
        Place::Buffered => format!("{{\"n\":{},\"s\":\"77\",\"last\":true}}", lit),
        Place::BufferedItem => format!("{{\"n\":[{} ,true] ,\"last\":true}}", lit),
        Place::LastItem => format!("[{}]", lit),
        Place::LastEntry | Place::BufferedLast => format!("{{\"n\":{}}}", lit),
    }
}

/// Reads the literal as every type at every place.
fn judge(ch: &mut Ch, lit: &str) -> Outcome {
    judge_at(ch, lit, "", &PLACES)
}

/// Reads the literal, followed by `sep`, as every type at the given places.
fn judge_at(ch: &mut Ch, lit: &str, sep: &str, places: &[Place]) -> Outcome {
    assert!(matches!(parse(&chars(lit), false), Ok(Val { node: Node::Num(_), .. })), "harness literal {:?}", lit);
    thread_local!(static TYPES: Vec<Ty> = types());
    ch.state(lit);
    ch.note(|| format!("literal {}", clip(lit)));
    let dec = decimal(lit);
    for &place in places {
        let doc = document(&format!("{}{}", lit, sep), place);
        TYPES.with(|tys| {
            for ty in tys {
                let want = match ty.name {
                    "f32" => {
                        let f: f32 = lit.parse().expect("f32");
                        Some(Got::F32(f.to_bits())).filter(|_| f.is_finite())
                    }
                    "f64" => {
                        let f: f64 = lit.parse().expect("f64");
                        Some(Got::F64(f.to_bits())).filter(|_| f.is_finite())
                    }
                    _ => dec.as_ref().and_then(|d| d.integer(ty.min, ty.max)).map(Got::Int),
                };
                let float = ty.name.starts_with('f');
                let got = no_panic(|| format!("{} read as {} ({:?})", clip(lit), ty.name, place), || read(&doc, place, ty.get))?;
                ch.step();
                match got {
                    Ok(g) => {
                        // A float beyond the range may be infinite of the right sign
                        let inf = match g {
                            Got::F32(b) => float && f32::from_bits(b) == lit.parse::<f32>().unwrap(),
                            Got::F64(b) => float && f64::from_bits(b) == lit.parse::<f64>().unwrap(),
                            _ => false,
                        };
                        let ok = Some(g) == want || (want.is_none() && inf);
                        check!(ok, "{} read as {} ({:?}): {:?}, expected {:?}", clip(lit), ty.name, place, g, want);
                    }
                    Err(e) => {
                        let fits = dec.as_ref().map(|d| d.fits).unwrap_or(false);
                        check!(
                            want.is_none() || !fits,
                            "{} read as {} ({:?}): error {}, expected {:?}",
                            clip(lit), ty.name, place, e.message(), want
                        );
                    }
                }
            }
            Ok(())
        })?;
    }
    Ok(())
}

/// Spells the number `digits` x 10^`shift` with the decimal point moved `point` digits into the
/// digits from the right, `zeros` zeros appended to the fraction.
fn spell(neg: bool, digits: &str, shift: i64, point: usize, zeros: usize, exp: &str) -> String {
    let mut d = digits.to_string();
    let mut s = String::new();
    if neg {
        s.push('-');
    }
    while d.len() <= point {
        d.insert(0, '0');
    }
    let (int, frac) = d.split_at(d.len() - point);
    let int = int.trim_start_matches('0');
    s.push_str(if int.is_empty() { "0" } else { int });
    if !frac.is_empty() || zeros > 0 {
        s.push('.');
        s.push_str(frac);
        s.push_str(&"0".repeat(zeros));
    }
    let e = shift + point as i64;
    if e != 0 || exp != "" {
        let e = match exp {
            "E+" if e >= 0 => format!("E+{}", e),
            "e00" => format!("e{}00{}", if e < 0 { "-" } else { "" }, e.abs()),
            _ => format!("e{}", e),
        };
        s.push_str(&e);
    }
    s
}

fn boundary_digits() -> Vec<String> {
    let mut v: Vec<u128> = Vec::new();
    for m in [
        u8::MAX as u128, i8::MAX as u128, u16::MAX as u128, i16::MAX as u128, u32::MAX as u128, i32::MAX as u128,
        u64::MAX as u128, i64::MAX as u128, i128::MAX as u128, 1 << 24, 1 << 53, 1, 10, 100,
    ] {
        for d in 0..=3 {
            v.push(m + d);
            v.push(m.saturating_sub(d));
        }
        v.push(m / 9 * 10);
        v.push(m / 10 * 10);
        v.push(m / 10 * 10 + 10);
        v.push(m / 100 * 100);
        v.push(m / 100 * 100 + 100);
    }
    v.sort();
    v.dedup();
    let mut s: Vec<String> = v.into_iter().map(|x| x.to_string()).collect();
    s.push("340282366920938463463374607431768211455".into());
    s.push("340282366920938463463374607431768211456".into());
    s.push("340282366920938463463374607431768211460".into());
    s.push("3402823669209384634633746074317682114550".into());
    s
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = Vec::new();
    let len = t.pick(6, 8);
    v.push(family(
        "literals",
        format!("all valid literals of at most {} characters over \"0 1 2 5 9 - + . e\", as 12 types at 4 places", len),
        move |ch| {
            let a = ['0', '1', '2', '5', '9', '-', '+', '.', 'e'];
            let mut s = String::new();
            for _ in 0..len {
                let c = ch.choose(a.len() + 1);
                if c == 0 {
                    break;
                }
                s.push(a[c - 1]);
                if matches!(parse(&chars(&s), false), Err(e) if e.at < s.len()) {
                    return ch.skip();
                }
            }
            if parse(&chars(&s), false).is_err() {
                return ch.skip();
            }
            judge(ch, &s)
        },
    ));
    let len = t.pick(4, 6);
    v.push(family(
        "followed by",
        format!("all valid literals of at most {} characters over \"0 1 7 - + . e\" followed by each kind of whitespace and each kind of separator, as 12 types at 7 places", len),
        move |ch| {
            let a = ['0', '1', '7', '-', '+', '.', 'e'];
            let sep = *ch.pick(&["", " ", "\t", "\n", "\r", "\t ", "\r\n"]);
            let mut s = String::new();
            for _ in 0..len {
                let c = ch.choose(a.len() + 1);
                if c == 0 {
                    break;
                }
                s.push(a[c - 1]);
                if matches!(parse(&chars(&s), false), Err(e) if e.at < s.len()) {
                    return ch.skip();
                }
            }
            if parse(&chars(&s), false).is_err() {
                return ch.skip();
            }
            use Place::*;
            judge_at(ch, &s, sep, &[Root, Item, Buffered, BufferedItem, LastItem, LastEntry, BufferedLast])
        },
    ));
    let n = t.pick(70_000, 300_000);
    v.push(family("integers", format!("every integer from -{} to {} spelled plainly, with .0, scaled by e1 / e-1 / E+2", n, n), move |ch| {
        let i = ch.choose(2 * n + 1) as i64 - n as i64;
        let lit = match ch.choose(5) {
            0 => format!("{}", i),
            1 => format!("{}.0", i),
            2 => format!("{}{}e-1", i, if i == 0 { ".0" } else { "0" }),
            3 => format!("{}.{}e1", i / 10, (i % 10).abs()),
            _ => format!("{}.{:02}E+2", i / 100, (i % 100).abs()),
        };
        judge(ch, &if i < 0 && !lit.starts_with('-') { format!("-{}", lit) } else { lit })
    }));
    v.push(family(
        "boundaries",
        "digits around the limits of every type x sign x every decimal point position x 0..3 trailing zeros x scale 10^-2..10^2 x 4 exponent spellings",
        move |ch| {
            let b = boundary_digits();
            let d = ch.pick(&b);
            let neg = ch.flip();
            let point = ch.choose(d.len() + 2);
            let zeros = ch.choose(t.pick(2, 4));
            let shift = ch.choose(5) as i64 - 2;
            let exp = *ch.pick(&["", "e", "E+", "e00"]);
            let lit = spell(neg, d, shift, point, zeros, exp);
            judge(ch, &lit)
        },
    ));
    v.push(family(
        "exponents",
        "10 mantissas x every exponent -420..420 and around the 32-bit limits, in 4 spellings",
        move |ch| {
            let m = *ch.pick(&["1", "-1", "0", "-0", "10", "1.5", "100.00", "0.001", "9.999999999999999999", "123456789012345678901234567890"]);
            let e: i64 = match ch.choose(2) {
                0 => ch.choose(841) as i64 - 420,
                _ => {
                    let base = *ch.pick(&[
                        i32::MAX as i64, -(i32::MAX as i64), u32::MAX as i64, -(u32::MAX as i64), 1 << 33, -(1 << 33), 65536, -65536, 128, -128, 40000, -40000,
                    ]);
                    base + ch.choose(9) as i64 - 4
                }
            };
            let s = match ch.choose(4) {
                0 => format!("{}e{}", m, e),
                1 => format!("{}E{}", m, e),
                2 => format!("{}e{}{}", m, if e < 0 { "-" } else { "+" }, e.abs()),
                _ => format!("{}e{}000{}", m, if e < 0 { "-" } else { "" }, e.abs()),
            };
            judge(ch, &s)
        },
    ));
    let max = t.pick(120, 700);
    v.push(family(
        "digit counts",
        format!("1..={} (and 1000, 4096, 70000) digits in the integer part, the fraction and the exponent, of 6 digit patterns, with and without a compensating exponent", max),
        move |ch| {
            let n = match ch.choose(max + 3) {
                i if i < max => i + 1,
                i => [1000, 4096, 70000][i - max],
            };
            let pat = |n: usize, p: usize| -> String {
                match p {
                    0 => "0".repeat(n),
                    1 => "9".repeat(n),
                    2 => "1".to_string() + &"0".repeat(n - 1),
                    3 => "0".repeat(n - 1) + "1",
                    4 => (0..n).map(|i| char::from(b'0' + (i * 7 % 10) as u8)).collect(),
                    _ => "5".to_string() + &"0".repeat(n / 2) + &"1".repeat((n - 1) - n / 2),
                }
            };
            let p = ch.choose(6);
            let sign = *ch.pick(&["", "-"]);
            let lit = match ch.choose(6) {
                0 => {
                    let d = pat(n, p);
                    let d = d.trim_start_matches('0');
                    format!("{}{}", sign, if d.is_empty() { "0" } else { d })
                }
                1 => {
                    let d = pat(n, p);
                    let d = d.trim_start_matches('0');
                    format!("{}{}e-{}", sign, if d.is_empty() { "0" } else { d }, n - 1)
                }
                2 => format!("{}0.{}", sign, pat(n, p)),
                3 => format!("{}0.{}e{}", sign, pat(n, p), n),
                4 => format!("{}7.{}", sign, pat(n, p)),
                _ => format!("{}1e{}{}", sign, "0".repeat(n), p),
            };
            judge(ch, &lit)
        },
    ));
    v.push(family(
        "float rounding",
        "decimal expansions at and next to the midpoint of adjacent floats (f32 and f64) over all exponents, 5 mantissas each",
        move |ch| {
            // Midpoints are exact decimals m * 2^e; spelled exactly, one unit above, one below
            let f64s = ch.flip();
            let (lo, hi) = if f64s { (-1076i32, 970) } else { (-151, 104) };
            let step = t.pick(3, 1);
            let e = lo + (ch.choose(((hi - lo) / step) as usize) as i32) * step;
            let base: u128 = if f64s { 1 << 53 } else { 1 << 24 };
            // odd => midpoint between neighbours
            let m = match ch.choose(5) {
                0 => base + 1,
                1 => base + 3,
                2 => 2 * base - 1,
                3 => base + base / 3 | 1,
                _ => base / 2 + 1 | 1,
            };
            let (digits, exp) = scaled(m, e);
            let lit = match ch.choose(3) {
                0 => format!("{}e{}", digits, exp),
                1 => format!("{}1e{}", digits, exp - 1),
                _ => {
                    let below = decrement(&digits);
                    format!("{}9e{}", below, exp - 1)
                }
            };
            judge(ch, &lit)
        },
    ));
    v.push(family(
        "many numbers",
        "1..=40 (and 300, 5000, 40000) numbers of a pool of 24 spellings in an array or an object, from each start in the pool, read in order, backwards or after all were buffered, as 12 types",
        move |ch| {
            let n = ch.choose(43);
            let n = [300, 5000, 40000].get(n.wrapping_sub(40)).copied().unwrap_or(n + 1);
            let start = if n > 40 { ch.choose(3) * 7 } else { ch.choose(POOL.len()) };
            let order = ch.choose(4);
            let lits: Vec<&str> = (0..n).map(|i| POOL[(i * 5 + start) % POOL.len()]).collect();
            judge_many(ch, &lits, order)
        },
    ));
    v
}

const POOL: &[&str] = &[
    "0", "-0", "7", "-1", "12", "255", "256", "-128", "1.5", "100e-2", "1e2", "0.1", "65535", "-32768", "4294967295", "18446744073709551615",
    "-9223372036854775808", "340282366920938463463374607431768211455", "123456789.125e3", "5e-324", "1e308", "0.000", "9007199254740993", "1000000000000000000000e-20",
];

/// Reads every one of the numbers as a type it may be read as (the first, in turn, from the
/// position in the list on).
fn judge_many(ch: &mut Ch, lits: &[&str], order: usize) -> Outcome {
    let tys = types();
    ch.state(&(lits.len(), lits[0], order));
    ch.note(|| format!("{} numbers from {} in order {}", lits.len(), lits[0], order));
    let keyed = order >= 2;
    let mut doc = String::from(if keyed { "{" } else { "{\"v\":[" });
    for (i, l) in lits.iter().enumerate() {
        if i > 0 {
            doc.push(',');
        }
        if keyed {
            doc.push_str(&format!("\"k{}\":", i));
        }
        doc.push_str(l);
    }
    doc.push_str(if keyed { ",\"z\":true}" } else { "],\"z\":true}" });
    let expect = |i: usize| -> (usize, Got) {
        let lit = lits[i];
        let dec = decimal(lit);
        for j in 0..tys.len() {
            let j = (i + j) % tys.len();
            let ty = &tys[j];
            let got = match ty.name {
                "f32" => Some(lit.parse::<f32>().unwrap()).filter(|f| f.is_finite()).map(|f| Got::F32(f.to_bits())),
                "f64" => Some(Got::F64(lit.parse::<f64>().unwrap().to_bits())),
                _ => dec.as_ref().and_then(|d| d.integer(ty.min, ty.max)).map(Got::Int),
            };
            if let Some(g) = got {
                return (j, g);
            }
        }
        unreachable!()
    };
    let go = || -> Result<Option<String>, E<'_>> {
        let mut d = TextDeserializer::new(config(false), &doc[..])?;
        d.open_object()?;
        if order % 2 == 1 {
            d.push_entry("z")?;
            d.get_bool()?;
        }
        if !keyed {
            d.push_entry("v")?;
            d.open_list()?;
        }
        for k in 0..lits.len() {
            // Keyed: backwards, which has the others buffered
            let i = if keyed { lits.len() - 1 - k } else { k };
            if keyed {
                d.push_entry(&format!("k{}", i))?;
            } else {
                d.push_item()?;
            }
            let (j, want) = expect(i);
            let got = (tys[j].get)(&mut d)?;
            if got != want {
                return Ok(Some(format!("number {} of {}, {} read as {}: {:?}, expected {:?}", i, lits.len(), lits[i], tys[j].name, got, want)));
            }
        }
        if !keyed {
            d.close_list()?;
        }
        if order % 2 == 0 {
            d.push_entry("z")?;
            d.get_bool()?;
        }
        d.close_object()?;
        d.close()?;
        Ok(None)
    };
    ch.step();
    match no_panic(|| format!("reading {}", clip(&doc)), go)? {
        Ok(None) => Ok(()),
        Ok(Some(m)) => fail(m),
        Err(e) => fail(format!("reading {}: error {}", clip(&doc), e.message())),
    }
}

/// m * 2^e in decimal.
fn scaled(m: u128, e: i32) -> (String, i64) {
    // digits of m, then doubled or (times 5, exponent - 1)
    let mut d: Vec<u8> = m.to_string().bytes().map(|b| b - b'0').rev().collect();
    let mut exp = 0i64;
    for _ in 0..e.unsigned_abs() {
        let k = if e > 0 { 2 } else { 5 };
        let mut carry = 0u32;
        for x in d.iter_mut() {
            let y = *x as u32 * k + carry;
            *x = (y % 10) as u8;
            carry = y / 10;
        }
        while carry > 0 {
            d.push((carry % 10) as u8);
            carry /= 10;
        }
        if e < 0 {
            exp -= 1;
        }
    }
    (d.iter().rev().map(|x| char::from(b'0' + x)).collect(), exp)
}

fn decrement(s: &str) -> String {
    let mut d: Vec<u8> = s.bytes().collect();
    for x in d.iter_mut().rev() {
        if *x == b'0' {
            *x = b'9';
        } else {
            *x -= 1;
            break;
        }
    }
    let s = String::from_utf8(d).unwrap();
    let t = s.trim_start_matches('0');
    if t.is_empty() { "0".into() } else { t.to_string() }
}

fn main() {
    mc::main(Check {
        id: "C05",
        families,
        assumptions: &[
            "Reference for integers: exact decimal arithmetic on the literal; for floats: the standard library's parser applied to the literal.",
            "Literals whose effective exponent does not fit in 32 bits may be rejected; if accepted, the value must be exact. Literals beyond the float range may be rejected or infinite.",
        ],
    })
}
