//! C09: name look-up is exact string matching.

use mc::readers::CharReader;
use mc::walk::config;
use mc::*;
use serdere::*;
use serdere_json::*;
use std::collections::BTreeMap;

/// Builds a table of exactly the given entries and passes it on.
fn with_map<R>(entries: &[(&'static str, usize)], f: impl FnOnce(&NameMap<usize>) -> R) -> R {
    macro_rules! sizes {
        ($($n:literal)*) => {
            match entries.len() {
                $($n => {
                    let array: [(&'static str, usize); $n] = entries.try_into().unwrap();
                    let map = FixedNameMap::new(array);
                    f(map.unfix())
                })*
                n => panic!("no table of size {}", n),
            }
        };
    }
    sizes!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 20 26 31 32 33 48 63 64 65 100 128 200 255 256 257 300 600)
}

/// Feeds `query` in the chunks given by the bits of `cuts` (cut before byte i + 1), comparing the
/// intermediate answers, with an empty chunk at every cut if `empties`.
fn feed(map: &NameMap<usize>, query: &str, expected: &dyn Fn(&[u8]) -> Option<usize>, cuts: u64, empties: bool) -> Outcome {
    let bytes = query.as_bytes();
    let mut lookup = map.lookup();
    let mut start = 0;
    if empties {
        lookup.write_bytes(&[]);
    }
    for end in 1..=bytes.len() {
        if end == bytes.len() || cuts >> ((end - 1) % 64) & 1 == 1 {
            lookup.write_bytes(&bytes[start..end]);
            if empties {
                lookup.write_bytes(&[]);
                lookup.write_str("");
            }
            start = end;
            let got = lookup.result().copied();
            check!(
                got == expected(&bytes[..end]),
                "after the bytes {:?} in chunks cut at {:b} (empty chunks: {}): found {:?} instead of {:?}",
                &bytes[..end], cuts, empties, got, expected(&bytes[..end])
            );
        }
    }
    let got = lookup.result().copied();
    check!(got == expected(bytes), "{:?}: found {:?} instead of {:?}", query, got, expected(bytes));
    Ok(())
}

/// Looks `query` up in every way of feeding it (all chunkings if short).
fn query_all_ways(ch: &mut Ch, map: &NameMap<usize>, model: &BTreeMap<&'static str, usize>, query: &str, deep: bool) -> Outcome {
    let expected = |b: &[u8]| std::str::from_utf8(b).ok().and_then(|s| model.get(s).copied());
    let want = model.get(query).copied();
    let got = map.get(query).copied();
    check!(got == want, "get({:?}) is {:?} instead of {:?}", query, got, want);
    let mut by_char = map.lookup();
    let mut prefix = String::new();
    for c in query.chars() {
        by_char.write_char(c);
        prefix.push(c);
        let got = by_char.result().copied();
        let want = model.get(prefix.as_str()).copied();
        check!(got == want, "after writing {:?} by characters: {:?} instead of {:?}", prefix, got, want);
    }
    let got = by_char.result().copied();
    check!(got == want, "{:?} by characters: {:?} instead of {:?}", query, got, want);
    for (i, _) in query.char_indices().chain([(query.len(), ' ')]) {
        let mut l = map.lookup();
        l.write_str(&query[..i]);
        l.write_str(&query[i..]);
        let got = l.result().copied();
        check!(got == want, "{:?} as two strings split at {}: {:?} instead of {:?}", query, i, got, want);
    }
    let n = query.len().saturating_sub(1);
    if deep && n <= 7 {
        for cuts in 0..1u64 << n {
            for empties in [false, true] {
                feed(map, query, &expected, cuts, empties)?;
                ch.step();
            }
        }
    } else {
        for cuts in [0, u64::MAX, 0x5555_5555_5555_5555] {
            feed(map, query, &expected, cuts, true)?;
            ch.step();
        }
    }
    Ok(())
}

/// Looks up a query that may be long, in pieces of some sizes and split at some places.
fn long_query(ch: &mut Ch, map: &NameMap<usize>, model: &BTreeMap<&str, usize>, query: &str) -> Outcome {
    let short = |q: &str| format!("{} bytes {:?}..", q.len(), q.chars().take(6).collect::<String>());
    let want = model.get(query).copied();
    check!(map.get(query).copied() == want, "get({}) is {:?} instead of {:?}", short(query), map.get(query), want);
    let bytes = query.as_bytes();
    let mut l = map.lookup();
    for c in query.chars() {
        l.write_char(c);
    }
    check!(l.result().copied() == want, "{} by characters: {:?} instead of {:?}", short(query), l.result(), want);
    for size in [1, 2, 3, 7, 16, 64, 255, 256, 257] {
        if size > 1 && size >= bytes.len() || size < 64 && bytes.len() > 5000 {
            continue;
        }
        let mut l = map.lookup();
        for chunk in bytes.chunks(size) {
            l.write_bytes(chunk);
        }
        check!(l.result().copied() == want, "{} in pieces of {}: {:?} instead of {:?}", short(query), size, l.result(), want);
        ch.step();
    }
    let n = bytes.len();
    for at in [0, 1, 2, n / 2, n.saturating_sub(4), n.saturating_sub(3), n.saturating_sub(2), n.saturating_sub(1), n] {
        let at = at.min(n);
        let mut l = map.lookup();
        l.write_bytes(&bytes[..at]);
        l.write_bytes(&[]);
        if at > 0 && query.is_char_boundary(at) {
            let want = model.get(&query[..at]).copied();
            check!(l.result().copied() == want, "the first {} bytes of {}: {:?} instead of {:?}", at, short(query), l.result(), want);
        }
        l.write_bytes(&bytes[at..]);
        check!(l.result().copied() == want, "{} split at {}: {:?} instead of {:?}", short(query), at, l.result(), want);
        ch.step();
    }
    Ok(())
}

fn check_map(ch: &mut Ch, names: &[&'static str], queries: &[&'static str], deep: bool) -> Outcome {
    let entries: Vec<(&'static str, usize)> = names.iter().enumerate().map(|(i, n)| (*n, 100000 - i * 7)).collect();
    let model: BTreeMap<&'static str, usize> = entries.iter().copied().collect();
    ch.state(names);
    ch.note(|| format!("names {:?}", names));
    let res = sut(|| {
        with_map(&entries, |map| {
            check!(map.size() == names.len(), "size is {} for {:?}", map.size(), names);
            let mut got: Vec<(&str, usize)> = map.entries().map(|(n, v)| (n, *v)).collect();
            got.sort();
            let want: Vec<(&str, usize)> = model.iter().map(|(n, v)| (*n, *v)).collect();
            check!(got == want, "entries are {:?} instead of {:?}", got, want);
            for q in queries {
                query_all_ways(ch, map, &model, q, deep)?;
            }
            Ok(())
        })
    });
    match res {
        Ok(r) => r.map_err(|f| Fail { key: f.key, msg: format!("names {:?}: {}", names, f.msg) }),
        Err(p) => fail(format!("names {:?}: panicked: {}", names, p)),
    }
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// All words over the alphabet up to a length.
fn words(alphabet: &[char], max: usize) -> Vec<&'static str> {
    let mut res = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..max {
        let mut next = Vec::new();
        for w in &last {
            for c in alphabet {
                next.push(format!("{}{}", w, c));
            }
        }
        res.extend(next.iter().cloned());
        last = next;
    }
    res.into_iter().map(leak).collect()
}

/// Chooses an ordered selection of `k` distinct elements of the pool.
fn arrangement(ch: &mut Ch, pool: &[&'static str], k: usize) -> Vec<&'static str> {
    let mut left = pool.to_vec();
    (0..k)
        .map(|_| {
            let i = ch.choose(left.len());
            left.remove(i)
        })
        .collect()
}

fn sets(name: &str, pool: Vec<&'static str>, queries: Vec<&'static str>, max: usize, deep: bool) -> Family {
    let bounds = format!(
        "all ordered selections of up to {} of {} names {:?}; every one of {} queries, whole, by characters, as two strings, and {}",
        max, pool.len(), clip(&format!("{:?}", pool)), queries.len(),
        if deep { "in all byte chunkings, with and without empty chunks" } else { "in single bytes and pairs" }
    );
    family(name, bounds, move |ch| {
        let k = ch.range(0, max);
        let names = arrangement(ch, &pool, k);
        check_map(ch, &names, &queries, deep)
    })
}

fn clip(s: &str) -> String {
    s.chars().take(160).collect()
}

/// Name sets whose members are prefixes, neighbours and look-alikes of each other.
fn awkward() -> Vec<Vec<&'static str>> {
    vec![
        vec!["a", "aa", "aaa", "aaaa", "aaaaa", "aaaaaa", "aaaaaaa", "aaaaaaaa", "aaaaaaaaa", ""],
        vec!["pot", "potato", "po", "p", "pots", "pit", "put", "pot\0", "q", "o"],
        vec!["x", "y", "xy", "yx", "xx", "yy", "xyx", "yxy", "xxy", "yyx"],
        vec!["é", "e", "è", "ê", "e\u{301}", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{10ffff}"],
        vec!["field1", "field10", "field100", "field2", "field", "Field1", "field11", "fielD1", "field1 ", " field1"],
        vec!["\0", "\0\0", "", "\0a", "a\0", "a", "a\0a", "aa", "\u{1}", "\u{ff}"],
    ]
}

fn near(names: &[&'static str]) -> Vec<&'static str> {
    let mut q: Vec<String> = Vec::new();
    for n in names {
        q.push(n.to_string());
        q.push(format!("{}a", n));
        q.push(format!("{}\0", n));
        q.push(format!("a{}", n));
        let mut c = n.chars();
        c.next_back();
        q.push(c.as_str().to_string());
        let mut c = n.chars();
        c.next();
        q.push(c.as_str().to_string());
        q.push(n.to_uppercase());
    }
    q.sort();
    q.dedup();
    q.into_iter().map(leak).collect()
}

/// Tables made in a constant context.
const CONST0: &NameMap<usize> = FixedNameMap::new([]).unfix();
const CONST1: &NameMap<usize> = FixedNameMap::new([("", 1)]).unfix();
const CONST5: &NameMap<usize> = FixedNameMap::new([("b", 1), ("a", 2), ("", 3), ("ab", 4), ("é", 5)]).unfix();
const CONST9: &NameMap<usize> = FixedNameMap::new([
    ("i", 1), ("h", 2), ("g", 3), ("f", 4), ("e", 5), ("d", 6), ("c", 7), ("b", 8), ("a", 9),
])
.unfix();
const CONST12: &NameMap<usize> = FixedNameMap::new([
    ("kk", 1), ("k", 2), ("kkk", 3), ("a", 4), ("z", 5), ("az", 6), ("za", 7), ("zz", 8), ("aa", 9), ("aaa", 10), ("y", 11), ("", 12),
])
.unfix();

fn constant(i: usize) -> (&'static NameMap<usize>, BTreeMap<&'static str, usize>) {
    match i {
        0 => (CONST0, BTreeMap::new()),
        1 => (CONST1, [("", 1)].into()),
        2 => (CONST5, [("b", 1), ("a", 2), ("", 3), ("ab", 4), ("é", 5)].into()),
        3 => (CONST9, ["i", "h", "g", "f", "e", "d", "c", "b", "a"].into_iter().zip(1..).collect()),
        _ => (CONST12, ["kk", "k", "kkk", "a", "z", "az", "za", "zz", "aa", "aaa", "y", ""].into_iter().zip(1..).collect()),
    }
}

fn families(t: Tier) -> Vec<Family> {
    let mut f = Vec::new();
    let w3 = words(&['a', 'b'], 3);
    let mut q4 = words(&['a', 'b'], 4);
    q4.extend(["c", "\0", "A"]);
    f.push(sets("small sets", w3.clone(), q4.clone(), t.pick(4, 5), true));
    f.push(sets("sets of words", w3, words(&['a', 'b'], 3), t.pick(5, 6), false));
    let w2 = vec!["", "a", "b", "c", "ab", "abc", "ac", "é", "è", "aé", "\u{10ffff}"];
    f.push(sets("mixed sets", w2.clone(), near(&w2), t.pick(5, 7), false));

    // All orders of sets of up to 8 names
    for (i, set) in awkward().into_iter().enumerate() {
        let n = t.pick(8, 10);
        let queries = near(&set);
        f.push(family(
            &format!("orders {}", i),
            format!("all orders of the first 5 to {} of the names {:?}; {} queries each", n, set, queries.len()),
            move |ch| {
                let k = ch.range(5, n);
                let names = arrangement(ch, &set[..k], k);
                check_map(ch, &names, &queries, false)
            },
        ));
    }

    // Larger tables in structured orders
    let sizes: &'static [usize] = t.pick(
        &[10, 11, 12, 13, 14, 15, 16, 17, 20, 31, 32, 33, 64, 65],
        &[10, 11, 12, 13, 14, 15, 16, 17, 20, 26, 31, 32, 33, 48, 63, 64, 65, 100, 128, 200],
    );
    f.push(family(
        "large tables",
        format!("tables of {:?} names of 4 styles, listed with every stride coprime to the size from every start (sizes up to 33) or 3 starts, and with every single transposition of the sorted order; every name and its neighbours looked up", sizes),
        move |ch| {
            let n = *ch.pick(sizes);
            let style = ch.choose(4);
            let sorted: Vec<&'static str> = names_of(style, n);
            let kind = ch.choose(3);
            let names: Vec<&'static str> = if kind == 2 {
                let i = ch.choose(n);
                let j = ch.choose(n);
                if i >= j {
                    return ch.skip();
                }
                let mut v = sorted.clone();
                v.swap(i, j);
                v
            } else {
                let stride = 1 + ch.choose(n - 1);
                if gcd(stride, n) != 1 {
                    return ch.skip();
                }
                let starts = if n <= 33 { n } else { 3 };
                let start = ch.choose(starts) * (n / starts);
                let mut v: Vec<_> = (0..n).map(|i| sorted[(start + i * stride) % n]).collect();
                if kind == 1 {
                    // A pipe organ order
                    let (a, b): (Vec<_>, Vec<_>) = v.iter().enumerate().partition(|(i, _)| i % 2 == 0);
                    v = a.into_iter().map(|x| *x.1).chain(b.into_iter().rev().map(|x| *x.1)).collect();
                }
                v
            };
            let probe = ch.choose(4);
            let mut queries: Vec<&'static str> = Vec::new();
            for (i, s) in sorted.iter().enumerate() {
                if i % 4 == probe {
                    queries.push(s);
                }
            }
            queries.extend(["", "n", "n0", "zzzz", "\u{10ffff}", "aaaaaaaaaaaaaaaaaaaaa"]);
            check_map(ch, &names, &queries, false)
        },
    ));

    f.push(family("constants", "tables made in constant context; all queries over {a, b, k, z, é} up to 3 characters, in all chunkings", |ch| {
        let (map, model) = constant(ch.choose(5));
        let mut q = String::new();
        for _ in 0..ch.range(0, 3) {
            q.push(*ch.pick(&['a', 'b', 'k', 'z', 'é', 'i']));
        }
        ch.state(&q);
        let mut got: Vec<(&str, usize)> = map.entries().map(|(n, v)| (n, *v)).collect();
        got.sort();
        check!(got == model.iter().map(|(n, v)| (*n, *v)).collect::<Vec<_>>() && map.size() == model.len(), "entries are {:?}", got);
        no_panic(|| format!("query {:?}", q), || query_all_ways(ch, map, &model, &q, true))?
    }));

    f.push(family(
        "huge tables",
        "tables of 100, 128, 200, 255, 256, 257, 300 and 600 names of 4 styles, sorted, reversed, in pipe organ order and with 4 strides; every name and its neighbours looked up",
        move |ch| {
            let n = *ch.pick(&[100, 128, 200, 255, 256, 257, 300, 600]);
            let sorted: Vec<&'static str> = names_of(ch.choose(4), n);
            let mut names = sorted.clone();
            match ch.choose(7) {
                0 => (),
                1 => names.reverse(),
                2 => {
                    names = (0..n).step_by(2).map(|i| sorted[i]).collect();
                    names.extend((0..n).filter(|i| i % 2 == 1).rev().map(|i| sorted[i]));
                }
                k => {
                    let stride = (n / [0, 0, 0, 2, 3, 7, 16][k]..).find(|s| gcd(*s, n) == 1).unwrap();
                    names = (0..n).map(|i| sorted[i * stride % n]).collect();
                }
            }
            let mut queries = sorted;
            queries.extend(["", "n", "n0", "zzzz", "\u{10ffff}", "aaaaaaaaaaaaaaaaaaaaa"]);
            let part = ch.choose(8);
            let queries: Vec<&'static str> = queries.iter().enumerate().filter(|(i, _)| i % 8 == part).map(|(_, q)| *q).collect();
            check_map(ch, &names, &queries, false)
        },
    ));
    f.push(family(
        "long names",
        "tables of up to 3 (thorough: 4; longer ones: 2 or 3) of 9 names built around a common prefix of 0..=40, 62..=66, 126..=130, 254..=258, 1000, 4096 and 65536 (thorough: 65534..=65538) characters (ASCII or not), in every order; the names, their prefixes and variations changed, cut or extended by one character at either end and in the middle looked up whole, by characters, and in pieces of 9 sizes and two pieces split everywhere around the interesting places",
        move |ch| {
            let lens: Vec<usize> =
                (0..=40).chain(62..=66).chain(126..=130).chain(254..=258).chain([1000, 4096]).chain(t.pick(65536..=65536, 65534..=65538)).collect();
            let len = *ch.pick(&lens);
            let fill = if len > 5000 { "a" } else { *ch.pick(&["a", "é"]) };
            let base = fill.repeat(len);
            let pool: Vec<String> = ["", "a", "b", "\u{10ffff}", "ab", "z"].iter().map(|e| format!("{base}{e}"))
                .chain([format!("b{base}"), format!("{base}{base}"), format!("Z{base}x")])
                .collect();
            let mut left: Vec<usize> = (0..if len > 5000 { 4 } else { pool.len() }).collect();
            let max = if len > 300 { 2 } else if len > 8 { t.pick(2, 3) } else { t.pick(3, 4) };
            let n = 1 + ch.choose(max);
            let mut names: Vec<String> = Vec::new();
            for _ in 0..n {
                let i = ch.choose(left.len());
                let name = pool[left.remove(i)].clone();
                if names.contains(&name) {
                    return ch.skip();
                }
                names.push(name);
            }
            let mut queries: Vec<String> = pool.clone();
            for q in &pool {
                let cs: Vec<char> = q.chars().collect();
                if cs.is_empty() {
                    continue;
                }
                queries.push(cs[..cs.len() - 1].iter().collect());
                queries.push(cs[1..].iter().collect());
                queries.push(format!("{q}a"));
                queries.push(format!("{q}\0"));
                for at in [0, cs.len() / 2, cs.len() - 1] {
                    let mut v = cs.clone();
                    v[at] = 'c';
                    queries.push(v.iter().collect());
                }
            }
            queries.sort();
            queries.dedup();
            let part = ch.choose(4);
            let queries: Vec<&String> = queries.iter().enumerate().filter(|(i, _)| i % 4 == part).map(|(_, q)| q).collect();
            ch.state(&(len, fill, &names));
            ch.note(|| format!("prefix of {len} x {fill:?}, names {:?}", names.iter().map(|n| n.len()).collect::<Vec<_>>()));
            // The table needs names which live forever; they are given back below
            let boxes: Vec<*mut str> = names.iter().map(|n| Box::into_raw(n.clone().into_boxed_str())).collect();
            let entries: Vec<(&'static str, usize)> =
                boxes.iter().enumerate().map(|(i, n)| (unsafe { &**n }, 100 + i)).collect();
            let model: BTreeMap<&str, usize> = entries.iter().copied().collect();
            let res = no_panic(|| format!("prefix of {len}"), || {
                with_map(&entries, |map| {
                    for q in &queries {
                        long_query(ch, map, &model, q)?;
                    }
                    Ok(())
                })
            });
            drop(model);
            drop(entries);
            for b in boxes {
                drop(unsafe { Box::from_raw(b) });
            }
            res?
        },
    ));

    // Through the deserializer, with the name spelled in any way
    f.push(family(
        "names in documents",
        "constant tables; strings over {a, b, k, z, é} up to 3 characters, each raw or as \\u escape; as name, as tag, as opened string after some characters, as key of an entry, directly and buffered",
        |ch| {
            let (map, model) = constant(ch.choose(5));
            let mut text = String::new();
            let mut doc = String::from("{ \"name\": \"");
            let n = ch.range(0, 3);
            for _ in 0..n {
                let c = *ch.pick(&['a', 'b', 'k', 'z', 'é', 'h']);
                text.push(c);
                if ch.flip() {
                    doc.push_str(&format!("\\u{:04X}", c as u32));
                } else {
                    doc.push(c);
                }
            }
            doc.push_str("\" }");
            let chars: Vec<char> = doc.chars().collect();
            let way = ch.choose(4);
            let skip = if way == 2 { ch.range(0, n) } else { 0 };
            let place = ch.choose(3);
            let name: String = text.chars().skip(skip).collect();
            let want = model.get(name.as_str()).copied();
            ch.state(&(&doc, way, skip, place));
            ch.note(|| format!("{} way {} place {}", doc, way, place));
            ch.step();
            let got = no_panic(
                || format!("{:?}", doc),
                || -> Result<usize, String> {
                    let e = |e: DeserializeError<usize>| e.to_string();
                    let mut d = TextDeserializer::new(config(false), CharReader::new(&chars)).map_err(e)?;
                    d.open_object().map_err(e)?;
                    match place {
                        0 => d.push_entry("name").map_err(e)?,
                        1 => {
                            if d.try_push_entry("absent").map_err(e)? {
                                return Err("found an absent key".into());
                            }
                            d.push_entry("name").map_err(e)?;
                        }
                        _ => {
                            if !d.next_entry().map_err(e)? {
                                return Err("no entry".into());
                            }
                            d.skip_str().map_err(e)?;
                        }
                    }
                    let r = match way {
                        0 => d.get_name(map),
                        1 => d.get_tag(2000, map),
                        2 => {
                            d.open_str().map_err(e)?;
                            for _ in 0..skip {
                                d.next_char().map_err(e)?;
                            }
                            d.flush_name(map)
                        }
                        _ => Value::with(&mut d, |v| v.get_tag(2000, map)),
                    };
                    let r = r.map_err(|x| format!("lookup: {}", x.message()))?;
                    d.close_object().map_err(e)?;
                    d.close().map_err(e)?;
                    Ok(r)
                },
            )?;
            ch.outcome(&got.is_ok());
            match (&got, want) {
                (Ok(g), Some(w)) if *g == w => Ok(()),
                (Err(m), None) if m.starts_with("lookup: name is not one of the allowed options (") => {
                    // The error lists exactly the names of the table
                    for n in model.keys() {
                        check!(m.contains(&format!("{:?}", n)), "{}: {:?} not mentioned in {:?}", doc, n, m);
                    }
                    Ok(())
                }
                _ => fail(format!("{:?} (way {}, place {}): {:?} instead of {:?}", doc, way, place, got, want)),
            }
        },
    ));
    f
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

fn names_of(style: usize, n: usize) -> Vec<&'static str> {
    use std::sync::{Mutex, OnceLock};
    static CACHE: OnceLock<Mutex<BTreeMap<(usize, usize), Vec<&'static str>>>> = OnceLock::new();
    let mut cache = CACHE.get_or_init(Default::default).lock().unwrap();
    cache
        .entry((style, n))
        .or_insert_with(|| {
            let mut v: Vec<String> = (0..n)
                .map(|i| match style {
                    0 => format!("n{:03}", i),
                    1 => "a".repeat(i),
                    2 => format!("name{}", i),
                    _ => format!("{}{}", char::from_u32(0x41 + (i as u32 % 13) * 37).unwrap(), i / 13),
                })
                .collect();
            v.sort();
            v.into_iter().map(leak).collect()
        })
        .clone()
}

fn main() {
    mc::main(Check {
        id: "C09",
        families,
        assumptions: &["An ordered map of the standard library is the reference for the set of names."],
    })
}
