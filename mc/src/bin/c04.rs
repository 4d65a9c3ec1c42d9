//! C04: object content does not depend on the order entries are accessed.

use mc::gen::*;
use mc::model::*;
use mc::readers::CharReader;
use mc::walk::*;
use mc::*;
use serdere::*;
use serdere_json::*;

type Log = Vec<std::borrow::Cow<'static, str>>;

struct Frame<'a> {
    node: &'a Tree,
    /// Unread entries of an object, in document order.
    unread: Vec<usize>,
    /// Items read of an array.
    next: usize,
}

/// What the environment may do, per execution.
#[derive(Clone, Copy)]
struct Ops {
    /// Number of look-ups of absent keys per execution.
    absent: usize,
    /// Ways of reading a key after next-entry (1: whole, up to 4).
    keys: usize,
    /// Ways of consuming a value: 1 whole; 2 + open; 3 + skip; 4 + whole by looking keys up.
    values: usize,
    /// Whether calls that must be refused may end the execution.
    refusals: bool,
    /// Whether objects may be skipped while open.
    skip: bool,
    /// Containers may be opened below fewer than this many opened ones.
    open_depth: usize,
}

fn run<D: JsonDeserializer>(ch: &mut Ch, d: &mut D, root: &Tree, ops: Ops, log: &mut Log) -> Result<bool, Fail>
where
    D::Error: ErrInfo,
{
    macro_rules! call {
        ($log:expr, $e:expr) => {{
            let s: std::borrow::Cow<'static, str> = $log;
            ch.note(|| s.to_string());
            log.push(s);
            ch.step();
            match no_panic(|| log.join(" "), || $e)? {
                Ok(r) => r,
                Err(e) => return fail(format!("{}: error: {}", log.join(" "), e.text())),
            }
        }};
    }
    macro_rules! virtual_null {
        ($push:literal, $pop:literal) => {{
            log.push($push.into());
            no_panic(|| log.join(" "), || d.push_null(None))?;
            let ty = d.peek_value_type();
            check!(ty == ValueType::Null, "{}: value type {:?}", log.join(" "), ty);
            if $pop == "pop-null" {
                call!($pop.into(), d.pop_null());
            } else {
                check!(call!($pop.into(), d.check_null()), "{}: not null", log.join(" "));
            }
        }};
    }
    let mut frames: Vec<Frame> = Vec::new();
    let mut cur: Option<&Tree> = Some(root);
    let mut absent = ops.absent;
    let root_hash = hash(&format!("{:?}", root));
    loop {
        ch.state(&(
            root_hash,
            frames.iter().map(|f| (f.unread.clone(), f.next)).collect::<Vec<_>>(),
            cur.is_some(),
        ));
        if let Some(v) = cur.take() {
            let ty = d.peek_value_type();
            check!(type_of(v) == ty, "{}: value type {:?}, expected {:?}", log.join(" "), ty, v);
            let container = matches!(v, Tree::Arr(_) | Tree::Obj(_));
            let mut enabled = vec![0];
            if container && ops.values >= 2 && frames.len() < ops.open_depth {
                enabled.push(1);
            }
            if ops.values >= 3 {
                enabled.push(2);
            }
            if container && ops.values >= 4 && distinct(v) {
                enabled.push(3);
            }
            let op = *ch.pick(&enabled);
            match op {
                0 => {
                    let t = call!("read-value".into(), walk(Mode::Direct, d));
                    check!(t == *v, "{}: read {:?}, expected {:?}", log.join(" "), t, v);
                }
                1 => match v {
                    Tree::Arr(_) => {
                        let len = call!("open-list".into(), d.open_list());
                        check!(len.is_none() || len == Some(arr(v).len()), "{}: length {:?}", log.join(" "), len);
                        frames.push(Frame { node: v, unread: vec![], next: 0 });
                    }
                    _ => {
                        call!("open-object".into(), d.open_object());
                        frames.push(Frame { node: v, unread: (0..obj(v).len()).collect(), next: 0 });
                    }
                },
                2 => call!("skip-value".into(), d.skip_value()),
                _ => {
                    let t = call!("read-by-look-up".into(), lookup_walk(d, v, &|n| (0..n).rev().collect()));
                    check!(t == *v, "{}: read {:?}, expected {:?}", log.join(" "), t, v);
                }
            }
            continue;
        }
        let depth = frames.len();
        let Some(f) = frames.last_mut() else { return Ok(true) };
        match f.node {
            Tree::Arr(items) => {
                // next-item | push-item | close-list
                let n = if ops.refusals { 3 + (absent > 0) as usize } else { 1 };
                match ch.choose(n) {
                    3 => {
                        absent -= 1;
                        virtual_null!("virtual-null", "check-null");
                    }
                    0 => {
                        let more = call!("next-item".into(), d.next_item());
                        check!(more == (f.next < items.len()), "{}: next-item returned {} after {} of {} items", log.join(" "), more, f.next, items.len());
                        if more {
                            cur = Some(&items[f.next]);
                            f.next += 1;
                        } else {
                            frames.pop();
                        }
                    }
                    1 => {
                        if f.next < items.len() {
                            call!("push-item".into(), d.push_item());
                            cur = Some(&items[f.next]);
                            f.next += 1;
                        } else {
                            log.push("push-item".into());
                            let r = no_panic(|| log.join(" "), || d.push_item())?;
                            check!(r.is_err(), "{}: an item past the end", log.join(" "));
                            return Ok(false);
                        }
                    }
                    _ => {
                        if f.next == items.len() {
                            call!("close-list".into(), d.close_list());
                            frames.pop();
                        } else {
                            log.push("close-list".into());
                            let r = no_panic(|| log.join(" "), || d.close_list())?;
                            check!(r.is_err(), "{}: closed with items left", log.join(" "));
                            return Ok(false);
                        }
                    }
                }
            }
            Tree::Obj(entries) => {
                // 0: next-entry; 1: skip-object; 2: close-object; 3: absent look-up; 4..: look-up of
                // the n-th distinct key (unread or already read)
                let mut keys: Vec<&str> = Vec::new();
                for (k, _) in entries {
                    if !keys.contains(&k.as_str()) {
                        keys.push(k);
                    }
                }
                let mut enabled = vec![0];
                if ops.skip {
                    enabled.push(1);
                }
                if f.unread.is_empty() || ops.refusals {
                    enabled.push(2);
                }
                if absent > 0 {
                    enabled.push(3);
                }
                for (n, k) in keys.iter().enumerate() {
                    if absent > 0 || f.unread.iter().any(|i| entries[*i].0 == *k) {
                        enabled.push(4 + n);
                    }
                }
                match *ch.pick(&enabled) {
                    0 => {
                        let more = call!("next-entry".into(), d.next_entry());
                        check!(more != f.unread.is_empty(), "{}: next-entry returned {} with {} entries unread", log.join(" "), more, f.unread.len());
                        if !more {
                            frames.pop();
                            continue;
                        }
                        let i = f.unread.remove(0);
                        let want = &entries[i].0;
                        let how = ch.choose(if depth == 1 { ops.keys } else { 1 });
                        match how {
                            0 => {
                                let k = call!("flush".into(), d.flush_str().map(|s| s.into_owned()));
                                check!(k == *want, "{}: key {:?}, expected {:?}", log.join(" "), k, want);
                            }
                            1 => call!("skip-key".into(), d.skip_str()),
                            2 => {
                                let mut k = String::new();
                                loop {
                                    match call!("char".into(), d.next_char()) {
                                        Some(c) => k.push(c),
                                        None => break,
                                    }
                                }
                                check!(k == *want, "{}: key {:?}, expected {:?}", log.join(" "), k, want);
                            }
                            _ => {
                                let c = call!("char".into(), d.next_char());
                                check!(c == want.chars().next(), "{}: first char {:?} of key {:?}", log.join(" "), c, want);
                                if c.is_some() {
                                    let k = call!("flush".into(), d.flush_str().map(|s| s.into_owned()));
                                    check!(k == want[c.unwrap().len_utf8()..], "{}: rest {:?} of key {:?}", log.join(" "), k, want);
                                }
                            }
                        }
                        cur = Some(&entries[i].1);
                    }
                    1 => {
                        call!("skip-object".into(), d.skip_object());
                        frames.pop();
                    }
                    2 => {
                        if f.unread.is_empty() {
                            call!("close-object".into(), d.close_object());
                            frames.pop();
                        } else {
                            let want = &entries[f.unread[0]].0;
                            log.push("close-object".into());
                            match no_panic(|| log.join(" "), || d.close_object())? {
                                Ok(()) => return fail(format!("{}: closed with entry {:?} unread", log.join(" "), want)),
                                Err(e) => {
                                    check!(e.extra() == Some(want.clone()), "{}: refused with {:?}, expected extra key {:?}", log.join(" "), e.text(), want);
                                }
                            }
                            return Ok(false);
                        }
                    }
                    3 => {
                        absent -= 1;
                        if ops.refusals {
                            match ch.choose(4) {
                                0 => (),
                                3 => {
                                    // Virtual null out of the blue
                                    virtual_null!("virtual-null", "pop-null");
                                    continue;
                                }
                                1 => {
                                    // Absent field: virtual null
                                    let found = call!("look-up absent".into(), d.try_push_entry(MISSING));
                                    check!(!found, "{}: found an absent key", log.join(" "));
                                    d.push_null(Some("field"));
                                    call!("pop-virtual-null".into(), d.pop_null());
                                    continue;
                                }
                                _ => {
                                    log.push("push-entry absent".into());
                                    match no_panic(|| log.join(" "), || d.push_entry(MISSING))? {
                                        Ok(()) => return fail(format!("{}: pushed an absent entry", log.join(" "))),
                                        Err(e) => check!(e.missing() == Some(MISSING.to_string()), "{}: refused with {:?}", log.join(" "), e.text()),
                                    }
                                    return Ok(false);
                                }
                            }
                        }
                        let found = call!("look-up absent".into(), d.try_push_entry(MISSING));
                        check!(!found, "{}: found an absent key", log.join(" "));
                    }
                    k => {
                        let key = keys[k - 4];
                        let cands: Vec<usize> = f.unread.iter().copied().filter(|i| entries[*i].0 == key).collect();
                        if cands.is_empty() {
                            // Already read: a look-up must fail; counts as an absent one
                            absent -= 1;
                        }
                        let found = call!(format!("look-up {:?}", key).into(), d.try_push_entry(key));
                        check!(found != cands.is_empty(), "{}: look-up returned {} with {} entries of that key unread", log.join(" "), found, cands.len());
                        match cands.len() {
                            0 => (),
                            1 => {
                                f.unread.retain(|i| *i != cands[0]);
                                cur = Some(&entries[cands[0]].1);
                            }
                            _ => {
                                // Which occurrence is open: any unread one, told by its content
                                let t = call!("read-value".into(), walk(Mode::Direct, d));
                                let Some(i) = cands.iter().copied().find(|i| entries[*i].1 == t) else {
                                    return fail(format!("{}: read {:?}, which is no unread entry with that key", log.join(" "), t));
                                };
                                f.unread.retain(|j| *j != i);
                            }
                        }
                    }
                }
            }
            _ => unreachable!(),
        }
    }
}

pub trait ErrInfo {
    fn text(&self) -> String;
    fn extra(&self) -> Option<String>;
    fn missing(&self) -> Option<String>;
}
impl<P: std::fmt::Debug> ErrInfo for DeserializeError<P> {
    fn text(&self) -> String {
        format!("{:?}", self)
    }
    fn extra(&self) -> Option<String> {
        match self.message() {
            DeserializeErrorMessage::ExtraKey(k) => Some(k.clone()),
            _ => None,
        }
    }
    fn missing(&self) -> Option<String> {
        match self.message() {
            DeserializeErrorMessage::MissingKey(k) => Some(k.clone()),
            _ => None,
        }
    }
}

fn type_of(t: &Tree) -> ValueType {
    match t {
        Tree::Null => ValueType::Null,
        Tree::Bool(_) => ValueType::Bool,
        Tree::Num(_) => ValueType::Number,
        Tree::Str(_) => ValueType::String,
        Tree::Arr(_) => ValueType::Array,
        Tree::Obj(_) => ValueType::Object,
    }
}

fn arr(t: &Tree) -> &[Tree] {
    match t {
        Tree::Arr(a) => a,
        _ => unreachable!(),
    }
}

fn obj(t: &Tree) -> &[(String, Tree)] {
    match t {
        Tree::Obj(a) => a,
        _ => unreachable!(),
    }
}

fn distinct(t: &Tree) -> bool {
    match t {
        Tree::Arr(a) => a.iter().all(distinct),
        Tree::Obj(o) => {
            o.iter().all(|(_, v)| distinct(v)) && o.iter().enumerate().all(|(i, (k, _))| o[..i].iter().all(|(l, _)| l != k))
        }
        _ => true,
    }
}

/// Runs an exploration on a document, ending with `close`.
fn drive(ch: &mut Ch, doc: &str, ops: Ops) -> Outcome {
    let cs = chars(doc);
    let tree = parse(&cs, false).unwrap_or_else(|e| panic!("harness document {:?}: {:?}", doc, e)).tree();
    ch.note(|| format!("document {}", clip(doc)));
    let mut log: Log = vec![clip(doc).into()];
    let mut d = match TextDeserializer::new(config(false), doc) {
        Ok(d) => d,
        Err(e) => return fail(format!("{}: {:?}", clip(doc), e)),
    };
    if run(ch, &mut d, &tree, ops, &mut log)? {
        match no_panic(|| format!("{} close", log.join(" ")), || d.close())? {
            Ok(()) => (),
            Err(e) => return fail(format!("{} close: {:?}", log.join(" "), e)),
        }
    }
    Ok(())
}

// Documents

const NAMES: &[&str] = &["a", "b", "ab", "", "c", "d", "e", "f"];

struct Gen {
    leaf: usize,
}

impl Gen {
    fn leaf(&mut self) -> String {
        let n = self.leaf;
        self.leaf += 1;
        match n % 6 {
            0 => format!("{}", 10 + n),
            1 => format!("\"s{}\"", n),
            2 => "[]".into(),
            3 => ["true", "false", "null"][n / 6 % 3].into(),
            4 => format!("-{}.5e1", n),
            _ => "{}".into(),
        }
    }

    fn value(&mut self, ch: &mut Ch, budget: &mut usize, depth: usize) -> String {
        let kinds = if depth > 0 && *budget > 0 { 3 } else { 1 };
        match ch.choose(kinds) {
            0 => self.leaf(),
            1 => self.object(ch, budget, depth - 1),
            _ => self.array(ch, budget, depth - 1),
        }
    }

    fn object(&mut self, ch: &mut Ch, budget: &mut usize, depth: usize) -> String {
        let mut s = String::from("{");
        let mut n = 0;
        while *budget > 0 && (n == 0 || ch.flip()) {
            *budget -= 1;
            if n > 0 {
                s.push(',');
            }
            s.push_str(&quote(NAMES[n]));
            s.push(':');
            s.push_str(&self.value(ch, budget, depth));
            n += 1;
        }
        s.push('}');
        s
    }

    fn array(&mut self, ch: &mut Ch, budget: &mut usize, depth: usize) -> String {
        let mut s = String::from("[");
        let mut n = 0;
        while *budget > 0 && (n == 0 || ch.flip()) {
            *budget -= 1;
            if n > 0 {
                s.push(',');
            }
            s.push_str(&self.value(ch, budget, depth));
            n += 1;
        }
        s.push(']');
        s
    }
}

/// Permutations used where not all can be enumerated.
fn orders(n: usize) -> Vec<Vec<usize>> {
    let id: Vec<usize> = (0..n).collect();
    let mut rev = id.clone();
    rev.reverse();
    let evens_odds: Vec<usize> = (0..n).step_by(2).chain((1..n).step_by(2)).collect();
    let outside_in: Vec<usize> = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect();
    let mut mid = id.clone();
    mid.rotate_left(n / 2);
    let last_first: Vec<usize> = (n.saturating_sub(1)..n).chain(0..n.saturating_sub(1)).collect();
    vec![id, rev, evens_odds, outside_in, mid, last_first]
}

/// Looks the keys up in the given order for the first `upto`, with the rest by next-entry.
fn order_run(ch: &mut Ch, doc: &str, order: &[usize], upto: usize, opened: &dyn Fn(usize) -> bool, skipped: &(dyn Fn(usize) -> bool + Sync)) -> Outcome {
    let cs = chars(doc);
    let tree = parse(&cs, false).expect("harness document").tree();
    let entries = obj(&tree);
    ch.state(&(doc, order, upto));
    ch.note(|| format!("document {} order {:?}.. then next-entry after {}", clip(doc), &order[..order.len().min(10)], upto));
    let what = || format!("{} with keys looked up in order {:?}.. then {} by next-entry", clip(doc), &order[..order.len().min(10)], entries.len() - upto);
    let mut read = vec![false; entries.len()];
    let res = no_panic(what, || {
        let mut d = TextDeserializer::new(config(false), CharReader::new(&cs))?;
        d.open_object()?;
        for &i in &order[..upto] {
            if !d.try_push_entry(&entries[i].0)? {
                return Ok(Err(format!("key {:?} not found", clip(&entries[i].0))));
            }
            read[i] = true;
            let t = if skipped(i) {
                d.skip_value()?;
                entries[i].1.clone()
            } else if opened(i) { lookup_walk(&mut d, &entries[i].1, &|n| (0..n).rev().collect())? } else { walk(Mode::Direct, &mut d)? };
            if t != entries[i].1 {
                return Ok(Err(format!("key {} has value {}", clip(&entries[i].0), clip(&format!("{:?}", t)))));
            }
            if d.try_push_entry(&entries[i].0)? {
                return Ok(Err(format!("key {} found twice", clip(&entries[i].0))));
            }
        }
        for i in (0..entries.len()).filter(|i| !read[*i]) {
            if !d.next_entry()? {
                return Ok(Err(format!("entry {} is not delivered", i)));
            }
            let k = d.flush_str()?.into_owned();
            if k != entries[i].0 {
                return Ok(Err(format!("entry {} has key {}", i, clip(&k))));
            }
            let t = if skipped(i) {
                d.skip_value()?;
                entries[i].1.clone()
            } else {
                walk(Mode::Direct, &mut d)?
            };
            if t != entries[i].1 {
                return Ok(Err(format!("entry {} has value {}", i, clip(&format!("{:?}", t)))));
            }
        }
        if d.next_entry()? {
            return Ok(Err("an entry too many".to_string()));
        }
        d.close()?;
        Ok::<_, DeserializeError<usize>>(Ok(()))
    })?;
    ch.steps(entries.len());
    match res {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => fail(format!("{}: {}", what(), m)),
        Err(e) => fail(format!("{}: error {:?}", what(), e)),
    }
}

fn families(t: Tier) -> Vec<Family> {
    let mut v = Vec::new();
    let budget = t.pick(4, 5);
    v.push(family(
        "small documents, all operation sequences",
        format!("all object/array documents with at most {} members nested at most 2 deep below the root object x all sequences of look-up (each key, repeated and absent, at most 1 failing), next-entry, next-item, push/close, skip, open, whole read, refused calls, virtual nulls", budget),
        move |ch| {
            let mut b = budget;
            let doc = Gen { leaf: ch.choose(3) * 2 }.object(ch, &mut b, 2);
            drive(ch, &doc, Ops { absent: 1, keys: 1, values: 3, refusals: true, skip: true, open_depth: 9 })
        },
    ));
    v.push(family(
        "key consumption",
        "objects of 3 entries (scalar, object, array in every order) x all operation sequences with keys read whole, by characters, partly, or skipped",
        move |ch| {
            let vals = ["7", "\"x\"", "{\"a\":1,\"b\":2}", "[3,{\"a\":4}]"];
            let (i, j, k) = (ch.choose(4), ch.choose(4), ch.choose(4));
            let doc = format!("{{\"a\":{},\"bc\":{},\"\":{}}}", vals[i], vals[j], vals[k]);
            drive(ch, &doc, Ops { absent: t.pick(0, 1), keys: 4, values: t.pick(2, 4), refusals: false, skip: false, open_depth: 9 })
        },
    ));
    v.push(family(
        "nested buffered objects",
        "objects holding objects of objects (3 levels, 2 entries each, in five shapes) x all operation sequences without refusals",
        move |ch| {
            let docs = [
                "{\"a\":{\"a\":{\"a\":1,\"b\":2},\"b\":3},\"b\":{\"a\":4}}",
                "{\"a\":[{\"a\":1,\"b\":2},{\"a\":3}],\"b\":{\"b\":[4,5]}}",
                "{\"a\":{\"b\":{}},\"b\":{\"a\":{\"a\":[],\"b\":{}}},\"c\":1}",
                "[{\"a\":1,\"b\":{\"a\":2,\"b\":3}},{\"b\":{\"a\":4},\"a\":5}]",
                "{\"x\":{\"a\":\"p\",\"b\":\"q\"},\"y\":{\"a\":\"r\",\"b\":\"s\"},\"z\":{\"a\":\"t\",\"b\":\"u\"}}",
            ];
            let n = t.pick(4, 5);
            let doc = docs[ch.choose(n)];
            drive(ch, doc, Ops { absent: t.pick(0, 1), keys: 1, values: 2, refusals: false, skip: true, open_depth: 9 })
        },
    ));
    v.push(family(
        "repeated keys",
        "objects of at most 3 (thorough: 4) entries with keys from {a, b} (all repetition patterns), values scalar or containers, at top level or nested in a buffered entry x all operation sequences",
        move |ch| {
            let n = ch.range(2, t.pick(3, 4));
            let mut g = Gen { leaf: 0 };
            let mut o = String::from("{");
            for i in 0..n {
                if i > 0 {
                    o.push(',');
                }
                o.push_str(ch.pick(&["\"a\"", "\"b\""]));
                o.push(':');
                o.push_str(&match ch.choose(2) {
                    0 => format!("{}", 100 + i),
                    _ => format!("[{},{{\"a\":{}}}]", 200 + i, 300 + i),
                });
                g.leaf += 1;
            }
            o.push('}');
            let doc = match ch.choose(2) {
                0 => o,
                _ => format!("{{\"n\":{},\"z\":0}}", o),
            };
            drive(ch, &doc, Ops { absent: 1, keys: 1, values: 2, refusals: false, skip: false, open_depth: 2 })
        },
    ));
    v.push(family(
        "all look-up orders",
        format!("one object with 2..={} entries of mixed values x every permutation of look-ups x the tail delivered by next-entry from every point", t.pick(6, 8)),
        move |ch| {
            let n = ch.range(2, t.pick(6, 8));
            let vals = ["1", "\"é\\n\"", "[1,[2],{\"a\":3}]", "{\"a\":{\"b\":4},\"b\":[]}", "null", "-2.50e-1", "{}", "true"];
            let rot = ch.choose(4);
            let doc = format!(
                "{{{}}}",
                (0..n).map(|i| format!("{}:{}", quote(NAMES[i]), vals[(i + rot) % vals.len()])).collect::<Vec<_>>().join(" , ")
            );
            let mut rest: Vec<usize> = (0..n).collect();
            let mut order = Vec::new();
            while !rest.is_empty() {
                let i = ch.choose(rest.len());
                order.push(rest.remove(i));
            }
            let upto = ch.range(0, n);
            order_run(ch, &doc, &order, upto, &|_| true, &|_| false)
        },
    ));
    let sizes: Vec<usize> = (1..t.pick(140, 600)).chain(t.pick(vec![255, 256, 257, 1000], vec![1023, 1024, 1025, 2048, 4096])).collect();
    let sizes2 = sizes.clone();
    let many: Vec<usize> = sizes.iter().copied().chain([4096, 32768, 65535, 65536, 65537, 70000]).collect();
    v.push(family(
        "many entries",
        format!("objects of {} sizes up to {} entries x 6 look-up orders x 3 switch points to next-entry", many.len(), many.last().unwrap()),
        move |ch| {
            let n = *ch.pick(&many);
            let doc = format!("{{{}}}", (0..n).map(|i| format!("\"k{}\":{}", i, ["1", "\"v\"", "[2]", "{\"a\":3}"][i % 4])).collect::<Vec<_>>().join(","));
            let orders = orders(n);
            let o = ch.choose(orders.len());
            let upto = [n, n / 2, 1.min(n)][ch.choose(3)];
            order_run(ch, &doc, &orders[o], upto, &|i| i % 2 == 0, &|_| false)
        },
    ));
    v.push(family(
        "key and value lengths",
        format!("three entries with key, string or digit lengths of {} sizes up to {} x all look-up orders", sizes2.len() + 4, 70000),
        move |ch| {
            let mut s: Vec<usize> = sizes2.clone();
            s.extend([4095, 65535, 65536, 70000]);
            let n = *ch.pick(&s);
            let doc = match ch.choose(9) {
                0 => format!("{{\"{}\":1,\"{}\":2,\"{}\":3}}", "k".repeat(n), "k".repeat(n + 1), "k".repeat(n - 1)),
                1 => format!("{{\"{}a\":1,\"{}b\":2,\"{}c\":3}}", "é".repeat(n), "é".repeat(n), "é".repeat(n)),
                2 => format!("{{\"a\":\"{}\",\"b\":\"x{}\",\"c\":\"{}\"}}", "v".repeat(n), "v".repeat(n), "\\u00e9".repeat(n)),
                3 => format!("{{\"a\":1{},\"b\":0.{}5,\"c\":1{}e-{}}}", "0".repeat(n.min(280)), "0".repeat(n), "0".repeat(n), n),
                4 => format!("{{\"a\":[{}0],\"b\":{{\"x\":[{}1]}},\"c\":2}}", "0,".repeat(n), "[],".repeat(n)),
                5 => format!("{{\"a\":{{{}\"z\":0}},\"b\":[{{\"a\":1}}],\"c\":2}}", (0..n.min(2000)).map(|i| format!("\"{}\":{},", i, i)).collect::<String>()),
                6 => format!("{{\"a\":{{\"{0}\":[{{\"{0}\":1,\"b\":0}}],\"b\":0}},\"b\":{{\"c\":0,\"{0}\":\"x\"}},\"c\":2}}", "k".repeat(n)),
                7 => format!("{{\"a\":{{\"x\":0,\"{0}\":{{\"{0}\":\"{0}\"}}}},\"b\":[{{\"{0}\":{{\"x\":0,\"{0}\":1}}}}],\"c\":2}}", "é".repeat(n)),
                _ => format!("{{\"a\":{}{}{},\"b\":{}0{},\"c\":2}}", "[".repeat(n.min(300)), "1", "]".repeat(n.min(300)), "{\"a\":".repeat(n.min(300)), "}".repeat(n.min(300))),
            };
            let order: &[usize] = *ch.pick(&[&[0, 1, 2][..], &[0, 2, 1], &[1, 0, 2], &[1, 2, 0], &[2, 0, 1], &[2, 1, 0]]);
            let upto = ch.range(1, 3);
            order_run(ch, &doc, order, upto, &|i| i != 1, &|_| false)
        },
    ));
    let ns = depths(t);
    v.push(family(
        "deep values",
        format!("three entries, one of them nested 1..={} levels ({} depths, 6 shapes), at every place, x all look-up orders x 4 switch points to next-entry (beyond 300 levels: 2 orders and 2 points), the deep value read or skipped", ns.last().unwrap(), ns.len()),
        move |ch| {
            let n = *ch.pick(&ns);
            let (open, close) = deep(ch.choose(DEEP), n);
            let leaf = *ch.pick(&["0", "[]", "\"}\""]);
            let at = ch.choose(3);
            let mut es = vec!["\"p\":1".to_string(), "\"s\":\"v\"".to_string()];
            es.insert(at, format!("\"d\":{}{}{}", open, leaf, close));
            let doc = format!("{{{}}}", es.join(","));
            let order: &[usize] = *ch.pick(&[&[0, 1, 2][..], &[0, 2, 1], &[1, 0, 2], &[1, 2, 0], &[2, 0, 1], &[2, 1, 0]]);
            let upto = ch.range(0, 3);
            let skip = ch.flip();
            if n > 300 && (upto == 1 || upto == 2 || leaf != "0" || order[1] != 1) || upto == 0 && order[0] + order[1] != 1 {
                return ch.skip();
            }
            on_big_stack(n, || order_run(ch, &doc, order, upto, &|_| false, &|i| skip && i == at))
        },
    ));
    v.push(family(
        "deep objects",
        "chains of objects up to 200 levels, at each of which the sibling after (or before) the child is looked up first",
        move |ch| {
            let n = ch.range(1, t.pick(120, 200));
            let after = ch.flip();
            let mut doc = String::from("0");
            for i in 0..n {
                doc = if after { format!("{{\"c\":{},\"s\":{}}}", doc, i) } else { format!("{{\"s\":{},\"c\":{}}}", i, doc) };
            }
            let tree = parse(&chars(&doc), false).unwrap().tree();
            let how = ch.choose(3);
            let want = tree.clone();
            ch.state(&(n, after, how));
            let res = no_panic(
                || clip(&doc),
                || {
                    let mut d = TextDeserializer::new(config(false), doc.as_str())?;
                    let r = lookup_walk(&mut d, &want, &|n| match how {
                        0 => (0..n).rev().collect(),
                        1 => (0..n).collect(),
                        _ => vec![n - 1],
                    })?;
                    d.close()?;
                    Ok::<_, DeserializeError<_>>(r)
                },
            )?;
            ch.steps(2 * n);
            match res {
                Ok(r) => {
                    let same = if how == 2 { sorted(&r) == sorted(&tree) } else { r == tree };
                    check!(same, "{}: decoded as {}", clip(&doc), clip(&format!("{:?}", r)));
                }
                Err(e) => return fail(format!("{}: error {}", clip(&doc), e.message())),
            }
            Ok(())
        },
    ));
    v.push(family(
        "unread entries at every level",
        "chains of objects of 1..=20, 60..=70, 124..=132, 250..=260, 300, 511..=513, 1000, 65534..=65538 and 70000 levels (the latter with all look-ups only), the child being the first, second or last entry; look-ups (present and absent) at all levels or every 2nd, 3rd, 256th or none before the child is entered, and the rest of every object looked up or iterated on the way back",
        |ch| {
            let n = *ch.pick(&(1..=20).chain(60..=70).chain(124..=132).chain(250..=260).chain([300]).chain(511..=513).chain([1000]).chain(65534..=65538).chain([70000]).collect::<Vec<usize>>());
            let place = ch.choose(3);
            let every = *ch.pick(&[1, 2, 3, 256, usize::MAX]);
            let absent = ch.flip();
            if n > 60000 && !(every == 1 && absent) {
                return ch.skip(); // takes time quadratic in the depth
            }
            let back = ch.choose(3);
            ch.state(&(n, place, every, absent, back));
            ch.steps(4 * n);
            let has_b = |l: usize| l % 7 != 3;
            let (mut doc, mut end) = (String::new(), Vec::new());
            for l in 0..n {
                let b = if has_b(l) { format!(",\"b\":-{l}") } else { String::new() };
                match place {
                    0 => {
                        doc.push_str("{\"c\":");
                        end.push(format!(",\"a\":{l}{b}}}"));
                    }
                    1 => {
                        doc.push_str(&format!("{{\"a\":{l},\"c\":"));
                        end.push(format!("{b}}}"));
                    }
                    _ => {
                        doc.push_str(&format!("{{\"a\":{l}{b},\"c\":"));
                        end.push("}".into());
                    }
                }
            }
            doc.push_str("{\"d\":1}");
            doc.extend(end.into_iter().rev());
            let res = no_panic(
                || clip(&doc),
                || {
                    let mut d = TextDeserializer::new(config(false), doc.as_str())?;
                    for l in 0..n {
                        d.open_object()?;
                        if l % every == 0 {
                            let found = d.try_push_entry("b")?;
                            if found != has_b(l) {
                                return Ok(Some(format!("\"b\" found at level {l}: {found}")));
                            }
                            if found {
                                let got = d.get_i64()?;
                                if got != -(l as i64) {
                                    return Ok(Some(format!("\"b\" at level {l} is {got}")));
                                }
                            }
                            if absent && d.try_push_entry("d")? {
                                return Ok(Some(format!("\"d\" found at level {l}")));
                            }
                        }
                        if !d.try_push_entry("c")? {
                            return Ok(Some(format!("\"c\" not found at level {l}")));
                        }
                    }
                    d.open_object()?;
                    for key in ["a", "b", "c"] {
                        if absent && d.try_push_entry(key)? {
                            return Ok(Some(format!("{key:?} found in the innermost object")));
                        }
                    }
                    if !d.try_push_entry("d")? || d.get_u64()? != 1 || d.next_entry()? {
                        return Ok(Some("wrong content of the innermost object".into()));
                    }
                    for l in (0..n).rev() {
                        let mut want: Vec<(String, i64)> = Vec::new();
                        let looked = back == 1 || back == 2 && l % 5 == 0;
                        if looked {
                            if !d.try_push_entry("a")? || d.get_u64()? != l as u64 {
                                return Ok(Some(format!("wrong \"a\" at level {l}")));
                            }
                        } else {
                            want.push(("a".into(), l as i64));
                        }
                        if l % every != 0 && has_b(l) {
                            want.push(("b".into(), -(l as i64)));
                        }
                        let mut got = Vec::new();
                        while d.next_entry()? {
                            let key = d.flush_str()?.into_owned();
                            got.push((key, d.get_i64()?));
                        }
                        if got != want {
                            return Ok(Some(format!("the rest at level {l} is {got:?} instead of {want:?}")));
                        }
                    }
                    d.close()?;
                    Ok::<_, DeserializeError<_>>(None)
                },
            )?;
            match res {
                Ok(None) => Ok(()),
                Ok(Some(e)) => fail(format!("{}: {}", clip(&doc), e)),
                Err(e) => fail(format!("{}: error {}", clip(&doc), e.message())),
            }
        },
    ));
    v
}

/// Entries sorted by key, for look-ups that change the order of delivery.
fn sorted(t: &Tree) -> Tree {
    match t {
        Tree::Arr(a) => Tree::Arr(a.iter().map(sorted).collect()),
        Tree::Obj(o) => {
            let mut o: Vec<_> = o.iter().map(|(k, v)| (k.clone(), sorted(v))).collect();
            o.sort_by(|a, b| a.0.cmp(&b.0));
            Tree::Obj(o)
        }
        t => t.clone(),
    }
}

fn main() {
    mc::main(Check {
        id: "C04",
        families,
        assumptions: &["Of several unread entries with one key, a look-up may deliver any; each must be delivered exactly once."],
    })
}
