//! C03 subscription and section history, C04 allow-list, C09 error isolation.
use super::*;
use crate::corpus::{digit, fill_from, omnibus, Space, N1};
use crate::wire::*;
use std::collections::{HashMap, VecDeque};
use std::sync::Arc;
use yule_log::encode::Encode;

#[derive(Clone, Debug)]
pub enum L {
    Raw(&'static str, Vec<u8>),
    /// data for an id, payload exactly as long as the format the model binds to it
    Data(u16),
    /// data with a payload one byte short of that
    Short(u16),
}
impl L {
    fn name(&self) -> String {
        match self {
            L::Raw(n, _) => n.to_string(),
            L::Data(i) => format!("D({i})"),
            L::Short(i) => format!("Dshort({i})"),
        }
    }
}
fn raw(n: &'static str, b: Vec<u8>) -> L {
    L::Raw(n, b)
}
/// The full alphabet.
pub fn alphabet() -> Vec<L> {
    vec![
        raw("F a v1", fmt("a:uint64_t timestamp;uint8_t v;")),
        raw("F a v2", fmt("a:int8_t w;uint64_t timestamp;")),
        raw("F b", fmt("b:a x;uint64_t timestamp;uint8_t[2] _padding0;")),
        raw("F ab", fmt("ab:uint64_t timestamp;a[2] y;")),
        raw("A(0,1,a)", sub(0, 1, "a")),
        raw("A(1,2,a)", sub(1, 2, "a")),
        raw("A(0,1,b)", sub(0, 1, "b")),
        raw("A(0,2,ab)", sub(0, 2, "ab")),
        raw("A(1,1,ab)", sub(1, 1, "ab")),
        raw("A(0,257,b)", sub(0, 257, "b")),
        raw("A(2,1,undefined)", sub(2, 1, "zz")),
        raw("R(1)", unsub(1)),
        raw("R(2)", unsub(2)),
        raw("R(7)", unsub(7)),
        L::Data(1),
        L::Data(2),
        L::Data(257),
        raw("I", info("char[2] k", b"hi")),
        raw("P", param("int32_t P", &[1, 2, 3, 4])),
        raw("L", log(b'5', 10, b"text")),
        raw("C", tlog(b'5', 3, 10, b"tagged")),
        raw("O", dropout(513)),
        raw("S", sync()),
        raw("B", flags([0; 8], [0; 8], [0; 3])),
        raw("A(3,1,a)", sub(3, 1, "a")),
    ]
}
/// Letters that matter after the first subscription.
fn data_alphabet() -> Vec<L> {
    let a = alphabet();
    [0usize, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16, 20, 24].iter().map(|i| a[*i].clone()).collect()
}
fn size_of(m: &rm::Model, name: &str) -> usize {
    fn ty(m: &rm::Model, t: &Ty, d: u32) -> usize {
        if d > 8 {
            return 0;
        }
        let one = match Prim::of(&t.base) {
            Some(p) => p.size(),
            None => m.formats.get(&t.base[1..]).map_or(0, |f| f.fields.iter().map(|x| ty(m, &x.1, d + 1)).sum()),
        };
        one * t.arr.unwrap_or(1)
    }
    m.formats.get(name).map_or(9, |f| f.fields.iter().map(|x| ty(m, &x.1, 0)).sum())
}
/// Appends letter `l` to the log, keeping the model in step.
pub fn push(out: &mut Vec<u8>, m: &mut rm::Model, l: &L, salt: u8) {
    let bytes = match l {
        L::Raw(_, b) => b.clone(),
        L::Data(id) | L::Short(id) => {
            let mut n = m.subs.get(id).map_or(9, |s| size_of(m, &s.1));
            if matches!(l, L::Short(_)) {
                n -= 1;
            }
            data(*id, &fill_from(n, salt))
        }
    };
    let _ = m.step(bytes[2], &bytes[3..], &Cfg::all());
    out.extend_from_slice(&bytes);
}
pub fn build(letters: &[L], word: &[usize], prefix: &[L]) -> Vec<u8> {
    let mut out = header();
    let mut m = rm::Model::default();
    for l in prefix {
        push(&mut out, &mut m, l, 3);
    }
    for (i, w) in word.iter().enumerate() {
        push(&mut out, &mut m, &letters[*w], (i as u8).wrapping_mul(41).wrapping_add(7));
    }
    out
}
fn decode_word(mut i: u64, k: usize, d: usize) -> Vec<usize> {
    (0..d).map(|_| digit(&mut i, k as u64) as usize).collect()
}
pub fn words_space(d: usize) -> Space {
    let a = alphabet();
    let k = a.len();
    let names: Vec<String> = a.iter().map(|l| l.name()).collect();
    Space::new("words", format!("every sequence of {d} messages over {k} letters {names:?}"), (k as u64).pow(d as u32), move |i| {
        build(&a, &decode_word(i, k, d), &[])
    })
}
fn words_data(d: usize) -> Space {
    let a = data_alphabet();
    let k = a.len();
    let full = alphabet();
    let prefix = vec![full[0].clone(), full[2].clone(), full[3].clone()];
    let names: Vec<String> = a.iter().map(|l| l.name()).collect();
    Space::new("data_words", format!("formats a, b, ab, then every sequence of {d} messages over {k} letters {names:?}"), (k as u64).pow(d as u32), move |i| {
        build(&a, &decode_word(i, k, d), &prefix)
    })
}
/// Breadth-first search of the reader model over an alphabet; every transition becomes a log: a shortest history to
/// its source state, the letter, and a probe suffix reading every id.
pub fn transitions(name: &'static str, letters: Vec<L>, probes: Vec<L>, cap: usize) -> Space {
    let mut index: HashMap<u64, usize> = HashMap::new();
    let mut parent: Vec<(usize, usize)> = vec![(usize::MAX, 0)];
    let mut q = VecDeque::new();
    index.insert(hash(&rm::Model::default()), 0);
    q.push_back((0usize, rm::Model::default()));
    let mut closed = true;
    while let Some((id, m)) = q.pop_front() {
        for (li, l) in letters.iter().enumerate() {
            let mut n = m.clone();
            let mut sink = vec![];
            push(&mut sink, &mut n, l, 1);
            let h = hash(&n);
            if index.contains_key(&h) {
                continue;
            }
            if parent.len() >= cap {
                closed = false;
                continue;
            }
            index.insert(h, parent.len());
            parent.push((id, li));
            q.push_back((parent.len() - 1, n));
        }
    }
    let ns = parent.len();
    let nl = letters.len();
    let names: Vec<String> = letters.iter().map(|l| l.name()).collect();
    let parent = Arc::new(parent);
    Space::new(
        name,
        format!("all {} transitions of the {ns} reader-model states{} over {names:?}, each replayed by a shortest history and followed by probes of every id", ns * nl, if closed { " (complete reachable set)" } else { " (first states breadth-first)" }),
        (ns * nl) as u64,
        move |i| {
            let (mut s, l) = (i as usize / nl, i as usize % nl);
            let mut w = vec![l];
            while parent[s].0 != usize::MAX {
                w.push(parent[s].1);
                s = parent[s].0;
            }
            w.reverse();
            let mut out = header();
            let mut m = rm::Model::default();
            for (j, x) in w.iter().enumerate() {
                push(&mut out, &mut m, &letters[*x], (j as u8).wrapping_mul(41).wrapping_add(7));
            }
            for (j, x) in probes.iter().enumerate() {
                push(&mut out, &mut m, x, (j as u8).wrapping_mul(29).wrapping_add(0x80));
            }
            out
        },
    )
}
fn bfs(t: Tier) -> Space {
    let a = alphabet();
    let pick: Vec<usize> = t.pick(vec![0, 1, 2, 4, 5, 6, 8, 9, 10, 11, 12, 14, 24], (0..a.len()).collect());
    transitions(
        "transitions",
        pick.iter().map(|i| a[*i].clone()).collect(),
        vec![L::Data(1), L::Data(2), L::Data(257), L::Data(7), a[0].clone(), L::Data(1)],
        t.pick(40_000, 400_000),
    )
}

/// One name under several ids, an id taken away or reused: the other ids keep what they have.
pub fn sharers() -> Space {
    const WHO: [(u8, &str); 4] = [(0, "a"), (1, "a"), (0, "b"), (2, "b")];
    const IDS: [u16; 4] = [1, 2, 7, 257];
    Space::new("sharers", "four ids, each subscribed to one of two names in one of two instances; then two of: unsubscribe an id, subscribe an id anew to any of them; then data of every id, twice".to_string(), 256 * 20 * 20, move |mut i| {
        let mut l = vec![alphabet()[0].clone(), alphabet()[2].clone()];
        for id in IDS {
            let (m, n) = WHO[digit(&mut i, 4) as usize];
            l.push(raw("A", sub(m, id, n)));
        }
        for _ in 0..2 {
            let id = IDS[digit(&mut i, 4) as usize];
            l.push(match digit(&mut i, 5) as usize {
                0 => raw("R", unsub(id)),
                k => raw("A", sub(WHO[k - 1].0, id, WHO[k - 1].1)),
            });
        }
        for _ in 0..2 {
            l.extend(IDS.map(L::Data));
        }
        let w: Vec<usize> = (0..l.len()).collect();
        build(&l, &w, &[])
    })
}
/// An id that was never subscribed but differs from one that was in one or two bits.
pub fn near_ids() -> Space {
    const BASE: [u16; 6] = [0, 1, 0x0102, 0x1234, 0x7fff, 0xffff];
    Space::new("near-ids", format!("ids {BASE:?} subscribed, the id with one or two bits flipped used for data, unsubscribed, subscribed, then data of both"), BASE.len() as u64 * 256 * 3, move |mut i| {
        let id = BASE[digit(&mut i, BASE.len() as u64) as usize];
        let (x, y) = (digit(&mut i, 16), digit(&mut i, 16));
        let near = id ^ (1 << x) ^ if x == y { 0 } else { 1 << y };
        let third = match i {
            0 => unsub(near),
            1 => sub(0, near, "b"),
            _ => log(b'6', 1, b"nothing"),
        };
        let a = alphabet();
        let l = [a[0].clone(), a[2].clone(), raw("A", sub(0, id, "a")), L::Data(near), L::Data(id), raw("x", third), L::Data(near), L::Data(id), raw("R", unsub(id)), L::Data(near), L::Data(id)];
        build(&l, &(0..l.len()).collect::<Vec<_>>(), &[])
    })
}
/// Messages of every other kind, at every place of some histories.
fn others() -> Space {
    let a = alphabet();
    let hosts: Vec<Vec<L>> = [vec![0usize, 2, 3, 4, 5, 7, 14, 15, 8, 14, 11, 14, 15, 4, 14, 24, 14], vec![0, 4, 14, 1, 5, 15, 6, 14, 12, 15, 5, 15], vec![0, 1, 2, 3, 6, 8, 14, 9, 16, 12, 16, 11, 14]]
        .iter()
        .map(|w| w.iter().map(|k| a[*k].clone()).collect())
        .collect();
    let mut x: Vec<Vec<u8>> = (0..=255u8).filter(|t| !b"FDAR".contains(t)).map(|t| msg(t, &[4, b'a', b'b', b'c', b'd', 0, 0, 0, 0])).collect();
    for k in ["a", "b", "m", "format", "timestamp"] {
        for i in [0u8, 1, 2] {
            x.push(info(&format!("char[2] {k}"), b"ab"));
            x.push(multi_info(i, &format!("char[2] {k}"), b"ab"));
            x.push(param(&format!("int32_t {k}"), &[i, 0, 0, 0]));
            x.push(def_param(i, &format!("float {k}"), &[1, 0, 0, i]));
        }
        x.push(info(&format!("a {k}"), &fill_from(9, 1)));
        x.push(info(&format!("a[2] {k}"), &fill_from(18, 1)));
        x.push(log(b'0', 0, k.as_bytes()));
        x.push(tlog(b'3', 1, 0, k.as_bytes()));
    }
    for b in 0..=255u8 {
        x.push(flags([b, 0, 0, 0, 0, 0, 0, b], [0; 8], [0; 3]));
        x.push(flags([b; 8], [1, 0, 0, 0, 0, 0, 0, 0], [0; 3]));
    }
    for n in [0u16, 1, 2, 257, 65535] {
        x.push(dropout(n));
        x.push(unsub(n ^ 0x4000));
    }
    x.push(sync());
    let (nx, nh) = (x.len() as u64, hosts.iter().map(|h| h.len() as u64).sum::<u64>());
    Space::new("others", format!("three histories with each of {nx} other messages (every other type byte, keys named like formats, flag bits, dropouts, unknown ids) inserted at every place"), nx * nh, move |mut i| {
        let m = raw("x", x[digit(&mut i, nx) as usize].clone());
        let mut h = 0;
        while i >= hosts[h].len() as u64 {
            i -= hosts[h].len() as u64;
            h += 1;
        }
        let mut l = hosts[h].clone();
        l.insert(i as usize + 1, m);
        build(&l, &(0..l.len()).collect::<Vec<_>>(), &[])
    })
}
/// Every id and every instance number, subscribed to a listed and then to another name.
fn every_id() -> Space {
    Space::new("every-id", "every message id and every instance number, subscribed to the one name, then to the other".to_string(), 65536 * 2, |i| {
        let (id, m) = ((i / 2) as u16, (i / 2 % 256) as u8);
        let (p, q) = if i % 2 == 0 { ("a", "b") } else { ("b", "a") };
        let a = alphabet();
        let l = [a[0].clone(), a[2].clone(), raw("A", sub(m, id, p)), L::Data(id), raw("A", sub(m, id.wrapping_add(1), q)), L::Data(id.wrapping_add(1)), L::Data(id), raw("A", sub(m, id, q)), L::Data(id), raw("R", unsub(id)), L::Data(id)];
        build(&l, &(0..l.len()).collect::<Vec<_>>(), &[])
    })
}
/// C03: items and the parser's subscription/format lookups follow the model after every message.
fn c03(b: &[u8], ctx: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg::all();
    let e = against_model(b, &cfg, ctx)?;
    if e.tail != rm::Tail::End {
        return Ok(());
    }
    let r = guard(|| {
        let mut p = parser(b, &cfg);
        let mut m = rm::Model::default();
        let (fr, _) = rm::frames(b);
        p.next();
        for (i, (_, t, pl)) in fr.iter().enumerate() {
            p.next();
            m.step(*t, pl, &cfg);
            for id in [1u16, 2, 7, 257] {
                let got = p.get_subscription(id).ok().map(|s| (s.multi_id, s.message_name.clone(), s.msg_id));
                let want = m.subs.get(&id).map(|s| (s.0, s.1.clone(), id));
                if got != want {
                    return Err(format!("after message {i}: subscription of id {id} is {got:?}, expected {want:?}"));
                }
            }
            for n in ["a", "b", "ab", "zz"] {
                let got = p.get_format(n).ok().map(|f| defn(&f));
                let want = m.formats.get(n).map(|d| (**d).clone());
                if got != want {
                    return Err(format!("after message {i}: format {n} is {got:?}, expected {want:?}"));
                }
            }
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(w)) => Err(Fail::new(w, hex(b))),
        Err(p) => Err(Fail::new(format!("panic: {p}"), hex(b))),
    }
}

const LISTS: [&[&str]; 10] = [&[], &["a"], &["b"], &["ab"], &["a", "b"], &["a", "ab"], &["zz"], &["A", "aa", "ba", ""], &["a", "a", "zz"], &["a", "b", "ab"]];
fn c04(b: &[u8], ctx: &mut Ctx) -> Result<(), Fail> {
    c04_lists(b, &LISTS.map(|l| l.to_vec()), ctx)
}
/// Names that nearly coincide: prefixes, suffixes, other case, separators, numbered.
pub const NEAR: [&str; 22] =
    ["m", "m1", "m_1", "m_", "_m", "M", "mm", "am", "ma", "m/x", "m-x", "m_x", "mx", "x/m", "m0", "m00", "m01", "m10", "timestamp", "uint8_t", "mm/x", "multi_m"];
/// The log that subscribes every name of NEAR under its own id, and one more instance of each.
pub fn near_log() -> Vec<u8> {
    let mut v = header();
    for n in NEAR {
        v.extend(fmt(&format!("{n}:uint64_t timestamp;uint8_t v;")));
    }
    for (i, n) in NEAR.iter().enumerate() {
        v.extend(sub(0, i as u16, n));
        v.extend(data(i as u16, &fill_from(9, i as u8)));
    }
    for (i, n) in NEAR.iter().enumerate() {
        v.extend(sub(1, 256 + i as u16, n));
    }
    for i in 0..NEAR.len() as u16 {
        v.extend(data(256 + i, &fill_from(9, i as u8)));
        v.extend(data(i, &fill_from(9, i as u8)));
    }
    v
}
/// One of the names (or a pair) subscribed under several instances, data of all the others before and after.
pub fn near_instances() -> Space {
    const MORE: [&str; 26] = ["m", "m1", "m_1", "m_", "_m", "M", "mm", "am", "ma", "m/x", "m-x", "m_x", "mx", "x/m", "m0", "m00", "m01", "m10", "timestamp", "uint8_t", "mm/x", "multi_m", "Mm", "M1", "MX", "Timestamp"];
    let n = MORE.len();
    Space::new("near-instances", format!("each of {MORE:?}, or each pair of them, subscribed again as instance 1 or 255 before or after the others are subscribed as instance 0, data of all before and after"), (n * n * 4) as u64, move |mut i| {
        let a = digit(&mut i, n as u64) as usize;
        let b = digit(&mut i, n as u64) as usize;
        let inst = [1u8, 255][digit(&mut i, 2) as usize];
        let late = i == 1;
        let mut v = header();
        for n in MORE {
            v.extend(fmt(&format!("{n}:uint64_t timestamp;uint8_t v;")));
        }
        let ones = |v: &mut Vec<u8>| {
            v.extend(sub(inst, 300 + a as u16, MORE[a]));
            if b != a {
                v.extend(sub(inst, 300 + b as u16, MORE[b]));
            }
        };
        let all = |v: &mut Vec<u8>, s: u8| {
            for i in 0..n as u16 {
                v.extend(data(i, &fill_from(9, s.wrapping_add(i as u8))));
            }
        };
        if !late {
            ones(&mut v);
        }
        for (i, n) in MORE.iter().enumerate() {
            v.extend(sub(0, i as u16, n));
        }
        all(&mut v, 1);
        if late {
            ones(&mut v);
        }
        v.extend(data(300 + a as u16, &fill_from(9, 200)));
        v.extend(data(300 + b as u16, &fill_from(9, 210)));
        all(&mut v, 100);
        v
    })
}
/// Names that differ from a defined one by little: all of them undefined.
pub fn near_undefined() -> Space {
    let bases = ["m", "m_1", "sensor_gps", "A-b/c"];
    let mut cases: Vec<(&str, Vec<u8>)> = vec![];
    for base in bases {
        let b = base.as_bytes();
        let mut v: Vec<Vec<u8>> = vec![vec![]];
        for c in 0..=127u8 {
            v.push([b, &[c]].concat());
            v.push([&[c], b].concat());
            v.push([b, &[c, c]].concat());
            v.push([b, &[c], b].concat());
            for k in 0..b.len() {
                let mut x = b.to_vec();
                x[k] = c;
                v.push(x);
                let mut x = b.to_vec();
                x.insert(k, c);
                v.push(x);
            }
        }
        for k in 0..b.len() {
            v.extend([b[..k].to_vec(), b[k..].to_vec(), [&b[..k], &b[k + 1..]].concat()]);
        }
        v.extend(["\u{a0}", "\u{feff}", "\u{200b}", "é"].iter().flat_map(|u| [[b, u.as_bytes()].concat(), [u.as_bytes(), b].concat()]));
        v.push(base.to_uppercase().into_bytes());
        v.push(base.replace(['_', '-', '/'], "").into_bytes());
        v.sort();
        v.dedup();
        v.retain(|x| x != b);
        cases.extend(v.into_iter().map(|x| (base, x)));
    }
    let n = cases.len() as u64;
    Space::new("near-undefined", format!("{n} names that differ from a defined one ({bases:?}) by one or two characters (every ASCII character at every position added or put in place, parts, other case), subscribed before or after the defined one, for its id or another; data of both ids"), n * 4, move |mut i| {
        let late = digit(&mut i, 2) == 1;
        let id = [7u16, 9][digit(&mut i, 2) as usize];
        let (base, name) = &cases[i as usize];
        let ask = msg(b'A', &[&[0, id as u8, 0][..], name].concat());
        let mut v = cat(&[header(), fmt(&format!("{base}:uint64_t timestamp;uint8_t v;"))]);
        if !late {
            v.extend(&ask);
        }
        v.extend(sub(0, 7, base));
        v.extend(data(7, &fill_from(9, 1)));
        if late {
            v.extend(&ask);
        }
        v.extend(data(id, &fill_from(9, 60)));
        v.extend(data(7, &fill_from(9, 100)));
        v
    })
}
/// A log of n names (`prefix` and a number), each subscribed and with data.
pub fn named_log(prefix: &str, n: u64) -> Vec<u8> {
    let mut v = header();
    for i in 0..n {
        v.extend(fmt(&format!("{prefix}{i}:uint64_t timestamp;uint8_t v;")));
    }
    for i in 0..n {
        v.extend(sub((i % 3) as u8, i as u16, &format!("{prefix}{i}")));
    }
    for i in 0..n {
        v.extend(data(i as u16, &fill_from(9, i as u8)));
    }
    v
}
/// Which of n names are listed, in which order.
pub fn long_list(prefix: &str, n: u64, kind: u64) -> Vec<String> {
    let name = |i: u64| format!("{prefix}{i}");
    match kind {
        0 => (0..n).map(name).collect(),
        1 => (0..n).rev().filter(|i| i % 2 == 1).map(name).collect(),
        2 => (0..n).map(|i| if i == n - 1 { name(i) } else { format!("x{i}") }).collect(),
        _ => (1..n).map(|i| if i % 7 == 0 { name(i) } else { format!("{prefix}{i}_") }).collect(),
    }
}
pub fn long_sizes(t: Tier) -> Vec<u64> {
    let mut v: Vec<u64> = (1..=24).collect();
    for p in [32u64, 64, 100, 128, 256, 512, 1000, 1024, 2048, 4096] {
        v.extend([p - 1, p, p + 1]);
    }
    v.extend(t.pick(vec![], vec![8191, 8192, 10000, 16384, 32768, 65535]));
    v
}
/// Data that can't be decoded, or is empty, short or long, of listed and unlisted names.
fn payloads(t: Tier) -> Space {
    let shapes = [
        "uint64_t timestamp;uint8_t v;", "uint8_t v;", "uint8_t v;uint64_t timestamp;", "uint32_t timestamp;uint8_t v;", "uint64_t timestamp;nothing x;", "uint64_t timestamp;b x;", "uint64_t timestamp;uint8_t[60000] v;", "uint64_t timestamp;uint8_t[0] v;",
        "uint64_t timestamp;char[4] s;", "uint64_t timestamp;uint8_t v;uint8_t[7] _padding0;", "uint8_t[2] _padding0;uint64_t timestamp;", "uint64_t[2] timestamp;", "", "uint64_t timestamp;", "uint64_t timestamp;c[3] x;c y;", "uint64_t timestamp;b[0] x;",
    ];
    let lens: Vec<u64> = (0..=t.pick(24, 40)).chain([255, 256, 1000, 60_008, 65_533]).collect();
    let (ns, nl) = (shapes.len() as u64, lens.len() as u64);
    Space::new("payloads", format!("10 allow-lists x names a, b, ab in one of {ns} formats (sound, or with a missing or mistyped timestamp, undefined, recursive, empty or huge parts), their data of each length in {lens:?}, with three byte fills, around data of a sound one"), ns * nl * 9, move |mut i| {
        let name = ["a", "b", "ab"][digit(&mut i, 3) as usize];
        let fill = digit(&mut i, 3);
        let len = lens[digit(&mut i, nl) as usize] as usize;
        let p = match fill {
            0 => vec![0; len],
            1 => vec![0xff; len],
            _ => fill_from(len, 1),
        };
        let mut v = cat(&[header(), fmt("c:uint16_t x;"), fmt(&format!("{name}:{}", shapes[i as usize])), fmt("ok:uint64_t timestamp;uint8_t v;"), sub(0, 5, "ok"), sub(0, 1, name), sub(1, 2, name)]);
        for id in [5, 1, 2, 5, 1] {
            v.extend(data(id, if id == 5 { &p[..0] } else { &p }));
        }
        v.extend(data(5, &fill_from(9, 1)));
        v
    })
}
/// Many formats and subscriptions in force at once.
pub fn many_names(t: Tier) -> Space {
    let sizes = long_sizes(t);
    let what = format!("n names defined and subscribed in order, n ids of one name, or n names subscribed in reverse, every third unsubscribed, others subscribed again for another name; data of all ids, n in {sizes:?}");
    Space::new("many-names", what, sizes.len() as u64 * 3, move |mut i| {
        let kind = digit(&mut i, 3);
        let n = sizes[i as usize];
        let mut v = named_log("n", if kind == 1 { 2 } else { n });
        match kind {
            0 => {}
            1 => {
                for i in 0..n {
                    v.extend(sub(0, i as u16, if i % 5 == 4 { "n1" } else { "n0" }));
                }
            }
            _ => {
                for i in (0..n).rev() {
                    v.extend(sub(0, (i * 7 + 3) as u16, &format!("n{i}")));
                }
                for i in (0..n).step_by(3) {
                    v.extend(unsub((i * 7 + 3) as u16));
                }
                for i in (1..n).step_by(3) {
                    v.extend(sub(1, (i * 7 + 3) as u16, &format!("n{}", n - 1 - i)));
                }
            }
        }
        for i in 0..n {
            v.extend(data(if kind == 2 { (i * 7 + 3) as u16 } else { i as u16 }, &fill_from(9, i as u8)));
        }
        v
    })
}
pub fn near_names() -> Vec<&'static str> {
    NEAR.iter().copied().chain(["", " ", "m ", " m", "*", "m*", ".*", "zz", "m\0", "/"]).collect()
}
/// Every allow-list of 0, 1 or 2 names of NEAR and of strings that are no subscribed name.
fn near_lists() -> Vec<Vec<&'static str>> {
    let n = near_names();
    let mut v: Vec<Vec<&str>> = vec![vec![]];
    for i in 0..n.len() {
        v.push(vec![n[i]]);
        for j in 0..n.len() {
            v.push(vec![n[i], n[j]]);
        }
    }
    v
}
fn c04_lists<S: AsRef<str>>(b: &[u8], lists: &[Vec<S>], ctx: &mut Ctx) -> Result<(), Fail> {
    let free = run(b, &Cfg::all());
    for (li, l) in lists.iter().enumerate() {
        let l: &Vec<&str> = &l.iter().map(|s| s.as_ref()).collect();
        let cfg = Cfg::all().allow(l);
        let e = against_model(b, &cfg, ctx)?;
        let got = run(b, &cfg);
        // relation to the unfiltered run
        if free.len() != got.len() {
            return Err(Fail::new(format!("allow-list {l:?} changes the number of items"), hex(b)));
        }
        for (i, (f, g)) in free.iter().zip(&got).enumerate() {
            let is_d = i > 0 && i - 1 < e.states.len() && b[e.ends[i - 1] + 2] == b'D';
            if f != g && !(is_d && *g == Obs::Ignored(b'D')) {
                return Err(Fail::new(format!("allow-list {l:?}: item {i} is {} instead of {}", rm::show(g), rm::show(f)), hex(b)));
            }
        }
        // the deprecated setter means the same
        #[allow(deprecated)]
        let other = guard(|| {
            let mut p = parser(b, &Cfg::all());
            p.set_subscription_allow_list(l.iter().map(|s| s.to_string()).collect());
            p.take(cap_for(b.len()) + 1).map(|r| item(&r)).collect::<Vec<_>>()
        })
        .map_err(|p| Fail::new(format!("panic: {p}"), hex(b)))?;
        if other != got {
            return Err(Fail::new(format!("allow-list {l:?} set on the parser differs from the builder's"), hex(b)));
        }
        // filtered logs re-encode to the log without the ignored messages (a few lists are enough: it is per item)
        if li < 4 {
            let ms = messages(b, &cfg).map_err(|p| Fail::new(format!("panic: {p}"), hex(b)))?;
            for (i, m) in ms.iter().enumerate() {
                if let Some(m @ yule_log::model::msg::UlogMessage::Ignored { .. }) = m {
                    let mut out = vec![];
                    let r = guard(|| m.encode(&mut out));
                    if !matches!(r, Ok(Ok(()))) || !out.is_empty() {
                        return Err(Fail::new(format!("Ignored item {i} encodes to {} ({r:?})", hex(&out)), hex(b)));
                    }
                }
            }
        }
    }
    Ok(())
}
fn c04_alphabet() -> Vec<L> {
    let a = alphabet();
    let mut v: Vec<L> = [0usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16].iter().map(|i| a[*i].clone()).collect();
    v.push(L::Short(1));
    v
}
fn c04_spaces(t: Tier) -> Vec<Space> {
    let a = c04_alphabet();
    let b = a.clone();
    let k = a.len();
    let d = t.pick(4, 5);
    let full = alphabet();
    let prefix = vec![full[0].clone(), full[2].clone(), full[3].clone()];
    let names: Vec<String> = a.iter().map(|l| l.name()).collect();
    vec![
        Space::new("words", format!("10 allow-lists x formats a, b, ab, then every sequence of {d} messages over {k} letters {names:?}, then probes of all ids"), (k as u64).pow(d as u32), move |i| {
            let w = decode_word(i, k, d);
            let mut letters = a.clone();
            let n = letters.len();
            letters.extend([L::Data(1), L::Data(2), L::Data(257)]);
            let w: Vec<usize> = w.into_iter().chain([n, n + 1, n + 2]).collect();
            build(&letters, &w, &prefix)
        }),
        transitions("transitions", b, vec![L::Data(1), L::Data(2), L::Data(257)], t.pick(3_000, 100_000)),
        payloads(t),
        Space::list("omnibus", "10 allow-lists x one log with every message kind", vec![omnibus()]),
    ]
}

/// Malformed contents with intact framing, for C09.
pub fn malformed(t: Tier) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    // every known type with every payload too short for it
    let full: Vec<Vec<u8>> = vec![
        flags([0; 8], [0; 8], [0; 3]),
        fmt("q:uint8_t a;"),
        info("int32_t k", &[1, 2, 3, 4]),
        info("char[3] k", b"abc"),
        multi_info(0, "uint16_t[2] k", &[1, 2, 3, 4]),
        param("float P", &[1, 2, 3, 4]),
        def_param(1, "int32_t P", &[1, 2, 3, 4]),
        sub(0, 9, "m"),
        unsub(1),
        data(1, &fill_from(9, 1)),
        data(2, &fill_from(14, 1)),
        log(b'6', 5, b""),
        tlog(b'6', 5, 5, b""),
        dropout(1),
    ];
    for m in &full {
        for n in 0..m.len() - 3 {
            let p = &m[3..3 + n];
            if m[2] == b'F' && n == 2 {
                continue; // "q:" alone: see the grammar check
            }
            v.push(msg(m[2], p));
        }
    }
    for b in (0u16..=255).map(|b| b as u8) {
        if !(b'0'..=b'7').contains(&b) {
            v.push(log(b, 1, b"x"));
            v.push(tlog(b, 1, 1, b"x"));
        }
    }
    // invalid UTF-8 of every class, in every text
    for bad in [&[0x80u8][..], &[0xff], &[0xc0, 0x80], &[0xe2, 0x82], &[0xed, 0xa0, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[0xf0, 0x9f], &[0xc3]] {
        v.push(log(b'6', 1, bad));
        v.push(log(b'6', 1, &[b"ok", bad, b"ok"].concat()));
        v.push(tlog(b'6', 1, 1, bad));
        v.push(msg(b'F', &[b"q:uint8_t ", bad, b";"].concat()));
        v.push(msg(b'F', &[b"q", bad, b":uint8_t a;"].concat()));
        v.push(msg(b'A', &[&[0u8, 1, 0][..], b"m", bad].concat()));
        for (t, pre) in [(b'I', vec![]), (b'M', vec![0u8]), (b'P', vec![]), (b'Q', vec![1u8])] {
            let key = [b"float k", bad].concat();
            v.push(msg(t, &[pre, vec![key.len() as u8], key, vec![0; 4]].concat()));
        }
    }
    // key texts that are no typed key, unsupported parameter types, unknown types
    for k in ["", " ", "k", "int32_t", "[3] k", "int32_t[ k", "int32_t[] k", "int32_t[x] k", "int32_t[3 k", "int32_t]3[ k", ": k", "int32_t ; k", "int32_t[-1] k", "int32_t[99999999999999999999999] k", "int32_t[3]", "nosuch k", "nosuch[2] k", "?", "\u{e9} k"] {
        v.push(info(k, &[0; 16]));
        v.push(multi_info(0, k, &[0; 16]));
        v.push(param(k, &[0; 4]));
        v.push(def_param(0, k, &[0; 4]));
    }
    for k in ["uint8_t", "int8_t", "uint16_t", "int16_t", "uint32_t", "uint64_t", "int64_t", "double", "bool", "char", "m"] {
        v.push(param(&format!("{k} P"), &[0; 9]));
        v.push(def_param(0, &format!("{k} P"), &[0; 9]));
    }
    for k in ["int32_t[1]", "float[1]", "float[0]", "int32_t[2]"] {
        v.push(param(&format!("{k} P"), &[0; 8]));
        v.push(def_param(0, &format!("{k} P"), &[0; 8]));
    }
    // formats that are no format
    for f in ["", "q", ":", "q uint8_t a;", "q:uint8_t", "q:uint8_t a", "q:uint8_t;", "q:a;", "q:uint8_t a;;", "q:;", "q:uint8_t[] a;", "q:uint8_t[x] a;", "q:uint8_t[2 a;", "q:uint8_t a,", "q:uint8_t[2][2] a;", "q:uint8_t a b;", "q;uint8_t a;", "m:uint8_t", "m:bad bad", "q:uint8_t[18446744073709551616] a;", "m:uint8_t \u{1f680};"] {
        v.push(fmt(f));
    }
    // subscriptions to what does not exist
    for n in ["", "nosuch", "M", "m ", " m", "m\0", "mm", "m:"] {
        v.push(sub(0, 1, n));
        v.push(sub(3, 9, n));
    }
    // unknown ids; formats without a usable timestamp; unknown nested format; wrong incompatible flags
    for id in [0u16, 5, 256, 257, 0x100, 0x200, 65535] {
        v.push(data(id, &fill_from(9, 1)));
    }
    for b in t.pick(vec![0x02u8, 0x80, 0xfe, 0xff], (2..=255).filter(|x| x & 0xfe != 0).collect()) {
        v.push(flags([0; 8], [b, 0, 0, 0, 0, 0, 0, 0], [0; 3]));
    }
    for i in 1..8 {
        let mut x = [0u8; 8];
        x[i] = 1;
        v.push(flags([0; 8], x, [0; 3]));
        x[0] = 1;
        v.push(flags([0; 8], x, [0; 3]));
    }
    // refused, with the known bit and offsets that would end the log at once or soon
    for b in t.pick(vec![0x03u8, 0x81, 0xff], (2..=255).filter(|x| x & 1 != 0).collect()) {
        for o in [1u64, 17, 90, 150, 400] {
            v.push(flags([0xff; 8], [b, 0, 0, 0, 0, 0, 0, 0], [o, 0, 0]));
            v.push(flags([0; 8], [b, 0, 0, 0, 0, 0, 0, 1], [0, o, o + 1]));
        }
    }
    v
}
pub fn c09_spaces(t: Tier) -> Vec<Space> {
    let bad = malformed(t);
    let host: Vec<Vec<u8>> = vec![
        fmt(N1),
        fmt("m:uint64_t timestamp;uint8_t a;"),
        fmt("w:n1 x;uint64_t timestamp;uint8_t b;"),
        fmt("nots:uint8_t a;"),
        fmt("badts:uint32_t timestamp;uint8_t a;"),
        fmt("arrts:uint64_t[1] timestamp;"),
        fmt("nest:nosuch x;uint64_t timestamp;"),
        fmt("t1:uint64_t timestamp;"),
        fmt("nestts:t1 x;uint32_t timestamp;"),
        fmt("tstype:t1 timestamp;uint8_t a;"),
        fmt("tsarr:t1[1] timestamp;"),
        fmt("onlynest:t1 x;t1[2] y;"),
        fmt("empty:"),
        param("int32_t A", &[1, 0, 0, 0]),
        sub(0, 1, "m"),
        sub(1, 2, "w"),
        sub(0, 3, "nots"),
        sub(0, 4, "badts"),
        sub(0, 6, "arrts"),
        sub(0, 7, "nest"),
        sub(0, 8, "nestts"),
        sub(0, 9, "tstype"),
        sub(0, 10, "tsarr"),
        sub(0, 11, "onlynest"),
        data(1, &fill_from(9, 3)),
        data(2, &fill_from(14, 4)),
        log(b'6', 2, b"l"),
        unsub(2),
        data(1, &fill_from(9, 5)),
        sub(0, 2, "m"),
        data(2, &fill_from(9, 6)),
    ];
    let mut bad = bad;
    for id in [3u16, 4, 6, 7, 8, 9, 10, 11] {
        for n in [0usize, 1, 4, 5, 8, 9, 12, 16, 24, 25] {
            bad.push(data(id, &fill_from(n, 9)));
        }
    }
    let (nb, nh) = (bad.len(), host.len() + 1);
    let (b2, h2) = (bad.clone(), host.clone());
    let d0 = host.iter().position(|m| m[2] == b'D').unwrap() + 1;
    let sub_n = t.pick(nb.min(60), nb);
    let (b3, h3) = (bad.clone(), host.clone());
    vec![
        // flag bits with appended data first; its offset is counted with the malformed message
        Space::new("limited", format!("a log with appended data, its offset at the end of each of the last 8 messages, in the middle of it or far behind the file; {nb} malformed messages at each of 4 places"), (nb * 4 * 24) as u64, move |mut i| {
            let (bi, at) = (digit(&mut i, nb as u64) as usize, [0usize, 5, h3.len() - 14, h3.len() - 6][digit(&mut i, 4) as usize]);
            let (cut, how) = (digit(&mut i, 8) as usize, i);
            let mut ms = h3.clone();
            ms.insert(at, b3[bi].clone());
            let end: usize = 16 + 43 + ms[..ms.len() - cut].iter().map(|m| m.len()).sum::<usize>();
            let off = match how { 0 => end, 1 => end - 2, _ => end + 100_000 * (cut + 1) } as u64;
            cat(&[header(), flags([0; 8], [1, 0, 0, 0, 0, 0, 0, 0], [0, off, 0]), ms.concat()])
        }),
        Space::new("single", format!("{nb} malformed messages inserted at each of {nh} places of a log of every section"), (nb * nh) as u64, move |i| {
            let (bi, hi) = (i as usize % nb, i as usize / nb);
            cat(&[header(), host[..hi].concat(), bad[bi].clone(), host[hi..].concat()])
        }),
        Space::new("pairs", format!("every ordered pair of malformed messages ({sub_n} x {nb}), the first before and the second after the first subscription, and both adjacent"), (sub_n * nb * 2) as u64, move |i| {
            let mut i = i;
            let a = digit(&mut i, nb as u64) as usize;
            let k = digit(&mut i, sub_n as u64) as usize;
            let b = k * nb / sub_n; // spread over all kinds when reduced
            if i == 0 {
                cat(&[header(), h2[..4].concat(), b2[a].clone(), h2[4..d0].concat(), b2[b].clone(), h2[d0..].concat()])
            } else {
                cat(&[header(), h2[..d0 + 1].concat(), b2[a].clone(), b2[b].clone(), h2[d0 + 1..].concat()])
            }
        }),
    ]
}
/// C09: the model's expectation, plus: removing the messages the parser rejects leaves the other items unchanged.
fn c09(b: &[u8], ctx: &mut Ctx) -> Result<(), Fail> {
    let e = against_model(b, &Cfg::all(), ctx)?;
    against_model(b, &Cfg::default().allow(&["m", "w"]), ctx)?;
    if b.get(16 + 2) == Some(&b'B') && b.get(16 + 3 + 8) == Some(&1) && b[16] == 40 {
        return Ok(()); // without the rejected messages the offset would mean another place
    }
    let got = run(b, &Cfg::all());
    let (fr, _) = rm::frames(b);
    if got.len() != fr.len() + 1 || e.tail != rm::Tail::End {
        return Err(Fail::new(format!("{} items for {} messages", got.len(), fr.len()), hex(b)));
    }
    let mut rest = b[..16].to_vec();
    let mut want = vec![got[0].clone()];
    for (i, (o, _, p)) in fr.iter().enumerate() {
        if got[i + 1] != Obs::Err {
            rest.extend_from_slice(&b[*o..*o + 3 + p.len()]);
            want.push(got[i + 1].clone());
        }
    }
    let again = run(&rest, &Cfg::all());
    ctx.execs += 1;
    if again != want {
        return Err(Fail::new("without the rejected messages the other items differ".to_string(), hex(b)));
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C03",
            level: "model_checking",
            rule: "states = distinct reader-model states (formats, subscriptions, instance names, section, limit); every word and every transition is executed on the real parser, items and lookups compared after each message",
            assumptions: vec!["ids, names and formats beyond the alphabet behave like those in it".into()],
            families: |t| over(vec![words_space(t.pick(4, 5)), words_data(t.pick(5, 6)), bfs(t), sharers(), near_ids(), near_instances(), near_undefined(), many_names(t), others(), every_id()], c03),
        },
        Check {
            id: "C04",
            level: "model_checking",
            rule: "states = distinct reader-model states; every history is executed under 10 allow-lists and compared with the model and with the unfiltered run item by item",
            assumptions: vec!["ids and names beyond the alphabet behave like those in it".into()],
            families: |t| {
                let mut f = over(c04_spaces(t), c04);
                f.extend(over(vec![sharers(), others(), every_id()], move |b, ctx| c04_lists(b, &t.pick(vec![vec!["a"]], vec![vec![], vec!["a"], vec!["b", "zz"]]), ctx)));
                let lists = near_lists();
                let what = format!("one log subscribing {NEAR:?} x each of {} allow-lists of at most two names, among them strings that are no subscribed name", lists.len());
                let l2 = lists.clone();
                f.push(Family::new("lists", &what, lists.len() as u64, move |i, ctx| c04_lists(&near_log(), &[lists[i as usize].clone()], ctx), move |i| format!("{:?}", l2[i as usize])));
                let sizes = long_sizes(t);
                let what = format!("logs that subscribe n names x 4 allow-lists of up to n names (all in order, every other one in reverse, only the last one among foreign ones, every seventh among names that are longer by one character), n in {sizes:?}");
                let at = move |mut i: u64| {
                    let kind = digit(&mut i, 4);
                    (sizes[i as usize], kind)
                };
                let a2 = at.clone();
                f.push(Family::new("long-lists", &what, long_sizes(t).len() as u64 * 4, move |i, ctx| { let (n, k) = at(i); c04_lists(&named_log("n", n), &[long_list("n", n, k)], ctx) }, move |i| format!("{:?}", a2(i))));
                f
            },
        },
        Check {
            id: "C09",
            level: "model_checking",
            rule: "states = distinct reader-model states; each log with malformed messages is executed and compared with the model, and executed again without the rejected messages",
            assumptions: vec!["malformed contents beyond the enumerated classes behave like those in it".into()],
            families: |t| over([c09_spaces(t), vec![crate::corpus::misfits()]].concat(), c09),
        },
    ]
}
