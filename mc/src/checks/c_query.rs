//! C26: lookups and allow-list changes between items.
use super::c_hist::{alphabet, build, malformed, transitions, words_space, L};
use super::*;
use crate::corpus::{self, digit, Space};
use crate::wire::*;
use std::collections::BTreeSet;
use std::sync::Arc;
use yule_log::errors::ULogError;

/// Every name and id the log mentions, and near misses.
fn universe(b: &[u8]) -> (Vec<String>, Vec<u16>) {
    let (mut names, mut ids) = (BTreeSet::new(), BTreeSet::new());
    for n in ["", "zz", "uint8_t", "timestamp"] {
        names.insert(n.to_string());
    }
    ids.extend([0u16, 1, 7, 255, 256, 65535]);
    for (_, t, p) in rm::frames(b).0 {
        let id_at = |o: usize| p.get(o..o + 2).map(|x| u16::from_le_bytes([x[0], x[1]]));
        let mut near = |n: &str| {
            names.insert(n.to_string());
            names.insert(format!("{n} "));
            names.insert(n.to_uppercase());
            names.insert(n.to_lowercase());
            for x in ["_", "0", "s", "\0", "-", ":"] {
                names.insert(format!("{n}{x}"));
            }
            for x in ["_", " ", "a", "/"] {
                names.insert(format!("{x}{n}"));
            }
            if let Some(k) = n.char_indices().last() {
                names.insert(n[..k.0].to_string());
            }
        };
        match t {
            b'F' => {
                let s = String::from_utf8_lossy(p).to_string();
                near(s.split(':').next().unwrap_or(""));
                if let Some(f) = s.split([':', ' ', ';', '[']).nth(1) {
                    near(f);
                }
            }
            b'A' => {
                ids.extend(id_at(1));
                near(&String::from_utf8_lossy(p.get(3..).unwrap_or(b"")));
            }
            b'D' | b'R' => ids.extend(id_at(0)),
            _ => {}
        }
        if ids.len() > 24 || names.len() > 150 {
            break;
        }
    }
    let more: Vec<u16> = ids.iter().flat_map(|i| [i.wrapping_add(1), i ^ 0x100]).collect();
    ids.extend(more);
    (names.into_iter().collect(), ids.into_iter().collect())
}
fn look<R: std::io::Read>(p: &yule_log::parser::ULogParser<R>, m: &rm::Model, names: &[String], ids: &[u16]) -> Result<u64, String> {
    for id in ids {
        let want = m.subs.get(id).map(|s| (s.0, s.1.clone(), *id));
        let got = match p.get_subscription(*id) {
            Ok(s) => Some((s.multi_id, s.message_name.clone(), s.msg_id)),
            Err(ULogError::UndefinedSubscription(x)) if x == *id => None,
            Err(e) => return Err(format!("looking up subscription {id} fails with {e:?}")),
        };
        if got != want {
            return Err(format!("subscription of id {id} is {got:?}, expected {want:?}"));
        }
    }
    for n in names {
        let want = m.formats.get(n).map(|d| (**d).clone());
        let got = match p.get_format(n) {
            Ok(f) => Some(defn(&f)),
            Err(ULogError::UndefinedFormat(x)) if x == *n => None,
            Err(e) => return Err(format!("looking up format {n:?} fails with {e:?}")),
        };
        if got != want {
            return Err(format!("format {n:?} is {got:?}, expected {want:?}"));
        }
    }
    Ok((ids.len() + names.len()) as u64)
}
fn lookups(b: &[u8], ctx: &mut Ctx) -> Result<(), Fail> {
    for cfg in [Cfg::all(), Cfg::default().allow(&["b", "m"])] {
        let e = rm::expect(b, &cfg);
        let (names, ids) = universe(b);
        let (fr, _) = rm::frames(b);
        let hdr = usize::from(cfg.hdr && !e.items.is_empty());
        let r = guard(|| {
            let mut p = parser(b, &cfg);
            let mut m = rm::Model::default();
            let mut got = vec![];
            let mut n = look(&p, &m, &names, &ids).map_err(|w| format!("before the first item: {w}"))?;
            let mut open = false;
            for i in 0..e.items.len() + 4 {
                let o = p.next().map(|r| item(&r));
                if i >= hdr && i < e.items.len() {
                    let (_, t, pl) = fr[i - hdr];
                    // only a definition left open leaves the state open
                    open |= !matches!(m.step(t, pl, &cfg).0, rm::Exp::Is(_)) && t == b'F';
                }
                if !open && (n < 4000 || i + 4 > e.items.len() || i % 97 == 0) {
                    n += look(&p, &m, &names, &ids).map_err(|w| format!("after item {i}: {w}"))?;
                }
                match o {
                    Some(o) => got.push(o),
                    None if i >= e.items.len() + 2 => break,
                    None => {}
                }
            }
            Ok::<_, String>((got, n, open))
        });
        let (got, n, open) = match r {
            Ok(Ok(x)) => x,
            Ok(Err(w)) => return Err(Fail::new(format!("{w} (options {cfg:?})"), hex(b))),
            Err(p) => return Err(Fail::new(format!("panic: {p}"), hex(b))),
        };
        tally(&e, &got, ctx);
        ctx.note("lookups", n);
        if open {
            ctx.skipped += 1;
        }
        // the lookups change nothing
        if e.tail != rm::Tail::Errs {
            rm::compare(&e, &got).map_err(|w| Fail::new(format!("with lookups between the items: {w}"), hex(b)))?;
        }
    }
    Ok(())
}
const LISTS: [&[&str]; 7] = [&["a"], &["b"], &["ab"], &[], &["a", "ab"], &["zz", "b", "a"], &["A", "aa", ""]];
/// The list is set before message `k1` (0: before the first item) and replaced before message `k2`.
fn midlist(b: &[u8], first: Option<usize>, k1: usize, l1: usize, k2: usize, l2: usize, ctx: &mut Ctx) -> Result<(), Fail> {
    let base = Cfg::all();
    let with = |l: Option<usize>| l.map_or(base.clone(), |l| base.clone().allow(LISTS[l]));
    let what = || format!("builder list {first:?}, list {:?} set before message {k1}, {:?} before message {k2}: {}", LISTS[l1], LISTS[l2], hex(b));
    let (fr, end) = rm::frames(b);
    if end != b.len() {
        ctx.skipped += 1;
        return Ok(());
    }
    let cfg_at = |i: usize| if i >= k2 && k2 >= k1 { with(Some(l2)) } else if i >= k1 { with(Some(l1)) } else { with(first) };
    let mut m = rm::Model::default();
    let mut want = vec![];
    for (i, (_, t, p)) in fr.iter().enumerate() {
        want.push(m.step(*t, p, &cfg_at(i)).0);
        ctx.state(&(&m, i >= k1, i >= k2, l1, l2));
    }
    #[allow(deprecated)]
    let got = guard(|| {
        let mut p = parser(b, &with(first));
        let set = |l: usize| LISTS[l].iter().map(|s| s.to_string()).collect();
        let mut v = vec![];
        // the header item comes first; a change before message 0 is made before it and after it alike
        if k1 == 0 && l1 % 2 == 0 {
            p.set_subscription_allow_list(set(l1));
        }
        p.next();
        for i in 0..=fr.len() {
            if i == k1 && !(k1 == 0 && l1 % 2 == 0) {
                p.set_subscription_allow_list(set(l1));
            }
            if i == k2 && k2 >= k1 {
                p.set_subscription_allow_list(set(l2));
            }
            match p.next() {
                Some(r) => v.push(item(&r)),
                None => break,
            }
        }
        v
    })
    .map_err(|p| Fail::new(format!("panic: {p}"), what()))?;
    ctx.execs += 1;
    ctx.transitions += fr.len() as u64 + 2;
    ctx.outcome(&got);
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            Some(g) if rm::matches(w, g) => {}
            g => return Err(Fail::new(format!("message {i}: expected {}, got {}", rm::show_exp(w), g.map_or("the end".into(), rm::show)), what())),
        }
    }
    if got.len() != want.len() {
        return Err(Fail::new(format!("{} items instead of {}", got.len(), want.len()), what()));
    }
    Ok(())
}
fn mid_family(t: Tier) -> Family {
    let a = alphabet();
    let letters: Vec<L> = [4usize, 6, 7, 9, 11, 14, 15].iter().map(|i| a[*i].clone()).collect();
    let prefix: Vec<L> = [0usize, 2, 3].iter().map(|i| a[*i].clone()).collect();
    let probes = [a[14].clone(), a[15].clone(), a[16].clone()];
    let d = t.pick(3usize, 4);
    let k = letters.len() as u64;
    let words = k.pow(d as u32);
    // positions: before any of the words' messages or the first probe, in file messages
    let pos = d as u64 + 1;
    let nl = LISTS.len();
    let firsts = 3u64;
    // one list, or one and a later one
    let mut sel = vec![];
    for (k1, l1) in (0..pos as usize).flat_map(|k| (0..nl).map(move |l| (k, l))) {
        sel.push((k1, l1, usize::MAX, 0));
        sel.extend((k1..pos as usize).flat_map(|k2| (0..nl).map(move |l2| (k1, l1, k2, l2))));
    }
    let sels = sel.len() as u64;
    let case = Arc::new(move |mut i: u64| {
        let mut w: Vec<usize> = (0..d).map(|_| digit(&mut i, k) as usize).collect();
        let first = [None, Some(0usize), Some(3)][digit(&mut i, firsts) as usize];
        let (k1, l1, k2, l2) = sel[i as usize];
        let mut ls = letters.clone();
        let n = ls.len();
        ls.extend(probes.clone());
        w.extend([n, n + 1, n + 2]);
        // position 0 stands for the beginning of the log
        let at = |p: usize| if p == 0 || p == usize::MAX { p } else { p + 3 };
        (build(&ls, &w, &prefix), first, at(k1), l1, at(k2), l2)
    });
    let c2 = case.clone();
    Family::new(
        "midlist",
        &format!("formats a, b, ab, then every sequence of {d} messages over {k} letters and probes of all ids; an allow-list set before any message and replaced before any later one, over {nl} x {nl} lists and 3 builder lists"),
        words * firsts * sels,
        move |i, ctx| {
            let (b, f, k1, l1, k2, l2) = case(i);
            midlist(&b, f, k1, l1, k2, l2, ctx)
        },
        move |i| {
            let (b, f, k1, l1, k2, l2) = c2(i);
            format!("builder list {f:?}; list {l1} before {k1}, list {l2} before {k2}: {}", hex(&b))
        },
    )
}
/// Several ids share names in several instances; the list is set once, before any message.
fn mid_sharers(t: Tier) -> Family {
    let s = super::c_hist::sharers();
    let every = t.pick(37u64, 3);
    let pos = 15u64;
    let nl = LISTS.len() as u64;
    let n = s.count / every;
    let g = s.gen.clone();
    let case = Arc::new(move |mut i: u64| {
        let first = [None, Some(0usize), Some(3)][digit(&mut i, 3) as usize];
        let k1 = digit(&mut i, pos) as usize;
        let l1 = digit(&mut i, nl) as usize;
        (g(i * every), first, k1, l1)
    });
    let c2 = case.clone();
    Family::new(
        "midlist-sharers",
        &format!("{} (every {every}th); an allow-list set before any message, over {nl} lists and 3 builder lists", s.what),
        n * 3 * pos * nl,
        move |i, ctx| {
            let (b, f, k1, l1) = case(i);
            midlist(&b, f, k1, l1, usize::MAX, 0, ctx)
        },
        move |i| {
            let (b, f, k1, l1) = c2(i);
            format!("builder list {f:?}; list {l1} before {k1}: {}", hex(&b))
        },
    )
}
/// Very many subscriptions, of which a list set afterwards keeps some.
fn mid_many() -> Family {
    const COUNTS: [usize; 10] = [3, 31, 32, 33, 63, 64, 65, 127, 129, 300];
    let case = Arc::new(move |mut i: u64| {
        let n = COUNTS[digit(&mut i, COUNTS.len() as u64) as usize];
        let l = digit(&mut i, LISTS.len() as u64) as usize;
        let (first, way) = ([None, Some(0usize), Some(3)][digit(&mut i, 3) as usize], i);
        let mut b = header();
        for f in ["a", "b", "ab"] {
            b.extend(fmt(&format!("{f}:uint64_t timestamp;uint8_t x;")));
        }
        let name = |k: usize| ["a", "b", "ab"][match way {
            0 => k % 3,
            1 => k * 3 / n,
            _ => (k + 1 == n) as usize,
        }];
        for k in 0..n {
            b.extend(sub((k / 2) as u8, k as u16, name(k)));
        }
        for k in 0..n {
            b.extend(data(k as u16, &[k as u8; 9]));
        }
        (b, first, 3 + n, l)
    });
    let c2 = case.clone();
    Family::new(
        "midlist-many",
        &format!("{COUNTS:?} subscriptions (names in turns, in blocks, or one apart from the rest), then a list out of {} set, with 3 builder lists, then data of every id", LISTS.len()),
        (COUNTS.len() * LISTS.len() * 3 * 3) as u64,
        move |i, ctx| {
            let (b, f, k, l) = case(i);
            midlist(&b, f, k, l, usize::MAX, 0, ctx)
        },
        move |i| {
            let (_, f, k, l) = c2(i);
            format!("{} subscriptions, builder list {f:?}, list {l}", k - 3)
        },
    )
}
fn spaces(t: Tier) -> Vec<Space> {
    let mut v = vec![words_space(t.pick(3, 4))];
    let a = alphabet();
    let pick: Vec<usize> = t.pick(vec![0, 1, 2, 4, 5, 6, 8, 9, 10, 11, 12, 14], (0..a.len()).collect());
    v.push(transitions("transitions", pick.iter().map(|i| a[*i].clone()).collect(), vec![L::Data(1), a[0].clone(), a[4].clone(), a[10].clone(), a[13].clone()], t.pick(20_000, 200_000)));
    for s in corpus::all(t) {
        if ["names", "ids", "many", "kinds", "flagbits", "typenames", "nesting", "omnibus", "headers"].contains(&s.name) {
            v.push(s);
        }
    }
    v.push(Space::list(
        "malformed",
        "malformed messages between definitions, subscriptions and data",
        malformed(t).into_iter().map(|m| cat(&[header(), fmt("m:uint64_t timestamp;uint8_t a;"), m.clone(), fmt("n:m x;"), sub(0, 1, "m"), m.clone(), data(1, &[1; 9]), sub(1, 2, "m"), m])).collect(),
    ));
    v.extend(super::c_hist::c09_spaces(t).into_iter().filter(|s| s.name != "pairs"));
    let o = corpus::omnibus();
    v.push(Space::new("cuts", "every prefix of the omnibus log", o.len() as u64, move |i| o[..i as usize].to_vec()));
    v
}
pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C26",
        level: "model_checking",
        rule: "states = distinct reader-model states (and list settings); after every item of every log the lookups of all names and ids are executed and compared with the model; each history with list changes is executed and all items compared",
        assumptions: vec!["looked-up names and ids are those of the log and near misses".into()],
        families: |t| {
            let mut v = over(spaces(t), lookups);
            v.push(mid_family(t));
            v.push(mid_sharers(t));
            v.push(mid_many());
            v
        },
    }]
}
