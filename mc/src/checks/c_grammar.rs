//! C20: format definitions and typed keys.
use super::*;
use crate::corpus::{digit, fill, Space};
use crate::wire::*;
use yule_log::encode::Encode;

/// One text as a format, as a format body, and as every kind of key; items compared with the model. Keys and format
/// fields must agree, canonical definitions must re-encode to their text.
fn text_log(s: &str) -> Vec<u8> {
    let mut parts = vec![header(), fmt(s), fmt(&format!("x:{s}"))];
    if s.len() < 256 {
        // values long enough for the sizes in use; a surplus is not judged, the key is (see `keys`)
        parts.push(info(s, &fill(32)));
        parts.push(multi_info(1, s, &fill(32)));
        parts.push(param(s, &fill(4)));
        parts.push(def_param(2, s, &fill(4)));
    }
    cat(&parts)
}
fn c20(b: &[u8], ctx: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg::all();
    against_model(b, &cfg, ctx)?;
    for m in messages(b, &cfg).map_err(|p| Fail::new(format!("panic: {p}"), hex(b)))?.iter().flatten() {
        if let yule_log::model::msg::UlogMessage::FormatDefinition(f) = m {
            let want = rm::def_text(&defn(f));
            let mut v = vec![];
            let r = guard(|| f.encode(&mut v)).map_err(|p| Fail::new(format!("panic: {p}"), hex(b)))?;
            if r.is_err() || v != want.as_bytes() {
                return Err(Fail::new(format!("definition {want:?} encodes to {:?}", String::from_utf8_lossy(&v)), hex(b)));
            }
        }
    }
    Ok(())
}
/// A key with type t, size a and name n: the four keyed messages give the same type and name as a format field does.
fn key_case(t: &str, a: &str, n: &str, ctx: &mut Ctx) -> Result<(), Fail> {
    let key = format!("{t}{a} {n}");
    let p = Prim::of(t);
    let count = if a.is_empty() { 1 } else { a[1..a.len() - 1].parse::<usize>().unwrap_or(usize::MAX) };
    let size = p.map_or(3, |p| p.size()).saturating_mul(count);
    if size > 60000 || key.len() > 255 {
        ctx.skipped += 1;
        return Ok(());
    }
    let log = cat(&[
        header(),
        fmt("nest:uint8_t a;uint16_t b;"),
        fmt(&format!("f:{key};")),
        info(&key, &fill(size)),
        multi_info(0, &key, &fill(size)),
        param(&key, &fill(size)),
        def_param(0, &key, &fill(size)),
    ]);
    c20(&log, ctx)?;
    let got = run(&log, &Cfg::all());
    if let (Some(Obs::Format(d)), Some(Obs::Info { key: k, ty, .. })) = (got.get(2), got.get(3)) {
        if d.fields[0] != (k.clone(), ty.clone()) {
            return Err(Fail::new(format!("field {:?} but key {k} {ty:?}", d.fields[0]), hex(&log)));
        }
        return Ok(());
    }
    if got.get(2) == Some(&Obs::Err) && got.get(3) == Some(&Obs::Err) {
        return Ok(());
    }
    // undefined nested types are fine in a format, not in a value
    if p.is_none() && t != "nest" {
        return Ok(());
    }
    Err(Fail::new(format!("as a field: {:?}, as a key: {:?}", got.get(2).map(rm::show), got.get(3).map(rm::show)), hex(&log)))
}
fn fams(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    // all token sequences
    let toks = ["a", ":", ";", "[", "]", "3", " ", "uint8_t", "b", "\u{e9}", "18446744073709551616"];
    let k = toks.len() as u64;
    let d = t.pick(5u32, 6);
    let mut s = vec![Space::new("tokens", format!("every sequence of {d} tokens over {toks:?} (as format, as format body, as key)"), k.pow(d), move |mut i| {
        let x: String = (0..d).map(|_| toks[digit(&mut i, k) as usize]).collect();
        text_log(&x)
    })];
    // all short strings over single characters
    let chars: Vec<char> = "a:;[]0 _9-/\n\t?A\u{e9}".chars().collect();
    let kc = chars.len() as u64;
    let dc = t.pick(4u32, 5);
    s.push(Space::new("chars", format!("every string of {dc} characters over {chars:?}"), kc.pow(dc), move |mut i| {
        let x: String = (0..dc).map(|_| chars[digit(&mut i, kc) as usize]).collect();
        text_log(&x)
    }));
    // every byte at every place of a valid definition (replace and insert), and every deletion
    let base = b"ab_1:uint8_t[12] cd;x/y-z e0;float _f;".to_vec();
    let n = base.len() as u64;
    let b2 = base.clone();
    s.push(Space::new("byte_edits", "every byte value replacing or inserted at every place of a definition, and every deletion", n * 256 * 2 + n, move |i| {
        let mut f = b2.clone();
        if i < n * 512 {
            let p = (i / 512) as usize;
            if i % 2 == 0 {
                f[p] = (i / 2) as u8;
            } else {
                f.insert(p, (i / 2) as u8);
            }
        } else {
            f.remove((i - n * 512) as usize);
        }
        cat(&[header(), msg(b'F', &f)])
    }));
    // token-level edits of a valid definition: every replacement, insertion, deletion and swap
    let seq = ["m", ":", "uint64_t", " ", "timestamp", ";", "n", "[", "4", "]", " ", "x", ";", "char", "[", "10", "]", " ", "name", ";"];
    let reps = ["", "m", ":", ";", "[", "]", "7", " ", "\n", "float", "::", ";;", "[]", "[[", "99999999999999999999", ",", "\u{1F680}", "-1", "1.5", "\0"];
    let (ns, nr) = (seq.len() as u64, reps.len() as u64);
    s.push(Space::new("token_edits", "every replacement or insertion of 20 tokens at every pair of places of a definition", ns * ns * nr * nr * t.pick(1, 2), move |mut i| {
        let (a, b) = (digit(&mut i, ns) as usize, digit(&mut i, ns) as usize);
        let (x, y) = (digit(&mut i, nr) as usize, digit(&mut i, nr) as usize);
        let mut q: Vec<&str> = seq.to_vec();
        if i == 0 {
            q[a] = reps[x];
            q[b] = reps[y];
        } else {
            q.insert(a, reps[x]);
            q.insert(b, reps[y]);
        }
        cat(&[header(), fmt(&q.concat())])
    }));
    // number of fields
    s.push(Space::new("field_counts", "definitions of 0..=n fields, canonical and spaced", t.pick(300, 3000), |i| {
        let n = i / 2;
        let sp = if i % 2 == 0 { "" } else { " " };
        let x: String = (0..n).map(|j| format!("{sp}uint{}_t{} f{j}{sp};{sp}", [8, 16, 32, 64][(j % 4) as usize], if j % 3 == 0 { format!("[{}]", j + 1) } else { String::new() })).collect();
        cat(&[header(), fmt(&format!("m{sp}:{x}"))])
    }));
    s.push(Space::list("long_definitions", "definitions of 255 to 9000 fields, around powers of two, one field each of another name, all of one name, or with long names", {
        let mut v = vec![];
        for n in (8..14).flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 1]).chain([1000, 1500, 3000, 5000, 6000, 7000, 9000]) {
            for k in 0..3 {
                let x: String = (0..n).map(|j| match k { 0 => format!("b f{j};"), 1 => "b f;".into(), _ => format!("bool f{}{j};", "n".repeat(200)) }).take_while({ let mut l = 0; move |s| { l += s.len(); l < 65530 } }).collect();
                v.push(cat(&[header(), fmt(&format!("m:{x}"))]));
            }
        }
        v
    }));
    // the same or nearly the same names several times in one definition
    let letters: Vec<String> = ["a", "b", "a_", "A", "timestamp", "_padding0", "_padding1", "_padding"].iter().flat_map(|n| ["uint8_t", "uint8_t[2]", "a"].iter().map(move |t| format!("{t} {n};"))).collect();
    let kl = letters.len() as u64;
    s.push(Space::new("repeats", format!("every sequence of three fields out of {letters:?}"), kl.pow(3), move |mut i| {
        let x: String = (0..3).map(|_| letters[digit(&mut i, kl) as usize].clone()).collect();
        cat(&[header(), fmt(&format!("m:{x}")), fmt(&format!("a:{x}"))])
    }));
    v.extend(over(s, c20));
    // keys: types x sizes x names
    let types: Vec<&'static str> = vec![
        "uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t", "float", "double", "bool", "char", "nest", "other", "uint8", "Uint8_t", "int", "string",
    ];
    let sizes: Vec<String> = ["", "[0]", "[1]", "[2]", "[3]", "[7]", "[10]", "[16]", "[100]", "[255]", "[256]", "[1000]", "[007]", "[4294967296]", "[18446744073709551615]", "[18446744073709551616]", "[999999999999999999999999]", "[]", "[-1]", "[a]", "[1", "1]", "[1][2]", "[ 3 ]"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    let names: Vec<String> = ["a", "_", "A_b9", "timestamp", "_padding0", "sys_name", "ver_sw_release", "9a", "", "a b", "uint8_t", "x;", "x:", "a.b", "\u{fc}"].iter().map(|s| s.to_string()).chain([1usize, 100, 230, 240].iter().map(|n| "k".repeat(*n))).collect();
    let (nt, nz, nn) = (types.len() as u64, sizes.len() as u64, names.len() as u64);
    let (t2, z2, n2) = (types.clone(), sizes.clone(), names.clone());
    v.push(Family::new(
        "keys",
        "18 type names x 24 array notations x 19 names as format field and as info, multi-info, parameter and default-parameter key",
        nt * nz * nn,
        move |mut i, ctx| {
            let t = types[digit(&mut i, nt) as usize];
            let z = &sizes[digit(&mut i, nz) as usize];
            let n = &names[i as usize];
            // texts whose meaning as a key the properties leave open are compared by the model only
            if matches!(rm::key_text(&format!("{t}{z} {n}")), rm::Txt::Open) {
                ctx.skipped += 1;
                return Ok(());
            }
            if !z.is_empty() && (!z.starts_with('[') || !z.ends_with(']')) || z.contains(' ') {
                let k = format!("{t}{z} {n}");
                return c20(&cat(&[header(), fmt(&format!("f:{k};")), info(&k, &fill(3))]), ctx);
            }
            key_case(t, z, n, ctx)
        },
        move |mut i| {
            let t = t2[digit(&mut i, nt) as usize];
            let z = &z2[digit(&mut i, nz) as usize];
            format!("{t}{z} {}", n2[i as usize])
        },
    ));
    // every array size up to a bound, in definitions and keys
    v.push(Family::new(
        "array_numbers",
        "every array size 0..=n, and all powers of ten and two with neighbours up to 2^70",
        t.pick(3000, 60000) + 70 * 3 + 25,
        move |i, ctx| {
            let m = t.pick(3000u64, 60000);
            if i < m {
                return key_case("uint8_t", &format!("[{i}]"), "k", ctx);
            }
            let j = i - m;
            let x: String = if j < 210 {
                let p = 1u128 << (j / 3);
                (p + (j % 3) as u128 - if p + (j % 3) as u128 > 0 { 1 } else { 0 }).to_string()
            } else {
                format!("1{}", "0".repeat((j - 210) as usize))
            };
            c20(&cat(&[header(), fmt(&format!("m:uint64_t timestamp;uint8_t[{x}] a;char[{x}] b;")), info(&format!("uint8_t[{x}] k"), &fill(2))]), ctx)
        },
        |i| format!("{i}"),
    ));
    v
}
pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C20",
        level: "model_checking",
        rule: "states = distinct format tables reached; every text is given to the real parser as definition and keys and compared with a hand-written recogniser",
        assumptions: vec![
            "texts mixing digits into the front of names, '-' or '/' in field names, and trailing text after a key's name are left open".into(),
            "texts longer than the enumerated ones follow the same grammar".into(),
        ],
        families: fams,
    }]
}
