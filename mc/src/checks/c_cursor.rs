//! C23: MessageBuf and DataStream cursors.
use super::*;
use crate::corpus::{digit, fill_from};
use crate::readers::Chunked;
use crate::wire::cat;
use yule_log::datastream::DataStream;
use yule_log::message_buf::MessageBuf;

#[derive(Clone, Copy, Debug)]
enum Op {
    Take(Prim),
    Advance(usize),
    Skip(usize),
    Len,
}
const HUGE: [usize; 4] = [usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1, usize::MAX - 7];
fn ops() -> Vec<Op> {
    let mut v: Vec<Op> = PRIMS.iter().filter(|p| **p != Prim::Char).map(|p| Op::Take(*p)).collect();
    v.extend([0, 1, 2, 3, 5, 8].map(Op::Advance));
    v.extend(HUGE.map(Op::Advance));
    v.extend([0, 1, 4, 9].map(Op::Skip));
    v.extend([usize::MAX, usize::MAX - 3].map(Op::Skip));
    v.push(Op::Len);
    v
}
fn le(b: &[u8]) -> u64 {
    b.iter().enumerate().fold(0, |a, (i, x)| a | (*x as u64) << (8 * i))
}
fn take(m: &mut MessageBuf, p: Prim) -> Option<u64> {
    match p {
        Prim::U8 | Prim::Char => m.take_u8().ok().map(|x| x as u64),
        Prim::U16 => m.take_u16().ok().map(|x| x as u64),
        Prim::U32 => m.take_u32().ok().map(|x| x as u64),
        Prim::U64 => m.take_u64().ok(),
        Prim::I8 => m.take_i8().ok().map(|x| x as u8 as u64),
        Prim::I16 => m.take_i16().ok().map(|x| x as u16 as u64),
        Prim::I32 => m.take_i32().ok().map(|x| x as u32 as u64),
        Prim::I64 => m.take_i64().ok().map(|x| x as u64),
        Prim::F32 => m.take_f32().ok().map(|x| x.to_bits() as u64),
        Prim::F64 => m.take_f64().ok().map(|x| x.to_bits()),
        Prim::Bool => m.take_bool().ok().map(|x| x as u64),
    }
}
fn buf_case(len: usize, seq: &[Op], salt: u8, ctx: &mut Ctx) -> Result<(), Fail> {
    let b = fill_from(len, salt);
    let what = format!("buffer {} ops {seq:?}", hex(&b));
    ctx.execs += 1;
    let mut states = vec![];
    let r = guard(|| {
        let mut m = if salt & 1 == 0 { MessageBuf::new(b.clone()) } else { MessageBuf::from_vec(b.clone()) };
        let mut pos = 0usize;
        for (i, op) in seq.iter().enumerate() {
            states.push((len, pos, i));
            let left = len - pos;
            let at = pos;
            let bad = |g: String, w: String| Err(format!("step {i} {op:?} at {at}: got {g}, expected {w}"));
            match *op {
                Op::Take(p) => {
                    let want = (p.size() <= left).then(|| le(&b[pos..pos + p.size()]));
                    let want = if p == Prim::Bool { want.map(|x| (x != 0) as u64) } else { want };
                    let got = take(&mut m, p);
                    // NaN payloads survive by-bits comparison on this platform
                    if got != want {
                        return bad(format!("{got:x?}"), format!("{want:x?}"));
                    }
                    if want.is_some() {
                        pos += p.size();
                    }
                }
                Op::Advance(n) => {
                    let want = (n <= left).then(|| b[pos..pos + n].to_vec());
                    let got = m.advance(n).ok().map(|x| x.to_vec());
                    if got != want {
                        return bad(format!("{got:x?}"), format!("{want:x?}"));
                    }
                    if want.is_some() {
                        pos += n;
                    }
                }
                Op::Skip(n) => {
                    let got = m.skip(n).is_ok();
                    if got != (n <= left) {
                        return bad(format!("{got}"), format!("{}", n <= left));
                    }
                    if got {
                        pos += n;
                    }
                }
                Op::Len => {}
            }
            if m.len() != len - pos || m.is_empty() != (pos == len) {
                return bad(format!("len {} empty {}", m.len(), m.is_empty()), format!("len {}", len - pos));
            }
        }
        let rest = m.into_remaining_bytes();
        if rest != b[pos..] {
            return Err(format!("remaining bytes {} instead of {}", hex(&rest), hex(&b[pos..])));
        }
        Ok(())
    });
    ctx.transitions += seq.len() as u64;
    for s in &states {
        ctx.state(&(s.0, s.1));
    }
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(w)) => Err(Fail::new(w, what)),
        Err(p) => Err(Fail::new(format!("panic: {p}"), what)),
    }
}

#[derive(Clone, Copy, Debug)]
enum SOp {
    Read(Prim),
    Exact(usize),
    Text(usize),
    Skip(usize),
}
fn sops() -> Vec<SOp> {
    let mut v: Vec<SOp> = PRIMS.iter().filter(|p| !matches!(p, Prim::I32 | Prim::I64 | Prim::Char)).map(|p| SOp::Read(*p)).collect();
    v.extend([0, 1, 3, 6].map(SOp::Exact));
    v.extend([0, 2, 5].map(SOp::Text));
    v.extend([0, 1, 2, 5, 11, 100, usize::MAX].map(SOp::Skip));
    v
}
fn stream_case(len: usize, seq: &[SOp], max: usize, intr: bool, ctx: &mut Ctx) -> Result<(), Fail> {
    // ASCII filler, so that text reads are valid
    let b: Vec<u8> = (0..len).map(|i| b'!' + ((i * 7) % 90) as u8).collect();
    let what = format!("stream of {len} bytes, reads of at most {max}, interruptions {intr}, ops {seq:?}");
    ctx.execs += 1;
    let mut n = 0u64;
    let mut st = vec![];
    let r = guard(|| {
        let mut rd = Chunked::new(&b);
        rd.max = max;
        if intr {
            rd.intr = (0..len).map(|p| (p, 1)).collect();
        }
        let mut s = DataStream::new(rd);
        let mut pos = 0usize;
        for (i, op) in seq.iter().enumerate() {
            let left = len - pos;
            st.push(pos);
            n += 1;
            let at = pos;
            let bad = |g: String, w: String| Err(format!("step {i} {op:?} at {at}: got {g}, expected {w}"));
            match *op {
                SOp::Read(p) => {
                    if p.size() > left {
                        break; // end of input: how a short read is signalled is internal
                    }
                    let want = le(&b[pos..pos + p.size()]);
                    let want = if p == Prim::Bool { (want != 0) as u64 } else { want };
                    let got = stream_read(&mut s, p);
                    if got != Some(want) {
                        return bad(format!("{got:x?}"), format!("{want:x}"));
                    }
                    pos += p.size();
                }
                SOp::Exact(k) => {
                    if k > left {
                        break;
                    }
                    let mut v = vec![0xee; k];
                    let g = s.read_exact(&mut v);
                    if !matches!(g, Ok(x) if x == k) || v != b[pos..pos + k] {
                        return bad(format!("{g:?} {}", hex(&v)), hex(&b[pos..pos + k]));
                    }
                    pos += k;
                }
                SOp::Text(k) => {
                    if k > left {
                        break;
                    }
                    let g = s.read_string(k).ok();
                    if g.as_deref().map(|s| s.as_bytes()) != Some(&b[pos..pos + k]) {
                        return bad(format!("{g:?}"), hex(&b[pos..pos + k]));
                    }
                    pos += k;
                }
                SOp::Skip(k) => {
                    let want = k.min(left);
                    let g = s.skip(k).ok();
                    if g != Some(want) {
                        return bad(format!("{g:?}"), format!("{want}"));
                    }
                    pos += want;
                }
            }
        }
        Ok(())
    });
    ctx.transitions += n;
    for p in st {
        ctx.state(&(len, p, max, intr));
    }
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(w)) => Err(Fail::new(w, what)),
        Err(p) => Err(Fail::new(format!("panic: {p}"), what)),
    }
}
fn stream_read<R: std::io::Read>(s: &mut DataStream<R>, p: Prim) -> Option<u64> {
    match p {
        Prim::U8 | Prim::Char => s.read_u8().ok().map(|x| x as u64),
        Prim::U16 => s.read_u16().ok().map(|x| x as u64),
        Prim::U32 => s.read_u32().ok().map(|x| x as u64),
        Prim::I32 => s.read_i32().ok().map(|x| x as u32 as u64),
        Prim::U64 | Prim::I64 => s.read_u64().ok(),
        Prim::I8 => s.read_i8().ok().map(|x| x as u8 as u64),
        Prim::I16 => s.read_i16().ok().map(|x| x as u16 as u64),
        Prim::F32 => s.read_f32().ok().map(|x| x.to_bits() as u64),
        Prim::F64 => s.read_f64().ok().map(|x| x.to_bits()),
        Prim::Bool => s.read_bool().ok().map(|x| x as u64),
    }
}
const CHARS: [char; 9] = ['\0', ' ', '\n', '\t', 'a', 'Z', '\u{e9}', '\u{feff}', '\u{1f600}'];
const LARGE: [usize; 17] = [255, 256, 257, 4095, 4096, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65544, 131_071, 131_072, 131_073, 3 << 20];
fn fams(t: Tier) -> Vec<Family> {
    let o = ops();
    let k = o.len() as u64;
    let d = t.pick(4u32, 5);
    let lens = t.pick(vec![0usize, 1, 2, 3, 5, 8, 9, 17], (0..=17).collect::<Vec<_>>());
    let nl = lens.len() as u64;
    let so = sops();
    let ks = so.len() as u64;
    let ds = t.pick(3u32, 4);
    let slens = vec![0usize, 1, 3, 8, 12, 20, 40];
    let ns = slens.len() as u64;
    vec![
        Family::new(
            "message_buf",
            "every sequence of cursor operations (11 typed reads, advance and skip by 0..9 and by sizes near 2^64, length) of the given depth on buffers of several lengths",
            k.pow(d) * nl,
            move |mut i, ctx| {
                let l = lens[digit(&mut i, nl) as usize];
                let seq: Vec<Op> = (0..d).map(|_| o[digit(&mut i, k) as usize]).collect();
                buf_case(l, &seq, l as u8 * 3 + 1, ctx)
            },
            |i| format!("{i}"),
        ),
        Family::new(
            "message_buf_values",
            "every typed read over every byte value at every byte position, three fills",
            11 * 8 * 256 * 3,
            |mut i, ctx| {
                let p = PRIMS[digit(&mut i, 11) as usize];
                let pos = digit(&mut i, 8) as usize;
                let v = digit(&mut i, 256) as u8;
                if pos >= p.size() {
                    return Ok(());
                }
                let mut b = match i {
                    0 => vec![0u8; 10],
                    1 => vec![0xff; 10],
                    _ => (1..=10).collect(),
                };
                b[1 + pos] = v;
                ctx.execs += 1;
                ctx.transitions += 2;
                let want = le(&b[1..1 + p.size()]);
                let want = if p == Prim::Bool { (want != 0) as u64 } else { want };
                let r = guard(|| {
                    let mut m = MessageBuf::new(b.clone());
                    let _ = m.take_u8();
                    take(&mut m, p)
                });
                // reads of i32/i64 style are compared by bits
                match r {
                    Ok(Some(x)) if x == want => Ok(()),
                    r => Err(Fail::new(format!("{p:?} of {} is {r:x?}, expected {want:x}", hex(&b[1..9])), hex(&b))),
                }
            },
            |i| format!("{i}"),
        ),
        Family::new(
            "data_stream_values",
            "every typed stream read over every byte value at every byte position, three fills",
            12 * 8 * 256 * 3,
            |mut i, ctx| {
                let p = PRIMS[digit(&mut i, 12) as usize];
                let pos = digit(&mut i, 8) as usize;
                let v = digit(&mut i, 256) as u8;
                if pos >= p.size() {
                    return Ok(());
                }
                let mut b = match i {
                    0 => vec![0u8; 10],
                    1 => vec![0xff; 10],
                    _ => (1..=10).collect(),
                };
                b[1 + pos] = v;
                ctx.execs += 1;
                ctx.transitions += 2;
                let want = le(&b[1..1 + p.size()]);
                let want = if p == Prim::Bool { (want != 0) as u64 } else { want };
                let r = guard(|| {
                    let mut s = DataStream::new(&b[..]);
                    let _ = s.read_u8();
                    stream_read(&mut s, p)
                });
                match r {
                    Ok(Some(x)) if x == want => Ok(()),
                    r => Err(Fail::new(format!("{p:?} of {} is {r:x?}, expected {want:x}", hex(&b[1..9])), hex(&b))),
                }
            },
            |i| format!("{i}"),
        ),
        Family::new(
            "texts",
            "every text of at most 5 characters out of NUL, blanks, letters, characters of several bytes and the byte order mark, read between a number before and one after, from whole and 1-byte reads",
            (0..6).map(|n| CHARS.len().pow(n) as u64).sum::<u64>() * 2,
            |mut i, ctx| {
                let max = [usize::MAX, 1][digit(&mut i, 2) as usize];
                let mut n = 0;
                while i >= (CHARS.len() as u64).pow(n) {
                    i -= (CHARS.len() as u64).pow(n);
                    n += 1;
                }
                let text: String = (0..n).map(|_| CHARS[digit(&mut i, CHARS.len() as u64) as usize]).collect();
                let b = cat(&[vec![7, 8], text.clone().into_bytes(), vec![9, 10, 11]]);
                ctx.execs += 1;
                ctx.transitions += 4;
                ctx.state(&(&text, max));
                let r = guard(|| {
                    let mut rd = Chunked::new(&b);
                    rd.max = max;
                    let mut s = DataStream::new(rd);
                    (s.read_u16().ok(), s.read_string(text.len()).ok(), s.read_u16().ok(), s.read_u8().ok())
                });
                match r {
                    Ok(r) if r == (Some(0x0807), Some(text.clone()), Some(0x0a09), Some(11)) => Ok(()),
                    r => Err(Fail::new(format!("text {text:?} between 0x807 and 0xa09, 11 is read as {r:x?}"), hex(&b))),
                }
            },
            |i| format!("{i}"),
        ),
        Family::new(
            "message_buf_large",
            "buffers around 2^8, 2^15, 2^16, 2^17 and 3 MiB bytes: advance or skip by small, large and too large amounts, then every typed read, twice",
            (LARGE.len() * 7 * 2 * 11) as u64,
            |mut i, ctx| {
                let l = LARGE[digit(&mut i, LARGE.len() as u64) as usize];
                let k = [0, 1, l / 2, l.saturating_sub(9), l - 1, l, l + 1][digit(&mut i, 7) as usize];
                let move_ = if digit(&mut i, 2) == 0 { Op::Advance(k) } else { Op::Skip(k) };
                let p = PRIMS[i as usize];
                buf_case(l, &[Op::Len, move_, Op::Take(p), Op::Len, move_, Op::Take(p)], i as u8, ctx)
            },
            |i| format!("{i}"),
        ),
        Family::new(
            "data_stream",
            "every sequence of stream reads and skips of the given depth on inputs of several lengths, whole, 1-, 2- and 7-byte reads, with and without interruptions",
            ks.pow(ds) * ns * 4 * 2,
            move |mut i, ctx| {
                let l = slens[digit(&mut i, ns) as usize];
                let max = [usize::MAX, 1, 2, 7][digit(&mut i, 4) as usize];
                let intr = digit(&mut i, 2) == 1;
                let seq: Vec<SOp> = (0..ds).map(|_| so[digit(&mut i, ks) as usize]).collect();
                stream_case(l, &seq, max, intr, ctx)
            },
            |i| format!("{i}"),
        ),
        Family::new(
            "skip_lengths",
            "skip by every amount on inputs of every length 0..=40, and large skips",
            41 * 60,
            move |i, ctx| {
                let (l, k) = ((i / 60) as usize, (i % 60) as usize);
                let k = match k {
                    55 => 4096,
                    56 => 65536,
                    57 => 1 << 40,
                    58 => usize::MAX - 1,
                    59 => usize::MAX,
                    k => k,
                };
                for max in [usize::MAX, 1, 3] {
                    stream_case(l, &[SOp::Skip(k), SOp::Read(Prim::U8), SOp::Skip(0), SOp::Skip(1), SOp::Read(Prim::U16)], max, false, ctx)?;
                }
                Ok(())
            },
            |i| format!("{i}"),
        ),
        Family::new(
            "skip_large",
            "skips across inputs of 4 KiB to 3 MiB in large and small pieces",
            5 * 6 * 3,
            |mut i, ctx| {
                let l = [4096usize, 65535, 65536, 100_000, 3 << 20][digit(&mut i, 5) as usize];
                let k = [l / 2, l - 1, l, l + 1, 2 * l, 8191][digit(&mut i, 6) as usize];
                let max = [usize::MAX, 8192, 1000][i as usize];
                stream_case(l, &[SOp::Read(Prim::U16), SOp::Skip(k), SOp::Read(Prim::U8), SOp::Skip(100)], max, false, ctx)
            },
            |i| format!("{i}"),
        ),
    ]
}
pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C23",
        level: "model_checking",
        rule: "states = distinct (input length, position) states of the cursor model; every operation sequence is executed on the real cursors and compared step by step",
        assumptions: vec!["reads past the end of a DataStream are outside the property (their signalling is internal); skips past the end are inside".into()],
        families: fams,
    }]
}
