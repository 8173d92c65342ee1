//! Systematic enumeration of byte inputs around the format: prefix trees, neighbours of legal encodings, bombs.
use crate::domain::*;
use crate::engine::*;
use crate::schema::*;
use crate::val::*;
use std::cell::Cell;

/// Judge one input; Ok(true) if the code or the reference asked for more bytes, i.e. extensions matter.
pub type Judge<'j> = dyn Fn(&[u8], &mut Case) -> Result<bool, String> + 'j;

/// The limit used while exploring inputs: small enough for memory, far above what short inputs need.
pub const EXPLORE_LIMIT: usize = 1 << 16;

pub fn one(ctx: &mut Ctx, what: &str, b: &[u8], judge: &Judge) -> bool {
    let more = Cell::new(false);
    ctx.case(
        || format!("{} bytes [{}]", what, crate::ops::hex(b)),
        |c| {
            c.key(&(what, b));
            more.set(judge(b, c)?);
            Ok(())
        },
    );
    more.get()
}
/// Depth-first over all strings prefix+s, |s| <= depths.len(), s[i] in depths[i], cut where nobody asks for more.
pub fn tree(ctx: &mut Ctx, what: &str, prefix: &mut Vec<u8>, depths: &[&[u8]], judge: &Judge) {
    if ctx.stopped() {
        return;
    }
    let more = one(ctx, what, prefix, judge);
    if !more || depths.is_empty() {
        return;
    }
    for &b in depths[0] {
        prefix.push(b);
        tree(ctx, what, prefix, &depths[1..], judge);
        prefix.pop();
    }
}
pub static ALL: [u8; 256] = {
    let mut a = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        a[i] = i as u8;
        i += 1;
    }
    a
};
/// Bytes that matter: stop, booleans, each field type with delta 1 or 2, explicit ids, collection headers, varint edges.
pub static SMALL: [u8; 26] = [
    0x00, 0x01, 0x02, 0x05, 0x08, 0x0c, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1d, 0x25, 0x2c, 0x7f, 0x80,
    0xf5, 0xfc, 0xff,
];
pub static TINY: [u8; 12] = [0x00, 0x01, 0x02, 0x15, 0x18, 0x19, 0x1b, 0x1c, 0x7f, 0x80, 0xf8, 0xff];
pub static HUGE: [&[u8]; 9] = [
    &[0xff, 0xff, 0xff, 0xff, 0x0f],
    &[0xff, 0xff, 0xff, 0xff, 0x07],
    &[0x80, 0x80, 0x80, 0x80, 0x08],
    &[0xff, 0xff, 0x03],
    &[0x80, 0x80, 0x80, 0x80, 0x80, 0x80],
    &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01],
    &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01],
    &[0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x7f],
    &[0x80, 0x00],
];

/// Every neighbour of an encoding.
pub fn mutate(ctx: &mut Ctx, what: &str, b: &[u8], tier: Tier, judge: &Judge) {
    let full = b.len() <= tier.pick(260, 2000);
    let subst: &[u8] = if full { &ALL } else { &TINY };
    let mut x: Vec<u8> = b.to_vec();
    for i in 0..b.len() {
        if ctx.stopped() {
            return;
        }
        for &v in subst {
            if v != b[i] {
                x[i] = v;
                one(ctx, what, &x, judge);
            }
        }
        x[i] = b[i];
    }
    let stride = if b.len() <= tier.pick(400, 4000) { 1 } else { 3 };
    let mut y: Vec<u8> = Vec::with_capacity(b.len() + 16);
    for i in (0..b.len()).step_by(stride) {
        if ctx.stopped() {
            return;
        }
        let mut put = |ctx: &mut Ctx, mid: &[u8], from: usize| {
            y.clear();
            y.extend_from_slice(&b[..i]);
            y.extend_from_slice(mid);
            y.extend_from_slice(&b[from..]);
            one(ctx, what, &y, judge);
        };
        put(ctx, &[], i + 1);
        put(ctx, &[b[i], b[i]], i + 1);
        if i + 1 < b.len() {
            put(ctx, &[b[i + 1], b[i]], i + 2);
            put(ctx, &[], i + 2);
        }
        for &v in if full { &SMALL[..] } else { &TINY[..] } {
            put(ctx, &[v], i);
        }
        for h in HUGE {
            put(ctx, h, i + 1);
            put(ctx, h, i);
        }
        // truncation, then anything
        let mut p = b[..i].to_vec();
        let d: Vec<&[u8]> = if b.len() <= tier.pick(48, 400) { vec![&ALL, &TINY] } else { vec![&SMALL] };
        tree(ctx, what, &mut p, &d, judge);
    }
    // pairs of substitutions in short encodings
    if b.len() <= tier.pick(9, 24) {
        let a: &[u8] = if b.len() <= 9 { &SMALL } else { &TINY };
        for i in 0..b.len() {
            for j in i + 1..b.len() {
                for &u in a {
                    for &v in a {
                        if u != b[i] && v != b[j] {
                            let mut x = b.to_vec();
                            x[i] = u;
                            x[j] = v;
                            one(ctx, what, &x, judge);
                        }
                    }
                }
                if ctx.stopped() {
                    return;
                }
            }
        }
    }
}
/// Inputs that declare or nest far more than they carry.
pub fn bombs(d: &'static Def, tier: Tier) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let depths: &[usize] = tier.pick(&[1, 10, 62, 63, 64, 65, 66, 127, 128, 129, 1000, 20000], &[1, 10, 62, 63, 64, 65, 66, 126, 127, 128, 129, 255, 256, 1000, 20000, 200000]);
    // an unknown field of each container type nested in itself or in others
    for &n in depths {
        for unit in [&[0x1c_u8][..], &[0x19], &[0x1a]] {
            let mut b = vec![0xf0 & 0xf0 | unit[0] & 0x0f, 0xc8, 0x01]; // explicit id 100
            // struct in struct: 1c 1c 1c; list in list: 19 19 19
            for _ in 0..n {
                b.extend_from_slice(unit);
            }
            out.push(b.iter().copied().skip(0).collect());
            let mut c = b.clone();
            c[0] = unit[0] & 0x0f;
            out.push(c);
        }
        // map in map: count 1, types (map,map) as key chain
        let mut b = vec![0x0b, 0xc8, 0x01];
        for _ in 0..n {
            b.extend([0x01, 0xbb]);
        }
        out.push(b);
        let mut b = vec![0x0b, 0xc8, 0x01];
        for _ in 0..n {
            b.extend([0x01, 0x1b, 0x01]);
        }
        out.push(b);
        // struct holding list holding struct
        let mut b = vec![0x0c, 0xc8, 0x01];
        for _ in 0..n {
            b.extend([0x19, 0x1c]);
        }
        out.push(b);
        // the same first field over and over
        if let Some(f) = d.fields.iter().find(|f| matches!(f.kind, Kind::St(_) | Kind::List(_))) {
            let mut b = vec![];
            for _ in 0..n {
                b.push((f.id as u8) << 4 | f.kind.wt().nib());
            }
            out.push(b);
        }
    }
    let sizes: &[u64] = &[15, 100, 8191, 8192, 8193, 65535, 1 << 20, 1 << 27, 1 << 28, (1 << 29) - 1, 1 << 31, u32::MAX as u64];
    for &n in sizes {
        let v = leb(n, 0);
        // unknown collections and binaries
        for e in 0..16u8 {
            for t in [9u8, 10] {
                let mut b = vec![t, 0xc8, 0x01, 0xf0 | e];
                b.extend(&v);
                out.push(b.clone());
                b.extend([1; 40]);
                out.push(b);
            }
            for k in 0..16u8 {
                let mut b = vec![11, 0xc8, 0x01];
                b.extend(&v);
                b.push(k << 4 | e);
                if k == 1 || e == 1 {
                    let mut c = b.clone();
                    c.extend([1; 40]);
                    out.push(c);
                }
                out.push(b);
            }
        }
        let mut b = vec![8, 0xc8, 0x01];
        b.extend(&v);
        out.push(b.clone());
        b.extend([b'x'; 300]);
        out.push(b);
        // known collections and binaries, reached directly
        for f in &d.fields {
            let head = vec![f.kind.wt().nib(), zz(f.id as i64) as u8];
            match &f.kind {
                Kind::List(e) => {
                    for nib in [e.wt().nib(), 1, 3, 5, 8, 12] {
                        let mut b = head.clone();
                        b.push(0xf0 | nib);
                        b.extend(&v);
                        out.push(b.clone());
                        b.extend([0; 64]);
                        out.push(b.clone());
                        let l = b.len();
                        b.truncate(l - 64);
                        b.extend([1; 64]);
                        out.push(b);
                    }
                }
                Kind::Bin | Kind::Str => {
                    let mut b = head.clone();
                    b.extend(&v);
                    out.push(b.clone());
                    b.extend([b'y'; 64]);
                    out.push(b);
                }
                _ => {}
            }
        }
    }
    out
}
/// Where to cut a large encoding: both ends, the middle, and around the sizes of likely buffers.
pub fn big_cuts(len: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..8).chain(len.saturating_sub(6)..len).collect();
    v.push(len / 2);
    for k in [256usize, 512, 1024, 4096, 8192, 16384, 32768, 65536] {
        v.extend([k - 1, k, k + 1, k + 4, len.saturating_sub(k), len.saturating_sub(k + 3)]);
    }
    v.sort();
    v.dedup();
    v.retain(|n| *n < len);
    v
}
/// Large unknown data of every kind of container.
pub fn big_payloads(tier: Tier) -> Vec<Val> {
    let mut v = vec![];
    for n in tier.pick(vec![257, 513, 1025, 2049, 4097, 8193, 16385, 65537], big_lens(Tier::Thorough)) {
        v.push(Val::Bin(pattern(n, 3)));
        v.push(Val::List(Wt::Bin, vec![Val::Bin(pattern(n, 1)), Val::Bin(vec![1])]));
        v.push(Val::Map(Wt::I8, Wt::Bin, vec![(Val::I8(1), Val::Bin(pattern(n, 2)))]));
        for w in [Wt::Bool, Wt::I8, Wt::I32, Wt::Dbl, Wt::Bin, Wt::St] {
            let m = n.min(5000);
            let e: Vec<Val> = (0..m).map(|i| crate::lowdom::leaf(w, if w == Wt::Bin { i % 3 } else { i })).collect();
            v.push(Val::Set(w, e.clone()));
            v.push(Val::Map(w, Wt::I8, e.into_iter().map(|x| (x, Val::I8(4))).collect()));
        }
    }
    v
}
/// Very many unknown fields in front of a minimal value.
pub fn unknown_crowds(d: &'static Def, tier: Tier) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let id = [113i16, 120, -9, 30000];
    for n in tier.pick(vec![16usize, 17, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 513, 1025, 4097, 65537], vec![15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1025, 4097, 10000, 32769, 65537, 200_000]) {
        for w in WTS {
            let Val::St(fs) = build(d, 1, false) else { panic!("harness") };
            let mut g: Vec<(i16, Val)> = (0..n).map(|i| (id[i % 4], crate::lowdom::leaf(w, i % 3))).collect();
            g.extend(fs);
            out.push(enc(&Val::St(g)));
        }
    }
    out
}
/// The jobs that feed a judge with the whole family of inputs for each type.
pub fn byte_jobs<J>(tier: Tier, judge: J) -> Vec<Job>
where
    J: Fn(&'static dyn Ty, &[u8], &mut Case) -> Result<bool, String> + Copy + Sync + Send + 'static,
{
    let mut jobs = vec![];
    let mut order: Vec<&'static dyn Ty> = TYPES.to_vec();
    order.sort_by_key(|t| std::cmp::Reverse(enc(&build(t.def(), 2, true)).len()));
    for t in order {
        let empty = t.def().fields.is_empty();
        // neighbours of legal encodings
        let mut vals = vec![];
        core(t.def(), &mut |v| vals.push(v));
        for (i, v) in vals.into_iter().enumerate() {
            jobs.push(job(format!("{}/neighbours{}", t.name(), i), move |ctx: &mut Ctx| {
                mutate(ctx, t.name(), &enc(&v), tier, &|b: &[u8], c: &mut Case| judge(t, b, c));
                if i == 0 {
                    // and of a needlessly long form of it
                    mutate(ctx, t.name(), &enc_form(&v, &mut Form::with(&[], 1)), tier, &|b: &[u8], c: &mut Case| judge(t, b, c));
                }
            }));
        }
        // everything short
        let chunks = tier.pick(1, 16);
        for ch in 0..chunks {
            jobs.push(job(format!("{}/short{}", t.name(), ch), move |ctx: &mut Ctx| {
                let j = |b: &[u8], c: &mut Case| judge(t, b, c);
                let deep: Vec<&[u8]> = tier.pick(vec![&ALL[..]], vec![&ALL[..], &SMALL[..]]);
                if ch == 0 {
                    one(ctx, t.name(), &[], &j);
                }
                let w = 256 / chunks;
                for b in ch * w..(ch + 1) * w {
                    tree(ctx, t.name(), &mut vec![b as u8], &deep, &j);
                }
            }));
        }
        // deeper over the bytes that matter
        let n: usize = if empty { tier.pick(3, 4) } else { tier.pick(3, 4) };
        jobs.push(job(format!("{}/deep", t.name()), move |ctx: &mut Ctx| {
            let deep: Vec<&[u8]> = (0..n).map(|_| &SMALL[..]).collect();
            tree(ctx, t.name(), &mut vec![], &deep, &|b: &[u8], c: &mut Case| judge(t, b, c));
        }));
        jobs.push(job(format!("{}/bombs", t.name()), move |ctx: &mut Ctx| {
            for b in bombs(t.def(), tier) {
                one(ctx, t.name(), &b, &|b: &[u8], c: &mut Case| judge(t, b, c));
            }
        }));
        // text that is not text, in every text field
        jobs.push(job(format!("{}/text", t.name()), move |ctx: &mut Ctx| {
            let j = |b: &[u8], c: &mut Case| judge(t, b, c);
            let d = t.def();
            for f in &d.fields {
                for x in texts().into_iter().chain(bad_texts()) {
                    let y = match &f.kind {
                        Kind::Str | Kind::Bin => Val::Bin(x),
                        Kind::List(k) if matches!(**k, Kind::Str | Kind::Bin) => Val::List(Wt::Bin, vec![Val::Bin(b"ok".to_vec()), Val::Bin(x)]),
                        _ => break,
                    };
                    let mut v = if d.union { Val::St(vec![]) } else { build(d, 1, false) };
                    v.set_field(f.id, Some(y));
                    one(ctx, t.name(), &enc(&v), &j);
                }
            }
        }));
        // large values, whole, cut, followed by more, and behind or in front of large unknown data
        jobs.push(job(format!("{}/sizes", t.name()), move |ctx: &mut Ctx| {
            let j = |b: &[u8], c: &mut Case| judge(t, b, c);
            sizes(t.def(), &big_lens(tier), &mut |v| {
                if ctx.stopped() {
                    return;
                }
                let b = enc(&v);
                one(ctx, t.name(), &b, &j);
                one(ctx, t.name(), &[&b[..], &[0x7f; 70]].concat(), &j);
                for n in big_cuts(b.len()) {
                    one(ctx, t.name(), &b[..n], &j);
                }
                // one byte changed far inside
                for at in [b.len() / 2, b.len() - 3] {
                    for x in [0xff, 0x00] {
                        let mut y = b.clone();
                        y[at] = x;
                        one(ctx, t.name(), &y, &j);
                    }
                }
            });
            crowds(t.def(), tier, &mut |v| {
                if ctx.stopped() {
                    return;
                }
                let b = enc(&v);
                one(ctx, t.name(), &b, &j);
                one(ctx, t.name(), &b[..b.len() - 1], &j);
            });
            if t.def().union || ctx.stopped() {
                return;
            }
            // more unknown fields than small counters hold
            for b in unknown_crowds(t.def(), tier) {
                one(ctx, t.name(), &b, &j);
            }
            for p in big_payloads(tier) {
                let Val::St(mut g) = build(t.def(), 1, false) else { panic!("harness") };
                g.push((120, p));
                let b = enc(&Val::St(g));
                one(ctx, t.name(), &b, &j);
                one(ctx, t.name(), &b[..b.len() - 2], &j);
            }
        }));
    }
    jobs
}
