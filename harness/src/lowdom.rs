//! The domain of low-level write sequences, as value trees.
use crate::domain::*;
use crate::engine::Tier;
use crate::low::Msg;
use crate::val::*;

pub fn ids(tier: Tier) -> Vec<i16> {
    let mut v: Vec<i16> = vec![
        1, 2, 3, 14, 15, 16, 17, 30, 31, 63, 64, 65, 100, 127, 128, 255, 256, 8191, 8192, 16383, 32752, 32753, 32766, 32767, 0, -1, -2, -14, -15,
        -16, -64, -65, -100, -8192, -8193, -32767, -32768,
    ];
    if tier == Tier::Thorough {
        v.extend([4, 5, 13, 18, 29, 32, 62, 126, 129, 1000, 4096, 16384, 20000, 32751, -3, -13, -17, -63, -66, -127, -128, -129, -1000, -16384, -20000]);
    }
    v
}
pub fn leaf(w: Wt, salt: usize) -> Val {
    match w {
        Wt::Bool => Val::Bool(salt % 3 != 1),
        Wt::I8 => Val::I8([5, -1, 127, -128, 0][salt % 5]),
        Wt::I16 => Val::I16([7, -1, i16::MAX, i16::MIN, 64, -65][salt % 6]),
        Wt::I32 => Val::I32([9, -1, i32::MAX, i32::MIN, 64, 8192][salt % 6]),
        Wt::I64 => Val::I64([11, -1, i64::MAX, i64::MIN, 1 << 41, -(1 << 48) - 1][salt % 6]),
        Wt::Dbl => Val::Dbl([1.5f64.to_bits(), 0, 0x8000_0000_0000_0000, f64::INFINITY.to_bits(), f64::MIN_POSITIVE.to_bits(), 0x0102_0304_0506_0708][salt % 6]),
        Wt::Bin => Val::Bin([vec![], vec![0x41], text(5, 1), vec![0xff, 0xfe], pattern(130, 2)][salt % 5].clone()),
        Wt::List => Val::List(Wt::I32, vec![Val::I32(salt as i32), Val::I32(-3)]),
        Wt::Set => Val::Set(Wt::Bin, vec![Val::Bin(vec![0xff; salt % 3])]),
        Wt::Map => Val::Map(Wt::I8, Wt::Bool, vec![(Val::I8(salt as i8), Val::Bool(salt % 2 == 0))]),
        Wt::St => Val::St(vec![(1, Val::Bool(salt % 2 == 0)), (2, Val::I32(salt as i32))]),
    }
}
pub fn leaf_all(w: Wt, tier: Tier) -> Vec<Val> {
    match w {
        Wt::Bool => vec![Val::Bool(true), Val::Bool(false)],
        Wt::I8 => (-128..=127i16).map(|x| Val::I8(x as i8)).collect(),
        Wt::I16 => ints(16, tier).into_iter().map(|x| Val::I16(x as i16)).collect(),
        Wt::I32 => ints(32, tier).into_iter().map(|x| Val::I32(x as i32)).collect(),
        Wt::I64 => ints(64, tier).into_iter().map(Val::I64).collect(),
        Wt::Dbl => {
            let mut v: Vec<u64> = [0.0f64, -0.0, 1.0, -1.5, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN].iter().map(|x| x.to_bits()).collect();
            v.extend((0..64).map(|i| 1u64 << i));
            v.extend((0..8).map(|i| 0xffu64 << (8 * i)));
            v.extend([0x7ff8_0000_0000_0001, 0x7ff0_0000_0000_0001, 0xfff0_dead_beef_0001, 0x0102_0304_0506_0708]);
            v.into_iter().map(Val::Dbl).collect()
        }
        Wt::Bin => bin_lens(tier).into_iter().flat_map(|n| [pattern(n, 4), text(n, 3)]).chain(texts()).chain(bad_texts()).map(Val::Bin).collect(),
        w => (0..6).map(|i| leaf(w, i)).collect(),
    }
}
/// container shapes to a depth, one small leaf of each type at the bottom
pub fn nested(depth: usize) -> Vec<Val> {
    let leaves: Vec<Val> = [Wt::Bool, Wt::I8, Wt::I16, Wt::I32, Wt::I64, Wt::Dbl, Wt::Bin].iter().map(|w| leaf(*w, 3)).collect();
    if depth == 0 {
        return leaves;
    }
    let inner = nested(depth - 1);
    let mut v = leaves;
    v.push(Val::St(vec![]));
    v.push(Val::List(Wt::St, vec![]));
    v.push(Val::Map(Wt::Bool, Wt::Bool, vec![]));
    for x in inner {
        let w = x.wt();
        v.push(Val::List(w, vec![x.clone(), x.clone()]));
        v.push(Val::Set(w, vec![x.clone()]));
        v.push(Val::Map(Wt::Bool, w, vec![(Val::Bool(true), x.clone())]));
        v.push(Val::Map(w, Wt::Bin, vec![(x.clone(), Val::Bin(vec![0xc3]))]));
        v.push(Val::St(vec![(3, Val::Bool(false)), (4, x), (6, Val::Bool(true)), (7, Val::I16(-300))]));
    }
    v
}
pub const LOW_FAMILIES: usize = 12;
pub fn low_family(which: usize, tier: Tier, out: &mut dyn FnMut(Val)) {
    match which {
        0 => {
            for w in WTS {
                for v in leaf_all(w, tier) {
                    out(v.clone());
                    out(Val::St(vec![(1, v)]));
                }
            }
        }
        1 => {
            for w in WTS {
                for n in list_lens(tier).into_iter().chain([3, 17, 255, 256, 16384]) {
                    let e: Vec<Val> = (0..n).map(|i| leaf(w, i)).collect();
                    out(Val::List(w, e.clone()));
                    out(Val::Set(w, e));
                }
            }
        }
        2 => {
            for k in WTS {
                for w in WTS {
                    for n in [0, 1, 2, 15, 127, 128, 129] {
                        let e: Vec<(Val, Val)> = (0..n).map(|i| (leaf(k, i), leaf(w, i + 1))).collect();
                        let v = if n == 0 { Val::Map(Wt::Bool, Wt::Bool, vec![]) } else { Val::Map(k, w, e) };
                        out(v.clone());
                        out(Val::St(vec![(5, v), (6, Val::Bool(true)), (7, leaf(k, 1))]));
                    }
                }
            }
        }
        3 => {
            for id in ids(Tier::Thorough) {
                for w in WTS {
                    for s in 0..2 {
                        out(Val::St(vec![(id, leaf(w, s))]));
                    }
                }
            }
        }
        4 => {
            let t = [Wt::Bool, Wt::I32, Wt::St, Wt::Bin];
            for a in ids(tier) {
                for b in ids(tier) {
                    for x in t {
                        for y in t {
                            out(Val::St(vec![(a, leaf(x, 1)), (b, leaf(y, 2))]));
                        }
                    }
                }
            }
        }
        5 => {
            let d = [1i16, 2, 14, 15, 16, 17, 30, 31, 100, 0, -1, -15, 32767, -32768];
            for a in d {
                for b in d {
                    for c in d {
                        out(Val::St(vec![(a, Val::Bool(true)), (b, Val::I8(1)), (c, Val::Bool(false))]));
                        // ids are restored after a nested structure, wherever it sits
                        let inner = Val::St(vec![(b, Val::Bool(false)), (2, Val::I8(2))]);
                        out(Val::St(vec![(a, inner.clone()), (c, Val::I8(9))]));
                        out(Val::St(vec![(a, Val::List(Wt::St, vec![inner.clone(), inner.clone()])), (c, Val::Bool(true))]));
                        out(Val::St(vec![(a, Val::Map(Wt::St, Wt::St, vec![(inner.clone(), inner)])), (c, Val::Bool(true))]));
                    }
                }
            }
        }
        6 => {
            for v in nested(tier.pick(3, 4)) {
                out(v.clone());
                out(Val::St(vec![(2, v), (3, Val::Bool(true))]));
            }
        }
        7 => {
            // booleans in every mixture
            let alph = |i: usize| -> Val {
                match i {
                    0 => Val::Bool(true),
                    1 => Val::Bool(false),
                    2 => Val::List(Wt::Bool, vec![Val::Bool(false), Val::Bool(true)]),
                    3 => Val::I8(2),
                    4 => Val::St(vec![(1, Val::Bool(false))]),
                    _ => Val::Map(Wt::Bool, Wt::Bool, vec![(Val::Bool(true), Val::Bool(false))]),
                }
            };
            let n = tier.pick(4, 6);
            for len in 0..=n {
                for code in 0..6usize.pow(len as u32) {
                    let mut c = code;
                    let mut f = vec![];
                    for i in 0..len {
                        f.push((i as i16 + 1, alph(c % 6)));
                        c /= 6;
                    }
                    out(Val::St(f));
                }
            }
        }
        8 => {
            // long structures: every id spacing
            for step in (1..=40).chain([100, 300]) {
                for n in [2, 16, 17, 40] {
                    out(Val::St((0..n).map(|i| (i as i16 * step as i16, leaf(WTS[i % 11], i))).collect()));
                    out(Val::St((0..n).rev().map(|i| (i as i16 * step as i16, leaf(WTS[i % 11], i))).collect()));
                    out(Val::St((0..n).map(|i| (-(i as i16) * step as i16, leaf(WTS[i % 11], i))).collect()));
                }
            }
            for n in [1, 10, 63, 64, 65, 100, 300] {
                let mut v = Val::I8(1);
                for i in 0..n {
                    v = Val::St(vec![(i as i16 % 20, v), (21, Val::Bool(i % 2 == 0))]);
                }
                out(v);
            }
            // deep, with every way the id after the nested structure can relate to the one before
            for n in tier.pick(vec![15usize, 16, 17, 31, 33, 63, 65, 100, 127, 129, 255, 257, 400], vec![7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 400, 513, 700]) {
                for (a, b) in [(3i16, 5i16), (1, 2), (14, 15), (2, 17), (100, 101), (-5, 3), (7, 7), (300, 2), (32760, 32767), (-32768, 32767)] {
                    for how in 0..4 {
                        let mut v = Val::St(vec![(a, Val::Bool(true))]);
                        for i in 0..n {
                            let w = match (how, i % 3) {
                                (1, _) | (3, 0) => Val::List(Wt::St, vec![v]),
                                (2, _) | (3, 1) => Val::Map(Wt::I8, Wt::St, vec![(Val::I8(i as i8), v)]),
                                _ => v,
                            };
                            v = Val::St(vec![(a, w), (b, Val::I8(i as i8))]);
                        }
                        out(v);
                    }
                }
            }
            // wide: more fields than small counters hold
            for n in tier.pick(vec![127usize, 128, 129, 255, 256, 257, 1000, 5000, 32767], vec![63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 5000, 20000, 32766, 32767]) {
                for w in [Wt::Bool, Wt::I8, Wt::St] {
                    out(Val::St((0..n).map(|i| (i as i16 + 1, leaf(w, i))).collect()));
                    out(Val::St((0..n).map(|i| (-(i as i16) - 1, leaf(w, i))).collect()));
                }
                out(Val::St((0..n).map(|i| (i as i16 + 1, leaf(WTS[i % 11], i))).collect()));
            }
        }
        9 => {
            big_low(&big_lens(tier), out);
            for n in [131_073, 262_145, 524_289, (1 << 20) + 1, (1 << 21) - 1, 1 << 21, (1 << 21) + 1] {
                for b in [Val::Bin(pattern(n, 5)), Val::Bin(text(n, n))] {
                    out(b.clone());
                    out(Val::St(vec![(1, b), (2, Val::Bool(true))]));
                }
            }
        }
        10 => {
            // every step from one id to the next, across every kind of content, at every small depth
            let ids = tier.pick(vec![1i16, 2, 15, 16, 17, 31, 127, 128, 255, 256, 1030, 2000, 8192, 32767, 0, -1, -15, -129, -32768], ids(Tier::Thorough));
            let mut mids: Vec<Val> = WTS.iter().map(|&w| leaf(w, 1)).collect();
            mids.push(Val::List(Wt::I32, vec![]));
            mids.push(Val::List(Wt::St, vec![Val::St(vec![(9, Val::I8(1)), (40, Val::Bool(true))]); 2]));
            mids.push(Val::Set(Wt::Bool, vec![Val::Bool(false)]));
            mids.push(Val::Map(Wt::Bool, Wt::Bool, vec![]));
            mids.push(Val::Map(Wt::I8, Wt::St, vec![(Val::I8(2), Val::St(vec![(-7, Val::Bool(false))]))]));
            mids.push(Val::St(vec![]));
            for depth in 0..tier.pick(5, 9) {
                for &a in &ids {
                    for &b in &ids {
                        for m in &mids {
                            let mut v = Val::St(vec![(a, m.clone()), (b, Val::I8(1))]);
                            for i in 0..depth {
                                v = Val::St(vec![(i + 6, v), (i + 7, Val::Bool(true))]);
                            }
                            out(v);
                        }
                    }
                }
            }
        }
        11 => {
            // from an id to every id there is, and back
            for a in tier.pick(vec![1i16, 0, -1, 16, 300, 32767, -32768], ids(Tier::Thorough)) {
                for w in [Wt::Bool, Wt::I8] {
                    for part in 0..16i32 {
                        let mut f = Vec::with_capacity(8192);
                        for b in part * 4096..(part + 1) * 4096 {
                            f.push((a, leaf(w, b as usize)));
                            f.push(((b - 32768) as i16, leaf(w, b as usize + 1)));
                        }
                        out(Val::St(f));
                    }
                }
            }
        }
        _ => {}
    }
}
/// Large data and large containers, alone and inside others.
pub fn big_low(lens: &[usize], out: &mut dyn FnMut(Val)) {
    for &n in lens {
        for b in [Val::Bin(pattern(n, 5)), Val::Bin(text(n, n))] {
            out(b.clone());
            out(Val::St(vec![(1, b.clone()), (2, Val::Bool(true))]));
            out(Val::List(Wt::Bin, vec![Val::Bin(vec![7]), b.clone(), Val::Bin(vec![8])]));
            out(Val::Map(Wt::Bin, Wt::Bin, vec![(b.clone(), Val::Bin(vec![1, 2])), (Val::Bin(vec![]), b)]));
        }
        for w in WTS {
            if matches!(w, Wt::List | Wt::Set | Wt::Map | Wt::St) && n > 5000 {
                continue;
            }
            let e: Vec<Val> = (0..n).map(|i| leaf(w, if w == Wt::Bin { i % 3 } else { i })).collect();
            out(Val::St(vec![(1, Val::List(w, e.clone())), (2, Val::I8(3))]));
            if n <= 17000 || n <= 70_000 && matches!(w, Wt::Bool | Wt::I8 | Wt::Bin) {
                out(Val::Set(w, e.clone()));
                out(Val::Map(Wt::I16, w, e.into_iter().enumerate().map(|(i, v)| (Val::I16(i as i16), v)).collect()));
            }
        }
    }
}
pub fn msgs(tier: Tier) -> Vec<Msg> {
    let mut v = vec![];
    let mut seqs: Vec<u32> = vec![0, 1, 2, 127, 128, 129, 16383, 16384, 1 << 21, (1 << 21) - 1, 1 << 28, (1 << 28) - 1, 1 << 31, (1 << 31) - 1, u32::MAX, u32::MAX - 1];
    seqs.extend((0..32).map(|i| 1u32 << i));
    for ty in 0..4 {
        for &seq in &seqs {
            for n in bin_lens(tier) {
                v.push(Msg { name: text(n, n + ty), ty, seq });
            }
        }
        for n in big_lens(tier) {
            v.push(Msg { name: text(n, n + ty), ty, seq: n as u32 });
        }
        for name in texts() {
            v.push(Msg { name, ty, seq: 5 });
        }
    }
    v
}
