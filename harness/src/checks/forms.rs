//! Checks quantified over encodings of values: C04, C05, C06, C10, C11, C12, C13, C20.
use super::bytes;
use crate::alloc;
use crate::domain::*;
use crate::engine::*;
use crate::ensure;
use crate::explore::*;
use crate::low::{self, *};
use crate::lowdom::*;
use crate::ops::*;
use crate::schema::*;
use crate::val::*;
use parquet_format_safe::thrift;
use parquet_format_safe::thrift::protocol::*;
use std::io::{Seek, SeekFrom};

fn cores(d: &'static Def) -> Vec<Val> {
    let mut v = vec![];
    core(d, &mut |x| v.push(x));
    v
}
fn big_first() -> Vec<&'static dyn Ty> {
    let mut order: Vec<&'static dyn Ty> = TYPES.to_vec();
    order.sort_by_key(|t| std::cmp::Reverse(enc(&build(t.def(), 2, true)).len()));
    order
}
/// Both readers must return exactly `v` and consume exactly the encoding (possibly followed by `tail`).
fn reads_as(t: &dyn Ty, b: &[u8], tail: &[u8], v: &Val, c: &mut Case) -> Result<(), String> {
    let all;
    let inp = if tail.is_empty() {
        b
    } else {
        all = [b, tail].concat();
        &all[..]
    };
    for s in SIDES {
        let (r, seen) = read(t, inp, usize::MAX, s);
        c.ran(1);
        ensure!(r.as_ref() == Ok(v), "[{}] denotes {} but the {:?} reader gave {}", hex(b), v.brief(), s, brief_r(&r));
        ensure!(seen.consumed == b.len(), "{:?} reader consumed {} of {} bytes of [{}]", s, seen.consumed, b.len(), hex(b));
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

/// Every way to depart from the base form in at most `k` places.
fn forms(v: &Val, base: usize, k: usize, out: &mut dyn FnMut(&[(usize, usize)], Vec<u8>)) {
    fn rec(v: &Val, base: usize, k: usize, devs: &mut Vec<(usize, usize)>, out: &mut dyn FnMut(&[(usize, usize)], Vec<u8>)) {
        let mut f = Form::with(devs, base);
        let b = enc_form(v, &mut f);
        out(devs, b);
        if k == 0 {
            return;
        }
        let from = devs.last().map(|d| d.0 + 1).unwrap_or(0);
        for i in from..f.points.len() {
            let normal = base.min(f.points[i] - 1);
            for a in 0..f.points[i] {
                if a != normal {
                    devs.push((i, a));
                    rec(v, base, k - 1, devs, out);
                    devs.pop();
                }
            }
        }
    }
    rec(v, base, k, &mut vec![], out)
}
fn points(v: &Val, base: usize) -> usize {
    let mut f = Form::with(&[], base);
    enc_form(v, &mut f);
    f.points.len()
}
/// { a: v, b: [x, v], a: true, b: x, 9: false } with the typed values written and read by their own code.
fn embed_write(t: &dyn Ty, v: &Val, u: &dyn Ty, x: &Val, a: i16, b: i16, s: Side) -> (Result<(), EK>, Wrote) {
    macro_rules! go {
        ($p:ident, $w:ident, $($aw:tt)*) => {{
            $($aw)*($p.write_struct_begin(&TStructIdentifier::new("s")))?;
            $($aw)*($p.write_field_begin(&TFieldIdentifier::new("v", TType::Struct, a)))?;
            t.$w(v, $p)?;
            $p.write_field_end()?;
            $($aw)*($p.write_field_begin(&TFieldIdentifier::new("l", TType::List, b)))?;
            $($aw)*($p.write_list_begin(&TListIdentifier::new(TType::Struct, 2)))?;
            u.$w(x, $p)?;
            t.$w(v, $p)?;
            $($aw)*($p.write_list_end())?;
            $p.write_field_end()?;
            $($aw)*($p.write_field_begin(&TFieldIdentifier::new("t", TType::Bool, a)))?;
            $($aw)*($p.write_bool(true))?;
            $p.write_field_end()?;
            $($aw)*($p.write_field_begin(&TFieldIdentifier::new("x", TType::Struct, b)))?;
            u.$w(x, $p)?;
            $p.write_field_end()?;
            $($aw)*($p.write_field_begin(&TFieldIdentifier::new("f", TType::Bool, 9)))?;
            $($aw)*($p.write_bool(false))?;
            $p.write_field_end()?;
            $($aw)*($p.write_field_stop())?;
            $p.write_struct_end()?;
            Ok(())
        }};
    }
    match s {
        Side::Async => with_sout(PLAIN, |p| go!(p, swrite, crate::env::block_on)),
        _ => with_out(PLAIN, |p| go!(p, write, std::convert::identity)),
    }
}
type Embedded = (Vec<i16>, Vec<Val>);
fn embed_read(t: &dyn Ty, u: &dyn Ty, inp: &[u8], s: Side) -> (Result<Embedded, EK>, Seen) {
    macro_rules! go {
        ($p:ident, $r:ident, $($aw:tt)*) => {{
            let mut ids = vec![];
            let mut vals = vec![];
            $($aw)*($p.read_struct_begin())?;
            loop {
                let f = $($aw)*($p.read_field_begin())?;
                if f.field_type == TType::Stop {
                    break;
                }
                ids.push(f.id.ok_or("no id")?);
                match (ids.len(), f.field_type) {
                    (1, TType::Struct) => vals.push(t.$r($p)?),
                    (2, TType::List) => {
                        let n = $($aw)*($p.read_list_begin())?;
                        if n.size != 2 || n.element_type != TType::Struct {
                            return Err("wrong list".into());
                        }
                        vals.push(u.$r($p)?);
                        vals.push(t.$r($p)?);
                        $($aw)*($p.read_list_end())?;
                    }
                    (3 | 5, TType::Bool) => {
                        if $($aw)*($p.read_bool())? != (ids.len() == 3) {
                            return Err("wrong boolean".into());
                        }
                    }
                    (4, TType::Struct) => vals.push(u.$r($p)?),
                    (n, ty) => return Err(format!("field {} of type {:?}", n, ty).into()),
                }
                $($aw)*($p.read_field_end())?;
            }
            $($aw)*($p.read_struct_end())?;
            Ok((ids, vals))
        }};
    }
    match s {
        Side::Async => with_sin(inp, usize::MAX, PLAIN, |p| go!(p, sread, crate::env::block_on)),
        _ => with_in(inp, usize::MAX, PLAIN, |p| go!(p, read, std::convert::identity)),
    }
}
fn c04(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    for t in big_first() {
        for base in 0..4 {
            jobs.push(job(format!("{}/forms{}", t.name(), base), move |ctx: &mut Ctx| {
                let mut vals = cores(t.def());
                if !t.def().union {
                    few_all(t.def(), &mut |v| vals.push(v));
                }
                for v in vals {
                    let n = points(&v, base);
                    let k = match n {
                        0..=12 => 3,
                        _ if n <= tier.pick(70, 400) => 2,
                        _ => 1,
                    };
                    forms(&v, base, k, &mut |devs, b| {
                        if ctx.stopped() {
                            return;
                        }
                        ctx.case(|| format!("{} base {} departures {:?} of {}", t.name(), base, devs, v.brief()), |c| {
                            c.key(&(t.name(), &b));
                            match decode(t.def(), &b) {
                                Verdict::Legal(x, n, _) if x == v && n == b.len() => {}
                                o => panic!("harness: reference decoder disagrees with reference encoder: {:?}", o),
                            }
                            reads_as(t, &b, &[], &v, c)
                        });
                    });
                }
            }));
        }
    }
    // long contents, and more elements than small counters hold
    for t in big_first() {
        for base in 0..4 {
            jobs.push(job(format!("{}/sizes{}", t.name(), base), move |ctx: &mut Ctx| {
                for fam in [6, 7, 8] {
                    family(t.def(), fam, tier, &mut |v| {
                        if ctx.stopped() {
                            return;
                        }
                        ctx.case(|| format!("{} base {}: {}", t.name(), base, v.brief()), |c| {
                            let b = enc_form(&v, &mut Form::with(&[], base));
                            c.key(&(t.name(), &b));
                            reads_as(t, &b, &[], &v, c)
                        });
                    });
                }
            }));
        }
    }
    jobs.extend(bytes::c04_malformed(tier));
    jobs
}
/// Values with one field moved to each of its `few` values, from the minimal value.
fn few_all(d: &'static Def, out: &mut dyn FnMut(Val)) {
    for f in &d.fields {
        for x in few(&f.kind) {
            let mut v = build(d, 4, false);
            v.set_field(f.id, Some(x));
            out(v);
        }
    }
}

// ---------------------------------------------------------------- walking structure nodes

/// Visit every node of the value that is an IDL structure: (definition, path) and a way to rebuild the root with
/// that node replaced.
fn nodes(d: &'static Def, v: &Val, out: &mut dyn FnMut(&'static Def, &Val, &dyn Fn(Val) -> Val)) {
    fn go(d: &'static Def, v: &Val, put: &dyn Fn(Val) -> Val, out: &mut dyn FnMut(&'static Def, &Val, &dyn Fn(Val) -> Val)) {
        out(d, v, put);
        for f in &d.fields {
            if let Some(x) = v.field(f.id) {
                let put2 = |n: Val| {
                    let mut c = v.clone();
                    if let Val::St(fs) = &mut c {
                        for y in fs.iter_mut() {
                            if y.0 == f.id {
                                y.1 = n.clone();
                            }
                        }
                    }
                    put(c)
                };
                match (&f.kind, x) {
                    (Kind::St(e), x) => go(e, x, &put2, out),
                    (Kind::List(k), Val::List(w, items)) => {
                        if let Kind::St(e) = &**k {
                            for i in 0..items.len() {
                                let put3 = |n: Val| {
                                    let mut c = items.clone();
                                    c[i] = n;
                                    put2(Val::List(*w, c))
                                };
                                go(e, &items[i], &put3, out);
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    go(d, v, &|x| x, out)
}

// ---------------------------------------------------------------- C05

pub fn chain(n: usize, kind: usize, end: Val) -> Val {
    let mut v = end;
    for _ in 0..n {
        v = wrap(kind, v);
    }
    v
}
/// One more container around `v`: 0 struct, 1 list, 2 set, 3 map key, 4 map value.
pub fn wrap(kind: usize, v: Val) -> Val {
    let w = v.wt();
    match kind {
        0 => Val::St(vec![(3, v)]),
        1 => Val::List(w, vec![v]),
        2 => Val::Set(w, vec![v]),
        3 => Val::Map(w, Wt::I8, vec![(v, Val::I8(7))]),
        _ => Val::Map(Wt::Bin, w, vec![(Val::Bin(vec![0xfe]), v)]),
    }
}
pub fn payloads(tier: Tier) -> Vec<Val> {
    let mut v = vec![];
    for w in WTS {
        for s in 0..tier.pick(3, 6) {
            v.push(leaf(w, s));
        }
    }
    v.push(Val::Bin(vec![0xff, 0xfe, 0x80]));
    v.push(Val::Bin(pattern(300, 1)));
    v.push(Val::St(vec![]));
    v.push(Val::Map(Wt::Bool, Wt::Bool, vec![]));
    for w in WTS {
        v.push(Val::List(w, vec![]));
        v.push(Val::List(w, (0..3).map(|i| leaf(w, i)).collect()));
        v.push(Val::Set(w, (0..16).map(|i| leaf(w, i)).collect()));
        v.push(Val::Map(w, Wt::St, vec![(leaf(w, 0), leaf(Wt::St, 1)), (leaf(w, 3), leaf(Wt::St, 2))]));
        v.push(Val::Map(Wt::Bool, w, vec![(Val::Bool(false), leaf(w, 2))]));
    }
    // structures reusing the ids of known fields, ending on large ids
    v.push(Val::St(vec![(1, Val::I32(5)), (2, Val::Bin(vec![0xc0])), (4, Val::Bool(true)), (900, Val::I8(1)), (-3, Val::Bool(false))]));
    v.push(Val::St(vec![(1, Val::St(vec![(1, Val::St(vec![(15, Val::I64(1))])), (30, Val::Dbl(1))])), (2, Val::I16(3))]));
    v.push(Val::List(Wt::St, vec![Val::St(vec![(32767, Val::Bool(true))]), Val::St(vec![]), Val::St(vec![(-32768, Val::I8(0))])]));
    // right at the nesting allowance
    for k in 0..5 {
        v.push(chain(63, k, Val::I32(1)));
    }
    v.push(chain(63, 0, Val::Bool(true)));
    v.push(chain(63, 1, Val::St(vec![])));
    let n = nested(tier.pick(1, 2));
    v.extend(n);
    v
}
fn unused_ids(d: &Def) -> Vec<i16> {
    let max = d.fields.iter().map(|f| f.id).max().unwrap_or(0);
    let mut v: Vec<i16> = vec![max + 1, max + 15, 100, 0, -5, 32767, -32768];
    // a gap inside
    v.extend((1..max).filter(|i| d.get(*i).is_none()));
    v.retain(|i| d.get(*i).is_none());
    v
}
fn c05(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    for t in big_first() {
        // a union cannot carry another field itself (C06), but what it holds can
        for (vi, v) in cores(t.def()).into_iter().enumerate() {
            jobs.push(job(format!("{}/inject{}", t.name(), vi), move |ctx: &mut Ctx| {
                let pay = payloads(tier);
                let mut many = 0usize;
                nodes(t.def(), &v, &mut |_, _, _| many += 1);
                let mut node = 0usize;
                nodes(t.def(), &v, &mut |d, x, put| {
                    node += 1;
                    if d.union || ctx.stopped() {
                        return;
                    }
                    let Val::St(fs) = x else { panic!("harness: struct") };
                    // every payload at every gap; in values with many nodes, ids rotate instead of multiplying
                    for gap in 0..=fs.len() {
                        for (pi, p) in pay.iter().enumerate() {
                            for (ii, id) in unused_ids(d).into_iter().enumerate() {
                                if tier == Tier::Quick && many > 6 && (pi + gap + node + ii) % 4 != 0 {
                                    continue;
                                }
                                let mut g = fs.clone();
                                g.insert(gap, (id, p.clone()));
                                let b = enc(&put(Val::St(g)));
                                ctx.case(|| format!("{} node {} gap {} unknown field {} = {} into {}", t.name(), node, gap, id, p.brief(), v.brief()), |c| {
                                    c.key(&(t.name(), &b));
                                    visit(&(t.name(), node, gap, p));
                                    reads_as(t, &b, &[0x15], &v, c)
                                });
                            }
                        }
                    }
                    // several at once, in every gap
                    for a in 0..pay.len() {
                        let q = &pay[(a * 7 + 3) % pay.len()];
                        let ids = unused_ids(d);
                        let mut g = vec![(ids[a % ids.len()], pay[a].clone())];
                        for f in fs {
                            g.push((ids[(a + 1) % ids.len()], q.clone()));
                            g.push(f.clone());
                            g.push((ids[(a + 2) % ids.len()], pay[a].clone()));
                        }
                        let b = enc(&put(Val::St(g)));
                        ctx.case(|| format!("{} node {} unknown fields everywhere: {} and {}", t.name(), node, pay[a].brief(), q.brief()), |c| {
                            c.key(&(t.name(), &b));
                            visit(&(t.name(), node, a));
                            reads_as(t, &b, &[], &v, c)
                        });
                    }
                });
            }));
        }
        jobs.push(job(format!("{}/crowds", t.name()), move |ctx: &mut Ctx| {
            if t.def().union {
                return;
            }
            let v = build(t.def(), 1, false);
            for b in unknown_crowds(t.def(), tier) {
                ctx.case(|| format!("{} behind many unknown fields: [{}]", t.name(), hex(&b)), |c| {
                    c.key(&(t.name(), &b));
                    visit(&(t.name(), &b));
                    reads_as(t, &b, &[0x15; 70], &v, c)
                });
            }
        }));
        jobs.push(job(format!("{}/large", t.name()), move |ctx: &mut Ctx| {
            let pay = big_payloads(tier);
            let mut vals = vec![build(t.def(), 1, false), build(t.def(), 2, true)];
            vals.dedup();
            for (vi, v) in vals.iter().enumerate() {
                nodes(t.def(), v, &mut |d, x, put| {
                    let Val::St(fs) = x else { panic!("harness") };
                    if d.union {
                        return;
                    }
                    for (pi, p) in pay.iter().enumerate() {
                        if vi == 1 && pi % tier.pick(8, 1) != fs.len() % tier.pick(8, 1) || ctx.stopped() {
                            continue;
                        }
                        let gap = (pi * 3) % (fs.len() + 1);
                        let mut g = fs.clone();
                        g.insert(gap, (unused_ids(d)[0], p.clone()));
                        let b = enc(&put(Val::St(g)));
                        ctx.case(|| format!("{} with a large unknown field at gap {} of {}: {}", t.name(), gap, d.name, p.brief()), |c| {
                            c.key(&(t.name(), &b));
                            visit(&(t.name(), gap, p));
                            reads_as(t, &b, &[0x15; 70], v, c)
                        });
                    }
                });
            }
        }));
        // every pair of payloads in a small value
        jobs.push(job(format!("{}/pairs", t.name()), move |ctx: &mut Ctx| {
            if t.def().union {
                return;
            }
            let v = build(t.def(), 1, false);
            let Val::St(fs) = &v else { panic!("harness") };
            let all = payloads(Tier::Quick);
            let pay: Vec<&Val> = all.iter().step_by(tier.pick(4, 1)).collect();
            let ids = unused_ids(t.def());
            for a in &pay {
                for b in &pay {
                    for (ga, gb) in [(0, 0), (0, fs.len()), (fs.len(), fs.len())] {
                        let mut g = fs.clone();
                        g.insert(gb, (ids[1], (*b).clone()));
                        g.insert(ga, (ids[0], (*a).clone()));
                        let bytes = enc(&Val::St(g));
                        ctx.case(|| format!("{} with {} then {}", t.name(), a.brief(), b.brief()), |c| {
                            c.key(&(t.name(), &bytes));
                            visit(&(t.name(), a, b));
                            reads_as(t, &bytes, &[], &v, c)
                        });
                    }
                }
            }
        }));
    }
    jobs
}

// ---------------------------------------------------------------- C06

fn accepts(t: &dyn Ty, v: &Val, want: bool, c: &mut Case) -> Result<(), String> {
    let b = enc(v);
    c.key(&(t.name(), &b));
    visit(&(t.name(), &b));
    let expect = match decode(t.def(), &b) {
        Verdict::Legal(x, ..) => Some(x),
        _ => None,
    };
    if expect.is_some() != want {
        panic!("harness: reference decoder disagrees about {}", v.brief());
    }
    for s in SIDES {
        let (r, _) = read(t, &b, usize::MAX, s);
        c.ran(1);
        match (&expect, &r) {
            (Some(x), Ok(y)) => ensure!(x == y, "{:?} reader gave {}", s, y.brief()),
            (None, Err(_)) => {}
            (Some(_), Err(e)) => return Err(format!("{:?} reader refused [{}]: {:?}", s, hex(&b), e)),
            (None, Ok(y)) => return Err(format!("{:?} reader accepted [{}] as {}", s, hex(&b), y.brief())),
        }
    }
    Ok(())
}
fn union_seqs(d: &'static Def, len: usize, out: &mut dyn FnMut(Val, bool)) {
    let mut alph: Vec<(i16, Val, bool)> = d.fields.iter().enumerate().map(|(i, f)| (f.id, filler(&f.kind, i, false), true)).collect();
    let ids = unused_ids(d);
    alph.push((ids[0], Val::I32(3), false));
    alph.push((ids[1], Val::St(vec![]), false));
    alph.push((-1, Val::Bool(true), false));
    fn rec(alph: &[(i16, Val, bool)], left: usize, cur: &mut Vec<(i16, Val)>, known: usize, out: &mut dyn FnMut(Val, bool)) {
        out(Val::St(cur.clone()), cur.len() == 1 && known == 1);
        if left == 0 {
            return;
        }
        for (id, v, k) in alph {
            cur.push((*id, v.clone()));
            rec(alph, left - 1, cur, known + *k as usize, out);
            cur.pop();
        }
    }
    rec(&alph, len, &mut vec![], 0, out);
}
fn c06(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    for t in big_first() {
        let d = t.def();
        if !d.union {
            for full in [false, true] {
                jobs.push(job(format!("{}/subsets{}", t.name(), full as u8), move |ctx: &mut Ctx| {
                    for mask in 0..1u32 << d.fields.len() {
                        if ctx.stopped() {
                            return;
                        }
                        let mut ok = true;
                        let mut fs = vec![];
                        for (i, f) in d.fields.iter().enumerate() {
                            if mask >> i & 1 == 1 {
                                fs.push((f.id, filler(&f.kind, i + 2, full)));
                            } else {
                                ok &= !f.req;
                            }
                        }
                        let v = Val::St(fs);
                        ctx.case(|| format!("{} with fields {:b}: {}", t.name(), mask, v.brief()), |c| accepts(t, &v, ok, c));
                    }
                }));
            }
        }
        jobs.push(job(format!("{}/nested", t.name()), move |ctx: &mut Ctx| {
            for v in cores(d) {
                let mut node = 0;
                nodes(d, &v, &mut |e, x, put| {
                    node += 1;
                    if node == 1 && !d.union || ctx.stopped() {
                        return;
                    }
                    if e.union {
                        union_seqs(e, if node == 1 { tier.pick(3, 4) } else { tier.pick(2, 3) }, &mut |u, ok| {
                            let r = put(u.clone());
                            ctx.case(|| format!("{} with the union {} at node {} = {}", t.name(), e.name, node, u.brief()), |c| accepts(t, &r, ok, c));
                        });
                        return;
                    }
                    let Val::St(fs) = x else { panic!("harness") };
                    // every subset of small nodes, singles and pairs of large ones
                    let n = fs.len();
                    for mask in 1..1u32 << n {
                        if n > tier.pick(6, 10) && mask.count_ones() > 2 {
                            continue;
                        }
                        let ok = !fs.iter().enumerate().any(|(i, f)| mask >> i & 1 == 1 && e.get(f.0).unwrap().req);
                        let g: Vec<(i16, Val)> = fs.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 0).map(|x| x.1.clone()).collect();
                        let r = put(Val::St(g));
                        ctx.case(|| format!("{} without {:b} of {} at node {}", t.name(), mask, e.name, node), |c| accepts(t, &r, ok, c));
                    }
                });
            }
        }));
    }
    jobs
}

// ---------------------------------------------------------------- C10

fn limits(cost: usize, max: usize) -> Vec<usize> {
    if cost + 3 <= max {
        return (0..=cost + 3).collect();
    }
    let mut v: Vec<usize> = (0..max / 2).collect();
    v.extend(cost - max / 2..=cost + 3);
    v
}
/// Limits nothing here exceeds, on both sides of every width a counter may have (the inputs stay below 2^30).
const AMPLE: [usize; 14] = [(1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 33) + 5, 1 << 40, 1 << 60, 1 << 61, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, usize::MAX - 1, usize::MAX];
fn c10(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    fn sweep(ctx: &mut Ctx, t: &'static dyn Ty, b: &[u8], max: usize) {
        let Verdict::Legal(v, _, cost) = decode(t.def(), b) else { panic!("harness: legal") };
        for l in limits(cost, max).into_iter().chain(AMPLE) {
            if ctx.stopped() {
                return;
            }
            ctx.case(|| format!("{} limit {} of {} bytes needed: [{}]", t.name(), l, cost, hex(b)), |c| {
                c.key(&(t.name(), b, l));
                visit(&(t.name(), b, l >= cost));
                for s in SIDES {
                    let (r, _) = read(t, b, l, s);
                    c.ran(1);
                    if l >= cost {
                        ensure!(r.as_ref() == Ok(&v), "the {:?} read needs {} bytes but with a limit of {} gave {}", s, cost, l, brief_r(&r));
                    } else {
                        ensure!(r == Err(LIMIT), "the {:?} read needs {} bytes but with a limit of {} gave {}", s, cost, l, brief_r(&r));
                    }
                }
                Ok(())
            });
        }
    }
    let max = tier.pick(700, 6000);
    for t in big_first() {
        jobs.push(job(format!("{}/values", t.name()), move |ctx: &mut Ctx| {
            let mut vals = cores(t.def());
            few_all(t.def(), &mut |v| vals.push(v));
            vals.retain(|v| matches!(decode(t.def(), &enc(v)), Verdict::Legal(..)));
            for v in &vals {
                sweep(ctx, t, &enc(v), max);
                sweep(ctx, t, &enc_form(v, &mut Form::with(&[], 2)), max);
            }
        }));
        // the limit covers a long stream of values as well as one
        jobs.push(job(format!("{}/many", t.name()), move |ctx: &mut Ctx| {
            let v = build(t.def(), 1, false);
            let (one, cost) = (enc(&v), v.cost());
            for n in tier.pick(vec![3usize, 17, 65, 129, 257, 1025], vec![3, 4, 5, 9, 17, 33, 65, 129, 257, 513, 1025, 4097, 33000]) {
                let b = one.repeat(n);
                let all = cost * n;
                for l in [all, all - 1, all + 1, all - cost, all - cost - 1, all / 2, cost, 0] {
                    ctx.case(|| format!("{} {} times under one limit of {} ({} needed)", t.name(), n, l, all), |c| {
                        c.key(&(t.name(), n, l));
                        visit(&(t.name(), n, l));
                        c.ran(2);
                        let whole = if cost == 0 { n } else { (l / cost).min(n) };
                        let mut got = 0;
                        let (r, _) = with_in(&b, l, PLAIN, |p| {
                            for _ in 0..n {
                                t.read_only(p)?;
                                got += 1;
                            }
                            Ok(())
                        });
                        let want = if whole == n { Ok(()) } else { Err(LIMIT) };
                        ensure!(r == want && got == whole, "sync gave {:?} after {} values, {} fit", r, got, whole);
                        let mut got = 0;
                        let (r, _) = with_sin(&b, l, PLAIN, |p| {
                            for _ in 0..n {
                                t.sread_only(p)?;
                                got += 1;
                            }
                            Ok(())
                        });
                        ensure!(r == want && got == whole, "async gave {:?} after {} values, {} fit", r, got, whole);
                        Ok(())
                    });
                }
            }
        }));
        jobs.push(job(format!("{}/unknown", t.name()), move |ctx: &mut Ctx| {
            let v = build(t.def(), 1, false);
            let pay = payloads(tier);
            nodes(t.def(), &v, &mut |d, x, put| {
                let Val::St(fs) = x else { panic!("harness") };
                if d.union {
                    return;
                }
                for gap in [0, fs.len()] {
                    for p in &pay {
                        let mut g = fs.clone();
                        g.insert(gap, (unused_ids(d)[0], p.clone()));
                        sweep(ctx, t, &enc(&put(Val::St(g))), tier.pick(200, 2000));
                    }
                }
            });
        }));
        jobs.push(job(format!("{}/sizes", t.name()), move |ctx: &mut Ctx| {
            sizes(t.def(), &big_lens(tier), &mut |v| {
                let b = enc(&v);
                sweep(ctx, t, &b, 8);
            });
            crowds(t.def(), tier, &mut |v| {
                sweep(ctx, t, &enc(&v), 4);
            });
            if t.def().union {
                return;
            }
            for p in big_payloads(tier) {
                let Val::St(mut g) = build(t.def(), 1, false) else { panic!("harness") };
                g.push((120, p));
                sweep(ctx, t, &enc(&Val::St(g)), 8);
            }
        }));
        // one limit for everything read through the protocol
        jobs.push(job(format!("{}/shared", t.name()), move |ctx: &mut Ctx| {
            for u in [TYPES[0], TYPES[8], TYPES[33], t] {
                let (a, b) = (build(t.def(), 1, true), build(u.def(), 2, true));
                let bytes = [enc(&a), enc(&b)].concat();
                let (ca, cb) = (a.cost(), b.cost());
                for l in limits(ca + cb, max) {
                    ctx.case(|| format!("{} then {} under one limit of {} ({} + {} needed)", t.name(), u.name(), l, ca, cb), |c| {
                        c.key(&(t.name(), u.name(), l));
                        visit(&(t.name(), u.name(), l));
                        c.ran(2);
                        let want = if l >= ca + cb { Ok(()) } else { Err(LIMIT) };
                        let (r, _) = with_in(&bytes, l, PLAIN, |p| {
                            t.read_only(p)?;
                            u.read_only(p)
                        });
                        ensure!(r == want, "sync gave {:?}", r);
                        let (r, _) = with_sin(&bytes, l, PLAIN, |p| {
                            t.sread_only(p)?;
                            u.sread_only(p)
                        });
                        ensure!(r == want, "async gave {:?}", r);
                        Ok(())
                    });
                }
            }
        }));
    }
    for w in WTS {
        jobs.push(job(format!("{:?}/low-level", w), move |ctx: &mut Ctx| {
            let mut vals = leaf_all(w, Tier::Quick);
            vals.extend(nested(tier.pick(2, 3)).into_iter().filter(|v| v.wt() == w));
            for v in vals {
                let (b, cost) = (enc(&v), v.cost());
                let deep = v.levels() > 64;
                for l in limits(cost, max) {
                    ctx.case(|| format!("low-level limit {} of {}: {}", l, cost, v.brief()), |c| {
                        c.key(&(&b, l));
                        visit(&(w, &b, l));
                        for s in SIDES {
                            for g in [Prog::Any(w), Prog::Skip(w)] {
                                if deep && g == Prog::Skip(w) {
                                    continue;
                                }
                                c.ran(1);
                                let (r, _) = low::run(g, &b, l, s, PLAIN);
                                if l >= cost {
                                    ensure!(r.is_ok(), "{:?} {:?} gave {}", s, g, brief_r(&r));
                                } else {
                                    ensure!(r == Err(LIMIT), "{:?} {:?} gave {}", s, g, brief_r(&r));
                                }
                            }
                        }
                        Ok(())
                    });
                }
            }
        }));
    }
    jobs.push(job("messages", move |ctx: &mut Ctx| {
        for n in [0usize, 1, 5, 127, 128, 300].into_iter().chain(big_lens(tier)) {
            let m = Msg { name: text(n, 1), ty: n % 4, seq: 77 };
            for l in if n <= 300 { 0..n + 3 } else { n - 3..n + 3 } {
                for s in SIDES {
                    ctx.case(|| format!("{:?} message name of {} limit {}", s, n, l), |c| {
                        c.key(&(n, l, s));
                        visit(&(n, l));
                        c.ran(1);
                        let (r, _) = low::run(Prog::Msg, &m.enc(), l, s, PLAIN);
                        ensure!(if l >= n { r == Ok(m.val()) } else { r == Err(LIMIT) }, "gave {}", brief_r(&r));
                        Ok(())
                    });
                }
            }
        }
    }));
    jobs
}

// ---------------------------------------------------------------- C11

/// Bytes one element takes in a list of them.
fn heap_size(k: &Kind) -> usize {
    match k {
        Kind::Bool | Kind::I8 => 1,
        Kind::I16 => 2,
        Kind::I32 | Kind::Enum(_) => 4,
        Kind::I64 => 8,
        Kind::Str | Kind::Bin | Kind::List(_) => 24,
        Kind::St(d) => TYPES.iter().find(|t| t.name() == d.name).map(|t| t.size()).expect("harness: type"),
    }
}
/// Largest size of one list element reachable from the type.
fn elem_size(d: &'static Def) -> usize {
    let mut m = 8;
    for f in &d.fields {
        let mut k = &f.kind;
        loop {
            match k {
                Kind::List(e) => {
                    m = m.max(heap_size(e));
                    k = e;
                }
                Kind::St(e) => {
                    m = m.max(elem_size(e));
                    break;
                }
                _ => break,
            }
        }
    }
    m
}
const SLACK: usize = 64 << 10;
/// Bytes of heap per byte of limit: four times what one exactly sized allocation of the largest element takes.
pub fn factor(d: &'static Def) -> usize {
    4 * (elem_size(d) / 8 + 1)
}
fn c11(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    for t in big_first() {
        for part in 0..2 {
            jobs.push(job(format!("{}/declared{}", t.name(), part), move |ctx: &mut Ctx| {
                let k = factor(t.def());
                let mut inputs = bombs(t.def(), tier);
                if part == 1 {
                    // the same bombs behind a legal beginning: inside every structure node, at every gap
                    inputs = vec![];
                    let v = build(t.def(), 2, true);
                    let small = bombs_at();
                    nodes(t.def(), &v, &mut |d, x, put| {
                        let Val::St(fs) = x else { panic!("harness") };
                        // a marker field whose bytes are replaced by the bomb
                        const MARK: [u8; 8] = [0x9a, 0x5b, 0xc7, 0x13, 0xf9, 0x66, 0xe1, 0x4d];
                        let mut at: Vec<(i16, Wt)> = vec![(101, Wt::Bin), (101, Wt::List), (101, Wt::Set), (101, Wt::Map)];
                        at.extend(d.fields.iter().filter(|f| matches!(f.kind.wt(), Wt::Bin | Wt::List)).map(|f| (f.id, f.kind.wt())));
                        for (id, w) in at {
                            let mut g: Vec<(i16, Val)> = fs.iter().filter(|f| f.0 != id).cloned().collect();
                            g.insert(g.len().min(2), (id, Val::Dbl(u64::from_le_bytes(MARK))));
                            let b = enc(&put(Val::St(g)));
                            let Some(p) = b.windows(8).position(|x| x == MARK) else { continue };
                            // the header before the marker carries the type: patch it (short or explicit id form)
                            for (bw, bytes) in &small {
                                if *bw != w {
                                    continue;
                                }
                                let mut h = b[..p].to_vec();
                                let n = zz(id as i64);
                                let idlen = leb(n, 0).len();
                                let short = h[p - 1] & 15 == 7 && h[p - 1] >> 4 != 0;
                                let at = if short { p - 1 } else { p - 1 - idlen };
                                h[at] = h[at] & 0xf0 | w.nib();
                                h.extend(bytes);
                                inputs.push(h);
                            }
                        }
                    });
                }
                let lims: &[usize] = tier.pick(&[0, 100, 5000, 1 << 16, 1 << 20], &[0, 9, 100, 1000, 5000, 8192, 1 << 16, 1 << 18, 1 << 20, 1 << 22]);
                for b in &inputs {
                    for &l in lims {
                        for s in SIDES {
                            if ctx.stopped() {
                                return;
                            }
                            ctx.case(|| format!("{:?} {} limit {} [{}]", s, t.name(), l, hex(b)), |c| {
                                c.key(&(t.name(), b, l, s));
                                visit(&(t.name(), b, l));
                                c.ran(1);
                                let (_, u) = alloc::measure(alloc::DEFAULT_CAP, || match s {
                                    Side::Async => with_sin(b, l, PLAIN, |p| t.sread_only(p)).0,
                                    _ => with_in(b, l, PLAIN, |p| t.read_only(p)).0,
                                });
                                let bound = k * l + SLACK + nest_slack(b);
                                ensure!(u.peak <= bound && u.largest <= bound, "held {} bytes and requested {} at once under a limit of {} (allowed {} x limit + {})", u.peak, u.largest, l, k, SLACK);
                                Ok(())
                            });
                        }
                    }
                    // allocation refused: an error, not an abort
                    for s in SIDES {
                        const CAP: usize = 40 << 10;
                        ctx.case(|| format!("{:?} {} allocations above {} refused [{}]", s, t.name(), CAP, hex(b)), |c| {
                            if nest_slack(b) > 0 {
                                return Ok(());
                            }
                            c.key(&(t.name(), b, s));
                            visit(&(t.name(), b));
                            c.ran(1);
                            let (r, u) = alloc::measure(CAP, || match s {
                                Side::Async => with_sin(b, usize::MAX, PLAIN, |p| t.sread_only(p)).0,
                                _ => with_in(b, usize::MAX, PLAIN, |p| t.read_only(p)).0,
                            });
                            ensure!(u.refused == 0 || r.is_err(), "an allocation was refused and the read still succeeded");
                            Ok(())
                        });
                    }
                }
            }));
        }
    }
    for t in big_first() {
        jobs.push(job(format!("{}/present", t.name()), move |ctx: &mut Ctx| {
            let k = factor(t.def());
            let mut inputs: Vec<(Vec<u8>, usize)> = vec![];
            sizes(t.def(), &big_lens(tier).into_iter().filter(|n| *n > 4000).collect::<Vec<_>>(), &mut |v| inputs.push((enc(&v), v.cost())));
            if !t.def().union {
                for p in big_payloads(tier) {
                    let Val::St(mut g) = build(t.def(), 1, false) else { panic!("harness") };
                    g.push((120, p));
                    let v = Val::St(g);
                    inputs.push((enc(&v), v.cost()));
                }
            }
            for (b, cost) in &inputs {
                for l in [*cost, cost - 1, cost / 2, 100, 0] {
                    for s in SIDES {
                        if ctx.stopped() {
                            return;
                        }
                        ctx.case(|| format!("{:?} {} limit {} [{}]", s, t.name(), l, hex(b)), |c| {
                            c.key(&(t.name(), b, l, s));
                            visit(&(t.name(), b, l));
                            c.ran(1);
                            let (_, u) = alloc::measure(alloc::DEFAULT_CAP, || match s {
                                Side::Async => with_sin(b, l, PLAIN, |p| t.sread_only(p)).0,
                                _ => with_in(b, l, PLAIN, |p| t.read_only(p)).0,
                            });
                            let bound = k * l + SLACK;
                            ensure!(u.peak <= bound && u.largest <= bound, "held {} bytes and requested {} at once under a limit of {} (allowed {} x limit + {})", u.peak, u.largest, l, k, SLACK);
                            Ok(())
                        });
                    }
                }
            }
        }));
    }
    // exactly the memory for one declared size is not available: an error, not an abort, however small the size
    let lens: &'static [usize] = tier.pick(&[9, 61, 253, 1021, 2039, 4093, 8191], &[9, 13, 29, 61, 125, 253, 509, 1021, 1533, 2039, 3001, 4093, 6007, 8191, 10007, 16381, 32749, 65521, 131_071, 1_000_003]);
    for t in big_first() {
        jobs.push(job(format!("{}/withheld", t.name()), move |ctx: &mut Ctx| {
            for f in &t.def().fields {
                let put = |x: Val| {
                    let base = if t.def().union { Val::St(vec![]) } else { build(t.def(), 1, false) };
                    let mut v = base;
                    v.set_field(f.id, Some(x));
                    enc(&v)
                };
                let (unit, mk): (usize, Box<dyn Fn(usize) -> Val>) = match &f.kind {
                    Kind::Str => (1, Box::new(|n| Val::Bin(text(n, n)))),
                    Kind::Bin => (1, Box::new(|n| Val::Bin(pattern(n, n)))),
                    Kind::List(k) => (heap_size(k), Box::new(move |n| Val::List(k.wt(), (0..n).map(|_| filler(k, 0, false)).collect()))),
                    _ => continue,
                };
                for &n in lens {
                    if unit > 1 && n > 10_000 || n * unit < 9 {
                        continue;
                    }
                    // the fewest elements with the same form of header
                    let (b, other, one) = (put(mk(n)), put(mk(n - 3)), put(mk(if n < 15 { 1 } else { 15 })));
                    for s in SIDES {
                        if ctx.stopped() {
                            return;
                        }
                        let run = |b: &[u8]| match s {
                            Side::Async => with_sin(b, usize::MAX, PLAIN, |p| t.sread_only(p)).0,
                            _ => with_in(b, usize::MAX, PLAIN, |p| t.read_only(p)).0,
                        };
                        let (lo, hi) = (n * unit, n * unit + unit - 1);
                        ctx.case(|| format!("{:?} {} requests of {}..={} bytes refused, declared {} in field {} [{}]", s, t.name(), lo, hi, n, f.id, hex(&b)), |c| {
                            // a request of this size that has nothing to do with the declared one
                            if alloc::band(lo, hi, false, || run(&other)).1.refused > 0 {
                                return Ok(());
                            }
                            for cut in [b.len(), b.len() - 1, b.len() - (n * unit).min(b.len() / 2)] {
                                c.key(&(t.name(), &b[..cut], s));
                                visit(&(t.name(), &b[..cut]));
                                c.ran(1);
                                let (r, u) = alloc::band(lo, hi, true, || run(&b[..cut]));
                                ensure!(r.is_err() || u.refused == 0 && cut == b.len(), "the memory for the declared {} was refused {} times and the read gave Ok", n, u.refused);
                            }
                            // memory for what is declared is available, and no more (small requests are also the futures' own)
                            if n * unit < 1000 {
                                return Ok(());
                            }
                            let most = alloc::measure(alloc::DEFAULT_CAP, || run(&one)).1.largest.max(n * unit);
                            c.ran(1);
                            let (r, u) = alloc::measure(most, || run(&b));
                            ensure!(r.is_ok() || u.refused > 0, "gave {:?} although nothing was refused", r);
                            Ok(())
                        });
                    }
                }
            }
        }));
    }
    jobs.push(job("low-level/withheld", move |ctx: &mut Ctx| {
        type Run = Box<dyn Fn(&[u8]) -> Result<(), EK>>;
        let head = |h: &[u8], n: usize| [h.to_vec(), leb(n as u64, 0), text(n, n)].concat();
        let list = |nib: u8, n: usize, e: &[u8]| {
            let h = if n < 15 { vec![(n as u8) << 4 | nib] } else { [vec![0xf0 | nib], leb(n as u64, 0)].concat() };
            [h, e.repeat(n)].concat()
        };
        let all = usize::MAX;
        let progs: Vec<(&str, usize, Box<dyn Fn(usize) -> Vec<u8>>, Run)> = vec![
            ("sync read_bytes", 1, Box::new(move |n| head(&[], n)), Box::new(move |b| with_in(b, all, PLAIN, |p| p.read_bytes().map(drop)).0)),
            ("sync read_string", 1, Box::new(move |n| head(&[], n)), Box::new(move |b| with_in(b, all, PLAIN, |p| p.read_string().map(drop)).0)),
            ("sync message name", 1, Box::new(move |n| head(&[0x82, 0x21, 0x05], n)), Box::new(move |b| with_in(b, all, PLAIN, |p| p.read_message_begin().map(drop)).0)),
            ("sync application error", 1, Box::new(move |n| [head(&[0x18], n), vec![0]].concat()), Box::new(move |b| with_in(b, all, PLAIN, |p| thrift::Error::read_application_error_from_in_protocol(p).map(drop)).0)),
            ("sync skip", 1, Box::new(move |n| head(&[], n)), Box::new(move |b| with_in(b, all, PLAIN, |p| p.skip(TType::String)).0)),
            ("sync list of i64", 8, Box::new(move |n| list(6, n, &[2])), Box::new(move |b| with_in(b, all, PLAIN, |p| p.read_list::<i64>().map(drop)).0)),
            ("sync list of u8", 1, Box::new(move |n| list(3, n, &[2])), Box::new(move |b| with_in(b, all, PLAIN, |p| p.read_list::<u8>().map(drop)).0)),
            ("sync list of strings", 24, Box::new(move |n| list(8, n, &[0])), Box::new(move |b| with_in(b, all, PLAIN, |p| p.read_list::<String>().map(drop)).0)),
            ("async read_bytes", 1, Box::new(move |n| head(&[], n)), Box::new(move |b| with_sin(b, all, PLAIN, |p| crate::env::block_on(p.read_bytes()).map(drop)).0)),
            ("async read_string", 1, Box::new(move |n| head(&[], n)), Box::new(move |b| with_sin(b, all, PLAIN, |p| crate::env::block_on(p.read_string()).map(drop)).0)),
            ("async message name", 1, Box::new(move |n| head(&[0x82, 0x21, 0x05], n)), Box::new(move |b| with_sin(b, all, PLAIN, |p| crate::env::block_on(p.read_message_begin()).map(drop)).0)),
            ("async skip", 1, Box::new(move |n| head(&[], n)), Box::new(move |b| with_sin(b, all, PLAIN, |p| crate::env::block_on(p.skip(TType::String))).0)),
            ("async list of i64", 8, Box::new(move |n| list(6, n, &[2])), Box::new(move |b| with_sin(b, all, PLAIN, |p| crate::env::block_on(p.read_list::<i64>()).map(drop)).0)),
            ("async list of u8", 1, Box::new(move |n| list(3, n, &[2])), Box::new(move |b| with_sin(b, all, PLAIN, |p| crate::env::block_on(p.read_list::<u8>()).map(drop)).0)),
            ("async list of strings", 24, Box::new(move |n| list(8, n, &[0])), Box::new(move |b| with_sin(b, all, PLAIN, |p| crate::env::block_on(p.read_list::<String>()).map(drop)).0)),
        ];
        for (name, unit, mk, run) in &progs {
            for &n in lens {
                if n * unit < 9 {
                    continue;
                }
                let (b, other, one) = (mk(n), mk(n - 3), mk(if n < 15 { 1 } else { 15 }));
                let (lo, hi) = (n * unit, n * unit + unit - 1);
                ctx.case(|| format!("{} with requests of {}..={} bytes refused, declared {}", name, lo, hi, n), |c| {
                    if alloc::band(lo, hi, false, || run(&other)).1.refused > 0 {
                        return Ok(());
                    }
                    for cut in [b.len(), b.len() - 1, b.len() - n.min(b.len() / 2)] {
                        c.key(&(name, &b[..cut]));
                        visit(&(name, &b[..cut]));
                        c.ran(1);
                        let (r, u) = alloc::band(lo, hi, true, || run(&b[..cut]));
                        ensure!(r.is_err() || u.refused == 0 && cut == b.len(), "the memory for the declared {} was refused {} times and the read gave Ok", n, u.refused);
                    }
                    if n * unit < 1000 {
                        return Ok(());
                    }
                    let most = alloc::measure(alloc::DEFAULT_CAP, || run(&one)).1.largest.max(n * unit);
                    c.ran(1);
                    let (r, u) = alloc::measure(most, || run(&b));
                    ensure!(r.is_ok() || u.refused > 0, "gave {:?} although nothing was refused", r);
                    Ok(())
                });
            }
        }
    }));
    for g in Prog::all() {
        if !matches!(g, Prog::Skip(_) | Prog::ListOf(_) | Prog::Text | Prog::Any(_) | Prog::Msg | Prog::AppErr | Prog::ListHdr | Prog::SetHdr | Prog::MapHdr) {
            continue;
        }
        jobs.push(job(format!("{:?}/declared", g), move |ctx: &mut Ctx| {
            for (w, bytes) in bombs_at() {
                let mut heads: Vec<Vec<u8>> = vec![vec![]];
                match g {
                    Prog::Skip(x) | Prog::Any(x) if x != w => continue,
                    Prog::Any(w) if w != Wt::Bin => continue, // would loop in the harness
                    Prog::Msg => heads = vec![vec![0x82, 0x21, 0x05]],
                    Prog::AppErr => heads = vec![vec![0x18], vec![w.nib(), 0xc8, 0x01]],
                    _ => {}
                }
                for h in heads {
                    let b = [h, bytes.clone()].concat();
                    for l in [0usize, 100, 5000, 1 << 16, 1 << 20] {
                        for s in SIDES {
                            if s.is_async() && !g.async_too() {
                                continue;
                            }
                            ctx.case(|| format!("{:?} {:?} limit {} [{}]", s, g, l, hex(&b)), |c| {
                                c.key(&(g, &b, l, s));
                                visit(&(g, &b, l));
                                c.ran(1);
                                let (_, u) = alloc::measure(alloc::DEFAULT_CAP, || low::run(g, &b, l, s, PLAIN).0.is_ok());
                                // the harness's own copy of the value is counted too
                                let bound = 100 * l + SLACK;
                                ensure!(u.peak <= bound && u.largest <= bound, "held {} bytes and requested {} at once under a limit of {}", u.peak, u.largest, l);
                                if !matches!(g, Prog::Any(_)) {
                                    let (r, u) = alloc::measure(40 << 10, || low::run(g, &b, usize::MAX, s, PLAIN).0.is_ok());
                                    ensure!(u.refused == 0 || !r || matches!(g, Prog::ListHdr | Prog::SetHdr | Prog::MapHdr), "an allocation was refused and the read still succeeded");
                                }
                                Ok(())
                            });
                        }
                    }
                }
            }
        }));
    }
    jobs
}
/// The stack of field ids grows with the nesting actually present in the input.
fn nest_slack(b: &[u8]) -> usize {
    if b.len() > 1000 {
        b.len() * 16
    } else {
        0
    }
}
/// (wire type, header of a value that declares far more than it brings)
fn bombs_at() -> Vec<(Wt, Vec<u8>)> {
    let mut v = vec![];
    for n in [100u64, 5000, 60_000, 70_000, 1 << 20, 1 << 24, 1 << 27, (1 << 28) - 1, 1 << 31, u32::MAX as u64] {
        let l = leb(n, 0);
        for tail in [0usize, 200] {
            let t = vec![1u8; tail];
            v.push((Wt::Bin, [&l[..], &t].concat()));
            for e in [1u8, 3, 5, 6, 8, 9, 10, 11, 12] {
                v.push((Wt::List, [&[0xf0 | e][..], &l, &t].concat()));
                v.push((Wt::Set, [&[0xf0 | e][..], &l, &t].concat()));
                v.push((Wt::Map, [&l[..], &[e << 4 | 8], &t].concat()));
                v.push((Wt::Map, [&l[..], &[0x80 | e], &t].concat()));
            }
        }
    }
    v
}

// ---------------------------------------------------------------- C12

fn c12(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    fn cuts(ctx: &mut Ctx, what: &str, b: &[u8], stride: usize, f: &dyn Fn(&[u8], Side) -> Result<Val, EK>, sides: &[Side]) {
        for n in (0..b.len()).step_by(stride) {
            cut(ctx, what, b, n, f, sides);
        }
    }
    fn cut(ctx: &mut Ctx, what: &str, b: &[u8], n: usize, f: &dyn Fn(&[u8], Side) -> Result<Val, EK>, sides: &[Side]) {
        for &s in sides {
            if ctx.stopped() {
                return;
            }
            ctx.case(|| format!("{:?} {} cut to {} of {} bytes: [{}]", s, what, n, b.len(), hex(&b[..n])), |c| {
                c.key(&(what, &b[..n], s));
                visit(&(what, &b[..n]));
                c.ran(1);
                let r = f(&b[..n], s);
                ensure!(r == Err(EOF), "gave {} instead of an end-of-file error", brief_r(&r));
                Ok(())
            });
        }
    }
    for t in big_first() {
        jobs.push(job(format!("{}/core", t.name()), move |ctx: &mut Ctx| {
            for v in cores(t.def()) {
                for base in 0..3 {
                    let b = enc_form(&v, &mut Form::with(&[], base));
                    cuts(ctx, t.name(), &b, 1, &|b, s| read(t, b, usize::MAX, s).0, &SIDES);
                }
            }
            let v = build(t.def(), 1, false);
            let Val::St(fs) = &v else { panic!("harness") };
            if !t.def().union {
                for p in payloads(tier) {
                    let mut g = fs.clone();
                    g.push((unused_ids(t.def())[0], p));
                    cuts(ctx, t.name(), &enc(&Val::St(g)), 1, &|b, s| read(t, b, usize::MAX, s).0, &SIDES);
                }
            }
        }));
        for fam in [0, 2, 3, 4] {
            jobs.push(job(format!("{}/values{}", t.name(), fam), move |ctx: &mut Ctx| {
                family(t.def(), fam, Tier::Quick, &mut |v| {
                    let b = enc(&v);
                    if b.len() <= tier.pick(60, 600) && !ctx.stopped() {
                        cuts(ctx, t.name(), &b, 1, &|b, s| read(t, b, usize::MAX, s).0, &SIDES);
                    }
                });
            }));
        }
    }
    for t in big_first() {
        jobs.push(job(format!("{}/sizes", t.name()), move |ctx: &mut Ctx| {
            sizes(t.def(), &big_lens(tier), &mut |v| {
                let b = enc(&v);
                for n in big_cuts(b.len()) {
                    cut(ctx, t.name(), &b, n, &|b, s| read(t, b, usize::MAX, s).0, &SIDES);
                }
            });
            crowds(t.def(), tier, &mut |v| {
                let b = enc(&v);
                for n in [b.len() - 1, b.len() - 2, b.len() / 2] {
                    cut(ctx, t.name(), &b, n, &|b, s| read(t, b, usize::MAX, s).0, &SIDES);
                }
            });
            if t.def().union {
                return;
            }
            for p in big_payloads(tier) {
                let Val::St(mut g) = build(t.def(), 1, false) else { panic!("harness") };
                g.push((120, p));
                let b = enc(&Val::St(g));
                for n in big_cuts(b.len()) {
                    cut(ctx, t.name(), &b, n, &|b, s| read(t, b, usize::MAX, s).0, &SIDES);
                }
            }
        }));
    }
    jobs.push(job("large low-level values", move |ctx: &mut Ctx| {
        big_low(&tier.pick(vec![257, 1025, 4097, 5000, 16385, 65537], big_lens(tier)), &mut |v| {
            let b = enc(&v);
            let w = v.wt();
            for n in big_cuts(b.len()) {
                cut(ctx, "read of a low-level value", &b, n, &|b, s| low::run(Prog::Any(w), b, usize::MAX, s, PLAIN).0, &SIDES);
                cut(ctx, "skip of a low-level value", &b, n, &|b, s| low::run(Prog::Skip(w), b, usize::MAX, s, PLAIN).0, &SIDES);
            }
        });
        for &n in &big_lens(tier) {
            let b = enc(&Val::Bin(text(n, 5)));
            for n in big_cuts(b.len()) {
                cut(ctx, "text", &b, n, &|b, s| low::run(Prog::Text, b, usize::MAX, s, PLAIN).0, &SIDES);
            }
            let m = Msg { name: text(n, 5), ty: 1, seq: 9 }.enc();
            for n in big_cuts(m.len()) {
                cut(ctx, "message", &m, n, &|b, s| low::run(Prog::Msg, b, usize::MAX, s, PLAIN).0, &SIDES);
            }
            let b = enc(&Val::St(vec![(1, Val::Bin(text(n, 1))), (2, Val::I32(5)), (7, Val::Bin(pattern(n, 1)))]));
            for n in big_cuts(b.len()) {
                cut(ctx, "application error", &b, n, &|b, s| low::run(Prog::AppErr, b, usize::MAX, s, PLAIN).0, &[Side::Sync]);
            }
        }
    }));
    for fam in [0, 1, 2, 3, 5, 6, 8] {
        jobs.push(job(format!("low-level{}", fam), move |ctx: &mut Ctx| {
            low_family(fam, tier, &mut |v| {
                let b = enc(&v);
                if b.len() > tier.pick(400, 3000) || ctx.stopped() {
                    return;
                }
                let w = v.wt();
                let stride = if b.len() < 150 { 1 } else { tier.pick(7, 1) };
                cuts(ctx, "read of a low-level value", &b, stride, &|b, s| low::run(Prog::Any(w), b, usize::MAX, s, PLAIN).0, &SIDES);
                if v.levels() <= 64 {
                    cuts(ctx, "skip of a low-level value", &b, stride, &|b, s| low::run(Prog::Skip(w), b, usize::MAX, s, PLAIN).0, &SIDES);
                }
            });
        }));
    }
    jobs.push(job("text, bytes and typed lists", move |ctx: &mut Ctx| {
        for n in bin_lens(tier).into_iter().filter(|n| *n < 2000) {
            let b = enc(&Val::Bin(text(n, 5)));
            cuts(ctx, "text", &b, 1, &|b, s| low::run(Prog::Text, b, usize::MAX, s, PLAIN).0, &SIDES);
            for k in 0..5u8 {
                let (w, item): (Wt, fn(usize) -> Val) = match k {
                    0 => (Wt::Bin, |i| Val::Bin(text(i % 20, i))),
                    1 => (Wt::Bool, |i| Val::Bool(i % 2 == 0)),
                    2 => (Wt::I8, |i| Val::I8(i as i8)),
                    3 => (Wt::I64, |i| Val::I64(i as i64 * 1000)),
                    _ => (Wt::Bin, |i| Val::Bin(pattern(i % 20, i))),
                };
                if n > 0 {
                    let b = enc(&Val::List(w, (0..n).map(item).collect()));
                    cuts(ctx, &format!("typed list {}", k), &b, 1, &|b, s| low::run(Prog::ListOf(k), b, usize::MAX, s, PLAIN).0, &SIDES);
                }
            }
        }
    }));
    jobs.push(job("messages", move |ctx: &mut Ctx| {
        for m in msgs(Tier::Quick).into_iter().filter(|m| m.name.len() <= tier.pick(16, 300)) {
            cuts(ctx, "message", &m.enc(), 1, &|b, s| low::run(Prog::Msg, b, usize::MAX, s, PLAIN).0, &SIDES);
        }
    }));
    jobs.push(job("application errors", move |ctx: &mut Ctx| {
        for n in bin_lens(tier).into_iter().filter(|n| *n < 2000) {
            for p in [vec![], vec![(3i16, Val::Bin(vec![0xff]))], vec![(-9, leaf(Wt::Map, 1)), (100, Val::Bool(true))]] {
                let mut f = vec![(1, Val::Bin(text(n, 1))), (2, Val::I32(5))];
                f.extend(p);
                let b = enc(&Val::St(f));
                cuts(ctx, "application error", &b, 1, &|b, s| low::run(Prog::AppErr, b, usize::MAX, s, PLAIN).0, &[Side::Sync]);
            }
        }
    }));
    jobs
}

// ---------------------------------------------------------------- C13

fn c13(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    fn judge(ctx: &mut Ctx, what: &str, v: &Val, depth: Option<i8>, run: &dyn Fn(&[u8], Side) -> (Result<Val, EK>, Seen), pre: &[u8], post: &[u8], sides: &[Side]) {
        let levels = v.levels() as i64;
        let allowed = depth.map(|d| d as i64).unwrap_or(64);
        let b = [pre, &enc(v), post].concat();
        for &s in sides {
            if ctx.stopped() {
                return;
            }
            ctx.case(|| format!("{:?} {} with {:?} on {} levels: {}", s, what, depth, levels, v.brief()), |c| {
                c.key(&(what, &b, depth, s));
                visit(&(&b, depth));
                c.ran(1);
                let (r, seen) = run(&b, s);
                if levels <= allowed {
                    ensure!(r.is_ok(), "{} levels fit in {} but it failed with {:?}", levels, allowed, r);
                    ensure!(seen.consumed == b.len(), "consumed {} of {}", seen.consumed, b.len());
                } else {
                    ensure!(r == Err(DEPTH), "{} levels do not fit in {} but it gave {}", levels, allowed, brief_r(&r));
                }
                Ok(())
            });
        }
    }
    fn ends() -> Vec<Val> {
        vec![Val::I32(1), Val::Bool(true), Val::Bin(vec![0xff]), Val::Dbl(3), Val::I64(-1), Val::St(vec![]), Val::List(Wt::St, vec![]), Val::Map(Wt::Bool, Wt::Bool, vec![])]
    }
    /// the chain as one of several children, so that depth is not a matter of the first child
    fn siblings(kind: usize, v: Val) -> Val {
        let w = v.wt();
        match kind {
            0 => Val::St(vec![(1, Val::I8(1)), (3, v), (4, Val::Bool(false))]),
            1 => Val::List(w, vec![zero(&v), v.clone(), zero(&v)]),
            2 => Val::Set(w, vec![zero(&v), v.clone()]),
            3 => Val::Map(w, Wt::I8, vec![(zero(&v), Val::I8(1)), (v.clone(), Val::I8(2))]),
            _ => Val::Map(Wt::I8, w, vec![(Val::I8(1), zero(&v)), (Val::I8(1), v.clone())]),
        }
    }
    fn zero(v: &Val) -> Val {
        match v {
            Val::List(w, _) => Val::List(*w, vec![]),
            Val::Set(w, _) => Val::Set(*w, vec![]),
            Val::Map(..) => Val::Map(Wt::Bool, Wt::Bool, vec![]),
            Val::St(_) => Val::St(vec![]),
            o => o.clone(),
        }
    }
    // every mixture of container kinds up to a length, every depth around it
    let n = tier.pick(4, 6);
    for first in 0..5usize {
        jobs.push(job(format!("mixtures{}", first), move |ctx: &mut Ctx| {
            for len in 0..=n {
                for code in 0..5usize.pow(len as u32) {
                    for e in ends() {
                        for wide in [false, true] {
                            let mut v = e.clone();
                            let mut c = code;
                            for _ in 0..len {
                                v = if wide { siblings(c % 5, v) } else { wrap(c % 5, v) };
                                c /= 5;
                            }
                            v = wrap(first, v);
                            let w = v.wt();
                            for d in -1..=(len as i8 + 3) {
                                judge(ctx, "skip_till_depth", &v, Some(d), &|b, s| low::run(Prog::SkipDepth(w, d), b, usize::MAX, s, PLAIN), &[], &[], &SIDES);
                            }
                        }
                    }
                }
            }
        }));
        // long chains with a period of two kinds, around the default and the largest limit
        jobs.push(job(format!("chains{}", first), move |ctx: &mut Ctx| {
            for second in 0..5usize {
                for e in ends() {
                    for len in [61usize, 62, 63, 64, 65, 66, 125, 126, 127, 128, 129] {
                        let mut v = e.clone();
                        for i in 0..len {
                            v = wrap(if i % 2 == 0 { first } else { second }, v);
                        }
                        let w = v.wt();
                        for d in [1i8, 61, 62, 63, 64, 65, 66, 67, 125, 126, 127] {
                            judge(ctx, "skip_till_depth", &v, Some(d), &|b, s| low::run(Prog::SkipDepth(w, d), b, usize::MAX, s, PLAIN), &[], &[], &SIDES);
                        }
                        judge(ctx, "skip", &v, None, &|b, s| low::run(Prog::Skip(w), b, usize::MAX, s, PLAIN), &[], &[], &SIDES);
                        // as an unknown field (explicit id 100) of structures and of an application error
                        let head = |w: Wt| [w.nib(), 0xc8, 0x01];
                        for t in [TYPES[1], TYPES[0], TYPES[46]] {
                            judge(ctx, t.name(), &v, None, &|b, s| read(t, b, usize::MAX, s), &head(w), &[0], &SIDES);
                        }
                        judge(ctx, "application error", &v, None, &|b, s| low::run(Prog::AppErr, b, usize::MAX, s, PLAIN), &head(w), &[0], &[Side::Sync]);
                    }
                }
            }
        }));
        jobs.push(job(format!("all depths{}", first), move |ctx: &mut Ctx| {
            for d in i8::MIN..=i8::MAX {
                for e in ends() {
                    let w = e.wt();
                    judge(ctx, "skip_till_depth", &e, Some(d), &|b, s| low::run(Prog::SkipDepth(w, d), b, usize::MAX, s, PLAIN), &[], &[], &SIDES);
                    for len in (d as i32 - 2).max(1)..=(d as i32 + 2).max(1) {
                        let v = chain(len as usize, first, e.clone());
                        let w = v.wt();
                        judge(ctx, "skip_till_depth", &v, Some(d), &|b, s| low::run(Prog::SkipDepth(w, d), b, usize::MAX, s, PLAIN), &[], &[], &SIDES);
                    }
                }
            }
        }));
    }
    // unknown fields inside every structure node of every type: the allowance starts anew at each
    for t in big_first() {
        jobs.push(job(format!("{}/nodes", t.name()), move |ctx: &mut Ctx| {
            let v = build(t.def(), 2, true);
            let mut node = 0;
            nodes(t.def(), &v, &mut |d, x, put| {
                node += 1;
                if d.union || ctx.stopped() {
                    return;
                }
                let Val::St(fs) = x else { panic!("harness") };
                for kind in 0..5 {
                    for len in [62usize, 63, 64, 65] {
                        let p = chain(len, kind, Val::I32(1));
                        for gap in [0, fs.len()] {
                            let mut g = fs.clone();
                            g.insert(gap, (101, p.clone()));
                            let b = enc(&put(Val::St(g)));
                            for s in SIDES {
                                ctx.case(|| format!("{:?} {} node {} gap {} unknown chain of {} (kind {})", s, t.name(), node, gap, len, kind), |c| {
                                    c.key(&(t.name(), &b, s));
                                    visit(&(t.name(), &b));
                                    c.ran(1);
                                    let (r, _) = read(t, &b, usize::MAX, s);
                                    if len + 1 <= 64 {
                                        ensure!(r.as_ref() == Ok(&v), "gave {}", brief_r(&r));
                                    } else {
                                        ensure!(r == Err(DEPTH), "gave {}", brief_r(&r));
                                    }
                                    Ok(())
                                });
                            }
                        }
                    }
                }
            });
        }));
    }
    jobs
}

// ---------------------------------------------------------------- C20

fn c20(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    for t in big_first() {
        jobs.push(job(format!("{}/sizes", t.name()), move |ctx: &mut Ctx| {
            let mut vals = vec![];
            sizes(t.def(), &big_lens(tier), &mut |v| vals.push((v.clone(), enc(&v))));
            crowds(t.def(), Tier::Quick, &mut |v| vals.push((v.clone(), enc(&v))));
            if !t.def().union {
                for b in unknown_crowds(t.def(), Tier::Quick) {
                    vals.push((build(t.def(), 1, false), b));
                }
                for p in big_payloads(tier) {
                    let v = build(t.def(), 1, false);
                    let mut g = v.clone();
                    g.set_field(120, Some(p));
                    vals.push((v, enc(&g)));
                }
            }
            for (v, b) in &vals {
                for tail in [&[0x00u8][..], &[0xff; 300], &[0x15; 70_000], b] {
                    for s in SIDES {
                        if ctx.stopped() {
                            return;
                        }
                        ctx.case(|| format!("{:?} {} followed by {} bytes: {}", s, t.name(), tail.len(), v.brief()), |c| {
                            c.key(&(t.name(), b, tail, s));
                            visit(&(t.name(), b, tail.len()));
                            c.ran(1);
                            let inp = [&b[..], tail].concat();
                            let (r, seen) = read(t, &inp, usize::MAX, s);
                            ensure!(r.as_ref() == Ok(v), "gave {}", brief_r(&r));
                            ensure!(seen.consumed == b.len() && seen.eof_hits == 0, "consumed {} bytes of {} and ran into the end {} times", seen.consumed, b.len(), seen.eof_hits);
                            Ok(())
                        });
                    }
                }
            }
        }));
        jobs.push(job(format!("{}/trailing", t.name()), move |ctx: &mut Ctx| {
            for v in cores(t.def()) {
                for base in [0, 2] {
                    let b = enc_form(&v, &mut Form::with(&[], base));
                    let mut tails: Vec<Vec<u8>> = (0..=255u8).map(|x| vec![x]).collect();
                    tails.extend([vec![], vec![0; 64], vec![0xff; 64], vec![0x15; 64], vec![0x1c; 64], b.clone()]);
                    for tail in tails {
                        for s in SIDES {
                            if ctx.stopped() {
                                return;
                            }
                            ctx.case(|| format!("{:?} {} followed by [{}]: {}", s, t.name(), hex(&tail), v.brief()), |c| {
                                c.key(&(t.name(), &b, &tail, s));
                                visit(&(t.name(), &b, &tail));
                                c.ran(1);
                                let inp = [&b[..], &tail].concat();
                                let (r, seen) = read(t, &inp, usize::MAX, s);
                                ensure!(r.as_ref() == Ok(&v), "gave {}", brief_r(&r));
                                ensure!(seen.consumed == b.len() && seen.eof_hits == 0, "consumed {} bytes of {} and ran into the end {} times", seen.consumed, b.len(), seen.eof_hits);
                                Ok(())
                            });
                        }
                    }
                }
            }
        }));
        // typed values as fields and elements of hand-made structures
        jobs.push(job(format!("{}/embedded", t.name()), move |ctx: &mut Ctx| {
            let ids = tier.pick(vec![1i16, 2, 16, 300, -7, 32767], crate::lowdom::ids(Tier::Quick));
            for v in cores(t.def()) {
                for u in TYPES.iter().copied().step_by(tier.pick(9, 1)) {
                    let x = build(u.def(), 2, false);
                    for &a in &ids {
                        for &b in &ids {
                            let z = Val::St(vec![(a, v.clone()), (b, Val::List(Wt::St, vec![x.clone(), v.clone()])), (a, Val::Bool(true)), (b, x.clone()), (9, Val::Bool(false))]);
                            for s in SIDES {
                                if ctx.stopped() {
                                    return;
                                }
                                ctx.case(|| format!("{:?} {} {} as field {} and {} {} as field {}", s, t.name(), v.brief(), a, u.name(), x.brief(), b), |c| {
                                    c.key(&(t.name(), u.name(), &z, s));
                                    c.ran(1);
                                    let (r, o) = embed_write(t, &v, u, &x, a, b, s);
                                    visit(&o.bytes);
                                    let d = decode_any(Wt::St, &o.bytes, 1000);
                                    ensure!(r.is_ok() && matches!(&d, Verdict::Legal(y, n, _) if *y == z && *n == o.bytes.len()), "written as [{}] ({:?}), which means {:?}", hex(&o.bytes), r, d);
                                    let inp = [&o.bytes[..], &[0x5c; 3]].concat();
                                    let (r, seen) = embed_read(t, u, &inp, s);
                                    match r {
                                        Ok((ids, vals)) => {
                                            ensure!(ids == [a, b, a, b, 9], "read back with the ids {:?}", ids);
                                            ensure!(vals == [v.clone(), x.clone(), v.clone(), x.clone()], "read back as {:?}", vals.iter().map(|v| v.brief()).collect::<Vec<_>>());
                                        }
                                        Err(e) => return Err(format!("reading [{}] gave {:?}", hex(&o.bytes), e)),
                                    }
                                    ensure!(seen.consumed == o.bytes.len(), "consumed {} of {}", seen.consumed, o.bytes.len());
                                    Ok(())
                                });
                            }
                        }
                    }
                }
            }
        }));
        // seeking moves the transport and nothing else
        jobs.push(job(format!("{}/seek", t.name()), move |ctx: &mut Ctx| {
            for v in cores(t.def()) {
                for u in TYPES.iter().step_by(tier.pick(6, 1)) {
                    let x = build(u.def(), 3, false);
                    let (b, e) = (enc(&v), enc(&x));
                    // junk, first, second, junk
                    let inp = [&[0xee; 3][..], &b, &e, &[0xff; 5]].concat();
                    let (first, second, end) = (3i64, 3 + b.len() as i64, inp.len() as i64);
                    for how in 0..3 {
                        ctx.case(|| format!("{} {} and {} {} by seeking ({})", t.name(), v.brief(), u.name(), x.brief(), how), |c| {
                            c.key(&(t.name(), &inp, how));
                            visit(&(t.name(), &inp, how));
                            c.ran(1);
                            let (r, _) = with_in(&inp, usize::MAX, PLAIN, |p| {
                                let to = |p: &mut In<'_, '_>, at: i64| -> Result<(), parquet_format_safe::thrift::Error> {
                                    let now = p.seek(SeekFrom::Current(0))? as i64;
                                    let got = p.seek(match how {
                                        0 => SeekFrom::Start(at as u64),
                                        1 => SeekFrom::Current(at - now),
                                        _ => SeekFrom::End(at - end),
                                    })?;
                                    if got as i64 != at {
                                        return Err("wrong position returned".into());
                                    }
                                    Ok(())
                                };
                                let mut vs = vec![];
                                for at in [second, first, first, second] {
                                    to(p, at)?;
                                    vs.push(if at == first { t.read(p)? } else { u.read(p)? });
                                    let now = p.seek(SeekFrom::Current(0))? as i64;
                                    if now != if at == first { second } else { end - 5 } {
                                        return Err("wrong position after the read".into());
                                    }
                                }
                                // and outside
                                let here = p.seek(SeekFrom::Current(0))? as i64;
                                for bad in [SeekFrom::Start(end as u64 + 1), SeekFrom::Start(u64::MAX), SeekFrom::End(-end - 1), SeekFrom::End(1), SeekFrom::End(i64::MIN), SeekFrom::End(i64::MAX), SeekFrom::Current(-here - 1), SeekFrom::Current(end - here + 1), SeekFrom::Current(i64::MIN), SeekFrom::Current(i64::MAX)] {
                                    if p.seek(bad).is_ok() {
                                        return Err("a refused seek succeeded".into());
                                    }
                                    if p.seek(SeekFrom::Current(0))? as i64 != here {
                                        return Err("a refused seek moved the transport".into());
                                    }
                                }
                                Ok(vs)
                            });
                            match r {
                                Ok(vs) => ensure!(vs == [x.clone(), v.clone(), v.clone(), x.clone()], "gave {:?}", vs.iter().map(|v| v.brief()).collect::<Vec<_>>()),
                                Err(e) => return Err(format!("gave {:?}", e)),
                            }
                            Ok(())
                        });
                    }
                }
            }
        }));
        // long streams
        jobs.push(job(format!("{}/long", t.name()), move |ctx: &mut Ctx| {
            for n in tier.pick(vec![17usize, 65, 129, 257, 1025], vec![17, 33, 65, 129, 257, 513, 1025, 4097, 33000]) {
                let v = build(t.def(), 2, false);
                stream(ctx, &(0..n).map(|_| (t, v.clone())).collect::<Vec<_>>());
                stream(ctx, &(0..n).map(|i| if i % 2 == 0 { (t, v.clone()) } else { (TYPES[i % TYPES.len()], build(TYPES[i % TYPES.len()].def(), i, false)) }).collect::<Vec<_>>());
            }
        }));
        // every ordered pair and triple of types through one writer and one reader
        jobs.push(job(format!("{}/streams", t.name()), move |ctx: &mut Ctx| {
            let all: Vec<(&'static dyn Ty, Val)> = TYPES.iter().map(|u| (*u, build(u.def(), 3, true))).collect();
            let min: Vec<(&'static dyn Ty, Val)> = TYPES.iter().map(|u| (*u, build(u.def(), 3, false))).collect();
            let me: Vec<Val> = tier.pick(vec![build(t.def(), 1, true), build(t.def(), 2, false)], cores(t.def()));
            for v in &me {
                for set in [&all, &min] {
                    for (u, x) in set {
                        stream(ctx, &[(t, v.clone()), (*u, x.clone())]);
                        stream(ctx, &[(*u, x.clone()), (t, v.clone())]);
                    }
                }
            }
            let third: Vec<&(&'static dyn Ty, Val)> = min.iter().step_by(tier.pick(7, 1)).collect();
            for (u, x) in &min {
                for (w, y) in &third {
                    stream(ctx, &[(t, me[0].clone()), (*u, x.clone()), (*w, y.clone())]);
                }
            }
        }));
    }
    jobs
}
fn stream(ctx: &mut Ctx, items: &[(&'static dyn Ty, Val)]) {
    if ctx.stopped() {
        return;
    }
    ctx.case(
        || format!("one stream of {}", items.iter().map(|(t, v)| format!("{} {}", t.name(), v.brief())).collect::<Vec<_>>().join(" / ")),
        |c| {
            let apart: Vec<u8> = items.iter().flat_map(|(_, v)| enc(v)).collect();
            c.key(&(items.iter().map(|x| x.0.name()).collect::<Vec<_>>(), &apart));
            visit(&apart);
            for w in SIDES {
                let (r, o) = match w {
                    Side::Async => with_sout(PLAIN, |p| items.iter().try_for_each(|(t, v)| t.swrite(v, p).map(|_| ()))),
                    _ => with_out(PLAIN, |p| items.iter().try_for_each(|(t, v)| t.write(v, p).map(|_| ()))),
                };
                ensure!(r.is_ok(), "{:?} writer failed: {:?}", w, r);
                let mut sep = vec![];
                for (t, v) in items {
                    sep.extend(write(*t, v, w).1.bytes);
                }
                ensure!(o.bytes == sep, "{:?} writer put [{}] in one stream, [{}] apart", w, hex(&o.bytes), hex(&sep));
                for s in SIDES {
                    let (r, seen) = match s {
                        Side::Async => with_sin(&o.bytes, usize::MAX, PLAIN, |p| items.iter().map(|(t, _)| t.sread(p)).collect::<Result<Vec<_>, _>>()),
                        _ => with_in(&o.bytes, usize::MAX, PLAIN, |p| items.iter().map(|(t, _)| t.read(p)).collect::<Result<Vec<_>, _>>()),
                    };
                    c.ran(1);
                    match r {
                        Ok(vs) => {
                            for (x, (t, v)) in vs.iter().zip(items) {
                                ensure!(x == v, "{:?} write, {:?} read: {} came back as {}", w, s, t.name(), x.brief());
                            }
                            ensure!(seen.consumed == o.bytes.len() && seen.eof_hits == 0, "{:?} reader consumed {} of {}", s, seen.consumed, o.bytes.len());
                        }
                        Err(e) => return Err(format!("{:?} write, {:?} read failed: {:?}", w, s, e)),
                    }
                }
            }
            Ok(())
        },
    );
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C04",
            level: "model_checking",
            rule: "one case = one input given to both readers and judged by the reference decoder; distinct = distinct (type, input)",
            explanation: "Legal side: every departure in up to three places from four base forms (field order, id form, varint padding, header form) of the encodings of the core values. Malformed side: the input families of C01 judged by the reference decoder; what the properties leave undefined is not judged.",
            assumptions: &["the reference decoder in harness/src/val.rs and the IDL transcription in harness/src/schema.rs"],
            jobs: c04,
        },
        Check {
            id: "C05",
            level: "model_checking",
            rule: "one case = one encoding with unknown fields injected; distinct = distinct (type, input)",
            explanation: "Every structure node and gap of the core values x unknown payloads of every wire type and nesting up to the allowance x unused ids; all payload pairs in minimal values; payloads in every gap at once.",
            assumptions: &[],
            jobs: c05,
        },
        Check {
            id: "C06",
            level: "model_checking",
            rule: "one case = one set of fields present; distinct = distinct (type, input)",
            explanation: "All 2^n presence subsets of every structure's fields; the same inside every nested node (subsets up to a size, else singles and pairs); all field sequences up to a length for every union at root and nested.",
            assumptions: &[],
            jobs: c06,
        },
        Check {
            id: "C10",
            level: "model_checking",
            rule: "one case = one encoding and one limit; distinct = distinct (type, input, limit)",
            explanation: "Every limit from 0 to beyond the cost the reference computes, for values in canonical and padded forms, with unknown data, for low-level values, skips, envelopes and for two values under one limit.",
            assumptions: &["limits are swept completely up to a bound and around both ends beyond it"],
            jobs: c10,
        },
        Check {
            id: "C11",
            level: "model_checking",
            rule: "one case = one input under one limit, or with the allocator refusing; distinct = distinct (reader, input, limit)",
            explanation: "Declared sizes up to 2^32-1 at every collection and binary position of every node, unknown or known, with the harness's allocator measuring peak and largest request, and refusing requests above a cap.",
            assumptions: &["the fixed multiple is 4 x (largest list element of the type / 8 + 1), the constant 64 KiB"],
            jobs: c11,
        },
        Check {
            id: "C12",
            level: "model_checking",
            rule: "one case = one strict prefix of one legal encoding on one side; distinct = distinct (reader, prefix, side)",
            explanation: "Every cut position of the encodings (canonical and padded) of core and family values, low-level values, typed lists, messages and application errors.",
            assumptions: &[],
            jobs: c12,
        },
        Check {
            id: "C13",
            level: "model_checking",
            rule: "one case = one nesting, one depth argument, one side; distinct = distinct (input, depth, side)",
            explanation: "All mixtures of the five ways to nest up to a length with every depth around it, all 256 depth arguments, periodic chains around 64 and 127 levels, unknown fields in every node.",
            assumptions: &[],
            jobs: c13,
        },
        Check {
            id: "C20",
            level: "model_checking",
            rule: "one case = one value with one trailing tail, or one stream of several values; distinct = distinct inputs",
            explanation: "Every following byte and block tails for every core value; all ordered pairs of types and triples in one stream through one writer and one reader of each side.",
            assumptions: &[],
            jobs: c20,
        },
    ]
}
