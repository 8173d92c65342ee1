//! Checks quantified over values and write sequences: C02, C03, C08, C09, C19, C26.
use crate::domain::*;
use crate::engine::*;
use crate::ensure;
use crate::low::{self, *};
use crate::lowdom::*;
use crate::ops::*;
use crate::schema::*;
use crate::val::*;
use parquet_format_safe as pf;
use pf::thrift;
use pf::thrift::protocol::*;

/// One job per type and family of values.
pub fn value_jobs(tier: Tier, f: impl Fn(&'static dyn Ty, &Val, &mut Case) -> Result<(), String> + Copy + Sync + Send + 'static) -> Vec<Job> {
    let mut jobs = vec![];
    let mut order: Vec<&'static dyn Ty> = TYPES.to_vec();
    order.sort_by_key(|t| std::cmp::Reverse(enc(&build(t.def(), 2, true)).len()));
    for t in order {
        for fam in 0..FAMILIES {
            jobs.push(job(format!("{}/values{}", t.name(), fam), move |ctx: &mut Ctx| {
                family(t.def(), fam, tier, &mut |v| {
                    if !ctx.stopped() {
                        ctx.case(|| format!("{} = {}", t.name(), v.brief()), |c| {
                            c.key(&(t.name(), &v));
                            f(t, &v, c)
                        });
                    }
                });
            }));
        }
    }
    jobs
}
pub fn low_jobs(tier: Tier, f: impl Fn(&Val, &mut Case) -> Result<(), String> + Copy + Sync + Send + 'static) -> Vec<Job> {
    (0..LOW_FAMILIES)
        .map(|fam| {
            job(format!("sequences{}", fam), move |ctx: &mut Ctx| {
                low_family(fam, tier, &mut |v| {
                    if !ctx.stopped() {
                        ctx.case(|| format!("low-level sequence {}", v.brief()), |c| {
                            c.key(&v);
                            f(&v, c)
                        });
                    }
                })
            })
        })
        .collect()
}

fn c02(tier: Tier) -> Vec<Job> {
    value_jobs(tier, |t, v, c| {
        ensure!(t.through(v) == *v, "harness: conversion is not faithful");
        visit(&(t.name(), v));
        for w in SIDES {
            let (r, o) = write(t, v, w);
            ensure!(r.is_ok(), "{:?} write failed: {:?}", w, r);
            for s in SIDES {
                let (r, _) = read(t, &o.bytes, usize::MAX, s);
                c.ran(1);
                match r {
                    Ok(x) => {
                        ensure!(x == *v, "{:?} write, {:?} read gave a different value: {} from bytes {}", w, s, x.brief(), hex(&o.bytes));
                        ensure!(t.own_eq(&x, v), "values compare unequal after a round trip: {}", x.brief());
                    }
                    Err(e) => return Err(format!("{:?} write, {:?} read failed: {:?} on bytes {}", w, s, e, hex(&o.bytes))),
                }
            }
        }
        Ok(())
    })
}

/// Fields in id order at every level.
pub fn sorted(v: &Val) -> Val {
    match v {
        Val::St(f) => {
            let mut g: Vec<(i16, Val)> = f.iter().map(|(i, x)| (*i, sorted(x))).collect();
            g.sort_by_key(|x| x.0);
            Val::St(g)
        }
        Val::List(t, e) => Val::List(*t, e.iter().map(sorted).collect()),
        Val::Set(t, e) => Val::Set(*t, e.iter().map(sorted).collect()),
        Val::Map(k, t, e) => Val::Map(*k, *t, e.iter().map(|(a, b)| (sorted(a), sorted(b))).collect()),
        o => o.clone(),
    }
}
fn c03(tier: Tier) -> Vec<Job> {
    value_jobs(tier, |t, v, c| {
        for w in SIDES {
            let (r, o) = write(t, v, w);
            ensure!(r.is_ok(), "{:?} write failed: {:?}", w, r);
            c.ran(1);
            match decode(t.def(), &o.bytes) {
                Verdict::Legal(x, n, _) => {
                    ensure!(x == *v, "{:?} writer's bytes [{}] denote {}", w, hex(&o.bytes), x.brief());
                    ensure!(n == o.bytes.len(), "{:?} writer's encoding ends at {} of {} bytes", w, n, o.bytes.len());
                }
                bad => return Err(format!("{:?} writer's bytes [{}] are not a legal encoding: {:?}", w, hex(&o.bytes), bad)),
            }
            // every field on the wire is accounted for, by id and wire type, once
            match decode_any(Wt::St, &o.bytes, 64) {
                Verdict::Legal(x, ..) => ensure!(sorted(&x) == *v, "{:?} writer put {} on the wire for {}", w, x.brief(), v.brief()),
                bad => return Err(format!("harness: {:?}", bad)),
            }
        }
        Ok(())
    })
}

fn c08(tier: Tier) -> Vec<Job> {
    let mut jobs = value_jobs(tier, |t, v, c| {
        let a = write(t, v, Side::Sync);
        let z = write(t, v, Side::Async);
        c.ran(2);
        visit(&(t.name(), &a.1.bytes));
        ensure!(a.0.is_ok() && z.0.is_ok(), "sync {:?}, async {:?}", a.0, z.0);
        ensure!(a.1.bytes == z.1.bytes, "sync wrote [{}], async wrote [{}]", hex(&a.1.bytes), hex(&z.1.bytes));
        ensure!(a.0 == z.0, "sync reports {:?}, async reports {:?}", a.0, z.0);
        Ok(())
    });
    jobs.extend(low_jobs(tier, |v, c| {
        for text in [false, true] {
            let a = write_low(v, text, Side::Sync, PLAIN);
            let z = write_low(v, text, Side::Async, PLAIN);
            c.ran(2);
            visit(&a.1.bytes);
            ensure!(a.0.is_ok() && z.0.is_ok(), "sync {:?}, async {:?}", a.0, z.0);
            ensure!(a.1.bytes == z.1.bytes, "sync wrote [{}], async wrote [{}]", hex(&a.1.bytes), hex(&z.1.bytes));
            ensure!(a.0 == z.0, "sync reports {:?}, async reports {:?}", a.0, z.0);
        }
        Ok(())
    }));
    jobs.push(job("messages", move |ctx: &mut Ctx| {
        for m in msgs(tier) {
            ctx.case(|| format!("{:?}", m), |c| {
                c.key(&m);
                visit(&m);
                c.ran(2);
                let a = with_out(PLAIN, |p| Ok((sy::write_msg(p, &m)?, sy::end_msg(p)?)));
                let z = with_sout(PLAIN, |p| Ok((asy::write_msg(p, &m)?, asy::end_msg(p)?)));
                ensure!(a.1.bytes == z.1.bytes && a.0 == z.0 && a.0.is_ok(), "sync {:?} [{}], async {:?} [{}]", a.0, hex(&a.1.bytes), z.0, hex(&z.1.bytes));
                Ok(())
            });
        }
    }));
    jobs.push(job("headers", move |ctx: &mut Ctx| {
        for (which, k, t, n) in headers(tier) {
            ctx.case(|| format!("collection {} of {:?}, {:?} size {}", which, k, t, n), |c| {
                c.key(&(which, k, t, n));
                visit(&(which, k, t, n));
                c.ran(2);
                let a = write_header(Side::Sync, which, k, t, n);
                let z = write_header(Side::Async, which, k, t, n);
                ensure!(a.1.bytes == z.1.bytes && a.0 == z.0 && a.0.is_ok(), "sync {:?} [{}], async {:?} [{}]", a.0, hex(&a.1.bytes), z.0, hex(&z.1.bytes));
                Ok(())
            });
        }
    }));
    jobs.push(job("enums and bytes", move |ctx: &mut Ctx| {
        for e in ENUMS {
            for i in enum_codes(e.def()) {
                ctx.case(|| format!("{} {}", e.def().name, i), |c| {
                    c.key(&(e.def().name, i));
                    visit(&(e.def().name, i));
                    c.ran(2);
                    let a = with_out(PLAIN, |p| e.write(i, p));
                    let z = with_sout(PLAIN, |p| e.swrite(i, p));
                    ensure!(a.1.bytes == z.1.bytes && a.0 == z.0 && a.0.is_ok(), "sync {:?} [{}], async {:?} [{}]", a.0, hex(&a.1.bytes), z.0, hex(&z.1.bytes));
                    Ok(())
                });
            }
        }
        for b in 0..=255u8 {
            ctx.case(|| format!("byte {}", b), |c| {
                c.key(&b);
                visit(&b);
                c.ran(2);
                let a = with_out(PLAIN, |p| sy::write_byte(p, b));
                let z = with_sout(PLAIN, |p| asy::write_byte(p, b));
                ensure!(a.1.bytes == z.1.bytes && a.0 == z.0 && a.0 == Ok(1) && a.1.bytes == [b], "sync {:?} [{}], async {:?} [{}]", a.0, hex(&a.1.bytes), z.0, hex(&z.1.bytes));
                Ok(())
            });
        }
    }));
    jobs
}

/// Headers of lists (0), sets (1) and maps (2), of every element type and of sizes all over the 32 bits.
fn headers(tier: Tier) -> Vec<(u8, Wt, Wt, u32)> {
    let mut sizes: Vec<u32> = (0..tier.pick(300, 70_000)).collect();
    sizes.extend((8..32).flat_map(|i| [(1u32 << i) - 1, 1 << i, (1 << i) + 1, 3 << (i - 1)]));
    sizes.extend([i32::MAX as u32 - 1, u32::MAX - 1, u32::MAX]);
    let mut v = vec![];
    for (i, &n) in sizes.iter().enumerate() {
        for (j, t) in WTS.into_iter().enumerate() {
            if n > 300 && n < 70_000 && tier == Tier::Thorough && (i + j) % 11 != 0 && !n.wrapping_add(1).is_power_of_two() && !n.is_power_of_two() && !n.wrapping_sub(1).is_power_of_two() {
                continue;
            }
            v.push((0, t, t, n));
            v.push((1, t, t, n));
            if n > 0 {
                for k in WTS {
                    v.push((2, k, t, n));
                }
            }
        }
    }
    v.push((2, Wt::Bool, Wt::Bool, 0));
    v
}
fn write_header(w: Side, which: u8, k: Wt, t: Wt, n: u32) -> (Result<usize, EK>, Wrote) {
    let (k, t) = (ttype(k), ttype(t));
    use crate::env::block_on;
    match (w, which) {
        (Side::Async, 0) => with_sout(PLAIN, |p| block_on(p.write_list_begin(&TListIdentifier::new(t, n)))),
        (Side::Async, 1) => with_sout(PLAIN, |p| block_on(p.write_set_begin(&TSetIdentifier::new(t, n)))),
        (Side::Async, _) => with_sout(PLAIN, |p| block_on(p.write_map_begin(&TMapIdentifier::new(k, t, n)))),
        (_, 0) => with_out(PLAIN, |p| p.write_list_begin(&TListIdentifier::new(t, n))),
        (_, 1) => with_out(PLAIN, |p| p.write_set_begin(&TSetIdentifier::new(t, n))),
        (_, _) => with_out(PLAIN, |p| p.write_map_begin(&TMapIdentifier::new(k, t, n))),
    }
}

fn c09(tier: Tier) -> Vec<Job> {
    fn counts(w: Side, r: Result<usize, EK>, o: &Wrote) -> Result<(), String> {
        ensure!(r == Ok(o.bytes.len()), "{:?} reports {:?}, the transport received {} bytes", w, r, o.bytes.len());
        Ok(())
    }
    let mut jobs = value_jobs(tier, |t, v, c| {
        for w in SIDES {
            let (r, o) = write(t, v, w);
            c.ran(1);
            visit(&(t.name(), &o.bytes));
            counts(w, r, &o)?;
        }
        Ok(())
    });
    jobs.extend(low_jobs(tier, |v, c| {
        for w in SIDES {
            for text in [false, true] {
                let (r, o) = write_low(v, text, w, PLAIN);
                c.ran(1);
                visit(&o.bytes);
                counts(w, r, &o)?;
            }
        }
        Ok(())
    }));
    jobs.push(job("single calls", move |ctx: &mut Ctx| {
        // one call at a time, so that no two wrong counts can cancel out
        for (which, k, t, n) in headers(tier) {
            for w in SIDES {
                ctx.case(|| format!("{:?} collection {} of {:?}, {:?} size {}", w, which, k, t, n), |c| {
                    c.key(&(which, k, t, n, w));
                    c.ran(1);
                    visit(&(which, k, t, n));
                    let (r, o) = write_header(w, which, k, t, n);
                    counts(w, r, &o)
                });
            }
        }
        for id in ids(tier) {
            for last in ids(tier) {
                for t in [TType::I32, TType::Struct] {
                    for w in SIDES {
                        ctx.case(|| format!("{:?} field {} after {} of {:?}", w, id, last, t), |c| {
                            c.key(&(id, last, format!("{:?}", t), w));
                            visit(&(id, last));
                            c.ran(1);
                            let f = |i| TFieldIdentifier { name: None, field_type: t, id: Some(i) };
                            let mut first = 0;
                            let (r, o) = match w {
                                Side::Async => with_sout(PLAIN, |p| {
                                    first = crate::env::block_on(p.write_field_begin(&f(last)))?;
                                    crate::env::block_on(p.write_field_begin(&f(id)))
                                }),
                                _ => with_out(PLAIN, |p| {
                                    first = p.write_field_begin(&f(last))?;
                                    p.write_field_begin(&f(id))
                                }),
                            };
                            counts(w, r.map(|n| n + first), &o)?;
                            Ok(())
                        });
                    }
                }
            }
        }
        for m in msgs(tier) {
            for w in SIDES {
                ctx.case(|| format!("{:?} {:?}", w, m), |c| {
                    c.key(&(w, &m));
                    visit(&m);
                    c.ran(1);
                    let (r, o) = match w {
                        Side::Async => with_sout(PLAIN, |p| Ok(asy::write_msg(p, &m)? + asy::end_msg(p)?)),
                        _ => with_out(PLAIN, |p| Ok(sy::write_msg(p, &m)? + sy::end_msg(p)?)),
                    };
                    counts(w, r, &o)
                });
            }
        }
        for e in ENUMS {
            for i in enum_codes(e.def()) {
                for w in SIDES {
                    ctx.case(|| format!("{:?} {} {}", w, e.def().name, i), |c| {
                        c.key(&(e.def().name, i, w));
                        c.ran(1);
                        let (r, o) = match w {
                            Side::Async => with_sout(PLAIN, |p| e.swrite(i, p)),
                            _ => with_out(PLAIN, |p| e.write(i, p)),
                        };
                        counts(w, r, &o)
                    });
                }
            }
        }
    }));
    jobs.extend(super::giants::huge_counts(tier));
    jobs
}

fn c19(tier: Tier) -> Vec<Job> {
    fn check(v: &Val, c: &mut Case) -> Result<(), String> {
        let w = v.wt();
        for side in SIDES {
            let (r, o) = write_low(v, false, side, PLAIN);
            ensure!(r.is_ok(), "{:?} writer failed: {:?}", side, r);
            visit(&o.bytes);
            // reads back, with something behind it that must stay untouched
            let mut b = o.bytes.clone();
            b.extend([0x1c, 0xff, 0x00]);
            match decode_any(w, &b, 1000) {
                Verdict::Legal(x, n, _) => {
                    ensure!(x == *v && n == o.bytes.len(), "{:?} writer's bytes [{}] denote {} in the standard encoding", side, hex(&o.bytes), x.brief())
                }
                bad => return Err(format!("{:?} writer's bytes [{}] are not the standard encoding: {:?}", side, hex(&o.bytes), bad)),
            }
            for rs in SIDES {
                let (r, seen) = read_low(w, false, &b, usize::MAX, rs, PLAIN);
                c.ran(1);
                ensure!(r.as_ref() == Ok(v), "{:?} write, {:?} read gave {} from [{}]", side, rs, brief_r(&r), hex(&o.bytes));
                ensure!(seen.consumed == o.bytes.len(), "{:?} read consumed {} of {} bytes", rs, seen.consumed, o.bytes.len());
                if v.levels() <= 64 {
                    let (r, seen) = low::run(Prog::Skip(w), &b, usize::MAX, rs, PLAIN);
                    c.ran(1);
                    ensure!(r.is_ok(), "{:?} skip failed with {:?} on [{}]", rs, r, hex(&o.bytes));
                    ensure!(seen.consumed == o.bytes.len(), "{:?} skip consumed {} of {} bytes of [{}]", rs, seen.consumed, o.bytes.len(), hex(&o.bytes));
                }
            }
        }
        Ok(())
    }
    let mut jobs = low_jobs(tier, |v, c| check(v, c));
    jobs.push(job("headers", move |ctx: &mut Ctx| {
        for (which, k, t, n) in headers(tier) {
            ctx.case(|| format!("collection {} of {:?}, {:?} size {}", which, k, t, n), |c| {
                c.key(&(which, k, t, n));
                let want = match which {
                    2 if n == 0 => vec![0],
                    2 => [leb(n as u64, 0), vec![k.nib() << 4 | t.nib()]].concat(),
                    _ if n < 15 => vec![(n as u8) << 4 | t.nib()],
                    _ => [vec![0xf0 | t.nib()], leb(n as u64, 0)].concat(),
                };
                visit(&want);
                for w in SIDES {
                    c.ran(1);
                    let (r, o) = write_header(w, which, k, t, n);
                    ensure!(r.is_ok() && o.bytes == want, "{:?} wrote [{}] ({:?}) instead of [{}]", w, hex(&o.bytes), r, hex(&want));
                    c.ran(1);
                    use crate::env::block_on;
                    let (got, seen) = match w {
                        Side::Async => with_sin(&want, usize::MAX, PLAIN, |p| match which {
                            0 => block_on(p.read_list_begin()).map(|h| (None, Some(h.element_type), h.size)),
                            1 => block_on(p.read_set_begin()).map(|h| (None, Some(h.element_type), h.size)),
                            _ => block_on(p.read_map_begin()).map(|h| (h.key_type, h.value_type, h.size)),
                        }),
                        _ => with_in(&want, usize::MAX, PLAIN, |p| match which {
                            0 => p.read_list_begin().map(|h| (None, Some(h.element_type), h.size)),
                            1 => p.read_set_begin().map(|h| (None, Some(h.element_type), h.size)),
                            _ => p.read_map_begin().map(|h| (h.key_type, h.value_type, h.size)),
                        }),
                    };
                    let meant = (if which == 2 { Some(ttype(k)) } else { None }, Some(ttype(t)), n);
                    match got {
                        Ok(g) => ensure!(g == meant || n == 0 && which == 2 && g.2 == 0, "{:?} read back {:?} from [{}]", w, g, hex(&want)),
                        Err(e) => return Err(format!("{:?} read of [{}] failed: {:?}", w, hex(&want), e)),
                    }
                    ensure!(seen.consumed == want.len(), "{:?} read {} of {} bytes", w, seen.consumed, want.len());
                }
                Ok(())
            });
        }
    }));
    // text fields through the string calls
    jobs.push(job("text", move |ctx: &mut Ctx| {
        for n in bin_lens(tier) {
            for salt in 0..6 {
                let v = Val::St(vec![(1, Val::Bin(text(n, salt))), (2, Val::List(Wt::Bin, vec![Val::Bin(text(n, salt + 1))]))]);
                for side in SIDES {
                    for rs in SIDES {
                        ctx.case(|| format!("text {} {:?} {:?}", v.brief(), side, rs), |c| {
                            c.key(&(&v, side, rs));
                            c.ran(1);
                            let (r, o) = write_low(&v, true, side, PLAIN);
                            ensure!(r.is_ok(), "{:?} writer failed: {:?}", side, r);
                            let (r, _) = read_low(Wt::St, true, &o.bytes, usize::MAX, rs, PLAIN);
                            ensure!(r.as_ref() == Ok(&v), "read back {}", brief_r(&r));
                            Ok(())
                        });
                    }
                }
            }
        }
    }));
    // every id after a given one, exhaustively
    let firsts: Vec<i16> = tier.pick(vec![0, 1, 100, -1, 32767, -32768], vec![0, 1, 2, 15, 16, 100, 127, 1000, 16384, 32752, 32766, 32767, -1, -15, -16, -100, -16384, -32767, -32768]);
    for a in firsts {
        for half in 0..8i32 {
            jobs.push(job(format!("id after {} part {}", a, half), move |ctx: &mut Ctx| {
                for k in 0..8192i32 {
                    let b = (half * 8192 + k - 32768) as i16;
                    let v = Val::St(vec![(a, Val::I8(1)), (b, Val::Bool(true))]);
                    ctx.case(|| format!("ids {} then {}", a, b), |c| {
                        c.key(&(a, b));
                        check(&v, c)
                    });
                }
            }));
        }
    }
    jobs
}

fn c26(tier: Tier) -> Vec<Job> {
    let mut jobs = value_jobs(tier, |t, v, c| {
        c.ran(1);
        visit(&(t.name(), v));
        let x = t.ctor(v);
        ensure!(x == *v, "the constructor given {} built {}", v.brief(), x.brief());
        Ok(())
    });
    jobs.push(job("defaults and identifiers", |ctx: &mut Ctx| {
        macro_rules! dflt {
            ($($T:ident),*) => {$(
                ctx.case(|| format!("default {}", stringify!($T)), |c| {
                    c.key(&stringify!($T));
                    c.ran(1);
                    let d: pf::$T = Default::default();
                    ensure!(d == pf::$T::new() && d == pf::$T {}, "default differs from a new one");
                    Ok(())
                });
            )*};
        }
        dflt!(
            StringType, UUIDType, MapType, ListType, EnumType, DateType, NullType, MilliSeconds, MicroSeconds, NanoSeconds, JsonType, BsonType,
            IndexPageHeader, SplitBlockAlgorithm, XxHash, Uncompressed, EncryptionWithFooterKey, TypeDefinedOrder
        );
        let names = ["", "a", "field", "\u{20ac}uro"];
        let types = [
            TType::Stop, TType::Void, TType::Bool, TType::I08, TType::Double, TType::I16, TType::I32, TType::I64, TType::String, TType::Utf7,
            TType::Struct, TType::Map, TType::Set, TType::List, TType::Utf8, TType::Utf16,
        ];
        for n in names {
            for m in 0..4 {
                for s in [0u32, 1, 1 << 31, u32::MAX] {
                    ctx.case(|| format!("message {:?} {} {}", n, m, s), |c| {
                        c.key(&(n, m, s));
                        c.ran(1);
                        let i = TMessageIdentifier::new(n, msg_type(m), s);
                        ensure!(i.name == n && i.message_type == msg_type(m) && i.sequence_number == s, "{:?}", i);
                        Ok(())
                    });
                }
            }
            for t in types {
                for id in [None, Some(0i16), Some(-1), Some(i16::MAX), Some(i16::MIN)] {
                    for with in [true, false] {
                        ctx.case(|| format!("field {:?} {:?} {:?}", n, t, id), |c| {
                            c.key(&(n, format!("{:?}", t), id, with));
                            c.ran(1);
                            let i = if with { TFieldIdentifier::new(n, t, id) } else { TFieldIdentifier::new::<Option<String>, String, _>(None, t, id) };
                            ensure!(i.name.as_deref() == if with { Some(n) } else { None } && i.field_type == t && i.id == id, "{:?}", i);
                            Ok(())
                        });
                    }
                }
            }
            ctx.case(|| format!("struct {:?}", n), |c| {
                c.ran(1);
                ensure!(TStructIdentifier::new(n).name == n, "name lost");
                Ok(())
            });
            for (i, k) in crate::checks::small::tkinds().into_iter().enumerate() {
                ctx.case(|| format!("transport error {:?} {:?}", k, n), |c| {
                    c.key(&(n, i, 0));
                    c.ran(1);
                    let e = thrift::TransportError::new(k, n);
                    ensure!(e.kind == k && e.message == n, "{:?}", e);
                    match thrift::new_transport_error(k, n) {
                        thrift::Error::Transport(e) => ensure!(e.kind == k && e.message == n, "{:?}", e),
                        e => return Err(format!("{:?}", e)),
                    }
                    match thrift::Error::from(e) {
                        thrift::Error::Transport(e) => ensure!(e.kind == k && e.message == n, "{:?}", e),
                        e => return Err(format!("{:?}", e)),
                    }
                    Ok(())
                });
            }
            for (i, k) in crate::checks::small::pkinds().into_iter().enumerate() {
                ctx.case(|| format!("protocol error {:?} {:?}", k, n), |c| {
                    c.key(&(n, i, 1));
                    c.ran(1);
                    let e = thrift::ProtocolError::new(k, n);
                    ensure!(e.kind == k && e.message == n, "{:?}", e);
                    match thrift::new_protocol_error(k, n) {
                        thrift::Error::Protocol(e) => ensure!(e.kind == k && e.message == n, "{:?}", e),
                        e => return Err(format!("{:?}", e)),
                    }
                    match thrift::Error::from(e) {
                        thrift::Error::Protocol(e) => ensure!(e.kind == k && e.message == n, "{:?}", e),
                        e => return Err(format!("{:?}", e)),
                    }
                    Ok(())
                });
            }
            for (i, k) in crate::checks::small::akinds().into_iter().enumerate() {
                ctx.case(|| format!("application error {:?} {:?}", k, n), |c| {
                    c.key(&(n, i, 2));
                    c.ran(1);
                    let e = thrift::ApplicationError::new(k, n);
                    ensure!(e.kind == k && e.message == n, "{:?}", e);
                    match thrift::new_application_error(k, n) {
                        thrift::Error::Application(e) => ensure!(e.kind == k && e.message == n, "{:?}", e),
                        e => return Err(format!("{:?}", e)),
                    }
                    match thrift::Error::from(e) {
                        thrift::Error::Application(e) => ensure!(e.kind == k && e.message == n, "{:?}", e),
                        e => return Err(format!("{:?}", e)),
                    }
                    Ok(())
                });
            }
        }
        for t in types {
            for s in [0u32, 1, 15, u32::MAX] {
                for u in types {
                    ctx.case(|| format!("collections {:?} {:?} {}", t, u, s), |c| {
                        c.key(&(format!("{:?}{:?}", t, u), s));
                        c.ran(1);
                        let l = TListIdentifier::new(t, s);
                        let e = TSetIdentifier::new(t, s);
                        let m = TMapIdentifier::new(t, u, s);
                        let n = TMapIdentifier::new(None, u, s);
                        ensure!(l.element_type == t && l.size == s && e.element_type == t && e.size == s, "{:?} {:?}", l, e);
                        ensure!(m.key_type == Some(t) && m.value_type == Some(u) && m.size == s, "{:?}", m);
                        ensure!(n.key_type.is_none() && n.value_type == Some(u), "{:?}", n);
                        Ok(())
                    });
                }
            }
        }
    }));
    jobs
}

const VALUES_RULE: &str = "one case = one value of one type (or one low-level write sequence); distinct = distinct (type, value)";
pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C02",
            level: "model_checking",
            rule: VALUES_RULE,
            explanation: "Every presence pattern of optional fields, every single departure of every leaf of the full and the minimal value over boundary domains, all pairs (thorough: triples) of fields over small domains, each written by both writers and read by both readers.",
            assumptions: &["values outside the enumerated domains behave like those inside"],
            jobs: c02,
        },
        Check {
            id: "C03",
            level: "model_checking",
            rule: VALUES_RULE,
            explanation: "Value domain of C02; the bytes of both writers are decoded by an independent decoder driven by a transcription of parquet.thrift. States are positions of that decoder.",
            assumptions: &["the transcription of parquet.thrift in harness/src/schema.rs"],
            jobs: c03,
        },
        Check {
            id: "C08",
            level: "model_checking",
            rule: VALUES_RULE,
            explanation: "Product exploration of the two writers over the value domain of C02 and the sequence domain of C19.",
            assumptions: &[],
            jobs: c08,
        },
        Check {
            id: "C09",
            level: "model_checking",
            rule: VALUES_RULE,
            explanation: "The count returned by each write is compared with what the transport received, for whole values, whole sequences and single calls.",
            assumptions: &[],
            jobs: c09,
        },
        Check {
            id: "C19",
            level: "model_checking",
            rule: "one case = one low-level write sequence; distinct = distinct sequences",
            explanation: "All sequences of the families in harness/src/lowdom.rs (types, sizes, ids, nestings) and every 16-bit field id after selected ids, written, read back with the mirrored calls and skipped, on both sides.",
            assumptions: &[],
            jobs: c19,
        },
        Check {
            id: "C26",
            level: "model_checking",
            rule: VALUES_RULE,
            explanation: "Constructors are run on the value domain of C02 (every field distinguishable) and the identifier and error constructors on the product of small argument domains.",
            assumptions: &[],
            jobs: c26,
        },
    ]
}
