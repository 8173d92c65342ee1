//! Checks of the smaller parts: C17 (varints), C18 (envelopes), C22 (enumerations), C23, C24 (errors), C25 (boxes),
//! C27 (reply verification).
use super::bytes::c25_reading;
use super::faults::KINDS;
use super::values::{low_jobs, value_jobs};
use crate::domain::*;
use crate::engine::*;
use crate::ensure;
use crate::env::*;
use crate::low::{self, *};
use crate::lowdom::*;
use crate::ops::*;
use crate::schema::*;
use crate::val::*;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::varint::*;
use parquet_format_safe::thrift::{self, Result as TResult};
use std::convert::TryFrom;

pub fn tkinds() -> Vec<TK> {
    vec![TK::Unknown, TK::NotOpen, TK::AlreadyOpen, TK::TimedOut, TK::EndOfFile, TK::NegativeSize, TK::SizeLimit]
}
pub fn pkinds() -> Vec<PK> {
    vec![PK::Unknown, PK::InvalidData, PK::NegativeSize, PK::SizeLimit, PK::BadVersion, PK::NotImplemented, PK::DepthLimit]
}
pub fn akinds() -> Vec<AK> {
    vec![
        AK::Unknown, AK::UnknownMethod, AK::InvalidMessageType, AK::WrongMethodName, AK::BadSequenceId, AK::MissingResult, AK::InternalError,
        AK::ProtocolError, AK::InvalidTransform, AK::InvalidProtocol, AK::UnsupportedClientType,
    ]
}

// ---------------------------------------------------------------- C17

/// One integer width, as wide integers.
trait Width: VarInt + Send + Copy + 'static {
    const NAME: &'static str;
    const BITS: u32;
    const SIGNED: bool;
    fn of(u: u64) -> Self;
    /// the unsigned number whose LEB128 is the encoding
    fn raw(self) -> u64;
}
macro_rules! width {
    ($($t:ident $s:literal),*) => {$(
        impl Width for $t {
            const NAME: &'static str = stringify!($t);
            const BITS: u32 = $t::BITS;
            const SIGNED: bool = $s;
            fn of(u: u64) -> Self { u as $t }
            fn raw(self) -> u64 { if $s { zz(self as i64) } else { self as u64 } }
        }
    )*};
}
width!(u8 false, u16 false, u32 false, u64 false, i8 true, i16 true, i32 true, i64 true);
fn max_len<T: Width>() -> usize {
    (T::BITS as usize + 6) / 7 + if (T::BITS as usize + 7) / 7 > (T::BITS as usize + 6) / 7 { 1 } else { 0 }
}
/// the longest stream encoding the crate documents by its own test: ceil((bits + 1) / 7), i.e. 2, 3, 5, 10
fn longest<T: Width>() -> usize {
    (T::BITS as usize + 7) / 7
}
fn stream_read<T: Width>(b: &[u8], s: Side) -> (Result<T, std::io::ErrorKind>, usize) {
    let mut e = Env::reader(b);
    let r = match s {
        Side::Async => block_on((&mut e).read_varint_async::<T>()),
        _ => (&mut e).read_varint::<T>(),
    };
    (r.map_err(|x| x.kind()), e.pos)
}
fn stream_write<T: Width>(x: T, s: Side) -> (Result<usize, std::io::ErrorKind>, Vec<u8>) {
    let mut e = Env::writer();
    let r = match s {
        Side::Async => block_on((&mut e).write_varint_async(x)),
        _ => (&mut e).write_varint(x),
    };
    (r.map_err(|x| x.kind()), e.out)
}
/// the reference for one integer, without allocation
fn number<T: Width>(u: u64, deep: bool, c: &mut Case) -> Result<(), String> {
    let x = T::of(u);
    let raw = x.raw();
    let mut want = [0u8; 10];
    let mut n = 0;
    let mut r = raw;
    loop {
        want[n] = (r & 0x7f) as u8;
        r >>= 7;
        n += 1;
        if r == 0 {
            break;
        }
        want[n - 1] |= 0x80;
    }
    ensure!(x.required_space() == n, "{} {}: announces {} bytes, needs {}", T::NAME, u, x.required_space(), n);
    let mut buf = [0xaau8; 12];
    let k = x.encode_var(&mut buf[..n]);
    ensure!(k == n && buf[..n] == want[..n], "{} {}: encoded as [{}], standard is [{}]", T::NAME, u, hex(&buf[..n]), hex(&want[..n]));
    // bytes behind it are not looked at, nor written
    let mut buf = [0xaau8; 12];
    let k = x.encode_var(&mut buf);
    ensure!(k == n && buf[..n] == want[..n] && buf[n..].iter().all(|b| *b == 0xaa), "{} {}: wrote [{}]", T::NAME, u, hex(&buf));
    for tail in [0x00u8, 0x80, 0xff] {
        let mut t = [tail; 14];
        t[..n].copy_from_slice(&want[..n]);
        match T::decode_var(&t) {
            Some((y, m)) => ensure!(y.raw() == raw && m == n, "{} {}: decoded from a slice as raw {} in {} bytes", T::NAME, u, y.raw(), m),
            None => return Err(format!("{} {}: does not decode from a slice", T::NAME, u)),
        }
    }
    ensure!(T::decode_var(&want[..n]).map(|x| (x.0.raw(), x.1)) == Some((raw, n)), "{} {}: does not decode from an exact slice", T::NAME, u);
    c.ran(1);
    if deep {
        ensure!(x.encode_var_vec() == want[..n], "{} {}: encode_var_vec gives [{}]", T::NAME, u, hex(&x.encode_var_vec()));
        for s in SIDES {
            let (r, out) = stream_write(x, s);
            ensure!(r == Ok(n) && out == want[..n], "{:?} {} {}: wrote [{}] and reported {:?}", s, T::NAME, u, hex(&out), r);
            let mut b = want[..n].to_vec();
            b.extend([0x81, 0x01]);
            let (r, used) = stream_read::<T>(&b, s);
            ensure!(matches!(r, Ok(y) if y.raw() == raw), "{:?} {} {}: read back {:?}", s, T::NAME, u, r.map(|y| y.raw()));
            ensure!(used == n, "{:?} {} {}: consumed {} bytes of {}", s, T::NAME, u, used, n);
        }
        visit(&(T::NAME, raw));
    }
    Ok(())
}
/// an arbitrary byte string against the reference
fn string<T: Width>(b: &[u8], c: &mut Case) -> Result<(), String> {
    // slices: up to ten bytes
    let stop = b.iter().take(10).position(|x| x & 0x80 == 0);
    let value = |n: usize| b[..=n].iter().enumerate().fold(0u128, |a, (i, x)| a | ((x & 0x7f) as u128) << (7 * i));
    let fits = |v: u128| v >> T::BITS == 0;
    match (stop, T::decode_var(b)) {
        (None, None) => {}
        (None, Some((_, n))) => return Err(format!("{}: a slice without an end decoded in {} bytes: [{}]", T::NAME, n, hex(b))),
        (Some(n), Some((x, m))) => {
            ensure!(m == n + 1, "{}: decoded {} bytes of [{}], the encoding has {}", T::NAME, m, hex(b), n + 1);
            ensure!(!fits(value(n)) || x.raw() as u128 == value(n), "{}: [{}] misread as raw {}", T::NAME, hex(b), x.raw());
        }
        (Some(_), None) => return Err(format!("{}: a slice was refused: [{}]", T::NAME, hex(b))),
    }
    let max = longest::<T>();
    debug_assert!(max >= max_len::<T>() - 1);
    for s in SIDES {
        let (r, used) = stream_read::<T>(b, s);
        c.ran(1);
        match (b.iter().position(|x| x & 0x80 == 0), r) {
            (Some(n), Ok(x)) if n < max => {
                ensure!(used == n + 1, "{:?} {}: consumed {} bytes of [{}]", s, T::NAME, used, hex(b));
                ensure!(!fits(value(n)) || x.raw() as u128 == value(n), "{:?} {}: [{}] misread as raw {}", s, T::NAME, hex(b), x.raw());
            }
            (Some(n), Err(_)) if n >= max => {}
            (None, Err(k)) => {
                ensure!(b.len() > max || k == std::io::ErrorKind::UnexpectedEof, "{:?} {}: [{}] failed with {:?}", s, T::NAME, hex(b), k)
            }
            (_, r) => return Err(format!("{:?} {}: [{}] gave {:?}", s, T::NAME, hex(b), r.map(|x| x.raw()))),
        }
    }
    visit(&(T::NAME, b));
    Ok(())
}
fn c17(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    macro_rules! whole {
        ($($t:ident),*) => {$(
            jobs.push(job(concat!(stringify!($t), "/all"), move |ctx: &mut Ctx| {
                for u in 0..=(u64::MAX >> (64 - $t::BITS)) {
                    ctx.case(|| format!("{} {}", stringify!($t), u), |c| { c.key(&($t::BITS, <$t as Width>::SIGNED, u)); number::<$t>(u, true, c) });
                }
            }));
        )*};
    }
    whole!(u8, i8, u16, i16);
    // 32 bits: every number in the thorough run, in blocks; the quick run takes every block's neighbourhood
    macro_rules! wide {
        ($t:ident) => {
            for hi in 0..64u64 {
                jobs.push(job(format!("{}/block{}", stringify!($t), hi), move |ctx: &mut Ctx| {
                    let block = 1u64 << 26;
                    let per = 1u64 << 12;
                    let mut u = hi * block;
                    while u < (hi + 1) * block {
                        // the quick run looks at one chunk in 128
                        if tier == Tier::Thorough || (u / per) % 128 == 0 || (u + per) % block == 0 {
                            ctx.case(|| format!("{} {}..{}", stringify!($t), u, u + per), |c| {
                                c.key(&($t::BITS, <$t as Width>::SIGNED, u));
                                for x in u..u + per {
                                    number::<$t>(x, x % 64 == 0, c)?;
                                }
                                visit(&(stringify!($t), u));
                                Ok(())
                            });
                        }
                        u += per;
                    }
                }));
            }
        };
    }
    wide!(u32);
    wide!(i32);
    // 64 bits: every number whose seven-bit groups come from a small set, every group position
    macro_rules! sixty {
        ($t:ident) => {
            let groups: &'static [u64] = tier.pick(&[0, 1, 0x7f], &[0, 1, 0x40, 0x7f]);
            for top in 0..groups.len() * groups.len() {
                jobs.push(job(format!("{}/groups{}", stringify!($t), top), move |ctx: &mut Ctx| {
                    let g = groups.len();
                    for code in 0..g.pow(7) {
                        let mut c = code * g * g + top;
                        let mut raw: u128 = 0;
                        for i in 0..9 {
                            raw |= (groups[c % g] as u128) << (7 * i);
                            c /= g;
                        }
                        for hi in 0..2u128 {
                            let raw = (raw | hi << 63) as u64;
                            // as the raw number and as the signed number
                            let u = if <$t as Width>::SIGNED { unzz(raw) as u64 } else { raw };
                            ctx.case(|| format!("{} {}", stringify!($t), u), |c| { c.key(&(64, <$t as Width>::SIGNED, u)); number::<$t>(u, true, c) });
                        }
                    }
                }));
            }
            jobs.push(job(format!("{}/edges", stringify!($t)), move |ctx: &mut Ctx| {
                for k in 0..64 {
                    for d in -300i64..=300 {
                        let u = (1u64 << k).wrapping_add(d as u64);
                        for u in [u, u.wrapping_neg(), !u] {
                            ctx.case(|| format!("{} {}", stringify!($t), u), |c| { c.key(&(64, <$t as Width>::SIGNED, u)); number::<$t>(u, true, c) });
                        }
                    }
                }
            }));
        };
    }
    sixty!(u64);
    sixty!(i64);
    macro_rules! strings {
        ($($t:ident),*) => {$(
            jobs.push(job(concat!(stringify!($t), "/strings"), move |ctx: &mut Ctx| {
                // all strings of up to two bytes; then, for every length up to 14 and every mixture of first, middle and
                // last bytes from a small set, the strings that end at each place or nowhere
                let mut go = |ctx: &mut Ctx, b: &[u8]| {
                    ctx.case(|| format!("{} from [{}]", stringify!($t), hex(b)), |c| { c.key(&(stringify!($t), b)); string::<$t>(b, c) });
                };
                go(ctx, &[]);
                for a in 0..=255u8 {
                    go(ctx, &[a]);
                    for b in 0..=255u8 {
                        go(ctx, &[a, b]);
                    }
                }
                let set: &[u8] = tier.pick(&[0x00, 0x01, 0x7f, 0x80, 0xff], &[0x00, 0x01, 0x02, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xc0, 0xff]);
                fn rec(ctx: &mut Ctx, set: &[u8], left: usize, cur: &mut Vec<u8>, go: &mut dyn FnMut(&mut Ctx, &[u8])) {
                    if ctx.stopped() { return; }
                    go(ctx, cur);
                    if left == 0 { return; }
                    // past an ending byte only one more matters
                    let ended = cur.iter().filter(|x| **x & 0x80 == 0).count();
                    if ended > 1 { return; }
                    for &b in set {
                        cur.push(b);
                        rec(ctx, set, left - 1, cur, go);
                        cur.pop();
                    }
                }
                rec(ctx, set, tier.pick(6, 6), &mut vec![], &mut go);
                for fill in [0x80u8, 0xff, 0x81, 0xaa] {
                    for len in 0..=14 {
                        for end in 0..=255u8 {
                            let mut b = vec![fill; len];
                            b.push(end);
                            go(ctx, &b);
                            b.extend([0x05, 0xff]);
                            go(ctx, &b);
                        }
                    }
                }
            }));
        )*};
    }
    strings!(u8, i8, u16, i16, u32, i32, u64, i64);
    jobs
}

// ---------------------------------------------------------------- C18

fn read_msg_env(b: &[u8], s: Side) -> (Result<Val, EK>, Seen) {
    low::run(Prog::Msg, b, usize::MAX, s, PLAIN)
}
fn c18(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    fn trip(ctx: &mut Ctx, m: &Msg, t: &'static dyn Ty, v: &Val) {
        ctx.case(|| format!("{:?} around {} {}", m, t.name(), v.brief()), |c| {
            c.key(&(m, t.name(), v));
            visit(m);
            for w in SIDES {
                // message, structure, message, structure: through one writer
                let (r, o) = match w {
                    Side::Async => with_sout(PLAIN, |p| {
                        for _ in 0..2 {
                            asy::write_msg(p, m)?;
                            t.swrite(v, p)?;
                            asy::end_msg(p)?;
                        }
                        asy::flush(p)
                    }),
                    _ => with_out(PLAIN, |p| {
                        for _ in 0..2 {
                            sy::write_msg(p, m)?;
                            t.write(v, p)?;
                            sy::end_msg(p)?;
                        }
                        sy::flush(p)
                    }),
                };
                ensure!(r.is_ok(), "{:?} writer failed: {:?}", w, r);
                let one = [m.enc(), write(t, v, w).1.bytes].concat();
                ensure!(o.bytes == [&one[..], &one].concat(), "{:?} writer put [{}] for two copies of [{}]", w, hex(&o.bytes), hex(&one));
                for s in SIDES {
                    c.ran(1);
                    let (r, seen) = match s {
                        Side::Async => with_sin(&o.bytes, usize::MAX, PLAIN, |p| {
                            let mut x = vec![];
                            for _ in 0..2 {
                                x.push(asy::read_msg(p)?);
                                x.push(t.sread(p)?);
                                asy::end_read_msg(p)?;
                            }
                            Ok(x)
                        }),
                        _ => with_in(&o.bytes, usize::MAX, PLAIN, |p| {
                            let mut x = vec![];
                            for _ in 0..2 {
                                x.push(sy::read_msg(p)?);
                                x.push(t.read(p)?);
                                sy::end_read_msg(p)?;
                            }
                            Ok(x)
                        }),
                    };
                    let want = vec![m.val(), v.clone(), m.val(), v.clone()];
                    ensure!(r.as_ref() == Ok(&want), "{:?} write, {:?} read gave {:?}", w, s, r);
                    ensure!(seen.consumed == o.bytes.len() && seen.eof_hits == 0, "{:?} reader consumed {} of {}", s, seen.consumed, o.bytes.len());
                }
            }
            Ok(())
        });
    }
    for part in 0..4 {
        jobs.push(job(format!("round trips{}", part), move |ctx: &mut Ctx| {
            let t = TYPES.iter().copied().find(|t| t.name() == "KeyValue").unwrap();
            let v = build(t.def(), 1, true);
            for m in msgs(tier).iter().filter(|m| m.ty == part) {
                trip(ctx, m, t, &v);
            }
        }));
    }
    jobs.push(job("long streams", move |ctx: &mut Ctx| {
        let all = msgs(Tier::Quick);
        for n in tier.pick(vec![3usize, 17, 65, 129, 257, 1025, 4097], vec![3, 5, 17, 33, 65, 129, 257, 513, 1025, 4097, 70_000]) {
            for step in [1usize, 7, 211] {
                let items: Vec<(&Msg, &'static dyn Ty, Val)> = (0..n).map(|i| (&all[i * step % all.len()], TYPES[i * 3 % TYPES.len()])).filter(|(m, _)| m.name.len() < 400).map(|(m, t)| (m, t, build(t.def(), 2, false))).collect();
                ctx.case(|| format!("{} messages in one stream, step {}", n, step), |c| {
                    c.key(&(n, step));
                    visit(&(n, step));
                    let mut want = vec![];
                    let mut bytes = vec![];
                    for (m, t, v) in &items {
                        want.push(m.val());
                        want.push(v.clone());
                        bytes.extend(m.enc());
                        bytes.extend(write(*t, v, Side::Sync).1.bytes);
                    }
                    for w in SIDES {
                        let (r, o) = match w {
                            Side::Async => with_sout(PLAIN, |p| {
                                items.iter().try_for_each(|(m, t, v)| {
                                    asy::write_msg(p, m)?;
                                    t.swrite(v, p)?;
                                    asy::end_msg(p).map(|_| ())
                                })
                            }),
                            _ => with_out(PLAIN, |p| {
                                items.iter().try_for_each(|(m, t, v)| {
                                    sy::write_msg(p, m)?;
                                    t.write(v, p)?;
                                    sy::end_msg(p).map(|_| ())
                                })
                            }),
                        };
                        ensure!(r.is_ok() && o.bytes == bytes, "{:?} writer: {:?}, {} bytes instead of {}", w, r, o.bytes.len(), bytes.len());
                    }
                    for s in SIDES {
                        c.ran(1);
                        let mut x = vec![];
                        let (r, seen) = match s {
                            Side::Async => with_sin(&bytes, usize::MAX, PLAIN, |p| {
                                items.iter().try_for_each(|(_, t, _)| {
                                    x.push(asy::read_msg(p)?);
                                    x.push(t.sread(p)?);
                                    asy::end_read_msg(p)
                                })
                            }),
                            _ => with_in(&bytes, usize::MAX, PLAIN, |p| {
                                items.iter().try_for_each(|(_, t, _)| {
                                    x.push(sy::read_msg(p)?);
                                    x.push(t.read(p)?);
                                    sy::end_read_msg(p)
                                })
                            }),
                        };
                        ensure!(r.is_ok(), "{:?} reader failed after {} items: {:?}", s, x.len(), r);
                        ensure!(x == want, "{:?} reader gave other items", s);
                        ensure!(seen.consumed == bytes.len() && seen.eof_hits == 0, "{:?} reader consumed {} of {}", s, seen.consumed, bytes.len());
                    }
                    Ok(())
                });
            }
        }
    }));
    jobs.push(job("around every type", move |ctx: &mut Ctx| {
        for t in TYPES.iter().copied() {
            let mut vals = vec![];
            core(t.def(), &mut |v| vals.push(v));
            for v in &vals {
                for m in msgs(Tier::Quick).iter().step_by(tier.pick(211, 40)) {
                    trip(ctx, m, t, v);
                }
            }
        }
    }));
    // every value of the first two bytes
    for s in SIDES {
        for part in 0..4u32 {
            jobs.push(job(format!("{:?}/headers{}", s, part), move |ctx: &mut Ctx| {
                for h in part * 16384..(part + 1) * 16384 {
                    let (a, b) = ((h >> 8) as u8, h as u8);
                    for rest in [&[0x07u8, 0x02, b'o', b'k'][..], &[0x80, 0x01, 0x00]] {
                        let x = [&[a, b], rest].concat();
                        ctx.case(|| format!("{:?} message header [{}]", s, hex(&x)), |c| {
                            c.key(&(s, &x));
                            visit(&(s, h));
                            c.ran(1);
                            let (r, seen) = read_msg_env(&x, s);
                            if a != 0x82 || b & 0x1f != 1 {
                                ensure!(r == Err(EK::P(PK::BadVersion)), "wrong protocol id or version gave {}", brief_r(&r));
                            } else if !(1..=4).contains(&(b >> 5)) {
                                ensure!(r == Err(EK::P(PK::InvalidData)), "undefined message type gave {}", brief_r(&r));
                            } else {
                                let m = Msg { name: if rest[0] == 7 { b"ok".to_vec() } else { vec![] }, ty: (b >> 5) as usize - 1, seq: if rest[0] == 7 { 7 } else { 128 } };
                                ensure!(r == Ok(m.val()), "gave {}", brief_r(&r));
                                ensure!(seen.consumed == x.len(), "consumed {} of {}", seen.consumed, x.len());
                            }
                            Ok(())
                        });
                    }
                }
            }));
        }
    }
    jobs.push(job("message type codes", |ctx: &mut Ctx| {
        for b in 0..=255u8 {
            ctx.case(|| format!("code {}", b), |c| {
                c.key(&b);
                c.ran(1);
                match (b, TMessageType::try_from(b)) {
                    (1..=4, Ok(t)) => ensure!(t == msg_type(b as usize - 1) && u8::from(t) == b, "code {} is {:?}", b, t),
                    (0 | 5.., Err(e)) => ensure!(ek(&e) == EK::P(PK::InvalidData), "code {} fails with {:?}", b, ek(&e)),
                    (_, r) => return Err(format!("code {} gave {:?}", b, r.map_err(|e| ek(&e)))),
                }
                Ok(())
            });
        }
    }));
    jobs
}

// ---------------------------------------------------------------- C22

fn c22(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    for e in ENUMS.iter().copied() {
        jobs.push(job(format!("{}/names", e.def().name), move |ctx: &mut Ctx| {
            let values = e.values();
            for ((name, code), (n2, idl)) in e.consts().into_iter().zip(e.def().consts) {
                ctx.case(|| format!("{}::{}", e.def().name, name), |c| {
                    c.key(&(e.def().name, name));
                    visit(&(e.def().name, name));
                    c.ran(1);
                    ensure!(name == *n2, "harness: order");
                    ensure!(code == *idl, "has code {}, the IDL assigns {}", code, idl);
                    ensure!(values.contains(&code), "is not listed in ENUM_VALUES");
                    Ok(())
                });
            }
        }));
        jobs.push(job(format!("{}/wire", e.def().name), move |ctx: &mut Ctx| {
            let n: i32 = tier.pick(70_000, 1 << 22);
            let mut codes: Vec<i32> = (-n..n).collect();
            for k in 0..32 {
                for d in -40i32..=40 {
                    let x = (1u32 << k) as i32;
                    codes.push(x.wrapping_add(d));
                    codes.push(x.wrapping_neg().wrapping_add(d));
                }
            }
            for i in codes {
                ctx.case(|| format!("{} {}", e.def().name, i), |c| {
                    c.key(&(e.def().name, i));
                    visit(&(e.def().name, i));
                    for w in SIDES {
                        let (r, o) = match w {
                            Side::Async => with_sout(PLAIN, |p| e.swrite(i, p)),
                            _ => with_out(PLAIN, |p| e.write(i, p)),
                        };
                        ensure!(r.is_ok() && o.bytes == leb(zz(i as i64), 0), "{:?} writer put [{}] and gave {:?}", w, hex(&o.bytes), r);
                        for s in SIDES {
                            c.ran(1);
                            let (r, seen) = match s {
                                Side::Async => with_sin(&o.bytes, 0, PLAIN, |p| e.sread(p)),
                                _ => with_in(&o.bytes, 0, PLAIN, |p| e.read(p)),
                            };
                            ensure!(r == Ok(i) && seen.consumed == o.bytes.len(), "{:?} write, {:?} read gave {:?}", w, s, r);
                        }
                    }
                    Ok(())
                });
            }
        }));
        // conversions: every code in the thorough run
        for hi in 0..tier.pick(8u64, 64) {
            jobs.push(job(format!("{}/conversions{}", e.def().name, hi), move |ctx: &mut Ctx| {
                let step = 1u64 << 32;
                let (from, to, stride) = (step / tier.pick(8, 64) * hi, step / tier.pick(8, 64) * (hi + 1), tier.pick(1 << 18, 1 << 16));
                let mut u = from;
                while u < to {
                    // the quick run looks at 4096 codes of each stride
                    let end = tier.pick(u + 4096, u + stride).min(to);
                    ctx.case(|| format!("{} codes {}..{}", e.def().name, u as u32 as i32, end as u32 as i32), |c| {
                        c.key(&(e.def().name, u));
                        visit(&(e.def().name, u, end));
                        c.ran(end - u);
                        for x in u..end {
                            let i = x as u32 as i32;
                            let got = [e.from_i(i), e.from_ref(i), e.into_i(i), e.into_ref(i)];
                            ensure!(got == [i; 4], "code {} is converted to {:?}", i, got);
                        }
                        Ok(())
                    });
                    u += stride;
                }
            }));
        }
    }
    jobs
}

// ---------------------------------------------------------------- C23

fn app(kind: i32, msg: &[u8]) -> Val {
    Val::St(vec![(1, Val::Bin(msg.to_vec())), (2, Val::I32(kind))])
}
const DEFAULT_MSG: &[u8] = b"general remote error";
fn c23(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    fn reads(ctx: &mut Ctx, f: Vec<(i16, Val)>) {
        let msg = f.iter().find(|x| x.0 == 1).map(|x| match &x.1 {
            Val::Bin(b) => b.clone(),
            _ => panic!("harness"),
        });
        let kind = f.iter().find(|x| x.0 == 2).map(|x| match &x.1 {
            Val::I32(i) => *i,
            _ => panic!("harness"),
        });
        let kind = kind.filter(|k| (0..=10).contains(k)).unwrap_or(0);
        let want = app(kind, msg.as_deref().unwrap_or(DEFAULT_MSG));
        let b = enc(&Val::St(f));
        ctx.case(|| format!("application error from [{}]", hex(&b)), |c| {
            c.key(&b);
            visit(&b);
            c.ran(1);
            let x = [&b[..], &[0x55, 0x00]].concat();
            let (r, seen) = low::run(Prog::AppErr, &x, usize::MAX, Side::Sync, PLAIN);
            ensure!(r.as_ref() == Ok(&want), "read as {} instead of {}", brief_r(&r), want.brief());
            ensure!(seen.consumed == b.len(), "consumed {} of {}", seen.consumed, b.len());
            Ok(())
        });
    }
    jobs.push(job("round trips", move |ctx: &mut Ctx| {
        for (i, k) in akinds().into_iter().enumerate() {
            let lens = bin_lens(Tier::Thorough).into_iter().chain(big_lens(tier));
            for m in lens.flat_map(|n| (0..3).map(move |salt| text(n, salt))).chain(texts()) {
                {
                    let n = m.len();
                    ctx.case(|| format!("application error {:?} with a message of {}", k, n), |c| {
                        c.key(&(i, &m));
                        visit(&(i, &m));
                        c.ran(1);
                        let e = thrift::ApplicationError::new(k, String::from_utf8(m.clone()).unwrap());
                        let (r, o) = with_out(PLAIN, |p| thrift::Error::write_application_error_to_out_protocol(&e, p));
                        ensure!(r.is_ok(), "write failed: {:?}", r);
                        ensure!(o.flushes > 0 && o.flushed_len == o.bytes.len(), "{} flushes, the last after {} of {} bytes", o.flushes, o.flushed_len, o.bytes.len());
                        let (r, seen) = low::run(Prog::AppErr, &o.bytes, usize::MAX, Side::Sync, PLAIN);
                        ensure!(r == Ok(app(i as i32, &m)), "read back as {}", brief_r(&r));
                        ensure!(seen.consumed == o.bytes.len(), "consumed {} of {}", seen.consumed, o.bytes.len());
                        // a second one behind it through the same protocols
                        let (r, o2) = with_out(PLAIN, |p| {
                            thrift::Error::write_application_error_to_out_protocol(&e, p)?;
                            thrift::Error::write_application_error_to_out_protocol(&e, p)
                        });
                        ensure!(r.is_ok() && o2.bytes == [&o.bytes[..], &o.bytes].concat(), "two in a row were written as [{}]", hex(&o2.bytes));
                        let (r, _) = with_in(&o2.bytes, usize::MAX, PLAIN, |p| {
                            let a = thrift::Error::read_application_error_from_in_protocol(p)?;
                            let b = thrift::Error::read_application_error_from_in_protocol(p)?;
                            Ok((a == e, b == e))
                        });
                        ensure!(r == Ok((true, true)), "two in a row were read as {:?}", r);
                        Ok(())
                    });
                }
            }
        }
    }));
    jobs.push(job("within structures", move |ctx: &mut Ctx| {
        use thrift::protocol::*;
        let ids = crate::lowdom::ids(tier);
        for (i, k) in akinds().into_iter().enumerate().step_by(tier.pick(4, 1)) {
            for &a in &ids {
                for &b in &ids {
                    for depth in 1..tier.pick(3, 6) {
                        ctx.case(|| format!("application error {:?} as field {} before field {}, {} structures deep", k, a, b, depth), |c| {
                            c.key(&(i, a, b, depth));
                            visit(&(i, a, b, depth));
                            c.ran(1);
                            let e = thrift::ApplicationError::new(k, "within".to_string());
                            let mut v = app(i as i32, b"within");
                            for _ in 0..depth {
                                v = Val::St(vec![(a, v), (b, Val::I8(5))]);
                            }
                            let (r, o) = with_out(PLAIN, |p| {
                                for _ in 0..depth {
                                    p.write_struct_begin(&TStructIdentifier::new("s"))?;
                                    p.write_field_begin(&TFieldIdentifier::new("e", TType::Struct, a))?;
                                }
                                thrift::Error::write_application_error_to_out_protocol(&e, p)?;
                                for _ in 0..depth {
                                    p.write_field_end()?;
                                    p.write_field_begin(&TFieldIdentifier::new("n", TType::I08, b))?;
                                    p.write_i8(5)?;
                                    p.write_field_end()?;
                                    p.write_field_stop()?;
                                    p.write_struct_end()?;
                                }
                                Ok(())
                            });
                            let denotes = decode_any(Wt::St, &o.bytes, 100);
                            ensure!(r.is_ok() && matches!(&denotes, Verdict::Legal(x, n, _) if *x == v && *n == o.bytes.len()), "written as [{}] ({:?}), which means {:?}", hex(&o.bytes), r, denotes);
                            let (r, seen) = with_in(&o.bytes, usize::MAX, PLAIN, |p| {
                                let mut seen = vec![];
                                for _ in 0..depth {
                                    p.read_struct_begin()?;
                                    seen.push(p.read_field_begin()?.id);
                                }
                                let back = thrift::Error::read_application_error_from_in_protocol(p)?;
                                for _ in 0..depth {
                                    p.read_field_end()?;
                                    seen.push(p.read_field_begin()?.id);
                                    if p.read_i8()? != 5 {
                                        return Err("wrong contents behind the error".into());
                                    }
                                    p.read_field_end()?;
                                    if p.read_field_begin()?.field_type != TType::Stop {
                                        return Err("no end of the structure".into());
                                    }
                                    p.read_struct_end()?;
                                }
                                Ok((back == e, seen))
                            });
                            let want: Vec<_> = (0..2 * depth).map(|j| Some(if j < depth { a } else { b })).collect();
                            ensure!(r == Ok((true, want)), "read back as {:?}", r);
                            ensure!(seen.consumed == o.bytes.len(), "consumed {} of {}", seen.consumed, o.bytes.len());
                            Ok(())
                        });
                    }
                }
            }
        }
    }));
    jobs.push(job("kind codes", move |ctx: &mut Ctx| {
        let n = tier.pick(70_000, 3_000_000);
        for i in (-n..n).chain(ints(32, Tier::Thorough).into_iter().map(|x| x as i32)) {
            reads(ctx, vec![(2, Val::I32(i))]);
            if (-20..40).contains(&i) {
                for m in [vec![], text(9, 1)] {
                    reads(ctx, vec![(1, Val::Bin(m.clone())), (2, Val::I32(i))]);
                    reads(ctx, vec![(2, Val::I32(i)), (1, Val::Bin(m))]);
                }
            }
        }
    }));
    // every sequence of known and unknown fields up to a length, known ones at most once
    for first in 0..3usize {
        jobs.push(job(format!("field sequences{}", first), move |ctx: &mut Ctx| {
            let pay = super::forms::payloads(tier);
            let known: [Option<(i16, Val)>; 3] = [None, Some((1, Val::Bin(text(5, 1)))), Some((2, Val::I32(7)))];
            let mut at: Vec<(i16, Val)> = vec![];
            at.extend(known[first].clone());
            for (i, p) in pay.iter().enumerate() {
                for id in [3i16, 0, -1, 100, 32767] {
                    for second in 0..3usize {
                        if second == first && first != 0 {
                            continue;
                        }
                        for q in [None, Some(pay[(i * 5 + 1) % pay.len()].clone())] {
                            let mut f = at.clone();
                            f.push((id, p.clone()));
                            f.extend(known[second].clone());
                            if let Some(q) = q {
                                f.push((id ^ 64, q));
                            }
                            reads(ctx, f.clone());
                            // unknown first
                            f.rotate_left(1);
                            reads(ctx, f);
                        }
                    }
                }
            }
            reads(ctx, at);
        }));
    }
    jobs
}

// ---------------------------------------------------------------- C24

fn c24(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    jobs.push(job("i/o errors", |ctx: &mut Ctx| {
        for (i, (k, want)) in KINDS.iter().chain([&(std::io::ErrorKind::Interrupted, TK::Unknown)]).enumerate() {
            for m in ["", "text", "\u{20ac}"] {
                ctx.case(|| format!("{:?} {:?}", k, m), |c| {
                    c.key(&(i, m));
                    visit(&(i, m));
                    c.ran(1);
                    match thrift::Error::from(std::io::Error::new(*k, m)) {
                        thrift::Error::Transport(e) => ensure!(e.kind == *want, "mapped to {:?}, not {:?}", e.kind, want),
                        e => return Err(format!("mapped to {:?}", ek(&e))),
                    }
                    match thrift::Error::from(std::io::Error::from(*k)) {
                        thrift::Error::Transport(e) => ensure!(e.kind == *want, "mapped to {:?}, not {:?}", e.kind, want),
                        e => return Err(format!("mapped to {:?}", ek(&e))),
                    }
                    Ok(())
                });
            }
        }
    }));
    jobs.push(job("i/o errors of the system and around others", |ctx: &mut Ctx| {
        let want = |k: std::io::ErrorKind| KINDS.iter().find(|x| x.0 == k).map_or(TK::Unknown, |x| x.1);
        for code in (-10..4200).chain([i32::MIN, i32::MAX]) {
            ctx.case(|| format!("system error {}", code), |c| {
                c.key(&("os", code));
                visit(&("os", code));
                c.ran(1);
                let e = std::io::Error::from_raw_os_error(code);
                let w = EK::T(want(e.kind()));
                let e = ek(&thrift::Error::from(e));
                ensure!(e == w, "mapped to {:?}, not {:?}", e, w);
                Ok(())
            });
        }
        for (i, (k, want)) in KINDS.iter().enumerate() {
            for (j, (inner, _)) in KINDS.iter().enumerate() {
                ctx.case(|| format!("{:?} around {:?}", k, inner), |c| {
                    c.key(&(i, j, "around"));
                    visit(&(i, j, "around"));
                    c.ran(1);
                    let e = ek(&thrift::Error::from(std::io::Error::new(*k, std::io::Error::from(*inner))));
                    ensure!(e == EK::T(*want), "mapped to {:?}, not {:?}", e, want);
                    Ok(())
                });
            }
        }
    }));
    jobs.push(job("conversions", |ctx: &mut Ctx| {
        for b in bad_texts() {
            ctx.case(|| format!("utf-8 failure [{}]", hex(&b)), |c| {
                c.key(&b);
                visit(&b);
                c.ran(1);
                const WANT: EK = EK::P(PK::InvalidData);
                let e = ek(&thrift::Error::from(String::from_utf8(b.clone()).unwrap_err()));
                ensure!(e == WANT, "became {:?}", e);
                // and wherever the readers meet one
                let bin = Val::Bin(b.clone());
                let mut name = vec![0x82, 0x21, 0x05];
                name.extend(enc(&bin));
                let inputs = [
                    (Prog::Text, enc(&bin)),
                    (Prog::Msg, name),
                    (Prog::ListOf(0), enc(&Val::List(Wt::Bin, vec![Val::Bin(vec![b'a']), bin.clone()]))),
                    (Prog::AppErr, enc(&Val::St(vec![(1, bin.clone()), (2, Val::I32(3))]))),
                    (Prog::AppErr, enc(&Val::St(vec![(2, Val::I32(3)), (1, bin.clone())]))),
                ];
                for (g, x) in &inputs {
                    for s in SIDES {
                        if !s.is_async() || g.async_too() {
                            c.ran(1);
                            let (r, _) = low::run(*g, x, usize::MAX, s, PLAIN);
                            ensure!(r == Err(WANT), "{:?} {:?} gave {}", s, g, brief_r(&r));
                        }
                    }
                }
                for t in TYPES.iter().copied() {
                    for f in &t.def().fields {
                        let y = match &f.kind {
                            Kind::Str => bin.clone(),
                            Kind::List(k) if matches!(**k, Kind::Str) => Val::List(Wt::Bin, vec![bin.clone()]),
                            _ => continue,
                        };
                        let mut v = if t.def().union { Val::St(vec![]) } else { build(t.def(), 1, false) };
                        v.set_field(f.id, Some(y));
                        for s in SIDES {
                            c.ran(1);
                            let (r, _) = read(t, &enc(&v), usize::MAX, s);
                            ensure!(r == Err(WANT), "{:?} {}.{} gave {}", s, t.name(), f.id, brief_r(&r));
                        }
                    }
                }
                Ok(())
            });
        }
        for x in [256i64, -1, i64::MAX, i64::MIN] {
            ctx.case(|| format!("integer conversion of {}", x), |c| {
                c.key(&x);
                visit(&x);
                c.ran(1);
                let e = ek(&thrift::Error::from(u8::try_from(x).unwrap_err()));
                ensure!(e == EK::P(PK::InvalidData), "became {:?}", e);
                Ok(())
            });
        }
        ctx.case(|| "allocation failures".to_string(), |c| {
            c.ran(2);
            let e = Vec::<u64>::new().try_reserve(usize::MAX).unwrap_err();
            let e = ek(&thrift::Error::from(e));
            ensure!(e == EK::P(PK::SizeLimit), "capacity overflow became {:?}", e);
            let (e, _) = crate::alloc::measure(1000, || Vec::<u64>::new().try_reserve(5000).unwrap_err());
            let e = ek(&thrift::Error::from(e));
            ensure!(e == EK::P(PK::SizeLimit), "a refused allocation became {:?}", e);
            Ok(())
        });
        let many: Vec<String> = texts().into_iter().chain(big_lens(Tier::Quick).into_iter().map(|n| text(n, n))).map(|t| String::from_utf8(t).unwrap()).collect();
        for m in ["", "text", "\u{20ac}uro", "{}"].into_iter().chain(many.iter().map(|m| m.as_str())) {
            ctx.case(|| format!("string {:?}", m), |c| {
                c.key(&m);
                visit(&m);
                c.ran(2);
                for e in [thrift::Error::from(m), thrift::Error::from(m.to_string())] {
                    match e {
                        thrift::Error::Application(a) => ensure!(a.message == m, "message became {:?}", a.message),
                        e => return Err(format!("became {:?}", ek(&e))),
                    }
                }
                Ok(())
            });
        }
    }));
    // codes
    fn codes(x: i32) -> Result<(), String> {
        // compared by number first, so that the exhaustive run stays cheap
        let t = thrift::TransportErrorKind::try_from(x);
        let p = thrift::ProtocolErrorKind::try_from(x);
        let a = thrift::ApplicationErrorKind::try_from(x);
        let ok = |n: usize| (0..n as i32).contains(&x);
        ensure!(t.is_ok() == ok(7) && p.is_ok() == ok(7) && a.is_ok() == ok(11), "code {}: transport {:?}, protocol {:?}, application {:?}", x, t.is_ok(), p.is_ok(), a.is_ok());
        if let Ok(k) = t {
            ensure!(k == tkinds()[x as usize] && k as i32 == x, "transport code {} is {:?}", x, k);
        }
        if let Ok(k) = p {
            ensure!(k == pkinds()[x as usize] && k as i32 == x, "protocol code {} is {:?}", x, k);
        }
        if let Ok(k) = a {
            ensure!(k == akinds()[x as usize] && k as i32 == x, "application code {} is {:?}", x, k);
        }
        Ok(())
    }
    for part in 0..tier.pick(1, 64u64) {
        jobs.push(job(format!("codes{}", part), move |ctx: &mut Ctx| {
            if tier == Tier::Quick {
                for x in (-200_000..200_000).chain(ints(32, Tier::Thorough).into_iter().map(|x| x as i32)) {
                    ctx.case(|| format!("code {}", x), |c| {
                        c.key(&x);
                        visit(&x);
                        c.ran(3);
                        codes(x)
                    });
                }
                return;
            }
            let block = 1u64 << 26;
            let mut u = part * block;
            while u < (part + 1) * block {
                ctx.case(|| format!("codes from {}", u as u32 as i32), |c| {
                    c.key(&u);
                    visit(&u);
                    c.ran(3 << 14);
                    (u..u + (1 << 14)).try_for_each(|x| codes(x as u32 as i32))
                });
                u += 1 << 14;
            }
        }));
    }
    jobs
}

// ---------------------------------------------------------------- C25

/// A protocol that records the calls made to it.
#[derive(Default)]
struct Rec {
    log: Vec<String>,
    /// answers to reading calls come from here
    n: u32,
    fail_at: Option<u32>,
}
impl Rec {
    fn call<T>(&mut self, name: &str, arg: String, v: T) -> TResult<T> {
        self.log.push(format!("{}({})", name, arg));
        self.n += 1;
        if self.fail_at == Some(self.n) {
            return Err(thrift::new_transport_error(TK::TimedOut, "here"));
        }
        Ok(v)
    }
}
impl TOutputProtocol for Rec {
    fn write_message_begin(&mut self, i: &TMessageIdentifier) -> TResult<usize> {
        self.call("write_message_begin", format!("{:?}", i), 3)
    }
    fn write_message_end(&mut self) -> TResult<usize> {
        self.call("write_message_end", String::new(), 5)
    }
    fn write_struct_begin(&mut self, i: &TStructIdentifier) -> TResult<usize> {
        self.call("write_struct_begin", format!("{:?}", i), 7)
    }
    fn write_struct_end(&mut self) -> TResult<usize> {
        self.call("write_struct_end", String::new(), 11)
    }
    fn write_field_begin(&mut self, i: &TFieldIdentifier) -> TResult<usize> {
        self.call("write_field_begin", format!("{:?}", i), 13)
    }
    fn write_field_end(&mut self) -> TResult<usize> {
        self.call("write_field_end", String::new(), 17)
    }
    fn write_field_stop(&mut self) -> TResult<usize> {
        self.call("write_field_stop", String::new(), 19)
    }
    fn write_bool(&mut self, b: bool) -> TResult<usize> {
        self.call("write_bool", format!("{:?}", b), 23)
    }
    fn write_bytes(&mut self, b: &[u8]) -> TResult<usize> {
        self.call("write_bytes", format!("{:?}", b), 29)
    }
    fn write_i8(&mut self, i: i8) -> TResult<usize> {
        self.call("write_i8", format!("{:?}", i), 31)
    }
    fn write_i16(&mut self, i: i16) -> TResult<usize> {
        self.call("write_i16", format!("{:?}", i), 37)
    }
    fn write_i32(&mut self, i: i32) -> TResult<usize> {
        self.call("write_i32", format!("{:?}", i), 41)
    }
    fn write_i64(&mut self, i: i64) -> TResult<usize> {
        self.call("write_i64", format!("{:?}", i), 43)
    }
    fn write_double(&mut self, d: f64) -> TResult<usize> {
        self.call("write_double", format!("{:?}", d.to_bits()), 47)
    }
    fn write_string(&mut self, s: &str) -> TResult<usize> {
        self.call("write_string", format!("{:?}", s), 53)
    }
    fn write_list_begin(&mut self, i: &TListIdentifier) -> TResult<usize> {
        self.call("write_list_begin", format!("{:?}", i), 59)
    }
    fn write_list_end(&mut self) -> TResult<usize> {
        self.call("write_list_end", String::new(), 61)
    }
    fn write_set_begin(&mut self, i: &TSetIdentifier) -> TResult<usize> {
        self.call("write_set_begin", format!("{:?}", i), 67)
    }
    fn write_set_end(&mut self) -> TResult<usize> {
        self.call("write_set_end", String::new(), 71)
    }
    fn write_map_begin(&mut self, i: &TMapIdentifier) -> TResult<usize> {
        self.call("write_map_begin", format!("{:?}", i), 73)
    }
    fn write_map_end(&mut self) -> TResult<usize> {
        self.call("write_map_end", String::new(), 79)
    }
    fn flush(&mut self) -> TResult<()> {
        self.call("flush", String::new(), ())
    }
    fn write_byte(&mut self, b: u8) -> TResult<usize> {
        self.call("write_byte", format!("{:?}", b), 83)
    }
}
impl TInputProtocol for Rec {
    fn read_message_begin(&mut self) -> TResult<TMessageIdentifier> {
        self.call("read_message_begin", String::new(), TMessageIdentifier::new("m", TMessageType::Reply, 9))
    }
    fn read_message_end(&mut self) -> TResult<()> {
        self.call("read_message_end", String::new(), ())
    }
    fn read_struct_begin(&mut self) -> TResult<Option<TStructIdentifier>> {
        self.call("read_struct_begin", String::new(), Some(TStructIdentifier::new("s")))
    }
    fn read_struct_end(&mut self) -> TResult<()> {
        self.call("read_struct_end", String::new(), ())
    }
    fn read_field_begin(&mut self) -> TResult<TFieldIdentifier> {
        self.call("read_field_begin", String::new(), TFieldIdentifier::new("f", TType::I16, 77))
    }
    fn read_field_end(&mut self) -> TResult<()> {
        self.call("read_field_end", String::new(), ())
    }
    fn read_bool(&mut self) -> TResult<bool> {
        self.call("read_bool", String::new(), true)
    }
    fn read_bytes(&mut self) -> TResult<Vec<u8>> {
        self.call("read_bytes", String::new(), vec![1, 2, 3])
    }
    fn read_i8(&mut self) -> TResult<i8> {
        self.call("read_i8", String::new(), -8)
    }
    fn read_i16(&mut self) -> TResult<i16> {
        self.call("read_i16", String::new(), -16)
    }
    fn read_i32(&mut self) -> TResult<i32> {
        self.call("read_i32", String::new(), -32)
    }
    fn read_i64(&mut self) -> TResult<i64> {
        self.call("read_i64", String::new(), -64)
    }
    fn read_double(&mut self) -> TResult<f64> {
        self.call("read_double", String::new(), 2.5)
    }
    fn read_string(&mut self) -> TResult<String> {
        self.call("read_string", String::new(), "text".into())
    }
    fn read_list_begin(&mut self) -> TResult<TListIdentifier> {
        self.call("read_list_begin", String::new(), TListIdentifier::new(TType::I08, 2))
    }
    fn read_list_end(&mut self) -> TResult<()> {
        self.call("read_list_end", String::new(), ())
    }
    fn read_set_begin(&mut self) -> TResult<TSetIdentifier> {
        self.call("read_set_begin", String::new(), TSetIdentifier::new(TType::I64, 3))
    }
    fn read_set_end(&mut self) -> TResult<()> {
        self.call("read_set_end", String::new(), ())
    }
    fn read_map_begin(&mut self) -> TResult<TMapIdentifier> {
        self.call("read_map_begin", String::new(), TMapIdentifier::new(TType::I16, TType::Double, 2))
    }
    fn read_map_end(&mut self) -> TResult<()> {
        self.call("read_map_end", String::new(), ())
    }
    fn read_byte(&mut self) -> TResult<u8> {
        self.call("read_byte", String::new(), 200)
    }
}
/// Every output call by number; the answer as text.
fn out_call<P: TOutputProtocol + ?Sized>(p: &mut P, k: usize) -> String {
    let f = TFieldIdentifier::new("f", TType::I64, 12);
    let r = match k {
        0 => p.write_message_begin(&TMessageIdentifier::new("m", TMessageType::OneWay, 6)),
        1 => p.write_message_end(),
        2 => p.write_struct_begin(&TStructIdentifier::new("s")),
        3 => p.write_struct_end(),
        4 => p.write_field_begin(&f),
        5 => p.write_field_end(),
        6 => p.write_field_stop(),
        7 => p.write_bool(true),
        8 => p.write_bytes(&[9, 8]),
        9 => p.write_i8(-3),
        10 => p.write_i16(-300),
        11 => p.write_i32(-70_000),
        12 => p.write_i64(1 << 40),
        13 => p.write_double(-0.0),
        14 => p.write_string("x"),
        15 => p.write_list_begin(&TListIdentifier::new(TType::I08, 4)),
        16 => p.write_list_end(),
        17 => p.write_set_begin(&TSetIdentifier::new(TType::Bool, 5)),
        18 => p.write_set_end(),
        19 => p.write_map_begin(&TMapIdentifier::new(TType::I08, TType::String, 6)),
        20 => p.write_map_end(),
        21 => p.flush().map(|_| 0),
        22 => p.write_byte(250),
        _ => p.write_bool(false),
    };
    format!("{:?}", r.map_err(|e| ek(&e)))
}
const OUT_CALLS: usize = 24;
fn in_call<P: TInputProtocol>(p: &mut P, k: usize) -> String {
    fn s<T: std::fmt::Debug>(r: TResult<T>) -> String {
        format!("{:?}", r.map_err(|e| ek(&e)))
    }
    match k {
        0 => s(p.read_message_begin()),
        1 => s(p.read_message_end()),
        2 => s(p.read_struct_begin()),
        3 => s(p.read_struct_end()),
        4 => s(p.read_field_begin()),
        5 => s(p.read_field_end()),
        6 => s(p.read_bool()),
        7 => s(p.read_bytes()),
        8 => s(p.read_i8()),
        9 => s(p.read_i16()),
        10 => s(p.read_i32()),
        11 => s(p.read_i64()),
        12 => s(p.read_double()),
        13 => s(p.read_string()),
        14 => s(p.read_list_begin()),
        15 => s(p.read_list_end()),
        16 => s(p.read_set_begin()),
        17 => s(p.read_set_end()),
        18 => s(p.read_map_begin()),
        19 => s(p.read_map_end()),
        20 => s(p.read_byte()),
        21 => s(p.skip(TType::I32)),
        22 => s(p.skip_till_depth(TType::List, 3)),
        23 => s(p.skip_till_depth(TType::Map, 2)),
        24 => s(p.skip(TType::String)),
        25 => s(p.skip(TType::Bool)),
        _ => s(p.read_list::<u8>()),
    }
}
const IN_CALLS: usize = 27;

fn c25(tier: Tier) -> Vec<Job> {
    let mut jobs = c25_reading(tier);
    jobs.extend(value_jobs(tier, |t, v, c| {
        visit(&(t.name(), v));
        c.ran(2);
        let (a, b) = (write(t, v, Side::Sync), write(t, v, Side::BoxSync));
        ensure!(a == b, "direct gave {:?} [{}], boxed gave {:?} [{}]", a.0, hex(&a.1.bytes), b.0, hex(&b.1.bytes));
        Ok(())
    }));
    jobs.extend(low_jobs(tier, |v, c| {
        visit(v);
        for text in [false, true] {
            c.ran(2);
            let (a, b) = (low::write_low(v, text, Side::Sync, PLAIN), low::write_low(v, text, Side::BoxSync, PLAIN));
            ensure!(a == b, "direct gave {:?} [{}], boxed gave {:?} [{}]", a.0, hex(&a.1.bytes), b.0, hex(&b.1.bytes));
            let (x, y) = (low::read_low(v.wt(), false, &a.1.bytes, usize::MAX, Side::Sync, PLAIN), low::read_low(v.wt(), false, &a.1.bytes, usize::MAX, Side::BoxSync, PLAIN));
            ensure!(x.0 == y.0 && x.1 == y.1, "direct read {}, boxed read {}", brief_r(&x.0), brief_r(&y.0));
        }
        Ok(())
    }));
    // failing transports
    jobs.push(job("failures", move |ctx: &mut Ctx| {
        for t in TYPES.iter().copied() {
            let v = build(t.def(), 2, true);
            let b = enc(&v);
            for i in 0..b.len() {
                for (n, k) in [std::io::ErrorKind::NotConnected, std::io::ErrorKind::Other].into_iter().enumerate() {
                    ctx.case(|| format!("{} with {:?} at call {}", t.name(), k, i), |c| {
                        c.key(&(t.name(), i, n));
                        visit(&(t.name(), i, n));
                        c.ran(4);
                        let d = [(i, Dev::Fail(k))];
                        let p = Plan { devs: &d, mode: Mode::Normal };
                        let (x, y) = (read_plan(t, &b, usize::MAX, Side::Sync, p), read_plan(t, &b, usize::MAX, Side::BoxSync, p));
                        ensure!(x == y, "direct read {}, boxed read {}", brief_r(&x.0), brief_r(&y.0));
                        let (x, y) = (write_plan(t, &v, Side::Sync, p), write_plan(t, &v, Side::BoxSync, p));
                        ensure!(x == y, "direct write {:?} [{}], boxed write {:?} [{}]", x.0, hex(&x.1.bytes), y.0, hex(&y.1.bytes));
                        Ok(())
                    });
                }
            }
        }
    }));
    // a recording protocol: every pair of calls, with a failure at each place
    jobs.push(job("recorded output calls", |ctx: &mut Ctx| {
        for a in 0..OUT_CALLS {
            for b in 0..OUT_CALLS {
                for fail in [None, Some(1), Some(2)] {
                    ctx.case(|| format!("output calls {} then {} failing {:?}", a, b, fail), |c| {
                        c.key(&(a, b, fail));
                        visit(&(a, b, fail));
                        c.ran(3);
                        let mut direct = Rec { fail_at: fail, ..Default::default() };
                        let x = [out_call(&mut direct, a), out_call(&mut direct, b)];
                        let mut boxed = Box::new(Rec { fail_at: fail, ..Default::default() });
                        let y = [out_call(&mut boxed, a), out_call(&mut boxed, b)];
                        ensure!(x == y && direct.log == boxed.log, "direct {:?} {:?}, boxed {:?} {:?}", x, direct.log, y, boxed.log);
                        let mut dynb: Box<Box<Rec>> = Box::new(Box::new(Rec { fail_at: fail, ..Default::default() }));
                        let z = [out_call(&mut dynb, a), out_call(&mut dynb, b)];
                        ensure!(x == z && direct.log == dynb.log, "direct {:?} {:?}, boxed twice {:?} {:?}", x, direct.log, z, dynb.log);
                        Ok(())
                    });
                }
            }
        }
    }));
    jobs.push(job("recorded input calls", |ctx: &mut Ctx| {
        for a in 0..IN_CALLS {
            for b in 0..IN_CALLS {
                for fail in [None, Some(1), Some(2), Some(3), Some(5)] {
                    ctx.case(|| format!("input calls {} then {} failing {:?}", a, b, fail), |c| {
                        c.key(&(a, b, fail, "in"));
                        visit(&(a, b, fail, "in"));
                        c.ran(2);
                        let mut direct = Rec { fail_at: fail, ..Default::default() };
                        let x = [in_call(&mut direct, a), in_call(&mut direct, b)];
                        let mut boxed = Box::new(Rec { fail_at: fail, ..Default::default() });
                        let y = [in_call(&mut boxed, a), in_call(&mut boxed, b)];
                        ensure!(x == y && direct.log == boxed.log, "direct {:?} {:?}, boxed {:?} {:?}", x, direct.log, y, boxed.log);
                        Ok(())
                    });
                }
            }
        }
    }));
    // real protocols, call by call
    jobs.push(job("output call pairs", |ctx: &mut Ctx| {
        // only sequences the protocol permits: inside a structure, after a field header of the right type
        for a in [0usize, 1, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22] {
            for b in [0usize, 1, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 7] {
                ctx.case(|| format!("compact output calls {} then {}", a, b), |c| {
                    c.key(&(a, b, "real"));
                    visit(&(a, b, "real"));
                    c.ran(2);
                    let (x, ox) = with_out(PLAIN, |p| Ok([out_call(p, a), out_call(p, b)]));
                    let mut e = Env::writer();
                    let y = {
                        let mut p = Box::new(TCompactOutputProtocol::new(&mut e));
                        [out_call(&mut p, a), out_call(&mut p, b)]
                    };
                    ensure!(x == Ok(y.clone()) && ox == Wrote::of(e), "direct {:?} [{}], boxed {:?}", x, hex(&ox.bytes), y);
                    Ok(())
                });
            }
        }
    }));
    jobs
}

// ---------------------------------------------------------------- C27

fn c27(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    fn judge(r: TResult<()>, same: bool, kind: EK, c: &mut Case) -> Result<(), String> {
        c.ran(1);
        let r = r.map_err(|e| ek(&e));
        ensure!(r == if same { Ok(()) } else { Err(kind) }, "gave {:?} for {} items", r, if same { "equal" } else { "different" });
        Ok(())
    }
    jobs.push(job("sequence numbers", move |ctx: &mut Ctx| {
        let mut ns: Vec<i32> = ints(32, tier).into_iter().map(|x| x as i32).collect();
        ns.extend((0..32).map(|k| (1u32 << k) as i32));
        ns.extend(-20..20);
        ns.sort();
        ns.dedup();
        for &a in &ns {
            for &b in &ns {
                ctx.case(|| format!("sequence numbers {} {}", a, b), |c| {
                    c.key(&(a, b));
                    visit(&(a, b));
                    judge(verify_expected_sequence_number(a, b), a == b, EK::A(AK::BadSequenceId), c)
                });
            }
        }
    }));
    jobs.push(job("names", |ctx: &mut Ctx| {
        let mut names: Vec<String> = ["", "a", "A", "b", "ab", "aB", "abc", "a ", " a", "a\0", "\u{e9}", "e\u{301}", "call", "Call", "calls", "cal"].iter().map(|s| s.to_string()).collect();
        // every short name over a small alphabet
        for len in 1..=4 {
            for code in 0..3usize.pow(len) {
                let mut c = code;
                names.push((0..len).map(|_| { let x = ['x', 'Y', '_'][c % 3]; c /= 3; x }).collect());
            }
        }
        // long names which differ in one place, are cut, or differ in case
        for n in [7usize, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 4097] {
            let base: String = (0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect();
            for at in 0..n {
                for x in ['#', (base.as_bytes()[at] ^ 0x20) as char, '\0', (base.as_bytes()[at] + 1) as char] {
                    let mut o = base.clone();
                    o.replace_range(at..=at, &x.to_string());
                    for (a, b) in [(&base, &o), (&o, &base)] {
                        ctx.case(|| format!("names {:?} {:?}", a, b), |c| {
                            c.key(&(a, b));
                            visit(&(a, b));
                            judge(verify_expected_service_call(a, b), false, EK::A(AK::WrongMethodName), c)
                        });
                    }
                }
                for o in [base[..at].to_string(), base[at..].to_string() + "b", base.clone() + &base[..at + 1], base.clone()] {
                    for (a, b) in [(&base, &o), (&o, &base)] {
                        ctx.case(|| format!("names {:?} {:?}", a, b), |c| {
                            c.key(&(a, b));
                            visit(&(a, b));
                            judge(verify_expected_service_call(a, b), a == b, EK::A(AK::WrongMethodName), c)
                        });
                    }
                }
            }
        }
        for a in &names {
            for b in &names {
                ctx.case(|| format!("names {:?} {:?}", a, b), |c| {
                    c.key(&(a, b));
                    visit(&(a, b));
                    judge(verify_expected_service_call(a, b), a == b, EK::A(AK::WrongMethodName), c)
                });
            }
        }
    }));
    jobs.push(job("types, fields and ids", |ctx: &mut Ctx| {
        for a in 0..4 {
            for b in 0..4 {
                ctx.case(|| format!("message types {} {}", a, b), |c| {
                    c.key(&(a, b, "t"));
                    visit(&(a, b, "t"));
                    judge(verify_expected_message_type(msg_type(a), msg_type(b)), a == b, EK::A(AK::InvalidMessageType), c)
                });
            }
        }
        for name in ["", "f", "long name"] {
            ctx.case(|| format!("required field {:?}", name), |c| {
                c.key(&name);
                visit(&name);
                judge(verify_required_field_exists(name, &Some(0)), true, EK::P(PK::Unknown), c)?;
                judge(verify_required_field_exists(name, &Some(())), true, EK::P(PK::Unknown), c)?;
                judge(verify_required_field_exists(name, &Some(String::new())), true, EK::P(PK::Unknown), c)?;
                judge(verify_required_field_exists(name, &Some(None::<u8>)), true, EK::P(PK::Unknown), c)?;
                judge(verify_required_field_exists::<u8>(name, &None), false, EK::P(PK::Unknown), c)?;
                judge(verify_required_field_exists::<Vec<u8>>(name, &None), false, EK::P(PK::Unknown), c)
            });
        }
        for id in i16::MIN..=i16::MAX {
            ctx.case(|| format!("id {}", id), |c| {
                c.key(&id);
                visit(&id);
                c.ran(1);
                let f = TFieldIdentifier { name: None, field_type: TType::I32, id: Some(id) };
                let r = field_id(&f).map_err(|e| ek(&e));
                ensure!(r == Ok(id), "gave {:?}", r);
                Ok(())
            });
        }
        for name in [None, Some("f".to_string())] {
            ctx.case(|| "no id".to_string(), |c| {
                c.ran(1);
                let f = TFieldIdentifier { name, field_type: TType::Stop, id: None };
                let r = field_id(&f).map_err(|e| ek(&e));
                ensure!(r == Err(EK::P(PK::Unknown)), "gave {:?}", r);
                Ok(())
            });
        }
    }));
    jobs
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C17",
            level: "model_checking",
            rule: "one case = one integer (or, for 32 bits, a block of 4096) or one byte string; distinct = distinct (width, integer or string)",
            explanation: "All 8- and 16-bit integers; 32-bit ones in blocks (all of them in the thorough run); 64-bit ones by all combinations of seven-bit groups over a small set and around every power of two; all byte strings of up to two bytes, all over a small alphabet up to six, and all endings of long runs.",
            assumptions: &["values outside the type's range are not judged: the crate documents that they are truncated"],
            jobs: c17,
        },
        Check {
            id: "C18",
            level: "model_checking",
            rule: "one case = one envelope (around a structure) or one header; distinct = distinct envelopes and headers",
            explanation: "Names x types x sequence numbers over boundary domains, around structures of every type, twice in one stream; all 65536 values of the first two bytes.",
            assumptions: &[],
            jobs: c18,
        },
        Check {
            id: "C22",
            level: "model_checking",
            rule: "one case = one code or block of codes of one enumeration; distinct = distinct (enumeration, code)",
            explanation: "Every named constant against the IDL; codes around zero and every power of two through both writers and readers; conversions over blocks (all 2^32 codes in the thorough run).",
            assumptions: &["the transcription of parquet.thrift in harness/src/schema.rs"],
            jobs: c22,
        },
        Check {
            id: "C23",
            level: "model_checking",
            rule: "one case = one application error written and read, or one encoding read; distinct = distinct encodings",
            explanation: "All kinds x messages; kind codes around zero and boundaries; field subsets and orders with unknown fields of every type.",
            assumptions: &["application errors exist only on the synchronous side"],
            jobs: c23,
        },
        Check {
            id: "C24",
            level: "model_checking",
            rule: "one case = one I/O error kind, conversion or code; distinct = distinct inputs",
            explanation: "Every stable I/O error kind; codes around zero and boundaries (all 2^32 in the thorough run) for the three kinds of error; the other conversions on representatives.",
            assumptions: &["the table of I/O error kinds in harness/src/checks/faults.rs is what the errors module defines"],
            jobs: c24,
        },
        Check {
            id: "C25",
            level: "model_checking",
            rule: "one case = one input, value, sequence or call pair, boxed and direct compared; distinct = distinct (subject, input)",
            explanation: "Product exploration of boxed against direct use over the input families of C01, the value domain of C02, the sequences of C19, failing transports, and all pairs of calls on a recording protocol.",
            assumptions: &[],
            jobs: c25,
        },
        Check {
            id: "C27",
            level: "model_checking",
            rule: "one case = one pair of items; distinct = distinct pairs",
            explanation: "All pairs over boundary domains of numbers, names and types; all 16-bit field ids.",
            assumptions: &[],
            jobs: c27,
        },
    ]
}
