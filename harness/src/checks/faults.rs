//! Checks quantified over what the transport answers: C14, C15, C16.
use super::forms::payloads;
use crate::domain::*;
use crate::engine::*;
use crate::ensure;
use crate::env::*;
use crate::low::{self, *};
use crate::lowdom::*;
use crate::ops::*;
use crate::schema::*;
use crate::val::*;
use parquet_format_safe::thrift;
use thrift::protocol::TCompactOutputProtocol;
use std::io::ErrorKind as IK;

/// Something to read: runs on a side under a plan of transport answers.
type Reader<'r> = dyn Fn(&[u8], Side, Plan) -> (Result<Val, EK>, Seen) + 'r;

/// The subjects shared by the read-side checks: (name, input, which sides, how to read it).
fn subjects(tier: Tier, broken: bool, f: impl Fn(&mut Ctx, &str, &[u8], &[Side], &Reader) + Copy + Sync + Send + 'static) -> Vec<Job> {
    let mut jobs = vec![];
    let mut order: Vec<&'static dyn Ty> = TYPES.to_vec();
    order.sort_by_key(|t| std::cmp::Reverse(enc(&build(t.def(), 2, true)).len()));
    for t in order {
        let mut inputs: Vec<Vec<u8>> = vec![];
        core(t.def(), &mut |v| {
            inputs.push(enc(&v));
            inputs.push(enc_form(&v, &mut Form::with(&[], 2)));
        });
        if !t.def().union {
            if let Val::St(fs) = build(t.def(), 1, false) {
                for (i, p) in payloads(Tier::Quick).into_iter().enumerate() {
                    if i % tier.pick(6, 1) == 0 {
                        let mut g = fs.clone();
                        g.insert(g.len() / 2, (120, p));
                        inputs.push(enc(&Val::St(g)));
                    }
                }
            }
        }
        // longer text, binaries and integers
        for fam in [2, 3] {
            let mut n = 0;
            family(t.def(), fam, Tier::Quick, &mut |v| {
                n += 1;
                let b = enc(&v);
                if n % tier.pick(23, 3) == 0 && b.len() < 400 {
                    inputs.push(b);
                }
            });
        }
        // large text and binaries: few calls, each with much to deliver
        sizes(t.def(), LARGE, &mut |v| {
            if !has_long_list(&v) {
                inputs.push(enc(&v));
            }
        });
        if !t.def().union {
            for n in LARGE {
                let Val::St(mut g) = build(t.def(), 1, false) else { panic!("harness") };
                g.push((120, Val::Bin(pattern(*n, 9))));
                inputs.push(enc(&Val::St(g)));
            }
        }
        inputs.dedup();
        if broken {
            // inputs that fail: cut, and with a byte changed
            let large: Vec<Vec<u8>> = inputs.iter().filter(|b| b.len() > 500).map(|b| b[..b.len() - 5].to_vec()).collect();
            let whole = inputs.clone();
            inputs.extend(large);
            for b in whole.iter().take(tier.pick(6, 40)) {
                let step = (b.len() / tier.pick(12, 60)).max(1);
                for n in (0..b.len()).step_by(step) {
                    inputs.push(b[..n].to_vec());
                    let mut x = b.clone();
                    x[n] ^= 0xff;
                    inputs.push(x);
                    let mut x = b.clone();
                    x[n] = 0x0f;
                    inputs.push(x);
                }
            }
        }
        for (ci, ch) in inputs.chunks(40).enumerate() {
            let ch = ch.to_vec();
            jobs.push(job(format!("{}/part{}", t.name(), ci), move |ctx: &mut Ctx| {
                for b in &ch {
                    f(ctx, t.name(), b, &SIDES, &|b, s, p| read_plan(t, b, READ_LIMIT, s, p));
                }
            }));
        }
    }
    for w in WTS {
        jobs.push(job(format!("{:?}/low-level", w), move |ctx: &mut Ctx| {
            let mut vals: Vec<Val> = leaf_all(w, Tier::Quick).into_iter().step_by(tier.pick(3, 1)).collect();
            vals.extend(nested(2).into_iter().filter(|v| v.wt() == w).step_by(tier.pick(4, 1)));
            vals.retain(|v| enc(v).len() <= 1000);
            vals.extend(large_low(w));
            for v in vals {
                let b = enc(&v);
                for g in [Prog::Any(w), Prog::Skip(w)] {
                    f(ctx, &format!("{:?}", g), &b, &SIDES, &|b, s, p| low::run(g, b, READ_LIMIT, s, p));
                }
                if broken && b.len() > 1 {
                    for g in [Prog::Any(w), Prog::Skip(w)] {
                        f(ctx, &format!("{:?}", g), &b[..b.len() - 1], &SIDES, &|b, s, p| low::run(g, b, READ_LIMIT, s, p));
                    }
                }
            }
        }));
    }
    jobs.push(job("messages", move |ctx: &mut Ctx| {
        for m in msgs(Tier::Quick).into_iter().enumerate().filter(|(i, m)| i % tier.pick(13, 2) == 0 || m.name.len() > 1000).map(|x| x.1) {
            let g = Prog::Msg;
            f(ctx, "message", &m.enc(), &SIDES, &|b, s, p| low::run(g, b, READ_LIMIT, s, p));
        }
    }));
    jobs.push(job("application errors", move |ctx: &mut Ctx| {
        for n in [0usize, 1, 5, 130, 1025, 5000, 20000] {
            for extra in [vec![], vec![(7i16, leaf(Wt::Map, 1)), (8, Val::Bin(vec![0xff; 9]))]] {
                let mut fs = extra.clone();
                fs.insert(0, (2, Val::I32(4)));
                fs.push((9, Val::Bool(true)));
                fs.insert(0, (1, Val::Bin(text(n, 3))));
                f(ctx, "application error", &enc(&Val::St(fs)), &[Side::Sync], &|b, s, p| low::run(Prog::AppErr, b, READ_LIMIT, s, p));
            }
        }
    }));
    jobs
}
/// generous for the inputs here, small enough that a mangled length cannot ask for gigabytes
const READ_LIMIT: usize = 1 << 20;

fn large_low(w: Wt) -> Vec<Val> {
    LARGE
        .iter()
        .filter_map(|&n| {
            let b = Val::Bin(pattern(n, 6));
            match w {
                Wt::Bin => Some(b),
                Wt::List | Wt::Set | Wt::Map | Wt::St => Some(super::forms::wrap(match w { Wt::St => 0, Wt::List => 1, Wt::Set => 2, _ => 4 }, b)),
                _ => None,
            }
        })
        .collect()
}
/// Sizes past those of likely buffers.
const LARGE: &[usize] = &[513, 1025, 4097, 5000, 8193, 16385, 40000, 65537];
fn has_long_list(v: &Val) -> bool {
    match v {
        Val::St(f) => f.iter().any(|x| has_long_list(&x.1)),
        Val::List(_, e) => e.len() > 20 || e.iter().any(has_long_list),
        _ => false,
    }
}
/// Every call delivering or accepting at most so much.
const MODES: &[Mode] = &[Mode::OneByte, Mode::Bumpy, Mode::BumpyOneByte, Mode::Chunk(2), Mode::Chunk(3), Mode::Chunk(5), Mode::Chunk(64), Mode::Chunk(1000), Mode::Chunk(4096), Mode::Stubborn(2), Mode::Stubborn(40)];

fn benign(s: Side) -> &'static [Dev] {
    if s.is_async() {
        &[Dev::Short, Dev::AllButOne, Dev::Half, Dev::Pending, Dev::PendingTwice]
    } else {
        &[Dev::Short, Dev::AllButOne, Dev::Half, Dev::Interrupted]
    }
}

// ---------------------------------------------------------------- C14

fn c14(tier: Tier) -> Vec<Job> {
    subjects(tier, true, move |ctx, what, b, sides, run| {
        for &s in sides {
            if ctx.stopped() {
                return;
            }
            let mut base: Option<(Result<Val, EK>, Seen)> = None;
            ctx.case(|| format!("{:?} {} undisturbed: [{}]", s, what, hex(b)), |c| {
                c.ran(1);
                base = Some(run(b, s, PLAIN));
                Ok(())
            });
            let Some((r0, seen0)) = base else { return };
            let same = |r: &Result<Val, EK>, seen: &Seen| -> Result<(), String> {
                ensure!(*r == r0, "gave {}; undisturbed it gives {}", brief_r(r), brief_r(&r0));
                ensure!(r0.is_err() || seen.consumed == seen0.consumed, "consumed {} instead of {}", seen.consumed, seen0.consumed);
                Ok(())
            };
            for &mode in MODES {
                ctx.case(|| format!("{:?} {} with every call {:?}: [{}]", s, what, mode, hex(b)), |c| {
                    c.key(&(what, b, s, mode.key()));
                    visit(&(what, b, s.is_async(), mode.key()));
                    c.ran(1);
                    let (r, seen) = run(b, s, Plan { devs: &[], mode });
                    same(&r, &seen)
                });
            }
            // one departure at every call; then a second one at every later call of the disturbed run
            let pairs = seen0.calls <= tier.pick(24, 120);
            let mut i = 0;
            while i < seen0.calls {
                for &d in benign(s) {
                    if ctx.stopped() {
                        return;
                    }
                    let mut calls = 0;
                    ctx.case(|| format!("{:?} {} with {:?} at call {}: [{}]", s, what, d, i, hex(b)), |c| {
                        let (r, seen) = run(b, s, Plan { devs: &[(i, d)], mode: Mode::Normal });
                        c.ran(1);
                        if seen.applied > 0 {
                            calls = seen.calls;
                            c.key(&(what, b, s, i, d.key()));
                            visit(&(what, b, s.is_async(), i, d.key()));
                        }
                        same(&r, &seen)
                    });
                    if !pairs || calls == 0 {
                        continue;
                    }
                    for j in i + 1..calls {
                        for &e in benign(s) {
                            ctx.case(|| format!("{:?} {} with {:?} at call {} and {:?} at call {}: [{}]", s, what, d, i, e, j, hex(b)), |c| {
                                let (r, seen) = run(b, s, Plan { devs: &[(i, d), (j, e)], mode: Mode::Normal });
                                c.ran(1);
                                if seen.applied > 1 {
                                    c.key(&(what, b, s, i, j, d.key(), e.key()));
                                    visit(&(what, b, s.is_async(), i, j, d.key(), e.key()));
                                }
                                same(&r, &seen)
                            });
                        }
                    }
                }
                i += 1;
            }
        }
    })
}

// ---------------------------------------------------------------- C15

pub const KINDS: &[(IK, TK)] = &[
    (IK::NotFound, TK::Unknown),
    (IK::PermissionDenied, TK::Unknown),
    (IK::ConnectionRefused, TK::NotOpen),
    (IK::ConnectionReset, TK::NotOpen),
    (IK::HostUnreachable, TK::Unknown),
    (IK::NetworkUnreachable, TK::Unknown),
    (IK::ConnectionAborted, TK::Unknown),
    (IK::NotConnected, TK::NotOpen),
    (IK::AddrInUse, TK::Unknown),
    (IK::AddrNotAvailable, TK::Unknown),
    (IK::NetworkDown, TK::Unknown),
    (IK::BrokenPipe, TK::Unknown),
    (IK::AlreadyExists, TK::AlreadyOpen),
    (IK::WouldBlock, TK::Unknown),
    (IK::NotADirectory, TK::Unknown),
    (IK::IsADirectory, TK::Unknown),
    (IK::DirectoryNotEmpty, TK::Unknown),
    (IK::ReadOnlyFilesystem, TK::Unknown),
    (IK::StaleNetworkFileHandle, TK::Unknown),
    (IK::InvalidInput, TK::Unknown),
    (IK::InvalidData, TK::Unknown),
    (IK::TimedOut, TK::TimedOut),
    (IK::WriteZero, TK::Unknown),
    (IK::StorageFull, TK::Unknown),
    (IK::NotSeekable, TK::Unknown),
    (IK::QuotaExceeded, TK::Unknown),
    (IK::FileTooLarge, TK::Unknown),
    (IK::ResourceBusy, TK::Unknown),
    (IK::ExecutableFileBusy, TK::Unknown),
    (IK::Deadlock, TK::Unknown),
    (IK::CrossesDevices, TK::Unknown),
    (IK::TooManyLinks, TK::Unknown),
    (IK::InvalidFilename, TK::Unknown),
    (IK::ArgumentListTooLong, TK::Unknown),
    (IK::Unsupported, TK::Unknown),
    (IK::UnexpectedEof, TK::EndOfFile),
    (IK::OutOfMemory, TK::Unknown),
    (IK::Other, TK::Unknown),
];
/// Interrupted means "try again" to a synchronous transport; asynchronous ones may return neither it nor WouldBlock.
fn failures(s: Side) -> impl Iterator<Item = &'static (IK, TK)> {
    KINDS.iter().filter(move |k| !(s.is_async() && k.0 == IK::WouldBlock))
}

fn c15(tier: Tier) -> Vec<Job> {
    subjects(tier, false, move |ctx, what, b, sides, run| {
        for &s in sides {
            if ctx.stopped() {
                return;
            }
            let mut calls = 0;
            ctx.case(|| format!("{:?} {} undisturbed: [{}]", s, what, hex(b)), |c| {
                c.ran(1);
                calls = run(b, s, PLAIN).1.calls;
                Ok(())
            });
            let long = calls > tier.pick(60, 100_000);
            for i in 0..calls {
                for (n, (k, want)) in failures(s).enumerate() {
                    // in long runs the kinds that map alike share the calls out
                    if long && *want == TK::Unknown && (n + i) % 9 != 0 {
                        continue;
                    }
                    ctx.case(|| format!("{:?} {} with {:?} at call {}: [{}]", s, what, k, i, hex(b)), |c| {
                        c.key(&(what, b, s, i, n));
                        visit(&(what, b, s.is_async(), i, n));
                        c.ran(1);
                        let (r, seen) = run(b, s, Plan { devs: &[(i, Dev::Fail(*k))], mode: Mode::Normal });
                        ensure!(seen.failed_at == Some(i), "harness: the failure was not delivered");
                        ensure!(r == Err(EK::T(*want)), "gave {} instead of a transport error of kind {:?}", brief_r(&r), want);
                        ensure!(seen.calls_after_failure == 0, "{} more transport calls after the failing one", seen.calls_after_failure);
                        Ok(())
                    });
                }
                // the failure after a short or interrupted call just before it
                if i > 0 {
                    for &d in benign(s) {
                        for k in [IK::ConnectionReset, IK::TimedOut, IK::UnexpectedEof, IK::Other] {
                            let want = KINDS.iter().find(|x| x.0 == k).unwrap().1;
                            ctx.case(|| format!("{:?} {} with {:?} at call {} and {:?} next: [{}]", s, what, d, i - 1, k, hex(b)), |c| {
                                c.ran(1);
                                let (r, seen) = run(b, s, Plan { devs: &[(i - 1, d), (i, Dev::Fail(k))], mode: Mode::Normal });
                                if seen.applied == 2 {
                                    c.key(&(what, b, s, i, d.key(), want as u8));
                                    visit(&(what, b, s.is_async(), i, d.key(), want as u8));
                                }
                                ensure!(r == Err(EK::T(want)) && seen.calls_after_failure == 0, "gave {} and {} calls after the failure", brief_r(&r), seen.calls_after_failure);
                                Ok(())
                            });
                        }
                    }
                }
            }
        }
    })
}

// ---------------------------------------------------------------- C16

type Writer<'r> = dyn Fn(Side, Plan) -> (Result<usize, EK>, Wrote) + 'r;

fn write_subjects(tier: Tier, f: impl Fn(&mut Ctx, &str, &[Side], &Writer) + Copy + Sync + Send + 'static) -> Vec<Job> {
    let mut jobs = vec![];
    let mut order: Vec<&'static dyn Ty> = TYPES.to_vec();
    order.sort_by_key(|t| std::cmp::Reverse(enc(&build(t.def(), 2, true)).len()));
    for t in order {
        let mut vals = vec![];
        core(t.def(), &mut |v| vals.push(v));
        for fam in [2, 3] {
            let mut n = 0;
            family(t.def(), fam, Tier::Quick, &mut |v| {
                n += 1;
                if n % tier.pick(17, 2) == 0 && enc(&v).len() < 400 {
                    vals.push(v);
                }
            });
        }
        sizes(t.def(), LARGE, &mut |v| {
            if !has_long_list(&v) {
                vals.push(v);
            }
        });
        for (ci, ch) in vals.chunks(30).enumerate() {
            let ch = ch.to_vec();
            jobs.push(job(format!("{}/part{}", t.name(), ci), move |ctx: &mut Ctx| {
                for v in &ch {
                    f(ctx, &format!("{} {}", t.name(), v.brief()), &SIDES, &|s, p| write_plan(t, v, s, p));
                }
            }));
        }
    }
    for w in WTS {
        jobs.push(job(format!("{:?}/low-level", w), move |ctx: &mut Ctx| {
            let mut vals: Vec<Val> = leaf_all(w, Tier::Quick).into_iter().step_by(tier.pick(3, 1)).collect();
            vals.extend(nested(2).into_iter().filter(|v| v.wt() == w).step_by(tier.pick(4, 1)));
            vals.retain(|v| enc(v).len() <= 1000);
            vals.extend(large_low(w));
            for v in vals {
                f(ctx, &v.brief(), &SIDES, &|s, p| low::write_low(&v, false, s, p));
            }
        }));
    }
    jobs.push(job("text", move |ctx: &mut Ctx| {
        for n in bin_lens(Tier::Quick).into_iter().chain(LARGE.iter().copied()) {
            let v = Val::Bin(text(n, n));
            f(ctx, &format!("text of {}", n), &SIDES, &|s, p| low::write_low(&v, true, s, p));
        }
    }));
    jobs.push(job("messages", move |ctx: &mut Ctx| {
        for m in msgs(Tier::Quick).into_iter().enumerate().filter(|(i, m)| i % tier.pick(13, 2) == 0 || m.name.len() > 1000).map(|x| x.1) {
            f(ctx, &format!("{:?}", m), &SIDES, &|s, p| match s {
                Side::Async => with_sout(p, |o| {
                    let n = asy::write_msg(o, &m)? + asy::end_msg(o)?;
                    asy::flush(o)?;
                    Ok(n)
                }),
                _ => with_out(p, |o| {
                    let n = sy::write_msg(o, &m)? + sy::end_msg(o)?;
                    sy::flush(o)?;
                    Ok(n)
                }),
            });
        }
    }));
    jobs.push(job("single bytes", move |ctx: &mut Ctx| {
        for n in 1..=3usize {
            f(ctx, &format!("{} bytes", n), &SIDES, &|s, p| match s {
                Side::Async => with_sout(p, |o| (0..n).map(|i| asy::write_byte(o, i as u8 + 7)).sum()),
                _ => with_out(p, |o| (0..n).map(|i| sy::write_byte(o, i as u8 + 7)).sum()),
            });
        }
    }));
    jobs.push(job("application errors", move |ctx: &mut Ctx| {
        for n in [0usize, 1, 5, 130, 1025, 5000, 20000] {
            for k in crate::checks::small::akinds() {
                let e = thrift::ApplicationError::new(k, String::from_utf8(text(n, 2)).unwrap());
                f(ctx, &format!("{:?}", e), &[Side::Sync], &|_, p| {
                    let (r, o) = with_out(p, |o| thrift::Error::write_application_error_to_out_protocol(&e, o));
                    let n = o.bytes.len();
                    (r.map(|_| n), o)
                });
            }
        }
    }));
    jobs
}
/// Flushing: it reaches the transport after everything written before it, and what the transport answers is reported.
fn flushing(tier: Tier) -> Vec<Job> {
    let mut vals = vec![Val::I8(1), Val::Bin(vec![]), Val::Bin(pattern(300, 1)), Val::I64(i64::MIN)];
    vals.extend(nested(2));
    let run = |v: &Val, s: Side, mode: Mode| {
        let plan = Plan { devs: &[], mode };
        match s {
            Side::Sync => with_out(plan, |p| sy::write_val(p, v, false).and_then(|_| sy::flush(p))),
            Side::Async => with_sout(plan, |p| asy::write_val(p, v, false).and_then(|_| asy::flush(p))),
            Side::BoxSync => {
                let mut e = Env::writer();
                e.mode = mode;
                let mut p = Box::new(TCompactOutputProtocol::new(&mut e));
                let r = sy::write_val(&mut p, v, false).and_then(|_| sy::flush(&mut p));
                drop(p);
                (r.map_err(|x| ek(&x)), Wrote::of(e))
            }
        }
    };
    vec![job("flushing", move |ctx: &mut Ctx| {
        for v in vals.iter().step_by(tier.pick(3, 1)) {
            let full = enc(v);
            for s in [Side::Sync, Side::Async, Side::BoxSync] {
                let pend = if s.is_async() { vec![0, 1, 2, 40] } else { vec![0] };
                for k in pend {
                    ctx.case(|| format!("{:?} {} flushed, pending {} times", s, v.brief(), k), |c| {
                        c.ran(1);
                        c.key(&(v, s, k));
                        visit(&(v, s.is_async(), k));
                        let (r, w) = run(v, s, Mode::FlushPending(k));
                        ensure!(r == Ok(()), "gave {:?}", r);
                        ensure!(w.flushes >= 1 && w.flushed_len == full.len() && w.bytes.len() == full.len(), "{} flushes after {} of {} bytes", w.flushes, w.flushed_len, full.len());
                        Ok(())
                    });
                }
                for (n, (k, want)) in KINDS.iter().enumerate().filter(|(_, k)| !(s.is_async() && k.0 == IK::WouldBlock)) {
                    ctx.case(|| format!("{:?} {} flushed with {:?}", s, v.brief(), k), |c| {
                        c.ran(1);
                        c.key(&(v, s, "fails", n));
                        visit(&(v, s.is_async(), "fails", n));
                        let (r, w) = run(v, s, Mode::FlushFails(*k));
                        ensure!(r == Err(EK::T(*want)), "gave {:?} instead of a transport error of kind {:?}", r, want);
                        ensure!(w.bytes == full, "delivered {}", hex(&w.bytes));
                        Ok(())
                    });
                }
            }
        }
        // a flush behind every single call of a sequence
        for v in vals.iter() {
            let full = enc(v);
            let write = |s: Side, mode: Mode, at: usize| {
                let plan = Plan { devs: &[], mode };
                flush_after(at, || match s {
                    Side::Async => with_sout(plan, |p| asy::write_val(p, v, false)),
                    Side::Sync => with_out(plan, |p| sy::write_val(p, v, false)),
                    Side::BoxSync => {
                        let mut e = Env::writer();
                        e.mode = mode;
                        let mut p = Box::new(TCompactOutputProtocol::new(&mut e));
                        let r = sy::write_val(&mut p, v, false);
                        drop(p);
                        (r.map_err(|x| ek(&x)), Wrote::of(e))
                    }
                })
            };
            for s in [Side::Sync, Side::Async, Side::BoxSync] {
                for at in 0.. {
                    if ctx.stopped() {
                        return;
                    }
                    let mut reached = true;
                    ctx.case(|| format!("{:?} {} flushed behind call {}", s, v.brief(), at), |c| {
                        let ((r, w), hit) = write(s, Mode::FlushPending(at % 3 * s.is_async() as usize), at);
                        c.ran(1);
                        reached = hit;
                        c.key(&(v, s, "behind", at));
                        visit(&(v, s.is_async(), "behind", at));
                        ensure!(r == Ok(full.len()) && w.bytes == full, "gave {:?} and delivered {}", r, hex(&w.bytes));
                        ensure!(!hit || w.flushes >= 1, "the transport was not flushed");
                        if !hit {
                            return Ok(());
                        }
                        let (k, want) = KINDS.iter().filter(|(k, _)| !(s.is_async() && *k == IK::WouldBlock)).cycle().nth(at).unwrap();
                        let ((r, w), _) = write(s, Mode::FlushFails(*k), at);
                        c.ran(1);
                        ensure!(r == Err(EK::T(*want)), "a flush failing with {:?} gave {:?} instead of a transport error of kind {:?}", k, r, want);
                        ensure!(full.starts_with(&w.bytes), "delivered {}", hex(&w.bytes));
                        Ok(())
                    });
                    if !reached {
                        break;
                    }
                }
            }
        }
        for (n, (k, want)) in KINDS.iter().enumerate() {
            for len in [0usize, 1, 200] {
                ctx.case(|| format!("application error of {} flushed with {:?}", len, k), |c| {
                    c.ran(1);
                    c.key(&("app", len, n));
                    visit(&("app", len, n));
                    let e = thrift::ApplicationError::new(AK::InternalError, "x".repeat(len));
                    let (r, _) = with_out(Plan { devs: &[], mode: Mode::FlushFails(*k) }, |o| thrift::Error::write_application_error_to_out_protocol(&e, o));
                    ensure!(r == Err(EK::T(*want)), "gave {:?} instead of a transport error of kind {:?}", r, want);
                    Ok(())
                });
            }
        }
    })]
}
fn c16(tier: Tier) -> Vec<Job> {
    let mut jobs = flushing(tier);
    jobs.extend(c16_writes(tier));
    jobs
}
fn c16_writes(tier: Tier) -> Vec<Job> {
    write_subjects(tier, move |ctx, what, sides, run| {
        for &s in sides {
            if ctx.stopped() {
                return;
            }
            let mut base: Option<(Result<usize, EK>, Wrote)> = None;
            ctx.case(|| format!("{:?} {} undisturbed", s, what), |c| {
                c.ran(1);
                let r = run(s, PLAIN);
                ensure!(r.0.is_ok(), "failed with {:?} on a perfect transport", r.0);
                base = Some(r);
                Ok(())
            });
            let Some((r0, w0)) = base else { return };
            let judge = |r: &Result<usize, EK>, w: &Wrote, must_succeed: bool| -> Result<(), String> {
                match r {
                    Ok(n) => {
                        ensure!(w.bytes == w0.bytes, "reported success but delivered [{}] instead of [{}]", hex(&w.bytes), hex(&w0.bytes));
                        ensure!(Ok(*n) == r0, "reported {} bytes, undisturbed {:?}", n, r0);
                    }
                    Err(e) => {
                        ensure!(!must_succeed, "failed with {:?} though every answer of the transport can be retried", e);
                        ensure!(matches!(e, EK::T(_)), "failed with {:?}, not a transport error", e);
                        ensure!(w0.bytes.starts_with(&w.bytes), "failed having delivered [{}], not a prefix of [{}]", hex(&w.bytes), hex(&w0.bytes));
                    }
                }
                Ok(())
            };
            for &mode in MODES {
                ctx.case(|| format!("{:?} {} with every call {:?}", s, what, mode), |c| {
                    c.key(&(what, s, mode.key()));
                    visit(&(what, s.is_async(), mode.key()));
                    c.ran(1);
                    let (r, w) = run(s, Plan { devs: &[], mode });
                    judge(&r, &w, true)
                });
            }
            // a transport that fills up
            let len = w0.bytes.len();
            let mut caps: Vec<usize> = (0..=len + 1).collect();
            if len > tier.pick(500, 5000) {
                caps = crate::explore::big_cuts(len + 1);
                caps.push(len + 1);
            } else if len > tier.pick(300, 5000) {
                caps = caps.into_iter().step_by(5).collect();
            }
            for cap in caps {
                ctx.case(|| format!("{:?} {} into room for {} of {} bytes", s, what, cap, len), |c| {
                    c.key(&(what, s, cap));
                    visit(&(what, s.is_async(), cap));
                    c.ran(1);
                    let (r, w) = run(s, Plan { devs: &[], mode: Mode::Capacity(cap) });
                    ensure!(r.is_ok() == (cap >= len), "gave {:?}", r);
                    judge(&r, &w, cap >= len)
                });
            }
            let pairs = w0.calls <= tier.pick(20, 100);
            for i in 0..w0.calls {
                for &d in benign(s) {
                    if ctx.stopped() {
                        return;
                    }
                    let mut calls = 0;
                    ctx.case(|| format!("{:?} {} with {:?} at call {}", s, what, d, i), |c| {
                        let (r, w) = run(s, Plan { devs: &[(i, d)], mode: Mode::Normal });
                        c.ran(1);
                        if w.applied > 0 {
                            calls = w.calls;
                            c.key(&(what, s, i, d.key()));
                            visit(&(what, s.is_async(), i, d.key()));
                        }
                        judge(&r, &w, true)
                    });
                    if !pairs || calls == 0 {
                        continue;
                    }
                    for j in i + 1..calls {
                        for e in benign(s).iter().copied().chain([Dev::Zero, Dev::Fail(IK::BrokenPipe)]) {
                            ctx.case(|| format!("{:?} {} with {:?} at call {} and {:?} at call {}", s, what, d, i, e, j), |c| {
                                let (r, w) = run(s, Plan { devs: &[(i, d), (j, e)], mode: Mode::Normal });
                                c.ran(1);
                                if w.applied > 1 {
                                    c.key(&(what, s, i, j, d.key(), e.key()));
                                    visit(&(what, s.is_async(), i, j, d.key(), e.key()));
                                }
                                let fatal = w.failed_at.is_some();
                                ensure!(!fatal || r.is_err(), "reported success although a call failed");
                                judge(&r, &w, !fatal)
                            });
                        }
                    }
                }
                for (n, (k, want)) in failures(s).enumerate() {
                    if w0.calls > tier.pick(60, 100_000) && *want == TK::Unknown && (n + i) % 9 != 0 {
                        continue;
                    }
                    ctx.case(|| format!("{:?} {} with {:?} at call {}", s, what, k, i), |c| {
                        c.key(&(what, s, i, n));
                        visit(&(what, s.is_async(), i, n));
                        c.ran(1);
                        let (r, w) = run(s, Plan { devs: &[(i, Dev::Fail(*k))], mode: Mode::Normal });
                        ensure!(r == Err(EK::T(*want)), "gave {:?} instead of a transport error of kind {:?}", r, want);
                        judge(&r, &w, false)
                    });
                }
                ctx.case(|| format!("{:?} {} with nothing accepted at call {}", s, what, i), |c| {
                    c.key(&(what, s, i, "zero"));
                    visit(&(what, s.is_async(), i, "zero"));
                    c.ran(1);
                    let (r, w) = run(s, Plan { devs: &[(i, Dev::Zero)], mode: Mode::Normal });
                    ensure!(r.is_err(), "reported success although the transport accepted nothing");
                    judge(&r, &w, false)
                });
            }
        }
    })
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C14",
            level: "fault_enumeration",
            rule: "one case = one input read under one plan of transport answers; distinct = distinct (reader, input, side, plan) whose deviations took effect",
            explanation: "The transport is the scheduler: at every call it may deliver one byte, all but one, be interrupted (sync) or pending once or twice (async). All single deviations, all pairs where the run is short enough (the second chosen in the disturbed run), and three modes that deviate at every call; on legal and on failing inputs.",
            assumptions: &["the bound on deviations", "asynchronous transports return neither Interrupted nor WouldBlock, as their contract says"],
            jobs: c14,
        },
        Check {
            id: "C15",
            level: "fault_enumeration",
            rule: "one case = one failure kind at one transport call of one read; distinct = distinct (reader, input, side, call, kind)",
            explanation: "Every transport call of every read fails with every I/O error kind (in long runs the kinds that map alike share the calls out), also right after a short, interrupted or pending call.",
            assumptions: &["Interrupted is a retry, not a failure, for synchronous transports; asynchronous ones return neither it nor WouldBlock"],
            jobs: c15,
        },
        Check {
            id: "C16",
            level: "fault_enumeration",
            rule: "one case = one write under one plan of transport answers; distinct = distinct (write, side, plan) whose deviations took effect",
            explanation: "At every transport call: short, all but one, interrupted or pending, zero bytes accepted, every failure kind; pairs where short enough; every capacity of a filling transport; three modes that deviate at every call.",
            assumptions: &["the bound on deviations", "asynchronous transports return neither Interrupted nor WouldBlock, as their contract says"],
            jobs: c16,
        },
    ]
}
