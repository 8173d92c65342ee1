//! Checks quantified over input bytes: C01, C04 (malformed side), C07, C21, C25 (reading side).
use crate::domain::*;
use crate::engine::*;
use crate::ensure;
use crate::explore::*;
use crate::low::{self, Prog};
use crate::lowdom::big_low;
use crate::ops::*;
use crate::schema::*;
use crate::val::*;

/// Inputs for the low-level readers.
pub fn prog_jobs<J>(tier: Tier, judge: J) -> Vec<Job>
where
    J: Fn(Prog, &[u8], &mut Case) -> Result<bool, String> + Copy + Sync + Send + 'static,
{
    Prog::all()
        .into_iter()
        .map(|g| {
            job(format!("{:?}/inputs", g), move |ctx: &mut Ctx| {
                let name = format!("{:?}", g);
                let j = |b: &[u8], c: &mut Case| judge(g, b, c);
                let shallow = matches!(g, Prog::SkipOdd(..)) || matches!(g, Prog::SkipDepth(_, d) if d < 1);
                let d: Vec<&[u8]> = if shallow { vec![&ALL] } else { vec![&ALL, &ALL] };
                tree(ctx, &name, &mut vec![], &d, &j);
                let n = tier.pick(3, 4);
                let d: Vec<&[u8]> = (0..n).map(|_| &SMALL[..]).collect();
                tree(ctx, &name, &mut vec![], &d, &j);
                // text
                let head: &[u8] = match g {
                    Prog::Msg => &[0x82, 0x21, 0x05],
                    Prog::AppErr => &[0x18],
                    Prog::ListOf(0) | Prog::Any(Wt::List) | Prog::Skip(Wt::List) => &[0x18],
                    _ => &[],
                };
                for x in texts().into_iter().chain(bad_texts()) {
                    one(ctx, &name, &[head, &enc(&Val::Bin(x)), &[0]].concat(), &j);
                }
                // large data, whole and cut
                if let Prog::Any(w) | Prog::Skip(w) = g {
                    big_low(&tier.pick(vec![257, 1025, 4097, 16385, 65537], big_lens(tier)), &mut |v| {
                        if v.wt() == w && !ctx.stopped() {
                            let b = enc(&v);
                            one(ctx, &name, &b, &j);
                            for n in big_cuts(b.len()).into_iter().step_by(3) {
                                one(ctx, &name, &b[..n], &j);
                            }
                        }
                    });
                } else {
                    for n in big_lens(tier) {
                        let b = [head, &enc(&Val::Bin(text(n, 1))), &[0]].concat();
                        one(ctx, &name, &b, &j);
                        one(ctx, &name, &b[..b.len() - 4], &j);
                    }
                }
                // varints and sizes
                for h in HUGE {
                    for head in [&[][..], &[0xf8], &[0xf1], &[0xfc], &[0x82, 0x21], &[0x18], &[0x15]] {
                        for tail in [&[][..], &[0x11], &[0x88], &[0xcc], &[1; 20], &[0; 20], &[0xff; 20]] {
                            one(ctx, &name, &[head, h, tail].concat(), &j);
                        }
                    }
                }
                let any = matches!(g, Prog::Any(_));
                for n in tier.pick(vec![1, 5, 63, 64, 65, 130, 300, 20000], vec![1, 2, 3, 5, 62, 63, 64, 65, 66, 127, 128, 129, 130, 300, 20000, 300000]) {
                    if any && n > 300 {
                        continue; // the mirrored reader recurses in the harness, not in the crate
                    }
                    for unit in [&[0x1c_u8][..], &[0x19], &[0x1a], &[0x01, 0xbb], &[0x01, 0x1b, 0x01], &[0x19, 0x1c], &[0x1b, 0x01, 0x8c, 0x01]] {
                        let mut b = vec![];
                        for _ in 0..n {
                            b.extend_from_slice(unit);
                        }
                        one(ctx, &name, &b, &j);
                        b.insert(0, 0x1c);
                        one(ctx, &name, &b, &j);
                    }
                }
            })
        })
        .collect()
}

fn c01(tier: Tier) -> Vec<Job> {
    let mut v = byte_jobs(tier, |t, b, c| {
        let mut more = false;
        let big = b.len() > 3 && (b.len() > 200 || b.windows(2).any(|w| w == [0xff, 0xff] || w == [0x80, 0x80]));
        let limits: &[usize] = if big { &[EXPLORE_LIMIT, 0, 9, 100, 1 << 26, usize::MAX] } else { &[EXPLORE_LIMIT] };
        for &l in limits {
            let (_, s) = with_in(b, l, PLAIN, |p| t.read_only(p));
            more |= s.eof_hits > 0;
            let (_, s) = with_sin(b, l, PLAIN, |p| t.sread_only(p));
            more |= s.eof_hits > 0;
            c.ran(2);
        }
        visit(&(t.name(), b));
        Ok(more)
    });
    v.extend(prog_jobs(tier, |g, b, c| {
        let mut more = false;
        let big = b.len() > 3;
        let limits: &[usize] = if big { &[EXPLORE_LIMIT, 0, 9, usize::MAX] } else { &[EXPLORE_LIMIT] };
        for &l in limits {
            let (_, s) = low::run(g, b, l, Side::Sync, PLAIN);
            more |= s.eof_hits > 0;
            if g.async_too() {
                let (_, s) = low::run(g, b, l, Side::Async, PLAIN);
                more |= s.eof_hits > 0;
            }
            c.ran(2);
        }
        visit(&(g, b));
        Ok(more)
    }));
    v
}

/// What the reference says a reader must do with these bytes.
pub fn against_reference(t: &dyn Ty, b: &[u8], c: &mut Case) -> Result<bool, String> {
    let verdict = decode(t.def(), b);
    let mut more = matches!(verdict, Verdict::Malformed(_, true));
    for s in SIDES {
        let (r, seen) = read(t, b, EXPLORE_LIMIT, s);
        c.ran(1);
        more |= seen.eof_hits > 0;
        match &verdict {
            Verdict::Legal(v, n, cost) if *cost <= EXPLORE_LIMIT => {
                ensure!(r.as_ref() == Ok(v), "legal input denotes {} but the {:?} reader gave {}", v.brief(), s, brief_r(&r));
                ensure!(seen.consumed == *n, "{:?} reader consumed {} of the encoding's {} bytes", s, seen.consumed, n);
            }
            Verdict::Legal(..) => {}
            Verdict::Malformed(why, _) => {
                ensure!(r.is_err(), "malformed input ({}) was accepted by the {:?} reader as {}", why, s, brief_r(&r));
            }
            Verdict::Unspecified(_) => {}
        }
    }
    Ok(more)
}
pub fn c04_malformed(tier: Tier) -> Vec<Job> {
    byte_jobs(tier, |t, b, c| against_reference(t, b, c))
}

fn same(t: &str, b: &[u8], limit: usize, a: &(Result<Val, EK>, Seen), z: &(Result<Val, EK>, Seen), names: (&str, &str)) -> Result<(), String> {
    ensure!(
        a.0 == z.0,
        "{} on [{}] with limit {}: {} gave {}, {} gave {}",
        t, hex(b), limit, names.0, brief_r(&a.0), names.1, brief_r(&z.0)
    );
    ensure!(
        a.0.is_err() || a.1.consumed == z.1.consumed,
        "{} on [{}] with limit {}: {} consumed {}, {} consumed {}",
        t, hex(b), limit, names.0, a.1.consumed, names.1, z.1.consumed
    );
    Ok(())
}
fn c07(tier: Tier) -> Vec<Job> {
    const NAMES: (&str, &str) = ("sync", "async");
    let mut v = byte_jobs(tier, |t, b, c| {
        let mut more = false;
        for l in [EXPLORE_LIMIT, 12, 3] {
            let a = read(t, b, l, Side::Sync);
            let z = read(t, b, l, Side::Async);
            c.ran(2);
            more |= a.1.eof_hits > 0 || z.1.eof_hits > 0;
            same(t.name(), b, l, &a, &z, NAMES)?;
        }
        visit(&(t.name(), b));
        Ok(more)
    });
    v.extend(prog_jobs(tier, |g, b, c| {
        if !g.async_too() {
            return Ok(false);
        }
        let mut more = false;
        for l in [EXPLORE_LIMIT, 9, 0] {
            let a = low::run(g, b, l, Side::Sync, PLAIN);
            let z = low::run(g, b, l, Side::Async, PLAIN);
            c.ran(2);
            more |= a.1.eof_hits > 0 || z.1.eof_hits > 0;
            same(&format!("{:?}", g), b, l, &a, &z, NAMES)?;
        }
        visit(&(g, b));
        Ok(more)
    }));
    // every limit around what a legal value needs
    for t in TYPES.iter().copied() {
        v.push(job(format!("{}/limits", t.name()), move |ctx: &mut Ctx| {
            core(t.def(), &mut |v| {
                let b = enc(&v);
                for l in 0..=(v.cost() + 4).min(4000) {
                    ctx.case(|| format!("{} limit {} value {}", t.name(), l, v.brief()), |c| {
                        c.key(&(t.name(), &b, l));
                        c.ran(2);
                        visit(&(t.name(), &b, l));
                        same(t.name(), &b, l, &read(t, &b, l, Side::Sync), &read(t, &b, l, Side::Async), NAMES)
                    });
                }
            });
        }));
    }
    v
}

fn c21(tier: Tier) -> Vec<Job> {
    byte_jobs(tier, |t, b, c| {
        let mut more = false;
        for s in SIDES {
            let (r, seen) = read(t, b, EXPLORE_LIMIT, s);
            more |= seen.eof_hits > 0;
            c.ran(1);
            let Ok(v) = r else { continue };
            visit(&(t.name(), &v));
            for w in SIDES {
                let (n, o) = write(t, &v, w);
                ensure!(n.is_ok(), "accepted by {:?} as {} but the {:?} writer failed: {:?}", s, v.brief(), w, n);
                let (r2, _) = read(t, &o.bytes, usize::MAX, s);
                c.ran(2);
                ensure!(r2.as_ref() == Ok(&v), "accepted by {:?} as {}, rewritten by {:?} as [{}], read back as {}", s, v.brief(), w, hex(&o.bytes), brief_r(&r2));
                let (_, o2) = write(t, r2.as_ref().unwrap(), w);
                ensure!(o2.bytes == o.bytes, "writing twice gave [{}] then [{}]", hex(&o.bytes), hex(&o2.bytes));
            }
        }
        Ok(more)
    })
}

pub fn c25_reading(tier: Tier) -> Vec<Job> {
    const NAMES: (&str, &str) = ("direct", "boxed");
    let mut v = byte_jobs(tier, |t, b, c| {
        let mut more = false;
        for l in [EXPLORE_LIMIT, 9] {
            let a = read(t, b, l, Side::Sync);
            let z = read(t, b, l, Side::BoxSync);
            c.ran(2);
            more |= a.1.eof_hits > 0 || z.1.eof_hits > 0;
            same(t.name(), b, l, &a, &z, NAMES)?;
        }
        visit(&(t.name(), b));
        Ok(more)
    });
    v.extend(prog_jobs(tier, |g, b, c| {
        let mut more = false;
        for l in [EXPLORE_LIMIT, 9] {
            let a = low::run(g, b, l, Side::Sync, PLAIN);
            let z = low::run(g, b, l, Side::BoxSync, PLAIN);
            c.ran(2);
            more |= a.1.eof_hits > 0 || z.1.eof_hits > 0;
            same(&format!("{:?}", g), b, l, &a, &z, NAMES)?;
        }
        visit(&(g, b));
        Ok(more)
    }));
    v
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            level: "model_checking",
            rule: "one case = one input given to the sync and the async reader of one type (or low-level reader) under one or more limits; distinct = distinct (reader, input)",
            explanation: "Exhaustive prefix trees of inputs (all bytes, cut where no reader asks for more), every neighbour of legal encodings, nesting and size bombs; panics are caught per case, aborts, stack exhaustion and hangs by a supervising process.",
            assumptions: &["worker stacks of 2 MiB, the default of Rust threads", "a case that needs more than 45 s is a hang", "allocations above 256 MiB are refused by the harness's allocator"],
            jobs: c01,
        },
        Check {
            id: "C07",
            level: "model_checking",
            rule: "one case = one input under several limits, both readers compared; distinct = distinct (reader, input)",
            explanation: "Product exploration of the two readers over the input families of C01 and over every limit around the cost of legal values.",
            assumptions: &[],
            jobs: c07,
        },
        Check {
            id: "C21",
            level: "model_checking",
            rule: "one case = one input; when accepted the value is rewritten and reread by both sides; distinct = distinct (type, input)",
            explanation: "Input families of C01; states are the distinct accepted values.",
            assumptions: &[],
            jobs: c21,
        },
    ]
}
