//! C30: reads and writes are independent of one another.
use crate::alloc;
use crate::domain::*;
use crate::engine::*;
use crate::ensure;
use crate::env::*;
use crate::ops::*;
use crate::schema::*;
use crate::val::{hash_of, *};
use parquet_format_safe::thrift::{self, protocol::*};
use std::future::Future;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{mpsc, Condvar, Mutex};
use std::task::Poll;

/// One use of the crate: over its own transport, with its own protocol.
enum Op {
    Read(&'static dyn Ty, Vec<u8>, usize),
    Write(&'static dyn Ty, Val),
    Skip(Wt, Vec<u8>, usize),
    LowRead(Vec<u8>, usize),
    LowWrite,
}
#[derive(Clone, Debug, PartialEq, Eq)]
struct Done {
    res: Result<Val, EK>,
    pos: usize,
    out: Vec<u8>,
}
type Running<'x> = Pin<Box<dyn Future<Output = Done> + Send + 'x>>;

fn low_read(p: &mut In<'_, '_>) -> thrift::Result<Val> {
    let m = p.read_message_begin()?;
    p.read_message_end()?;
    let l = p.read_list_begin()?;
    let mut e = vec![];
    for _ in 0..l.size {
        e.push(Val::Bin(p.read_string()?.into_bytes()));
    }
    p.read_list_end()?;
    p.skip(TType::String)?;
    Ok(Val::St(vec![(1, crate::low::Msg::of(m)), (2, Val::List(Wt::Bin, e)), (3, Val::Bool(p.read_bool()?))]))
}
async fn low_read_async(p: &mut SIn<'_, '_>) -> thrift::Result<Val> {
    let m = p.read_message_begin().await?;
    p.read_message_end().await?;
    let l = p.read_list_begin().await?;
    let mut e = vec![];
    for _ in 0..l.size {
        e.push(Val::Bin(p.read_string().await?.into_bytes()));
    }
    p.read_list_end().await?;
    p.skip(TType::String).await?;
    Ok(Val::St(vec![(1, crate::low::Msg::of(m)), (2, Val::List(Wt::Bin, e)), (3, Val::Bool(p.read_bool().await?))]))
}
fn low_write(p: &mut Out<'_, '_>) -> thrift::Result<usize> {
    let mut n = p.write_message_begin(&TMessageIdentifier::new("m", TMessageType::Reply, 300))?;
    p.write_message_end()?;
    n += p.write_list_begin(&TListIdentifier::new(TType::String, 1))?;
    n += p.write_string("xy")?;
    p.write_list_end()?;
    n += p.write_bytes(&[7])?;
    n += p.write_bool(true)?;
    p.flush()?;
    Ok(n)
}
async fn low_write_async(p: &mut SOut<'_, '_>) -> thrift::Result<usize> {
    let mut n = p.write_message_begin(&TMessageIdentifier::new("m", TMessageType::Reply, 300)).await?;
    p.write_message_end().await?;
    n += p.write_list_begin(&TListIdentifier::new(TType::String, 1)).await?;
    n += p.write_string("xy").await?;
    p.write_list_end().await?;
    n += p.write_bytes(&[7]).await?;
    n += p.write_bool(true).await?;
    p.flush().await?;
    Ok(n)
}

impl Op {
    fn name(&self) -> String {
        match self {
            Op::Read(t, b, l) => format!("read {} limit {} of {}", t.name(), l, hex(b)),
            Op::Write(t, v) => format!("write {} {}", t.name(), v.brief()),
            Op::Skip(w, b, _) => format!("skip {:?} in {}", w, hex(b)),
            Op::LowRead(b, l) => format!("low-level read limit {} of {}", l, hex(b)),
            Op::LowWrite => "low-level write".into(),
        }
    }
    fn key(&self) -> String {
        self.name()
    }
    fn run<'a>(&'a self, side: Side, devs: &'a [(usize, Dev)], hook: Option<Hook<'a>>) -> Done {
        let r: Result<Val, EK>;
        let mut e = match self {
            Op::Read(_, b, _) | Op::Skip(_, b, _) | Op::LowRead(b, _) => Env::reader(b),
            _ => Env::writer(),
        };
        e.devs = devs;
        e.hook = hook;
        let a = side.is_async();
        match self {
            Op::Read(..) | Op::Skip(..) | Op::LowRead(..) => {
                let limit = match self {
                    Op::Read(_, _, l) | Op::Skip(_, _, l) | Op::LowRead(_, l) => *l,
                    _ => 0,
                };
                if a {
                    let mut p = TCompactInputStreamProtocol::new(&mut e, limit);
                    r = block_on(self.rtask(&mut p)).map_err(|x| ek(&x));
                } else {
                    let mut p = TCompactInputProtocol::new(&mut e, limit);
                    r = match self {
                        Op::Read(t, ..) => t.read(&mut p),
                        Op::Skip(w, ..) => p.skip(ttype(*w)).map(|_| Val::Bool(true)),
                        _ => low_read(&mut p),
                    }
                    .map_err(|x| ek(&x));
                }
            }
            _ => {
                if a {
                    let mut p = TCompactOutputStreamProtocol::new(&mut e);
                    r = block_on(self.wtask(&mut p)).map(|n| Val::I64(n as i64)).map_err(|x| ek(&x));
                } else {
                    let mut p = TCompactOutputProtocol::new(&mut e);
                    r = match self {
                        Op::Write(t, v) => t.write(v, &mut p),
                        _ => low_write(&mut p),
                    }
                    .map(|n| Val::I64(n as i64))
                    .map_err(|x| ek(&x));
                }
            }
        }
        Done { res: r, pos: e.pos, out: std::mem::take(&mut e.out) }
    }
    async fn rtask(&self, p: &mut SIn<'_, '_>) -> thrift::Result<Val> {
        match self {
            Op::Read(t, ..) => t.rtask(p).await,
            Op::Skip(w, ..) => p.skip(ttype(*w)).await.map(|_| Val::Bool(true)),
            _ => low_read_async(p).await,
        }
    }
    async fn wtask(&self, p: &mut SOut<'_, '_>) -> thrift::Result<usize> {
        match self {
            Op::Write(t, v) => t.wtask(v, p).await,
            _ => low_write_async(p).await,
        }
    }
    /// As a task that waits at every call of its transport.
    fn task(&self) -> Running<'_> {
        Box::pin(async move {
            match self {
                Op::Read(_, b, l) | Op::Skip(_, b, l) | Op::LowRead(b, l) => {
                    let mut e = Env::reader(b);
                    e.mode = Mode::Bumpy;
                    let mut p = TCompactInputStreamProtocol::new(&mut e, *l);
                    let r = self.rtask(&mut p).await;
                    drop(p);
                    Done { res: r.map_err(|x| ek(&x)), pos: e.pos, out: vec![] }
                }
                _ => {
                    let mut e = Env::writer();
                    e.mode = Mode::Bumpy;
                    let mut p = TCompactOutputStreamProtocol::new(&mut e);
                    let r = self.wtask(&mut p).await;
                    drop(p);
                    Done { res: r.map(|n| Val::I64(n as i64)).map_err(|x| ek(&x)), pos: 0, out: std::mem::take(&mut e.out) }
                }
            }
        })
    }
}
/// An op with what it does alone, and in how many steps.
struct Known1 {
    op: Op,
    id: u64,
    alone: Done,
    /// steps of the task
    steps: usize,
    /// transport calls of the synchronous run and of the asynchronous one
    calls: [usize; 2],
}
fn known(op: Op) -> Known1 {
    let alone = op.run(Side::Sync, &[], None);
    let mut steps = 0;
    {
        let mut t = op.task();
        loop {
            steps += 1;
            if step(t.as_mut()).is_ready() {
                break;
            }
        }
    }
    let calls = SIDES.map(|s| {
        let n = std::sync::atomic::AtomicUsize::new(0);
        op.run(s, &[], Some(Hook { at: usize::MAX, f: Box::new(|| { n.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }) }));
        n.into_inner()
    });
    let id = hash_of(&op.key());
    Known1 { op, id, alone, steps, calls }
}
fn same(who: &str, k: &Known1, d: &Done) -> Result<(), String> {
    ensure!(*d == k.alone, "{} ({}) gives {:?} with {} bytes consumed and {} written, and alone {:?} with {} and {}", who, k.op.name(), brief_r(&d.res), d.pos, hex(&d.out), brief_r(&k.alone.res), k.alone.pos, hex(&k.alone.out));
    Ok(())
}

/// Small ones, of every sort.
fn small() -> Vec<Op> {
    let t = |n: &str| *TYPES.iter().find(|t| t.name() == n).expect("harness: type");
    let kv = |k: &str, v: &str| Val::St(vec![(1, Val::Bin(k.into())), (2, Val::Bin(v.into()))]);
    let big = 1 << 16;
    let read = |n: &str, v: &Val| Op::Read(t(n), enc(v), big);
    let mut unknown = enc(&kv("a", "b"));
    unknown.pop();
    unknown.extend([0x2c, 0x15, 0x02, 0x00, 0x00]); // field 4: a structure with one integer
    let stat = Val::St(vec![(1, Val::Bin(vec![200, 1])), (3, Val::I64(-300))]);
    let sort = Val::St(vec![(1, Val::I32(70)), (2, Val::Bool(true)), (3, Val::Bool(false))]);
    let loc = Val::St(vec![(1, Val::I64(1)), (2, Val::I32(2)), (3, Val::I64(3))]);
    let mut deep = vec![0x1c; 70];
    deep.push(0);
    let mut low = crate::low::Msg { name: b"m".to_vec(), ty: 1, seq: 300 }.enc();
    low.extend([0x18, 2, b'x', b'y', 1, 7, 1]);
    vec![
        read("KeyValue", &kv("k", "v")),
        Op::Read(t("KeyValue"), unknown, big),
        Op::Read(t("KeyValue"), vec![0x18, 1, 0xff, 0x00], big),          // not UTF-8
        Op::Read(t("KeyValue"), vec![0x18, 5, b'a', b'b'], big),          // cut short
        Op::Read(t("KeyValue"), enc(&kv("long key", "v")), 9),            // over the limit
        Op::Read(t("KeyValue"), { let mut b = vec![0x4c]; b.extend(deep); b }, big), // too deep
        Op::Read(t("KeyValue"), vec![0x28, 1, b'v', 0], big),             // a required field is missing
        Op::Read(t("KeyValue"), vec![0x18, 0x80, 0x80, 0x40, b'a'], 1 << 21), // cut short, a mebibyte declared
        read("Statistics", &stat),
        read("SortingColumn", &sort),
        Op::Skip(Wt::Map, vec![2, 0x8b, 1, b'a', 1, b'b', 2, b'c', b'd', 0], big),
        // each container skipped within another
        Op::Skip(Wt::List, vec![0x1a, 0x1b, 1, 0x5c, 2, 0x15, 2, 0x00], big),
        Op::LowRead(low, big),
        Op::Write(t("KeyValue"), kv("k", "v")),
        Op::Write(t("Statistics"), stat),
        Op::Write(t("SortingColumn"), sort),
        Op::Write(t("PageLocation"), loc),
        Op::LowWrite,
    ]
}

/// Run tasks by a schedule of their numbers; whoever is not done at its end goes on in turn.
fn follow(ks: &[&Known1], order: &[u8], drops: Option<(usize, usize)>) -> Result<(), String> {
    let mut ts: Vec<Option<Running>> = ks.iter().map(|k| Some(k.op.task())).collect();
    let mut polled = vec![0; ks.len()];
    let ids: Vec<u64> = ks.iter().map(|k| k.id).collect();
    let mut go = |i: usize, ts: &mut Vec<Option<Running>>| -> Result<(), String> {
        if let Some((who, after)) = drops {
            if who == i && polled[i] == after {
                ts[i] = None;
            }
        }
        if let Some(t) = &mut ts[i] {
            polled[i] += 1;
            // a state of the composition: how far each of its tasks is
            visit(&(&ids, &polled));
            if let Poll::Ready(d) = step(t.as_mut()) {
                ts[i] = None;
                same(&format!("task {}", i), ks[i], &d)?;
            }
        }
        Ok(())
    };
    for &i in order {
        go(i as usize, &mut ts)?;
    }
    for i in 0..ks.len() {
        let mut n = 0;
        while ts[i].is_some() {
            go(i, &mut ts)?;
            n += 1;
            ensure!(n < 100_000, "task {} ({}) never ends", i, ks[i].op.name());
        }
    }
    Ok(())
}
fn binomial(n: usize, k: usize) -> usize {
    (0..k).fold(1usize, |a, i| a.saturating_mul(n - i) / (i + 1))
}
/// All arrangements of `counts[i]` times `i`.
fn arrangements(counts: &mut Vec<usize>, cur: &mut Vec<u8>, f: &mut dyn FnMut(&[u8])) {
    if counts.iter().all(|c| *c == 0) {
        f(cur);
        return;
    }
    for i in 0..counts.len() {
        if counts[i] > 0 {
            counts[i] -= 1;
            cur.push(i as u8);
            arrangements(counts, cur, f);
            cur.pop();
            counts[i] += 1;
        }
    }
}
/// All schedules of two with at most three switches.
fn switched(n: usize, m: usize, f: &mut dyn FnMut(&[u8])) {
    let mut o = vec![];
    for first in [0u8, 1] {
        let (x, y) = if first == 0 { (n, m) } else { (m, n) };
        for i in 0..=x {
            for j in 0..=y {
                for k in 0..=(x - i).min(2) {
                    o.clear();
                    o.extend(std::iter::repeat_n(first, i));
                    o.extend(std::iter::repeat_n(1 - first, j));
                    o.extend(std::iter::repeat_n(first, if k == 2 { x - i } else { k }));
                    o.extend(std::iter::repeat_n(1 - first, y - j));
                    o.extend(std::iter::repeat_n(first, x - o.iter().filter(|z| **z == first).count()));
                    f(&o);
                }
            }
        }
    }
}

/// Two threads, of which one runs at a time, from one call of its transport to the next.
struct Baton {
    st: Mutex<(usize, Option<usize>, [bool; 2])>,
    cv: Condvar,
    order: Vec<u8>,
}
impl Baton {
    fn wait(&self, me: usize) {
        let mut g = self.st.lock().expect("harness: baton");
        if g.1 == Some(me) {
            g.1 = None;
            self.cv.notify_all();
        }
        loop {
            while g.0 < self.order.len() && g.2[self.order[g.0] as usize] {
                g.0 += 1;
            }
            let next = if g.0 < self.order.len() { self.order[g.0] as usize } else if g.2[0] { 1 } else { 0 };
            if g.1.is_none() && next == me {
                g.0 += 1;
                g.1 = Some(me);
                self.cv.notify_all();
                return;
            }
            g = self.cv.wait(g).expect("harness: baton");
        }
    }
    fn end(&self, me: usize) {
        let mut g = self.st.lock().expect("harness: baton");
        g.2[me] = true;
        if g.1 == Some(me) {
            g.1 = None;
        }
        self.cv.notify_all();
    }
}
/// A second thread to run things on.
struct Other {
    tx: Option<mpsc::Sender<Box<dyn FnOnce() + Send>>>,
    th: Option<std::thread::JoinHandle<()>>,
}
impl Other {
    fn new() -> Other {
        let (tx, rx) = mpsc::channel::<Box<dyn FnOnce() + Send>>();
        let th = std::thread::Builder::new()
            .name("w".into())
            .stack_size(STACK)
            .spawn(move || {
                for f in rx {
                    f()
                }
            })
            .expect("harness: thread");
        Other { tx: Some(tx), th: Some(th) }
    }
    /// Start `f` there; the receiver has its outcome. The caller must await it before anything `f` borrows ends.
    unsafe fn start<'x, T: Send + 'x>(&self, f: impl FnOnce() -> T + Send + 'x) -> mpsc::Receiver<Result<T, String>> {
        let (tx, rx) = mpsc::channel();
        let b: Box<dyn FnOnce() + Send + 'x> = Box::new(move || {
            let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic());
            let _ = tx.send(r);
        });
        let b: Box<dyn FnOnce() + Send + 'static> = std::mem::transmute(b);
        self.tx.as_ref().unwrap().send(b).expect("harness: other thread");
        rx
    }
    fn call<'x, T: Send + 'x>(&self, f: impl FnOnce() -> T + Send + 'x) -> Result<T, String> {
        unsafe { self.start(f) }.recv().expect("harness: other thread")
    }
}
impl Drop for Other {
    fn drop(&mut self) {
        self.tx = None;
        let _ = self.th.take().unwrap().join();
    }
}
fn threads(other: &Other, ks: [&Known1; 2], sides: [Side; 2], order: &[u8]) -> Result<(), String> {
    let baton = Baton { st: Mutex::new((0, None, [false; 2])), cv: Condvar::new(), order: order.to_vec() };
    let run = |me: usize| {
        let b = &baton;
        b.wait(me);
        visit(&(ks[0].id, ks[1].id, me, sides));
        let r = catch_unwind(AssertUnwindSafe(|| ks[me].op.run(sides[me], &[], Some(Hook { at: usize::MAX, f: Box::new(|| b.wait(me)) }))));
        b.end(me);
        r.map_err(|_| last_panic())
    };
    let there = unsafe { other.start(|| run(1)) };
    let here = run(0);
    let there = there.recv().expect("harness: other thread").and_then(|x| x);
    for (i, d) in [here, there].into_iter().enumerate() {
        match d {
            Ok(d) => same(&format!("thread {}", i), ks[i], &d)?,
            Err(m) => {
                ensure!(!m.contains("harness:"), "{}", m);
                return Err(format!("thread {} panicked: {}", i, m));
            }
        }
    }
    Ok(())
}
/// Doing it once more must not hold more memory than before.
fn steady(c: &mut Case, mut f: impl FnMut()) -> Result<(), String> {
    let mut at = [0; 4];
    for a in &mut at {
        f();
        *a = alloc::live();
    }
    c.ran(4);
    ensure!(at[1] <= at[0] || at[2] <= at[1] || at[3] <= at[2], "memory held after each of four times: {:?}", at);
    Ok(())
}

fn c30(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let n = small().len();
    for i in 0..n {
        for j in i..n {
            jobs.push(job(format!("tasks {}|{}", i, j), move |ctx: &mut Ctx| {
                let (a, b) = (known(small().swap_remove(i)), known(small().swap_remove(j)));
                let mut one = |o: &[u8]| {
                    if ctx.stopped() {
                        return;
                    }
                    ctx.case(|| format!("{} with {} as {:?}", a.op.name(), b.op.name(), o), |c| {
                        c.key(&(a.id, b.id, o));
                        c.ran(2);
                        follow(&[&a, &b], o, None)
                    });
                };
                if binomial(a.steps + b.steps, b.steps) <= tier.pick(13_000, 800_000) {
                    arrangements(&mut vec![a.steps, b.steps], &mut vec![], &mut one);
                } else {
                    switched(a.steps, b.steps, &mut one);
                }
            }));
        }
    }
    // three at once
    let tiny = [2usize, 3, 6, 16];
    for x in tiny {
        for y in tiny {
            for z in tiny {
                if x > y || y > z {
                    continue;
                }
                jobs.push(job(format!("tasks {}|{}|{}", x, y, z), move |ctx: &mut Ctx| {
                    let k = [x, y, z].map(|i| known(small().swap_remove(i)));
                    let most = tier.pick(3, 4);
                    let mut counts: Vec<usize> = k.iter().map(|k| k.steps.min(most)).collect();
                    arrangements(&mut counts, &mut vec![], &mut |o| {
                        if ctx.stopped() {
                            return;
                        }
                        ctx.case(|| format!("{}, {} and {} as {:?}", k[0].op.name(), k[1].op.name(), k[2].op.name(), o), |c| {
                            c.key(&(x, y, z, o));
                            c.ran(3);
                            follow(&[&k[0], &k[1], &k[2]], o, None)
                        });
                    });
                }));
            }
        }
    }
    for i in 0..n {
        jobs.push(job(format!("around {}", i), move |ctx: &mut Ctx| {
            let a = known(small().swap_remove(i));
            for b in small().into_iter().map(known) {
                around(ctx, &a, &b, true);
            }
        }));
        jobs.push(job(format!("threads {}", i), move |ctx: &mut Ctx| {
            let a = known(small().swap_remove(i));
            let other = Other::new();
            for b in small().into_iter().map(known) {
                for sides in [[Side::Sync, Side::Sync], [Side::Sync, Side::Async], [Side::Async, Side::Async]] {
                    let (n, m) = (a.calls[(sides[0] == Side::Async) as usize] + 1, b.calls[(sides[1] == Side::Async) as usize] + 1);
                    for x in 0..=n {
                        for y in 0..=m {
                            // most at the start, where little is to come, and all in the thorough run
                            if ctx.stopped() || tier == Tier::Quick && (x > 14 || y > 14) {
                                continue;
                            }
                            let mut o = vec![0u8; x];
                            o.extend(std::iter::repeat_n(1, y));
                            o.extend(std::iter::repeat_n(0, n - x));
                            ctx.case(|| format!("{} and {} on {:?} threads as {:?}", a.op.name(), b.op.name(), sides, o), |c| {
                                c.key(&(a.id, b.id, &o, sides));
                                c.ran(2);
                                threads(&other, [&a, &b], sides, &o)
                            });
                        }
                    }
                }
            }
        }));
        jobs.push(job(format!("moving {}", i), move |ctx: &mut Ctx| {
            let a = known(small().swap_remove(i));
            let other = Other::new();
            moving(ctx, &a, &other, true);
        }));
        jobs.push(job(format!("histories {}", i), move |ctx: &mut Ctx| {
            let ks: Vec<Known1> = small().into_iter().map(known).collect();
            let a = &ks[i];
            for s in SIDES {
                for b in &ks {
                    for t in SIDES {
                        for c3 in &ks {
                            ctx.case(|| format!("{:?} {}, then {:?} {}, then {}", s, a.op.name(), t, b.op.name(), c3.op.name()), |c| {
                                c.key(&(s, t, a.id, b.id, c3.id));
                                c.ran(4);
                                same("the first", a, &a.op.run(s, &[], None))?;
                                same("the second", b, &b.op.run(t, &[], None))?;
                                same("the third", c3, &c3.op.run(s, &[], None))?;
                                same("the fourth", c3, &c3.op.run(t, &[], None))
                            });
                        }
                    }
                }
                for times in [10, 70, 130, 300, tier.pick(1100, 70_000)] {
                    ctx.case(|| format!("{:?} {} {} times, then all others", s, a.op.name(), times), |c| {
                        c.key(&(s, a.id, times));
                        c.ran(times as u64 + 20);
                        for _ in 0..times {
                            same("again", a, &a.op.run(s, &[], None))?;
                        }
                        for b in &ks {
                            for t in SIDES {
                                same("afterwards", b, &b.op.run(t, &[], None))?;
                            }
                        }
                        Ok(())
                    });
                }
            }
            // failing at each call many times over
            for (si, s) in SIDES.into_iter().enumerate() {
                for at in 0..a.calls[si] {
                    for times in [70, 300] {
                        ctx.case(|| format!("{:?} {} failing at call {}, {} times, then all others", s, a.op.name(), at, times), |c| {
                            c.key(&(s, a.id, at, times, "failing"));
                            c.ran(times as u64 + 20);
                            for _ in 0..times {
                                ensure!(a.op.run(s, &[(at, Dev::Fail(std::io::ErrorKind::BrokenPipe))], None).res.is_err(), "a failing call goes unnoticed");
                            }
                            for b in &ks {
                                for t in SIDES {
                                    same("afterwards", b, &b.op.run(t, &[], None))?;
                                }
                            }
                            Ok(())
                        });
                    }
                }
            }
            // begun and dropped many times over
            for x in 0..a.steps {
                for times in [1, 2, 10, 70, 300] {
                    ctx.case(|| format!("{} dropped after {} steps, {} times, then all others", a.op.name(), x, times), |c| {
                        c.key(&(a.id, x, times));
                        c.ran(times as u64 + 20);
                        for _ in 0..times {
                            let mut t = a.op.task();
                            for _ in 0..x {
                                let _ = step(t.as_mut());
                            }
                        }
                        for b in &ks {
                            for t in SIDES {
                                same("afterwards", b, &b.op.run(t, &[], None))?;
                            }
                        }
                        Ok(())
                    });
                }
            }
            // and begun and left waiting, all at once
            for x in 1..a.steps {
                for times in [2, 10, 70, 300] {
                    ctx.case(|| format!("{} waiting after {} steps, {} times, while all others run", a.op.name(), x, times), |c| {
                        c.key(&(a.id, x, times, "left"));
                        c.ran(times as u64 + 20);
                        let mut ts: Vec<Running> = (0..times).map(|_| a.op.task()).collect();
                        for t in &mut ts {
                            for _ in 0..x {
                                let _ = step(t.as_mut());
                            }
                        }
                        for b in &ks {
                            for t in SIDES {
                                same("meanwhile", b, &b.op.run(t, &[], None))?;
                            }
                        }
                        for t in &mut ts {
                            same("afterwards", a, &block_on(t.as_mut()))?;
                        }
                        Ok(())
                    });
                }
            }
        }));
    }
    for t in TYPES.iter().copied() {
        jobs.push(job(t.name(), move |ctx: &mut Ctx| {
            let other = Other::new();
            let kv = known(small().swap_remove(0));
            for v in [build(t.def(), 1, true), build(t.def(), 1, false)] {
                for op in [Op::Read(t, enc(&v), 1 << 20), Op::Write(t, v.clone())] {
                    let a = known(op);
                    let again = match &a.op {
                        Op::Read(t, b, l) => known(Op::Read(*t, b.clone(), *l)),
                        _ => known(Op::Write(t, v.clone())),
                    };
                    around(ctx, &a, &again, false);
                    around(ctx, &kv, &a, false);
                    around(ctx, &a, &kv, false);
                    moving(ctx, &a, &other, false);
                    for x in 0..=a.steps {
                        ctx.case(|| format!("{}, and the same after {} steps", a.op.name(), x), |c| {
                            c.key(&(a.id, x));
                            c.ran(2);
                            let mut o = vec![0u8; x];
                            o.extend(vec![1u8; a.steps]);
                            follow(&[&a, &again], &o, None)?;
                            // and both step by step
                            o.truncate(x);
                            o.extend((0..2 * a.steps).map(|i| (i % 2) as u8));
                            follow(&[&a, &again], &o, None)
                        });
                    }
                }
            }
        }));
    }
    jobs
}
/// `a` interrupted in every way at every call, and what that does to `b`.
fn around(ctx: &mut Ctx, a: &Known1, b: &Known1, full: bool) {
    // dropped while it waits, with b begun before
    for x in 0..a.steps {
        for y in 0..b.steps {
            if !full && y != 0 && y != b.steps / 2 {
                continue;
            }
            ctx.case(|| format!("{} dropped after {} steps, with {} {} steps in", a.op.name(), x, b.op.name(), y), |c| {
                c.key(&(a.id, b.id, x, y));
                c.ran(2);
                let mut o = vec![1u8; y];
                o.extend(vec![0u8; x + 1]);
                follow(&[a, b], &o, Some((0, x)))
            });
        }
        ctx.case(|| format!("{} dropped after {} steps: memory", a.op.name(), x), |c| {
            steady(c, || {
                let mut t = a.op.task();
                for _ in 0..x {
                    let _ = step(t.as_mut());
                }
            })
        });
    }
    for (si, s) in SIDES.into_iter().enumerate() {
        // every call, and usize::MAX: all of them
        for at in (0..a.calls[si]).chain([usize::MAX]) {
            for u in SIDES {
                ctx.case(|| format!("{:?} {} within call {} of {:?} {}", u, b.op.name(), at, s, a.op.name()), |c| {
                    c.key(&(a.id, b.id, s, u, at));
                    c.ran(2);
                    let inner = Mutex::new(Ok(()));
                    let f = || {
                        let r = same("the inner", b, &b.op.run(u, &[], None));
                        let mut g = inner.lock().expect("harness: inner");
                        if g.is_ok() {
                            *g = r;
                        }
                    };
                    let d = a.op.run(s, &[], Some(Hook { at, f: Box::new(f) }));
                    inner.into_inner().expect("harness: inner")?;
                    same("the outer", a, &d)
                });
            }
            if at == usize::MAX {
                continue;
            }
            ctx.case(|| format!("{} after call {} of {:?} {} failed or panicked", b.op.name(), at, s, a.op.name()), |c| {
                c.key(&(a.id, b.id, s, at));
                c.ran(6);
                let d = a.op.run(s, &[(at, Dev::Fail(std::io::ErrorKind::BrokenPipe))], None);
                ensure!(d.res.is_err(), "a failing call goes unnoticed");
                for u in SIDES {
                    same("the one after a failure", b, &b.op.run(u, &[], None))?;
                }
                let r = catch_unwind(AssertUnwindSafe(|| a.op.run(s, &[], Some(Hook { at, f: Box::new(|| resume_unwind(Box::new(()))) }))));
                ensure!(r.is_err(), "a panic of the transport goes unnoticed");
                for u in SIDES {
                    same("the one after a panic", b, &b.op.run(u, &[], None))?;
                }
                Ok(())
            });
            ctx.case(|| format!("call {} of {:?} {} fails or panics: memory", at, s, a.op.name()), |c| {
                steady(c, || {
                    let _ = a.op.run(s, &[(at, Dev::Fail(std::io::ErrorKind::BrokenPipe))], None);
                })?;
                steady(c, || {
                    let _ = catch_unwind(AssertUnwindSafe(|| a.op.run(s, &[], Some(Hook { at, f: Box::new(|| resume_unwind(Box::new(()))) }))));
                })
            });
        }
        ctx.case(|| format!("{:?} {}: memory", s, a.op.name()), |c| {
            steady(c, || {
                let _ = a.op.run(s, &[], None);
            })
        });
    }
}
/// Begun on one thread and resumed on another, at every step; and back and forth.
fn moving(ctx: &mut Ctx, a: &Known1, other: &Other, full: bool) {
    for x in 0..a.steps {
        for every in if full { 1..4 } else { 1..2 } {
            ctx.case(|| format!("{} moved to another thread after {} steps, and every {} steps", a.op.name(), x, every), |c| {
                c.key(&(a.id, x, every));
                c.ran(1);
                let mut t = a.op.task();
                let mut n = 0;
                loop {
                    let there = n >= x && (n - x) / every % 2 == 0;
                    let r = if there { other.call(|| step(t.as_mut()))? } else { step(t.as_mut()) };
                    if let Poll::Ready(d) = r {
                        return same("the moved one", a, &d);
                    }
                    n += 1;
                    ensure!(n < 100_000, "never ends");
                }
            });
        }
    }
}
pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C30",
        level: "model_checking",
        rule: "one case = one schedule of several uses of the crate; distinct = distinct schedules",
        explanation: "Eighteen small uses (reads that succeed and that fail in each way, writes, skips, low-level sequences) in all pairs: all interleavings of two asynchronous tasks at the granularity of transport calls (with at most three switches where there are more than 13000), of three tasks over their first steps; all pairs nested at every transport call; all pairs on two threads with two switches; every task dropped, failed or panicked at every step with others before, between and after; moved to another thread at every step; all sequences of three, and long repetitions. Every Parquet type against itself and another. Memory held must not grow with repetition.",
        assumptions: &["threads switch at transport calls only"],
        jobs: c30,
    }]
}
