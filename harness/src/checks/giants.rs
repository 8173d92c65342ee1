//! C28: contents longer than the format's 32 bits can announce.
//!
//! A giant is a mapping of untouched zero pages, its first elements real; nothing sane reads beyond them,
//! because the transport stops accepting shortly after the length.
use crate::domain::*;
use crate::engine::*;
use crate::ensure;
use crate::env::*;
use crate::ops::*;
use crate::schema::*;
use crate::val::*;
use parquet_format_safe as pf;
use parquet_format_safe::thrift;
use std::mem::ManuallyDrop;
use thrift::protocol::*;

/// real elements at the start of a giant list
const REAL: usize = 4096;
/// bytes the transport accepts behind the length
const ROOM: usize = 250;
const SMALL: usize = 300;

struct Giant<T> {
    v: ManuallyDrop<Vec<T>>,
    bytes: usize,
    _elem: ManuallyDrop<T>,
}
impl<T> Giant<T> {
    /// None: the system does not give out this much address space
    fn new(n: usize, elem: T) -> Option<Giant<T>> {
        let size = std::mem::size_of::<T>();
        let bytes = n.checked_mul(size)?;
        let elem = ManuallyDrop::new(elem);
        unsafe {
            if bytes == 0 {
                // elements without contents need no memory
                let p = std::ptr::NonNull::<T>::dangling().as_ptr();
                return Some(Giant { v: ManuallyDrop::new(Vec::from_raw_parts(p, n, usize::MAX)), bytes, _elem: elem });
            }
            let p = libc::mmap(
                std::ptr::null_mut(),
                bytes,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            if p == libc::MAP_FAILED {
                return None;
            }
            let p = p as *mut T;
            for i in 0..REAL.min(n) {
                std::ptr::copy_nonoverlapping(&*elem as *const T, p.add(i), 1);
            }
            Some(Giant { v: ManuallyDrop::new(Vec::from_raw_parts(p, n, n)), bytes, _elem: elem })
        }
    }
    /// the vector itself; must be forgotten, not dropped
    fn lend(&self) -> Vec<T> {
        unsafe { Vec::from_raw_parts(self.v.as_ptr() as *mut T, self.v.len(), self.v.len()) }
    }
}
impl<T> Drop for Giant<T> {
    fn drop(&mut self) {
        // the element is leaked with its copies: no one owns it alone
        unsafe {
            if self.bytes > 0 {
                libc::munmap(self.v.as_ptr() as *mut _, self.bytes);
            }
            ManuallyDrop::drop(&mut self._elem);
        }
    }
}

type Out1 = Option<(Result<usize, EK>, Wrote)>;
/// writes the subject with `n` bytes or elements at its place
type Run = Box<dyn Fn(usize, Side, Plan) -> Out1 + Sync + Send>;
struct Subject {
    name: String,
    /// one text or binary, of which the count is reported
    counted: bool,
    sides: &'static [Side],
    run: Run,
}

fn list_of<T: Conv>(n: usize, elem: &Val) -> Vec<T> {
    (0..n).map(|_| T::from_val(elem)).collect()
}
macro_rules! some {
    (req $x:expr) => { $x };
    (opt $x:expr) => { Some($x) };
}
macro_rules! typed {
    ($v:ident, $s:ident, $plan:ident) => {
        match $s {
            Side::Sync => with_out($plan, |p| $v.write_to_out_protocol(p)),
            Side::Async => with_sout($plan, |p| block_on($v.write_to_out_stream_protocol(p))),
            Side::BoxSync => {
                let mut e = Env::writer();
                e.mode = $plan.mode;
                let mut p = Box::new(TCompactOutputProtocol::new(&mut e));
                let r = $v.write_to_out_protocol(&mut p);
                drop(p);
                (r.map_err(|x| ek(&x)), Wrote::of(e))
            }
        }
    };
}
/// set the field to small or giant contents, write, and take the contents away again
macro_rules! site {
    ($out:ident, $T:ident, $q:tt $f:ident, $E:ty, $small:expr, $wrap:expr, $kind:expr) => {
        for full in [false, true] {
            $out.push(Subject {
                name: format!("{}.{} ({})", stringify!($T), stringify!($f), if full { "full" } else { "bare" }),
                counted: std::mem::size_of::<$E>() == 1 && stringify!($E) == "u8",
                sides: &[Side::Sync, Side::Async, Side::BoxSync],
                run: Box::new(move |n, s, plan| {
                    let base = build(<pf::$T as HasDef>::def(), 1, full);
                    let elem: Val = filler(&$kind, 3, false);
                    let mut v = ManuallyDrop::new(<pf::$T as Conv>::from_val(&base));
                    if n < 10_000 {
                        v.$f = some!($q $small(n, &elem));
                        let r = typed!(v, s, plan);
                        drop(ManuallyDrop::into_inner(v));
                        return Some(r);
                    }
                    let g = Giant::<$E>::new(n, <$E as Conv2>::make(&elem))?;
                    v.$f = some!($q $wrap(g.lend()));
                    let r = typed!(v, s, plan);
                    std::mem::forget(std::mem::replace(&mut v.$f, some!($q Default::default())));
                    drop(ManuallyDrop::into_inner(v));
                    Some(r)
                }),
            });
        }
    };
}
/// elements of giants
trait Conv2: Sized {
    fn make(v: &Val) -> Self;
}
impl Conv2 for u8 {
    fn make(_: &Val) -> u8 {
        0
    }
}
macro_rules! conv2 {
    ($($t:ty),*) => { $(impl Conv2 for $t { fn make(v: &Val) -> Self { Conv::from_val(v) } })* };
}
conv2!(bool, i64, String, Vec<u8>, pf::Encoding, pf::KeyValue, pf::PageEncodingStats, pf::ColumnChunk, pf::SortingColumn,
    pf::PageLocation, pf::SchemaElement, pf::RowGroup, pf::ColumnOrder);

macro_rules! lists {
    ($out:ident; $($T:ident $q:tt $f:ident : $E:ty),* $(,)?) => { $(
        site!($out, $T, $q $f, $E, list_of::<$E>, (|v| v), <$E as Conv>::kind());
    )* };
}
macro_rules! bins {
    ($out:ident; $($T:ident $q:tt $f:ident),* $(,)?) => { $(
        site!($out, $T, $q $f, u8, (|n: usize, _: &Val| vec![0u8; n]), (|v| v), Kind::Bool);
    )* };
}
macro_rules! strs {
    ($out:ident; $($T:ident $q:tt $f:ident),* $(,)?) => { $(
        site!($out, $T, $q $f, u8, (|n: usize, _: &Val| "\0".repeat(n)), (|v| unsafe { String::from_utf8_unchecked(v) }), Kind::Bool);
    )* };
}
fn sites() -> Vec<Subject> {
    let mut out = vec![];
    lists!(out;
        ColumnMetaData req encodings: pf::Encoding, ColumnMetaData req path_in_schema: String,
        ColumnMetaData opt key_value_metadata: pf::KeyValue, ColumnMetaData opt encoding_stats: pf::PageEncodingStats,
        EncryptionWithColumnKey req path_in_schema: String, RowGroup req columns: pf::ColumnChunk,
        RowGroup opt sorting_columns: pf::SortingColumn, OffsetIndex req page_locations: pf::PageLocation,
        ColumnIndex req null_pages: bool, ColumnIndex req min_values: Vec<u8>, ColumnIndex req max_values: Vec<u8>,
        ColumnIndex opt null_counts: i64, FileMetaData req schema: pf::SchemaElement, FileMetaData req row_groups: pf::RowGroup,
        FileMetaData opt key_value_metadata: pf::KeyValue, FileMetaData opt column_orders: pf::ColumnOrder,
    );
    bins!(out;
        Statistics opt max, Statistics opt min, Statistics opt max_value, Statistics opt min_value,
        EncryptionWithColumnKey opt key_metadata, ColumnChunk opt encrypted_column_metadata, AesGcmV1 opt aad_prefix,
        AesGcmV1 opt aad_file_unique, AesGcmCtrV1 opt aad_prefix, AesGcmCtrV1 opt aad_file_unique,
        FileMetaData opt footer_signing_key_metadata, FileCryptoMetaData opt key_metadata,
    );
    strs!(out; SchemaElement req name, KeyValue req key, KeyValue opt value, ColumnChunk opt file_path, FileMetaData opt created_by);
    // one binary inside a list of binaries
    for (what, last) in [("the only", true), ("the first of two", false)] {
        out.push(Subject {
            name: format!("ColumnIndex.min_values, {} element", what),
            counted: true,
            sides: &SIDES,
            run: Box::new(move |n, s, plan| {
                let mut v = ManuallyDrop::new(<pf::ColumnIndex as Conv>::from_val(&build(<pf::ColumnIndex as HasDef>::def(), 1, false)));
                let g = Giant::<u8>::new(n, 0)?;
                v.min_values = vec![g.lend()];
                if !last {
                    v.min_values.push(vec![1, 2]);
                }
                let r = typed!(v, s, plan);
                std::mem::forget(std::mem::take(&mut v.min_values[0]));
                drop(ManuallyDrop::into_inner(v));
                Some(r)
            }),
        });
    }
    out
}
macro_rules! low {
    ($out:ident, $name:literal, |$p:ident, $b:ident| $sync:expr, $async:expr) => {
        $out.push(Subject {
            name: $name.to_string(),
            counted: true,
            sides: &[Side::Sync, Side::Async, Side::BoxSync],
            run: Box::new(|n, s, plan| {
                let g = Giant::<u8>::new(n, 0)?;
                let $b: &[u8] = &g.v;
                Some(match s {
                    Side::Sync => with_out(plan, |$p| $sync),
                    Side::Async => with_sout(plan, |$p| block_on($async)),
                    Side::BoxSync => {
                        let mut e = Env::writer();
                        e.mode = plan.mode;
                        let mut b = Box::new(TCompactOutputProtocol::new(&mut e));
                        let $p = &mut b;
                        let r: thrift::Result<usize> = $sync;
                        drop(b);
                        (r.map_err(|x| ek(&x)), Wrote::of(e))
                    }
                })
            }),
        });
    };
}
/// a text of zero bytes
fn zeros(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}
fn lows() -> Vec<Subject> {
    let mut out = vec![];
    low!(out, "write_bytes", |p, b| p.write_bytes(b), p.write_bytes(b));
    low!(out, "write_string", |p, b| p.write_string(zeros(b)), p.write_string(zeros(b)));
    low!(out, "message name", |p, b| {
        let m = ManuallyDrop::new(TMessageIdentifier { name: unsafe { String::from_raw_parts(b.as_ptr() as *mut u8, b.len(), b.len()) }, message_type: TMessageType::Call, sequence_number: 5 });
        p.write_message_begin(&m)
    }, async {
        let m = ManuallyDrop::new(TMessageIdentifier { name: unsafe { String::from_raw_parts(b.as_ptr() as *mut u8, b.len(), b.len()) }, message_type: TMessageType::Call, sequence_number: 5 });
        p.write_message_begin(&m).await
    });
    out.push(Subject {
        name: "application error".into(),
        counted: false,
        sides: &[Side::Sync],
        run: Box::new(|n, _, plan| {
            let g = Giant::<u8>::new(n, 0)?;
            let b: &[u8] = &g.v;
            let e = ManuallyDrop::new(thrift::ApplicationError {
                kind: AK::InternalError,
                message: unsafe { String::from_raw_parts(b.as_ptr() as *mut u8, b.len(), b.len()) },
            });
            Some(with_out(plan, |p| thrift::Error::write_application_error_to_out_protocol(&e, p).map(|_| 0)))
        }),
    });
    out
}

/// allowed and refused sizes
fn counts(tier: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for p in tier.pick(vec![15u32, 16, 20, 28, 31, 32, 33], (14..=38).collect::<Vec<_>>()) {
        for d in tier.pick(vec![-1i64, 0, 1, 14], vec![-2, -1, 0, 1, 2, 3, 14, 15, 127, 128]) {
            v.push(((1i64 << p) + d) as usize);
        }
    }
    v.extend([3 << 31, (1 << 32) + (1 << 31), (1 << 33) - 1, (1 << 32) + SMALL, 5 << 32]);
    v
}

fn c28(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    for sub in sites().into_iter().chain(lows()) {
        jobs.push(job(sub.name.clone(), move |ctx: &mut Ctx| {
            for &s in sub.sides {
                // where the length stands: the first place in which two lengths differ
                let small = |n: usize| (sub.run)(n, s, PLAIN).expect("harness: small contents").1.bytes;
                let mut shape: Option<(Vec<u8>, usize)> = None;
                for &n in &counts(tier) {
                    ctx.case(|| format!("{} with {} bytes or elements, {:?}", sub.name, n, s), |c| {
                        if shape.is_none() {
                            let (a, b) = (small(SMALL), small(SMALL + 1));
                            let at = (0..a.len().min(b.len())).find(|&i| a[i] != b[i]);
                            ensure!(at.is_some(), "{} and {} elements are written alike", SMALL, SMALL + 1);
                            let at = at.unwrap();
                            ensure!(a[at..].starts_with(&leb(SMALL as u64, 0)), "{} elements are not announced: {}", SMALL, hex(&a));
                            shape = Some((a, at));
                            c.ran(2);
                        }
                        let (a, at) = shape.as_ref().unwrap();
                        let len = leb(n as u64, 0);
                        let plan = Plan { devs: &[], mode: Mode::Capacity(at + len.len() + ROOM) };
                        let (r, w) = match (sub.run)(n, s, plan) {
                            Some(x) => x,
                            None => return Ok(()), // no such address space here
                        };
                        c.ran(1);
                        c.key(&(sub.name.as_str(), n, s));
                        visit(&(n > u32::MAX as usize, len.len(), at));
                        if n > u32::MAX as usize {
                            ensure!(r == Err(EK::P(PK::InvalidData)), "gave {:?} with {} delivered", r, hex(&w.bytes));
                            ensure!(a[..*at].starts_with(&w.bytes), "refused, but {} was delivered", hex(&w.bytes));
                        } else {
                            let want: Vec<u8> = a[..*at].iter().chain(&len).chain(&a[at + 2..]).copied().take(at + len.len() + ROOM).collect();
                            ensure!(matches!(r, Err(EK::T(_))), "gave {:?} though the transport was full", r);
                            ensure!(w.bytes == want, "delivered {} instead of {}", hex(&w.bytes), hex(&want));
                        }
                        Ok(())
                    });
                }
            }
        }));
    }
    jobs
}
/// Contents whose length takes three to five bytes, delivered whole: the count is what the transport received.
pub fn huge_counts(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    for sub in sites().into_iter().chain(lows()).filter(|s| s.counted) {
        jobs.push(job(format!("huge {}", sub.name), move |ctx: &mut Ctx| {
            for p in tier.pick(vec![20u32, 21, 28], (16..=28).collect()) {
                for n in [(1usize << p) - 1, 1 << p, (1 << p) + 1] {
                    for &s in sub.sides {
                        for chunk in [usize::MAX, 1_000_003] {
                            if p < 28 && chunk < 1 << 18 {
                                continue;
                            }
                            ctx.case(|| format!("{} with {} bytes, {:?}, at most {} per call", sub.name, n, s, chunk), |c| {
                                let small = (sub.run)(SMALL, s, PLAIN).expect("harness: small contents").1.bytes;
                                let (r, w) = match (sub.run)(n, s, Plan { devs: &[], mode: Mode::Counting(1000, chunk) }) {
                                    Some(x) => x,
                                    None => return Ok(()), // no such address space here
                                };
                                c.ran(1);
                                c.key(&(sub.name.as_str(), n, s, chunk));
                                visit(&(sub.name.as_str(), n));
                                let all = w.bytes.len() + w.dropped;
                                let want = small.len() - SMALL - 2 + leb(n as u64, 0).len() + n;
                                ensure!(r == Ok(all), "reports {:?}, the transport received {} bytes", r, all);
                                ensure!(all == want, "{} bytes were delivered, the encoding has {}", all, want);
                                Ok(())
                            });
                        }
                    }
                }
            }
        }));
    }
    jobs
}
pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C28",
        level: "model_checking",
        rule: "one case = one place that holds contents, one length, one writer; distinct = distinct (place, length, writer)",
        explanation: "Every list, string and binary of every structure, message names, application errors and the low-level calls x lengths around the powers of two up to beyond 2^32, in both writers and through a box, onto a transport that fills up right behind the length: lengths above 2^32-1 must be refused before any of it is delivered, the others announced exactly.",
        assumptions: &["contents this large are mappings of untouched memory; where the system refuses the address space the case is skipped and not counted as executed"],
        jobs: c28,
    }]
}
