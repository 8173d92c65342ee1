//! Running the real code under a chosen transport, and observing what it did.
use crate::env::*;
use crate::schema::*;
use crate::val::*;
use parquet_format_safe::thrift;
pub use thrift::{ApplicationErrorKind as AK, ProtocolErrorKind as PK, TransportErrorKind as TK};
use thrift::protocol::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EK {
    T(TK),
    P(PK),
    A(AK),
}
pub fn ek(e: &thrift::Error) -> EK {
    match e {
        thrift::Error::Transport(t) => EK::T(t.kind),
        thrift::Error::Protocol(p) => EK::P(p.kind),
        thrift::Error::Application(a) => EK::A(a.kind),
    }
}
pub const EOF: EK = EK::T(TK::EndOfFile);
pub const LIMIT: EK = EK::P(PK::SizeLimit);
pub const DEPTH: EK = EK::P(PK::DepthLimit);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Side {
    Sync,
    Async,
    BoxSync,
}
use Side::*;
pub const SIDES: [Side; 2] = [Sync, Async];
impl Side {
    pub fn is_async(self) -> bool {
        self == Async
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Plan<'d> {
    pub devs: &'d [(usize, Dev)],
    pub mode: Mode,
}
pub const PLAIN: Plan<'static> = Plan { devs: &[], mode: Mode::Normal };

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Seen {
    pub consumed: usize,
    pub calls: usize,
    pub eof_hits: usize,
    pub applied: usize,
    pub failed_at: Option<usize>,
    pub calls_after_failure: usize,
}
impl Seen {
    fn of(e: &Env) -> Seen {
        Seen {
            consumed: e.pos,
            calls: e.calls,
            eof_hits: e.eof_hits,
            applied: e.applied,
            failed_at: e.failed_at,
            calls_after_failure: e.calls_after_failure,
        }
    }
}
/// Run any sync reading program over `bytes`.
pub fn with_in<T>(b: &[u8], limit: usize, plan: Plan, f: impl FnOnce(&mut In<'_, '_>) -> thrift::Result<T>) -> (Result<T, EK>, Seen) {
    let mut e = Env::reader(b);
    e.devs = plan.devs;
    e.mode = plan.mode;
    let mut p = TCompactInputProtocol::new(&mut e, limit);
    let r = f(&mut p);
    drop(p);
    (r.map_err(|x| ek(&x)), Seen::of(&e))
}
pub fn with_sin<T>(b: &[u8], limit: usize, plan: Plan, f: impl FnOnce(&mut SIn<'_, '_>) -> thrift::Result<T>) -> (Result<T, EK>, Seen) {
    let mut e = Env::reader(b);
    e.devs = plan.devs;
    e.mode = plan.mode;
    let mut p = TCompactInputStreamProtocol::new(&mut e, limit);
    let r = f(&mut p);
    drop(p);
    (r.map_err(|x| ek(&x)), Seen::of(&e))
}
pub fn read(t: &dyn Ty, b: &[u8], limit: usize, side: Side) -> (Result<Val, EK>, Seen) {
    read_plan(t, b, limit, side, PLAIN)
}
pub fn read_plan(t: &dyn Ty, b: &[u8], limit: usize, side: Side, plan: Plan) -> (Result<Val, EK>, Seen) {
    match side {
        Sync => with_in(b, limit, plan, |p| t.read(p)),
        Async => with_sin(b, limit, plan, |p| t.sread(p)),
        BoxSync => {
            let mut e = Env::reader(b);
            e.devs = plan.devs;
            e.mode = plan.mode;
            let mut p = Box::new(TCompactInputProtocol::new(&mut e, limit));
            let r = t.bread(&mut p);
            drop(p);
            (r.map_err(|x| ek(&x)), Seen::of(&e))
        }
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Wrote {
    pub bytes: Vec<u8>,
    pub calls: usize,
    pub applied: usize,
    pub flushes: usize,
    pub flushed_len: usize,
    pub failed_at: Option<usize>,
    pub calls_after_failure: usize,
    pub dropped: usize,
}
impl Wrote {
    pub fn of(e: Env) -> Wrote {
        Wrote { calls: e.calls, applied: e.applied, flushes: e.flushes, flushed_len: e.flushed_len, failed_at: e.failed_at, calls_after_failure: e.calls_after_failure, dropped: e.dropped, bytes: e.out }
    }
}
fn wenv<'a>(plan: Plan<'a>) -> Env<'a> {
    let mut e = Env::writer();
    e.devs = plan.devs;
    e.mode = plan.mode;
    e
}
pub fn with_out<T>(plan: Plan, f: impl FnOnce(&mut Out<'_, '_>) -> thrift::Result<T>) -> (Result<T, EK>, Wrote) {
    let mut e = wenv(plan);
    let mut p = TCompactOutputProtocol::new(&mut e);
    let r = f(&mut p);
    drop(p);
    (r.map_err(|x| ek(&x)), Wrote::of(e))
}
pub fn with_sout<T>(plan: Plan, f: impl FnOnce(&mut SOut<'_, '_>) -> thrift::Result<T>) -> (Result<T, EK>, Wrote) {
    let mut e = wenv(plan);
    let mut p = TCompactOutputStreamProtocol::new(&mut e);
    let r = f(&mut p);
    drop(p);
    (r.map_err(|x| ek(&x)), Wrote::of(e))
}
pub fn write(t: &dyn Ty, v: &Val, side: Side) -> (Result<usize, EK>, Wrote) {
    write_plan(t, v, side, PLAIN)
}
pub fn write_plan(t: &dyn Ty, v: &Val, side: Side, plan: Plan) -> (Result<usize, EK>, Wrote) {
    match side {
        Sync => with_out(plan, |p| t.write(v, p)),
        Async => with_sout(plan, |p| t.swrite(v, p)),
        BoxSync => {
            let mut e = wenv(plan);
            let mut p = Box::new(TCompactOutputProtocol::new(&mut e));
            let r = t.bwrite(v, &mut p);
            drop(p);
            (r.map_err(|x| ek(&x)), Wrote::of(e))
        }
    }
}
pub fn ttype(w: Wt) -> TType {
    match w {
        Wt::Bool => TType::Bool,
        Wt::I8 => TType::I08,
        Wt::I16 => TType::I16,
        Wt::I32 => TType::I32,
        Wt::I64 => TType::I64,
        Wt::Dbl => TType::Double,
        Wt::Bin => TType::String,
        Wt::List => TType::List,
        Wt::Set => TType::Set,
        Wt::Map => TType::Map,
        Wt::St => TType::Struct,
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(200).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 200 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
pub fn brief_r(r: &Result<Val, EK>) -> String {
    match r {
        Ok(v) => v.brief(),
        Err(e) => format!("{:?}", e),
    }
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
