//! C31: errors keep what caused them and show what they are.
use super::faults::KINDS;
use super::small::akinds;
use crate::domain::*;
use crate::engine::*;
use crate::ensure;
use crate::env::*;
use crate::ops::*;
use crate::schema::*;
use crate::val::*;
use parquet_format_safe::thrift;
use parquet_format_safe::thrift::protocol::*;
use std::io;
use thrift::Error;

const T_TEXTS: [(TK, &str); 7] = [
    (TK::Unknown, "transport error"),
    (TK::NotOpen, "not open"),
    (TK::AlreadyOpen, "already open"),
    (TK::TimedOut, "timed out"),
    (TK::EndOfFile, "end of file"),
    (TK::NegativeSize, "negative size message"),
    (TK::SizeLimit, "message too long"),
];
const P_TEXTS: [(PK, &str); 7] = [
    (PK::Unknown, "protocol error"),
    (PK::InvalidData, "bad data"),
    (PK::NegativeSize, "negative message size"),
    (PK::SizeLimit, "message too long"),
    (PK::BadVersion, "invalid thrift version"),
    (PK::NotImplemented, "not implemented"),
    (PK::DepthLimit, "maximum skip depth reached"),
];
const A_TEXTS: [&str; 11] = [
    "service error",
    "unknown service method",
    "wrong message type received",
    "unknown method reply received",
    "out of order sequence id",
    "missing method result",
    "remote service threw exception",
    "protocol error",
    "invalid transform",
    "invalid protocol requested",
    "unsupported protocol client",
];
const TYPE_TEXTS: [(TType, &str); 16] = [
    (TType::Stop, "STOP"),
    (TType::Void, "void"),
    (TType::Bool, "bool"),
    (TType::I08, "i08"),
    (TType::Double, "double"),
    (TType::I16, "i16"),
    (TType::I32, "i32"),
    (TType::I64, "i64"),
    (TType::String, "string"),
    (TType::Utf7, "UTF7"),
    (TType::Struct, "struct"),
    (TType::Map, "map"),
    (TType::Set, "set"),
    (TType::List, "list"),
    (TType::Utf8, "UTF8"),
    (TType::Utf16, "UTF16"),
];
const MSG_TEXTS: [(TMessageType, &str); 4] = [(TMessageType::Call, "Call"), (TMessageType::Reply, "Reply"), (TMessageType::Exception, "Exception"), (TMessageType::OneWay, "OneWay")];

fn messages(tier: Tier) -> Vec<String> {
    let lens = tier.pick(vec![0, 1, 2, 15, 16, 127, 128, 255, 256, 1023, 1024, 4096, 65536], bin_lens(Tier::Thorough).into_iter().chain(big_lens(Tier::Quick)).collect());
    lens.into_iter().flat_map(|n| [text(n, n), vec![b'm'; n]]).chain(texts()).map(|b| String::from_utf8(b).unwrap()).collect()
}
/// category, code of the kind, message
fn parts(e: &Error) -> (u8, i32, String) {
    match e {
        Error::Transport(x) => (0, x.kind as i32, x.message.clone()),
        Error::Protocol(x) => (1, x.kind as i32, x.message.clone()),
        Error::Application(x) => (2, x.kind as i32, x.message.clone()),
    }
}
fn is(e: Error, cat: u8, kind: i32, msg: &str) -> Result<(), String> {
    let p = parts(&e);
    ensure!(p == (cat, kind, msg.to_string()), "became {:?} instead of {:?}", p, (cat, kind, msg));
    Ok(())
}
fn c31(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    jobs.push(job("causes", move |ctx: &mut Ctx| {
        let msgs = messages(tier);
        for (i, (k, _)) in KINDS.iter().enumerate() {
            for (j, m) in msgs.iter().enumerate() {
                ctx.case(|| format!("{:?} with a text of {} bytes", k, m.len()), |c| {
                    c.key(&(i, j));
                    visit(&(i, j));
                    c.ran(1);
                    let p = parts(&Error::from(io::Error::new(*k, m.clone())));
                    ensure!(p.0 == 0 && p.2 == *m, "became {:?}", p);
                    Ok(())
                });
            }
            for form in 0..4 {
                ctx.case(|| format!("{:?} in form {}", k, form), |c| {
                    c.key(&(i, form, "form"));
                    visit(&(i, form, "form"));
                    c.ran(1);
                    let p = parts(&Error::from(ioerr(*k, form)));
                    ensure!(p.0 == 0 && p.2 == ioerr(*k, form).to_string(), "became {:?}", p);
                    Ok(())
                });
            }
        }
        for code in -10..4200 {
            ctx.case(|| format!("system error {}", code), |c| {
                c.key(&("os", code));
                visit(&("os", code));
                c.ran(1);
                let p = parts(&Error::from(io::Error::from_raw_os_error(code)));
                ensure!(p.2 == io::Error::from_raw_os_error(code).to_string(), "became {:?}", p);
                Ok(())
            });
        }
        for b in bad_texts() {
            ctx.case(|| format!("utf-8 failure [{}]", hex(&b)), |c| {
                c.key(&b);
                visit(&b);
                c.ran(1);
                let e = || String::from_utf8(b.clone()).unwrap_err();
                is(Error::from(e()), 1, PK::InvalidData as i32, &e().to_string())
            });
        }
        for m in &msgs {
            ctx.case(|| format!("plain text of {} bytes", m.len()), |c| {
                c.key(&("plain", m));
                visit(&("plain", m));
                c.ran(1);
                is(Error::from(m.clone()), 2, AK::Unknown as i32, m)?;
                is(Error::from(m.as_str()), 2, AK::Unknown as i32, m)
            });
        }
        for n in tier.pick(vec![-1i64, -300, 1 << 40, i64::MIN], ints(64, Tier::Quick)) {
            if u32::try_from(n).is_err() {
                ctx.case(|| format!("{} as an unsigned number", n), |c| {
                    c.key(&("int", n));
                    visit(&("int", n));
                    c.ran(1);
                    let e = u32::try_from(n).unwrap_err();
                    is(Error::from(e), 1, PK::InvalidData as i32, &e.to_string())
                });
            }
        }
        for n in [usize::MAX, usize::MAX / 2 + 1, isize::MAX as usize] {
            ctx.case(|| format!("an allocation of {}", n), |c| {
                c.key(&("alloc", n));
                visit(&("alloc", n));
                c.ran(1);
                let Err(e) = Vec::<u16>::new().try_reserve(n) else { return Ok(()) };
                is(Error::from(e.clone()), 1, PK::SizeLimit as i32, &e.to_string())
            });
        }
    }));
    jobs.push(job("kinds", move |ctx: &mut Ctx| {
        let msgs = messages(tier);
        let mut one = |name: String, cat: u8, kind: i32, shown: &str, kind_debug: String, m: &str, made: [Error; 3], alone: (String, String)| {
            ctx.case(|| format!("{} with a message of {} bytes", name, m.len()), |c| {
                c.key(&(cat, kind, m));
                visit(&(cat, kind, m));
                for e in made {
                    c.ran(1);
                    ensure!(e.to_string() == shown && format!("{:>60}|", e).trim_start() == format!("{}|", shown), "shown as {:?} instead of {:?}", e.to_string(), shown);
                    ensure!(e.to_string() == alone.0, "shown as {:?}, but {:?} alone", e.to_string(), alone.0);
                    let d = format!("{:?}", e);
                    ensure!(d == alone.1 && d.contains(&kind_debug) && d.contains(&format!("{:?}", m)), "debug output {:?}, alone {:?}", d, alone.1);
                    is(e, cat, kind, m)?;
                }
                Ok(())
            });
        };
        for m in &msgs {
            for (k, t) in T_TEXTS {
                let x = || thrift::TransportError::new(k, m.as_str());
                one(format!("{:?}", k), 0, k as i32, t, format!("{:?}", k), m, [thrift::new_transport_error(k, m.clone()), x().into(), Error::Transport(x())], (x().to_string(), format!("{:?}", x())));
            }
            for (k, t) in P_TEXTS {
                let x = || thrift::ProtocolError::new(k, m.as_str());
                one(format!("{:?}", k), 1, k as i32, t, format!("{:?}", k), m, [thrift::new_protocol_error(k, m.clone()), x().into(), Error::Protocol(x())], (x().to_string(), format!("{:?}", x())));
            }
            for (k, t) in akinds().into_iter().zip(A_TEXTS) {
                let x = || thrift::ApplicationError::new(k, m.as_str());
                one(format!("{:?}", k), 2, k as i32, t, format!("{:?}", k), m, [thrift::new_application_error(k, m.clone()), x().into(), Error::Application(x())], (x().to_string(), format!("{:?}", x())));
            }
        }
        for (t, s) in TYPE_TEXTS {
            ctx.case(|| format!("type {:?}", t), |c| {
                c.key(&s);
                visit(&s);
                c.ran(1);
                ensure!(t.to_string() == s, "shown as {:?}", t.to_string());
                Ok(())
            });
        }
        for (t, s) in MSG_TEXTS {
            ctx.case(|| format!("message type {:?}", t), |c| {
                c.key(&s);
                visit(&s);
                c.ran(1);
                ensure!(t.to_string() == s, "shown as {:?}", t.to_string());
                Ok(())
            });
        }
    }));
    // what the transport said reaches the caller, whichever call fails
    for t in TYPES.iter().copied() {
        jobs.push(job(format!("{}/transport", t.name()), move |ctx: &mut Ctx| {
            let mut vals = vec![];
            core(t.def(), &mut |v| vals.push(v));
            vals.truncate(tier.pick(2, 100));
            for v in vals {
                let b = enc(&v);
                for s in SIDES {
                    for writes in [false, true] {
                        let go = |plan: Plan| -> (Result<(), Error>, usize, usize) {
                            let keep = std::cell::RefCell::new(None);
                            let put = |r: Result<(), Error>| {
                                *keep.borrow_mut() = Some(r);
                                Ok(())
                            };
                            let (calls, after) = match (s.is_async(), writes) {
                                (false, false) => with_in(&b, usize::MAX, plan, |p| put(t.read(p).map(drop))).1.counts(),
                                (true, false) => with_sin(&b, usize::MAX, plan, |p| put(t.sread(p).map(drop))).1.counts(),
                                (false, true) => with_out(plan, |p| put(t.write(&v, p).map(drop))).1.counts(),
                                (true, true) => with_sout(plan, |p| put(t.swrite(&v, p).map(drop))).1.counts(),
                            };
                            (keep.into_inner().unwrap(), calls, after)
                        };
                        let mut calls = 0;
                        ctx.case(|| format!("{:?} {} {} undisturbed", s, if writes { "write" } else { "read" }, t.name()), |c| {
                            c.ran(1);
                            let (r, n, _) = go(PLAIN);
                            calls = n;
                            ensure!(r.is_ok(), "failed with {:?}", r);
                            Ok(())
                        });
                        for i in 0..calls {
                            for (n, (k, _)) in KINDS.iter().enumerate() {
                                if s.is_async() && *k == io::ErrorKind::WouldBlock || (n + i) % tier.pick(9, 1) != 0 {
                                    continue;
                                }
                                ctx.case(|| format!("{:?} {} {} with {:?} at call {}: {}", s, if writes { "write" } else { "read" }, t.name(), k, i, v.brief()), |c| {
                                    c.key(&(t.name(), &b, s, writes, i, n));
                                    visit(&(t.name(), &b, s, writes, i, n));
                                    c.ran(1);
                                    let (r, calls, after) = go(Plan { devs: &[(i, Dev::Fail(*k))], mode: Mode::Normal });
                                    let said = ioerr(*k, calls - after).to_string();
                                    match r {
                                        Err(Error::Transport(e)) => ensure!(e.message == said, "the transport said {:?}, the error says {:?}", said, e.message),
                                        r => return Err(format!("gave {:?}", r.map_err(|e| parts(&e)))),
                                    }
                                    Ok(())
                                });
                            }
                        }
                    }
                }
            }
        }));
    }
    jobs
}
trait Counts {
    fn counts(&self) -> (usize, usize);
}
impl Counts for Seen {
    fn counts(&self) -> (usize, usize) {
        (self.calls, self.calls_after_failure)
    }
}
impl Counts for Wrote {
    fn counts(&self) -> (usize, usize) {
        (self.calls, self.calls_after_failure)
    }
}
pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C31",
        level: "model_checking",
        rule: "one case = one cause, one kind with one message, or one run with one failing transport call; distinct = distinct such inputs",
        explanation: "Every I/O error kind with every message of the domain and in every form (bare, of the system, around another error), 4200 system error codes, every way not to be UTF-8; every kind of every category with every message through every constructor; every type read and written, sync and async, with every transport call failing in turn: the text of the cause must be the message, and the text shown that of the kind.",
        assumptions: &["the texts shown for the kinds are those of the Thrift Rust library"],
        jobs: c31,
    }]
}
