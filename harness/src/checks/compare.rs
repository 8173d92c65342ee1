//! C29: values compare, hash and clone by their content.
use crate::domain::*;
use crate::engine::*;
use crate::ensure;
use crate::ops::*;
use crate::schema::*;
use crate::val::*;
use parquet_format_safe::thrift;
use std::cmp::Ordering;
use thrift::protocol::*;

fn consistent(x: &Compared, same: bool) -> Result<(), String> {
    ensure!(x.eq == same && x.ne != same, "{} contents compare == {} and != {}", if same { "equal" } else { "different" }, x.eq, x.ne);
    ensure!((x.total == Ordering::Equal) == same, "{} contents are ordered {:?}", if same { "equal" } else { "different" }, x.total);
    ensure!(x.partial == Some(x.total), "partial_cmp is {:?}, cmp {:?}", x.partial, x.total);
    let o = [x.total.is_lt(), x.total.is_le(), x.total.is_gt(), x.total.is_ge()];
    ensure!(x.ops == o, "<, <=, >, >= are {:?} where cmp is {:?}", x.ops, x.total);
    ensure!(!same || x.hash, "equal contents hash differently");
    Ok(())
}
/// All pairs of a set: equality as that of the contents, and a total order.
fn square(t: &'static dyn Ty, vs: &[Val], c: &mut Case) -> Result<(), String> {
    let n = vs.len();
    let mut cmp = vec![Ordering::Equal; n * n];
    let mut bad = None;
    t.table(vs, &mut |i, j, x| {
        cmp[i * n + j] = x.total;
        if bad.is_none() {
            if let Err(e) = consistent(&x, vs[i] == vs[j]) {
                bad = Some(format!("{} against {}: {}", vs[i].brief(), vs[j].brief(), e));
            }
        }
    });
    c.ran((n * n) as u64);
    if let Some(b) = bad {
        return Err(b);
    }
    // a relation is a total preorder exactly when every comparison agrees with the number of elements below
    let rank: Vec<usize> = (0..n).map(|i| (0..n).filter(|j| cmp[j * n + i] == Ordering::Less).count()).collect();
    for i in 0..n {
        visit(&(t.name(), &vs[i]));
        for j in 0..n {
            c.key(&(t.name(), &vs[i], &vs[j]));
            ensure!(cmp[i * n + j] == rank[i].cmp(&rank[j]), "the order is not transitive around {} and {}", vs[i].brief(), vs[j].brief());
        }
    }
    Ok(())
}
/// All sequences over `xs` of up to `most` elements.
fn sequences(xs: &[Val], most: usize) -> Vec<Vec<Val>> {
    let mut all = vec![vec![]];
    let mut last = 0;
    for _ in 0..most {
        let end = all.len();
        for i in last..end {
            for x in xs {
                let mut y = all[i].clone();
                y.push(x.clone());
                all.push(y);
            }
        }
        last = end;
    }
    all
}
fn c29(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let mut order: Vec<&'static dyn Ty> = TYPES.to_vec();
    order.sort_by_key(|t| std::cmp::Reverse(enc(&build(t.def(), 2, true)).len()));
    for t in order {
        // all pairs within sets
        jobs.push(job(format!("{}/squares", t.name()), move |ctx: &mut Ctx| {
            let d = t.def();
            let mut sets: Vec<Vec<Val>> = vec![];
            for full in [false, true] {
                let mut v = vec![];
                subsets(d, full, &mut |x| v.push(x));
                let most = tier.pick(512, 4096);
                for part in v.chunks(most) {
                    sets.push(part.to_vec());
                }
            }
            let mut v = vec![build(d, 1, false), build(d, 2, true)];
            combos(d, 1, &mut |x| v.push(x));
            v.dedup();
            sets.push(v);
            for i in 0..d.fields.len() {
                // each field alone, over its alternatives
                let f = &d.fields[i];
                let base = if d.union { Val::St(vec![]) } else { build(d, 2, true) };
                let mut v = vec![];
                // every one-character text, and lists that differ in order, in length and in one element
                let mut alts = leaf_alts(&f.kind, Tier::Quick);
                if let Kind::Str = f.kind {
                    alts.extend((0..128u8).map(|b| Val::Bin(vec![b])));
                }
                if let Kind::List(e) = &f.kind {
                    for es in sequences(&few(e), tier.pick(2, 3)) {
                        alts.push(Val::List(e.wt(), es));
                    }
                }
                let optional = !d.union && !f.req;
                for x in alts.into_iter().map(Some).chain(few(&f.kind).into_iter().map(Some)).chain(optional.then_some(None)) {
                    let mut y = base.clone();
                    y.set_field(f.id, x);
                    v.push(y);
                }
                sets.push(v);
            }
            // two fields at a time
            let mut v = vec![];
            combos(d, 2, &mut |x| v.push(x));
            let side = tier.pick(700, 3000);
            for part in v.chunks(side) {
                sets.push(part.to_vec());
            }
            for (i, s) in sets.iter().enumerate() {
                if ctx.stopped() {
                    return;
                }
                ctx.case(|| format!("{} set {} of {} values", t.name(), i, s.len()), |c| square(t, s, c));
            }
        }));
        // every departure against what it departs from, at every depth
        jobs.push(job(format!("{}/departures", t.name()), move |ctx: &mut Ctx| {
            for fam in 0..FAMILIES {
                for base in [build(t.def(), 1, true), build(t.def(), 2, false)] {
                    family(t.def(), fam, tier, &mut |v| {
                        if ctx.stopped() {
                            return;
                        }
                        ctx.case(|| format!("{}: {} against {}", t.name(), v.brief(), base.brief()), |c| {
                            c.key(&(t.name(), &v, &base));
                            visit(&(t.name(), &v));
                            c.ran(5);
                            let same = v == base;
                            let (a, o, alike) = t.cloned(&v);
                            ensure!(a == v && o == v && alike, "a clone is {}, the original {}, alike: {}", a.brief(), o.brief(), alike);
                            let mut r = Ok(());
                            let mut cmps = [Ordering::Equal; 4];
                            // the value twice, so that equal contents at different addresses are compared too
                            t.table(&[v.clone(), base.clone(), v.clone()], &mut |i, j, x| {
                                let s = (i != 1) == (j != 1) || same;
                                if i < 2 && j < 2 {
                                    cmps[i * 2 + j] = x.total;
                                }
                                if r.is_ok() {
                                    r = consistent(&x, s);
                                }
                            });
                            r?;
                            ensure!(cmps[1] == cmps[2].reverse(), "ordered {:?} one way and {:?} the other", cmps[1], cmps[2]);
                            Ok(())
                        });
                    });
                }
            }
        }));
    }
    jobs.push(job("enumerations", move |ctx: &mut Ctx| {
        for e in ENUMS {
            let mut codes = enum_codes(e.def());
            codes.extend((-40..tier.pick(40, 300)).chain((0..31).flat_map(|i| [1 << i, -(1 << i), (1 << i) - 1])));
            codes.sort();
            codes.dedup();
            ctx.case(|| format!("{} over {} codes", e.def().name, codes.len()), |c| {
                let mut cmp = vec![];
                for &a in &codes {
                    for &b in &codes {
                        let (x, cl) = e.compared(a, b);
                        c.ran(1);
                        c.key(&(e.def().name, a, b));
                        visit(&(e.def().name, a));
                        consistent(&x, a == b).map_err(|s| format!("{} against {}: {}", a, b, s))?;
                        ensure!(cl == a, "a clone of {} is {}", a, cl);
                        cmp.push(x.total);
                    }
                }
                let n = codes.len();
                let rank: Vec<usize> = (0..n).map(|i| (0..n).filter(|j| cmp[j * n + i] == Ordering::Less).count()).collect();
                for i in 0..n {
                    for j in 0..n {
                        ensure!(cmp[i * n + j] == rank[i].cmp(&rank[j]), "the order is not transitive around {} and {}", codes[i], codes[j]);
                    }
                }
                Ok(())
            });
        }
    }));
    jobs.push(job("identifiers and errors", move |ctx: &mut Ctx| {
        fn all<T: PartialEq + std::fmt::Debug>(what: &str, xs: &[T], ys: &[T], c: &mut Case) -> Result<(), String> {
            for (i, a) in xs.iter().enumerate() {
                for (j, b) in ys.iter().enumerate() {
                    c.ran(1);
                    c.key(&(what, i, j));
                    visit(&(what, i));
                    #[allow(clippy::nonminimal_bool)]
                    let ok = (a == b) == (i == j) && (a != b) == (i != j);
                    ensure!(ok, "{:?} == {:?} is {}", a, b, a == b);
                }
            }
            Ok(())
        }
        let names = ["", "a", "b", "aa", "A", "\u{e9}"];
        let tt = [TType::Stop, TType::Void, TType::Bool, TType::I08, TType::Double, TType::I16, TType::I32, TType::I64, TType::String, TType::Utf7, TType::Struct, TType::Map, TType::Set, TType::List, TType::Utf8, TType::Utf16];
        let mt = [TMessageType::Call, TMessageType::Reply, TMessageType::Exception, TMessageType::OneWay];
        let sizes = [0u32, 1, 15, 255, 256, 65536, u32::MAX];
        let ids = [None, Some(0i16), Some(1), Some(-1), Some(255), Some(256), Some(i16::MIN), Some(i16::MAX)];
        macro_rules! eqs {
            ($what:literal, $make:expr) => {
                ctx.case(|| $what.to_string(), |c| all($what, &$make, &$make, c));
            };
        }
        eqs!("types", tt);
        eqs!("message types", mt);
        eqs!("structures", names.map(TStructIdentifier::new));
        let mut made = vec![];
        for n in names {
            for t in mt {
                made.extend(sizes.map(|s| TMessageIdentifier::new(n, t, s)));
            }
        }
        eqs!("messages", made);
        let mut made = vec![];
        for n in names.map(Some).into_iter().chain([None]) {
            for t in tt {
                made.extend(ids.map(|i| TFieldIdentifier::new::<Option<&str>, &str, Option<i16>>(n, t, i)));
            }
        }
        eqs!("fields", made);
        let mut made = (vec![], vec![]);
        for t in tt {
            made.0.extend(sizes.map(|s| TListIdentifier::new(t, s)));
            made.1.extend(sizes.map(|s| TSetIdentifier::new(t, s)));
        }
        eqs!("lists", made.0);
        eqs!("sets", made.1);
        let mut made = vec![];
        for k in tt.map(Some).into_iter().chain([None]) {
            for v in tt.map(Some).into_iter().chain([None]) {
                made.extend([0u32, 1, 65536].map(|s| TMapIdentifier::new(k, v, s)));
            }
        }
        eqs!("maps", made);
        let mut made = vec![];
        for k in 0..7 {
            made.extend(names.map(|n| thrift::TransportError::new(TK::try_from(k).unwrap(), n)));
        }
        eqs!("transport errors", made);
        let mut made = vec![];
        for k in 0..7 {
            made.extend(names.map(|n| thrift::ProtocolError::new(PK::try_from(k).unwrap(), n)));
        }
        eqs!("protocol errors", made);
        let mut made = vec![];
        for k in 0..11 {
            made.extend(names.map(|n| thrift::ApplicationError::new(AK::try_from(k).unwrap(), n)));
        }
        eqs!("application errors", made);
    }));
    jobs
}
pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C29",
        level: "model_checking",
        rule: "one case = one set of values compared pairwise, or one value against a base; distinct = distinct pairs",
        explanation: "All pairs within: all presence patterns, every field over its alternatives, all values of one and of two fields over small domains; and every value of C02's domain against the full and the minimal value and against another copy of itself. Equality is compared with that of the contents; the order must be total (each comparison agrees with the number of elements below).",
        assumptions: &[],
        jobs: c29,
    }]
}
