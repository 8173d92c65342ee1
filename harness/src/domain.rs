//! The value domains: every value here is enumerated, none is drawn at random.
use crate::engine::Tier;
use crate::val::*;

/// Boundary integers of a width: zero, units, every change of varint length on both sides, extremes.
pub fn ints(bits: u32, tier: Tier) -> Vec<i64> {
    let max = if bits == 64 { i64::MAX } else { (1i64 << (bits - 1)) - 1 };
    let min = -max - 1;
    let mut v = vec![0, 1, -1, max, min, max - 1, min + 1];
    let mut k = 6;
    while k < bits - 1 {
        let b = 1i64 << k;
        v.extend([b - 1, b, -b, -b - 1]);
        k += 7;
    }
    if tier == Tier::Thorough {
        for k in 1..bits - 1 {
            let b = 1i64 << k;
            v.extend([b - 1, b, b + 1, -b - 1, -b, -b + 1]);
        }
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| *x >= min && *x <= max && seen.insert(*x));
    v
}
pub fn pattern(n: usize, salt: usize) -> Vec<u8> {
    (0..n).map(|i| ((i * 37 + salt * 11 + 255) & 0xff) as u8).collect()
}
pub fn text(n: usize, salt: usize) -> Vec<u8> {
    // n bytes of valid UTF-8, mixing widths
    let mut s = String::new();
    let alphabet = ['a', '\u{e9}', '\u{20ac}', '\u{1f600}', '\0', '\u{7f}'];
    let mut i = salt;
    while s.len() < n {
        let c = alphabet[i % alphabet.len()];
        i += 1;
        if s.len() + c.len_utf8() <= n {
            s.push(c);
        } else {
            s.push('z');
        }
    }
    s.into_bytes()
}
/// Text that something might trim, normalise, escape or stop at.
pub fn texts() -> Vec<Vec<u8>> {
    [
        "\u{feff}bom", "tail\u{feff}", " lead", "trail ", "\t", "\n", "a\r\nb", "line\n", "\0", "nul\0", "\0nul", "a\0b", "\u{1}", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{d7ff}",
        "\u{e000}", "\u{fffd}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "e\u{301}", "\u{e9}", "\u{212b}", "\u{200b}", "\u{202e}x", "'q'", "\"q\"", "\\", "%s", "$1", "../", "A", "a", "0", "NULL", "PAR1", "\u{df}\u{1e9e}", "\u{130}",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .collect()
}
/// Byte strings that are not UTF-8: every way not to be, alone, after and before good text.
pub fn bad_texts() -> Vec<Vec<u8>> {
    let bad: [&[u8]; 18] = [
        &[0x80], &[0xbf], &[0xc0, 0x80], &[0xc1, 0xbf], &[0xc2], &[0xc3, 0x28], &[0xe0, 0x80, 0x80], &[0xe0, 0x9f, 0xbf], &[0xe2, 0x82], &[0xe2, 0x28, 0xa1], &[0xed, 0xa0, 0x80], &[0xed, 0xbf, 0xbf],
        &[0xf0, 0x80, 0x80, 0x80], &[0xf0, 0x9f, 0x98], &[0xf4, 0x90, 0x80, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[0xfe], &[0xff],
    ];
    let mut v = vec![];
    for b in bad {
        for (pre, post) in [(0, 0), (1, 0), (0, 1), (7, 3), (40, 0), (40, 90), (130, 0)] {
            v.push([&vec![b'a'; pre][..], b, &vec![b'z'; post]].concat());
        }
    }
    for n in [255, 1023, 4095, 8191, 65535] {
        v.push([&vec![b'a'; n][..], &[0xff]].concat());
        v.push([&[0xc3][..], &vec![b'a'; n]].concat());
        v.push([&text(n, 2)[..], &[0xe2, 0x82]].concat());
    }
    v
}
pub fn enum_codes(e: &EnumDef) -> Vec<i32> {
    let mut v: Vec<i32> = e.consts.iter().map(|c| c.1).collect();
    let max = *v.iter().max().unwrap();
    v.extend([max + 1, -1, 63, 64, -65, i32::MAX, i32::MIN]);
    if let Some(gap) = (0..max).find(|i| !v.contains(i)) {
        v.push(gap);
    }
    v
}
/// A value unlike its neighbours: different for every salt where the kind allows it.
pub fn filler(k: &Kind, salt: usize, full: bool) -> Val {
    match k {
        Kind::Bool => Val::Bool(salt % 2 == 1),
        Kind::I8 => Val::I8((salt % 100) as i8 + 1),
        Kind::I16 => Val::I16((salt % 1000) as i16 + 200),
        Kind::I32 => Val::I32(1000 + salt as i32 * 7),
        Kind::I64 => Val::I64(100_000 + salt as i64 * 13),
        Kind::Str => Val::Bin(format!("s{}\u{e9}", salt).into_bytes()),
        Kind::Bin => Val::Bin(vec![0xff, (salt & 0xff) as u8, 0x80, (salt >> 8) as u8]),
        Kind::Enum(e) => Val::I32(e.consts[salt % e.consts.len()].1),
        Kind::List(t) => {
            let n = if full { 2 } else { 1 };
            Val::List(t.wt(), (0..n).map(|i| filler(t, salt + i + 1, full)).collect())
        }
        Kind::St(d) => build(d, salt, full),
    }
}
/// All fields (full) or only the required ones; a union takes the variant the salt selects.
pub fn build(d: &'static Def, salt: usize, full: bool) -> Val {
    if d.union {
        let f = &d.fields[salt % d.fields.len()];
        return Val::St(vec![(f.id, filler(&f.kind, salt * 3 + 1, full))]);
    }
    Val::St(
        d.fields
            .iter()
            .enumerate()
            .filter(|(_, f)| full || f.req)
            .map(|(i, f)| (f.id, filler(&f.kind, salt * 3 + i + 1, full)))
            .collect(),
    )
}
/// Every value of a leaf kind worth distinguishing.
pub fn leaf_alts(k: &Kind, tier: Tier) -> Vec<Val> {
    match k {
        Kind::Bool => vec![Val::Bool(false), Val::Bool(true)],
        Kind::I8 => (-128..=127).map(|x| Val::I8(x as i8)).collect(),
        Kind::I16 => ints(16, tier).into_iter().map(|x| Val::I16(x as i16)).collect(),
        Kind::I32 => ints(32, tier).into_iter().map(|x| Val::I32(x as i32)).collect(),
        Kind::I64 => ints(64, tier).into_iter().map(Val::I64).collect(),
        Kind::Enum(e) => enum_codes(e).into_iter().map(Val::I32).collect(),
        Kind::Bin => bin_lens(tier).into_iter().map(|n| pattern(n, 1)).chain(texts()).chain(bad_texts()).chain((0..=255).map(|b| vec![b])).map(Val::Bin).collect(),
        Kind::Str => bin_lens(tier).into_iter().map(|n| text(n, n)).chain(texts()).map(Val::Bin).collect(),
        _ => vec![],
    }
}
pub fn bin_lens(tier: Tier) -> Vec<usize> {
    tier.pick(vec![0, 1, 2, 14, 15, 16, 127, 128, 300], vec![0, 1, 2, 3, 7, 14, 15, 16, 31, 127, 128, 129, 300, 16383, 16384, 70000])
}
pub fn list_lens(tier: Tier) -> Vec<usize> {
    tier.pick(vec![0, 1, 2, 13, 14, 15, 16, 127, 128], vec![0, 1, 2, 3, 13, 14, 15, 16, 17, 30, 127, 128, 129, 300, 1000])
}
/// All single departures of a value of kind `k` from `v`, at every position of the tree under it.
pub fn departures(k: &Kind, v: &Val, tier: Tier, out: &mut dyn FnMut(Val)) {
    match k {
        Kind::List(t) => {
            let Val::List(w, cur) = v else { panic!("harness: list") };
            for n in list_lens(tier) {
                if n != cur.len() {
                    // long lists of cheap elements
                    out(Val::List(*w, (0..n).map(|i| filler(t, i + 40, false)).collect()));
                }
            }
            for i in 0..cur.len() {
                departures(t, &cur[i], tier, &mut |x| {
                    let mut c = cur.clone();
                    c[i] = x;
                    out(Val::List(*w, c));
                });
            }
        }
        Kind::St(d) => st_departures(d, v, tier, out),
        leaf => {
            for x in leaf_alts(leaf, tier) {
                if x != *v {
                    out(x);
                }
            }
        }
    }
}
pub fn st_departures(d: &'static Def, v: &Val, tier: Tier, out: &mut dyn FnMut(Val)) {
    let Val::St(cur) = v else { panic!("harness: struct") };
    if d.union {
        for (i, f) in d.fields.iter().enumerate() {
            if cur[0].0 != f.id {
                for full in [false, true] {
                    out(Val::St(vec![(f.id, filler(&f.kind, i + 3, full))]));
                }
            } else {
                departures(&f.kind, &cur[0].1, tier, &mut |x| out(Val::St(vec![(f.id, x)])));
            }
        }
        return;
    }
    for (i, f) in d.fields.iter().enumerate() {
        match v.field(f.id) {
            None => {
                for full in [false, true] {
                    let mut c = v.clone();
                    c.set_field(f.id, Some(filler(&f.kind, i + 5, full)));
                    out(c);
                }
            }
            Some(x) => {
                if !f.req {
                    let mut c = v.clone();
                    c.set_field(f.id, None);
                    out(c);
                }
                departures(&f.kind, x, tier, &mut |y| {
                    let mut c = v.clone();
                    c.set_field(f.id, Some(y));
                    out(c);
                });
            }
        }
    }
}
/// Every presence pattern of the optional fields at this level.
pub fn subsets(d: &'static Def, full: bool, out: &mut dyn FnMut(Val)) {
    if d.union {
        for (i, f) in d.fields.iter().enumerate() {
            out(Val::St(vec![(f.id, filler(&f.kind, i + 9, full))]));
        }
        return;
    }
    let opt: Vec<&FieldDef> = d.fields.iter().filter(|f| !f.req).collect();
    for mask in 0..1u32 << opt.len() {
        let mut v = Val::St(vec![]);
        for (i, f) in d.fields.iter().enumerate() {
            let keep = f.req || mask >> opt.iter().position(|o| o.id == f.id).unwrap() & 1 == 1;
            if keep {
                v.set_field(f.id, Some(filler(&f.kind, i + 1, full)));
            }
        }
        out(v);
    }
}
/// A few values per kind, for combinations.
pub fn few(k: &Kind) -> Vec<Val> {
    match k {
        Kind::Bool => vec![Val::Bool(false), Val::Bool(true)],
        Kind::I8 => vec![Val::I8(0), Val::I8(-128), Val::I8(127)],
        Kind::I16 => vec![Val::I16(0), Val::I16(i16::MIN), Val::I16(64)],
        Kind::I32 => vec![Val::I32(0), Val::I32(i32::MIN), Val::I32(64)],
        Kind::I64 => vec![Val::I64(0), Val::I64(i64::MIN), Val::I64(1 << 41)],
        Kind::Enum(e) => vec![Val::I32(e.consts[0].1), Val::I32(e.consts.last().unwrap().1), Val::I32(-7)],
        Kind::Bin => vec![Val::Bin(vec![]), Val::Bin(pattern(1, 0)), Val::Bin(pattern(128, 3))],
        Kind::Str => vec![Val::Bin(vec![]), Val::Bin(text(3, 2)), Val::Bin(text(128, 1))],
        Kind::List(t) => vec![
            Val::List(t.wt(), vec![]),
            Val::List(t.wt(), vec![filler(t, 2, false)]),
            Val::List(t.wt(), (0..15).map(|i| filler(t, i, false)).collect()),
        ],
        Kind::St(d) => {
            if d.union {
                d.fields.iter().take(3).map(|f| Val::St(vec![(f.id, filler(&f.kind, 2, true))])).collect()
            } else if d.fields.is_empty() {
                vec![Val::St(vec![])]
            } else {
                vec![build(d, 1, false), build(d, 2, true)]
            }
        }
    }
}
/// Every combination of `few` values (absence included) for every choice of `n` fields, the rest required-only or full.
pub fn combos(d: &'static Def, n: usize, out: &mut dyn FnMut(Val)) {
    if d.union || d.fields.len() < n {
        return;
    }
    let alts: Vec<Vec<Option<Val>>> = d
        .fields
        .iter()
        .map(|f| {
            let mut a: Vec<Option<Val>> = few(&f.kind).into_iter().map(Some).collect();
            if !f.req {
                a.push(None);
            }
            a
        })
        .collect();
    fn rec(d: &'static Def, alts: &[Vec<Option<Val>>], from: usize, n: usize, v: &Val, out: &mut dyn FnMut(Val)) {
        if n == 0 {
            out(v.clone());
            return;
        }
        for i in from..d.fields.len() {
            for a in &alts[i] {
                let mut c = v.clone();
                c.set_field(d.fields[i].id, a.clone());
                rec(d, alts, i + 1, n - 1, &c, out);
            }
        }
    }
    for full in [false, true] {
        rec(d, &alts, 0, n, &build(d, 1, full), out);
    }
}
/// The standard domain of a structure, in named families so that jobs can share them out.
pub const FAMILIES: usize = 10;
pub fn family(d: &'static Def, which: usize, tier: Tier, out: &mut dyn FnMut(Val)) {
    match which {
        0 => {
            out(build(d, 0, true));
            out(build(d, 0, false));
            subsets(d, false, out);
        }
        1 => subsets(d, true, out),
        2 => st_departures(d, &build(d, 1, true), tier, out),
        3 => st_departures(d, &build(d, 2, false), tier, out),
        4 => combos(d, 2, out),
        5 => {
            if tier == Tier::Thorough {
                combos(d, 3, out);
            }
        }
        6 => sizes(d, &big_lens(tier), out),
        7 => crowds(d, tier, out),
        8 => edges(d, tier, out),
        9 => huge(d, tier, out),
        _ => {}
    }
}
/// Lengths on both sides of every power of two a buffer is likely to have.
pub fn big_lens(tier: Tier) -> Vec<usize> {
    let mut v = vec![255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 12289, 16383, 16384, 16385, 32768, 65535, 65536, 65537];
    if tier == Tier::Thorough {
        v.extend([400, 767, 768, 1500, 1535, 1536, 3000, 3072, 6143, 6144, 6145, 10000, 20479, 20480, 32767, 32769, 49152, 100_000, 131_071, 131_072, 131_073, 200_000, 262_145, 524_289, 1 << 20, (1 << 20) + 1, (1 << 21) - 1, 1 << 21]);
    }
    v
}
/// One text, binary or list of each given length, in each field of the structure (and as the only element of a list).
pub fn sizes(d: &'static Def, lens: &[usize], out: &mut dyn FnMut(Val)) {
    let base = if d.union { Val::St(vec![]) } else { build(d, 1, false) };
    let put = |f: &FieldDef, x: Val| {
        let mut v = base.clone();
        v.set_field(f.id, Some(x));
        v
    };
    let data = |k: &Kind, n: usize| match k {
        Kind::Bin => Some(Val::Bin(pattern(n, n))),
        Kind::Str => Some(Val::Bin(text(n, n))),
        _ => None,
    };
    for f in &d.fields {
        for &n in lens {
            if let Some(x) = data(&f.kind, n) {
                out(put(f, x));
            }
            if let Kind::List(t) = &f.kind {
                if let Some(x) = data(t, n) {
                    out(put(f, Val::List(Wt::Bin, vec![x, filler(t, n, false)])));
                }
                let small = match &**t {
                    Kind::St(_) => 1100,
                    _ => usize::MAX,
                };
                if n <= small {
                    out(put(f, Val::List(t.wt(), (0..n).map(|i| filler(t, i, false)).collect())));
                }
            }
        }
    }
}
/// One text or binary beyond what a sane limit inside the crate could be, in each field (and as an element of a list).
pub fn huge(d: &'static Def, tier: Tier, out: &mut dyn FnMut(Val)) {
    let lens: Vec<usize> = tier.pick(vec![131_073, 262_145, 524_289, 1 << 20, (1 << 20) + 1, 1 << 21, (1 << 21) + 1], vec![131_073, 1 << 18, 262_145, 524_289, 1_000_001, (1 << 20) + 1, (1 << 21) + 1, (1 << 22) + 1, (1 << 23) + 1, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]);
    let base = if d.union { Val::St(vec![]) } else { build(d, 1, false) };
    for f in &d.fields {
        let (k, listed) = match &f.kind {
            Kind::List(t) => (&**t, true),
            k => (k, false),
        };
        for &n in &lens {
            let x = match k {
                Kind::Bin => Val::Bin(pattern(n, n)),
                Kind::Str => Val::Bin(text(n, n)),
                _ => continue,
            };
            let mut v = base.clone();
            v.set_field(f.id, Some(if listed { Val::List(Wt::Bin, vec![x, filler(k, n, false)]) } else { x }));
            out(v);
        }
    }
}
/// Texts and binaries that begin or end with a run of something a reader or writer might trim, in each field.
pub fn edges(d: &'static Def, tier: Tier, out: &mut dyn FnMut(Val)) {
    let lens: Vec<usize> = tier.pick((1..=17).chain([24, 31, 32, 33, 64]).collect(), (1..=40).chain([47, 48, 63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 1024]).collect());
    let runs: &[&str] = &["\0", " ", "\n", "\u{7f}", "\u{e9}", "\u{20ac}", "\u{1f600}", "\u{feff}"];
    let base = if d.union { Val::St(vec![]) } else { build(d, 1, false) };
    for f in &d.fields {
        let listed = match &f.kind {
            Kind::Bin | Kind::Str => false,
            Kind::List(t) if matches!(**t, Kind::Bin | Kind::Str) => true,
            _ => continue,
        };
        for &n in &lens {
            for r in runs {
                for k in [1, 2, 3, 4, 8] {
                    let run = r.repeat(k);
                    if run.len() > n {
                        continue;
                    }
                    for tail in [false, true] {
                        let mut b: Vec<u8> = (0..n - run.len()).map(|i| b'a' + (i % 26) as u8).collect();
                        let at = if tail { b.len() } else { 0 };
                        b.splice(at..at, run.bytes());
                        let x = if listed { Val::List(Wt::Bin, vec![Val::Bin(b.clone()), Val::Bin(b)]) } else { Val::Bin(b) };
                        let mut v = base.clone();
                        v.set_field(f.id, Some(x));
                        out(v);
                    }
                }
            }
        }
    }
}
/// Lists of more structures than small counters hold.
pub fn crowds(d: &'static Def, tier: Tier, out: &mut dyn FnMut(Val)) {
    for f in &d.fields {
        let Kind::List(t) = &f.kind else { continue };
        if !matches!(**t, Kind::St(_)) {
            continue;
        }
        for n in tier.pick(vec![2049, 4097, 16385, 32767, 32768, 65535, 65536, 65537, 131_073, 262_145], vec![2047, 2048, 2049, 4095, 4096, 4097, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 131_073]) {
            let mut v = if d.union { Val::St(vec![]) } else { build(d, 1, false) };
            v.set_field(f.id, Some(Val::List(t.wt(), (0..n).map(|i| filler(t, i, false)).collect())));
            out(v);
        }
    }
}
/// A small selection: full, minimal, every variant, each optional field alone; used where each value is itself
/// the root of a larger enumeration.
pub fn core(d: &'static Def, out: &mut dyn FnMut(Val)) {
    if d.union {
        for (i, f) in d.fields.iter().enumerate() {
            out(Val::St(vec![(f.id, filler(&f.kind, i, true))]));
        }
        return;
    }
    out(build(d, 1, false));
    if !d.fields.is_empty() {
        out(build(d, 2, true));
    }
    if d.fields.iter().any(|f| matches!(f.kind, Kind::List(_))) {
        let mut v = build(d, 3, false);
        for f in &d.fields {
            if let Kind::List(t) = &f.kind {
                v.set_field(f.id, Some(Val::List(t.wt(), vec![])));
            }
        }
        out(v);
        let mut v = build(d, 3, false);
        for f in &d.fields {
            if let Kind::List(t) = &f.kind {
                v.set_field(f.id, Some(Val::List(t.wt(), (0..16).map(|i| filler(t, i, false)).collect())));
            }
        }
        out(v);
    }
}
