//! Reference model: dynamic Thrift values, and an independent encoder and decoder of the Thrift compact
//! protocol written from its specification. Boring on purpose.
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

/// Wire types of the compact protocol.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Wt {
    Bool,
    I8,
    I16,
    I32,
    I64,
    Dbl,
    Bin,
    List,
    Set,
    Map,
    St,
}
pub const WTS: [Wt; 11] =
    [Wt::Bool, Wt::I8, Wt::I16, Wt::I32, Wt::I64, Wt::Dbl, Wt::Bin, Wt::List, Wt::Set, Wt::Map, Wt::St];
impl Wt {
    /// nibble used for collection elements (and, but for Bool, for fields)
    pub fn nib(self) -> u8 {
        match self {
            Wt::Bool => 1,
            Wt::I8 => 3,
            Wt::I16 => 4,
            Wt::I32 => 5,
            Wt::I64 => 6,
            Wt::Dbl => 7,
            Wt::Bin => 8,
            Wt::List => 9,
            Wt::Set => 10,
            Wt::Map => 11,
            Wt::St => 12,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    /// bit pattern
    Dbl(u64),
    Bin(Vec<u8>),
    List(Wt, Vec<Val>),
    Set(Wt, Vec<Val>),
    /// an empty map carries no types on the wire
    Map(Wt, Wt, Vec<(Val, Val)>),
    St(Vec<(i16, Val)>),
}
impl Val {
    pub fn wt(&self) -> Wt {
        match self {
            Val::Bool(_) => Wt::Bool,
            Val::I8(_) => Wt::I8,
            Val::I16(_) => Wt::I16,
            Val::I32(_) => Wt::I32,
            Val::I64(_) => Wt::I64,
            Val::Dbl(_) => Wt::Dbl,
            Val::Bin(_) => Wt::Bin,
            Val::List(..) => Wt::List,
            Val::Set(..) => Wt::Set,
            Val::Map(..) => Wt::Map,
            Val::St(_) => Wt::St,
        }
    }
    /// Levels a skip needs: 1 for a leaf or an empty container, 1 + the deepest child otherwise.
    pub fn levels(&self) -> usize {
        match self {
            Val::List(_, v) | Val::Set(_, v) => 1 + v.iter().map(|x| x.levels()).max().unwrap_or(0),
            Val::Map(_, _, v) => {
                1 + v.iter().map(|(a, b)| a.levels().max(b.levels())).max().unwrap_or(0)
            }
            Val::St(v) => 1 + v.iter().map(|(_, x)| x.levels()).max().unwrap_or(0),
            _ => 1,
        }
    }
    /// What a reader materialises for this value: the quantity the byte limit bounds.
    pub fn cost(&self) -> usize {
        match self {
            Val::Bin(b) => b.len(),
            Val::List(_, v) | Val::Set(_, v) => 8 * v.len() + v.iter().map(|x| x.cost()).sum::<usize>(),
            Val::Map(_, _, v) => 8 * v.len() + v.iter().map(|(a, b)| a.cost() + b.cost()).sum::<usize>(),
            Val::St(v) => 2 + v.iter().map(|(_, x)| x.cost()).sum::<usize>(),
            _ => 0,
        }
    }
    pub fn field(&self, id: i16) -> Option<&Val> {
        match self {
            Val::St(f) => f.iter().find(|x| x.0 == id).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn set_field(&mut self, id: i16, v: Option<Val>) {
        if let Val::St(f) = self {
            f.retain(|x| x.0 != id);
            if let Some(v) = v {
                let at = f.iter().position(|x| x.0 > id).unwrap_or(f.len());
                f.insert(at, (id, v));
            }
        }
    }
    /// short rendering for reports
    pub fn brief(&self) -> String {
        let s = format!("{:?}", self);
        if s.len() > 600 {
            let mut n = 600;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            format!("{}... ({} chars)", &s[..n], s.len())
        } else {
            s
        }
    }
}

// ---------------------------------------------------------------- IDL

pub struct EnumDef {
    pub name: &'static str,
    pub consts: &'static [(&'static str, i32)],
}
#[derive(Clone)]
pub enum Kind {
    Bool,
    I8,
    I16,
    I32,
    I64,
    Str,
    Bin,
    Enum(&'static EnumDef),
    List(Box<Kind>),
    St(&'static Def),
}
impl Kind {
    pub fn wt(&self) -> Wt {
        match self {
            Kind::Bool => Wt::Bool,
            Kind::I8 => Wt::I8,
            Kind::I16 => Wt::I16,
            Kind::I32 | Kind::Enum(_) => Wt::I32,
            Kind::I64 => Wt::I64,
            Kind::Str | Kind::Bin => Wt::Bin,
            Kind::List(_) => Wt::List,
            Kind::St(_) => Wt::St,
        }
    }
}
pub struct FieldDef {
    pub id: i16,
    pub name: &'static str,
    pub req: bool,
    pub kind: Kind,
}
pub struct Def {
    pub name: &'static str,
    pub union: bool,
    pub fields: Vec<FieldDef>,
}
impl Def {
    pub fn get(&self, id: i16) -> Option<&FieldDef> {
        self.fields.iter().find(|f| f.id == id)
    }
}

// ---------------------------------------------------------------- state accounting

thread_local! {
    static MODEL: RefCell<(HashSet<u64>, u64)> = RefCell::new((HashSet::new(), 0));
}
pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
/// Record one transition of the reference machine into the state with this canonical hash.
#[inline]
pub fn visit<T: Hash>(t: &T) {
    let h = hash_of(t);
    MODEL.with(|m| {
        let m = &mut *m.borrow_mut();
        if m.0.len() < 4_000_000 {
            m.0.insert(h);
        }
        m.1 += 1;
    })
}
pub fn take_model() -> (HashSet<u64>, u64) {
    MODEL.with(|m| std::mem::take(&mut *m.borrow_mut()))
}

// ---------------------------------------------------------------- reference encoder

/// Decides how a value is put on the wire where the format leaves a choice. Choice 0 is canonical.
pub struct Form {
    pub devs: Vec<(usize, usize)>,
    /// answer at points not listed in devs: index into the alternatives, clamped
    pub base: usize,
    pub points: Vec<usize>,
}
impl Form {
    pub fn canon() -> Form {
        Form { devs: vec![], base: 0, points: vec![] }
    }
    pub fn with(devs: &[(usize, usize)], base: usize) -> Form {
        Form { devs: devs.to_vec(), base, points: vec![] }
    }
    fn choose(&mut self, n: usize) -> usize {
        let i = self.points.len();
        self.points.push(n);
        match self.devs.iter().find(|d| d.0 == i) {
            Some(d) => {
                assert!(d.1 < n, "form replay diverged");
                d.1
            }
            None => self.base.min(n - 1),
        }
    }
}
pub fn leb(mut n: u64, total: usize) -> Vec<u8> {
    let mut v = vec![];
    loop {
        if n < 0x80 {
            v.push(n as u8);
            break;
        }
        v.push(0x80 | (n & 0x7f) as u8);
        n >>= 7;
    }
    while v.len() < total {
        let l = v.len();
        v[l - 1] |= 0x80;
        v.push(0);
    }
    v
}
pub fn zz(n: i64) -> u64 {
    if n >= 0 {
        (n as u64) << 1
    } else {
        !((n as u64) << 1)
    }
}
pub fn unzz(u: u64) -> i64 {
    if u & 1 == 0 {
        (u >> 1) as i64
    } else {
        !((u >> 1) as i64)
    }
}
fn var(out: &mut Vec<u8>, n: u64, maxlen: usize, f: &mut Form) {
    let len = leb(n, 0).len();
    // choices: minimal, one byte longer, longest permitted
    let mut opts = vec![len];
    if len + 1 < maxlen {
        opts.push(len + 1);
    }
    if len < maxlen {
        opts.push(maxlen);
    }
    let c = if opts.len() == 1 { 0 } else { f.choose(opts.len()) };
    out.extend(leb(n, opts[c]));
}
pub fn enc_into(out: &mut Vec<u8>, v: &Val, f: &mut Form) {
    match v {
        Val::Bool(b) => out.push(if *b { 1 } else { 2 }),
        Val::I8(i) => out.push(*i as u8),
        Val::I16(i) => var(out, zz(*i as i64), 3, f),
        Val::I32(i) => var(out, zz(*i as i64), 5, f),
        Val::I64(i) => var(out, zz(*i), 10, f),
        Val::Dbl(b) => out.extend(b.to_le_bytes()),
        Val::Bin(b) => {
            var(out, b.len() as u64, 5, f);
            out.extend_from_slice(b);
        }
        Val::List(t, e) | Val::Set(t, e) => {
            if e.len() <= 14 && f.choose(2) == 0 {
                out.push((e.len() as u8) << 4 | t.nib());
            } else {
                out.push(0xF0 | t.nib());
                var(out, e.len() as u64, 5, f);
            }
            for x in e {
                enc_into(out, x, f);
            }
        }
        Val::Map(k, t, e) => {
            var(out, e.len() as u64, 5, f);
            if !e.is_empty() {
                out.push(k.nib() << 4 | t.nib());
                for (a, b) in e {
                    enc_into(out, a, f);
                    enc_into(out, b, f);
                }
            }
        }
        Val::St(fs) => {
            let n = fs.len();
            let mut order: Vec<usize> = (0..n).collect();
            if n > 1 {
                // as given, reversed, rotated, each adjacent swap
                match f.choose(3 + (n - 1)) {
                    0 => {}
                    1 => order.reverse(),
                    2 => order.rotate_left(1),
                    k => order.swap(k - 3, k - 2),
                }
            }
            let mut last = 0i16;
            for i in order {
                let (id, x) = &fs[i];
                let t = match x {
                    Val::Bool(true) => 1,
                    Val::Bool(false) => 2,
                    o => o.wt().nib(),
                };
                let delta = *id as i32 - last as i32;
                if (1..=15).contains(&delta) && f.choose(2) == 0 {
                    out.push((delta as u8) << 4 | t);
                } else {
                    out.push(t);
                    var(out, zz(*id as i64), 3, f);
                }
                last = *id;
                if !matches!(x, Val::Bool(_)) {
                    enc_into(out, x, f);
                }
            }
            out.push(0);
        }
    }
}
pub fn enc(v: &Val) -> Vec<u8> {
    let mut o = vec![];
    enc_into(&mut o, v, &mut Form::canon());
    o
}
pub fn enc_form(v: &Val, f: &mut Form) -> Vec<u8> {
    let mut o = vec![];
    enc_into(&mut o, v, f);
    o
}

// ---------------------------------------------------------------- reference decoder

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    /// legal: the value, bytes consumed, materialised bytes
    Legal(Val, usize, usize),
    /// violates the format; (reason, true if it is "ends early")
    Malformed(&'static str, bool),
    /// outside what the properties define
    Unspecified(&'static str),
}
enum Stop {
    Bad(&'static str),
    Eof,
    Undef(&'static str),
}
type D<T> = Result<T, Stop>;
struct Dec<'a> {
    b: &'a [u8],
    pos: usize,
    cost: usize,
    path: Vec<(usize, i16)>,
}
impl Dec<'_> {
    fn byte(&mut self) -> D<u8> {
        let r = self.b.get(self.pos).copied().ok_or(Stop::Eof)?;
        self.pos += 1;
        Ok(r)
    }
    fn var(&mut self, bits: u32, maxlen: usize) -> D<u64> {
        let mut n: u128 = 0;
        for i in 0..maxlen {
            let b = self.byte()?;
            n |= ((b & 0x7f) as u128) << (7 * i);
            if b & 0x80 == 0 {
                if n >> bits != 0 {
                    return Err(Stop::Undef("varint out of range"));
                }
                return Ok(n as u64);
            }
        }
        // one more byte would exceed the longest form
        if self.pos >= self.b.len() {
            return Err(Stop::Eof);
        }
        Err(Stop::Undef("overlong varint"))
    }
    fn svar(&mut self, bits: u32, maxlen: usize) -> D<i64> {
        let n = self.var(bits, maxlen)?;
        Ok(unzz(n))
    }
    fn bin(&mut self) -> D<Vec<u8>> {
        let n = self.var(32, 5)? as usize;
        if self.b.len() - self.pos < n {
            return Err(Stop::Eof);
        }
        self.cost += n;
        let r = self.b[self.pos..self.pos + n].to_vec();
        self.pos += n;
        Ok(r)
    }
    fn list_hdr(&mut self) -> D<(u8, usize)> {
        let h = self.byte()?;
        let t = h & 15;
        if t > 12 {
            return Err(Stop::Bad("undefined element type"));
        }
        let n = if h >> 4 == 15 { self.var(32, 5)? as usize } else { (h >> 4) as usize };
        if t == 2 {
            return Err(Stop::Undef("element type 2"));
        }
        if t == 0 {
            return Err(Stop::Undef("element type 0"));
        }
        self.cost += 8usize.saturating_mul(n);
        Ok((t, n))
    }
    fn boolean(&mut self) -> D<bool> {
        match self.byte()? {
            1 => Ok(true),
            2 => Ok(false),
            0 => Err(Stop::Undef("bool element 0")),
            _ => Err(Stop::Bad("bool element")),
        }
    }
    /// field header: None at stop; (type nibble, id)
    fn field(&mut self) -> D<Option<(u8, i16)>> {
        let h = self.byte()?;
        let t = h & 15;
        if t == 0 {
            if h != 0 {
                return Err(Stop::Undef("stop with a delta"));
            }
            return Ok(None);
        }
        if t > 12 {
            return Err(Stop::Bad("undefined field type"));
        }
        let last = self.path.last().unwrap().1;
        let id = if h >> 4 != 0 {
            let n = last as i32 + (h >> 4) as i32;
            if n > i16::MAX as i32 {
                return Err(Stop::Bad("field id overflow"));
            }
            n as i16
        } else {
            self.svar(16, 3)? as i16
        };
        self.path.last_mut().unwrap().1 = id;
        visit(&(&self.path, t));
        Ok(Some((t, id)))
    }
    fn wt_of(t: u8) -> D<Wt> {
        Ok(match t {
            1 => Wt::Bool,
            3 => Wt::I8,
            4 => Wt::I16,
            5 => Wt::I32,
            6 => Wt::I64,
            7 => Wt::Dbl,
            8 => Wt::Bin,
            9 => Wt::List,
            10 => Wt::Set,
            11 => Wt::Map,
            12 => Wt::St,
            0 => return Err(Stop::Undef("type 0")),
            2 => return Err(Stop::Undef("type 2")),
            _ => return Err(Stop::Bad("undefined type")),
        })
    }
    /// Decode any value by wire type (nibble as in a collection); depth = levels still allowed.
    fn any(&mut self, t: u8, depth: usize) -> D<Val> {
        if depth == 0 {
            return Err(Stop::Bad("too deep"));
        }
        Ok(match t {
            1 => Val::Bool(self.boolean()?),
            3 => Val::I8(self.byte()? as i8),
            4 => Val::I16(self.svar(16, 3)? as i16),
            5 => Val::I32(self.svar(32, 5)? as i32),
            6 => Val::I64(self.svar(64, 10)?),
            7 => {
                if self.b.len() - self.pos < 8 {
                    return Err(Stop::Eof);
                }
                let mut x = [0; 8];
                x.copy_from_slice(&self.b[self.pos..self.pos + 8]);
                self.pos += 8;
                Val::Dbl(u64::from_le_bytes(x))
            }
            8 => Val::Bin(self.bin()?),
            9 | 10 => {
                let (e, n) = self.list_hdr()?;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.any(e, depth - 1)?);
                }
                let w = Self::wt_of(e)?;
                if t == 9 {
                    Val::List(w, v)
                } else {
                    Val::Set(w, v)
                }
            }
            11 => {
                let n = self.var(32, 5)? as usize;
                if n == 0 {
                    return Ok(Val::Map(Wt::Bool, Wt::Bool, vec![]));
                }
                let h = self.byte()?;
                let (k, w) = (h >> 4, h & 15);
                let (kw, ww) = match (Self::wt_of(k), Self::wt_of(w)) {
                    (Err(Stop::Bad(s)), _) | (_, Err(Stop::Bad(s))) => return Err(Stop::Bad(s)),
                    (a, b) => (a?, b?),
                };
                self.cost += 8usize.saturating_mul(n);
                let mut v = vec![];
                for _ in 0..n {
                    let a = self.any(k, depth - 1)?;
                    let b = self.any(w, depth - 1)?;
                    v.push((a, b));
                }
                Val::Map(kw, ww, v)
            }
            12 => {
                self.cost += 2;
                self.path.push((usize::MAX, 0));
                let mut v = vec![];
                while let Some((ft, id)) = self.field()? {
                    let x = match ft {
                        1 | 2 => {
                            if depth == 1 {
                                return Err(Stop::Bad("too deep"));
                            }
                            Val::Bool(ft == 1)
                        }
                        o => self.any(o, depth - 1)?,
                    };
                    v.push((id, x));
                }
                self.path.pop();
                Val::St(v)
            }
            0 => return Err(Stop::Undef("type 0")),
            2 => return Err(Stop::Undef("type 2")),
            _ => return Err(Stop::Bad("undefined type")),
        })
    }
    fn kind(&mut self, k: &Kind) -> D<Val> {
        Ok(match k {
            Kind::Bool => Val::Bool(self.boolean()?),
            Kind::I8 => Val::I8(self.byte()? as i8),
            Kind::I16 => Val::I16(self.svar(16, 3)? as i16),
            Kind::I32 | Kind::Enum(_) => Val::I32(self.svar(32, 5)? as i32),
            Kind::I64 => Val::I64(self.svar(64, 10)?),
            Kind::Bin => Val::Bin(self.bin()?),
            Kind::Str => {
                let b = self.bin()?;
                if std::str::from_utf8(&b).is_err() {
                    return Err(Stop::Bad("invalid utf-8"));
                }
                Val::Bin(b)
            }
            Kind::List(e) => {
                let (t, n) = self.list_hdr()?;
                if t != e.wt().nib() {
                    return Err(Stop::Undef("element type differs from the IDL"));
                }
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.kind(e)?);
                }
                Val::List(e.wt(), v)
            }
            Kind::St(d) => self.st(d)?,
        })
    }
    /// Decode a structure of the IDL. The value holds the known fields only, in id order.
    fn st(&mut self, d: &'static Def) -> D<Val> {
        self.cost += 2;
        self.path.push((d as *const Def as usize, 0));
        let mut v: Vec<(i16, Val)> = vec![];
        let mut count = 0usize;
        let mut unknown = 0usize;
        while let Some((t, id)) = self.field()? {
            count += 1;
            match d.get(id) {
                None => {
                    unknown += 1;
                    match t {
                        1 | 2 => {}
                        o => {
                            self.any(o, 64)?;
                        }
                    }
                }
                Some(f) => {
                    let x = match (&f.kind, t) {
                        (Kind::Bool, 1) => Val::Bool(true),
                        (Kind::Bool, 2) => Val::Bool(false),
                        (k, t) if !matches!(k, Kind::Bool) && k.wt().nib() == t => self.kind(k)?,
                        _ => return Err(Stop::Undef("field type differs from the IDL")),
                    };
                    if v.iter().any(|y| y.0 == id) {
                        if !d.union {
                            return Err(Stop::Undef("duplicate field"));
                        }
                    } else {
                        v.push((id, x));
                    }
                }
            }
        }
        self.path.pop();
        v.sort_by_key(|x| x.0);
        if d.union {
            if count != 1 || unknown != 0 {
                return Err(Stop::Bad("union without exactly one known field"));
            }
        } else {
            for f in &d.fields {
                if f.req && !v.iter().any(|x| x.0 == f.id) {
                    return Err(Stop::Bad("missing required field"));
                }
            }
        }
        Ok(Val::St(v))
    }
}
pub fn decode(d: &'static Def, b: &[u8]) -> Verdict {
    let mut x = Dec { b, pos: 0, cost: 0, path: Vec::with_capacity(8) };
    match x.st(d) {
        Ok(v) => Verdict::Legal(v, x.pos, x.cost),
        Err(Stop::Bad(s)) => Verdict::Malformed(s, false),
        Err(Stop::Eof) => Verdict::Malformed("ends early", true),
        Err(Stop::Undef(s)) => Verdict::Unspecified(s),
    }
}
/// Decode one value of a wire type, IDL-free. Same nesting allowance as a skip with `depth`.
pub fn decode_any(w: Wt, b: &[u8], depth: usize) -> Verdict {
    let mut x = Dec { b, pos: 0, cost: 0, path: Vec::with_capacity(8) };
    match x.any(w.nib(), depth) {
        Ok(v) => Verdict::Legal(v, x.pos, x.cost),
        Err(Stop::Bad(s)) => Verdict::Malformed(s, false),
        Err(Stop::Eof) => Verdict::Malformed("ends early", true),
        Err(Stop::Undef(s)) => Verdict::Unspecified(s),
    }
}
