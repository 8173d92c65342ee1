//! Low-level protocol programs: mirrored write and read sequences over dynamic values, skips, envelopes.
use crate::env::{block_on, Env};
use crate::ops::*;
use crate::schema::*;
use crate::val::*;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::{self, Result as TResult};

fn fid(w: Wt, id: i16) -> TFieldIdentifier {
    TFieldIdentifier { name: Some("f".into()), field_type: ttype(w), id: Some(id) }
}
pub fn wt_of(t: TType) -> Option<Wt> {
    WTS.into_iter().find(|w| ttype(*w) == t)
}
pub fn ttn(t: TType) -> Val {
    Val::Bin(format!("{:?}", t).into_bytes())
}
pub fn msg_type(i: usize) -> TMessageType {
    [TMessageType::Call, TMessageType::Reply, TMessageType::Exception, TMessageType::OneWay][i]
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Msg {
    pub name: Vec<u8>,
    pub ty: usize,
    pub seq: u32,
}
impl Msg {
    pub fn id(&self) -> TMessageIdentifier {
        TMessageIdentifier { name: String::from_utf8(self.name.clone()).expect("harness: name"), message_type: msg_type(self.ty), sequence_number: self.seq }
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut b = vec![0x82, ((self.ty as u8) + 1) << 5 | 1];
        b.extend(leb(self.seq as u64, 0));
        b.extend(leb(self.name.len() as u64, 0));
        b.extend(&self.name);
        b
    }
    pub fn val(&self) -> Val {
        Val::St(vec![(1, Val::Bin(self.name.clone())), (2, Val::I8(self.ty as i8)), (3, Val::I64(self.seq as i64))])
    }
    pub fn of(m: TMessageIdentifier) -> Val {
        let ty = (0..4).find(|i| msg_type(*i) == m.message_type).expect("harness: type");
        Val::St(vec![(1, Val::Bin(m.name.into_bytes())), (2, Val::I8(ty as i8)), (3, Val::I64(m.sequence_number as i64))])
    }
}

/// What to do with a reader.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Prog {
    /// read a value of this wire type with the mirrored low-level calls
    Any(Wt),
    Skip(Wt),
    SkipDepth(Wt, i8),
    /// skip a type that cannot occur on the wire
    SkipOdd(u8, i8),
    Msg,
    AppErr,
    Byte,
    Text,
    ListHdr,
    SetHdr,
    MapHdr,
    /// struct begin, field begin
    FieldHdr,
    /// the typed list helper: String, bool, u8, i64, Vec<u8>
    ListOf(u8),
}
pub fn odd(i: u8) -> TType {
    [TType::Stop, TType::Void, TType::Utf7, TType::Utf8, TType::Utf16][i as usize]
}
impl Prog {
    pub fn async_too(&self) -> bool {
        *self != Prog::AppErr
    }
    pub fn all() -> Vec<Prog> {
        let mut v: Vec<Prog> = WTS.iter().flat_map(|w| [Prog::Any(*w), Prog::Skip(*w)]).collect();
        for w in WTS {
            for d in [i8::MIN, -2, -1, 0, 1, 2, 3, 127] {
                v.push(Prog::SkipDepth(w, d));
            }
        }
        v.extend((0..5).flat_map(|i| [Prog::SkipOdd(i, 5), Prog::SkipOdd(i, 0), Prog::SkipOdd(i, -1)]));
        v.extend([Prog::Msg, Prog::AppErr, Prog::Byte, Prog::Text, Prog::ListHdr, Prog::SetHdr, Prog::MapHdr, Prog::FieldHdr]);
        v.extend((0..5).map(Prog::ListOf));
        v
    }
}

thread_local! {
    static FLUSH_AT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
fn flush_now() -> bool {
    FLUSH_AT.with(|f| {
        let n = f.get();
        if n == usize::MAX {
            return false;
        }
        f.set(n.wrapping_sub(1));
        n == 0
    })
}
/// Run with a flush behind the `n`-th writing call; was it reached?
pub fn flush_after<T>(n: usize, f: impl FnOnce() -> T) -> (T, bool) {
    FLUSH_AT.with(|x| x.set(n));
    let r = f();
    (r, FLUSH_AT.with(|x| x.replace(usize::MAX)) == usize::MAX)
}

macro_rules! side {
    ($m:ident, $IP:path, $OP:path, $RT:path, $rd:ident, [$($aw:tt)*]) => {
        pub mod $m {
            use super::*;
            macro_rules! call { ($e:expr) => { $($aw)*($e) } }
            pub fn write_val<P: $OP + ?Sized>(p: &mut P, v: &Val, text: bool) -> TResult<usize> {
                let mut n = 0;
                // every call may be followed by a flush
                fn tick<P: $OP + ?Sized>(p: &mut P) -> TResult<()> {
                    if flush_now() { flush(p) } else { Ok(()) }
                }
                match v {
                    Val::Bool(b) => { n += call!(p.write_bool(*b))?; tick(p)?; },
                    Val::I8(i) => { n += call!(p.write_i8(*i))?; tick(p)?; },
                    Val::I16(i) => { n += call!(p.write_i16(*i))?; tick(p)?; },
                    Val::I32(i) => { n += call!(p.write_i32(*i))?; tick(p)?; },
                    Val::I64(i) => { n += call!(p.write_i64(*i))?; tick(p)?; },
                    Val::Dbl(b) => { n += call!(p.write_double(f64::from_bits(*b)))?; tick(p)?; },
                    Val::Bin(b) => match (text, std::str::from_utf8(b)) {
                        (true, Ok(s)) => { n += call!(p.write_string(s))?; tick(p)?; },
                        _ => { n += call!(p.write_bytes(b))?; tick(p)?; },
                    },
                    Val::List(t, e) => {
                        { n += call!(p.write_list_begin(&TListIdentifier::new(ttype(*t), e.len() as u32)))?; tick(p)?; }
                        for x in e { n += write_val(p, x, text)?; }
                        { n += call!(p.write_list_end())?; tick(p)?; }
                    }
                    Val::Set(t, e) => {
                        { n += call!(p.write_set_begin(&TSetIdentifier::new(ttype(*t), e.len() as u32)))?; tick(p)?; }
                        for x in e { n += write_val(p, x, text)?; }
                        { n += call!(p.write_set_end())?; tick(p)?; }
                    }
                    Val::Map(k, t, e) => {
                        let id = if e.is_empty() { TMapIdentifier::new(None, None, 0) } else { TMapIdentifier::new(ttype(*k), ttype(*t), e.len() as u32) };
                        { n += call!(p.write_map_begin(&id))?; tick(p)?; }
                        for (a, b) in e { n += write_val(p, a, text)?; n += write_val(p, b, text)?; }
                        { n += call!(p.write_map_end())?; tick(p)?; }
                    }
                    Val::St(f) => {
                        { n += call!(p.write_struct_begin(&TStructIdentifier::new("s")))?; tick(p)?; }
                        for (id, x) in f {
                            { n += call!(p.write_field_begin(&fid(x.wt(), *id)))?; tick(p)?; }
                            n += write_val(p, x, text)?;
                            { n += p_field_end(p)?; tick(p)?; }
                        }
                        { n += call!(p.write_field_stop())?; tick(p)?; }
                        { n += p_struct_end(p)?; tick(p)?; }
                    }
                }
                Ok(n)
            }
            fn p_field_end<P: $OP + ?Sized>(p: &mut P) -> TResult<usize> { p.write_field_end() }
            fn p_struct_end<P: $OP + ?Sized>(p: &mut P) -> TResult<usize> { p.write_struct_end() }
            pub fn write_msg<P: $OP + ?Sized>(p: &mut P, m: &Msg) -> TResult<usize> {
                Ok(call!(p.write_message_begin(&m.id()))?)
            }
            pub fn end_msg<P: $OP + ?Sized>(p: &mut P) -> TResult<usize> { call!(p.write_message_end()) }
            pub fn flush<P: $OP + ?Sized>(p: &mut P) -> TResult<()> { call!(p.flush()) }
            pub fn write_byte<P: $OP + ?Sized>(p: &mut P, b: u8) -> TResult<usize> { call!(p.write_byte(b)) }
            fn undef<T>(t: TType) -> TResult<T> {
                // a type that reads nothing back: stop reading here
                Err(thrift::new_protocol_error(PK::NotImplemented, format!("mirror: {:?}", t)))
            }
            pub fn read_val<P: $IP>(p: &mut P, w: Wt, text: bool) -> TResult<Val> {
                Ok(match w {
                    Wt::Bool => Val::Bool(call!(p.read_bool())?),
                    Wt::I8 => Val::I8(call!(p.read_i8())?),
                    Wt::I16 => Val::I16(call!(p.read_i16())?),
                    Wt::I32 => Val::I32(call!(p.read_i32())?),
                    Wt::I64 => Val::I64(call!(p.read_i64())?),
                    Wt::Dbl => Val::Dbl(call!(p.read_double())?.to_bits()),
                    Wt::Bin => if text { Val::Bin(call!(p.read_string())?.into_bytes()) } else { Val::Bin(call!(p.read_bytes())?) },
                    Wt::List => {
                        let h = call!(p.read_list_begin())?;
                        let Some(t) = wt_of(h.element_type) else { return undef(h.element_type) };
                        let mut v = vec![];
                        for _ in 0..h.size { v.push(read_val(p, t, text)?); }
                        call!(p.read_list_end())?;
                        Val::List(t, v)
                    }
                    Wt::Set => {
                        let h = call!(p.read_set_begin())?;
                        let Some(t) = wt_of(h.element_type) else { return undef(h.element_type) };
                        let mut v = vec![];
                        for _ in 0..h.size { v.push(read_val(p, t, text)?); }
                        call!(p.read_set_end())?;
                        Val::Set(t, v)
                    }
                    Wt::Map => {
                        let h = call!(p.read_map_begin())?;
                        if h.size == 0 {
                            call!(p.read_map_end())?;
                            return Ok(Val::Map(Wt::Bool, Wt::Bool, vec![]));
                        }
                        let (Some(kt), Some(vt)) = (h.key_type, h.value_type) else { return undef(TType::Map) };
                        let Some(k) = wt_of(kt) else { return undef(kt) };
                        let Some(t) = wt_of(vt) else { return undef(vt) };
                        let mut v = vec![];
                        for _ in 0..h.size {
                            let a = read_val(p, k, text)?;
                            let b = read_val(p, t, text)?;
                            v.push((a, b));
                        }
                        call!(p.read_map_end())?;
                        Val::Map(k, t, v)
                    }
                    Wt::St => {
                        call!(p.read_struct_begin())?;
                        let mut v = vec![];
                        loop {
                            let f = call!(p.read_field_begin())?;
                            if f.field_type == TType::Stop { break; }
                            let Some(t) = wt_of(f.field_type) else { return undef(f.field_type) };
                            let id = field_id(&f)?;
                            v.push((id, read_val(p, t, text)?));
                            call!(p.read_field_end())?;
                        }
                        call!(p.read_struct_end())?;
                        Val::St(v)
                    }
                })
            }
            pub fn read_msg<P: $IP>(p: &mut P) -> TResult<Val> {
                Ok(Msg::of(call!(p.read_message_begin())?))
            }
            pub fn end_read_msg<P: $IP>(p: &mut P) -> TResult<()> { call!(p.read_message_end()) }
            pub fn skip<P: $IP>(p: &mut P, w: Wt) -> TResult<()> { call!(p.skip(ttype(w))) }
            fn fields(f: TFieldIdentifier) -> Val {
                Val::St(vec![(1, ttn(f.field_type)), (2, Val::I32(f.id.map(|x| x as i32).unwrap_or(1 << 20)))])
            }
            pub fn run<P: $IP>(p: &mut P, g: Prog) -> TResult<Val> {
                let unit = Val::St(vec![]);
                Ok(match g {
                    Prog::Any(w) => read_val(p, w, false)?,
                    Prog::Skip(w) => { call!(p.skip(ttype(w)))?; unit }
                    Prog::SkipDepth(w, d) => { call!(p.skip_till_depth(ttype(w), d))?; unit }
                    Prog::SkipOdd(i, d) => { call!(p.skip_till_depth(odd(i), d))?; unit }
                    Prog::Msg => { let v = read_msg(p)?; call!(p.read_message_end())?; v }
                    Prog::AppErr => apperr!($m, p),
                    Prog::Byte => Val::I8(call!(p.read_byte())? as i8),
                    Prog::Text => Val::Bin(call!(p.read_string())?.into_bytes()),
                    Prog::ListHdr => { let h = call!(p.read_list_begin())?; Val::St(vec![(1, ttn(h.element_type)), (2, Val::I64(h.size as i64))]) }
                    Prog::SetHdr => { let h = call!(p.read_set_begin())?; Val::St(vec![(1, ttn(h.element_type)), (2, Val::I64(h.size as i64))]) }
                    Prog::MapHdr => {
                        let h = call!(p.read_map_begin())?;
                        let o = |t: Option<TType>| t.map(ttn).unwrap_or(Val::Bool(false));
                        Val::St(vec![(1, o(h.key_type)), (2, o(h.value_type)), (3, Val::I64(h.size as i64))])
                    }
                    Prog::FieldHdr => {
                        call!(p.read_struct_begin())?;
                        let a = fields(call!(p.read_field_begin())?);
                        let b = fields(call!(p.read_field_begin())?);
                        call!(p.read_field_end())?;
                        call!(p.read_struct_end())?;
                        Val::List(Wt::St, vec![a, b])
                    }
                    Prog::ListOf(k) => match k {
                        0 => Val::List(Wt::Bin, call!(p.read_list::<String>())?.into_iter().map(|x| Val::Bin(x.into_bytes())).collect()),
                        1 => Val::List(Wt::Bool, call!(p.read_list::<bool>())?.into_iter().map(Val::Bool).collect()),
                        2 => Val::List(Wt::I8, call!(p.read_list::<u8>())?.into_iter().map(|x| Val::I8(x as i8)).collect()),
                        3 => Val::List(Wt::I64, call!(p.read_list::<i64>())?.into_iter().map(Val::I64).collect()),
                        _ => Val::List(Wt::Bin, call!(p.read_list::<Vec<u8>>())?.into_iter().map(Val::Bin).collect()),
                    },
                })
            }
        }
    };
}
macro_rules! apperr {
    (sy, $p:ident) => {{
        let e = thrift::Error::read_application_error_from_in_protocol($p)?;
        Val::St(vec![(1, Val::Bin(e.message.into_bytes())), (2, Val::I32(e.kind as i32))])
    }};
    (asy, $p:ident) => {{
        let _ = $p;
        panic!("harness: no asynchronous application errors")
    }};
}
side!(sy, TInputProtocol, TOutputProtocol, ReadThrift, x, []);
side!(asy, TInputStreamProtocol, TOutputStreamProtocol, AsyncReadThrift, x, [block_on]);

pub fn run(g: Prog, b: &[u8], limit: usize, side: Side, plan: Plan) -> (Result<Val, EK>, Seen) {
    match side {
        Side::Sync => with_in(b, limit, plan, |p| sy::run(p, g)),
        Side::Async => with_sin(b, limit, plan, |p| asy::run(p, g)),
        Side::BoxSync => with_in(b, limit, plan, |p| {
            let mut q = Box::new(Fwd(p));
            sy::run(&mut q, g)
        }),
    }
}
/// A protocol by mutable reference (the crate has no such impl), so that `Box<...>` can be put around it.
pub struct Fwd<'x, 'e, 'a>(pub &'x mut In<'e, 'a>);
impl TInputProtocol for Fwd<'_, '_, '_> {
    fn read_message_begin(&mut self) -> TResult<TMessageIdentifier> {
        self.0.read_message_begin()
    }
    fn read_message_end(&mut self) -> TResult<()> {
        self.0.read_message_end()
    }
    fn read_struct_begin(&mut self) -> TResult<Option<TStructIdentifier>> {
        self.0.read_struct_begin()
    }
    fn read_struct_end(&mut self) -> TResult<()> {
        self.0.read_struct_end()
    }
    fn read_field_begin(&mut self) -> TResult<TFieldIdentifier> {
        self.0.read_field_begin()
    }
    fn read_field_end(&mut self) -> TResult<()> {
        self.0.read_field_end()
    }
    fn read_bool(&mut self) -> TResult<bool> {
        self.0.read_bool()
    }
    fn read_bytes(&mut self) -> TResult<Vec<u8>> {
        self.0.read_bytes()
    }
    fn read_i8(&mut self) -> TResult<i8> {
        self.0.read_i8()
    }
    fn read_i16(&mut self) -> TResult<i16> {
        self.0.read_i16()
    }
    fn read_i32(&mut self) -> TResult<i32> {
        self.0.read_i32()
    }
    fn read_i64(&mut self) -> TResult<i64> {
        self.0.read_i64()
    }
    fn read_double(&mut self) -> TResult<f64> {
        self.0.read_double()
    }
    fn read_string(&mut self) -> TResult<String> {
        self.0.read_string()
    }
    fn read_list_begin(&mut self) -> TResult<TListIdentifier> {
        self.0.read_list_begin()
    }
    fn read_list_end(&mut self) -> TResult<()> {
        self.0.read_list_end()
    }
    fn read_set_begin(&mut self) -> TResult<TSetIdentifier> {
        self.0.read_set_begin()
    }
    fn read_set_end(&mut self) -> TResult<()> {
        self.0.read_set_end()
    }
    fn read_map_begin(&mut self) -> TResult<TMapIdentifier> {
        self.0.read_map_begin()
    }
    fn read_map_end(&mut self) -> TResult<()> {
        self.0.read_map_end()
    }
    fn read_byte(&mut self) -> TResult<u8> {
        self.0.read_byte()
    }
}
/// Write a value with the low-level calls.
pub fn write_low(v: &Val, text: bool, side: Side, plan: Plan) -> (Result<usize, EK>, Wrote) {
    match side {
        Side::Sync => with_out(plan, |p| sy::write_val(p, v, text)),
        Side::Async => with_sout(plan, |p| asy::write_val(p, v, text)),
        Side::BoxSync => {
            let mut e = Env::writer();
            e.devs = plan.devs;
            e.mode = plan.mode;
            let mut p: Box<dyn TOutputProtocol + '_> = Box::new(TCompactOutputProtocol::new(&mut e));
            let r = sy::write_val(&mut p, v, text);
            drop(p);
            (r.map_err(|x| ek(&x)), Wrote::of(e))
        }
    }
}
pub fn read_low(w: Wt, text: bool, b: &[u8], limit: usize, side: Side, plan: Plan) -> (Result<Val, EK>, Seen) {
    match side {
        Side::Sync => with_in(b, limit, plan, |p| sy::read_val(p, w, text)),
        Side::Async => with_sin(b, limit, plan, |p| asy::read_val(p, w, text)),
        Side::BoxSync => with_in(b, limit, plan, |p| sy::read_val(&mut Box::new(Fwd(p)), w, text)),
    }
}
