//! The Parquet IDL (parquet.thrift), transcribed by hand, bound to the Rust types of the crate under test.
use std::cmp::Ordering;
use crate::env::{block_on, Env};
use crate::val::*;
use parquet_format_safe as pf;
use pf::thrift::protocol::*;
use pf::thrift::Result as TResult;
use std::sync::OnceLock;

pub type In<'e, 'a> = TCompactInputProtocol<&'e mut Env<'a>>;
pub type Out<'e, 'a> = TCompactOutputProtocol<&'e mut Env<'a>>;
pub type SIn<'e, 'a> = TCompactInputStreamProtocol<&'e mut Env<'a>>;
pub type SOut<'e, 'a> = TCompactOutputStreamProtocol<&'e mut Env<'a>>;

/// Conversion between the crate's values and reference values.
pub trait Conv: Sized + 'static {
    fn kind() -> Kind;
    fn to_val(&self) -> Val;
    fn from_val(v: &Val) -> Self;
}
macro_rules! prim {
    ($($t:ty, $k:ident);*) => {$(
        impl Conv for $t {
            fn kind() -> Kind { Kind::$k }
            fn to_val(&self) -> Val { Val::$k(*self) }
            fn from_val(v: &Val) -> Self { match v { Val::$k(x) => *x, o => panic!("harness: {:?}", o) } }
        }
    )*};
}
prim!(bool, Bool; i8, I8; i16, I16; i32, I32; i64, I64);
impl Conv for String {
    fn kind() -> Kind {
        Kind::Str
    }
    fn to_val(&self) -> Val {
        Val::Bin(self.as_bytes().to_vec())
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Bin(x) => String::from_utf8(x.clone()).expect("harness: text"),
            o => panic!("harness: {:?}", o),
        }
    }
}
impl Conv for Vec<u8> {
    fn kind() -> Kind {
        Kind::Bin
    }
    fn to_val(&self) -> Val {
        Val::Bin(self.clone())
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Bin(x) => x.clone(),
            o => panic!("harness: {:?}", o),
        }
    }
}
impl<T: Conv> Conv for Vec<T> {
    fn kind() -> Kind {
        Kind::List(Box::new(T::kind()))
    }
    fn to_val(&self) -> Val {
        Val::List(T::kind().wt(), self.iter().map(|x| x.to_val()).collect())
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::List(_, x) => x.iter().map(T::from_val).collect(),
            o => panic!("harness: {:?}", o),
        }
    }
}

pub trait HasDef {
    fn def() -> &'static Def;
}
pub trait Build: Conv {
    /// through the type's constructor (structs) or variant (unions)
    fn ctor(v: &Val) -> Self;
}

macro_rules! put {
    (req $v:ident $id:literal $x:expr) => {
        $v.push(($id, Conv::to_val(&$x)))
    };
    (opt $v:ident $id:literal $x:expr) => {
        if let Some(x) = &$x {
            $v.push(($id, Conv::to_val(x)))
        }
    };
}
macro_rules! get {
    (req $v:ident $id:literal $t:ty) => {
        <$t as Conv>::from_val($v.field($id).expect("harness: required field"))
    };
    (opt $v:ident $id:literal $t:ty) => {
        $v.field($id).map(|x| <$t as Conv>::from_val(x))
    };
}
macro_rules! isreq {
    (req) => {
        true
    };
    (opt) => {
        false
    };
}
macro_rules! st {
    ($($T:ident { $($id:literal $q:ident $f:ident : $t:ty),* })*) => {$(
        impl HasDef for pf::$T {
            fn def() -> &'static Def {
                static D: OnceLock<Def> = OnceLock::new();
                D.get_or_init(|| Def { name: stringify!($T), union: false, fields: vec![
                    $(FieldDef { id: $id, name: stringify!($f), req: isreq!($q), kind: <$t as Conv>::kind() }),*
                ]})
            }
        }
        impl Conv for pf::$T {
            fn kind() -> Kind { Kind::St(Self::def()) }
            #[allow(unused_mut)]
            fn to_val(&self) -> Val { let mut v: Vec<(i16, Val)> = vec![]; $(put!($q v $id self.$f);)* Val::St(v) }
            #[allow(unused_variables)]
            fn from_val(v: &Val) -> Self { pf::$T { $($f: get!($q v $id $t)),* } }
        }
        impl Build for pf::$T {
            #[allow(unused_variables)]
            fn ctor(v: &Val) -> Self { pf::$T::new($(get!($q v $id $t)),*) }
        }
        ty!($T);
    )*};
}
macro_rules! un {
    ($($T:ident { $($id:literal $f:ident : $t:ty),* })*) => {$(
        impl HasDef for pf::$T {
            fn def() -> &'static Def {
                static D: OnceLock<Def> = OnceLock::new();
                D.get_or_init(|| Def { name: stringify!($T), union: true, fields: vec![
                    $(FieldDef { id: $id, name: stringify!($f), req: false, kind: <$t as Conv>::kind() }),*
                ]})
            }
        }
        impl Conv for pf::$T {
            fn kind() -> Kind { Kind::St(Self::def()) }
            fn to_val(&self) -> Val { match self { $(pf::$T::$f(x) => Val::St(vec![($id, x.to_val())])),* } }
            fn from_val(v: &Val) -> Self {
                match v {
                    Val::St(f) if f.len() == 1 => match f[0].0 {
                        $($id => pf::$T::$f(<$t as Conv>::from_val(&f[0].1)),)*
                        _ => panic!("harness: union id"),
                    },
                    o => panic!("harness: {:?}", o),
                }
            }
        }
        impl Build for pf::$T {
            fn ctor(v: &Val) -> Self { Self::from_val(v) }
        }
        ty!($T);
    )*};
}

/// A readable and writable Parquet structure, erased.
pub type Task<'x, T> = std::pin::Pin<Box<dyn std::future::Future<Output = TResult<T>> + Send + 'x>>;
pub trait Ty: Sync {
    fn name(&self) -> &'static str;
    fn def(&self) -> &'static Def;
    fn size(&self) -> usize;
    fn read(&self, p: &mut In<'_, '_>) -> TResult<Val>;
    fn sread(&self, p: &mut SIn<'_, '_>) -> TResult<Val>;
    /// the asynchronous ones as tasks
    fn rtask<'x>(&'x self, p: &'x mut SIn<'_, '_>) -> Task<'x, Val>;
    fn wtask<'x>(&'x self, v: &'x Val, p: &'x mut SOut<'_, '_>) -> Task<'x, usize>;
    /// read, and drop the value at once
    fn read_only(&self, p: &mut In<'_, '_>) -> TResult<()>;
    fn sread_only(&self, p: &mut SIn<'_, '_>) -> TResult<()>;
    fn write(&self, v: &Val, p: &mut Out<'_, '_>) -> TResult<usize>;
    fn swrite(&self, v: &Val, p: &mut SOut<'_, '_>) -> TResult<usize>;
    /// the same through a boxed protocol
    fn bread(&self, p: &mut Box<In<'_, '_>>) -> TResult<Val>;
    fn bwrite(&self, v: &Val, p: &mut Box<Out<'_, '_>>) -> TResult<usize>;
    /// equality of the crate's own values (derived or not)
    fn own_eq(&self, a: &Val, b: &Val) -> bool;
    /// how every two of the values compare: ==, !=, partial_cmp, cmp, and whether they hash alike
    fn table(&self, vs: &[Val], pairs: &mut dyn FnMut(usize, usize, Compared));
    /// a clone, and the original after cloning
    fn cloned(&self, v: &Val) -> (Val, Val, bool);
    /// build through the constructor and look at the fields
    fn ctor(&self, v: &Val) -> Val;
    /// from_val followed by to_val
    fn through(&self, v: &Val) -> Val;
    fn own_debug(&self, v: &Val) -> String;
}
macro_rules! ty {
    ($T:ident) => {
        const _: () = {
            #[allow(non_upper_case_globals)]
            impl Ty for Of<pf::$T> {
                fn name(&self) -> &'static str {
                    stringify!($T)
                }
                fn def(&self) -> &'static Def {
                    <pf::$T as HasDef>::def()
                }
                fn size(&self) -> usize {
                    std::mem::size_of::<pf::$T>()
                }
                fn read(&self, p: &mut In<'_, '_>) -> TResult<Val> {
                    pf::$T::read_from_in_protocol(p).map(|x| x.to_val())
                }
                fn sread(&self, p: &mut SIn<'_, '_>) -> TResult<Val> {
                    block_on(pf::$T::stream_from_in_protocol(p)).map(|x| x.to_val())
                }
                fn rtask<'x>(&'x self, p: &'x mut SIn<'_, '_>) -> Task<'x, Val> {
                    Box::pin(async move { pf::$T::stream_from_in_protocol(p).await.map(|x| x.to_val()) })
                }
                fn wtask<'x>(&'x self, v: &'x Val, p: &'x mut SOut<'_, '_>) -> Task<'x, usize> {
                    Box::pin(async move {
                        let x = pf::$T::from_val(v);
                        x.write_to_out_stream_protocol(p).await
                    })
                }
                fn read_only(&self, p: &mut In<'_, '_>) -> TResult<()> {
                    pf::$T::read_from_in_protocol(p).map(|_| ())
                }
                fn sread_only(&self, p: &mut SIn<'_, '_>) -> TResult<()> {
                    block_on(pf::$T::stream_from_in_protocol(p)).map(|_| ())
                }
                fn write(&self, v: &Val, p: &mut Out<'_, '_>) -> TResult<usize> {
                    pf::$T::from_val(v).write_to_out_protocol(p)
                }
                fn swrite(&self, v: &Val, p: &mut SOut<'_, '_>) -> TResult<usize> {
                    block_on(pf::$T::from_val(v).write_to_out_stream_protocol(p))
                }
                fn bread(&self, p: &mut Box<In<'_, '_>>) -> TResult<Val> {
                    pf::$T::read_from_in_protocol(p).map(|x| x.to_val())
                }
                fn bwrite(&self, v: &Val, p: &mut Box<Out<'_, '_>>) -> TResult<usize> {
                    pf::$T::from_val(v).write_to_out_protocol(p)
                }
                fn own_eq(&self, a: &Val, b: &Val) -> bool {
                    pf::$T::from_val(a) == pf::$T::from_val(b)
                }
                fn table(&self, vs: &[Val], pairs: &mut dyn FnMut(usize, usize, Compared)) {
                    let xs: Vec<pf::$T> = vs.iter().map(|v| pf::$T::from_val(v)).collect();
                    let hs: Vec<u64> = xs.iter().map(hash_of).collect();
                    for (i, a) in xs.iter().enumerate() {
                        for (j, b) in xs.iter().enumerate() {
                            pairs(i, j, Compared::of(a, b, hs[i] == hs[j]));
                        }
                    }
                }
                fn cloned(&self, v: &Val) -> (Val, Val, bool) {
                    let a = pf::$T::from_val(v);
                    let b = a.clone();
                    (b.to_val(), a.to_val(), a == b && hash_of(&a) == hash_of(&b) && a.cmp(&b).is_eq())
                }
                fn ctor(&self, v: &Val) -> Val {
                    <pf::$T as Build>::ctor(v).to_val()
                }
                fn through(&self, v: &Val) -> Val {
                    pf::$T::from_val(v).to_val()
                }
                fn own_debug(&self, v: &Val) -> String {
                    format!("{:?}", pf::$T::from_val(v))
                }
            }
        };
    };
}
#[derive(Clone, Copy, Debug)]
pub struct Compared {
    pub eq: bool,
    pub ne: bool,
    pub partial: Option<Ordering>,
    pub total: Ordering,
    /// <, <=, >, >=
    pub ops: [bool; 4],
    pub hash: bool,
}
impl Compared {
    pub fn of<T: Ord>(a: &T, b: &T, hash: bool) -> Compared {
        Compared { eq: a == b, ne: a != b, partial: a.partial_cmp(b), total: a.cmp(b), ops: [a < b, a <= b, a > b, a >= b], hash }
    }
}
pub fn hash_of<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
pub struct Of<T>(std::marker::PhantomData<fn() -> T>);
impl<T> Of<T> {
    pub const fn new() -> Self {
        Of(std::marker::PhantomData)
    }
}

/// An open enumeration, erased.
pub trait En: Sync {
    fn def(&self) -> &'static EnumDef;
    fn from_i(&self, i: i32) -> i32;
    fn from_ref(&self, i: i32) -> i32;
    fn into_i(&self, i: i32) -> i32;
    fn into_ref(&self, i: i32) -> i32;
    fn values(&self) -> Vec<i32>;
    fn compared(&self, a: i32, b: i32) -> (Compared, i32);
    /// (name of the Rust constant, its code)
    fn consts(&self) -> Vec<(&'static str, i32)>;
    fn read(&self, p: &mut In<'_, '_>) -> TResult<i32>;
    fn sread(&self, p: &mut SIn<'_, '_>) -> TResult<i32>;
    fn write(&self, i: i32, p: &mut Out<'_, '_>) -> TResult<usize>;
    fn swrite(&self, i: i32, p: &mut SOut<'_, '_>) -> TResult<usize>;
}
macro_rules! en {
    ($($T:ident { $($c:ident = $n:literal),* })*) => {
        $(
            impl HasEnum for pf::$T {
                fn edef() -> &'static EnumDef {
                    static D: EnumDef = EnumDef { name: stringify!($T), consts: &[$((stringify!($c), $n)),*] };
                    &D
                }
            }
            impl Conv for pf::$T {
                fn kind() -> Kind { Kind::Enum(Self::edef()) }
                fn to_val(&self) -> Val { Val::I32(self.0) }
                fn from_val(v: &Val) -> Self { match v { Val::I32(x) => pf::$T(*x), o => panic!("harness: {:?}", o) } }
            }
            impl En for Of<pf::$T> {
                fn def(&self) -> &'static EnumDef { pf::$T::edef() }
                fn from_i(&self, i: i32) -> i32 { pf::$T::from(i).0 }
                fn from_ref(&self, i: i32) -> i32 { pf::$T::from(&i).0 }
                fn into_i(&self, i: i32) -> i32 { i32::from(pf::$T(i)) }
                fn into_ref(&self, i: i32) -> i32 { i32::from(&pf::$T(i)) }
                fn values(&self) -> Vec<i32> { pf::$T::ENUM_VALUES.iter().map(|x| x.0).collect() }
                fn compared(&self, a: i32, b: i32) -> (Compared, i32) {
                    let (x, y) = (pf::$T(a), pf::$T(b));
                    #[allow(clippy::clone_on_copy)]
                    (Compared::of(&x, &y, hash_of(&x) == hash_of(&y)), x.clone().0)
                }
                fn consts(&self) -> Vec<(&'static str, i32)> { vec![$((stringify!($c), pf::$T::$c.0)),*] }
                fn read(&self, p: &mut In<'_, '_>) -> TResult<i32> { <pf::$T as ReadThrift>::read_from_in_protocol(p).map(|x| x.0) }
                fn sread(&self, p: &mut SIn<'_, '_>) -> TResult<i32> { block_on(<pf::$T as AsyncReadThrift>::stream_from_in_protocol(p)).map(|x| x.0) }
                fn write(&self, i: i32, p: &mut Out<'_, '_>) -> TResult<usize> { pf::$T(i).write_to_out_protocol(p) }
                fn swrite(&self, i: i32, p: &mut SOut<'_, '_>) -> TResult<usize> { block_on(pf::$T(i).write_to_out_stream_protocol(p)) }
            }
        )*
        pub static ENUMS: &[&dyn En] = &[$(&Of::<pf::$T>::new()),*];
    };
}
pub trait HasEnum {
    fn edef() -> &'static EnumDef;
}

en! {
    Type { BOOLEAN = 0, INT32 = 1, INT64 = 2, INT96 = 3, FLOAT = 4, DOUBLE = 5, BYTE_ARRAY = 6, FIXED_LEN_BYTE_ARRAY = 7 }
    ConvertedType {
        UTF8 = 0, MAP = 1, MAP_KEY_VALUE = 2, LIST = 3, ENUM = 4, DECIMAL = 5, DATE = 6, TIME_MILLIS = 7, TIME_MICROS = 8,
        TIMESTAMP_MILLIS = 9, TIMESTAMP_MICROS = 10, UINT_8 = 11, UINT_16 = 12, UINT_32 = 13, UINT_64 = 14, INT_8 = 15,
        INT_16 = 16, INT_32 = 17, INT_64 = 18, JSON = 19, BSON = 20, INTERVAL = 21
    }
    FieldRepetitionType { REQUIRED = 0, OPTIONAL = 1, REPEATED = 2 }
    Encoding {
        PLAIN = 0, PLAIN_DICTIONARY = 2, RLE = 3, BIT_PACKED = 4, DELTA_BINARY_PACKED = 5, DELTA_LENGTH_BYTE_ARRAY = 6,
        DELTA_BYTE_ARRAY = 7, RLE_DICTIONARY = 8, BYTE_STREAM_SPLIT = 9
    }
    CompressionCodec { UNCOMPRESSED = 0, SNAPPY = 1, GZIP = 2, LZO = 3, BROTLI = 4, LZ4 = 5, ZSTD = 6, LZ4_RAW = 7 }
    PageType { DATA_PAGE = 0, INDEX_PAGE = 1, DICTIONARY_PAGE = 2, DATA_PAGE_V2 = 3 }
    BoundaryOrder { UNORDERED = 0, ASCENDING = 1, DESCENDING = 2 }
}

st! {
    Statistics { 1 opt max: Vec<u8>, 2 opt min: Vec<u8>, 3 opt null_count: i64, 4 opt distinct_count: i64, 5 opt max_value: Vec<u8>, 6 opt min_value: Vec<u8> }
    StringType {}
    UUIDType {}
    MapType {}
    ListType {}
    EnumType {}
    DateType {}
    NullType {}
    DecimalType { 1 req scale: i32, 2 req precision: i32 }
    MilliSeconds {}
    MicroSeconds {}
    NanoSeconds {}
    TimestampType { 1 req is_adjusted_to_u_t_c: bool, 2 req unit: pf::TimeUnit }
    TimeType { 1 req is_adjusted_to_u_t_c: bool, 2 req unit: pf::TimeUnit }
    IntType { 1 req bit_width: i8, 2 req is_signed: bool }
    JsonType {}
    BsonType {}
    SchemaElement {
        1 opt type_: pf::Type, 2 opt type_length: i32, 3 opt repetition_type: pf::FieldRepetitionType, 4 req name: String,
        5 opt num_children: i32, 6 opt converted_type: pf::ConvertedType, 7 opt scale: i32, 8 opt precision: i32,
        9 opt field_id: i32, 10 opt logical_type: pf::LogicalType
    }
    DataPageHeader {
        1 req num_values: i32, 2 req encoding: pf::Encoding, 3 req definition_level_encoding: pf::Encoding,
        4 req repetition_level_encoding: pf::Encoding, 5 opt statistics: pf::Statistics
    }
    IndexPageHeader {}
    DictionaryPageHeader { 1 req num_values: i32, 2 req encoding: pf::Encoding, 3 opt is_sorted: bool }
    DataPageHeaderV2 {
        1 req num_values: i32, 2 req num_nulls: i32, 3 req num_rows: i32, 4 req encoding: pf::Encoding,
        5 req definition_levels_byte_length: i32, 6 req repetition_levels_byte_length: i32, 7 opt is_compressed: bool,
        8 opt statistics: pf::Statistics
    }
    SplitBlockAlgorithm {}
    XxHash {}
    Uncompressed {}
    BloomFilterHeader {
        1 req num_bytes: i32, 2 req algorithm: pf::BloomFilterAlgorithm, 3 req hash: pf::BloomFilterHash,
        4 req compression: pf::BloomFilterCompression
    }
    PageHeader {
        1 req type_: pf::PageType, 2 req uncompressed_page_size: i32, 3 req compressed_page_size: i32, 4 opt crc: i32,
        5 opt data_page_header: pf::DataPageHeader, 6 opt index_page_header: pf::IndexPageHeader,
        7 opt dictionary_page_header: pf::DictionaryPageHeader, 8 opt data_page_header_v2: pf::DataPageHeaderV2
    }
    KeyValue { 1 req key: String, 2 opt value: String }
    SortingColumn { 1 req column_idx: i32, 2 req descending: bool, 3 req nulls_first: bool }
    PageEncodingStats { 1 req page_type: pf::PageType, 2 req encoding: pf::Encoding, 3 req count: i32 }
    ColumnMetaData {
        1 req type_: pf::Type, 2 req encodings: Vec<pf::Encoding>, 3 req path_in_schema: Vec<String>, 4 req codec: pf::CompressionCodec,
        5 req num_values: i64, 6 req total_uncompressed_size: i64, 7 req total_compressed_size: i64,
        8 opt key_value_metadata: Vec<pf::KeyValue>, 9 req data_page_offset: i64, 10 opt index_page_offset: i64,
        11 opt dictionary_page_offset: i64, 12 opt statistics: pf::Statistics, 13 opt encoding_stats: Vec<pf::PageEncodingStats>,
        14 opt bloom_filter_offset: i64
    }
    EncryptionWithFooterKey {}
    EncryptionWithColumnKey { 1 req path_in_schema: Vec<String>, 2 opt key_metadata: Vec<u8> }
    ColumnChunk {
        1 opt file_path: String, 2 req file_offset: i64, 3 opt meta_data: pf::ColumnMetaData, 4 opt offset_index_offset: i64,
        5 opt offset_index_length: i32, 6 opt column_index_offset: i64, 7 opt column_index_length: i32,
        8 opt crypto_metadata: pf::ColumnCryptoMetaData, 9 opt encrypted_column_metadata: Vec<u8>
    }
    RowGroup {
        1 req columns: Vec<pf::ColumnChunk>, 2 req total_byte_size: i64, 3 req num_rows: i64, 4 opt sorting_columns: Vec<pf::SortingColumn>,
        5 opt file_offset: i64, 6 opt total_compressed_size: i64, 7 opt ordinal: i16
    }
    TypeDefinedOrder {}
    PageLocation { 1 req offset: i64, 2 req compressed_page_size: i32, 3 req first_row_index: i64 }
    OffsetIndex { 1 req page_locations: Vec<pf::PageLocation> }
    ColumnIndex {
        1 req null_pages: Vec<bool>, 2 req min_values: Vec<Vec<u8>>, 3 req max_values: Vec<Vec<u8>>, 4 req boundary_order: pf::BoundaryOrder,
        5 opt null_counts: Vec<i64>
    }
    AesGcmV1 { 1 opt aad_prefix: Vec<u8>, 2 opt aad_file_unique: Vec<u8>, 3 opt supply_aad_prefix: bool }
    AesGcmCtrV1 { 1 opt aad_prefix: Vec<u8>, 2 opt aad_file_unique: Vec<u8>, 3 opt supply_aad_prefix: bool }
    FileMetaData {
        1 req version: i32, 2 req schema: Vec<pf::SchemaElement>, 3 req num_rows: i64, 4 req row_groups: Vec<pf::RowGroup>,
        5 opt key_value_metadata: Vec<pf::KeyValue>, 6 opt created_by: String, 7 opt column_orders: Vec<pf::ColumnOrder>,
        8 opt encryption_algorithm: pf::EncryptionAlgorithm, 9 opt footer_signing_key_metadata: Vec<u8>
    }
    FileCryptoMetaData { 1 req encryption_algorithm: pf::EncryptionAlgorithm, 2 opt key_metadata: Vec<u8> }
}
un! {
    TimeUnit { 1 MILLIS: pf::MilliSeconds, 2 MICROS: pf::MicroSeconds, 3 NANOS: pf::NanoSeconds }
    LogicalType {
        1 STRING: pf::StringType, 2 MAP: pf::MapType, 3 LIST: pf::ListType, 4 ENUM: pf::EnumType, 5 DECIMAL: pf::DecimalType,
        6 DATE: pf::DateType, 7 TIME: pf::TimeType, 8 TIMESTAMP: pf::TimestampType, 10 INTEGER: pf::IntType,
        11 UNKNOWN: pf::NullType, 12 JSON: pf::JsonType, 13 BSON: pf::BsonType, 14 UUID: pf::UUIDType
    }
    BloomFilterAlgorithm { 1 BLOCK: pf::SplitBlockAlgorithm }
    BloomFilterHash { 1 XXHASH: pf::XxHash }
    BloomFilterCompression { 1 UNCOMPRESSED: pf::Uncompressed }
    ColumnCryptoMetaData { 1 ENCRYPTIONWITHFOOTERKEY: pf::EncryptionWithFooterKey, 2 ENCRYPTIONWITHCOLUMNKEY: pf::EncryptionWithColumnKey }
    ColumnOrder { 1 TYPEORDER: pf::TypeDefinedOrder }
    EncryptionAlgorithm { 1 AESGCMV1: pf::AesGcmV1, 2 AESGCMCTRV1: pf::AesGcmCtrV1 }
}

macro_rules! all {
    ($($T:ident),*) => { pub static TYPES: &[&dyn Ty] = &[$(&Of::<pf::$T>::new()),*]; };
}
all!(
    Statistics, StringType, UUIDType, MapType, ListType, EnumType, DateType, NullType, DecimalType, MilliSeconds, MicroSeconds,
    NanoSeconds, TimeUnit, TimestampType, TimeType, IntType, JsonType, BsonType, LogicalType, SchemaElement, DataPageHeader,
    IndexPageHeader, DictionaryPageHeader, DataPageHeaderV2, SplitBlockAlgorithm, BloomFilterAlgorithm, XxHash, BloomFilterHash,
    Uncompressed, BloomFilterCompression, BloomFilterHeader, PageHeader, KeyValue, SortingColumn, PageEncodingStats,
    ColumnMetaData, EncryptionWithFooterKey, EncryptionWithColumnKey, ColumnCryptoMetaData, ColumnChunk, RowGroup,
    TypeDefinedOrder, ColumnOrder, PageLocation, OffsetIndex, ColumnIndex, AesGcmV1, AesGcmCtrV1, EncryptionAlgorithm,
    FileMetaData, FileCryptoMetaData
);
