// Generated by tools/gen.py from tools/schema.py.
#![allow(clippy::all)]
use crate::val::{Meta, Val};
use parquet_format_safe::*;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::Result;

impl Meta for Statistics {
    fn build(v: &Val) -> Self { let _ = v; Statistics {
        max: v.get(1).map(|e| e.bytes()),
        min: v.get(2).map(|e| e.bytes()),
        null_count: v.get(3).map(|e| e.int()),
        distinct_count: v.get(4).map(|e| e.int()),
        max_value: v.get(5).map(|e| e.bytes()),
        min_value: v.get(6).map(|e| e.bytes()),
    } }
    fn by_new(v: &Val) -> Self { let _ = v; Statistics::new(
        v.get(1).map(|e| e.bytes()),
        v.get(2).map(|e| e.bytes()),
        v.get(3).map(|e| e.int()),
        v.get(4).map(|e| e.int()),
        v.get(5).map(|e| e.bytes()),
        v.get(6).map(|e| e.bytes()),
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        if let Some(x) = &self.max { f.push((1, Val::Bytes(x.clone()))); }
        if let Some(x) = &self.min { f.push((2, Val::Bytes(x.clone()))); }
        if let Some(x) = &self.null_count { f.push((3, Val::Int(*x))); }
        if let Some(x) = &self.distinct_count { f.push((4, Val::Int(*x))); }
        if let Some(x) = &self.max_value { f.push((5, Val::Bytes(x.clone()))); }
        if let Some(x) = &self.min_value { f.push((6, Val::Bytes(x.clone()))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for StringType {
    fn build(v: &Val) -> Self { let _ = v; StringType {
    } }
    fn by_new(v: &Val) -> Self { let _ = v; StringType::new(
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for UUIDType {
    fn build(v: &Val) -> Self { let _ = v; UUIDType {
    } }
    fn by_new(v: &Val) -> Self { let _ = v; UUIDType::new(
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for MapType {
    fn build(v: &Val) -> Self { let _ = v; MapType {
    } }
    fn by_new(v: &Val) -> Self { let _ = v; MapType::new(
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for ListType {
    fn build(v: &Val) -> Self { let _ = v; ListType {
    } }
    fn by_new(v: &Val) -> Self { let _ = v; ListType::new(
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for EnumType {
    fn build(v: &Val) -> Self { let _ = v; EnumType {
    } }
    fn by_new(v: &Val) -> Self { let _ = v; EnumType::new(
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for DateType {
    fn build(v: &Val) -> Self { let _ = v; DateType {
    } }
    fn by_new(v: &Val) -> Self { let _ = v; DateType::new(
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for NullType {
    fn build(v: &Val) -> Self { let _ = v; NullType {
    } }
    fn by_new(v: &Val) -> Self { let _ = v; NullType::new(
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for DecimalType {
    fn build(v: &Val) -> Self { let _ = v; DecimalType {
        scale: { let e = v.field(1); (e.int() as i32) },
        precision: { let e = v.field(2); (e.int() as i32) },
    } }
    fn by_new(v: &Val) -> Self { let _ = v; DecimalType::new(
        { let e = v.field(1); (e.int() as i32) },
        { let e = v.field(2); (e.int() as i32) },
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        { let x = &self.scale; f.push((1, Val::Int(*x as i64))); }
        { let x = &self.precision; f.push((2, Val::Int(*x as i64))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for MilliSeconds {
    fn build(v: &Val) -> Self { let _ = v; MilliSeconds {
    } }
    fn by_new(v: &Val) -> Self { let _ = v; MilliSeconds::new(
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for MicroSeconds {
    fn build(v: &Val) -> Self { let _ = v; MicroSeconds {
    } }
    fn by_new(v: &Val) -> Self { let _ = v; MicroSeconds::new(
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for NanoSeconds {
    fn build(v: &Val) -> Self { let _ = v; NanoSeconds {
    } }
    fn by_new(v: &Val) -> Self { let _ = v; NanoSeconds::new(
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for TimeUnit {
    fn build(v: &Val) -> Self { let (id, v) = v.only(); match id {
        1 => TimeUnit::MILLIS(<MilliSeconds as Meta>::build(v)),
        2 => TimeUnit::MICROS(<MicroSeconds as Meta>::build(v)),
        3 => TimeUnit::NANOS(<NanoSeconds as Meta>::build(v)),
        _ => panic!("bad union alternative") } }
    fn dump(&self) -> Val { match self {
        TimeUnit::MILLIS(x) => Val::Struct(vec![(1, Meta::dump(x))]),
        TimeUnit::MICROS(x) => Val::Struct(vec![(2, Meta::dump(x))]),
        TimeUnit::NANOS(x) => Val::Struct(vec![(3, Meta::dump(x))]),
    } }
    fn by_new(v: &Val) -> Self { Self::build(v) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for TimestampType {
    fn build(v: &Val) -> Self { let _ = v; TimestampType {
        is_adjusted_to_u_t_c: { let e = v.field(1); e.boolean() },
        unit: { let e = v.field(2); <TimeUnit as Meta>::build(e) },
    } }
    fn by_new(v: &Val) -> Self { let _ = v; TimestampType::new(
        { let e = v.field(1); e.boolean() },
        { let e = v.field(2); <TimeUnit as Meta>::build(e) },
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        { let x = &self.is_adjusted_to_u_t_c; f.push((1, Val::Bool(*x))); }
        { let x = &self.unit; f.push((2, Meta::dump(x))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for TimeType {
    fn build(v: &Val) -> Self { let _ = v; TimeType {
        is_adjusted_to_u_t_c: { let e = v.field(1); e.boolean() },
        unit: { let e = v.field(2); <TimeUnit as Meta>::build(e) },
    } }
    fn by_new(v: &Val) -> Self { let _ = v; TimeType::new(
        { let e = v.field(1); e.boolean() },
        { let e = v.field(2); <TimeUnit as Meta>::build(e) },
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        { let x = &self.is_adjusted_to_u_t_c; f.push((1, Val::Bool(*x))); }
        { let x = &self.unit; f.push((2, Meta::dump(x))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for IntType {
    fn build(v: &Val) -> Self { let _ = v; IntType {
        bit_width: { let e = v.field(1); (e.int() as i8) },
        is_signed: { let e = v.field(2); e.boolean() },
    } }
    fn by_new(v: &Val) -> Self { let _ = v; IntType::new(
        { let e = v.field(1); (e.int() as i8) },
        { let e = v.field(2); e.boolean() },
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        { let x = &self.bit_width; f.push((1, Val::Int(*x as i64))); }
        { let x = &self.is_signed; f.push((2, Val::Bool(*x))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for JsonType {
    fn build(v: &Val) -> Self { let _ = v; JsonType {
    } }
    fn by_new(v: &Val) -> Self { let _ = v; JsonType::new(
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for BsonType {
    fn build(v: &Val) -> Self { let _ = v; BsonType {
    } }
    fn by_new(v: &Val) -> Self { let _ = v; BsonType::new(
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for LogicalType {
    fn build(v: &Val) -> Self { let (id, v) = v.only(); match id {
        1 => LogicalType::STRING(<StringType as Meta>::build(v)),
        2 => LogicalType::MAP(<MapType as Meta>::build(v)),
        3 => LogicalType::LIST(<ListType as Meta>::build(v)),
        4 => LogicalType::ENUM(<EnumType as Meta>::build(v)),
        5 => LogicalType::DECIMAL(<DecimalType as Meta>::build(v)),
        6 => LogicalType::DATE(<DateType as Meta>::build(v)),
        7 => LogicalType::TIME(<TimeType as Meta>::build(v)),
        8 => LogicalType::TIMESTAMP(<TimestampType as Meta>::build(v)),
        10 => LogicalType::INTEGER(<IntType as Meta>::build(v)),
        11 => LogicalType::UNKNOWN(<NullType as Meta>::build(v)),
        12 => LogicalType::JSON(<JsonType as Meta>::build(v)),
        13 => LogicalType::BSON(<BsonType as Meta>::build(v)),
        14 => LogicalType::UUID(<UUIDType as Meta>::build(v)),
        _ => panic!("bad union alternative") } }
    fn dump(&self) -> Val { match self {
        LogicalType::STRING(x) => Val::Struct(vec![(1, Meta::dump(x))]),
        LogicalType::MAP(x) => Val::Struct(vec![(2, Meta::dump(x))]),
        LogicalType::LIST(x) => Val::Struct(vec![(3, Meta::dump(x))]),
        LogicalType::ENUM(x) => Val::Struct(vec![(4, Meta::dump(x))]),
        LogicalType::DECIMAL(x) => Val::Struct(vec![(5, Meta::dump(x))]),
        LogicalType::DATE(x) => Val::Struct(vec![(6, Meta::dump(x))]),
        LogicalType::TIME(x) => Val::Struct(vec![(7, Meta::dump(x))]),
        LogicalType::TIMESTAMP(x) => Val::Struct(vec![(8, Meta::dump(x))]),
        LogicalType::INTEGER(x) => Val::Struct(vec![(10, Meta::dump(x))]),
        LogicalType::UNKNOWN(x) => Val::Struct(vec![(11, Meta::dump(x))]),
        LogicalType::JSON(x) => Val::Struct(vec![(12, Meta::dump(x))]),
        LogicalType::BSON(x) => Val::Struct(vec![(13, Meta::dump(x))]),
        LogicalType::UUID(x) => Val::Struct(vec![(14, Meta::dump(x))]),
    } }
    fn by_new(v: &Val) -> Self { Self::build(v) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for SchemaElement {
    fn build(v: &Val) -> Self { let _ = v; SchemaElement {
        type_: v.get(1).map(|e| Type(e.int() as i32)),
        type_length: v.get(2).map(|e| (e.int() as i32)),
        repetition_type: v.get(3).map(|e| FieldRepetitionType(e.int() as i32)),
        name: { let e = v.field(4); e.string() },
        num_children: v.get(5).map(|e| (e.int() as i32)),
        converted_type: v.get(6).map(|e| ConvertedType(e.int() as i32)),
        scale: v.get(7).map(|e| (e.int() as i32)),
        precision: v.get(8).map(|e| (e.int() as i32)),
        field_id: v.get(9).map(|e| (e.int() as i32)),
        logical_type: v.get(10).map(|e| <LogicalType as Meta>::build(e)),
    } }
    fn by_new(v: &Val) -> Self { let _ = v; SchemaElement::new(
        v.get(1).map(|e| Type(e.int() as i32)),
        v.get(2).map(|e| (e.int() as i32)),
        v.get(3).map(|e| FieldRepetitionType(e.int() as i32)),
        { let e = v.field(4); e.string() },
        v.get(5).map(|e| (e.int() as i32)),
        v.get(6).map(|e| ConvertedType(e.int() as i32)),
        v.get(7).map(|e| (e.int() as i32)),
        v.get(8).map(|e| (e.int() as i32)),
        v.get(9).map(|e| (e.int() as i32)),
        v.get(10).map(|e| <LogicalType as Meta>::build(e)),
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        if let Some(x) = &self.type_ { f.push((1, Val::Int(x.0 as i64))); }
        if let Some(x) = &self.type_length { f.push((2, Val::Int(*x as i64))); }
        if let Some(x) = &self.repetition_type { f.push((3, Val::Int(x.0 as i64))); }
        { let x = &self.name; f.push((4, Val::Bytes(x.clone().into_bytes()))); }
        if let Some(x) = &self.num_children { f.push((5, Val::Int(*x as i64))); }
        if let Some(x) = &self.converted_type { f.push((6, Val::Int(x.0 as i64))); }
        if let Some(x) = &self.scale { f.push((7, Val::Int(*x as i64))); }
        if let Some(x) = &self.precision { f.push((8, Val::Int(*x as i64))); }
        if let Some(x) = &self.field_id { f.push((9, Val::Int(*x as i64))); }
        if let Some(x) = &self.logical_type { f.push((10, Meta::dump(x))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for DataPageHeader {
    fn build(v: &Val) -> Self { let _ = v; DataPageHeader {
        num_values: { let e = v.field(1); (e.int() as i32) },
        encoding: { let e = v.field(2); Encoding(e.int() as i32) },
        definition_level_encoding: { let e = v.field(3); Encoding(e.int() as i32) },
        repetition_level_encoding: { let e = v.field(4); Encoding(e.int() as i32) },
        statistics: v.get(5).map(|e| <Statistics as Meta>::build(e)),
    } }
    fn by_new(v: &Val) -> Self { let _ = v; DataPageHeader::new(
        { let e = v.field(1); (e.int() as i32) },
        { let e = v.field(2); Encoding(e.int() as i32) },
        { let e = v.field(3); Encoding(e.int() as i32) },
        { let e = v.field(4); Encoding(e.int() as i32) },
        v.get(5).map(|e| <Statistics as Meta>::build(e)),
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        { let x = &self.num_values; f.push((1, Val::Int(*x as i64))); }
        { let x = &self.encoding; f.push((2, Val::Int(x.0 as i64))); }
        { let x = &self.definition_level_encoding; f.push((3, Val::Int(x.0 as i64))); }
        { let x = &self.repetition_level_encoding; f.push((4, Val::Int(x.0 as i64))); }
        if let Some(x) = &self.statistics { f.push((5, Meta::dump(x))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for IndexPageHeader {
    fn build(v: &Val) -> Self { let _ = v; IndexPageHeader {
    } }
    fn by_new(v: &Val) -> Self { let _ = v; IndexPageHeader::new(
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for DictionaryPageHeader {
    fn build(v: &Val) -> Self { let _ = v; DictionaryPageHeader {
        num_values: { let e = v.field(1); (e.int() as i32) },
        encoding: { let e = v.field(2); Encoding(e.int() as i32) },
        is_sorted: v.get(3).map(|e| e.boolean()),
    } }
    fn by_new(v: &Val) -> Self { let _ = v; DictionaryPageHeader::new(
        { let e = v.field(1); (e.int() as i32) },
        { let e = v.field(2); Encoding(e.int() as i32) },
        v.get(3).map(|e| e.boolean()),
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        { let x = &self.num_values; f.push((1, Val::Int(*x as i64))); }
        { let x = &self.encoding; f.push((2, Val::Int(x.0 as i64))); }
        if let Some(x) = &self.is_sorted { f.push((3, Val::Bool(*x))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for DataPageHeaderV2 {
    fn build(v: &Val) -> Self { let _ = v; DataPageHeaderV2 {
        num_values: { let e = v.field(1); (e.int() as i32) },
        num_nulls: { let e = v.field(2); (e.int() as i32) },
        num_rows: { let e = v.field(3); (e.int() as i32) },
        encoding: { let e = v.field(4); Encoding(e.int() as i32) },
        definition_levels_byte_length: { let e = v.field(5); (e.int() as i32) },
        repetition_levels_byte_length: { let e = v.field(6); (e.int() as i32) },
        is_compressed: v.get(7).map(|e| e.boolean()),
        statistics: v.get(8).map(|e| <Statistics as Meta>::build(e)),
    } }
    fn by_new(v: &Val) -> Self { let _ = v; DataPageHeaderV2::new(
        { let e = v.field(1); (e.int() as i32) },
        { let e = v.field(2); (e.int() as i32) },
        { let e = v.field(3); (e.int() as i32) },
        { let e = v.field(4); Encoding(e.int() as i32) },
        { let e = v.field(5); (e.int() as i32) },
        { let e = v.field(6); (e.int() as i32) },
        v.get(7).map(|e| e.boolean()),
        v.get(8).map(|e| <Statistics as Meta>::build(e)),
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        { let x = &self.num_values; f.push((1, Val::Int(*x as i64))); }
        { let x = &self.num_nulls; f.push((2, Val::Int(*x as i64))); }
        { let x = &self.num_rows; f.push((3, Val::Int(*x as i64))); }
        { let x = &self.encoding; f.push((4, Val::Int(x.0 as i64))); }
        { let x = &self.definition_levels_byte_length; f.push((5, Val::Int(*x as i64))); }
        { let x = &self.repetition_levels_byte_length; f.push((6, Val::Int(*x as i64))); }
        if let Some(x) = &self.is_compressed { f.push((7, Val::Bool(*x))); }
        if let Some(x) = &self.statistics { f.push((8, Meta::dump(x))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for SplitBlockAlgorithm {
    fn build(v: &Val) -> Self { let _ = v; SplitBlockAlgorithm {
    } }
    fn by_new(v: &Val) -> Self { let _ = v; SplitBlockAlgorithm::new(
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for BloomFilterAlgorithm {
    fn build(v: &Val) -> Self { let (id, v) = v.only(); match id {
        1 => BloomFilterAlgorithm::BLOCK(<SplitBlockAlgorithm as Meta>::build(v)),
        _ => panic!("bad union alternative") } }
    fn dump(&self) -> Val { match self {
        BloomFilterAlgorithm::BLOCK(x) => Val::Struct(vec![(1, Meta::dump(x))]),
    } }
    fn by_new(v: &Val) -> Self { Self::build(v) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for XxHash {
    fn build(v: &Val) -> Self { let _ = v; XxHash {
    } }
    fn by_new(v: &Val) -> Self { let _ = v; XxHash::new(
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for BloomFilterHash {
    fn build(v: &Val) -> Self { let (id, v) = v.only(); match id {
        1 => BloomFilterHash::XXHASH(<XxHash as Meta>::build(v)),
        _ => panic!("bad union alternative") } }
    fn dump(&self) -> Val { match self {
        BloomFilterHash::XXHASH(x) => Val::Struct(vec![(1, Meta::dump(x))]),
    } }
    fn by_new(v: &Val) -> Self { Self::build(v) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for Uncompressed {
    fn build(v: &Val) -> Self { let _ = v; Uncompressed {
    } }
    fn by_new(v: &Val) -> Self { let _ = v; Uncompressed::new(
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for BloomFilterCompression {
    fn build(v: &Val) -> Self { let (id, v) = v.only(); match id {
        1 => BloomFilterCompression::UNCOMPRESSED(<Uncompressed as Meta>::build(v)),
        _ => panic!("bad union alternative") } }
    fn dump(&self) -> Val { match self {
        BloomFilterCompression::UNCOMPRESSED(x) => Val::Struct(vec![(1, Meta::dump(x))]),
    } }
    fn by_new(v: &Val) -> Self { Self::build(v) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for BloomFilterHeader {
    fn build(v: &Val) -> Self { let _ = v; BloomFilterHeader {
        num_bytes: { let e = v.field(1); (e.int() as i32) },
        algorithm: { let e = v.field(2); <BloomFilterAlgorithm as Meta>::build(e) },
        hash: { let e = v.field(3); <BloomFilterHash as Meta>::build(e) },
        compression: { let e = v.field(4); <BloomFilterCompression as Meta>::build(e) },
    } }
    fn by_new(v: &Val) -> Self { let _ = v; BloomFilterHeader::new(
        { let e = v.field(1); (e.int() as i32) },
        { let e = v.field(2); <BloomFilterAlgorithm as Meta>::build(e) },
        { let e = v.field(3); <BloomFilterHash as Meta>::build(e) },
        { let e = v.field(4); <BloomFilterCompression as Meta>::build(e) },
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        { let x = &self.num_bytes; f.push((1, Val::Int(*x as i64))); }
        { let x = &self.algorithm; f.push((2, Meta::dump(x))); }
        { let x = &self.hash; f.push((3, Meta::dump(x))); }
        { let x = &self.compression; f.push((4, Meta::dump(x))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for PageHeader {
    fn build(v: &Val) -> Self { let _ = v; PageHeader {
        type_: { let e = v.field(1); PageType(e.int() as i32) },
        uncompressed_page_size: { let e = v.field(2); (e.int() as i32) },
        compressed_page_size: { let e = v.field(3); (e.int() as i32) },
        crc: v.get(4).map(|e| (e.int() as i32)),
        data_page_header: v.get(5).map(|e| <DataPageHeader as Meta>::build(e)),
        index_page_header: v.get(6).map(|e| <IndexPageHeader as Meta>::build(e)),
        dictionary_page_header: v.get(7).map(|e| <DictionaryPageHeader as Meta>::build(e)),
        data_page_header_v2: v.get(8).map(|e| <DataPageHeaderV2 as Meta>::build(e)),
    } }
    fn by_new(v: &Val) -> Self { let _ = v; PageHeader::new(
        { let e = v.field(1); PageType(e.int() as i32) },
        { let e = v.field(2); (e.int() as i32) },
        { let e = v.field(3); (e.int() as i32) },
        v.get(4).map(|e| (e.int() as i32)),
        v.get(5).map(|e| <DataPageHeader as Meta>::build(e)),
        v.get(6).map(|e| <IndexPageHeader as Meta>::build(e)),
        v.get(7).map(|e| <DictionaryPageHeader as Meta>::build(e)),
        v.get(8).map(|e| <DataPageHeaderV2 as Meta>::build(e)),
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        { let x = &self.type_; f.push((1, Val::Int(x.0 as i64))); }
        { let x = &self.uncompressed_page_size; f.push((2, Val::Int(*x as i64))); }
        { let x = &self.compressed_page_size; f.push((3, Val::Int(*x as i64))); }
        if let Some(x) = &self.crc { f.push((4, Val::Int(*x as i64))); }
        if let Some(x) = &self.data_page_header { f.push((5, Meta::dump(x))); }
        if let Some(x) = &self.index_page_header { f.push((6, Meta::dump(x))); }
        if let Some(x) = &self.dictionary_page_header { f.push((7, Meta::dump(x))); }
        if let Some(x) = &self.data_page_header_v2 { f.push((8, Meta::dump(x))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for KeyValue {
    fn build(v: &Val) -> Self { let _ = v; KeyValue {
        key: { let e = v.field(1); e.string() },
        value: v.get(2).map(|e| e.string()),
    } }
    fn by_new(v: &Val) -> Self { let _ = v; KeyValue::new(
        { let e = v.field(1); e.string() },
        v.get(2).map(|e| e.string()),
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        { let x = &self.key; f.push((1, Val::Bytes(x.clone().into_bytes()))); }
        if let Some(x) = &self.value { f.push((2, Val::Bytes(x.clone().into_bytes()))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for SortingColumn {
    fn build(v: &Val) -> Self { let _ = v; SortingColumn {
        column_idx: { let e = v.field(1); (e.int() as i32) },
        descending: { let e = v.field(2); e.boolean() },
        nulls_first: { let e = v.field(3); e.boolean() },
    } }
    fn by_new(v: &Val) -> Self { let _ = v; SortingColumn::new(
        { let e = v.field(1); (e.int() as i32) },
        { let e = v.field(2); e.boolean() },
        { let e = v.field(3); e.boolean() },
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        { let x = &self.column_idx; f.push((1, Val::Int(*x as i64))); }
        { let x = &self.descending; f.push((2, Val::Bool(*x))); }
        { let x = &self.nulls_first; f.push((3, Val::Bool(*x))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for PageEncodingStats {
    fn build(v: &Val) -> Self { let _ = v; PageEncodingStats {
        page_type: { let e = v.field(1); PageType(e.int() as i32) },
        encoding: { let e = v.field(2); Encoding(e.int() as i32) },
        count: { let e = v.field(3); (e.int() as i32) },
    } }
    fn by_new(v: &Val) -> Self { let _ = v; PageEncodingStats::new(
        { let e = v.field(1); PageType(e.int() as i32) },
        { let e = v.field(2); Encoding(e.int() as i32) },
        { let e = v.field(3); (e.int() as i32) },
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        { let x = &self.page_type; f.push((1, Val::Int(x.0 as i64))); }
        { let x = &self.encoding; f.push((2, Val::Int(x.0 as i64))); }
        { let x = &self.count; f.push((3, Val::Int(*x as i64))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for ColumnMetaData {
    fn build(v: &Val) -> Self { let _ = v; ColumnMetaData {
        type_: { let e = v.field(1); Type(e.int() as i32) },
        encodings: { let e = v.field(2); e.list().iter().map(|e| Encoding(e.int() as i32)).collect::<Vec<_>>() },
        path_in_schema: { let e = v.field(3); e.list().iter().map(|e| e.string()).collect::<Vec<_>>() },
        codec: { let e = v.field(4); CompressionCodec(e.int() as i32) },
        num_values: { let e = v.field(5); e.int() },
        total_uncompressed_size: { let e = v.field(6); e.int() },
        total_compressed_size: { let e = v.field(7); e.int() },
        key_value_metadata: v.get(8).map(|e| e.list().iter().map(|e| <KeyValue as Meta>::build(e)).collect::<Vec<_>>()),
        data_page_offset: { let e = v.field(9); e.int() },
        index_page_offset: v.get(10).map(|e| e.int()),
        dictionary_page_offset: v.get(11).map(|e| e.int()),
        statistics: v.get(12).map(|e| <Statistics as Meta>::build(e)),
        encoding_stats: v.get(13).map(|e| e.list().iter().map(|e| <PageEncodingStats as Meta>::build(e)).collect::<Vec<_>>()),
        bloom_filter_offset: v.get(14).map(|e| e.int()),
    } }
    fn by_new(v: &Val) -> Self { let _ = v; ColumnMetaData::new(
        { let e = v.field(1); Type(e.int() as i32) },
        { let e = v.field(2); e.list().iter().map(|e| Encoding(e.int() as i32)).collect::<Vec<_>>() },
        { let e = v.field(3); e.list().iter().map(|e| e.string()).collect::<Vec<_>>() },
        { let e = v.field(4); CompressionCodec(e.int() as i32) },
        { let e = v.field(5); e.int() },
        { let e = v.field(6); e.int() },
        { let e = v.field(7); e.int() },
        v.get(8).map(|e| e.list().iter().map(|e| <KeyValue as Meta>::build(e)).collect::<Vec<_>>()),
        { let e = v.field(9); e.int() },
        v.get(10).map(|e| e.int()),
        v.get(11).map(|e| e.int()),
        v.get(12).map(|e| <Statistics as Meta>::build(e)),
        v.get(13).map(|e| e.list().iter().map(|e| <PageEncodingStats as Meta>::build(e)).collect::<Vec<_>>()),
        v.get(14).map(|e| e.int()),
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        { let x = &self.type_; f.push((1, Val::Int(x.0 as i64))); }
        { let x = &self.encodings; f.push((2, Val::List(x.iter().map(|e| Val::Int(e.0 as i64)).collect()))); }
        { let x = &self.path_in_schema; f.push((3, Val::List(x.iter().map(|e| Val::Bytes(e.clone().into_bytes())).collect()))); }
        { let x = &self.codec; f.push((4, Val::Int(x.0 as i64))); }
        { let x = &self.num_values; f.push((5, Val::Int(*x))); }
        { let x = &self.total_uncompressed_size; f.push((6, Val::Int(*x))); }
        { let x = &self.total_compressed_size; f.push((7, Val::Int(*x))); }
        if let Some(x) = &self.key_value_metadata { f.push((8, Val::List(x.iter().map(|e| Meta::dump(e)).collect()))); }
        { let x = &self.data_page_offset; f.push((9, Val::Int(*x))); }
        if let Some(x) = &self.index_page_offset { f.push((10, Val::Int(*x))); }
        if let Some(x) = &self.dictionary_page_offset { f.push((11, Val::Int(*x))); }
        if let Some(x) = &self.statistics { f.push((12, Meta::dump(x))); }
        if let Some(x) = &self.encoding_stats { f.push((13, Val::List(x.iter().map(|e| Meta::dump(e)).collect()))); }
        if let Some(x) = &self.bloom_filter_offset { f.push((14, Val::Int(*x))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for EncryptionWithFooterKey {
    fn build(v: &Val) -> Self { let _ = v; EncryptionWithFooterKey {
    } }
    fn by_new(v: &Val) -> Self { let _ = v; EncryptionWithFooterKey::new(
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for EncryptionWithColumnKey {
    fn build(v: &Val) -> Self { let _ = v; EncryptionWithColumnKey {
        path_in_schema: { let e = v.field(1); e.list().iter().map(|e| e.string()).collect::<Vec<_>>() },
        key_metadata: v.get(2).map(|e| e.bytes()),
    } }
    fn by_new(v: &Val) -> Self { let _ = v; EncryptionWithColumnKey::new(
        { let e = v.field(1); e.list().iter().map(|e| e.string()).collect::<Vec<_>>() },
        v.get(2).map(|e| e.bytes()),
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        { let x = &self.path_in_schema; f.push((1, Val::List(x.iter().map(|e| Val::Bytes(e.clone().into_bytes())).collect()))); }
        if let Some(x) = &self.key_metadata { f.push((2, Val::Bytes(x.clone()))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for ColumnCryptoMetaData {
    fn build(v: &Val) -> Self { let (id, v) = v.only(); match id {
        1 => ColumnCryptoMetaData::ENCRYPTIONWITHFOOTERKEY(<EncryptionWithFooterKey as Meta>::build(v)),
        2 => ColumnCryptoMetaData::ENCRYPTIONWITHCOLUMNKEY(<EncryptionWithColumnKey as Meta>::build(v)),
        _ => panic!("bad union alternative") } }
    fn dump(&self) -> Val { match self {
        ColumnCryptoMetaData::ENCRYPTIONWITHFOOTERKEY(x) => Val::Struct(vec![(1, Meta::dump(x))]),
        ColumnCryptoMetaData::ENCRYPTIONWITHCOLUMNKEY(x) => Val::Struct(vec![(2, Meta::dump(x))]),
    } }
    fn by_new(v: &Val) -> Self { Self::build(v) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for ColumnChunk {
    fn build(v: &Val) -> Self { let _ = v; ColumnChunk {
        file_path: v.get(1).map(|e| e.string()),
        file_offset: { let e = v.field(2); e.int() },
        meta_data: v.get(3).map(|e| <ColumnMetaData as Meta>::build(e)),
        offset_index_offset: v.get(4).map(|e| e.int()),
        offset_index_length: v.get(5).map(|e| (e.int() as i32)),
        column_index_offset: v.get(6).map(|e| e.int()),
        column_index_length: v.get(7).map(|e| (e.int() as i32)),
        crypto_metadata: v.get(8).map(|e| <ColumnCryptoMetaData as Meta>::build(e)),
        encrypted_column_metadata: v.get(9).map(|e| e.bytes()),
    } }
    fn by_new(v: &Val) -> Self { let _ = v; ColumnChunk::new(
        v.get(1).map(|e| e.string()),
        { let e = v.field(2); e.int() },
        v.get(3).map(|e| <ColumnMetaData as Meta>::build(e)),
        v.get(4).map(|e| e.int()),
        v.get(5).map(|e| (e.int() as i32)),
        v.get(6).map(|e| e.int()),
        v.get(7).map(|e| (e.int() as i32)),
        v.get(8).map(|e| <ColumnCryptoMetaData as Meta>::build(e)),
        v.get(9).map(|e| e.bytes()),
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        if let Some(x) = &self.file_path { f.push((1, Val::Bytes(x.clone().into_bytes()))); }
        { let x = &self.file_offset; f.push((2, Val::Int(*x))); }
        if let Some(x) = &self.meta_data { f.push((3, Meta::dump(x))); }
        if let Some(x) = &self.offset_index_offset { f.push((4, Val::Int(*x))); }
        if let Some(x) = &self.offset_index_length { f.push((5, Val::Int(*x as i64))); }
        if let Some(x) = &self.column_index_offset { f.push((6, Val::Int(*x))); }
        if let Some(x) = &self.column_index_length { f.push((7, Val::Int(*x as i64))); }
        if let Some(x) = &self.crypto_metadata { f.push((8, Meta::dump(x))); }
        if let Some(x) = &self.encrypted_column_metadata { f.push((9, Val::Bytes(x.clone()))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for RowGroup {
    fn build(v: &Val) -> Self { let _ = v; RowGroup {
        columns: { let e = v.field(1); e.list().iter().map(|e| <ColumnChunk as Meta>::build(e)).collect::<Vec<_>>() },
        total_byte_size: { let e = v.field(2); e.int() },
        num_rows: { let e = v.field(3); e.int() },
        sorting_columns: v.get(4).map(|e| e.list().iter().map(|e| <SortingColumn as Meta>::build(e)).collect::<Vec<_>>()),
        file_offset: v.get(5).map(|e| e.int()),
        total_compressed_size: v.get(6).map(|e| e.int()),
        ordinal: v.get(7).map(|e| (e.int() as i16)),
    } }
    fn by_new(v: &Val) -> Self { let _ = v; RowGroup::new(
        { let e = v.field(1); e.list().iter().map(|e| <ColumnChunk as Meta>::build(e)).collect::<Vec<_>>() },
        { let e = v.field(2); e.int() },
        { let e = v.field(3); e.int() },
        v.get(4).map(|e| e.list().iter().map(|e| <SortingColumn as Meta>::build(e)).collect::<Vec<_>>()),
        v.get(5).map(|e| e.int()),
        v.get(6).map(|e| e.int()),
        v.get(7).map(|e| (e.int() as i16)),
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        { let x = &self.columns; f.push((1, Val::List(x.iter().map(|e| Meta::dump(e)).collect()))); }
        { let x = &self.total_byte_size; f.push((2, Val::Int(*x))); }
        { let x = &self.num_rows; f.push((3, Val::Int(*x))); }
        if let Some(x) = &self.sorting_columns { f.push((4, Val::List(x.iter().map(|e| Meta::dump(e)).collect()))); }
        if let Some(x) = &self.file_offset { f.push((5, Val::Int(*x))); }
        if let Some(x) = &self.total_compressed_size { f.push((6, Val::Int(*x))); }
        if let Some(x) = &self.ordinal { f.push((7, Val::Int(*x as i64))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for TypeDefinedOrder {
    fn build(v: &Val) -> Self { let _ = v; TypeDefinedOrder {
    } }
    fn by_new(v: &Val) -> Self { let _ = v; TypeDefinedOrder::new(
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for ColumnOrder {
    fn build(v: &Val) -> Self { let (id, v) = v.only(); match id {
        1 => ColumnOrder::TYPEORDER(<TypeDefinedOrder as Meta>::build(v)),
        _ => panic!("bad union alternative") } }
    fn dump(&self) -> Val { match self {
        ColumnOrder::TYPEORDER(x) => Val::Struct(vec![(1, Meta::dump(x))]),
    } }
    fn by_new(v: &Val) -> Self { Self::build(v) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for PageLocation {
    fn build(v: &Val) -> Self { let _ = v; PageLocation {
        offset: { let e = v.field(1); e.int() },
        compressed_page_size: { let e = v.field(2); (e.int() as i32) },
        first_row_index: { let e = v.field(3); e.int() },
    } }
    fn by_new(v: &Val) -> Self { let _ = v; PageLocation::new(
        { let e = v.field(1); e.int() },
        { let e = v.field(2); (e.int() as i32) },
        { let e = v.field(3); e.int() },
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        { let x = &self.offset; f.push((1, Val::Int(*x))); }
        { let x = &self.compressed_page_size; f.push((2, Val::Int(*x as i64))); }
        { let x = &self.first_row_index; f.push((3, Val::Int(*x))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for OffsetIndex {
    fn build(v: &Val) -> Self { let _ = v; OffsetIndex {
        page_locations: { let e = v.field(1); e.list().iter().map(|e| <PageLocation as Meta>::build(e)).collect::<Vec<_>>() },
    } }
    fn by_new(v: &Val) -> Self { let _ = v; OffsetIndex::new(
        { let e = v.field(1); e.list().iter().map(|e| <PageLocation as Meta>::build(e)).collect::<Vec<_>>() },
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        { let x = &self.page_locations; f.push((1, Val::List(x.iter().map(|e| Meta::dump(e)).collect()))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for ColumnIndex {
    fn build(v: &Val) -> Self { let _ = v; ColumnIndex {
        null_pages: { let e = v.field(1); e.list().iter().map(|e| e.boolean()).collect::<Vec<_>>() },
        min_values: { let e = v.field(2); e.list().iter().map(|e| e.bytes()).collect::<Vec<_>>() },
        max_values: { let e = v.field(3); e.list().iter().map(|e| e.bytes()).collect::<Vec<_>>() },
        boundary_order: { let e = v.field(4); BoundaryOrder(e.int() as i32) },
        null_counts: v.get(5).map(|e| e.list().iter().map(|e| e.int()).collect::<Vec<_>>()),
    } }
    fn by_new(v: &Val) -> Self { let _ = v; ColumnIndex::new(
        { let e = v.field(1); e.list().iter().map(|e| e.boolean()).collect::<Vec<_>>() },
        { let e = v.field(2); e.list().iter().map(|e| e.bytes()).collect::<Vec<_>>() },
        { let e = v.field(3); e.list().iter().map(|e| e.bytes()).collect::<Vec<_>>() },
        { let e = v.field(4); BoundaryOrder(e.int() as i32) },
        v.get(5).map(|e| e.list().iter().map(|e| e.int()).collect::<Vec<_>>()),
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        { let x = &self.null_pages; f.push((1, Val::List(x.iter().map(|e| Val::Bool(*e)).collect()))); }
        { let x = &self.min_values; f.push((2, Val::List(x.iter().map(|e| Val::Bytes(e.clone())).collect()))); }
        { let x = &self.max_values; f.push((3, Val::List(x.iter().map(|e| Val::Bytes(e.clone())).collect()))); }
        { let x = &self.boundary_order; f.push((4, Val::Int(x.0 as i64))); }
        if let Some(x) = &self.null_counts { f.push((5, Val::List(x.iter().map(|e| Val::Int(*e)).collect()))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for AesGcmV1 {
    fn build(v: &Val) -> Self { let _ = v; AesGcmV1 {
        aad_prefix: v.get(1).map(|e| e.bytes()),
        aad_file_unique: v.get(2).map(|e| e.bytes()),
        supply_aad_prefix: v.get(3).map(|e| e.boolean()),
    } }
    fn by_new(v: &Val) -> Self { let _ = v; AesGcmV1::new(
        v.get(1).map(|e| e.bytes()),
        v.get(2).map(|e| e.bytes()),
        v.get(3).map(|e| e.boolean()),
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        if let Some(x) = &self.aad_prefix { f.push((1, Val::Bytes(x.clone()))); }
        if let Some(x) = &self.aad_file_unique { f.push((2, Val::Bytes(x.clone()))); }
        if let Some(x) = &self.supply_aad_prefix { f.push((3, Val::Bool(*x))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for AesGcmCtrV1 {
    fn build(v: &Val) -> Self { let _ = v; AesGcmCtrV1 {
        aad_prefix: v.get(1).map(|e| e.bytes()),
        aad_file_unique: v.get(2).map(|e| e.bytes()),
        supply_aad_prefix: v.get(3).map(|e| e.boolean()),
    } }
    fn by_new(v: &Val) -> Self { let _ = v; AesGcmCtrV1::new(
        v.get(1).map(|e| e.bytes()),
        v.get(2).map(|e| e.bytes()),
        v.get(3).map(|e| e.boolean()),
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        if let Some(x) = &self.aad_prefix { f.push((1, Val::Bytes(x.clone()))); }
        if let Some(x) = &self.aad_file_unique { f.push((2, Val::Bytes(x.clone()))); }
        if let Some(x) = &self.supply_aad_prefix { f.push((3, Val::Bool(*x))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for EncryptionAlgorithm {
    fn build(v: &Val) -> Self { let (id, v) = v.only(); match id {
        1 => EncryptionAlgorithm::AESGCMV1(<AesGcmV1 as Meta>::build(v)),
        2 => EncryptionAlgorithm::AESGCMCTRV1(<AesGcmCtrV1 as Meta>::build(v)),
        _ => panic!("bad union alternative") } }
    fn dump(&self) -> Val { match self {
        EncryptionAlgorithm::AESGCMV1(x) => Val::Struct(vec![(1, Meta::dump(x))]),
        EncryptionAlgorithm::AESGCMCTRV1(x) => Val::Struct(vec![(2, Meta::dump(x))]),
    } }
    fn by_new(v: &Val) -> Self { Self::build(v) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for FileMetaData {
    fn build(v: &Val) -> Self { let _ = v; FileMetaData {
        version: { let e = v.field(1); (e.int() as i32) },
        schema: { let e = v.field(2); e.list().iter().map(|e| <SchemaElement as Meta>::build(e)).collect::<Vec<_>>() },
        num_rows: { let e = v.field(3); e.int() },
        row_groups: { let e = v.field(4); e.list().iter().map(|e| <RowGroup as Meta>::build(e)).collect::<Vec<_>>() },
        key_value_metadata: v.get(5).map(|e| e.list().iter().map(|e| <KeyValue as Meta>::build(e)).collect::<Vec<_>>()),
        created_by: v.get(6).map(|e| e.string()),
        column_orders: v.get(7).map(|e| e.list().iter().map(|e| <ColumnOrder as Meta>::build(e)).collect::<Vec<_>>()),
        encryption_algorithm: v.get(8).map(|e| <EncryptionAlgorithm as Meta>::build(e)),
        footer_signing_key_metadata: v.get(9).map(|e| e.bytes()),
    } }
    fn by_new(v: &Val) -> Self { let _ = v; FileMetaData::new(
        { let e = v.field(1); (e.int() as i32) },
        { let e = v.field(2); e.list().iter().map(|e| <SchemaElement as Meta>::build(e)).collect::<Vec<_>>() },
        { let e = v.field(3); e.int() },
        { let e = v.field(4); e.list().iter().map(|e| <RowGroup as Meta>::build(e)).collect::<Vec<_>>() },
        v.get(5).map(|e| e.list().iter().map(|e| <KeyValue as Meta>::build(e)).collect::<Vec<_>>()),
        v.get(6).map(|e| e.string()),
        v.get(7).map(|e| e.list().iter().map(|e| <ColumnOrder as Meta>::build(e)).collect::<Vec<_>>()),
        v.get(8).map(|e| <EncryptionAlgorithm as Meta>::build(e)),
        v.get(9).map(|e| e.bytes()),
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        { let x = &self.version; f.push((1, Val::Int(*x as i64))); }
        { let x = &self.schema; f.push((2, Val::List(x.iter().map(|e| Meta::dump(e)).collect()))); }
        { let x = &self.num_rows; f.push((3, Val::Int(*x))); }
        { let x = &self.row_groups; f.push((4, Val::List(x.iter().map(|e| Meta::dump(e)).collect()))); }
        if let Some(x) = &self.key_value_metadata { f.push((5, Val::List(x.iter().map(|e| Meta::dump(e)).collect()))); }
        if let Some(x) = &self.created_by { f.push((6, Val::Bytes(x.clone().into_bytes()))); }
        if let Some(x) = &self.column_orders { f.push((7, Val::List(x.iter().map(|e| Meta::dump(e)).collect()))); }
        if let Some(x) = &self.encryption_algorithm { f.push((8, Meta::dump(x))); }
        if let Some(x) = &self.footer_signing_key_metadata { f.push((9, Val::Bytes(x.clone()))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for FileCryptoMetaData {
    fn build(v: &Val) -> Self { let _ = v; FileCryptoMetaData {
        encryption_algorithm: { let e = v.field(1); <EncryptionAlgorithm as Meta>::build(e) },
        key_metadata: v.get(2).map(|e| e.bytes()),
    } }
    fn by_new(v: &Val) -> Self { let _ = v; FileCryptoMetaData::new(
        { let e = v.field(1); <EncryptionAlgorithm as Meta>::build(e) },
        v.get(2).map(|e| e.bytes()),
    ) }
    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];
        { let x = &self.encryption_algorithm; f.push((1, Meta::dump(x))); }
        if let Some(x) = &self.key_metadata { f.push((2, Val::Bytes(x.clone()))); }
        Val::Struct(f) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) } }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await } }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for Type {
    fn build(v: &Val) -> Self { Type(v.int() as i32) }
    fn by_new(v: &Val) -> Self { Type::from(v.int() as i32) }
    fn dump(&self) -> Val { Val::Int(self.0 as i64) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { let _ = inherent; <Self as ReadThrift>::read_from_in_protocol(p) }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { let _ = inherent; <Self as AsyncReadThrift>::stream_from_in_protocol(p).await }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for ConvertedType {
    fn build(v: &Val) -> Self { ConvertedType(v.int() as i32) }
    fn by_new(v: &Val) -> Self { ConvertedType::from(v.int() as i32) }
    fn dump(&self) -> Val { Val::Int(self.0 as i64) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { let _ = inherent; <Self as ReadThrift>::read_from_in_protocol(p) }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { let _ = inherent; <Self as AsyncReadThrift>::stream_from_in_protocol(p).await }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for FieldRepetitionType {
    fn build(v: &Val) -> Self { FieldRepetitionType(v.int() as i32) }
    fn by_new(v: &Val) -> Self { FieldRepetitionType::from(v.int() as i32) }
    fn dump(&self) -> Val { Val::Int(self.0 as i64) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { let _ = inherent; <Self as ReadThrift>::read_from_in_protocol(p) }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { let _ = inherent; <Self as AsyncReadThrift>::stream_from_in_protocol(p).await }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for Encoding {
    fn build(v: &Val) -> Self { Encoding(v.int() as i32) }
    fn by_new(v: &Val) -> Self { Encoding::from(v.int() as i32) }
    fn dump(&self) -> Val { Val::Int(self.0 as i64) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { let _ = inherent; <Self as ReadThrift>::read_from_in_protocol(p) }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { let _ = inherent; <Self as AsyncReadThrift>::stream_from_in_protocol(p).await }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for CompressionCodec {
    fn build(v: &Val) -> Self { CompressionCodec(v.int() as i32) }
    fn by_new(v: &Val) -> Self { CompressionCodec::from(v.int() as i32) }
    fn dump(&self) -> Val { Val::Int(self.0 as i64) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { let _ = inherent; <Self as ReadThrift>::read_from_in_protocol(p) }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { let _ = inherent; <Self as AsyncReadThrift>::stream_from_in_protocol(p).await }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for PageType {
    fn build(v: &Val) -> Self { PageType(v.int() as i32) }
    fn by_new(v: &Val) -> Self { PageType::from(v.int() as i32) }
    fn dump(&self) -> Val { Val::Int(self.0 as i64) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { let _ = inherent; <Self as ReadThrift>::read_from_in_protocol(p) }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { let _ = inherent; <Self as AsyncReadThrift>::stream_from_in_protocol(p).await }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
impl Meta for BoundaryOrder {
    fn build(v: &Val) -> Self { BoundaryOrder(v.int() as i32) }
    fn by_new(v: &Val) -> Self { BoundaryOrder::from(v.int() as i32) }
    fn dump(&self) -> Val { Val::Int(self.0 as i64) }
    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { let _ = inherent; <Self as ReadThrift>::read_from_in_protocol(p) }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { let _ = inherent; <Self as AsyncReadThrift>::stream_from_in_protocol(p).await }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }
}
#[macro_export]
macro_rules! dispatch { ($ty:expr, $X:ident => $body:expr) => { match $ty {
    100 => { type $X = parquet_format_safe::Statistics; $body }
    101 => { type $X = parquet_format_safe::StringType; $body }
    102 => { type $X = parquet_format_safe::UUIDType; $body }
    103 => { type $X = parquet_format_safe::MapType; $body }
    104 => { type $X = parquet_format_safe::ListType; $body }
    105 => { type $X = parquet_format_safe::EnumType; $body }
    106 => { type $X = parquet_format_safe::DateType; $body }
    107 => { type $X = parquet_format_safe::NullType; $body }
    108 => { type $X = parquet_format_safe::DecimalType; $body }
    109 => { type $X = parquet_format_safe::MilliSeconds; $body }
    110 => { type $X = parquet_format_safe::MicroSeconds; $body }
    111 => { type $X = parquet_format_safe::NanoSeconds; $body }
    112 => { type $X = parquet_format_safe::TimeUnit; $body }
    113 => { type $X = parquet_format_safe::TimestampType; $body }
    114 => { type $X = parquet_format_safe::TimeType; $body }
    115 => { type $X = parquet_format_safe::IntType; $body }
    116 => { type $X = parquet_format_safe::JsonType; $body }
    117 => { type $X = parquet_format_safe::BsonType; $body }
    118 => { type $X = parquet_format_safe::LogicalType; $body }
    119 => { type $X = parquet_format_safe::SchemaElement; $body }
    120 => { type $X = parquet_format_safe::DataPageHeader; $body }
    121 => { type $X = parquet_format_safe::IndexPageHeader; $body }
    122 => { type $X = parquet_format_safe::DictionaryPageHeader; $body }
    123 => { type $X = parquet_format_safe::DataPageHeaderV2; $body }
    124 => { type $X = parquet_format_safe::SplitBlockAlgorithm; $body }
    125 => { type $X = parquet_format_safe::BloomFilterAlgorithm; $body }
    126 => { type $X = parquet_format_safe::XxHash; $body }
    127 => { type $X = parquet_format_safe::BloomFilterHash; $body }
    128 => { type $X = parquet_format_safe::Uncompressed; $body }
    129 => { type $X = parquet_format_safe::BloomFilterCompression; $body }
    130 => { type $X = parquet_format_safe::BloomFilterHeader; $body }
    131 => { type $X = parquet_format_safe::PageHeader; $body }
    132 => { type $X = parquet_format_safe::KeyValue; $body }
    133 => { type $X = parquet_format_safe::SortingColumn; $body }
    134 => { type $X = parquet_format_safe::PageEncodingStats; $body }
    135 => { type $X = parquet_format_safe::ColumnMetaData; $body }
    136 => { type $X = parquet_format_safe::EncryptionWithFooterKey; $body }
    137 => { type $X = parquet_format_safe::EncryptionWithColumnKey; $body }
    138 => { type $X = parquet_format_safe::ColumnCryptoMetaData; $body }
    139 => { type $X = parquet_format_safe::ColumnChunk; $body }
    140 => { type $X = parquet_format_safe::RowGroup; $body }
    141 => { type $X = parquet_format_safe::TypeDefinedOrder; $body }
    142 => { type $X = parquet_format_safe::ColumnOrder; $body }
    143 => { type $X = parquet_format_safe::PageLocation; $body }
    144 => { type $X = parquet_format_safe::OffsetIndex; $body }
    145 => { type $X = parquet_format_safe::ColumnIndex; $body }
    146 => { type $X = parquet_format_safe::AesGcmV1; $body }
    147 => { type $X = parquet_format_safe::AesGcmCtrV1; $body }
    148 => { type $X = parquet_format_safe::EncryptionAlgorithm; $body }
    149 => { type $X = parquet_format_safe::FileMetaData; $body }
    150 => { type $X = parquet_format_safe::FileCryptoMetaData; $body }
    200 => { type $X = parquet_format_safe::Type; $body }
    201 => { type $X = parquet_format_safe::ConvertedType; $body }
    202 => { type $X = parquet_format_safe::FieldRepetitionType; $body }
    203 => { type $X = parquet_format_safe::Encoding; $body }
    204 => { type $X = parquet_format_safe::CompressionCodec; $body }
    205 => { type $X = parquet_format_safe::PageType; $body }
    206 => { type $X = parquet_format_safe::BoundaryOrder; $body }
    t => panic!("bad type index {}", t) } } }
pub const NAMES: &[(i64, &str)] = &[(100, "Statistics"), (101, "StringType"), (102, "UUIDType"), (103, "MapType"), (104, "ListType"), (105, "EnumType"), (106, "DateType"), (107, "NullType"), (108, "DecimalType"), (109, "MilliSeconds"), (110, "MicroSeconds"), (111, "NanoSeconds"), (112, "TimeUnit"), (113, "TimestampType"), (114, "TimeType"), (115, "IntType"), (116, "JsonType"), (117, "BsonType"), (118, "LogicalType"), (119, "SchemaElement"), (120, "DataPageHeader"), (121, "IndexPageHeader"), (122, "DictionaryPageHeader"), (123, "DataPageHeaderV2"), (124, "SplitBlockAlgorithm"), (125, "BloomFilterAlgorithm"), (126, "XxHash"), (127, "BloomFilterHash"), (128, "Uncompressed"), (129, "BloomFilterCompression"), (130, "BloomFilterHeader"), (131, "PageHeader"), (132, "KeyValue"), (133, "SortingColumn"), (134, "PageEncodingStats"), (135, "ColumnMetaData"), (136, "EncryptionWithFooterKey"), (137, "EncryptionWithColumnKey"), (138, "ColumnCryptoMetaData"), (139, "ColumnChunk"), (140, "RowGroup"), (141, "TypeDefinedOrder"), (142, "ColumnOrder"), (143, "PageLocation"), (144, "OffsetIndex"), (145, "ColumnIndex"), (146, "AesGcmV1"), (147, "AesGcmCtrV1"), (148, "EncryptionAlgorithm"), (149, "FileMetaData"), (150, "FileCryptoMetaData"), (200, "Type"), (201, "ConvertedType"), (202, "FieldRepetitionType"), (203, "Encoding"), (204, "CompressionCodec"), (205, "PageType"), (206, "BoundaryOrder")];
/// (enum index, constants as (name, constant read through the crate), ENUM_VALUES, conversions of i)
pub fn enum_consts(ty: i64) -> (Vec<(&'static str, i32)>, Vec<i32>) { match ty {
    200 => (vec![("BOOLEAN", Type::BOOLEAN.0), ("INT32", Type::INT32.0), ("INT64", Type::INT64.0), ("INT96", Type::INT96.0), ("FLOAT", Type::FLOAT.0), ("DOUBLE", Type::DOUBLE.0), ("BYTE_ARRAY", Type::BYTE_ARRAY.0), ("FIXED_LEN_BYTE_ARRAY", Type::FIXED_LEN_BYTE_ARRAY.0)], Type::ENUM_VALUES.iter().map(|e| e.0).collect()),
    201 => (vec![("UTF8", ConvertedType::UTF8.0), ("MAP", ConvertedType::MAP.0), ("MAP_KEY_VALUE", ConvertedType::MAP_KEY_VALUE.0), ("LIST", ConvertedType::LIST.0), ("ENUM", ConvertedType::ENUM.0), ("DECIMAL", ConvertedType::DECIMAL.0), ("DATE", ConvertedType::DATE.0), ("TIME_MILLIS", ConvertedType::TIME_MILLIS.0), ("TIME_MICROS", ConvertedType::TIME_MICROS.0), ("TIMESTAMP_MILLIS", ConvertedType::TIMESTAMP_MILLIS.0), ("TIMESTAMP_MICROS", ConvertedType::TIMESTAMP_MICROS.0), ("UINT_8", ConvertedType::UINT_8.0), ("UINT_16", ConvertedType::UINT_16.0), ("UINT_32", ConvertedType::UINT_32.0), ("UINT_64", ConvertedType::UINT_64.0), ("INT_8", ConvertedType::INT_8.0), ("INT_16", ConvertedType::INT_16.0), ("INT_32", ConvertedType::INT_32.0), ("INT_64", ConvertedType::INT_64.0), ("JSON", ConvertedType::JSON.0), ("BSON", ConvertedType::BSON.0), ("INTERVAL", ConvertedType::INTERVAL.0)], ConvertedType::ENUM_VALUES.iter().map(|e| e.0).collect()),
    202 => (vec![("REQUIRED", FieldRepetitionType::REQUIRED.0), ("OPTIONAL", FieldRepetitionType::OPTIONAL.0), ("REPEATED", FieldRepetitionType::REPEATED.0)], FieldRepetitionType::ENUM_VALUES.iter().map(|e| e.0).collect()),
    203 => (vec![("PLAIN", Encoding::PLAIN.0), ("PLAIN_DICTIONARY", Encoding::PLAIN_DICTIONARY.0), ("RLE", Encoding::RLE.0), ("BIT_PACKED", Encoding::BIT_PACKED.0), ("DELTA_BINARY_PACKED", Encoding::DELTA_BINARY_PACKED.0), ("DELTA_LENGTH_BYTE_ARRAY", Encoding::DELTA_LENGTH_BYTE_ARRAY.0), ("DELTA_BYTE_ARRAY", Encoding::DELTA_BYTE_ARRAY.0), ("RLE_DICTIONARY", Encoding::RLE_DICTIONARY.0), ("BYTE_STREAM_SPLIT", Encoding::BYTE_STREAM_SPLIT.0)], Encoding::ENUM_VALUES.iter().map(|e| e.0).collect()),
    204 => (vec![("UNCOMPRESSED", CompressionCodec::UNCOMPRESSED.0), ("SNAPPY", CompressionCodec::SNAPPY.0), ("GZIP", CompressionCodec::GZIP.0), ("LZO", CompressionCodec::LZO.0), ("BROTLI", CompressionCodec::BROTLI.0), ("LZ4", CompressionCodec::LZ4.0), ("ZSTD", CompressionCodec::ZSTD.0), ("LZ4_RAW", CompressionCodec::LZ4_RAW.0)], CompressionCodec::ENUM_VALUES.iter().map(|e| e.0).collect()),
    205 => (vec![("DATA_PAGE", PageType::DATA_PAGE.0), ("INDEX_PAGE", PageType::INDEX_PAGE.0), ("DICTIONARY_PAGE", PageType::DICTIONARY_PAGE.0), ("DATA_PAGE_V2", PageType::DATA_PAGE_V2.0)], PageType::ENUM_VALUES.iter().map(|e| e.0).collect()),
    206 => (vec![("UNORDERED", BoundaryOrder::UNORDERED.0), ("ASCENDING", BoundaryOrder::ASCENDING.0), ("DESCENDING", BoundaryOrder::DESCENDING.0)], BoundaryOrder::ENUM_VALUES.iter().map(|e| e.0).collect()),
    _ => panic!("bad enum index") } }
pub fn enum_convs(ty: i64, i: i32) -> Vec<i32> { match ty {
    200 => vec![Type::from(i).0, Type::from(&i).0, i32::from(Type(i)), i32::from(&Type(i)), i32::from(Type::from(i))],
    201 => vec![ConvertedType::from(i).0, ConvertedType::from(&i).0, i32::from(ConvertedType(i)), i32::from(&ConvertedType(i)), i32::from(ConvertedType::from(i))],
    202 => vec![FieldRepetitionType::from(i).0, FieldRepetitionType::from(&i).0, i32::from(FieldRepetitionType(i)), i32::from(&FieldRepetitionType(i)), i32::from(FieldRepetitionType::from(i))],
    203 => vec![Encoding::from(i).0, Encoding::from(&i).0, i32::from(Encoding(i)), i32::from(&Encoding(i)), i32::from(Encoding::from(i))],
    204 => vec![CompressionCodec::from(i).0, CompressionCodec::from(&i).0, i32::from(CompressionCodec(i)), i32::from(&CompressionCodec(i)), i32::from(CompressionCodec::from(i))],
    205 => vec![PageType::from(i).0, PageType::from(&i).0, i32::from(PageType(i)), i32::from(&PageType(i)), i32::from(PageType::from(i))],
    206 => vec![BoundaryOrder::from(i).0, BoundaryOrder::from(&i).0, i32::from(BoundaryOrder(i)), i32::from(&BoundaryOrder(i)), i32::from(BoundaryOrder::from(i))],
    _ => panic!("bad enum index") } }
/// Schema rows for the random value generator: (id, type code, required)
pub fn fields(ty: i64) -> &'static [(i16, i64, bool)] { match ty {
    100 => &[(1, 8, false), (2, 8, false), (3, 6, false), (4, 6, false), (5, 8, false), (6, 8, false)],
    101 => &[],
    102 => &[],
    103 => &[],
    104 => &[],
    105 => &[],
    106 => &[],
    107 => &[],
    108 => &[(1, 5, true), (2, 5, true)],
    109 => &[],
    110 => &[],
    111 => &[],
    112 => &[(1, 109, false), (2, 110, false), (3, 111, false)],
    113 => &[(1, 1, true), (2, 112, true)],
    114 => &[(1, 1, true), (2, 112, true)],
    115 => &[(1, 3, true), (2, 1, true)],
    116 => &[],
    117 => &[],
    118 => &[(1, 101, false), (2, 103, false), (3, 104, false), (4, 105, false), (5, 108, false), (6, 106, false), (7, 114, false), (8, 113, false), (10, 115, false), (11, 107, false), (12, 116, false), (13, 117, false), (14, 102, false)],
    119 => &[(1, 200, false), (2, 5, false), (3, 202, false), (4, 9, true), (5, 5, false), (6, 201, false), (7, 5, false), (8, 5, false), (9, 5, false), (10, 118, false)],
    120 => &[(1, 5, true), (2, 203, true), (3, 203, true), (4, 203, true), (5, 100, false)],
    121 => &[],
    122 => &[(1, 5, true), (2, 203, true), (3, 1, false)],
    123 => &[(1, 5, true), (2, 5, true), (3, 5, true), (4, 203, true), (5, 5, true), (6, 5, true), (7, 1, false), (8, 100, false)],
    124 => &[],
    125 => &[(1, 124, false)],
    126 => &[],
    127 => &[(1, 126, false)],
    128 => &[],
    129 => &[(1, 128, false)],
    130 => &[(1, 5, true), (2, 125, true), (3, 127, true), (4, 129, true)],
    131 => &[(1, 205, true), (2, 5, true), (3, 5, true), (4, 5, false), (5, 120, false), (6, 121, false), (7, 122, false), (8, 123, false)],
    132 => &[(1, 9, true), (2, 9, false)],
    133 => &[(1, 5, true), (2, 1, true), (3, 1, true)],
    134 => &[(1, 205, true), (2, 203, true), (3, 5, true)],
    135 => &[(1, 200, true), (2, 1203, true), (3, 1009, true), (4, 204, true), (5, 6, true), (6, 6, true), (7, 6, true), (8, 1132, false), (9, 6, true), (10, 6, false), (11, 6, false), (12, 100, false), (13, 1134, false), (14, 6, false)],
    136 => &[],
    137 => &[(1, 1009, true), (2, 8, false)],
    138 => &[(1, 136, false), (2, 137, false)],
    139 => &[(1, 9, false), (2, 6, true), (3, 135, false), (4, 6, false), (5, 5, false), (6, 6, false), (7, 5, false), (8, 138, false), (9, 8, false)],
    140 => &[(1, 1139, true), (2, 6, true), (3, 6, true), (4, 1133, false), (5, 6, false), (6, 6, false), (7, 4, false)],
    141 => &[],
    142 => &[(1, 141, false)],
    143 => &[(1, 6, true), (2, 5, true), (3, 6, true)],
    144 => &[(1, 1143, true)],
    145 => &[(1, 1001, true), (2, 1008, true), (3, 1008, true), (4, 206, true), (5, 1006, false)],
    146 => &[(1, 8, false), (2, 8, false), (3, 1, false)],
    147 => &[(1, 8, false), (2, 8, false), (3, 1, false)],
    148 => &[(1, 146, false), (2, 147, false)],
    149 => &[(1, 5, true), (2, 1119, true), (3, 6, true), (4, 1140, true), (5, 1132, false), (6, 9, false), (7, 1142, false), (8, 148, false), (9, 8, false)],
    150 => &[(1, 148, true), (2, 8, false)],
    _ => &[] } }
pub fn is_union(ty: i64) -> bool { matches!(ty, 112 | 118 | 125 | 127 | 129 | 138 | 142 | 148) }
