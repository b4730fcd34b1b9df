#!/usr/bin/env python3
"""Generates spec/Schema.tla and harness/src/glue.rs from schema.py (both are committed)."""
import os
import re
from schema import ENUMS, TYPES

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCALAR = {"bool": 1, "i8": 3, "i16": 4, "i32": 5, "i64": 6, "double": 7, "binary": 8, "string": 9}
IDX = {n: 100 + k for k, (n, _, _) in enumerate(TYPES)}
EIDX = {n: 200 + k for k, (n, _) in enumerate(ENUMS)}


def code(t):
    if t in SCALAR:
        return SCALAR[t]
    if t in IDX:
        return IDX[t]
    if t in EIDX:
        return EIDX[t]
    return 1000 + code(re.fullmatch(r"list<(.*)>", t).group(1))


def rust(t):
    m = re.fullmatch(r"list<(.*)>", t)
    if m:
        return "Vec<%s>" % rust(m.group(1))
    return {"string": "String", "binary": "Vec<u8>"}.get(t, t)


def tla():
    o = ["------------------------------- MODULE Schema -------------------------------",
         "(* parquet.thrift as data; generated by tools/gen.py from tools/schema.py.              *)",
         "(* Type codes: 1 bool 3 i8 4 i16 5 i32 6 i64 7 double 8 binary 9 string;                *)",
         "(* 100+k structs and unions, 200+k enums (i32 on the wire), 1000+t list of t.           *)",
         "(* A field is <<id, type, required>>.                                                   *)",
         "EXTENDS Integers, Sequences", "",
         "TypeIds == 100..%d" % (99 + len(TYPES)),
         "EnumIds == 200..%d" % (199 + len(ENUMS)), "",
         "TypeNames == <<" + ", ".join('"%s"' % n for n, _, _ in TYPES) + ">>", "",
         "UnionIds == {" + ", ".join(str(IDX[n]) for n, k, _ in TYPES if k == "union") + "}", "",
         "FieldTable == <<"]
    rows = []
    for n, k, fs in TYPES:
        rows.append("  (* %d %s *) <<%s>>" % (IDX[n], n, ", ".join(
            "<<%d, %d, %d>>" % (i, code(t), 1 if q == "required" else 0) for i, _, t, q, _ in fs)))
    o.append(",\n".join(rows))
    o += [">>", "", "EnumTable == <<"]
    o.append(",\n".join("  (* %d %s *) <<%s>>" % (EIDX[n], n, ", ".join(str(v) for _, v in vs)) for n, vs in ENUMS))
    o += [">>", "", "\\* names as bytes: <<struct, fields>>", "NameTable == <<"]
    by = lambda n: "<<%s>>" % ", ".join(str(c) for c in n.encode())
    o.append(",\n".join("  (* %d %s *) <<%s, <<%s>> >>" % (IDX[n], n, by(n), ", ".join(by(f) for _, f, _, _, _ in fs)) for n, _, fs in TYPES))
    o += [">>", "", "FieldsOf(t) == FieldTable[t - 99]", "EnumOf(t) == EnumTable[t - 199]",
          "IsStruct(t) == t >= 100 /\\ t < 200", "IsUnion(t) == t \\in UnionIds", "IsEnum(t) == t >= 200 /\\ t < 1000",
          "IsList(t) == t >= 1000", "ElemOf(t) == t - 1000",
          "\\* position of field id in FieldsOf(t), 0 if the id is unknown",
          "FieldIx(t, id) == LET fs == FieldsOf(t)",
          "                      S == {i \\in 1..Len(fs) : fs[i][1] = id}",
          "                  IN IF S = {} THEN 0 ELSE CHOOSE i \\in S : TRUE",
          "\\* compact-protocol wire type of a schema type",
          "WireOf(t) == IF IsList(t) THEN 9 ELSE IF IsStruct(t) THEN 12 ELSE IF IsEnum(t) THEN 5",
          "             ELSE IF t = 9 THEN 8 ELSE t",
          "=============================================================================", ""]
    return "\n".join(o)


def bexpr(t, v):
    """Rust expression building a value of IDL type t from `v: &Val`."""
    m = re.fullmatch(r"list<(.*)>", t)
    if m:
        return "%s.list().iter().map(|e| %s).collect::<Vec<_>>()" % (v, bexpr(m.group(1), "e"))
    if t in IDX:
        return "<%s as Meta>::build(%s)" % (t, v)
    if t in EIDX:
        return "%s(%s.int() as i32)" % (t, v)
    return {"bool": "%s.boolean()", "i8": "(%s.int() as i8)", "i16": "(%s.int() as i16)", "i32": "(%s.int() as i32)",
            "i64": "%s.int()", "binary": "%s.bytes()", "string": "%s.string()"}[t] % v


def dexpr(t, v):
    """Rust expression dumping `v: &T` to a Val."""
    m = re.fullmatch(r"list<(.*)>", t)
    if m:
        return "Val::List(%s.iter().map(|e| %s).collect())" % (v, dexpr(m.group(1), "e"))
    if t in IDX:
        return "Meta::dump(%s)" % v
    if t in EIDX:
        return "Val::Int(%s.0 as i64)" % v
    return {"bool": "Val::Bool(*%s)", "i8": "Val::Int(*%s as i64)", "i16": "Val::Int(*%s as i64)",
            "i32": "Val::Int(*%s as i64)", "i64": "Val::Int(*%s)", "binary": "Val::Bytes(%s.clone())",
            "string": "Val::Bytes(%s.clone().into_bytes())"}[t] % v


def glue():
    o = ["// Generated by tools/gen.py from tools/schema.py.", "#![allow(clippy::all)]",
         "use crate::val::{Meta, Val};", "use parquet_format_safe::*;",
         "use parquet_format_safe::thrift::protocol::*;", "use parquet_format_safe::thrift::Result;", ""]
    RD = """    fn rd<P: TInputProtocol>(p: &mut P, inherent: bool) -> Result<Self> { %s }
    async fn ard<P: TInputStreamProtocol>(p: &mut P, inherent: bool) -> Result<Self> { %s }
    fn wr<P: TOutputProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_protocol(p) }
    async fn awr<P: TOutputStreamProtocol>(&self, p: &mut P) -> Result<usize> { self.write_to_out_stream_protocol(p).await }"""
    RDS = RD % (
        "if inherent { Self::read_from_in_protocol(p) } else { <Self as ReadThrift>::read_from_in_protocol(p) }",
        "if inherent { Self::stream_from_in_protocol(p).await } else { <Self as AsyncReadThrift>::stream_from_in_protocol(p).await }")
    RDE = RD % ("let _ = inherent; <Self as ReadThrift>::read_from_in_protocol(p)",
                "let _ = inherent; <Self as AsyncReadThrift>::stream_from_in_protocol(p).await")
    for n, kind, fs in TYPES:
        o.append("impl Meta for %s {" % n)
        if kind == "union":
            o.append("    fn build(v: &Val) -> Self { let (id, v) = v.only(); match id {")
            for i, _, t, _, r in fs:
                o.append("        %d => %s::%s(%s)," % (i, n, r, bexpr(t, "v")))
            o.append('        _ => panic!("bad union alternative") } }')
            o.append("    fn dump(&self) -> Val { match self {")
            for i, _, t, _, r in fs:
                o.append("        %s::%s(x) => Val::Struct(vec![(%d, %s)])," % (n, r, i, dexpr(t, "x")))
            o.append("    } }")
            o.append("    fn by_new(v: &Val) -> Self { Self::build(v) }")
        else:
            def fld(i, t, q):
                if q == "required":
                    return "{ let e = v.field(%d); %s }" % (i, bexpr(t, "e"))
                return "v.get(%d).map(|e| %s)" % (i, bexpr(t, "e"))
            o.append("    fn build(v: &Val) -> Self { let _ = v; %s {" % n)
            for i, _, t, q, r in fs:
                o.append("        %s: %s," % (r, fld(i, t, q)))
            o.append("    } }")
            o.append("    fn by_new(v: &Val) -> Self { let _ = v; %s::new(" % n)
            for i, _, t, q, r in fs:
                o.append("        %s," % fld(i, t, q))
            o.append("    ) }")
            o.append("    fn dump(&self) -> Val { #[allow(unused_mut)] let mut f: Vec<(i16, Val)> = vec![];")
            for i, _, t, q, r in fs:
                if q == "required":
                    o.append("        { let x = &self.%s; f.push((%d, %s)); }" % (r, i, dexpr(t, "x")))
                else:
                    o.append("        if let Some(x) = &self.%s { f.push((%d, %s)); }" % (r, i, dexpr(t, "x")))
            o.append("        Val::Struct(f) }")
        o.append(RDS)
        o.append("}")
    for n, vs in ENUMS:
        o.append("impl Meta for %s {" % n)
        o.append("    fn build(v: &Val) -> Self { %s(v.int() as i32) }" % n)
        o.append("    fn by_new(v: &Val) -> Self { %s::from(v.int() as i32) }" % n)
        o.append("    fn dump(&self) -> Val { Val::Int(self.0 as i64) }")
        o.append(RDE)
        o.append("}")
    o.append("#[macro_export]")
    o.append("macro_rules! dispatch { ($ty:expr, $X:ident => $body:expr) => { match $ty {")
    for n, _, _ in TYPES:
        o.append("    %d => { type $X = parquet_format_safe::%s; $body }" % (IDX[n], n))
    for n, _ in ENUMS:
        o.append("    %d => { type $X = parquet_format_safe::%s; $body }" % (EIDX[n], n))
    o.append('    t => panic!("bad type index {}", t) } } }')
    o.append("pub const NAMES: &[(i64, &str)] = &[%s];" % ", ".join(
        ['(%d, "%s")' % (IDX[n], n) for n, _, _ in TYPES] + ['(%d, "%s")' % (EIDX[n], n) for n, _ in ENUMS]))
    o.append("/// (enum index, constants as (name, constant read through the crate), ENUM_VALUES, conversions of i)")
    o.append("pub fn enum_consts(ty: i64) -> (Vec<(&'static str, i32)>, Vec<i32>) { match ty {")
    for n, vs in ENUMS:
        o.append("    %d => (vec![%s], %s::ENUM_VALUES.iter().map(|e| e.0).collect())," % (
            EIDX[n], ", ".join('("%s", %s::%s.0)' % (a, n, a) for a, _ in vs), n))
    o.append('    _ => panic!("bad enum index") } }')
    o.append("pub fn enum_convs(ty: i64, i: i32) -> Vec<i32> { match ty {")
    for n, vs in ENUMS:
        o.append("    %d => vec![%s::from(i).0, %s::from(&i).0, i32::from(%s(i)), i32::from(&%s(i)), i32::from(%s::from(i))]," % (
            EIDX[n], n, n, n, n, n))
    o.append('    _ => panic!("bad enum index") } }')
    o.append("/// Schema rows for the random value generator: (id, type code, required)")
    o.append("pub fn fields(ty: i64) -> &'static [(i16, i64, bool)] { match ty {")
    for n, _, fs in TYPES:
        o.append("    %d => &[%s]," % (IDX[n], ", ".join("(%d, %d, %s)" % (i, code(t), "true" if q == "required" else "false")
                                                         for i, _, t, q, _ in fs)))
    o.append("    _ => &[] } }")
    o.append("pub fn is_union(ty: i64) -> bool { matches!(ty, %s) }" % " | ".join(str(IDX[n]) for n, k, _ in TYPES if k == "union"))
    o.append("")
    return "\n".join(o)


if __name__ == "__main__":
    with open(os.path.join(ROOT, "spec", "Schema.tla"), "w") as f:
        f.write(tla())
    with open(os.path.join(ROOT, "harness", "src", "glue.rs"), "w") as f:
        f.write(glue())
