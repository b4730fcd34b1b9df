//! Recording: seeded random histories executed on the real code and written down call by call,
//! for the specification (spec/Trace.tla) to accept or reject.
use crate::glue::{fields, is_union};
use crate::io::*;
use crate::ops::*;
use crate::val::Val;
use std::fmt::Write as _;
use std::io::Write as _;

pub struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
    /// Integers of any magnitude, boundaries preferred, fitting `bits` bits.
    fn int(&mut self, bits: u32) -> i64 {
        let r = self.next();
        let v = match self.below(4) {
            0 => self.below(300) as i64 - 100,
            1 => {
                let k = self.below(64) as u32;
                (1u64 << k).wrapping_add(self.below(5) as u64).wrapping_sub(2) as i64
            }
            2 => -((1u64 << self.below(63)).wrapping_add(self.below(5) as u64) as i64),
            _ => (r >> self.below(64)) as i64,
        };
        let s = 64 - bits;
        (v << s) >> s
    }
    fn id(&mut self) -> i16 {
        match self.below(6) {
            0 => self.int(16) as i16,
            1 => self.pick(&[0, -1, i16::MAX, i16::MIN, i16::MAX - 1, i16::MAX - 15, i16::MAX - 14]),
            _ => self.below(40) as i16,
        }
    }
    fn len(&mut self) -> usize {
        match self.below(40) {
            0 => self.pick(&[127, 128, 129]),
            1 | 2 => 13 + self.below(4),
            _ => self.below(5),
        }
    }
    fn text(&mut self) -> Vec<u8> {
        let n = self.len();
        let s: String = (0..n)
            .map(|_| match self.below(5) {
                0 => char::from_u32(self.below(0x800) as u32).unwrap(),
                1 => char::from_u32(0x800 + self.below(0xD000) as u32).unwrap_or('z'),
                2 => char::from_u32(0x10000 + self.below(0x100000) as u32).unwrap(),
                _ => (32 + self.below(95) as u8) as char,
            })
            .collect();
        s.into_bytes()
    }
    fn bytes(&mut self) -> Vec<u8> {
        if self.one_in(3) {
            return self.text();
        }
        let n = self.len();
        (0..n).map(|_| self.next() as u8).collect()
    }
}

// ------------------------------------------------------------------------------------------------
// Metadata values

fn value(g: &mut Rng, ty: i64, fuel: &mut i64) -> Val {
    *fuel -= 1;
    match ty {
        1 => Val::Bool(g.one_in(2)),
        3 => Val::Int(g.int(8)),
        4 => Val::Int(g.int(16)),
        5 => Val::Int(g.int(32)),
        6 => Val::Int(g.int(64)),
        8 => Val::Bytes(g.bytes()),
        9 => Val::Bytes(g.text()),
        200..=999 => Val::Int(if g.one_in(3) { g.int(32) } else { g.below(16) as i64 }),
        t if t >= 1000 => {
            let n = if *fuel < 0 { g.below(2) } else { g.len().min(20).min(if t >= 1100 && t < 1200 { 4 } else { 200 }) };
            Val::List((0..n).map(|_| value(g, t - 1000, fuel)).collect())
        }
        t if is_union(t) => {
            let f = g.pick(fields(t));
            Val::Struct(vec![(f.0, value(g, f.1, fuel))])
        }
        t => {
            let p = 1 + g.below(4);
            let mut o = vec![];
            for f in fields(t) {
                if f.2 || (*fuel > 0 && !g.one_in(p)) {
                    o.push((f.0, value(g, f.1, fuel)));
                }
            }
            Val::Struct(o)
        }
    }
}
fn any_type(g: &mut Rng) -> i64 {
    if g.one_in(12) { 200 + g.below(7) as i64 } else if g.one_in(3) { g.pick(&[100, 118, 119, 120, 123, 130, 131, 135, 139, 140, 144, 145, 148, 149, 150]) } else { 100 + g.below(51) as i64 }
}

/// An encoder that varies everything the protocol leaves open, and what the options add.
#[derive(Clone, Copy, Default)]
struct Style {
    free: bool,    // orders, long forms, padding, repetitions
    unknown: bool, // unknown fields
    drop: usize,   // one field in `drop` left out (0: none)
}

fn uvar(g: &mut Rng, s: Style, mut u: u64, max: usize, o: &mut Vec<u8>) {
    let mut v = vec![];
    loop {
        v.push((u & 127) as u8);
        u >>= 7;
        if u == 0 {
            break;
        }
    }
    if s.free && g.one_in(5) {
        let n = g.below(max - v.len() + 1);
        v.resize(v.len() + n, 0);
    }
    let n = v.len();
    for (i, b) in v.into_iter().enumerate() {
        o.push(if i + 1 < n { b | 128 } else { b });
    }
}
fn zig(g: &mut Rng, s: Style, v: i64, max: usize, o: &mut Vec<u8>) {
    uvar(g, s, ((v << 1) ^ (v >> 63)) as u64, max, o)
}
fn header(g: &mut Rng, s: Style, code: u8, id: i16, last: &mut i16, o: &mut Vec<u8>) {
    let d = id as i32 - *last as i32;
    if (1..15).contains(&d) && !(s.free && g.one_in(4)) {
        o.push((d as u8) << 4 | code);
    } else if d == 15 && s.free && g.one_in(2) {
        o.push(0xF0 | code);
    } else {
        o.push(code);
        zig(g, s, id as i64, 3, o);
    }
    *last = id;
}
fn wire(ty: i64) -> u8 {
    match ty {
        t if t >= 1000 => 9,
        t if t >= 200 => 5,
        t if t >= 100 => 12,
        9 => 8,
        t => t as u8,
    }
}
fn list_header(g: &mut Rng, s: Style, et: u8, n: usize, o: &mut Vec<u8>) {
    if n < 15 && !(s.free && g.one_in(4)) {
        o.push((n as u8) << 4 | et);
    } else {
        o.push(0xF0 | et);
        uvar(g, s, n as u64, 5, o);
    }
}

fn styled(g: &mut Rng, s: Style, ty: i64, v: &Val, o: &mut Vec<u8>) {
    match v {
        Val::Bool(b) => o.push(if *b { 1 } else { 2 }),
        Val::Int(i) => match ty {
            3 => o.push(*i as u8),
            4 => zig(g, s, *i, 3, o),
            6 => zig(g, s, *i, 10, o),
            _ => zig(g, s, *i, 5, o),
        },
        Val::Bytes(b) => {
            uvar(g, s, b.len() as u64, 5, o);
            o.extend_from_slice(b);
        }
        Val::List(l) => {
            list_header(g, s, wire(ty - 1000), l.len(), o);
            for e in l {
                styled(g, s, ty - 1000, e, o);
            }
        }
        Val::Struct(f) => {
            // fields with their ids, (type, value) or unknown content
            let mut fs: Vec<(i16, Result<(i64, Val), (u8, Vec<u8>)>)> =
                f.iter().map(|(id, v)| (*id, Ok((fields(ty).iter().find(|x| x.0 == *id).unwrap().1, v.clone())))).collect();
            if s.drop > 0 {
                fs.retain(|_| !g.one_in(s.drop));
                if is_union(ty) && g.one_in(s.drop) {
                    let f = g.pick(fields(ty));
                    fs.push((f.0, Ok((f.1, value(g, f.1, &mut 3)))));
                }
            }
            if s.free && !is_union(ty) {
                if g.one_in(2) {
                    for i in (1..fs.len()).rev() {
                        fs.swap(i, g.below(i + 1));
                    }
                }
                if !fs.is_empty() && g.one_in(3) {
                    let (id, x) = fs[g.below(fs.len())].clone();
                    if let Ok((t, _)) = x {
                        let again = value(g, t, &mut 3);
                        fs.insert(g.below(fs.len() + 1), (id, Ok((t, again))));
                    }
                }
            }
            if s.unknown && !is_union(ty) || (is_union(ty) && s.drop > 0 && g.one_in(s.drop)) {
                for _ in 0..g.below(3) {
                    let id = loop {
                        let id = g.id();
                        if fields(ty).iter().all(|f| f.0 != id) {
                            break id;
                        }
                    };
                    let c = g.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]);
                    let mut x = vec![];
                    if c > 2 {
                        content(g, s, c, 4, &mut x);
                    }
                    fs.insert(g.below(fs.len() + 1), (id, Err((c, x))));
                }
            }
            let mut last = 0;
            for (id, x) in fs {
                match x {
                    Ok((1, Val::Bool(b))) => header(g, s, if b { 1 } else { 2 }, id, &mut last, o),
                    Ok((t, v)) => {
                        header(g, s, wire(t), id, &mut last, o);
                        styled(g, s, t, &v, o);
                    }
                    Err((c, x)) => {
                        header(g, s, c, id, &mut last, o);
                        o.extend(x);
                    }
                }
            }
            o.push(0);
        }
    }
}

/// Content of wire type `c`, nested at most `d` deep.
fn content(g: &mut Rng, s: Style, c: u8, d: usize, o: &mut Vec<u8>) {
    let kinds: &[u8] = if d == 0 { &[1, 3, 4, 5, 6, 7, 8] } else { &[1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12] };
    match c {
        1 => o.push(g.pick(&[1, 2])),
        3 => o.push(g.next() as u8),
        4 => { let v = g.int(16); zig(g, s, v, 3, o) }
        5 => { let v = g.int(32); zig(g, s, v, 5, o) }
        6 => { let v = g.int(64); zig(g, s, v, 10, o) }
        7 => o.extend(g.next().to_le_bytes()),
        8 => {
            let b = g.bytes();
            uvar(g, s, b.len() as u64, 5, o);
            o.extend(b);
        }
        9 | 10 => {
            let (e, n) = (g.pick(kinds), if d > 2 { g.len().min(17) } else { g.below(3) });
            list_header(g, s, e, n, o);
            for _ in 0..n {
                content(g, s, e, d.saturating_sub(1), o);
            }
        }
        11 => {
            let (k, e, n) = (g.pick(kinds), g.pick(kinds), g.below(3));
            uvar(g, s, n as u64, 5, o);
            if n > 0 {
                o.push(k << 4 | e);
                for _ in 0..n {
                    content(g, s, k, d.saturating_sub(1), o);
                    content(g, s, e, d.saturating_sub(1), o);
                }
            }
        }
        12 => {
            let mut last = 0;
            for _ in 0..g.below(4) {
                let c = g.pick(kinds);
                let c = if c == 1 { g.pick(&[1, 2]) } else { c };
                let id = g.id();
                header(g, s, c, id, &mut last, o);
                if c > 2 {
                    content(g, s, c, d.saturating_sub(1), o);
                }
            }
            o.push(0);
        }
        x => panic!("content {}", x),
    }
}

// ------------------------------------------------------------------------------------------------
// Protocol-level values

#[derive(Clone, Debug)]
enum Tree {
    Scalar(u8, i64), // 1 bool, 3..=6 integers, 7 bits of a double
    Bytes(bool, Vec<u8>),
    List(u8, u8, Vec<Tree>),
    Map(u8, u8, Vec<(Tree, Tree)>),
    Struct(Vec<(i16, Tree)>),
    Meta(i64, Val),
    Size(u8, u8, u32), // header of a collection, no elements
}

fn tree(g: &mut Rng, c: u8, d: usize) -> Tree {
    let kinds: &[u8] = if d == 0 { &[1, 3, 4, 5, 6, 7, 8] } else { &[1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12] };
    let e = d.saturating_sub(1);
    match c {
        1 => Tree::Scalar(1, g.below(2) as i64),
        3 => Tree::Scalar(3, g.int(8)),
        4 => Tree::Scalar(4, g.int(16)),
        5 => Tree::Scalar(5, g.int(32)),
        6 => Tree::Scalar(6, g.int(64)),
        7 => Tree::Scalar(7, if g.one_in(2) { g.next() as i64 } else { (g.int(32) as f64 / 7.0).to_bits() as i64 }),
        8 => {
            if g.one_in(2) {
                Tree::Bytes(true, g.text())
            } else {
                Tree::Bytes(false, g.bytes())
            }
        }
        9 | 10 => {
            if g.one_in(8) {
                return Tree::Size(c, g.pick(&[0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]), g.int(33) as u32);
            }
            let (t, n) = (g.pick(kinds), if d > 2 { g.len().min(17) } else { g.below(3) });
            Tree::List(c, t, (0..n).map(|_| tree(g, t, e)).collect())
        }
        11 => {
            if g.one_in(8) {
                return Tree::Size(11, g.pick(&[1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]), g.int(33) as u32);
            }
            let (k, v, n) = (g.pick(kinds), g.pick(kinds), g.below(3));
            Tree::Map(k, v, (0..n).map(|_| (tree(g, k, e), tree(g, v, e))).collect())
        }
        _ => {
            if g.one_in(6) {
                let t = g.pick(&[100, 101, 108, 112, 113, 115, 118, 122, 124, 127, 132, 133, 134, 138, 143, 146, 150]);
                return Tree::Meta(t, value(g, t, &mut 10));
            }
            let n = g.below(5);
            let mut fs = vec![];
            for _ in 0..n {
                let c = g.pick(kinds);
                fs.push((g.id(), tree(g, c, e)));
            }
            Tree::Struct(fs)
        }
    }
}
fn tcode(t: &Tree) -> u8 {
    match t {
        Tree::Scalar(c, _) | Tree::List(c, ..) | Tree::Size(c, ..) => *c,
        Tree::Bytes(..) => 8,
        Tree::Map(..) => 11,
        Tree::Struct(_) | Tree::Meta(..) => 12,
    }
}
fn op(code: i64, args: Vec<i64>) -> Op {
    Op { code, args }
}
fn w8(v: i64) -> Vec<i64> {
    v.to_le_bytes().iter().map(|b| *b as i64).collect()
}
fn sized(pre: &[i64], n: u32) -> Vec<i64> {
    let mut v = pre.to_vec();
    v.extend(n.to_le_bytes().iter().map(|b| *b as i64));
    v
}
fn bs(b: &[u8]) -> Vec<i64> {
    b.iter().map(|b| *b as i64).collect()
}
const SCALARS: [i64; 8] = [0, BOOL, 0, I8, I16, I32, I64, DOUBLE];

fn writes(t: &Tree, o: &mut Vec<Op>) {
    match t {
        Tree::Scalar(1, b) => o.push(op(BOOL, vec![*b])),
        Tree::Scalar(c, v) => o.push(op(SCALARS[*c as usize], w8(*v))),
        Tree::Bytes(s, b) => o.push(op(if *s { STRING } else { BYTES }, bs(b))),
        Tree::List(c, e, l) => {
            o.push(op(if *c == 9 { LIST_BEGIN } else { SET_BEGIN }, sized(&[*e as i64], l.len() as u32)));
            l.iter().for_each(|e| writes(e, o));
            o.push(op(if *c == 9 { LIST_END } else { SET_END }, vec![]));
        }
        Tree::Map(k, v, l) => {
            o.push(op(MAP_BEGIN, sized(&[*k as i64, *v as i64], l.len() as u32)));
            l.iter().for_each(|e| {
                writes(&e.0, o);
                writes(&e.1, o);
            });
            o.push(op(MAP_END, vec![]));
        }
        Tree::Size(11, e, n) => {
            o.push(op(MAP_BEGIN, sized(&[*e as i64, 8], *n)));
            o.push(op(MAP_END, vec![]));
        }
        Tree::Size(c, e, n) => {
            o.push(op(if *c == 9 { LIST_BEGIN } else { SET_BEGIN }, sized(&[*e as i64], *n)));
            o.push(op(if *c == 9 { LIST_END } else { SET_END }, vec![]));
        }
        Tree::Struct(fs) => {
            o.push(op(STRUCT_BEGIN, vec![]));
            for (id, v) in fs {
                o.push(op(FIELD_BEGIN, vec![tcode(v) as i64, *id as i64]));
                writes(v, o);
                o.push(op(FIELD_END, vec![]));
            }
            o.push(op(FIELD_STOP, vec![]));
            o.push(op(STRUCT_END, vec![]));
        }
        Tree::Meta(t, v) => {
            let mut a = vec![*t];
            v.flat(&mut a);
            o.push(op(VAL, a));
        }
    }
}
fn has_size(t: &Tree) -> bool {
    match t {
        Tree::Size(_, _, n) => *n > 0,
        Tree::List(_, _, l) => l.iter().any(has_size),
        Tree::Map(_, _, l) => l.iter().any(|e| has_size(&e.0) || has_size(&e.1)),
        Tree::Struct(f) => f.iter().any(|e| has_size(&e.1)),
        _ => false,
    }
}
/// The mirrored reads; now and then something is skipped instead.
fn reads(g: &mut Rng, t: &Tree, skips: usize, o: &mut Vec<Op>) {
    if skips > 0 && g.one_in(skips) && !has_size(t) {
        let c = tcode(t) as i64;
        o.push(if g.one_in(3) { op(SKIPD, vec![c, g.pick(&[-128, -1, 0, 1, 2, 3, 5, 64, 127])]) } else { op(SKIP, vec![c]) });
        return;
    }
    match t {
        Tree::Scalar(c, _) => o.push(op(SCALARS[*c as usize], vec![])),
        Tree::Bytes(s, _) => o.push(op(if *s { STRING } else { BYTES }, vec![])),
        Tree::List(c, _, l) => {
            o.push(op(if *c == 9 { LIST_BEGIN } else { SET_BEGIN }, vec![]));
            l.iter().for_each(|e| reads(g, e, skips, o));
            o.push(op(if *c == 9 { LIST_END } else { SET_END }, vec![]));
        }
        Tree::Map(_, _, l) => {
            o.push(op(MAP_BEGIN, vec![]));
            l.iter().for_each(|e| {
                reads(g, &e.0, skips, o);
                reads(g, &e.1, skips, o);
            });
            o.push(op(MAP_END, vec![]));
        }
        Tree::Size(c, ..) => {
            let (b, e) = match c {
                9 => (LIST_BEGIN, LIST_END),
                10 => (SET_BEGIN, SET_END),
                _ => (MAP_BEGIN, MAP_END),
            };
            o.push(op(b, vec![]));
            o.push(op(e, vec![]));
        }
        Tree::Struct(fs) => {
            o.push(op(STRUCT_BEGIN, vec![]));
            for (_, v) in fs {
                o.push(op(FIELD_BEGIN, vec![]));
                reads(g, v, skips, o);
                o.push(op(FIELD_END, vec![]));
            }
            o.push(op(FIELD_BEGIN, vec![]));
            o.push(op(STRUCT_END, vec![]));
        }
        Tree::Meta(t, _) => o.push(op(VAL, vec![*t, 1])),
    }
}

// ------------------------------------------------------------------------------------------------
// Stimuli

enum Stim {
    /// write history, then (with its bytes) a read history
    Both(Vec<Op>, Vec<Op>, i64),
    Read(Vec<u8>, Vec<Op>, i64),
    Varint(i64, i64, i64),
    Decode(i64, i64, Vec<u8>),
}

fn limit_for(g: &mut Rng) -> i64 {
    match g.below(4) {
        0 => g.below(60) as i64,
        1 => g.below(600) as i64,
        2 => 1_000_000,
        _ => -1,
    }
}

fn mutate(g: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + g.below(3) {
        if b.is_empty() {
            b.push(g.next() as u8);
            continue;
        }
        let i = g.below(b.len());
        match g.below(8) {
            0 => b[i] ^= 1 << g.below(8),
            1 => b[i] = g.next() as u8,
            2 => b[i] = g.pick(&[0, 1, 2, 3, 12, 13, 14, 15, 127, 128, 255, 0xF9, 0xFC, 0x1B, 0x19]),
            3 => {
                b.remove(i);
            }
            4 => {
                let x = g.next() as u8;
                b.insert(i, x);
            }
            5 => b.truncate(i),
            6 => {
                let n = 1 + g.below(12);
                for _ in 0..n {
                    b.insert(i, 0x80 | g.next() as u8);
                }
            }
            _ => {
                let j = g.below(b.len());
                let (i, j) = (i.min(j), i.max(j).min(i.min(j) + 8));
                let part = b[i..j].to_vec();
                for (k, x) in part.into_iter().enumerate() {
                    b.insert(j + k, x);
                }
            }
        }
    }
}

fn meta_reads(g: &mut Rng, tys: &[i64]) -> Vec<Op> {
    tys.iter().map(|t| op(VAL, vec![*t, g.below(2) as i64])).collect()
}

fn styled_stim(g: &mut Rng, s: Style, lim: i64) -> Stim {
    let mut o = vec![];
    let mut tys = vec![];
    for _ in 0..1 + g.below(2) {
        let t = any_type(g);
        let v = value(g, t, &mut 25);
        styled(g, s, t, &v, &mut o);
        tys.push(t);
    }
    for _ in 0..g.below(4) {
        o.push(g.next() as u8);
    }
    Stim::Read(o, meta_reads(g, &tys), lim)
}

fn trees(g: &mut Rng) -> Vec<Tree> {
    (0..1 + g.below(3)).map(|_| { let c = g.pick(&[1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12, 12, 12, 12, 12]); tree(g, c, 3) }).collect()
}

fn stim(g: &mut Rng, what: &str) -> Stim {
    match what {
        "values" => {
            let (mut w, mut tys) = (vec![], vec![]);
            for _ in 0..1 + g.below(3) {
                let t = any_type(g);
                let v = value(g, t, &mut 25);
                let mut a = vec![t];
                v.flat(&mut a);
                w.push(op(VAL, a));
                tys.push(t);
            }
            Stim::Both(w, meta_reads(g, &tys), -1)
        }
        "enums" => {
            let t = 200 + g.below(7) as i64;
            let mut a = vec![t];
            Val::Int(if g.one_in(2) { g.int(32) } else { g.below(40) as i64 - 10 }).flat(&mut a);
            Stim::Both(vec![op(VAL, a)], meta_reads(g, &[t]), -1)
        }
        "styles" => styled_stim(g, Style { free: true, ..Style::default() }, -1),
        "unknown" => {
            let free = g.one_in(2);
            styled_stim(g, Style { free, unknown: true, drop: 0 }, -1)
        }
        "dropped" => {
            let (free, unknown, drop) = (g.one_in(3), g.one_in(3), g.pick(&[4, 10, 30]));
            styled_stim(g, Style { free, unknown, drop }, -1)
        }
        "limits" => {
            let (free, unknown, lim) = (g.one_in(2), g.one_in(2), limit_for(g));
            if g.one_in(3) {
                let ts = trees(g);
                let (mut w, mut r) = (vec![], vec![]);
                ts.iter().for_each(|t| { writes(t, &mut w); reads(g, t, 6, &mut r) });
                return Stim::Both(w, r, lim);
            }
            styled_stim(g, Style { free, unknown, drop: 0 }, lim)
        }
        "cuts" => match { let k = g.pick(&["styles", "unknown"]); stim(g, k) } {
            Stim::Read(mut b, ops, _) => {
                let n = g.below(b.len() + 1);
                b.truncate(n);
                let lim = if g.one_in(2) { -1 } else { 1_000_000 };
                Stim::Read(b, ops, lim)
            }
            s => s,
        },
        "wild" => {
            let lim = limit_for(g);
            if g.one_in(6) {
                // no structure at all
                let n = g.below(40);
                let b: Vec<u8> = (0..n).map(|_| if g.one_in(2) { g.next() as u8 } else { g.pick(&[0, 1, 2, 21, 24, 25, 27, 28, 0x5C, 0x1A, 0xFC, 0x80, 130, 33]) }).collect();
                let t = any_type(g);
                let o = match g.below(6) {
                    0 => op(SKIP, vec![g.pick(&[0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12])]),
                    1 => op(SKIPD, vec![g.pick(&[0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]), g.below(256) as i64 - 128]),
                    2 => op(MSG_BEGIN, vec![]),
                    3 => op(APPERR, vec![]),
                    4 => op(READ_LIST, vec![g.pick(&[1, 3, 6, 8, 9, t])]),
                    _ => op(VAL, vec![t, 1]),
                };
                return Stim::Read(b, vec![o], lim);
            }
            if g.one_in(4) {
                let ts = trees(g);
                let (mut w, mut r) = (vec![], vec![]);
                ts.iter().for_each(|t| { writes(t, &mut w); reads(g, t, 8, &mut r) });
                let mut b = run_write(Api::Sync, Plan::free(), &w).bytes;
                mutate(g, &mut b);
                return Stim::Read(b, r, lim);
            }
            if g.one_in(8) {
                if let Stim::Both(w, r, _) = stim(g, "messages") {
                    let mut b = run_write(Api::Sync, Plan::free(), &w).bytes;
                    mutate(g, &mut b);
                    return Stim::Read(b, r, lim);
                }
            }
            let (free, unknown, drop) = (g.one_in(2), g.one_in(2), if g.one_in(5) { 12 } else { 0 });
            match styled_stim(g, Style { free, unknown, drop }, lim) {
                Stim::Read(mut b, o, l) => {
                    mutate(g, &mut b);
                    Stim::Read(b, o, l)
                }
                s => s,
            }
        }
        "calls" => {
            let ts = trees(g);
            let (mut w, mut r) = (vec![], vec![]);
            let skips = g.pick(&[0, 3, 12]);
            ts.iter().for_each(|t| { writes(t, &mut w); reads(g, t, skips, &mut r) });
            Stim::Both(w, r, -1)
        }
        "seeks" => {
            let ts = trees(g);
            let (mut b, mut at) = (vec![], vec![]);
            for t in &ts {
                let mut w = vec![];
                writes(t, &mut w);
                at.push(b.len() as i64);
                b.extend(run_write(Api::Sync, Plan::free(), &w).bytes);
            }
            let n = b.len() as i64;
            let mut r = vec![];
            for _ in 0..1 + g.below(5) {
                let i = g.below(ts.len());
                match g.below(4) {
                    0 => r.push(op(SEEK, vec![2, at[i] - n])),
                    1 if i == 0 => r.push(op(SEEK, vec![3, 0])),
                    _ => r.push(op(SEEK, vec![0, at[i]])),
                }
                let mut some = vec![];
                reads(g, &ts[i], 8, &mut some);
                // looking elsewhere and coming back, between any two calls of a value
                for x in some {
                    r.push(x);
                    match g.below(8) {
                        0 => r.push(op(SEEK, vec![4, 0])),
                        1 => {
                            let d = g.below(20) as i64;
                            r.push(op(SEEK, vec![1, d]));
                            r.push(op(SEEK, vec![1, -d]));
                        }
                        2 => r.push(op(SEEK, vec![1, 0])),
                        _ => {}
                    }
                }
            }
            let lim = if g.one_in(3) { limit_for(g) } else { -1 };
            Stim::Read(b, r, lim)
        }
        "messages" => {
            let (mut w, mut r) = (vec![], vec![]);
            for _ in 0..1 + g.below(2) {
                if g.one_in(3) {
                    let mut a = vec![g.below(11) as i64];
                    a.extend(bs(&g.text()));
                    w.push(op(APPERR, a));
                    r.push(op(APPERR, vec![]));
                    continue;
                }
                let mut a = vec![1 + g.below(4) as i64];
                a.extend((g.int(33) as u32).to_le_bytes().iter().map(|b| *b as i64));
                a.extend(bs(&g.text()));
                w.push(op(MSG_BEGIN, a));
                r.push(op(MSG_BEGIN, vec![]));
                if g.one_in(2) {
                    let t = tree(g, 12, 2);
                    writes(&t, &mut w);
                    reads(g, &t, 5, &mut r);
                }
                w.push(op(MSG_END, vec![]));
                r.push(op(MSG_END, vec![]));
            }
            Stim::Both(w, r, -1)
        }
        "varints" => {
            let (k, sg) = (g.pick(&[1, 2, 4, 8]), g.below(2) as i64);
            if g.one_in(2) {
                Stim::Varint(k, sg, g.int(64))
            } else {
                let n = g.below(12);
                let mut b: Vec<u8> = (0..n).map(|_| if g.one_in(4) { 128 } else { 128 | g.next() as u8 }).collect();
                if !g.one_in(6) {
                    b.push(if g.one_in(3) { g.below(2) as u8 } else { g.next() as u8 & 127 });
                }
                for _ in 0..g.below(2) {
                    b.push(g.next() as u8);
                }
                Stim::Decode(k, sg, b)
            }
        }
        "any" => {
            let k = g.pick(&["values", "styles", "unknown", "dropped", "limits", "cuts", "wild", "calls", "messages"]);
            stim(g, k)
        }
        "good" => {
            let k = g.pick(&["values", "values", "styles", "unknown", "calls", "calls", "messages"]);
            stim(g, k)
        }
        "writes" => {
            let k = g.pick(&["values", "calls", "calls", "messages"]);
            stim(g, k)
        }
        w => panic!("nothing called {} to record", w),
    }
}

// ------------------------------------------------------------------------------------------------

fn ints(v: &[i64], o: &mut String) {
    o.push('[');
    for (i, x) in v.iter().enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, x);
    }
    o.push(']');
}

/// again: the same history run again, by the other interface or on a perfect transport
fn w_json(ops: &[Op], run: &WriteRun, again: Option<WriteRun>, off: i64, io: i64) -> String {
    let mut o = format!("{{\"k\":\"w\",\"off\":{},\"io\":{},\"ops\":[", off, io);
    for (i, (s, n, len)) in run.outs.iter().enumerate() {
        let _ = write!(o, "{}[{},", if i > 0 { "," } else { "" }, ops[i].code);
        ints(&ops[i].args, &mut o);
        let _ = write!(o, ",{},{},{}]", s, n, len);
    }
    let _ = write!(o, "],\"n\":{},\"bytes\":", ops.len());
    ints(&bs(&run.bytes), &mut o);
    if let Some(r) = again {
        o.push_str(",\"rbytes\":");
        ints(&bs(&r.bytes), &mut o);
        o.push_str(",\"ref\":[");
        for (i, (s, n, len)) in r.outs.iter().enumerate() {
            let _ = write!(o, "{}[{},{},{}]", if i > 0 { "," } else { "" }, s, n, len);
        }
        o.push(']');
    }
    o.push('}');
    o
}
fn r_json(bytes: &[u8], lim: i64, ops: &[Op], run: &ReadRun, again: Option<ReadRun>, off: i64, io: i64) -> String {
    let mut o = format!("{{\"k\":\"r\",\"off\":{},\"io\":{},\"lim\":{},\"bytes\":", off, io, lim);
    ints(&bs(bytes), &mut o);
    let _ = write!(o, ",\"n\":{},\"ops\":[", ops.len());
    for (i, x) in run.outs.iter().enumerate() {
        let _ = write!(o, "{}[{},", if i > 0 { "," } else { "" }, ops[i].code);
        ints(&ops[i].args, &mut o);
        let _ = write!(o, ",{},{},", x.status, x.pos);
        ints(&x.res, &mut o);
        o.push(']');
    }
    o.push(']');
    if let Some(r) = again {
        o.push_str(",\"ref\":[");
        for (i, x) in r.outs.iter().enumerate() {
            let _ = write!(o, "{}[{},{},", if i > 0 { "," } else { "" }, x.status, x.pos);
            ints(&x.res, &mut o);
            o.push(']');
        }
        o.push(']');
    }
    o.push('}');
    o
}

// ------------------------------------------------------------------------------------------------
// Tapes

/// something unknown to every schema, as a field
fn unknown_field(g: &mut Rng) -> Vec<Op> {
    fn plain(t: &Tree) -> bool {
        match t {
            Tree::Meta(..) => false,
            Tree::List(_, _, l) => l.iter().all(plain),
            Tree::Map(_, _, l) => l.iter().all(|e| plain(&e.0) && plain(&e.1)),
            Tree::Struct(f) => f.iter().all(|e| plain(&e.1)),
            _ => true,
        }
    }
    loop {
        let c = g.pick(&[1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]);
        let t = tree(g, c, 3);
        if plain(&t) && !has_size(&t) {
            let id = g.pick(&[99, 1000, -1, 0, i16::MAX, i16::MIN]);
            let mut o = vec![op(FIELD_BEGIN, vec![tcode(&t) as i64, id as i64])];
            writes(&t, &mut o);
            // what is skipped need not be UTF-8, and is asked for as bytes
            o.iter_mut().filter(|o| o.code == STRING).for_each(|o| o.code = BYTES);
            o.push(op(FIELD_END, vec![]));
            return o;
        }
    }
}
/// one change that keeps the nesting
fn retape(g: &mut Rng, t: &mut Vec<Op>) {
    let fs: Vec<usize> = (0..t.len()).filter(|i| t[*i].code == FIELD_BEGIN).collect();
    let end = |t: &[Op], from: usize| {
        let mut d = 0;
        for (i, o) in t.iter().enumerate().skip(from) {
            d += (o.code == FIELD_BEGIN) as i32 - (o.code == FIELD_END) as i32;
            if d == 0 {
                return i + 1;
            }
        }
        from
    };
    let at: Vec<usize> = (0..t.len()).filter(|i| [FIELD_BEGIN, FIELD_STOP].contains(&t[*i].code)).collect();
    if at.is_empty() {
        return;
    }
    let p = g.pick(&at);
    if fs.is_empty() || g.one_in(2) {
        let f = unknown_field(g);
        t.splice(p..p, f);
        return;
    }
    let f = g.pick(&fs);
    let e = end(t, f);
    let field: Vec<Op> = t[f..e].to_vec();
    match g.below(5) {
        0 => drop(t.splice(f..e, [])),
        1 => drop(t.splice(f..f, field)),
        2 => {
            // with the field behind it in the other order
            if e < t.len() && t[e].code == FIELD_BEGIN {
                let z = end(t, e);
                t[f..z].rotate_left(e - f);
            }
        }
        3 => t[f].args[1] = crate::tape::NOID,
        _ => {
            t[f].args[1] = g.pick(&[99, -1, 0, 1000]);
            t[f..e].iter_mut().filter(|o| o.code == STRING).for_each(|o| o.code = BYTES);
        }
    }
}
fn calls_json(calls: &[Op], o: &mut String) {
    o.push('[');
    for (i, c) in calls.iter().enumerate() {
        let _ = write!(o, "{}[{},", if i > 0 { "," } else { "" }, c.code);
        ints(&c.args, o);
        o.push(']');
    }
    o.push(']');
}
fn tapes(g: &mut Rng, lines: &mut Vec<String>) {
    use crate::tape::*;
    let app = g.one_in(10);
    let (ty, flat) = if app {
        let mut a = vec![g.below(11) as i64];
        a.extend(bs(&g.text()));
        (APP, a)
    } else {
        let t = any_type(g);
        (t, value(g, t, &mut 8).to_flat())
    };
    let api = |g: &mut Rng, ty: i64| if ty == APP { g.pick(&[Api::Sync, Api::Boxed]) } else { g.pick(&APIS) };
    let a = api(g, ty);
    let whole = rec_write(a, ty, &flat, 0).2;
    if whole.len() > 120 {
        return;
    }
    let fail = |g: &mut Rng, n: usize| if g.one_in(3) { 1 + g.below(n) } else { 0 };
    let k = fail(g, whole.len().max(1));
    let (st, count, calls) = rec_write(a, ty, &flat, k);
    let mut o = format!("{{\"k\":\"tw\",\"ty\":{},\"fail\":{},\"st\":{},\"count\":{},\"flat\":", ty, k, st, count);
    ints(&flat, &mut o);
    o.push_str(",\"calls\":");
    calls_json(&calls, &mut o);
    o.push('}');
    lines.push(o);
    let mut tape = whole;
    if tape.last().map_or(false, |o| o.code == FLUSH) {
        tape.pop();
    }
    let (mut ty, mut flat) = (ty, vec![]);
    if g.one_in(4) && !tape.is_empty() {
        // what is left of it is skipped
        let c = g.pick(&[9, 10, 11, 12, 1, 5, 8]);
        let t = loop {
            let f = unknown_field(g);
            if f[0].args[0] == c {
                break f;
            }
        };
        tape = t[1..t.len() - 1].to_vec();
        flat = vec![c, g.pick(&[64, 64, 0, 1, 2, 3, 4, 5, -1, 127])];
        ty = SKIPPED;
    } else {
        for _ in 0..g.below(4) {
            retape(g, &mut tape);
        }
    }
    if tape.len() > 160 {
        return;
    }
    let k = fail(g, tape.len().max(1));
    let (a, inh, names) = (api(g, ty), g.one_in(2), g.below(3) as u8);
    let (st, n, v) = rec_read(a, inh, ty, &flat, &tape, names, k);
    let mut o = format!("{{\"k\":\"tr\",\"ty\":{},\"fail\":{},\"st\":{},\"n\":{},\"flat\":", ty, k, st, n);
    ints(&flat, &mut o);
    o.push_str(",\"v\":");
    ints(&v, &mut o);
    o.push_str(",\"calls\":");
    calls_json(&tape, &mut o);
    o.push('}');
    lines.push(o);
}

fn plan(g: &mut Rng) -> Plan {
    match g.below(4) {
        0 => Plan::free(),
        1 => Plan::cycle(&[1]),
        _ => {
            let n = 1 + g.below(5);
            let mut s: Vec<i64> = (0..n).map(|_| g.pick(&[1, 1, 2, 3, 5, 9, 0, -1])).collect();
            s.push(1 + g.below(4) as i64);
            Plan::cycle(&s)
        }
    }
}

/// what: a stimulus, "async-" or "faulty-" before it
pub fn record(what: &str, seed: u64, n: usize, file: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut f = std::io::BufWriter::new(std::fs::File::create(file).expect("trace file"));
    let (mode, kind) = what.split_once('-').unwrap_or(("", what));
    let mut g = Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ what.bytes().fold(7, |h: u64, b| h.wrapping_mul(31) ^ b as u64));
    let mut done = 0;
    while done < n {
        if kind == "tapes" {
            let mut lines = vec![];
            tapes(&mut g, &mut lines);
            for l in lines {
                writeln!(f, "{}", l).expect("trace file");
                done += 1;
            }
            continue;
        }
        let s = stim(&mut g, kind);
        let api = |g: &mut Rng, ops: &[Op]| {
            let a = if mode == "async" { Api::Async } else { g.pick(&APIS) };
            if a == Api::Async && crate::judge::sync_only(ops) { Api::Sync } else { a }
        };
        let mut lines = vec![];
        let again = |a: Api| match mode {
            "async" => Some(Api::Sync),
            "faulty" => Some(a),
            _ => None,
        };
        let faults = |g: &mut Rng, p: Plan, len: usize| -> (Plan, i64, i64) {
            if mode != "faulty" {
                return (p, -1, -1);
            }
            let off = g.below(len + 1);
            if g.one_in(4) {
                return (p.zero(off), off as i64, WRITE_ZERO);
            }
            let k = g.below(KINDS.len());
            (p.failing(off, k), off as i64, k as i64)
        };
        let read = |g: &mut Rng, b: &[u8], ops: &[Op], lim: i64, lines: &mut Vec<String>| {
            let p = plan(g);
            let (p, off, io) = faults(g, p, b.len());
            let a = api(g, ops);
            let re = again(a).map(|a| run_read(a, b, lim, Plan::free(), ops));
            lines.push(r_json(b, lim, ops, &run_read(a, b, lim, p, ops), re, off, io));
        };
        match s {
            Stim::Both(w, r, lim) => {
                let a = api(&mut g, &w);
                let p = plan(&mut g);
                let clean = run_write(a, Plan::free(), &w);
                if clean.bytes.len() > 3000 {
                    continue;
                }
                let (p, off, io) = faults(&mut g, p, clean.bytes.len());
                let re = again(a).map(|a| run_write(a, Plan::free(), &w));
                lines.push(w_json(&w, &run_write(a, p, &w), re, off, io));
                read(&mut g, &clean.bytes, &r, lim, &mut lines);
            }
            Stim::Read(b, r, lim) => {
                if b.len() > 3000 {
                    continue;
                }
                read(&mut g, &b, &r, lim, &mut lines);
            }
            Stim::Varint(k, sg, v) => {
                let mut o = format!("{{\"k\":\"e\",\"w\":{},\"sg\":{},\"v\":", k, sg);
                ints(&w8(v), &mut o);
                let (spaces, outs) = crate::vint::rec_enc(k, sg, v, &plan(&mut g));
                o.push_str(",\"n\":");
                ints(&spaces, &mut o);
                o.push_str(",\"out\":[");
                for (i, x) in outs.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    ints(&bs(x), &mut o);
                }
                o.push_str("]}");
                lines.push(o);
            }
            Stim::Decode(k, sg, b) => {
                for asy in 0..3 {
                    let (st, used, v) = crate::vint::rec_dec(k, sg, &b, asy, &plan(&mut g));
                    let mut o = format!("{{\"k\":\"d\",\"w\":{},\"sg\":{},\"by\":{},\"st\":{},\"n\":{},\"v\":", k, sg, asy, st, used);
                    ints(&w8(v), &mut o);
                    o.push_str(",\"bytes\":");
                    ints(&bs(&b), &mut o);
                    o.push('}');
                    lines.push(o);
                }
            }
        }
        for l in lines {
            writeln!(f, "{}", l).expect("trace file");
            done += 1;
        }
    }
    f.flush().expect("trace file");
    println!("DONE {}", done);
}
