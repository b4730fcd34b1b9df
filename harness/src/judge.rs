//! One behaviour of the specification = one line of integers; judging it for a property.
use crate::io::*;
use crate::ops::*;
use crate::val::{expand, Val};

pub struct Cur<'a> {
    d: &'a [i64],
    i: usize,
}
impl<'a> Cur<'a> {
    pub fn new(d: &'a [i64]) -> Self {
        Cur { d, i: 0 }
    }
    pub fn n(&mut self) -> i64 {
        self.i += 1;
        self.d[self.i - 1]
    }
    pub fn sec(&mut self) -> &'a [i64] {
        let n = self.n() as usize;
        self.i += n;
        &self.d[self.i - n..self.i]
    }
    pub fn take(&mut self, n: usize) -> &'a [i64] {
        self.i += n;
        &self.d[self.i - n..self.i]
    }
    pub fn done(&self) -> bool {
        self.i >= self.d.len()
    }
}

/// Counts of what was executed.
#[derive(Default, Clone, Debug)]
pub struct Stat {
    pub cases: u64,
}

pub type J = Result<(), String>;

fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(80).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 80 {
        s += &format!("..({} bytes)", b.len());
    }
    s
}
pub fn name(ty: i64) -> String {
    crate::glue::NAMES.iter().find(|x| x.0 == ty).map(|x| x.1.to_string()).unwrap_or_else(|| format!("type {}", ty))
}

pub struct Value {
    pub ty: i64,
    pub cost: i64,
    pub val: Val,
    pub bytes: Vec<u8>,
}

fn diff(api: Api, what: &str, want: impl std::fmt::Debug, got: impl std::fmt::Debug) -> String {
    let cut = |s: String| if s.len() > 300 { format!("{}...", &s.chars().take(300).collect::<String>()) } else { s };
    format!("{:?} {}: expected {}, got {}", api, what, cut(format!("{:?}", want)), cut(format!("{:?}", got)))
}

/// Decode and compare with an expected outcome; `pos` and value only matter for success.
#[allow(clippy::too_many_arguments)]
pub fn expect_dec(st: &mut Stat, api: Api, inh: bool, ty: i64, data: &[u8], lim: i64, plan: Plan, status: i64, pos: usize, val: Option<&Val>) -> Result<Dec, String> {
    st.cases += 1;
    let desc = format!("{} from {} (limit {}, plan {:?})", name(ty), hex(data), lim, plan.steps);
    let d = decode(api, inh, ty, data, lim, plan);
    if !same_status(status, d.status) {
        return Err(diff(api, &format!("status reading {}", desc), status, (d.status, &d.note)));
    }
    if d.status == 0 {
        if d.pos != pos {
            return Err(diff(api, &format!("bytes consumed reading {}", desc), pos, d.pos));
        }
        if let Some(v) = val {
            if d.val.as_ref() != Some(v) {
                return Err(diff(api, &format!("value reading {}", desc), v, d.val));
            }
        }
    }
    Ok(d)
}

pub fn same_status(want: i64, got: i64) -> bool {
    match want {
        ANYERR => (100..400).contains(&got),
        299 => (200..300).contains(&got),
        // any value or error
        997 => got == 0 || (100..400).contains(&got),
        _ => want == got,
    }
}

/// Heap allowed to a read limited to `n`: about four times what the code needs.
pub fn heap_bound(n: i64) -> usize {
    32768 + 256 * n as usize
}

fn sample(n: usize, full: usize) -> Vec<usize> {
    // all of 0..n when small, otherwise both ends and an even spread
    if n <= full {
        return (0..n).collect();
    }
    let q = full / 4;
    let mut v: Vec<usize> = (0..q).chain(n - q..n).collect();
    v.extend((0..2 * q).map(|k| q + k * (n - 2 * q) / (2 * q)));
    v.sort();
    v.dedup();
    v
}

pub fn value_line(c: &mut Cur) -> Value {
    let ty = c.n();
    let cost = c.n();
    let val = Val::parse(c.sec(), &mut 0);
    let bytes = expand(c.sec());
    Value { ty, cost, val, bytes }
}

const SUFFIX: &[u8] = &[0x15, 0x02, 0xff, 0x00, 0x8c];

fn c01(v: &Value, st: &mut Stat) -> J {
    for w in APIS {
        let e = encode(w, v.ty, &v.val, Plan::free());
        st.cases += 1;
        if e.status != 0 {
            return Err(diff(w, &format!("status writing {}", name(v.ty)), 0, (e.status, e.note)));
        }
        let mut longer = e.bytes.clone();
        longer.extend_from_slice(SUFFIX);
        for r in APIS {
            for inh in [true, false] {
                for (data, lim) in [(&e.bytes, -1), (&longer, v.cost)] {
                    expect_dec(st, r, inh, v.ty, data, lim, Plan::free(), 0, e.bytes.len(), Some(&v.val))?;
                }
            }
            // the crate's own notion of equality
            let same = crate::dispatch!(v.ty, X => {
                use crate::val::Meta;
                let x = X::build(&v.val);
                let p = std::sync::atomic::AtomicUsize::new(0);
                let y = X::rd(&mut parquet_format_safe::thrift::protocol::TCompactInputProtocol::new(Src::new(&e.bytes, &p, Plan::free()), usize::MAX), true);
                y.map(|y| x == y && y == y.clone()).unwrap_or(false)
            });
            if !same {
                return Err(format!("{} read back is not == to the value written", name(v.ty)));
            }
        }
    }
    Ok(())
}

fn c02(v: &Value, st: &mut Stat) -> J {
    for w in APIS {
        st.cases += 1;
        let e = encode(w, v.ty, &v.val, Plan::free());
        if e.status != 0 || e.bytes != v.bytes {
            return Err(diff(w, &format!("bytes of {} {:?}", name(v.ty), v.val), hex(&v.bytes), (e.status, hex(&e.bytes))));
        }
    }
    Ok(())
}

fn c06(ty: i64, bytes: &[u8], cost: i64, st: &mut Stat) -> J {
    for k in sample(bytes.len(), if bytes.len() > 3000 { 48 } else { 600 }) {
        for api in APIS {
            if api == Api::Boxed && k % 7 != 0 {
                continue;
            }
            let lims: &[i64] = if cost < 0 || k % 3 == 0 { &[-1, cost] } else { &[-1] };
            for &lim in lims {
                expect_dec(st, api, k % 2 == 0, ty, &bytes[..k], lim, Plan::free(), 104, 0, None)?;
            }
            if k % 5 == 0 {
                expect_dec(st, api, k % 2 == 0, ty, &bytes[..k], cost, drip(k), 104, 0, None)?;
            }
        }
    }
    Ok(())
}

fn c08(v: &Value, st: &mut Stat) -> J {
    let mut lims: Vec<i64> = sample(v.cost as usize, 80).into_iter().map(|x| x as i64).collect();
    lims.extend((1..=20).map(|k| v.cost - k).filter(|x| *x >= 0));
    lims.sort();
    lims.dedup();
    for api in APIS {
        for &l in &lims {
            if api == Api::Boxed && l + 3 < v.cost {
                continue;
            }
            let d = expect_dec(st, api, l % 2 == 0, v.ty, &v.bytes, l, Plan::free(), 203, 0, None)?;
            bounded(api, v.ty, l, &d)?;
        }
        for l in [v.cost, v.cost + 1, v.cost + 2, v.cost + 7, v.cost + 8, 2 * v.cost + 3, -1] {
            let d = expect_dec(st, api, l % 2 == 0, v.ty, &v.bytes, l, Plan::free(), 0, v.bytes.len(), Some(&v.val))?;
            bounded(api, v.ty, l, &d)?;
        }
    }
    Ok(())
}

/// The schedules that apply to a message: all repeating ones, and single ones if it is short.
/// A long message takes them as they are for the first few only, then with larger pieces: an
/// async read of a string costs the length it still lacks whenever the transport is not ready.
fn apply(plans: &[Plan], len: usize) -> Vec<Plan> {
    let all = plans.iter().filter(|p| p.cyc || p.steps.is_empty() || len <= 16);
    if len < 2000 {
        return all.cloned().collect();
    }
    let all: Vec<&Plan> = all.collect();
    let every = if len < 20000 { 1 } else { 1 + all.len() / 16 };
    all.iter()
        .enumerate()
        .filter(|(i, _)| i % every == 0)
        .map(|(i, p)| {
            let k = if i / every < 2 && len < 140000 { 1 } else { (len / 200) as i64 };
            let mut q = (*p).clone();
            q.steps.iter_mut().filter(|s| **s > 0).for_each(|s| *s *= k);
            q
        })
        .collect()
}

/// a repeating schedule, in larger pieces for a long message
fn cycle(steps: &[i64], len: usize) -> Plan {
    let k = if len < 20000 { 1 } else { (len / 100) as i64 };
    Plan::cycle(&steps.iter().map(|s| if *s > 0 { s * k } else { *s }).collect::<Vec<_>>())
}

/// async read and write of a value under a schedule
fn c09_val(v: &Value, w: &Enc, s: &Dec, plan: &Plan, st: &mut Stat) -> J {
    let a = encode(Api::Async, v.ty, &v.val, plan.clone());
    st.cases += 1;
    if (w.status, w.count, &w.bytes) != (a.status, a.count, &a.bytes) {
        return Err(diff(Api::Async, &format!("write of {} {:?} under plan {:?}", name(v.ty), v.val, plan), (w.status, w.count, hex(&w.bytes)), (a.status, a.count, hex(&a.bytes), a.note)));
    }
    c09_read(v.ty, &v.bytes, -1, s, plan, st)
}
fn c09_read(ty: i64, bytes: &[u8], lim: i64, s: &Dec, plan: &Plan, st: &mut Stat) -> J {
    for inh in [true, false] {
        let a = decode(Api::Async, inh, ty, bytes, lim, plan.clone());
        st.cases += 1;
        if (s.status, s.pos, &s.val) != (a.status, a.pos, &a.val) {
            return Err(diff(Api::Async, &format!("read of {} from {} with limit {} under plan {:?}", name(ty), hex(bytes), lim, plan),
                            (s.status, s.pos, &s.val), (a.status, a.pos, a.val, a.note)));
        }
    }
    Ok(())
}

fn c10_val(v: &Value, st: &mut Stat) -> J {
    for api in APIS {
        for plan in [Plan::free(), Plan::cycle(&[1]), Plan::cycle(&[3, 0, -1, 1])] {
            st.cases += 1;
            let e = encode(api, v.ty, &v.val, plan.clone());
            if e.status != 0 || e.count != e.bytes.len() {
                return Err(diff(api, &format!("count returned by writing {} {:?}", name(v.ty), v.val), e.bytes.len(), (e.status, e.count)));
            }
        }
    }
    Ok(())
}

/// status an I/O error kind (index into KINDS) must surface as
pub fn io_status(kind: usize) -> i64 {
    match kind {
        1..=3 => 101,
        4 => 102,
        5 => 103,
        6 => 104,
        _ => 100,
    }
}

fn apis(sync_only: bool) -> &'static [Api] {
    if sync_only {
        &[Api::Sync, Api::Boxed]
    } else {
        &[Api::Sync, Api::Async]
    }
}

/// short transfers and interruptions: success means everything was transferred
fn c11_plan(v: &Value, plan: &Plan, st: &mut Stat) -> J {
    for &api in apis(false) {
        st.cases += 1;
        let e = encode(api, v.ty, &v.val, plan.clone());
        if e.status != 0 || e.bytes != v.bytes {
            return Err(diff(api, &format!("write of {} through {:?}", name(v.ty), plan), (0, hex(&v.bytes)), (e.status, e.note, hex(&e.bytes))));
        }
        expect_dec(st, api, true, v.ty, &v.bytes, -1, plan.clone(), 0, v.bytes.len(), Some(&v.val))?;
    }
    Ok(())
}
/// a failure at offset `off`: everything before it transferred, the error's kind kept
fn c11_fail(v: &Value, off: usize, kind: usize, steps: &[i64], st: &mut Stat) -> J {
    for &api in apis(false) {
        let plan = cycle(steps, v.bytes.len()).failing(off, kind);
        st.cases += 1;
        let e = encode(api, v.ty, &v.val, plan.clone());
        if off < v.bytes.len() {
            let want = io_status(kind);
            if e.status != want || e.bytes != v.bytes[..off] {
                return Err(diff(api, &format!("write of {} failing at {} with {:?}, steps {:?}", name(v.ty), off, KINDS[kind], steps),
                                (want, hex(&v.bytes[..off])), (e.status, e.note, hex(&e.bytes))));
            }
            expect_dec(st, api, false, v.ty, &v.bytes, -1, plan, want, 0, None)?;
        } else {
            if e.status != 0 || e.bytes != v.bytes {
                return Err(diff(api, &format!("write of {} with room for {}", name(v.ty), off), (0, hex(&v.bytes)), (e.status, hex(&e.bytes))));
            }
            expect_dec(st, api, false, v.ty, &v.bytes, -1, plan, 0, v.bytes.len(), Some(&v.val))?;
        }
    }
    Ok(())
}
/// a writer that accepts nothing from offset `off` on, a source that delivers nothing
fn c11_zero(v: &Value, off: usize, steps: &[i64], st: &mut Stat) -> J {
    for &api in apis(false) {
        let plan = cycle(steps, v.bytes.len()).zero(off);
        st.cases += 1;
        let e = encode(api, v.ty, &v.val, plan.clone());
        if !(100..200).contains(&e.status) || e.bytes != v.bytes[..off] {
            return Err(diff(api, &format!("write of {} accepting nothing from {}", name(v.ty), off), ("transport error", hex(&v.bytes[..off])), (e.status, e.note, hex(&e.bytes))));
        }
        expect_dec(st, api, true, v.ty, &v.bytes, -1, plan, 104, 0, None)?;
    }
    Ok(())
}

pub struct DecLine {
    pub ty: i64,
    pub lim: i64,
    pub status: i64,
    pub pos: usize,
    pub bytes: Vec<u8>,
    pub val: Option<Val>,
}
pub fn dec_line(c: &mut Cur) -> DecLine {
    let ty = c.n();
    let lim = c.n();
    let status = c.n();
    let pos = c.n() as usize;
    let bytes = expand(c.sec());
    let f = c.sec();
    DecLine { ty, lim, status, pos, bytes, val: if f.is_empty() { None } else { Some(Val::parse(f, &mut 0)) } }
}

/// the heap a limited read may use
fn bounded(api: Api, ty: i64, lim: i64, d: &Dec) -> J {
    if lim >= 0 && d.heap > heap_bound(lim) {
        return Err(diff(api, &format!("heap reading {} with limit {}", name(ty), lim), heap_bound(lim), d.heap));
    }
    Ok(())
}

fn dec_exact(l: &DecLine, heap: bool, st: &mut Stat) -> J {
    for api in APIS {
        for inh in [true, false] {
            let d = expect_dec(st, api, inh, l.ty, &l.bytes, l.lim, Plan::free(), l.status, l.pos, l.val.as_ref())?;
            if heap {
                bounded(api, l.ty, l.lim, &d)?;
            }
        }
        expect_dec(st, api, true, l.ty, &l.bytes, l.lim, Plan::cycle(&[1, 0, 2]), l.status, l.pos, l.val.as_ref())?;
    }
    Ok(())
}

/// C07: some value or error, after a number of transport calls the input accounts for
fn answered(api: Api, what: &str, data: &[u8], lim: i64, status: i64, calls: usize, note: impl std::fmt::Debug) -> J {
    if status != 0 && !(100..400).contains(&status) {
        return Err(diff(api, &format!("reading {} from {} (limit {})", what, hex(data), lim), "a value or an error", (status, note)));
    }
    if calls > 16 * data.len() + 4096 {
        return Err(diff(api, &format!("transport calls reading {} from {} (limit {})", what, hex(data), lim), 16 * data.len() + 4096, calls));
    }
    Ok(())
}

/// A history of reads from a source cut off anywhere: the calls that need no more than what is
/// left give what they gave, the first that needs more reports the end of file.
fn cut_ops(l: &RLine, st: &mut Stat) -> J {
    if l.lim >= 0 || l.want.iter().any(|w| w.status != 0) {
        return Ok(());
    }
    let end = l.want.last().map(|w| w.pos).unwrap_or(0);
    for cut in sample(end, 64) {
        for api in APIS {
            if (api == Api::Async && sync_only(&l.ops)) || (api == Api::Boxed && cut % 4 != 0) {
                continue;
            }
            st.cases += 1;
            let plan = if cut % 3 == 1 { Plan::cycle(&[1, 0, 2]) } else { Plan::free() };
            let r = run_read(api, &l.bytes[..cut], -1, plan, &l.ops);
            let at = l.want.iter().position(|w| w.pos > cut).unwrap_or(l.want.len());
            for (i, g) in r.outs.iter().enumerate() {
                let ok = if i < at { g.status == 0 && same_res(&l.ops[i], &l.want[i].res, &g.res) } else { g.status == 104 };
                if !ok {
                    return Err(diff(api, &format!("operation {} {:?} on {} cut to {} bytes", i, l.ops[i], hex(&l.bytes), cut), if i < at { (0, &l.want[i].res) } else { (104, &l.want[i].res) }, (g, &r.panic)));
                }
            }
            if r.outs.len() != at + (at < l.ops.len()) as usize {
                return Err(diff(api, &format!("{:?} on {} cut to {} bytes", l.ops, hex(&l.bytes), cut), at + 1, &r.outs));
            }
        }
    }
    Ok(())
}

/// A transport delivering little at a time.  (A string read asynchronously costs the length it
/// still lacks whenever the transport is not ready, so megabytes do not come in single bytes.)
fn drip(len: usize) -> Plan {
    if len < 10000 { Plan::cycle(&[1, 0, -1, 2]) } else { Plan::cycle(&[1, 0, (len / 50) as i64, -1]) }
}

/// One operation on a prefix followed by each of the 256 bytes
fn bytes_line(prop: &str, c: &mut Cur, st: &mut Stat) -> J {
    let op = Op { code: c.n(), args: c.sec().to_vec() };
    let mut data: Vec<u8> = c.sec().iter().map(|b| *b as u8).collect();
    data.push(0);
    for b in 0..=255u8 {
        let status = c.n();
        let want = if status == 0 { Out { status, pos: c.n() as usize, res: c.sec().to_vec() } } else { Out { status, pos: 0, res: vec![] } };
        *data.last_mut().unwrap() = b;
        let mine = prop != "C17" || matches!(status, 100 | 201 | 206);
        if !mine {
            continue;
        }
        let ops = [op.clone()];
        let run = |api, plan| {
            let r = run_read(api, &data, -1, plan, &ops);
            let o = r.outs.last().cloned().unwrap_or(Out { status: 999, pos: 0, res: vec![] });
            (o, r.calls, r.panic)
        };
        if prop == "C09" {
            let s = run(Api::Sync, Plan::free()).0;
            for plan in [Plan::free(), Plan::cycle(&[1, 0])] {
                st.cases += 1;
                let (a, _, panic) = run(Api::Async, plan);
                if a.status != s.status || (s.status == 0 && a != s) {
                    return Err(diff(Api::Async, &format!("{:?} on {}", op, hex(&data)), s, (a, panic)));
                }
            }
            continue;
        }
        for api in APIS {
            if api == Api::Boxed && b % 16 != 0 {
                continue;
            }
            st.cases += 1;
            let (g, calls, panic) = run(api, Plan::free());
            if prop == "C07" {
                answered(api, &format!("{:?}", op), &data, -1, g.status, calls, &panic)?;
            } else if !same_status(status, g.status) || (status == 0 && (g.pos != want.pos || !same_res(&op, &want.res, &g.res))) {
                return Err(diff(api, &format!("{:?} on {}", op, hex(&data)), want, (g, &panic)));
            }
        }
    }
    Ok(())
}

pub struct RLine {
    pub lim: i64,
    pub bytes: Vec<u8>,
    pub ops: Vec<Op>,
    pub want: Vec<Out>,
}
pub fn r_line(c: &mut Cur) -> RLine {
    let lim = c.n();
    let bytes = expand(c.sec());
    let n = c.n();
    let (mut ops, mut want) = (vec![], vec![]);
    for _ in 0..n {
        let code = c.n();
        ops.push(Op { code, args: c.sec().to_vec() });
        let status = c.n();
        let pos = c.n() as usize;
        want.push(Out { status, pos, res: c.sec().to_vec() });
    }
    RLine { lim, bytes, ops, want }
}
/// results of VAL ops may be given in run form: compare as values
fn same_res(op: &Op, want: &[i64], got: &[i64]) -> bool {
    want == got || (matches!(op.code, VAL | READ_LIST) && !want.is_empty() && !got.is_empty() && Val::parse(want, &mut 0) == Val::parse(got, &mut 0))
        || (matches!(op.code, STRING | BYTES | MSG_BEGIN) && want.iter().any(|x| *x < 0) && expand(want).iter().map(|b| *b as i64).eq(got.iter().copied()))
}
pub fn sync_only(ops: &[Op]) -> bool {
    ops.iter().any(|o| matches!(o.code, APPERR | SEEK))
}
fn r_exact(l: &RLine, plans: &[Plan], heap: bool, st: &mut Stat) -> J {
    for api in APIS {
        if api == Api::Async && sync_only(&l.ops) {
            continue;
        }
        for plan in plans {
            st.cases += 1;
            let r = run_read(api, &l.bytes, l.lim, plan.clone(), &l.ops);
            // results of earlier operations are kept, as eight-byte integers
            let kept: usize = r.outs.iter().map(|o| 1024 + 16 * o.res.len()).sum();
            if heap && l.lim >= 0 && r.heap > heap_bound(l.lim) + kept {
                return Err(diff(api, &format!("heap of {:?} on {} with limit {}", l.ops, hex(&l.bytes), l.lim), heap_bound(l.lim) + kept, r.heap));
            }
            for (i, w) in l.want.iter().enumerate() {
                let g = match r.outs.get(i) {
                    Some(g) => g,
                    None => return Err(diff(api, &format!("operation {} {:?} on {} not reached", i, l.ops[i], hex(&l.bytes)), w, ())),
                };
                let ok = same_status(w.status, g.status) && (w.status != 0 || (w.pos == g.pos && same_res(&l.ops[i], &w.res, &g.res)));
                if !ok {
                    return Err(diff(api, &format!("operation {} {:?} on {} with limit {}", i, l.ops[i], hex(&l.bytes), l.lim), w, (g, &r.panic)));
                }
                if w.status != 0 {
                    break;
                }
            }
        }
    }
    Ok(())
}

pub struct WLine {
    pub ops: Vec<Op>,
    pub emitted: Vec<usize>,
    pub bytes: Vec<u8>,
}
pub fn w_line(c: &mut Cur) -> WLine {
    let n = c.n();
    let (mut ops, mut emitted) = (vec![], vec![]);
    for _ in 0..n {
        let code = c.n();
        ops.push(Op { code, args: c.sec().to_vec() });
        emitted.push(c.n() as usize);
    }
    WLine { ops, emitted, bytes: expand(c.sec()) }
}
fn w_exact(l: &WLine, counts: bool, st: &mut Stat) -> J {
    for api in APIS {
        if api == Api::Async && sync_only(&l.ops) {
            continue;
        }
        for plan in [Plan::free(), Plan::cycle(&[1, 0, -1])] {
            st.cases += 1;
            let r = run_write(api, plan.clone(), &l.ops);
            let mut total = 0;
            for (i, e) in l.emitted.iter().enumerate() {
                let (s, n, len) = *r.outs.get(i).unwrap_or(&(999, 0, 0));
                let here = len - total.min(len);
                total += e;
                if s != 0 {
                    return Err(diff(api, &format!("status of operation {} {:?} in {:?}", i, l.ops[i], l.ops), 0, (s, &r.panic)));
                }
                // an application error's count is not returned
                if counts && l.ops[i].code != APPERR && (n != here || n != *e) {
                    return Err(diff(api, &format!("count of operation {} {:?} in {:?}", i, l.ops[i], l.ops), (*e, here), n));
                }
                if len != total {
                    return Err(diff(api, &format!("bytes emitted by operation {} {:?} in {:?}", i, l.ops[i], l.ops), e, here));
                }
            }
            if r.bytes != l.bytes {
                return Err(diff(api, &format!("bytes of {:?}", l.ops), hex(&l.bytes), hex(&r.bytes)));
            }
        }
    }
    Ok(())
}

/// A schedule line: 9, cyclic, steps
pub fn plan_line(c: &mut Cur) -> Plan {
    let cyc = c.n() == 1;
    let s = c.sec();
    if cyc {
        Plan::cycle(s)
    } else {
        Plan::once(s)
    }
}

pub fn judge(prop: &str, line: &[i64], plans: &[Plan], st: &mut Stat) -> J {
    let mut c = Cur::new(line);
    let kind = c.n();
    match (kind, prop) {
        (1, "C01") => c01(&value_line(&mut c), st),
        (1, "C02") => c02(&value_line(&mut c), st),
        (1, "C06") => {
            let v = value_line(&mut c);
            c06(v.ty, &v.bytes, v.cost, st)
        }
        (1, "C08") => c08(&value_line(&mut c), st),
        (1, "C09") => {
            let v = value_line(&mut c);
            let w = encode(Api::Sync, v.ty, &v.val, Plan::free());
            let s = decode(Api::Sync, true, v.ty, &v.bytes, -1, Plan::free());
            for p in &apply(plans, v.bytes.len()) {
                c09_val(&v, &w, &s, p, st)?;
            }
            Ok(())
        }
        (1, "C10") => c10_val(&value_line(&mut c), st),
        (1, "C11") => {
            let v = value_line(&mut c);
            let n = v.bytes.len();
            for p in &apply(plans, n) {
                c11_plan(&v, p, st)?;
            }
            let big = n > 400;
            for off in sample(n + 1, if n > 300000 { 8 } else if big { 24 } else { 120 }) {
                for kind in 0..KINDS.len() {
                    // every kind at every offset of short messages, rotating kinds otherwise
                    if n <= 40 || (off + kind) % 6 == 0 || off == 0 || off + 1 == n {
                        c11_fail(&v, off, kind, &[], st)?;
                        if (off + kind) % 3 == 0 {
                            c11_fail(&v, off, kind, &[2, 0, -1, 1], st)?;
                        }
                    }
                }
                if off < n {
                    c11_zero(&v, off, &[], st)?;
                    c11_zero(&v, off, &[1, -1, 3], st)?;
                }
            }
            Ok(())
        }
        (1, "C14") => {
            let v = value_line(&mut c);
            c02(&v, st)?;
            c01(&v, st)
        }
        (2, "C06") => {
            let l = dec_line(&mut c);
            if l.status == 0 {
                c06(l.ty, &l.bytes[..l.pos], -1, st)
            } else {
                Ok(())
            }
        }
        (2, "C09") => {
            let l = dec_line(&mut c);
            let s = decode(Api::Sync, true, l.ty, &l.bytes, l.lim, Plan::free());
            for p in &apply(plans, l.bytes.len()) {
                c09_read(l.ty, &l.bytes, l.lim, &s, p, st)?;
            }
            Ok(())
        }
        (2, "C11") => {
            let l = dec_line(&mut c);
            for p in &apply(plans, l.bytes.len()) {
                for &api in apis(false) {
                    expect_dec(st, api, true, l.ty, &l.bytes, l.lim, p.clone(), l.status, l.pos, l.val.as_ref())?;
                }
            }
            Ok(())
        }
        (2, "C07") => {
            let l = dec_line(&mut c);
            for api in APIS {
                for (inh, plan) in [(true, Plan::free()), (false, Plan::free()), (true, drip(l.bytes.len()))] {
                    st.cases += 1;
                    let d = decode(api, inh, l.ty, &l.bytes, l.lim, plan);
                    answered(api, &name(l.ty), &l.bytes, l.lim, d.status, d.calls, &d.note)?;
                }
            }
            Ok(())
        }
        (4, "C07") => {
            let l = r_line(&mut c);
            for api in APIS {
                if api == Api::Async && sync_only(&l.ops) {
                    continue;
                }
                for plan in [Plan::free(), drip(l.bytes.len())] {
                    st.cases += 1;
                    let r = run_read(api, &l.bytes, l.lim, plan, &l.ops);
                    let s = r.outs.last().map(|o| o.status).unwrap_or(0);
                    answered(api, &format!("{:?}", &l.ops[..l.ops.len().min(8)]), &l.bytes, l.lim, s, r.calls, &r.panic)?;
                }
            }
            Ok(())
        }
        (2, _) => dec_exact(&dec_line(&mut c), prop == "C08", st),
        (3, "C09") => {
            let l = w_line(&mut c);
            if sync_only(&l.ops) {
                return Ok(());
            }
            let s = run_write(Api::Sync, Plan::free(), &l.ops);
            for p in &apply(plans, l.bytes.len()) {
                st.cases += 1;
                let a = run_write(Api::Async, p.clone(), &l.ops);
                if (&s.outs, &s.bytes) != (&a.outs, &a.bytes) {
                    return Err(diff(Api::Async, &format!("{:?} under {:?}", l.ops, p), (&s.outs, hex(&s.bytes)), (&a.outs, hex(&a.bytes), a.panic)));
                }
            }
            Ok(())
        }
        (4, "C09") => {
            let l = r_line(&mut c);
            if sync_only(&l.ops) {
                return Ok(());
            }
            let s = run_read(Api::Sync, &l.bytes, l.lim, Plan::free(), &l.ops);
            for p in &apply(plans, l.bytes.len()) {
                st.cases += 1;
                let a = run_read(Api::Async, &l.bytes, l.lim, p.clone(), &l.ops);
                if let Some(i) = (0..s.outs.len().max(a.outs.len())).find(|i| s.outs.get(*i) != a.outs.get(*i)) {
                    // bytes used by a failing operation are not compared
                    let bad = match (s.outs.get(i), a.outs.get(i)) {
                        (Some(x), Some(y)) => x.status == 0 || x.status != y.status,
                        _ => true,
                    };
                    if bad {
                        return Err(diff(Api::Async, &format!("operation {} {:?} on {} under {:?}", i, l.ops.get(i), hex(&l.bytes), p), s.outs.get(i), (a.outs.get(i), a.panic)));
                    }
                }
            }
            Ok(())
        }
        (3, "C11") => {
            let l = w_line(&mut c);
            let n = l.bytes.len();
            for &api in apis(sync_only(&l.ops)) {
                for p in &apply(plans, n) {
                    st.cases += 1;
                    let r = run_write(api, p.clone(), &l.ops);
                    if r.bytes != l.bytes || r.outs.len() != l.ops.len() || r.outs.iter().any(|o| o.0 != 0) {
                        return Err(diff(api, &format!("{:?} through {:?}", l.ops, p), hex(&l.bytes), (&r.outs, hex(&r.bytes), r.panic)));
                    }
                }
                for off in sample(n, 40) {
                    for kind in [off % KINDS.len(), (off + 5) % KINDS.len()] {
                        for zero in [false, true] {
                            st.cases += 1;
                            let p = Plan::cycle(if off % 2 == 0 { &[] } else { &[2, 0, -1, 1] });
                            let r = run_write(api, if zero { p.zero(off) } else { p.failing(off, kind) }, &l.ops);
                            let got = r.outs.last().map(|o| o.0).unwrap_or(0);
                            let ok = if zero { (100..200).contains(&got) } else { got == io_status(kind) };
                            if !ok || r.bytes != l.bytes[..off] {
                                return Err(diff(api, &format!("{:?} failing at {} with {:?}", l.ops, off, if zero { None } else { Some(KINDS[kind]) }),
                                                (io_status(kind), hex(&l.bytes[..off])), (&r.outs, hex(&r.bytes), r.panic)));
                            }
                        }
                    }
                }
            }
            Ok(())
        }
        (4, "C11") => {
            let l = r_line(&mut c);
            let all = apply(plans, l.bytes.len());
            r_exact(&l, &all, false, st)?;
            // a failure at any offset the history needs is reported, whatever was read before it
            let s = run_read(Api::Sync, &l.bytes, l.lim, Plan::free(), &l.ops);
            let end = s.outs.last().map(|o| o.pos).unwrap_or(0);
            if s.outs.iter().all(|o| o.status == 0) {
                for &api in apis(sync_only(&l.ops)) {
                    for off in sample(end, 40) {
                        for kind in [off % KINDS.len(), (off + 5) % KINDS.len()] {
                            st.cases += 1;
                            let p = Plan::cycle(if off % 2 == 0 { &[] } else { &[2, 0, -1, 1] }).failing(off, kind);
                            let r = run_read(api, &l.bytes, l.lim, p, &l.ops);
                            let got = r.outs.last().map(|o| o.status).unwrap_or(0);
                            let n = r.outs.len().max(1) - 1;
                            if got != io_status(kind) || r.outs[..n] != s.outs[..n] {
                                return Err(diff(api, &format!("{:?} on {} failing at {} with {:?}", l.ops, hex(&l.bytes), off, KINDS[kind]), (io_status(kind), &s.outs[..n]), (&r.outs, r.panic)));
                            }
                        }
                    }
                }
            }
            Ok(())
        }
        (4, "C06") => cut_ops(&r_line(&mut c), st),
        (12, _) => {
            let (kind, want) = (c.n() as usize, c.n());
            if io_status(kind) != want {
                return Err(format!("HARNESS: status of I/O error {:?}", KINDS[kind]));
            }
            for api in APIS {
                st.cases += 1;
                let flush = [Op { code: FLUSH, args: vec![] }];
                let r = run_write(api, Plan::free().flushing(kind), &flush);
                let k = run_write(api, Plan::free(), &flush);
                if r.outs.first().map(|o| o.0) != Some(want) || k.outs.first().map(|o| o.0) != Some(0) || k.flushes != 1 {
                    return Err(diff(api, &format!("flush failing with {:?}", KINDS[kind]), want, (r.outs, k.outs, k.flushes)));
                }
            }
            Ok(())
        }
        (3, "C10") => w_exact(&w_line(&mut c), true, st),
        (3, _) => w_exact(&w_line(&mut c), false, st),
        (4, _) => r_exact(&r_line(&mut c), &[Plan::free(), Plan::cycle(&[1, 0, 2])], prop == "C08", st),

        (7, _) => {
            let ty = c.n();
            let want: Vec<i32> = c.sec().iter().map(|x| *x as i32).collect();
            let (consts, values) = crate::glue::enum_consts(ty);
            st.cases += 1;
            let got: Vec<i32> = consts.iter().map(|x| x.1).collect();
            if got != want {
                return Err(format!("constants of {}: expected {:?}, got {:?}", name(ty), want, consts));
            }
            if values != want {
                return Err(format!("known values of {}: expected {:?}, got {:?}", name(ty), want, values));
            }
            Ok(())
        }
        (8, _) => {
            let ty = c.n();
            let i = word(c.take(8)) as i32;
            st.cases += 1;
            let got = crate::glue::enum_convs(ty, i);
            if got.iter().any(|x| *x != i) {
                return Err(format!("conversions of {} through {}: {:?}", i, name(ty), got));
            }
            Ok(())
        }
        (10, _) => {
            use parquet_format_safe::thrift::protocol as pr;
            let which = c.n();
            let (a, b, want) = (c.sec(), c.sec(), c.n());
            st.cases += 1;
            let text = |x: &[i64]| String::from_utf8(expand(x)).expect("UTF-8");
            let r = match which {
                1 => pr::verify_expected_sequence_number(word(a) as i32, word(b) as i32),
                2 => pr::verify_expected_service_call(&text(a), &text(b)),
                3 => pr::verify_expected_message_type(mtype(a[0]), mtype(b[0])),
                x => panic!("helper {}", x),
            };
            let got = r.as_ref().map(|_| 0).unwrap_or_else(|e| code(e));
            if got != want {
                return Err(format!("helper {} on {:?} and {:?}: expected {}, got {:?}", which, a, b, want, r));
            }
            Ok(())
        }
        (11, _) => {
            use parquet_format_safe::thrift::protocol::TMessageType;
            let (a, want) = (c.n(), c.n());
            st.cases += 1;
            let r = TMessageType::try_from(a as u8);
            let got = r.as_ref().map(|_| 0).unwrap_or_else(|e| code(e));
            if got != want || matches!(&r, Ok(m) if u8::from(*m) as i64 != a) {
                return Err(format!("message type {}: expected {}, got {:?}", a, want, r));
            }
            Ok(())
        }
        (14, _) => crate::misc::order_line(&mut c, st),
        (15, _) => crate::misc::error_line(&mut c, st),
        (16, _) => crate::misc::ident_line(&mut c, st),
        (17, _) => crate::tape::tape_line(&mut c, st),
        (13, _) => bytes_line(prop, &mut c, st),
        (5, _) => crate::vint::enc_line(&mut c, st),
        (6, _) => crate::vint::dec_line(&mut c, st),
        _ => Err(format!("HARNESS: line kind {} is not for {}", kind, prop)),
    }
}
