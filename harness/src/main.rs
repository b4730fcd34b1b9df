#![allow(unused_parens, clippy::all)]
mod alloc;
mod glue;
mod io;
mod judge;
mod misc;
mod ops;
mod rec;
mod tape;
mod val;
mod vint;

use std::fs::File;
use std::io::{BufRead, BufReader, Write};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

/// Lines are numbers separated by anything else; a line not containing "<<" is ignored.
fn parse(l: &str) -> Option<Vec<i64>> {
    let i = l.find("<<")?;
    let mut v = vec![];
    let (mut n, mut neg, mut on) = (0i64, false, false);
    for b in l.as_bytes()[i..].iter() {
        match b {
            b'0'..=b'9' => {
                n = n * 10 + (*b - b'0') as i64;
                on = true;
            }
            _ => {
                if on {
                    v.push(if neg { -n } else { n });
                    n = 0;
                    on = false;
                    neg = false;
                }
                if *b == b'-' {
                    neg = true;
                }
            }
        }
    }
    Some(v)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("replay") => replay(&args[2], &args[3], args.get(4).map(|s| s.as_str())),
        Some("record") => rec::record(&args[2], args[3].parse().expect("seed"), args[4].parse().expect("count"), &args[5]),
        _ => {
            eprintln!("usage: conform replay PROP LINES [PROGRESS] | record WHAT SEED COUNT FILE");
            std::process::exit(2);
        }
    }
}

/// processor seconds after which a line counts as hanging: the longest legitimate ones take
/// under 5 s.  One that waits, rather than computes, counts as hanging after STUCK seconds.
fn hang(prop: &str) -> u64 {
    if prop == "C07" { 30 } else { 60 }
}
const STUCK: u64 = 240;

/// processor seconds a thread has used so far
fn used(tid: usize) -> u64 {
    let stat = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
    let f: Vec<&str> = stat.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    f.get(11..13).map_or(0, |t| t.iter().map(|x| x.parse::<u64>().unwrap_or(0)).sum::<u64>() / 100)
}

fn tid() -> usize {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok()).unwrap_or(0)
}

struct Busy {
    line: AtomicUsize,
    since: AtomicU64,
    used: AtomicU64,
    tid: AtomicUsize,
}
const MAXV: usize = 20;

fn replay(prop: &str, file: &str, progress: Option<&str>) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut lines: Vec<Vec<i64>> = vec![];
    let mut plans: Vec<io::Plan> = vec![];
    let mut nlines = 0;
    for l in BufReader::new(File::open(file).expect("lines")).lines() {
        if let Some(v) = parse(&l.expect("utf-8")) {
            if v[0] == 9 {
                plans.push(judge::plan_line(&mut judge::Cur::new(&v[1..])));
            } else {
                lines.push(v);
            }
            nlines += 1;
        }
    }
    if plans.is_empty() {
        plans.push(io::Plan::free());
        plans.push(io::Plan::cycle(&[1, 0]));
    }
    let jobs = if progress.is_some() { 1 } else { 8 };
    let slowest = AtomicU64::new(0);
    let next = AtomicUsize::new(0);
    let cases = AtomicU64::new(0);
    let found: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    let start = Instant::now();
    let busy: Vec<Busy> = (0..jobs)
        .map(|_| Busy { line: AtomicUsize::new(usize::MAX), since: AtomicU64::new(0), used: AtomicU64::new(0), tid: AtomicUsize::new(0) })
        .collect();
    let left = AtomicUsize::new(jobs);
    let report = |found: &[(usize, String)]| {
        for (i, m) in found.iter().take(MAXV) {
            println!("FAIL {} {}", i, m.replace('\n', " "));
            println!("LINE {} {:?}", i, lines[*i]);
        }
        println!("DONE lines={} cases={} plans={} fails={} secs={:.1} slowest={}ms", nlines, cases.load(Relaxed), plans.len(), found.len(), start.elapsed().as_secs_f64(), slowest.load(Relaxed));
    };
    std::thread::scope(|s| {
        for j in 0..jobs {
            let (lines, plans, next, cases, found, busy, left, slowest) = (&lines, &plans, &next, &cases, &found, &busy, &left, &slowest);
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(s, move || {
                    busy[j].tid.store(tid(), Relaxed);
                    let mut out = progress.map(|p| File::create(p).expect("progress"));
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= lines.len() || found.lock().unwrap().len() >= MAXV {
                            break;
                        }
                        let t = Instant::now();
                        busy[j].since.store(start.elapsed().as_secs(), Relaxed);
                        busy[j].used.store(u64::MAX, Relaxed);
                        busy[j].line.store(i, Relaxed);
                        if let Some(f) = out.as_mut() {
                            writeln!(f, "{}", i).expect("progress");
                        }
                        let mut st = judge::Stat::default();
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| judge::judge(prop, &lines[i], plans, &mut st)));
                        cases.fetch_add(st.cases, Relaxed);
                        slowest.fetch_max(t.elapsed().as_millis() as u64, Relaxed);
                        match r {
                            Ok(Ok(())) => {}
                            Ok(Err(m)) => found.lock().unwrap().push((i, m)),
                            Err(e) => {
                                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                                found.lock().unwrap().push((i, format!("HARNESS: panic {}", m)));
                            }
                        }
                        busy[j].line.store(usize::MAX, Relaxed);
                    }
                    left.fetch_sub(1, Relaxed);
                })
                .expect("thread");
        }
        // watchdog
        while left.load(Relaxed) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            let now = start.elapsed().as_secs();
            for b in &busy {
                let i = b.line.load(Relaxed);
                if i == usize::MAX || now < b.since.load(Relaxed) + 5 {
                    continue;
                }
                // five seconds in, start counting processor time
                let u = used(b.tid.load(Relaxed));
                if b.used.load(Relaxed) == u64::MAX {
                    b.used.store(u, Relaxed);
                }
                let spent = u.saturating_sub(b.used.load(Relaxed));
                if b.line.load(Relaxed) == i && (spent > hang(prop) || now > b.since.load(Relaxed) + STUCK) {
                    report(&[(i, format!("no answer within {} s", hang(prop)))]);
                    std::process::exit(0);
                }
            }
        }
    });
    let mut f = found.into_inner().unwrap();
    f.sort();
    report(&f);
}
