//! Binds the specification in /verif/spec to the real dync crate.
mod core;
mod driver;
mod exec;
mod mem;
mod reg;
mod types;
mod view;

use driver::*;
use std::collections::HashSet;
use std::io::Write as _;
use types::*;

#[global_allocator]
static ALLOC: mem::Mem = mem::Mem;

struct Args {
    file: String,
    binds: Vec<Vec<(String, Ty)>>,
    seed: usize,
    only: Option<String>,
    howc: Option<usize>,
    progress: Option<String>,
    out: String,
    shards: usize,
    suffix: usize,
    max_k: u32,
    deep: bool,
    max: usize,
}

fn args() -> (String, Args) {
    let mut it = std::env::args().skip(1);
    let mode = it.next().expect("mode");
    let mut a = Args {
        file: String::new(),
        binds: vec![],
        seed: 0,
        only: None,
        howc: None,
        progress: None,
        out: "out".into(),
        shards: 1,
        suffix: 3,
        max_k: 64,
        deep: true,
        max: usize::MAX,
    };
    while let Some(x) = it.next() {
        let mut v = || it.next().expect("value");
        match &*x {
            "--bind" => a.binds.push(
                v().split(',')
                    .map(|p| {
                        let (n, t) = p.split_once('=').unwrap();
                        (n.to_string(), ty_of(t))
                    })
                    .collect(),
            ),
            "--seed" => a.seed = v().parse().unwrap(),
            "--only" => a.only = Some(v()),
            "--howc" => a.howc = Some(v().parse().unwrap()),
            "--progress" => a.progress = Some(v()),
            "--out" => a.out = v(),
            "--shards" => a.shards = v().parse().unwrap(),
            "--suffix" => a.suffix = v().parse().unwrap(),
            "--max-k" => a.max_k = v().parse().unwrap(),
            "--max" => a.max = v().parse().unwrap(),
            "--shallow" => a.deep = false,
            f => a.file = f.to_string(),
        }
    }
    (mode, a)
}

fn bind_name(b: &[(String, Ty)]) -> String {
    let v: Vec<String> = b.iter().map(|(n, t)| format!("{n}={}", ALL.iter().find(|x| x.0 == *t).unwrap().1)).collect();
    v.join(",")
}

/// Is a value given to a `VecCopy` that was built from the type information of something that
/// needs to be dropped lost?
fn probe_copy() -> bool {
    reg::reg().reset();
    let d: dync::VecDyn<core::FV> = dync::VecDyn::with_type::<D8>();
    let mut c: dync::VecCopy<core::FV> = dync::VecCopy::with_type_from(d.as_slice());
    if c.push_as(<D8 as El>::new(1)).is_none() {
        return false;
    }
    drop(c);
    reg::reg().nlive != 0
}

/// Is the box handed out by `into_raw_parts` released with a layout other than its own?
fn probe_raw_box() -> bool {
    reg::reg().reset();
    mem::mem().forget_all();
    mem::mem().keep_log = true;
    let _t = mem::Track::set(true);
    let b: dync::BoxValue<core::FV> = dync::BoxValue::new(<D8 as El>::new(1));
    let (bytes, ..) = b.into_raw_parts();
    drop(bytes);
    let m = mem::mem();
    m.keep_log = false;
    let log = &m.log[..m.nlog];
    log.iter().any(|e| match e {
        mem::Ev::Dealloc(id, size, align) => log.iter().any(|a| matches!(a, mem::Ev::Alloc(i, s, l) if i == id && (s != size || l != align))),
        _ => false,
    })
}

fn main() {
    // Unoptimised code keeps many elements on the stack, some of which are large.
    std::thread::spawn(mem::watch);
    let t = std::thread::Builder::new().stack_size(1 << 30).spawn(run).unwrap();
    if t.join().is_err() {
        std::process::exit(101);
    }
}

fn run() {
    let (mode, a) = args();
    std::panic::set_hook(Box::new(|_| {}));
    if mode == "types" {
        for (t, n) in ALL {
            let i = info(*t);
            println!("{n} {} {} {} {}", i.size, i.align, i.copy, word(*t));
        }
        return;
    }
    if mode == "probe" {
        // A panic (a refusal) is not the defect.
        for (key, f) in [("VecCopy::with_type_from", probe_copy as fn() -> bool), ("BoxValue::into_raw_parts", probe_raw_box)] {
            let found = std::panic::catch_unwind(f).unwrap_or(false);
            println!("PROBE {key} {}", found as u8);
        }
        return;
    }
    let file = match std::fs::read_to_string(&a.file) {
        Ok(t) => File::parse(&t),
        Err(_) => std::process::exit(3),
    };
    let mut progress = a.progress.as_ref().map(|p| std::fs::File::create(p).unwrap());
    let mut steps = 0usize;
    let mut runs = 0usize;
    let mut failed = 0;
    let mut shards: Vec<String> = vec![String::new(); a.shards];
    let mut seen = HashSet::new();
    // Panicking for the first time allocates in the runtime.
    let _ = std::panic::catch_unwind(|| panic!("warm up {}", 1));
    'outer: for (bi, b) in a.binds.iter().enumerate() {
        seen.clear();
        for (k, s) in file.scripts.iter().enumerate() {
            if let Some(o) = &a.only {
                if *o != s.id {
                    continue;
                }
            }
            let howc = a.howc.unwrap_or(a.seed.wrapping_mul(7919).wrapping_add(k * 31 + bi * 17) % 100_000);
            if let Some(p) = &mut progress {
                use std::io::Seek;
                p.seek(std::io::SeekFrom::Start(0)).unwrap();
                let _ = p.write_all(format!("{:<8}{:<8}{:<70}\n", s.id, howc, bind_name(b)).as_bytes());
            }
            mem::mem().fresh();
            match &*mode {
                "compare" => {
                    let mut d = Driver::new(&file, s, b, Mode::Compare, a.deep, howc);
                    d.play();
                    steps += d.cbs.len();
                    runs += 1;
                    if d.error.is_none() {
                        d.finish();
                    }
                    if let Some(e) = d.error.take() {
                        println!("MISMATCH script={} bind={} howc={} {}", s.id, bind_name(b), howc, e);
                        // A broken container may not be safe to drop.
                        std::mem::forget(d);
                        failed += 1;
                        if failed >= 5 {
                            break 'outer;
                        }
                    }
                }
                "log" => {
                    let mut d = Driver::new(&file, s, b, Mode::Log, a.deep, howc);
                    d.log_start();
                    d.play();
                    d.finish();
                    steps += d.cbs.len();
                    shards[runs % a.shards].push_str(&d.log);
                    runs += 1;
                }
                "fault" => {
                    let mut out = String::new();
                    runs += faults(&file, s, b, howc, a.suffix, &mut seen, a.max_k, &mut out);
                    steps += out.lines().count();
                    shards[(k + bi) % a.shards].push_str(&out);
                    if runs >= a.max {
                        break;
                    }
                }
                "heap" => {
                    mem::mem().forget_all();
                    mem::mem().keep_log = true;
                    let mut d = Driver::new(&file, s, b, Mode::Heap, false, howc);
                    d.log.push_str(&format!("{{\"e\":\"start\",\"op\":\"{} {} {}\",\"ev\":[],\"bufs\":[]}}\n", s.id, bind_name(b), howc));
                    d.play();
                    d.finish();
                    mem::mem().keep_log = false;
                    steps += d.cbs.len();
                    shards[runs % a.shards].push_str(&d.log);
                    runs += 1;
                }
                _ => panic!("unknown mode"),
            }
        }
    }
    if mode != "compare" {
        for (k, s) in shards.iter().enumerate() {
            if std::fs::write(format!("{}.{k}.ndjson", a.out), s).is_err() {
                std::process::exit(3);
            }
        }
    }
    println!("DONE runs={runs} steps={steps} failed={failed}");
    std::process::exit(if failed > 0 { 1 } else { 0 });
}
