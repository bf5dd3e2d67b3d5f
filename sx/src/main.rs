//! sx: symbolic execution of LLVM IR.
mod exec;
mod ir;
mod models;
mod term;
mod z3;
use exec::*;
use std::io::Write;
use std::time::{Duration, Instant};
use term::*;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// each switch: the number of the schedule point, or b where the thread cannot go on, and the thread that runs next
fn switches(v: &[i64]) -> String {
    let l: Vec<String> = v.iter().map(|x| if *x < 0 { format!("\"b>{}\"", -x - 1) } else { format!("\"{}>{}\"", x >> 8, x & 255) }).collect();
    format!("[{}]", l.join(","))
}
fn inputs_js(v: &[(String, u128)]) -> String {
    let x: Vec<String> = v.iter().map(|(n, k)| format!("[{},\"{}\"]", js(n), k)).collect();
    format!("[{}]", x.join(","))
}
fn nums<X: std::fmt::Display>(v: &[X]) -> String {
    let x: Vec<String> = v.iter().map(|k| format!("\"{}\"", k)).collect();
    format!("[{}]", x.join(","))
}
fn dump(ex: &Ex, frontier: usize) -> String {
    let s = &ex.stats;
    let z = &ex.solver.stats;
    let map = |m: &FxMap<String, u64>| {
        let mut v: Vec<_> = m.iter().collect();
        v.sort();
        format!("{{{}}}", v.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(","))
    };
    let viol: Vec<String> = ex
        .viol
        .iter()
        .map(|v| {
            format!(
                "{{\"label\":{},\"detail\":{},\"inputs\":{},\"sched\":{},\"stack\":[{}],\"observed\":{}}}",
                js(&v.label),
                js(&v.detail),
                inputs_js(&v.inputs),
                switches(&v.sched),
                v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
                nums(&v.observed)
            )
        })
        .collect();
    let tr: Vec<String> = ex
        .traces
        .iter()
        .map(|t| format!("{{\"inputs\":{},\"observed\":{},\"sched\":{}}}", inputs_js(&t.inputs), nums(&t.observed), switches(&t.sched)))
        .collect();
    let mut fns: Vec<String> = vec![];
    for (i, c) in ex.fcount.iter().enumerate() {
        if *c > 0 {
            fns.push(format!("{}:{}", js(&ex.m.funcs[i].name), c));
        }
    }
    format!(
        "{{\"paths\":{},\"ended\":{},\"cut\":{},\"forks\":{},\"steps\":{},\"asserts\":{},\"asserts_concrete\":{},\"asserts_proved\":{},\"ord_decided\":{},\"covers\":{},\"limits\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_ns\":{},\"solver_max_ns\":{},\"schedules\":{},\"frontier\":{},\"violations\":[{}],\"viol_count\":{},\"traces\":[{}],\"functions\":{{{}}}}}",
        s.paths, s.ended, map(&s.cut), s.forks, s.steps, s.asserts_checked, s.asserts_concrete, s.asserts_proved, s.ord_decided, map(&s.covers), s.limits,
        z.queries, z.sat, z.unsat, z.unknown, z.time_ns, z.max_ns, s.schedules, frontier, viol.join(","), map(&ex.viol_count), tr.join(","), fns.join(",")
    )
}

fn main() {
    let mut args = std::env::args().skip(1);
    let (mut file, mut entry, mut out) = (String::new(), String::new(), String::new());
    let (mut workers, mut time, mut front, mut steps) = (8usize, 600u64, 64usize, 200_000_000u64);
    let (mut verbose, mut solver, mut traces, mut maxv) = (false, String::from("a-simple"), 3usize, 3usize);
    let mut slow = 0u64;
    let mut params = FxMap::default();
    while let Some(a) = args.next() {
        let mut nx = || args.next().unwrap();
        match a.as_str() {
            "--entry" => entry = nx(),
            "--out" => out = nx(),
            "--workers" => workers = nx().parse().unwrap(),
            "--time" => time = nx().parse().unwrap(),
            "--frontier" => front = nx().parse().unwrap(),
            "--steps" => steps = nx().parse().unwrap(),
            "--solver" => solver = nx(),
            "--traces" => traces = nx().parse().unwrap(),
            "--maxv" => maxv = nx().parse().unwrap(),
            "--param" => {
                let p = nx();
                let (k, v) = p.split_once('=').unwrap();
                params.insert(k.to_string(), v.parse().unwrap());
            }
            "-v" => verbose = true,
            "--slow" => slow = nx().parse().unwrap(),
            f => file = f.to_string(),
        }
    }
    let text = std::fs::read_to_string(&file).unwrap();
    let m: &'static ir::Module = Box::leak(Box::new(ir::parse(&text)));
    drop(text);
    let ext = models::resolve(m);
    let start = Instant::now();
    let mut ex = Ex {
        vars: FxMap::default(),
        m,
        solver: z3::Solver::new(&solver),
        pending: vec![],
        no_ssize: false,
        stats: Stats::default(),
        viol: vec![],
        fcount: vec![0; m.funcs.len()],
        ext,
        next_pc: 0,
        traces: vec![],
        trace_every: 1,
        max_traces: traces,
        step_limit: steps,
        verbose,
        max_viol_per_label: maxv,
        viol_count: FxMap::default(),
        deadline: Some(start + Duration::from_secs(time)),
        soft: None,
        later: vec![],
        params,
    };
    ex.solver.slow = slow * 1_000_000;
    let st = ex.init(&entry);
    ex.fcount[m.fidx[&entry] as usize] += 1;
    ex.pending.push(st);
    // breadth-first until the frontier is wide enough
    let mut queue: std::collections::VecDeque<State> = Default::default();
    queue.extend(ex.pending.drain(..));
    while let Some(s) = queue.pop_front() {
        if workers > 1 {
            ex.soft = Some(Instant::now() + Duration::from_secs(4));
        }
        ex.run_path(s);
        queue.extend(ex.pending.drain(..));
        if workers > 1 && (queue.len() >= front || !ex.later.is_empty()) {
            queue.extend(ex.later.drain(..));
            break;
        }
        if Instant::now() > start + Duration::from_secs(time) {
            ex.stats.limits += queue.len() as u64;
            queue.clear();
        }
    }
    let frontier = queue.len();
    let mut results = vec![dump(&ex, frontier)];
    if !queue.is_empty() {
        let states: Vec<Option<State>> = queue.into_iter().map(Some).collect();
        let counter = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const std::sync::atomic::AtomicUsize };
        let mut pids = vec![];
        let base = format!("{}.w", if out.is_empty() { format!("/tmp/sx.{}", std::process::id()) } else { out.clone() });
        let mut states = states;
        for w in 0..workers {
            let pid = unsafe { fork() };
            if pid == 0 {
                ex.stats = Stats::default();
                ex.viol.clear();
                ex.traces.clear();
                ex.viol_count.clear();
                ex.solver.stats = Default::default();
                for c in ex.fcount.iter_mut() {
                    *c = 0;
                }
                ex.next_pc = (w as u64 + 1) << 48;
                ex.trace_every = 7;
                loop {
                    let k = unsafe { (*counter).fetch_add(1, std::sync::atomic::Ordering::SeqCst) };
                    if k < states.len() {
                        let s = states[k].take().unwrap();
                        ex.pending.push(s);
                    } else if !ex.later.is_empty() {
                        // nothing else to do
                        ex.soft = None;
                        ex.pending.append(&mut ex.later);
                    } else {
                        break;
                    }
                    while let Some(s) = ex.pending.pop() {
                        if Instant::now() > start + Duration::from_secs(time) {
                            ex.stats.limits += 1 + ex.pending.len() as u64;
                            ex.pending.clear();
                            break;
                        }
                        if k < states.len() {
                            ex.soft = Some(Instant::now() + Duration::from_secs(20));
                        }
                        ex.run_path(s);
                    }
                }
                let d = dump(&ex, 0);
                let mut f = std::fs::File::create(format!("{}{}", base, w)).unwrap();
                f.write_all(d.as_bytes()).unwrap();
                drop(f);
                unsafe { _exit(0) }
            }
            pids.push(pid);
        }
        let mut bad = false;
        for (w, p) in pids.iter().enumerate() {
            let mut s = 0;
            unsafe { waitpid(*p, &mut s, 0) };
            let fname = format!("{}{}", base, w);
            if s != 0 {
                eprintln!("worker {} failed with status {:#x}", w, s);
                bad = true;
            } else {
                results.push(std::fs::read_to_string(&fname).unwrap());
            }
            let _ = std::fs::remove_file(&fname);
        }
        if bad {
            std::process::exit(3);
        }
    }
    let j = format!("{{\"wall_s\":{:.3},\"parts\":[{}]}}", start.elapsed().as_secs_f64(), results.join(",\n"));
    if out.is_empty() {
        println!("{}", j);
    } else {
        std::fs::write(&out, j).unwrap();
    }
}
