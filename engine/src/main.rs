//! llsym: bounded symbolic execution of textual LLVM IR with Z3.
mod decode;
mod exec;
mod expr;
mod ir;
mod mem;
mod z3;

use exec::Exec;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU8, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn signal(s: i32, h: usize) -> usize;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn setpgid(p: i32, g: i32) -> i32;
    fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
}
#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}

const MAXH: usize = 4096;
#[repr(C)]
struct Shared {
    free: AtomicI32,
    waiting: AtomicI32,
    spawned: AtomicI32,
    finished: AtomicI32,
    stop_all: AtomicBool,
    stop: [AtomicU8; MAXH],
}

static SHARED: std::sync::atomic::AtomicPtr<Shared> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
/// a worker died: nothing can be concluded any more, stop everything
extern "C" fn on_crash(_s: i32) {
    unsafe {
        let p = SHARED.load(SeqCst);
        if !p.is_null() {
            (*p).stop_all.store(true, SeqCst);
        }
        _exit(70);
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<T: std::fmt::Display>(v: &[T]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", s.join(","))
}

struct Opt {
    lls: Vec<String>,
    std: Vec<String>,
    harness: Vec<String>,
    jobs: i32,
    out: String,
    deadline: u64,
    max_steps: u64,
    rlimit: u32,
    samples: usize,
    dump: Option<String>,
    dump_every: u64,
    simple: bool,
    cand: u64,
}

fn report(ex: &Exec, name: &str, complete: bool, wall: f64, out: i32) {
    if let Some(l) = &ex.forklog {
        let mut v: Vec<_> = l.iter().collect();
        v.sort_by_key(|e| std::cmp::Reverse(*e.1));
        for (k, n) in v.iter().take(12) {
            eprintln!("FORKS {} {} block {} ins {} {}", name, n, k.1, k.2, ex.names.get(&k.0).map(|s| s.as_str()).unwrap_or("?"));
        }
    }
    let s = &ex.st;
    let z = &ex.z;
    let mut j = String::new();
    let _ = write!(
        j,
        "{{\"h\":{},\"complete\":{},\"wall\":{:.3},\"paths\":{},\"forks\":{},\"assumed_away\":{},\"expected_panics\":{},\"steps\":{},\"asserts\":{},\"asserts_solver\":{},\"branches\":{},\"unknown\":{},\"max_pc\":{},\"max_inputs\":{},\"input_bits\":{},\"mem_checks\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.4},\"solver_max_s\":{:.4},\"nodes\":{},\"ncovers\":{}",
        esc(name), complete, wall, s.paths, s.forks, s.assumed_away, s.expected_panics, s.steps, s.asserts, s.asserts_solver, s.branches_sym, s.unknown, s.max_pc, s.max_inputs, s.input_bits, s.mem_checks_solver, z.queries, z.sat, z.unsat, z.secs, z.max_secs, ex.x.nodes.len(), ex.ncovers
    );
    let cov: Vec<u32> = ex.covered.iter().copied().collect();
    let _ = write!(j, ",\"covers\":{}", list(&cov));
    let f: Vec<String> = ex.names.values().map(|n| esc(n)).collect();
    let _ = write!(j, ",\"funcs\":[{}]", f.join(","));
    let e: Vec<String> = ex.errors.iter().take(20).map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let _ = write!(j, ",\"errors\":{{{}}}", e.join(","));
    let sm: Vec<String> = ex
        .samples
        .iter()
        .map(|p| format!("{{\"in\":{},\"obs\":{},\"covers\":{},\"panic\":{}}}", list(&p.inputs), list(&p.obs), list(&p.covers), p.panic))
        .collect();
    let _ = write!(j, ",\"samples\":[{}]", sm.join(","));
    let v: Vec<String> = ex
        .violations
        .iter()
        .map(|p| {
            let t: Vec<String> = p.trace.iter().map(|x| esc(x)).collect();
            format!("{{\"kind\":{},\"msg\":{},\"id\":{},\"in\":{},\"trace\":[{}]}}", esc(p.kind), esc(&p.msg), p.id, list(&p.inputs), t.join(","))
        })
        .collect();
    let _ = write!(j, ",\"violations\":[{}]}}\n", v.join(","));
    let b = j.as_bytes();
    let mut o = 0;
    unsafe {
        // one write keeps lines of concurrent workers apart (O_APPEND)
        while o < b.len() {
            let n = write(out, b.as_ptr().add(o), b.len() - o);
            if n <= 0 {
                break;
            }
            o += n as usize;
        }
    }
}

/// explore everything pending for harness `h`; may split off helpers
fn work(ex: &mut Exec, h: usize, opt: &Opt, sh: &'static Shared, t_end: Instant, out: i32) {
    let mut t0 = Instant::now();
    let mut last_split = Instant::now();
    let mut is_root = true;
    'outer: loop {
        let mut tick_n = 0u32;
        let stopped = |ex: &Exec| sh.stop[h].load(SeqCst) != 0 || sh.stop_all.load(SeqCst) || Instant::now() > t_end || !ex.violations.is_empty();
        while let Some(s) = ex.pending.pop_back() {
            if stopped(ex) {
                ex.pending.push_back(s);
                break;
            }
            // hand the oldest queued state to a new process when a slot is free
            if !ex.pending.is_empty() && sh.free.load(SeqCst) > 0 && sh.waiting.load(SeqCst) == 0 && last_split.elapsed() > Duration::from_millis(3) {
                let got = sh.free.fetch_sub(1, SeqCst) > 0;
                if !got {
                    sh.free.fetch_add(1, SeqCst);
                } else {
                    last_split = Instant::now();
                    sh.spawned.fetch_add(1, SeqCst);
                    let pid = unsafe { fork() };
                    if pid == 0 {
                        let first = ex.pending.pop_front().unwrap();
                        ex.pending.clear();
                        ex.pending.push_back(first);
                        ex.st = Default::default();
                        ex.samples.clear();
                        ex.covered.clear();
                        ex.entered.clear();
                        ex.names.clear();
                        ex.errors.clear();
                        ex.max_samples = 1;
                        ex.z.queries = 0;
                        ex.z.sat = 0;
                        ex.z.unsat = 0;
                        ex.z.unknown = 0;
                        ex.z.secs = 0.0;
                        ex.z.max_secs = 0.0;
                        t0 = Instant::now();
                        is_root = false;
                        continue 'outer;
                    } else if pid > 0 {
                        ex.pending.pop_front();
                    } else {
                        sh.spawned.fetch_sub(1, SeqCst);
                        sh.free.fetch_add(1, SeqCst);
                    }
                }
            }
            ex.run_path(s, &mut |_ex| {
                tick_n += 1;
                sh.stop[h].load(SeqCst) != 0 || sh.stop_all.load(SeqCst) || Instant::now() > t_end
            });
            if !ex.violations.is_empty() {
                sh.stop[h].store(1, SeqCst);
                break;
            }
        }
        break;
    }
    let _ = is_root;
    let complete = ex.pending.is_empty() && ex.violations.is_empty();
    report(ex, &opt.harness[h], complete, t0.elapsed().as_secs_f64(), out);
}

fn main() {
    let mut opt = Opt {
        lls: vec![],
        std: vec![],
        harness: vec![],
        jobs: 8,
        out: "/dev/stdout".into(),
        deadline: 600,
        max_steps: 5_000_000,
        rlimit: 0,
        samples: 3,
        dump: None,
        dump_every: 50,
        simple: true,
        cand: 300,
    };
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("argument");
        match a.as_str() {
            "--ll" => opt.lls.push(v()),
            // modules of std: a call in them that does not return is a panic
            "--std" => opt.std.push(v()),
            "--harness" => opt.harness.push(v()),
            "--jobs" => opt.jobs = v().parse().unwrap(),
            "--out" => opt.out = v(),
            "--deadline" => opt.deadline = v().parse().unwrap(),
            "--max-steps" => opt.max_steps = v().parse().unwrap(),
            "--rlimit" => opt.rlimit = v().parse().unwrap(),
            "--samples" => opt.samples = v().parse().unwrap(),
            "--dump" => opt.dump = Some(v()),
            "--dump-every" => opt.dump_every = v().parse().unwrap(),
            "--cand" => opt.cand = v().parse().unwrap(),
            "--qfbv" => opt.simple = false,
            "--version" => {
                println!("llsym z3 {}", z3::version());
                return;
            }
            x => {
                eprintln!("unknown option {x}");
                std::process::exit(64);
            }
        }
    }
    assert!(opt.harness.len() < MAXH);
    let t_end = Instant::now() + Duration::from_secs(opt.deadline);
    let texts: Vec<String> = opt.lls.iter().chain(&opt.std).map(|p| std::fs::read_to_string(p).expect("read ll")).collect();
    let mut prog = decode::Prog::new(texts);
    prog.std_from = opt.lls.len();
    let mut ex = Exec::new(prog, opt.simple);
    ex.max_steps = opt.max_steps;
    ex.rlimit = opt.rlimit;
    ex.max_samples = opt.samples;
    ex.cand_limit = opt.cand;
    ex.z.dump_dir = opt.dump.clone();
    ex.z.dump_every = opt.dump_every;

    unsafe {
        let sh = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0) as *mut Shared;
        let sh: &'static Shared = &*sh;
        sh.free.store(opt.jobs, SeqCst);
        use std::os::fd::IntoRawFd;
        let out = std::fs::OpenOptions::new().append(true).create(true).open(&opt.out).expect("open output").into_raw_fd();
        assert!(out >= 0, "open output");
        SHARED.store(sh as *const Shared as *mut Shared, SeqCst);
        std::panic::set_hook(Box::new(|i| {
            eprintln!("engine panic: {i}");
            on_crash(0);
        }));
        for sg in [4, 6, 7, 8, 11] {
            signal(sg, on_crash as *const () as usize);
        }
        signal(17, 1); // SIGCHLD ignored: children are reaped automatically
        let mut fds = [0i32; 2];
        assert!(pipe(fds.as_mut_ptr()) == 0);
        setpgid(0, 0);
        let mypid = std::process::id() as i32;
        let mut found = false;
        // once something is found, the others get only a little longer
        let mut limit = |t_end: Instant| {
            if !found && sh.stop.iter().any(|s| s.load(SeqCst) != 0) {
                found = true;
                return t_end.min(Instant::now() + Duration::from_secs(45));
            }
            t_end
        };
        let mut t_end = t_end;
        for h in 0..opt.harness.len() {
            sh.waiting.store(1, SeqCst);
            loop {
                t_end = limit(t_end);
                if sh.free.fetch_sub(1, SeqCst) > 0 {
                    break;
                }
                sh.free.fetch_add(1, SeqCst);
                if Instant::now() > t_end || sh.stop_all.load(SeqCst) {
                    break;
                }
                std::thread::sleep(Duration::from_micros(500));
            }
            if Instant::now() > t_end || sh.stop_all.load(SeqCst) {
                break;
            }
            sh.waiting.store((h + 1 < opt.harness.len()) as i32, SeqCst);
            sh.spawned.fetch_add(1, SeqCst);
            let pid = fork();
            if pid == 0 {
                prctl(1, 9, 0, 0, 0); // die with the coordinator
                close(fds[0]);
                let name = opt.harness[h].clone();
                match ex.start(&name) {
                    Ok(s) => {
                        ex.pending.push_back(s);
                        work(&mut ex, h, &opt, sh, t_end, out);
                    }
                    Err(e) => {
                        ex.errors.insert(e, 1);
                        report(&ex, &name, false, 0.0, out);
                    }
                }
                sh.finished.fetch_add(1, SeqCst);
                sh.free.fetch_add(1, SeqCst);
                _exit(0);
            }
            assert!(pid > 0, "fork");
        }
        sh.waiting.store(0, SeqCst);
        close(fds[1]);
        // wait for every worker (they all hold the write end)
        loop {
            t_end = limit(t_end);
            let grace = t_end + Duration::from_secs(20);
            let mut pf = PollFd { fd: fds[0], events: 1, revents: 0 };
            let n = poll(&mut pf, 1, 200);
            if n > 0 {
                let mut b = [0u8; 16];
                if read(fds[0], b.as_mut_ptr(), 16) <= 0 {
                    break;
                }
            }
            if Instant::now() > t_end {
                sh.stop_all.store(true, SeqCst);
            }
            if Instant::now() > grace {
                break;
            }
        }
        let sp = sh.spawned.load(SeqCst);
        let fi = sh.finished.load(SeqCst);
        println!("{{\"spawned\":{sp},\"finished\":{fi},\"z3\":{}}}", esc(&z3::version()));
        if fi != sp {
            // leftover workers (stuck in a query) are in our process group
            signal(15, 1);
            kill(-mypid, 15);
            std::thread::sleep(Duration::from_millis(50));
            std::process::exit(3);
        }
    }
}
