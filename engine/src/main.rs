//! symx: symbolic execution of LLVM IR with Z3.
//!
//! symx run --ll FILE --entry NAME[:opt=val].. [--jobs N] [--time S] [--z3-all] [--dump FILE] --out FILE
mod env;
mod exec;
mod expr;
mod ir;
mod os;
mod smt;

use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn prctl(op: i32, a: u64, ...) -> i32;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// One line per record; the transport between workers and the parent.
fn dump(e: &Eng, reps: &[Report], complete: bool) -> String {
    let mut s = String::new();
    for (i, r) in reps.iter().enumerate() {
        let _ = writeln!(
            s,
            "R {} {} {} {} {} {} {} {} {} {}",
            i, r.paths, r.infeasible, r.instrs, r.forks, r.max_path_instrs, r.nfails, r.nerrors, r.checks_const, r.checks_solver
        );
        for (k, n) in &r.covers {
            let _ = writeln!(s, "C {} {} {}", i, k, n);
        }
        for p in &r.recs {
            let c: Vec<String> = p.covers.iter().map(|x| x.to_string()).collect();
            let _ = writeln!(s, "P {} {:016x} {} {}", i, p.hash, hex(&p.model), c.join(","));
        }
        for (m, v) in &r.fails {
            let _ = writeln!(s, "F {} {} {}", i, hex(v), m.replace('\n', " "));
        }
        for (m, v) in &r.errors {
            let _ = writeln!(s, "E {} {} {}", i, hex(v), m.replace('\n', " "));
        }
    }
    let t = &e.smt.st;
    let _ = writeln!(
        s,
        "S {} {} {} {} {} {} {} {}",
        t.z3_queries, t.z3_sat, t.z3_unsat, t.z3_ns, t.cache_hits, t.domain_decided, t.model_decided, t.verdict_queries
    );
    for (k, n) in &e.prof {
        let _ = writeln!(s, "N {} {}", n, e.m.fns[*k as usize].name);
    }
    for (k, n) in &e.forksites {
        let _ = writeln!(s, "K {} {}", n, k);
    }
    let _ = writeln!(s, "X {}", complete as u8);
    s
}

#[derive(Default)]
struct Merged {
    reps: Vec<Report>,
    st: smt::Stats,
    fns: BTreeMap<String, u64>,
    sites: BTreeMap<String, u64>,
    complete: bool,
}
impl Merged {
    fn add(&mut self, text: &str) {
        let mut fin = false;
        for l in text.lines() {
            let f: Vec<&str> = l.splitn(2, ' ').collect();
            let rest = f.get(1).copied().unwrap_or("");
            match f[0] {
                "R" => {
                    let v: Vec<u64> = rest.split(' ').map(|x| x.parse().unwrap()).collect();
                    let r = &mut self.reps[v[0] as usize];
                    r.paths += v[1];
                    r.infeasible += v[2];
                    r.instrs += v[3];
                    r.forks += v[4];
                    r.max_path_instrs = r.max_path_instrs.max(v[5]);
                    r.nfails += v[6];
                    r.nerrors += v[7];
                    r.checks_const += v[8];
                    r.checks_solver += v[9];
                }
                "C" => {
                    let v: Vec<u64> = rest.split(' ').map(|x| x.parse().unwrap()).collect();
                    *self.reps[v[0] as usize].covers.entry(v[1] as u32).or_default() += v[2];
                }
                "P" => {
                    let v: Vec<&str> = rest.split(' ').collect();
                    let covers =
                        v[3].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
                    self.reps[v[0].parse::<usize>().unwrap()].recs.push(PathRec {
                        model: unhex(v[2]),
                        hash: u64::from_str_radix(v[1], 16).unwrap(),
                        covers,
                    });
                }
                "F" | "E" => {
                    let v: Vec<&str> = rest.splitn(3, ' ').collect();
                    let r = &mut self.reps[v[0].parse::<usize>().unwrap()];
                    let rec = (v[2].to_string(), unhex(v[1]));
                    if f[0] == "F" {
                        r.fails.push(rec)
                    } else {
                        r.errors.push(rec)
                    }
                }
                "S" => {
                    let v: Vec<u128> = rest.split(' ').map(|x| x.parse().unwrap()).collect();
                    let t = &mut self.st;
                    t.z3_queries += v[0] as u64;
                    t.z3_sat += v[1] as u64;
                    t.z3_unsat += v[2] as u64;
                    t.z3_ns += v[3];
                    t.cache_hits += v[4] as u64;
                    t.domain_decided += v[5] as u64;
                    t.model_decided += v[6] as u64;
                    t.verdict_queries += v[7] as u64;
                }
                "N" | "K" => {
                    let (n, k) = rest.split_once(' ').unwrap();
                    let m = if f[0] == "N" { &mut self.fns } else { &mut self.sites };
                    *m.entry(k.to_string()).or_default() += n.parse::<u64>().unwrap();
                }
                "X" => {
                    fin = true;
                    if rest != "1" {
                        self.complete = false
                    }
                }
                _ => {}
            }
        }
        if !fin {
            self.complete = false;
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut ll = String::new();
    let mut entries: Vec<String> = vec![];
    let mut jobs = 8usize;
    let mut time = 800u64;
    let mut out = String::new();
    let mut flags: BTreeSet<String> = BTreeSet::new();
    let mut dumpf = String::new();
    let mut frontier_per_job = 60usize;
    let mut fail_stop = 200usize;
    let mut rec_cap = 400usize;
    let mut i = 0;
    while i < args.len() {
        let v = || args[i + 1].clone();
        match args[i].as_str() {
            "--ll" => ll = v(),
            "--entry" => entries.push(v()),
            "--jobs" => jobs = v().parse().unwrap(),
            "--time" => time = v().parse().unwrap(),
            "--out" => out = v(),
            "--dump" => dumpf = v(),
            "--frontier" => frontier_per_job = v().parse().unwrap(),
            "--fail-stop" => fail_stop = v().parse().unwrap(),
            "--rec-cap" => rec_cap = v().parse().unwrap(),
            f => {
                flags.insert(f.to_string());
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    let t0 = Instant::now();
    let m = ir::Module::parse(std::fs::read(&ll).expect("IR file"));
    let mut e = Eng::new(m);
    if flags.contains("--decode-all") {
        for i in 0..e.m.fns.len() {
            if e.m.fns[i].body.is_some() {
                e.m.decode(i as u32);
            }
        }
        for i in 0..e.m.globals.len() {
            e.m.global_bytes(i as u32);
        }
        eprintln!("decoded all in {:?}", t0.elapsed());
        return;
    }
    e.trace = flags.contains("--trace");
    e.profile = flags.contains("--profile");
    e.smt.use_domain = !flags.contains("--z3-all");
    e.rec_cap = rec_cap;
    if !dumpf.is_empty() {
        e.smt.dump = Some(std::fs::File::create(&dumpf).unwrap());
        e.smt.dump_left = 2000;
    }
    let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const AtomicUsize;
    let next: &AtomicUsize = unsafe { &*shared };
    let nfail: &AtomicUsize = unsafe { &*shared.add(1) };
    // worker time spent on each entry, in microseconds: an entry that uses up its share waits
    // until the others are done
    let spent = |i: usize| -> &AtomicUsize { unsafe { &*shared.add(8 + i.min(500)) } };
    let share = (time as usize * 1_000_000 * jobs) * 2 / 3 / entries.len().max(1);
    let nreps = entries.len();
    let mut reps: Vec<Report> = (0..nreps).map(|_| Report::default()).collect();
    // phase 1: breadth first until there is enough to share out
    let mut queue: std::collections::VecDeque<(usize, State)> = Default::default();
    for (i, n) in entries.iter().enumerate() {
        let s = e.initial(n);
        queue.push_back((i, s));
    }
    let target = if jobs > 1 { jobs * frontier_per_job } else { usize::MAX };
    let deadline = Duration::from_secs(time);
    e.deadline = Some(t0 + deadline);
    let mut complete = true;
    let run_one = |e: &mut Eng, reps: &mut Vec<Report>, i: usize, s: State| -> Vec<State> {
        std::mem::swap(&mut e.rep, &mut reps[i]);
        let before = e.rep.nfails;
        let unknown = e.smt.st.unknown;
        let model = s.model.clone();
        e.run(s);
        if e.smt.st.unknown > unknown {
            e.rep.nerrors += 1;
            if e.rep.errors.len() < 5 {
                e.rep.errors.push(("a query without an answer".into(), model));
            }
        }
        let nf = e.rep.nfails - before;
        std::mem::swap(&mut e.rep, &mut reps[i]);
        if nf > 0 {
            nfail.fetch_add(nf as usize, Ordering::Relaxed);
        }
        std::mem::take(&mut e.work)
    };
    let mut parent_steps = 0usize;
    while let Some((i, s)) = queue.pop_front() {
        let w = run_one(&mut e, &mut reps, i, s);
        for s in w {
            queue.push_back((i, s))
        }
        parent_steps += 1;
        if queue.len() >= target || (jobs > 1 && parent_steps > 4 * target) {
            break;
        }
        if t0.elapsed() > deadline || nfail.load(Ordering::Relaxed) > fail_stop {
            complete = queue.is_empty() && !e.expired;
            queue.clear();
        }
    }
    let mut mg = Merged { complete: true, ..Default::default() };
    mg.reps = (0..nreps).map(|_| Report::default()).collect();
    if !queue.is_empty() {
        let states: Vec<(usize, State)> = queue.into_iter().collect();
        // A worker that runs out of states exits; a busy one then forks and gives half of its
        // states to the new process. All of them end up as children of this process.
        unsafe { prctl(36, 1) };
        let active: &AtomicUsize = unsafe { &*shared.add(2) };
        let ids: &AtomicUsize = unsafe { &*shared.add(3) };
        active.store(jobs, Ordering::SeqCst);
        ids.store(jobs, Ordering::SeqCst);
        for j in 0..jobs {
            let pid = unsafe { fork() };
            if pid == 0 {
                let mut id = j;
                // a worker starts from zeroed statistics
                let fresh = |e: &mut Eng| -> Vec<Report> {
                    e.smt.st = Default::default();
                    e.prof.clear();
                    e.forksites.clear();
                    e.smt.dump_left = 0;
                    (0..nreps).map(|_| Report::default()).collect()
                };
                let mut reps = fresh(&mut e);
                let mut complete = true;
                let mut later: Vec<(usize, State)> = vec![];
                let mut stack: Vec<(usize, State)> = vec![];
                let mut given = Instant::now();
                let mut late = false;
                loop {
                    let (i, s) = match stack.pop() {
                        Some(x) => x,
                        None => {
                            let k = next.fetch_add(1, Ordering::Relaxed);
                            if k < states.len() {
                                states[k].clone()
                            } else if let Some(x) = later.pop() {
                                late = true;
                                x
                            } else {
                                break;
                            }
                        }
                    };
                    if !late && spent(i).load(Ordering::Relaxed) > share {
                        later.push((i, s));
                        continue;
                    }
                    let t1 = Instant::now();
                    let w = run_one(&mut e, &mut reps, i, s);
                    spent(i).fetch_add(t1.elapsed().as_micros() as usize, Ordering::Relaxed);
                    stack.extend(w.into_iter().map(|s| (i, s)));
                    if t0.elapsed() > deadline || nfail.load(Ordering::Relaxed) > fail_stop {
                        complete = !e.expired && stack.is_empty() && later.is_empty() && next.load(Ordering::Relaxed) >= states.len();
                        break;
                    }
                    if stack.len() + later.len() > 1
                        && given.elapsed() > Duration::from_millis(100)
                        && next.load(Ordering::Relaxed) >= states.len()
                        && active.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |a| (a < jobs).then_some(a + 1)).is_ok()
                    {
                        let pid = unsafe { fork() };
                        if pid < 0 {
                            active.fetch_sub(1, Ordering::SeqCst);
                        } else {
                            let mine = (pid == 0) as usize;
                            for l in [&mut stack, &mut later] {
                                let mut k = 0;
                                l.retain(|_| {
                                    k += 1;
                                    k % 2 == mine
                                });
                            }
                            if pid == 0 {
                                id = ids.fetch_add(1, Ordering::SeqCst);
                                reps = fresh(&mut e);
                            }
                        }
                        given = Instant::now();
                    }
                }
                let s = dump(&e, &reps, complete);
                std::fs::write(format!("{}.w{}", out, id), s).expect("write");
                active.fetch_sub(1, Ordering::SeqCst);
                unsafe { _exit(0) }
            }
        }
        loop {
            let mut st = 0;
            if unsafe { waitpid(-1, &mut st, 0) } < 0 {
                break;
            }
            if st != 0 {
                active.fetch_sub(1, Ordering::SeqCst);
                mg.complete = false;
                eprintln!("a worker died with status {:#x}", st);
            }
        }
        for j in 0..ids.load(Ordering::SeqCst) {
            let f = format!("{}.w{}", out, j);
            match std::fs::read_to_string(&f) {
                Ok(t) => mg.add(&t),
                _ => mg.complete = false,
            }
            let _ = std::fs::remove_file(&f);
        }
    }
    mg.add(&dump(&e, &reps, complete));

    // report
    let mut o = String::from("{\n");
    let _ = writeln!(o, "\"complete\": {},", mg.complete);
    let _ = writeln!(o, "\"wall_s\": {:.3},", t0.elapsed().as_secs_f64());
    let _ = writeln!(o, "\"solver\": {},", js(&smt::Smt::version()));
    let t = &mg.st;
    let _ = writeln!(
        o,
        "\"z3_queries\": {}, \"z3_sat\": {}, \"z3_unsat\": {}, \"z3_s\": {:.3}, \"cache_hits\": {}, \"byte_domain_decided\": {}, \"model_decided\": {}, \"verdict_queries\": {},",
        t.z3_queries, t.z3_sat, t.z3_unsat, t.z3_ns as f64 / 1e9, t.cache_hits, t.domain_decided, t.model_decided, t.verdict_queries
    );
    o.push_str("\"entries\": [\n");
    for (i, r) in mg.reps.iter().enumerate() {
        let _ = write!(
            o,
            " {{\"entry\": {}, \"paths\": {}, \"infeasible\": {}, \"instrs\": {}, \"forks\": {}, \"max_path_instrs\": {}, \"nfails\": {}, \"nerrors\": {}, \"checks_const\": {}, \"checks_solver\": {}, \"covers\": {{",
            js(&entries[i]), r.paths, r.infeasible, r.instrs, r.forks, r.max_path_instrs, r.nfails, r.nerrors, r.checks_const, r.checks_solver
        );
        let c: Vec<String> = r.covers.iter().map(|(k, n)| format!("\"{}\": {}", k, n)).collect();
        let _ = write!(o, "{}}},\n  \"fails\": [", c.join(", "));
        let c: Vec<String> = r.fails.iter().map(|(m, v)| format!("[{}, {}]", js(m), js(&hex(v)))).collect();
        let _ = write!(o, "{}],\n  \"errors\": [", c.join(",\n   "));
        let c: Vec<String> = r.errors.iter().map(|(m, v)| format!("[{}, {}]", js(m), js(&hex(v)))).collect();
        let _ = write!(o, "{}],\n  \"recs\": [", c.join(",\n   "));
        let c: Vec<String> = r.recs.iter().map(|p| format!("[\"{}\", \"{:016x}\"]", hex(&p.model), p.hash)).collect();
        let _ = writeln!(o, "{}]}}{}", c.join(","), if i + 1 < nreps { "," } else { "" });
    }
    o.push_str("],\n\"functions\": {");
    let c: Vec<String> = mg.fns.iter().map(|(k, n)| format!("{}: {}", js(k), n)).collect();
    o.push_str(&c.join(",\n "));
    o.push_str("}\n}\n");
    if !out.is_empty() {
        std::fs::write(&out, &o).expect("write report");
    }
    if flags.contains("--print") || out.is_empty() {
        println!(
            "complete {} time {:?} z3 {} ({} sat {} unsat {:.2}s) cache {} dom {} model {}",
            mg.complete, t0.elapsed(), t.z3_queries, t.z3_sat, t.z3_unsat, t.z3_ns as f64 / 1e9, t.cache_hits, t.domain_decided, t.model_decided
        );
        for (i, r) in mg.reps.iter().enumerate() {
            println!(
                "{}: paths {} infeasible {} fails {} errors {} forks {} instrs {}M maxpath {} checks {}+{} covers {:?}",
                entries[i], r.paths, r.infeasible, r.nfails, r.nerrors, r.forks, r.instrs / 1000000, r.max_path_instrs, r.checks_const, r.checks_solver, r.covers
            );
            for (m, v) in r.fails.iter().take(40) {
                println!("  FAIL {} : {:?}", m, String::from_utf8_lossy(v));
            }
            for (m, v) in r.errors.iter().take(10) {
                println!("  ERROR {} : {:?}", m, String::from_utf8_lossy(v));
            }
        }
        let mut v: Vec<_> = mg.sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (s, n) in v.iter().take(40) {
            println!("{:6} {}", n, s);
        }
    }
}
