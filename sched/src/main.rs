//! mcsched: C20, every thread schedule gives the same result and terminates.
//! `mcsched check C20`, `mcsched replay <file>`.
#![allow(dead_code)]
#[path = "../../harness/src/util.rs"]
#[macro_use]
mod util;
mod engine {
    /// only named by the `ensure!` macro
    pub fn fail<T>(_: impl Into<String>, m: impl Into<String>) -> Result<T, String> {
        Err(m.into())
    }
}
#[path = "../../harness/src/jpeg.rs"]
mod jpeg;
#[path = "../../harness/src/refimg.rs"]
mod refimg;
mod gen;
mod exp;
mod models;

use mc_std::rt;
use models::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::sync::{Arc, Mutex};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn prctl(op: i32, a: usize, b: usize, c: usize, d: usize) -> i32;
    fn alarm(s: u32) -> u32;
}
const VERIF: &str = "/verif";

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
struct Done {
    stats: rt::Stats,
    violation: Option<(String, Vec<u32>)>,
}
/// One model in this (child) process: a line `executions states steps max_steps threads capped`, then
/// possibly the violation.
fn run_model(m: &Model, tier: Tier) -> String {
    let want = match m.expected() {
        Ok(w) => w,
        Err(e) => return format!("0 0 0 0 0 0\nV {e}\n"),
    };
    let (s, v) = rt::explore(m.bound(tier), m.cap(tier), m.secs(tier), m.body(), |r, p| {
        unsafe { alarm(100) };
        judge(&want, r, p)
    });
    let mut o = format!("{} {} {} {} {} {}\n", s.executions, s.states, s.steps, s.max_steps, s.max_threads, s.capped as u32);
    if let Some(v) = v {
        let _ = writeln!(o, "V {}: {}; last steps {}", v.kind, v.msg.replace('\n', " | "), v.log.iter().rev().take(24).rev().map(|(t, w)| format!("T{t} {w}")).collect::<Vec<_>>().join(", "));
        let _ = writeln!(o, "{}", v.schedule.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","));
    }
    o
}
fn judge(want: &str, r: &str, panics: &[String]) -> Result<(), String> {
    if let Some(p) = panics.first() {
        return Err(format!("a helper thread panicked: {p} ({})", models::last_panic()));
    }
    if r != want {
        return Err(format!("result {r}, expected {want}{}", if r.contains("PANIC") { models::last_panic() } else { String::new() }));
    }
    Ok(())
}
fn spawn_child(f: impl FnOnce() -> String) -> (i32, i32) {
    unsafe {
        let mut fds = [0i32; 2];
        assert!(pipe(fds.as_mut_ptr()) == 0);
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            prctl(1, 9, 0, 0, 0);
            close(fds[0]);
            // (set again for every execution)
            alarm(100);
            let s = f();
            let b = &s.as_bytes()[..s.len().min(60_000)];
            let mut i = 0;
            while i < b.len() {
                let n = write(fds[1], b[i..].as_ptr(), b.len() - i);
                if n <= 0 {
                    break;
                }
                i += n as usize;
            }
            _exit(0);
        }
        close(fds[1]);
        (pid, fds[0])
    }
}
fn collect(fd: i32) -> String {
    let mut out = vec![];
    let mut buf = [0u8; 4096];
    loop {
        let n = unsafe { read(fd, buf.as_mut_ptr(), buf.len()) };
        if n <= 0 {
            break;
        }
        out.extend_from_slice(&buf[..n as usize]);
    }
    unsafe { close(fd) };
    String::from_utf8_lossy(&out).into_owned()
}

fn check(tier: Tier) -> i32 {
    let t0 = Instant::now();
    let mut ms = models(tier);
    if let Ok(o) = std::env::var("MC_ONLY") {
        ms.retain(|m| m.name().contains(&o));
    }
    let verbose = std::env::var_os("MC_VERBOSE").is_some();
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 8);
    let mut live: HashMap<i32, (usize, i32, Instant)> = HashMap::new();
    let mut next = 0;
    let mut tot = rt::Stats::default();
    let mut per = vec![];
    let mut bad: Option<(usize, String, String)> = None;
    while next < ms.len() || !live.is_empty() {
        while live.len() < n && next < ms.len() && bad.is_none() {
            let m = &ms[next];
            let (pid, fd) = spawn_child(|| run_model(m, tier));
            live.insert(pid, (next, fd, Instant::now()));
            next += 1;
        }
        if live.is_empty() {
            break;
        }
        let mut st = 0;
        let pid = unsafe { waitpid(-1, &mut st, 0) };
        let Some((i, fd, t)) = live.remove(&pid) else { continue };
        let out = collect(fd);
        let mut l = out.lines();
        let v: Vec<u64> = l.next().unwrap_or("").split(' ').filter_map(|x| x.parse().ok()).collect();
        if v.len() < 6 {
            let what = format!("the exploring process ended with status {st:#x}");
            if bad.is_none() {
                bad = Some((i, what, String::new()));
            }
            continue;
        }
        if verbose {
            println!("{:<90} {:>8} executions {:>8} states {:>4} steps {} threads{} {:.2}s", ms[i].name(), v[0], v[1], v[3], v[4], if v[5] == 1 { " CAPPED" } else { "" }, t.elapsed().as_secs_f64());
        }
        tot.executions += v[0];
        tot.states += v[1];
        tot.steps += v[2];
        tot.max_steps = tot.max_steps.max(v[3]);
        tot.max_threads = tot.max_threads.max(v[4] as usize);
        tot.capped |= v[5] == 1;
        per.push((i, v[0], v[1], v[5] == 1));
        if let Some(x) = l.next().and_then(|x| x.strip_prefix("V ")) {
            if bad.as_ref().map_or(true, |b| b.0 > i) {
                bad = Some((i, x.to_string(), l.next().unwrap_or("").to_string()));
            }
        }
    }
    per.sort();
    let wall = t0.elapsed().as_secs_f64();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let mut j = String::new();
    let _ = write!(j, "{{\n \"property\": \"C20\",\n \"tier\": \"{}\",\n \"seed\": {seed},\n \"level\": \"model_checking\",\n", tier.name());
    let _ = write!(j, " \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"schedules\": {},\n  \"traces_validated_against_impl\": {},\n", tot.states, tot.steps, tot.executions, tot.executions);
    let _ = write!(j, "  \"longest_execution_steps\": {},\n  \"most_threads\": {},\n  \"exhaustive\": {},\n  \"models_run\": {},\n", tot.max_steps, tot.max_threads, !tot.capped, per.len());
    let _ = write!(j, "  \"bounds\": {},\n", js(BOUNDS));
    let _ = write!(j, "  \"rule\": {},\n", js("every execution runs the real decoder; schedules that differ only in the order of independent operations reach the same happens-before state and are expanded once; states: distinct happens-before states with more than one continuation; transitions: scheduling decisions taken"));
    let _ = write!(j, "  \"models\": [{}]\n }},\n", per.iter().map(|(i, e, s, c)| format!("{{\"name\": {}, \"schedules\": {e}, \"states\": {s}, \"complete\": {}}}", js(&ms[*i].name()), !c)).collect::<Vec<_>>().join(",\n   "));
    let _ = write!(j, " \"assumptions\": [{}],\n", ASSUMPTIONS.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    let _ = write!(j, " \"wall_s\": {wall:.3},\n \"violations\": {}\n}}\n", bad.is_some() as u32);
    if std::env::var_os("MC_ONLY").is_none() {
        let _ = std::fs::create_dir_all(format!("{VERIF}/evidence"));
        if let Err(e) = std::fs::write(format!("{VERIF}/evidence/C20.json"), j) {
            eprintln!("ERROR: cannot write evidence: {e}");
            return 2;
        }
    }
    println!("C20 {}: {} models, {} schedules, {} states, {} steps, {wall:.1}s{}", tier.name(), per.len(), tot.executions, tot.states, tot.steps, if tot.capped { " (a cap was hit: not exhaustive)" } else { "" });
    if let Some((i, msg, sched)) = bad {
        let dir = format!("{VERIF}/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/C20-{}.replay", std::process::id());
        let _ = std::fs::write(&path, format!("property=C20\ntier={}\nname={}\nschedule={sched}\nmessage={msg}\n# replay with: /verif/bin/check C20 --replay {path}\n", tier.name(), ms[i].name()));
        println!("{}: {msg}", ms[i].name());
        println!("VIOLATION property=C20 replay={path}");
        return 1;
    }
    0
}

fn main() {
    models::hook();
    let args: Vec<String> = std::env::args().collect();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(check(tier)),
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{k}=")).map(|s| s.to_string())).unwrap_or_default();
            let tier = if get("tier") == "thorough" { Tier::Thorough } else { Tier::Quick };
            let name = get("name");
            let m = models(tier).into_iter().find(|m| m.name() == name).expect("model");
            let sched: Vec<u32> = get("schedule").split(',').filter_map(|x| x.parse().ok()).collect();
            let (_, fd) = spawn_child(move || {
                let want = match m.expected() {
                    Ok(w) => w,
                    Err(e) => return format!("V {e}"),
                };
                let x = rt::run_once(sched, m.bound(tier), Arc::new(Mutex::new(HashMap::new())), m.body());
                let mut o = String::new();
                for (t, w) in &x.log {
                    let _ = writeln!(o, "T{t} {w}");
                }
                let r = match (&x.failure, &x.result) {
                    (Some(f), _) => Err(format!("{}: {}", f.kind, f.msg)),
                    (None, Some(r)) => judge(&want, r, &x.panics),
                    _ => Err("no result".into()),
                };
                let _ = match r {
                    Ok(()) => writeln!(o, "ok"),
                    Err(e) => writeln!(o, "V {e}"),
                };
                o
            });
            let o = collect(fd);
            print!("{o}");
            let bad = o.lines().any(|l| l.starts_with("V "));
            if bad {
                println!("VIOLATION property=C20 replay={}", args[2]);
            }
            std::process::exit(bad as i32);
        }
        _ => {
            eprintln!("usage: mcsched check C20 | replay FILE");
            std::process::exit(2);
        }
    }
}
