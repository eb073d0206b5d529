//! mc: model checks of jpeg-decoder. `mc check <ID>` or `mc replay <file>`.
#[macro_use]
mod util;
mod alloc;
mod checks;
mod engine;
mod iso;
mod jpeg;
mod refimg;
mod sut;
mod remote;

use engine::*;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

use std::fmt::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn _exit(code: i32) -> !;
}

static PROP: std::sync::OnceLock<(String, Tier)> = std::sync::OnceLock::new();
const VERIF: &str = "/verif";

fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

fn write_replay(prop: &str, tier: Tier, mi: usize, name: &str, choices: &[(u32, u32)], msg: &str, stream: &[u8]) -> String {
    let dir = format!("{VERIF}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{}.replay", std::process::id());
    let mut s = String::new();
    let _ = writeln!(s, "property={prop}\ntier={}\nmodel={mi}\nname={name}", tier_name(tier));
    let _ = writeln!(s, "choices={}", choices.iter().map(|(c, a)| format!("{c}/{a}")).collect::<Vec<_>>().join(","));
    let _ = writeln!(s, "message={}", msg.replace('\n', " | "));
    let _ = writeln!(s, "stream={}", stream.iter().map(|b| format!("{b:02x}")).collect::<String>());
    let _ = writeln!(s, "# replay with: /verif/bin/check {prop} --replay {path}");
    let _ = std::fs::write(&path, s);
    path
}

/// Called by the watchdog when a case does not return.
pub fn report_hang(mi: usize, name: &str, choices: &[(u32, u32)], lim: Duration) -> ! {
    let (prop, tier) = PROP.get().unwrap();
    let msg = format!("a call did not return within {} s", lim.as_secs());
    let path = write_replay(prop, *tier, mi, name, choices, &msg, &[]);
    println!("model {name}: {msg}");
    println!("VIOLATION property={prop} replay={path}");
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { _exit(1) }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn known_findings(prop: &str) -> Vec<(String, String)> {
    // finding: property=C02 sig=<signature> <description>
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{VERIF}/known_findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: ") {
                let mut it = r.splitn(3, ' ');
                let p = it.next().unwrap_or("").strip_prefix("property=").unwrap_or("");
                let g = it.next().unwrap_or("").strip_prefix("sig=").unwrap_or("");
                if p == prop {
                    v.push((g.to_string(), it.next().unwrap_or("").to_string()));
                }
            }
        }
    }
    v
}

fn run_check(prop: &str, tier: Tier, shared: &Shared) -> i32 {
    let t0 = Instant::now();
    let Some(spec) = checks::get(prop, tier) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let known = known_findings(prop);
    let sigs: Vec<String> = known.iter().map(|k| k.0.clone()).collect();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 8);
    let cap = std::env::var("MC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 400 } else { 3000 });
    let env = Env { tier, threads, cap: Duration::from_secs(cap), hang_limit: Duration::from_secs(spec.hang_s), shared, known: &sigs };
    let models: Vec<Model> = match std::env::var("MC_ONLY") {
        Ok(o) => spec.models.into_iter().filter(|m| m.name.contains(&o)).collect(),
        Err(_) => spec.models,
    };
    let st = match explore(&models, &env) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("ERROR: {e}");
            return 2;
        }
    };
    let wall = t0.elapsed().as_secs_f64();
    let mut j = String::new();
    let _ = write!(j, "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n", js(prop), js(tier_name(tier)), seed);
    let _ = write!(j, " \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n", st.states, st.transitions, st.traces);
    let _ = write!(j, "  \"executions_of_the_model\": {},\n  \"distinct_observed_outcomes\": {},\n  \"max_choice_depth\": {},\n  \"exhaustive\": {},\n", st.executions, st.outcomes, st.max_depth, !st.capped);
    let _ = write!(j, "  \"bounds\": {},\n", js(&spec.bounds));
    let _ = write!(j, "  \"rule\": {},\n", js("states: distinct hashes of the model state (generated stream, options, environment); transitions: edges of the choice tree walked; traces: runs of the real decoder compared with the model's prediction"));
    for (k, v) in &st.counters {
        let _ = write!(j, "  {}: {},\n", js(k), v);
    }
    let _ = write!(j, "  \"models\": [{}],\n", st.per_model.iter().map(|(n, e, full)| format!("{{\"name\": {}, \"executions\": {e}, \"complete\": {full}}}", js(n))).collect::<Vec<_>>().join(", "));
    let _ = write!(j, "  \"samples\": [{}]\n }},\n", st.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   "));
    let _ = write!(j, " \"assumptions\": [{}],\n", spec.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    let _ = write!(j, " \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, st.violation.is_some() as u32);
    let _ = std::fs::create_dir_all(format!("{VERIF}/evidence"));
    if std::env::var_os("MC_ONLY").is_none() {
        if let Err(e) = std::fs::write(format!("{VERIF}/evidence/{prop}.json"), j) {
            eprintln!("ERROR: cannot write evidence: {e}");
            return 2;
        }
    }
    println!(
        "{prop} {}: {} executions, {} states, {} transitions, {} traces, {} outcomes, {:.1}s{}",
        tier_name(tier), st.executions, st.states, st.transitions, st.traces, st.outcomes, wall,
        if st.capped { " (time cap hit: not exhaustive)" } else { "" }
    );
    for (sig, desc) in &known {
        if st.known.contains_key(sig) {
            println!("KNOWN-FINDING: property={prop} {desc} [{sig}, {} cases]", st.known[sig]);
        }
    }
    if let Some(v) = st.violation {
        let path = write_replay(prop, tier, v.model, &v.model_name, &v.choices, &v.fail.msg, &v.stream);
        println!("model {}: {}{}", v.model_name, v.fail.msg, if v.reproduced { "" } else { " (seen once; not reproduced on immediate re-run)" });
        println!("VIOLATION property={prop} replay={path}");
        return 1;
    }
    0
}

fn find_case(prop: &str, tier: Tier, mi: usize, choices: &[(u32, u32)]) -> (Result<R, String>, Vec<u8>) {
    let spec = checks::get(prop, tier).unwrap();
    let m = &spec.models[mi];
    rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap().install(|| replay(m, choices, tier))
}

/// Run f in a forked child; returns the raw wait status.
fn in_child(f: impl FnOnce() -> i32) -> i32 {
    unsafe {
        let pid = fork();
        if pid < 0 {
            eprintln!("fork failed");
            std::process::exit(2);
        }
        if pid == 0 {
            let rc = f();
            use std::io::Write;
            let _ = std::io::stdout().flush();
            let _ = std::io::stderr().flush();
            _exit(rc);
        }
        let mut status = 0;
        while waitpid(pid, &mut status, 0) < 0 {}
        status
    }
}

fn main() {
    sut::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    match args.get(1).map(|s| s.as_str()) {
        // the base streams, for seeded bugs and experiments
        Some("bases") => {
            for b in checks::bases::all_bases() {
                println!("{}\t{}", b.name, b.bytes.iter().map(|b| format!("{b:02x}")).collect::<String>());
            }
        }
        Some("check") => {
            let prop = args[2].clone();
            let _ = PROP.set((prop.clone(), tier));
            let shared = Shared::new();
            let status = in_child(|| run_check(&prop, tier, &shared));
            if status & 0x7f == 0 {
                std::process::exit((status >> 8) & 0xff);
            }
            let sig = status & 0x7f;
            if sig == 9 {
                eprintln!("ERROR: explorer was killed (signal 9)");
                std::process::exit(2);
            }
            // Aborted: find the in-flight case which does it.
            for s in 0..SLOTS {
                if let Some((mi, ch)) = shared.get(s) {
                    let st2 = in_child(|| {
                        let _ = find_case(&prop, tier, mi, &ch);
                        0
                    });
                    let sig2 = st2 & 0x7f;
                    if sig2 != 0 && sig2 != 9 {
                        let msg = format!("the process was terminated by signal {sig2}");
                        let path = write_replay(&prop, tier, mi, "", &ch, &msg, &[]);
                        println!("{msg}");
                        println!("VIOLATION property={prop} replay={path}");
                        std::process::exit(1);
                    }
                }
            }
            eprintln!("ERROR: explorer died with signal {sig}, no in-flight case reproduces it");
            std::process::exit(2);
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{k}=")).map(|s| s.to_string())).unwrap_or_default();
            let prop = get("property");
            let tier = if get("tier") == "thorough" { Tier::Thorough } else { Tier::Quick };
            let mi: usize = get("model").parse().unwrap();
            let ch: Vec<(u32, u32)> = get("choices").split(',').filter(|s| !s.is_empty()).map(|s| { let (a, b) = s.split_once('/').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) }).collect();
            let (r, stream) = find_case(&prop, tier, mi, &ch);
            println!("stream: {} bytes", stream.len());
            if let Some(p) = args.get(3) {
                std::fs::write(p, &stream).unwrap();
            }
            match r {
                Ok(Ok(())) => println!("no violation"),
                Ok(Err(f)) => {
                    println!("violated: {} [{}]", f.msg, f.sig);
                    std::process::exit(1);
                }
                Err(e) => {
                    println!("error: {e}");
                    std::process::exit(2);
                }
            }
        }
        _ => {
            eprintln!("usage: mc check <ID> | mc replay <file> [stream-out]");
            std::process::exit(2);
        }
    }
}
