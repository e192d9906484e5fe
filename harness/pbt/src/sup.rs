//! The process above the search. A check runs in a child process that notes, before each case, which one it is about to
//! run. When the child is killed (abort, stack or memory exhausted) or a case does not end, the noted cases are run again,
//! each alone in a process of its own: one that ends its process or does not end there either is the violation.

use crate::{
    env_u64, json_str, parse_replay, run_case, seed_of, trace_of, write_replay, Law, Mode, Prop, Rng, Src,
};
use std::{
    fs::File,
    io::Read,
    os::unix::{fs::FileExt, process::ExitStatusExt},
    path::PathBuf,
    process::{Command, Stdio},
    sync::OnceLock,
    time::{Duration, Instant},
};

pub const IDLE: u64 = 0;
pub const GEN: u64 = 1;
pub const SHRINK: u64 = 2;
pub const FUZZ: u64 = 3;
pub const SHRINK_FUZZ: u64 = 4;

const SLOT: usize = 32;
const SLOTS: usize = 64;

fn file() -> Option<&'static (File, File)> {
    static F: OnceLock<Option<(File, File)>> = OnceLock::new();
    F.get_or_init(|| {
        let p = std::env::var("PBT_PROGRESS").ok()?;
        let open = |p: &str| std::fs::OpenOptions::new().read(true).write(true).create(true).open(p).ok();
        Some((open(&p)?, open(&format!("{p}.fuzz"))?))
    })
    .as_ref()
}

pub fn progress(slot: usize, phase: u64, law: usize, case: u64, count: u64) {
    if let Some((f, _)) = file() {
        let mut b = [0u8; SLOT];
        for (i, v) in [phase, law as u64, case, count].iter().enumerate() {
            b[i * 8..i * 8 + 8].copy_from_slice(&v.to_le_bytes());
        }
        let _ = f.write_all_at(&b, ((slot % SLOTS) * SLOT) as u64);
    }
}

/// kind 0: the seed of a fresh case; kind 1: choices
pub fn fuzz_input(kind: u64, data: &[u64]) {
    if let Some((_, f)) = file() {
        let mut b = Vec::with_capacity(16 + data.len() * 8);
        b.extend_from_slice(&kind.to_le_bytes());
        b.extend_from_slice(&(data.len() as u64).to_le_bytes());
        for v in data {
            b.extend_from_slice(&v.to_le_bytes());
        }
        let _ = f.write_all_at(&b, 0);
    }
}

fn words(b: &[u8]) -> Vec<u64> {
    b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

enum Alone {
    Held,
    Failed(String),
    Died(String),
    Hung,
}

/// how long a case may take, in seconds; they take milliseconds
fn limit() -> u64 {
    env_u64("VERIF_CASE_LIMIT", 60)
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        let d = std::env::temp_dir().join(format!("pbt-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("a scratch folder");
        Scratch(d)
    }
    fn path(&self, n: &str) -> String {
        self.0.join(n).to_string_lossy().into_owned()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// runs one case in a process of its own: `how` is "seed N" or "choices FILE"; the choices made are left in `out`
fn alone(prop: &Prop, law: &Law, how: (&str, &str), out: &str, secs: u64) -> Alone {
    let Ok(exe) = std::env::current_exe() else { return Alone::Held };
    let _ = std::fs::write(out, b"");
    let child = Command::new(exe)
        .args(["case", prop.id, law.name, how.0, how.1, out])
        .env_remove("PBT_PROGRESS")
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn();
    let Ok(mut child) = child else { return Alone::Held };
    let t0 = Instant::now();
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {}
            Err(_) => return Alone::Held,
        }
        if t0.elapsed() > Duration::from_secs(secs) {
            let _ = child.kill();
            let _ = child.wait();
            return Alone::Hung;
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 200 { 2 } else { 50 }));
    };
    let mut text = String::new();
    if let Some(mut o) = child.stdout.take() {
        let _ = o.read_to_string(&mut text);
    }
    match status.code() {
        Some(0) => Alone::Held,
        Some(1) => Alone::Failed(text.trim().to_string()),
        Some(_) => Alone::Held,
        None => Alone::Died(format!("signal {}", status.signal().unwrap_or(0))),
    }
}

/// case PROP LAW seed|choices X OUT
pub fn case(props: &[Prop], args: &[String]) -> i32 {
    let find = || {
        let prop = props.iter().find(|p| p.id == args[0])?;
        let law = prop.laws.iter().find(|l| l.name == args[1])?;
        let mode = match args[2].as_str() {
            "seed" => Mode::Gen(Rng::new(args[3].parse().ok()?)),
            _ => Mode::Replay(words(&std::fs::read(&args[3]).ok()?)),
        };
        Some((law, mode))
    };
    let Some((law, mode)) = find() else { return 3 };
    let mut src = Src::new(mode, false, false);
    src.tee = File::create(&args[4]).ok();
    match in_thread(|| run_case(law.run, &mut src)) {
        Ok(()) => 0,
        Err(m) => {
            println!("{m}");
            1
        }
    }
}

fn in_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|sc| {
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, f).unwrap().join().unwrap()
    })
}

pub fn replay(prop: &Prop, law: &Law, choices: &[u64], path: &str) -> i32 {
    let scratch = Scratch::new();
    let (inp, out) = (scratch.path("in"), scratch.path("out"));
    let _ = std::fs::write(&inp, choices.iter().flat_map(|c| c.to_le_bytes()).collect::<Vec<u8>>());
    let m = match alone(prop, law, ("choices", &inp), &out, limit()) {
        Alone::Died(s) => Some(format!("the code under test ended the process ({s})")),
        Alone::Hung => Some(format!("the code under test did not finish within {} s", limit())),
        _ => {
            let (r, notes) = in_thread(|| trace_of(law.run, choices));
            for n in notes {
                println!("  {n}");
            }
            r.err()
        }
    };
    match m {
        None => {
            println!("holds: {}/{}", prop.id, law.name);
            0
        }
        Some(m) => {
            println!("violated: {m}");
            println!("VIOLATION property={} replay={path}", prop.id);
            1
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Slot {
    phase: u64,
    law: u64,
    case: u64,
    count: u64,
}

fn slots(path: &str) -> Vec<Slot> {
    let b = std::fs::read(path).unwrap_or_default();
    words(&b)
        .chunks_exact(4)
        .map(|w| Slot { phase: w[0], law: w[1], case: w[2], count: w[3] })
        .collect()
}

pub fn check(props: &[Prop], id: &str) -> i32 {
    let Some(prop) = props.iter().find(|p| p.id == id) else {
        eprintln!("no such property here: {id}");
        return 3;
    };
    let scratch = Scratch::new();
    let progress = scratch.path("progress");
    let _ = std::fs::write(&progress, b"");
    let t0 = Instant::now();
    let child = std::env::current_exe()
        .and_then(|exe| Command::new(exe).args(["check-inner", id]).env("PBT_PROGRESS", &progress).spawn());
    let Ok(mut child) = child else {
        return crate::check_prop(prop);
    };
    let mut seen: Vec<(Slot, Instant)> = vec![];
    let why = loop {
        match child.try_wait() {
            Ok(Some(s)) => match s.code() {
                Some(c) => return c,
                None => break format!("ended by signal {}", s.signal().unwrap_or(0)),
            },
            Ok(None) => {}
            Err(e) => {
                eprintln!("cannot wait for the search: {e}");
                return 3;
            }
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 1000 { 10 } else { 100 }));
        if t0.elapsed().as_millis() < 2000 {
            continue;
        }
        let now = slots(&progress);
        for (i, s) in now.iter().enumerate() {
            if i >= seen.len() {
                seen.push((*s, Instant::now()));
            } else if seen[i].0 != *s {
                seen[i] = (*s, Instant::now());
            }
        }
        if seen.iter().any(|(s, t)| s.phase != IDLE && t.elapsed() > Duration::from_secs(limit())) {
            let _ = child.kill();
            let _ = child.wait();
            break "stopped: a case did not end".to_string();
        }
    };
    println!("{id}: the search was {why}; running its last cases alone");
    blame(prop, &scratch, &progress, t0)
}

fn blame(prop: &Prop, scratch: &Scratch, progress: &str, t0: Instant) -> i32 {
    let seed = env_u64("VERIF_SEED", 1);
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let all = slots(progress);
    let evals: u64 = all.iter().filter(|s| s.phase < SHRINK).map(|s| s.count).sum();
    let mut cands: Vec<Slot> = all.into_iter().filter(|s| s.phase != IDLE).collect();
    cands.sort_by_key(|s| s.case);
    let out = scratch.path("out");
    for s in cands {
        let Some(law) = prop.laws.get(s.law as usize) else { continue };
        let inp = scratch.path("in");
        let case_seed = seed_of(seed, prop.id, law.name, s.case).to_string();
        let (kind, x): (&str, String) = if s.phase == FUZZ || s.phase == SHRINK_FUZZ {
            let w = words(&std::fs::read(format!("{progress}.fuzz")).unwrap_or_default());
            if w.len() < 3 {
                continue;
            }
            if w[0] == 0 {
                ("seed", w[2].to_string())
            } else {
                let c: Vec<u8> = w[2..2 + (w[1] as usize).min(w.len() - 2)].iter().flat_map(|v| v.to_le_bytes()).collect();
                let _ = std::fs::write(&inp, c);
                ("choices", inp.clone())
            }
        } else {
            ("seed", case_seed)
        };
        let mut msg = match alone(prop, law, (kind, &x), &out, limit()) {
            Alone::Held => continue,
            Alone::Failed(m) => m,
            Alone::Died(s) => format!("the code under test ended the process ({s})"),
            Alone::Hung => format!("the code under test did not finish within {} s", limit()),
        };
        let mut best = words(&std::fs::read(&out).unwrap_or_default());
        if msg.contains("ended the process") {
            msg = shrink(prop, law, scratch, &mut best, msg);
        }
        println!("{}/{}: case {}: {}", prop.id, law.name, s.case, msg);
        let path = write_plain(&root, prop, law, &best, &msg);
        evidence(&root, prop, seed, evals, &msg, t0);
        println!("VIOLATION property={} replay={path}", prop.id);
        return 1;
    }
    println!("{}: none of the cases fails alone: not decided", prop.id);
    3
}

/// the replay file of a case that cannot be traced in this process
fn write_plain(root: &str, prop: &Prop, law: &Law, choices: &[u64], msg: &str) -> String {
    if !msg.contains("the code under test") {
        return write_replay(root, prop, law, choices, msg);
    }
    let dir = format!("{root}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{}-{:016x}.replay", prop.id, law.name, crate::hash_choices(choices));
    let list = choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
    let t = format!("property {}\nlaw {}\nchoices {list}\n# violated: {msg}\n", prop.id, law.name);
    std::fs::write(&path, &t).expect("cannot write the replay file");
    debug_assert!(parse_replay(&t).is_some());
    path
}

/// deletes and lowers choices while the process still ends
fn shrink(prop: &Prop, law: &Law, scratch: &Scratch, best: &mut Vec<u64>, msg: String) -> String {
    let (inp, out) = (scratch.path("cand"), scratch.path("cand.out"));
    let end = Instant::now() + Duration::from_secs(45);
    let mut attempt = |best: &mut Vec<u64>, c: Vec<u64>| {
        if Instant::now() > end || c == *best {
            return false;
        }
        let _ = std::fs::write(&inp, c.iter().flat_map(|c| c.to_le_bytes()).collect::<Vec<u8>>());
        if let Alone::Died(_) = alone(prop, law, ("choices", &inp), &out, 10) {
            let rec = words(&std::fs::read(&out).unwrap_or_default());
            if (rec.len(), &rec) < (best.len(), &*best) {
                *best = rec;
                return true;
            }
        }
        false
    };
    let mut size = (best.len() / 2).max(1);
    loop {
        let mut i = best.len();
        while i >= size && Instant::now() < end {
            i -= size;
            if i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                attempt(best, c);
            }
        }
        if size == 1 || Instant::now() > end {
            break;
        }
        size /= 2;
    }
    for i in 0..best.len() {
        if i < best.len() && best[i] > 0 {
            let mut c = best.clone();
            c[i] = 0;
            attempt(best, c);
        }
    }
    msg
}

fn evidence(root: &str, prop: &Prop, seed: u64, evals: u64, msg: &str, t0: Instant) {
    let o = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {evals},\n  \"distinct_nontrivial\": 0,\n  \"rule\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": 1\n}}\n",
        json_str(prop.id),
        json_str(&std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into())),
        json_str(prop.rule),
        json_str(msg),
        prop.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
    );
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    let _ = std::fs::write(format!("{root}/evidence/{}.json", prop.id), o);
}
