// Shared by the runners: deterministic generators, case bookkeeping, watchdog, JSON output.
#![allow(dead_code)]
use std::collections::HashSet;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a.wrapping_add(self.below((b.wrapping_sub(a) as u64).wrapping_add(1)) as i64)
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}

struct Watch {
    what: String,
    since: Instant,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub rng: Rng,
    only: Option<String>,
    evals: u64,
    nontrivial: HashSet<u64>,
    samples: Vec<String>,
    failures: Vec<(String, String, String)>,
    rule: Vec<String>,
    start: Instant,
    pub budget: Duration,
    watch: Arc<Mutex<Option<Watch>>>,
    out: Option<String>,
    case_limit: Duration,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0100_0000_01b3);
    }
    h
}

/// A value written out in full: short when the list is short, abridged otherwise (the case id regenerates it).
pub fn show<T: std::fmt::Debug>(v: &[T]) -> String {
    if v.len() <= 400 {
        format!("{:?}", v)
    } else {
        format!("[{} values: {:?} ... {:?}]", v.len(), &v[..60], &v[v.len() - 20..])
    }
}

impl Ctx {
    /// arguments: PROP TIER SEED BUDGET_S OUT [CASE_ID]
    pub fn from_args() -> Ctx {
        let a: Vec<String> = std::env::args().collect();
        if a.len() < 6 {
            eprintln!("usage: {} PROP TIER SEED BUDGET_S OUT [CASE]", a[0]);
            std::process::exit(64);
        }
        let seed: u64 = a[3].parse().unwrap_or(1);
        std::panic::set_hook(Box::new(|_| {}));
        let ctx = Ctx {
            prop: a[1].clone(),
            thorough: a[2] == "thorough",
            seed,
            rng: Rng::new(seed ^ hash(&a[1])),
            only: a.get(6).cloned(),
            evals: 0,
            nontrivial: HashSet::new(),
            samples: vec![],
            failures: vec![],
            rule: vec![],
            start: Instant::now(),
            budget: Duration::from_secs_f64(a[4].parse().unwrap_or(10.0)),
            watch: Arc::new(Mutex::new(None)),
            out: Some(a[5].clone()),
            case_limit: Duration::from_secs(120),
        };
        let (w, out, prop, limit) = (ctx.watch.clone(), a[5].clone(), a[1].clone(), ctx.case_limit);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let g = w.lock().unwrap();
            if let Some(x) = g.as_ref() {
                if x.since.elapsed() > limit {
                    let (id, input) = x.what.split_once('\n').unwrap_or((&x.what, ""));
                    let j = format!("{{\"property\":{},\"evaluations\":1,\"distinct_nontrivial\":1,\"rule\":\"\",\"samples\":[],\"failures\":[{{\"case\":{},\"input\":{},\"what\":\"no result after {} s\"}}]}}", esc(&prop), esc(id), esc(input), limit.as_secs());
                    std::fs::write(&out, j).unwrap();
                    std::process::exit(0);
                }
            }
        });
        ctx
    }
    /// fraction of the time budget used
    pub fn spent(&self) -> f64 {
        self.start.elapsed().as_secs_f64() / self.budget.as_secs_f64()
    }
    pub fn go(&self) -> bool {
        self.failures.len() < 3 && (self.spent() < 1.0 || self.only.is_some())
    }
    pub fn rule(&mut self, s: &str) {
        self.rule.push(s.to_string());
    }
    pub fn failed(&self) -> bool {
        !self.failures.is_empty()
    }
    /// One case: `id` regenerates it, `input` writes it out, `f` is the property on it.
    pub fn case<I: FnOnce() -> String, F: FnOnce() -> Result<(), String>>(&mut self, id: &str, nontrivial: bool, input: I, f: F) {
        if let Some(o) = &self.only {
            if o != id {
                return;
            }
        }
        if self.failures.len() >= 3 {
            return;
        }
        self.evals += 1;
        if nontrivial {
            self.nontrivial.insert(hash(id));
        }
        let text = input();
        if self.samples.len() < 4 && nontrivial && (self.evals % 7 == 1 || self.evals < 3) {
            let mut s = format!("{}: {}", id, text);
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) { k -= 1; }
                s.truncate(k);
                s.push_str("...");
            }
            self.samples.push(s);
        }
        *self.watch.lock().unwrap() = Some(Watch { what: format!("{}\n{}", id, text), since: Instant::now() });
        if let Some(o) = &self.out {
            // what was running, should the process die
            let _ = std::fs::write(format!("{}.current", o), format!("{}\n{}", id, text));
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        *self.watch.lock().unwrap() = None;
        let bad = match r {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Some(format!("panicked: {}", m))
            }
        };
        if let Some(e) = bad {
            self.failures.push((id.to_string(), text, e));
        }
    }
    pub fn finish(self) -> ! {
        let f: Vec<String> = self.failures.iter().map(|(i, t, e)| format!("{{\"case\":{},\"input\":{},\"what\":{}}}", esc(i), esc(t), esc(e))).collect();
        let s: Vec<String> = self.samples.iter().map(|s| esc(s)).collect();
        let j = format!(
            "{{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"failures\":[{}],\"wall_s\":{:.2}}}",
            esc(&self.prop), self.evals, self.nontrivial.len(), esc(&self.rule.join("; ")), s.join(","), f.join(","), self.start.elapsed().as_secs_f64()
        );
        if let Some(o) = &self.out {
            std::fs::write(o, &j).unwrap();
            let _ = std::fs::remove_file(format!("{}.current", o));
        }
        std::io::stdout().flush().unwrap();
        std::process::exit(0)
    }
}

/// panics are an outcome here: Err(message)
pub fn quiet<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into()))
}

/// the same check for different inputs at the same time, each thread keeping its own buffers
pub fn together<F: Fn(u64, u64) -> Result<(), String> + Sync>(threads: u64, rounds: u64, f: F) -> Result<(), String> {
    let f = &f;
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                s.spawn(move || {
                    for j in 0..rounds {
                        match quiet(|| f(t, j)) {
                            Ok(Ok(())) => {}
                            Ok(Err(e)) => return Err(format!("thread {} round {}: {}", t, j, e)),
                            Err(e) => return Err(format!("thread {} round {}: panicked: {}", t, j, e)),
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        let mut r = Ok(());
        for h in hs {
            let x = h.join().unwrap_or_else(|_| Err("a thread panicked".into()));
            if r.is_ok() {
                r = x;
            }
        }
        r
    })
}

#[macro_export]
macro_rules! need {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

/// Everything the commands touch lives in a scratch directory of its own.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let k = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let d = std::env::temp_dir().join(format!("cli-{}-{}-{}", std::process::id(), tag, k));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn bin(env: &str) -> String {
    std::env::var(env).expect("path of the binary")
}

/// -> (exit status was 0, stderr)
pub fn run(env: &str, args: &[String], cwd: &Path) -> Result<(bool, String), String> {
    let mut ch = Command::new(bin(env))
        .args(args)
        .current_dir(cwd)
        .env_remove("RUST_LOG")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("cannot start: {}", e))?;
    let mut er = ch.stderr.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = std::io::Read::read_to_end(&mut er, &mut s);
        s
    });
    let t0 = std::time::Instant::now();
    loop {
        if let Some(st) = ch.try_wait().map_err(|e| e.to_string())? {
            let s = h.join().unwrap_or_default();
            return Ok((st.success(), String::from_utf8_lossy(&s).into_owned()));
        }
        if t0.elapsed().as_secs() > 60 {
            let _ = ch.kill();
            return Err(format!("{:?} does not end", args));
        }
        std::thread::sleep(std::time::Duration::from_micros(300));
    }
}
