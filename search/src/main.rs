//! Search for failing inputs of the listed properties on the real crate.
//!
//! `verif_search --property C01 --seed 1 --cases 1000 [--start 0] [--threads 8]
//!  [--seconds 60] --out report.json` runs cases `start..start+cases`; each case
//! is determined by property, seed and case number alone.
#![allow(unexpected_cfgs, irrefutable_let_patterns)]
mod cards_ref;
mod dict;
mod gen;
mod props;
mod props2;
mod refdec;
mod trust;
mod util;

use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Deviation from the property.
pub struct Bad {
    pub what: String,
    pub detail: Vec<String>,
    /// identifier of the listed finding this is an instance of, if any
    pub known: Option<&'static str>,
}
pub type Res = Result<(), Bad>;
pub fn bad<T>(what: impl Into<String>, detail: Vec<String>) -> Result<T, Bad> {
    Err(Bad { what: what.into(), detail, known: None })
}

/// What the cases have covered.
#[derive(Default)]
pub struct Cov {
    pub evaluations: u64,
    pub kinds: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}
impl Cov {
    pub fn kind(&mut self, k: &str) {
        match self.kinds.get_mut(k) {
            Some(n) => *n += 1,
            None => {
                self.kinds.insert(k.to_string(), 1);
            }
        }
    }
    /// A case that reached what the property is about.
    pub fn nontrivial(&mut self, h: u64, sample: impl FnOnce() -> String) {
        if self.distinct.len() < 200_000 {
            self.distinct.insert(h);
        }
        if self.samples.len() < 3 {
            self.samples.push(sample())
        }
    }
    fn merge(&mut self, o: Cov) {
        self.evaluations += o.evaluations;
        for (k, v) in o.kinds {
            *self.kinds.entry(k).or_insert(0) += v
        }
        self.distinct.extend(o.distinct);
        self.samples.extend(o.samples);
        self.samples.truncate(5);
    }
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}
pub fn last_panic() -> Option<(String, String)> {
    PANIC.with(|p| p.borrow_mut().take())
}

pub fn js(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

struct Shared {
    next: AtomicU64,
    stop: AtomicBool,
    violation: Mutex<Option<(u64, Bad)>>,
    known: Mutex<BTreeMap<&'static str, (u64, u64, String, Vec<String>)>>,
    cov: Mutex<Cov>,
    harness: Mutex<Vec<String>>,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    let property = get("--property").expect("--property");
    dict::init(&get("--source").unwrap_or_else(|| "/repo/src".into()));
    let num = |k: &str, d: u64| get(k).map(|s| s.parse::<u64>().expect("number")).unwrap_or(d);
    let seed = num("--seed", 1);
    let start = num("--start", 0);
    let cases = num("--cases", 1000);
    let threads = num("--threads", 8) as usize;
    let seconds = num("--seconds", 3600);
    let out = get("--out");
    let Some(case) = props::case_of(&property) else {
        eprintln!("unknown property");
        std::process::exit(2)
    };
    let stream: u64 = property[1..].parse().unwrap_or(99);

    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));

    let sh = Arc::new(Shared {
        next: AtomicU64::new(start),
        stop: AtomicBool::new(false),
        violation: Mutex::new(None),
        known: Mutex::new(BTreeMap::new()),
        cov: Mutex::new(Cov::default()),
        harness: Mutex::new(vec![]),
    });
    let end = start + cases;
    let t0 = Instant::now();
    let running: Arc<Vec<Mutex<Option<(u64, Instant)>>>> = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    let mut hs = vec![];
    for t in 0..threads {
        let sh = sh.clone();
        let running = running.clone();
        let progress = out.clone().map(|o| format!("{o}.at{t}"));
        hs.push(
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    let mut cov = Cov::default();
                    let mut pf = progress.map(|p| std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(p).unwrap());
                    loop {
                        if sh.stop.load(Ordering::Relaxed) || t0.elapsed().as_secs() >= seconds {
                            break;
                        }
                        let i = sh.next.fetch_add(1, Ordering::Relaxed);
                        if i >= end {
                            break;
                        }
                        if let Some(f) = pf.as_mut() {
                            use std::io::Seek;
                            let _ = f.seek(std::io::SeekFrom::Start(0));
                            let _ = f.write_all(format!("{i:020}").as_bytes());
                        }
                        *running[t].lock().unwrap() = Some((i, Instant::now()));
                        cov.evaluations += 1;
                        let mut r = util::Rng::new(seed, stream, i);
                        let res = catch_unwind(AssertUnwindSafe(|| case(&mut r, i, &mut cov)));
                        *running[t].lock().unwrap() = None;
                        let b = match res {
                            Ok(Ok(())) => continue,
                            Ok(Err(b)) => b,
                            Err(_) => {
                                let (loc, msg) = last_panic().unwrap_or_default();
                                if loc.contains("search/src") || loc.starts_with("src/") {
                                    sh.harness.lock().unwrap().push(format!("case {i}: {loc}: {msg}"));
                                    continue;
                                }
                                Bad { what: format!("panic at {loc}: {msg}"), detail: vec![], known: None }
                            }
                        };
                        match b.known {
                            Some(k) => {
                                let mut kn = sh.known.lock().unwrap();
                                let e = kn.entry(k).or_insert((0, i, b.what, b.detail));
                                e.0 += 1;
                            }
                            None => {
                                let mut v = sh.violation.lock().unwrap();
                                if v.as_ref().map(|(j, _)| i < *j).unwrap_or(true) {
                                    *v = Some((i, b))
                                }
                                sh.stop.store(true, Ordering::Relaxed)
                            }
                        }
                    }
                    sh.cov.lock().unwrap().merge(cov);
                })
                .unwrap(),
        );
    }
    // a case that never ends
    {
        let sh = sh.clone();
        let running = running.clone();
        let property = property.clone();
        let out = out.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            for slot in running.iter() {
                let cur = *slot.lock().unwrap();
                if let Some((i, since)) = cur {
                    if since.elapsed().as_secs() > 60 {
                        let b = Bad { what: "decoding does not end (no answer within 60 seconds)".into(), detail: vec![], known: None };
                        let cov = std::mem::take(&mut *sh.cov.lock().unwrap());
                        report(&property, seed, &out, &cov, Some((i, &b)), &BTreeMap::new(), &[], t0);
                        std::process::exit(1)
                    }
                }
            }
        });
    }
    for h in hs {
        h.join().unwrap()
    }
    let v = sh.violation.lock().unwrap();
    let cov = sh.cov.lock().unwrap();
    report(
        &property,
        seed,
        &out,
        &cov,
        v.as_ref().map(|(i, b)| (*i, b)),
        &sh.known.lock().unwrap(),
        &sh.harness.lock().unwrap(),
        t0,
    );
    std::process::exit(if v.is_some() { 1 } else { 0 })
}

#[allow(clippy::too_many_arguments)]
fn report(
    property: &str,
    seed: u64,
    out: &Option<String>,
    cov: &Cov,
    v: Option<(u64, &Bad)>,
    known: &BTreeMap<&'static str, (u64, u64, String, Vec<String>)>,
    harness: &[String],
    t0: Instant,
) {
    let kinds: Vec<String> = cov.kinds.iter().map(|(k, n)| format!("{}:{n}", js(k))).collect();
    let viol = match v {
        Some((i, b)) => format!("{{\"case\":{i},\"what\":{},\"detail\":{}}}", js(&b.what), jl(&b.detail)),
        None => "null".into(),
    };
    let kn: Vec<String> = known
        .iter()
        .map(|(k, (n, i, w, d))| format!("{{\"id\":{},\"times\":{n},\"case\":{i},\"what\":{},\"detail\":{}}}", js(k), js(w), jl(d)))
        .collect();
    let text = format!(
        "{{\"property\":{},\"seed\":{seed},\"evaluations\":{},\"distinct_nontrivial\":{},\"kinds\":{{{}}},\"samples\":{},\"violation\":{viol},\"known\":[{}],\"harness_panics\":{},\"seconds\":{:.1}}}\n",
        js(property),
        cov.evaluations,
        cov.distinct.len(),
        kinds.join(","),
        jl(&cov.samples),
        kn.join(","),
        jl(harness),
        t0.elapsed().as_secs_f64()
    );
    match out {
        Some(o) => std::fs::write(o, text).unwrap(),
        None => print!("{text}"),
    }
}
