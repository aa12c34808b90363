//! Bounded companion of the deductive checks: runs the real crate against independent reference
//! implementations, to replay and to search failing inputs.
mod assume;
mod gen;
mod msgs;
mod names;
mod rules;
mod wire;
mod rng;
mod util;

use rng::Rng;
use std::collections::{HashSet, VecDeque};
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// One property: how cases are enumerated, generated and judged.
pub trait Prop: Sync + Send {
    /// systematic cases (each thread takes every n-th)
    fn systematic(&self, f: &mut dyn FnMut(&dyn Fn() -> String) -> bool);
    fn random(&self, r: &mut Rng) -> String;
    /// Ok(non-trivial?) or the description of the violation
    fn exec(&self, case: &str) -> Result<bool, String>;
    fn rule(&self) -> &'static str;
}

fn lookup(p: &str) -> Option<Box<dyn Prop>> {
    Some(match p {
        "C01" => Box::new(msgs::C01),
        "C02" => Box::new(msgs::C02),
        "C03" => Box::new(msgs::C03),
        "C04" => Box::new(msgs::C04),
        "C08" => Box::new(msgs::C08),
        "C09" => Box::new(msgs::C09),
        "C10" => Box::new(msgs::C10),
        "C11" => Box::new(msgs::C11),
        "C12" => Box::new(msgs::C12),
        "C13" => Box::new(msgs::C13),
        "C06" => Box::new(rules::C06),
        "C07" => Box::new(rules::C07),
        "C14" => Box::new(rules::C14),
        "C15" => Box::new(rules::C15),
        "C16" => Box::new(rules::C16),
        "C05" => Box::new(names::Names),
        _ => return None,
    })
}

fn guarded(p: &dyn Prop, case: &str) -> Result<bool, String> {
    match catch_unwind(AssertUnwindSafe(|| p.exec(case))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panicked: {}", m))
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Shared {
    stop: AtomicBool,
    viol: Mutex<Vec<(String, String)>>,
    /// what the same thread ran before the first violation
    past: Mutex<Vec<String>>,
    evals: AtomicU64,
    samples: Mutex<Vec<String>>,
}

fn finish(out: &str, p: &dyn Prop, sh: &Shared, distinct: u64, t: Instant, complete: bool) {
    let v = sh.viol.lock().unwrap();
    let s = sh.samples.lock().unwrap();
    let short = |x: &str| -> String { x.chars().take(400).collect() };
    let txt = format!(
        "{{\"evaluations\":{},\"distinct\":{},\"secs\":{:.1},\"systematic_complete\":{},\"rule\":{},\"samples\":[{}],\"violations\":[{}]}}",
        sh.evals.load(Ordering::Relaxed),
        distinct,
        t.elapsed().as_secs_f64(),
        complete,
        js(p.rule()),
        s.iter().take(4).map(|x| js(&short(x))).collect::<Vec<_>>().join(","),
        v.iter().map(|(c, w)| format!("{{\"case\":{},\"what\":{}}}", js(c), js(&short(w)))).collect::<Vec<_>>().join(",")
    );
    std::fs::write(format!("{}/harness.json", out), txt).unwrap();
}

/// Does the first violation need what was run before? Then keep that, as short as it can be.
fn history(out: &str, name: &str, sh: &Shared) {
    let past = sh.past.lock().unwrap();
    if past.is_empty() {
        return;
    }
    let file = format!("{}/history", out);
    let end = Instant::now() + Duration::from_secs(20);
    let fails = |k: usize| -> bool {
        let text: String = past[past.len() - k..].iter().map(|c| format!("{}\n", c)).collect();
        if std::fs::write(&file, text).is_err() {
            return true;
        }
        let child = std::env::current_exe().and_then(|x| std::process::Command::new(x).args(&["cases", name, &file]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn());
        let mut child = match child {
            Ok(c) => c,
            Err(_) => return true,
        };
        loop {
            match child.try_wait() {
                Ok(Some(st)) => return !st.success(),
                Ok(None) if Instant::now() < end => std::thread::sleep(Duration::from_millis(5)),
                _ => {
                    let _ = child.kill();
                    let _ = child.wait();
                    return true;
                }
            }
        }
    };
    let mut k = 1;
    while !fails(k) {
        if k == past.len() || Instant::now() > end {
            sh.viol.lock().unwrap()[0].1 += " (after other cases; not repeated by the last cases of its thread alone)";
            return;
        }
        k = (k * 2).min(past.len());
    }
    if k > 1 {
        sh.viol.lock().unwrap()[0].1 += &format!(" (only after other cases: run `cases {} {}`, {} cases)", name, file, k);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    if a[1] == "assume" {
        // assume ROUNDS SEED: test the contracts assumed for std and bytes
        match catch_unwind(|| assume::run(a[2].parse().unwrap(), a[3].parse().unwrap())) {
            Ok(Ok(n)) => println!("ok {}", n),
            Ok(Err(e)) => {
                println!("DISAGREES {}", e);
                std::process::exit(1)
            }
            Err(_) => {
                println!("DISAGREES panicked");
                std::process::exit(1)
            }
        }
        return;
    }
    let prop = lookup(&a[2]).expect("property");
    if a[1] == "cases" {
        // cases PROP FILE: the cases of a file, one per line, in this order
        for c in std::fs::read_to_string(&a[3]).unwrap().lines() {
            if let Err(e) = guarded(&*prop, c) {
                println!("VIOLATED: {}: {}", c.chars().take(400).collect::<String>(), e);
                std::process::exit(1)
            }
        }
        println!("ok");
        return;
    }
    if a[1] == "case" {
        match guarded(&*prop, &a[3]) {
            Ok(_) => println!("ok"),
            Err(e) => {
                println!("VIOLATED: {}", e);
                std::process::exit(1)
            }
        }
        return;
    }
    let secs: u64 = a[3].parse().unwrap();
    let seed: u64 = a[4].parse().unwrap();
    let out = a[5].clone();
    let n = 8usize;
    let t0 = Instant::now();
    let prop: Arc<Box<dyn Prop>> = Arc::new(prop);
    let sh = Arc::new(Shared { stop: AtomicBool::new(false), viol: Mutex::new(vec![]), past: Mutex::new(vec![]), evals: AtomicU64::new(0), samples: Mutex::new(vec![]) });
    let started: Arc<Vec<AtomicU64>> = Arc::new((0..n).map(|_| AtomicU64::new(u64::MAX)).collect());
    let mut hs = vec![];
    for t in 0..n {
        let (prop, sh, out, started) = (prop.clone(), sh.clone(), out.clone(), started.clone());
        hs.push(std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            let cur = File::create(format!("{}/cur.{}", out, t)).unwrap();
            let mut seen: HashSet<u64> = HashSet::new();
            let mut evals = 0u64;
            let mut past: VecDeque<String> = VecDeque::new();
            let mut past_len = 0usize;
            let mut one = |case: String, seen: &mut HashSet<u64>| {
                let mut b = case.as_bytes().to_vec();
                b.truncate(200_000);
                b.push(b'\n');
                let _ = cur.write_all_at(&b, 0);
                started[t].store(t0.elapsed().as_millis() as u64, Ordering::Relaxed);
                let r = guarded(&**prop, &case);
                started[t].store(u64::MAX, Ordering::Relaxed);
                evals += 1;
                if evals % 64 == 0 {
                    sh.evals.fetch_add(64, Ordering::Relaxed);
                }
                match r {
                    Ok(nt) => {
                        if nt && seen.len() < 400_000 {
                            let h = util::fnv(case.as_bytes());
                            if seen.insert(h) && (evals == 3 || evals == 5000) {
                                sh.samples.lock().unwrap().push(case.clone());
                            }
                        }
                    }
                    Err(e) => {
                        let mut v = sh.viol.lock().unwrap();
                        if v.is_empty() {
                            *sh.past.lock().unwrap() = past.iter().cloned().chain(Some(case.clone())).collect();
                        }
                        v.push((case.clone(), e));
                        if v.len() >= 4 {
                            sh.stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
                past_len += case.len();
                past.push_back(case);
                while past_len > 4 << 20 {
                    past_len -= past.pop_front().map_or(0, |c| c.len());
                }
                !sh.stop.load(Ordering::Relaxed)
            };
            let deadline = Duration::from_secs(secs);
            let mut i = 0usize;
            let mut complete = true;
            prop.systematic(&mut |f| {
                i += 1;
                if i % n != t {
                    return true;
                }
                if t0.elapsed() > deadline * 2 {
                    complete = false;
                    return false;
                }
                one(f(), &mut seen)
            });
            let mut r = Rng::new(seed.wrapping_mul(1000).wrapping_add(t as u64));
            while !sh.stop.load(Ordering::Relaxed) && t0.elapsed() < deadline {
                let c = prop.random(&mut r);
                one(c, &mut seen);
            }
            (seen, complete)
        }).unwrap());
    }
    // watchdog
    let mut complete = true;
    loop {
        std::thread::sleep(Duration::from_millis(50));
        let now = t0.elapsed().as_millis() as u64;
        for t in 0..n {
            let s = started[t].load(Ordering::Relaxed);
            if s != u64::MAX && now > s + 25_000 {
                let c = std::fs::read(format!("{}/cur.{}", out, t)).unwrap_or_default();
                let c = String::from_utf8_lossy(&c).split('\n').next().unwrap_or("").to_string();
                sh.viol.lock().unwrap().push((c, "did not finish within 25 s".into()));
                finish(&out, &**prop, &sh, 0, t0, false);
                std::process::exit(1);
            }
        }
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
    }
    let mut all: HashSet<u64> = HashSet::new();
    for h in hs {
        match h.join() {
            Ok((s, c)) => {
                all.extend(s);
                complete &= c;
            }
            Err(_) => complete = false,
        }
    }
    history(&out, &a[2], &sh);
    finish(&out, &**prop, &sh, all.len() as u64, t0, complete);
    let bad = !sh.viol.lock().unwrap().is_empty();
    std::process::exit(bad as i32);
}
