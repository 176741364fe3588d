mod gen; mod html; mod oracle;
use oracle::*;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn rss() -> usize {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|t| t.split(' ').nth(1).and_then(|x| x.parse::<usize>().ok())).unwrap_or(0) * 4096
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}

type Slot = Arc<Mutex<Option<(Instant, Case)>>>;
const HANG: u64 = 20;
const MEM: usize = 6 << 30;

fn report(prop: &str, key: &str, detail: &str, c: &Case) -> String {
    format!("{{\"property\":{},\"key\":{},\"doc\":{},\"config\":{},\"aux\":{},\"detail\":{}}}", js(prop), js(key), js(&c.doc), js(&c.cfg.to_str()), js(&c.aux), js(detail))
}

fn fails(prop: &str, c: &Case) -> Option<(String, String)> { match eval(prop, c) { Some(Err(e)) => Some(e), _ => None } }

fn shrink(prop: &str, c: &Case) -> Case {
    let mut best = c.clone();
    let deadline = Instant::now() + Duration::from_secs(5);
    let def = Cfg::default();
    macro_rules! tryf { ($f:ident) => { if best.cfg.$f != def.$f { let mut d = best.clone(); d.cfg.$f = def.$f; if fails(prop, &d).is_some() { best = d; } } } }
    tryf!(lite); tryf!(xhtml); tryf!(noimg); tryf!(rel); tryf!(sanitize); tryf!(noblock); tryf!(raw); tryf!(align); tryf!(restricted);
    if !shrinkable(prop) { return best; }
    let mut step = best.doc.chars().count() / 2;
    while step >= 1 && Instant::now() < deadline {
        let cs: Vec<char> = best.doc.chars().collect();
        let mut i = 0; let mut changed = false;
        while i < cs.len() {
            let d: String = cs[..i].iter().chain(cs[(i + step).min(cs.len())..].iter()).collect();
            let mut cand = best.clone(); cand.doc = d;
            if cand.doc.len() < best.doc.len() && fails(prop, &cand).is_some() { best = cand; changed = true; break; }
            i += 1;
            if Instant::now() > deadline { break; }
        }
        if !changed { step /= 2; } else { step = step.min(best.doc.chars().count() / 2).max(1); }
    }
    best
}

fn arg(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} @ {}", m, l));
    }));
    match args.get(1).map(|s| s.as_str()) {
        Some("parse") => { let mut d = String::new(); std::io::Read::read_to_string(&mut std::io::stdin(), &mut d).unwrap(); let c = Case { doc: d, cfg: Cfg::from_str(args.get(2).map(|s| s.as_str()).unwrap_or("")), aux: String::new() }; match run(&c) { Ok(o) => println!("{}", o), Err(p) => println!("PANIC {}", p.0) } }
        Some("fuzz") => fuzz(&args),
        // `case PROP CONFIG AUX` with the document on stdin: exit 1 if the property is broken
        Some("case") => {
            let mut d = String::new(); std::io::Read::read_to_string(&mut std::io::stdin(), &mut d).unwrap();
            let c = Case { doc: d, cfg: Cfg::from_str(&args[3]), aux: args.get(4).cloned().unwrap_or_default() };
            let prop = args[2].clone();
            let (p2, c2) = (prop.clone(), c.clone());
            let done = Arc::new(AtomicBool::new(false));
            let d2 = done.clone();
            std::thread::spawn(move || { let t = Instant::now(); loop { std::thread::sleep(Duration::from_millis(20)); if d2.load(Ordering::SeqCst) { return; } if t.elapsed().as_secs() > HANG || rss() > MEM { println!("{}", report(&p2, "hang", "parse did not finish", &c2)); std::process::exit(if p2 == "C08" { 1 } else { 0 }); } } });
            let v = eval(&prop, &c);
            done.store(true, Ordering::SeqCst);
            match v { Some(Err((k, m))) => { println!("{}", report(&prop, &k, &m, &c)); std::process::exit(1) } _ => println!("holds") }
        }
        _ => { eprintln!("usage: harness fuzz PROP[,PROP] --secs N --seed N --cases N | parse CFG | case PROP CFG AUX"); std::process::exit(2) }
    }
}

fn fuzz(args: &[String]) {
    let props: Vec<String> = args[2].split(',').map(|s| s.to_string()).collect();
    let secs: f64 = arg(args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(20.0);
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let cases: u64 = arg(args, "--cases").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let maxkeys: usize = arg(args, "--max-keys").and_then(|s| s.parse().ok()).unwrap_or(5);
    let threads: usize = arg(args, "--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    for prop in props {
        let t0 = Instant::now();
        let next = Arc::new(AtomicU64::new(0));
        let stop = Arc::new(AtomicBool::new(false));
        let evals = Arc::new(AtomicU64::new(0));
        let skipped = Arc::new(AtomicU64::new(0));
        let found: Arc<Mutex<BTreeMap<String, (String, Case)>>> = Default::default();
        let distinct: Arc<Mutex<HashSet<u64>>> = Default::default();
        let samples: Arc<Mutex<Vec<Case>>> = Default::default();
        let slots: Vec<Slot> = (0..threads).map(|_| Default::default()).collect();
        let handles: Vec<_> = slots.iter().cloned().map(|slot| {
            let (prop, next, stop, evals, skipped, found, distinct, samples) = (prop.clone(), next.clone(), stop.clone(), evals.clone(), skipped.clone(), found.clone(), distinct.clone(), samples.clone());
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                loop {
                    if stop.load(Ordering::Relaxed) { break; }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= cases { break; }
                    let mut r = gen::Rng::new(seed.wrapping_mul(1_000_003) ^ i.wrapping_mul(0x9E37_79B9));
                    let c = generate(&prop, i, &mut r);
                    *slot.lock().unwrap() = Some((Instant::now(), c.clone()));
                    let v = eval(&prop, &c);
                    *slot.lock().unwrap() = None;
                    match v {
                        None => { skipped.fetch_add(1, Ordering::Relaxed); }
                        Some(Ok(nt)) => {
                            evals.fetch_add(1, Ordering::Relaxed);
                            if nt {
                                let mut h = std::collections::hash_map::DefaultHasher::new(); c.doc.hash(&mut h); c.cfg.to_str().hash(&mut h); c.aux.hash(&mut h);
                                distinct.lock().unwrap().insert(h.finish());
                                if i % 997 == 3 { let mut s = samples.lock().unwrap(); if s.len() < 3 { s.push(c.clone()); } }
                            }
                        }
                        Some(Err((k, m))) => {
                            evals.fetch_add(1, Ordering::Relaxed);
                            let isnew = { let f = found.lock().unwrap(); !f.contains_key(&k) };
                            if isnew {
                                found.lock().unwrap().insert(k.clone(), (m.clone(), c.clone()));
                                *slot.lock().unwrap() = Some((Instant::now(), c.clone()));
                                let s = shrink(&prop, &c);
                                *slot.lock().unwrap() = None;
                                let (k2, m2) = fails(&prop, &s).unwrap_or((k.clone(), m));
                                let mut f = found.lock().unwrap();
                                f.insert(if k2 == k { k } else { k }, (format!("[{}] {}", k2, m2), s));
                                if f.len() >= maxkeys { stop.store(true, Ordering::Relaxed); }
                            }
                        }
                    }
                }
            }).unwrap()
        }).collect();
        // watchdog
        let mut hang: Option<Case> = None;
        loop {
            std::thread::sleep(Duration::from_millis(10));
            if t0.elapsed().as_secs_f64() > secs { stop.store(true, Ordering::Relaxed); }
            let mem = rss() > MEM;
            let mut oldest: Option<(Duration, Case)> = None;
            for s in &slots { if let Some((t, c)) = s.lock().unwrap().as_ref() { if oldest.as_ref().map_or(true, |o| t.elapsed() > o.0) { oldest = Some((t.elapsed(), c.clone())); } } }
            if let Some((e, c)) = oldest { if e.as_secs() >= HANG || (mem && e.as_millis() > 200) { hang = Some(c); break; } }
            if handles.iter().all(|h| h.is_finished()) { break; }
        }
        if hang.is_none() { for h in handles { let _ = h.join(); } }
        let mut f = found.lock().unwrap().clone();
        if let Some(c) = &hang { if prop == "C08" { f.insert("hang".into(), ("parse did not finish (time or memory limit)".into(), c.clone())); } }
        let viol: Vec<String> = f.iter().map(|(k, (m, c))| report(&prop, k, m, c)).collect();
        let samp: Vec<String> = samples.lock().unwrap().iter().map(|c| report(&prop, "", "", c)).collect();
        println!("{{\"property\":{},\"generated\":{},\"evaluations\":{},\"not_applicable\":{},\"distinct_nontrivial\":{},\"secs\":{:.2},\"hang\":{},\"violations\":[{}],\"samples\":[{}]}}",
            js(&prop), next.load(Ordering::Relaxed).min(cases), evals.load(Ordering::Relaxed), skipped.load(Ordering::Relaxed), distinct.lock().unwrap().len(), t0.elapsed().as_secs_f64(),
            hang.as_ref().map(|c| report(&prop, "hang", "", c)).unwrap_or("null".into()), viol.join(","), samp.join(","));
        if hang.is_some() { std::process::exit(0); }
    }
}
