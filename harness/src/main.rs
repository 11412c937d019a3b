//! harness <property> <seed> <budget in seconds> <file for the failing case>
//! Random inputs against the real code; exit 1 when one breaks the property.
mod ext;
mod json;
mod laws;
mod odd;
mod plan;
mod rng;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Found(pub String);

fn builds(prop: &str, seed: u64, i: u64, stats: &mut BTreeMap<String, u64>) -> Result<(), String> {
    let mut g = plan::Gen::new(seed.wrapping_mul(1_000_003).wrapping_add(i), [0, 10, 40, 120][(i % 4) as usize]);
    let p = g.plan(false);
    let broken = plan::rules(&p);
    let r = catch_unwind(AssertUnwindSafe(|| plan::build(&p)));
    let show = |what: String| Err(format!("{}\nbuilder calls (case {} of seed {}):\n{:#?}\nrules broken: {:?}", what, i, seed, p, broken));
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            *stats.entry("panics".into()).or_default() += 1;
            if prop == "P12" {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
                return show(format!("building panics: {:?}", m));
            }
            return Ok(());
        }
    };
    if prop == "P07" || prop == "P09" {
        for s in plan::schemas(&p) {
            if let Some(d) = plan::direct(s, prop) {
                return Err(format!("{}\nschema (case {} of seed {}):\n{:#?}", d, i, seed, s));
            }
        }
    }
    *stats.entry(if r.is_ok() { "built" } else { "refused" }.into()).or_default() += 1;
    match r {
        Ok(t) => {
            if let Some((_, e)) = broken.iter().find(|(q, _)| *q == prop) {
                return show(format!("built although a rule is broken ({:?})", e));
            }
            if broken.is_empty() && (prop == "P09" || prop == "P10") {
                if let Some(d) = plan::difference(&plan::expected(&p), &t) {
                    return show(d);
                }
            }
        }
        Err(e) => {
            if prop == "P11" && !broken.iter().any(|(_, x)| *x == e) {
                return show(format!("the error {:?} reports nothing that is broken", e));
            }
        }
    }
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].as_str();
    if prop == "literals" {
        return odd::show_literals();
    }
    let seed: u64 = a[2].parse().unwrap();
    let budget = Duration::from_secs(a[3].parse().unwrap());
    let t = Instant::now();
    std::panic::set_hook(Box::new(|_| {}));
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8) as u64;
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let js: Vec<_> = (0..threads)
        .map(|k| {
            let (prop, stop) = (prop.to_string(), stop.clone());
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let mut stats = BTreeMap::new();
                    let mut found = None;
                    let mut i = k;
                    let mut n = 0u64;
                    while t.elapsed() < budget && !stop.load(std::sync::atomic::Ordering::Relaxed) {
                        let r = one(&prop, seed, i, &mut stats);
                        i += threads;
                        n += 1;
                        if let Err(d) = r {
                            found = Some((i, d));
                            stop.store(true, std::sync::atomic::Ordering::Relaxed);
                        }
                    }
                    (stats, n, found)
                })
                .unwrap()
        })
        .collect();
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut all = vec![];
    for j in js {
        let (s, n, f) = j.join().unwrap();
        for (k, v) in s {
            *stats.entry(k).or_default() += v;
        }
        *stats.entry("evaluations".into()).or_default() += n;
        all.extend(f);
    }
    println!("{}", serde_json::to_string(&stats).unwrap());
    if let Some((_, d)) = all.into_iter().min_by_key(|(_, d)| d.len()) {
        std::fs::write(&a[4], format!("property {}: failing input found on the real code\n{}\n", prop, d)).unwrap();
        std::process::exit(1);
    }
}

fn one(prop: &str, seed: u64, i: u64, stats: &mut BTreeMap<String, u64>) -> Result<(), String> {
    match prop {
        "P01" | "P02" | "P03" | "P04" | "P05" | "P06" | "P07" | "P08" | "P09" | "P10" | "P11" | "P12" => builds(prop, seed, i, stats),
        _ => {
            let mut r = rng::Rng::new(seed.wrapping_mul(0x9E37).wrapping_add(i));
            let f = || match prop {
                "P13" => laws::p13(&mut r),
                "P14" => laws::p14(&mut r),
                "P15" => laws::p15(seed, i),
                "P16" => laws::p16(seed, i),
                "P17" => laws::p17(&mut r),
                "P18" => laws::p18(seed, i),
                "P19" => laws::p19(seed, i),
                "P20" => laws::p20(seed, i),
                "P21" => laws::p21(&mut r),
                _ => Ok(()),
            };
            match catch_unwind(AssertUnwindSafe(f)) {
                Ok(x) => x.map_err(|e| format!("case {} of seed {}: {}", i, seed, e)),
                Err(_) => Err(format!("case {} of seed {} panics", i, seed)),
            }
        }
    }
}
