mod leaf;
mod rec;
mod refsolve;
mod solvebat;
mod util;
mod xml;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    // PROP TIER SEED OUT SCRATCH [HINTS]
    util::set_hints(a.get(6), if a[2] == "hunt" { 0.5 } else { 0.12 });
    let mut b = util::Bat {
        prop: a[1].clone(),
        thorough: a[2] != "quick",
        hunt: a[2] == "hunt",
        until: std::env::var("VP_SECONDS").ok().and_then(|s| s.parse().ok()).map(|s| std::time::Instant::now() + std::time::Duration::from_secs(s)),
        seed: a[3].parse().unwrap_or(1),
        scratch: a[5].clone(),
        current: a[4].clone() + ".current",
        cases: 0,
        distinct: Default::default(),
        samples: vec![],
        fails: vec![],
        nfail: 0,
        rule: String::new(),
    };
    let r = util::quiet(|| match a[1].as_str() {
        "C01" | "C02" | "C03" | "C04" | "C09" | "C10" | "C11" | "C14" | "C17" | "C18" => solvebat::run_battery(&mut b),
        "C13" => xml::run_battery(&mut b),
        _ => leaf::run_battery(&mut b),
    });
    if let Err(e) = r {
        b.fail(format!("unexpected panic in the battery: {}", e), None);
    }
    let _ = std::fs::remove_file(&b.current);
    std::fs::write(&a[4], b.json()).unwrap();
}
