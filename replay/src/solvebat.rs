//! batteries of RootFinder::solve: recorded runs judged by the reference
use crate::rec::*;
use crate::refsolve::*;
use crate::util::*;

fn show(sc: &Scn, evs: &[Ev], res: &Res) -> String {
    let mut s = format!("scenario {:?}\nresult {:?}\ntrace:\n", sc, res);
    for e in evs.iter().take(60) {
        s += &format!("  {:?}\n", e);
    }
    crate::util::compact(&s)
}
fn bits(v: &V) -> Vec<u64> {
    v.iter().map(|x| if x.is_nan() { 1 } else { x.to_bits() }).collect()
}
fn key(e: &Ev) -> (u8, Vec<u64>) {
    match e {
        Ev::Set(v) => (0, bits(v)),
        Ev::SetMem(v) => (1, bits(v)),
        Ev::Eval { x, .. } => (2, bits(x)),
        Ev::Jac { x, .. } => (3, bits(x)),
    }
}
fn diff(a: &[Ev], b: &[Ev]) -> Option<String> {
    for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
        if key(x) != key(y) {
            return Some(format!("call {}: {:?} against {:?}", i, x, y));
        }
    }
    if a.len() != b.len() {
        return Some(format!("{} calls against {}", a.len(), b.len()));
    }
    None
}

pub fn run_battery(b: &mut Bat) {
    let prop = b.prop.clone();
    let n = match (prop.as_str(), b.thorough) {
        ("C14", false) => 6000,
        ("C14", true) => 60000,
        (_, false) => 50000,
        (_, true) => 600000,
    };
    b.rule = "a case is one solve of a random problem (method, damping, normalizations, limits, failures, memory) on a recording model; it is non-trivial when at least one step was made; distinct by its whole trace".into();
    let mut g = Rng::new(b.seed ^ hash("solve"));
    let log = format!("{}/log.txt", b.scratch);
    let (mut skips, mut ups, mut damps, mut recs) = (0, 0, 0, 0);
    for k in 0..n {
        let (_reg, sc) = scenario(&mut g);
        if k % 64 == 0 {
            b.starting(&format!("case {} {:?}", k, sc));
        }
        match prop.as_str() {
            "C14" => {
                let (e1, r1) = run(&sc, None);
                let (e2, r2) = run(&sc, Some(&log));
                b.case(e1.len() < 4, || format!("{:?} {:?}", e1, r1));
                if let Some(d) = diff(&e1, &e2) {
                    b.fail(format!("logging changes the calls made to the model, without against with logging: {}\n{}", d, show(&sc, &e2, &r2)), None);
                } else if r1 != r2 {
                    b.fail(format!("logging changes the result: {:?} without, {:?} with\n{}", r1, r2, show(&sc, &e2, &r2)), None);
                }
            }
            "C17" => {
                let (e1, r1) = run(&sc, None);
                // first solves on models with other functions and other failures
                let mut other = sc.clone();
                let firsts = 1 + g.below(2);
                let mut hist = vec![];
                let (e2, r2) = with_rf(&sc, |mk| {
                    let mut rf = mk();
                    for _ in 0..firsts {
                        let (_r, o) = scenario_of(&mut g, Some(sc.n));
                        other.fun = o.fun;
                        other.outs = o.outs;
                        other.jac = o.jac;
                        other.jouts = o.jouts;
                        let mut m = Rec::new(&other);
                        let r = solve(&mut rf, &mut m);
                        hist.push(format!("{:?} {:?}", other, r));
                    }
                    let mut m = Rec::new(&sc);
                    let r = solve(&mut rf, &mut m);
                    (m.evs, r)
                });
                b.case(e1.len() < 4, || format!("{:?} {:?}", e1, r1));
                if let Some(d) = diff(&e1, &e2) {
                    b.fail(format!("a solver used before makes other calls than a fresh one, fresh against used: {}\nearlier solves {:?}\n{}", d, hist, show(&sc, &e2, &r2)), None);
                } else if r1 != r2 {
                    b.fail(format!("a fresh solver returns {:?}, one used before {:?}\nearlier solves {:?}\n{}", r1, r2, hist, show(&sc, &e2, &r2)), None);
                }
            }
            "C04" => {
                let (e1, r1) = run(&sc, None);
                b.case(e1.len() < 4, || format!("{:?} {:?}", e1, r1));
                if let Res::Panic(p) = &r1 {
                    if p != BUDGET {
                        b.fail(format!("solve panicked: {}\n{}", p, show(&sc, &e1, &r1)), None);
                    }
                }
                if k % 8 == 0 {
                    let (e2, r2) = run(&sc, Some(&log));
                    if let Res::Panic(p) = &r2 {
                        if p != BUDGET {
                            b.fail(format!("solve with logging panicked: {}\n{}", p, show(&sc, &e2, &r2)), None);
                        }
                    }
                }
            }
            _ => {
                let (m, res) = with_rf(&sc, |mk| {
                    let mut m = Rec::new(&sc);
                    let mut rf = mk();
                    let r = solve(&mut rf, &mut m);
                    (m, r)
                });
                if let Res::Panic(p) = &res {
                    if p == BUDGET && prop == "C03" {
                        b.fail(format!("{}\n{}", p, show(&sc, &m.evs, &res)), None);
                    }
                    b.case(true, String::new);
                    continue;
                }
                if prop == "C01" {
                    if let Some(w) = accepted(&sc, &m, &res) {
                        b.fail(format!("{}\n{}", w, show(&sc, &m.evs, &res)), None);
                    }
                }
                let mut r = Ref::new(&sc, &m.evs, &res);
                match r.check() {
                    Ok(()) => (),
                    Err(Stop::Skip) => skips += 1,
                    Err(Stop::Fail(tags, what)) => {
                        if tags.contains(&prop.as_str()) || prop == "ANY" {
                            b.fail(format!("{}\n{}", what, show(&sc, &m.evs, &res)), None);
                        }
                    }
                }
                ups += r.updates;
                damps += r.dampings;
                recs += r.recomputes;
                let steps = r.steps;
                b.case(steps == 0, || format!("{:?} {:?}", m.evs, res));
            }
        }
        if b.full() {
            break;
        }
    }
    if ups + damps + recs > 0 {
        b.rule += &format!("; over the run: {} updates, {} exact Jacobians, {} damped steps, {} cases followed only in part (ill-conditioned or exceptional values)", ups, recs, damps, skips);
    }
}
