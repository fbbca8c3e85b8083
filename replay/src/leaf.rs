//! batteries of the parts below the solver: the stated formulas evaluated directly, compared with the real code
use crate::rec::*;
use crate::refsolve::{dnrm, nrm};
use crate::util::*;
use nalgebra::Dyn;
use newton_rootfinder::iteratives::*;
use newton_rootfinder::model::*;
use newton_rootfinder::residuals::*;
use newton_rootfinder::solver::*;

pub fn run_battery(b: &mut Bat) {
    let k = if b.thorough { 60 } else { 3 };
    let mut g = Rng::new(b.seed ^ hash(&b.prop.clone()));
    match b.prop.clone().as_str() {
        "C05" => c05(b, &mut g, 60000 * k),
        "C06" => c06(b, &mut g, 8000 * k),
        "C07" => c07(b, &mut g, 20000 * k),
        "C08" => c08(b, &mut g, 20000 * k),
        "C12" => c12(b, &mut g, 20000 * k),
        "C15" => c15(b, &mut g, 40000 * k),
        "C16" => c16(b, &mut g, 5000 * k),
        "C19" => c19(b, &mut g, 300 * k),
        p => b.fail(format!("no battery for {}", p), None),
    }
}

fn step_params(g: &mut Rng) -> IterativeParams {
    let inf = f64::INFINITY;
    let sa = match g.below(4) {
        0 => inf,
        1 => g.pick(&[1.0, 0.5, 100.0, 1e-3]),
        2 => g.finite().abs().max(f64::MIN_POSITIVE),
        _ => g.range(1e-6, 5.0),
    };
    let sr = match g.below(4) {
        0 => inf,
        1 => g.pick(&[1.0, 0.5, 0.1, 1e-3]),
        2 => g.finite().abs().max(f64::MIN_POSITIVE),
        _ => g.range(1e-6, 2.0),
    };
    let (lo, hi) = match g.below(4) {
        0 => (-inf, inf),
        1 => {
            let c = g.range(-10.0, 10.0);
            (c - g.range(0.0, 5.0), c + g.range(1e-9, 5.0))
        }
        2 => (g.pick(&[-inf, 0.0, -0.0, -1.0]), g.pick(&[inf, 1.0, 2.0])),
        _ => {
            let (a, b) = (g.finite(), g.finite());
            if a < b {
                (a, b)
            } else if b < a {
                (b, a)
            } else {
                (-inf, inf)
            }
        }
    };
    IterativeParams::new(sa, sr, lo, hi)
}
/// min over the numbers among the values
fn least(xs: &[f64]) -> f64 {
    let mut m = f64::NAN;
    for x in xs {
        if !x.is_nan() && !(m <= *x) {
            m = *x;
        }
    }
    m
}
fn want_step(sa: f64, sr: f64, lo: f64, hi: f64, x: f64, raw: f64) -> f64 {
    let len = least(&[raw.abs(), sa, sr * x.abs()]);
    let dir = if raw.is_nan() { f64::NAN } else if raw.is_sign_negative() { -1.0 } else { 1.0 };
    let y = x + len * dir;
    if y.is_nan() {
        return lo;
    }
    if y < lo {
        lo
    } else if y > hi {
        hi
    } else {
        y
    }
}

fn c05(b: &mut Bat, g: &mut Rng, n: usize) {
    b.rule = "a case is one variable (limits, current value, raw step), or a vector of them; non-trivial when a limit or a bound is active; distinct by all values".into();
    for k in 0..n {
        let p = step_params(g);
        let (sa, sr, lo, hi) = (p.get_max_step_abs(), p.get_max_step_rel(), p.get_min_value(), p.get_max_value());
        let x = if g.p(0.3) { g.float() } else if g.p(0.2) { g.pick(&[0.0, -0.0, lo, hi]) } else { g.range(-10.0, 10.0) };
        let raw = if g.p(0.5) { g.float() } else { g.range(-20.0, 20.0) };
        let y = p.step_limitation(x, raw);
        let fd = IterativeParamsFD::extend(p.clone(), 1e-3, 1e-3, PerturbationMethod::Max);
        let yf = fd.step_limitation(x, raw);
        let inside = y >= lo && y <= hi;
        let w = want_step(sa, sr, lo, hi, x, raw);
        b.case(y == x + raw, || format!("limits {} {} [{}, {}] x {} raw {}", sa, sr, lo, hi, x, raw));
        let txt = || format!("max_step_abs {:e} max_step_rel {:e} min {:e} max {:e}, current value {:e}, raw step {:e}", sa, sr, lo, hi, x, raw);
        // exceptional intermediate values: only the bounds are promised
        let plain = x.is_finite() && raw.is_finite() && (sr * x.abs()).is_finite() || (x.is_finite() && raw.is_finite() && sr.is_infinite());
        if !inside {
            b.fail(format!("next value {:e} outside the bounds: {}", y, txt()), None);
        } else if plain && !near(y, w, 1e-6 * (x.abs() + raw.abs().min(sa))) {
            b.fail(format!("next value {:e}, expected {:e}: {}", y, w, txt()), None);
        }
        if !eq(y, yf) {
            b.fail(format!("finite difference flavour gives {:e}, the plain one {:e}: {}", yf, y, txt()), None);
        }
        if k % 10 == 0 {
            let m = g.size(4, 40);
            let ps: Vec<IterativeParams> = (0..m).map(|_| step_params(g)).collect();
            let pf = g.pick(&[0.0, 0.0, 0.3]);
            let xs = V::from_fn(m, |_, _| if g.p(pf) { g.float() } else { g.range(-5.0, 5.0) });
            let rs = V::from_fn(m, |_, _| if g.p(pf) { g.float() } else { g.range(-9.0, 9.0) });
            let ys = Iteratives::new(&ps).step_limitations(&xs, &rs);
            let fs: Vec<IterativeParamsFD> = ps.iter().map(|p| IterativeParamsFD::extend(p.clone(), 1e-3, 1e-3, PerturbationMethod::Sum)).collect();
            let zs = Iteratives::new(&fs).step_limitations(&xs, &rs);
            for i in 0..m {
                let p = &ps[i];
                let (sa, sr, lo, hi, x, raw) = (p.get_max_step_abs(), p.get_max_step_rel(), p.get_min_value(), p.get_max_value(), xs[i], rs[i]);
                let w = want_step(sa, sr, lo, hi, x, raw);
                let plain = x.is_finite() && raw.is_finite() && (sr.is_infinite() || (sr * x.abs()).is_finite());
                let inside = ys[i] >= lo && ys[i] <= hi;
                if !inside || (plain && !near(ys[i], w, 1e-6 * (x.abs() + raw.abs().min(sa)))) || !eq(ys[i], zs[i]) {
                    b.fail(format!("component {} of step_limitations is {:e} (finite difference flavour {:e}), expected {:e}: {:?} values {:?} raw {:?}", i, ys[i], zs[i], w, ps, xs.as_slice(), rs.as_slice()), None);
                }
            }
        }
        if b.full() {
            return;
        }
    }
}

fn c15(b: &mut Bat, g: &mut Rng, n: usize) {
    b.rule = "a case is one perturbation (dx_abs, dx_rel, method, value), or a vector of them; non-trivial when the value is not zero; distinct by all values".into();
    for k in 0..n {
        let mk = |g: &mut Rng| {
            let a = if g.p(0.5) { g.finite().abs().max(1e-300) } else { g.range(1e-9, 1e-2) };
            let r = if g.p(0.5) { g.finite().abs().max(1e-300) } else { g.range(1e-9, 1e-2) };
            let pm = g.pick(&[PerturbationMethod::Max, PerturbationMethod::Sum]);
            IterativeParamsFD::extend(step_params(g), a, r, pm)
        };
        let want = |p: &IterativeParamsFD, x: f64| {
            let t = p.get_dx_rel() * x.abs();
            match p.get_perturbation_method() {
                PerturbationMethod::Max => if t > p.get_dx_abs() { t } else { p.get_dx_abs() },
                PerturbationMethod::Sum => p.get_dx_abs() + t,
            }
        };
        let p = mk(g);
        let x = if g.p(0.5) { g.finite() } else { g.range(-100.0, 100.0) };
        let y = p.compute_perturbation(x);
        b.case(x == 0.0, || format!("{:?} {}", p, x));
        if !near(y, want(&p, x), 0.0) || !(y >= p.get_dx_abs()) {
            b.fail(format!("perturbation {:e}, expected {:e}: {:?} at {:e}", y, want(&p, x), p, x), None);
        }
        if k % 10 == 0 {
            let m = g.size(4, 40);
            let ps: Vec<IterativeParamsFD> = (0..m).map(|_| mk(g)).collect();
            let pf = g.pick(&[0.0, 0.3]);
            let xs = V::from_fn(m, |_, _| if g.p(pf) { g.finite() } else { g.range(-50.0, 50.0) });
            let ys = Iteratives::new(&ps).compute_perturbations(&xs);
            for i in 0..m {
                if !near(ys[i], want(&ps[i], xs[i]), 0.0) {
                    b.fail(format!("component {} of compute_perturbations is {:e}, expected {:e}: {:?} at {:?}", i, ys[i], want(&ps[i], xs[i]), ps, xs.as_slice()), None);
                }
            }
        }
        if b.full() {
            return;
        }
    }
}

fn val(g: &mut Rng) -> f64 {
    if g.p(0.15) {
        g.finite()
    } else if g.p(0.1) {
        g.hint()
    } else if g.p(0.3) {
        g.dyadic()
    } else {
        g.range(-10.0, 10.0)
    }
}
/// far from cancellations that make the value a matter of rounding
fn tame(x: f64, y: f64) -> bool {
    let s = (x + y).abs();
    x.abs() < 1e100 && y.abs() < 1e100 && s > 1e-6 * (x.abs() + y.abs()) && (x.abs() + y.abs()) > 1e-100
}

fn c08(b: &mut Bat, g: &mut Rng, n: usize) {
    b.rule = "a case is one vector of left/right values with a normalization per equation; non-trivial when left and right differ; distinct by all values".into();
    for _ in 0..n {
        let m = g.size(5, 40);
        let (stop, upd) = (norms(g, m), norms(g, m));
        let l = V::from_fn(m, |_, _| val(g));
        let r = V::from_fn(m, |_, _| if g.p(0.3) { 0.0 } else { val(g) });
        let rc = ResidualsConfig::new(&stop, &upd);
        let v = ResidualsValues::new(l.clone(), r.clone());
        let (u, s) = (rc.evaluate_update_residuals(&v), rc.evaluate_stopping_residuals(&v));
        b.case(l == r, || format!("{:?} {:?} {:?} {:?}", stop, upd, l.as_slice(), r.as_slice()));
        if u.len() != m || s.len() != m {
            b.fail(format!("{} equations give {} update and {} stopping residuals", m, u.len(), s.len()), None);
            continue;
        }
        for i in 0..m {
            let (wu, ws) = (nrm(l[i], r[i], upd[i]), nrm(l[i], r[i], stop[i]).abs());
            let ok = |a: f64, w: f64, mth: NormalizationMethod| match mth {
                NormalizationMethod::Abs => near(a, w, 0.0) || (l[i] - r[i]).is_infinite(),
                _ => !tame(l[i], r[i]) || near(a, w, 1e-3),
            };
            if !ok(u[i], wu, upd[i]) || !ok(s[i], ws, stop[i]) {
                b.fail(format!("equation {}: left {:e} right {:e}: update residual {:e} expected {:e} ({:?}), stopping residual {:e} expected {:e} ({:?}); all: {:?} {:?} left {:?} right {:?}", i, l[i], r[i], u[i], wu, upd[i], s[i], ws, stop[i], upd, stop, l.as_slice(), r.as_slice()), None);
            }
        }
        if b.full() {
            return;
        }
    }
}

fn c07(b: &mut Bat, g: &mut Rng, n: usize) {
    b.rule = "a case is a pair of Jacobians with left/right values and a normalization per equation; non-trivial when one normalization is not Abs; distinct by all values".into();
    for _ in 0..n {
        let m = g.size(4, 24);
        let upd = norms(g, m);
        let l = V::from_fn(m, |_, _| g.range(-10.0, 10.0));
        let r = V::from_fn(m, |_, _| if g.p(0.3) { 0.0 } else { g.range(-10.0, 10.0) });
        let jl = Mx::from_fn(m, m, |_, _| g.range(-5.0, 5.0));
        let jr = Mx::from_fn(m, m, |_, _| if g.p(0.4) { 0.0 } else { g.range(-5.0, 5.0) });
        let j = JacobianValues::new(jl.clone(), jr.clone()).normalize(&ResidualsValues::new(l.clone(), r.clone()), &upd);
        b.case(upd.iter().all(|u| *u == NormalizationMethod::Abs), || format!("{:?} {:?} {:?} {:?}", upd, l.as_slice(), r.as_slice(), jl.as_slice()));
        if j.shape() != (m, m) {
            b.fail(format!("shape {:?} for {} equations", j.shape(), m), None);
            continue;
        }
        for i in 0..m {
            for k in 0..m {
                if upd[i] != NormalizationMethod::Abs && !((l[i] + r[i]).abs() > 1e-4 * (l[i].abs() + r[i].abs())) {
                    continue;
                }
                let w = dnrm(l[i], r[i], jl[(i, k)], jr[(i, k)], upd[i]);
                let s = (l[i].abs() + r[i].abs()) / (l[i] + r[i]).abs().max(1e-9);
                let scale = if upd[i] == NormalizationMethod::Abs { 0.0 } else { 10.0 * s * s * (jl[(i, k)].abs() + jr[(i, k)].abs()) * (1.0 + 1.0 / (l[i].abs() + r[i].abs())) };
                if !near(j[(i, k)], w, 1e-3 * scale) {
                    b.fail(format!("entry ({}, {}) is {:e}, the derivative of the {:?} normalization at left {:e} right {:e} along ({:e}, {:e}) is {:e}; methods {:?}", i, k, j[(i, k)], upd[i], l[i], r[i], jl[(i, k)], jr[(i, k)], w, upd), None);
                }
            }
        }
        if b.full() {
            return;
        }
    }
}

fn c06(b: &mut Bat, g: &mut Rng, n: usize) {
    b.rule = "a case is one finite difference Jacobian of a recording model with memory and scripted failures; non-trivial when there are two variables or more; distinct by all values".into();
    for _ in 0..n {
        let (_, mut sc) = scenario(g);
        if g.p(0.7) {
            sc.outs = (0..12).map(|_| if g.p(0.2) { Out::Inacc } else if g.p(0.03) { Out::Unus } else { Out::Ok }).collect();
        }
        let p = V::from_fn(sc.n, |_, _| g.pick(&[1e-3, 0.25, 1e-5, 0.125]));
        let mut m = Rec::new(&sc);
        m.set_iteratives(&sc.init);
        let _ = m.evaluate();
        let (l0, r0) = (m.l.clone(), m.r.clone());
        let mem0 = m.mem.clone();
        m.evs.clear();
        let rc = ResidualsConfig::new(&sc.stop, &sc.upd);
        let got = compute_jacobian_from_finite_difference(&mut m, &p, &rc);
        b.case(sc.n < 2, || format!("{:?} {:?}", sc, p.as_slice()));
        let evals: Vec<&Ev> = m.evs.iter().filter(|e| matches!(e, Ev::Eval { .. })).collect();
        let txt = || format!("{:?}\nperturbations {:?}\ntrace {:?}", sc, p.as_slice(), m.evs);
        let mut stop = None;
        let mut cols: Vec<(usize, V)> = vec![];
        let mut bad = None;
        for (k, e) in evals.iter().enumerate() {
            if let Ev::Eval { x, mem, l, r, out, id } = e {
                // which column: the coordinate that moved
                let j = (0..sc.n).find(|&j| !same(x[j], sc.init[j]) && x[j] != sc.init[j]);
                let j = match j {
                    Some(j) => j,
                    None => {
                        // evaluations of the reference point itself are no column
                        if k >= sc.n {
                            continue;
                        }
                        k
                    }
                };
                let mut w = sc.init.clone();
                w[j] += p[j];
                if !x.iter().zip(w.iter()).all(|(a, b)| near(*a, *b, 1e-3 * b.abs())) {
                    bad = Some(format!("evaluation {} is at {:?}, not the reference point {:?} with one variable increased by its perturbation", k, x.as_slice(), sc.init.as_slice()));
                    break;
                }
                if *mem != mem0 {
                    bad = Some(format!("evaluation {} starts with memory {:?}, the reference memory is {:?}", k, mem.as_slice(), mem0.as_slice()));
                    break;
                }
                if *out == Out::Unus {
                    stop = Some((*id, k));
                    break;
                }
                let f = V::from_fn(sc.n, |i, _| (nrm(l[i], r[i], sc.upd[i]) - nrm(l0[i], r0[i], sc.upd[i])) / p[j]);
                cols.push((j, f));
            }
        }
        if let Some(w) = bad {
            b.fail(format!("{}\n{}", w, txt()), None);
            continue;
        }
        match (&got, stop) {
            (Err(ModelError::UnusableValuesError(e)), Some((id, k))) => {
                if e.0 != id || evals.len() != k + 1 {
                    b.fail(format!("the unusable evaluation is reported as {:?} after {} evaluations, expected {} after {}\n{}", e, evals.len(), id, k + 1, txt()), None);
                }
            }
            (Err(_), _) => b.fail(format!("an error is reported without an unusable evaluation\n{}", txt()), None),
            (Ok(_), Some(_)) => b.fail(format!("an unusable evaluation did not abort\n{}", txt()), None),
            (Ok(j), None) => {
                if (0..sc.n).any(|c| !cols.iter().any(|(k, _)| *k == c)) {
                    b.fail(format!("not every variable was perturbed\n{}", txt()), None);
                    continue;
                }
                for (c, f) in &cols {
                    for i in 0..sc.n {
                        let s = (f[i].abs() + 1e-3 / p[*c]) * 1.0;
                        let (Ev::Eval { l, r, .. }, true) = (evals[*c], cols.len() == sc.n) else { continue };
                        let calm = sc.upd[i] == NormalizationMethod::Abs || (tame(l[i], r[i]) && tame(l0[i], r0[i]));
                        if f[i].is_finite() && calm && !near(j[(i, *c)], f[i], s) {
                            b.fail(format!("entry ({}, {}) is {:e}, the difference quotient is {:e}\n{}", i, c, j[(i, *c)], f[i], txt()), None);
                        }
                    }
                }
                if m.mem != mem0 {
                    b.fail(format!("the memory is left at {:?}, the reference is {:?}\n{}", m.mem.as_slice(), mem0.as_slice(), txt()), None);
                }
                if m.x.iter().zip(sc.init.iter()).any(|(a, b)| !eq(*a, *b)) {
                    // the recorded finding: the point of the last perturbed evaluation
                    let known = match (evals.last(), cols.len() == sc.n) {
                        (Some(Ev::Eval { x, .. }), true) => m.x.iter().zip(x.iter()).all(|(a, b)| eq(*a, *b)),
                        _ => false,
                    };
                    b.fail(format!("the model is left at {:?}, the reference point is {:?}\n{}", m.x.as_slice(), sc.init.as_slice(), txt()), if known { Some("model-left-at-last-perturbed-column") } else { None });
                }
            }
        }
        if b.full() {
            return;
        }
    }
}

fn c12(b: &mut Bat, g: &mut Rng, n: usize) {
    b.rule = "a case is one constructor call; non-trivial when it must be rejected or has a value that is not the default; distinct by all arguments".into();
    for k in 0..n {
        let par = |g: &mut Rng| if g.p(0.5) { g.pick(&[0.0, -0.0, f64::NAN, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, 5e-324, 0.5]) } else { g.float() };
        let (sa, sr, mut lo, mut hi, da, dr) = if g.p(0.5) { (par(g), par(g), par(g), par(g), par(g), par(g)) } else { (g.range(0.1, 2.0), g.range(0.1, 2.0), g.range(-2.0, 0.0), g.range(0.0, 2.0), g.range(1e-9, 1.0), g.range(1e-9, 1.0)) };
        if g.p(0.1) {
            lo = hi;
        }
        if g.p(0.1) {
            std::mem::swap(&mut lo, &mut hi);
        }
        let pm = g.pick(&[PerturbationMethod::Max, PerturbationMethod::Sum]);
        let ok1 = sa > 0.0 && sr > 0.0 && lo < hi;
        let ok2 = ok1 && da > 0.0 && dr > 0.0;
        b.case(false, || format!("{} {} {} {} {} {}", sa, sr, lo, hi, da, dr));
        let txt = format!("max_step_abs {:e} max_step_rel {:e} min {:e} max {:e} dx_abs {:e} dx_rel {:e}", sa, sr, lo, hi, da, dr);
        let r1 = quiet(|| IterativeParams::new(sa, sr, lo, hi));
        match &r1 {
            Ok(p) => {
                if !ok1 {
                    b.fail(format!("IterativeParams::new accepts {}", txt), None);
                } else if !(same(p.get_max_step_abs(), sa) && same(p.get_max_step_rel(), sr) && same(p.get_min_value(), lo) && same(p.get_max_value(), hi)) {
                    b.fail(format!("IterativeParams::new stores {:?} for {}", p, txt), None);
                }
            }
            Err(e) => {
                if ok1 {
                    b.fail(format!("IterativeParams::new rejects {} with {}", txt, e), None);
                }
            }
        }
        let fdcheck = |p: &IterativeParamsFD| same(p.get_max_step_abs(), sa) && same(p.get_max_step_rel(), sr) && same(p.get_min_value(), lo) && same(p.get_max_value(), hi) && same(p.get_dx_abs(), da) && same(p.get_dx_rel(), dr) && p.get_perturbation_method() == pm;
        let r2 = quiet(|| IterativeParamsFD::new(sa, sr, lo, hi, da, dr, pm));
        match &r2 {
            Ok(p) if !ok2 => b.fail(format!("IterativeParamsFD::new accepts {}: {:?}", txt, p), None),
            Ok(p) if !fdcheck(p) => b.fail(format!("IterativeParamsFD::new stores {:?} for {}", p, txt), None),
            Err(e) if ok2 => b.fail(format!("IterativeParamsFD::new rejects {} with {}", txt, e), None),
            _ => (),
        }
        if let Ok(base) = r1 {
            let ok3 = da > 0.0 && dr > 0.0;
            match quiet(|| IterativeParamsFD::extend(base.clone(), da, dr, pm)) {
                Ok(_) if !ok3 => b.fail(format!("IterativeParamsFD::extend accepts {}", txt), None),
                Ok(p) if !fdcheck(&p) || *p.get_iterative_params() != base => b.fail(format!("IterativeParamsFD::extend stores {:?} for {}", p, txt), None),
                Err(e) if ok3 => b.fail(format!("IterativeParamsFD::extend rejects {} with {}", txt, e), None),
                _ => (),
            }
        }
        if k % 4 == 0 {
            let d = |g: &mut Rng, n: usize| if g.p(0.8) { n } else { g.below(5) };
            let n0 = g.size(4, 40);
            let (a, c) = (d(g, n0), d(g, n0));
            let (st, up) = (norms(g, a), norms(g, c));
            match quiet(|| { let r = ResidualsConfig::new(&st, &up); (r.len(), r.get_update_methods().to_vec(), r.get_stopping_criterias().to_vec()) }) {
                Ok(_) if a != c => b.fail(format!("ResidualsConfig::new accepts {} and {} methods", a, c), None),
                Err(e) if a == c => b.fail(format!("ResidualsConfig::new rejects {} methods: {}", a, e), None),
                Ok(x) if x != (a, up.clone(), st.clone()) => b.fail(format!("ResidualsConfig::new stores {:?} for stopping {:?} update {:?}", x, st, up), None),
                _ => (),
            }
            let (l, r) = (V::from_fn(a, |_, _| g.float()), V::from_fn(c, |_, _| g.float()));
            match quiet(|| ResidualsValues::new(l.clone(), r.clone())) {
                Ok(_) if a != c => b.fail(format!("ResidualsValues::new accepts lengths {} and {}", a, c), None),
                Err(e) if a == c => b.fail(format!("ResidualsValues::new rejects length {}: {}", a, e), None),
                Ok(v) => {
                    if v.len() != a || (0..a).any(|i| !same(v.get_values(i).0, l[i]) || !same(v.get_values(i).1, r[i])) {
                        b.fail(format!("ResidualsValues::new stores {:?} for {:?} {:?}", v, l, r), None)
                    }
                }
                _ => (),
            }
            let (r1, c1, r2, c2) = (d(g, n0), d(g, n0), d(g, n0), d(g, n0));
            let (ml, mr) = (Mx::from_fn(r1, c1, |_, _| g.range(-1.0, 1.0)), Mx::from_fn(r2, c2, |_, _| g.range(-1.0, 1.0)));
            let okj = r1 == c1 && r1 == r2 && c1 == c2;
            match quiet(|| JacobianValues::new(ml.clone(), mr.clone())) {
                Ok(_) if !okj => b.fail(format!("JacobianValues::new accepts shapes {:?} {:?}", ml.shape(), mr.shape()), None),
                Err(e) if okj => b.fail(format!("JacobianValues::new rejects shapes {:?} {:?}: {}", ml.shape(), mr.shape(), e), None),
                Ok(v) => {
                    let (x, y) = v.get_jacobians();
                    if *x != ml || *y != mr {
                        b.fail("JacobianValues::new does not store its arguments".to_string(), None)
                    }
                }
                _ => (),
            }
            // RootFinder and SolverParameters
            let (ps, ni, ng, nr) = (d(g, n0), d(g, n0), d(g, n0), d(g, n0));
            let its: Vec<IterativeParamsFD> = (0..ni).map(|_| params(g, true)).collect();
            let it = Iteratives::new(&its);
            let (st, up) = (norms(g, nr), norms(g, nr));
            let rc = ResidualsConfig::new(&st, &up);
            let (tol, mi, me, da) = (g.float(), g.below(100), g.pick(&methods()), g.p(0.5));
            let okr = ps == ni && ps == ng && ps == nr;
            match quiet(|| SolverParameters::new(ps, tol, mi, me, da)) {
                Err(e) => b.fail(format!("SolverParameters::new({}, {}, {}, {:?}, {}) panics: {}", ps, tol, mi, me, da, e), None),
                Ok(sp) => {
                    if sp.get_problem_size() != ps || !same(sp.get_tolerance(), tol) || sp.get_max_iter() != mi || sp.get_resolution_method() != me || sp.get_damping() != da {
                        b.fail(format!("SolverParameters::new({}, {}, {}, {:?}, {}) stores {:?}", ps, tol, mi, me, da, sp), None);
                    }
                    let gs = V::from_fn(ng, |_, _| g.range(-1.0, 1.0));
                    match quiet(|| {
                        RootFinder::<_, Dyn>::new(sp, gs.clone(), &it, &rc);
                    }) {
                        Ok(()) if !okr => b.fail(format!("RootFinder::new accepts problem size {} with {} iteratives, {} initial values, {} residuals", ps, ni, ng, nr), None),
                        Err(e) if okr => b.fail(format!("RootFinder::new rejects consistent dimensions {}: {}", ps, e), None),
                        _ => (),
                    }
                }
            }
        }
        if b.full() {
            return;
        }
    }
}

fn c16(b: &mut Bat, g: &mut Rng, n: usize) {
    b.rule = "a case is one adapter (function or closure, with or without Jacobian) driven through set, evaluate and observation calls; non-trivial when the function is not constant; distinct by the points".into();
    // functions must be plain: pick among fixed ones
    fn f1(x: &V) -> V {
        x.map(|v| v * v - 2.0)
    }
    fn f2(x: &V) -> V {
        let n = x.len();
        V::from_fn(n, |i, _| x[i] * x[(i + 1) % n] + (i as f64))
    }
    fn f3(x: &V) -> V {
        x.map(|v| if v > 0.0 { v.sqrt() } else { f64::NAN })
    }
    fn j1(x: &V) -> Mx {
        Mx::from_diagonal(&x.map(|v| 2.0 * v))
    }
    fn j2(x: &V) -> Mx {
        let n = x.len();
        Mx::from_fn(n, n, |i, j| x[i] - 3.0 * x[j] + (i * n + j) as f64)
    }
    fn drive<M: Model<Dyn>>(b: &mut Bat, g: &mut Rng, name: &str, m: &mut M, n: usize, f: &dyn Fn(&V) -> V, j: Option<&dyn Fn(&V) -> Mx>) {
        let eqv = |a: &V, c: &V| a.len() == c.len() && a.iter().zip(c.iter()).all(|(x, y)| same(*x, *y));
        if m.len_problem() != n {
            b.fail(format!("{}: problem size {} instead of {}", name, m.len_problem(), n), None);
        }
        if m.jacobian_provided() != j.is_some() {
            b.fail(format!("{}: jacobian_provided() is {}", name, m.jacobian_provided()), None);
        }
        let mut x = V::zeros(n);
        let mut at: Option<V> = None;
        for _ in 0..(2 + g.below(6)) {
            match g.below(4) {
                0 | 1 => {
                    x = V::from_fn(n, |_, _| if g.p(0.1) { g.float() } else { g.range(-5.0, 5.0) });
                    m.set_iteratives(&x);
                }
                2 => {
                    if m.evaluate().is_err() {
                        b.fail(format!("{}: evaluation fails at {:?}", name, x.as_slice()), None);
                    }
                    at = Some(x.clone());
                }
                _ => {
                    if let Some(jf) = j {
                        match m.get_jacobian() {
                            Ok(v) => {
                                let (a, z) = v.get_jacobians();
                                let w = jf(&x);
                                if a.iter().zip(w.iter()).any(|(p, q)| !same(*p, *q)) || a.shape() != w.shape() || z.iter().any(|v| *v != 0.0) {
                                    b.fail(format!("{}: Jacobian at {:?} is {:?} / {:?}, expected {:?}", name, x.as_slice(), a.as_slice(), z.as_slice(), w.as_slice()), None);
                                }
                            }
                            Err(_) => b.fail(format!("{}: the Jacobian fails", name), None),
                        }
                    }
                }
            }
            if !eqv(&m.get_iteratives(), &x) {
                b.fail(format!("{}: iteratives {:?} instead of {:?}", name, m.get_iteratives().as_slice(), x.as_slice()), None);
            }
            if let Some(a) = &at {
                let (w, r) = (f(a), m.get_residuals());
                if r.len() != n || (0..n).any(|i| !same(r.get_values(i).0, w[i]) || r.get_values(i).1 != 0.0) {
                    b.fail(format!("{}: residuals {:?} instead of {:?}, evaluated at {:?}", name, r, w.as_slice(), a.as_slice()), None);
                }
            }
            if m.get_memory().len() != 0 {
                b.fail(format!("{}: a memory of length {}", name, m.get_memory().len()), None);
            }
        }
        b.case(false, || format!("{} {:?} {:?}", name, x.as_slice(), at));
    }
    struct Bare(V);
    impl Model<Dyn> for Bare {
        type InaccurateValuesError = std::convert::Infallible;
        type UnusableValuesError = std::convert::Infallible;
        fn len_problem(&self) -> usize {
            self.0.len()
        }
        fn set_iteratives(&mut self, x: &V) {
            self.0 = x.clone()
        }
        fn get_iteratives(&self) -> V {
            self.0.clone()
        }
        fn evaluate(&mut self) -> Result<(), ModelError<Self, Dyn>> {
            Ok(())
        }
        fn get_residuals(&self) -> ResidualsValues<Dyn> {
            ResidualsValues::new(self.0.clone(), self.0.clone())
        }
    }
    for k in 0..n {
        let m = g.size(5, 40);
        let (fi, ji) = (k % 3, g.below(2));
        let f: fn(&V) -> V = [f1 as fn(&V) -> V, f2, f3][fi];
        let j: fn(&V) -> Mx = [j1 as fn(&V) -> Mx, j2][ji];
        let c = g.range(-3.0, 3.0);
        let fc = move |x: &V| f(x).map(|v| v + c);
        let jc = move |x: &V| j(x).map(|v| v * c);
        drive(b, g, "UserModelFromFunction", &mut UserModelFromFunction::new(m, f), m, &f, None);
        drive(b, g, "UserModelFromFunctionAndJacobian", &mut UserModelFromFunctionAndJacobian::new(m, f, j), m, &f, Some(&j));
        drive(b, g, "UserModelFromClosure", &mut UserModelFromClosure::new(m, &fc), m, &fc, None);
        drive(b, g, "UserModelFromClosureAndJacobian", &mut UserModelFromClosureAndJacobian::new(m, &fc, &jc), m, &fc, Some(&jc));
        let bare = Bare(V::zeros(m));
        if bare.jacobian_provided() || bare.get_memory().len() != 0 {
            b.fail("a model relying on the defaults has a Jacobian or a memory".to_string(), None);
        }
        if b.full() {
            return;
        }
    }
}

fn c19(b: &mut Bat, g: &mut Rng, n: usize) {
    b.rule = "a case is one default object or one solver built by default_with_guess and driven on a recording model; non-trivial when the solver makes a step; distinct by size and method".into();
    let inf = f64::INFINITY;
    let p = IterativeParams::default();
    if p != IterativeParams::new(inf, inf, -inf, inf) {
        b.fail(format!("default iterative {:?}", p), None);
    }
    let fd = IterativeParamsFD::default();
    if fd != IterativeParamsFD::new(inf, inf, -inf, inf, 5e-8, 5e-8, PerturbationMethod::Max) {
        b.fail(format!("default finite difference iterative {:?}", fd), None);
    }
    if ResidualConfig::default() != ResidualConfig::new(NormalizationMethod::Abs, NormalizationMethod::Abs) {
        b.fail(format!("default residual {:?}", ResidualConfig::default()), None);
    }
    for k in 0..n {
        let m = if k < 40 { k } else { g.below(60) };
        let (a, c) = (default_vec_iteratives(m), default_vec_iteratives_fd(m));
        if a.len() != m || c.len() != m || a.iter().any(|x| *x != p) || c.iter().any(|x| *x != fd) {
            b.fail(format!("default vectors of size {}: {:?} {:?}", m, a, c), None);
        }
        // the defaults of the set-up, seen by what the solver does: residuals around the tolerance, and the budget
        let d = if k < 13 { k } else if g.p(0.6) { g.below(7) } else { g.hint_int(1, 60) };
        let (_, mut sc) = scenario_of(g, Some(d.max(1)));
        if d == 0 {
            sc.n = 0;
            sc.init = V::zeros(0);
            sc.mem = V::zeros(0);
        }
        let e = g.pick(&[1e-6, 1e-6 * (1.0 + 1e-12), 1.1e-6, 0.9e-6, 1e-3]);
        sc.fun = Fun::Table(vec![(V::from_element(d, e), V::zeros(d))]);
        sc.jac = Some(vec![(Mx::identity(d, d), Mx::zeros(d, d))]);
        sc.outs = vec![];
        sc.jouts = vec![];
        sc.max_iter = 60;
        sc.tol = 0.0;
        sc.memdep = 0.0;
        sc.iters = default_vec_iteratives_fd(d);
        let method = if g.p(0.5) { ResolutionMethod::NewtonRaphson } else { ResolutionMethod::QuasiNewton(QuasiNewtonMethod::StationaryNewton) };
        let it = Iteratives::new(&sc.iters);
        let st = vec![NormalizationMethod::Abs; d];
        let rc = ResidualsConfig::new(&st, &st);
        let damping = g.p(0.5);
        let mut rf = default_with_guess(sc.init.clone(), &it, &rc, method, damping);
        let mut mo = Rec::new(&sc);
        let r = quiet(|| rf.solve(&mut mo).is_ok());
        let evals = mo.evs.iter().filter(|e| matches!(e, Ev::Eval { .. })).count();
        let jacs = mo.evs.iter().filter(|e| matches!(e, Ev::Jac { .. })).count();
        b.case(evals < 2, || format!("{} {:?} {} {}", d, method, damping, e));
        let conv = e <= 1e-6 || d == 0;
        let wj = if conv { 0 } else if method == ResolutionMethod::NewtonRaphson { 50 } else { 1 };
        // with damping an iteration may evaluate the model twice
        let we = if conv { 1 } else if damping { evals.min(101).max(51) } else { 51 };
        if r != Ok(conv) || evals != we || (jacs != wj && !(damping && jacs > 0 && !conv)) {
            b.fail(format!("default set-up of dimension {} with {:?}, residuals {:e}: result ok {:?}, {} evaluations, {} Jacobians", d, method, e, r, evals, jacs), None);
        }
        // damping as given: one step that makes things worse
        sc.fun = Fun::Table(vec![(V::from_element(d, 1.0), V::zeros(d)), (V::from_element(d, 2.0), V::zeros(d)), (V::zeros(d), V::zeros(d))]);
        let mut mo = Rec::new(&sc);
        let mut rf = default_with_guess(sc.init.clone(), &it, &rc, method, damping);
        let _ = quiet(|| rf.solve(&mut mo).is_ok());
        let ex: Vec<V> = mo.evs.iter().filter_map(|e| if let Ev::Eval { x, .. } = e { Some(x.clone()) } else { None }).collect();
        if ex.len() >= 3 && sc.init.iter().all(|v| v.is_finite() && v.abs() < 1e6) {
            let half = (&ex[0] + &ex[1]) * 0.5;
            let is_half = (&half - &ex[2]).amax() < 1e-9 * (1.0 + half.amax());
            if is_half != damping {
                b.fail(format!("default set-up with damping {}: points {:?}", damping, ex), None);
            }
        }
        if b.full() {
            return;
        }
    }
}
