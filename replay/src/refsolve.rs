//! the reference: reads a recorded trace and says whether it is what the properties allow.
//! Positions are compared up to rounding and adopted from the trace afterwards.
use crate::rec::*;
use crate::util::Rng;
use newton_rootfinder::iteratives::*;
use newton_rootfinder::residuals::NormalizationMethod;
use newton_rootfinder::solver::*;

pub enum Stop {
    Fail(&'static [&'static str], String),
    Skip,
}
type R<T> = Result<T, Stop>;

pub fn nrm(x: f64, y: f64, m: NormalizationMethod) -> f64 {
    match m {
        NormalizationMethod::Abs => x - y,
        NormalizationMethod::Rel => (x - y) / ((x + y).abs() / 2.0),
        NormalizationMethod::Adapt => (x - y) / (1.0 + (x + y).abs() / 2.0),
    }
}
/// derivative of nrm along (dx, dy), by the quotient rule
pub fn dnrm(x: f64, y: f64, dx: f64, dy: f64, m: NormalizationMethod) -> f64 {
    let u = x - y;
    let du = dx - dy;
    let sg = if x + y > 0.0 { 1.0 } else { -1.0 };
    let (v, dv) = match m {
        NormalizationMethod::Abs => return du,
        NormalizationMethod::Rel => ((x + y).abs() / 2.0, sg * (dx + dy) / 2.0),
        NormalizationMethod::Adapt => (1.0 + (x + y).abs() / 2.0, sg * (dx + dy) / 2.0),
    };
    (du * v - u * dv) / (v * v)
}
pub fn limit(p: &IterativeParamsFD, x: f64, raw: f64) -> f64 {
    let cap = p.get_max_step_abs().min(p.get_max_step_rel() * x.abs());
    let y = x + cap.min(raw.abs()) * raw.signum();
    y.max(p.get_min_value()).min(p.get_max_value())
}
pub fn pert(p: &IterativeParamsFD, x: f64) -> f64 {
    match p.get_perturbation_method() {
        PerturbationMethod::Max => p.get_dx_abs().max(p.get_dx_rel() * x.abs()),
        PerturbationMethod::Sum => p.get_dx_abs() + p.get_dx_rel() * x.abs(),
    }
}
fn fin(m: &Mx) -> bool {
    m.iter().all(|v| v.is_finite())
}
fn finv(m: &V) -> bool {
    m.iter().all(|v| v.is_finite())
}

pub struct Ref<'a> {
    sc: &'a Scn,
    evs: &'a [Ev],
    res: &'a Res,
    pos: usize,
    pub steps: usize,
    pub updates: usize,
    pub dampings: usize,
    pub recomputes: usize,
    l: V,
    r: V,
    x: V,
    mem: V,
    out: Out,
    id: u64,
}

const C_POS: &[&str] = &["C18"];
const C_UPD: &[&str] = &["C09", "C18"];
const C_DAMP: &[&str] = &["C11"];
const C_POL: &[&str] = &["C10"];
const C_BUD: &[&str] = &["C03", "C02"];
const C_RES: &[&str] = &["C02"];
const C_FD: &[&str] = &["C06"];

impl<'a> Ref<'a> {
    pub fn new(sc: &'a Scn, evs: &'a [Ev], res: &'a Res) -> Self {
        let n = sc.n;
        Ref { sc, evs, res, pos: 0, steps: 0, updates: 0, dampings: 0, recomputes: 0, l: V::zeros(n), r: V::zeros(n), x: V::zeros(n), mem: sc.mem.clone(), out: Out::Ok, id: 0 }
    }
    fn peek(&self) -> Option<&'a Ev> {
        self.evs[self.pos..].iter().find(|e| matches!(e, Ev::Eval { .. } | Ev::Jac { .. }))
    }
    fn next(&mut self) -> Option<&'a Ev> {
        while self.pos < self.evs.len() {
            let e = &self.evs[self.pos];
            self.pos += 1;
            match e {
                Ev::SetMem(m) => self.mem = m.clone(),
                Ev::Eval { .. } | Ev::Jac { .. } => return Some(e),
                Ev::Set(_) => (),
            }
        }
        None
    }
    fn close(&self, a: &V, b: &V, tol: f64) -> bool {
        a.iter().zip(b.iter()).all(|(a, b)| !a.is_finite() || a == b || (a - b).abs() <= tol)
    }
    /// the next event must be an evaluation; at `want` when given
    fn eval(&mut self, want: Option<(&V, f64)>, tags: &'static [&'static str], what: &str) -> R<()> {
        let at = self.pos;
        match self.next() {
            Some(Ev::Eval { x, l, r, out, id, mem }) => {
                if let Some((w, tol)) = want {
                    if !self.close(w, x, tol) {
                        return Err(Stop::Fail(tags, format!("{}: the model was evaluated at {:?}, expected {:?}", what, x.as_slice(), w.as_slice())));
                    }
                }
                self.x = x.clone();
                self.l = l.clone();
                self.r = r.clone();
                self.out = *out;
                self.id = *id;
                self.mem = mem.clone();
                if self.mem.len() > 0 {
                    self.mem[0] += 1.0;
                }
                Ok(())
            }
            Some(Ev::Jac { .. }) => Err(Stop::Fail(if tags == C_DAMP { C_DAMP } else { C_POL }, format!("{}: the model was asked for a Jacobian (event {})", what, at))),
            _ => Err(Stop::Fail(if tags == C_DAMP { &["C11", "C02"] } else { C_BUD }, format!("{}: the solver stopped with {:?} instead of evaluating the model", what, self.res))),
        }
    }
    fn stopping(&self) -> V {
        V::from_fn(self.sc.n, |i, _| nrm(self.l[i], self.r[i], self.sc.stop[i]).abs())
    }
    fn update_res(&self) -> V {
        V::from_fn(self.sc.n, |i, _| nrm(self.l[i], self.r[i], self.sc.upd[i]))
    }
    fn converged(&self) -> R<bool> {
        let e = self.stopping();
        let t = self.sc.tol;
        for i in 0..self.sc.n {
            if self.sc.stop[i] != NormalizationMethod::Abs && e[i].is_finite() && (e[i] - t).abs() <= 1e-12 * t.abs() {
                return Err(Stop::Skip);
            }
        }
        Ok(e.iter().all(|&v| v <= t))
    }
    fn end(&mut self, want: Res, tags: &'static [&'static str]) -> R<()> {
        if let Some(e) = self.peek() {
            return Err(Stop::Fail(&["C03", "C02", "C10", "C11"], format!("after the point where {:?} is due the solver goes on with {:?}", want, e)));
        }
        if *self.res != want {
            return Err(Stop::Fail(tags, format!("the result is {:?}, expected {:?}", self.res, want)));
        }
        Ok(())
    }

    pub fn check(&mut self) -> R<()> {
        let sc = self.sc;
        let n = sc.n;
        self.eval(Some((&sc.init, 0.0)), &["C18"], "first evaluation, at the initial guess")?;
        if self.out == Out::Unus {
            let w = Res::Init(format!("err-{}", self.id));
            return self.end(w, C_RES);
        }
        let qn = match sc.method {
            ResolutionMethod::NewtonRaphson => None,
            ResolutionMethod::QuasiNewton(m) => Some(m),
        };
        let mut iter = 0;
        let mut jac: Option<Mx> = None;
        let mut inv: Option<Mx> = None;
        let mut approx = false;
        let mut force = true;
        let mut dirty = false;
        let mut jerr = 0.0; // absolute rounding error of the entries of the exact Jacobian
        let mut last: Option<(V, V, V)> = None;
        // the same matrices computed with noise of the size of rounding errors: how far they drift says
        // how much of a position is decided by rounding
        let mut g = Rng::new(7);
        let mut jac2: Option<Mx> = None;
        let mut inv2: Option<Mx> = None;
        let mut fmag = (0.0, 0.0);
        loop {
            if self.converged()? {
                return if self.out == Out::Ok { self.end(Res::Ok, C_RES) } else { self.end(Res::Final, &["C02", "C01"]) };
            }
            if iter >= sc.max_iter {
                return self.end(Res::NonConv, &["C02", "C03", "C01"]);
            }
            iter += 1;
            self.steps += 1;
            // ---- the matrix of this step
            if self.peek().is_none() && *self.res == Res::NonConv {
                return Err(Stop::Fail(C_BUD, format!("NonConvergenceError after {} steps of {}", iter - 1, sc.max_iter)));
            }
            if self.peek().is_none() && (*self.res == Res::Ok || *self.res == Res::Final) {
                return Err(Stop::Fail(&["C01", "C02", "C03"], format!("the solver stopped with {:?} although the stopping residuals are {:?}", self.res, self.stopping().as_slice())));
            }
            let fresh = qn.is_none() || force;
            if fresh {
                force = false;
                approx = false;
                dirty = false;
                self.recomputes += 1;
                // a row which is zero whatever the way of computing it
                let mut zero = false;
                let m = if sc.jac.is_some() {
                    match self.peek() {
                        Some(Ev::Jac { .. }) => (),
                        e => return Err(Stop::Fail(&["C10", "C02"], format!("step {}: an exact Jacobian of the model is due, got {:?}, result {:?}", iter, e, self.res))),
                    }
                    let (xj, jl, jr, out, id) = match self.next() {
                        Some(Ev::Jac { x, l, r, out, id }) => (x, l, r, *out, *id),
                        _ => unreachable!(),
                    };
                    if !self.close(&self.x.clone(), xj, 0.0) {
                        return Err(Stop::Fail(C_POL, format!("step {}: the Jacobian was asked at {:?}, the current point is {:?}", iter, xj.as_slice(), self.x.as_slice())));
                    }
                    if out != Out::Ok {
                        return self.end(Res::JacErr(out, id), C_RES);
                    }
                    // an entry may underflow to zero in one way of computing the quotient and not in another
                    if jl.iter().chain(jr.iter()).any(|v| *v != 0.0 && !(v.abs() > 1e-50)) {
                        return Err(Stop::Skip);
                    }
                    zero = (0..n).any(|i| jl.row(i).iter().chain(jr.row(i).iter()).all(|v| *v == 0.0));
                    jerr = 0.0;
                    // |left + right| has no derivative where it is zero
                    for i in 0..n {
                        if sc.upd[i] != NormalizationMethod::Abs && !((self.l[i] + self.r[i]).abs() > 1e-9 * (self.l[i].abs() + self.r[i].abs())) {
                            return Err(Stop::Skip);
                        }
                    }
                    for i in 0..n {
                        for j in 0..n {
                            let d = jl[(i, j)].abs() + jr[(i, j)].abs();
                            let u = self.l[i].abs() + self.r[i].abs();
                            let e = match sc.upd[i] {
                                NormalizationMethod::Abs => d,
                                _ => {
                                    let v = (self.l[i] + self.r[i]).abs() / 2.0 + if sc.upd[i] == NormalizationMethod::Rel { 0.0 } else { 1.0 };
                                    (d * v + u * d) / (v * v)
                                }
                            };
                            jerr = f64::max(jerr, 1e-15 * e);
                        }
                    }
                    Mx::from_fn(n, n, |i, j| dnrm(self.l[i], self.r[i], jl[(i, j)], jr[(i, j)], sc.upd[i]))
                } else {
                    let x0 = self.x.clone();
                    let m0 = self.mem.clone();
                    let f0 = self.update_res();
                    let (l0, r0) = (self.l.clone(), self.r.clone());
                    let mut still = vec![true; n];
                    let mut m = Mx::zeros(n, n);
                    jerr = 0.0;
                    for j in 0..n {
                        let p = pert(&sc.iters[j], x0[j]);
                        let mut w = x0.clone();
                        w[j] += p;
                        let had = matches!(self.peek(), Some(Ev::Eval { .. }));
                        if !had && *self.res == Res::JacInv {
                            return Err(Stop::Fail(&["C02", "C06"], format!("step {}: non invertible Jacobian reported without its evaluation", iter)));
                        }
                        self.eval(Some((&w, 1e-12 * (w.amax()))), &["C06", "C10", "C15"], &format!("step {}: column {} of the finite difference Jacobian", iter, j))?;
                        // the perturbed evaluation starts from the reference memory
                        let mut m1 = self.mem.clone();
                        if m1.len() > 0 {
                            m1[0] -= 1.0;
                        }
                        if m1 != m0 {
                            return Err(Stop::Fail(C_FD, format!("step {}: column {} was evaluated with memory {:?}, the reference memory is {:?}", iter, j, m1.as_slice(), m0.as_slice())));
                        }
                        if self.out == Out::Unus {
                            let w = Res::JacErr(self.out, self.id);
                            return self.end(w, &["C02", "C06"]);
                        }
                        for i in 0..n {
                            still[i] &= self.l[i] == l0[i] && self.r[i] == r0[i];
                        }
                        zero = still.iter().any(|b| *b);
                        let f = self.update_res();
                        let c = (&f - &f0) / p;
                        jerr = f64::max(jerr, 1e-15 * (f.amax() + f0.amax()) / p);
                        m.set_column(j, &c);
                    }
                    m
                };
                let iv = m.clone().lu().try_inverse();
                match iv {
                    None => {
                        let tame = m.iter().all(|v| *v == 0.0 || v.abs() > 1e-50) && self.l.iter().chain(self.r.iter()).all(|v| v.abs() < 1e50);
                        if !zero || !fin(&m) || !tame {
                            return Err(Stop::Skip);
                        }
                        return self.end(Res::JacInv, C_RES);
                    }
                    Some(iv) => {
                        let cond = m.amax() * iv.amax();
                        if !fin(&m) || !fin(&iv) || cond > 1e6 {
                            dirty = true;
                        }
                        if *self.res == Res::JacInv && self.peek().is_none() {
                            if dirty {
                                return Err(Stop::Skip);
                            }
                            return Err(Stop::Fail(C_RES, format!("step {}: an invertible Jacobian {:?} is reported as non invertible", iter, m.as_slice())));
                        }
                        let sz = 1e-15 * m.amax() + jerr;
                        let m2 = m.map(|v| v + sz * g.range(-1.0, 1.0));
                        inv2 = m2.clone().lu().try_inverse();
                        jac2 = Some(m2);
                        jac = Some(m);
                        inv = Some(iv);
                    }
                }
            } else {
                use QuasiNewtonMethod::*;
                let (s, y, f) = last.clone().unwrap_or((V::zeros(n), V::zeros(n), V::zeros(n)));
                let s2 = s.map(|v| v + 1e-15 * fmag.0 * g.range(-1.0, 1.0));
                let y2 = y.map(|v| v + 1e-15 * fmag.1 * g.range(-1.0, 1.0));
                let f2 = f.map(|v| v * (1.0 + 1e-15 * g.range(-1.0, 1.0)));
                match qn.unwrap() {
                    StationaryNewton => (),
                    JacobianUpdate(u) => {
                        self.updates += 1;
                        approx = true;
                        let (b, h) = (jac.clone().unwrap(), inv.clone().unwrap());
                        let form = |b: &Mx, h: &Mx, s: &V, y: &V, f: &V| {
                            let c = match u {
                                UpdateQuasiNewtonMethod::BroydenFirstMethod => s.clone(),
                                UpdateQuasiNewtonMethod::BroydenSecondMethod => b.transpose() * y,
                                UpdateQuasiNewtonMethod::GreenstadtFirstMethod => b.transpose() * f,
                                UpdateQuasiNewtonMethod::GreenstadtSecondMethod => h * y,
                            };
                            let den = c.dot(s);
                            (b - (b * s - y) * c.transpose() / den, c, den)
                        };
                        let (nb, c, den) = form(&b, &h, &s, &y, &f);
                        if !(den.abs() > 1e-5 * c.norm() * s.norm()) || !(s.amax() > 1e-6 * self.x.amax()) || !(y.amax() > 1e-6 * f.amax()) {
                            dirty = true;
                        }
                        match (&jac2, &inv2) {
                            (Some(b2), Some(h2)) => {
                                let (mut nb2, _, _) = form(b2, h2, &s2, &y2, &f2);
                                let sz = 1e-15 * (nb2.amax() + b2.amax() + (b2 * &s2).amax() * c.amax() / den.abs());
                                nb2.apply(|v| *v += sz * g.range(-1.0, 1.0));
                                inv2 = nb2.clone().lu().try_inverse();
                                jac2 = Some(nb2);
                            }
                            _ => dirty = true,
                        }
                        match nb.clone().lu().try_inverse() {
                            None => return Err(Stop::Skip),
                            Some(iv) => {
                                if !fin(&nb) || !fin(&iv) || nb.amax() * iv.amax() > 1e6 {
                                    dirty = true;
                                }
                                if *self.res == Res::JacInv && self.peek().is_none() {
                                    if dirty {
                                        return Err(Stop::Skip);
                                    }
                                    return Err(Stop::Fail(&["C02", "C09"], format!("step {}: the updated Jacobian {:?} is invertible and reported as not", iter, nb.as_slice())));
                                }
                                jac = Some(nb);
                                inv = Some(iv);
                            }
                        }
                    }
                    InverseJacobianUpdate(u) => {
                        self.updates += 1;
                        approx = true;
                        let h = inv.clone().unwrap();
                        let form = |h: &Mx, s: &V, y: &V, f: &V| {
                            let c = match u {
                                UpdateQuasiNewtonMethod::BroydenFirstMethod => h.transpose() * s,
                                UpdateQuasiNewtonMethod::BroydenSecondMethod => y.clone(),
                                UpdateQuasiNewtonMethod::GreenstadtFirstMethod => f.clone(),
                                UpdateQuasiNewtonMethod::GreenstadtSecondMethod => h.transpose() * h * y,
                            };
                            let den = c.dot(y);
                            (h - (h * y - s) * c.transpose() / den, c, den)
                        };
                        let (nh, c, den) = form(&h, &s, &y, &f);
                        if !(den.abs() > 1e-5 * c.norm() * y.norm()) || !(s.amax() > 1e-6 * self.x.amax()) || !(y.amax() > 1e-6 * f.amax()) {
                            dirty = true;
                        }
                        match &inv2 {
                            Some(h2) => {
                                let (mut nh2, _, _) = form(h2, &s2, &y2, &f2);
                                let sz = 1e-15 * (nh2.amax() + h2.amax() + (h2 * &y2).amax() * c.amax() / den.abs());
                                nh2.apply(|v| *v += sz * g.range(-1.0, 1.0));
                                inv2 = Some(nh2);
                            }
                            _ => dirty = true,
                        }
                        if !fin(&nh) || nh.amax() > 1e8 {
                            dirty = true;
                        }
                        jac = None;
                        inv = Some(nh);
                    }
                }
            }
            // ---- the step
            let f = self.update_res();
            let raw = -(inv.as_ref().unwrap() * &f);
            let x0 = self.x.clone();
            let want = V::from_fn(n, |i, _| limit(&sc.iters[i], x0[i], raw[i]));
            let raw2 = match &inv2 {
                Some(h2) => -(h2 * &f),
                None => V::from_element(n, f64::NAN),
            };
            let spread = (&raw - &raw2).amax();
            let tol = 1e3 * spread + 1e-9 * (x0.amax() + raw.amax());
            let sure = !dirty && finv(&raw) && finv(&raw2) && finv(&x0) && spread.is_finite() && tol < 1e-3 * raw.amax() + 1e-9 * x0.amax();
            let max0 = self.stopping();
            let f0 = self.update_res();
            if let Some(Ev::Jac { .. }) = self.peek() {
                return Err(Stop::Fail(C_POL, format!("step {}: a Jacobian is computed where none is due", iter)));
            }
            let e0 = self.peek();
            // an unexpected finite difference evaluation shows as the perturbed current point
            if let (Some(Ev::Eval { x, .. }), true, None) = (e0, sure, &sc.jac) {
                let mut w = x0.clone();
                w[0] += pert(&sc.iters[0], x0[0]);
                if !fresh && self.close(x, &w, 1e-12 * w.amax()) && !self.close(x, &want, tol) {
                    return Err(Stop::Fail(C_POL, format!("step {}: a finite difference Jacobian is computed where none is due", iter)));
                }
            }
            let tags = if approx { C_UPD } else { C_POS };
            self.eval(if sure { Some((&want, tol)) } else { None }, tags, &format!("step {} ({}), evaluation of the proposed point from {:?}", iter, if approx { "updated matrix" } else { "exact matrix" }, x0.as_slice()))?;
            if self.out == Out::Unus {
                let w = Res::Model(self.out, self.id);
                return self.end(w, C_RES);
            }
            let xp = self.x.clone();
            if sc.damping {
                let e1 = self.stopping();
                let (a, b) = (max0.amax(), e1.amax());
                let nan = max0.iter().chain(e1.iter()).any(|v| v.is_nan());
                if nan || (sc.stop.iter().any(|m| *m != NormalizationMethod::Abs) && a.is_finite() && (a - b).abs() <= 1e-12 * a) {
                    return Err(Stop::Skip);
                }
                if b > a {
                    if qn.is_some() && approx {
                        force = true;
                    } else {
                        self.dampings += 1;
                        let mid = (&x0 * 0.5) + (&xp * 0.5);
                        self.eval(Some((&mid, 1e-12 * (x0.amax() + xp.amax()))), C_DAMP, &format!("step {}: the error grew from {} to {}, the midpoint of {:?} and {:?} is due", iter, a, b, x0.as_slice(), xp.as_slice()))?;
                        if self.out == Out::Unus {
                            let w = Res::Model(self.out, self.id);
                            return self.end(w, C_RES);
                        }
                    }
                }
            }
            // a damping move where none is due
            if let Some(Ev::Eval { x, .. }) = self.peek() {
                let mid = (&x0 + &xp) * 0.5;
                if self.x == xp && finv(&mid) && (&xp - &x0).amax() > 1e-6 * (1.0 + x0.amax()) && self.close(&mid, x, 0.0) && self.converged()? {
                    return Err(Stop::Fail(C_DAMP, format!("step {}: a midpoint is evaluated where no damping is due", iter)));
                }
            }
            let f1 = self.update_res();
            fmag = (self.x.amax() + x0.amax(), f1.amax() + f0.amax());
            last = Some((&self.x - &x0, &f1 - &f0, f1));
        }
    }
}

/// what an accepted result promises, judged on the trace alone
pub fn accepted(sc: &Scn, m: &Rec, res: &Res) -> Option<String> {
    if *res != Res::Ok {
        return None;
    }
    let lastev = m.evs.iter().rev().find(|e| matches!(e, Ev::Eval { .. }));
    if let Some(Ev::Eval { x, l, r, out, .. }) = lastev {
        if *out != Out::Ok {
            return Some(format!("Ok although the last evaluation gave {:?}", out));
        }
        for i in 0..sc.n {
            let e = nrm(l[i], r[i], sc.stop[i]).abs();
            let slack = if sc.stop[i] == NormalizationMethod::Abs { 0.0 } else { 1e-12 * sc.tol.abs() };
            if !(e <= sc.tol + slack) {
                return Some(format!("Ok although stopping residual {} is {} (tolerance {})", i, e, sc.tol));
            }
        }
        if m.x.iter().zip(x.iter()).any(|(a, b)| !crate::util::same(*a, *b)) {
            return Some(format!("Ok with the model standing at {:?}, last evaluated at {:?}", m.x.as_slice(), x.as_slice()));
        }
        None
    } else {
        Some("Ok without any evaluation".into())
    }
}
