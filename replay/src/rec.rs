//! a model which records every call that changes it, with scripted failures, and scenarios for it
use crate::util::*;
use nalgebra::{DMatrix, DVector, Dyn};
use newton_rootfinder::iteratives::*;
use newton_rootfinder::model::*;
use newton_rootfinder::residuals::*;
use newton_rootfinder::solver::*;

pub type V = DVector<f64>;
pub type Mx = DMatrix<f64>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Out {
    Ok,
    Inacc,
    Unus,
}

#[derive(Debug, Clone, PartialEq)]
pub struct MyErr(pub u64);
impl std::fmt::Display for MyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "err-{}", self.0)
    }
}
impl std::error::Error for MyErr {}

#[derive(Clone, Debug)]
pub enum Ev {
    Set(V),
    SetMem(V),
    Eval { x: V, mem: V, l: V, r: V, out: Out, id: u64 },
    Jac { x: V, l: Mx, r: Mx, out: Out, id: u64 },
}

#[derive(Clone, Debug)]
pub enum Fun {
    /// left = A x + q x^2 - b + g, right = g with g = c x + d
    Poly { a: Mx, q: V, b: V, c: f64, d: f64 },
    /// the residuals of the k-th evaluation, whatever the point
    Table(Vec<(V, V)>),
    /// elementwise, with invalid values possible
    Wild { kind: Vec<usize>, b: V },
}

#[derive(Clone, Debug)]
pub struct Scn {
    pub n: usize,
    pub fun: Fun,
    pub outs: Vec<Out>,
    pub jac: Option<Vec<(Mx, Mx)>>, // scripted Jacobians (cycled); empty: derivative of the function
    pub jouts: Vec<Out>,
    pub mem: V,
    pub memdep: f64,
    pub init: V,
    pub method: ResolutionMethod,
    pub damping: bool,
    pub max_iter: usize,
    pub tol: f64,
    pub stop: Vec<NormalizationMethod>,
    pub upd: Vec<NormalizationMethod>,
    pub iters: Vec<IterativeParamsFD>,
}

pub struct Rec {
    pub sc: Scn,
    pub x: V,
    pub mem: V,
    pub l: V,
    pub r: V,
    pub keval: usize,
    pub kjac: usize,
    pub evs: Vec<Ev>,
    pub limit: usize,
}
pub const BUDGET: &str = "the solver keeps evaluating the model without end";

impl Rec {
    pub fn new(sc: &Scn) -> Self {
        let n = sc.n;
        Rec { sc: sc.clone(), x: V::zeros(n), mem: sc.mem.clone(), l: V::zeros(n), r: V::zeros(n), keval: 0, kjac: 0, evs: vec![], limit: (sc.max_iter + 2) * (n + 3) + 60 }
    }
}
impl Fun {
    pub fn eval(&self, x: &V, k: usize) -> (V, V) {
        let n = x.len();
        match self {
            Fun::Poly { a, q, b, c, d } => {
                let g = V::from_fn(n, |i, _| c * x[i] + d);
                let f = a * x + V::from_fn(n, |i, _| q[i] * x[i] * x[i] - b[i]);
                (f + &g, g)
            }
            Fun::Table(t) => t[k % t.len()].clone(),
            Fun::Wild { kind, b } => (
                V::from_fn(n, |i, _| match kind[i] {
                    0 => x[i].sqrt(),
                    1 => x[i].ln(),
                    2 => 1.0 / x[i],
                    3 => x[i].exp(),
                    4 => x[i].atan(),
                    5 => x[i] * x[(i + 1) % n],
                    _ => 0.0,
                }),
                b.clone(),
            ),
        }
    }
    pub fn deriv(&self, x: &V) -> (Mx, Mx) {
        let n = x.len();
        match self {
            Fun::Poly { a, q, c, .. } => (a + Mx::from_fn(n, n, |i, j| if i == j { 2.0 * q[i] * x[i] + c } else { 0.0 }), Mx::identity(n, n) * *c),
            Fun::Table(_) => (Mx::identity(n, n), Mx::zeros(n, n)),
            Fun::Wild { kind, .. } => {
                let mut m = Mx::zeros(n, n);
                for i in 0..n {
                    match kind[i] {
                        0 => m[(i, i)] = 0.5 / x[i].sqrt(),
                        1 => m[(i, i)] = 1.0 / x[i],
                        2 => m[(i, i)] = -1.0 / (x[i] * x[i]),
                        3 => m[(i, i)] = x[i].exp(),
                        4 => m[(i, i)] = 1.0 / (1.0 + x[i] * x[i]),
                        5 => {
                            m[(i, i)] += x[(i + 1) % n];
                            m[(i, (i + 1) % n)] += x[i];
                        }
                        _ => (),
                    }
                }
                (m, Mx::zeros(n, n))
            }
        }
    }
}

impl Model<Dyn> for Rec {
    type InaccurateValuesError = MyErr;
    type UnusableValuesError = MyErr;
    fn len_problem(&self) -> usize {
        self.sc.n
    }
    fn set_iteratives(&mut self, x: &V) {
        self.evs.push(Ev::Set(x.clone()));
        self.x = x.clone();
    }
    fn get_iteratives(&self) -> V {
        self.x.clone()
    }
    fn evaluate(&mut self) -> Result<(), ModelError<Self, Dyn>> {
        if self.evs.len() > 4 * self.limit {
            panic!("{}", BUDGET);
        }
        let k = self.keval;
        self.keval += 1;
        let mem = self.mem.clone();
        let (mut l, r) = self.sc.fun.eval(&self.x, k);
        if self.sc.memdep != 0.0 {
            l[0] += self.sc.memdep * mem[0];
        }
        if self.mem.len() > 0 {
            self.mem[0] += 1.0;
        }
        let out = *self.sc.outs.get(k).unwrap_or(&Out::Ok);
        self.l = l.clone();
        self.r = r.clone();
        let id = 1000 + k as u64;
        self.evs.push(Ev::Eval { x: self.x.clone(), mem, l, r, out, id });
        match out {
            Out::Ok => Ok(()),
            Out::Inacc => Err(ModelError::InaccurateValuesError(MyErr(id))),
            Out::Unus => Err(ModelError::UnusableValuesError(MyErr(id))),
        }
    }
    fn get_residuals(&self) -> ResidualsValues<Dyn> {
        ResidualsValues::new(self.l.clone(), self.r.clone())
    }
    fn jacobian_provided(&self) -> bool {
        self.sc.jac.is_some()
    }
    fn get_jacobian(&mut self) -> Result<JacobianValues<Dyn>, ModelError<Self, Dyn>> {
        let k = self.kjac;
        self.kjac += 1;
        let out = *self.sc.jouts.get(k).unwrap_or(&Out::Ok);
        let n = self.sc.n;
        let (l, r) = match &self.sc.jac {
            Some(t) if t.is_empty() => self.sc.fun.deriv(&self.x),
            Some(t) => t[k % t.len()].clone(),
            None => (Mx::zeros(n, n), Mx::zeros(n, n)),
        };
        let id = 5000 + k as u64;
        if self.evs.len() > 4 * self.limit {
            panic!("{}", BUDGET);
        }
        self.evs.push(Ev::Jac { x: self.x.clone(), l: l.clone(), r: r.clone(), out, id });
        match out {
            Out::Ok => Ok(JacobianValues::new(l, r)),
            Out::Inacc => Err(ModelError::InaccurateValuesError(MyErr(id))),
            Out::Unus => Err(ModelError::UnusableValuesError(MyErr(id))),
        }
    }
    fn get_memory(&self) -> V {
        self.mem.clone()
    }
    fn set_memory(&mut self, m: &V) {
        self.evs.push(Ev::SetMem(m.clone()));
        self.mem = m.clone();
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok,
    Init(String),
    Model(Out, u64),
    JacErr(Out, u64),
    JacInv,
    Final,
    NonConv,
    Panic(String),
}
type RF<'a> = RootFinder<'a, IterativeParamsFD, Dyn>;

fn conv_me(e: &ModelError<Rec, Dyn>) -> (Out, u64) {
    match e {
        ModelError::InaccurateValuesError(e) => (Out::Inacc, e.0),
        ModelError::UnusableValuesError(e) => (Out::Unus, e.0),
    }
}
pub fn solve(rf: &mut RF, m: &mut Rec) -> Res {
    use newton_rootfinder::errors::*;
    match quiet(|| rf.solve(m)) {
        Err(p) => Res::Panic(p),
        Ok(Ok(())) => Res::Ok,
        Ok(Err(e)) => match e {
            SolverError::NonConvergenceError => Res::NonConv,
            SolverError::FinalEvaluationError => Res::Final,
            SolverError::ModelInitialEvaluationError(s) => Res::Init(s),
            SolverError::ModelEvaluationError(e) => {
                let (o, i) = conv_me(&e);
                Res::Model(o, i)
            }
            SolverError::JacobianError(SolverInternalError::InvalidJacobianError(e)) => {
                let (o, i) = conv_me(&e);
                Res::JacErr(o, i)
            }
            SolverError::JacobianError(SolverInternalError::InvalidJacobianInverseError) => Res::JacInv,
        },
    }
}
pub fn with_rf<R>(sc: &Scn, f: impl FnOnce(&mut dyn FnMut() -> RF<'static>) -> R) -> R {
    // the configuration lives as long as the process would need it; leaked, the batteries are small
    let iters: &'static [IterativeParamsFD] = Box::leak(sc.iters.clone().into_boxed_slice());
    let it: &'static Iteratives<'static, IterativeParamsFD> = Box::leak(Box::new(Iteratives::new(iters)));
    let stop: &'static [NormalizationMethod] = Box::leak(sc.stop.clone().into_boxed_slice());
    let upd: &'static [NormalizationMethod] = Box::leak(sc.upd.clone().into_boxed_slice());
    let rc: &'static ResidualsConfig<'static> = Box::leak(Box::new(ResidualsConfig::new(stop, upd)));
    let mut mk = || RootFinder::new(SolverParameters::new(sc.n, sc.tol, sc.max_iter, sc.method, sc.damping), sc.init.clone(), it, rc);
    f(&mut mk)
}
pub fn run(sc: &Scn, log: Option<&str>) -> (Vec<Ev>, Res) {
    with_rf(sc, |mk| {
        let mut m = Rec::new(sc);
        let mut rf = mk();
        if let Some(p) = log {
            rf.activate_debug(p);
        }
        let r = solve(&mut rf, &mut m);
        (m.evs, r)
    })
}

pub fn methods() -> Vec<ResolutionMethod> {
    use QuasiNewtonMethod::*;
    use UpdateQuasiNewtonMethod::*;
    let mut v = vec![ResolutionMethod::NewtonRaphson, ResolutionMethod::QuasiNewton(StationaryNewton)];
    for u in [BroydenFirstMethod, BroydenSecondMethod, GreenstadtFirstMethod, GreenstadtSecondMethod] {
        v.push(ResolutionMethod::QuasiNewton(JacobianUpdate(u)));
        v.push(ResolutionMethod::QuasiNewton(InverseJacobianUpdate(u)));
    }
    v
}
pub fn norms(g: &mut Rng, n: usize) -> Vec<NormalizationMethod> {
    use NormalizationMethod::*;
    if g.p(0.4) {
        vec![Abs; n]
    } else {
        (0..n).map(|_| g.pick(&[Abs, Rel, Adapt])).collect()
    }
}
pub fn params(g: &mut Rng, free: bool) -> IterativeParamsFD {
    let inf = f64::INFINITY;
    let pm = g.pick(&[PerturbationMethod::Max, PerturbationMethod::Sum]);
    let da = g.pick(&[1e-3, 0.01, 0.125, 5e-8, 1e-5]);
    let dr = g.pick(&[1e-3, 0.01, 0.125, 5e-8, 1e-5]);
    if free {
        return IterativeParamsFD::new(inf, inf, -inf, inf, da, dr, pm);
    }
    let sa = g.pick(&[inf, 1.0, 0.5, 10.0]);
    let sr = g.pick(&[inf, 0.5, 1.0, 0.1]);
    let lo = g.pick(&[-inf, 0.0, -5.0, 0.1]);
    let hi = g.pick(&[inf, 6.0, 50.0, 1.5]);
    IterativeParamsFD::new(sa, sr, lo, hi, da, dr, pm)
}

/// regimes: 0 smooth, 1 scripted residual tables with exact ties, 2 exceptional values
pub fn scenario(g: &mut Rng) -> (usize, Scn) {
    scenario_of(g, None)
}
pub fn scenario_of(g: &mut Rng, dim: Option<usize>) -> (usize, Scn) {
    let (regime, mut sc) = ordinary(g, dim);
    if g.p(broad()) {
        broaden(g, &mut sc, regime);
    }
    (regime, sc)
}
/// leave the ordinary ranges: long runs, literals of the source as tolerances, limits and values, longer memories
fn broaden(g: &mut Rng, sc: &mut Scn, regime: usize) {
    let n = sc.n;
    if g.p(0.4) {
        sc.max_iter = if g.p(0.5) { g.hint_int(10, 620) } else { g.pick(&[60, 130, 260, 520, 620]) };
        if n > 6 {
            sc.max_iter = sc.max_iter.min(60);
        }
        // keep it running: no residual is ever small enough
        match &mut sc.fun {
            Fun::Table(t) if g.p(0.8) => {
                let k = t.len() + g.below(30);
                while t.len() < k {
                    let e = (V::from_fn(n, |_, _| g.dyadic()), t[0].1.clone());
                    t.push(e);
                }
                for (l, r) in t.iter_mut() {
                    if l[0] == r[0] {
                        l[0] = r[0] + 1.5;
                    }
                }
                if g.p(0.7) {
                    sc.tol = g.pick(&[0.0, 1e-3]);
                    sc.stop = vec![NormalizationMethod::Abs; n];
                }
                if g.p(0.6) {
                    sc.outs.clear();
                }
            }
            Fun::Poly { .. } if g.p(0.5) => sc.tol = -1.0,
            _ => (),
        }
        let (len, pi) = (sc.outs.len(), g.pick(&[0.0, 0.1, 0.4]));
        if len > 0 {
            for _ in len..(4 * sc.max_iter) {
                sc.outs.push(if g.p(pi) { Out::Inacc } else if g.p(0.001) { Out::Unus } else { Out::Ok });
            }
        }
        if g.p(0.4) {
            sc.method = ResolutionMethod::QuasiNewton(QuasiNewtonMethod::StationaryNewton);
        }
    }
    if g.p(0.3) {
        sc.tol = if g.p(0.5) { g.hint().abs() } else { g.pick(&[0.0, 1e-15, 1e-14, 1e-12, 1e-300, 1e3, 1e9]) };
        if regime == 1 && g.p(0.7) {
            // residuals of the size of the tolerance
            let s = if sc.tol > 0.0 && sc.tol.is_finite() { sc.tol } else { g.hint().abs() };
            if let Fun::Table(t) = &mut sc.fun {
                for (l, r) in t.iter_mut() {
                    if g.p(0.6) {
                        l.apply(|v| *v *= s);
                        r.apply(|v| *v *= s);
                    }
                }
            }
        }
    }
    if g.p(0.2) {
        let s = if g.p(0.7) { g.hint().abs() } else { g.pick(&[1e-15, 1e-14, 1e-12, 1e-9, 1e6, 1e12]) };
        if s.is_finite() && s > 0.0 {
            match &mut sc.fun {
                Fun::Table(t) => {
                    for (l, r) in t.iter_mut() {
                        if g.p(0.7) {
                            l.apply(|v| *v *= s);
                            r.apply(|v| *v *= s);
                        }
                    }
                }
                Fun::Poly { a, q, b, .. } if s > 1e-20 && s < 1e20 => {
                    *a *= s;
                    *q *= s;
                    *b *= s;
                }
                _ => (),
            }
        }
    }
    if g.p(0.2) {
        let s = if g.p(0.6) { g.hint() } else { g.pick(&[0.0, -0.0, 1e-8, -1e-8, 1e4, -1e4, 1e8]) };
        let i = g.below(n);
        if s.is_finite() && s.abs() < 1e30 {
            if g.p(0.5) {
                sc.init[i] = s;
            } else {
                sc.init.apply(|v| *v *= s);
            }
        }
    }
    if g.p(0.2) {
        let i = g.below(n);
        let h = |g: &mut Rng| loop {
            let v = g.hint().abs();
            if v > 0.0 && v.is_finite() {
                return v;
            }
        };
        let (da, dr) = (h(g), h(g));
        let pm = g.pick(&[PerturbationMethod::Max, PerturbationMethod::Sum]);
        let (mut sa, mut sr) = (f64::INFINITY, f64::INFINITY);
        if g.p(0.5) {
            sa = h(g);
        }
        if g.p(0.5) {
            sr = h(g);
        }
        sc.iters[i] = IterativeParamsFD::new(sa, sr, f64::NEG_INFINITY, f64::INFINITY, da.min(1e3), dr.min(1e3), pm);
    }
    if g.p(0.15) && sc.memdep == 0.0 {
        sc.mem = V::from_fn(g.hint_int(0, 12), |_, _| g.below(5) as f64);
    }
}
fn ordinary(g: &mut Rng, dim: Option<usize>) -> (usize, Scn) {
    let big = if g.p(0.2) { 5 } else { 3 };
    let n = match dim {
        Some(d) => d,
        None => {
            let n = 1 + g.below(big);
            if g.p(0.2 * broad()) {
                if g.p(0.7) { g.hint_int(1, 13) } else { g.hint_int(1, 40) }
            } else {
                n
            }
        }
    };
    let regime = g.pick(&[0, 0, 0, 1, 1, 2]);
    let mem = if g.p(0.5) { V::from_fn(1 + g.below(2), |_, _| g.below(5) as f64) } else { V::zeros(0) };
    let mut memdep = 0.0;
    let fun = match regime {
        0 => {
            let diag = g.p(0.7);
            let a = Mx::from_fn(n, n, |i, j| if i == j { g.range(1.0, 5.0) } else if diag { g.range(-0.4, 0.4) } else { g.range(-2.0, 2.0) });
            let q = V::from_fn(n, |_, _| if g.p(0.5) { g.range(0.0, 2.0) } else { g.range(-1.0, 1.0) });
            if mem.len() > 0 && g.p(0.5) {
                memdep = 1e-3;
            }
            let (c, d) = if g.p(0.5) { (0.0, 0.0) } else { (g.range(-1.0, 1.0), g.range(-3.0, 3.0)) };
            Fun::Poly { a, q, b: V::from_fn(n, |_, _| g.range(-4.0, 4.0)), c, d }
        }
        1 => {
            let k = 2 + g.below(12);
            let small = g.p(0.5);
            Fun::Table(
                (0..k)
                    .map(|_| {
                        let z = g.p(0.12);
                        (V::from_fn(n, |_, _| if z { 0.0 } else if small { g.dyadic() * 0.25 } else { g.dyadic() }), if g.p(0.5) { V::zeros(n) } else { V::from_fn(n, |_, _| if z { 0.0 } else { g.dyadic() }) })
                    })
                    .collect(),
            )
        }
        _ => {
            if g.p(0.6) {
                Fun::Wild { kind: (0..n).map(|_| g.below(7)).collect(), b: V::from_fn(n, |_, _| g.range(-3.0, 3.0)) }
            } else {
                let k = 2 + g.below(10);
                Fun::Table((0..k).map(|_| (V::from_fn(n, |_, _| g.float()), V::from_fn(n, |_, _| if g.p(0.7) { 0.0 } else { g.float() }))).collect())
            }
        }
    };
    let mut outs = vec![];
    if g.p(0.5) {
        let pi = g.pick(&[0.1, 0.3, 0.6]);
        let pu = g.pick(&[0.0, 0.0, 0.02, 0.1]);
        for _ in 0..60 {
            outs.push(if g.p(pu) { Out::Unus } else if g.p(pi) { Out::Inacc } else { Out::Ok });
        }
        if pu < 0.05 || g.p(0.8) {
            if outs[0] == Out::Unus {
                outs[0] = Out::Inacc;
            }
        }
    }
    let table = matches!(fun, Fun::Table(_));
    let jac = if (table && g.p(0.85)) || g.p(0.5) {
        if table || g.p(0.2) {
            let k = 1 + g.below(4);
            Some(
                (0..k)
                    .map(|_| {
                        let mut m = if regime == 2 && g.p(0.2) { Mx::from_fn(n, n, |_, _| g.float()) } else { Mx::from_fn(n, n, |i, j| if i == j { g.pick(&[1.0, 2.0, 4.0, -2.0]) } else { g.pick(&[0.0, 0.0, 0.5, -1.0]) }) };
                        if g.p(0.06) {
                            let i = g.below(n);
                            m.row_mut(i).fill(0.0);
                        }
                        let r = if g.p(0.6) { Mx::zeros(n, n) } else { Mx::from_fn(n, n, |_, _| g.pick(&[0.0, 0.25, -0.25])) };
                        (m, r)
                    })
                    .collect(),
            )
        } else {
            Some(vec![])
        }
    } else {
        None
    };
    let mut jouts = vec![];
    if g.p(0.12) {
        for _ in 0..8 {
            jouts.push(g.pick(&[Out::Ok, Out::Ok, Out::Ok, Out::Inacc, Out::Unus]));
        }
    }
    let free = g.p(0.6);
    let iters: Vec<_> = (0..n).map(|_| params(g, free)).collect();
    let tol = match regime {
        1 => g.pick(&[0.25, 0.5, 1.0, 0.125, 0.0]),
        2 => g.pick(&[1e-6, 0.5, f64::INFINITY, f64::NAN, -1.0]),
        _ => g.pick(&[1e-6, 1e-8, 1e-3, 0.1]),
    };
    let sc = Scn {
        n,
        fun,
        outs,
        jac,
        jouts,
        mem,
        memdep,
        init: V::from_fn(n, |_, _| match regime {
            1 => g.dyadic(),
            2 => {
                if g.p(0.1) {
                    g.float()
                } else {
                    g.range(-2.0, 4.0)
                }
            }
            _ => g.range(-3.0, 3.0),
        }),
        method: { let ms = methods(); g.pick(&ms) },
        damping: g.p(0.6),
        max_iter: g.pick(&[0, 1, 2, 3, 5, 9, 14, 25]),
        tol,
        stop: norms(g, n),
        upd: norms(g, n),
        iters,
    };
    (regime, sc)
}
