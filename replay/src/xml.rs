//! C13: random configuration files, well formed or with one thing wrong, read by the real parsers.
use crate::util::*;
use newton_rootfinder as nrf;
use nrf::iteratives::*;
use nrf::residuals::NormalizationMethod;
use nrf::solver::{QuasiNewtonMethod as Q, ResolutionMethod as R, SolverParameters, UpdateQuasiNewtonMethod as Up};

const CODES: [&str; 10] = ["NR", "SN", "BROY1", "BROY1_INV", "BROY2", "BROY2_INV", "GRST1", "GRST1_INV", "GRST2", "GRST2_INV"];

fn method(c: &str) -> R {
    let u = |c: &str| match &c[..5] {
        "BROY1" => Up::BroydenFirstMethod,
        "BROY2" => Up::BroydenSecondMethod,
        "GRST1" => Up::GreenstadtFirstMethod,
        _ => Up::GreenstadtSecondMethod,
    };
    match c {
        "NR" => R::NewtonRaphson,
        "SN" => R::QuasiNewton(Q::StationaryNewton),
        c if c.ends_with("_INV") => R::QuasiNewton(Q::InverseJacobianUpdate(u(c))),
        c => R::QuasiNewton(Q::JacobianUpdate(u(c))),
    }
}

#[derive(Clone, Default)]
struct Node {
    name: String,
    at: Vec<(String, String)>,
    kids: Vec<Node>,
}
impl Node {
    fn new(name: &str) -> Self {
        Node { name: name.into(), ..Default::default() }
    }
    fn get(&self, k: &str) -> Option<&str> {
        self.at.iter().find(|a| a.0 == k).map(|a| a.1.as_str())
    }
    fn set(&mut self, k: &str, v: String) {
        self.at.retain(|a| a.0 != k);
        self.at.push((k.into(), v));
    }
    fn text(&self, o: &mut String, ind: usize) {
        let a: String = self.at.iter().map(|(k, v)| format!(" {}=\"{}\"", k, v)).collect();
        if self.kids.is_empty() {
            o.push_str(&format!("{}<{}{}/>\n", " ".repeat(ind), self.name, a));
        } else {
            o.push_str(&format!("{}<{}{}>\n", " ".repeat(ind), self.name, a));
            for k in &self.kids {
                k.text(o, ind + 2);
            }
            o.push_str(&format!("{}</{}>\n", " ".repeat(ind), self.name));
        }
    }
}

fn num(g: &mut Rng, v: f64) -> String {
    match g.below(4) {
        0 => format!("{:e}", v),
        1 if v.is_finite() && v > 0.0 => format!("+{}", v),
        _ => format!("{}", v),
    }
}
fn floats(fd: bool) -> Vec<&'static str> {
    let mut f = vec!["min_value", "max_value", "max_step_abs", "max_step_rel"];
    if fd {
        f.extend(["dx_abs", "dx_rel"]);
    }
    f
}
fn value(g: &mut Rng, k: &str) -> String {
    let v = match k {
        "min_value" => g.pick(&[f64::NEG_INFINITY, -3.5, -1e10, -1.0, -0.125]),
        "max_value" => g.pick(&[f64::INFINITY, 3.5, 1e10, 1.0, 0.0]),
        _ => g.pick(&[f64::INFINITY, 10.0, 0.25, 1e-3, 5e-8, 5e-324, 1.5e-8, 0.5]),
    };
    num(g, v)
}

fn document(g: &mut Rng, fd: bool) -> Node {
    let n = if g.p(0.1) { 0 } else if g.p(0.1) { 12 } else { 1 + g.below(4) };
    let mut root = Node::new("nrf");
    let mut s = Node::new("solver");
    s.set("problem_size", n.to_string());
    let (mi, to) = (g.pick(&["0", "1", "50", "60", "007", "+3", "18446744073709551615"]), g.pick(&["1e-6", "0", "-1", "inf", "NaN", "0.5", "1E-3", ".5"]));
    s.set("max_iter", mi.into());
    s.set("tolerance", to.into());
    s.set("resolution_method", g.pick(&CODES).into());
    if g.p(0.8) {
        s.set("damping", g.pick(&["true", "false"]).into());
    }
    if g.p(0.2) {
        s.set("comment", "x".into());
    }
    let mut it = Node::new("iteratives");
    for k in floats(fd) {
        it.set(k, value(g, k));
    }
    if fd {
        it.set("perturbation_method", g.pick(&["Max", "Sum"]).into());
    }
    for i in 0..n {
        let mut e = Node::new("iterative");
        let pad = if g.p(0.1) { "0" } else { "" };
        e.set("id", format!("{}{}", pad, i));
        for k in floats(fd) {
            if g.p(0.4) {
                e.set(k, value(g, k));
            }
        }
        if fd && g.p(0.4) {
            e.set("perturbation_method", g.pick(&["Max", "Sum"]).into());
        }
        if g.p(0.2) {
            e.set("var_name", "max_step_abs".into());
        }
        if g.p(0.05) {
            e.kids.push(Node::new("note"));
        }
        it.kids.push(e);
    }
    let mut rs = Node::new("residuals");
    for k in ["stopping_criteria", "update_method"] {
        rs.set(k, g.pick(&["Abs", "Rel", "Adapt"]).into());
    }
    for i in 0..n {
        let mut e = Node::new("residual");
        e.set("id", i.to_string());
        for k in ["stopping_criteria", "update_method"] {
            if g.p(0.5) {
                e.set(k, g.pick(&["Abs", "Rel", "Adapt"]).into());
            }
        }
        rs.kids.push(e);
    }
    root.kids = vec![s, it, rs];
    if g.p(0.05) {
        root.kids.push(Node::new("extra"));
    }
    root
}

/// one or two things changed; whether the result is still well formed is decided by `expected`
fn damage(g: &mut Rng, d: &mut Node, fd: bool) {
    for _ in 0..(if g.p(0.9) { 1 } else { 2 }) {
        if d.kids.len() < 3 {
            return;
        }
        let top = 1 + g.below(2);
        let nk = d.kids[top].kids.len();
        match g.below(14) {
            0 => {
                let k = g.below(3);
                d.kids.remove(k);
            }
            1 => {
                let k = g.below(3);
                let l = g.below(3);
                d.kids.swap(k, l);
            }
            2 => {
                let k = g.below(3);
                d.kids[k].name = g.pick(&["solvers", "iterative", "residual", "Solver", "iteratives", "residuals", "solver"]).into();
            }
            3 => d.name = g.pick(&["nrf2", "NRF", "root"]).into(),
            4 => {
                let k = g.below(3);
                if !d.kids[k].at.is_empty() {
                    let i = g.below(d.kids[k].at.len());
                    d.kids[k].at.remove(i);
                }
            }
            5 if nk > 0 => {
                let i = g.below(nk);
                d.kids[top].kids.remove(i);
            }
            6 => {
                let mut e = Node::new(if top == 1 { "iterative" } else { "residual" });
                e.set("id", nk.to_string());
                d.kids[top].kids.push(e);
            }
            7 if nk > 1 => {
                let (i, j) = (g.below(nk), g.below(nk));
                d.kids[top].kids.swap(i, j);
            }
            8 if nk > 0 => {
                let i = g.below(nk);
                let v = g.pick(&["0", "1", "2", "3", "-1", "", "x", "1.0", " 1"]);
                d.kids[top].kids[i].set("id", v.into());
            }
            9 if nk > 0 => {
                let i = g.below(nk);
                d.kids[top].kids[i].name = g.pick(&["iterative", "residual", "iteratives", "residuals", "Iterative"]).into();
            }
            10 => {
                let v = g.pick(&["0", "1", "2", "3", "4", "5", "-1", "1.0", "", "x"]);
                d.kids[0].set("problem_size", v.into());
            }
            11 => {
                let k = g.pick(&["max_iter", "tolerance", "damping", "resolution_method"]);
                let v = g.pick(&["", "x", "True", "1", "NewtonRaphson", "nr", "BROY3", "-5", "1e3", "true", "GRST1INV"]);
                d.kids[0].set(k, v.into());
            }
            12 => {
                let mut names = floats(fd);
                names.extend(["perturbation_method", "dx_abs", "dx_rel"]);
                let k = g.pick(&names);
                let v = g.pick(&["", "x", "0", "-0.0", "-1", "NaN", "inf", "-inf", "max", "MAX", "Sum", "1,5", "7"]);
                if nk > 0 && top == 1 && g.p(0.7) {
                    let i = g.below(nk);
                    d.kids[1].kids[i].set(k, v.into());
                } else {
                    d.kids[1].set(k, v.into());
                }
            }
            _ => {
                let k = g.pick(&["stopping_criteria", "update_method"]);
                let v = g.pick(&["", "abs", "ABS", "Relative", "adapt", "Abs", "Rel", "Adapt"]);
                let nr = d.kids[2].kids.len();
                if nr > 0 && g.p(0.7) {
                    let i = g.below(nr);
                    d.kids[2].kids[i].set(k, v.into());
                } else {
                    d.kids[2].set(k, v.into());
                }
            }
        }
    }
}

type Par = Vec<f64>;
struct Cfg {
    n: usize,
    max_iter: usize,
    tol: f64,
    damping: bool,
    method: R,
    its: Vec<(Par, Option<PerturbationMethod>)>,
    stop: Vec<NormalizationMethod>,
    upd: Vec<NormalizationMethod>,
}

fn norm(s: &str) -> Option<NormalizationMethod> {
    match s {
        "Abs" => Some(NormalizationMethod::Abs),
        "Rel" => Some(NormalizationMethod::Rel),
        "Adapt" => Some(NormalizationMethod::Adapt),
        _ => None,
    }
}
fn pert(s: &str) -> Option<PerturbationMethod> {
    match s {
        "Max" => Some(PerturbationMethod::Max),
        "Sum" => Some(PerturbationMethod::Sum),
        _ => None,
    }
}

/// what the document says, None when it must be rejected
fn expected(d: &Node, fd: bool) -> Option<Cfg> {
    if d.name != "nrf" || d.kids.len() < 3 {
        return None;
    }
    let (s, it, rs) = (&d.kids[0], &d.kids[1], &d.kids[2]);
    if s.name != "solver" || it.name != "iteratives" || rs.name != "residuals" {
        return None;
    }
    let n: usize = s.get("problem_size")?.parse().ok()?;
    let max_iter: usize = s.get("max_iter")?.parse().ok()?;
    let tol: f64 = s.get("tolerance")?.parse().ok()?;
    let c = s.get("resolution_method")?;
    if !CODES.contains(&c) {
        return None;
    }
    let damping = match s.get("damping") {
        None => false,
        Some("true") => true,
        Some("false") => false,
        _ => return None,
    };
    let good = |p: &Par| p[2] > 0.0 && p[3] > 0.0 && p[0] < p[1] && (!fd || (p[4] > 0.0 && p[5] > 0.0));
    let mut def: Par = vec![];
    for k in floats(fd) {
        def.push(it.get(k)?.parse().ok()?);
    }
    let dpm = if fd { Some(pert(it.get("perturbation_method")?)?) } else { None };
    if !good(&def) {
        return None;
    }
    let mut its = vec![];
    for (i, e) in it.kids.iter().enumerate() {
        if e.name != "iterative" || e.get("id")?.parse::<usize>().ok()? != i {
            return None;
        }
        let mut p = vec![];
        for (k, dv) in floats(fd).iter().zip(&def) {
            p.push(match e.get(k) {
                None => *dv,
                Some(v) => v.parse().ok()?,
            });
        }
        let pm = if fd {
            Some(match e.get("perturbation_method") {
                None => dpm?,
                Some(v) => pert(v)?,
            })
        } else {
            None
        };
        if !good(&p) {
            return None;
        }
        its.push((p, pm));
    }
    let (ds, du) = (norm(rs.get("stopping_criteria")?)?, norm(rs.get("update_method")?)?);
    let (mut stop, mut upd) = (vec![], vec![]);
    for (i, e) in rs.kids.iter().enumerate() {
        if e.name != "residual" || e.get("id")?.parse::<usize>().ok()? != i {
            return None;
        }
        stop.push(match e.get("stopping_criteria") {
            None => ds,
            Some(v) => norm(v)?,
        });
        upd.push(match e.get("update_method") {
            None => du,
            Some(v) => norm(v)?,
        });
    }
    if its.len() != n || stop.len() != n {
        return None;
    }
    Some(Cfg { n, max_iter, tol, damping, method: method(c), its, stop, upd })
}

fn compare(w: &Cfg, p: &SolverParameters, its: &[(Par, Option<PerturbationMethod>)], stop: &[NormalizationMethod], upd: &[NormalizationMethod]) -> Option<String> {
    if p.get_problem_size() != w.n || p.get_max_iter() != w.max_iter || !same(p.get_tolerance(), w.tol) || p.get_damping() != w.damping || p.get_resolution_method() != w.method {
        return Some(format!("solver parameters read as {:?}", p));
    }
    if its.len() != w.its.len() || its.iter().zip(&w.its).any(|(a, b)| a.1 != b.1 || a.0.iter().zip(&b.0).any(|(x, y)| !same(*x, *y))) {
        return Some(format!("iteratives read as {:?}, written {:?}", its, w.its));
    }
    if stop != &w.stop[..] || upd != &w.upd[..] {
        return Some(format!("residuals read as {:?} {:?}, written {:?} {:?}", stop, upd, w.stop, w.upd));
    }
    None
}

pub fn run_battery(b: &mut Bat) {
    b.rule = "a case is one configuration file written to a scratch folder and read back by one of the two parsers; non-trivial when it has at least one iterative node or must be rejected; distinct by text".into();
    let mut g = Rng::new(b.seed ^ 0x13);
    let n = if b.thorough { 60000 } else { 5000 };
    let dir = format!("{}/xml", b.scratch);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/config.xml", dir);
    for k in 0..n {
        let fd = g.p(0.5);
        let mut d = document(&mut g, fd);
        if g.p(0.6) {
            damage(&mut g, &mut d, fd);
        }
        let mut text = String::new();
        if g.p(0.5) {
            text.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\" ?>\n");
        }
        d.text(&mut text, 0);
        let mut want = expected(&d, fd);
        if k % 50 == 7 {
            // a truncated file (minidom accepts a missing </nrf> at the end)
            let cut = text.find("<nrf").unwrap_or(0) + 4;
            let stop = text.find("<residuals").unwrap_or(cut + 1).max(cut + 1);
            let end = cut + g.below(stop - cut);
            text = text.chars().take(end).collect();
            want = None;
        }
        let missing = k % 501 == 3;
        let _ = std::fs::remove_file(&path);
        if missing {
            want = None;
        } else {
            std::fs::write(&path, &text).expect("scratch file");
        }
        b.case(d.kids.get(1).map_or(true, |i| i.kids.is_empty()) && want.is_some(), || text.clone());
        let got = if fd {
            quiet(|| {
                let (p, i, s, u) = nrf::xml_parser::from_xml_finite_diff(&path);
                let i = i.iter().map(|x| (vec![x.get_min_value(), x.get_max_value(), x.get_max_step_abs(), x.get_max_step_rel(), x.get_dx_abs(), x.get_dx_rel()], Some(x.get_perturbation_method()))).collect::<Vec<_>>();
                (p, i, s, u)
            })
        } else {
            quiet(|| {
                let (p, i, s, u) = nrf::xml_parser::from_xml_jacobian(&path);
                let i = i.iter().map(|x| (vec![x.get_min_value(), x.get_max_value(), x.get_max_step_abs(), x.get_max_step_rel()], None)).collect::<Vec<_>>();
                (p, i, s, u)
            })
        };
        let kind = if fd { "from_xml_finite_diff" } else { "from_xml_jacobian" };
        match (want, got) {
            (None, Ok(_)) => b.fail(format!("{} accepted a file it must reject:\n{}", kind, if missing { "(no file)" } else { &text }), None),
            (Some(_), Err(e)) => b.fail(format!("{} rejected a well-formed file ({}):\n{}", kind, e, text), None),
            (Some(w), Ok((p, i, s, u))) => {
                if let Some(what) = compare(&w, &p, &i, &s, &u) {
                    b.fail(format!("{}: {}\n{}", kind, what, text), None);
                }
            }
            (None, Err(_)) => {}
        }
        if b.full() {
            break;
        }
    }
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_dir(&dir);
}

