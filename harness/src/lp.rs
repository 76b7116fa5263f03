//! The linear program as a user states it, and exact checks against it.
use crate::big::Rat;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Rel {
    Le,
    Ge,
    Eq,
    /// `rhs - r <= a x <= rhs`
    Rng(Rat),
}
#[derive(Clone, Debug)]
pub struct Row {
    pub name: String,
    pub rel: Rel,
    pub rhs: Rat,
    /// Sorted by variable, nonzero.
    pub coef: Vec<(usize, Rat)>,
}
#[derive(Clone, Debug)]
pub struct Var {
    pub name: String,
    pub cost: Rat,
    pub lb: Option<Rat>,
    pub ub: Option<Rat>,
}
#[derive(Clone, Debug)]
pub struct Lp {
    pub max: bool,
    pub fixed: Rat,
    pub rows: Vec<Row>,
    pub vars: Vec<Var>,
}

impl Row {
    pub fn lo(&self) -> Option<Rat> {
        match &self.rel {
            Rel::Le => None,
            Rel::Ge | Rel::Eq => Some(self.rhs.clone()),
            Rel::Rng(r) => Some(self.rhs.sub(r)),
        }
    }
    pub fn hi(&self) -> Option<Rat> {
        match &self.rel {
            Rel::Ge => None,
            _ => Some(self.rhs.clone()),
        }
    }
    pub fn activity(&self, x: &[Rat]) -> Rat {
        self.coef.iter().fold(Rat::zero(), |s, (j, a)| s.add(&a.mul(&x[*j])))
    }
}
impl Lp {
    pub fn objective(&self, x: &[Rat]) -> Rat {
        self.vars.iter().zip(x).fold(self.fixed.clone(), |s, (v, x)| s.add(&v.cost.mul(x)))
    }
    /// The first violated constraint or bound, if any.
    pub fn infeasibility(&self, x: &[Rat]) -> Option<String> {
        if x.len() != self.vars.len() {
            return Some(format!("{} values for {} variables", x.len(), self.vars.len()));
        }
        for (v, x) in self.vars.iter().zip(x) {
            if v.lb.as_ref().is_some_and(|l| x < l) {
                return Some(format!("{} = {} is below its lower bound {}", v.name, x, v.lb.as_ref().unwrap()));
            }
            if v.ub.as_ref().is_some_and(|u| x > u) {
                return Some(format!("{} = {} is above its upper bound {}", v.name, x, v.ub.as_ref().unwrap()));
            }
        }
        for r in &self.rows {
            let a = r.activity(x);
            if r.lo().is_some_and(|l| a < l) {
                return Some(format!("row {} has activity {} below {}", r.name, a, r.lo().unwrap()));
            }
            if r.hi().is_some_and(|u| a > u) {
                return Some(format!("row {} has activity {} above {}", r.name, a, r.hi().unwrap()));
            }
        }
        None
    }
    /// Lagrangian lower bound on the minimisation objective without its constant, for *any*
    /// multipliers `y`; `None` is minus infinity.
    pub fn dual_bound(&self, cost: &[Rat], y: &[Rat]) -> Option<Rat> {
        let mut d = cost.to_vec();
        let mut total = Rat::zero();
        for (r, y) in self.rows.iter().zip(y) {
            if y.is_zero() {
                continue;
            }
            let side = if y.sign() > 0 { r.lo() } else { r.hi() }?;
            total = total.add(&y.mul(&side));
            for (j, a) in &r.coef {
                d[*j] = d[*j].sub(&y.mul(a));
            }
        }
        for (v, d) in self.vars.iter().zip(&d) {
            if d.is_zero() {
                continue;
            }
            let side = if d.sign() > 0 { v.lb.clone() } else { v.ub.clone() }?;
            total = total.add(&d.mul(&side));
        }
        Some(total)
    }
    /// Costs when read as a minimisation.
    pub fn min_costs(&self) -> Vec<Rat> {
        self.vars.iter().map(|v| if self.max { v.cost.neg() } else { v.cost.clone() }).collect()
    }
    pub fn is_ray(&self, d: &[Rat]) -> bool {
        self.vars.iter().zip(d).all(|(v, d)| !(v.lb.is_some() && d.sign() < 0) && !(v.ub.is_some() && d.sign() > 0))
            && self.rows.iter().all(|r| {
                let a = r.activity(d).sign();
                !(r.lo().is_some() && a < 0) && !(r.hi().is_some() && a > 0)
            })
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        let _ = write!(s, "{} {}", if self.max { "max" } else { "min" }, self.fixed);
        for v in &self.vars {
            if !v.cost.is_zero() {
                let _ = write!(s, " + ({}) {}", v.cost, v.name);
            }
        }
        s.push('\n');
        for r in &self.rows {
            let _ = write!(s, "  {}: ", r.name);
            if let Rel::Rng(_) = r.rel {
                let _ = write!(s, "{} <= ", r.lo().unwrap());
            }
            for (j, a) in &r.coef {
                let _ = write!(s, "+ ({}) {} ", a, self.vars[*j].name);
            }
            let op = match r.rel {
                Rel::Ge => ">=",
                Rel::Eq => "=",
                _ => "<=",
            };
            let _ = writeln!(s, "{} {}", op, r.rhs);
        }
        for v in &self.vars {
            let f = |b: &Option<Rat>, i: &str| b.as_ref().map_or(i.to_string(), |x| x.to_string());
            let _ = writeln!(s, "  {} <= {} <= {}", f(&v.lb, "-inf"), v.name, f(&v.ub, "inf"));
        }
        s
    }
}
