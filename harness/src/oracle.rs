//! Independent exact solver. Every verdict carries a certificate that is re-checked against the
//! problem as stated; an answer whose certificate does not check is a harness error, never a verdict.
use crate::big::Rat;
use crate::lp::{Lp, Rel};

#[derive(Clone, Debug)]
pub enum Truth {
    Infeasible { farkas: Option<Vec<Rat>> },
    Unbounded { point: Vec<Rat>, ray: Vec<Rat> },
    Optimal { x: Vec<Rat>, y: Vec<Rat>, obj: Rat },
}
impl Truth {
    pub fn kind(&self) -> &'static str {
        match self {
            Truth::Infeasible { .. } => "infeasible",
            Truth::Unbounded { .. } => "unbounded",
            Truth::Optimal { .. } => "optimal",
        }
    }
}

enum Map {
    Lower(usize, Rat),
    Upper(usize, Rat),
    Free(usize, usize),
}

struct Tab {
    a: Vec<Vec<Rat>>,
    b: Vec<Rat>,
    basis: Vec<usize>,
    pivots: usize,
}
impl Tab {
    fn pivot(&mut self, r: usize, c: usize, rows: &mut [&mut Vec<Rat>], vals: &mut [&mut Rat]) {
        self.pivots += 1;
        let inv = self.a[r][c].inv();
        for v in self.a[r].iter_mut() {
            if !v.is_zero() {
                *v = v.mul(&inv);
            }
        }
        self.b[r] = self.b[r].mul(&inv);
        let pr = self.a[r].clone();
        let pb = self.b[r].clone();
        let elim = |row: &mut Vec<Rat>, val: &mut Rat| {
            let f = row[c].clone();
            if f.is_zero() {
                return;
            }
            for (v, p) in row.iter_mut().zip(&pr) {
                if !p.is_zero() {
                    *v = v.sub(&f.mul(p));
                }
            }
            *val = val.sub(&f.mul(&pb));
        };
        for i in 0..self.a.len() {
            if i != r {
                elim(&mut self.a[i], &mut self.b[i]);
            }
        }
        for (row, val) in rows.iter_mut().zip(vals.iter_mut()) {
            elim(row, val);
        }
        self.basis[r] = c;
    }
    /// `Some(col)` if the objective is unbounded along that column.
    fn run(&mut self, z: &mut Vec<Rat>, zv: &mut Rat, z2: &mut Vec<Rat>, zv2: &mut Rat, ncols: usize) -> Option<usize> {
        let mut it = 0;
        loop {
            it += 1;
            // Most negative first, Bland once the run gets long enough to suspect cycling.
            let c = if it < 30 {
                let mut best: Option<usize> = None;
                for j in 0..ncols {
                    if z[j].sign() < 0 && best.map_or(true, |k| z[j] < z[k]) {
                        best = Some(j);
                    }
                }
                best
            } else {
                (0..ncols).find(|&j| z[j].sign() < 0)
            };
            let c = match c {
                None => return None,
                Some(c) => c,
            };
            let mut best: Option<(usize, Rat)> = None;
            for i in 0..self.a.len() {
                if self.a[i][c].sign() > 0 {
                    let q = self.b[i].div(&self.a[i][c]);
                    let better = match &best {
                        None => true,
                        Some((k, r)) => &q < r || (&q == r && self.basis[i] < self.basis[*k]),
                    };
                    if better {
                        best = Some((i, q));
                    }
                }
            }
            match best {
                None => return Some(c),
                Some((r, _)) => self.pivot(r, c, &mut [z, z2], &mut [zv, zv2]),
            }
        }
    }
}

pub fn solve(lp: &Lp) -> Truth {
    if lp.vars.iter().any(|v| matches!((&v.lb, &v.ub), (Some(l), Some(u)) if l > u)) {
        return Truth::Infeasible { farkas: None };
    }
    let costs = lp.min_costs();
    // Structural columns.
    let mut maps = vec![];
    let mut n = 0;
    let mut bound_rows: Vec<(usize, Rat)> = vec![];
    for v in &lp.vars {
        match (&v.lb, &v.ub) {
            (Some(l), u) => {
                maps.push(Map::Lower(n, l.clone()));
                if let Some(u) = u {
                    bound_rows.push((n, u.sub(l)));
                }
                n += 1;
            }
            (None, Some(u)) => {
                maps.push(Map::Upper(n, u.clone()));
                n += 1;
            }
            (None, None) => {
                maps.push(Map::Free(n, n + 1));
                n += 2;
            }
        }
    }
    let nstruct = n;
    let mut dense: Vec<(Vec<(usize, Rat)>, Rat)> = vec![];
    for r in &lp.rows {
        let mut b = r.rhs.clone();
        let mut row = vec![];
        for (j, a) in &r.coef {
            match &maps[*j] {
                Map::Lower(k, l) => {
                    b = b.sub(&a.mul(l));
                    row.push((*k, a.clone()));
                }
                Map::Upper(k, u) => {
                    b = b.sub(&a.mul(u));
                    row.push((*k, a.neg()));
                }
                Map::Free(k, l) => {
                    row.push((*k, a.clone()));
                    row.push((*l, a.neg()));
                }
            }
        }
        match &r.rel {
            Rel::Eq => {}
            Rel::Le => {
                row.push((n, Rat::one()));
                n += 1;
            }
            Rel::Ge => {
                row.push((n, Rat::int(-1)));
                n += 1;
            }
            Rel::Rng(w) => {
                row.push((n, Rat::one()));
                bound_rows.push((n, w.clone()));
                n += 1;
            }
        }
        dense.push((row, b));
    }
    for (k, w) in bound_rows {
        dense.push((vec![(k, Rat::one()), (n, Rat::one())], w));
        n += 1;
    }
    let m = dense.len();
    let mut flip = vec![false; m];
    let mut t = Tab { a: vec![], b: vec![], basis: (n..n + m).collect(), pivots: 0 };
    for (i, (row, b)) in dense.into_iter().enumerate() {
        flip[i] = b.sign() < 0;
        let mut d = vec![Rat::zero(); n + m];
        for (k, a) in row {
            d[k] = d[k].add(&if flip[i] { a.neg() } else { a });
        }
        d[n + i] = Rat::one();
        t.a.push(d);
        t.b.push(b.abs());
    }
    let mut z2 = vec![Rat::zero(); n + m];
    for (mp, c) in maps.iter().zip(&costs) {
        match mp {
            Map::Lower(k, _) => z2[*k] = c.clone(),
            Map::Upper(k, _) => z2[*k] = c.neg(),
            Map::Free(k, l) => {
                z2[*k] = c.clone();
                z2[*l] = c.neg();
            }
        }
    }
    let _ = nstruct;
    let mut zv2 = Rat::zero();
    let mut z1 = vec![Rat::zero(); n + m];
    let mut zv1 = Rat::zero();
    for i in 0..m {
        for k in 0..n {
            z1[k] = z1[k].sub(&t.a[i][k]);
        }
        zv1 = zv1.sub(&t.b[i]);
    }
    let unb = t.run(&mut z1, &mut zv1, &mut z2, &mut zv2, n);
    assert!(unb.is_none(), "oracle: phase one cannot be unbounded");
    let nrows = lp.rows.len();
    if !zv1.is_zero() {
        // y_i = 1 - z1[artificial i], up to the row flip
        let y: Vec<Rat> = (0..nrows)
            .map(|i| {
                let y = Rat::one().sub(&z1[n + i]);
                if flip[i] { y.neg() } else { y }
            })
            .collect();
        let zero = vec![Rat::zero(); lp.vars.len()];
        assert!(
            lp.dual_bound(&zero, &y).is_some_and(|b| b.sign() > 0),
            "oracle: Farkas certificate does not check"
        );
        return Truth::Infeasible { farkas: Some(y) };
    }
    // Drive artificials out.
    for i in 0..m {
        if t.basis[i] >= n {
            if let Some(c) = (0..n).find(|&c| !t.a[i][c].is_zero()) {
                t.pivot(i, c, &mut [&mut z1, &mut z2], &mut [&mut zv1, &mut zv2]);
            }
        }
    }
    let unb = t.run(&mut z2, &mut zv2, &mut z1, &mut zv1, n);
    let mut s = vec![Rat::zero(); n + m];
    for i in 0..m {
        s[t.basis[i]] = t.b[i].clone();
    }
    let back = |s: &Vec<Rat>, shift: bool| -> Vec<Rat> {
        maps.iter()
            .map(|mp| match mp {
                Map::Lower(k, l) => if shift { l.add(&s[*k]) } else { s[*k].clone() },
                Map::Upper(k, u) => if shift { u.sub(&s[*k]) } else { s[*k].neg() },
                Map::Free(k, l) => s[*k].sub(&s[*l]),
            })
            .collect()
    };
    let x = back(&s, true);
    assert!(lp.infeasibility(&x).is_none(), "oracle: point is not feasible: {:?}", lp.infeasibility(&x));
    if let Some(c) = unb {
        let mut d = vec![Rat::zero(); n + m];
        d[c] = Rat::one();
        for i in 0..m {
            d[t.basis[i]] = t.a[i][c].neg();
        }
        let ray = back(&d, false);
        let gain = ray.iter().zip(&costs).fold(Rat::zero(), |s, (r, c)| s.add(&r.mul(c)));
        assert!(gain.sign() < 0 && lp.is_ray(&ray), "oracle: ray does not check");
        return Truth::Unbounded { point: x, ray };
    }
    let y: Vec<Rat> = (0..nrows)
        .map(|i| {
            let y = z2[n + i].neg();
            if flip[i] { y.neg() } else { y }
        })
        .collect();
    let bound = lp.dual_bound(&costs, &y);
    let value = x.iter().zip(&costs).fold(Rat::zero(), |s, (r, c)| s.add(&r.mul(c)));
    assert!(bound.as_ref() == Some(&value), "oracle: dual certificate {:?} does not match {}", bound, value);
    let obj = lp.objective(&x);
    Truth::Optimal { x, y, obj }
}
