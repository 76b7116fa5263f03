//! Workload generators. Everything is a pure function of the generator state.
use crate::big::Rat;
use crate::lp::{Lp, Rel, Row, Var};
use crate::oracle::Truth;
use crate::rng::Rng;

/// How wild the numbers are.
#[derive(Clone, Copy, Debug)]
pub struct Shape {
    pub rows: (i64, i64),
    pub vars: (i64, i64),
    /// In 12ths.
    pub density: usize,
    pub frac: bool,
}

pub fn number(r: &mut Rng, frac: bool) -> Rat {
    let v = match r.below(10) {
        0..=5 => r.range(-3, 3),
        6..=8 => r.range(-9, 9),
        _ => r.range(-60, 60),
    };
    if frac && r.chance(1, 4) { Rat::new(v, r.range(1, 6)) } else { Rat::int(v) }
}
pub fn nonzero(r: &mut Rng, frac: bool) -> Rat {
    loop {
        let v = number(r, frac);
        if !v.is_zero() {
            return v;
        }
    }
}
pub fn positive(r: &mut Rng, frac: bool) -> Rat {
    nonzero(r, frac).abs()
}

/// Completely unconstrained random problem: any mix of relations and bounds.
pub fn small(r: &mut Rng, s: Shape) -> Lp {
    let m = r.range(s.rows.0, s.rows.1) as usize;
    let n = r.range(s.vars.0, s.vars.1) as usize;
    let style = r.below(8);
    let rel_bias = r.below(6);
    let bound_bias = r.below(6);
    let nonneg_coef = r.chance(1, 4);
    let mut rows: Vec<Row> = vec![];
    for i in 0..m {
        let mut coef = vec![];
        if i > 0 && r.chance(1, 12) {
            // a multiple of an earlier row: redundant or contradictory
            let f = nonzero(r, s.frac);
            let k = r.below(i);
            coef = rows[k].coef.iter().map(|(j, a)| (*j, a.mul(&f))).collect();
        } else {
            let density = if r.chance(1, 6) { 3 } else { s.density };
            for j in 0..n {
                if r.below(12) < density {
                    let a = match style {
                        0 => Rat::int(if r.chance(1, 2) { 1 } else { -1 }),
                        1 => Rat::one(),
                        _ => nonzero(r, s.frac),
                    };
                    coef.push((j, if nonneg_coef { a.abs() } else { a }));
                }
            }
        }
        let k = match rel_bias {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => 3,
            _ => r.below(4),
        };
        let rel = match if r.chance(1, 4) { r.below(4) } else { k } {
            0 => Rel::Le,
            1 => Rel::Ge,
            2 => Rel::Eq,
            _ => Rel::Rng(if r.chance(1, 10) { Rat::zero() } else { positive(r, s.frac) }),
        };
        let rhs = match r.below(6) {
            0 | 1 => Rat::zero(),
            2 => number(r, s.frac),
            _ => positive(r, s.frac),
        };
        rows.push(Row { name: format!("R{i}"), rel, rhs, coef });
    }
    let mut vars = vec![];
    for j in 0..n {
        let (lb, ub) = match match bound_bias {
            0 => 0,
            1 => 1,
            2 => 2,
            _ => r.below(10),
        } {
            0 | 3 | 4 => (Some(Rat::zero()), None),
            1 | 5 => (Some(Rat::zero()), Some(positive(r, s.frac))),
            2 | 6 => (None, None),
            7 => (Some(number(r, s.frac)), None),
            8 => (None, Some(number(r, s.frac))),
            _ => {
                let l = number(r, s.frac);
                let w = match r.below(8) {
                    0 => Rat::zero(),
                    1 if r.chance(1, 3) => positive(r, s.frac).neg(),
                    _ => positive(r, s.frac),
                };
                let u = l.add(&w);
                (Some(l), Some(u))
            }
        };
        let cost = if r.chance(1, 4) { Rat::zero() } else { number(r, s.frac) };
        vars.push(Var { name: format!("X{j}"), cost, lb, ub });
    }
    Lp { max: r.chance(1, 3), fixed: if r.chance(1, 3) { number(r, s.frac) } else { Rat::zero() }, rows, vars }
}

/// A random problem with a known feasible point, so that it is never infeasible.
pub fn feasible(r: &mut Rng, s: Shape) -> Lp {
    let mut lp = small(r, s);
    let point: Vec<Rat> = lp
        .vars
        .iter_mut()
        .map(|v| {
            if let (Some(l), Some(u)) = (&v.lb, &v.ub) {
                if l > u {
                    v.ub = Some(l.clone());
                }
            }
            let base = match (&v.lb, &v.ub) {
                (Some(l), Some(u)) => if r.chance(1, 2) { l.clone() } else { u.clone() },
                (Some(l), None) => if r.chance(1, 2) { l.clone() } else { l.add(&positive(r, s.frac)) },
                (None, Some(u)) => if r.chance(1, 2) { u.clone() } else { u.sub(&positive(r, s.frac)) },
                (None, None) => number(r, s.frac),
            };
            base
        })
        .collect();
    for row in &mut lp.rows {
        let a = row.activity(&point);
        let slack = if r.chance(1, 2) { Rat::zero() } else { positive(r, s.frac) };
        row.rhs = match &mut row.rel {
            Rel::Le => a.add(&slack),
            Rel::Ge => a.sub(&slack),
            Rel::Eq => a,
            Rel::Rng(w) => {
                if r.chance(1, 2) {
                    a
                } else if r.chance(1, 2) {
                    a.add(w)
                } else {
                    a.add(&w.div(&Rat::int(2)))
                }
            }
        };
    }
    lp
}

/// A problem with a finite optimum by construction: a primal point and multipliers are drawn first,
/// right-hand sides and costs follow from them.
pub fn optimal(r: &mut Rng, s: Shape) -> Lp {
    let mut lp = feasible(r, s);
    // rebuild costs as a nonnegative combination in the polar cone of the constraints
    let mut c = vec![Rat::zero(); lp.vars.len()];
    for row in &lp.rows {
        if r.chance(1, 3) {
            continue;
        }
        let y = match row.rel {
            Rel::Le => positive(r, s.frac).neg(),
            Rel::Ge => positive(r, s.frac),
            _ => nonzero(r, s.frac),
        };
        for (j, a) in &row.coef {
            c[*j] = c[*j].add(&y.mul(a));
        }
    }
    for (v, c) in lp.vars.iter_mut().zip(c.iter_mut()) {
        if r.chance(1, 2) {
            let d = match (&v.lb, &v.ub) {
                (Some(_), Some(_)) => nonzero(r, s.frac),
                (Some(_), None) => positive(r, s.frac),
                (None, Some(_)) => positive(r, s.frac).neg(),
                (None, None) => Rat::zero(),
            };
            *c = c.add(&d);
        }
        v.cost = if lp.max { c.neg() } else { c.clone() };
    }
    lp
}

pub fn any(r: &mut Rng, s: Shape) -> Lp {
    match r.below(10) {
        0..=3 => small(r, s),
        4..=6 => feasible(r, s),
        _ => optimal(r, s),
    }
}

pub fn shape_tiny(r: &mut Rng) -> Shape {
    Shape { rows: (0, 4), vars: (1, 5), density: *r.pick(&[4, 6, 8, 12]), frac: r.chance(1, 3) }
}
pub fn shape_small(r: &mut Rng) -> Shape {
    Shape { rows: (2, 7), vars: (2, 8), density: *r.pick(&[3, 5, 7, 12]), frac: r.chance(1, 3) }
}
pub fn shape_mid(r: &mut Rng) -> Shape {
    Shape { rows: (8, 16), vars: (8, 20), density: *r.pick(&[2, 3, 4, 6]), frac: r.chance(1, 4) }
}

/// Problems with the structure that particular rules and code paths look for.
pub fn structured(r: &mut Rng, big: bool) -> Lp {
    let lp = match r.below(9) {
        0 => chain(r, big),
        1 => transport(r, big),
        2 => forcing(r, big),
        3 => degenerate(r, big),
        4 => flow(r, big),
        5 => covering(r, big),
        6 => singletons(r, big),
        7 => weird(r),
        _ => equalities(r, big),
    };
    if r.chance(1, 3) { shuffled(r, &lp).0 } else { lp }
}
fn var(name: String, cost: i64, lb: Option<i64>, ub: Option<i64>) -> Var {
    Var { name, cost: Rat::int(cost), lb: lb.map(Rat::int), ub: ub.map(Rat::int) }
}
fn row(i: usize, rel: Rel, rhs: i64, coef: Vec<(usize, i64)>) -> Row {
    let mut coef: Vec<(usize, Rat)> = coef.into_iter().filter(|c| c.1 != 0).map(|(j, a)| (j, Rat::int(a))).collect();
    coef.sort_by_key(|c| c.0);
    coef.dedup_by_key(|c| c.0);
    Row { name: format!("R{i}"), rel, rhs: Rat::int(rhs), coef }
}
fn subset(r: &mut Rng, n: usize, num: usize, den: usize) -> Vec<usize> {
    (0..n).filter(|_| r.chance(num, den)).collect()
}
fn rel3(r: &mut Rng) -> Rel {
    match r.below(7) {
        0 | 1 => Rel::Le,
        2 | 3 => Rel::Ge,
        4 | 5 => Rel::Eq,
        _ => Rel::Rng(Rat::int(r.range(0, 5))),
    }
}
/// Bounds that propagate from variable to variable, with fixed variables in between.
fn chain(r: &mut Rng, big: bool) -> Lp {
    let n = r.range(2, if big { 14 } else { 6 }) as usize;
    let mut vars = vec![];
    for j in 0..n {
        let (l, u) = match r.below(6) {
            0 => (None, None),
            1 => (Some(0), Some(r.range(0, 9))),
            2 => {
                let v = r.range(-4, 4);
                (Some(v), Some(v))
            }
            3 => (None, Some(r.range(-3, 9))),
            _ => (Some(r.range(-4, 2)), None),
        };
        vars.push(var(format!("X{j}"), r.range(-3, 3), l, u));
    }
    let mut rows = vec![];
    for j in 0..n - 1 {
        if r.chance(1, 8) {
            continue;
        }
        let (a, b) = (*r.pick(&[1, 1, 2, -1]), *r.pick(&[-1, -1, 1, -2]));
        let rel = rel3(r);
        rows.push(row(rows.len(), rel, r.range(-5, 5), vec![(j, a), (j + 1, b)]));
    }
    for _ in 0..r.below(3) {
        let j = r.below(n);
        let rel = rel3(r);
        rows.push(row(rows.len(), rel, r.range(-5, 8), vec![(j, *r.pick(&[1, -1, 2, 3]))]));
    }
    Lp { max: r.chance(1, 3), fixed: Rat::int(r.range(-2, 2)), rows, vars }
}
/// Rank deficient equality systems with many optimal solutions.
fn transport(r: &mut Rng, big: bool) -> Lp {
    let k = if big { 4 } else { 3 };
    let (s, d) = (r.range(1, k) as usize, r.range(1, k + 1) as usize);
    let mut vars = vec![];
    for i in 0..s {
        for j in 0..d {
            let u = if r.chance(1, 4) { Some(r.range(1, 6)) } else { None };
            vars.push(var(format!("F{i}{j}"), r.range(0, 9), Some(0), u));
        }
    }
    let demand: Vec<i64> = (0..d).map(|_| r.range(0, 6)).collect();
    let mut total: i64 = demand.iter().sum();
    let mut supply = vec![];
    for i in 0..s {
        let v = if i + 1 == s { total } else { r.range(0, total) };
        total -= v;
        supply.push(v);
    }
    if r.chance(1, 8) {
        supply[0] += 1;
    }
    let style = r.below(3);
    let mut rows = vec![];
    for i in 0..s {
        let rel = if style == 1 { Rel::Le } else { Rel::Eq };
        rows.push(row(rows.len(), rel, supply[i], (0..d).map(|j| (i * d + j, 1)).collect()));
    }
    for j in 0..d {
        let rel = if style == 2 { Rel::Ge } else { Rel::Eq };
        rows.push(row(rows.len(), rel, demand[j], (0..s).map(|i| (i * d + j, 1)).collect()));
    }
    Lp { max: r.chance(1, 8), fixed: Rat::zero(), rows, vars }
}
/// Constraints whose activity bounds equal, barely pass or barely miss the right-hand side.
fn forcing(r: &mut Rng, big: bool) -> Lp {
    let n = r.range(2, if big { 9 } else { 5 }) as usize;
    let mut vars = vec![];
    for j in 0..n {
        let l = r.range(-3, 3);
        let (l, u) = match r.below(6) {
            0 => (Some(l), None),
            1 => (None, Some(l)),
            _ => (Some(l), Some(l + r.range(0, 5))),
        };
        vars.push(var(format!("X{j}"), r.range(-4, 4), l, u));
    }
    let mut rows = vec![];
    for i in 0..r.range(1, if big { 7 } else { 4 }) as usize {
        let coef: Vec<(usize, i64)> = subset(r, n, 1, 2).into_iter().map(|j| (j, *r.pick(&[1, -1, 2, -2, 3]))).collect();
        let side = |max: bool| -> Option<i64> {
            let mut s = 0;
            for (j, a) in &coef {
                let v: &Var = &vars[*j];
                let b = if (*a > 0) == max { &v.ub } else { &v.lb };
                s += a * b.as_ref()?.to_string().parse::<i64>().ok()?;
            }
            Some(s)
        };
        let rel = rel3(r);
        let at_max = r.chance(1, 2);
        let base = side(at_max).or(side(!at_max)).unwrap_or(0);
        let rhs = base + *r.pick(&[0, 0, 0, 1, -1, 2, -2]);
        let rhs = if let (Rel::Rng(w), true) = (&rel, r.chance(1, 2)) { rhs + w.to_string().parse::<i64>().unwrap_or(0) } else { rhs };
        rows.push(row(i, rel, rhs, coef));
    }
    Lp { max: r.chance(1, 3), fixed: Rat::int(r.range(-2, 2)), rows, vars }
}
/// Many constraints tight at one vertex.
fn degenerate(r: &mut Rng, big: bool) -> Lp {
    let n = r.range(2, if big { 7 } else { 4 }) as usize;
    let vars: Vec<Var> = (0..n).map(|j| var(format!("X{j}"), r.range(-5, 3), Some(0), None)).collect();
    let mut rows = vec![];
    for i in 0..r.range(n as i64, if big { 12 } else { 6 }) as usize {
        let coef: Vec<(usize, i64)> = subset(r, n, 2, 3).into_iter().map(|j| (j, r.range(-4, 4))).collect();
        let rel = if r.chance(1, 6) { Rel::Eq } else { Rel::Le };
        rows.push(row(i, rel, 0, coef));
    }
    if r.chance(2, 3) {
        rows.push(row(rows.len(), Rel::Le, r.range(1, 9), (0..n).map(|j| (j, 1)).collect()));
    }
    Lp { max: false, fixed: Rat::zero(), rows, vars }
}
/// Conservation constraints on a random digraph.
fn flow(r: &mut Rng, big: bool) -> Lp {
    let k = r.range(2, if big { 7 } else { 4 }) as usize;
    let m = r.range(1, if big { 16 } else { 7 }) as usize;
    let mut vars = vec![];
    let mut arcs = vec![];
    for j in 0..m {
        let (a, b) = (r.below(k), r.below(k));
        if a == b {
            continue;
        }
        arcs.push((a, b));
        let u = if r.chance(1, 2) { Some(r.range(0, 8)) } else { None };
        vars.push(var(format!("A{j}"), r.range(-1, 6), Some(0), u));
    }
    let mut supply = vec![0i64; k];
    for _ in 0..2 {
        let (a, b, q) = (r.below(k), r.below(k), r.range(0, 4));
        supply[a] += q;
        supply[b] -= q;
    }
    let rows = (0..k)
        .map(|v| row(v, Rel::Eq, supply[v], arcs.iter().enumerate().filter(|(_, (a, b))| *a == v || *b == v).map(|(j, (a, _))| (j, if *a == v { 1 } else { -1 })).collect()))
        .collect();
    Lp { max: r.chance(1, 6), fixed: Rat::int(r.range(0, 3)), rows, vars }
}
fn covering(r: &mut Rng, big: bool) -> Lp {
    let n = r.range(2, if big { 14 } else { 6 }) as usize;
    let packing = r.chance(1, 2);
    let vars: Vec<Var> = (0..n).map(|j| var(format!("S{j}"), r.range(1, 6), Some(0), if r.chance(1, 3) { Some(1) } else { None })).collect();
    let rows = (0..r.range(1, if big { 12 } else { 5 }) as usize)
        .map(|i| {
            let coef = subset(r, n, 2, 5).into_iter().map(|j| (j, 1)).collect();
            row(i, if packing { Rel::Le } else { Rel::Ge }, 1, coef)
        })
        .collect();
    Lp { max: packing, fixed: Rat::zero(), rows, vars }
}
/// Column singletons in every type of constraint: candidates for the slack rule.
fn singletons(r: &mut Rng, big: bool) -> Lp {
    let base = r.range(1, if big { 6 } else { 3 }) as usize;
    let m = r.range(1, if big { 6 } else { 3 }) as usize;
    let mut vars: Vec<Var> = (0..base).map(|j| var(format!("X{j}"), r.range(-4, 4), Some(r.range(-2, 1)), if r.chance(1, 2) { Some(r.range(1, 6)) } else { None })).collect();
    let mut rows = vec![];
    for i in 0..m {
        let mut coef: Vec<(usize, i64)> = subset(r, base, 2, 3).into_iter().map(|j| (j, *r.pick(&[1, -1, 2, -3, 5]))).collect();
        for _ in 0..r.below(3) {
            let (l, u) = *r.pick(&[(Some(0), None), (None, None), (Some(-2), Some(3)), (None, Some(4)), (Some(1), Some(1)), (Some(0), Some(7))]);
            let cost = if r.chance(1, 2) { 0 } else { r.range(-4, 4) };
            coef.push((vars.len(), *r.pick(&[1, -1, 2, -2, 7])));
            vars.push(var(format!("S{}", vars.len()), cost, l, u));
        }
        let rel = rel3(r);
        rows.push(row(i, rel, r.range(-4, 9), coef));
    }
    Lp { max: r.chance(1, 3), fixed: Rat::int(r.range(-2, 2)), rows, vars }
}
/// Shapes at the edge of what is a problem at all.
pub fn weird(r: &mut Rng) -> Lp {
    let n = r.range(0, 4) as usize;
    let m = r.range(0, 4) as usize;
    let huge = r.chance(1, 4);
    let num = |r: &mut Rng| -> Rat {
        if huge && r.chance(1, 2) {
            let a = r.range(1, 1_000_000_007);
            let b = r.range(1, 1_000_000_009);
            let v = Rat::new(a, b);
            if r.chance(1, 2) { v.neg() } else { v }
        } else {
            Rat::int(r.range(-2, 2))
        }
    };
    let kind = r.below(6);
    let mut vars = vec![];
    for j in 0..n {
        let (lb, ub) = match if r.chance(1, 5) { r.below(6) } else { kind } {
            0 => (None, None),
            1 => {
                let v = num(r);
                (Some(v.clone()), Some(v))
            }
            2 => (Some(Rat::zero()), None),
            3 => (None, Some(num(r))),
            4 => (Some(num(r)), None),
            _ => {
                let (a, b) = (num(r), num(r));
                if a <= b { (Some(a), Some(b)) } else { (Some(b), Some(a)) }
            }
        };
        vars.push(Var { name: format!("X{j}"), cost: if r.chance(1, 3) { Rat::zero() } else { num(r) }, lb, ub });
    }
    let shape = r.below(5);
    let mut rows: Vec<Row> = vec![];
    for i in 0..m {
        let mut coef: Vec<(usize, Rat)> = match shape {
            0 => vec![],
            1 if n > 0 => vec![(r.below(n), num(r))],
            2 if i > 0 => {
                let f = num(r);
                rows[0].coef.iter().map(|(j, a)| (*j, a.mul(&f))).collect()
            }
            3 => (0..n).map(|j| (j, Rat::one())).collect(),
            _ => {
                let mut c = vec![];
                for j in 0..n {
                    if r.chance(1, 2) {
                        c.push((j, num(r)));
                    }
                }
                c
            }
        };
        coef.retain(|c| !c.1.is_zero());
        let rel = match r.below(4) {
            0 => Rel::Le,
            1 => Rel::Ge,
            2 => Rel::Eq,
            _ => Rel::Rng(num(r).abs()),
        };
        let rhs = if r.chance(1, 2) { Rat::zero() } else { num(r) };
        rows.push(Row { name: format!("R{i}"), rel, rhs, coef });
    }
    Lp { max: r.chance(1, 2), fixed: num(r), rows, vars }
}
/// Square or overdetermined consistent equality systems.
fn equalities(r: &mut Rng, big: bool) -> Lp {
    let n = r.range(1, if big { 10 } else { 5 }) as usize;
    let m = r.range(1, n as i64 + 2) as usize;
    let point: Vec<i64> = (0..n).map(|_| r.range(-3, 5)).collect();
    let vars: Vec<Var> = (0..n)
        .map(|j| {
            let (l, u) = match r.below(4) {
                0 => (None, None),
                1 => (Some(point[j]), None),
                _ => (Some(point[j] - r.range(0, 3)), Some(point[j] + r.range(0, 3))),
            };
            var(format!("X{j}"), r.range(-3, 3), l, u)
        })
        .collect();
    let mut rows: Vec<Row> = vec![];
    for i in 0..m {
        let coef: Vec<(usize, i64)> = subset(r, n, 1, 2).into_iter().map(|j| (j, r.range(-3, 3))).collect();
        let rhs = coef.iter().map(|(j, a)| a * point[*j]).sum::<i64>() + if r.chance(1, 40) { 1 } else { 0 };
        rows.push(row(i, Rel::Eq, rhs, coef));
    }
    if m > 1 && r.chance(1, 2) {
        // a combination of other rows
        let (a, b) = (r.below(m), r.below(m));
        let f = Rat::int(r.range(-2, 2));
        let mut d = vec![Rat::zero(); n];
        for (j, v) in &rows[a].coef {
            d[*j] = d[*j].add(v);
        }
        for (j, v) in &rows[b].coef {
            d[*j] = d[*j].add(&v.mul(&f));
        }
        let rhs = rows[a].rhs.add(&rows[b].rhs.mul(&f));
        rows.push(Row { name: format!("R{m}"), rel: Rel::Eq, rhs, coef: d.into_iter().enumerate().filter(|c| !c.1.is_zero()).collect() });
    }
    Lp { max: r.chance(1, 3), fixed: Rat::zero(), rows, vars }
}
/// The same problem with variables and rows in another order; also the new position of each variable.
pub fn shuffled(r: &mut Rng, lp: &Lp) -> (Lp, Vec<usize>) {
    let mut order: Vec<usize> = (0..lp.vars.len()).collect();
    r.shuffle(&mut order);
    let mut pos = vec![0; order.len()];
    for (k, &j) in order.iter().enumerate() {
        pos[j] = k;
    }
    let mut rows: Vec<Row> = lp
        .rows
        .iter()
        .map(|row| {
            let mut row = row.clone();
            for c in row.coef.iter_mut() {
                c.0 = pos[c.0];
            }
            row.coef.sort_by_key(|c| c.0);
            row
        })
        .collect();
    r.shuffle(&mut rows);
    (Lp { max: lp.max, fixed: lp.fixed.clone(), rows, vars: order.iter().map(|&j| lp.vars[j].clone()).collect() }, pos)
}
pub fn contradictory(lp: &Lp) -> bool {
    lp.vars.iter().any(|v| matches!((&v.lb, &v.ub), (Some(l), Some(u)) if l > u))
}
/// The bounds of contradictory variables made equal.
pub fn repair_bounds(lp: &mut Lp) {
    for v in &mut lp.vars {
        if let (Some(l), Some(u)) = (&v.lb, &v.ub) {
            if l > u {
                v.ub = Some(l.clone());
            }
        }
    }
}
/// The workload of the end-to-end monitors.
pub fn problem(r: &mut Rng) -> Lp {
    match r.below(12) {
        0..=2 => {
            let s = shape_tiny(r);
            any(r, s)
        }
        3..=5 => {
            let s = shape_small(r);
            any(r, s)
        }
        6 => {
            let s = shape_mid(r);
            any(r, s)
        }
        7..=9 => structured(r, false),
        10 => structured(r, true),
        _ if r.chance(1, 3) => long(r),
        _ => weird(r),
    }
}
/// Long in one direction, or both but with few entries: past every small capacity or threshold.
pub fn long(r: &mut Rng) -> Lp {
    let density = *r.pick(&[2, 4, 8, 12]);
    let frac = r.chance(1, 4);
    let s = match r.below(8) {
        0..=2 => Shape { rows: (1, 3), vars: (24, 90), density, frac },
        3..=5 => Shape { rows: (24, 90), vars: (1, 3), density, frac },
        6 => Shape { rows: (17, 26), vars: (17, 30), density: 1, frac: false },
        _ => Shape { rows: (12, 20), vars: (30, 45), density: 1, frac: false },
    };
    any(r, s)
}

/// Sizes beyond every small capacity: hundreds of rows or columns with few entries. The verdict, and the value of the
/// optimum, are known from the construction and certified.
pub fn large(r: &mut Rng) -> (Lp, Truth) {
    let (m, n) = match r.below(6) {
        0 => (r.range(150, 280), r.range(20, 60)),
        1 => (r.range(8, 25), r.range(260, 400)),
        2 => (r.range(66, 90), r.range(66, 140)),
        _ => (r.range(30, 70), r.range(40, 140)),
    };
    sized(r, m as usize, n as usize)
}
pub fn sized(r: &mut Rng, m: usize, n: usize) -> (Lp, Truth) {
    let banded = r.chance(1, 2);
    let entries = r.range(2, 4) as usize;
    let simple = r.chance(1, 2);
    let free = *r.pick(&[0, 0, 2, 5]);
    let upper = *r.pick(&[0, 3, 6]);
    let mut x: Vec<Rat> = vec![];
    let mut vars: Vec<Var> = vec![];
    for j in 0..n {
        let v = r.range(-4, 9);
        let (lb, ub, v) = match r.below(12) {
            k if k < free => (None, None, v),
            k if k < free + upper => (Some(v - r.range(0, 2)), Some(v + r.range(0, 2)), v),
            11 => (None, Some(v), v - r.range(0, 1)),
            _ => {
                let l = if simple { 0 } else { v };
                (Some(l), None, l + if r.chance(1, 2) { 0 } else { r.range(0, 6) })
            }
        };
        x.push(Rat::int(v));
        vars.push(Var { name: format!("X{j}"), cost: Rat::zero(), lb: lb.map(Rat::int), ub: ub.map(Rat::int) });
    }
    let mut rows: Vec<Row> = vec![];
    for i in 0..m {
        let k = 1 + r.below(entries);
        let mut at: Vec<usize> = (0..k).map(|_| if banded { (i * n / m + r.below(7)) % n } else { r.below(n) }).collect();
        if r.chance(1, 60) {
            // One dense row.
            at = (0..n).filter(|_| r.chance(1, 2)).collect();
        }
        at.sort_unstable();
        at.dedup();
        let coef: Vec<(usize, Rat)> = at.into_iter().map(|j| (j, Rat::int(*r.pick(&[1, 1, 1, -1, -1, 2, -2, 3])))).collect();
        let a = coef.iter().fold(Rat::zero(), |s, (j, c)| s.add(&c.mul(&x[*j])));
        let slack = Rat::int(if r.chance(1, 2) { 0 } else { r.range(1, 9) });
        let (rel, rhs) = match r.below(8) {
            0..=2 => (Rel::Le, a.add(&slack)),
            3..=4 => (Rel::Ge, a.sub(&slack)),
            5..=6 => (Rel::Eq, a),
            _ => {
                let w = Rat::int(r.range(1, 6)).add(&slack);
                (Rel::Rng(w), a.add(&slack))
            }
        };
        rows.push(Row { name: format!("R{i}"), rel, rhs, coef });
    }
    // Multipliers of binding constraints and bounds only: the point is optimal.
    let mut y = vec![Rat::zero(); m];
    for (row, y) in rows.iter().zip(y.iter_mut()) {
        let a = row.activity(&x);
        let (low, high) = (row.lo().is_some_and(|l| l == a), row.hi().is_some_and(|u| u == a));
        if r.chance(1, 3) {
            continue;
        }
        let v = Rat::int(r.range(1, 4));
        *y = match (low, high) {
            (true, true) => if r.chance(1, 2) { v } else { v.neg() },
            (true, false) => v,
            (false, true) => v.neg(),
            _ => Rat::zero(),
        };
    }
    let mut cost = vec![Rat::zero(); n];
    for (row, y) in rows.iter().zip(&y) {
        for (j, a) in &row.coef {
            cost[*j] = cost[*j].add(&y.mul(a));
        }
    }
    let max = r.chance(1, 4);
    for j in 0..n {
        let v = &vars[j];
        let (low, high) = (v.lb.as_ref() == Some(&x[j]), v.ub.as_ref() == Some(&x[j]));
        let d = Rat::int(r.range(0, 3));
        cost[j] = cost[j].add(&match (low, high) {
            (true, true) => if r.chance(1, 2) { d } else { d.neg() },
            (true, false) => d,
            (false, true) => d.neg(),
            _ => Rat::zero(),
        });
        vars[j].cost = if max { cost[j].neg() } else { cost[j].clone() };
    }
    let mut lp = Lp { max, fixed: if r.chance(1, 2) { Rat::zero() } else { Rat::int(r.range(-5, 5)) }, rows, vars };
    let y = if max { y.iter().map(|v| v.neg()).collect() } else { y };
    assert!(lp.infeasibility(&x).is_none(), "harness: the point of a large problem is infeasible");
    let truth = match r.below(8) {
        0 => {
            // A combination of constraints contradicts one more constraint.
            let mut terms = vec![Rat::zero(); n];
            let mut low = Rat::zero();
            let mut used = 0;
            for row in &lp.rows {
                if let (true, Some(l)) = (r.chance(1, 1 + m / 6), row.lo()) {
                    used += 1;
                    let f = Rat::int(r.range(1, 2));
                    low = low.add(&f.mul(&l));
                    for (j, a) in &row.coef {
                        terms[*j] = terms[*j].add(&f.mul(a));
                    }
                }
            }
            let coef: Vec<(usize, Rat)> = terms.into_iter().enumerate().filter(|t| !t.1.is_zero()).collect();
            if used == 0 {
                let obj = lp.objective(&x);
                return (lp, Truth::Optimal { x, y, obj });
            }
            let at = r.below(lp.rows.len() + 1);
            lp.rows.insert(at, Row { name: "RX".into(), rel: Rel::Le, rhs: low.sub(&Rat::int(1)), coef });
            Truth::Infeasible { farkas: None }
        }
        1 => {
            // One more variable that no constraint limits.
            let mut ray = vec![Rat::zero(); n + 1];
            ray[n] = Rat::one();
            for row in lp.rows.iter_mut() {
                let sign = match row.rel {
                    Rel::Le => -1,
                    Rel::Ge => 1,
                    _ => continue,
                };
                if r.chance(1, 6) {
                    row.coef.push((n, Rat::int(sign * r.range(1, 3))));
                }
            }
            lp.vars.push(Var { name: "XX".into(), cost: Rat::int(if max { 1 } else { -1 }), lb: Some(Rat::zero()), ub: None });
            x.push(Rat::zero());
            Truth::Unbounded { point: x, ray }
        }
        _ => {
            let obj = lp.objective(&x);
            Truth::Optimal { x, y, obj }
        }
    };
    (lp, truth)
}
