//! Monitor of the network representation: the incidence system entry by entry, its arithmetic, and
//! shortest path and maximum flow problems solved through it against graph algorithms.
#![feature(impl_trait_in_assoc_type)]
use num_traits::Zero;
use relp::algorithm::two_phase::matrix_provider::column::identity::Identity;
use relp::algorithm::two_phase::matrix_provider::column::{Column, SparseSliceIterator};
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::IntoFilteredColumn;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::phase_one::PartialInitialBasis;
use relp::algorithm::two_phase::tableau::inverse_maintenance::InverseMaintainer;
use relp::algorithm::{OptimizationResult, SolveRelaxation};
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder};
use relp::data::linear_algebra::traits::{SparseComparator, SparseElement};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp::data::linear_program::elements::BoundDirection;
use relp::data::linear_program::network::representation::{ArcDirection, ArcIncidenceColumn, IncidenceMatrix};
use relp_num::{Binary, Rational64};
use relp_verif::big::Rat;
use relp_verif::drv::{guarded, main as run, Ctx, Prop, Res};
use relp_verif::graph::Graph;
use relp_verif::iface::{from, system, to_rb, Lu, Rows, RB};
use relp_verif::mk;
use relp_verif::rng::Rng;
use relp_verif::watch::{self, Level, Rec, Watch};
use std::ops::{Add, Mul};

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

// Graphs

fn random(r: &mut Rng, most: usize) -> Graph {
    let n = 2 + r.below(most);
    let mut has = vec![vec![false; n]; n];
    match r.below(6) {
        0 => {
            // Sparse, often disconnected.
            for _ in 0..r.below(n + 2) {
                let (a, b) = (r.below(n), r.below(n));
                has[a][b] = true;
            }
        }
        1 => {
            // Dense.
            for row in &mut has {
                for x in row.iter_mut() {
                    *x = r.chance(4, 5);
                }
            }
        }
        2 => {
            // Layers: many parallel paths of the same number of arcs.
            let k = 1 + r.below(4);
            for a in 0..n {
                for b in 0..n {
                    has[a][b] = b / k == a / k + 1 && r.chance(4, 5);
                }
            }
        }
        3 => {
            // A grid with arcs both ways.
            let w = 1 + r.below(4);
            for a in 0..n {
                for b in [a + 1, a + w] {
                    if b < n {
                        has[a][b] = r.chance(5, 6);
                        has[b][a] = r.chance(1, 3);
                    }
                }
            }
        }
        4 => {
            // A long path or cycle with some chords.
            for a in 0..n {
                has[a][(a + 1) % n] = a + 1 < n || r.chance(1, 2);
                if r.chance(1, 3) {
                    has[a][r.below(n)] = true;
                }
            }
        }
        _ => {
            let p = 1 + r.below(5);
            for row in &mut has {
                for x in row.iter_mut() {
                    *x = r.chance(p, 6);
                }
            }
        }
    }
    let mut names: Vec<usize> = (0..n).collect();
    if r.chance(2, 3) {
        r.shuffle(&mut names);
    }
    let mut arcs = vec![];
    for a in 0..n {
        for b in 0..n {
            if a != b && has[names[a]][names[b]] {
                arcs.push((a, b, Rat::one()));
            }
        }
    }
    Graph { n, arcs }
}
/// Around a hundred vertices of low degree.
fn wide(r: &mut Rng, most: i64) -> Graph {
    let n = r.range(40, most) as usize;
    let mut names: Vec<usize> = (0..n).collect();
    if r.chance(2, 3) {
        r.shuffle(&mut names);
    }
    let w = 2 + r.below(10);
    let grid = r.chance(1, 2);
    let mut arcs = vec![];
    for a in 0..n {
        if a + 1 < n && r.chance(9, 10) {
            arcs.push((names[a], names[a + 1]));
        }
        if grid && a + w < n && r.chance(3, 4) {
            arcs.push((names[a], names[a + w]));
        }
        if r.chance(1, if grid { 8 } else { 2 }) {
            arcs.push((names[a], names[r.below(n)]));
        }
    }
    arcs.retain(|a| a.0 != a.1);
    arcs.sort_unstable();
    arcs.dedup();
    Graph { n, arcs: arcs.into_iter().map(|(a, b)| (a, b, Rat::one())).collect() }
}
fn values(r: &mut Rng, g: &mut Graph, negative: bool) -> bool {
    let style = r.below(5);
    for e in &mut g.arcs {
        e.2 = match style {
            0 => Rat::one(),
            1 => Rat::int(r.range(0, 2)),
            2 => Rat::new(r.range(0, 30), r.range(1, 6)),
            3 => Rat::int(r.range(0, 1_000_000)),
            _ => Rat::int(r.range(0, 9)),
        };
        if negative && r.chance(1, 4) {
            e.2 = e.2.neg();
        }
    }
    style != 2
}

/// The matrix, checked against its definition. The graph's values may be zero: the matrix gets
/// nonzero values that identify the arcs.
fn incidence(ctx: &mut Ctx, g: &Graph, removed: &[usize]) -> Result<IncidenceMatrix, String> {
    let mut data: Vec<Vec<(usize, RB)>> = vec![vec![]; g.n];
    let tag = |k: usize| Rat::new(k as i64 + 1, 7);
    for (k, (a, b, _)) in g.arcs.iter().enumerate() {
        data[*a].push((*b, to_rb(&tag(k))));
    }
    let (m, v) = IncidenceMatrix::new(ColumnMajor::new(data, g.n, g.n), removed.to_vec());
    ensure!(m.nr_vertices() == g.n, "{} vertices reported for {}", m.nr_vertices(), g.n);
    ensure!(m.nr_edges() == g.arcs.len(), "{} arcs reported for {}", m.nr_edges(), g.arcs.len());
    ensure!(Vector::len(&v) == g.arcs.len(), "{} values for {} arcs", Vector::len(&v), g.arcs.len());
    for (k, (a, b, _)) in g.arcs.iter().enumerate() {
        ensure!(from(&v[k]) == tag(k), "arc {k} ({a} to {b}) got the value {} instead of {}", v[k], tag(k));
        let place = |x: usize| (!removed.contains(&x)).then(|| x - removed.iter().filter(|&&y| y < x).count());
        let mut truth: Vec<(usize, ArcDirection)> = vec![];
        truth.extend(place(*a).map(|i| (i, ArcDirection::Outgoing)));
        truth.extend(place(*b).map(|i| (i, ArcDirection::Incoming)));
        truth.sort_by_key(|e| e.0);
        let c = m.column(k);
        ensure!(c == truth, "column of arc {a} to {b} is {c:?}, should be {truth:?} (removed {removed:?})");
        ctx.count("incidence columns");
    }
    Ok(m)
}
fn column_checks(ctx: &mut Ctx, m: &IncidenceMatrix, rows: usize) -> Res {
    if m.nr_edges() > 0 {
        let j = ctx.r.below(m.nr_edges());
        let truth = m.column(j);
        let c = ArcIncidenceColumn(truth.clone());
        let read: Vec<(usize, ArcDirection)> = c.iter().map(|(i, d)| (i, d.clone())).collect();
        ensure!(read == truth, "the column {truth:?} iterates as {read:?}");
        for i in 0..rows {
            let s = truth.iter().find(|e| e.0 == i).map_or("0", |e| if e.1 == ArcDirection::Incoming { "1" } else { "-1" });
            ensure!(c.index_to_string(i) == s, "row {i} of {truth:?} prints as {}", c.index_to_string(i));
        }
        let gone: Vec<usize> = (0..rows).filter(|_| ctx.r.chance(1, 3)).collect();
        let left: Vec<(usize, ArcDirection)> = c.clone().into_filtered(&gone).into_iter().collect();
        let expected: Vec<(usize, ArcDirection)> = truth
            .iter()
            .filter(|e| !gone.contains(&e.0))
            .map(|e| (e.0 - gone.iter().filter(|&&k| k < e.0).count(), e.1.clone()))
            .collect();
        ensure!(left == expected, "{truth:?} without rows {gone:?} is {left:?}");
        let owned: Vec<(usize, ArcDirection)> = c.into_iter().collect();
        ensure!(owned == truth, "the column {truth:?} moves out as {owned:?}");
        ctx.count("columns read");
    }
    if rows > 0 {
        let i = ctx.r.below(rows);
        let e: Vec<(usize, ArcDirection)> = ArcIncidenceColumn::identity(i, rows).into_iter().collect();
        ensure!(e == vec![(i, ArcDirection::Incoming)], "identity column {i} is {e:?}");
    }
    Ok(())
}
fn arithmetic(ctx: &mut Ctx) -> Res {
    let x = match ctx.r.below(8) {
        0 => Rat::zero(),
        1 => Rat::one(),
        2 => Rat::one().neg(),
        3 => Rat::new(ctx.r.range(-3, 3), 2),
        4 => Rat::int(ctx.r.range(-4_000_000_000_000_000_000, 4_000_000_000_000_000_000)).mul(&Rat::int(ctx.r.range(-1000, 1000))),
        _ => mk::number(&mut ctx.r, true),
    };
    let d = if ctx.r.chance(1, 2) { ArcDirection::Incoming } else { ArcDirection::Outgoing };
    let v = if d == ArcDirection::Incoming { Rat::one() } else { Rat::one().neg() };
    let a = to_rb(&x);
    macro_rules! same {
        ($what:expr, $got:expr, $truth:expr) => {{
            let got = from(&$got);
            let truth = $truth;
            ensure!(got == truth, "{} of {x} and {d:?} is {got}, should be {truth}", $what);
            ctx.count("arithmetic checked");
        }};
    }
    same!("sum", a.clone() + &d, x.add(&v));
    same!("sum", a.clone() + d.clone(), x.add(&v));
    same!("difference", a.clone() - &d, x.sub(&v));
    same!("difference", a.clone() - d.clone(), x.sub(&v));
    same!("product", a.clone() * &d, x.mul(&v));
    same!("product", a.clone() * d.clone(), x.mul(&v));
    same!("product", &a * &d, x.mul(&v));
    same!("quotient", a.clone() / &d, x.mul(&v));
    same!("quotient", a.clone() / d.clone(), x.mul(&v));
    macro_rules! assign {
        ($what:expr, $op:tt, $truth:expr) => {{
            let mut y = a.clone();
            y $op &d;
            same!($what, y, $truth);
            let mut y = a.clone();
            y $op d.clone();
            same!($what, y, $truth);
        }};
    }
    assign!("sum in place", +=, x.add(&v));
    assign!("difference in place", -=, x.sub(&v));
    assign!("product in place", *=, x.mul(&v));
    assign!("quotient in place", /=, x.mul(&v));
    same!("value", RB::from(&d), v.clone());
    same!("value", RB::from(d.clone()), v.clone());
    ensure!(d.to_string() == v.to_string(), "{d:?} prints as {d}");
    ensure!(relp_num::NonZero::is_not_zero(&d), "{d:?} is zero");
    Ok(())
}

// Shortest path: ship one unit from s to t

struct Path<C> {
    m: IncidenceMatrix,
    cost: Vec<C>,
    /// Row of the target.
    t: usize,
}
impl<C: 'static> MatrixProvider for Path<C>
where
    for<'x> RB: Add<&'x C, Output = RB> + Mul<&'x C, Output = RB>,
{
    type Column = ArcIncidenceColumn;
    type Cost<'a> = &'a C;
    type Rhs = Binary;
    fn column(&self, j: usize) -> ArcIncidenceColumn {
        ArcIncidenceColumn(self.m.column(j))
    }
    fn cost_value(&self, j: usize) -> &C {
        &self.cost[j]
    }
    fn right_hand_side(&self) -> DenseVector<Binary> {
        let mut b = DenseVector::constant(Binary::Zero, self.nr_rows());
        b[self.t] = Binary::One;
        b
    }
    fn bound_row_index(&self, _: usize, _: BoundDirection) -> Option<usize> {
        None
    }
    fn nr_constraints(&self) -> usize {
        self.m.nr_vertices() - 1
    }
    fn nr_variable_bounds(&self) -> usize {
        0
    }
    fn nr_columns(&self) -> usize {
        self.m.nr_edges()
    }
    fn reconstruct_solution<H: SparseElement<H> + SparseComparator>(&self, v: SparseVector<H, H>) -> SparseVector<H, H> {
        v
    }
}
fn observed(ctx: &mut Ctx) {
    let rec = watch::record();
    ctx.add("basis changes", rec.pivots[0] + rec.pivots[1]);
    ctx.add("degenerate basis changes", rec.degenerate);
    ctx.add("redundant rows removed", rec.rows_removed);
}
fn recorder(ctx: &mut Ctx, n: usize) {
    let mut rec = Rec::new(if ctx.r.chance(1, 3) { Level::Full } else { Level::Light });
    rec.memoryless = false;
    rec.limit = 2000 + 200 * n as u64;
    if n > 60 {
        rec.level = Level::Light;
    }
    watch::reset(rec);
}
fn full(v: &SparseVector<RB, RB>) -> Vec<Rat> {
    let mut x = vec![Rat::zero(); Vector::len(v)];
    for (i, e) in v.iter() {
        x[i] = from(e);
    }
    x
}
fn run_path<C: 'static, IM: InverseMaintainer<F = RB>>(p: &Path<C>) -> OptimizationResult<RB>
where
    for<'x> RB: Add<&'x C, Output = RB> + Mul<&'x C, Output = RB>,
    for<'x, 'y> &'y RB: Mul<&'x C, Output = RB>,
{
    p.solve_relaxation::<Watch<IM>>()
}
fn shortest_path(ctx: &mut Ctx) -> Res {
    let most = if ctx.r.chance(1, 8) { 14 } else { 7 };
    let large = ctx.r.chance(1, 300);
    let mut g = if large { wide(&mut ctx.r, 120) } else { random(&mut ctx.r, most) };
    let negative = !large && ctx.r.chance(1, 5);
    let integral = values(&mut ctx.r, &mut g, negative);
    let s = ctx.r.below(g.n);
    let t = (s + 1 + ctx.r.below(g.n - 1)) % g.n;
    ctx.describe(format!("shortest path from {s} to {t}: {}", g.show()));
    let m = incidence(ctx, &g, &[s])?;
    let row = if t < s { t } else { t - 1 };
    recorder(ctx, g.arcs.len());
    let lu = ctx.r.chance(1, 2);
    let small = integral && ctx.r.chance(1, 2);
    let result = if small {
        let cost: Vec<Rational64> = g.arcs.iter().map(|e| e.2.to_string().parse().unwrap_or_else(|_| panic!("harness: number"))).collect();
        let p = Path { m, cost, t: row };
        guarded(|| if lu { run_path::<_, Lu>(&p) } else { run_path::<_, Rows>(&p) })?
    } else {
        let p = Path { m, cost: g.arcs.iter().map(|e| to_rb(&e.2)).collect::<Vec<RB>>(), t: row };
        let sys = system(&p);
        ensure!(sys.rows.len() == g.n - 1 && sys.vars.len() == g.arcs.len(), "the system has {} rows and {} columns", sys.rows.len(), sys.vars.len());
        guarded(|| if lu { run_path::<_, Lu>(&p) } else { run_path::<_, Rows>(&p) })?
    };
    observed(ctx);
    let reach = g.reachable(s)[t];
    let truth = if !reach {
        "infeasible"
    } else if g.potentials().is_none() {
        "unbounded"
    } else {
        "optimal"
    };
    ctx.count(&format!("{}paths {truth}", if large { "large, " } else { "" }));
    ctx.nontrivial(&format!("sp {} {} {truth} {:?} {lu}", g.n, g.arcs.len(), watch::record().pivots));
    let x = match result {
        OptimizationResult::Infeasible => {
            ensure!(truth == "infeasible", "reported infeasible, but the problem is {truth}");
            return Ok(());
        }
        OptimizationResult::Unbounded => {
            ensure!(truth == "unbounded", "reported unbounded, but the problem is {truth}");
            return Ok(());
        }
        OptimizationResult::FiniteOptimum(v) => {
            ensure!(truth == "optimal", "reported an optimum, but the problem is {truth}");
            full(&v)
        }
    };
    ensure!(x.len() == g.arcs.len(), "{} values for {} arcs", x.len(), g.arcs.len());
    let mut net = vec![Rat::zero(); g.n];
    let mut length = Rat::zero();
    for ((a, b, v), x) in g.arcs.iter().zip(&x) {
        ensure!(x.is_zero() || *x == Rat::one(), "arc {a} to {b} is used {x} times");
        net[*a] = net[*a].sub(x);
        net[*b] = net[*b].add(x);
        length = length.add(&v.mul(x));
    }
    for (v, b) in net.iter().enumerate() {
        let truth = if v == s { Rat::one().neg() } else if v == t { Rat::one() } else { Rat::zero() };
        ensure!(*b == truth, "vertex {v} has net inflow {b}");
    }
    let d = g.distances(s)[t].clone().unwrap();
    ensure!(length == d, "path of length {length}, the shortest has {d}");
    ctx.sample(format!("shortest path {s} to {t} of length {d} in {}", g.show()));
    Ok(())
}

// Maximum flow

#[derive(Debug, Clone, Copy)]
enum Price {
    Zero,
    One,
    MinusOne,
}
impl Add<Price> for RB {
    type Output = RB;
    fn add(self, p: Price) -> RB {
        match p {
            Price::Zero => self,
            Price::One => self + RB::from(1),
            Price::MinusOne => self - RB::from(1),
        }
    }
}
impl Mul<Price> for RB {
    type Output = RB;
    fn mul(self, p: Price) -> RB {
        &self * p
    }
}
impl Mul<Price> for &RB {
    type Output = RB;
    fn mul(self, p: Price) -> RB {
        match p {
            Price::Zero => RB::zero(),
            Price::One => self.clone(),
            Price::MinusOne => -self,
        }
    }
}
#[derive(Debug, Clone)]
struct FlowColumn(Vec<(usize, ArcDirection)>);
impl IntoIterator for FlowColumn {
    type Item = (usize, ArcDirection);
    type IntoIter = std::vec::IntoIter<(usize, ArcDirection)>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl Column for FlowColumn {
    type F = ArcDirection;
    type Iter<'a> = SparseSliceIterator<'a, ArcDirection>;
    fn iter(&self) -> Self::Iter<'_> {
        SparseSliceIterator::new(&self.0)
    }
    fn index_to_string(&self, i: usize) -> String {
        self.0.iter().find(|e| e.0 == i).map_or("0".to_string(), |e| e.1.to_string())
    }
}
impl Identity for FlowColumn {
    fn identity(i: usize, _: usize) -> Self {
        FlowColumn(vec![(i, ArcDirection::Incoming)])
    }
}
impl IntoFilteredColumn for FlowColumn {
    type Filtered = Self;
    fn into_filtered(self, gone: &[usize]) -> Self {
        FlowColumn(ArcIncidenceColumn(self.0).into_filtered(gone).into_iter().collect())
    }
}
struct Net {
    m: IncidenceMatrix,
    price: Vec<Price>,
    capacity: Vec<RB>,
}
macro_rules! flow_provider {
    ($t:ident) => {
        struct $t(Net);
        impl MatrixProvider for $t {
            type Column = FlowColumn;
            type Cost<'a> = Price;
            type Rhs = RB;
            fn column(&self, j: usize) -> FlowColumn {
                let e = self.0.m.nr_edges();
                let mut v = if j < e { self.0.m.column(j) } else { vec![] };
                v.push((self.nr_constraints() + j % e, ArcDirection::Incoming));
                FlowColumn(v)
            }
            fn cost_value(&self, j: usize) -> Price {
                self.0.price.get(j).copied().unwrap_or(Price::Zero)
            }
            fn right_hand_side(&self) -> DenseVector<RB> {
                let mut b = vec![RB::zero(); self.nr_constraints()];
                b.extend(self.0.capacity.iter().cloned());
                let n = b.len();
                DenseVector::new(b, n)
            }
            fn bound_row_index(&self, j: usize, t: BoundDirection) -> Option<usize> {
                (t == BoundDirection::Upper && j < self.0.m.nr_edges()).then(|| self.nr_constraints() + j)
            }
            fn nr_constraints(&self) -> usize {
                self.0.m.nr_vertices() - 2
            }
            fn nr_variable_bounds(&self) -> usize {
                self.0.m.nr_edges()
            }
            fn nr_columns(&self) -> usize {
                2 * self.0.m.nr_edges()
            }
            fn reconstruct_solution<H: SparseElement<H> + SparseComparator>(&self, v: SparseVector<H, H>) -> SparseVector<H, H> {
                v
            }
        }
    };
}
flow_provider!(Flow);
flow_provider!(FlowPartial);
impl PartialInitialBasis for FlowPartial {
    fn pivot_element_indices(&self) -> Vec<(usize, usize)> {
        (0..self.nr_initial_elements()).map(|j| (self.nr_constraints() + j, self.0.m.nr_edges() + j)).collect()
    }
    fn nr_initial_elements(&self) -> usize {
        self.0.m.nr_edges()
    }
}
fn max_flow(ctx: &mut Ctx) -> Res {
    let most = if ctx.r.chance(1, 8) { 8 } else { 5 };
    let large = ctx.r.chance(1, 2000);
    let mut g = if large { wide(&mut ctx.r, 75) } else { random(&mut ctx.r, most) };
    let integral = values(&mut ctx.r, &mut g, false);
    let s = ctx.r.below(g.n);
    let t = (s + 1 + ctx.r.below(g.n - 1)) % g.n;
    ctx.describe(format!("maximum flow from {s} to {t}: {}", g.show()));
    let gone = if ctx.r.chance(1, 2) { [s, t] } else { [t, s] };
    let m = incidence(ctx, &g, &gone)?;
    let price = g.arcs.iter().map(|(a, b, _)| if *a == s { Price::MinusOne } else if *b == s { Price::One } else { Price::Zero }).collect();
    let net = Net { m, price, capacity: g.arcs.iter().map(|e| to_rb(&e.2)).collect() };
    recorder(ctx, 2 * g.arcs.len());
    let (lu, partial) = (ctx.r.chance(1, 2), ctx.r.chance(2, 3));
    let result = if partial {
        let p = FlowPartial(net);
        guarded(|| if lu { p.solve_relaxation::<Watch<Lu>>() } else { p.solve_relaxation::<Watch<Rows>>() })?
    } else {
        let p = Flow(net);
        guarded(|| if lu { p.solve_relaxation::<Watch<Lu>>() } else { p.solve_relaxation::<Watch<Rows>>() })?
    };
    observed(ctx);
    let truth = g.max_flow(s, t);
    ctx.count(if truth.is_zero() { "flows zero" } else { "flows positive" });
    if large {
        ctx.count("large, flows");
    }
    ctx.nontrivial(&format!("mf {} {} {:?} {lu} {partial} {}", g.n, g.arcs.len(), watch::record().pivots, truth.is_zero()));
    let OptimizationResult::FiniteOptimum(v) = result else {
        return Err(format!("the problem was reported infeasible or unbounded, its optimal value is {truth}"));
    };
    let x = full(&v);
    let e = g.arcs.len();
    ensure!(x.len() == 2 * e, "{} values for {e} arcs and their slacks", x.len());
    let mut net = vec![Rat::zero(); g.n];
    for (k, (a, b, c)) in g.arcs.iter().enumerate() {
        ensure!(x[k].sign() >= 0 && x[k] <= *c, "arc {a} to {b} carries {} with capacity {c}", x[k]);
        ensure!(x[k].add(&x[e + k]) == *c, "arc {a} to {b} carries {} with slack {} and capacity {c}", x[k], x[e + k]);
        ensure!(!integral || !x[k].to_string().contains('/'), "arc {a} to {b} carries {} with integral capacities", x[k]);
        net[*a] = net[*a].sub(&x[k]);
        net[*b] = net[*b].add(&x[k]);
    }
    for (v, b) in net.iter().enumerate() {
        ensure!(v == s || v == t || b.is_zero(), "vertex {v} has net inflow {b}");
    }
    ensure!(net[t] == truth, "a flow of {} where {truth} is possible", net[t]);
    ctx.sample(format!("maximum flow {s} to {t} of {truth} in {}", g.show()));
    Ok(())
}

fn c14(ctx: &mut Ctx) -> Res {
    match ctx.r.below(5) {
        0 => {
            for _ in 0..5 {
                arithmetic(ctx)?;
            }
            let most = 1 + ctx.r.below(12);
            let mut g = if ctx.r.chance(1, 100) { wide(&mut ctx.r, 320) } else { random(&mut ctx.r, most) };
            values(&mut ctx.r, &mut g, true);
            let mut removed: Vec<usize> = (0..g.n).collect();
            ctx.r.shuffle(&mut removed);
            let k = ctx.r.below(g.n + 1);
            removed.truncate(k);
            ctx.describe(format!("incidence matrix without {removed:?}: {}", g.show()));
            ctx.nontrivial(&format!("in {} {} {k}", g.n, g.arcs.len()));
            let m = incidence(ctx, &g, &removed)?;
            column_checks(ctx, &m, g.n - k)
        }
        1 | 2 => shortest_path(ctx),
        _ => max_flow(ctx),
    }
}

fn main() {
    run(&[Prop {
        id: "C14",
        rule: "random digraphs (sparse, dense, layered, grids, cycles with chords; disconnected parts, zero, tied, fractional and negative values): the incidence matrix entry by entry for random removed rows, the arithmetic of its entries, and shortest path and maximum flow problems solved through it with both kinds of basis inverse, with and without partial initial basis, against Bellman-Ford and augmenting paths with a cut; distinct = kind of problem, size, number of basis changes, configuration",
        quick: 120000, thorough: 4000000, hang: 60, wall: (45, 780),
        floors: &[("large, paths optimal", 20), ("large, flows", 8), ("incidence columns", 20000), ("arithmetic checked", 10000), ("paths optimal", 1000), ("paths infeasible", 100), ("paths unbounded", 30), ("flows positive", 1000), ("flows zero", 100), ("redundant rows removed", 100), ("degenerate basis changes", 100)],
        assumptions: &["The graph algorithms and exact arithmetic of the harness are right; maximum flows are certified by a cut of the same value."],
        case: c14,
    }]);
}
