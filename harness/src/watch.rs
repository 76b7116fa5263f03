//! An inverse maintainer that forwards to the real one and checks every basis change it sees.
//!
//! It is plugged into the real solver through its public type parameter; what it observes is
//! compared with plain dense algebra over the columns, costs and right-hand side of the problem.
use crate::big::Rat;
use crate::dense::{dot, inverse, mul_vec, show, transpose, vec_mul, Mat};
use crate::iface::{from, RB};
use num_traits::Zero;
use relp::algorithm::two_phase::matrix_provider::column::{Column, ColumnNumber};
use relp::algorithm::two_phase::matrix_provider::filter::Filtered;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::tableau::inverse_maintenance::{ops, ColumnComputationInfo, InverseMaintainer};
use relp::algorithm::two_phase::tableau::kind::Kind;
use relp::algorithm::two_phase::tableau::BasisChangeComputationInfo;
use relp::data::linear_algebra::traits::Element;
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp::data::linear_algebra::SparseTuple;
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::{Display, Formatter};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Level {
    /// Count basis changes, check the direction of the objective, detect repetition.
    Light,
    /// Also compare the whole state with dense algebra.
    Full,
}
#[derive(Clone, Debug)]
pub struct Rec {
    pub level: Level,
    /// The pivot rule depends on the basis only, so a repeated basis is an endless loop.
    pub memoryless: bool,
    /// More basis changes than this in one phase is reported.
    pub limit: u64,
    pub pivots: [u64; 2],
    pub degenerate: u64,
    /// Of several rows with the least ratio, the one with the lowest basis column has to be chosen.
    pub lowest: bool,
    pub ties: u64,
    pub threefold: u64,
    pub driven_out: u64,
    pub transitions: u64,
    pub rows_removed: u64,
    pub checked: u64,
    /// 1 or 2, 0 before anything was created.
    pub phase: usize,
    pub nr_artificial: usize,
    pub basis: Vec<usize>,
    pub seen: HashSet<Vec<usize>>,
    pub max_bits: usize,
    /// Costs of the current phase, one per column in phase two, empty in phase one.
    pub costs: Vec<Rat>,
    /// Compare the whole state at every basis change up to this many and at every tenth after.
    pub dense: u64,
}
impl Rec {
    pub fn new(level: Level) -> Rec {
        Rec {
            level,
            memoryless: true,
            limit: u64::MAX,
            pivots: [0, 0],
            degenerate: 0,
            lowest: false,
            ties: 0,
            threefold: 0,
            driven_out: 0,
            transitions: 0,
            rows_removed: 0,
            checked: 0,
            phase: 0,
            nr_artificial: 0,
            basis: vec![],
            seen: HashSet::new(),
            max_bits: 0,
            costs: vec![],
            dense: u64::MAX,
        }
    }
}
thread_local! {
    static REC: RefCell<Rec> = RefCell::new(Rec::new(Level::Light));
}
pub fn reset(rec: Rec) {
    REC.with(|r| *r.borrow_mut() = rec);
}
pub fn record() -> Rec {
    REC.with(|r| r.borrow().clone())
}
pub fn with<T>(f: impl FnOnce(&mut Rec) -> T) -> T {
    REC.with(|r| f(&mut r.borrow_mut()))
}
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !$c { panic!("monitor: {}", format!($($t)*)) } };
}

pub struct Watch<IM> {
    pub inner: IM,
    rhs: Vec<Rat>,
    /// Phase two costs.
    costs: Vec<Rat>,
    phase: usize,
    nr_artificial: usize,
}
impl<IM: Display> Display for Watch<IM> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        self.inner.fmt(f)
    }
}
/// Exact copy of a sparse vector.
pub fn full<F: Display + ops::Field>(v: &SparseVector<F, F>) -> Vec<Rat> {
    let mut out = vec![Rat::zero(); Vector::len(v)];
    for (i, x) in v.iter() {
        out[i] = from(x);
    }
    out
}
pub fn column_of<F, C: Column>(c: &C, m: usize) -> Vec<Rat>
where
    F: ops::Field + ops::Column<C::F>,
{
    let mut out = vec![Rat::zero(); m];
    for (i, x) in c.iter() {
        check!(i < m, "a column of a problem with {m} rows has an entry in row {i}");
        out[i] = from(&F::from(x));
    }
    out
}
fn rhs_of<F, R>(rhs: &DenseVector<R>) -> Vec<Rat>
where
    F: ops::Field + ops::Rhs<R>,
{
    rhs.iter().map(|v| from(&(F::zero() + v))).collect()
}

impl<IM: InverseMaintainer<F = RB>> Watch<IM> {
    fn m(&self) -> usize {
        self.rhs.len()
    }
    fn basis(&self) -> Vec<usize> {
        (0..self.m()).map(|i| self.inner.basis_column_index_for_row(i)).collect()
    }
    fn values(&self) -> Vec<Rat> {
        (0..self.m()).map(|i| from(self.inner.get_constraint_value(i))).collect()
    }
    fn objective(&self) -> Rat {
        from(&self.inner.get_objective_function_value())
    }
    fn cost(&self, j: usize) -> Rat {
        if self.phase == 1 {
            if j < self.nr_artificial { Rat::one() } else { Rat::zero() }
        } else {
            self.costs[j].clone()
        }
    }
    fn started(self) -> Self {
        let basis = self.basis();
        with(|r| {
            r.phase = self.phase;
            r.nr_artificial = self.nr_artificial;
            r.costs = self.costs.clone();
            r.seen.clear();
            r.seen.insert(basis.clone());
            r.basis = basis;
            if self.phase == 2 {
                r.transitions += 1;
            }
        });
        self
    }
    /// Everything that can be known without the columns.
    fn check_start(&self) {
        let b = self.values();
        check!(b.iter().all(|v| v.sign() >= 0), "phase {} starts with values {}", self.phase, show(&b));
        let basis = self.basis();
        let set: HashSet<usize> = basis.iter().copied().collect();
        check!(set.len() == basis.len(), "phase {} starts with a repeated basis column {:?}", self.phase, basis);
        let obj = basis.iter().zip(&b).fold(Rat::zero(), |s, (&j, v)| s.add(&self.cost(j).mul(v)));
        check!(obj == self.objective(), "phase {} starts with objective {} but the basic values cost {}", self.phase, self.objective(), obj);
        let values = self.inner.b();
        check!(values.iter().map(|v| from(v)).collect::<Vec<_>>() == b, "the two ways of reading the values differ");
    }
    /// The state of a basis against dense algebra.
    fn check_state(&self, a: &Mat, columns: &[Vec<Rat>], original: impl Fn(usize) -> Rat, generated: impl Fn(usize) -> Vec<Rat>) {
        let _ = a;
        let m = self.m();
        let basis = self.basis();
        let b_cols: Mat = basis.iter().map(|&j| columns[j].clone()).collect();
        let inv = inverse(&transpose(&b_cols));
        if m == 0 {
            return;
        }
        check!(inv.is_some(), "the basis {basis:?} is singular");
        let inv = inv.unwrap();
        let x = mul_vec(&inv, &self.rhs);
        check!(x == self.values(), "the values {} should be {} in basis {basis:?}", show(&self.values()), show(&x));
        let cb: Vec<Rat> = basis.iter().map(|&j| self.cost(j)).collect();
        check!(self.objective() == dot(&cb, &x), "objective {} should be {}", self.objective(), dot(&cb, &x));
        let y = vec_mul(&cb, &inv);
        for (j, c) in columns.iter().enumerate() {
            let truth = self.cost(j).sub(&dot(&y, c));
            check!(original(j) == truth, "relative cost of column {j} is {} but should be {truth} in phase {} basis {basis:?}", original(j), self.phase);
        }
        let stride = (columns.len() / 6).max(1);
        for j in (0..columns.len()).step_by(stride).chain(basis.iter().copied()) {
            let truth = mul_vec(&inv, &columns[j]);
            check!(generated(j) == truth, "column {j} is {} but should be {} in basis {basis:?}", show(&generated(j)), show(&truth));
        }
        // The current solution as it is handed out.
        let mut bfs: Vec<(usize, Rat)> = self.inner.current_bfs().iter().map(|(j, v)| (*j, from(v))).filter(|p| !p.1.is_zero()).collect();
        bfs.sort();
        let mut truth: Vec<(usize, Rat)> = basis.iter().copied().zip(x).filter(|p| !p.1.is_zero()).collect();
        truth.sort();
        check!(bfs == truth, "the current solution is given as {bfs:?} but should be {truth:?}");
        with(|r| r.checked += 1);
    }
    fn check_start_full<MP: MatrixProvider>(&self, provider: &MP)
    where
        RB: ops::Column<<MP::Column as Column>::F>,
    {
        self.check_start();
        if with(|r| r.level) == Level::Full {
            let cols: Vec<MP::Column> = (0..provider.nr_columns()).map(|j| provider.column(j)).collect();
            let columns: Vec<Vec<Rat>> = cols.iter().map(|c| column_of::<RB, _>(c, self.m())).collect();
            self.check_state(
                &vec![],
                &columns,
                |j| self.cost(j).add(&from(&self.inner.cost_difference(&cols[j]))),
                |j| full(self.inner.generate_column(provider.column(j)).column()),
            );
        }
    }
}
impl<IM: InverseMaintainer<F = RB>> InverseMaintainer for Watch<IM> {
    type F = RB;
    type ColumnComputationInfo = IM::ColumnComputationInfo;

    fn create_for_fully_artificial<Rhs: Element>(rhs: DenseVector<Rhs>) -> Self
    where
        Self::F: ops::Rhs<Rhs>,
    {
        let r = rhs_of::<RB, _>(&rhs);
        let m = r.len();
        let w = Watch { inner: IM::create_for_fully_artificial(rhs), rhs: r, costs: vec![], phase: 1, nr_artificial: m };
        w.check_start();
        w.started()
    }
    fn create_for_partially_artificial<G: Element>(artificial: &[usize], basis: &[(usize, usize)], b: DenseVector<G>, basis_indices: Vec<usize>) -> Self
    where
        Self::F: ops::Rhs<G>,
    {
        let r = rhs_of::<RB, _>(&b);
        let w = Watch {
            inner: IM::create_for_partially_artificial(artificial, basis, b, basis_indices),
            rhs: r,
            costs: vec![],
            phase: 1,
            nr_artificial: artificial.len(),
        };
        w.check_start();
        w.started()
    }
    fn from_basis<'a, MP: MatrixProvider>(basis: &[usize], provider: &'a MP) -> Self
    where
        Self::F: ops::Column<<MP::Column as Column>::F> + ops::Rhs<MP::Rhs> + ops::Cost<MP::Cost<'a>> + ops::Column<MP::Rhs>,
        MP::Rhs: 'static,
    {
        let w = Watch {
            inner: IM::from_basis(basis, provider),
            rhs: rhs_of::<RB, _>(&provider.right_hand_side()),
            costs: (0..provider.nr_columns()).map(|j| from(&(RB::zero() + provider.cost_value(j)))).collect(),
            phase: 2,
            nr_artificial: 0,
        };
        w.check_start_full(provider);
        w.started()
    }
    fn from_basis_pivots<'a, MP: MatrixProvider>(basis: &[(usize, usize)], provider: &'a MP) -> Self
    where
        Self::F: ops::Column<<MP::Column as Column>::F> + ops::Rhs<MP::Rhs> + ops::Cost<MP::Cost<'a>> + ops::Column<MP::Rhs>,
        MP::Rhs: 'static + ColumnNumber,
    {
        let w = Watch {
            inner: IM::from_basis_pivots(basis, provider),
            rhs: rhs_of::<RB, _>(&provider.right_hand_side()),
            costs: (0..provider.nr_columns()).map(|j| from(&(RB::zero() + provider.cost_value(j)))).collect(),
            phase: 2,
            nr_artificial: 0,
        };
        w.check_start_full(provider);
        w.started()
    }
    fn from_artificial<'provider, MP: MatrixProvider>(artificial: Self, provider: &'provider MP, nr_artificial: usize) -> Self
    where
        Self::F: ops::FieldHR + ops::Column<<MP::Column as Column>::F> + ops::Cost<MP::Cost<'provider>>,
    {
        check!(artificial.phase == 1 && artificial.nr_artificial == nr_artificial, "the number of artificial variables changed from {} to {nr_artificial}", artificial.nr_artificial);
        let before = artificial.basis();
        check!(before.iter().all(|&j| j >= nr_artificial), "an artificial variable is left in the basis {before:?} after phase one");
        let values = artificial.values();
        let rhs = artificial.rhs.clone();
        let w = Watch {
            inner: IM::from_artificial(artificial.inner, provider, nr_artificial),
            rhs,
            costs: (0..provider.nr_columns()).map(|j| from(&(RB::zero() + provider.cost_value(j)))).collect(),
            phase: 2,
            nr_artificial: 0,
        };
        check!(w.basis() == before.iter().map(|j| j - nr_artificial).collect::<Vec<_>>(), "the basis changed at the transition between the phases");
        check!(w.values() == values, "the values changed at the transition between the phases");
        w.check_start_full(provider);
        w.started()
    }
    fn from_artificial_remove_rows<'a, MP: Filtered>(artificial: Self, rows_removed: &'a MP, nr_artificial: usize) -> Self
    where
        Self::F: ops::Column<<<MP as MatrixProvider>::Column as Column>::F> + ops::Cost<MP::Cost<'a>>,
    {
        check!(artificial.phase == 1 && artificial.nr_artificial == nr_artificial, "the number of artificial variables changed from {} to {nr_artificial}", artificial.nr_artificial);
        let gone: HashSet<usize> = rows_removed.filtered_rows().iter().copied().collect();
        let before = artificial.basis();
        for (i, &j) in before.iter().enumerate() {
            check!(gone.contains(&i) == (j < nr_artificial), "row {i} with basis column {j} ({nr_artificial} artificial): removed is {}", gone.contains(&i));
        }
        let keep = |v: &[Rat]| -> Vec<Rat> { v.iter().enumerate().filter(|(i, _)| !gone.contains(i)).map(|(_, v)| v.clone()).collect() };
        let values = keep(&artificial.values());
        let rhs = keep(&artificial.rhs);
        let w = Watch {
            inner: IM::from_artificial_remove_rows(artificial.inner, rows_removed, nr_artificial),
            rhs,
            costs: (0..rows_removed.nr_columns()).map(|j| from(&(RB::zero() + rows_removed.cost_value(j)))).collect(),
            phase: 2,
            nr_artificial: 0,
        };
        with(|r| r.rows_removed += gone.len() as u64);
        let expected: Vec<usize> = before.iter().filter(|&&j| j >= nr_artificial).map(|j| j - nr_artificial).collect();
        check!(w.basis() == expected, "the basis changed from {expected:?} to {:?} when rows were dropped", w.basis());
        check!(w.values() == values, "the values changed when redundant rows were dropped");
        w.check_start_full(rows_removed);
        w.started()
    }
    fn change_basis<K: Kind>(&mut self, row: usize, q: usize, column: Self::ColumnComputationInfo, cost: Self::F, kind: &K) -> BasisChangeComputationInfo<Self::F>
    where
        Self::F: ops::Column<<<K as Kind>::Column as Column>::F>,
    {
        let level = with(|r| {
            let n = r.pivots[self.phase - 1];
            if r.level == Level::Full && n > r.dense && n % 10 != 0 && !(29..=34).contains(&(n % 31)) { Level::Light } else { r.level }
        });
        let phase = self.phase;
        let m = self.m();
        let basis = self.basis();
        let leaving = basis[row];
        let values = self.values();
        let objective = self.objective();
        let col = full(column.column());
        let rc = from(&cost);
        check!(!basis.contains(&q), "column {q} enters but is in the basis {basis:?} already");
        check!(!col[row].is_zero(), "pivot on a zero in row {row} of column {q}");
        let theta = values[row].div(&col[row]);
        // Zero-level pivots that only remove artificial variables after phase one succeeded.
        let driving_out = phase == 1 && objective.is_zero() && leaving < self.nr_artificial && theta.is_zero() && !(rc.sign() < 0 && col[row].sign() > 0);
        if !driving_out {
            check!(rc.sign() < 0, "column {q} enters in phase {phase} with relative cost {rc}");
            check!(col[row].sign() > 0, "pivot on {} in phase {phase}", col[row]);
            // Once phase one has reached zero, pivots may only serve to drive out artificial variables.
            if phase == 2 || !objective.is_zero() {
                let tied: Vec<usize> = (0..m).filter(|&i| col[i].sign() > 0 && values[i].div(&col[i]) == theta).map(|i| basis[i]).collect();
                if tied.len() > 1 {
                    let lowest = *tied.iter().min().unwrap();
                    with(|r| {
                        r.ties += 1;
                        r.threefold += (tied.len() > 2) as u64;
                        check!(!r.lowest || leaving == lowest, "column {leaving} leaves although {lowest} has the same ratio {theta}, columns {tied:?}");
                    });
                }
            }
        }
        check!(phase == 2 || q >= self.nr_artificial, "artificial variable {q} enters the basis");
        let expected: Vec<Rat> = (0..m).map(|i| if i == row { theta.clone() } else { values[i].sub(&col[i].mul(&theta)) }).collect();
        if level == Level::Full {
            let columns: Vec<Vec<Rat>> = (0..kind.nr_columns()).map(|j| column_of::<RB, _>(&kind.original_column(j), m)).collect();
            let b: Mat = transpose(&basis.iter().map(|&j| columns[j].clone()).collect::<Vec<_>>());
            check!(mul_vec(&b, &col) == columns[q], "the entering column {q} is {} which is not B^-1 times it", show(&col));
            let cb: Vec<Rat> = basis.iter().map(|&j| self.cost(j)).collect();
            let truth = self.cost(q).sub(&dot(&cb, &col));
            check!(truth == rc, "column {q} enters with relative cost {rc} but it is {truth}");
        }
        let info = self.inner.change_basis(row, q, column, cost, kind);
        let mut after = basis.clone();
        after[row] = q;
        check!(self.basis() == after, "after column {q} replaced {leaving} the basis is {:?}, not {after:?}", self.basis());
        check!(info.leaving_column_index == leaving && info.pivot_column_index == q && info.pivot_row_index == row, "a basis change is described wrongly");
        let now = self.values();
        check!(now == expected, "after column {q} entered in row {row} the values are {} but should be {}", show(&now), show(&expected));
        check!(now.iter().all(|v| v.sign() >= 0), "values {} after column {q} entered in row {row}", show(&now));
        let obj = self.objective();
        check!(obj == objective.add(&rc.mul(&theta)), "the objective went from {objective} to {obj} with relative cost {rc} and step {theta}");
        check!(driving_out || obj <= objective, "the objective worsened from {objective} to {obj}");
        check!(driving_out || theta.is_zero() || obj < objective, "the objective stayed {objective} in a step of length {theta}");
        if level == Level::Full {
            let cols: Vec<K::Column> = (0..kind.nr_columns()).map(|j| kind.original_column(j)).collect();
            let columns: Vec<Vec<Rat>> = cols.iter().map(|c| column_of::<RB, _>(c, m)).collect();
            self.check_state(
                &vec![],
                &columns,
                |j| self.cost(j).add(&from(&self.inner.cost_difference(&cols[j]))),
                |j| full(self.inner.generate_column(kind.original_column(j)).column()),
            );
            let inv = inverse(&transpose(&after.iter().map(|&j| columns[j].clone()).collect::<Vec<_>>())).unwrap();
            let old = inverse(&transpose(&basis.iter().map(|&j| columns[j].clone()).collect::<Vec<_>>())).unwrap();
            check!(full(&info.basis_inverse_row) == inv[row], "the row of the inverse given for the basis change is wrong");
            check!(full(&info.column_before_change) == col, "the column given for the basis change is wrong");
            check!(full(&info.work_vector) == vec_mul(&col, &old), "the work vector given for the basis change is wrong");
            for i in 0..m.min(3) {
                let i = (i * 7 + row) % m;
                let j = (q + i * 3) % cols.len();
                let e = self.inner.generate_element(i, kind.original_column(j)).map_or(Rat::zero(), |v| from(&v));
                check!(e == dot(&inv[i], &columns[j]), "element {i}, {j} is {e}");
            }
        }
        with(|r| {
            r.pivots[phase - 1] += 1;
            r.max_bits = r.max_bits.max(obj.bits());
            if theta.is_zero() {
                r.degenerate += 1;
            }
            if driving_out {
                r.driven_out += 1;
                r.seen.clear();
            }
            let new = r.seen.insert(after.clone());
            r.basis = after.clone();
            check!(new || !r.memoryless, "the method is in an endless cycle: basis {after:?} of phase {phase} returned after {} basis changes", r.pivots[phase - 1]);
            check!(r.pivots[phase - 1] <= r.limit, "more than {} basis changes in phase {phase}", r.limit);
        });
        info
    }
    fn cost_difference<C: Column>(&self, original_column: &C) -> Self::F
    where
        Self::F: ops::Column<C::F>,
    {
        self.inner.cost_difference(original_column)
    }
    fn generate_column<C: Column>(&self, original_column: C) -> Self::ColumnComputationInfo
    where
        Self::F: ops::Column<C::F>,
    {
        self.inner.generate_column(original_column)
    }
    fn generate_element<C: Column>(&self, i: usize, original_column: C) -> Option<Self::F>
    where
        Self::F: ops::Column<C::F>,
    {
        self.inner.generate_element(i, original_column)
    }
    fn current_bfs(&self) -> Vec<SparseTuple<Self::F>> {
        self.inner.current_bfs()
    }
    fn basis_column_index_for_row(&self, row: usize) -> usize {
        self.inner.basis_column_index_for_row(row)
    }
    fn b(&self) -> DenseVector<Self::F> {
        self.inner.b()
    }
    fn get_objective_function_value(&self) -> Self::F {
        self.inner.get_objective_function_value()
    }
    fn get_constraint_value(&self, i: usize) -> &Self::F {
        self.inner.get_constraint_value(i)
    }
}
