//! The library under test as a user calls it: translation of a problem in and of answers out.
use crate::big::Rat;
use crate::lp::{Lp, Rel};
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::basis_inverse_rows::BasisInverseRows;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::lower_upper::LUDecomposition;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::Carry;
use relp::algorithm::two_phase::tableau::inverse_maintenance::InverseMaintainer;
use relp::algorithm::{OptimizationResult, SolveRelaxation};
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp::data::linear_program::elements::{
    LinearProgramType, Objective, RangedConstraintRelation, VariableType,
};
use relp::data::linear_program::general_form::{GeneralForm, Scalable, Variable};
use relp::data::linear_program::solution::Solution;
use relp_num::RationalBig;
use std::fmt::Display;

pub type RB = RationalBig;
pub type Lu = Carry<RB, LUDecomposition<RB>>;
pub type Rows = Carry<RB, BasisInverseRows<RB>>;

pub fn to_rb(r: &Rat) -> RB {
    match r {
        Rat::S(a, b) => RB::new(*a, *b as u64).unwrap(),
        _ => {
            let s = r.to_string();
            let s = if s.contains('/') { s } else { format!("{s}/1") };
            s.parse::<RB>().unwrap_or_else(|_| panic!("harness: number {s}"))
        }
    }
}
pub fn from<F: Display>(f: &F) -> Rat {
    let s = f.to_string();
    Rat::parse(&s).unwrap_or_else(|| panic!("harness: cannot read number {s:?}"))
}

pub fn to_64(r: &Rat) -> Option<relp_num::Rational64> {
    match r {
        Rat::S(a, b) => relp_num::Rational64::new(*a, *b as u64),
        _ => None,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Infeasible,
    Unbounded,
    Optimal { obj: Rat, values: Vec<(String, Rat)> },
}
impl Outcome {
    pub fn kind(&self) -> &'static str {
        match self {
            Outcome::Infeasible => "infeasible",
            Outcome::Unbounded => "unbounded",
            Outcome::Optimal { .. } => "optimal",
        }
    }
}
pub fn outcome_of<F: Display>(s: Solution<F>) -> Outcome {
    Outcome::Optimal {
        obj: from(&s.objective_value),
        values: s.solution_values.iter().map(|(n, v)| (n.clone(), from(v))).collect(),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Opts {
    pub presolve: bool,
    pub scale: bool,
    pub lu: bool,
}
pub const DEFAULT: Opts = Opts { presolve: true, scale: false, lu: true };

pub fn relation<T>(r: &Rel, f: impl Fn(&Rat) -> T) -> RangedConstraintRelation<T> {
    match r {
        Rel::Le => RangedConstraintRelation::Less,
        Rel::Ge => RangedConstraintRelation::Greater,
        Rel::Eq => RangedConstraintRelation::Equal,
        Rel::Rng(w) => RangedConstraintRelation::Range(f(w)),
    }
}

pub fn general(lp: &Lp) -> GeneralForm<RB> {
    let m = lp.rows.len();
    let n = lp.vars.len();
    let mut cols: Vec<Vec<(usize, RB)>> = vec![vec![]; n];
    for (i, r) in lp.rows.iter().enumerate() {
        for (j, a) in &r.coef {
            cols[*j].push((i, to_rb(a)));
        }
    }
    GeneralForm::new(
        if lp.max { Objective::Maximize } else { Objective::Minimize },
        ColumnMajor::new(cols, m, n),
        lp.rows.iter().map(|r| relation(&r.rel, to_rb)).collect(),
        DenseVector::new(lp.rows.iter().map(|r| to_rb(&r.rhs)).collect(), m),
        lp.vars
            .iter()
            .map(|v| Variable {
                variable_type: VariableType::Continuous,
                cost: to_rb(&v.cost),
                lower_bound: v.lb.as_ref().map(to_rb),
                upper_bound: v.ub.as_ref().map(to_rb),
                shift: to_rb(&Rat::zero()),
                flipped: false,
            })
            .collect(),
        lp.vars.iter().map(|v| v.name.clone()).collect(),
        to_rb(&lp.fixed),
    )
}

pub fn presolve(g: &mut GeneralForm<RB>) -> Option<Outcome> {
    match g.presolve() {
        Ok(()) => None,
        Err(LinearProgramType::FiniteOptimum(s)) => Some(outcome_of(s)),
        Err(LinearProgramType::Infeasible) => Some(Outcome::Infeasible),
        Err(LinearProgramType::Unbounded) => Some(Outcome::Unbounded),
    }
}

/// Standardise (and scale), solve with the given inverse maintainer, map the answer back.
pub fn finish<IM>(mut g: GeneralForm<RB>, scale: bool) -> Outcome
where
    IM: InverseMaintainer<F = RB>,
{
    let counts = g.standardize();
    let scaling = if scale { Some(g.scale()) } else { None };
    let mut reduced: SparseVector<RB, RB> = {
        let data = g.derive_matrix_data(counts);
        match data.solve_relaxation::<IM>() {
            OptimizationResult::FiniteOptimum(v) => data.reconstruct_solution(v),
            OptimizationResult::Infeasible => return Outcome::Infeasible,
            OptimizationResult::Unbounded => return Outcome::Unbounded,
        }
    };
    if let Some(s) = scaling {
        s.scale_back(&mut reduced);
        g.scale_back(s);
    }
    outcome_of(g.compute_full_solution_with_reduced_solution(reduced))
}

pub fn solve_general<IM: InverseMaintainer<F = RB>>(mut g: GeneralForm<RB>, pre: bool, scale: bool) -> Outcome {
    if pre {
        if let Some(o) = presolve(&mut g) {
            return o;
        }
    }
    finish::<IM>(g, scale)
}

pub fn solve(lp: &Lp, o: Opts) -> Outcome {
    let g = general(lp);
    if o.lu {
        solve_general::<Lu>(g, o.presolve, o.scale)
    } else {
        solve_general::<Rows>(g, o.presolve, o.scale)
    }
}

/// The same through a number type of fixed size for the problem and arbitrary precision in the
/// solver, as the project's own tests do; `None` if a number of the problem does not fit.
macro_rules! narrow {
    ($name:ident, $finish:ident, $t:ty, $i:ty, $u:ty) => {
        pub fn $name(lp: &Lp, presolve: bool, lu: bool) -> Option<(Outcome, bool)> {
            use std::convert::TryFrom;
            let to = |r: &Rat| match r {
                Rat::S(a, b) => <$t>::new(<$i>::try_from(*a).ok()?, <$u>::try_from(*b).ok()?),
                _ => None,
            };
            let (m, n) = (lp.rows.len(), lp.vars.len());
            let mut cols: Vec<Vec<(usize, $t)>> = vec![vec![]; n];
            for (i, r) in lp.rows.iter().enumerate() {
                for (j, a) in &r.coef {
                    cols[*j].push((i, to(a)?));
                }
            }
            let relations = lp
                .rows
                .iter()
                .map(|r| match &r.rel {
                    Rel::Le => Some(RangedConstraintRelation::Less),
                    Rel::Ge => Some(RangedConstraintRelation::Greater),
                    Rel::Eq => Some(RangedConstraintRelation::Equal),
                    Rel::Rng(w) => to(w).map(RangedConstraintRelation::Range),
                })
                .collect::<Option<Vec<_>>>()?;
            let bound = |b: &Option<Rat>| match b {
                Some(v) => to(v).map(Some),
                None => Some(None),
            };
            let variables = lp
                .vars
                .iter()
                .map(|v| {
                    Some(Variable {
                        variable_type: VariableType::Continuous,
                        cost: to(&v.cost)?,
                        lower_bound: bound(&v.lb)?,
                        upper_bound: bound(&v.ub)?,
                        shift: to(&Rat::zero())?,
                        flipped: false,
                    })
                })
                .collect::<Option<Vec<_>>>()?;
            let g: GeneralForm<$t> = GeneralForm::new(
                if lp.max { Objective::Maximize } else { Objective::Minimize },
                ColumnMajor::new(cols, m, n),
                relations,
                DenseVector::new(lp.rows.iter().map(|r| to(&r.rhs)).collect::<Option<Vec<_>>>()?, m),
                variables,
                lp.vars.iter().map(|v| v.name.clone()).collect(),
                to(&lp.fixed)?,
            );
            Some($finish(g, presolve, lu))
        }
        /// The outcome, and whether presolve found it.
        pub fn $finish(mut g: GeneralForm<$t>, presolve: bool, lu: bool) -> (Outcome, bool) {
            if presolve {
                match g.presolve() {
                    Ok(()) => {}
                    Err(LinearProgramType::FiniteOptimum(s)) => return (outcome_of(s), true),
                    Err(LinearProgramType::Infeasible) => return (Outcome::Infeasible, true),
                    Err(LinearProgramType::Unbounded) => return (Outcome::Unbounded, true),
                }
            }
            let counts = g.standardize();
            let reduced: SparseVector<RB, RB> = {
                let data = g.derive_matrix_data(counts);
                match if lu { data.solve_relaxation::<Lu>() } else { data.solve_relaxation::<Rows>() } {
                    OptimizationResult::FiniteOptimum(v) => data.reconstruct_solution(v),
                    OptimizationResult::Infeasible => return (Outcome::Infeasible, false),
                    OptimizationResult::Unbounded => return (Outcome::Unbounded, false),
                }
            };
            (outcome_of(g.compute_full_solution_with_reduced_solution(reduced)), false)
        }
    };
}
narrow!(solve_64, solve_general_64, relp_num::Rational64, i64, u64);
narrow!(solve_32, solve_general_32, relp_num::Rational32, i32, u32);

/// A matrix provider read column by column, as the equality system over nonnegative variables that
/// the simplex method sees.
pub fn system<'a, MP>(mp: &'a MP) -> Lp
where
    MP: MatrixProvider,
    RB: relp::algorithm::two_phase::tableau::inverse_maintenance::ops::Column<<MP::Column as relp::algorithm::two_phase::matrix_provider::column::Column>::F>
        + relp::algorithm::two_phase::tableau::inverse_maintenance::ops::Cost<MP::Cost<'a>>
        + relp::algorithm::two_phase::tableau::inverse_maintenance::ops::Rhs<MP::Rhs>,
{
    use crate::lp::{Row, Var};
    use num_traits::Zero;
    let m = mp.nr_rows();
    let n = mp.nr_columns();
    let rhs = mp.right_hand_side();
    let rhs: Vec<Rat> = rhs.iter().map(|v| from(&(RB::zero() + v))).collect();
    if rhs.len() != m {
        panic!("monitor: {} right-hand sides for {m} rows", rhs.len());
    }
    let mut rows: Vec<Row> = rhs.into_iter().enumerate().map(|(i, b)| Row { name: format!("r{i}"), rel: Rel::Eq, rhs: b, coef: vec![] }).collect();
    let mut vars = vec![];
    for j in 0..n {
        use relp::algorithm::two_phase::matrix_provider::column::Column;
        let c = mp.column(j);
        let mut last: Option<usize> = None;
        for (i, v) in c.iter() {
            if i >= m {
                panic!("monitor: column {j} has an entry in row {i} of {m}");
            }
            if last.is_some_and(|l| l >= i) {
                panic!("monitor: the entries of column {j} are not in order");
            }
            last = Some(i);
            let v = from(&RB::from(v));
            if v.is_zero() {
                panic!("monitor: column {j} stores a zero in row {i}");
            }
            rows[i].coef.push((j, v));
        }
        vars.push(Var { name: format!("c{j}"), cost: from(&(RB::zero() + mp.cost_value(j))), lb: Some(Rat::zero()), ub: None });
    }
    Lp { max: false, fixed: Rat::zero(), rows, vars }
}
pub fn sparse(v: &[Rat]) -> SparseVector<RB, RB> {
    SparseVector::new(v.iter().enumerate().filter(|x| !x.1.is_zero()).map(|(i, x)| (i, to_rb(x))).collect(), v.len())
}
